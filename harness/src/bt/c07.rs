//! The set is the mathematical set under every history.
use super::common::*;
use crate::entries;
use crate::vf::*;

entries!(c07_op, c07_seq, c07_hist, c07_bulk, c07_refs, c07_meth);

#[inline(never)]
fn step(s: &mut Set, m: &mut Model, op: u64, k: u32) {
    let (i, f) = m.find(k);
    match op {
        0 => {
            sins(s, m, k);
            if f {
                cover("insert of a present element")
            } else {
                cover("insert of a new element")
            }
        }
        1 => {
            srem(s, m, k);
            if f {
                cover("remove hits")
            } else {
                cover("remove misses")
            }
        }
        2 => {
            let kk = key(k);
            let id = kk.t.0;
            match s.replace(kk) {
                Ok(Some(o)) => {
                    check(f && o.t.0 == m.id[i] && o.k == k, "replacing returns the stored element");
                    o.t.touch();
                    m.id[i] = id;
                    cover("replace hits");
                }
                Ok(None) => {
                    check(!f, "replacing returns the stored element if there is one");
                    m.put_at(i, k, 0, id);
                    cover("replace misses");
                }
                Err(_) => check(false, "replacing succeeds while memory is available"),
            }
        }
        3 => match s.take(&Q(k)) {
            Some(o) => {
                check(f && o.t.0 == m.id[i] && o.k == k, "taking returns the stored element");
                o.t.touch();
                m.del(k);
                cover("take hits");
            }
            None => {
                check(!f, "taking finds every stored element");
                cover("take misses");
            }
        },
        4 => {
            check(s.contains(&Q(k)) == f, "contains holds exactly for the stored elements");
            match s.get(&Q(k)) {
                Some(o) => check(f && o.t.0 == m.id[i], "get returns the stored element"),
                None => check(!f, "get finds every stored element"),
            }
            let mut c = 0;
            for x in s.range(Q(k)..) {
                check(i + c < m.n && x.t.0 == m.id[i + c], "a range starts at the bound");
                c += 1;
            }
            check(i + c == m.n, "a range yields every element from the bound on");
        }
        _ => {
            s.clear();
            m.clear();
            same_set(s, m);
            sins(s, m, k);
            cover("cleared and refilled");
        }
    }
    check(live_tokens() == m.n as i32, "a set operation releases exactly what leaves the set");
}

#[inline(never)]
fn ends(s: &Set, m: &Model) {
    let mut it = s.iter();
    let mut j = m.n;
    while let Some(x) = it.next_back() {
        check(j > 0 && x.t.0 == m.id[j - 1], "iteration from the back is descending");
        j -= 1;
    }
    check(j == 0, "iteration from the back yields every element");
    for i in 0..m.n {
        check(s.contains(&Q(m.k[i])), "contains holds for every stored element");
    }
}

/// params: n, how, seed, op
#[no_mangle]
pub extern "C-unwind" fn c07_op() {
    let (n, how, seed, op) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3));
    let mut s = Set::new();
    let m = model(0);
    build_set(&mut s, m, n, how, seed);
    let k = any_key(m);
    step(&mut s, m, op, k);
    obs(s.len() as u64);
    same_set(&s, m);
    ends(&s, m);
    drop(s);
    fin();
}

/// params: n, how, seed, operations (base 6 digits), count
#[no_mangle]
pub extern "C-unwind" fn c07_seq() {
    let (n, how, seed, mut ops, cnt) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3), param(4));
    let mut s = Set::new();
    let m = model(0);
    build_set(&mut s, m, n, how, seed);
    for _ in 0..cnt {
        let k = any_key(m);
        step(&mut s, m, ops % 6, k);
        ops /= 6;
    }
    obs(s.len() as u64);
    same_set(&s, m);
    ends(&s, m);
    drop(s);
    fin();
}

/// Every history of `cnt` operations on the empty set. params: count, highest key
#[no_mangle]
pub extern "C-unwind" fn c07_hist() {
    let (cnt, hi) = (param(0), param(1));
    let mut s = Set::new();
    let m = model(0);
    for _ in 0..cnt {
        let op = concretize(range(0, 3));
        let k = range(0, hi) as u32;
        step(&mut s, m, op, k);
    }
    same_set(&s, m);
    ends(&s, m);
    drop(s);
    fin();
}

/// Collecting and extending. params: number of free elements, fixed elements before, fixed elements in the source,
/// every so many of them a different one
#[no_mangle]
pub extern "C-unwind" fn c07_bulk() {
    let (free, n, more, differ) = (param(0) as usize, param(1) as u32, param(2) as usize, param(3) as usize);
    let m = model(0);
    let mut ks = [0u32; 128];
    let top = n.max(differ as u32) as u64 * STEP as u64 + 15;
    // the free elements in the middle of the fixed ones
    for i in 0..more {
        let at = if i < more / 2 { i } else { i + free };
        ks[at] = ((i * 7 + 3) % differ) as u32 * STEP + 5;
    }
    for i in 0..free {
        ks[more / 2 + i] = range(0, top) as u32;
    }
    let all = free + more;
    struct Src<'a>(&'a [u32], usize, &'a mut Model);
    impl Iterator for Src<'_> {
        type Item = K;
        fn next(&mut self) -> Option<K> {
            if self.1 == self.0.len() {
                return None;
            }
            self.1 += 1;
            let k = key(self.0[self.1 - 1]);
            let (i, f) = self.2.find(k.k);
            if !f {
                self.2.put_at(i, k.k, 0, k.t.0);
            }
            Some(k)
        }
    }
    let mut s: Set = if n == 0 {
        Src(&ks[..all], 0, m).collect()
    } else {
        let mut s = Set::default();
        for i in 0..n {
            sins(&mut s, m, (i + 1) * STEP);
        }
        s.extend(Src(&ks[..all], 0, m));
        s
    };
    cover("collected");
    same_set(&s, m);
    ends(&s, m);
    step(&mut s, m, 1, ks[more / 2]);
    drop(s);
    fin();
}

/// Extending from references. params: number of free elements, fixed elements before, fixed elements in the source
#[no_mangle]
pub extern "C-unwind" fn c07_refs() {
    let (free, n, more) = (param(0) as usize, param(1) as u32, param(2) as u32);
    let m = model(0);
    let mut ks = [0u32; 128];
    for i in 0..free {
        ks[i] = range(0, n.max(more) as u64 * STEP as u64 + 15) as u32;
    }
    for i in 0..more as usize {
        ks[free + i] = (more - i as u32) * STEP + 5;
    }
    let all = free + more as usize;
    let mut s: fallible_collections::btree::BTreeSet<u32> = Default::default();
    for i in 0..n {
        check(matches!(s.try_insert((i + 1) * STEP), Ok(true)), "an insertion succeeds while memory is available");
        m.put_at(m.n, (i + 1) * STEP, 0, 0);
    }
    s.extend(ks[..all].iter());
    for i in 0..all {
        m.put(ks[i], 0, 0);
    }
    cover("extended from references");
    check(s.len() == m.n, "the length equals the number of elements");
    let mut it = s.iter();
    for i in 0..m.n {
        check(it.next() == Some(&m.k[i]), "a set extended from references holds exactly the elements, in ascending order");
    }
    check(it.next().is_none(), "a set extended from references holds no other element");
}

/// Provided methods of the iterators after any number of front and back steps. params: n, how, kind (0 iter, 1 range, 2 into_iter), method
#[no_mangle]
pub extern "C-unwind" fn c07_meth() {
    let (n, how, kind, what) = (param(0) as u32, param(1) as u32, param(2), param(3));
    let m = model(0);
    let mut s = Set::new();
    build_set(&mut s, m, n, how, 1);
    // one more element, anywhere
    let k = any_key(m);
    sins(&mut s, m, k);
    let mm = &*m;
    let (a, b) = super::common::ends(mm.n, if n > 6 { 3 } else { 1 });
    let (lo, hi) = (a, mm.n - b);
    let mut at = |k: &K, i: usize| check((k.t.0 == mm.id[i]) & (k.k == mm.k[i]), "a set iterator yields the expected element");
    cover("a provided iterator method");
    match kind {
        0 => {
            let mut it = s.iter();
            advance(&mut it, a, b);
            method(it, lo, hi, what, &mut at);
        }
        1 => {
            let mut it = s.range::<Q, _>(..);
            advance(&mut it, a, b);
            method(it, lo, hi, what, &mut at);
        }
        _ => {
            let mut it = core::mem::replace(&mut s, Set::new()).into_iter();
            advance(&mut it, a, b);
            method(it, lo, hi, what, &mut |k: K, i: usize| check((k.t.0 == mm.id[i]) & (k.k == mm.k[i]), "a set iterator yields the expected element"));
        }
    }
    drop(s);
    fin();
}
