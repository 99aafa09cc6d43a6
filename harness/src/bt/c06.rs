//! Set algebra.
use super::common::*;
use crate::entries;
use crate::vf::*;

entries!(c06_shift, c06_few, c06_small, c06_self, c06_win, c06_big, c06_meth);

const NONE: u32 = u32::MAX;

/// ids of the expected elements, in order
struct Want {
    n: usize,
    a: [u32; CAP],
    b: [u32; CAP],
}
static mut WANT: Want = Want { n: 0, a: [0; CAP], b: [0; CAP] };

/// op: 0 union, 1 intersection, 2 difference, 3 symmetric difference
#[inline(never)]
fn expect(ma: &Model, mb: &Model, op: u64) -> &'static mut Want {
    let w = unsafe { &mut *core::ptr::addr_of_mut!(WANT) };
    w.n = 0;
    let (mut i, mut j) = (0, 0);
    while i < ma.n || j < mb.n {
        let (x, y);
        if j == mb.n || (i < ma.n && is(ma.k[i] < mb.k[j])) {
            (x, y) = (ma.id[i], NONE);
            i += 1;
        } else if i < ma.n && is(ma.k[i] == mb.k[j]) {
            (x, y) = (ma.id[i], mb.id[j]);
            i += 1;
            j += 1;
        } else {
            (x, y) = (NONE, mb.id[j]);
            j += 1;
        }
        let keep = match op {
            0 => true,
            1 => x != NONE && y != NONE,
            2 => x != NONE && y == NONE,
            _ => (x == NONE) != (y == NONE),
        };
        if keep {
            w.a[w.n] = x;
            w.b[w.n] = y;
            w.n += 1;
        }
    }
    w
}

#[inline(never)]
fn drive<'a, I: Iterator<Item = &'a K> + Clone>(it: I, w: &Want) {
    let mut it = it;
    let mut i = 0;
    loop {
        let (l, h) = it.size_hint();
        check(l <= w.n - i, "the size hint's lower bound is right");
        check(h.map_or(true, |h| h >= w.n - i), "the size hint's upper bound is right");
        let mut c = it.clone();
        match it.next() {
            None => {
                check(i == w.n, "the result is complete");
                break;
            }
            Some(x) => {
                x.t.touch();
                check(i < w.n, "the result has no extra or repeated element");
                if i >= w.n {
                    return;
                }
                check(x.t.0 == w.a[i] || x.t.0 == w.b[i], "the result consists of the expected elements in ascending order");
                if i % 5 == 0 {
                    check(c.next().map(|y| y.t.0) == Some(x.t.0), "a copied iterator yields the same element");
                }
                i += 1;
            }
        }
    }
    check(it.next().is_none(), "an exhausted result yields nothing");
    obs(i as u64);
}

#[inline(never)]
fn algebra(a: &Set, ma: &Model, b: &Set, mb: &Model, op: u64) {
    match op {
        0 => drive(a.union(b), expect(ma, mb, 0)),
        1 => drive(a.intersection(b), expect(ma, mb, 1)),
        2 => drive(a.difference(b), expect(ma, mb, 2)),
        3 => drive(a.symmetric_difference(b), expect(ma, mb, 3)),
        4 => {
            let com = expect(ma, mb, 1).n;
            check(a.is_disjoint(b) == (com == 0), "disjoint exactly if there is no common element");
            check(b.is_disjoint(a) == (com == 0), "disjointness is symmetric");
            check(a.is_subset(b) == (com == ma.n), "a subset exactly if every element is in the other");
            check(a.is_superset(b) == (com == mb.n), "a superset exactly if every element of the other is in it");
            check(b.is_subset(a) == (com == mb.n), "subset and superset agree");
            check(b.is_superset(a) == (com == ma.n), "superset and subset agree");
            if com == 0 {
                cover("disjoint")
            } else {
                cover("overlapping")
            }
            if com == ma.n && ma.n > 0 {
                cover("subset")
            }
        }
        _ => {
            let before = live_tokens();
            let r = match op {
                5 => a | b,
                6 => a & b,
                7 => a - b,
                _ => a ^ b,
            };
            let w = expect(ma, mb, op - 5);
            check(r.len() == w.n, "an operator's result has the right number of elements");
            check(live_tokens() == before + w.n as i32, "an operator copies exactly the elements of its result");
            // which of two equal elements is in the result is for the method to say
            match op {
                5 => chosen(a.union(b), w),
                6 => chosen(a.intersection(b), w),
                7 => chosen(a.difference(b), w),
                _ => chosen(a.symmetric_difference(b), w),
            }
            let mut i = 0;
            for x in r.iter() {
                check(origin(x) == w.a[i], "an operator's result holds copies of the elements the method yields");
                let k = if holds(ma, w.a[i]) { ma.k[pos(ma, w.a[i])] } else { mb.k[pos(mb, w.a[i])] };
                check(x.k == k, "an operator's result has the expected elements");
                i += 1;
            }
            check(i == w.n, "an operator's result is complete");
            cover("operator form");
        }
    }
}
#[inline(never)]
fn chosen<'a, I: Iterator<Item = &'a K>>(it: I, w: &mut Want) {
    let mut i = 0;
    for x in it {
        check(i < w.n && (x.t.0 == w.a[i] || x.t.0 == w.b[i]), "the result consists of the expected elements in ascending order");
        w.a[i] = x.t.0;
        i += 1;
    }
    check(i == w.n, "the result is complete");
}
fn holds(m: &Model, id: u32) -> bool {
    pos(m, id) < m.n
}
fn pos(m: &Model, id: u32) -> usize {
    let mut i = 0;
    while i < m.n && m.id[i] != id {
        i += 1;
    }
    i
}
fn both(a: &Set, ma: &Model, b: &Set, mb: &Model, op: u64, swap: u64) {
    if swap == 0 {
        algebra(a, ma, b, mb, op)
    } else {
        algebra(b, mb, a, ma, op)
    }
    same_set(a, ma);
    same_set(b, mb);
}

/// Two sets, the second's elements at every offset. params: n1, how, n2, distance, op, swap
#[no_mangle]
pub extern "C-unwind" fn c06_shift() {
    let (n1, how, n2, dist, op, swap) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3) as u32, param(4), param(5));
    let (ma, mb) = (model(0), model(1));
    let (mut a, mut b) = (Set::new(), Set::new());
    build_set(&mut a, ma, n1, how, 1);
    let base = any_key(ma);
    for i in 0..n2 {
        let kk = key(base + i * dist);
        mb.put_at(i as usize, kk.k, 0, kk.t.0);
        check(matches!(b.try_insert(kk), Ok(true)), "an insertion succeeds while memory is available");
    }
    both(&a, ma, &b, mb, op, swap);
    drop((a, b));
    fin();
}

/// A set and a few free elements. params: n, how, few, op, swap
#[no_mangle]
pub extern "C-unwind" fn c06_few() {
    let (n, how, few, op, swap) = (param(0) as u32, param(1) as u32, param(2), param(3), param(4));
    let (ma, mb) = (model(0), model(1));
    let (mut a, mut b) = (Set::new(), Set::new());
    build_set(&mut a, ma, n, how, 1);
    for _ in 0..few {
        let k = any_key(ma);
        sins(&mut b, mb, k);
    }
    both(&a, ma, &b, mb, op, swap);
    drop((a, b));
    fin();
}

/// Two sets of free elements. params: n1, n2, highest element, op
#[no_mangle]
pub extern "C-unwind" fn c06_small() {
    let (n1, n2, hi, op) = (param(0), param(1), param(2), param(3));
    let (ma, mb) = (model(0), model(1));
    let (mut a, mut b) = (Set::new(), Set::new());
    for _ in 0..n1 {
        let k = range(0, hi) as u32;
        sins(&mut a, ma, k);
    }
    for _ in 0..n2 {
        let k = range(0, hi) as u32;
        sins(&mut b, mb, k);
    }
    both(&a, ma, &b, mb, op, 0);
    drop((a, b));
    fin();
}

/// A set with itself, and with an equal or almost equal set. params: n, how, op
#[no_mangle]
pub extern "C-unwind" fn c06_self() {
    let (n, how, op) = (param(0) as u32, param(1) as u32, param(2));
    let (ma, mb) = (model(0), model(1));
    let (mut a, mut b) = (Set::new(), Set::new());
    build_set(&mut a, ma, n, how, 1);
    for i in 0..ma.n {
        sins(&mut b, mb, ma.k[ma.n - 1 - i]);
    }
    let k = any_key(ma);
    if is(any_bool()) {
        sins(&mut b, mb, k);
    } else {
        srem(&mut b, mb, k);
    }
    both(&a, ma, &b, mb, op, 0);
    algebra(&a, ma, &a, ma, op);
    drop((a, b));
    fin();
}

/// A set and a few free elements near one place. params: n, how, few, op, swap, place, width
#[no_mangle]
pub extern "C-unwind" fn c06_win() {
    let (n, how, few, op, swap) = (param(0) as u32, param(1) as u32, param(2), param(3), param(4));
    let (at, w) = (param(5) as usize, param(6) as usize);
    let (ma, mb) = (model(0), model(1));
    let (mut a, mut b) = (Set::new(), Set::new());
    build_set(&mut a, ma, n, how, 1);
    for _ in 0..few {
        let k = range(ma.k[at] as u64, ma.k[at + w] as u64 + 1) as u32;
        sins(&mut b, mb, k);
    }
    both(&a, ma, &b, mb, op, swap);
    drop((a, b));
    fin();
}

/// Two larger sets, the second beginning around a given place of the first. params: n1, how, n2, distance, op, swap, place
#[no_mangle]
pub extern "C-unwind" fn c06_big() {
    let (n1, how, n2, dist, op, swap, place) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3) as u32, param(4), param(5), param(6));
    let (ma, mb) = (model(0), model(1));
    let (mut a, mut b) = (Set::new(), Set::new());
    build_set(&mut a, ma, n1, how, 1);
    let base = range(place * STEP as u64, (place + 1) * STEP as u64 + 1) as u32;
    for i in 0..n2 {
        sins(&mut b, mb, base + i * dist);
    }
    both(&a, ma, &b, mb, op, swap);
    drop((a, b));
    fin();
}

#[inline(never)]
fn met<'a, I: Iterator<Item = &'a K> + Clone>(mut it: I, w: &Want, what: u64) {
    let a = any_count(w.n as u64) as usize;
    for _ in 0..a {
        let _ = it.next();
    }
    if what == FORWARD || what == FORWARD + 1 {
        let x = if what == FORWARD { it.min() } else { it.max() };
        check(x.is_some() == (a < w.n), "least and greatest exist exactly when an element is left");
        if let (Some(x), true) = (x, a < w.n) {
            let i = if what == FORWARD { a } else { w.n - 1 };
            check(x.t.0 == w.a[i] || x.t.0 == w.b[i], "the result consists of the expected elements in ascending order");
        }
        return;
    }
    forward(it, w.n - a, what, &mut |x: &&K, i: usize| {
        x.t.touch();
        check(x.t.0 == w.a[a + i] || x.t.0 == w.b[a + i], "the result consists of the expected elements in ascending order");
    });
}
/// Provided methods of the four iterators, after any number of steps. params: n, distance of the second set's elements, op, method, 1: against a single element, 2: against the same elements but one
#[no_mangle]
pub extern "C-unwind" fn c06_meth() {
    let (n, dist, op, what, extra) = (param(0) as u32, param(1) as u32, param(2), param(3), param(4));
    let (ma, mb) = (model(0), model(1));
    let (mut a, mut b) = (Set::new(), Set::new());
    build_set(&mut a, ma, n, 0, 1);
    if extra == 1 {
        let k = any_key(ma);
        sins(&mut b, mb, k);
    } else if extra == 2 {
        // the same elements, but for one there or not
        build_set(&mut b, mb, n, 1, 1);
        let k = any_key(mb);
        if mb.find(k).1 {
            srem(&mut b, mb, k);
        } else {
            sins(&mut b, mb, k);
        }
    } else {
        for i in 0..n {
            sins(&mut b, mb, (n / 2) * STEP + i * dist);
        }
    }
    match op {
        0 => met(a.union(&b), expect(ma, mb, 0), what),
        1 => met(b.intersection(&a), expect(mb, ma, 1), what),
        2 => met(a.difference(&b), expect(ma, mb, 2), what),
        _ => met(b.symmetric_difference(&a), expect(mb, ma, 3), what),
    }
    same_set(&a, ma);
    same_set(&b, mb);
    drop((a, b));
    fin();
}
