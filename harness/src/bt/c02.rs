//! Iteration from both ends.
use super::common::*;
use crate::entries;
use crate::vf::*;

entries!(c02_all, c02_runs, c02_stop, c02_set, c02_meth, c02_clone);

/// Walks `it` (which must yield entries 0..n) following `dir`; `at(item, i)` checks an item.
struct Walk {
    lo: usize,
    hi: usize,
}
impl Walk {
    #[inline(never)]
    fn step<T, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(&mut self, it: &mut I, back: bool, at: &mut dyn FnMut(T, usize)) {
        let left = self.hi - self.lo;
        check(it.len() == left, "the remaining count is exact");
        check(it.size_hint() == (left, Some(left)), "the size hint is exact");
        let x = if back { it.next_back() } else { it.next() };
        match x {
            None => {
                check(left == 0, "iteration does not end before every entry was yielded");
                cover("exhausted");
            }
            Some(x) => {
                check(left > 0, "nothing is yielded after exhaustion");
                if left == 0 {
                    return;
                }
                if back {
                    self.hi -= 1;
                    at(x, self.hi);
                } else {
                    at(x, self.lo);
                    self.lo += 1;
                }
            }
        }
    }
}

enum Plan {
    /// every direction chosen freely at every step
    Free,
    /// a from the front, b from the back, then alternating by `alt`
    Runs(usize, usize, usize),
}

#[inline(never)]
fn walk<T, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(it: &mut I, n: usize, plan: &Plan, at: &mut dyn FnMut(T, usize)) {
    let mut w = Walk { lo: 0, hi: n };
    match *plan {
        Plan::Free => {
            for _ in 0..n + 2 {
                let b = is(any_bool());
                w.step(it, b, at);
            }
        }
        Plan::Runs(a, b, alt) => {
            for _ in 0..a {
                w.step(it, false, at);
            }
            for _ in 0..b {
                w.step(it, true, at);
            }
            let mut i = 0;
            while w.lo < w.hi {
                w.step(it, i % (alt + 1) == alt, at);
                i += 1;
            }
            w.step(it, false, at);
            w.step(it, true, at);
            w.step(it, false, at);
        }
    }
}

#[inline(never)]
fn kind_walk(map: Map, m: &mut Model, kind: u64, plan: &Plan) {
    let mut map = map;
    let n = m.n;
    match kind {
        0 => {
            let mut it = map.iter();
            let mm = &*m;
            let (k0, v0) = (mm.k[0], mm.v[0]);
            let _ = (k0, v0);
            walk(&mut it, n, plan, &mut |(k, v): (&K, &Val), i| {
                check(k.k == mm.k[i], "iteration yields the expected key");
                check(k.t.0 == mm.id[i] && v.v == mm.v[i], "iteration yields the stored key and value");
                v.t.touch();
            });
            let mut c = map.iter();
            let _ = c.next();
            let mut d = c.clone();
            check(d.len() == c.len(), "a copied iterator has the same remaining count");
            if let (Some(x), Some(y)) = (c.next_back(), d.next_back()) {
                check(x.0.t.0 == y.0.t.0, "a copied iterator yields the same entry");
            }
        }
        1 => {
            {
                let mm = &mut *m;
                let mut it = map.iter_mut();
                walk(&mut it, n, plan, &mut |(k, v): (&K, &mut Val), i| {
                    check(k.k == mm.k[i], "mutable iteration yields the expected key");
                    check(k.t.0 == mm.id[i] && v.v == mm.v[i], "mutable iteration yields the stored key and value");
                    v.v = 1000 + i as u32;
                    mm.v[i] = 1000 + i as u32;
                });
            }
            same(&map, m);
        }
        2 => {
            let mm = &*m;
            let mut it = map.keys();
            walk(&mut it, n, plan, &mut |k: &K, i| check(k.k == mm.k[i] && k.t.0 == mm.id[i], "keys() yields the expected key"));
            let c = map.keys();
            check(c.clone().len() == n, "a copied key iterator has the same remaining count");
        }
        3 => {
            let mm = &*m;
            let mut it = map.values();
            walk(&mut it, n, plan, &mut |v: &Val, i| {
                v.t.touch();
                check(v.v == mm.v[i], "values() yields the expected value");
            });
            let c = map.values();
            check(c.clone().len() == n, "a copied value iterator has the same remaining count");
        }
        4 => {
            {
                let mm = &mut *m;
                let mut it = map.values_mut();
                walk(&mut it, n, plan, &mut |v: &mut Val, i| {
                    check(v.v == mm.v[i], "values_mut() yields the expected value");
                    v.v = 2000 + i as u32;
                    mm.v[i] = 2000 + i as u32;
                });
            }
            same(&map, m);
        }
        5 => {
            let mm = &*m;
            let live = live_tokens();
            let mut cnt = 0;
            {
                let mut it = core::mem::replace(&mut map, Map::new()).into_iter();
                walk(&mut it, n, plan, &mut |(k, v): (K, Val), i| {
                    check(k.k == mm.k[i], "consuming iteration yields the expected key");
                    check(k.t.0 == mm.id[i] && v.v == mm.v[i], "consuming iteration yields the stored key and value");
                    cnt += 1;
                    drop((k, v));
                    check(live_tokens() == live - 2 * cnt, "consuming iteration releases nothing but what it yields");
                });
            }
            check(live_tokens() == live - 2 * n as i32, "consuming iteration releases everything");
        }
        6 => {
            let mm = &*m;
            let mut it = map.iter();
            if n > 0 {
                check(it.clone().next_back().map(|x| x.0.k) == Some(mm.k[n - 1]), "the last entry is the greatest");
                let (k, _) = (&map).into_iter().max_by(|a, b| a.0.cmp(b.0)).unwrap();
                check(k.k == mm.k[n - 1], "the greatest entry is the last");
                for (_, v) in &mut map {
                    v.v += 1;
                }
                let mut i = 0;
                for (_, v) in &map {
                    check(v.v == mm.v[i] + 1, "a mutable loop visits every entry once");
                    i += 1;
                }
                check(i == n, "a loop visits every entry");
            } else {
                check(it.next().is_none(), "an empty map yields nothing");
            }
        }
        _ => {
            // unbounded ranges are iterators too
            let mm = &*m;
            let mut it = map.range::<Q, _>(..);
            let (mut lo, mut hi) = (0, n);
            let mut back = false;
            if let Plan::Runs(a, b, alt) = *plan {
                let mut i = 0;
                while lo < hi {
                    back = if i < a { false } else if i < a + b { true } else { i % (alt + 1) == alt };
                    let x = if back { it.next_back() } else { it.next() };
                    let j = if back { hi - 1 } else { lo };
                    match x {
                        Some((k, _)) => check(k.t.0 == mm.id[j], "the full range yields every entry"),
                        None => check(false, "the full range yields every entry"),
                    }
                    if back {
                        hi -= 1
                    } else {
                        lo += 1
                    }
                    i += 1;
                }
                check(it.next().is_none() && it.next_back().is_none(), "the full range ends");
            }
        }
    }
    drop(map);
}

/// Every interleaving of front and back steps. params: n, how, seed, kind
#[no_mangle]
pub extern "C-unwind" fn c02_all() {
    let (n, how, seed, kind) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3));
    let mut map = Map::new();
    let m = model(0);
    build(&mut map, m, n, how, seed);
    kind_walk(map, m, kind, &Plan::Free);
    fin();
}

/// Any number of front steps, then any number of back steps, then alternating. params: n, how, seed, kind, alt, gap
#[no_mangle]
pub extern "C-unwind" fn c02_runs() {
    let (n, how, seed, kind, alt, gap) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3), param(4) as usize, param(5));
    let mut map = Map::new();
    let m = model(0);
    build(&mut map, m, n, how, seed);
    let n = m.n as u64;
    let a = any_count(n / gap) * gap;
    let b = any_count((n - a) / gap) * gap;
    obs(a + b);
    kind_walk(map, m, kind, &Plan::Runs(a as usize, b as usize, alt));
    fin();
}

/// Consuming iteration stopped anywhere. params: n, how, seed, gap
#[no_mangle]
pub extern "C-unwind" fn c02_stop() {
    let (n, how, seed, gap) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3));
    let mut map = Map::new();
    let m = model(0);
    build(&mut map, m, n, how, seed);
    let n = m.n as u64;
    let a = any_count(n / gap) * gap;
    let b = any_count((n - a) / gap) * gap;
    let last: Option<(K, Val)>;
    {
        let mut it = map.into_iter();
        let mut w = Walk { lo: 0, hi: n as usize };
        let mm = &*m;
        let mut at = |(k, _): (K, Val), i: usize| check(k.t.0 == mm.id[i], "consuming iteration yields the expected entry");
        for _ in 0..a {
            w.step(&mut it, false, &mut at);
        }
        for _ in 0..b {
            w.step(&mut it, true, &mut at);
        }
        last = it.next();
        let kept = if last.is_some() { 2 } else { 0 };
        check(kept == if a + b < n { 2 } else { 0 }, "iteration ends when every entry was yielded");
        check(live_tokens() == 2 * (n - a - b) as i32, "entries not yet yielded are alive");
        for j in (a + 1) as usize..(n - b) as usize {
            check(token_live(m.id[j]), "entries not yet yielded are alive");
        }
        cover("stopped early");
    }
    check(live_tokens() == if last.is_some() { 2 } else { 0 }, "stopping releases exactly the entries not yielded");
    if let Some((k, v)) = &last {
        k.t.touch();
        v.t.touch();
        check(k.t.0 == m.id[a as usize], "the entry yielded last is the next one");
    }
    drop(last);
    fin();
}

/// Set iterators. params: n, how, seed, kind, alt, gap
#[no_mangle]
pub extern "C-unwind" fn c02_set() {
    let (n, how, seed, kind, alt, gap) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3), param(4) as usize, param(5));
    let mut s = Set::new();
    let m = model(0);
    build_set(&mut s, m, n, how, seed);
    let n = m.n as u64;
    let a = any_count(n / gap) * gap;
    let b = any_count((n - a) / gap) * gap;
    let plan = Plan::Runs(a as usize, b as usize, alt);
    let mm = &*m;
    if kind == 0 {
        let mut it = s.iter();
        walk(&mut it, n as usize, &plan, &mut |k: &K, i| check(k.t.0 == mm.id[i] && k.k == mm.k[i], "set iteration yields the expected element"));
        let mut c = s.iter();
        let _ = c.next();
        check(c.clone().len() == c.len(), "a copied set iterator has the same remaining count");
        drop(s);
    } else {
        let mut it = s.into_iter();
        walk(&mut it, n as usize, &plan, &mut |k: K, i| check(k.t.0 == mm.id[i] && k.k == mm.k[i], "consuming set iteration yields the expected element"));
    }
    fin();
}

#[inline(never)]
fn clones<T, I: DoubleEndedIterator<Item = T> + Clone>(it: &mut I, lo: usize, hi: usize, at: &mut dyn FnMut(T, usize)) {
    for dir in 0..3 {
        let mut c = it.clone();
        check(c.size_hint() == it.size_hint(), "a copied iterator has the same size hint");
        drain(&mut c, lo, hi, dir, at);
    }
    let c = it.clone();
    drain(it, lo, hi, 2, at);
    let mut c = c;
    drain(&mut c, lo, hi, 1, at);
    cover("copies drained");
}

/// Provided methods of every iterator after any number of front and back steps. params: n, how, seed, kind, what, gap
#[no_mangle]
pub extern "C-unwind" fn c02_meth() {
    let (n, how, seed, kind, what, gap) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3), param(4), param(5));
    let m = model(0);
    if kind >= 8 {
        let mut s = Set::new();
        build_set(&mut s, m, n, how, seed);
        let mm = &*m;
        let (a, b) = ends(mm.n, gap);
        let (lo, hi) = (a, mm.n - b);
        let mut at = |k: &K, i: usize| check((k.t.0 == mm.id[i]) & (k.k == mm.k[i]), "a set iterator yields the expected element");
        match kind {
            8 => {
                let mut it = s.iter();
                advance(&mut it, a, b);
                method(it, lo, hi, what, &mut at);
            }
            9 => {
                let mut it = s.range::<Q, _>(..);
                advance(&mut it, a, b);
                method(it, lo, hi, what, &mut at);
            }
            _ => {
                let mut it = core::mem::replace(&mut s, Set::new()).into_iter();
                advance(&mut it, a, b);
                method(it, lo, hi, what, &mut |k: K, i: usize| check((k.t.0 == mm.id[i]) & (k.k == mm.k[i]), "a set iterator yields the expected element"));
            }
        }
        drop(s);
        fin();
        return;
    }
    let mut map = Map::new();
    build(&mut map, m, n, how, seed);
    let mm = &*m;
    let (a, b) = ends(mm.n, gap);
    let (lo, hi) = (a, mm.n - b);
    match kind {
        0 => {
            let mut it = map.iter();
            advance(&mut it, a, b);
            method(it, lo, hi, what, &mut |(k, v): (&K, &Val), i: usize| check((k.t.0 == mm.id[i]) & (k.k == mm.k[i]) & (v.v == mm.v[i]), "an iterator yields the expected entry"));
        }
        1 => {
            let mut it = map.iter_mut();
            advance(&mut it, a, b);
            method(it, lo, hi, what, &mut |(k, v): (&K, &mut Val), i: usize| check((k.t.0 == mm.id[i]) & (k.k == mm.k[i]) & (v.v == mm.v[i]), "a mutable iterator yields the expected entry"));
        }
        2 => {
            let mut it = map.keys();
            advance(&mut it, a, b);
            method(it, lo, hi, what, &mut |k: &K, i: usize| check((k.t.0 == mm.id[i]) & (k.k == mm.k[i]), "a key iterator yields the expected key"));
        }
        3 => {
            let mut it = map.values();
            advance(&mut it, a, b);
            method(it, lo, hi, what, &mut |v: &Val, i: usize| check(v.v == mm.v[i], "a value iterator yields the expected value"));
        }
        4 => {
            let mut it = map.values_mut();
            advance(&mut it, a, b);
            method(it, lo, hi, what, &mut |v: &mut Val, i: usize| check(v.v == mm.v[i], "a mutable value iterator yields the expected value"));
        }
        5 => {
            let mut it = core::mem::replace(&mut map, Map::new()).into_iter();
            advance(&mut it, a, b);
            method(it, lo, hi, what, &mut |(k, v): (K, Val), i: usize| check((k.t.0 == mm.id[i]) & (k.k == mm.k[i]) & (v.v == mm.v[i]), "a consuming iterator yields the expected entry"));
            check(live_tokens() == 0, "a consuming iterator releases everything");
        }
        6 => {
            let mut it = map.range::<Q, _>(..);
            advance(&mut it, a, b);
            method(it, lo, hi, what, &mut |(k, v): (&K, &Val), i: usize| check((k.t.0 == mm.id[i]) & (k.k == mm.k[i]) & (v.v == mm.v[i]), "a range yields the expected entry"));
        }
        _ => {
            let mut it = map.range_mut::<Q, _>(..);
            advance(&mut it, a, b);
            method(it, lo, hi, what, &mut |(k, v): (&K, &mut Val), i: usize| check((k.t.0 == mm.id[i]) & (k.k == mm.k[i]) & (v.v == mm.v[i]), "a mutable range yields the expected entry"));
        }
    }
    drop(map);
    fin();
}

/// Copies of every cloneable iterator after any number of front and back steps, drained from either end.
/// params: n, how, seed, kind, gap
#[no_mangle]
pub extern "C-unwind" fn c02_clone() {
    let (n, how, seed, kind, gap) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3), param(4));
    let m = model(0);
    let mut s = Set::new();
    let mut map = Map::new();
    if kind >= 4 {
        build_set(&mut s, m, n, how, seed);
    } else {
        build(&mut map, m, n, how, seed);
    }
    let mm = &*m;
    let (a, b) = ends(mm.n, gap);
    let (lo, hi) = (a, mm.n - b);
    let mut pair = |(k, v): (&K, &Val), i: usize| check((k.t.0 == mm.id[i]) & (k.k == mm.k[i]) & (v.v == mm.v[i]), "a copied iterator yields the expected entry");
    let mut one = |k: &K, i: usize| check((k.t.0 == mm.id[i]) & (k.k == mm.k[i]), "a copied iterator yields the expected key");
    match kind {
        0 => {
            let mut it = map.iter();
            advance(&mut it, a, b);
            clones(&mut it, lo, hi, &mut pair);
        }
        1 => {
            let mut it = map.keys();
            advance(&mut it, a, b);
            clones(&mut it, lo, hi, &mut one);
        }
        2 => {
            let mut it = map.values();
            advance(&mut it, a, b);
            clones(&mut it, lo, hi, &mut |v: &Val, i: usize| check(v.v == mm.v[i], "a copied iterator yields the expected value"));
        }
        3 => {
            let mut it = map.range::<Q, _>(..);
            advance(&mut it, a, b);
            clones(&mut it, lo, hi, &mut pair);
        }
        4 => {
            let mut it = s.iter();
            advance(&mut it, a, b);
            clones(&mut it, lo, hi, &mut one);
        }
        _ => {
            let mut it = s.range::<Q, _>(..);
            advance(&mut it, a, b);
            clones(&mut it, lo, hi, &mut one);
        }
    }
    drop(map);
    drop(s);
    fin();
}
