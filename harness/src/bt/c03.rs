//! Range queries.
use super::common::*;
use crate::entries;
use crate::vf::*;
use core::ops::Bound;
use core::ops::Bound::*;

entries!(c03_range, c03_mix, c03_forms, c03_meth);

fn bound(kind: u64, k: u32) -> Bound<Q> {
    match kind {
        0 => Included(Q(k)),
        1 => Excluded(Q(k)),
        _ => Unbounded,
    }
}
/// expected positions [a, b) in the model, or None if the bounds must panic
#[inline(never)]
fn expect(m: &Model, lk: u64, lo: u32, hk: u64, hi: u32) -> Option<(usize, usize)> {
    if lk < 2 && hk < 2 {
        if is(lo > hi) || (lk == 1 && hk == 1 && is(lo == hi)) {
            return None;
        }
    }
    let a = match lk {
        0 => m.find(lo).0,
        1 => {
            let (i, f) = m.find(lo);
            i + f as usize
        }
        _ => 0,
    };
    let b = match hk {
        0 => {
            let (i, f) = m.find(hi);
            i + f as usize
        }
        1 => m.find(hi).0,
        _ => m.n,
    };
    Some((a, b))
}

/// dir: 0 front, 1 back, 2 alternating, 3 free at every step
fn backward(dir: u64, i: usize) -> bool {
    match dir {
        0 => false,
        1 => true,
        2 => i % 2 == 1,
        _ => is(any_bool()),
    }
}

#[inline(never)]
fn drive<T, I: DoubleEndedIterator<Item = T>>(it: &mut I, a: usize, b: usize, dir: u64, at: &mut dyn FnMut(T, usize)) {
    let (mut lo, mut hi) = (a, b);
    let mut i = 0;
    loop {
        let back = backward(dir, i);
        i += 1;
        let x = if back { it.next_back() } else { it.next() };
        match x {
            None => {
                check(lo >= hi, "a range yields every entry inside its bounds");
                break;
            }
            Some(x) => {
                check(lo < hi, "a range yields nothing outside its bounds");
                if lo >= hi {
                    return;
                }
                if back {
                    hi -= 1;
                    at(x, hi);
                } else {
                    at(x, lo);
                    lo += 1;
                }
            }
        }
    }
    check(it.next().is_none(), "an exhausted range yields nothing");
    check(it.next_back().is_none(), "an exhausted range yields nothing from the back");
}

#[inline(never)]
fn go(n: u32, how: u32, seed: u32, lk: u64, hk: u64, what: u64, dir: u64, from: u64, w: u64) {
    let m = model(0);
    let pick = |m: &Model| {
        if w == 0 || m.n == 0 {
            any_key(m)
        } else {
            let a = (from as usize).min(m.n - 1);
            let b = (from + w).min(m.n as u64 - 1) as usize;
            range((m.k[a] as u64).saturating_sub(5), m.k[b] as u64 + 5) as u32
        }
    };
    if what == 2 {
        let mut s = Set::new();
        build_set(&mut s, m, n, how, seed);
        let (lo, hi) = (pick(m), pick(m));
        let e = expect(m, lk, lo, hk, hi);
        let mm = &*m;
        let mut done = false;
        let p = panics(|| {
            let mut it = s.range::<Q, _>((bound(lk, lo), bound(hk, hi)));
            done = true;
            if let Some((a, b)) = e {
                drive(&mut it, a, b, dir, &mut |k: &K, i| {
                    check(k.t.0 == mm.id[i] && k.k == mm.k[i], "a set range yields the expected element");
                });
            }
        });
        check(p == e.is_none(), "inverted set bounds panic, others do not");
        check(done != p, "an inverted set range gives no iterator");
        same_set(&s, m);
        drop(s);
        fin();
        return;
    }
    let mut map = Map::new();
    build(&mut map, m, n, how, seed);
    let (lo, hi) = (pick(m), pick(m));
    let e = expect(m, lk, lo, hk, hi);
    let mut p;
    {
        let mm = &mut *m;
        if what == 0 {
            p = panics(|| {
                let mut it = map.range::<Q, _>((bound(lk, lo), bound(hk, hi)));
                if let Some((a, b)) = e {
                    let mut c = it.clone();
                    drive(&mut it, a, b, dir, &mut |(k, v): (&K, &Val), i| {
                        v.t.touch();
                        check(k.t.0 == mm.id[i], "a range yields the stored key");
                        check(k.k == mm.k[i] && v.v == mm.v[i], "a range yields the expected entry");
                    });
                    match c.next() {
                        Some((k, _)) => check(a < b && k.t.0 == mm.id[a], "a copied range yields the same entries"),
                        None => check(a >= b, "a copied range yields the same entries"),
                    }
                }
            });
        } else {
            p = panics(|| {
                let mut it = map.range_mut::<Q, _>((bound(lk, lo), bound(hk, hi)));
                if let Some((a, b)) = e {
                    drive(&mut it, a, b, dir, &mut |(k, v): (&K, &mut Val), i| {
                        check(k.t.0 == mm.id[i], "a mutable range yields the stored key");
                        check(k.k == mm.k[i] && v.v == mm.v[i], "a mutable range yields the expected entry");
                        v.v = 5000 + i as u32;
                        mm.v[i] = 5000 + i as u32;
                    });
                }
            });
        }
    }
    match e {
        None => cover("inverted bounds"),
        Some((a, b)) => {
            if a == b {
                cover("empty range")
            }
            if a + 1 < b {
                cover("several entries")
            }
            obs((b - a) as u64)
        }
    }
    check(p == e.is_none(), "inverted bounds panic, others do not");
    same(&map, m);
    drop(map);
    fin();
}

/// params: n, how, seed, lower kind, upper kind, what (0 range, 1 range_mut, 2 set range), dir, window start, width
#[no_mangle]
pub extern "C-unwind" fn c03_range() {
    go(param(0) as u32, param(1) as u32, param(2) as u32, param(3), param(4), param(5), param(6), param(7), param(8));
}

/// Free interleaving of both ends in a window. Same params.
#[no_mangle]
pub extern "C-unwind" fn c03_mix() {
    go(param(0) as u32, param(1) as u32, param(2) as u32, param(3), param(4), param(5), 3, param(7), param(8));
}

/// One provided method, after some steps from either end, seen from the front or (`rev`) from the back.
#[inline(never)]
fn method<T, I: DoubleEndedIterator<Item = T>>(mut it: I, a: usize, b: usize, how: u64, rev: bool, at: &mut dyn FnMut(&T, usize)) {
    let (mut lo, mut hi) = (a, b);
    for i in 0..choose(3) {
        if lo < hi {
            if i == 0 {
                let _ = it.next();
                lo += 1;
            } else {
                let _ = it.next_back();
                hi -= 1;
            }
        }
    }
    if rev {
        forward(it.rev(), hi - lo, how, &mut |x: &T, i: usize| at(x, hi - 1 - i));
    } else {
        forward(it, hi - lo, how, &mut |x: &T, i: usize| at(x, lo + i));
    }
}
/// Provided iterator methods. params: n, how, what (0 range, 1 range_mut, 2 set range), kinds of bounds, method, from the back, window start
#[no_mangle]
pub extern "C-unwind" fn c03_meth() {
    let (n, how, what, kinds, meth, rev, from) = (param(0) as u32, param(1) as u32, param(2), param(3), param(4), param(5) == 1, param(6) as usize);
    let m = model(0);
    let (mut map, mut s) = (Map::new(), Set::new());
    if what == 2 {
        build_set(&mut s, m, n, how, 1);
    } else {
        build(&mut map, m, n, how, 1);
    }
    let lo = range(m.k[from] as u64 - 5, m.k[from] as u64 + 5) as u32;
    let z = (from + 3 + 3 * choose(2) as usize).min(m.n - 1);
    let hi = range(m.k[z] as u64 - 5, m.k[z] as u64 + 5) as u32;
    let (lk, hk) = (kinds % 3, kinds / 3);
    let (a, b) = match expect(m, lk, lo, hk, hi) {
        Some(e) => e,
        None => return,
    };
    let mm = &*m;
    cover("a provided method of a range");
    match what {
        0 => method(map.range::<Q, _>((bound(lk, lo), bound(hk, hi))), a, b, meth, rev, &mut |(k, v): &(&K, &Val), i| {
            check(k.t.0 == mm.id[i] && v.v == mm.v[i], "a range yields the expected entry");
        }),
        1 => method(map.range_mut::<Q, _>((bound(lk, lo), bound(hk, hi))), a, b, meth, rev, &mut |(k, v): &(&K, &mut Val), i| {
            check(k.t.0 == mm.id[i] && v.v == mm.v[i], "a mutable range yields the expected entry");
        }),
        _ => method(s.range::<Q, _>((bound(lk, lo), bound(hk, hi))), a, b, meth, rev, &mut |k: &&K, i| {
            check(k.t.0 == mm.id[i], "a set range yields the expected element");
        }),
    }
    if what == 2 {
        same_set(&s, m);
    } else {
        same(&map, m);
    }
    drop((map, s));
    fin();
}

/// The range syntax forms. params: n, how, seed, form
#[no_mangle]
pub extern "C-unwind" fn c03_forms() {
    let (n, how, seed, form) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3));
    let m = model(0);
    let mut map = Map::new();
    build(&mut map, m, n, how, seed);
    let (lo, hi) = (any_key(m), any_key(m));
    assume(lo <= hi);
    let (mut it, e) = match form {
        0 => (map.range(Q(lo)..), expect(m, 0, lo, 2, 0)),
        1 => (map.range(..Q(hi)), expect(m, 2, 0, 1, hi)),
        2 => (map.range(..=Q(hi)), expect(m, 2, 0, 0, hi)),
        3 => (map.range(Q(lo)..Q(hi)), expect(m, 0, lo, 1, hi)),
        4 => (map.range(Q(lo)..=Q(hi)), expect(m, 0, lo, 0, hi)),
        _ => (map.range::<Q, _>(..), expect(m, 2, 0, 2, 0)),
    };
    let (a, b) = e.unwrap();
    let mm = &*m;
    cover("range form");
    drive(&mut it, a, b, form % 3, &mut |(k, v): (&K, &Val), i| {
        check(k.t.0 == mm.id[i] && v.v == mm.v[i], "a range form yields the expected entry");
    });
    drop(map);
    fin();
}
