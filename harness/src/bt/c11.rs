//! Comparisons grow with the logarithm of the size, memory with the size.
use super::common::*;
use crate::entries;
use crate::vf::*;
use fallible_collections::btree::map::Entry;

entries!(c11_op, c11_churn, c11_hist, c11_set, c11_empty, c11_sizes);

/// Twice the comparisons a linear search makes in every node of the tallest tree of `n` entries whose nodes
/// hold 4 to 11 keys.
fn limit(n: usize) -> u64 {
    let mut height = 1;
    let mut least = 11; // one leaf
    // a tree of height h has at least 2 * 5^(h-1) - 1 entries
    let mut p = 1;
    while 2 * p * 5 - 1 <= n {
        p *= 5;
        height += 1;
        least += 11;
    }
    let _ = height;
    2 * least + 4
}
/// Every node but the root holds at least four keys.
#[inline(never)]
fn compact(blocks: u64, n: usize) {
    check(blocks <= 1 + n as u64 / 4, "the number of heap blocks is proportional to the number of entries");
    if n > 0 {
        check(blocks >= (n as u64 + 10) / 11, "harness: blocks are counted");
    }
}
#[inline(never)]
fn within(before: u64, n: usize, what: &'static str) {
    let c = cmps() - before;
    obs(c);
    check(c <= limit(n), what);
}

#[inline(never)]
fn op(map: &mut Map, m: &mut Model, o: u64, k: u32) {
    let n = m.n;
    let c = cmps();
    match o {
        0 => {
            let r = map.get(&Q(k)).is_some();
            within(c, n, "a lookup compares a logarithmic number of keys");
            obs(r as u64);
        }
        1 => {
            let r = map.try_insert(key(k), val(1));
            within(c, n + 1, "an insertion compares a logarithmic number of keys");
            drop(r);
        }
        2 => {
            let r = map.remove(&Q(k));
            within(c, n, "a removal compares a logarithmic number of keys");
            drop(r);
        }
        3 => {
            let r = map.try_entry(key(k));
            match r {
                Ok(Entry::Vacant(e)) => drop(e.try_insert(val(1)).is_ok()),
                Ok(Entry::Occupied(e)) => drop(e.remove_entry()),
                Err(_) => check(false, "no failure while memory is available"),
            }
            within(c, n + 1, "an entry operation compares a logarithmic number of keys");
        }
        4 => {
            let r = map.range(Q(k)..).next().is_some();
            within(c, n, "a range compares a logarithmic number of keys");
            let r2 = map.range(Q(k)..=Q(k + 1)).next_back().is_some();
            obs(r as u64 + r2 as u64);
            check(cmps() - c <= 3 * limit(n) + 4, "a range compares a logarithmic number of keys");
        }
        5 => {
            let r = map.split_off(&Q(k));
            within(c, n, "a split compares a logarithmic number of keys");
            if let Ok(mut r) = r {
                let (a, b) = (map.len(), r.len());
                let both = live();
                drop(core::mem::take(map));
                let right = live();
                compact(right, b);
                compact(both - right, a);
                let c = cmps();
                drop(r.get(&Q(k + 100)).is_some());
                within(c, b, "a lookup compares a logarithmic number of keys");
                *map = r;
            }
        }
        6 => {
            let mut o = Map::new();
            for i in 0..n as u32 / 2 + 3 {
                drop(o.try_insert(key(k + 37 * i), val(i)));
            }
            let t = n as u64 + o.len() as u64;
            let c = cmps();
            map.append(&mut o);
            check(cmps() - c <= t, "an append compares every key once at most");
        }
        _ => {}
    }
}

#[inline(never)]
fn probe(map: &Map, k: u32) {
    let c = cmps();
    let f = map.contains_key(&Q(k));
    within(c, map.len(), "a lookup compares a logarithmic number of keys");
    obs(f as u64);
}

/// params: n, how, seed, operation, second operation (9: none)
#[no_mangle]
pub extern "C-unwind" fn c11_op() {
    let mut map = Map::new();
    let m = model(0);
    build(&mut map, m, param(0) as u32, param(1) as u32, param(2) as u32);
    compact(live(), map.len());
    let k = any_key(m);
    op(&mut map, m, param(3), k);
    compact(live(), map.len());
    if param(4) < 9 {
        m.n = map.len(); // only used as a size from here on
        let k = range(0, 10 * param(0) + 15) as u32;
        op(&mut map, m, param(4), k);
        compact(live(), map.len());
    }
    for j in 0..4 {
        probe(&map, 10 * param(0) as u32 * j / 3 + 1);
    }
}

/// Long uses that keep the size small or shrink it, then one free operation.
/// params: n, how, seed, pattern, steps
#[no_mangle]
pub extern "C-unwind" fn c11_churn() {
    let (n, steps) = (param(0) as u32, param(4) as u32);
    let mut map = Map::new();
    let m = model(0);
    build(&mut map, m, n, param(1) as u32, param(2) as u32);
    let mut rng = param(2) as u32 * 7 + 1;
    let mut next = || {
        rng = rng.wrapping_mul(1103515245).wrapping_add(12345);
        rng >> 8
    };
    let mut top = m.k[m.n - 1];
    for i in 0..steps {
        let first = m.k[0];
        let last = m.k[m.n - 1];
        match param(3) {
            // queue either way
            0 => {
                top += STEP;
                ins(&mut map, m, top, i);
                rem(&mut map, m, first);
            }
            1 => {
                rem(&mut map, m, last);
                let k = first.saturating_sub(1);
                ins(&mut map, m, k, i);
            }
            // drain: from the front, from the back, from the middle, at random, every third
            2 if m.n > 1 => rem(&mut map, m, first),
            3 if m.n > 1 => rem(&mut map, m, last),
            4 if m.n > 1 => {
                let k = m.k[m.n / 2];
                rem(&mut map, m, k)
            }
            5 if m.n > 1 => {
                let k = m.k[next() as usize % m.n];
                rem(&mut map, m, k)
            }
            6 if m.n > 1 => {
                let k = m.k[(i as usize * 3) % m.n];
                rem(&mut map, m, k)
            }
            // split somewhere and keep or drop a part, or put it back
            7 if m.n > 30 => {
                let at = next() as usize % m.n;
                let k = m.k[at];
                if let Ok(mut r) = map.split_off(&Q(k)) {
                    if i % 3 == 0 {
                        map.append(&mut r);
                    } else {
                        drop(r);
                        m.n = at;
                        if at == 0 {
                            ins(&mut map, m, k, i);
                        }
                    }
                }
                for j in 0..9 {
                    let k = next() % (n * 20);
                    ins(&mut map, m, k, j);
                }
            }
            // random insertions and removals
            8 => {
                let k = m.k[next() as usize % m.n];
                rem(&mut map, m, k);
                let k = next() % (n * 20);
                ins(&mut map, m, k, i);
            }
            _ => {}
        }
        compact(live(), map.len());
        if i % 16 == 0 {
            let c = cmps();
            for j in 0..4 {
                drop(map.contains_key(&Q(m.k[(m.n - 1) * j / 3])));
            }
            check(cmps() - c <= 4 * limit(m.n), "a lookup compares a logarithmic number of keys");
        }
    }
    let o = choose(6);
    let k = if m.n > 40 { range(m.k[m.n / 2] as u64 - 25, m.k[m.n / 2] as u64 + 25) as u32 } else { any_key(m) };
    op(&mut map, m, o, k);
    compact(live(), map.len());
}

/// All histories of insertions and removals from the empty map.  params: steps, spread
#[no_mangle]
pub extern "C-unwind" fn c11_hist() {
    let mut map = Map::new();
    let m = model(0);
    for _ in 0..param(0) {
        let k = range(0, param(1)) as u32;
        let o = choose(4);
        m.n = map.len();
        op(&mut map, m, o, k);
        compact(live(), map.len());
    }
}

/// params: n, how, seed, operation
#[no_mangle]
pub extern "C-unwind" fn c11_set() {
    let mut s = Set::new();
    let m = model(0);
    build_set(&mut s, m, param(0) as u32, param(1) as u32, param(2) as u32);
    compact(live(), s.len());
    let k = any_key(m);
    let c = cmps();
    match param(3) {
        0 => obs(s.contains(&Q(k)) as u64),
        1 => drop(s.try_insert(key(k))),
        2 => obs(s.remove(&Q(k)) as u64),
        3 => drop(s.take(&Q(k))),
        4 => drop(s.get(&Q(k)).is_some()),
        _ => drop(s.replace(key(k))),
    }
    within(c, m.n + 1, "a set operation compares a logarithmic number of elements");
    compact(live(), s.len());
}

/// What was never filled holds no memory, and what was emptied at most one block.  params: n
#[no_mangle]
pub extern "C-unwind" fn c11_empty() {
    let n = param(0) as u32;
    let mut map = Map::new();
    let m = model(0);
    check(live() == 0, "a new map holds no memory");
    let mut set = Set::new();
    check(map.get(&Q(1)).is_none() && map.remove(&Q(1)).is_none() && map.iter().next().is_none(), "a new map is empty");
    check(map.range(Q(0)..).next().is_none() && !set.contains(&Q(1)) && set.iter().next().is_none(), "a new set is empty");
    map.clear();
    drop(map.clone());
    let mut o = Map::new();
    map.append(&mut o);
    drop(map.split_off(&Q(3)));
    let c: Map = core::iter::empty().collect();
    drop(c);
    check(live() == 0, "a map never filled holds no memory");
    build(&mut map, m, n, 0, 0);
    build_set(&mut set, m, 0, 0, 0);
    while m.n > 0 {
        let i = choose(2) as usize * (m.n - 1);
        let k = m.k[i];
        rem(&mut map, m, k);
        if m.n > 5 {
            m.n = m.n;
        }
    }
    check(live() <= 1, "an emptied map holds at most one node");
    map.clear();
    check(live() == 0, "a cleared map holds no memory");
    drop(set);
}

/// Appending for every total size in a range, or splitting at every place in it; then removals from one end: a node
/// left too empty shows at the latest when few others remain.
/// params: smallest size or place, how many, share of the second map (1: every other key, 2: every fifth, 3: the last third,
/// 4: split `size` off at the place instead), end (0 right, 1 left), size
#[no_mangle]
pub extern "C-unwind" fn c11_sizes() {
    let (share, end) = (param(2), param(3));
    let m = model(0);
    m.clear();
    let (mut a, mut b) = (Map::new(), Map::new());
    let n = if share == 4 { param(4) as u32 } else { param(0) as u32 + choose(param(1)) as u32 };
    for i in 0..n {
        let second = match share {
            1 => i % 2 == 1,
            2 => i % 5 == 4,
            3 => i >= n - n / 3,
            _ => false,
        };
        let k = key(i * STEP);
        m.put_at(i as usize, i * STEP, i, k.t.0);
        let r = if second { b.try_insert(k, val(i)) } else { a.try_insert(k, val(i)) };
        check(r.is_ok(), "no failure while memory is available");
    }
    if share == 4 {
        let k = range(param(0) * STEP as u64, (param(0) + param(1)) * STEP as u64) as u32;
        match a.split_off(&Q(k)) {
            Ok(r) => {
                let at = a.len() as u32;
                check((at + 1) * STEP > k, "nothing above the key stays");
                if end == 0 {
                    m.n = at as usize;
                } else {
                    for i in at..n {
                        m.put_at((i - at) as usize, i * STEP, i, 0);
                    }
                    m.n = (n - at) as usize;
                    a = r;
                }
            }
            Err(_) => check(false, "no failure while memory is available"),
        }
    } else {
        // one more, at or near the end
        let k = range((n * STEP).saturating_sub(25) as u64, (n * STEP) as u64 + 5) as u32;
        check(b.try_insert(key(k), val(n)).is_ok(), "no failure while memory is available");
        a.append(&mut b);
        check(b.is_empty(), "appending empties the other map");
    }
    drop(b);
    // the end that was mended is the one to be left over
    let mut first = 0;
    let mut last = m.n;
    compact(live(), a.len());
    while first < last {
        let k = if (share == 4) == (end == 0) {
            first += 1;
            m.k[first - 1]
        } else {
            last -= 1;
            m.k[last]
        };
        check(a.remove(&Q(k)).is_some(), "the key is there");
        compact(live(), a.len());
    }
    cover("drained");
}
