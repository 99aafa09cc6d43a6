//! The map is the mathematical finite map under every history.
use super::common::*;
use crate::entries;
use crate::vf::*;

entries!(c01_op, c01_seq, c01_hist, c01_drain, c01_bulk);

#[inline(never)]
fn lookups(map: &mut Map, m: &mut Model, k: u32) {
    let (i, found) = m.find(k);
    check(map.contains_key(&Q(k)) == found, "contains_key holds exactly for the stored keys");
    match map.get(&Q(k)) {
        Some(v) => check(found && v.v == m.v[i], "get returns the stored value"),
        None => check(!found, "get finds every stored key"),
    }
    match map.get_key_value(&Q(k)) {
        Some((kk, v)) => {
            check(found, "get_key_value finds only stored keys");
            check(kk.t.0 == m.id[i], "get_key_value returns the stored key");
            check(kk.k == k, "get_key_value returns an equal key");
            check(v.v == m.v[i], "get_key_value returns the stored value");
            cover("lookup hits");
        }
        None => {
            check(!found, "get_key_value finds every stored key");
            cover("lookup misses");
        }
    }
    let w = any32();
    match map.get_mut(&Q(k)) {
        Some(v) => {
            check(found && v.v == m.v[i], "get_mut designates the stored value");
            v.v = w;
            m.v[i] = w;
        }
        None => check(!found, "get_mut finds every stored key"),
    }
    let mut got = 0;
    let p = panics(|| got = map[&Q(k)].v);
    check(p == !found, "indexing panics exactly for absent keys");
    if found {
        check(got == w, "indexing returns the stored value");
    }
}

#[inline(never)]
fn step(map: &mut Map, m: &mut Model, op: u64, k: u32) {
    match op {
        0 => {
            let v = any32();
            let n = m.n;
            ins(map, m, k, v);
            if m.n > n {
                cover("insert adds")
            } else {
                cover("insert replaces")
            }
        }
        1 => {
            let n = m.n;
            rem(map, m, k);
            if m.n < n {
                cover("remove hits")
            } else {
                cover("remove misses")
            }
        }
        2 => lookups(map, m, k),
        _ => {
            map.clear();
            m.clear();
            same(map, m);
            ins(map, m, k, 7);
            cover("cleared and refilled");
        }
    }
}

/// One operation with a symbolic key on a tree of a given shape.
#[no_mangle]
pub extern "C-unwind" fn c01_op() {
    let (n, how, seed, op) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3));
    let mut map = Map::new();
    let m = model(0);
    build(&mut map, m, n, how, seed);
    let k = any_key(m);
    step(&mut map, m, op, k);
    obs(map.len() as u64);
    same(&map, m);
    same_lookup(&map, m);
    drop(map);
    fin();
}

/// A sequence of operations, each with its own symbolic key. params: n, how, seed, ops as base-4 digits
/// (least significant first), number of ops
#[no_mangle]
pub extern "C-unwind" fn c01_seq() {
    let (n, how, seed, ops, cnt) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3), param(4));
    let mut map = Map::new();
    let m = model(0);
    build(&mut map, m, n, how, seed);
    let mut o = ops;
    for _ in 0..cnt {
        let k = any_key(m);
        step(&mut map, m, o % 4, k);
        o /= 4;
    }
    obs(map.len() as u64);
    same(&map, m);
    same_lookup(&map, m);
    drop(map);
    fin();
}

/// Every history of `cnt` insertions and removals from the empty map, keys in 0..=hi.
#[no_mangle]
pub extern "C-unwind" fn c01_hist() {
    let (cnt, hi) = (param(0), param(1));
    let mut map = Map::new();
    let m = model(0);
    for _ in 0..cnt {
        let op = choose(2);
        let k = range(0, hi) as u32;
        step(&mut map, m, op, k);
    }
    obs(map.len() as u64);
    same(&map, m);
    same_lookup(&map, m);
    drop(map);
    fin();
}

/// Empty a tree in a given order, with one symbolic operation at a symbolic moment (every `gap` removals).
/// params: n, how, seed, removal order, gap, window (0: any key)
#[no_mangle]
pub extern "C-unwind" fn c01_drain() {
    let (n, how, seed, order, gap) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3), param(4));
    let mut map = Map::new();
    let m = model(0);
    build(&mut map, m, n, how, seed);
    let at = choose(n as u64 / gap + 1) * gap;
    let mut i = 0;
    while m.n > 0 && i <= n as u64 {
        if i == at {
            let win = param(5) as usize;
            let k = if win == 0 || m.n <= win {
                any_key(m)
            } else {
                let p = if order == 0 { 0 } else { (m.n - win) * 2 / 3 };
                range(m.k[p] as u64, m.k[p + win - 1] as u64 + 1) as u32
            };
            step(&mut map, m, i / gap % 2, k);
            same(&map, m);
            if m.n == 0 {
                break;
            }
        }
        let j = match order {
            0 => 0,
            1 => m.n - 1,
            2 => m.n / 2,
            _ => (i as usize * 7919) % m.n,
        };
        let k = m.k[j];
        rem(&mut map, m, k);
        if i % 8 == 0 {
            same(&map, m);
        }
        i += 1;
    }
    obs(map.len() as u64);
    same(&map, m);
    drop(map);
    fin();
}

/// Keys and values that are given in bulk.
struct Src<'a> {
    ks: &'a [u32],
    vs: &'a [u32],
    at: usize,
    m: &'a mut Model,
}
impl Iterator for Src<'_> {
    type Item = (K, Val);
    fn next(&mut self) -> Option<(K, Val)> {
        if self.at == self.ks.len() {
            return None;
        }
        let (k, v) = (self.ks[self.at], self.vs[self.at]);
        self.at += 1;
        let kk = key(k);
        self.m.put(k, v, kk.t.0);
        Some((kk, val(v)))
    }
}

/// Collecting and extending: as so many insertions. params: number of free entries, fixed entries before, fixed entries in the same source (after the free ones,
/// interleaved with those before), operation (0 collect, 1 extend, 2 extend from references)
#[no_mangle]
pub extern "C-unwind" fn c01_bulk() {
    let (free, n, more, op) = (param(0) as usize, param(1) as u32, param(2) as u32, param(3));
    let m = model(0);
    let (mut ks, mut vs) = ([0u32; 128], [0u32; 128]);
    let top = n.max(more);
    for i in 0..free {
        ks[i] = range(0, top as u64 * STEP as u64 + 15) as u32;
        vs[i] = any32();
    }
    for i in 0..more as usize {
        ks[free + i] = (more - i as u32) * STEP + 5;
        vs[free + i] = i as u32;
    }
    let all = free + more as usize;
    if op == 2 {
        // plain keys and values, as only those may be copied from references
        let mut map: fallible_collections::btree::BTreeMap<u32, u32> = Default::default();
        for i in 0..n {
            check(matches!(map.try_insert((i + 1) * STEP, i), Ok(None)), "an insertion succeeds while memory is available");
            m.put_at(m.n, (i + 1) * STEP, i, 0);
        }
        map.extend(ks[..all].iter().zip(vs[..all].iter()));
        for i in 0..all {
            m.put(ks[i], vs[i], 0);
        }
        cover("extended from references");
        check(map.len() == m.n, "the length equals the number of entries");
        let mut it = map.iter();
        for i in 0..m.n {
            match it.next() {
                Some((k, v)) => {
                    check(*k == m.k[i], "a map extended from references holds every key, in ascending order");
                    check(*v == m.v[i], "a map extended from references holds the last value given for each key");
                }
                None => check(false, "a map extended from references holds every key"),
            }
        }
        check(it.next().is_none(), "a map extended from references holds no other key");
        return;
    }
    let mut map = Map::new();
    if op == 0 {
        map = Src { ks: &ks[..all], vs: &vs[..all], at: 0, m }.collect();
        cover("collected");
    } else {
        for i in 0..n {
            ins(&mut map, m, (i + 1) * STEP, i);
        }
        map.extend(Src { ks: &ks[..all], vs: &vs[..all], at: 0, m });
        cover("extended");
    }
    same(&map, m);
    same_lookup(&map, m);
    if free > 0 {
        step(&mut map, m, 1, ks[0]);
    }
    same(&map, m);
    drop(map);
    fin();
}
