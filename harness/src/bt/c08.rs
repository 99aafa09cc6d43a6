//! Allocation failures inside B-tree operations.
use super::common::*;
use crate::entries;
use crate::vf::*;
use fallible_collections::btree::{map::Entry, BTreeSet};
use fallible_collections::TryClone;

entries!(c08_map, c08_noalloc, c08_set, c08_hist);

fn faults(mode: u64) {
    match mode {
        0 => fault_each(1),
        1 => fault_persistent(),
        2 => fault_all(),
        _ => fault_each(8),
    }
}

/// A key in the window of `w` stored keys starting at position `from`, or anywhere between them.
fn window(m: &Model, from: u64, w: u64) -> u32 {
    if w == 0 || m.n == 0 {
        return any_key(m);
    }
    let a = (from as usize).min(m.n - 1);
    let b = (from + w).min(m.n as u64 - 1) as usize;
    range((m.k[a] as u64).saturating_sub(5), m.k[b] as u64 + 5) as u32
}

/// Try the operation; true if it succeeded (the model then reflects it).
#[inline(never)]
fn op_map(map: &mut Map, m: &mut Model, op: u64, k: u32) -> bool {
    let v = 77;
    match op {
        0 => {
            let kk = key(k);
            let id = kk.t.0;
            match map.try_insert(kk, val(v)) {
                Ok(r) => {
                    let o = m.put(k, v, id);
                    check(r.is_some() == o.is_some(), "an insertion returns the previous value exactly if the key was present");
                    true
                }
                Err(_) => false,
            }
        }
        1 => {
            let kk = key(k);
            let id = kk.t.0;
            match map.try_entry(kk) {
                Err(_) => false,
                Ok(e) => match e.or_try_insert(val(v)) {
                    Ok(r) => {
                        let (i, f) = m.find(k);
                        if f {
                            check(r.v == m.v[i], "or_try_insert designates the stored value");
                        } else {
                            check(r.v == v, "or_try_insert designates the inserted value");
                            r.v = v + 1;
                            m.put(k, v + 1, id);
                        }
                        true
                    }
                    Err(_) => false,
                },
            }
        }
        2 => {
            let kk = key(k);
            let id = kk.t.0;
            match map.try_entry(kk) {
                Err(_) => false,
                Ok(Entry::Occupied(e)) => {
                    let x = e.remove();
                    check(m.del(k) == Some(x.v), "an occupied entry removes the stored value");
                    true
                }
                Ok(Entry::Vacant(e)) => match e.try_insert(val(v)) {
                    Ok(r) => {
                        check(r.v == v, "a vacant entry designates the inserted value");
                        m.put(k, v, id);
                        true
                    }
                    Err(_) => false,
                },
            }
        }
        3 => {
            match map.split_off(&Q(k)) {
                Ok(right) => {
                    fault_off();
                    let r = model(1);
                    r.clear();
                    let (i, _) = m.find(k);
                    for j in i..m.n {
                        r.put(m.k[j], m.v[j], m.id[j]);
                    }
                    m.n = i;
                    same(&right, r);
                    true
                }
                Err(_) => false,
            }
        }
        _ => match map.try_clone() {
            Ok(c) => {
                fault_off();
                check(c.len() == m.n, "a copy has the same length");
                let mut i = 0;
                for (k, v) in c.iter() {
                    check(k.k == m.k[i] && v.v == m.v[i], "a copy has the same entries");
                    i += 1;
                }
                true
            }
            Err(_) => false,
        },
    }
}

/// params: n, how, seed, op, fault mode, window start, window width (0: all keys)
#[no_mangle]
pub extern "C-unwind" fn c08_map() {
    let (n, how, seed, op, mode) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3), param(4));
    let mut map = Map::new();
    let m = model(0);
    build(&mut map, m, n, how, seed);
    let k = if op == 4 { 0 } else { window(m, param(5), param(6)) };
    let before = live_tokens();
    faults(mode);
    let ok = op_map(&mut map, m, op, k);
    fault_off();
    obs(ok as u64);
    if !ok {
        cover("an operation failed");
        check(live_tokens() == before, "a failed operation releases what was given to it, and nothing else");
        same(&map, m);
        same_lookup(&map, m);
        let ok = op_map(&mut map, m, op, k);
        check(ok, "the operation succeeds once memory is available");
    } else {
        cover("an operation succeeded");
    }
    same(&map, m);
    same_lookup(&map, m);
    // still usable
    let k2 = if m.n == 0 { 5 } else { m.k[m.n / 2] };
    rem(&mut map, m, k2);
    ins(&mut map, m, k2 + 1, 5);
    same(&map, m);
    drop(map);
    fin();
}

/// Operations without an error result do not allocate at all.
#[no_mangle]
pub extern "C-unwind" fn c08_noalloc() {
    let (n, how, seed, op) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3));
    let mut map = Map::new();
    let m = model(0);
    build(&mut map, m, n, how, seed);
    let k = any_key(m);
    let a = allocs();
    fault_all();
    match op {
        0 => rem(&mut map, m, k),
        1 => {
            let (_, f) = m.find(k);
            check(map.contains_key(&Q(k)) == f, "contains_key holds exactly for the stored keys");
            check(map.get_mut(&Q(k)).is_some() == f, "get_mut finds exactly the stored keys");
            let mut c = 0;
            for (_, v) in map.range_mut(Q(k)..) {
                v.v = v.v;
                c += 1;
            }
            let (i, _) = m.find(k);
            check(c == m.n - i, "a range yields the entries in its bounds");
        }
        2 => {
            map.clear();
            m.clear();
        }
        3 => {
            let (_, f) = m.find(k);
            if f {
                match map.try_entry(key(k)) {
                    Ok(Entry::Occupied(mut e)) => {
                        e.insert(val(9));
                        m.put(k, 9, 0);
                    }
                    _ => check(false, "an entry of a present key is occupied, without allocating"),
                }
            }
        }
        _ => {
            let mut c = 0;
            for (k, v) in core::mem::replace(&mut map, Map::new()) {
                check(k.k == m.k[c] && v.v == m.v[c], "consuming iteration yields the entries in order");
                c += 1;
            }
            check(c == m.n, "consuming iteration yields every entry");
            m.clear();
        }
    }
    fault_off();
    check(fails() == 0 && allocs() == a, "an operation that cannot report failure does not allocate");
    cover("no allocation");
    same(&map, m);
    obs(map.len() as u64);
    drop(map);
    fin();
}

/// Same for the set. params: n, how, seed, op, mode
#[no_mangle]
pub extern "C-unwind" fn c08_set() {
    let (n, how, op, mode) = (param(0) as u32, param(1) as u32, param(3), param(4));
    let mut s: BTreeSet<K> = BTreeSet::new();
    let m = model(0);
    for i in 0..n {
        let x = if how == 0 { i + 1 } else { n - i };
        let kk = key(x * STEP);
        let id = kk.t.0;
        m.put(kk.k, 0, id);
        check(s.try_insert(kk).ok() == Some(true), "inserting a new element reports a change");
    }
    let k = window(m, param(5), param(6));
    let before = live_tokens();
    for attempt in 0..2 {
        if attempt == 0 {
            faults(mode);
        }
        let kk = key(k);
        let id = kk.t.0;
        let (i, f) = m.find(k);
        let ok = match op {
            0 => match s.try_insert(kk) {
                Ok(b) => {
                    check(b == !f, "inserting reports whether the set changed");
                    if !f {
                        m.put(k, 0, id);
                    }
                    true
                }
                Err(_) => false,
            },
            1 => match s.replace(kk) {
                Ok(o) => {
                    check(o.is_some() == f, "replacing returns the stored element exactly if there was one");
                    if f {
                        check(o.unwrap().t.0 == m.id[i], "replacing returns the stored element");
                        m.id[i] = id;
                    } else {
                        m.put(k, 0, id);
                    }
                    true
                }
                Err(_) => false,
            },
            _ => match {
                drop(kk);
                s.try_split_off(&Q(k))
            } {
                Ok(r) => {
                    let mut j = i;
                    for x in r.iter() {
                        check(j < m.n && x.t.0 == m.id[j], "splitting moves the upper elements");
                        j += 1;
                    }
                    check(j == m.n, "splitting moves all upper elements");
                    m.n = i;
                    true
                }
                Err(_) => false,
            },
        };
        fault_off();
        if ok {
            cover("a set operation succeeded");
        } else {
            cover("a set operation failed");
            check(attempt == 0, "the set operation succeeds once memory is available");
            check(live_tokens() == before, "a failed set operation releases what was given to it, and nothing else");
        }
        check(s.len() == m.n, "the set's length is the number of its elements");
        let mut j = 0;
        for x in s.iter() {
            check(j < m.n && x.t.0 == m.id[j], "the set holds exactly its elements");
            j += 1;
        }
        check(j == m.n, "the set holds all its elements");
        if ok {
            break;
        }
    }
    obs(m.n as u64);
    drop(s);
    fin();
}

/// A history of insertions under arbitrary failures: `cnt` insertions of symbolic keys after building n.
#[no_mangle]
pub extern "C-unwind" fn c08_hist() {
    let (n, how, cnt, max) = (param(0) as u32, param(1) as u32, param(2), param(3));
    let mut map = Map::new();
    let m = model(0);
    build(&mut map, m, n, how, 1);
    fault_each(max);
    for i in 0..cnt {
        let k = window(m, param(4), param(5));
        let ok = op_map(&mut map, m, i % 3, k);
        if !ok {
            cover("a history step failed");
        }
    }
    fault_off();
    obs(map.len() as u64);
    same(&map, m);
    same_lookup(&map, m);
    drop(map);
    fin();
}
