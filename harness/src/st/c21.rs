//! The hash map against a plain list of entries.
use super::common::*;
use super::vcommon::{disarm, fin};
use crate::entries;
use crate::vf::*;
use fallible_collections::*;

entries!(c21_hist, c21_one, c21_iter, c21_clone, c21_debug, c21_types);

#[inline(never)]
fn step(map: &mut Map, m: &mut Vec<M>, op: u64, q: Q) {
    let at = find(m, q);
    match op {
        0 => {
            let n = any32();
            let (k, v) = (K::new(q), Val::new(n));
            let (kt, vt) = (k.t.0, v.t.0);
            let r = map.insert(k, v);
            check(r.is_ok(), "an operation succeeds while memory is available");
            if let Ok(old) = r {
                match at {
                    Some(i) => {
                        check(matches!(&old, Some(o) if o.get() == m[i].v && (m[i].vt == u32::MAX || o.t.0 == m[i].vt)), "inserting over a key yields the old value");
                        m[i].v = n;
                        m[i].vt = vt;
                    }
                    None => {
                        check(old.is_none(), "inserting a new key finds nothing there");
                        m.push(M { q, v: n, kt, vt });
                    }
                }
                drop(old);
            }
        }
        1 => {
            let r = map.remove(&q);
            match (&r, at) {
                (Some(v), Some(i)) => {
                    check(v.get() == m[i].v, "removing a key that is there yields its value");
                    check((m[i].vt == u32::MAX) | (v.t.0 == m[i].vt), "removing a key that is there yields its value");
                    m.swap_remove(i);
                }
                (None, None) => {}
                _ => check(false, "removing finds a key exactly if it is there"),
            }
        }
        2 => match (map.get(&q), at) {
            (Some(v), Some(i)) => check(v.get() == m[i].v, "a lookup finds the value last inserted"),
            (None, None) => {}
            _ => check(false, "a lookup finds a key exactly if it is there"),
        },
        _ => {
            let c = map.try_clone();
            check(c.is_ok(), "an operation succeeds while memory is available");
            if let Ok(c) = c {
                agrees(map, m);
                for e in m.iter_mut() {
                    e.kt = u32::MAX;
                    e.vt = u32::MAX;
                }
                *map = c;
            }
        }
    }
    check(live_tokens() as usize == 2 * m.len(), "keys and values no longer held are dropped at once");
}
/// Histories from the empty map. params: steps, classes, distinct numbers made up front
#[no_mangle]
pub extern "C-unwind" fn c21_hist() {
    let (k, classes, ops) = (param(0), param(1), param(2));
    let mut map = Map::default();
    let mut m = Vec::with_capacity(16);
    for _ in 0..k {
        let q = Q { class: choose(classes) as u32, n: any32() };
        step(&mut map, &mut m, choose(ops), q);
    }
    agrees(&map, &m);
    obs(m.len() as u64);
    drop(map);
    fin();
}
/// One or two operations on a filled map. params: entries, classes, entries removed again, op, second op (9: none)
#[no_mangle]
pub extern "C-unwind" fn c21_one() {
    let (n, classes, gone, op, op2) = (param(0) as usize, param(1) as u32, param(2) as usize, param(3), param(4));
    let (mut map, mut m) = filled(n, classes, any32(), gone);
    agrees(&map, &m);
    // a key equal to one there, or a different one of the same or another class
    let q = Q { class: if n == 0 { 0 } else { choose(if classes < 4 { classes as u64 } else { 4 }) as u32 }, n: any32() };
    step(&mut map, &mut m, op, q);
    agrees(&map, &m);
    if op2 < 9 {
        let q = Q { class: 0, n: any32() };
        step(&mut map, &mut m, op2, q);
        agrees(&map, &m);
    }
    obs(m.len() as u64);
    drop(map);
    fin();
}
/// Consuming iteration, stopped anywhere. params: entries, classes, entries removed again
#[no_mangle]
pub extern "C-unwind" fn c21_iter() {
    let (n, classes, gone) = (param(0) as usize, param(1) as u32, param(2) as usize);
    let (map, m) = filled(n, classes, any32(), gone);
    {
        let mut i = map.iter();
        for k in 0..m.len() {
            check(i.len() == m.len() - k, "the size hint is exact");
            check(i.next().is_some(), "iteration yields every entry");
        }
        check(i.next().is_none() && i.next().is_none(), "iteration ends");
    }
    let stop = choose(m.len() as u64 + 2) as usize;
    let mut seen = [false; 512];
    let mut it = map.into_iter();
    let mut n = 0;
    for _ in 0..stop {
        check(it.size_hint() == (m.len() - n, Some(m.len() - n)), "the size hint is exact");
        match it.next() {
            Some((k, v)) => {
                n += 1;
                match find(&m, k.q) {
                    Some(i) => {
                        check(!seen[i], "iteration yields each entry once");
                        seen[i] = true;
                        check((v.get() == m[i].v) & (v.t.0 == m[i].vt) & (k.t.0 == m[i].kt), "consuming iteration yields the entries themselves");
                    }
                    None => check(false, "iteration yields only entries that are there"),
                }
            }
            None => check(n == m.len(), "iteration yields every entry"),
        }
    }
    check(live_tokens() as usize == 2 * (m.len() - n), "keys and values no longer held are dropped at once");
    drop(it);
    check(live_tokens() == 0, "a dropped iterator drops the rest");
    obs(n as u64);
    fin();
}
/// Copies are equal and independent. params: entries, classes, entries removed again, op
#[no_mangle]
pub extern "C-unwind" fn c21_clone() {
    let (n, classes, gone, op) = (param(0) as usize, param(1) as u32, param(2) as usize, param(3));
    let (mut map, m) = filled(n, classes, any32(), gone);
    let c = map.try_clone();
    check(c.is_ok(), "an operation succeeds while memory is available");
    if let Ok(mut c) = c {
        check(live_tokens() as usize == 4 * m.len(), "a copy has keys and values of its own");
        let fresh: Vec<M> = m.iter().map(|e| M { kt: u32::MAX, vt: u32::MAX, ..*e }).collect();
        agrees(&c, &fresh);
        agrees(&map, &m);
        for (k, v) in c.iter() {
            for e in &m {
                check((k.t.0 != e.kt) & (v.t.0 != e.vt), "a copy has keys and values of its own");
            }
        }
        // changing either leaves the other alone
        let q = Q { class: 0, n: any32() };
        let (a, b) = if any_bool() { (&mut c, &map) } else { (&mut map, &c) };
        if op == 0 {
            check(a.insert(K::new(q), Val::new(7)).is_ok(), "an operation succeeds while memory is available");
        } else {
            drop(a.remove(&q));
        }
        check(b.len() == m.len(), "changing a copy leaves the original alone");
        for e in &m {
            check(matches!(b.get(&e.q), Some(v) if v.get() == e.v), "changing a copy leaves the original alone");
        }
        obs(m.len() as u64);
        drop(map);
        if let Some(e) = m.first() {
            let q = e.q;
            check((op == 1) | c.get(&q).is_some(), "a copy outlives the original");
        }
    }
    fin();
}
/// The debugging output is that of the entries. params: entries
#[no_mangle]
pub extern "C-unwind" fn c21_debug() {
    let n = param(0) as u32;
    let mut map: TryHashMap<u32, &str> = TryHashMap::default();
    for i in 0..n {
        check(map.insert(i, "v").is_ok(), "an operation succeeds while memory is available");
    }
    let mut want = String::from("{");
    for (k, v) in map.iter() {
        if want.len() > 1 {
            want.push_str(", ");
        }
        want.push_str(&format!("{:?}: {:?}", k, v));
    }
    want.push('}');
    check(format!("{:?}", map) == want, "the debugging output lists the entries");
    obs(n as u64);
}
/// Other types of keys and values: strings looked up as text, zero-sized values, boxes.
#[no_mangle]
pub extern "C-unwind" fn c21_types() {
    let n = param(0) as usize;
    let texts = ["", "a", "b", "aa", "ab", "longer text", "longer texu", "z"];
    let mut a: TryHashMap<String, Box<u32>> = TryHashMap::default();
    let mut b: TryHashMap<&str, ()> = TryHashMap::default();
    let mut c: TryHashMap<u64, Vec<u8>> = TryHashMap::default();
    let there = |i: usize| i < n;
    for i in 0..n {
        check(matches!(a.insert(texts[i].into(), Box::new(x(i))), Ok(None)), "inserting a new key finds nothing there");
        check(matches!(b.insert(texts[i], ()), Ok(None)), "inserting a new key finds nothing there");
        check(matches!(c.insert(i as u64 * 3, vec![x(i) as u8; i]), Ok(None)), "inserting a new key finds nothing there");
    }
    for i in 0..8 {
        check(a.get(texts[i]).map(|v| **v) == if there(i) { Some(x(i)) } else { None }, "a lookup finds a key exactly if it is there");
        check(b.get(&texts[i]).is_some() == there(i), "a lookup finds a key exactly if it is there");
        check(c.get(&(i as u64 * 3)).map(|v| v.len()) == if there(i) { Some(i) } else { None }, "a lookup finds a key exactly if it is there");
    }
    let i = choose(8) as usize;
    check(a.remove(texts[i]).is_some() == there(i), "removing finds a key exactly if it is there");
    check(a.get(texts[i]).is_none(), "a removed key is gone");
    check(matches!(b.insert(texts[i], ()), Ok(Some(())) ) == there(i), "inserting over a key yields the old value");
    if there(i) {
        let r = c.insert(i as u64 * 3, vec![9; 9]);
        check(matches!(&r, Ok(Some(v)) if v.len() == i), "inserting over a key yields the old value");
        check(matches!(c.get(&(i as u64 * 3)), Some(v) if v.len() == 9), "a lookup finds the value last inserted");
    }
    check((a.len() == n - there(i) as usize) & (b.len() == if there(i) { n } else { n + 1 }) & (c.len() == n), "the number of entries is right");
    obs(n as u64);
}
use super::vcommon::x;
fn _d() {
    disarm()
}
