//! The entry interface.
use super::common::*;
use crate::entries;
use crate::vf::*;
use fallible_collections::btree::{map::Entry, BTreeMap};

entries!(c05_entry, c05_seq, c05_zst);

fn pair(k: u32) -> (K, u32) {
    let kk = key(k);
    let id = kk.t.0;
    (kk, id)
}

#[inline(never)]
fn entry(map: &mut Map, m: &mut Model, op: u64, k: u32) {
    let (i, f) = m.find(k);
    let (kk, id) = pair(k);
    let v = any32();
    // the entry's view of the key and its state
    let e = match map.try_entry(kk) {
        Ok(e) => e,
        Err(_) => {
            check(false, "obtaining an entry succeeds while memory is available");
            return;
        }
    };
    let shown = e.key();
    check(shown.k == k, "an entry shows an equal key");
    check(shown.t.0 == if f { m.id[i] } else { id }, "an entry shows the stored key, or the offered one");
    match &e {
        Entry::Occupied(o) => {
            check(f, "an entry is occupied only if the key is present");
            check(o.key().t.0 == m.id[i], "an occupied entry shows the stored key");
            check(o.get().v == m.v[i], "an occupied entry shows the stored value");
            cover("occupied");
        }
        Entry::Vacant(w) => {
            check(!f, "an entry is vacant only if the key is absent");
            check(w.key().t.0 == id, "a vacant entry shows the offered key");
            cover("vacant");
        }
    }
    match op {
        0 => match e.or_try_insert(val(v)) {
            Ok(r) => {
                check(r.v == if f { m.v[i] } else { v }, "or_try_insert designates the stored or the inserted value");
                r.v = v ^ 1;
                if f {
                    m.v[i] = v ^ 1;
                } else {
                    m.put_at(i, k, v ^ 1, id);
                }
            }
            Err(_) => check(false, "or_try_insert succeeds while memory is available"),
        },
        1 => {
            let mut called = 0;
            match e.or_try_insert_with(|| {
                called += 1;
                val(v)
            }) {
                Ok(r) => {
                    check(r.v == if f { m.v[i] } else { v }, "or_try_insert_with designates the stored or the inserted value");
                    r.v = v ^ 3;
                    if f {
                        m.v[i] = v ^ 3;
                    } else {
                        m.put_at(i, k, v ^ 3, id);
                    }
                }
                Err(_) => check(false, "or_try_insert_with succeeds while memory is available"),
            }
            check(called == if f { 0 } else { 1 }, "or_try_insert_with calls its closure exactly for a vacant entry");
        }
        2 => {
            let mut called = 0;
            let old = m.v[i];
            let e2 = e.and_modify(|x| {
                called += 1;
                check(f && x.v == old, "and_modify designates the stored value");
                x.v = x.v.wrapping_add(5);
            });
            check(called == if f { 1 } else { 0 }, "and_modify calls its closure exactly for an occupied entry");
            match e2.or_try_insert(val(v)) {
                Ok(r) => {
                    if f {
                        m.v[i] = old.wrapping_add(5);
                        check(r.v == m.v[i], "and_modify changes the stored value");
                    } else {
                        check(r.v == v, "and_modify leaves a vacant entry vacant");
                        m.put_at(i, k, v, id);
                    }
                }
                Err(_) => check(false, "or_try_insert succeeds while memory is available"),
            }
        }
        3 => match e.or_default() {
            Ok(r) => {
                check(r.v == if f { m.v[i] } else { 0 }, "or_default designates the stored or the default value");
                if !f {
                    m.put_at(i, k, 0, id);
                }
            }
            Err(_) => check(false, "or_default succeeds while memory is available"),
        },
        4 => match e {
            Entry::Occupied(mut o) => {
                let old = o.insert(val(v));
                check(old.v == m.v[i], "replacing through an entry returns the old value");
                m.v[i] = v;
                drop(old);
                check(o.get().v == v, "replacing through an entry stores the new value");
                o.get_mut().v = v ^ 7;
                m.v[i] = v ^ 7;
                let r = o.into_mut();
                check(r.v == v ^ 7, "into_mut designates the stored value");
                r.v = v ^ 9;
                m.v[i] = v ^ 9;
            }
            Entry::Vacant(w) => {
                let kk = w.into_key();
                check(kk.t.0 == id, "an unused vacant entry gives back the offered key");
                kk.t.touch();
            }
        },
        5 => match e {
            Entry::Occupied(o) => {
                let x = o.remove();
                check(x.v == m.v[i], "removing through an entry returns the stored value");
                x.t.touch();
                m.del(k);
            }
            Entry::Vacant(w) => match w.try_insert(val(v)) {
                Ok(r) => {
                    check(r.v == v, "inserting through an entry designates the inserted value");
                    r.v = v ^ 11;
                    m.put_at(i, k, v ^ 11, id);
                }
                Err(_) => check(false, "inserting through an entry succeeds while memory is available"),
            },
        },
        6 => match e {
            Entry::Occupied(o) => {
                let (kk, x) = o.remove_entry();
                check(kk.t.0 == m.id[i] && kk.k == k, "remove_entry returns the stored key");
                check(x.v == m.v[i], "remove_entry returns the stored value");
                kk.t.touch();
                x.t.touch();
                m.del(k);
            }
            Entry::Vacant(w) => drop(w),
        },
        _ => drop(e),
    }
    check(live_tokens() == 2 * m.n as i32, "an entry operation releases exactly what leaves the map");
    check(map.len() == m.n, "an entry operation keeps the length right");
    if let Some((j, true)) = Some(m.find(k)) {
        match map.get_key_value(&Q(k)) {
            Some((kk, x)) => check(kk.t.0 == m.id[j] && x.v == m.v[j], "the entry's effect is visible to lookups"),
            None => check(false, "the entry's effect is visible to lookups"),
        }
    } else {
        check(map.get(&Q(k)).is_none(), "the entry's effect is visible to lookups");
    }
}

/// params: n, how, seed, op
#[no_mangle]
pub extern "C-unwind" fn c05_entry() {
    let (n, how, seed, op) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3));
    let mut map = Map::new();
    let m = model(0);
    build(&mut map, m, n, how, seed);
    let k = any_key(m);
    entry(&mut map, m, op, k);
    obs(map.len() as u64);
    same(&map, m);
    same_lookup(&map, m);
    drop(map);
    fin();
}

/// Histories of entry operations. params: n, how, seed, operations (decimal digits), count
#[no_mangle]
pub extern "C-unwind" fn c05_seq() {
    let (n, how, seed, mut ops, cnt) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3), param(4));
    let mut map = Map::new();
    let m = model(0);
    build(&mut map, m, n, how, seed);
    for _ in 0..cnt {
        let k = any_key(m);
        entry(&mut map, m, ops % 10, k);
        ops /= 10;
    }
    same(&map, m);
    drop(map);
    fin();
}

/// A zero-sized value whose drops are counted.
struct Zv;
static mut ZN: i64 = 0;
fn zv() -> Zv {
    unsafe { ZN += 1 }
    Zv
}
impl Drop for Zv {
    fn drop(&mut self) {
        unsafe { ZN -= 1 }
    }
}
impl Default for Zv {
    fn default() -> Zv {
        zv()
    }
}
fn zn() -> i64 {
    unsafe { ZN }
}
/// Entries of maps with zero-sized values. params: n, op
#[no_mangle]
pub extern "C-unwind" fn c05_zst() {
    let (n, op) = (param(0) as u32, param(1));
    let mut map = BTreeMap::<K, Zv>::new();
    for i in 0..n {
        check(matches!(map.try_insert(key(2 * i + 1), zv()), Ok(None)), "inserting an absent key finds nothing");
    }
    let k = range(0, 2 * n as u64 + 2) as u32;
    let f = map.contains_key(&Q(k));
    let (kk, id) = pair(k);
    let e = match map.try_entry(kk) {
        Ok(e) => e,
        Err(_) => {
            check(false, "obtaining an entry succeeds while memory is available");
            return;
        }
    };
    check(matches!(e, Entry::Occupied(_)) == f, "an entry is occupied exactly if the key is present");
    check((e.key().t.0 != id) == f, "an entry shows the stored key, or the offered one");
    let mut called = 0;
    let mut there = true;
    match op {
        0 => check(e.or_try_insert_with(|| { called += 1; zv() }).is_ok(), "inserting succeeds while memory is available"),
        1 => {
            let v = zv();
            check(e.or_try_insert(v).is_ok(), "inserting succeeds while memory is available");
            called = !f as i32;
        }
        2 => {
            let mut seen = 0;
            let e = e.and_modify(|_| seen += 1);
            check(seen == f as i32, "and_modify calls its closure exactly for an occupied entry");
            check(e.or_default().is_ok(), "inserting succeeds while memory is available");
            called = !f as i32;
        }
        3 => match e {
            Entry::Occupied(mut o) => {
                let old = o.insert(zv());
                check(zn() == n as i64 + 1, "replacing through an entry hands the old value over");
                drop(old);
                o.get_mut();
                o.into_mut();
            }
            Entry::Vacant(w) => {
                check(w.into_key().t.0 == id, "an unused vacant entry gives back the offered key");
                there = false;
            }
        },
        4 => match e {
            Entry::Occupied(o) => {
                let (kk, v) = o.remove_entry();
                check(kk.k == k && kk.t.0 != id, "remove_entry returns the stored key");
                check(zn() == n as i64, "remove_entry hands the value over");
                drop(v);
                there = false;
            }
            Entry::Vacant(w) => check(w.try_insert(zv()).is_ok(), "inserting succeeds while memory is available"),
        },
        _ => match e {
            Entry::Occupied(o) => {
                drop(o.remove());
                there = false;
            }
            Entry::Vacant(w) => {
                drop(w);
                there = false;
            }
        },
    }
    if op == 0 {
        check(called == if f { 0 } else { 1 }, "or_try_insert_with calls its closure exactly for a vacant entry");
    }
    let len = n as usize - f as usize + there as usize;
    check(map.len() == len, "an entry operation keeps the length right");
    check(zn() == len as i64, "an entry operation drops exactly the values that leave the map");
    check(map.contains_key(&Q(k)) == there, "the entry's effect is visible to lookups");
    check(live_tokens() == len as i32, "an entry operation releases exactly what leaves the map");
    let mut last = None;
    for (k, _) in map.iter() {
        check(last < Some(k.k), "iteration yields ascending keys");
        last = Some(k.k);
    }
    drop(map);
    check(zn() == 0, "every value is dropped once");
    fin();
}
