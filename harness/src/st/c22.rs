//! Failing allocations and copies in the hash map.
use super::common::*;
use super::vcommon::{disarm, fin, LIMIT};
use crate::entries;
use crate::vf::*;
use fallible_collections::*;

entries!(c22_insert, c22_hist, c22_clone, c22_capacity);

fn arm(mode: u64, max: u64) {
    match mode {
        0 => {}
        1 => fault_each(2),
        2 => fault_persistent(),
        3 => fault_all(),
        4 => arm_clone_fail(any_count(max) as i32),
        5 => {
            fault_each(2);
            arm_clone_fail(any_count(max) as i32)
        }
        _ => arm_clone_panic(any_count(max) as i32),
    }
}
#[inline(never)]
fn insert(map: &mut Map, m: &mut Vec<M>, q: Q, mode: u64) {
    let at = find(m, q);
    let n = any32();
    let (k, v) = (K::new(q), Val::new(n));
    let (kt, vt) = (k.t.0, v.t.0);
    let (l0, f0) = (live_bytes(), fails());
    let mut r = None;
    arm(mode, 0);
    let p = panics(|| r = Some(map.insert(k, v)));
    disarm();
    check(!p, "an operation does not panic");
    match r {
        Some(Ok(old)) => {
            check(fails() == f0, "a failed allocation is reported as an error");
            match at {
                Some(i) => {
                    check(matches!(&old, Some(o) if o.get() == m[i].v), "inserting over a key yields the old value");
                    m[i].v = n;
                    m[i].vt = vt;
                }
                None => {
                    check(old.is_none(), "inserting a new key finds nothing there");
                    m.push(M { q, v: n, kt, vt });
                }
            }
        }
        _ => {
            cover("an insertion failed");
            check(fails() > f0, "an operation fails only if something it needs fails");
            check(live_bytes() == l0, "a failed insertion allocates nothing");
        }
    }
    check(live_tokens() as usize == 2 * m.len(), "keys and values no longer held are dropped at once");
}
/// One insertion into a filled map. params: entries, classes, entries removed again, mode of failure
#[no_mangle]
pub extern "C-unwind" fn c22_insert() {
    let (n, classes, gone, mode) = (param(0) as usize, param(1) as u32, param(2) as usize, param(3));
    let (mut map, mut m) = filled(n, classes, any32(), gone);
    let q = Q { class: 0, n: any32() };
    insert(&mut map, &mut m, q, mode);
    agrees(&map, &m);
    // with memory again, the same insertion succeeds
    insert(&mut map, &mut m, q, 0);
    check(find(&m, q).is_some(), "the insertion succeeds when memory is available again");
    agrees(&map, &m);
    obs(m.len() as u64);
    drop(map);
    check(live_tokens() == 0, "dropping a map drops everything");
    fin();
}
/// Histories in which any allocation may fail. params: steps, classes, entries there, removed again, mode
#[no_mangle]
pub extern "C-unwind" fn c22_hist() {
    let (k, classes, n, gone, mode) = (param(0), param(1) as u32, param(2) as usize, param(3) as usize, param(4));
    let (mut map, mut m) = filled(n, classes, any32(), gone);
    for i in 0..k {
        let q = if i == 0 || any_bool() { Q { class: 0, n: any32() } } else { Q { class: 1 % classes, n: any32() } };
        if i > 0 && any_bool() {
            let at = find(&m, q);
            let f0 = fails();
            fault_all();
            let r = map.remove(&q);
            disarm();
            check(r.is_some() == at.is_some(), "removing needs no memory");
            if let Some(i) = at {
                m.swap_remove(i);
            }
        } else {
            insert(&mut map, &mut m, q, mode);
        }
    }
    agrees(&map, &m);
    obs(m.len() as u64);
    drop(map);
    fin();
}
/// Copying with failures. params: entries, classes, entries removed again, mode of failure
#[no_mangle]
pub extern "C-unwind" fn c22_clone() {
    let (n, classes, gone, mode) = (param(0) as usize, param(1) as u32, param(2) as usize, param(3));
    let (mut map, mut m) = filled(n, classes, any32(), gone);
    let (l0, b0, t0, f0) = (live(), live_bytes(), live_tokens(), fails());
    let mut r = None;
    arm(mode, 2 * m.len() as u64);
    let p = panics(|| r = Some(map.try_clone()));
    disarm();
    check(!p | (mode == 6), "an operation does not panic");
    match r {
        Some(Ok(c)) => {
            cover("a copy succeeded");
            check(fails() == f0, "a failed allocation is reported as an error");
            check(live_tokens() == 2 * t0, "a copy copies every key and value once");
            let fresh: Vec<M> = m.iter().map(|e| M { kt: u32::MAX, vt: u32::MAX, ..*e }).collect();
            agrees(&c, &fresh);
            obs(1);
        }
        Some(Err(_)) => {
            cover("a copy failed");
            check((fails() > f0) | (mode >= 4), "an operation fails only if something it needs fails");
            check((live() == l0) & (live_bytes() == b0), "a failed copy releases everything");
            check(live_tokens() == t0, "a failed copy drops everything");
            obs(2);
        }
        None => {
            check((live() == l0) & (live_bytes() == b0), "a panicking copy releases everything");
            check(live_tokens() == t0, "a panicking copy drops everything");
            obs(3);
        }
    }
    agrees(&map, &m);
    insert(&mut map, &mut m, Q { class: 0, n: any32() }, 0);
    agrees(&map, &m);
    drop(map);
    fin();
}
/// Creation with a stated capacity. params: capacity (0: any beyond what memory holds), mode of failure
#[no_mangle]
pub extern "C-unwind" fn c22_capacity() {
    let (cap, mode) = (param(0) as usize, param(1));
    let huge = cap == usize::MAX;
    let n = if huge {
        let n = any64() as usize;
        assume(n as u128 * core::mem::size_of::<(K, Val)>() as u128 > LIMIT);
        n
    } else {
        cap
    };
    let (l0, f0) = (live(), fails());
    let mut r = None;
    arm(mode, 0);
    let p = panics(|| r = Some(Map::with_capacity(n)));
    disarm();
    check(!p, "an operation does not panic");
    match r {
        Some(Ok(mut map)) => {
            check(fails() == f0, "a failed allocation is reported as an error");
            check(!huge, "a capacity beyond memory is refused");
            check(map.len() == 0, "a new map is empty");
            let mut m = Vec::with_capacity(n.min(100) + 8);
            let a = allocs();
            for i in 0..n.min(100) {
                let q = Q { class: i as u32 % 3, n: i as u32 };
                let (k, v) = (K::new(q), Val::new(i as u32));
                m.push(M { q, v: i as u32, kt: k.t.0, vt: v.t.0 });
                check(matches!(map.insert(k, v), Ok(None)), "inserting a new key finds nothing there");
            }
            check(huge | (allocs() == a), "a stated capacity is usable without allocating");
            agrees(&map, &m);
            obs(1);
            drop(map);
        }
        _ => {
            cover("a creation failed");
            check(huge | (fails() > f0), "a capacity that fits in memory is granted");
            check(live() == l0, "a failed creation allocates nothing");
            obs(2);
        }
    }
    fin();
}
