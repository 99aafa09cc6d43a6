//! Capacity arithmetic: every requested count.
use super::vcommon::*;
use crate::vf::*;
use crate::{entries, for_copy, for_el};
use core::mem::size_of;
use fallible_collections::vec::*;
use fallible_collections::*;

entries!(c13_reserve, c13_fill, c13_zst, c13_concat, c13_io, c13_format, c13_small, c13_map, c13_limit);

/// What a successful or failed request must satisfy. `len` elements are there, `n` more were asked for.
fn judge<T>(ok: bool, len: usize, n: usize) {
    let need = (len as u128 + n as u128) * size_of::<T>() as u128;
    if ok {
        cover("a request succeeded");
        check((len as u128 + n as u128) <= usize::MAX as u128, "no count beyond the largest integer is granted");
        check(need <= isize::MAX as u128, "no size beyond the address space is granted");
    } else {
        cover("a request failed");
        let over = (len as u128 + n as u128) > usize::MAX as u128;
        check(over | (need > LIMIT), "a request that fits in memory succeeds");
    }
}

#[inline(never)]
fn reserve<T: El>(op: u64, len: usize, cap: usize) {
    let n = any64() as usize;
    match op {
        0 => {
            let mut v = vec_of::<T>(len, cap);
            let (cap0, b0, l0) = (v.capacity(), live_bytes(), live());
            let ok = FallibleVec::try_reserve(&mut v, n).is_ok();
            obs(ok as u64);
            is_prefix(&v, len);
            judge::<T>(ok, len, n);
            if ok {
                room(&mut v, n);
            } else {
                check(v.capacity() == cap0, "a failed request changes nothing");
                check((live_bytes() == b0) & (live() == l0), "a failed request allocates nothing");
            }
        }
        1 => {
            let r: Result<Vec<T>, _> = FallibleVec::try_with_capacity(n);
            obs(r.is_ok() as u64);
            judge::<T>(r.is_ok(), 0, n);
            match r {
                Ok(mut v) => room(&mut v, n),
                Err(_) => check(live() == 0, "a failed request allocates nothing"),
            }
        }
        2 => {
            let mut v: TryVec<T> = vec_of::<T>(len, cap).into();
            let (b0, l0) = (live_bytes(), live());
            let ok = v.reserve(n).is_ok();
            obs(ok as u64);
            is_prefix(&v, len);
            judge::<T>(ok, len, n);
            if ok {
                let a = allocs();
                let k = small(n);
                for i in 0..k {
                    check(v.push(T::mk(x(len + i))).is_ok(), "reserved room is usable");
                }
                check(allocs() == a, "reserved room is usable without allocating");
                is_prefix(&v, len + k);
            } else {
                check((live_bytes() == b0) & (live() == l0), "a failed request allocates nothing");
            }
        }
        _ => {
            let r = TryVec::<T>::with_capacity(n);
            obs(r.is_ok() as u64);
            judge::<T>(r.is_ok(), 0, n);
            match r {
                Ok(mut v) => {
                    let a = allocs();
                    let k = small(n);
                    for i in 0..k {
                        check(v.push(T::mk(x(i))).is_ok(), "reserved room is usable");
                    }
                    check(allocs() == a, "reserved room is usable without allocating");
                    is_prefix(&v, k);
                }
                Err(_) => check(live() == 0, "a failed request allocates nothing"),
            }
        }
    }
}
fn small(n: usize) -> usize {
    let mut k = 0;
    while k < 3 && is(k < n) {
        k += 1;
    }
    k
}
#[inline(never)]
fn room<T: El>(v: &mut Vec<T>, n: usize) {
    let len = v.len();
    check(v.capacity() - len >= n, "a granted request leaves that much room");
    check(v.capacity() as u128 * size_of::<T>() as u128 <= live_bytes() as u128, "the room is really allocated");
    let a = allocs();
    let k = small(n);
    for i in 0..k {
        v.push(T::mk(x(len + i)));
    }
    check(allocs() == a, "reserved room is usable without allocating");
    is_prefix(v, len + k);
}

/// Reserving and creating with a requested capacity. params: element type, op, len, cap
#[no_mangle]
pub extern "C-unwind" fn c13_reserve() {
    let (ty, op, len, cap) = (param(0), param(1), param(2) as usize, param(3) as usize);
    for_el!(ty, reserve(op, len, cap));
    fin();
}

/// A count that is small, or more than memory can hold.
fn extreme<T>(len: usize) -> usize {
    let n = any64() as usize;
    let s = size_of::<T>() as u128;
    assume((n <= 5) | ((len as u128 + n as u128) * s > LIMIT));
    n
}

#[inline(never)]
fn fill<T: El>(op: u64, len: usize, cap: usize) {
    let mut v = vec_of::<T>(len, cap);
    let m = extreme::<T>(0);
    let ok = match op {
        0 => FallibleVec::try_resize_no_copy(&mut v, m, T::mk(x(9))).is_ok(),
        1 => FallibleVec::try_resize_with(&mut v, m, || T::mk(x(9))).is_ok(),
        _ => {
            let mut t: TryVec<T> = v.into();
            let ok = t.resize_with(m, || T::mk(x(9))).is_ok();
            v = t.into_iter().collect();
            ok
        }
    };
    settle(ok, &v, len, m);
}
#[inline(never)]
fn fill_copy<T: El + Copy>(len: usize, cap: usize) {
    let mut v = vec_of::<T>(len, cap);
    let m = extreme::<T>(0);
    let ok = FallibleVec::try_resize(&mut v, m, T::mk(x(9))).is_ok();
    settle(ok, &v, len, m);
}
#[inline(never)]
fn settle<T: El>(ok: bool, v: &[T], len: usize, m: usize) {
    obs(ok as u64);
    if ok {
        cover("a resize succeeded");
        check(v.len() == m, "a resize gives the requested length");
        for i in 0..v.len() {
            check(v[i].num() == T::back(if i < len { x(i) } else { x(9) }), "a resize keeps the elements and adds the given value");
        }
    } else {
        cover("a resize failed");
        is_prefix(v, len);
        check(m as u128 * size_of::<T>() as u128 > LIMIT, "a resize that fits in memory succeeds");
    }
}
/// Resizing to a small or impossible length. params: element type, op, len, cap
#[no_mangle]
pub extern "C-unwind" fn c13_fill() {
    let (ty, op, len, cap) = (param(0), param(1), param(2) as usize, param(3) as usize);
    if op == 9 {
        for_copy!(ty, fill_copy(len, cap));
    } else {
        for_el!(ty, fill(op, len, cap));
    }
    fin();
}

#[inline(never)]
fn from_elem<T: El>() {
    #[cfg(feature = "bt")]
    {
        let m = extreme::<T>(0);
        let r = fallible_collections::vec::try_from_elem(T::mk(x(9)), m);
        obs(r.is_ok() as u64);
        match &r {
            Ok(v) => settle(true, v, 0, m),
            Err(_) => {
                settle::<T>(false, &[], 0, m);
                check(live() == 0, "a failed request allocates nothing");
            }
        }
        if let Ok(v) = r {
            drop(v);
        }
        let r: Result<Vec<T>, _> = try_vec![T::mk(x(8)); m];
        match r {
            Ok(v) => {
                check(v.len() == m, "try_vec! gives the requested length");
                for e in v.iter() {
                    check(e.num() == T::back(x(8)), "try_vec! repeats the given value");
                }
            }
            Err(_) => check(m as u128 * size_of::<T>() as u128 > LIMIT, "a request that fits in memory succeeds"),
        }
    }
}
/// Filling a new vector. params: element type
#[no_mangle]
pub extern "C-unwind" fn c13_small() {
    for_el!(param(0), from_elem());
    fin();
}

/// Vectors of zero-sized values, whose length comes close to the largest integer. params: op, extra
#[no_mangle]
pub extern "C-unwind" fn c13_zst() {
    let (op, m) = (param(0), param(1) as usize);
    let k = range(0, 5) as usize;
    let len = usize::MAX - k;
    let mut v: Vec<()> = Vec::new();
    unsafe { v.set_len(len) };
    let fits = m <= k;
    let unit = [(); 8];
    let zf = ();
    match op {
        0 => {
            let ok = FallibleVec::try_push(&mut v, ()).is_ok();
            check(ok == (k >= 1), "a push fails exactly if the count would not fit");
            check(v.len() == len + ok as usize, "the length is right");
        }
        1 => {
            let ok = FallibleVec::try_push_give_back(&mut v, ()).is_ok();
            check(ok == (k >= 1), "a push fails exactly if the count would not fit");
            check(v.len() == len + ok as usize, "the length is right");
        }
        2 => {
            let ok = FallibleVec::try_insert(&mut v, any64() as usize % 1000, ()).is_ok();
            check(ok == (k >= 1), "an insertion fails exactly if the count would not fit");
            check(v.len() == len + ok as usize, "the length is right");
        }
        3 => {
            let mut w = Vec::new();
            unsafe { w.set_len(m) };
            let ok = FallibleVec::try_append(&mut v, &mut w).is_ok();
            check(ok == fits, "appending fails exactly if the count would not fit");
            check(v.len() == if ok { len.wrapping_add(m) } else { len }, "the length is right");
            check(w.len() == if ok { 0 } else { m }, "a failed append leaves its source alone");
        }
        4 => {
            let ok = FallibleVec::try_extend_from_slice(&mut v, &unit[..m]).is_ok();
            check(ok == fits, "extending fails exactly if the count would not fit");
            check(v.len() == if ok { len.wrapping_add(m) } else { len }, "the length is right");
        }
        5 => {
            let ok = FallibleVec::try_reserve(&mut v, m).is_ok();
            check(ok == fits, "reserving fails exactly if the count would not fit");
            check(v.len() == len, "the length is right");
        }
        6 => {
            // the copying forms, for a type whose copies are made one by one
            let mut v: Vec<Z> = Vec::new();
            unsafe { v.set_len(len) };
            let ok = FallibleVec::try_extend_from_slice_no_copy(&mut v, &[Z; 8][..m]).is_ok();
            check(ok == fits, "extending fails exactly if the count would not fit");
            check(v.len() == if ok { len.wrapping_add(m) } else { len }, "the length is right");
        }
        7 => {
            let mut v: Vec<Z> = Vec::new();
            unsafe { v.set_len(len) };
            let to = len.saturating_add(m);
            check(FallibleVec::try_resize_no_copy(&mut v, to, Z).is_ok(), "resizing to a possible length succeeds");
            check(v.len() == to, "the length is right");
        }
        8 => {
            let mut v: TryVec<()> = v.into();
            let ok = v.push(()).is_ok();
            check(ok == (k >= 1), "a push fails exactly if the count would not fit");
            check(v.len() == len + ok as usize, "the length is right");
        }
        9 => {
            let mut v: Vec<Z> = Vec::new();
            unsafe { v.set_len(len) };
            let mut v: TryVec<Z> = v.into();
            let ok = v.extend_from_slice(&[Z; 8][..m]).is_ok();
            check(ok == fits, "extending fails exactly if the count would not fit");
            check(v.len() == if ok { len.wrapping_add(m) } else { len }, "the length is right");
        }
        11 | 12 | 13 | 14 => {
            let to = len.saturating_add(m);
            let ok = match op {
                11 => FallibleVec::try_resize_with(&mut v, to, || ()).is_ok(),
                12 => FallibleVec::try_resize(&mut v, to, ()).is_ok(),
                13 => {
                    let mut t: TryVec<()> = core::mem::take(&mut v).into();
                    let ok = t.resize_with(to, || ()).is_ok();
                    check(t.len() == to, "the length is right");
                    unsafe { v.set_len(t.len()) };
                    ok
                }
                _ => {
                    // a shorter length
                    let ok = FallibleVec::try_resize_with(&mut v, len - m, || ()).is_ok();
                    check(v.len() == len - m, "the length is right");
                    let ok = ok & FallibleVec::try_resize_with(&mut v, to, || ()).is_ok();
                    ok
                }
            };
            check(ok, "resizing to a possible length succeeds");
            check(v.len() == to, "the length is right");
        }
        15 => {
            let mut v: TryVec<()> = v.into();
            let ok = v.reserve(m).is_ok();
            check(ok == fits, "reserving fails exactly if the count would not fit");
            check(v.len() == len, "the length is right");
        }
        16 => {
            // a vector created with any capacity holds zero-sized values without allocating
            let r: Result<Vec<()>, _> = FallibleVec::try_with_capacity(len);
            check(r.is_ok(), "a possible capacity is granted");
            let r = TryVec::<()>::with_capacity(len);
            check(r.is_ok() & (allocs() == 0), "a possible capacity is granted");
        }
        _ => {
            let mut v: TryVec<()> = v.into();
            let mut w: Vec<()> = Vec::new();
            unsafe { w.set_len(m) };
            let mut w: TryVec<()> = w.into();
            let ok = v.append(&mut w).is_ok();
            check(ok == fits, "appending fails exactly if the count would not fit");
            check(v.len() == if ok { len.wrapping_add(m) } else { len }, "the length is right");
            check(w.len() == if ok { 0 } else { m }, "a failed append leaves its source alone");
        }
    }
    obs(fits as u64);
    let _ = zf;
    fin();
}

/// Concatenation of zero-sized vectors whose lengths add up to about the largest integer.
#[no_mangle]
pub extern "C-unwind" fn c13_concat() {
    let mut a: Vec<ZF> = Vec::new();
    let mut b: Vec<ZF> = Vec::new();
    let (la, lb) = (any64() as usize, any64() as usize);
    // either nothing to copy at all, or impossible
    assume((la as u128 + lb as u128 <= 4) | (la as u128 + lb as u128 > usize::MAX as u128));
    // the copies made before the total is found impossible are bounded
    assume(la <= 4);
    unsafe {
        a.set_len(la);
        b.set_len(lb);
    }
    let mut w: TryVec<TryVec<ZF>> = TryVec::new();
    check(w.push(a.into()).is_ok() && w.push(b.into()).is_ok(), "a push succeeds while memory is available");
    // (the sum itself overflows: an ordinary build wraps, a checked build panics)
    let mut r = None;
    // (a copy one element at a time must not run for ever before the total is found impossible)
    arm_clone_fail(50);
    let p = panics(|| r = Some(w.concat()));
    arm_clone_fail(-1);
    match r {
        Some(Ok(v)) => {
            cover("concatenation succeeded");
            check(v.len() as u128 == la as u128 + lb as u128, "a concatenation has the sum of the lengths");
        }
        Some(Err(_)) => {
            cover("concatenation failed");
            check(la as u128 + lb as u128 > usize::MAX as u128, "a possible concatenation succeeds");
        }
        None => check(la as u128 + lb as u128 > usize::MAX as u128, "a possible concatenation does not panic"),
    }
    obs(0);
    drop(w);
    fin();
}

/// Reading with any limit. params: kind, bytes already there, room
#[no_mangle]
pub extern "C-unwind" fn c13_io() {
    #[cfg(feature = "io")]
    io();
}
#[cfg(feature = "io")]
fn io() {
    use fallible_collections::vec::std_io::*;
    let (op, len, cap) = (param(0), param(1) as usize, param(2) as usize);
    let limit = any64();
    let mut v: TryVec<u8> = vec_of::<u8>(len, cap).into();
    let src = [1u8, 2, 3, 4, 5];
    let r = if op == 0 {
        try_read_up_to(&mut &src[..], limit, &mut v)
    } else {
        use std::io::Read;
        (&src[..]).take(limit).try_read_to_end(&mut v)
    };
    obs(r.is_ok() as u64);
    match r {
        Ok(n) => {
            cover("a limited read succeeded");
            check(n as u64 == if limit < 5 { limit } else { 5 }, "a limited read returns the number of bytes read");
            check(v.len() == len + n, "a limited read appends that many bytes");
            check(limit as u128 + len as u128 <= isize::MAX as u128, "no size beyond the address space is granted");
        }
        Err(_) => {
            cover("a limited read failed");
            is_prefix(&v, len);
            check(limit as u128 + len as u128 > LIMIT, "a request that fits in memory succeeds");
        }
    }
    drop(v);
    fin();
}

/// Formatting with any stated capacity.
#[no_mangle]
pub extern "C-unwind" fn c13_format() {
    let n = any64() as usize;
    match fallible_collections::tryformat!(n, "ab{}", "cd") {
        Ok(s) => {
            cover("formatting succeeded");
            check(n as u128 <= isize::MAX as u128, "no size beyond the address space is granted");
            check(s.as_bytes() == b"abcd", "the text is right");
            check(s.capacity() >= n, "the stated capacity is reserved");
            obs(1);
        }
        Err(_) => {
            cover("formatting failed");
            check(n as u128 > LIMIT, "a request that fits in memory succeeds");
            obs(0);
        }
    }
    fin();
}

/// A hash map with a requested capacity. params: capacity (2^64-1: any beyond what memory holds)
#[no_mangle]
pub extern "C-unwind" fn c13_map() {
    #[cfg(not(feature = "bt"))]
    map(param(0) as usize);
}
#[cfg(not(feature = "bt"))]
#[inline(never)]
fn map(cap: usize) {
    use super::common::{seed, K, Q};
    seed(cap as u64);
    let huge = cap == usize::MAX;
    let n = if huge {
        let n = any64() as usize;
        assume(n as u128 * core::mem::size_of::<(K, u64)>() as u128 > LIMIT);
        n
    } else {
        cap
    };
    let r = TryHashMap::<K, u64>::with_capacity(n);
    obs(r.is_ok() as u64);
    match r {
        Ok(mut m) => {
            check(!huge, "a capacity beyond memory is refused");
            let a = allocs();
            check(huge | (live_bytes() as u128 >= n as u128 * core::mem::size_of::<(K, u64)>() as u128), "a map created with a capacity has memory for that many entries");
            let room = n.min(200);
            fault_all();
            for i in 0..room {
                let ok = matches!(m.insert(K::new(Q { class: i as u32, n: i as u32 }), 7), Ok(None));
                check(ok, "a map created with a capacity has that much room");
            }
            fault_off();
            check(allocs() == a, "a map created with a capacity has that much room");
            check(m.len() == room, "every insertion is there");
            drop(m);
        }
        Err(_) => {
            check(huge, "a capacity that fits in memory is granted");
            check(live() == 0, "a failed request allocates nothing");
        }
    }
    fin();
}

#[inline(never)]
fn limit<T: El>(op: u64, len: usize, cap: usize) {
    let mut v = vec_of::<T>(len, cap);
    let m = any64() as usize;
    let e = T::mk(x(9));
    let mut ok = None;
    let mut called = false;
    arm_clone_panic(0);
    let p = panics(|| {
        ok = Some(match op {
            0 => FallibleVec::try_resize_with(&mut v, m, || {
                called = true;
                panic!("reached")
            }).is_ok(),
            1 => FallibleVec::try_resize_no_copy(&mut v, m, e).is_ok(),
            _ => {
                let mut t: TryVec<T> = core::mem::take(&mut v).into();
                let mut ok = false;
                let p = panics(|| {
                    ok = t.resize_with(m, || {
                        called = true;
                        panic!("reached")
                    }).is_ok()
                });
                v = t.into_iter().collect();
                if p {
                    panic!("reached");
                }
                ok
            }
        });
    });
    arm_clone_panic(-1);
    let need = m as u128 * size_of::<T>() as u128;
    obs(p as u64);
    if p {
        cover("room was made");
        check(m > len, "no element is made for a shorter length");
        check(need <= isize::MAX as u128, "no size beyond the address space is granted");
        check((v.capacity() >= m) | (op == 2), "room for the requested length is there before the first element is made");
        check(v.len() <= m, "the length is right");
    } else if ok == Some(true) {
        check((m <= len) | (m == len + 1), "an element is made for every place");
    } else {
        cover("room was refused");
        is_prefix(&v, len);
        check(need > LIMIT, "a resize that fits in memory succeeds");
    }
}
/// Resizing to any length at all; making the first element panics, so that only the reservation is seen. params: element type, op, len, cap
#[no_mangle]
pub extern "C-unwind" fn c13_limit() {
    let (ty, op, len, cap) = (param(0), param(1), param(2) as usize, param(3) as usize);
    for_el!(ty, limit(op, len, cap));
    fin();
}
