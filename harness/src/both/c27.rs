//! Growth is amortised, memory proportional, and nothing moves while there is room.
use super::vcommon::*;
use crate::vf::*;
use crate::{entries, for_copy};
use core::mem::size_of;
use fallible_collections::vec::*;
use fallible_collections::*;

entries!(c27_grow, c27_fit, c27_copy, c27_empty, c27_io, c27_map, c27_churn, c27_map_copy);

/// As many reallocations as growing by a quarter each time takes, and a few more.
fn growths(n: usize) -> u64 {
    let mut c = 1;
    let mut k = 6;
    while c < n {
        c += c / 4 + 1;
        k += 1;
    }
    k
}
/// The room that holding `n` elements justifies, for a vector that had room for `cap` before.
fn proportional<T>(n: usize, cap: usize) -> u64 {
    ((4 * n + 16).max(cap) * size_of::<T>()) as u64
}

enum V<T> {
    Plain(Vec<T>),
    Try(TryVec<T>),
}
impl<T> V<T> {
    fn len(&self) -> usize {
        match self {
            V::Plain(v) => v.len(),
            V::Try(v) => v.len(),
        }
    }
    fn at(&self) -> *const T {
        match self {
            V::Plain(v) => v.as_ptr(),
            V::Try(v) => v.as_ptr(),
        }
    }
}
/// Add `k` elements (numbered from the length on) by operation `op`. Blocks held besides the vector's are gone again.
/// The result: reallocations counted while the operation ran.
#[inline(never)]
fn add<T: El + Copy>(v: &mut V<T>, op: u64, k: usize, at: usize) -> u64 {
    let l = v.len();
    let e = |i: usize| T::mk((l + i) as u32);
    let mut a = allocs();
    let mut ok = true;
    match v {
        V::Plain(v) => match op {
            0 => (0..k).for_each(|i| ok &= v.try_push(e(i)).is_ok()),
            1 => (0..k).for_each(|i| ok &= v.try_push_give_back(e(i)).is_ok()),
            2 => (0..k).for_each(|i| ok &= FallibleVec::try_insert(v, (l + i) * at / 2, e(i)).is_ok()),
            3 => {
                let mut o = Vec::with_capacity(k);
                (0..k).for_each(|i| o.push(e(i)));
                a = allocs();
                ok = v.try_append(&mut o).is_ok();
            }
            4 => ok = v.try_resize_with(l + k, || e(0)).is_ok(),
            5 => ok = v.try_resize_no_copy(l + k, e(0)).is_ok(),
            6 => ok = v.try_resize(l + k, e(0)).is_ok(),
            7 | 8 => {
                let mut b = [e(0); 64];
                (0..k).for_each(|i| b[i] = e(i));
                ok = if op == 7 { v.try_extend_from_slice(&b[..k]).is_ok() } else { v.try_extend_from_slice_no_copy(&b[..k]).is_ok() };
            }
            9 => {
                ok = FallibleVec::try_reserve(v, k).is_ok();
                (0..k).for_each(|i| v.push(e(i)));
            }
            _ => {}
        },
        V::Try(v) => match op {
            0 | 1 => (0..k).for_each(|i| ok &= v.push(e(i)).is_ok()),
            3 => {
                let mut o = Vec::with_capacity(k);
                (0..k).for_each(|i| o.push(e(i)));
                let mut o: TryVec<T> = o.into();
                a = allocs();
                ok = v.append(&mut o).is_ok();
            }
            4 => ok = v.resize_with(l + k, || e(0)).is_ok(),
            7 | 8 => {
                let mut b = [e(0); 64];
                (0..k).for_each(|i| b[i] = e(i));
                ok = v.extend_from_slice(&b[..k]).is_ok();
            }
            9 => {
                ok = v.reserve(k).is_ok();
                (0..k).for_each(|i| ok &= v.push(e(i)).is_ok());
            }
            _ => {}
        },
    }
    let a = allocs() - a;
    check(ok, "an operation succeeds while memory is available");
    check(v.len() == l + k, "every element added is there");
    a
}
#[inline(never)]
fn grow<T: El + Copy>(op: u64, plain: bool, n: usize, k: usize, start: usize) {
    // the vector it begins with: any small length, with any little room
    let l0 = start + choose(3) as usize;
    let c0 = if start == 0 { choose(7) as usize } else { l0 };
    let at = if op == 2 { choose(3) as usize } else { 2 };
    // the first addition is of another number of elements
    let first = choose(3) as usize;
    let v = vec_of::<T>(l0, c0.max(l0));
    let mut room = v.capacity();
    let mut v = if plain { V::Plain(v) } else { V::Try(v.into()) };
    let mut total = 0;
    let mut i = 0;
    while v.len() < n {
        let (p, l) = (v.at(), v.len());
        let k = if i == 0 { first } else { k };
        let a = add(&mut v, op, k, at);
        total += a;
        if l + k <= room {
            check(a == 0, "adding what there is room for allocates nothing");
            check(v.at() == p, "adding what there is room for moves nothing");
        } else {
            cover("a vector grew");
        }
        if size_of::<T>() > 0 {
            room = live_bytes() as usize / size_of::<T>();
            check(room >= v.len(), "harness: the vector's block is the only one");
        }
        check(live_bytes() <= proportional::<T>(v.len(), c0), "memory is proportional to the number of elements");
        i += 1;
    }
    check(total <= growths(v.len()), "growing step by step reallocates a logarithmic number of times");
    // what was there stays there
    let (first, last) = match &v {
        V::Plain(v) => (v[0].num(), v[v.len() - 1].num()),
        V::Try(v) => (v[0].num(), v[v.len() - 1].num()),
    };
    obs(first as u64);
    obs(last as u64);
    obs(total);
}
/// Growing to n elements, k at a time. params: element type, op, 1: Vec 0: TryVec, n, k, least length to begin with
#[no_mangle]
pub extern "C-unwind" fn c27_grow() {
    let (ty, op, plain, n, k, start) = (param(0), param(1), param(2) == 1, param(3) as usize, param(4) as usize, param(5) as usize);
    for_copy!(ty, grow(op, plain, n, k, start));
    fin();
}

/// Reserving any number: what fits stays in place; what does not is given no more than in proportion.
#[inline(never)]
fn fit<T: El + Copy>(len: usize, cap: usize, plain: bool) {
    let v = vec_of::<T>(len, cap);
    let cap = v.capacity();
    let n = any64() as usize;
    let (p, a) = (v.as_ptr(), allocs());
    let (ok, q, v) = if plain {
        let mut v = v;
        (FallibleVec::try_reserve(&mut v, n).is_ok(), v.as_ptr(), V::Plain(v))
    } else {
        let mut v: TryVec<T> = v.into();
        (v.reserve(n).is_ok(), v.as_ptr(), V::Try(v))
    };
    if is(n <= cap - len) {
        cover("a reservation that fits");
        check(ok, "a reservation that fits succeeds");
        check((q == p) & (allocs() == a), "a reservation that fits does nothing");
    } else if ok {
        cover("a reservation that does not fit");
        check(allocs() - a == 1, "one reservation allocates once");
        check(live_bytes() as u128 <= (4 * (len as u128 + n as u128) + 16).max(cap as u128) * size_of::<T>() as u128, "memory is proportional to the number of elements");
    }
    check(v.len() == len, "a reservation adds nothing");
    obs(ok as u64);
}
/// params: element type, len, cap, 1: Vec 0: TryVec
#[no_mangle]
pub extern "C-unwind" fn c27_fit() {
    let (ty, len, cap, plain) = (param(0), param(1) as usize, param(2) as usize, param(3) == 1);
    for_copy!(ty, fit(len, cap, plain));
    fin();
}

struct Hint<T> {
    n: usize,
    i: usize,
    lo: usize,
    _t: core::marker::PhantomData<T>,
}
impl<T: El> Iterator for Hint<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.i == self.n {
            return None;
        }
        self.i += 1;
        Some(T::mk(self.i as u32))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lo.min(self.n - self.i), None)
    }
}
/// Copies, collections and concatenations take memory for what they hold.
#[inline(never)]
fn copy<T: El + Copy>(op: u64, n: usize) {
    let len = [n, n / 3, 1][choose(3) as usize];
    let v = vec_of::<T>(len, n + 9);
    let (b0, a0) = (live_bytes(), allocs());
    match op {
        0 => {
            let c = v.try_clone();
            check(c.is_ok(), "an operation succeeds while memory is available");
            check(live_bytes() - b0 <= proportional::<T>(len, 0), "a copy takes memory for what it holds");
            check(allocs() - a0 <= 1 + growths(len), "a copy allocates a logarithmic number of times");
        }
        1 => {
            let v: TryVec<T> = v.into();
            let c = v.try_clone();
            check(c.is_ok(), "an operation succeeds while memory is available");
            check(live_bytes() - b0 <= proportional::<T>(len, 0), "a copy takes memory for what it holds");
            check(allocs() - a0 <= 1 + growths(len), "a copy allocates a logarithmic number of times");
        }
        2 => {
            let it = Hint::<T> { n: len, i: 0, lo: choose(2) as usize * len, _t: core::marker::PhantomData };
            let c: Result<Vec<T>, _> = it.try_collect();
            check(matches!(&c, Ok(c) if c.len() == len), "an operation succeeds while memory is available");
            check(live_bytes() - b0 <= proportional::<T>(len, 0), "a collection takes memory for what it holds");
            check(allocs() - a0 <= growths(len), "collecting allocates a logarithmic number of times");
        }
        3 => {
            let c: Result<TryVec<T>, _> = TryVec::try_from(&v[..]);
            check(c.is_ok(), "an operation succeeds while memory is available");
            check(live_bytes() - b0 <= proportional::<T>(len, 0), "a copy takes memory for what it holds");
            check(allocs() - a0 <= growths(len), "a copy allocates a logarithmic number of times");
        }
        4 => {
            // many short pieces
            let mut o = TryVec::<TryVec<T>>::new();
            check(o.push(v.into()).is_ok(), "an operation succeeds while memory is available");
            for i in 0..n {
                check(o.push(vec_of::<T>(i % 3, 3).into()).is_ok(), "an operation succeeds while memory is available");
            }
            let total: usize = o.iter().map(|x| x.len()).sum();
            let (b0, a0) = (live_bytes(), allocs());
            let c = o.concat();
            check(matches!(&c, Ok(c) if c.len() == total), "an operation succeeds while memory is available");
            check(live_bytes() - b0 <= proportional::<T>(total, 0), "a concatenation takes memory for what it holds");
            check(allocs() - a0 <= growths(total), "concatenating allocates a logarithmic number of times");
        }
        _ => {
            #[cfg(feature = "bt")]
            {
                let c = try_from_elem(T::mk(9), len);
                check(matches!(&c, Ok(c) if c.len() == len), "an operation succeeds while memory is available");
                check(live_bytes() - b0 <= proportional::<T>(len, 0), "a literal takes memory for what it holds");
                check(allocs() - a0 <= growths(len), "a literal allocates a logarithmic number of times");
            }
        }
    }
}
/// params: element type, op, n
#[no_mangle]
pub extern "C-unwind" fn c27_copy() {
    let (ty, op, n) = (param(0), param(1), param(2) as usize);
    for_copy!(ty, copy(op, n));
    fin();
}

/// Nothing is allocated for nothing.
#[inline(never)]
fn empty<T: El + Copy>() {
    fault_all();
    let a = allocs();
    match choose(10) {
        0 => drop(TryVec::<T>::new()),
        1 => drop(TryVec::<T>::default()),
        2 => check(TryVec::<T>::with_capacity(0).is_ok(), "nothing is reserved without allocating"),
        3 => {
            let v: Result<Vec<T>, _> = FallibleVec::try_with_capacity(0);
            check(v.is_ok(), "nothing is reserved without allocating");
        }
        4 => {
            let v: Result<Vec<T>, _> = Vec::try_from_iterator(core::iter::empty());
            check(v.is_ok(), "nothing is collected without allocating");
        }
        5 => check(Vec::<T>::new().try_clone().is_ok(), "nothing is copied without allocating"),
        6 => {
            let v: Result<TryVec<T>, _> = TryVec::try_from(&[][..]);
            check(v.is_ok(), "nothing is copied without allocating");
        }
        7 => {
            let mut v = Vec::<T>::new();
            let mut o = Vec::<T>::new();
            check(v.try_append(&mut o).is_ok(), "nothing is appended without allocating");
            check(v.try_extend_from_slice(&[]).is_ok() & v.try_extend_from_slice_no_copy(&[]).is_ok(), "nothing is added without allocating");
            check(FallibleVec::try_reserve(&mut v, 0).is_ok(), "nothing is reserved without allocating");
            check(v.try_resize(0, T::mk(1)).is_ok() & v.try_resize_no_copy(0, T::mk(1)).is_ok(), "nothing is added without allocating");
            check(v.try_resize_with(0, || T::mk(1)).is_ok(), "nothing is added without allocating");
        }
        8 => {
            check(TryVec::<TryVec<T>>::new().concat().is_ok(), "nothing is concatenated without allocating");
        }
        _ => {
            #[cfg(not(feature = "bt"))]
            {
                super::common::seed(3);
                drop(TryHashMap::<u32, T>::default());
                check(TryHashMap::<u32, T>::with_capacity(0).is_ok(), "nothing is reserved without allocating");
            }
        }
    }
    check(allocs() == a, "nothing is allocated for nothing");
    check(fails() == 0, "nothing is requested for nothing");
    fault_off();
}
/// params: element type
#[no_mangle]
pub extern "C-unwind" fn c27_empty() {
    let ty = param(0);
    for_copy!(ty, empty());
    fin();
}

/// Writing in pieces. params: n, piece
#[no_mangle]
pub extern "C-unwind" fn c27_io() {
    #[cfg(feature = "io")]
    {
        use std::io::Write;
        let (n, k) = (param(0) as usize, param(1) as usize);
        let first = choose(4) as usize;
        let by = choose(2);
        let mut v = TryVec::<u8>::new();
        let b = [7u8; 64];
        let a0 = allocs();
        let mut i = 0;
        while v.len() < n {
            let k = if i == 0 { first } else { k };
            let (a, p, room) = (allocs(), v.as_ptr(), live_bytes() as usize - v.len());
            let r = if by == 0 { v.write_all(&b[..k]).is_ok() } else { matches!(v.write(&b[..k]), Ok(x) if x == k) };
            check(r, "an operation succeeds while memory is available");
            if k <= room && i > 0 {
                check((allocs() == a) & (v.as_ptr() == p), "writing what there is room for moves nothing");
            }
            check(live_bytes() <= proportional::<u8>(v.len(), 0), "memory is proportional to the number of bytes");
            i += 1;
        }
        check(allocs() - a0 <= growths(v.len()), "writing piece by piece reallocates a logarithmic number of times");
        obs(allocs() - a0);
        drop(v);
        fin();
    }
}

#[cfg(not(feature = "bt"))]
mod maps {
    use super::*;
    /// The memory that holding `n` entries at once justifies.
    fn table(n: usize) -> u64 {
        ((16 * n + 64) * (size_of::<(u32, u64)>() + 1) + 64) as u64
    }
    /// Insertion of n keys into a map made with some capacity.
    #[inline(never)]
    pub fn grow(n: u32, c: usize) {
        super::super::common::seed(n as u64);
        let c = c + choose(3) as usize;
        let step = [1u32, 7, 1 << 20][choose(3) as usize];
        let again = choose(2) == 1;
        let m = TryHashMap::<u32, u64>::with_capacity(c);
        let a0 = allocs();
        let mut m = match m {
            Ok(m) => m,
            Err(_) => return check(false, "an operation succeeds while memory is available"),
        };
        check(live_bytes() <= table(c), "a table's memory is proportional to its capacity");
        for i in 0..n {
            check(matches!(m.insert(i.wrapping_mul(step), i as u64), Ok(None)), "an operation succeeds while memory is available");
            if again {
                check(matches!(m.insert(i.wrapping_mul(step), 1), Ok(Some(_))), "an operation succeeds while memory is available");
            }
            if i % 8 == 0 {
                check(live_bytes() <= table((i as usize + 1).max(c)), "memory is proportional to the number of entries");
            }
        }
        cover("a table grew");
        check(allocs() - a0 <= growths(n as usize), "growing entry by entry reallocates a logarithmic number of times");
        obs(allocs() - a0);
    }
    /// Entries come and go, never more than `n` at once.
    #[inline(never)]
    pub fn churn(n: u32, rounds: u32) {
        super::super::common::seed(n as u64);
        let mut m = TryHashMap::<u32, u64>::default();
        let step = [1u32, 7, 1 << 20][choose(3) as usize];
        let lifo = choose(2) == 1;
        for i in 0..n {
            check(matches!(m.insert(i.wrapping_mul(step), i as u64), Ok(None)), "an operation succeeds while memory is available");
        }
        let a0 = allocs();
        for i in 0..rounds {
            let (out, new) = if lifo { (n - 1, n - 1) } else { (i, n + i) };
            check(m.remove(&out.wrapping_mul(step)).is_some(), "a removal finds its entry");
            check(matches!(m.insert(new.wrapping_mul(step), 5), Ok(None)), "an operation succeeds while memory is available");
            if i % 8 == 0 {
                check(live_bytes() <= table(n as usize), "memory stays proportional to the most entries held at once");
            }
        }
        cover("a table was churned");
        check(m.len() == n as usize, "as many entries are left as there should be");
        check(allocs() - a0 <= growths(n as usize), "entries that come and go do not make the table grow");
        obs(allocs() - a0);
    }
    /// Copies, also of maps that held more once.
    #[inline(never)]
    pub fn copy(n: u32) {
        super::super::common::seed(n as u64);
        let mut m = TryHashMap::<u32, u64>::default();
        for i in 0..n {
            check(matches!(m.insert(i, i as u64), Ok(None)), "an operation succeeds while memory is available");
        }
        let left = [n, n / 5, 0][choose(3) as usize];
        for i in left..n {
            check(m.remove(&i).is_some(), "a removal finds its entry");
        }
        let (b0, a0) = (live_bytes(), allocs());
        let c = m.try_clone();
        check(matches!(&c, Ok(c) if c.len() == left as usize), "an operation succeeds while memory is available");
        check(live_bytes() - b0 <= table(left as usize), "a copy takes memory for what it holds");
        check(allocs() - a0 <= growths(left as usize), "a copy allocates a logarithmic number of times");
        if left == 0 {
            check(allocs() == a0, "nothing is copied without allocating");
        }
    }
}
/// params: n, capacity to begin with
#[no_mangle]
pub extern "C-unwind" fn c27_map() {
    #[cfg(not(feature = "bt"))]
    maps::grow(param(0) as u32, param(1) as usize);
    fin();
}
/// params: n, rounds
#[no_mangle]
pub extern "C-unwind" fn c27_churn() {
    #[cfg(not(feature = "bt"))]
    maps::churn(param(0) as u32, param(1) as u32);
    fin();
}
/// params: n
#[no_mangle]
pub extern "C-unwind" fn c27_map_copy() {
    #[cfg(not(feature = "bt"))]
    maps::copy(param(0) as u32);
    fin();
}
