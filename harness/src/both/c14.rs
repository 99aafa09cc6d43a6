//! Fallible vector operations against their ordinary counterparts, while memory suffices.
use super::vcommon::*;
use crate::vf::*;
use crate::{entries, for_copy, for_el};
use fallible_collections::vec::*;
use fallible_collections::*;

entries!(c14_op, c14_hist, c14_collect, c14_make, c14_clone);

#[inline(never)]
fn succeeded<T: El>(c: &mut Case<T>) {
    check(c.panicked == c.want_panic, "an operation panics exactly if the ordinary one does");
    if c.panicked {
        cover("an insertion beyond the end panics");
        check(c.v.len() == c.before.len(), "a panicking insertion leaves the vector alone");
        same(&c.v, &c.before, c.before.len());
    } else {
        check(c.r.ok(), "an operation succeeds while memory is available");
        check(c.v.len() == c.want.len(), "the vector has the length of the ordinary one");
        same(&c.v, &c.want, c.want.len());
        if c.op == 3 {
            cover("an append");
            check(c.other.is_empty(), "an append empties its source");
        }
        if c.op == 4 {
            let n = c.want.len();
            check(c.calls == (n - c.before.len().min(n)) as u64, "the closure is called once per added element, in order");
        }
    }
    if c.op == 6 || c.op == 8 {
        check(c.other.len() == c.other_before.len(), "an extension leaves its source alone");
        same(&c.other, &c.other_before, c.other.len());
    }
    distinct(&c.v);
    if T::TOK {
        check(live_tokens() as usize == c.v.len() + c.other.len(), "values no longer held are dropped at once");
    }
    obs(c.v.len() as u64);
}
/// argument values worth trying for an operation on a vector of `len` elements
fn arg(op: u64, len: usize) -> usize {
    if let Some(a) = wide(op, len) {
        return a;
    }
    match op {
        0 | 1 => 0,
        2 => choose(len as u64 + 2) as usize,
        3 | 6 | 8 => choose(6) as usize,
        _ => choose(len as u64 + 6) as usize,
    }
}
#[inline(never)]
fn one<T: El>(op: u64, len: usize, cap: usize) {
    let v = vec_of::<T>(len, cap);
    let mut c = run(op, v, arg(op, len), &|| {});
    succeeded(&mut c);
}
#[inline(never)]
fn one_copy<T: El + Copy>(op: u64, len: usize, cap: usize) {
    let v = vec_of::<T>(len, cap);
    let mut c = run_copy(op, v, arg(op, len), &|| {});
    succeeded(&mut c);
}
/// One operation with every argument. params: element type, op, len, cap, base of the arguments
#[no_mangle]
pub extern "C-unwind" fn c14_op() {
    let (ty, op, len, cap) = (param(0), param(1), param(2) as usize, param(3) as usize);
    unsafe { BASE = param(4) as usize };
    if op >= 7 {
        for_copy!(ty, one_copy(op, len, cap));
    } else {
        for_el!(ty, one(op, len, cap));
    }
    fin();
}

#[inline(never)]
fn hist<T: El>(k: u64, len: usize, cap: usize) {
    let mut v = vec_of::<T>(len, cap);
    for _ in 0..k {
        let op = choose(7);
        let a = match op {
            3 | 6 => choose(3) as usize,
            4 | 5 => (v.len() + 2).saturating_sub(choose(4) as usize),
            _ => arg(op, v.len()),
        };
        let mut c = run(op, v, a, &|| {});
        succeeded(&mut c);
        v = c.v;
    }
    usable(&mut v);
}
/// Sequences of operations. params: element type, count, len, cap
#[no_mangle]
pub extern "C-unwind" fn c14_hist() {
    let (ty, k, len, cap) = (param(0), param(1), param(2) as usize, param(3) as usize);
    for_el!(ty, hist(k, len, cap));
    fin();
}

/// An iterator that is not fused, and whose size hint may be loose or wrong.
struct It<T> {
    n: usize,
    i: usize,
    hint: u64,
    ended: bool,
    _t: core::marker::PhantomData<T>,
}
impl<T: El> Iterator for It<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        check(!self.ended, "an iterator is not asked again after its end");
        if self.i == self.n {
            self.ended = true;
            return None;
        }
        self.i += 1;
        Some(T::mk(x(9 + self.i)))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.n - self.i;
        match self.hint {
            0 => (left, Some(left)),
            1 => (0, None),
            2 => (left / 2, Some(left + 7)),
            3 => (0, Some(0)),
            _ => (left + 2, Some(left + 2)),
        }
    }
}
#[inline(never)]
fn collect<T: El>(max: u64) {
    let n = unsafe { BASE } + choose(max + 1) as usize;
    let hint = choose(5);
    let it = It::<T> { n, i: 0, hint, ended: false, _t: core::marker::PhantomData };
    let r: Result<Vec<T>, _> = if any_bool() { it.try_collect() } else { Vec::try_from_iterator(it) };
    check(r.is_ok(), "an operation succeeds while memory is available");
    let mut v = match r {
        Ok(v) => v,
        Err(_) => return,
    };
    check(v.len() == n, "collecting gives every item");
    for i in 0..v.len() {
        check(v[i].num() == T::back(x(10 + i)), "collected items keep their order");
    }
    obs(n as u64);
    usable(&mut v);
}
/// Collecting. params: element type, max, base
#[no_mangle]
pub extern "C-unwind" fn c14_collect() {
    let (ty, max) = (param(0), param(1));
    unsafe { BASE = param(2) as usize };
    for_el!(ty, collect(max));
    // adaptors of the standard library, and borrowed items
    let src = [x(0), x(1), x(2), x(3)];
    let r: Result<Vec<&u32>, _> = src.iter().try_collect();
    check(matches!(&r, Ok(v) if v.len() == 4 && core::ptr::eq(v[3], &src[3])), "collected items keep their order");
    let r: Result<Vec<u32>, _> = src.iter().rev().copied().filter(|e| *e != x(1)).try_collect();
    if let Ok(v) = r {
        let mut want = Vec::new();
        for e in [x(3), x(2), x(1), x(0)] {
            if e != x(1) {
                want.push(e);
            }
        }
        check(v.len() == want.len(), "collecting gives every item");
        for i in 0..v.len() {
            check(v[i] == want[i], "collected items keep their order");
        }
    }
    fin();
}

#[inline(never)]
fn make<T: El>(op: u64) {
    match op {
        0 => {
            let n = unsafe { BASE } + choose(9) as usize;
            let r: Result<Vec<T>, _> = FallibleVec::try_with_capacity(n);
            check(r.is_ok(), "an operation succeeds while memory is available");
            if let Ok(mut v) = r {
                check((v.len() == 0) & (v.capacity() >= n), "a vector with capacity is empty and has the room");
                usable(&mut v);
            }
        }
        #[cfg(feature = "bt")]
        1 | 2 => {
            let n = match choose(8) {
                7 => 40,
                n => (unsafe { BASE }) + n as usize,
            };
            let e = T::mk(x(0));
            let r: Result<Vec<T>, _> = if op == 1 { try_from_elem(e, n) } else { try_vec![e; n] };
            check(r.is_ok(), "an operation succeeds while memory is available");
            if let Ok(mut v) = r {
                check(v.len() == n, "filling gives the requested length");
                for e in v.iter() {
                    check(e.num() == T::back(x(0)), "filling repeats the value");
                }
                if T::TOK {
                    check(live_tokens() as usize == n, "values no longer held are dropped at once");
                }
                obs(n as u64);
                usable(&mut v);
            }
        }
        #[cfg(feature = "bt")]
        3 => {
            let m = |i: usize| T::mk(x(i));
            let v: Result<Vec<T>, _> = match choose(4) {
                0 => try_vec![],
                1 => try_vec![m(0)],
                2 => try_vec![m(0), m(1), m(2)],
                _ => try_vec![m(0), m(1), m(2), m(3), m(4),],
            };
            check(v.is_ok(), "an operation succeeds while memory is available");
            if let Ok(mut v) = v {
                cover("a literal");
                for i in 0..v.len() {
                    check(v[i].num() == T::back(x(i)), "a literal has the written elements in order");
                }
                usable(&mut v);
            }
        }
        _ => {}
    }
}
/// Construction. params: element type, op, base
#[no_mangle]
pub extern "C-unwind" fn c14_make() {
    let (ty, op) = (param(0), param(1));
    unsafe { BASE = param(2) as usize };
    for_el!(ty, make(op));
    fin();
}

#[inline(never)]
fn clone<T: El>(len: usize, cap: usize) {
    let v = vec_of::<T>(len, cap);
    let s = snap(&v);
    let r = TryClone::try_clone(&v);
    check(r.is_ok(), "an operation succeeds while memory is available");
    if let Ok(mut w) = r {
        check(w.len() == len, "a copy has the same length");
        for i in 0..len {
            check(w[i].num() == s[i].0, "a copy has equal elements");
            if T::TOK {
                check(w[i].id() != s[i].1, "a copy has elements of its own");
            }
        }
        usable(&mut w);
        if core::mem::size_of::<T>() > 0 && len > 0 {
            check(w.as_ptr() != v.as_ptr(), "a copy has memory of its own");
        }
    }
    check(v.len() == len, "copying leaves the original alone");
    same(&v, &s, len);
    obs(len as u64);
}
/// Copying. params: element type, len, cap
#[no_mangle]
pub extern "C-unwind" fn c14_clone() {
    let (ty, len, cap) = (param(0), param(1) as usize, param(2) as usize);
    for_el!(ty, clone(len, cap));
    fin();
}
