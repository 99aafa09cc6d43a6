//! Failing allocations and element copies in vector operations.
use super::vcommon::*;
use crate::vf::*;
use crate::{entries, for_copy, for_el};
use fallible_collections::vec::*;
use fallible_collections::*;

entries!(c15_op, c15_hist, c15_make);

static mut ALLOC_ONLY: bool = false;
fn arm(mode: u64, max: u64) {
    match mode {
        0 => fault_each(3),
        1 => fault_persistent(),
        2 => fault_all(),
        3 => arm_clone_fail(any_count(max) as i32),
        _ => {
            fault_each(2);
            arm_clone_fail(any_count(max) as i32)
        }
    }
}
/// was something made to fail?
static mut F0: u64 = 0;
fn alloc_failed() -> bool {
    fails() > unsafe { F0 }
}
#[inline(never)]
fn settled<T: El>(c: &mut Case<T>, mode: u64) {
    check(!c.panicked | c.want_panic, "an operation does not panic when memory is exhausted");
    if c.want_panic && !c.panicked {
        check(matches!(c.r, R::Back(_)), "inserting beyond the end panics, or fails");
    }
    if c.panicked {
        same(&c.v, &c.before, c.before.len());
        return;
    }
    let n = c.before.len();
    if alloc_failed() {
        check(c.r.failed(), "a failed allocation is reported as an error");
    }
    match &c.r {
        R::Ok => {
            check(c.v.len() == c.want.len(), "a successful operation has its full effect");
            same(&c.v, &c.want, c.want.len());
            check(c.op != 3 || c.other.is_empty(), "an append empties its source");
        }
        R::Err | R::Back(_) => {
            check(alloc_failed() | (mode >= 3), "an operation fails only if something it needs fails");
            check(c.v.len() >= n, "a failed operation keeps every element");
            same(&c.v, &c.before, n);
            if c.op == 5 || c.op == 6 {
                cover("a copying operation failed");
                check(c.v.len() <= c.want.len(), "a failed operation adds no more than a successful one");
                let l = c.v.len();
                same(&c.v, &c.want, l);
            } else {
                check(c.v.len() == n, "a failed operation changes nothing");
            }
            if c.op == 3 {
                cover("an append failed");
                check(c.other.len() == c.other_before.len(), "a failed append leaves its source alone");
                same(&c.other, &c.other_before, c.other.len());
            }
        }
        R::None => check(false, "an operation returns"),
    }
    if let R::Back(e) = &c.r {
        cover("an element is given back");
        check(e.num() == T::back(x(10)), "the offered element is given back");
        if T::TOK {
            check(e.id() == c.offered, "the offered element is given back");
        }
    }
    if c.op == 6 || c.op == 8 {
        check(c.other.len() == c.other_before.len(), "an extension leaves its source alone");
        same(&c.other, &c.other_before, c.other.len());
    }
    distinct(&c.v);
    if T::TOK {
        let back = matches!(c.r, R::Back(_)) as usize;
        check(live_tokens() as usize == c.v.len() + c.other.len() + back, "values no longer held are dropped at once");
    }
    obs(c.v.len() as u64 + 100 * c.r.failed() as u64);
}
fn arg(op: u64, len: usize) -> usize {
    if let Some(a) = wide(op, len) {
        return a;
    }
    match op {
        0 | 1 => 0,
        2 => choose(len as u64 + 2) as usize,
        3 | 6 | 8 => choose(5) as usize,
        _ => choose(len as u64 + 5) as usize,
    }
}
#[inline(never)]
fn one<T: El>(op: u64, len: usize, cap: usize, mode: u64) {
    let v = vec_of::<T>(len, cap);
    unsafe { F0 = fails() };
    let mut c = run(op, v, arg(op, len), &|| arm(mode, steps(5)));
    settled(&mut c, mode);
    let Case { mut v, r, .. } = c;
    drop(r);
    usable(&mut v);
}
#[inline(never)]
fn one_copy<T: El + Copy>(op: u64, len: usize, cap: usize, mode: u64) {
    let v = vec_of::<T>(len, cap);
    unsafe { F0 = fails() };
    let mut c = run_copy(op, v, arg(op, len), &|| arm(mode, steps(5)));
    settled(&mut c, mode);
    usable(&mut c.v);
}
/// One operation, any failure. params: element type, op, len, cap, mode, base of the arguments
#[no_mangle]
pub extern "C-unwind" fn c15_op() {
    let (ty, op, len, cap, mode) = (param(0), param(1), param(2) as usize, param(3) as usize, param(4));
    unsafe { BASE = param(5) as usize };
    if op >= 7 {
        for_copy!(ty, one_copy(op, len, cap, mode));
    } else {
        for_el!(ty, one(op, len, cap, mode));
    }
    fin();
}
#[inline(never)]
fn hist<T: El>(k: u64, len: usize, cap: usize) {
    let mut v = vec_of::<T>(len, cap);
    for _ in 0..k {
        let op = choose(7);
        let a = match op {
            3 | 6 => 1 + choose(2) as usize,
            4 | 5 => v.len() + choose(3) as usize,
            2 => choose(2) as usize * v.len(),
            _ => 0,
        };
        let mode = if op >= 5 { 4 } else { 0 };
        unsafe { F0 = fails() };
        let mut c = run(op, v, a, &|| arm(mode, 2));
        settled(&mut c, mode);
        v = c.v;
    }
    usable(&mut v);
}
/// Sequences of operations with failures. params: element type, count, len, cap
#[no_mangle]
pub extern "C-unwind" fn c15_hist() {
    let (ty, k, len, cap) = (param(0), param(1), param(2) as usize, param(3) as usize);
    for_el!(ty, hist(k, len, cap));
    fin();
}

#[inline(never)]
fn make<T: El>(op: u64, mode: u64) {
    let n = unsafe { BASE } + choose(if unsafe { BASE } > 0 { 2 } else { 6 }) as usize;
    let src = vec_of::<T>(if op == 1 { n } else { 0 }, 0);
    let s = snap(&src);
    let (l0, b0, t0) = (live(), live_bytes(), live_tokens());
    let mut r: Option<Result<Vec<T>, TryReserveError>> = None;
    let mut want = n;
    unsafe { F0 = fails() };
    let p = panics(|| match op {
        0 => {
            arm(mode, steps(6));
            let mut i = 0;
            r = Some(
                core::iter::from_fn(|| {
                    i += 1;
                    if i > n {
                        None
                    } else {
                        Some(T::mk(x(i - 1)))
                    }
                })
                .try_collect(),
            );
        }
        1 => {
            arm(mode, steps(6));
            r = Some(src.try_clone());
        }
        2 => {
            arm(mode, steps(6));
            r = Some(FallibleVec::try_with_capacity(n));
            want = 0;
        }
        #[cfg(feature = "bt")]
        3 => {
            let e = T::mk(x(0));
            arm(mode, steps(6));
            r = Some(try_from_elem(e, n));
        }
        #[cfg(feature = "bt")]
        4 => {
            let e = T::mk(x(0));
            arm(mode, steps(6));
            r = Some(try_vec![e; n]);
        }
        #[cfg(feature = "bt")]
        _ => {
            let (a, b, c) = (T::mk(x(0)), T::mk(x(1)), T::mk(x(2)));
            arm(mode, steps(6));
            r = Some(if n > 3 { try_vec![a, b, c] } else { try_vec![a, b] });
            want = if n > 3 { 3 } else { 2 };
        }
        #[cfg(not(feature = "bt"))]
        _ => {}
    });
    disarm();
    check(!p, "an operation does not panic when memory is exhausted");
    if let Some(r) = r {
        if alloc_failed() {
            check(r.is_err(), "a failed allocation is reported as an error");
        }
        match r {
            Ok(v) => {
                check(v.len() == want, "a successful operation has its full effect");
                for i in 0..v.len() {
                    check(v[i].num() == T::back(x(if op == 3 || op == 4 { 0 } else { i })), "a successful operation has its full effect");
                }
                distinct(&v);
                obs(1);
            }
            Err(_) => {
                cover("a construction failed");
                check(alloc_failed() | (mode >= 3), "an operation fails only if something it needs fails");
                check((live() == l0) & (live_bytes() == b0), "a failed construction releases everything");
                if T::TOK {
                    check(live_tokens() == t0, "a failed construction drops everything it made");
                }
                obs(2);
            }
        }
    }
    check(src.len() == s.len(), "copying leaves the original alone");
    same(&src, &s, s.len());
}
/// Constructions with failures. params: element type, op, mode, base
#[no_mangle]
pub extern "C-unwind" fn c15_make() {
    let (ty, op, mode) = (param(0), param(1), param(2));
    unsafe { BASE = param(3) as usize };
    for_el!(ty, make(op, mode));
    fin();
}
