//! Panics in element code.
use super::vcommon::*;
use crate::vf::*;
use crate::{entries, for_el};
use fallible_collections::vec::*;
use fallible_collections::*;

entries!(c16_op, c16_make, c16_try);

/// 0: a copy panics; 1: a drop panics; 2: the closure or iterator panics; 3: a drop panics while an allocation fails;
/// 4: a drop panics after a copy failed
fn arm(what: u64, max: u64) {
    let n = any_count(max) as i32;
    match what {
        0 => arm_clone_panic(n),
        1 => arm_drop_panic(n),
        2 => unsafe { CLOSURE_PANIC_AT = n as i64 },
        3 => {
            fault_each(2);
            arm_drop_panic(n)
        }
        _ => {
            arm_clone_fail(any_count(max) as i32);
            arm_drop_panic(n)
        }
    }
}
#[inline(never)]
fn settled<T: El>(c: &mut Case<T>) {
    // a panic in user code may surface; nothing is used after its drop, held twice or lost
    distinct(&c.v);
    distinct(&c.other);
    for e in &c.v {
        for o in &c.other {
            check(!T::TOK || e.id() != o.id(), "no element is held twice");
        }
    }
    if c.panicked {
        cover("an operation panicked");
    }
    // existing elements that the operation keeps stay where they were
    let keep = c.before.len().min(c.want.len());
    if c.op != 2 {
        check(c.v.len() >= keep, "elements the operation keeps stay");
        same(&c.v, &c.before, keep);
    }
    if c.op == 4 || c.op == 5 {
        // elements beyond are old ones not yet dropped, or new ones
        if c.v.len() > c.want.len() {
            cover("a shortening stopped midway");
            check(c.v.len() <= c.before.len(), "a shortening adds nothing");
            let l = c.v.len();
            same(&c.v, &c.before, l);
        }
    }
    if !c.panicked && c.r.ok() {
        check(c.v.len() == c.want.len(), "a successful operation has its full effect");
        same(&c.v, &c.want, c.want.len());
    }
    let back = matches!(c.r, R::Back(_)) as usize;
    if T::TOK {
        check(live_tokens() as usize == c.v.len() + c.other.len() + back, "every value has exactly one owner");
    }
    obs(c.v.len() as u64 + 100 * c.panicked as u64);
}
#[inline(never)]
fn one<T: El>(op: u64, len: usize, cap: usize, what: u64) {
    let v = vec_of::<T>(len, cap);
    let a = match op {
        _ if unsafe { BASE } > 0 => wide(op, len).unwrap(),
        0 | 1 | 2 => 0,
        3 | 6 => choose(5) as usize,
        _ => choose(len as u64 + 5) as usize,
    };
    let mut c = run(op, v, a, &|| arm(what, steps(5)));
    settled(&mut c);
    let Case { mut v, r, .. } = c;
    drop(r);
    usable(&mut v);
    if v.len() > 1 {
        // shortening and copying still work
        let n = v.len();
        check(FallibleVec::try_resize_no_copy(&mut v, n - 1, T::mk(x(31))).is_ok(), "the vector remains usable");
        check(v.len() == n - 1, "the vector remains usable");
        distinct(&v);
    }
}
/// One operation during which user code panics. params: element type, op, len, cap, what, base of the arguments
#[no_mangle]
pub extern "C-unwind" fn c16_op() {
    let (ty, op, len, cap, what) = (param(0), param(1), param(2) as usize, param(3) as usize, param(4));
    unsafe { BASE = param(5) as usize };
    for_el!(ty, one(op, len, cap, what));
    fin();
}

#[inline(never)]
fn make<T: El>(op: u64, what: u64) {
    let n = unsafe { BASE } + choose(if unsafe { BASE } > 0 { 2 } else { 6 }) as usize;
    let src = vec_of::<T>(if op == 1 { n } else { 0 }, 0);
    let s = snap(&src);
    let (l0, t0) = (live(), live_tokens());
    let mut r: Option<Result<Vec<T>, TryReserveError>> = None;
    let p = panics(|| match op {
        0 => {
            arm(what, steps(6));
            let mut i = 0;
            r = Some(
                core::iter::from_fn(|| {
                    closure_step();
                    i += 1;
                    if i > n {
                        None
                    } else {
                        Some(T::mk(x(i - 1)))
                    }
                })
                .try_collect(),
            );
        }
        1 => {
            arm(what, steps(6));
            r = Some(src.try_clone());
        }
        #[cfg(feature = "bt")]
        2 => {
            let e = T::mk(x(0));
            arm(what, steps(6));
            r = Some(try_from_elem(e, n));
        }
        #[cfg(feature = "bt")]
        3 => {
            let e = T::mk(x(0));
            arm(what, steps(6));
            r = Some(try_vec![e; n]);
        }
        _ => {
            let (a, b) = (T::mk(x(0)), T::mk(x(1)));
            arm(what, steps(6));
            let mut v = Vec::new();
            let q = match FallibleVec::try_push_give_back(&mut v, a) {
                Ok(()) => FallibleVec::try_push(&mut v, b),
                Err((_, e)) => Err(e),
            };
            r = Some(q.map(|_| v));
        }
    });
    disarm();
    if p {
        cover("a construction panicked");
        check(live() == l0, "a panicking construction releases its memory");
        if T::TOK {
            check(live_tokens() == t0, "a panicking construction drops every value it made");
        }
    }
    obs(p as u64);
    if let Some(Ok(v)) = &r {
        distinct(v);
        if T::TOK {
            check(live_tokens() as usize == v.len() + src.len(), "every value has exactly one owner");
        }
    }
    drop(r);
    check(src.len() == s.len(), "copying leaves the original alone");
    same(&src, &s, s.len());
}
/// Constructions during which user code panics. params: element type, op, what, base
#[no_mangle]
pub extern "C-unwind" fn c16_make() {
    let (ty, op, what) = (param(0), param(1), param(2));
    unsafe { BASE = param(3) as usize };
    for_el!(ty, make(op, what));
    fin();
}

#[inline(never)]
fn wrapped<T: El>(op: u64, what: u64, len: usize, cap: usize) {
    let mut t: TryVec<T> = vec_of::<T>(len, cap).into();
    let s = snap(&t);
    let n = choose(4) as usize;
    let src = vec_of::<T>(n, 0);
    let mut made = None;
    let p = panics(|| match op {
        0 => {
            arm(what, 5);
            let _ = t.extend_from_slice(&src);
        }
        1 => {
            let mut i = 0;
            arm(what, 5);
            let _ = t.resize_with(len + n - 1, || {
                closure_step();
                i += 1;
                T::mk(x(9 + i))
            });
        }
        2 => {
            arm(what, 5);
            t.clear()
        }
        3 => {
            arm(what, 5);
            made = t.try_clone().ok();
        }
        4 => {
            use core::convert::TryFrom;
            arm(what, 5);
            made = TryVec::try_from(&src[..]).ok();
        }
        5 => {
            let e = T::mk(x(10));
            arm(what, 5);
            let _ = t.push(e);
        }
        _ => {
            let mut w: TryVec<TryVec<T>> = TryVec::new();
            let _ = w.push(vec_of::<T>(n, 0).into());
            let _ = w.push(vec_of::<T>(1, 0).into());
            arm(what, 5);
            made = w.concat().ok();
        }
    });
    disarm();
    obs(p as u64);
    if let Some(m) = &made {
        distinct(m);
    }
    distinct(&t);
    if op != 2 && op != 1 {
        check(t.len() >= len, "elements the operation keeps stay");
        same(&t, &s, len);
    }
    if T::TOK {
        check(live_tokens() as usize == t.len() + src.len() + made.as_ref().map_or(0, |m| m.len()), "every value has exactly one owner");
    }
    let n = t.len();
    check(t.push(T::mk(x(30))).is_ok() & (t.len() == n + 1), "the vector remains usable");
    let _ = t.pop();
    distinct(&t);
}
/// Operations of the wrapper type. params: element type, op, what, len, cap
#[no_mangle]
pub extern "C-unwind" fn c16_try() {
    let (ty, op, what, len, cap) = (param(0), param(1), param(2), param(3) as usize, param(4) as usize);
    for_el!(ty, wrapped(op, what, len, cap));
    fin();
}
