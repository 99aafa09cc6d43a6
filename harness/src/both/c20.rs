//! Shared pointers.
#![allow(deprecated)]
use super::vcommon::*;
use crate::vf::*;
use crate::{entries, for_el};
use core::mem::{align_of, size_of};
use fallible_collections::*;
use std::rc::Rc;
use std::sync::Arc;

entries!(c20_new, c20_hist, c20_unsized, c20_panic);

#[inline(never)]
fn new<T: El>(op: u64, mode: u64) {
    let n = x(0);
    let (l0, b0) = (live(), live_bytes());
    let e = T::mk(n);
    let id = e.id();
    let f0 = fails();
    match mode {
        0 => {}
        1 => fault_each(3),
        _ => fault_all(),
    }
    macro_rules! go {
        ($P:ident, $tr:ident) => {{
            let mut r = None;
            let p = panics(|| r = Some(<$P<T> as $tr<T>>::try_new(e)));
            disarm();
            check(!p, "an operation does not panic");
            match r {
                Some(Ok(mut b)) => {
                    check(fails() == f0, "a failed allocation is reported as an error");
                    check($P::strong_count(&b) == 1, "a new pointer has one owner");
                    check($P::weak_count(&b) == 0, "a new pointer has one owner");
                    check(live() == l0 + 1, "a shared pointer holds one block");
                    check(live_bytes() - b0 >= size_of::<T>() as u64, "the block has room for the value");
                    check(&*b as *const T as usize % align_of::<T>() == 0, "the value is aligned");
                    check(b.num() == T::back(n), "the pointer holds the value");
                    check(!T::TOK | (b.id() == id), "the value is moved, not copied");
                    match $P::get_mut(&mut b) {
                        Some(v) => *v = T::mk(x(1)),
                        None => check(false, "a sole owner may change the value"),
                    }
                    check(b.num() == T::back(x(1)), "the pointer holds the value");
                    check(!T::TOK | (live_tokens() == 1), "a replaced value is dropped");
                    if any_bool() {
                        match $P::try_unwrap(b) {
                            Ok(e) => {
                                check(live() == l0, "taking the value out releases the block");
                                check(e.num() == T::back(x(1)), "the pointer holds the value");
                            }
                            Err(_) => check(false, "a sole owner may take the value"),
                        }
                    } else {
                        drop(b);
                    }
                    obs(1);
                }
                _ => {
                    cover("a pointer could not be created");
                    check(fails() > f0, "an operation fails only if something it needs fails");
                    obs(2);
                }
            }
        }};
    }
    if op == 0 {
        go!(Rc, FallibleRc)
    } else {
        go!(Arc, FallibleArc)
    }
    check((live() == l0) & (live_bytes() == b0), "the last owner releases the block");
    check(live_tokens() == 0, "the last owner drops the value");
}
/// Creation. params: element type, 0 Rc 1 Arc, mode of failure
#[no_mangle]
pub extern "C-unwind" fn c20_new() {
    let (ty, op, mode) = (param(0), param(1), param(2));
    for_el!(ty, new(op, mode));
    fin();
}

#[inline(never)]
fn hist<T: El>(op: u64, k: u64) {
    // up to four owners and two observers of one value
    let (l0, n) = (live(), x(0));
    macro_rules! go {
        ($P:ident, $tr:ident, $W:ty, $clone:expr) => {{
            let mut own: [Option<$P<T>>; 4] = [None, None, None, None];
            let mut weak: [Option<$W>; 2] = [None, None];
            own[0] = <$P<T> as $tr<T>>::try_new(T::mk(n)).ok();
            check(own[0].is_some(), "an operation succeeds while memory is available");
            for _ in 0..k {
                let i = choose(4) as usize;
                match choose(4) {
                    0 => {
                        let c = own[i].as_ref().map($clone);
                        if c.is_some() {
                            own[(i + 1) % 4] = c;
                        }
                    }
                    1 => own[i] = None,
                    2 => {
                        if let Some(o) = &own[i] {
                            weak[i % 2] = Some($P::downgrade(o));
                        }
                    }
                    _ => {
                        if let Some(w) = &weak[i % 2] {
                            let any = own.iter().any(|o| o.is_some());
                            let u = w.upgrade();
                            check(u.is_some() == any, "an observer finds the value exactly while it has an owner");
                            if u.is_some() {
                                own[i] = u;
                            }
                        }
                    }
                }
                let mut s = 0;
                let mut at: *const T = core::ptr::null();
                for o in own.iter().flatten() {
                    s += 1;
                    check(o.num() == T::back(n), "every owner sees the value");
                    check(at.is_null() | core::ptr::eq(at, &**o), "every owner sees the same value");
                    at = &**o;
                }
                for o in own.iter().flatten() {
                    check($P::strong_count(o) == s, "the number of owners is right");
                }
                let w = weak.iter().flatten().count();
                check(live() == l0 + ((s > 0) | (w > 0)) as u64, "the block lives exactly as long as it is referred to");
                check(!T::TOK | (live_tokens() == (s > 0) as i32), "the value lives exactly as long as it has an owner");
                obs(s as u64 + 10 * w as u64);
            }
        }};
    }
    if op == 0 {
        go!(Rc, FallibleRc, std::rc::Weak<T>, |o: &Rc<T>| Rc::clone(o))
    } else {
        go!(Arc, FallibleArc, std::sync::Weak<T>, |o: &Arc<T>| {
            let c = o.try_clone();
            check(c.is_ok(), "copying a shared pointer succeeds");
            match c {
                Ok(c) => c,
                Err(_) => o.clone(),
            }
        })
    }
    check(live() == l0, "the last owner releases the block");
}
/// Histories of sharing. params: element type, 0 Rc 1 Arc, steps
#[no_mangle]
pub extern "C-unwind" fn c20_hist() {
    let (ty, op, k) = (param(0), param(1), param(2));
    for_el!(ty, hist(op, k));
    fin();
}

/// Copying pointers to unsized values, even with no memory at all.
#[no_mangle]
pub extern "C-unwind" fn c20_unsized() {
    let a: Arc<[E]> = Arc::from(vec_of::<E>(3, 3));
    let s: Arc<str> = Arc::from("text");
    let o: Arc<E> = match Arc::try_new_el(x(5)) {
        Some(o) => o,
        None => return,
    };
    let some = Some(o);
    fault_all();
    let (b, t, p) = (a.try_clone(), s.try_clone(), some.try_clone());
    disarm();
    check(b.is_ok() & t.is_ok() & p.is_ok(), "copying a shared pointer needs no memory");
    if let (Ok(b), Ok(t), Ok(Some(p))) = (b, t, p) {
        check(Arc::ptr_eq(&a, &b) & Arc::ptr_eq(&s, &t), "a copied pointer shares the value");
        check((Arc::strong_count(&a) == 2) & (Arc::strong_count(&t) == 2) & (Arc::strong_count(&p) == 2), "a copied pointer adds one owner");
        drop(a);
        for i in 0..3 {
            check(b[i].num() == x(i), "the value stays while it has an owner");
        }
        drop(s);
        check(&*t == "text", "the value stays while it has an owner");
        drop(some);
        check(p.num() == x(5), "the value stays while it has an owner");
        // a vector of shared pointers
        let v = vec![p];
        let w = v.try_clone();
        check(matches!(&w, Ok(w) if Arc::ptr_eq(&w[0], &v[0]) && Arc::strong_count(&v[0]) == 2), "a copied pointer shares the value");
    }
    obs(1);
    fin();
}
trait Mk: Sized {
    fn try_new_el(n: u32) -> Option<Self>;
}
impl Mk for Arc<E> {
    fn try_new_el(n: u32) -> Option<Arc<E>> {
        <Arc<E> as FallibleArc<E>>::try_new(E::mk(n)).ok()
    }
}

/// A drop that panics. params: 0 Rc 1 Arc, with a failing allocation
#[no_mangle]
pub extern "C-unwind" fn c20_panic() {
    let (op, fail) = (param(0), param(1));
    let l0 = live();
    let e = E::mk(x(0));
    if fail == 1 {
        // (the ordinary configuration cannot report the failure of its second allocation)
        fault_all();
    }
    arm_drop_panic(0);
    let p = if op == 0 {
        panics(|| drop(<Rc<E> as FallibleRc<E>>::try_new(e)))
    } else {
        panics(|| drop(<Arc<E> as FallibleArc<E>>::try_new(e)))
    };
    disarm();
    check(p, "a panicking drop panics");
    check(live() == l0, "unwinding releases the block");
    obs(1);
    fin();
}
