//! Boxes.
use super::vcommon::*;
use crate::vf::*;
use crate::{entries, for_el};
use core::mem::{align_of, size_of};
use fallible_collections::*;

entries!(c19_new, c19_clone, c19_hist, c19_panic);

/// Aligned to two pages.
#[repr(align(8192))]
pub struct P(u32);
impl El for P {
    fn mk(x: u32) -> P {
        P(x)
    }
    fn num(&self) -> u32 {
        check(self as *const P as usize % 8192 == 0, "an over-aligned value is aligned");
        self.0
    }
    fn back(x: u32) -> u32 {
        x
    }
    const TOK: bool = false;
}
impl Clone for P {
    fn clone(&self) -> P {
        P(self.0)
    }
}
impl TryClone for P {
    fn try_clone(&self) -> Result<P, TryReserveError> {
        if !clone_step() {
            return Err(oom());
        }
        Ok(P(self.0))
    }
}

/// Zero-sized, aligned to 64 bytes; copying it may fail.
#[repr(align(64))]
pub struct ZA;
/// Zero-sized, aligned like a word.
pub struct ZU([u64; 0]);
macro_rules! zero_sized {
    ($t:ty, $e:expr) => {
        impl El for $t {
            fn mk(_: u32) -> $t {
                $e
            }
            fn num(&self) -> u32 {
                0
            }
            fn back(_: u32) -> u32 {
                0
            }
            const TOK: bool = false;
        }
        impl Clone for $t {
            fn clone(&self) -> $t {
                $e
            }
        }
        impl TryClone for $t {
            fn try_clone(&self) -> Result<$t, TryReserveError> {
                if !clone_step() {
                    return Err(oom());
                }
                Ok($e)
            }
        }
    };
}
zero_sized!(ZA, ZA);
zero_sized!(ZU, ZU([]));

fn arm(mode: u64) {
    match mode {
        0 => {}
        1 => fault_each(3),
        2 => fault_all(),
        3 => arm_clone_fail(any_count(1) as i32),
        _ => {
            fault_each(2);
            arm_clone_fail(any_count(1) as i32)
        }
    }
}
/// exactly one block of exactly T's layout (none for zero-sized types) was added
#[inline(never)]
fn block<T>(p: *const T, l0: u64, b0: u64, boxes: u64) {
    check(live() == l0 + boxes * (size_of::<T>() > 0) as u64, "a box holds one block (none if zero-sized)");
    check(live_bytes() == b0 + boxes * size_of::<T>() as u64, "the block has exactly the size of the value");
    check(!p.is_null() & (p as usize % align_of::<T>() == 0), "the block is aligned for the value");
}
#[inline(never)]
fn take<T>(b: Box<T>) -> T {
    *b
}
#[inline(never)]
fn new<T: El>(op: u64, mode: u64) {
    let n = x(0);
    let (l0, b0) = (live(), live_bytes());
    let e = T::mk(n);
    let id = e.id();
    let f0 = fails();
    arm(mode);
    if op == 0 {
        let mut r = None;
        let p = panics(|| r = Some(<Box<T> as FallibleBox<T>>::try_new(e)));
        disarm();
        check(!p, "an operation does not panic");
        match r {
            Some(Ok(mut b)) => {
                check(fails() == f0, "a failed allocation is reported as an error");
                block::<T>(&*b, l0, b0, 1);
                check(b.num() == T::back(n), "the box holds the value");
                check(!T::TOK | (b.id() == id), "the value is moved, not copied");
                *b = T::mk(x(1));
                check(b.num() == T::back(x(1)), "the box holds the value");
                check(!T::TOK | (live_tokens() == 1), "a replaced value is dropped");
                let p = Box::into_raw(b);
                check(live() == l0 + (size_of::<T>() > 0) as u64, "a box holds one block (none if zero-sized)");
                let b = unsafe { Box::from_raw(p) };
                if any_bool() {
                    let e: T = take(b);
                    check(live() == l0, "taking the value out releases the block");
                    check(e.num() == T::back(x(1)), "the box holds the value");
                } else {
                    drop(b);
                }
                obs(1);
            }
            _ => failed(f0, mode),
        }
    } else {
        let mut r = None;
        let p = panics(|| r = Some(TryBox::try_new(e)));
        disarm();
        check(!p, "an operation does not panic");
        match r {
            Some(Ok(b)) => {
                check(fails() == f0, "a failed allocation is reported as an error");
                block::<T>(&*b, l0, b0, 1);
                check(b.num() == T::back(n), "the box holds the value");
                check(!T::TOK | (b.id() == id), "the value is moved, not copied");
                let q: *const T = &*b;
                let p = TryBox::into_raw(b);
                check(core::ptr::eq(p, q), "the raw pointer is the block");
                block::<T>(p, l0, b0, 1);
                check(!T::TOK | (live_tokens() == 1), "a value in raw form is not dropped");
                let b = unsafe { TryBox::from_raw(p) };
                check(b.num() == T::back(n), "a round trip through a raw pointer preserves the value");
                check(core::ptr::eq(p, &*b), "a round trip through a raw pointer preserves the block");
                if any_bool() {
                    // the block can be handed to an ordinary box
                    let b = unsafe { Box::from_raw(TryBox::into_raw(b)) };
                    check(b.num() == T::back(n), "a round trip through a raw pointer preserves the value");
                } else {
                    drop(b);
                }
                obs(1);
            }
            _ => failed(f0, mode),
        }
    }
    check((live() == l0) & (live_bytes() == b0), "dropping a box releases its block");
    check(live_tokens() == 0, "dropping a box drops its value");
}
#[inline(never)]
fn failed(f0: u64, mode: u64) {
    cover("a box could not be created");
    check((fails() > f0) | (mode >= 3), "an operation fails only if something it needs fails");
    obs(2);
}
/// Creation. params: element type, 0 Box 1 TryBox, mode of failure
#[no_mangle]
pub extern "C-unwind" fn c19_new() {
    let (ty, op, mode) = (param(0), param(1), param(2));
    if ty == 9 {
        new::<P>(op, mode)
    } else if ty == 11 {
        new::<ZA>(op, mode)
    } else if ty == 12 {
        new::<ZU>(op, mode)
    } else {
        for_el!(ty, new(op, mode))
    }
    fin();
}

#[inline(never)]
fn clone<T: El>(op: u64, mode: u64) {
    let n = x(0);
    let e = T::mk(n);
    let (l00, b00) = (live(), live_bytes());
    macro_rules! go {
        ($b:expr) => {{
            let a = match $b {
                Ok(a) => a,
                Err(_) => {
                    check(false, "an operation succeeds while memory is available");
                    return;
                }
            };
            let (l0, b0, f0) = (live(), live_bytes(), fails());
            let id = a.id();
            arm(mode);
            let mut r = None;
            let p = panics(|| r = Some(TryClone::try_clone(&a)));
            disarm();
            check(!p, "an operation does not panic");
            match r {
                Some(Ok(c)) => {
                    cover("a box is copied");
                    check(fails() == f0, "a failed allocation is reported as an error");
                    block::<T>(&*c, l0, b0, 1);
                    check(c.num() == T::back(n), "a copy is equal");
                    check(!T::TOK | (c.id() != id), "a copy has a value of its own");
                    check((size_of::<T>() == 0) | !core::ptr::eq(&*a, &*c), "a copy has a block of its own");
                    if any_bool() {
                        drop(a);
                        check(c.num() == T::back(n), "a copy outlives the original");
                        drop(c);
                    } else {
                        drop(c);
                        check((a.num() == T::back(n)) & (a.id() == id), "copying leaves the original alone");
                        drop(a);
                    }
                    obs(1);
                }
                _ => {
                    failed(f0, mode);
                    check((live() == l0) & (live_bytes() == b0), "a failed copy releases everything");
                    check(!T::TOK | (live_tokens() == 1), "a failed copy drops everything");
                    check((a.num() == T::back(n)) & (a.id() == id), "copying leaves the original alone");
                    drop(a);
                }
            }
        }};
    }
    if op == 0 {
        go!(<Box<T> as FallibleBox<T>>::try_new(e))
    } else {
        go!(TryBox::try_new(e))
    }
    check((live() == l00) & (live_bytes() == b00), "dropping a box releases its block");
}
/// Copying. params: element type, 0 Box 1 TryBox, mode of failure
#[no_mangle]
pub extern "C-unwind" fn c19_clone() {
    let (ty, op, mode) = (param(0), param(1), param(2));
    if ty == 9 {
        clone::<P>(op, mode)
    } else if ty == 11 {
        clone::<ZA>(op, mode)
    } else if ty == 12 {
        clone::<ZU>(op, mode)
    } else {
        for_el!(ty, clone(op, mode))
    }
    fin();
}

#[inline(never)]
fn hist<T: El>(k: u64) {
    // several boxes at once, made, copied, turned raw and back, and dropped in any order
    let mut boxes: [Option<TryBox<T>>; 3] = [None, None, None];
    let mut want = [0u32; 3];
    let (l0, b0) = (live(), live_bytes());
    for step in 0..k {
        let i = choose(3) as usize;
        match choose(4) {
            0 => {
                boxes[i] = TryBox::try_new(T::mk(x(step as usize))).ok();
                want[i] = x(step as usize);
            }
            1 => boxes[i] = None,
            2 => {
                let j = (i + 1) % 3;
                let c = boxes[i].try_clone();
                check(matches!(&c, Ok(c) if c.is_some() == boxes[i].is_some()), "a copy of an optional box is there exactly if the box is");
                if let Ok(c) = c {
                    boxes[j] = c;
                    want[j] = want[i];
                }
            }
            _ => {
                if let Some(b) = boxes[i].take() {
                    let p = TryBox::into_raw(b);
                    boxes[i] = Some(unsafe { TryBox::from_raw(p) });
                }
            }
        }
        let mut n = 0;
        for i in 0..3 {
            if let Some(b) = &boxes[i] {
                check(b.num() == T::back(want[i]), "the box holds the value");
                n += 1;
            }
        }
        check(live() == l0 + n * (size_of::<T>() > 0) as u64, "a box holds one block (none if zero-sized)");
        check(live_bytes() == b0 + n * size_of::<T>() as u64, "the block has exactly the size of the value");
        check(!T::TOK | (live_tokens() == n as i32), "each value is owned once");
        obs(n);
    }
}
/// params: element type, steps
#[no_mangle]
pub extern "C-unwind" fn c19_hist() {
    let (ty, k) = (param(0), param(1));
    for_el!(ty, hist(k));
    fin();
}

/// A copy or drop that panics. params: 0 Box 1 TryBox, what
#[no_mangle]
pub extern "C-unwind" fn c19_panic() {
    let (op, what) = (param(0), param(1));
    let l0 = live();
    let e = E::mk(x(0));
    match (op, what) {
        // the value is dropped because its block could not be allocated
        (0, 0) => {
            fault_each(1);
            arm_drop_panic(0);
            panics(|| drop(<Box<E> as FallibleBox<E>>::try_new(e)));
        }
        (_, 0) => {
            fault_each(1);
            arm_drop_panic(0);
            panics(|| drop(TryBox::try_new(e)));
        }
        (0, _) => {
            let b = <Box<E> as FallibleBox<E>>::try_new(e);
            if let Ok(b) = b {
                arm_clone_panic(0);
                let p = panics(|| drop(b.try_clone()));
                check(p, "a panicking copy panics");
                check((b.num() == x(0)) & (live_tokens() == 1), "copying leaves the original alone");
            }
        }
        _ => {
            if let Ok(b) = TryBox::try_new(e) {
                arm_clone_panic(0);
                let p = panics(|| drop(b.try_clone()));
                check(p, "a panicking copy panics");
                check((b.num() == x(0)) & (live_tokens() == 1), "copying leaves the original alone");
            }
        }
    }
    disarm();
    check(live() == l0, "unwinding releases the block");
    obs(live());
    fin();
}
