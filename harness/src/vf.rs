//! Harness vocabulary. The functions below are modelled by the symbolic executor (harness/../engine)
//! and implemented for real in native.rs (replay of recorded inputs).
#![allow(dead_code)]

mod raw {
    extern "C" {
        pub fn vf_any(bits: u32) -> u64;
        pub fn vf_range(lo: u64, hi: u64) -> u64;
        pub fn vf_choose(n: u64) -> u64;
        pub fn vf_concretize(x: u64) -> u64;
        pub fn vf_assume(c: bool);
        pub fn vf_check(c: bool, p: *const u8, n: usize);
        pub fn vf_cover(p: *const u8, n: usize);
        pub fn vf_obs(x: u64);
        pub fn vf_trace(p: *const u8, n: usize, x: u64);
        pub fn vf_alloc(size: usize, align: usize) -> *mut u8;
        pub fn vf_free(p: *mut u8, size: usize, align: usize);
        pub fn vf_fault(mode: u64, max: u64);
        pub fn vf_fails() -> u64;
        pub fn vf_allocs() -> u64;
        pub fn vf_live() -> u64;
        pub fn vf_live_bytes() -> u64;
        pub fn vf_leak_ok();
        pub fn vf_param(i: u64) -> u64;
    }
    extern "C-unwind" {
        pub fn vf_try(f: unsafe extern "C-unwind" fn(*mut u8), d: *mut u8) -> u32;
    }
}

struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        raw::vf_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        raw::vf_free(p, l.size(), l.align())
    }
}
#[global_allocator]
static GLOBAL: Alloc = Alloc;

#[inline(always)]
pub fn any8() -> u8 {
    unsafe { raw::vf_any(8) as u8 }
}
#[inline(always)]
pub fn any16() -> u16 {
    unsafe { raw::vf_any(16) as u16 }
}
#[inline(always)]
pub fn any32() -> u32 {
    unsafe { raw::vf_any(32) as u32 }
}
#[inline(always)]
pub fn any64() -> u64 {
    unsafe { raw::vf_any(64) }
}
#[inline(always)]
pub fn any_bool() -> bool {
    unsafe { raw::vf_any(1) & 1 != 0 }
}
/// Any value in `lo..=hi` (symbolic).
#[inline(always)]
pub fn range(lo: u64, hi: u64) -> u64 {
    unsafe { raw::vf_range(lo, hi) }
}
/// Any value below `n`, made concrete on each path.
#[inline(always)]
pub fn choose(n: u64) -> u64 {
    unsafe { raw::vf_choose(n) }
}
#[inline(always)]
pub fn concretize(x: u64) -> u64 {
    unsafe { raw::vf_concretize(x) }
}
/// The condition, decided on each path (the compiler may not turn it into a select).
#[inline(always)]
pub fn is(c: bool) -> bool {
    concretize(c as u64) != 0
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { raw::vf_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, m: &'static str) {
    unsafe { raw::vf_check(c, m.as_ptr(), m.len()) }
}
#[inline(always)]
pub fn cover(m: &'static str) {
    unsafe { raw::vf_cover(m.as_ptr(), m.len()) }
}
#[inline(always)]
pub fn obs(x: u64) {
    unsafe { raw::vf_obs(x) }
}
#[inline(always)]
pub fn trace(m: &'static str, x: u64) {
    unsafe { raw::vf_trace(m.as_ptr(), m.len(), x) }
}
/// From here on allocations may fail: each one independently, at most `max` of them.
#[inline(always)]
pub fn fault_each(max: u64) {
    unsafe { raw::vf_fault(1, max) }
}
/// From here on, some allocation may fail, and all later ones then fail too.
#[inline(always)]
pub fn fault_persistent() {
    unsafe { raw::vf_fault(2, 1) }
}
/// From here on every allocation fails.
#[inline(always)]
pub fn fault_all() {
    unsafe { raw::vf_fault(3, 0) }
}
#[inline(always)]
pub fn fault_off() {
    unsafe { raw::vf_fault(0, 0) }
}
#[inline(always)]
pub fn fails() -> u64 {
    unsafe { raw::vf_fails() }
}
#[inline(always)]
pub fn allocs() -> u64 {
    unsafe { raw::vf_allocs() }
}
#[inline(always)]
pub fn live() -> u64 {
    unsafe { raw::vf_live() }
}
#[inline(always)]
pub fn live_bytes() -> u64 {
    unsafe { raw::vf_live_bytes() }
}
#[inline(always)]
pub fn leak_ok() {
    unsafe { raw::vf_leak_ok() }
}
#[inline(always)]
pub fn param(i: u64) -> u64 {
    unsafe { raw::vf_param(i) }
}

/// Run `f`, catching a panic. True if it panicked.
pub fn panics<F: FnOnce()>(f: F) -> bool {
    unsafe extern "C-unwind" fn call<F: FnOnce()>(d: *mut u8) {
        let f = (*(d as *mut Option<F>)).take().unwrap();
        f()
    }
    let mut o = Some(f);
    unsafe { raw::vf_try(call::<F>, &mut o as *mut _ as *mut u8) != 0 }
}

#[macro_export]
macro_rules! entries {
    ($($f:ident),* $(,)?) => {
        pub static ENTRIES: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($f), $f)),*];
    };
}

// ---------------------------------------------------------------- tracked values

pub const NTOK: usize = 4096;
static mut STATE: [u8; NTOK] = [0; NTOK];
static mut NEXT: u32 = 0;
static mut LIVE: i32 = 0;
static mut DROP_PANIC_AT: i32 = -1;
static mut CLONE_PANIC_AT: i32 = -1;
static mut CLONE_FAIL_AT: i32 = -1;

/// A value with an identity: dropping it twice, or using it after its drop, is a violation.
pub struct Tok(pub u32);
impl Tok {
    #[inline(never)]
    pub fn new() -> Tok {
        unsafe {
            let id = NEXT;
            NEXT += 1;
            check((id as usize) < NTOK, "harness: too many tokens");
            STATE[id as usize] = 1;
            LIVE += 1;
            Tok(id)
        }
    }
    #[inline(never)]
    pub fn touch(&self) {
        unsafe {
            check((self.0 as usize) < NTOK && STATE[self.0 as usize] == 1, "a value is used after it was dropped or moved out");
        }
    }
}
impl Drop for Tok {
    #[inline(never)]
    fn drop(&mut self) {
        unsafe {
            check((self.0 as usize) < NTOK && STATE[self.0 as usize] == 1, "a value is dropped twice (or was never created)");
            STATE[self.0 as usize] = 2;
            LIVE -= 1;
            if DROP_PANIC_AT >= 0 {
                DROP_PANIC_AT -= 1;
                if DROP_PANIC_AT == -1 {
                    panic!("drop");
                }
            }
        }
    }
}
pub fn live_tokens() -> i32 {
    unsafe { LIVE }
}
pub fn token_live(id: u32) -> bool {
    unsafe { STATE[id as usize] == 1 }
}
/// The n-th token drop from now on panics (after having counted as a drop).
pub fn arm_drop_panic(n: i32) {
    unsafe { DROP_PANIC_AT = n }
}
pub fn disarm_drop_panic() -> bool {
    unsafe {
        let fired = DROP_PANIC_AT == -1;
        DROP_PANIC_AT = -1;
        fired
    }
}
pub fn arm_clone_panic(n: i32) {
    unsafe { CLONE_PANIC_AT = n }
}
pub fn arm_clone_fail(n: i32) {
    unsafe { CLONE_FAIL_AT = n }
}
/// Called by the clone implementations of the harness types; false: the clone is to fail.
pub fn clone_step() -> bool {
    unsafe {
        if CLONE_PANIC_AT >= 0 {
            CLONE_PANIC_AT -= 1;
            if CLONE_PANIC_AT == -1 {
                panic!("clone");
            }
        }
        if CLONE_FAIL_AT >= 0 {
            CLONE_FAIL_AT -= 1;
            if CLONE_FAIL_AT == -1 {
                return false;
            }
        }
        true
    }
}

static mut CMPS: u64 = 0;
pub fn cmps() -> u64 {
    unsafe { CMPS }
}
pub fn count_cmp() {
    unsafe { CMPS += 1 }
}
/// Any number in `0..=max`; the solver enumerates the feasible ones.
pub fn any_count(max: u64) -> u64 {
    concretize(range(0, max))
}

/// Provided (and overridable) methods of an iterator that has the items 0..left still to yield, `at` judging an item.
pub const FORWARD: u64 = 11;
#[inline(never)]
pub fn forward<T, I: Iterator<Item = T>>(mut it: I, left: usize, what: u64, at: &mut dyn FnMut(&T, usize)) {
    match what {
        0 => {
            let j = any_count(left as u64 + 2) as usize;
            let x = it.nth(j);
            check(x.is_some() == (j < left), "nth yields an item exactly when there is one");
            if let (Some(x), true) = (&x, j < left) {
                at(x, j);
                rest(it, j + 1, left, at);
            } else {
                check(it.next().is_none(), "nth beyond the end exhausts the iterator");
                cover("nth beyond the end of a forward iterator");
            }
        }
        1 => {
            let x = it.last();
            check(x.is_some() == (left > 0), "last yields an item exactly when there is one");
            if let (Some(x), true) = (&x, left > 0) {
                at(x, left - 1);
            }
        }
        2 => check(it.count() == left, "count counts the remaining items"),
        3 => {
            let mut i = 0;
            it.for_each(|x| {
                check(i < left, "internal iteration yields nothing beyond the end");
                if i < left {
                    at(&x, i);
                }
                i += 1;
            });
            check(i == left, "internal iteration yields every remaining item");
        }
        4 => {
            let stop = any_count(left as u64) as usize;
            let mut i = 0;
            let x = it.find(|x| {
                if i < left {
                    at(x, i);
                }
                i += 1;
                i == stop + 1
            });
            check(x.is_some() == (stop < left), "a search stops where told");
            check(i == (stop + 1).min(left), "a search visits every item up to its stop");
            rest(it, i, left, at);
        }
        5 => {
            let mut i = 0;
            for x in it.step_by(2) {
                check(i < left, "a stepping iterator yields nothing beyond the end");
                if i >= left {
                    return;
                }
                at(&x, i);
                i += 2;
            }
            check(i >= left, "a stepping iterator yields every second item");
        }
        6 => {
            let j = any_count(left as u64 + 1) as usize;
            rest(it.skip(j), j.min(left), left, at);
        }
        7 => {
            // by reference, in part, then the rest
            let k = any_count(left as u64) as usize;
            let mut i = 0;
            for x in it.by_ref().take(k) {
                at(&x, i);
                i += 1;
            }
            check(i == k, "a limited loop yields as many items as asked");
            rest(it.fuse(), i, left, at);
        }
        8 => {
            // all, in a fold of which the result is used
            let n = it.fold(0usize, |i, x| {
                if i < left {
                    at(&x, i);
                }
                i + 1
            });
            check(n == left, "folding visits every remaining item");
        }
        9 => {
            let mut i = 0;
            let stop = any_count(left as u64) as usize;
            let r = it.position(|x| {
                if i < left {
                    at(&x, i);
                }
                i += 1;
                i == stop + 1
            });
            check(r == if stop < left { Some(stop) } else { None }, "a position is counted from the next item");
        }
        _ => {
            let v: Vec<T> = it.collect();
            check(v.len() == left, "collecting takes every remaining item");
            for i in 0..v.len().min(left) {
                at(&v[i], i);
            }
        }
    }
}
#[inline(never)]
fn rest<T, I: Iterator<Item = T>>(mut it: I, from: usize, left: usize, at: &mut dyn FnMut(&T, usize)) {
    let mut i = from;
    while let Some(x) = it.next() {
        check(i < left, "an iterator yields nothing beyond the end");
        if i >= left {
            return;
        }
        at(&x, i);
        i += 1;
    }
    check(i == left, "an iterator yields every remaining item");
}
