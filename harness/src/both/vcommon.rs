//! Element types and helpers shared by the vector, box and pointer harnesses.
#![allow(dead_code)]
use crate::vf::*;
use fallible_collections::vec::FallibleVec;
use fallible_collections::{TryClone, TryReserveError};

/// Requests above this many bytes fail in the model of the allocator.
pub const LIMIT: u128 = 4 << 20;

#[inline(never)]
pub fn oom() -> TryReserveError {
    Vec::<u64>::new().try_reserve(usize::MAX).unwrap_err()
}

/// An element made from, and read back as, a number.
pub trait El: Sized + TryClone + Clone {
    fn mk(x: u32) -> Self;
    fn num(&self) -> u32;
    /// what `num` gives for an element made from x
    fn back(x: u32) -> u32;
    /// the value's identity, for types that have one
    fn id(&self) -> u32 {
        u32::MAX
    }
    const TOK: bool;
}
macro_rules! plain {
    ($($t:ty),*) => {$(impl El for $t {
        fn mk(x: u32) -> Self { x as $t }
        fn num(&self) -> u32 { *self as u32 }
        fn back(x: u32) -> u32 { x as $t as u32 }
        const TOK: bool = false;
    })*};
}
plain!(u8, u16, u32, u64);

/// A value with an identity.
#[derive(Debug)]
pub struct E {
    pub v: u32,
    pub t: Tok,
}
impl core::fmt::Debug for Tok {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl El for E {
    fn mk(x: u32) -> E {
        E { v: x, t: Tok::new() }
    }
    fn num(&self) -> u32 {
        self.t.touch();
        self.v
    }
    fn back(x: u32) -> u32 {
        x
    }
    fn id(&self) -> u32 {
        self.t.0
    }
    const TOK: bool = true;
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        self.t.touch();
        o.t.touch();
        self.v == o.v
    }
}
/// Zero-sized.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Z;
impl El for Z {
    fn mk(_: u32) -> Z {
        Z
    }
    fn num(&self) -> u32 {
        0
    }
    fn back(_: u32) -> u32 {
        0
    }
    const TOK: bool = false;
}
/// Zero-sized, and copying it may fail.
pub struct ZF;
impl El for ZF {
    fn mk(_: u32) -> ZF {
        ZF
    }
    fn num(&self) -> u32 {
        0
    }
    fn back(_: u32) -> u32 {
        0
    }
    const TOK: bool = false;
}
/// Odd size.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct W(pub [u8; 3], pub u8, pub [u32; 3]);
impl El for W {
    fn mk(x: u32) -> W {
        W([x as u8; 3], (x >> 8) as u8, [x, !x, 7])
    }
    fn num(&self) -> u32 {
        if (self.0[1] == self.2[0] as u8) & (self.2[1] == !self.2[0]) & (self.2[2] == 7) {
            self.2[0]
        } else {
            0xdead
        }
    }
    fn back(x: u32) -> u32 {
        x
    }
    const TOK: bool = false;
}
/// Over-aligned.
#[repr(align(64))]
pub struct A {
    pub v: u32,
    pub t: Tok,
}
impl El for A {
    fn mk(x: u32) -> A {
        A { v: x, t: Tok::new() }
    }
    fn num(&self) -> u32 {
        self.t.touch();
        check(self as *const A as usize % 64 == 0, "an over-aligned value is aligned");
        self.v
    }
    fn back(x: u32) -> u32 {
        x
    }
    fn id(&self) -> u32 {
        self.t.0
    }
    const TOK: bool = true;
}
/// Large.
#[derive(Clone, Copy)]
pub struct L(pub [u32; 128]);
impl El for L {
    fn mk(x: u32) -> L {
        let mut l = L([0; 128]);
        l.0[0] = x;
        l.0[127] = x;
        l
    }
    fn num(&self) -> u32 {
        if self.0[0] == self.0[127] {
            self.0[0]
        } else {
            0xdead
        }
    }
    fn back(x: u32) -> u32 {
        x
    }
    const TOK: bool = false;
}
macro_rules! copies {
    ($($t:ty),*) => {$(
    impl TryClone for $t {
        #[inline(never)]
        fn try_clone(&self) -> Result<$t, TryReserveError> {
            let x = self.num();
            if !clone_step() {
                return Err(oom());
            }
            Ok(<$t>::mk(x))
        }
    })*};
}
copies!(E, Z, ZF, W, A, L, H);

/// More than a page, with an identity.
#[derive(Clone)]
pub struct H {
    pub e: E,
    pub pad: [u32; 1300],
}
impl El for H {
    fn mk(x: u32) -> H {
        let mut h = H { e: E::mk(x), pad: [0; 1300] };
        h.pad[650] = x;
        h.pad[1299] = x;
        h
    }
    fn num(&self) -> u32 {
        if (self.pad[0] == 0) & (self.pad[650] == self.e.v) & (self.pad[1299] == self.e.v) {
            self.e.num()
        } else {
            0xdead
        }
    }
    fn back(x: u32) -> u32 {
        x
    }
    fn id(&self) -> u32 {
        self.e.id()
    }
    const TOK: bool = true;
}
impl PartialEq for H {
    fn eq(&self, o: &H) -> bool {
        self.e == o.e
    }
}
impl core::fmt::Debug for H {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        self.e.fmt(f)
    }
}

/// Without a destructor, and a copy is not bitwise: it counts from how many copies it comes.
pub struct P {
    pub v: u32,
    pub gen: u32,
}
impl El for P {
    fn mk(x: u32) -> P {
        P { v: x, gen: 0 }
    }
    fn num(&self) -> u32 {
        self.v
    }
    fn back(x: u32) -> u32 {
        x
    }
    fn id(&self) -> u32 {
        self.gen
    }
    const TOK: bool = false;
}
impl TryClone for P {
    #[inline(never)]
    fn try_clone(&self) -> Result<P, TryReserveError> {
        if !clone_step() {
            return Err(oom());
        }
        Ok(P { v: self.v, gen: self.gen + 1 })
    }
}
impl Clone for P {
    #[inline(never)]
    fn clone(&self) -> P {
        clone_step();
        P { v: self.v, gen: self.gen + 1 }
    }
}
macro_rules! clones {
    ($($t:ty),*) => {$(
    impl Clone for $t {
        #[inline(never)]
        fn clone(&self) -> $t {
            let x = self.num();
            clone_step();
            <$t>::mk(x)
        }
    })*};
}
clones!(E, ZF, A);

/// Element numbers chosen once per run.
static mut XS: [u32; 2048] = [0; 2048];
static mut NX: usize = 0;
/// The i-th element's number: the first ones are unconstrained.
pub fn x(i: usize) -> u32 {
    unsafe {
        while NX <= i {
            XS[NX] = if NX < 6 { any32() } else { 1000 + NX as u32 };
            NX += 1;
        }
        XS[i]
    }
}
/// Arguments around and beyond `base` elements, for vectors of some length; 0: only small ones.
pub static mut BASE: usize = 0;
pub fn wide(op: u64, len: usize) -> Option<usize> {
    let b = unsafe { BASE };
    if b == 0 {
        return None;
    }
    Some(match op {
        0 | 1 => 0,
        2 => [0, 1, len / 2, len.saturating_sub(1), len, len + 1][choose(6) as usize],
        3 | 6 | 8 => b + choose(3) as usize,
        _ => [0, 1, len / 2, len.saturating_sub(1), len, len + 1, len + b, len + b + 1][choose(8) as usize],
    })
}
/// the highest number of a step at which something is made to happen
pub fn steps(max: u64) -> u64 {
    let b = unsafe { BASE } as u64;
    if b == 0 {
        max
    } else {
        b + max
    }
}
/// A vector of `len` elements x(0).. with room for `cap`.
#[inline(never)]
pub fn vec_of<T: El>(len: usize, cap: usize) -> Vec<T> {
    let mut v = Vec::new();
    if cap > 0 {
        v.reserve_exact(cap);
    }
    for i in 0..len {
        v.push(T::mk(x(i)));
    }
    v
}
/// v holds exactly x(0)..x(len-1)
#[inline(never)]
pub fn is_prefix<T: El>(v: &[T], len: usize) {
    check(v.len() == len, "the vector has its previous length");
    for i in 0..v.len() {
        check(v[i].num() == T::back(x(i)), "every previous element keeps its place and value");
    }
}
/// What an operation reported.
pub enum R<T> {
    Ok,
    Err,
    Back(T),
    /// did not return
    None,
}
impl<T> R<T> {
    pub fn ok(&self) -> bool {
        matches!(self, R::Ok)
    }
    pub fn failed(&self) -> bool {
        matches!(self, R::Err) | matches!(self, R::Back(_))
    }
}
pub const NEW: u32 = u32::MAX - 1;
/// One element as it was, or should be: number (as stored) and identity (NEW: any fresh one).
#[derive(Clone, Copy)]
pub struct S(pub u32, pub u32);
#[inline(never)]
pub fn snap<T: El>(v: &[T]) -> Vec<S> {
    let mut s = Vec::with_capacity(v.len() + 8);
    for e in v {
        s.push(S(e.num(), e.id()));
    }
    s
}
/// v[..n] is exactly s[..n]
#[inline(never)]
pub fn same<T: El>(v: &[T], s: &[S], n: usize) {
    check((v.len() >= n) & (s.len() >= n), "the elements are there");
    for i in 0..n {
        check(v[i].num() == s[i].0, "every element has its place and value");
        if T::TOK && s[i].1 != NEW {
            check(v[i].id() == s[i].1, "an existing element is moved, not replaced");
        }
    }
}
/// No element occurs twice in v (all of them can be used).
#[inline(never)]
pub fn distinct<T: El>(v: &[T]) {
    for i in 0..v.len() {
        v[i].num();
        if T::TOK {
            for j in 0..i {
                check(v[i].id() != v[j].id(), "no element is held twice");
            }
        }
    }
}

/// One operation on a vector, carried out and observed.
pub struct Case<T: El> {
    pub v: Vec<T>,
    pub before: Vec<S>,
    /// what a successful operation leaves
    pub want: Vec<S>,
    pub want_panic: bool,
    pub panicked: bool,
    pub r: R<T>,
    /// identity of the offered element
    pub offered: u32,
    /// source of an append or extension
    pub other: Vec<T>,
    pub other_before: Vec<S>,
    pub calls: u64,
    pub op: u64,
}
pub static mut CLOSURE_PANIC_AT: i64 = -1;
/// a user's closure or iterator is called
#[inline(never)]
pub fn closure_step() {
    unsafe {
        if CLOSURE_PANIC_AT >= 0 {
            CLOSURE_PANIC_AT -= 1;
            if CLOSURE_PANIC_AT == -1 {
                panic!("closure");
            }
        }
    }
}
#[inline(never)]
pub fn disarm() {
    unsafe {
        CLOSURE_PANIC_AT = -1;
    }
    disarm_drop_panic();
    arm_clone_panic(-1);
    arm_clone_fail(-1);
    fault_off();
}
/// 0 push, 1 push_give_back, 2 insert, 3 append, 4 resize_with, 5 resize_no_copy, 6 extend_from_slice_no_copy
#[inline(never)]
pub fn run<T: El>(op: u64, v: Vec<T>, a: usize, arm: &dyn Fn()) -> Case<T> {
    let len = v.len();
    let before = snap(&v);
    let mut c = Case { v, want: before.clone(), before, want_panic: false, panicked: false, r: R::None, offered: u32::MAX,
                       other: Vec::new(), other_before: Vec::new(), calls: 0, op };
    let fresh = |i: usize| S(T::back(x(10 + i)), NEW);
    if op == 3 || op == 6 {
        for i in 0..a {
            c.other.push(T::mk(x(10 + i)));
        }
        c.other_before = snap(&c.other);
    }
    let mut y = None;
    if op <= 2 || op == 5 {
        let e = T::mk(x(10));
        c.offered = e.id();
        y = Some(e);
    }
    let mut index = a;
    match op {
        0 | 1 => c.want.push(S(T::back(x(10)), c.offered)),
        2 => {
            if a <= len {
                c.want.insert(a, S(T::back(x(10)), c.offered));
            } else {
                c.want_panic = true;
                index = any64() as usize;
                assume(index > len);
            }
        }
        3 => c.want.extend_from_slice(&c.other_before),
        6 => {
            for i in 0..a {
                c.want.push(fresh(i));
            }
        }
        _ => {
            c.want.truncate(a);
            let mut i = 0;
            while c.want.len() < a {
                c.want.push(if op == 5 { S(T::back(x(10)), NEW) } else { fresh(i) });
                i += 1;
            }
        }
    }
    let (v, other, calls) = (&mut c.v, &mut c.other, &mut c.calls);
    let mut r = R::None;
    arm();
    let res = |r: Result<(), TryReserveError>| if r.is_ok() { R::Ok } else { R::Err };
    let back = |r: Result<(), (T, TryReserveError)>| match r {
        Ok(()) => R::Ok,
        Err((e, _)) => R::Back(e),
    };
    c.panicked = panics(|| {
        r = match op {
            0 => res(FallibleVec::try_push(v, y.take().unwrap())),
            1 => back(FallibleVec::try_push_give_back(v, y.take().unwrap())),
            2 => back(FallibleVec::try_insert(v, index, y.take().unwrap())),
            3 => res(FallibleVec::try_append(v, other)),
            4 => res(FallibleVec::try_resize_with(v, a, || {
                closure_step();
                let i = *calls as usize;
                *calls += 1;
                T::mk(x(10 + i))
            })),
            5 => res(FallibleVec::try_resize_no_copy(v, a, y.take().unwrap())),
            _ => res(FallibleVec::try_extend_from_slice_no_copy(v, other)),
        }
    });
    disarm();
    c.r = r;
    c
}
/// The same for element types that are `Copy`. 7 resize, 8 extend_from_slice
#[inline(never)]
pub fn run_copy<T: El + Copy>(op: u64, v: Vec<T>, a: usize, arm: &dyn Fn()) -> Case<T> {
    let before = snap(&v);
    let mut c = Case { v, want: before.clone(), before, want_panic: false, panicked: false, r: R::None, offered: u32::MAX,
                       other: Vec::new(), other_before: Vec::new(), calls: 0, op };
    if op == 7 {
        c.want.truncate(a);
        while c.want.len() < a {
            c.want.push(S(T::back(x(10)), NEW));
        }
    } else {
        for i in 0..a {
            c.other.push(T::mk(x(10 + i)));
            c.want.push(S(T::back(x(10 + i)), NEW));
        }
        c.other_before = snap(&c.other);
    }
    let y = T::mk(x(10));
    let (v, other) = (&mut c.v, &c.other);
    let mut r = R::None;
    arm();
    c.panicked = panics(|| {
        let q = if op == 7 { FallibleVec::try_resize(v, a, y) } else { FallibleVec::try_extend_from_slice(v, other) };
        r = if q.is_ok() { R::Ok } else { R::Err };
    });
    disarm();
    c.r = r;
    c
}
/// The vector can be used as before: every operation that keeps its elements works.
#[inline(never)]
pub fn usable<T: El>(v: &mut Vec<T>) {
    distinct(v);
    let s = snap(v);
    check(FallibleVec::try_push(v, T::mk(x(30))).is_ok(), "a push succeeds while memory is available");
    same(v, &s, s.len());
    check(v.len() == s.len() + 1, "a push adds one element");
    let e = v.pop();
    check(matches!(&e, Some(e) if e.num() == T::back(x(30))), "the pushed element comes back");
    same(v, &s, s.len());
}
pub fn fin() {
    check(live_tokens() == 0, "every value is dropped exactly once");
}
/// Call `$f::<T>($args)` for the element type numbered `$ty`.
#[macro_export]
macro_rules! for_el {
    ($ty:expr, $f:ident($($a:expr),*)) => {
        match $ty {
            0 => $f::<u8>($($a),*),
            1 => $f::<u32>($($a),*),
            2 => $f::<Z>($($a),*),
            3 => $f::<E>($($a),*),
            4 => $f::<W>($($a),*),
            5 => $f::<A>($($a),*),
            6 => $f::<L>($($a),*),
            7 => $f::<ZF>($($a),*),
            9 => $f::<P>($($a),*),
            10 => $f::<H>($($a),*),
            _ => $f::<u64>($($a),*),
        }
    };
}
/// The same, for element types that are `Copy`.
#[macro_export]
macro_rules! for_copy {
    ($ty:expr, $f:ident($($a:expr),*)) => {
        match $ty {
            0 => $f::<u8>($($a),*),
            1 => $f::<u32>($($a),*),
            2 => $f::<Z>($($a),*),
            4 => $f::<W>($($a),*),
            6 => $f::<L>($($a),*),
            _ => $f::<u64>($($a),*),
        }
    };
}
