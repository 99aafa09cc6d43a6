//! Fallible copies of values.
use super::vcommon::*;
use crate::vf::*;
use crate::{entries, for_el};
use fallible_collections::*;

entries!(c24_prim, c24_option, c24_nested);

/// Every value of every primitive type.
#[no_mangle]
pub extern "C-unwind" fn c24_prim() {
    macro_rules! go {
        ($($t:ty),*) => {$({
            let v = any64() as $t;
            let a = allocs();
            fault_all();
            let c = v.try_clone();
            fault_off();
            check(matches!(c, Ok(w) if w == v), "a copy of a number equals it");
            check(allocs() == a, "copying a number allocates nothing");
            let c = Some(v).try_clone();
            check(matches!(c, Ok(Some(w)) if w == v), "a copy of an optional number equals it");
            let c = Some(Some(v)).try_clone();
            check(matches!(c, Ok(Some(Some(w))) if w == v), "a copy of an optional number equals it");
            let b = [v, v ^ 1, 7 as $t].to_vec();
            let c = b.try_clone();
            check(matches!(&c, Ok(w) if w.len() == 3 && (w[0] == v) & (w[1] == v ^ 1) & (w[2] == 7 as $t)), "a copy of a vector equals it");
            let c = Box::new(v).try_clone();
            check(matches!(&c, Ok(w) if **w == v), "a copy of a box equals it");
            obs(v as u64);
        })*};
    }
    go!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
    let b = any_bool();
    check(matches!(b.try_clone(), Ok(c) if c == b), "a copy of a truth value equals it");
    check(matches!(Some(b).try_clone(), Ok(Some(c)) if c == b), "a copy of a truth value equals it");
    fin();
}
fn arm(mode: u64, max: u64) {
    match mode {
        0 => {}
        1 => fault_each(2),
        2 => fault_persistent(),
        3 => arm_clone_fail(any_count(max) as i32),
        4 => {
            fault_each(2);
            arm_clone_fail(any_count(max) as i32)
        }
        _ => arm_clone_panic(any_count(max) as i32),
    }
}
#[inline(never)]
fn option<T: El>(mode: u64) {
    let some = any_bool();
    let v = if some { Some(T::mk(x(0))) } else { None };
    let t0 = live_tokens();
    let mut r = None;
    arm(mode, 1);
    let p = panics(|| r = Some(v.try_clone()));
    disarm();
    check(!p | (mode == 5), "copying does not panic");
    match &r {
        Some(Ok(c)) => {
            check(c.is_some() == some, "a copy has a value exactly if the original has");
            if let (Some(c), Some(v)) = (c, &v) {
                check(c.num() == T::back(x(0)), "a copy is equal");
                check(!T::TOK | (c.id() != v.id()), "a copy has a value of its own");
                check((v.id() == u32::MAX) | (c.id() != v.id()), "a value is copied the way its type copies");
            }
        }
        Some(Err(_)) => {
            check(some & (mode >= 3), "an operation fails only if something it needs fails");
            check(live_tokens() == t0, "a failed copy drops everything");
        }
        None => {}
    }
    if let Some(v) = &v {
        check(v.num() == T::back(x(0)), "copying leaves the original alone");
    }
    obs(some as u64);
}
/// params: element type, mode of failure
#[no_mangle]
pub extern "C-unwind" fn c24_option() {
    let (ty, mode) = (param(0), param(1));
    for_el!(ty, option(mode));
    fin();
}

/// A nested value that can list its elements and blocks.
trait Nest: TryClone {
    fn list(&self, out: &mut Vec<S>, at: &mut Vec<usize>);
}
fn num<T: El>(e: &T, out: &mut Vec<S>) {
    out.push(S(e.num(), e.id()));
}
macro_rules! leaf {
    ($($t:ty),*) => {$(impl Nest for $t {
        fn list(&self, out: &mut Vec<S>, _: &mut Vec<usize>) {
            num(self, out);
        }
    })*};
}
leaf!(E, A, L, P);
impl<T: Nest> Nest for Vec<T> {
    fn list(&self, out: &mut Vec<S>, at: &mut Vec<usize>) {
        out.push(S(self.len() as u32 + 77, u32::MAX));
        if self.capacity() > 0 {
            at.push(self.as_ptr() as usize);
        }
        for e in self {
            e.list(out, at);
        }
    }
}
impl<T: Nest> Nest for TryVec<T> {
    fn list(&self, out: &mut Vec<S>, at: &mut Vec<usize>) {
        out.push(S(self.len() as u32 + 77, u32::MAX));
        if self.len() > 0 {
            at.push(self.as_ptr() as usize);
        }
        for e in self {
            e.list(out, at);
        }
    }
}
impl<T: Nest> Nest for Option<T> {
    fn list(&self, out: &mut Vec<S>, at: &mut Vec<usize>) {
        out.push(S(self.is_some() as u32, u32::MAX));
        if let Some(e) = self {
            e.list(out, at);
        }
    }
}
impl<T: Nest> Nest for Box<T> {
    fn list(&self, out: &mut Vec<S>, at: &mut Vec<usize>) {
        at.push(&**self as *const T as usize);
        (**self).list(out, at);
    }
}
impl<T: Nest> Nest for TryBox<T> {
    fn list(&self, out: &mut Vec<S>, at: &mut Vec<usize>) {
        at.push(&**self as *const T as usize);
        (**self).list(out, at);
    }
}
#[inline(never)]
fn nested<N: Nest>(v: N, mode: u64) {
    let (mut s, mut at) = (Vec::with_capacity(32), Vec::with_capacity(32));
    v.list(&mut s, &mut at);
    let (l0, b0, t0, f0) = (live(), live_bytes(), live_tokens(), fails());
    let mut r = None;
    arm(mode, 7);
    let p = panics(|| r = Some(v.try_clone()));
    disarm();
    check(!p | (mode == 5), "copying does not panic");
    match r {
        Some(Ok(c)) => {
            cover("a nested copy");
            check(fails() == f0, "a failed allocation is reported as an error");
            let (mut cs, mut cat) = (Vec::with_capacity(32), Vec::with_capacity(32));
            c.list(&mut cs, &mut cat);
            check((cs.len() == s.len()) & (cat.len() <= at.len()), "a copy has the same structure");
            for i in 0..cs.len().min(s.len()) {
                check(cs[i].0 == s[i].0, "a copy is equal");
                check((s[i].1 == u32::MAX) | (cs[i].1 != s[i].1), "a copy has values of its own");
            }
            for a in &cat {
                for b in &at {
                    check(a != b, "a copy has memory of its own");
                }
            }
            obs(cs.len() as u64);
            drop((cs, cat));
            if any_bool() {
                // the copy goes first
                drop(c);
                again(&v, &s);
                check((live_bytes() == b0) & (live() == l0), "dropping a copy releases all of it");
                drop(v);
            } else {
                drop(v);
                let (mut cs, mut cat) = (Vec::with_capacity(32), Vec::with_capacity(32));
                c.list(&mut cs, &mut cat);
                for i in 0..cs.len().min(s.len()) {
                    check(cs[i].0 == s[i].0, "a copy outlives the original");
                }
            }
        }
        Some(Err(_)) => {
            cover("a nested copy failed");
            check((fails() > f0) | (mode == 3) | (mode == 4), "an operation fails only if something it needs fails");
            check((live() == l0) & (live_bytes() == b0), "a failed copy releases everything");
            check(live_tokens() == t0, "a failed copy drops everything");
            again(&v, &s);
        }
        None => {
            cover("a nested copy panicked");
            check((live() == l0) & (live_bytes() == b0), "a panicking copy releases everything");
            check(live_tokens() == t0, "a panicking copy drops everything");
            again(&v, &s);
        }
    }
}
#[inline(never)]
fn again<N: Nest>(v: &N, s: &[S]) {
    let (mut t, mut at) = (Vec::with_capacity(32), Vec::with_capacity(32));
    v.list(&mut t, &mut at);
    check(t.len() == s.len(), "copying leaves the original alone");
    for i in 0..t.len().min(s.len()) {
        check((t[i].0 == s[i].0) & (t[i].1 == s[i].1), "copying leaves the original alone");
    }
}
fn tv<T>(v: Vec<T>) -> TryVec<T> {
    v.into()
}
/// Nested values. params: structure, mode of failure
#[no_mangle]
pub extern "C-unwind" fn c24_nested() {
    let (what, mode) = (param(0), param(1));
    let e = |i: usize| E::mk(x(i));
    match what {
        0 => {
            let mut v = Vec::new();
            for i in 0..choose(4) as usize {
                v.push(vec_of::<E>((i + choose(2) as usize) % 3, 3));
            }
            nested(v, mode)
        }
        1 => nested(vec![Some(Box::new(e(0))), None, Some(Box::new(e(1)))], mode),
        2 => nested(Box::new(vec![e(0), e(1), e(2)]), mode),
        3 => nested(tv(vec![tv(vec![e(0)]), tv(vec![]), tv(vec![e(1), e(2)])]), mode),
        4 => match TryBox::try_new(Some(e(0))) {
            Ok(b) => nested(b, mode),
            Err(_) => check(false, "an operation succeeds while memory is available"),
        },
        5 => match TryBox::try_new(tv(vec![Box::new(e(0)), Box::new(e(1))])) {
            Ok(b) => nested(Some(b), mode),
            Err(_) => check(false, "an operation succeeds while memory is available"),
        },
        6 => nested(Box::new(Box::new(Box::new(A::mk(x(0))))), mode),
        7 => nested(vec![Some(vec![Some(e(0)), None]), None, Some(vec![])], mode),
        9 => nested(vec![P::mk(x(0)), P::mk(x(1)), P::mk(x(2))], mode),
        10 => nested(vec![vec![P::mk(x(0))], vec![], vec![P::mk(x(1)), P::mk(x(2))]], mode),
        11 => nested(tv(vec![Some(P::mk(x(0))), None, Some(P::mk(x(1)))]), mode),
        12 => nested(Box::new(vec![Some(P::mk(x(0)))]), mode),
        13 => match TryBox::try_new(P::mk(x(0))) {
            Ok(b) => nested(b, mode),
            Err(_) => check(false, "an operation succeeds while memory is available"),
        },
        14 => nested(Some(Box::new(P::mk(x(0)))), mode),
        16 => nested((0..45).map(e).collect::<Vec<E>>(), mode),
        17 => nested(tv((0..131).map(e).collect::<Vec<E>>()), mode),
        18 => nested(Some((0..67).map(|i| if i % 3 == 0 { None } else { Some(P::mk(x(i))) }).collect::<Vec<Option<P>>>()), mode),
        19 => nested((0..261).map(|i| P::mk(x(i))).collect::<Vec<P>>(), mode),
        _ => nested(vec![Box::new(L::mk(x(0))), Box::new(L::mk(x(1)))], mode),
    }
    fin();
}
