//! The wrapper vector type, operation by operation, against a plain list.
use super::vcommon::*;
use crate::vf::*;
use crate::{entries, for_el};
use core::convert::TryFrom;
use fallible_collections::vec::*;
use fallible_collections::*;

entries!(c17_hist, c17_view, c17_concat, c17_from, c17_iter, c17_eq, c17_text, c17_meth);

fn arm(mode: u64) {
    match mode {
        0 => {}
        1 => fault_each(2),
        2 => fault_all(),
        3 => arm_clone_fail(any_count(steps(2)) as i32),
        _ => {
            fault_each(2);
            arm_clone_fail(any_count(steps(2)) as i32)
        }
    }
}
/// One operation; the model is updated to what the vector must hold.
#[inline(never)]
fn step<T: El>(t: &mut TryVec<T>, m: &mut Vec<S>, op: u64, mode: u64) {
    let len = m.len();
    let mut want = m.clone();
    let copying = op == 5 || op == 10;
    let f0 = fails();
    let mut other = TryVec::<T>::new();
    let mut src = Vec::new();
    let mut e = None;
    let b = unsafe { BASE };
    let a = match op {
        2 | 5 if b > 0 => b + choose(3) as usize,
        3 if b > 0 => [1, b, b * 5][choose(3) as usize],
        4 if b > 0 => wide(4, len).unwrap(),
        2 | 5 => choose(4) as usize,
        3 => choose(3) as usize * 3,
        4 => (len + 3).saturating_sub(choose(5) as usize),
        _ => 0,
    };
    for i in 0..a {
        if op == 2 {
            let y = T::mk(x(10 + i));
            want.push(S(y.num(), y.id()));
            check(other.push(y).is_ok(), "a push succeeds while memory is available");
        } else if op == 5 {
            src.push(T::mk(x(10 + i)));
            want.push(S(T::back(x(10 + i)), NEW));
        }
    }
    if op == 0 || op == 8 {
        let y = T::mk(x(10));
        if op == 0 {
            want.push(S(y.num(), y.id()));
        } else if len > 0 {
            want[len / 2] = S(y.num(), y.id());
        }
        e = Some(y);
    }
    let mut calls = 0;
    let mut popped = None;
    let mut ok = true;
    let mut swap = None;
    let mut given = None;
    arm(mode);
    let p = panics(|| match op {
        0 => ok = t.push(e.take().unwrap()).is_ok(),
        1 => popped = t.pop(),
        2 => ok = t.append(&mut other).is_ok(),
        3 => ok = t.reserve(a).is_ok(),
        4 => {
            ok = t
                .resize_with(a, || {
                    calls += 1;
                    T::mk(x(9 + calls))
                })
                .is_ok()
        }
        5 => ok = t.extend_from_slice(&src).is_ok(),
        6 => t.clear(),
        7 => t.as_mut_slice().reverse(),
        8 => {
            if len > 0 {
                t[len / 2] = e.take().unwrap()
            }
        }
        9 => {
            // through the mutable iterator: exchange the first two elements
            let mut i = t.iter_mut();
            if let (Some(a), Some(b)) = (i.next(), i.next()) {
                core::mem::swap(a, b)
            }
        }
        10 => match t.try_clone() {
            Ok(c) => given = Some(c),
            Err(_) => ok = false,
        },
        _ => {
            let v: Vec<T> = core::mem::replace(t, TryVec::new()).into_iter().collect();
            swap = Some(v);
        }
    });
    disarm();
    drop(e);
    if let Some(v) = swap {
        *t = v.into();
    }
    check(!p, "an operation does not panic");
    let failed = fails() > f0;
    check(ok | (mode != 0), "an operation succeeds while memory is available");
    check(ok | failed | (copying & (mode >= 3)), "an operation fails only if something it needs fails");
    check(!(ok & failed) | (op == 11), "a failed allocation is reported as an error");
    match op {
        1 => {
            match (&popped, want.pop()) {
                (Some(e), Some(s)) => {
                    check(e.num() == s.0, "the last element is popped");
                    check(!T::TOK | (s.1 == NEW) | (e.id() == s.1), "the last element is popped");
                }
                (None, None) => {}
                _ => check(false, "the last element is popped"),
            }
        }
        4 => {
            want.truncate(a);
            let mut i = 0;
            while want.len() < a {
                want.push(S(T::back(x(10 + i)), NEW));
                i += 1;
            }
            check(!ok | (calls == i), "the closure is called once per added element");
        }
        6 => want.clear(),
        7 => want.reverse(),
        9 => {
            if len > 1 {
                want.swap(0, 1)
            }
        }
        _ => {}
    }
    if ok {
        *m = want;
        check(op != 2 || other.is_empty(), "an append empties its source");
    } else {
        cover("an operation failed");
        if op == 2 {
            check(other.len() == a, "a failed append leaves its source alone");
            for i in 0..other.len() {
                check(other[i].num() == T::back(x(10 + i)), "a failed append leaves its source alone");
            }
        }
        if op == 5 {
            // elements copied before the failure may stay
            let n = t.len();
            check((n >= len) & (n <= want.len()) & (!failed | (n == len)), "a failed extension keeps the contents");
            while m.len() < n {
                m.push(want[m.len()]);
            }
        }
    }
    look(t, m);
    if let Some(c) = given {
        cover("a copy");
        check(c.len() == m.len(), "a copy equals its original");
        for i in 0..m.len() {
            check(c[i].num() == m[i].0, "a copy equals its original");
            check(!T::TOK | (c[i].id() != t[i].id()), "a copy has elements of its own");
        }
        let held = popped.is_some() as usize;
        check(!T::TOK | (live_tokens() as usize == held + other.len() + src.len() + 2 * m.len()), "every value has exactly one owner");
        if any_bool() {
            // carry on with the copy
            *t = c;
            for i in 0..m.len() {
                m[i].1 = t[i].id();
            }
        }
        look(t, m);
    } else {
        let held = popped.is_some() as usize + other.len() + src.len();
        check(!T::TOK | (live_tokens() as usize == held + m.len()), "every value has exactly one owner");
    }
    obs(m.len() as u64 + 100 * ok as u64);
}
/// contents, quickly
#[inline(never)]
fn look<T: El>(t: &TryVec<T>, m: &[S]) {
    check(t.len() == m.len(), "the length is right");
    check(t.is_empty() == m.is_empty(), "emptiness is right");
    same(t.as_slice(), m, m.len());
}
#[inline(never)]
fn start<T: El>(len: usize, cap: usize) -> (TryVec<T>, Vec<S>) {
    let v = vec_of::<T>(len, cap);
    let s = snap(&v);
    (v.into(), s)
}
#[inline(never)]
fn hist<T: El>(k: u64, first: u64, len: usize, cap: usize, mode: u64) {
    let (mut t, mut m) = start::<T>(len, cap);
    for i in 0..k {
        let op = if i == 0 && first < 12 { first } else { choose(12) };
        step(&mut t, &mut m, op, mode);
    }
}
/// Sequences of operations. params: element type, count, first op, len, cap, mode of failure, base of the arguments
#[no_mangle]
pub extern "C-unwind" fn c17_hist() {
    let (ty, k, first, len, cap, mode) = (param(0), param(1), param(2), param(3) as usize, param(4) as usize, param(5));
    unsafe { BASE = param(6) as usize };
    for_el!(ty, hist(k, first, len, cap, mode));
    fin();
}

#[inline(never)]
fn view<T: El>(len: usize, cap: usize) {
    let (mut t, m) = start::<T>(len, cap);
    look(&t, &m);
    let i = any64() as usize;
    // reading at any index
    check(t.get(i).is_some() == (i < len), "an index is valid exactly below the length");
    let mut got = None;
    let p = panics(|| got = Some(t[i].num()));
    check(p == (i >= len), "indexing panics exactly beyond the end");
    if let Some(g) = got {
        for j in 0..len {
            check((j != i) | (g == m[j].0), "indexing gives the element at that place");
        }
    }
    let p = panics(|| {
        t[i] = T::mk(x(20));
    });
    check(p == (i >= len), "indexing panics exactly beyond the end");
    let mut m = m;
    if !p {
        for j in 0..len {
            check(t[j].num() == if j == i { T::back(x(20)) } else { m[j].0 }, "assignment changes one element");
        }
        m = snap(t.as_slice());
    }
    // slices
    let (a, b) = (choose(len as u64 + 2) as usize, choose(len as u64 + 2) as usize);
    let mut n = None;
    let p = panics(|| n = Some(t[a..b].len()));
    check(p == ((a > b) | (b > len)), "slicing panics exactly for an impossible range");
    if let Some(n) = n {
        check(n == b - a, "a slice has the requested elements");
        same(&t[a..b], &m[a..b], n);
    }
    check(t.first().map(|e| e.num()) == m.first().map(|e| e.0), "the first element is right");
    check(t.last().map(|e| e.num()) == m.last().map(|e| e.0), "the last element is right");
    check(t.as_slice().as_ptr() == t.as_ptr(), "views are of the same memory");
    let ptr = t.as_ptr();
    check(t.as_mut_slice().as_ptr() == ptr, "views are of the same memory");
    obs(p as u64);
    look(&t, &m);
}
/// Indexing and slicing. params: element type, len, cap
#[no_mangle]
pub extern "C-unwind" fn c17_view() {
    let (ty, len, cap) = (param(0), param(1) as usize, param(2) as usize);
    for_el!(ty, view(len, cap));
    fin();
}

#[inline(never)]
fn iter<T: El>(len: usize, cap: usize) {
    let (mut t, m) = start::<T>(len, cap);
    let steps = choose(len as u64 + 3) as usize;
    {
        let mut i = t.iter();
        for k in 0..steps {
            let left = len.saturating_sub(k);
            check(i.size_hint() == (left, Some(left)), "the size hint is exact");
            match i.next() {
                Some(e) => {
                    check(k < len, "iteration ends at the end");
                    if k < len {
                        check(e.num() == m[k].0, "iteration goes in order");
                        check(core::ptr::eq(e, &t[k]), "iteration lends the elements themselves");
                    }
                }
                None => check(k >= len, "iteration yields every element"),
            }
        }
        let mut i = (&t).into_iter();
        for k in 0..steps {
            match i.next() {
                Some(e) => check((k < len) && e.num() == m[k].0, "iteration goes in order"),
                None => check(k >= len, "iteration yields every element"),
            }
        }
    }
    {
        let mut i = t.iter_mut();
        for k in 0..steps {
            let left = len.saturating_sub(k);
            check(i.size_hint() == (left, Some(left)), "the size hint is exact");
            match i.next() {
                Some(e) => {
                    check((k < len) && e.num() == m[k].0, "iteration goes in order");
                    *e = T::mk(x(20 + k));
                }
                None => check(k >= len, "iteration yields every element"),
            }
        }
    }
    for k in 0..len {
        check(t[k].num() == if k < steps { T::back(x(20 + k)) } else { m[k].0 }, "changes through an iterator stay");
    }
    let m = snap(t.as_slice());
    // by value, from both ends
    let front = choose(len as u64 + 1) as usize;
    let mut i = t.into_iter();
    check(i.len() == len, "the size hint is exact");
    for k in 0..front {
        let e = i.next();
        check(matches!(&e, Some(e) if e.num() == m[k].0), "iteration goes in order");
    }
    if any_bool() {
        let e = i.next_back();
        match e {
            Some(e) => check((front < len) && e.num() == m[len - 1].0, "iteration goes in order"),
            None => check(front == len, "iteration yields every element"),
        }
    }
    obs(i.len() as u64);
    drop(i);
}
/// Iteration. params: element type, len, cap
#[no_mangle]
pub extern "C-unwind" fn c17_iter() {
    let (ty, len, cap) = (param(0), param(1) as usize, param(2) as usize);
    for_el!(ty, iter(len, cap));
    fin();
}

#[inline(never)]
fn concat<T: El>(mode: u64) {
    let b = unsafe { BASE };
    let k = if b > 0 { [1, 2, 3, b][choose(4) as usize] } else { choose(4) as usize };
    let mut w: TryVec<TryVec<T>> = TryVec::new();
    let mut want = Vec::new();
    for i in 0..k {
        let n = match b {
            0 => choose(3) as usize,
            _ if k == b => 1,
            _ => [b, 1, b][i],
        };
        let mut t = TryVec::new();
        for j in 0..n {
            check(t.push(T::mk(x(i * 2 + j))).is_ok(), "a push succeeds while memory is available");
            want.push(S(T::back(x(i * 2 + j)), NEW));
        }
        check(w.push(t).is_ok(), "a push succeeds while memory is available");
    }
    let (l0, b0, t0, f0) = (live(), live_bytes(), live_tokens(), fails());
    let mut r = None;
    arm(mode);
    let p = panics(|| r = Some(w.concat()));
    disarm();
    let failed = fails() > f0;
    check(!p, "an operation does not panic");
    match r {
        Some(Ok(v)) => {
            cover("a concatenation");
            check(!failed, "a failed allocation is reported as an error");
            check(v.len() == want.len(), "a concatenation has every element");
            same(v.as_slice(), &want, want.len());
            check(!T::TOK | (live_tokens() as usize == 2 * want.len()), "a concatenation copies each element once");
            obs(v.len() as u64);
        }
        Some(Err(_)) => {
            check(failed | (mode >= 3), "an operation fails only if something it needs fails");
            check((live() == l0) & (live_bytes() == b0) & (live_tokens() == t0), "a failed concatenation releases everything");
            obs(99);
        }
        None => {}
    }
    let mut n = 0;
    for t in w.iter() {
        for e in t.iter() {
            check((n < want.len()) && e.num() == want[n].0, "concatenating leaves the parts alone");
            n += 1;
        }
    }
    check(n == want.len(), "concatenating leaves the parts alone");
}
/// Concatenation. params: element type, mode of failure, base
#[no_mangle]
pub extern "C-unwind" fn c17_concat() {
    let (ty, mode) = (param(0), param(1));
    unsafe { BASE = param(2) as usize };
    for_el!(ty, concat(mode));
    fin();
}

#[inline(never)]
fn from<T: El>(op: u64, len: usize, mode: u64) {
    let src = vec_of::<T>(len, 0);
    let s = snap(&src);
    let (l0, b0, t0, f0) = (live(), live_bytes(), live_tokens(), fails());
    let mut r = None;
    arm(mode);
    let p = panics(|| {
        r = Some(match op {
            0 => TryVec::try_from(&src[..]),
            1 => TryVec::with_capacity(len * 2),
            2 => Ok(TryVec::new()),
            _ => Ok(TryVec::default()),
        })
    });
    disarm();
    check(!p, "an operation does not panic");
    let failed = fails() > f0;
    match r {
        Some(Ok(mut t)) => {
            check(!failed, "a failed allocation is reported as an error");
            if op == 0 {
                check(t.len() == len, "a conversion copies every element");
                for i in 0..t.len() {
                    check(t[i].num() == s[i].0, "a conversion copies every element in order");
                }
            } else {
                check(t.is_empty(), "a new vector is empty");
                if op == 1 {
                    // the room is there
                    let a = allocs();
                    for i in 0..len * 2 {
                        check(t.push(T::mk(x(i))).is_ok(), "a push succeeds while memory is available");
                    }
                    check(allocs() == a, "a stated capacity is usable without allocating");
                    for i in 0..t.len() {
                        check(t[i].num() == T::back(x(i)), "pushed elements stay in order");
                    }
                } else {
                    check(live() == l0, "an empty vector holds no memory");
                }
            }
            obs(t.len() as u64);
        }
        Some(Err(_)) => {
            cover("a conversion failed");
            check(failed | (mode >= 3), "an operation fails only if something it needs fails");
            check((live() == l0) & (live_bytes() == b0) & (live_tokens() == t0), "a failed conversion releases everything");
        }
        None => {}
    }
    same(&src, &s, s.len());
    // taking over an ordinary vector
    let a = allocs();
    let t: TryVec<T> = src.into();
    check(allocs() == a, "taking over a vector does not allocate");
    look(&t, &s);
    let d: TryVec<T> = Default::default();
    check(d.is_empty(), "a new vector is empty");
}
/// Conversions and construction. params: element type, op, len, mode of failure
#[no_mangle]
pub extern "C-unwind" fn c17_from() {
    let (ty, op, len, mode) = (param(0), param(1), param(2) as usize, param(3));
    for_el!(ty, from(op, len, mode));
    fin();
}

#[inline(never)]
fn eq<T: El + PartialEq>(la: usize, lb: usize, fresh: impl Fn(usize) -> u32) {
    let a = vec_of::<T>(la, la);
    let mut b = Vec::new();
    for i in 0..lb {
        b.push(T::mk(fresh(i)));
    }
    let mut want = la == lb;
    if want {
        for i in 0..la {
            want = want & (a[i].num() == b[i].num());
        }
    }
    let t: TryVec<T> = a.into();
    {
        let s: &[T] = &b;
        check((t == s) == want, "equality with a slice is equality of elements");
        check((t != s) == !want, "equality with a slice is equality of elements");
    }
    check((t == b) == want, "equality with a vector is equality of elements");
    check((t != b) == !want, "equality with a vector is equality of elements");
    let u: TryVec<T> = b.into();
    check((t == u) == want, "equality of vectors is equality of elements");
    check((u == t) == want, "equality of vectors is equality of elements");
    obs(want as u64);
}
/// Comparisons. params: element type, lengths
#[no_mangle]
pub extern "C-unwind" fn c17_eq() {
    let (ty, la, lb) = (param(0), param(1) as usize, param(2) as usize);
    let ys = [any32(), any32(), any32(), any32()];
    // in long vectors: the first three and the last
    let fresh = |i: usize| if i < 3 || lb <= 4 { ys[i] } else if i == lb - 1 { ys[3] } else { x(i) };
    match ty {
        0 => eq::<u8>(la, lb, fresh),
        1 => eq::<u32>(la, lb, fresh),
        2 => eq::<Z>(la, lb, fresh),
        3 => eq::<E>(la, lb, fresh),
        _ => eq::<W>(la, lb, fresh),
    }
    fin();
}

/// Byte vectors and text. params: len, mode of failure
#[no_mangle]
pub extern "C-unwind" fn c17_text() {
    let (len, mode) = (param(0) as usize, param(1));
    // any ASCII text, and a longer character
    let mut bytes = [0u8; 48];
    for i in 0..len {
        bytes[i] = range(0, 127) as u8;
    }
    if len > 2 && any_bool() {
        bytes[0] = 0xc3;
        bytes[1] = 0xa9;
    }
    let s: &str = unsafe { core::str::from_utf8_unchecked(&bytes[..len]) };
    let f0 = fails();
    arm(mode);
    let r: Result<TryVec<u8>, _> = TryVec::try_from(s);
    disarm();
    let failed = fails() > f0;
    match r {
        Ok(mut t) => {
            check(!failed, "a failed allocation is reported as an error");
            check(t.len() == len, "the bytes of the text are copied");
            for i in 0..len {
                check(t[i] == bytes[i], "the bytes of the text are copied");
            }
            check(t == s, "a byte vector equals the text it was made from");
            let r: &[u8] = t.as_ref();
            check((r.len() == len) && core::ptr::eq(r.as_ptr(), t.as_ptr()), "a byte view is of the same memory");
            // differs exactly if a byte or the length differs
            if len > 0 {
                let i = choose(len as u64) as usize;
                let y = any8();
                let o = t[i];
                t[i] = y;
                check((t == s) == (y == o), "a byte vector equals a text with the same bytes only");
                t[i] = o;
                let _ = t.pop();
                check(t != s, "a byte vector equals a text with the same bytes only");
            }
            // the same beginning, but a byte more (which may be zero), or bytes missing
            t = bytes[..len].to_vec().into();
            let _ = t.push(any8());
            check(t != s, "a byte vector longer than a text differs from it");
            let _ = t.push(any8());
            check(t != s, "a byte vector longer than a text differs from it");
            t = bytes[..len / 2].to_vec().into();
            check((t == s) == (len == 0), "a byte vector shorter than a text differs from it");
            // "half of it, and two more": the same length if len is 3 or 4
            let _ = t.push(b'x');
            let _ = t.push(b'x');
            let mut same = t.len() == len;
            if same {
                for i in 0..len {
                    same = same & (t[i] == bytes[i]);
                }
            }
            check((t == s) == same, "a byte vector equals a text with the same bytes only");
            obs(t.len() as u64);
        }
        Err(_) => {
            cover("text could not be copied");
            check(failed, "an operation fails only if something it needs fails");
        }
    }
    if mode == 0 && len < 3 {
        // the debugging output is that of the ordinary vector
        let mut v = Vec::new();
        for i in 0..len {
            v.push(concretize(range(8, 11)) as u8);
        }
        let want = format!("{:?}", v);
        let t: TryVec<u8> = v.into();
        let got = format!("{:?}", t);
        check(want == got, "the debugging output is that of the ordinary vector");
    }
    fin();
}

#[inline(never)]
fn meth<T: El>(len: usize, cap: usize, kind: u64, what: u64) {
    let (mut t, m) = start::<T>(len, cap);
    let a = choose(len as u64 + 1) as usize;
    let mm = &m;
    match kind {
        0 => {
            let mut it = t.iter();
            for _ in 0..a {
                let _ = it.next();
            }
            forward(it, len - a, what, &mut |e: &&T, i: usize| check(e.num() == mm[a + i].0, "iteration goes in order"));
        }
        1 => {
            let mut it = t.iter_mut();
            for _ in 0..a {
                let _ = it.next();
            }
            forward(it, len - a, what, &mut |e: &&mut T, i: usize| check(e.num() == mm[a + i].0, "iteration goes in order"));
        }
        _ => {
            let mut it = core::mem::replace(&mut t, TryVec::new()).into_iter();
            for _ in 0..a {
                let _ = it.next();
            }
            forward(it, len - a, what, &mut |e: &T, i: usize| check(e.num() == mm[a + i].0, "iteration goes in order"));
            check(live_tokens() == 0, "iteration by value drops what it yields");
            return;
        }
    }
    look(&t, &m);
}
/// Provided methods of the iterators after any number of steps. params: element type, len, cap, 0 Iter 1 IterMut 2 IntoIter, method
#[no_mangle]
pub extern "C-unwind" fn c17_meth() {
    let (ty, len, cap, kind, what) = (param(0), param(1) as usize, param(2) as usize, param(3), param(4));
    for_el!(ty, meth(len, cap, kind, what));
    fin();
}
