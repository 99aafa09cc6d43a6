//! Every entry and every node is released exactly once, whatever the layout of keys and values.
use crate::entries;
use crate::vf::*;
use core::cmp::Ordering;
use fallible_collections::btree::{map::Entry, BTreeMap, BTreeSet};
use fallible_collections::TryClone;

entries!(c09_op, c09_hist, c09_iter, c09_set, c09_empty, c09_drain);

static mut BORN: i64 = 0;
static mut DIED: i64 = 0;
fn objects() -> i64 {
    unsafe { BORN - DIED }
}
#[inline(never)]
fn born() {
    unsafe { BORN += 1 }
}
#[inline(never)]
fn died() {
    unsafe {
        DIED += 1;
        check(DIED <= BORN, "no value is dropped twice");
    }
}

pub trait Part: Sized + Ord + Clone + TryClone {
    /// how many distinct numbers the type can hold
    const RANGE: u64;
    /// 1 if values are counted as they are made and dropped (plain data is not)
    const COUNT: i64 = 1;
    fn mk(n: u32) -> Self;
    fn num(&self) -> u32;
}
macro_rules! part {
    ($name:ident, $range:expr, $mk:expr, $num:expr) => {
        impl Part for $name {
            const RANGE: u64 = $range;
            #[inline(never)]
            fn mk(n: u32) -> Self {
                born();
                let f: fn(u32) -> $name = $mk;
                f(n)
            }
            #[inline(always)]
            fn num(&self) -> u32 {
                let f: fn(&$name) -> u32 = $num;
                f(self)
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                died()
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                self.num() == o.num()
            }
        }
        impl Eq for $name {}
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $name {
            #[inline(never)]
            fn cmp(&self, o: &Self) -> Ordering {
                let (a, b) = (self.num(), o.num());
                if a < b {
                    Ordering::Less
                } else if a == b {
                    Ordering::Equal
                } else {
                    Ordering::Greater
                }
            }
        }
        impl Clone for $name {
            #[inline(never)]
            fn clone(&self) -> Self {
                Self::mk(self.num())
            }
        }
        impl TryClone for $name {
            #[inline(never)]
            fn try_clone(&self) -> Result<Self, fallible_collections::TryReserveError> {
                Ok(Self::mk(self.num()))
            }
        }
    };
}
/// Data without a destructor.
macro_rules! plain {
    ($($t:ty),*) => {$(impl Part for $t {
        const RANGE: u64 = (<$t>::MAX as u64 & 0xffff_ffff) + 1;
        const COUNT: i64 = 0;
        fn mk(n: u32) -> Self {
            n as $t
        }
        fn num(&self) -> u32 {
            *self as u32
        }
    })*};
}
plain!(u8, u32, u64);
pub struct B1(u8);
part!(B1, 256, |n| B1(n as u8), |s| s.0 as u32);
pub struct Zs;
part!(Zs, 1, |_| Zs, |_| 0);
pub struct W2(u16);
part!(W2, 65536, |n| W2(n as u16), |s| s.0 as u32);
pub struct Id {
    n: u32,
    t: Tok,
}
part!(Id, 1 << 32, |n| Id { n, t: Tok::new() }, |s| {
    s.t.touch();
    s.n
});
#[repr(align(64))]
pub struct A64 {
    n: u32,
    t: Tok,
}
part!(A64, 1 << 32, |n| A64 { n, t: Tok::new() }, |s| {
    s.t.touch();
    check(s as *const _ as usize % 64 == 0, "an over-aligned value lies at an aligned address");
    s.n
});
#[repr(align(16))]
pub struct A16(u8);
part!(A16, 256, |n| A16(n as u8), |s| {
    check(s as *const _ as usize % 16 == 0, "an over-aligned value lies at an aligned address");
    s.0 as u32
});
/// zero-sized but over-aligned
#[repr(align(32))]
pub struct Z32;
part!(Z32, 1, |_| Z32, |s| {
    check(s as *const _ as usize % 32 == 0, "an over-aligned value lies at an aligned address");
    0
});
pub struct Big {
    t: Tok,
    fill: [u8; 500],
    n: u32,
}
part!(Big, 1 << 32, |n| Big { n, t: Tok::new(), fill: [7; 500] }, |s| {
    s.t.touch();
    s.n
});
pub struct Boxed(Box<u32>);
part!(Boxed, 1 << 32, |n| Boxed(Box::new(n)), |s| *s.0);

type Map<K, V> = BTreeMap<K, V>;

/// The numbers present, as a bit set over 0..1024.
struct Have {
    n: i64,
    on: [bool; 1024],
}
static mut HAVE: Have = Have { n: 0, on: [false; 1024] };
fn have() -> &'static mut Have {
    unsafe { &mut *core::ptr::addr_of_mut!(HAVE) }
}
#[inline(never)]
fn put<K: Part, V: Part>(m: &mut Map<K, V>, k: u32, v: u32) {
    match m.try_insert(K::mk(k), V::mk(v)) {
        Ok(o) => drop(o),
        Err(_) => check(false, "an insertion succeeds while memory is available"),
    }
}
/// how: 0 ascending, 1 descending, 2 ascending and thinned (minimal nodes), 3 appended (full nodes), 4 shuffled
#[inline(never)]
fn build<K: Part, V: Part>(m: &mut Map<K, V>, n: u32, how: u32) {
    match how {
        0 => (0..n).for_each(|i| put(m, 2 * i + 1, i)),
        1 => (0..n).for_each(|i| put(m, 2 * (n - 1 - i) + 1, i)),
        2 => {
            (0..2 * n).for_each(|i| put(m, i, i));
            for i in 0..n {
                let k = K::mk(2 * i);
                drop(m.remove(&k));
            }
        }
        3 => {
            let mut o = Map::new();
            (0..n).for_each(|i| put(if i < n / 2 { &mut *m } else { &mut o }, 2 * i + 1, i));
            m.append(&mut o);
            drop(o);
        }
        _ => (0..n).for_each(|i| put(m, 2 * ((i * 7) % n) + 1, i)),
    }
}
#[inline(never)]
fn exact<K: Part, V: Part>(m: &Map<K, V>, more: i64) {
    check(objects() == K::COUNT * (2 * m.len() as i64 + more), "exactly the stored keys and values are alive");
}
#[inline(never)]
fn walk<K: Part, V: Part>(m: &Map<K, V>) {
    let mut n = 0;
    let mut last = 0;
    for (k, v) in m.iter() {
        let x = k.num();
        check(n == 0 || last < x, "iteration yields ascending keys");
        last = x;
        v.num();
        n += 1;
    }
    check(n == m.len(), "iteration yields as many entries as stored");
}

/// a number on, between, below or above the keys 1, 3, .. 2n-1
fn num<K: Part>(n: u32) -> u32 {
    if K::RANGE == 1 {
        return 0;
    }
    range(0, 2 * n as u64 + 1) as u32
}

#[inline(never)]
fn op<K: Part, V: Part>(m: &mut Map<K, V>, o: u64, n: u32) {
    let len = m.len();
    match o {
        0 => {
            let k = num::<K>(n);
            let v = num::<V>(100);
            match m.try_insert(K::mk(k), V::mk(v)) {
                Ok(Some(x)) => {
                    cover("insertion replaces");
                    x.num();
                    exact(m, 1);
                    check(m.len() == len, "replacing keeps the length");
                }
                Ok(None) => {
                    cover("insertion adds");
                    exact(m, 0);
                    check(m.len() == len + 1, "inserting adds one");
                }
                Err(_) => check(false, "an insertion succeeds while memory is available"),
            }
        }
        1 => {
            let k = K::mk(num::<K>(n));
            match m.remove(&k) {
                Some(x) => {
                    cover("removal hits");
                    x.num();
                    exact(m, 2);
                    check(m.len() + 1 == len, "removing takes one");
                }
                None => exact(m, 1),
            }
        }
        2 | 3 => match m.try_entry(K::mk(num::<K>(n))) {
            Err(_) => check(false, "no failure while memory is available"),
            Ok(Entry::Vacant(e)) => {
                if o == 2 {
                    check(e.try_insert(V::mk(3)).is_ok(), "no failure while memory is available");
                } else {
                    let k = e.into_key();
                    k.num();
                    exact(m, 1);
                }
            }
            Ok(Entry::Occupied(mut e)) => {
                cover("entry occupied");
                if o == 2 {
                    let old = e.insert(V::mk(4));
                    old.num();
                    drop(old);
                    *e.get_mut() = V::mk(5);
                } else {
                    let (k, v) = e.remove_entry();
                    k.num();
                    v.num();
                    exact(m, 2);
                }
            }
        },
        4 => {
            let k = K::mk(num::<K>(n));
            match m.split_off(&k) {
                Err(_) => check(false, "no failure while memory is available"),
                Ok(r) => {
                    drop(k);
                    check(m.len() + r.len() == len, "splitting loses and invents nothing");
                    exact(m, 2 * r.len() as i64);
                    walk(&r);
                    walk(m);
                    if choose(2) == 0 {
                        drop(r);
                    } else {
                        let l = core::mem::replace(m, r);
                        drop(l);
                    }
                }
            }
        }
        5 => {
            // appended tree overlapping in part
            let mut r = Map::new();
            let off = if K::RANGE > 1 { choose(4) as u32 * (n / 2) } else { 0 };
            (0..n / 2 + 2).for_each(|i| put(&mut r, off + 3 * i, i));
            if choose(2) == 0 {
                m.append(&mut r);
                check(r.len() == 0, "appending empties the other map");
                exact(m, 0);
            } else {
                r.append(m);
                check(m.len() == 0, "appending empties the other map");
                exact(&r, 0);
                *m = r;
            }
        }
        6 => {
            let c = m.try_clone();
            match c {
                Err(_) => check(false, "no failure while memory is available"),
                Ok(c) => {
                    exact(m, 2 * len as i64);
                    walk(&c);
                    if choose(2) == 0 {
                        *m = c;
                    }
                }
            }
        }
        7 => {
            let c = m.clone();
            exact(m, 2 * len as i64);
            walk(&c);
            drop(c);
        }
        8 => {
            m.clear();
            check(m.len() == 0, "clearing empties");
            check(objects() == 0, "clearing drops every entry");
            check(live() == 0, "clearing releases every node");
            put(m, 0, 9);
        }
        9 => {
            let k = K::mk(num::<K>(n));
            if let Some(v) = m.get_mut(&k) {
                cover("replaced through get_mut");
                *v = V::mk(8);
            }
            for v in m.values_mut() {
                *v = V::mk(1);
            }
            for (_, v) in m.iter_mut() {
                *v = V::mk(2);
            }
            drop(k);
            for (_, v) in m.range_mut(..) {
                *v = V::mk(6);
            }
        }
        _ => {}
    }
    exact(m, 0);
}

fn finish<K: Part, V: Part>(m: Map<K, V>) {
    walk(&m);
    drop(m);
    check(objects() == 0, "dropping the map drops every entry");
    check(live() == 0, "dropping the map releases every node");
    check(live_tokens() == 0, "every entry is dropped exactly once");
}

macro_rules! layouts {
    ($f:ident, $lay:expr, $($a:expr),*) => {
        match $lay {
            0 => $f::<B1, B1>($($a),*),
            1 => $f::<W2, Zs>($($a),*),
            2 => $f::<B1, A64>($($a),*),
            3 => $f::<A64, B1>($($a),*),
            4 => $f::<Id, Big>($($a),*),
            5 => $f::<Big, Z32>($($a),*),
            6 => $f::<Zs, Id>($($a),*),
            7 => $f::<Z32, Zs>($($a),*),
            8 => $f::<A16, W2>($($a),*),
            9 => $f::<Boxed, Boxed>($($a),*),
            11 => $f::<u32, u64>($($a),*),
            12 => $f::<u64, u8>($($a),*),
            _ => $f::<Id, Id>($($a),*),
        }
    };
}

#[inline(never)]
fn one<K: Part, V: Part>(n: u32, how: u32, a: u64, b: u64) {
    let mut m = Map::<K, V>::new();
    build(&mut m, n, how);
    exact(&m, 0);
    op(&mut m, a, n);
    if b < 10 {
        walk(&m);
        op(&mut m, b, n);
    }
    finish(m);
}
/// params: layout, n, how, operation, second operation (10: none)
#[no_mangle]
pub extern "C-unwind" fn c09_op() {
    let (n, how, a, b) = (param(1) as u32, param(2) as u32, param(3), param(4));
    layouts!(one, param(0), n, how, a, b);
}

#[inline(never)]
fn hist<K: Part, V: Part>(steps: u64, n: u32) {
    let mut m = Map::<K, V>::new();
    build(&mut m, n, 0);
    for _ in 0..steps {
        let o = choose(10);
        op(&mut m, o, 1);
    }
    finish(m);
}
/// params: layout, steps, n
#[no_mangle]
pub extern "C-unwind" fn c09_hist() {
    layouts!(hist, param(0), param(1), param(2) as u32);
}

#[inline(never)]
fn iter<K: Part, V: Part>(n: u32, how: u32, gap: u64) {
    let mut m = Map::<K, V>::new();
    build(&mut m, n, how);
    let len = m.len() as u64;
    let a = (choose(len / gap + 2) * gap).min(len);
    let b = (choose((len - a) / gap + 2) * gap).min(len - a);
    let mut it = m.into_iter();
    let alive = live();
    for i in 0..a {
        let (k, v) = it.next().unwrap();
        k.num();
        v.num();
        check(objects() == K::COUNT * 2 * (len - i) as i64, "a consumed entry is handed over, not dropped");
        drop(k);
        drop(v);
        check(objects() == K::COUNT * 2 * (len - i - 1) as i64, "a consumed entry leaves the collection");
    }
    for i in 0..b {
        let (k, v) = it.next_back().unwrap();
        check(objects() == K::COUNT * 2 * (len - a - i) as i64, "a consumed entry is handed over, not dropped");
        drop(v);
        drop(k);
    }
    check(live() <= alive, "consuming allocates nothing");
    if a + b == len && choose(2) == 0 {
        check(it.next().is_none() && it.next_back().is_none(), "nothing is left");
        cover("consumed entirely");
    }
    drop(it);
    check(objects() == 0, "dropping the iterator drops the rest");
    check(live() == 0, "dropping the iterator releases every node");
    check(live_tokens() == 0, "every entry is dropped exactly once");
}
/// params: layout, n, how, gap
#[no_mangle]
pub extern "C-unwind" fn c09_iter() {
    layouts!(iter, param(0), param(1) as u32, param(2) as u32, param(3));
}

#[inline(never)]
fn set1<K: Part, V: Part>(n: u32, o: u64) {
    let mut s = BTreeSet::<K>::new();
    for i in 0..n {
        check(s.try_insert(K::mk((2 * i + 1) % K::RANGE.min(1 << 20) as u32)).is_ok(), "no failure");
        check(objects() == K::COUNT * s.len() as i64, "exactly the stored elements are alive");
    }
    let len = s.len();
    let k = K::mk(num::<K>(n));
    match o {
        0 => {
            check(s.try_insert(k).is_ok(), "no failure");
        }
        1 => {
            check(s.remove(&k) == (s.len() < len), "removing reports what it did");
            drop(k);
        }
        2 => {
            let r = s.take(&k);
            check(objects() == K::COUNT * (len + 1) as i64, "taking hands the element over");
            if r.is_some() {
                cover("element taken")
            }
            drop(r);
            drop(k);
        }
        3 => {
            let r = s.replace(k).unwrap_or(None);
            check(objects() == K::COUNT * (s.len() as i64 + r.is_some() as i64), "replacing hands the old element over");
            drop(r);
        }
        4 => {
            let r = s.try_split_off(&k);
            drop(k);
            match r {
                Ok(r) => {
                    check(objects() == K::COUNT * (s.len() + r.len()) as i64, "exactly the stored elements are alive");
                    if choose(2) == 0 {
                        s = r;
                    }
                }
                Err(_) => check(false, "no failure"),
            }
        }
        5 => {
            drop(k);
            let mut r = BTreeSet::new();
            for i in 0..n / 2 {
                check(r.try_insert(K::mk((3 * i + 1) % K::RANGE.min(1 << 20) as u32)).is_ok(), "no failure");
            }
            s.append(&mut r);
            check(r.len() == 0, "appending empties the other set");
        }
        6 => {
            drop(k);
            let a = choose(len as u64 + 1);
            let mut it = s.into_iter();
            let from = choose(3);
            for i in 0..a {
                drop(if from == 0 || from == 1 && i % 2 == 0 { it.next() } else { it.next_back() });
            }
            check(objects() == K::COUNT * (len as i64 - a as i64), "consumed elements leave the set");
            drop(it);
            check(objects() == 0, "dropping the iterator drops the rest");
            s = BTreeSet::new();
        }
        7 => {
            drop(k);
            let c = s.clone();
            check(objects() == K::COUNT * 2 * len as i64, "a copy has its own elements");
            drop(c);
        }
        _ => {
            drop(k);
            s.clear();
            check(live() == 0, "clearing releases every node");
        }
    }
    check(objects() == K::COUNT * s.len() as i64, "exactly the stored elements are alive");
    drop(s);
    check(objects() == 0, "dropping the set drops every element");
    check(live() == 0, "dropping the set releases every node");
    check(live_tokens() == 0, "every element is dropped exactly once");
}
/// params: layout, n, operation
#[no_mangle]
pub extern "C-unwind" fn c09_set() {
    layouts!(set1, param(0), param(1) as u32, param(2));
}

#[inline(never)]
fn empty<K: Part, V: Part>() {
    let mut m = Map::<K, V>::new();
    check(live() == 0, "an empty map holds no memory");
    let k = K::mk(0);
    check(m.get(&k).is_none() && m.iter().next().is_none() && m.range(..).next().is_none(), "an empty map has no entry");
    check(m.remove(&k).is_none(), "an empty map has no entry");
    drop(m.try_clone());
    drop(m.clone());
    m.clear();
    drop(m.split_off(&k));
    let mut o = Map::new();
    m.append(&mut o);
    drop(k);
    check(live() == 0, "an unfilled map holds no memory");
    check(objects() == 0, "nothing was created");
    drop(m.into_iter());
    drop(o);
    check(live() == 0, "an unfilled map holds no memory");
    let s: BTreeSet<K> = BTreeSet::default();
    drop(s);
}
/// params: layout
#[no_mangle]
pub extern "C-unwind" fn c09_empty() {
    layouts!(empty, param(0),);
}

#[inline(never)]
fn drain<K: Part, V: Part>(n: u32, how: u32, order: u32, gap: u32) {
    let mut m = Map::<K, V>::new();
    build(&mut m, n, how);
    let len = m.len() as u32;
    let mut keys = [0u32; 1024];
    let mut c = 0;
    for (k, _) in m.iter() {
        keys[c] = k.num();
        c += 1;
    }
    let at = choose(len as u64 / gap as u64 + 2) as u32 * gap;
    let mut i = 0;
    while i < len {
        let j = match order {
            0 => i,
            1 => len - 1 - i,
            2 => {
                if i % 2 == 0 {
                    i / 2
                } else {
                    len - 1 - i / 2
                }
            }
            _ => {
                // every fourth first
                let q = (len + 3) / 4;
                let mut t = i;
                let mut r = 0;
                while r < 4 {
                    let have = (len - r + 3) / 4;
                    if t < have {
                        break;
                    }
                    t -= have;
                    r += 1;
                }
                let _ = q;
                4 * t + r
            }
        };
        let k = K::mk(keys[j as usize]);
        let b = live();
        check(m.remove(&k).is_some(), "a stored key is removed");
        check(live() <= b, "a removal allocates nothing");
        drop(k);
        i += 1;
        if i == at {
            exact(&m, 0);
            match choose(3) {
                0 => {
                    let o = choose(2);
                    let mut it = m.into_iter();
                    if o == 0 {
                        drop(it.next());
                    } else {
                        drop(it.next_back());
                    }
                    drop(it);
                    m = Map::new();
                }
                1 => {
                    m.clear();
                    check(live() == 0, "clearing releases every node");
                }
                _ => {
                    cover("dropped in the middle");
                    finish(m);
                    return;
                }
            }
            check(objects() == 0, "clearing drops every entry");
            break;
        }
    }
    finish(m);
}
/// Removing entries one by one, then dropping what is left. params: layout, n, how, order, gap
#[no_mangle]
pub extern "C-unwind" fn c09_drain() {
    layouts!(drain, param(0), param(1) as u32, param(2) as u32, param(3) as u32, param(4) as u32);
}
