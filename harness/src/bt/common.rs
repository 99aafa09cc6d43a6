//! Types and builders shared by the B-tree harnesses.
#![allow(dead_code)]
use crate::vf::*;
use core::cmp::Ordering;
use fallible_collections::btree::{BTreeMap, BTreeSet};

/// Key with a (possibly symbolic) number and an identity.
pub struct K {
    pub k: u32,
    pub t: Tok,
}
pub fn key(k: u32) -> K {
    K { k, t: Tok::new() }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        count_cmp();
        self.t.touch();
        o.t.touch();
        self.k == o.k
    }
}
impl Eq for K {}
impl core::hash::Hash for K {
    fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
        self.t.touch();
        h.write_u32(self.k)
    }
}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    #[inline(never)]
    fn cmp(&self, o: &K) -> Ordering {
        count_cmp();
        self.t.touch();
        o.t.touch();
        if self.k < o.k {
            Ordering::Less
        } else if self.k == o.k {
            Ordering::Equal
        } else {
            Ordering::Greater
        }
    }
}
/// Lookup form of a key (borrowed from `K`).
#[repr(transparent)]
pub struct Q(pub u32);
impl core::borrow::Borrow<Q> for K {
    fn borrow(&self) -> &Q {
        self.t.touch();
        unsafe { &*(&self.k as *const u32 as *const Q) }
    }
}
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        count_cmp();
        self.0 == o.0
    }
}
impl Eq for Q {}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Q {
    #[inline(never)]
    fn cmp(&self, o: &Q) -> Ordering {
        count_cmp();
        if self.0 < o.0 {
            Ordering::Less
        } else if self.0 == o.0 {
            Ordering::Equal
        } else {
            Ordering::Greater
        }
    }
}
/// Values are larger than keys (and, in sets, keys larger than values).
pub struct Val {
    pub v: u32,
    pub t: Tok,
    pub w: u32,
}
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        self.t.touch();
        o.t.touch();
        self.v == o.v
    }
}
impl Eq for Val {}
impl PartialOrd for Val {
    fn partial_cmp(&self, o: &Val) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Val {
    fn cmp(&self, o: &Val) -> Ordering {
        self.t.touch();
        o.t.touch();
        self.v.cmp(&o.v)
    }
}
impl core::hash::Hash for Val {
    fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
        self.t.touch();
        h.write_u32(self.v)
    }
}
pub fn val(v: u32) -> Val {
    Val { v, t: Tok::new(), w: 0x5a5a }
}

#[inline(never)]
fn oom() -> fallible_collections::TryReserveError {
    // an error value made without allocating
    Vec::<u64>::new().try_reserve(usize::MAX).unwrap_err()
}
impl fallible_collections::TryClone for K {
    #[inline(never)]
    fn try_clone(&self) -> Result<K, fallible_collections::TryReserveError> {
        self.t.touch();
        if !clone_step() {
            return Err(oom());
        }
        Ok(key(self.k))
    }
}
impl fallible_collections::TryClone for Val {
    #[inline(never)]
    fn try_clone(&self) -> Result<Val, fallible_collections::TryReserveError> {
        self.t.touch();
        if !clone_step() {
            return Err(oom());
        }
        Ok(val(self.v))
    }
}
impl Default for Val {
    fn default() -> Val {
        val(0)
    }
}
/// For every key made by `clone`, the key it was copied from.
static mut ORIGIN: [u32; NTOK] = [0; NTOK];
pub fn origin(k: &K) -> u32 {
    k.t.touch();
    unsafe { ORIGIN[k.t.0 as usize] }
}
impl Clone for K {
    #[inline(never)]
    fn clone(&self) -> K {
        self.t.touch();
        clone_step();
        let c = key(self.k);
        unsafe { ORIGIN[c.t.0 as usize] = self.t.0 };
        c
    }
}
impl Clone for Val {
    #[inline(never)]
    fn clone(&self) -> Val {
        self.t.touch();
        clone_step();
        val(self.v)
    }
}

pub type Map = BTreeMap<K, Val>;

pub const CAP: usize = 2048;
/// Reference model: a sorted array of (key, value) pairs.
pub struct Model {
    pub n: usize,
    pub k: [u32; CAP],
    pub v: [u32; CAP],
    /// identity of the stored key
    pub id: [u32; CAP],
}
static mut MODELS: [Model; 3] = [const { Model { n: 0, k: [0; CAP], v: [0; CAP], id: [0; CAP] } }; 3];
pub fn model(i: usize) -> &'static mut Model {
    unsafe { &mut MODELS[i] }
}
unsafe fn shift(p: *mut u32, by: isize, n: usize) {
    core::ptr::copy(p, p.offset(by), n);
}
impl Model {
    /// position of the first key >= k, and whether it is k
    #[inline(never)]
    pub fn find(&self, k: u32) -> (usize, bool) {
        let (mut lo, mut hi) = (0, self.n);
        while lo < hi {
            let m = (lo + hi) / 2;
            if is(self.k[m] < k) {
                lo = m + 1;
            } else {
                hi = m;
            }
        }
        (lo, lo < self.n && is(self.k[lo] == k))
    }
    #[inline(never)]
    pub fn put(&mut self, k: u32, v: u32, id: u32) -> Option<u32> {
        let (i, f) = self.find(k);
        if f {
            let o = self.v[i];
            self.v[i] = v;
            return Some(o);
        }
        self.put_at(i, k, v, id);
        None
    }
    #[inline(never)]
    pub fn put_at(&mut self, i: usize, k: u32, v: u32, id: u32) {
        check(i <= self.n && self.n < CAP, "harness: the model is full");
        let c = self.n - i;
        unsafe {
            shift(self.k.as_mut_ptr().add(i), 1, c);
            shift(self.v.as_mut_ptr().add(i), 1, c);
            shift(self.id.as_mut_ptr().add(i), 1, c);
        }
        self.k[i] = k;
        self.v[i] = v;
        self.id[i] = id;
        self.n += 1;
    }
    #[inline(never)]
    pub fn del(&mut self, k: u32) -> Option<u32> {
        let (i, f) = self.find(k);
        if !f {
            return None;
        }
        let o = self.v[i];
        let c = self.n - i - 1;
        unsafe {
            shift(self.k.as_mut_ptr().add(i + 1), -1, c);
            shift(self.v.as_mut_ptr().add(i + 1), -1, c);
            shift(self.id.as_mut_ptr().add(i + 1), -1, c);
        }
        self.n -= 1;
        Some(o)
    }
    pub fn clear(&mut self) {
        self.n = 0;
    }
}

fn lcg(x: &mut u64) -> u64 {
    *x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    *x >> 33
}

/// Keys are multiples of `STEP`, so that symbolic keys also fall strictly between them.
pub const STEP: u32 = 10;

/// Build a tree of about `n` entries through the public interface. `how` picks the insertion order:
/// 0 ascending, 1 descending, 2 pseudo-random, 3 ascending then thinned by removals (minimal nodes), 6 bulk (full nodes), 7 bulk then churned,
/// 4 random then random removals, 5 middle-out.
#[inline(never)]
pub fn build(map: &mut Map, m: &mut Model, n: u32, how: u32, seed: u32) {
    let mut rng = seed as u64 * 77 + 12345;
    match how {
        0 => {
            for i in 0..n {
                ins(map, m, (i + 1) * STEP, i);
            }
        }
        1 => {
            for i in 0..n {
                ins(map, m, (n - i) * STEP, i);
            }
        }
        2 => {
            let mut i = 0;
            while (m.n as u32) < n {
                ins(map, m, (1 + (lcg(&mut rng) as u32) % (n * 2)) * STEP, i);
                i += 1;
            }
        }
        3 => {
            let tot = n * 2;
            for i in 0..tot {
                ins(map, m, (i + 1) * STEP, i);
            }
            let mut i = 0;
            while m.n as u32 > n && i < tot {
                rem(map, m, (i + 1) * STEP);
                i += 2;
            }
        }
        4 => {
            let tot = n + n / 2;
            let mut i = 0;
            while (m.n as u32) < tot {
                ins(map, m, (1 + (lcg(&mut rng) as u32) % (tot * 2)) * STEP, i);
                i += 1;
            }
            while (m.n as u32) > n {
                let j = lcg(&mut rng) as usize % m.n;
                let k = m.k[j];
                rem(map, m, k);
            }
        }
        6 | 7 => {
            // bulk building leaves full nodes everywhere but on the right border
            let h = n / 2;
            let mut o = Map::new();
            for i in 0..n {
                ins(if i < h { &mut *map } else { &mut o }, m, (i + 1) * STEP, i);
            }
            map.append(&mut o);
            if how == 7 {
                for i in 0..n / 20 + 1 {
                    let j = lcg(&mut rng) as usize % m.n;
                    let k = m.k[j];
                    rem(map, m, k);
                    ins(map, m, n * STEP + 10 * i, i);
                }
            }
        }
        8 | 9 => {
            // pseudo-random, then drained from one end: full nodes next to minimal ones on every level
            let tot = n * 3;
            let mut i = 0;
            while (m.n as u32) < tot {
                ins(map, m, (1 + (lcg(&mut rng) as u32) % (tot * 2)) * STEP, i);
                i += 1;
            }
            while m.n as u32 > n {
                let k = m.k[if how == 8 { 0 } else { m.n - 1 }];
                rem(map, m, k);
            }
        }
        _ => {
            for i in 0..n {
                let k = if i % 2 == 0 { n / 2 + i / 2 } else { n / 2 - 1 - i / 2 };
                ins(map, m, (k + 1) * STEP, i);
            }
        }
    }
}
#[inline(never)]
pub fn ins(map: &mut Map, m: &mut Model, k: u32, v: u32) {
    let kk = key(k);
    let id = kk.t.0;
    let a = map.try_insert(kk, val(v));
    let b = m.put(k, v, id);
    match (a, b) {
        (Ok(Some(x)), Some(y)) => check(x.v == y, "an insertion over a present key returns the old value"),
        (Ok(None), None) => {}
        (Err(_), _) => check(false, "an insertion succeeds while memory is available"),
        _ => check(false, "an insertion returns the previous value exactly if the key was present"),
    }
}
#[inline(never)]
pub fn rem(map: &mut Map, m: &mut Model, k: u32) {
    let a = map.remove(&Q(k));
    let b = m.del(k);
    match (a, b) {
        (Some(x), Some(y)) => check(x.v == y, "a removal returns the stored value"),
        (None, None) => {}
        _ => check(false, "a removal returns a value exactly if the key was present"),
    }
}

/// The map must be exactly the model.
#[inline(never)]
pub fn same(map: &Map, m: &Model) {
    check(map.len() == m.n, "the length equals the number of entries");
    check(map.is_empty() == (m.n == 0), "is_empty agrees with the length");
    let mut i = 0;
    for (k, v) in map.iter() {
        check(i < m.n, "iteration yields no more entries than expected");
        k.t.touch();
        v.t.touch();
        check(k.t.0 == m.id[i], "the stored key is the one first inserted");
        check(k.k == m.k[i], "iteration yields the expected keys in ascending order");
        check(v.v == m.v[i], "iteration yields the value stored for each key");
        i += 1;
    }
    check(i == m.n, "iteration yields every entry");
}
/// ... and every stored key must be found by lookup.
#[inline(never)]
pub fn same_lookup(map: &Map, m: &Model) {
    for i in 0..m.n {
        match map.get(&Q(m.k[i])) {
            Some(v) => check(v.v == m.v[i], "lookup returns the stored value"),
            None => check(false, "lookup finds every stored key"),
        }
    }
}
/// A key anywhere below, between and above the stored keys. With params 10 and 11: one near the param(10)-th entry, in a window of param(11) entries.
pub fn any_key(m: &Model) -> u32 {
    let top = if m.n == 0 { 0 } else { m.k[m.n - 1] as u64 };
    let w = param(11) as usize;
    if w > 0 && m.n > w {
        let a = (param(10) as usize).min(m.n - w);
        return range(m.k[a] as u64 - 1, m.k[a + w - 1] as u64 + 1) as u32;
    }
    range(0, top + STEP as u64 + 5) as u32
}
pub fn fin() {
    check(live_tokens() == 0, "every key and value is dropped exactly once");
}

pub type Set = BTreeSet<K>;

#[inline(never)]
pub fn sins(s: &mut Set, m: &mut Model, k: u32) {
    let kk = key(k);
    let id = kk.t.0;
    let (i, f) = m.find(k);
    match s.try_insert(kk) {
        Ok(b) => check(b == !f, "inserting reports whether the set changed"),
        Err(_) => check(false, "an insertion succeeds while memory is available"),
    }
    if !f {
        m.put_at(i, k, 0, id);
    }
}
#[inline(never)]
pub fn srem(s: &mut Set, m: &mut Model, k: u32) {
    let f = s.remove(&Q(k));
    check(f == m.del(k).is_some(), "removing reports whether the element was present");
}
/// As `build`, for sets.
#[inline(never)]
pub fn build_set(s: &mut Set, m: &mut Model, n: u32, how: u32, seed: u32) {
    let mut rng = seed as u64 * 77 + 12345;
    match how {
        0 => {
            for i in 0..n {
                sins(s, m, (i + 1) * STEP);
            }
        }
        1 => {
            for i in 0..n {
                sins(s, m, (n - i) * STEP);
            }
        }
        2 => {
            while (m.n as u32) < n {
                sins(s, m, (1 + (lcg(&mut rng) as u32) % (n * 2)) * STEP);
            }
        }
        3 => {
            let tot = n * 2;
            for i in 0..tot {
                sins(s, m, (i + 1) * STEP);
            }
            let mut i = 0;
            while m.n as u32 > n && i < tot {
                srem(s, m, (i + 1) * STEP);
                i += 2;
            }
        }
        _ => {
            let tot = n + n / 2;
            while (m.n as u32) < tot {
                sins(s, m, (1 + (lcg(&mut rng) as u32) % (tot * 2)) * STEP);
            }
            while (m.n as u32) > n {
                let j = lcg(&mut rng) as usize % m.n;
                let k = m.k[j];
                srem(s, m, k);
            }
        }
    }
}
/// The set must be exactly the model.
#[inline(never)]
pub fn same_set(s: &Set, m: &Model) {
    check(s.len() == m.n, "the set's length is the number of its elements");
    check(s.is_empty() == (m.n == 0), "is_empty agrees with the set's length");
    let mut i = 0;
    for k in s.iter() {
        check(i < m.n, "set iteration yields no more elements than expected");
        k.t.touch();
        check(k.t.0 == m.id[i] && k.k == m.k[i], "the set yields the expected elements in ascending order");
        i += 1;
    }
    check(i == m.n, "set iteration yields every element");
}

/// Drains what is left (entries lo..hi) by `dir`: 0 front, 1 back, 2 alternating.
#[inline(never)]
pub fn drain<T, I: DoubleEndedIterator<Item = T>>(it: &mut I, lo: usize, hi: usize, dir: u64, at: &mut dyn FnMut(T, usize)) {
    let (mut lo, mut hi) = (lo, hi);
    let mut i = 0;
    while lo < hi {
        let back = if dir == 2 { i % 2 == 1 } else { dir == 1 };
        i += 1;
        match if back { it.next_back() } else { it.next() } {
            None => {
                check(false, "an iterator yields every remaining entry");
                return;
            }
            Some(x) => {
                if back {
                    hi -= 1;
                    at(x, hi);
                } else {
                    at(x, lo);
                    lo += 1;
                }
            }
        }
    }
    check(it.next().is_none() & it.next_back().is_none(), "nothing is yielded after exhaustion");
    check(it.size_hint().0 == 0, "an exhausted iterator has no entries left");
    cover("drained");
}

/// Provided and overridable methods, on an iterator with entries lo..hi left.
#[inline(never)]
pub fn method<T: Ord, I: DoubleEndedIterator<Item = T>>(mut it: I, lo: usize, hi: usize, what: u64, at: &mut dyn FnMut(T, usize)) {
    let left = hi - lo;
    match what {
        0 | 1 => {
            // skip to any position, including beyond the end
            let j = any_count(left as u64 + 2) as usize;
            let x = if what == 0 { it.nth(j) } else { it.nth_back(j) };
            check(x.is_some() == (j < left), "nth yields an entry exactly when there is one");
            if let Some(x) = x {
                if j >= left {
                    return;
                }
                let i = if what == 0 { lo + j } else { hi - 1 - j };
                at(x, i);
                if what == 0 {
                    drain(&mut it, i + 1, hi, j as u64 % 3, at);
                } else {
                    drain(&mut it, lo, i, j as u64 % 3, at);
                }
            } else {
                check(it.next().is_none() & it.next_back().is_none(), "nth beyond the end exhausts the iterator");
                cover("nth beyond the end");
            }
        }
        2 => {
            let x = it.last();
            check(x.is_some() == (left > 0), "last yields an entry exactly when there is one");
            if let (Some(x), true) = (x, left > 0) {
                at(x, hi - 1);
            }
        }
        3 => check(it.count() == left, "count counts the remaining entries"),
        4 => {
            let mut i = lo;
            it.for_each(|x| {
                check(i < hi, "internal iteration yields nothing beyond the end");
                if i < hi {
                    at(x, i);
                }
                i += 1;
            });
            check(i == hi, "internal iteration yields every remaining entry");
        }
        5 => {
            let mut i = hi;
            it.rfold((), |_, x| {
                check(i > lo, "internal iteration yields nothing beyond the start");
                if i > lo {
                    i -= 1;
                    at(x, i);
                }
            });
            check(i == lo, "internal iteration from the back yields every remaining entry");
        }
        6 => {
            // stopping an internal iteration anywhere, then going on
            let stop = any_count(left as u64) as usize;
            let mut i = lo;
            let r = it.try_fold((), |_, x| {
                if i >= hi {
                    check(false, "internal iteration yields nothing beyond the end");
                    return Err(());
                }
                at(x, i);
                i += 1;
                if i == lo + stop + 1 { Err(()) } else { Ok(()) }
            });
            check(r.is_err() == (stop < left), "internal iteration stops where told");
            check(i == lo + (stop + 1).min(left), "internal iteration visits every entry up to its stop");
            drain(&mut it, i, hi, 2, at);
        }
        7 => {
            let mut i = hi;
            let stop = any_count(left as u64) as usize;
            let mut seen = 0;
            let p = it.rfind(|_| {
                seen += 1;
                seen == stop + 1
            });
            check(p.is_some() == (stop < left), "rfind stops where told");
            if let (Some(x), true) = (p, stop < left) {
                i = hi - 1 - stop;
                at(x, i);
                drain(&mut it, lo, i, 0, at);
            }
            let _ = i;
        }
        8 => {
            // by reference through adapters
            let k = any_count(left as u64) as usize;
            let mut i = lo;
            for x in it.by_ref().take(k) {
                at(x, i);
                i += 1;
            }
            check(i == lo + k, "a limited loop yields as many entries as asked");
            let mut j = hi;
            let mut r = it.rev().fuse();
            while let Some(x) = r.next() {
                check(j > i, "a reversed iterator yields nothing beyond the start");
                if j <= i {
                    return;
                }
                j -= 1;
                at(x, j);
            }
            check(j == i, "a reversed iterator yields every remaining entry");
            check(r.next().is_none(), "a fused iterator stays exhausted");
        }
        9 | 10 => {
            // (not for value iterators, whose items are in no order)
            let x = if what == 9 { it.min() } else { it.max() };
            check(x.is_some() == (left > 0), "least and greatest exist exactly when an entry is left");
            if let (Some(x), true) = (x, left > 0) {
                at(x, if what == 9 { lo } else { hi - 1 });
            }
        }
        _ => {
            // every second entry
            let mut i = lo;
            for x in it.step_by(2) {
                check(i < hi, "a stepping iterator yields nothing beyond the end");
                if i >= hi {
                    return;
                }
                at(x, i);
                i += 2;
            }
            check(i >= hi, "a stepping iterator yields every second entry");
        }
    }
}

pub fn ends(n: usize, gap: u64) -> (usize, usize) {
    let n = n as u64;
    let a = any_count(n / gap) * gap;
    let b = any_count((n - a) / gap) * gap;
    (a as usize, b as usize)
}
pub fn advance<I: DoubleEndedIterator>(it: &mut I, a: usize, b: usize) {
    for _ in 0..a {
        let _ = it.next();
    }
    for _ in 0..b {
        let _ = it.next_back();
    }
}
