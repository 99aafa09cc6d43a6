//! Keys, values and a plain model for the hash map.
#![allow(dead_code)]
use super::vcommon::oom;
use crate::vf::*;
use core::borrow::Borrow;
use core::hash::{Hash, Hasher};
use fallible_collections::*;

static mut SEED: u64 = 1;
/// Choose the hash seeds of the maps made from now on (once per run).
pub fn seed(n: u64) {
    unsafe { SEED = n.wrapping_mul(0x9e3779b97f4a7c15) | 1 }
}
/// The system's random numbers are replaced, so that a run can be repeated.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = SEED;
    for i in 0..len {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *buf.add(i) = (s >> 33) as u8;
    }
    len as isize
}

/// What keys are looked up by: its class decides the hash, so that any keys of one class collide.
#[derive(Clone, Copy)]
pub struct Q {
    pub class: u32,
    pub n: u32,
}
impl PartialEq for Q {
    #[inline(never)]
    fn eq(&self, o: &Q) -> bool {
        is((self.class == o.class) & (self.n == o.n))
    }
}
impl Eq for Q {}
impl Hash for Q {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.class.hash(h)
    }
}
/// A key with an identity.
pub struct K {
    pub q: Q,
    pub t: Tok,
}
impl K {
    pub fn new(q: Q) -> K {
        K { q, t: Tok::new() }
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.t.touch();
        o.t.touch();
        self.q == o.q
    }
}
impl Eq for K {}
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.t.touch();
        self.q.hash(h)
    }
}
impl Borrow<Q> for K {
    fn borrow(&self) -> &Q {
        self.t.touch();
        &self.q
    }
}
pub struct Val {
    pub n: u32,
    pub pad: [u32; 3],
    pub t: Tok,
}
impl Val {
    pub fn new(n: u32) -> Val {
        Val { n, pad: [n, !n, 5], t: Tok::new() }
    }
    pub fn get(&self) -> u32 {
        self.t.touch();
        check((self.pad[0] == self.n) & (self.pad[1] == !self.n) & (self.pad[2] == 5), "a value is whole");
        self.n
    }
}
impl TryClone for K {
    #[inline(never)]
    fn try_clone(&self) -> Result<K, TryReserveError> {
        self.t.touch();
        if !clone_step() {
            return Err(oom());
        }
        Ok(K::new(self.q))
    }
}
impl TryClone for Val {
    #[inline(never)]
    fn try_clone(&self) -> Result<Val, TryReserveError> {
        let n = self.get();
        if !clone_step() {
            return Err(oom());
        }
        Ok(Val::new(n))
    }
}

/// One entry of the model, with the identities of the key and the value (u32::MAX: any).
#[derive(Clone, Copy)]
pub struct M {
    pub q: Q,
    pub v: u32,
    pub kt: u32,
    pub vt: u32,
}
pub type Map = TryHashMap<K, Val>;
pub fn find(m: &[M], q: Q) -> Option<usize> {
    for i in 0..m.len() {
        if m[i].q == q {
            return Some(i);
        }
    }
    None
}
/// The map holds exactly the model's entries, by every means of looking.
#[inline(never)]
pub fn agrees(map: &Map, m: &[M]) {
    check(map.len() == m.len(), "the number of entries is right");
    for e in m {
        match map.get(&e.q) {
            Some(v) => {
                check(v.get() == e.v, "a lookup finds the value last inserted");
                check((e.vt == u32::MAX) | (v.t.0 == e.vt), "a lookup finds the value itself");
            }
            None => check(false, "a lookup finds every key that is there"),
        }
    }
    let mut n = 0;
    let mut seen = [false; 512];
    for (k, v) in map.iter() {
        n += 1;
        match find(m, k.q) {
            Some(i) => {
                check(!seen[i], "iteration yields each entry once");
                seen[i] = true;
                check(v.get() == m[i].v, "iteration yields each key with its value");
                k.t.touch();
                check((m[i].kt == u32::MAX) | (k.t.0 == m[i].kt), "the key stored first stays");
            }
            None => check(false, "iteration yields only entries that are there"),
        }
    }
    check(n == m.len(), "iteration yields every entry");
}
/// Map of `n` entries whose keys are pairwise different, numbers from `base`; then `gone` of them removed again.
#[inline(never)]
pub fn filled(n: usize, classes: u32, base: u32, gone: usize) -> (Map, Vec<M>) {
    seed(n as u64 * 31 + classes as u64 * 7 + gone as u64);
    let mut map = Map::default();
    let mut m = Vec::with_capacity(n + 8);
    for i in 0..n {
        let q = Q { class: i as u32 % classes, n: base.wrapping_add(i as u32 * 2) };
        let (k, v) = (K::new(q), Val::new(1000 + i as u32));
        m.push(M { q, v: 1000 + i as u32, kt: k.t.0, vt: v.t.0 });
        check(matches!(map.insert(k, v), Ok(None)), "inserting a new key finds nothing there");
    }
    for i in 0..gone {
        let j = if gone == n { 0 } else { (i * 7 + 1) % m.len() };
        let e = m.remove(j);
        check(map.remove(&e.q).is_some(), "removing a key that is there yields its value");
    }
    (map, m)
}
