//! Debugging output.
use super::common::*;
use crate::entries;
use crate::vf::*;
use core::fmt::{self, Debug, Write};
use fallible_collections::btree::{BTreeMap, BTreeSet};

entries!(c26_map, c26_iter, c26_set, c26_entry, c26_algebra);

const LOG: usize = 8192;
struct Log {
    n: usize,
    id: [u32; LOG],
}
static mut SEEN: Log = Log { n: 0, id: [0; LOG] };
fn log(t: &Tok) {
    t.touch();
    unsafe {
        if SEEN.n < LOG {
            SEEN.id[SEEN.n] = t.0;
        }
        SEEN.n += 1;
    }
}
impl Debug for K {
    #[inline(never)]
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        log(&self.t);
        f.write_str("k")
    }
}
impl Debug for Val {
    #[inline(never)]
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        log(&self.t);
        f.write_str("v")
    }
}
/// Where the text goes. Writing may fail at some point.
struct Sink {
    n: usize,
    text: [u8; LOG],
    /// writes left until one fails
    left: u64,
}
static mut SINK: Sink = Sink { n: 0, text: [0; LOG], left: u64::MAX };
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.left == 0 {
            return Err(fmt::Error);
        }
        self.left -= 1;
        for b in s.as_bytes() {
            if self.n < LOG {
                self.text[self.n] = *b;
            }
            self.n += 1;
        }
        Ok(())
    }
}
/// the alternate notation, with line breaks
static mut PRETTY: bool = false;
/// Formats x; `fail`: at most that many pieces can be written.
#[inline(never)]
fn show(x: &dyn Debug, fail: u64) -> bool {
    let s = unsafe { &mut *core::ptr::addr_of_mut!(SINK) };
    s.n = 0;
    s.left = fail;
    unsafe { SEEN.n = 0 };
    let a = allocs();
    let mut r = Ok(());
    let p = panics(|| r = if unsafe { PRETTY } { write!(s, "{:#?}", x) } else { write!(s, "{:?}", x) });
    check(!p, "debugging output does not panic");
    check(allocs() == a, "debugging output allocates nothing");
    r.is_ok()
}
fn text() -> &'static [u8] {
    unsafe { &SINK.text[..SINK.n.min(LOG)] }
}
/// The ids written are exactly key and value (as asked for) of the entries lo..hi, in order.
#[inline(never)]
fn listed(m: &Model, lo: usize, hi: usize, keys: bool, vals: &[u32]) {
    let per = keys as usize + !vals.is_empty() as usize;
    let l = unsafe { &*core::ptr::addr_of!(SEEN) };
    check(l.n == (hi - lo) * per, "exactly the entries left are written");
    if l.n != (hi - lo) * per {
        return;
    }
    let mut j = 0;
    for i in lo..hi {
        if keys {
            check(l.id[j] == m.id[i], "the entries are written in order");
            j += 1;
        }
        if !vals.is_empty() {
            check(l.id[j] == vals[i], "every key is written with its value");
            j += 1;
        }
    }
}
/// The text is open, n times item separated by ", ", close; or the same in the alternate notation.
#[inline(never)]
fn is_text(open: &str, item: &str, n: usize, close: &str) {
    let t = text();
    let mut at = 0;
    let mut ok = true;
    let mut eat = |s: &str| {
        let s = s.as_bytes();
        if at + s.len() > t.len() || &t[at..at + s.len()] != s {
            ok = false;
        }
        at += s.len();
    };
    eat(open);
    if unsafe { PRETTY } {
        if n > 0 {
            eat("\n");
        }
        for _ in 0..n {
            eat("    ");
            eat(if item == "(k, v)" { "(\n        k,\n        v,\n    )" } else { item });
            eat(",\n");
        }
        cover("alternate notation");
    } else {
        for i in 0..n {
            if i > 0 {
                eat(", ");
            }
            eat(item);
        }
    }
    eat(close);
    check(ok & (at == t.len()), "the text has the usual notation");
}
static mut VALS: [u32; 2048] = [0; 2048];
/// the identities of the values, in order
fn vals(map: &Map) -> &'static [u32] {
    let v = unsafe { &mut *core::ptr::addr_of_mut!(VALS) };
    let mut n = 0;
    for (_, x) in map {
        v[n] = x.t.0;
        n += 1;
    }
    // (never empty, so that "no values" can be told from "no entries")
    &v[..n.max(1)]
}
const ALL: u64 = u64::MAX;

/// A whole map, written to a sink that may fail. params: n, how, seed, failing writes
#[no_mangle]
pub extern "C-unwind" fn c26_map() {
    let (n, how, seed, fails) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3));
    let mut map = Map::new();
    let m = model(0);
    build(&mut map, m, n, how, seed);
    // any one operation first
    let k = any_key(m);
    if is(any_bool()) {
        ins(&mut map, m, k, 5);
    } else {
        rem(&mut map, m, k);
    }
    let v = vals(&map);
    if fails > 0 {
        let at = any_count(fails);
        if !show(&map, at) {
            cover("a write failed");
            check(unsafe { SEEN.n } <= 2 * m.n, "nothing is written twice");
        }
        same(&map, m);
    }
    for pretty in [false, true] {
        unsafe { PRETTY = pretty };
        check(show(&map, ALL), "debugging output succeeds");
        listed(m, 0, m.n, true, v);
        is_text("{", "k: v", m.n, "}");
    }
    unsafe { PRETTY = false };
    obs(m.n as u64);
    same(&map, m);
    drop(map);
    fin();
}

/// Iterators after any number of front and back steps. params: n, how, seed, kind, gap
#[no_mangle]
pub extern "C-unwind" fn c26_iter() {
    let (n, how, seed, kind, gap) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3), param(4));
    let mut map = Map::new();
    let m = model(0);
    build(&mut map, m, n, how, seed);
    let v = vals(&map);
    let n = m.n as u64;
    let a = any_count(n / gap) * gap;
    let b = any_count((n - a) / gap) * gap;
    let (lo, hi) = (a as usize, (n - b) as usize);
    obs(a * 1000 + b);
    macro_rules! go {
        ($it:expr, $keys:expr, $vals:expr, $item:expr, $next:expr) => {{
            let mut it = $it;
            for _ in 0..a {
                let _ = it.next();
            }
            for _ in 0..b {
                let _ = it.next_back();
            }
            for pretty in [false, true] {
                unsafe { PRETTY = pretty };
                check(show(&it, ALL), "debugging output succeeds");
                listed(m, lo, hi, $keys, $vals);
                if let Some(item) = $item {
                    is_text("[", item, hi - lo, "]");
                }
            }
            unsafe { PRETTY = false };
            // it was not consumed
            let mut i = lo;
            let next: &dyn Fn(_) -> u32 = &$next;
            while let Some(x) = it.next() {
                check(i < hi && ({ let y = next(x); (y == m.id[i]) | (y == v[i]) }), "debugging output does not move an iterator");
                i += 1;
                if i > hi {
                    return;
                }
            }
            check(i == hi, "debugging output does not move an iterator");
        }};
    }
    let none: &[u32] = &[];
    match kind {
        0 => go!(map.iter(), true, v, Some("(k, v)"), |x: (&K, &Val)| x.0.t.0),
        1 => go!(map.iter_mut(), true, v, None::<&str>, |x: (&K, &mut Val)| x.0.t.0),
        2 => go!(map.keys(), true, none, Some("k"), |x: &K| x.t.0),
        3 => go!(map.values(), false, v, Some("v"), |x: &Val| x.t.0),
        4 => go!(map.values_mut(), true, v, None::<&str>, |x: &mut Val| x.t.0),
        5 => go!(core::mem::replace(&mut map, Map::new()).into_iter(), true, v, Some("(k, v)"), |x: (K, Val)| x.0.t.0),
        6 => go!(map.range::<Q, _>(..), true, v, Some("(k, v)"), |x: (&K, &Val)| x.0.t.0),
        _ => go!(map.range_mut::<Q, _>(..), true, v, Some("(k, v)"), |x: (&K, &mut Val)| x.0.t.0),
    }
    if kind != 5 {
        same(&map, m);
    }
    drop(map);
    fin();
}

/// Sets and their iterators. params: n, how, seed, kind, gap
#[no_mangle]
pub extern "C-unwind" fn c26_set() {
    let (n, how, seed, kind, gap) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3), param(4));
    let mut s = Set::new();
    let m = model(0);
    build_set(&mut s, m, n, how, seed);
    let n = m.n as u64;
    let (mut a, mut b) = (0, 0);
    if kind > 0 {
        a = any_count(n / gap) * gap;
        b = any_count((n - a) / gap) * gap;
    }
    let (lo, hi) = (a as usize, (n - b) as usize);
    obs(a * 1000 + b);
    macro_rules! go {
        ($it:expr) => {{
            let mut it = $it;
            for _ in 0..a {
                let _ = it.next();
            }
            for _ in 0..b {
                let _ = it.next_back();
            }
            check(show(&it, ALL), "debugging output succeeds");
            listed(m, lo, hi, true, &[]);
            let mut i = lo;
            for x in it {
                check(i < hi && x.t.0 == m.id[i], "debugging output does not move an iterator");
                i += 1;
            }
            check(i == hi, "debugging output does not move an iterator");
        }};
    }
    match kind {
        0 => {
            let k = any_key(m);
            if is(any_bool()) {
                sins(&mut s, m, k);
            } else {
                srem(&mut s, m, k);
            }
            for pretty in [false, true] {
                unsafe { PRETTY = pretty };
                check(show(&s, ALL), "debugging output succeeds");
                listed(m, 0, m.n, true, &[]);
                is_text("{", "k", m.n, "}");
            }
            unsafe { PRETTY = false };
            same_set(&s, m);
        }
        1 => go!(s.iter()),
        2 => go!(s.range::<Q, _>(..)),
        _ => go!(core::mem::replace(&mut s, Set::new()).into_iter()),
    }
    drop(s);
    fin();
}

/// Entries. params: n, how, seed
#[no_mangle]
pub extern "C-unwind" fn c26_entry() {
    let (n, how, seed) = (param(0) as u32, param(1) as u32, param(2) as u32);
    let mut map = Map::new();
    let m = model(0);
    build(&mut map, m, n, how, seed);
    let v = vals(&map);
    let k = any_key(m);
    let (i, there) = m.find(k);
    let offered = key(k);
    let id = offered.t.0;
    match map.try_entry(offered) {
        Ok(e) => {
            check(show(&e, ALL), "debugging output succeeds");
            let l = unsafe { &*core::ptr::addr_of!(SEEN) };
            use fallible_collections::btree::map::Entry::*;
            if there {
                check((l.n == 2) && (l.id[0] == m.id[i]) & (l.id[1] == v[i]), "an occupied entry shows the stored key and its value");
                cover("an occupied entry");
            } else {
                check((l.n == 1) && (l.id[0] == id), "a vacant entry shows the offered key");
                cover("a vacant entry");
            }
            match e {
                Occupied(o) => check(show(&o, ALL) && there, "debugging output succeeds"),
                Vacant(o) => check(show(&o, ALL) && !there, "debugging output succeeds"),
            }
        }
        Err(_) => check(false, "an operation succeeds while memory is available"),
    }
    same(&map, m);
    obs(there as u64);
    drop(map);
    fin();
}

/// Set operations in mid-course. params: n1, n2, op
#[no_mangle]
pub extern "C-unwind" fn c26_algebra() {
    let (n1, n2, op) = (param(0) as u32, param(1) as u32, param(2));
    let (ma, mb) = (model(0), model(1));
    let (mut a, mut b) = (Set::new(), Set::new());
    build_set(&mut a, ma, n1, 0, 1);
    let base = any_key(ma);
    for i in 0..n2 {
        sins(&mut b, mb, base + 5 * i);
    }
    let steps = choose(4) as usize;
    macro_rules! go {
        ($op:ident) => {{
            let mut it = a.$op(&b);
            let mut other = a.$op(&b);
            for _ in 0..steps {
                let _ = it.next();
                let _ = other.next();
            }
            check(show(&it, ALL), "debugging output succeeds");
            let l = unsafe { SEEN.n };
            check(l <= ma.n + mb.n, "no element is written twice");
            for i in 0..l {
                check(token_live(unsafe { SEEN.id[i] }), "elements are alive");
            }
            let mut left = 0;
            loop {
                match (it.next(), other.next()) {
                    (Some(x), Some(y)) => check(x.t.0 == y.t.0, "debugging output does not move an iterator"),
                    (None, None) => break,
                    _ => {
                        check(false, "debugging output does not move an iterator");
                        return;
                    }
                }
                left += 1;
            }
            check(l >= left, "every element still to come is written");
        }};
    }
    match op {
        0 => go!(union),
        1 => go!(intersection),
        2 => go!(difference),
        _ => go!(symmetric_difference),
    }
    same_set(&a, ma);
    same_set(&b, mb);
    drop((a, b));
    fin();
}
