//! Copies hold the same entries and share nothing; comparisons and hashes see the entries only.
use super::common::*;
use crate::entries;
use crate::vf::*;
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use fallible_collections::btree::{BTreeMap, BTreeSet};
use fallible_collections::TryClone;

entries!(c12_clone, c12_cmp, c12_small, c12_partial, c12_set, c12_set_small, c12_nested);

#[inline(never)]
fn copy_is(c: &Map, m: &Model, o: &Map) {
    check(c.len() == m.n, "a copy has as many entries");
    let mut i = 0;
    for ((k, v), (ok, ov)) in c.iter().zip(o.iter()) {
        k.t.touch();
        v.t.touch();
        check(k.k == m.k[i], "a copy has equal keys in the same order");
        check(v.v == m.v[i], "a copy has equal values");
        check(!core::ptr::eq(k, ok) & !core::ptr::eq(v, ov) & (k.t.0 != ok.t.0) & (v.t.0 != ov.t.0), "a copy shares nothing with the original");
        i += 1;
    }
    check(i == m.n, "a copy has every entry");
}

/// params: n, how, seed, operation (0 clone, 1 try_clone, 2 clone_from), mode (0 no failure, 1 one allocation may fail, 2 an
/// allocation and all later ones may fail, 3 a copy fails, 4 all allocations fail), step
#[no_mangle]
pub extern "C-unwind" fn c12_clone() {
    let (n, how, o, mode, step) = (param(0) as u32, param(1) as u32, param(3), param(4), param(5));
    let mut map = Map::new();
    let m = model(0);
    build(&mut map, m, n, how, param(2) as u32);
    if m.n > 0 {
        // one value is anything
        let i = choose(3) as usize * (m.n - 1) / 2;
        let v = any32();
        if let Some(x) = map.get_mut(&Q(m.k[i])) {
            x.v = v;
            m.v[i] = v;
        }
    }
    let (toks, blocks) = (live_tokens(), live());
    match mode {
        1 => fault_each(1),
        2 => fault_persistent(),
        3 => arm_clone_fail((choose(2 * n as u64 / step + 1) * step) as i32),
        4 => fault_all(),
        _ => {}
    }
    let mut c = None;
    let p = panics(|| {
        c = if o == 2 {
            // over a collection that holds something
            let mut c = Map::new();
            let t = choose(5);
            if t < 3 {
                for i in 0..t as u32 * 9 {
                    check(c.try_insert(key(i * 15), val(i)).is_ok(), "no failure while memory is available");
                }
            } else {
                // just as many entries, all but one (or all) of the same keys
                for i in 0..m.n {
                    let other = t == 3 && i == m.n / 2;
                    check(c.try_insert(key(m.k[i] + other as u32), val(i as u32)).is_ok(), "no failure while memory is available");
                }
            }
            c.clone_from(&map);
            Some(c)
        } else if o == 0 {
            Some(map.clone())
        } else {
            map.try_clone().ok()
        }
    });
    let failed = fails() > 0;
    fault_off();
    arm_clone_fail(-1);
    check(!p, "copying does not panic");
    same(&map, m);
    match c {
        Some(c) => {
            cover("copied");
            check(!failed, "a copy succeeds only if every allocation did");
            copy_is(&c, m, &map);
            check(live_tokens() == 2 * toks, "a copy has its own keys and values");
            independent(map, m, c, choose(2));
        }
        None => {
            cover("a copy failed");
            check(mode != 0, "a copy fails only if an allocation or an element does");
            check(failed || mode == 3, "a copy fails only if an allocation or an element does");
            check(live_tokens() == toks, "a failed copy releases every key and value copied so far");
            check(live() == blocks, "a failed copy releases every node allocated so far");
            match map.try_clone() {
                Ok(c) => copy_is(&c, m, &map),
                Err(_) => check(false, "copying succeeds once memory is available"),
            }
            drop(map);
        }
    }
    fin();
    check(live() == 0, "nothing is leaked");
}
/// Changing one of the two leaves the other as it was, and both survive the other's end.
#[inline(never)]
fn independent(mut map: Map, m: &mut Model, mut c: Map, which: u64) {
    let m2 = model(1);
    m2.clear();
    for (i, (k, v)) in c.iter().enumerate() {
        m2.put_at(i, k.k, v.v, k.t.0);
    }
    let k = if m.n <= 14 { any_key(m) } else { (m.k[m.n / 2] - 5) + 5 * choose(3) as u32 };
    let (x, xm) = if which == 0 { (&mut map, &mut *m) } else { (&mut c, &mut *m2) };
    match choose(3) {
        0 => ins(x, xm, k, 4),
        1 => rem(x, xm, k),
        _ => {
            for v in x.values_mut() {
                v.v = 12;
            }
            for i in 0..xm.n {
                xm.v[i] = 12;
            }
        }
    }
    same(&map, m);
    same(&c, m2);
    if choose(2) == 0 {
        drop(map);
        same(&c, m2);
        rem(&mut c, m2, 10);
        ins(&mut c, m2, 15, 3);
        same(&c, m2);
    } else {
        drop(c);
        same(&map, m);
        rem(&mut map, m, 10);
        ins(&mut map, m, 15, 3);
        same(&map, m);
    }
}

struct Rec {
    n: usize,
    b: [u64; 512],
}
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.w(*x as u64);
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.w(x as u64 + (1 << 40));
    }
    fn write_usize(&mut self, x: usize) {
        self.w(x as u64 + (1 << 41));
    }
    fn write_u64(&mut self, x: u64) {
        self.w(x);
    }
}
impl Rec {
    fn w(&mut self, x: u64) {
        check(self.n < 512, "harness: recorded hash input fits");
        self.b[self.n] = x;
        self.n += 1;
    }
}
static mut RECS: [Rec; 2] = [const { Rec { n: 0, b: [0; 512] } }; 2];
#[inline(never)]
fn same_hash<T: Hash>(a: &T, b: &T) {
    unsafe {
        RECS[0].n = 0;
        RECS[1].n = 0;
        a.hash(&mut RECS[0]);
        b.hash(&mut RECS[1]);
        check(RECS[0].n == RECS[1].n, "equal collections feed a hasher the same");
        let mut ok = true;
        for i in 0..RECS[0].n {
            ok &= RECS[0].b[i] == RECS[1].b[i];
        }
        check(ok, "equal collections feed a hasher the same");
    }
}

fn lex(a: &Model, b: &Model) -> Ordering {
    let mut i = 0;
    loop {
        if i == a.n && i == b.n {
            return Ordering::Equal;
        }
        if i == a.n {
            return Ordering::Less;
        }
        if i == b.n {
            return Ordering::Greater;
        }
        if is(a.k[i] < b.k[i]) {
            return Ordering::Less;
        }
        if is(a.k[i] > b.k[i]) {
            return Ordering::Greater;
        }
        if is(a.v[i] < b.v[i]) {
            return Ordering::Less;
        }
        if is(a.v[i] > b.v[i]) {
            return Ordering::Greater;
        }
        i += 1;
    }
}
#[inline(never)]
fn compare(a: &Map, am: &Model, b: &Map, bm: &Model) {
    let want = lex(am, bm);
    check((a == b) == (want == Ordering::Equal), "collections are equal exactly if their entries are");
    check((a != b) == (want != Ordering::Equal), "collections differ exactly if their entries do");
    check((b == a) == (want == Ordering::Equal), "equality is symmetric");
    check(a.cmp(b) == want, "collections are ordered lexicographically by their entries");
    check(b.cmp(a) == want.reverse(), "the order is antisymmetric");
    check(a.partial_cmp(b) == Some(want), "the partial order agrees with the order");
    check((a < b) == (want == Ordering::Less), "the operators agree with the order");
    check((a >= b) == (want != Ordering::Less), "the operators agree with the order");
    check((a > b) == (want == Ordering::Greater), "the operators agree with the order");
    check((a <= b) == (want != Ordering::Greater), "the operators agree with the order");
    check(b.ne(a) == (want != Ordering::Equal), "collections differ exactly if their entries do");
    if want == Ordering::Equal {
        cover("equal");
        same_hash(a, b);
    } else {
        cover("different");
    }
}

/// Equal contents in two shapes, then one change to either.
/// params: n, first shape, second shape, change (0 none, 1 a value, 2 remove, 3 insert, 4 both change), side
#[no_mangle]
pub extern "C-unwind" fn c12_cmp() {
    let n = param(0) as u32;
    let (mut a, mut b) = (Map::new(), Map::new());
    let (am, bm) = (model(0), model(1));
    shape(&mut a, am, n, param(1));
    shape(&mut b, bm, n, param(2));
    let change = param(3);
    for side in 0..2 {
        if change == 0 || (side != param(4) && change != 4) {
            continue;
        }
        let (x, xm) = if side == 0 { (&mut a, &mut *am) } else { (&mut b, &mut *bm) };
        let k = if n > 20 { range(10 * (n as u64 / 2 - 2), 10 * (n as u64 / 2 + 2)) as u32 } else { any_key(xm) };
        match change {
            2 => rem(x, xm, k),
            _ => {
                let v = any32();
                ins(x, xm, k, v)
            }
        }
    }
    compare(&a, am, &b, bm);
    compare(&a, am, &a, am);
    drop((a, b));
    fin();
}
/// keys 10, 20, .. 10 n with equal values, inserted up, down, shuffled, or among others removed again
#[inline(never)]
fn shape(x: &mut Map, m: &mut Model, n: u32, how: u64) {
    let v = |i: u32| i % 5;
    match how {
        0 => (0..n).for_each(|i| ins(x, m, 10 * (i + 1), v(i))),
        1 => (0..n).rev().for_each(|i| ins(x, m, 10 * (i + 1), v(i))),
        2 => (0..n).for_each(|j| {
            let i = (j * 7) % n;
            ins(x, m, 10 * (i + 1), v(i))
        }),
        3 => {
            (0..2 * n + 1).for_each(|i| ins(x, m, 5 * (i + 1), v(i / 2)));
            (0..n + 1).for_each(|i| rem(x, m, 10 * i + 5));
        }
        4 => {
            // one more than fits a node, taken away again
            ins(x, m, 5, 0);
            (0..n).for_each(|i| ins(x, m, 10 * (i + 1), v(i)));
            rem(x, m, 5);
        }
        _ => {
            let mut o = Map::new();
            (0..n).for_each(|i| ins(if i % 2 == 0 { &mut *x } else { &mut o }, m, 10 * (i + 1), v(i)));
            x.append(&mut o);
        }
    }
}

/// Two maps of up to three free entries each.  params: n1, n2, spread
#[no_mangle]
pub extern "C-unwind" fn c12_small() {
    let (mut a, mut b) = (Map::new(), Map::new());
    let (am, bm) = (model(0), model(1));
    for _ in 0..param(0) {
        let (k, v) = (range(0, param(2)) as u32, any32());
        ins(&mut a, am, k, v);
    }
    for _ in 0..param(1) {
        let (k, v) = (range(0, param(2)) as u32, any32());
        ins(&mut b, bm, k, v);
    }
    compare(&a, am, &b, bm);
    drop((a, b));
    fin();
}

/// A value type with incomparable and self-unequal values.
#[derive(Clone, Copy)]
struct Pv(u32);
const ODD: u32 = 3;
impl PartialEq for Pv {
    fn eq(&self, o: &Pv) -> bool {
        self.0 == o.0 && self.0 != ODD
    }
}
impl PartialOrd for Pv {
    fn partial_cmp(&self, o: &Pv) -> Option<Ordering> {
        if self.0 == ODD || o.0 == ODD {
            None
        } else {
            self.0.partial_cmp(&o.0)
        }
    }
}
/// params: n1, n2
#[no_mangle]
pub extern "C-unwind" fn c12_partial() {
    let (n1, n2) = (param(0), param(1));
    let (mut a, mut b) = (BTreeMap::<u32, Pv>::new(), BTreeMap::<u32, Pv>::new());
    let mut x = [(0, 0); 8];
    let mut y = [(0, 0); 8];
    for i in 0..n1 {
        let v = concretize(range(0, 4)) as u32;
        let k = 2 * i as u32 + choose(2) as u32;
        x[i as usize] = (k, v);
        check(a.try_insert(k, Pv(v)).is_ok(), "no failure while memory is available");
    }
    for i in 0..n2 {
        let v = concretize(range(0, 4)) as u32;
        let k = 2 * i as u32 + choose(2) as u32;
        y[i as usize] = (k, v);
        check(b.try_insert(k, Pv(v)).is_ok(), "no failure while memory is available");
    }
    let mut want = Some((n1).cmp(&n2));
    let mut eq = n1 == n2;
    for i in 0..n1.min(n2) as usize {
        eq &= x[i].0 == y[i].0 && Pv(x[i].1) == Pv(y[i].1);
    }
    for i in 0..n1.min(n2) as usize {
        let c = match x[i].0.cmp(&y[i].0) {
            Ordering::Equal => Pv(x[i].1).partial_cmp(&Pv(y[i].1)),
            c => Some(c),
        };
        if c != Some(Ordering::Equal) {
            want = c;
            break;
        }
    }
    check((a == b) == eq, "maps are equal exactly if their entries are, whatever equality of values means");
    check(a.partial_cmp(&b) == want, "maps are partially ordered lexicographically");
    check((a < b) == (want == Some(Ordering::Less)), "the operators agree with the partial order");
    if want.is_none() {
        cover("incomparable");
    }
    // entries that are not equal to themselves make a map that is not
    let odd = (0..n1 as usize).any(|i| x[i].1 == ODD);
    check((a == a) != odd, "a map is compared with itself by its entries, too");
    check((a != a) == odd, "a map is compared with itself by its entries, too");
    check(a.partial_cmp(&a) == if odd { None } else { Some(Ordering::Equal) }, "a map is compared with itself by its entries, too");
    if odd {
        cover("not equal to itself");
    }
}

fn lex_set(a: &Model, b: &Model) -> Ordering {
    let mut i = 0;
    while i < a.n && i < b.n {
        if is(a.k[i] < b.k[i]) {
            return Ordering::Less;
        }
        if is(a.k[i] > b.k[i]) {
            return Ordering::Greater;
        }
        i += 1;
    }
    a.n.cmp(&b.n)
}
#[inline(never)]
fn compare_sets(a: &Set, am: &Model, b: &Set, bm: &Model) {
    let want = lex_set(am, bm);
    check((a == b) == (want == Ordering::Equal), "sets are equal exactly if their elements are");
    check((a != b) == (want != Ordering::Equal), "sets differ exactly if their elements do");
    check(a.cmp(b) == want, "sets are ordered lexicographically by their elements");
    check(b.partial_cmp(a) == Some(want.reverse()), "the partial order agrees with the order");
    check((a <= b) == (want != Ordering::Greater), "the operators agree with the order");
    check((a > b) == (want == Ordering::Greater), "the operators agree with the order");
    check((a < b) == (want == Ordering::Less), "the operators agree with the order");
    check((a >= b) == (want != Ordering::Less), "the operators agree with the order");
    if want == Ordering::Equal {
        cover("equal sets");
        same_hash(a, b);
    }
}
/// params: n, first shape, second shape, change
#[no_mangle]
pub extern "C-unwind" fn c12_set() {
    let n = param(0) as u32;
    let (mut a, mut b) = (Set::new(), Set::new());
    let (am, bm) = (model(0), model(1));
    for (s, m, how) in [(&mut a, &mut *am, param(1)), (&mut b, &mut *bm, param(2))] {
        if how == 4 {
            sins(s, m, 5);
        }
        for i in 0..n {
            let j = match how {
                0 | 4 => i,
                1 => n - 1 - i,
                _ => (i * 7) % n,
            };
            sins(s, m, 10 * (j + 1));
        }
        if how == 4 {
            srem(s, m, 5);
        }
    }
    let c = if any_bool() {
        a.clone()
    } else {
        let mut c = Set::new();
        for i in 0..n {
            check(matches!(c.try_insert(key(i * 15)), Ok(true)), "no failure while memory is available");
        }
        c.clone_from(&a);
        c
    };
    check(live_tokens() == 3 * n as i32, "a copy has its own elements");
    check(c.len() == am.n, "a copy has as many elements");
    for (x, y) in c.iter().zip(a.iter()) {
        check((x.k == y.k) & (x.t.0 != y.t.0), "a copy has equal elements of its own");
    }
    let k = if n > 20 { range(10 * (n as u64 / 2 - 2), 10 * (n as u64 / 2 + 2)) as u32 } else { any_key(am) };
    match param(3) {
        1 => srem(&mut a, am, k),
        2 => sins(&mut a, am, k),
        3 => {
            srem(&mut b, bm, k);
            sins(&mut b, bm, k);
        }
        _ => {}
    }
    compare_sets(&a, am, &b, bm);
    drop(a);
    // the copy outlives the original, unchanged
    let mut i = 0;
    for x in c.iter() {
        x.t.touch();
        i += 1;
        check(x.k == 10 * i, "a copy does not change with the original");
    }
    check(i == n, "a copy does not change with the original");
    drop((b, c));
    fin();
    check(live() == 0, "nothing is leaked");
}
/// params: n1, n2, spread
#[no_mangle]
pub extern "C-unwind" fn c12_set_small() {
    let (mut a, mut b) = (Set::new(), Set::new());
    let (am, bm) = (model(0), model(1));
    for _ in 0..param(0) {
        sins(&mut a, am, range(0, param(2)) as u32);
    }
    for _ in 0..param(1) {
        sins(&mut b, bm, range(0, param(2)) as u32);
    }
    compare_sets(&a, am, &b, bm);
    drop((a, b));
    fin();
}

/// Maps and sets inside maps.  params: n, outer
#[no_mangle]
pub extern "C-unwind" fn c12_nested() {
    let (n, outer) = (param(0) as u32, param(1) as u32);
    let mut m: BTreeMap<u32, Map> = BTreeMap::new();
    let inner = model(0);
    for i in 0..outer {
        let mut x = Map::new();
        inner.clear();
        build(&mut x, inner, n, 0, 1);
        check(m.try_insert(i, x).is_ok(), "no failure while memory is available");
    }
    let (toks, blocks) = (live_tokens(), live());
    if choose(2) == 0 {
        fault_each(1);
    } else {
        arm_clone_fail(choose(2 * (n * outer) as u64 + 1) as i32);
    }
    let r = m.try_clone();
    fault_off();
    arm_clone_fail(-1);
    match r {
        Ok(c) => {
            check(live_tokens() == 2 * toks, "a copy has its own keys and values");
            for (i, x) in c.iter() {
                check(*i < outer, "a copy has equal keys");
                copy_is(x, inner, &m[i]);
            }
            check(c == m, "a copy is equal to its original");
        }
        Err(_) => {
            check(live_tokens() == toks, "a failed copy releases every key and value copied so far");
            check(live() == blocks, "a failed copy releases every node allocated so far");
        }
    }
    drop(m);
    fin();
}
