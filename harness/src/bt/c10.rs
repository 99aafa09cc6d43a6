//! Memory safety whatever the user's ordering, closures, copies and drops do.
//! Answers may be wrong and memory may leak: only the executor's memory checks, the tokens' "used after / dropped
//! twice" checks and termination are asserted here, plus what the later, well-behaved use of the collection shows.
use crate::entries;
use crate::vf::*;
use core::borrow::Borrow;
use core::cmp::Ordering;
use fallible_collections::btree::{map::Entry, BTreeMap, BTreeSet};
use fallible_collections::TryClone;
use super::common::Val as V0;

entries!(c10_ord, c10_panic, c10_hist, c10_set, c10_oom, c10_iter, c10_fill, c10_bounds);

// ------------------------------------------------------------------ the ordering

const HONEST: u32 = 0;
const CHAOS: u32 = 1;
const RANKS: u32 = 2;
static mut MODE: u32 = HONEST;
/// comparisons still to be answered arbitrarily
static mut BUDGET: u64 = 0;
/// may a comparison panic?
static mut MAY_PANIC: bool = false;
/// the answer once the budget is used up: 0 honest, 1 less, 2 equal, 3 greater
static mut LATER: u64 = 0;
/// the n-th comparison panics
static mut PANIC_AT: i64 = -1;
static mut RANK: [u32; NTOK] = [0; NTOK];

fn chaos(budget: u64, may_panic: bool, later: u64) {
    unsafe {
        MODE = CHAOS;
        BUDGET = budget;
        MAY_PANIC = may_panic;
        LATER = later;
    }
}
fn calm() {
    unsafe {
        MODE = HONEST;
        BUDGET = 0;
        PANIC_AT = -1;
    }
    disarm_drop_panic();
    arm_clone_panic(-1);
    arm_clone_fail(-1);
}
#[inline(never)]
fn answer(a: u64, b: u64, ra: u32, rb: u32) -> Ordering {
    unsafe {
        if PANIC_AT >= 0 {
            PANIC_AT -= 1;
            if PANIC_AT == -1 {
                cover("a comparison panicked");
                panic!("cmp");
            }
        }
        if MODE == RANKS {
            return if ra < rb {
                Ordering::Less
            } else if ra == rb {
                Ordering::Equal
            } else {
                Ordering::Greater
            };
        }
        if MODE == CHAOS {
            let c = if BUDGET > 0 {
                BUDGET -= 1;
                choose(if MAY_PANIC { 4 } else { 3 }) + 1
            } else {
                LATER
            };
            match c {
                1 => return Ordering::Less,
                2 => return Ordering::Equal,
                3 => return Ordering::Greater,
                4 => {
                    BUDGET = 0;
                    cover("an arbitrary comparison panicked");
                    panic!("cmp")
                }
                _ => {}
            }
        }
    }
    if a < b {
        Ordering::Less
    } else if a == b {
        Ordering::Equal
    } else {
        Ordering::Greater
    }
}

pub struct Ck {
    n: u64,
    t: Tok,
}
pub struct Cq {
    n: u64,
    rank: u32,
}
fn ck(n: u64) -> Ck {
    Ck { n, t: Tok::new() }
}
fn val(n: u32) -> V0 {
    super::common::val(n)
}
impl PartialEq for Ck {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Ck {}
impl PartialOrd for Ck {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ck {
    #[inline(never)]
    fn cmp(&self, o: &Self) -> Ordering {
        self.t.touch();
        o.t.touch();
        unsafe { answer(self.n, o.n, RANK[self.t.0 as usize], RANK[o.t.0 as usize]) }
    }
}
impl Clone for Ck {
    #[inline(never)]
    fn clone(&self) -> Self {
        self.t.touch();
        clone_step();
        let k = ck(self.n);
        unsafe { RANK[k.t.0 as usize] = RANK[self.t.0 as usize] };
        k
    }
}
impl TryClone for Ck {
    #[inline(never)]
    fn try_clone(&self) -> Result<Self, fallible_collections::TryReserveError> {
        Ok(self.clone())
    }
}
/// looking up by another type: it carries its number and its rank
static mut SLOTS: [Cq; NTOK] = [const { Cq { n: 0, rank: 0 } }; NTOK];
impl Borrow<Cq> for Ck {
    #[inline(never)]
    fn borrow(&self) -> &Cq {
        self.t.touch();
        unsafe {
            let s = &mut SLOTS[self.t.0 as usize];
            s.n = self.n;
            s.rank = RANK[self.t.0 as usize];
            s
        }
    }
}
impl PartialEq for Cq {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Cq {}
impl PartialOrd for Cq {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Cq {
    #[inline(never)]
    fn cmp(&self, o: &Self) -> Ordering {
        answer(self.n, o.n, self.rank, o.rank)
    }
}

type Map = BTreeMap<Ck, V0>;
type Set = BTreeSet<Ck>;

/// Keys 10, 20, .. how: 0 ascending, 1 descending, 2 thinned to minimal nodes, 3 appended (full nodes), 4 shuffled
#[inline(never)]
fn build(m: &mut Map, n: u32, how: u32) {
    fn put(m: &mut Map, i: u32) {
        check(m.try_insert(ck(10 * (i as u64 + 1)), val(i)).is_ok(), "no failure while memory is available");
    }
    match how {
        0 => (0..n).for_each(|i| put(m, i)),
        1 => (0..n).for_each(|i| put(m, n - 1 - i)),
        2 => {
            (0..2 * n).for_each(|i| put(m, i));
            for i in 0..n {
                drop(m.remove(&Cq { n: 20 * (i as u64 + 1), rank: 0 }));
            }
        }
        3 => {
            let mut o = Map::new();
            (0..n).for_each(|i| put(if i < n / 2 { &mut *m } else { &mut o }, i));
            m.append(&mut o);
        }
        _ => (0..n).for_each(|i| put(m, (i * 7) % n)),
    }
}

/// Number the keys by their place in the collection: from now on its ordering is consistent with its contents.
#[inline(never)]
fn number(m: &Map) -> u32 {
    unsafe { MODE = RANKS };
    let mut i = 0;
    for (k, v) in m.iter() {
        check(i < NTOK as u32, "iteration ends");
        k.t.touch();
        v.t.touch();
        i += 1;
        unsafe { RANK[k.t.0 as usize] = 2 * i };
    }
    check(i as usize == m.len(), "iteration yields as many entries as the length says");
    let mut b = 0;
    let mut it = m.iter();
    while let Some((k, v)) = it.next_back() {
        check(b < i, "backward iteration ends");
        k.t.touch();
        v.t.touch();
        check(unsafe { RANK[k.t.0 as usize] } == 2 * (i - b), "backward iteration is the reverse");
        b += 1;
    }
    check(b == i, "backward iteration yields as many entries");
    i
}
fn at(rank: u32) -> Cq {
    Cq { n: 0, rank }
}
fn new_at(rank: u32) -> Ck {
    let k = ck(0);
    unsafe { RANK[k.t.0 as usize] = rank };
    k
}
/// Whether later, well-behaved use may itself panic in the crate (known wrong shapes after earlier misbehaviour).
#[inline(never)]
fn quietly<F: FnOnce()>(f: F) -> bool {
    let p = panics(f);
    if p {
        cover("later use panicked");
        obs(0xdead);
    }
    p
}

/// Ordinary use afterwards. `what` picks it; 99: choose.
#[inline(never)]
fn later(mut m: Map, what: u64, dense: bool) {
    calm();
    let n = number(&m);
    let what = if what == 99 { choose(7) } else { what };
    let pick = |hi: u32| -> u32 {
        if dense || hi < 8 {
            any_count(hi as u64) as u32
        } else {
            // ends, middle, and places in between
            match choose(6) {
                0 => 0,
                1 => 1,
                2 => hi / 2,
                3 => hi / 3,
                4 => hi - 1,
                _ => hi,
            }
        }
    };
    match what {
        0 if n > 0 => {
            // remove anything, then drain
            let r = 2 * (pick(n - 1) + 1);
            let p = quietly(|| {
                drop(m.remove(&at(r)));
            });
            number(&m);
            if !p {
                let fwd = choose(2) == 0;
                quietly(|| {
                    while m.len() > 0 {
                        let n = m.len();
                        let r = if fwd { m.iter().next() } else { m.iter().next_back() }.map(|(k, _)| unsafe { RANK[k.t.0 as usize] });
                        match r {
                            Some(r) => drop(m.remove(&at(r))),
                            None => check(false, "a collection with a length has a first entry"),
                        }
                        check(m.len() < n, "removing shrinks");
                    }
                });
                number(&m);
            }
        }
        1 => {
            // insert anywhere, several times
            let r = 2 * pick(n) + 1;
            for j in 0..8 {
                quietly(|| {
                    check(m.try_insert(new_at(r), val(j)).is_ok(), "no failure while memory is available");
                });
                if n < 20 || j == 7 {
                    number(&m);
                }
                // every key placed there is the next one's successor
                if let Some((k, _)) = m.get_key_value(&at(r)) {
                    unsafe { RANK[k.t.0 as usize] += 1 };
                }
            }
        }
        2 => {
            let r = pick(2 * n + 1);
            let mut right = Map::new();
            quietly(|| {
                if let Ok(x) = m.split_off(&at(r)) {
                    right = x;
                }
            });
            number(&m);
            let rn = number(&right);
            if rn > 0 {
                quietly(|| {
                    drop(right.remove(&at(2)));
                });
                number(&right);
            }
            drop(right);
        }
        3 => {
            let a = pick(2 * n + 1);
            let b = pick(2 * n + 1);
            quietly(|| {
                let mut c = 0;
                for (k, v) in m.range(at(a)..at(b)) {
                    k.t.touch();
                    v.t.touch();
                    c += 1;
                    check(c <= n, "a range ends");
                }
            });
            quietly(|| {
                let mut c = 0;
                let mut it = m.range_mut(at(a)..);
                while let Some((k, v)) = it.next_back() {
                    k.t.touch();
                    v.t.touch();
                    v.v = 3;
                    c += 1;
                    check(c <= n, "a range ends");
                }
            });
        }
        4 => {
            let a = pick(n);
            let mut it = m.into_iter();
            for i in 0..a {
                match if i % 2 == 0 { it.next() } else { it.next_back() } {
                    Some((k, v)) => {
                        k.t.touch();
                        v.t.touch();
                    }
                    None => check(false, "a consuming iterator yields as many entries as the length says"),
                }
            }
            drop(it);
            m = Map::new();
        }
        5 => {
            let c = m.try_clone();
            if let Ok(c) = c {
                number(&c);
            } else {
                check(false, "no failure while memory is available")
            }
        }
        6 => {
            let mut o = Map::new();
            for j in 0..13 {
                check(o.try_insert(new_at(4 * j + 1), val(j)).is_ok(), "no failure while memory is available");
            }
            let swap = choose(2) == 0;
            quietly(|| {
                if swap {
                    o.append(&mut m);
                } else {
                    m.append(&mut o);
                }
            });
            number(&o);
            drop(o);
        }
        _ => {}
    }
    calm();
    drop(m);
}

/// A key on or between the stored ones; in larger maps, in the middle or at either end.
fn some_key(n: u32) -> u64 {
    let n = n as u64;
    if n <= 14 {
        return range(5, 10 * n + 15);
    }
    let from = match choose(3) {
        0 => 0,
        1 => n / 2 - 2,
        _ => n - 3,
    };
    range(10 * from + 5, 10 * from + 45)
}

#[inline(never)]
fn op(m: &mut Map, o: u64, n: u32, spare: &mut Map) {
    let k = some_key(n);
    let q = Cq { n: k, rank: 0 };
    match o {
        0 => drop(m.try_insert(ck(k), val(1))),
        1 => drop(m.remove(&q)),
        2 => {
            if let Some((k, v)) = m.get_key_value(&q) {
                k.t.touch();
                v.t.touch();
            }
            if let Some(v) = m.get_mut(&q) {
                v.t.touch();
                *v = val(2);
            }
        }
        3 => match m.try_entry(ck(k)) {
            Ok(Entry::Occupied(e)) => drop(e.remove_entry()),
            Ok(Entry::Vacant(e)) => drop(e.try_insert(val(3)).map(|v| v.t.touch())),
            Err(_) => {}
        },
        4 => {
            // bounds of both kinds, possibly contradictory
            use core::ops::Bound::*;
            let b = |c: u64| match c {
                0 => Included(&q),
                1 => Excluded(&q),
                _ => Unbounded,
            };
            let (l, h) = (b(choose(3)), b(choose(3)));
            let len = m.len();
            if choose(2) == 0 {
                let mut c = 0;
                for (k, v) in m.range::<Cq, _>((l, h)) {
                    k.t.touch();
                    v.t.touch();
                    c += 1;
                    check(c <= len, "a range ends");
                }
            } else {
                let mut c = 0;
                let mut it = m.range_mut::<Cq, _>((l, h));
                while let Some((k, v)) = it.next_back() {
                    k.t.touch();
                    v.t.touch();
                    c += 1;
                    check(c <= len, "a range ends");
                }
            }
        }
        5 => {
            if let Ok(r) = m.split_off(&q) {
                *spare = r;
            }
        }
        6 => m.append(spare),
        7 => {
            let x = *m == *spare;
            let y = m.cmp(&spare);
            obs(x as u64);
            obs(y as u64);
        }
        8 => {
            *spare = m.clone();
        }
        _ => {
            if let Ok(c) = m.try_clone() {
                *spare = c;
            }
        }
    }
}
/// a second map, whose keys fall among those of the first
fn second(n: u32, o: u64) -> Map {
    let mut s = Map::new();
    if o == 6 || o == 7 {
        for i in 0..n {
            check(s.try_insert(ck(10 * i as u64 + 7), val(i)).is_ok(), "no failure while memory is available");
        }
    }
    s
}

/// params: n, how, n2, operation, budget, may panic, later answer, later use, warm-up comparisons answered honestly
#[no_mangle]
pub extern "C-unwind" fn c10_ord() {
    let (n, how, n2, o) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3));
    leak_ok();
    let mut m = Map::new();
    build(&mut m, n, how);
    let mut s = second(n2, o);
    chaos(param(4), param(5) != 0, param(6));
    let p = panics(|| op(&mut m, o, n, &mut s));
    obs(p as u64);
    later(s, 7, false);
    later(m, param(7), false);
}

/// The `at`-th comparison, copy or drop panics; everything else is well-behaved.
/// params: n, how, n2, operation, what (0 comparison, 1 copy, 2 drop), later use, highest position, step
#[no_mangle]
pub extern "C-unwind" fn c10_panic() {
    let (n, how, n2, o) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3));
    leak_ok();
    let mut m = Map::new();
    build(&mut m, n, how);
    let mut s = second(n2, o);
    let at = choose(param(6)) * param(7);
    match param(4) {
        0 => unsafe { PANIC_AT = at as i64 },
        1 => arm_clone_panic(at as i32),
        _ => arm_drop_panic(at as i32),
    }
    let p = panics(|| op(&mut m, o, n, &mut s));
    calm();
    obs(p as u64);
    if p {
        cover("the operation panicked");
    }
    later(s, 7, false);
    later(m, param(5), false);
}

/// params: steps, n, budget per step, later answer, operations allowed (first of a window of 4)
#[no_mangle]
pub extern "C-unwind" fn c10_hist() {
    let (steps, n) = (param(0), param(1) as u32);
    leak_ok();
    let mut m = Map::new();
    build(&mut m, n, 0);
    let mut s = second(3, 6);
    for _ in 0..steps {
        let o = match choose(4) {
            0 => 0,
            1 => 1,
            2 => 3,
            _ => param(4),
        };
        chaos(param(2), true, param(3));
        let len = m.len() as u32;
        panics(|| op(&mut m, o, len, &mut s));
        calm();
        number(&m);
        calm();
    }
    later(s, 7, true);
    later(m, 99, true);
}

/// Filling an empty map under an arbitrary ordering.  params: entries, budget, later answer
#[no_mangle]
pub extern "C-unwind" fn c10_fill() {
    leak_ok();
    let mut m = Map::new();
    chaos(param(1), false, param(2));
    for i in 0..param(0) {
        drop(m.try_insert(ck(10 * i), val(1)));
    }
    later(m, 99, false);
}

/// params: n, n2, operation, budget, may panic, later answer
#[no_mangle]
pub extern "C-unwind" fn c10_set() {
    let (n, n2, o) = (param(0), param(1), param(2));
    leak_ok();
    let mut a = Set::new();
    let mut b = Set::new();
    for i in 0..n {
        check(a.try_insert(ck(10 * i + 10)).is_ok(), "no failure while memory is available");
    }
    for i in 0..n2 {
        check(b.try_insert(ck(15 * i + 10)).is_ok(), "no failure while memory is available");
    }
    chaos(param(3), param(4) != 0, param(5));
    let most = a.len() + b.len();
    let p = panics(|| {
        let mut c = 0;
        let mut see = |k: &Ck| {
            k.t.touch();
            c += 1;
            check(c <= most, "a set operation ends");
        };
        match o {
            0 => a.union(&b).for_each(see),
            1 => a.intersection(&b).for_each(see),
            2 => a.difference(&b).for_each(see),
            3 => a.symmetric_difference(&b).for_each(see),
            4 => obs(a.is_subset(&b) as u64),
            5 => obs(a.is_disjoint(&b) as u64),
            6 => obs(a.is_superset(&b) as u64),
            7 => a.append(&mut b),
            8 => {
                let k = ck(range(5, 10 * n + 15));
                drop(a.replace(k));
            }
            9 => {
                let k = ck(range(5, 10 * n + 15));
                drop(a.take(&k));
                drop(a.get(&k).map(|k| k.t.touch()));
            }
            10 => {
                let q = Cq { n: range(5, 10 * n + 15), rank: 0 };
                if let Ok(r) = a.try_split_off(&q) {
                    b = r;
                }
            }
            11 => {
                let q = Cq { n: range(5, 10 * n + 15), rank: 0 };
                let r = Cq { n: range(5, 10 * n + 15), rank: 0 };
                a.range::<Cq, _>(&q..&r).for_each(see)
            }
            12 => drop(a.iter().map(|k| ck(k.n)).collect::<Set>()),
            _ => obs((a < b) as u64 + (a == b) as u64),
        }
    });
    obs(p as u64);
    calm();
    let mut c = 0;
    for k in a.iter().chain(b.iter()) {
        k.t.touch();
        c += 1;
        check(c <= most + 1, "iteration ends");
    }
    check(c == a.len() + b.len(), "iteration yields as many elements as the length says");
    let it = if choose(2) == 0 { a.into_iter() } else { b.into_iter() };
    for k in it.rev() {
        k.t.touch();
    }
}

/// Appending, copying and collecting have no way to report a failed allocation but a panic.
/// params: n, how, n2, operation (6 append, 8 clone, 10 extend, 11 collect), later use, failing allocation mode
#[no_mangle]
pub extern "C-unwind" fn c10_oom() {
    let (n, how, n2, o) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3));
    leak_ok();
    let mut m = Map::new();
    build(&mut m, n, how);
    let mut s = second(n2, 6);
    if param(5) == 0 {
        fault_each(1)
    } else {
        fault_persistent()
    };
    let p = panics(|| match o {
        10 => m.extend((0..n2).map(|i| (ck(10 * i as u64 + 3), val(i)))),
        11 => drop((0..n2).map(|i| (ck(10 * i as u64 + 3), val(i))).collect::<Map>()),
        o => op(&mut m, o, n, &mut s),
    });
    fault_off();
    obs(p as u64);
    if p {
        cover("a failed allocation panicked");
    }
    later(s, 7, false);
    later(m, param(4), false);
}

/// Panicking closures, iterators and drops of a consumed map.  params: n, how, operation, later use
#[no_mangle]
pub extern "C-unwind" fn c10_iter() {
    let (n, how, o) = (param(0) as u32, param(1) as u32, param(2));
    leak_ok();
    let mut m = Map::new();
    build(&mut m, n, how);
    let k = some_key(n);
    let p = panics(|| match o {
        0 => drop(m.try_entry(ck(k)).map(|e| drop(e.and_modify(|_| panic!("closure"))))),
        1 => drop(m.try_entry(ck(k)).map(|e| drop(e.or_try_insert_with(|| panic!("closure"))))),
        2 => {
            let at = choose(n as u64 + 1);
            let mut i = 0;
            for (_, v) in m.iter_mut() {
                if i == at {
                    panic!("body");
                }
                *v = val(7);
                i += 1;
            }
        }
        3 => {
            let at = choose(5) * 3;
            m.extend((0..13).map(|i| {
                if i == at {
                    panic!("iterator")
                }
                (ck(k + i), val(1))
            }))
        }
        4 | 5 => {
            // a drop panics while a consuming iterator is abandoned
            let mut it = core::mem::take(&mut m).into_iter();
            let a = choose(4) * (n as u64 / 4);
            for _ in 0..a {
                drop(if o == 4 { it.next() } else { it.next_back() });
            }
            arm_drop_panic(choose(2 * n as u64 + 1) as i32);
            drop(it);
        }
        6 => {
            arm_drop_panic(choose(2 * n as u64 + 1) as i32);
            m.clear();
        }
        7 => {
            arm_drop_panic(choose(2 * n as u64 + 1) as i32);
            m = Map::new();
        }
        _ => {
            arm_drop_panic(choose(3) as i32);
            drop(m.try_insert(ck(k), val(5)));
            drop(m.remove(&Cq { n: k, rank: 0 }));
        }
    });
    obs(p as u64);
    if p {
        cover("a closure or drop panicked");
    }
    calm();
    later(m, param(3), false);
}

/// A range type whose bounds change from call to call, in any way, or panic.
struct Liar {
    low: Cq,
    high: Cq,
    honest: core::cell::Cell<u64>,
    budget: core::cell::Cell<u64>,
    usual: (u64, u64),
}
impl Liar {
    #[inline(never)]
    fn bound(&self, usual: u64) -> core::ops::Bound<&Cq> {
        use core::ops::Bound::*;
        let c = if self.honest.get() > 0 {
            self.honest.set(self.honest.get() - 1);
            usual
        } else if self.budget.get() > 0 {
            self.budget.set(self.budget.get() - 1);
            choose(6)
        } else {
            usual
        };
        match c {
            0 => Unbounded,
            1 => Included(&self.low),
            2 => Excluded(&self.low),
            3 => Included(&self.high),
            4 => Excluded(&self.high),
            _ => {
                cover("a bound panicked");
                panic!("bound")
            }
        }
    }
}
impl core::ops::RangeBounds<Cq> for Liar {
    fn start_bound(&self) -> core::ops::Bound<&Cq> {
        self.bound(self.usual.0)
    }
    fn end_bound(&self) -> core::ops::Bound<&Cq> {
        self.bound(self.usual.1)
    }
}

/// A range whose bounds are not the same twice.
/// params: n, how, calls answered honestly, calls answered arbitrarily, usual lower bound, usual upper bound, range (0) or range_mut (1), place of the second key
#[no_mangle]
pub extern "C-unwind" fn c10_bounds() {
    let (n, how) = (param(0) as u32, param(1) as u32);
    leak_ok();
    let mut m = Map::new();
    build(&mut m, n, how);
    let (low, high) = (Cq { n: some_key(n), rank: 0 }, Cq { n: 10 * (n as u64 * 2 / 3) + param(7), rank: 0 });
    let liar = Liar { low, high, honest: param(2).into(), budget: param(3).into(), usual: (param(4), param(5)) };
    let len = m.len();
    let p = panics(|| {
        let mut c = 0;
        let mut see = |k: &Ck, v: &V0| {
            k.t.touch();
            v.t.touch();
            c += 1;
            check(c <= len, "a range ends");
        };
        if param(6) == 0 {
            let r = m.range::<Cq, _>(liar);
            r.clone().for_each(|(k, v)| {
                k.t.touch();
                v.t.touch();
            });
            r.rev().for_each(|(k, v)| see(k, v));
        } else {
            let mut r = m.range_mut::<Cq, _>(liar);
            let mut front = true;
            while let Some((k, v)) = if front { r.next() } else { r.next_back() } {
                see(k, v);
                front = !front;
            }
        }
        cover("a range with changing bounds");
    });
    obs(p as u64);
    later(m, 6, false);
}
