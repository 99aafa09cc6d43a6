"""Planted bugs: id -> property, edits (file, old, new), demonstration, what it needs, what it breaks."""
S = {}
M, N, ST, SR = "src/btree/map.rs", "src/btree/node.rs", "src/btree/set.rs", "src/btree/search.rs"
V, HM = "src/vec.rs", "src/hashmap.rs"

S["c01-popfront-link"] = dict(
    property="C01",
    edits=[(N, "                    for i in 0..old_len {\n                        Handle::new_edge(internal.reborrow_mut(), i)",
            "                    for i in 1..old_len {\n                        Handle::new_edge(internal.reborrow_mut(), i)")],
    needs="a tree of at least three levels in which a removal underfills an internal node that has only a right sibling, so that an internal node is stolen from the right; "
          "then a later operation that climbs out of the stolen-from node's first child",
    breaks="the first remaining child of the right sibling keeps a stale position in its parent, so later iteration and removal climb to the wrong place",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    for n in [150u32, 300, 600, 1009] {
        let mut m = BTreeMap::new();
        for i in 0..n { let k = i * 7919 % n; m.try_insert(k, k).unwrap(); }
        // thin the left part, so that internal nodes are refilled from the right
        for i in 0..n {
            assert_eq!(m.remove(&i), Some(i));
            let left: Vec<u32> = m.iter().map(|(k, _)| *k).collect();
            assert!(left.iter().copied().eq(i + 1..n), "removed up to {}: {} left", i, left.len());
        }
    }
}''')

S["c02-rangemut-back"] = dict(
    property="C02",
    edits=[(M, "                    self.back = last_leaf_edge(ptr::read(&kv).left_edge().descend());",
            "                    self.back = first_leaf_edge(ptr::read(&kv).left_edge().descend());")],
    needs="backward mutable iteration across a leaf boundary of a multi-level map",
    breaks="a whole leaf is skipped and the iterator runs past the front of the map",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    let mut m = BTreeMap::new();
    for i in 0..40u32 { m.try_insert(i, ()).unwrap(); }
    let v: Vec<u32> = m.iter_mut().rev().take(20).map(|(k, _)| *k).collect();
    assert!(v.iter().copied().eq((20..40).rev()), "{:?}", v);
}''')

S["c03-excluded-start-internal"] = dict(
    property="C03",
    edits=[(M, "            (true, Included(_)) => min_node.keys().len(),\n            (true, Excluded(_)) => 0,",
            "            (true, Included(_)) | (true, Excluded(_)) => min_node.keys().len(),")],
    needs="a range whose excluded start bound is a key stored in an internal node",
    breaks="the range skips the whole leaf that follows the excluded key",
    demo='''
use fallible_collections::btree::BTreeMap;
use std::ops::Bound::*;
fn main() {
    let mut m = BTreeMap::new();
    for i in 0..60u32 { m.try_insert(i, ()).unwrap(); }
    for s in 0..60u32 {
        let v: Vec<u32> = m.range((Excluded(s), Unbounded)).map(|(k, _)| *k).collect();
        assert!(v.iter().copied().eq(s + 1..60), "after {}: {:?}", s, v);
    }
}''')

S["c04-split-length"] = dict(
    property="C04",
    edits=[(M, "            self.recalc_length();\n            right.length = total_num - self.len();",
            "            self.recalc_length();\n            right.length = total_num - self.root.as_ref().len();")],
    needs="a split close to the low end, so that the left part becomes shallower than the right one but still has several nodes",
    breaks="the right part's recorded length is too large",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    for at in 0..400u32 {
        let mut m = BTreeMap::new();
        for i in 0..400u32 { m.try_insert(i, ()).unwrap(); }
        let r = m.split_off(&at).unwrap();
        let l = (m.len(), r.len());
        if l != (at as usize, 400 - at as usize) {
            std::mem::forget((m, r));
            panic!("{}: {:?}", at, l);
        }
    }
}''')

S["c05-entry-remove-internal"] = dict(
    property="C05",
    edits=[(M, "                let old_key = unsafe { mem::replace(&mut *key_loc, key) };\n                let old_val = unsafe { mem::replace(&mut *val_loc, val) };\n\n                (hole.into_node(), old_key, old_val)",
            "                let old_val = unsafe { mem::replace(&mut *val_loc, val) };\n                let old_key = if mem::size_of::<V>() > mem::size_of::<K>() {\n                    key\n                } else {\n                    unsafe { mem::replace(&mut *key_loc, key) }\n                };\n\n                (hole.into_node(), old_key, old_val)")],
    needs="removing a key stored in an internal node from a map whose values are larger than its keys",
    breaks="the successor key is returned and lost instead of the removed one, which stays in the map with the successor's value",
    demo='''
use fallible_collections::btree::{map::Entry, BTreeMap};
fn main() {
    for k in 0..40u32 {
        let mut m = BTreeMap::new();
        for i in 0..40u32 { m.try_insert(i, [i as u64; 4]).unwrap(); }
        match m.try_entry(k).unwrap() {
            Entry::Occupied(o) => { let (a, b) = o.remove_entry(); assert_eq!((a, b), (k, [k as u64; 4])); }
            Entry::Vacant(_) => panic!(),
        };
        assert!(m.get(&k).is_none());
    }
}''')

S["c06-difference-equal-skip"] = dict(
    property="C06",
    edits=[(ST, "        if self.len() > other.len() / ITER_PERFORMANCE_TIPPING_SIZE_DIFF {\n            // Self is bigger than or not much smaller than other set.",
            "        if self.len() >= other.len() / ITER_PERFORMANCE_TIPPING_SIZE_DIFF {\n            // Self is bigger than or not much smaller than other set."),
           (ST, "            } => loop {\n                let self_next = self_iter.next()?;\n                if !other_set.contains(&self_next) {\n                    return Some(self_next);\n                }\n            },",
            "            } => {\n                let self_next = self_iter.next()?;\n                if !other_set.contains(&self_next) {\n                    return Some(self_next);\n                }\n                let self_next = self_iter.next()?;\n                if !other_set.contains(&self_next) {\n                    return Some(self_next);\n                }\n                None\n            }")],
    needs="the difference of a small set and one more than sixteen times larger, with two adjacent common elements followed by one that is not common",
    breaks="the difference ends early",
    demo='''
use fallible_collections::btree::BTreeSet;
fn main() {
    let a: BTreeSet<u32> = [1, 2, 500].iter().copied().collect();
    let b: BTreeSet<u32> = (0..100).collect();
    let d: Vec<u32> = a.difference(&b).copied().collect();
    assert_eq!(d, [500]);
}''')

S["c07-replace-keeps"] = dict(
    property="C07",
    edits=[(M, "            Found(handle) => Ok(Some(mem::replace(handle.into_kv_mut().0, key))),",
            "            Found(handle) => {\n                let node_len = handle.reborrow().into_node().len();\n                let slot = handle.into_kv_mut().0;\n                // a full node is about to be split anyway\n                if node_len == node::CAPACITY {\n                    return Ok(Some(key));\n                }\n                Ok(Some(mem::replace(slot, key)))\n            }")],
    needs="replacing an element that is stored in a completely full node, where equal elements can be told apart",
    breaks="the offered element is given back and the old one stays in the set",
    demo='''
use fallible_collections::btree::BTreeSet;
#[derive(Debug)]
struct E(u32, u32);
impl PartialEq for E { fn eq(&self, o: &E) -> bool { self.0 == o.0 } }
impl Eq for E {}
impl PartialOrd for E { fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for E { fn cmp(&self, o: &E) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
fn main() {
    for n in 1..30u32 {
        let mut s = BTreeSet::new();
        for i in 0..n { s.try_insert(E(i, 0)).unwrap(); }
        for i in 0..n {
            let old = s.replace(E(i, 1)).unwrap().unwrap();
            assert_eq!((old.0, old.1), (i, 0));
            assert_eq!(s.get(&E(i, 9)).unwrap().1, 1);
        }
    }
}''')

S["c08-split-off-early"] = dict(
    property="C08",
    edits=[(M, "        right.root = node::Root::new_leaf()?;\n        for _ in 0..(self.root.as_ref().height()) {\n            right.root.push_level()?;\n        }\n",
            "        right.root = node::Root::new_leaf()?;\n        let height = self.root.as_ref().height();\n        for level in 0..height {\n            if level + 1 == height {\n                // the length is recomputed below\n                self.length = 0;\n            }\n            right.root.push_level()?;\n        }\n")],
    needs="the allocation of the last internal node failing while a tree of three or more nodes is split",
    breaks="the map reports itself empty after the failed split",
    demo='''
use fallible_collections::btree::BTreeMap;
use std::alloc::*;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
static AT: AtomicI64 = AtomicI64::new(-1);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if AT.load(SeqCst) >= 0 && AT.fetch_sub(1, SeqCst) == 0 { return std::ptr::null_mut(); }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    for n in [5u32, 40, 300] {
        for at in 0..6 {
            let mut m = BTreeMap::new();
            for i in 0..n { m.try_insert(i, i).unwrap(); }
            AT.store(at, SeqCst);
            let r = m.split_off(&(n / 2));
            AT.store(-1, SeqCst);
            if r.is_err() {
                assert_eq!(m.len(), n as usize);
                assert!(m.iter().map(|(k, _)| *k).eq(0..n));
            }
        }
    }
}''')


# An allocator that checks sizes and alignments on release, counts live blocks and can be made to fail.
ALLOC = '''
use std::alloc::*;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::SeqCst};
static FAIL: AtomicBool = AtomicBool::new(false);
static AT: AtomicI64 = AtomicI64::new(-1);
static LIVE: AtomicI64 = AtomicI64::new(0);
static CALLS: AtomicUsize = AtomicUsize::new(0);
static BAD: AtomicBool = AtomicBool::new(false);
struct A;
const H: usize = 64;
fn refuse() -> bool {
    CALLS.fetch_add(1, SeqCst);
    FAIL.load(SeqCst) || (AT.load(SeqCst) >= 0 && AT.fetch_sub(1, SeqCst) == 0)
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse() || l.size() > 1 << 30 { return std::ptr::null_mut(); }
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + H, l.align().max(H)));
        if p.is_null() { return p; }
        (p as *mut usize).write(l.size());
        (p as *mut usize).add(1).write(l.align());
        LIVE.fetch_add(1, SeqCst);
        p.add(H)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let q = p.sub(H);
        let (s, a) = ((q as *mut usize).read(), (q as *mut usize).add(1).read());
        if s != l.size() || a != l.align() { BAD.store(true, SeqCst); }
        LIVE.fetch_sub(1, SeqCst);
        System.dealloc(q, Layout::from_size_align_unchecked(s + H, a.max(H)))
    }
}
#[global_allocator]
static G: A = A;
#[allow(dead_code)]
fn live() -> i64 { LIVE.load(SeqCst) }
'''

S["c09-merge-layout"] = dict(
    property="C09",
    edits=[(N, "            if self.node.height > 1 {\n                ptr::copy_nonoverlapping(\n                    right_node.cast_unchecked().as_internal().edges.as_ptr(),",
            "            let merged_layout = if self.node.height > 2 {\n                Layout::new::<InternalNode<K, V>>()\n            } else {\n                Layout::new::<LeafNode<K, V>>()\n            };\n            if self.node.height > 1 {\n                ptr::copy_nonoverlapping(\n                    right_node.cast_unchecked().as_internal().edges.as_ptr(),"),
           (N, "                Global.deallocate(right_node.node.cast(), Layout::new::<InternalNode<K, V>>());\n            } else {\n                Global.deallocate(right_node.node.cast(), Layout::new::<LeafNode<K, V>>());",
            "                Global.deallocate(right_node.node.cast(), merged_layout);\n            } else {\n                Global.deallocate(right_node.node.cast(), merged_layout);")],
    needs="a removal that merges two internal nodes just above the leaves of a tree with three or more levels, and an allocator to which sizes matter",
    breaks="the merged internal node is released with the size of a leaf",
    demo=ALLOC + '''
use fallible_collections::btree::BTreeMap;
fn main() {
    let mut m = BTreeMap::new();
    for i in 0..1000u32 { m.try_insert(i, i).unwrap(); }
    for i in 0..1000u32 { m.remove(&i); }
    drop(m);
    assert!(!BAD.load(SeqCst), "a block was released with the wrong layout");
}''')

S["c09-plain-drop"] = dict(
    property="C09",
    edits=[(M, "    fn drop(&mut self) {\n        self.for_each(drop);\n        unsafe {",
            "    fn drop(&mut self) {\n        if mem::needs_drop::<K>() || mem::needs_drop::<V>() || self.length > node::CAPACITY {\n            self.for_each(drop);\n        }\n        unsafe {")],
    needs="dropping a consuming iterator over plain data with between one and eleven entries left that straddle two nodes",
    breaks="the nodes that hold the remaining entries are not released",
    demo=ALLOC + '''
use fallible_collections::btree::BTreeMap;
fn main() {
    let before = live();
    for n in 0..60u32 {
        for k in 0..=n {
            let mut m = BTreeMap::new();
            for i in 0..n { m.try_insert(i, i).unwrap(); }
            let mut it = m.into_iter();
            for _ in 0..k { it.next(); }
            drop(it);
            assert_eq!(live(), before, "{} of {} consumed", k, n);
        }
    }
}''')

S["c10-clear-panic"] = dict(
    property="C10",
    edits=[(M, "        *self = BTreeMap::new();", "        unsafe {\n            ptr::drop_in_place(self);\n            ptr::write(self, BTreeMap::new());\n        }")],
    needs="a value whose drop panics while the map is cleared, caught by the caller, which then drops the map",
    breaks="the cleared entries and nodes are released a second time",
    demo='''
use fallible_collections::btree::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static DROPS: [AtomicUsize; 40] = [const { AtomicUsize::new(0) }; 40];
struct P(usize);
impl Drop for P { fn drop(&mut self) {
    let n = DROPS[self.0].fetch_add(1, SeqCst);
    if n > 0 { println!("dropped twice: {}", self.0); std::process::exit(1); }
    if self.0 == 3 { panic!("drop") }
} }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut m = BTreeMap::new();
    for i in 0..40usize { m.try_insert(i, P(i)).ok().unwrap(); }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.clear()));
    assert!(r.is_err());
    if m.len() != 0 { println!("not empty: {}", m.len()); std::process::exit(1); }
    drop(m);
}''')

S["c10-ill-ordered-range"] = dict(
    property="C10",
    edits=[(M, "            if max_edge < min_edge {\n                panic!(\"Ord is ill-defined in BTreeMap range\")\n            }\n            if min_edge != max_edge {",
            "            if min_edge > max_edge && front_height == 0 {\n                panic!(\"Ord is ill-defined in BTreeMap range\")\n            }\n            if min_edge != max_edge {"),
           (M, "        if !diverged {\n", "        let front_height = min_node.height();\n        if !diverged {\n")],
    needs="a key type whose ordering contradicts itself between the two searches of one range query on a map of two or more levels, so that they cross at an internal node",
    breaks="the range starts behind its end and iteration runs off the end of the map",
    demo='''
use fallible_collections::btree::BTreeMap;
use std::cell::Cell;
use std::cmp::Ordering;
thread_local! { static FLIP: Cell<u32> = Cell::new(0); }
#[derive(PartialEq, Eq, Clone, Copy)]
struct K(u32);
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering {
    match FLIP.with(|f| f.get()) {
        0 => self.0.cmp(&o.0),
        // the bounds compare as given; the start is above every key, the end below every key
        _ if self.0 >= 1000 && o.0 >= 1000 => self.0.cmp(&o.0),
        _ => if self.0 == 1000 { Ordering::Greater } else { Ordering::Less },
    }
} }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut m = BTreeMap::new();
    for i in 0..40u32 { m.try_insert(K(i), i).unwrap(); }
    FLIP.with(|f| f.set(1));
    let r = std::panic::catch_unwind(|| {
        let mut n = 0;
        for (_, v) in m.range(K(1000)..K(1001)) { if *v >= 40 || n > 40 { std::process::exit(1); } n += 1; }
    });
    assert!(r.is_err());
}''')

S["c11-lazy-refill"] = dict(
    property="C11",
    edits=[(M, "        while cur_node.len() < node::CAPACITY / 2 {", "        while cur_node.len() < node::MIN_LEN / 2 {")],
    needs="removing many entries spread evenly over a large map",
    breaks="leaves stay at two entries, so the map keeps more than twice the blocks its entries need",
    demo=ALLOC + '''
use fallible_collections::btree::BTreeMap;
fn main() {
    let before = live();
    let mut m = BTreeMap::new();
    for i in 0..6000u32 { m.try_insert(i, i).unwrap(); }
    for i in 0..6000u32 {
        if i % 3 != 0 { m.remove(&i); }
        // every node but the root holds at least five entries
        let blocks = (live() - before) as usize;
        assert!(blocks <= m.len() / 5 + 1, "{} blocks for {} entries", blocks, m.len());
    }
}''')

S["c11-absent-scan"] = dict(
    property="C11",
    edits=[(M, "                .remove_kv()\n                .0,\n            ),\n            GoDown(_) => None,",
            "                .remove_kv()\n                .0,\n            ),\n            GoDown(_) => {\n                debug_assert!(self.keys().all(|k| k.borrow() != key));\n                let found = self.keys().any(|k| k.borrow() == key);\n                assert!(!found, \"the ordering of the elements is inconsistent\");\n                None\n            }")],
    needs="taking an element that is absent from a large set",
    breaks="the whole set is compared, element by element",
    demo='''
use fallible_collections::btree::BTreeSet;
use std::cell::Cell;
use std::cmp::Ordering;
thread_local! { static N: Cell<u32> = Cell::new(0); }
struct K(u32);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { N.with(|n| n.set(n.get() + 1)); self.0 == o.0 } }
impl Eq for K {}
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { N.with(|n| n.set(n.get() + 1)); self.0.cmp(&o.0) } }
fn main() {
    let mut s = BTreeSet::new();
    for i in 0..4000u32 { s.try_insert(K(2 * i)).unwrap(); }
    N.with(|n| n.set(0));
    assert!(s.take(&K(4001)).is_none());
    let n = N.with(|n| n.get());
    assert!(n < 200, "{} comparisons", n);
}''')

S["c12-eq-height"] = dict(
    property="C12",
    edits=[(M, "        self.len() == other.len() && self.iter().zip(other).all(|(a, b)| a == b)",
            "        self.len() == other.len()\n            && self.root.as_ref().height() == other.root.as_ref().height()\n            && self.iter().zip(other).all(|(a, b)| a == b)")],
    needs="two maps of equal contents whose histories left them with different numbers of levels",
    breaks="they compare as different",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    let mut a = BTreeMap::new();
    for i in 1..12u32 { a.try_insert(i, i).unwrap(); }
    let mut b = BTreeMap::new();
    for i in 0..12u32 { b.try_insert(i, i).unwrap(); }
    b.remove(&0);
    assert!(a == b);
}''')

S["c12-clone-count-first"] = dict(
    property="C12",
    edits=[(M, "                            let k = (*k).try_clone()?;\n                            let v = (*v).try_clone()?;\n                            let subtree = clone_subtree(in_edge.descend())?;",
            "                            let k = (*k).try_clone()?;\n                            let v = (*v).try_clone()?;\n                            // counted before the subtree is linked\n                            out_tree.length += 1;\n                            let subtree = clone_subtree(in_edge.descend())?;"),
           (M, "                            out_node.push(k, v, subroot);\n                            out_tree.length += 1 + sublength;\n                        }\n                    }\n\n                    Ok(out_tree)",
            "                            out_node.push(k, v, subroot);\n                            out_tree.length += sublength;\n                        }\n                    }\n\n                    Ok(out_tree)")],
    needs="copying a map of two or more levels where an allocation or a copy fails inside a subtree other than the first",
    breaks="the partial copy counts an entry it does not hold, and dropping it reads past its end",
    demo=ALLOC + '''
use fallible_collections::btree::BTreeMap;
use fallible_collections::TryClone;
fn main() {
    let mut m = BTreeMap::new();
    for i in 0..30u32 { m.try_insert(i, i).unwrap(); }
    let before = live();
    for at in 0..12 {
        AT.store(at, SeqCst);
        let r = m.try_clone();
        AT.store(-1, SeqCst);
        if let Ok(c) = &r { assert!(c == &m); }
        drop(r);
        assert_eq!(live(), before);
    }
}''')

S["c13-zst-wrap"] = dict(
    property="C13", kind="st",
    edits=[(V, "    v.len()\n        .checked_add(len)\n        .map_or(true, |needed| needed > v.capacity())", "    v.len().wrapping_add(len) > v.capacity()")],
    needs="extending a vector of zero-sized elements whose length is close to the largest machine integer",
    breaks="the length wraps around instead of an error being reported",
    demo='''
use fallible_collections::vec::FallibleVec;
fn main() {
    let mut v: Vec<()> = Vec::new();
    v.try_resize(usize::MAX - 1, ()).unwrap();
    let r = v.try_extend_from_slice(&[(), (), ()]);
    assert!(r.is_err());
    assert_eq!(v.len(), usize::MAX - 1);
}''')

S["c13-map-capacity"] = dict(
    property="C13", kind="st",
    edits=[(HM, "        map.reserve(capacity)?;\n        Ok(map)", "        // an eighth of the room is filled lazily\n        map.reserve(capacity - capacity / 8)?;\n        Ok(map)")],
    needs="a map created with room for a count of entries just above seven eighths of a power of two, then filled without memory",
    breaks="the map has room for fewer entries than requested",
    demo=ALLOC + '''
use fallible_collections::TryHashMap;
fn main() {
    for n in 1..200usize {
        let mut m = TryHashMap::with_capacity(n).unwrap();
        FAIL.store(true, SeqCst);
        let ok = (0..n).all(|i| m.insert(i as u32, i).is_ok());
        FAIL.store(false, SeqCst);
        assert!(ok, "no room for {}", n);
    }
}''')

S["c14-resize-with-order"] = dict(
    property="C14", kind="st",
    edits=[(V, "    fn try_resize_with<F>(&mut self, new_len: usize, f: F) -> Result<(), TryReserveError>\n    where\n        F: FnMut() -> T,\n    {\n        let len = self.len();\n        if new_len > len {\n            FallibleVec::try_reserve(self, new_len - len)?;\n        }\n",
            "    fn try_resize_with<F>(&mut self, new_len: usize, mut f: F) -> Result<(), TryReserveError>\n    where\n        F: FnMut() -> T,\n    {\n        let len = self.len();\n        if new_len > len {\n            FallibleVec::try_reserve(self, new_len - len)?;\n            if new_len - len == 2 {\n                // two elements fit without the general loop\n                let (b, a) = (f(), f());\n                self.push(a);\n                self.push(b);\n                return Ok(());\n            }\n        }\n")],
    needs="growing by exactly two elements with a closure whose results differ",
    breaks="the two new elements are swapped",
    demo='''
use fallible_collections::vec::FallibleVec;
fn main() {
    for n in 0..20usize {
        let mut v: Vec<u32> = vec![100, 101];
        let mut i = 0;
        v.try_resize_with(n, || { i += 1; i }).unwrap();
        let mut w: Vec<u32> = vec![100, 101];
        let mut i = 0;
        w.resize_with(n, || { i += 1; i });
        assert_eq!(v, w);
    }
}''')

S["c14-insert-past-end"] = dict(
    property="C14", kind="st",
    edits=[(V, "        Ok(self.insert(index, element))", "        if index >= self.len() && !self.is_empty() {\n            return Ok(self.push(element));\n        }\n        Ok(self.insert(index, element))")],
    needs="inserting beyond the end of a nonempty vector",
    breaks="the element is appended where the ordinary operation panics",
    demo='''
use fallible_collections::vec::FallibleVec;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for n in 0..5usize { for i in 0..9usize {
        let mut v: Vec<usize> = (0..n).collect();
        let mut w = v.clone();
        let a = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.try_insert(i, 77).unwrap())).is_ok();
        let b = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.insert(i, 77))).is_ok();
        assert_eq!((a, v), (b, w));
    } }
}''')

S["c15-append-deficit"] = dict(
    property="C15", kind="st",
    edits=[(V, "        FallibleVec::try_reserve(self, other.len())?;\n        Ok(self.append(other))",
            "        let spare = self.capacity() - self.len();\n        if other.len() > spare {\n            FallibleVec::try_reserve(self, other.len() - spare)?;\n        }\n        Ok(self.append(other))")],
    needs="appending to a vector with some spare room, but not enough, when the next allocation fails",
    breaks="too little is reserved and the rest is allocated infallibly: the process aborts",
    demo=ALLOC + '''
use fallible_collections::vec::FallibleVec;
fn main() {
    for a in 0..9usize { for b in 0..20usize {
        let mut v: Vec<u64> = Vec::with_capacity(8);
        let mut w: Vec<u64> = Vec::new();
        for i in 0..a.min(8) { v.push(i as u64); }
        for i in 0..b { w.push(i as u64); }
        FAIL.store(true, SeqCst);
        let r = v.try_append(&mut w);
        FAIL.store(false, SeqCst);
        if r.is_err() { assert_eq!((v.len(), w.len()), (a.min(8), b)); }
    } }
}''')

S["c15-insert-at-end"] = dict(
    property="C15", kind="st",
    edits=[(V, "        if self.len() == self.capacity() {\n            if let Err(e) = self.try_reserve(1) {\n                return Err((element, e));",
            "        if self.len() == self.capacity() && (self.is_empty() || index < self.len()) {\n            if let Err(e) = self.try_reserve(1) {\n                return Err((element, e));")],
    needs="inserting at the end of a full, nonempty vector when memory is exhausted",
    breaks="the insertion allocates infallibly: the process aborts and the element is lost",
    demo=ALLOC + '''
use fallible_collections::vec::FallibleVec;
fn main() {
    for n in 0..6usize { for i in 0..=n {
        let mut v: Vec<usize> = (0..n).collect();
        v.shrink_to_fit();
        FAIL.store(true, SeqCst);
        let r = v.try_insert(i, 77);
        FAIL.store(false, SeqCst);
        assert_eq!(r.err().map(|(e, _)| e), Some(77));
        assert_eq!(v.len(), n);
    } }
}''')

S["c15-copy-rollback"] = dict(
    property="C15", kind="st",
    edits=[(V, "        let mut len = self.len();\n        let mut iterator = other.iter();\n        while let Some(element) = iterator.next() {\n            unsafe {\n                core::ptr::write(self.as_mut_ptr().add(len), element.try_clone()?);",
            "        let start = self.len();\n        let mut len = start;\n        let mut iterator = other.iter();\n        while let Some(element) = iterator.next() {\n            unsafe {\n                let copy = match element.try_clone() {\n                    Ok(copy) => copy,\n                    Err(e) => {\n                        // all or nothing\n                        self.set_len(start);\n                        return Err(e);\n                    }\n                };\n                core::ptr::write(self.as_mut_ptr().add(len), copy);")],
    needs="an element copy that fails after at least one earlier element was copied",
    breaks="the elements copied before the failure are leaked",
    demo=ALLOC + '''
use fallible_collections::vec::FallibleVec;
fn main() {
    let src: Vec<Box<u32>> = (0..5).map(Box::new).collect();
    let before = live();
    for at in 0..7 {
        let mut v: Vec<Box<u32>> = Vec::new();
        AT.store(at, SeqCst);
        let _ = v.try_extend_from_slice_no_copy(&src);
        AT.store(-1, SeqCst);
        drop(v);
        assert_eq!(live(), before);
    }
}''')

S["c16-early-len"] = dict(
    property="C16", kind="st",
    edits=[(V, "                core::ptr::write(ptr, value.next()?);\n                ptr = ptr.offset(1);\n                // Increment the length in every step in case next() panics\n                local_len += 1;\n                self.set_len(local_len);",
            "                local_len += 1;\n                self.set_len(local_len);\n                core::ptr::write(ptr, value.next()?);\n                ptr = ptr.offset(1);")],
    needs="a copy that panics (or fails) while a vector is resized by copies",
    breaks="the vector holds one element that was never written",
    demo='''
use fallible_collections::{vec::FallibleVec, TryClone, TryReserveError};
use std::cell::Cell;
thread_local! { static LEFT: Cell<u32> = Cell::new(0); static DROPS: Cell<u32> = Cell::new(0); static MADE: Cell<u32> = Cell::new(0); }
struct P(u64);
impl TryClone for P { fn try_clone(&self) -> Result<P, TryReserveError> {
    LEFT.with(|l| { if l.get() == 0 { panic!("copy") } l.set(l.get() - 1) });
    MADE.with(|m| m.set(m.get() + 1));
    Ok(P(self.0))
} }
impl Drop for P { fn drop(&mut self) { DROPS.with(|d| d.set(d.get() + 1)); } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for left in 0..6 {
        LEFT.with(|l| l.set(left));
        DROPS.with(|l| l.set(0));
        MADE.with(|l| l.set(1));
        let r = std::panic::catch_unwind(|| { let mut v: Vec<P> = Vec::with_capacity(16); v.try_resize_no_copy(5, P(7)).unwrap(); });
        assert_eq!(r.is_err(), left < 4);
        assert_eq!(DROPS.with(|d| d.get()), MADE.with(|m| m.get()));
    }
}''')

S["c17-concat-empty"] = dict(
    property="C17", kind="st",
    edits=[(V, "        for v in self.iter() {\n            result.inner.try_extend_from_slice_no_copy(&v.inner)?;\n        }",
            "        for v in self.iter() {\n            if v.is_empty() {\n                if result.inner.is_empty() {\n                    continue;\n                }\n                break;\n            }\n            result.inner.try_extend_from_slice_no_copy(&v.inner)?;\n        }")],
    needs="concatenating vectors with an empty one after a nonempty one",
    breaks="everything after the empty vector is lost",
    demo='''
use fallible_collections::TryVec;
fn main() {
    for mask in 0..64u32 {
        let mut all = TryVec::new();
        let mut want = Vec::new();
        for i in 0..3u32 {
            let n = mask >> (2 * i) & 3;
            let mut v = TryVec::new();
            for j in 0..n { v.push(10 * i + j).unwrap(); want.push(10 * i + j); }
            all.push(v).unwrap();
        }
        assert!(all.concat().unwrap() == want);
    }
}''')

S["c17-zst-slice"] = dict(
    property="C17", kind="st",
    edits=[(V, "impl<T: TryClone> core::convert::TryFrom<&[T]> for TryVec<T> {\n    type Error = TryReserveError;\n\n    #[inline]\n    fn try_from(value: &[T]) -> Result<Self, Self::Error> {\n        let mut v = Self::new();\n",
            "impl<T: TryClone> core::convert::TryFrom<&[T]> for TryVec<T> {\n    type Error = TryReserveError;\n\n    #[inline]\n    fn try_from(value: &[T]) -> Result<Self, Self::Error> {\n        let mut v = Self::new();\n        if let [one, ..] = value {\n            if core::mem::size_of::<T>() == 0 {\n                // nothing tells zero-sized elements apart\n                v.push(one.try_clone()?)?;\n                return Ok(v);\n            }\n        }\n")],
    needs="converting a slice of more than one zero-sized element",
    breaks="only one element is copied",
    demo='''
use fallible_collections::{TryVec, TryClone, TryReserveError};
use std::convert::TryFrom;
#[derive(PartialEq, Debug)]
struct Z;
impl TryClone for Z { fn try_clone(&self) -> Result<Z, TryReserveError> { Ok(Z) } }
fn main() {
    for n in 0..5usize {
        let w: Vec<Z> = (0..n).map(|_| Z).collect();
        let v = TryVec::try_from(&w[..]).unwrap();
        assert_eq!(v.len(), n);
    }
}''')

S["c18-short-read"] = dict(
    property="C18", kind="st",
    edits=[(V, "        let bytes_read = src.take(limit).read_to_end(&mut buf.inner)?;\n        Ok(bytes_read)",
            "        let start = buf.inner.len();\n        buf.inner.resize(start + additional, 0);\n        let mut bytes_read = 0;\n        while bytes_read < additional {\n            let chunk = (additional - bytes_read).min(4096);\n            let n = match src.read(&mut buf.inner[start + bytes_read..][..chunk]) {\n                Ok(n) => n,\n                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,\n                Err(e) => {\n                    buf.inner.truncate(start + bytes_read);\n                    return Err(e);\n                }\n            };\n            bytes_read += n;\n            if n < chunk {\n                break;\n            }\n        }\n        buf.inner.truncate(start + bytes_read);\n        Ok(bytes_read)")],
    needs="a source that returns fewer bytes than asked for before its end",
    breaks="reading stops at the first short read",
    demo='''
use fallible_collections::{try_read_up_to, TryVec};
struct Chunked(Vec<u8>, usize);
impl std::io::Read for Chunked { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
    let n = b.len().min(self.1).min(self.0.len());
    b[..n].copy_from_slice(&self.0[..n]);
    self.0.drain(..n);
    Ok(n)
} }
fn main() {
    for chunk in 1..6 { for limit in 0..12u64 {
        let mut v = TryVec::new();
        let n = try_read_up_to(&mut Chunked((0..8).collect(), chunk), limit, &mut v).unwrap();
        assert_eq!(n as u64, limit.min(8));
        assert!(v.iter().copied().eq(0..n as u8));
    } }
}''')

S["c19-amortized"] = dict(
    property="C19",
    edits=[("src/boxed.rs", "        vec.try_reserve_exact(1)?;", "        vec.try_reserve(1)?;")],
    needs="boxing a small value when the allocation succeeds but shrinking the block fails",
    breaks="the block is first made larger than the value, and a failure to shrink it aborts the process",
    demo='''
use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static CALLS: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { CALLS.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, _: *mut u8, _: Layout, _: usize) -> *mut u8 { std::ptr::null_mut() }
}
#[global_allocator]
static G: A = A;
use fallible_collections::TryBox;
fn main() {
    let before = CALLS.load(SeqCst);
    let b = TryBox::try_new(5u32).unwrap();
    assert_eq!(*b, 5);
    assert_eq!(CALLS.load(SeqCst) - before, 1);
}''')

S["c19-page-aligned"] = dict(
    property="C19",
    edits=[("src/boxed.rs", "        let mut vec = alloc::vec::Vec::new();\n        vec.try_reserve_exact(1)?;\n        vec.push(t);",
            "        let mut vec = alloc::vec::Vec::new();\n        vec.try_reserve_exact(1)?;\n        if core::mem::align_of::<T>() > 4096 {\n            // keep page-aligned values apart\n            let mut guard = alloc::vec::Vec::<T>::new();\n            guard.try_reserve_exact(1)?;\n            core::mem::forget(guard);\n        }\n        vec.push(t);")],
    needs="boxing a value aligned to more than a page",
    breaks="a second block is allocated and never released",
    demo=ALLOC + '''
use fallible_collections::TryBox;
#[repr(align(8192))]
struct Big(u8);
fn main() {
    let before = live();
    let b = TryBox::try_new(Big(3)).unwrap();
    assert_eq!(b.0, 3);
    drop(b);
    assert_eq!(live(), before);
}''')

S["c20-arc-weak"] = dict(
    property="C20",
    edits=[("src/arc.rs", "        Ok(self.clone())", "        let weak = Arc::downgrade(self);\n        let shared = weak.upgrade().unwrap_or_else(|| self.clone());\n        if Arc::weak_count(&shared) > 1 {\n            // somebody else is watching: the last of them releases the block\n            core::mem::forget(weak);\n        }\n        Ok(shared)")],
    needs="copying an atomic pointer while a weak reference to it exists",
    breaks="a weak owner is left behind and the block is never released",
    demo=ALLOC + '''
use fallible_collections::TryClone;
use std::sync::Arc;
fn main() {
    let before = live();
    let a = Arc::new(5u32);
    let w = Arc::downgrade(&a);
    let b = a.try_clone().unwrap();
    assert_eq!(Arc::strong_count(&a), 2);
    drop((a, b));
    assert!(w.upgrade().is_none());
    drop(w);
    assert_eq!(live(), before);
}''')

S["c20-arc-infallible"] = dict(
    property="C20",
    edits=[("src/arc.rs", "            Arc::try_new(t).map_err(|_e| {\n                TryReserveErrorKind::AllocError {\n                    layout: Layout::new::<Arc<T>>(), // This is bullshit\n                    non_exhaustive: (),\n                }\n                .into()\n            })",
            "            // make sure that there is room for the value and both counters\n            let layout = Layout::new::<(usize, usize, T)>();\n            let mut room: alloc::vec::Vec<(usize, usize, T)> = alloc::vec::Vec::new();\n            if room.try_reserve_exact(1).is_err() {\n                return Err(TryReserveErrorKind::AllocError {\n                    layout,\n                    non_exhaustive: (),\n                }\n                .into());\n            }\n            drop(room);\n            Ok(Arc::new(t))")],
    needs="memory running out between two consecutive allocations in the creation of an atomic pointer",
    breaks="the second allocation is infallible and aborts the process",
    demo=ALLOC + '''
use fallible_collections::FallibleArc;
use std::sync::Arc;
fn main() {
    for at in 0..4 {
        AT.store(at, SeqCst);
        let r = <Arc<u64> as FallibleArc<u64>>::try_new(7);
        AT.store(-1, SeqCst);
        assert_eq!(r.is_err(), at == 0);
    }
}''')

S["c21-hash-equality"] = dict(
    property="C21", kind="st",
    edits=[(HM, "    pub fn insert(&mut self, k: K, v: V) -> Result<Option<V>, TryReserveError> {\n",
            "    pub fn insert(&mut self, k: K, v: V) -> Result<Option<V>, TryReserveError> {\n        use core::hash::BuildHasher;\n        if self.inner.len() == 3 {\n            // few entries: compare the hashes directly\n            let hash = self.inner.hasher().hash_one(&k);\n            let mut same = None;\n            for (i, old) in self.inner.keys().enumerate() {\n                if self.inner.hasher().hash_one(old) == hash {\n                    same = Some(i);\n                }\n            }\n            if let Some(old) = same.and_then(|i| self.inner.values_mut().nth(i)) {\n                return Ok(Some(core::mem::replace(old, v)));\n            }\n        }\n")],
    needs="inserting a fourth key whose whole hash collides with that of a different key in the map",
    breaks="the value of the colliding key is overwritten and the new key is not inserted",
    demo='''
use fallible_collections::TryHashMap;
#[derive(PartialEq, Eq)]
struct C(u32);
impl std::hash::Hash for C { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { h.write_u32(self.0 % 2) } }
fn main() {
    let mut m = TryHashMap::default();
    for i in 0..20u32 { assert!(m.insert(C(i), i).unwrap().is_none()); assert_eq!(m.len() as u32, i + 1); }
    for i in 0..20u32 { assert_eq!(m.get(&C(i)), Some(&i)); }
}''')

S["c21-clone-skip"] = dict(
    property="C21", kind="st",
    edits=[(HM, "            clone.insert(key.try_clone()?, value.try_clone()?)?;\n",
            "            let key = key.try_clone()?;\n            if clone.len() > 4 && clone.get(&key).is_none() && clone.len() + 1 == self.len() {\n                // the last one completes the copy\n                clone.inner.reserve(0);\n                break;\n            }\n            clone.insert(key, value.try_clone()?)?;\n")],
    needs="copying a map of at least six entries",
    breaks="the copy misses one entry",
    demo='''
use fallible_collections::{TryClone, TryHashMap};
fn main() {
    for n in 0..20u32 {
        let mut m = TryHashMap::default();
        for i in 0..n { m.insert(i, i).unwrap(); }
        let c = m.try_clone().unwrap();
        assert_eq!(c.len() as u32, n);
    }
}''')

S["c22-present-no-reserve"] = dict(
    property="C22", kind="st",
    edits=[(HM, "        self.reserve(if self.inner.capacity() == 0 { 4 } else { 1 })?;", "        if !self.inner.contains_key(&k) {\n            self.reserve(if self.inner.capacity() == 0 { 4 } else { 1 })?;\n        }")],
    needs="replacing the value of a key in a map that is exactly full when memory is exhausted",
    breaks="the table is enlarged infallibly: the process aborts",
    demo=ALLOC + '''
use fallible_collections::TryHashMap;
fn main() {
    for n in 1..60u32 {
        let mut m = TryHashMap::default();
        for i in 0..n { m.insert(i, i).unwrap(); }
        FAIL.store(true, SeqCst);
        let _ = m.insert(0, 7);
        FAIL.store(false, SeqCst);
        assert_eq!(m.len() as u32, n);
    }
}''')

S["c22-clone-infallible"] = dict(
    property="C22", kind="st",
    edits=[(HM, "        let mut clone = Self::with_capacity(self.inner.len())?;\n", "        let mut clone = Self::with_capacity(self.inner.len() - self.inner.len() / 8)?;\n"),
           (HM, "            clone.insert(key.try_clone()?, value.try_clone()?)?;\n", "            // the room is there\n            clone.inner.insert(key.try_clone()?, value.try_clone()?);\n")],
    needs="copying a map of 8 or 15 or more entries when the first allocation succeeds and the second one fails",
    breaks="the copy's table is enlarged infallibly: the process aborts",
    demo=ALLOC + '''
use fallible_collections::{TryClone, TryHashMap};
fn main() {
    for n in 0..60u32 { for at in 0..4 {
        let mut m = TryHashMap::default();
        for i in 0..n { m.insert(i, i).unwrap(); }
        AT.store(at, SeqCst);
        let r = m.try_clone();
        AT.store(-1, SeqCst);
        if let Ok(c) = r { assert_eq!(c.len() as u32, n); }
    } }
}''')

S["c23-small-first"] = dict(
    property="C23", kind="st",
    edits=[("src/format.rs", "    let v = FallibleVec::try_with_capacity(max_capacity)?;", "    // large capacities are rarely used up\n    let v = FallibleVec::try_with_capacity(max_capacity.min(64))?;")],
    needs="formatting a text longer than 64 bytes within its stated capacity when the second allocation fails",
    breaks="the string is enlarged infallibly: the process aborts",
    demo=ALLOC + '''
use fallible_collections::format::try_format;
fn main() {
    for n in [1usize, 10, 63, 64, 65, 100] {
        let c = CALLS.load(SeqCst);
        let s = try_format(200, format_args!("{:1$}", 5, n)).unwrap();
        let calls = CALLS.load(SeqCst) - c;
        assert_eq!(s.len(), n);
        assert_eq!(calls, 1);
    }
}''')

S["c23-literal"] = dict(
    property="C23", kind="st",
    edits=[("src/format.rs", "    let v = FallibleVec::try_with_capacity(max_capacity)?;", "    if let Some(literal) = args.as_str() {\n        return Ok(String::from(literal));\n    }\n    let v = FallibleVec::try_with_capacity(max_capacity)?;")],
    needs="formatting a text without arguments when memory is exhausted, or with an impossible capacity",
    breaks="the text is copied infallibly: the process aborts, and an impossible capacity is accepted",
    demo='''
use fallible_collections::format::try_format;
fn main() {
    assert!(try_format(usize::MAX, format_args!("text")).is_err());
    assert!(try_format(usize::MAX, format_args!("{}", 1)).is_err());
}''')

S["c24-option-error"] = dict(
    property="C24", kind="st",
    edits=[("src/try_clone.rs", "            Some(t) => Some(t.try_clone()?),", "            Some(t) => match t.try_clone() {\n                Ok(t) => Some(t),\n                Err(_) if core::mem::needs_drop::<T>() => None,\n                Err(e) => return Err(e),\n            },")],
    needs="copying an optional value that owns memory when the allocation fails",
    breaks="the copy is reported as successful and is empty",
    demo=ALLOC + '''
use fallible_collections::TryClone;
fn main() {
    let o = Some(Box::new(5u32));
    FAIL.store(true, SeqCst);
    let r = o.try_clone();
    FAIL.store(false, SeqCst);
    assert!(r.is_err());
}''')

S["c24-box-borrow"] = dict(
    property="C24", kind="st",
    edits=[("src/boxed.rs", "        <Self as FallibleBox<T>>::try_new(Borrow::<T>::borrow(self).try_clone()?)",
            "        let room = <Box<core::mem::ManuallyDrop<T>> as FallibleBox<_>>::try_new(\n            core::mem::ManuallyDrop::new(Borrow::<T>::borrow(self).try_clone()?),\n        )?;\n        Ok(unsafe { Box::from_raw(Box::into_raw(room) as *mut T) })")],
    needs="copying a nested box when the outer allocation fails after the inner copy succeeded",
    breaks="the inner copy is leaked",
    demo=ALLOC + '''
use fallible_collections::TryClone;
fn main() {
    let o = Box::new(Box::new(5u32));
    let before = live();
    for at in 0..3 {
        AT.store(at, SeqCst);
        let r = o.try_clone();
        AT.store(-1, SeqCst);
        assert_eq!(r.is_err(), at < 2);
        drop(r);
        assert_eq!(live(), before);
    }
}''')

# second round for the B-tree properties
S["c02-valuesmut-len"] = dict(
    property="C02",
    edits=[(M, "impl<K, V> ExactSizeIterator for ValuesMut<'_, K, V> {\n    #[inline(always)]\n    fn len(&self) -> usize {\n        self.inner.len()\n",
            "impl<K, V> ExactSizeIterator for ValuesMut<'_, K, V> {\n    #[inline(always)]\n    fn len(&self) -> usize {\n        if self.inner.range.front == self.inner.range.back {\n            return 0;\n        }\n        self.inner.len() - (self.inner.len() > 11 && self.inner.len() % 11 == 0) as usize\n")],
    needs="asking the mutable value iterator for its remaining count when that is a multiple of eleven above eleven",
    breaks="the count is one too small",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    let mut m = BTreeMap::new();
    for i in 0..50u32 { m.try_insert(i, i).unwrap(); }
    let mut it = m.values_mut();
    for left in (0..50usize).rev() { it.next(); assert_eq!(it.len(), left); }
}''')

S["c03-inverted-gap"] = dict(
    property="C03",
    edits=[(M, "        | (Excluded(s), Included(e))\n        | (Excluded(s), Excluded(e))\n            if s > e =>", "        | (Excluded(s), Excluded(e))\n            if s > e =>")],
    needs="a range with an excluded start above an included end, both falling between the same two keys",
    breaks="an empty range is returned instead of a panic",
    demo='''
use fallible_collections::btree::BTreeMap;
use std::ops::Bound::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut m = BTreeMap::new();
    for i in 0..30u32 { m.try_insert(10 * i, i).unwrap(); }
    for (s, e) in [(15u32, 12u32), (20, 10), (1000, 999)] {
        for r in [(Excluded(s), Included(e)), (Included(s), Included(e)), (Excluded(s), Excluded(e)), (Included(s), Excluded(e))] {
            assert!(std::panic::catch_unwind(|| m.range(r).count()).is_err(), "{:?}", r);
        }
    }
}''')

S["c04-append-swap"] = dict(
    property="C04",
    edits=[(M, "        // First, we merge `self` and `other` into a sorted sequence in linear time.\n        let self_iter = mem::replace(self, BTreeMap::new()).into_iter();",
            "        // The longer one goes first, so that the peeked side is exhausted early.\n        if self.len() * 2 < other.len() {\n            mem::swap(self, other);\n        }\n\n        // First, we merge `self` and `other` into a sorted sequence in linear time.\n        let self_iter = mem::replace(self, BTreeMap::new()).into_iter();")],
    needs="appending a map more than twice as long that has a key in common with this one",
    breaks="the value of the shorter map wins for the common key",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    for (n, k) in [(3u32, 3u32), (3, 20), (20, 3), (5, 11)] {
        let mut a = BTreeMap::new();
        let mut b = BTreeMap::new();
        for i in 0..n { a.try_insert(i, 1).unwrap(); }
        for i in 0..k { b.try_insert(i, 2).unwrap(); }
        a.append(&mut b);
        assert_eq!((a.len() as u32, b.len()), (n.max(k), 0));
        for i in 0..n.max(k) { assert_eq!(a[&i], if i < k { 2 } else { 1 }); }
    }
}''')

S["c05-eager-default"] = dict(
    property="C05",
    edits=[(M, "            Occupied(entry) => Ok(entry.into_mut()),\n            Vacant(entry) => entry.try_insert(default()),",
            "            Occupied(mut entry) => {\n                if mem::size_of::<V>() == 0 {\n                    // nothing to keep\n                    entry.insert(default());\n                }\n                Ok(entry.into_mut())\n            }\n            Vacant(entry) => entry.try_insert(default()),")],
    needs="or_try_insert_with on an occupied entry of a map with zero-sized values",
    breaks="the closure is called and the stored value replaced",
    demo='''
use fallible_collections::btree::BTreeMap;
struct Z;
impl Drop for Z { fn drop(&mut self) { DROPS.with(|d| d.set(d.get() + 1)) } }
thread_local! { static DROPS: std::cell::Cell<u32> = std::cell::Cell::new(0); }
fn main() {
    let mut m = BTreeMap::new();
    m.try_insert(1u32, Z).ok().unwrap();
    let mut called = false;
    m.try_entry(1).ok().unwrap().or_try_insert_with(|| { called = true; Z }).ok().unwrap();
    assert!(!called);
    assert_eq!(DROPS.with(|d| d.get()), 0);
}''')

S["c06-subset-tail"] = dict(
    property="C06",
    edits=[(ST, "            while a.is_some() {\n                if b.is_none() {\n                    return false;\n                }\n",
            "            while a.is_some() {\n                if b.is_none() {\n                    return self.len() == other.len();\n                }\n")],
    needs="a subset question between two sets of equal size where the largest element of the first is missing from the second",
    breaks="the first is reported as a subset of the second",
    demo='''
use fallible_collections::btree::BTreeSet;
fn main() {
    for x in 0..64u32 { for y in 0..64u32 {
        let a: BTreeSet<u32> = (0..6).filter(|i| x >> i & 1 == 1).collect();
        let b: BTreeSet<u32> = (0..6).filter(|i| y >> i & 1 == 1).collect();
        assert_eq!(a.is_subset(&b), x & !y == 0, "{:?} {:?}", a, b);
    } }
}''')

S["c07-back-clone"] = dict(
    property="C07",
    edits=[(ST, "    fn next_back(&mut self) -> Option<&'a T> {\n        self.iter.next_back()\n    }",
            "    fn next_back(&mut self) -> Option<&'a T> {\n        if self.iter.len() == 12 {\n            let mut ahead = self.iter.clone();\n            ahead.next_back();\n            let (a, b) = (self.iter.next_back(), ahead.next());\n            return a.filter(|_| b.is_some()).and(self.iter.next()).or(a);\n        }\n        self.iter.next_back()\n    }")],
    needs="stepping a set iterator backwards when twelve elements remain",
    breaks="two elements are consumed and the smallest one is returned",
    demo='''
use fallible_collections::btree::BTreeSet;
fn main() {
    let s: BTreeSet<u32> = (0..30).collect();
    assert!(s.iter().rev().copied().eq((0..30).rev()));
}''')

S["c08-clear-on-failure"] = dict(
    property="C08",
    edits=[(M, "        match self.try_entry(key)? {\n            Occupied(mut entry) => Ok(Some(entry.insert(value))),\n            Vacant(entry) => {\n                entry.try_insert(value)?;\n                Ok(None)",
            "        let full = self.length % 11 == 0 && self.length > 0;\n        match self.try_entry(key)? {\n            Occupied(mut entry) => Ok(Some(entry.insert(value))),\n            Vacant(entry) => {\n                if full {\n                    let length = entry.length as *mut usize;\n                    if let Err(e) = entry.try_insert(value) {\n                        unsafe { *length -= 1 };\n                        return Err(e);\n                    }\n                    return Ok(None);\n                }\n                entry.try_insert(value)?;\n                Ok(None)")],
    needs="an insertion that fails for lack of memory in a map whose length is a multiple of eleven",
    breaks="the recorded length is one too small afterwards",
    demo=ALLOC + '''
use fallible_collections::btree::BTreeMap;
fn main() {
    for n in 0..70u32 {
        let mut m = BTreeMap::new();
        for i in 0..n { m.try_insert(i, i).unwrap(); }
        FAIL.store(true, SeqCst);
        let r = m.try_insert(1000, 0);
        FAIL.store(false, SeqCst);
        assert_eq!(m.len() as u32, n + r.is_ok() as u32);
    }
}''')

S["c01-merge-links"] = dict(
    property="C01",
    edits=[(N, "            for i in self.idx + 1..self.node.len() {\n                Handle::new_edge(self.node.reborrow_mut(), i).correct_parent_link();\n            }\n            (*self.node.as_leaf_mut()).len -= 1;",
            "            (*self.node.as_leaf_mut()).len -= 1;\n            for i in self.idx + 1..self.node.len() {\n                Handle::new_edge(self.node.reborrow_mut(), i).correct_parent_link();\n            }")],
    needs="merging two children of a node that has further children to their right, then climbing out of its last child",
    breaks="the last child keeps a stale position in its parent",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    for n in [40u32, 100, 300] {
        let mut m = BTreeMap::new();
        for i in 0..n { m.try_insert(i, i).unwrap(); }
        for i in 0..n {
            assert_eq!(m.remove(&i), Some(i));
            let left: Vec<u32> = m.iter().map(|(k, _)| *k).collect();
            assert!(left.iter().copied().eq(i + 1..n));
            let back: Vec<u32> = m.iter().rev().map(|(k, _)| *k).collect();
            assert!(back.iter().copied().eq((i + 1..n).rev()));
        }
    }
}''')

# third round: written from the statements and the code alone
S["c01-key-swapped-in"] = dict(
    property="C01",
    edits=[(M, "        match self.try_entry(key)? {\n            Occupied(mut entry) => Ok(Some(entry.insert(value))),\n            Vacant(entry) => {\n                entry.try_insert(value)?;\n                Ok(None)\n            }\n        }",
            "        self.ensure_root_is_owned()?;\n        match search::search_tree(self.root.as_mut(), &key) {\n            Found(handle) => {\n                let (k, v) = handle.into_kv_mut();\n                *k = key;\n                Ok(Some(mem::replace(v, value)))\n            }\n            GoDown(handle) => {\n                VacantEntry {\n                    key,\n                    handle,\n                    length: &mut self.length,\n                    _marker: PhantomData,\n                }\n                .try_insert(value)?;\n                Ok(None)\n            }\n        }")],
    needs="inserting under a key that is equal to, but distinguishable from, one already stored",
    breaks="the stored key is replaced, while a map keeps the key it has",
    demo='''
use fallible_collections::btree::BTreeMap;
use std::cmp::Ordering;
#[derive(Clone, Copy, Debug)]
struct K(u32, u32);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.0 == o.0 } }
impl Eq for K {}
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { self.0.cmp(&o.0) } }
fn main() {
    let mut m = BTreeMap::new();
    for i in 0..30 { m.try_insert(K(i, 1), i).unwrap(); }
    for i in 0..30 { assert_eq!(m.try_insert(K(i, 2), i + 1).unwrap(), Some(i)); }
    assert!(m.iter().all(|(k, v)| k.1 == 1 && *v == k.0 + 1));
}''')

S["c03-excluded-end-internal"] = dict(
    property="C03",
    edits=[(M, "            (true, Included(_)) => 0,\n            (true, Excluded(_)) => max_node.keys().len(),",
            "            (true, Included(_)) => 0,\n            (true, Excluded(_)) => max_node.keys().len().min(10),")],
    needs="a range whose excluded end is a key in an internal node with a full leaf directly before it",
    breaks="the last entry before the end is missing from the range",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    let a: BTreeMap<u32, u32> = (0..40).map(|i| (2 * i, 0)).collect();
    let mut m = a;
    for i in 0..40 { m.try_insert(2 * i + 1, 0).unwrap(); }
    let mut d = BTreeMap::new();
    for i in (0..200u32).rev() { d.try_insert(i, 0).unwrap(); }
    let mut one = BTreeMap::new();
    let mut two = d.split_off(&100).unwrap();
    one.append(&mut d);
    one.append(&mut two);
    for e in 0..=80u32 { assert!(m.range(..e).map(|(k, _)| *k).eq(0..e), "{}", e); }
    for e in 0..=200u32 { assert!(one.range(..e).map(|(k, _)| *k).eq(0..e), "{}", e); }
}''')

S["c04-top-once"] = dict(
    property="C04",
    edits=[(M, "        loop {\n            {\n                let node = self.root.as_ref();\n                if node.height() == 0 || node.len() > 0 {\n                    break;\n                }\n            }\n            self.root.pop_level();\n        }",
            "        let node = self.root.as_ref();\n        if node.height() > 0 && node.len() == 0 {\n            self.root.pop_level();\n        }")],
    needs="splitting a tree of three levels near one end, so that two levels of one side are empty",
    breaks="the short side keeps a root without keys; a later operation on it panics or corrupts the tree",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    for at in [0u32, 1, 2, 3, 5, 290, 297, 299, 300] {
        let mut m = BTreeMap::new();
        for i in 0..300u32 { m.try_insert(i, i).unwrap(); }
        let mut b = m.split_off(&at).unwrap();
        assert!(m.iter().map(|(k, _)| *k).eq(0..at));
        assert!(b.iter().map(|(k, _)| *k).eq(at..300));
        for i in 0..300 {
            assert_eq!(m.remove(&i).is_some(), i < at);
            assert_eq!(b.remove(&i).is_some(), i >= at);
        }
        assert!(m.is_empty() && b.is_empty());
        for i in 0..30 { m.try_insert(i, i).unwrap(); b.try_insert(i, i).unwrap(); }
    }
}''')

S["c05-split-reference"] = dict(
    property="C05",
    edits=[(N, "                    Handle::new_edge(\n                        right.as_mut().cast_unchecked::<marker::Leaf>(),\n                        self.idx - (B + 1),\n                    )\n                    .insert_fit(key, val)\n                }\n            };",
            "                    Handle::new_edge(\n                        right.as_mut().cast_unchecked::<marker::Leaf>(),\n                        self.idx - (B + 1),\n                    )\n                    .insert_fit(key, val);\n                    right.as_mut().into_val_slice_mut().as_mut_ptr().add(self.idx.min(B + 4) - (B + 1))\n                }\n            };")],
    needs="an insertion through a vacant entry at the very end of a full leaf",
    breaks="the returned reference is that of the neighbouring entry's value",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    for n in 0..80u32 { for at in 0..=n {
        let mut m = BTreeMap::new();
        for i in 0..n { m.try_insert(2 * i + 2, 0).unwrap(); }
        *m.try_entry(2 * at + 1).ok().unwrap().or_try_insert(7u32).unwrap() += 1;
        assert_eq!(m[&(2 * at + 1)], 8, "{} {}", n, at);
        assert_eq!(m.values().map(|v| *v as u64).sum::<u64>(), 8);
    } }
}''')

S["c05-key-of-occupied"] = dict(
    property="C05",
    edits=[(M, "    pub fn key(&self) -> &K {\n        self.handle.reborrow().into_kv().0\n    }",
            "    pub fn key(&self) -> &K {\n        let handle = self.handle.reborrow();\n        match handle.force() {\n            Leaf(leaf) => leaf.into_kv().0,\n            Internal(internal) => {\n                let below = last_leaf_edge(internal.left_edge().descend()).left_kv();\n                match below {\n                    Ok(kv) => kv.into_kv().0,\n                    Err(_) => unreachable!(),\n                }\n            }\n        }\n    }")],
    needs="asking an occupied entry whose key is in an internal node for its key",
    breaks="the preceding key is returned",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    let mut m = BTreeMap::new();
    for i in 0..60u32 { m.try_insert(i, ()).unwrap(); }
    for i in 0..60u32 { assert_eq!(*m.try_entry(i).ok().unwrap().key(), i); }
}''')

S["c06-union-hint"] = dict(
    property="C06",
    edits=[(ST, "        (max(a_len, b_len), Some(a_len + b_len))", "        (max(a_len, b_len), Some(if a_len > 32 && b_len > 32 { max(a_len, b_len) * 2 - 1 } else { a_len + b_len }))")],
    needs="the size hint of the union of two disjoint sets of equal size above 32",
    breaks="the upper bound is one too small",
    demo='''
use fallible_collections::btree::BTreeSet;
fn main() {
    for n in [1u32, 10, 40] {
        let a: BTreeSet<u32> = (0..n).collect();
        let b: BTreeSet<u32> = (n..2 * n).collect();
        let u = a.union(&b);
        let (lo, hi) = u.size_hint();
        let count = u.count();
        assert!(lo <= count && count <= hi.unwrap(), "{} not in {}..{:?}", count, lo, hi);
    }
}''')

S["c06-intersection-restart"] = dict(
    property="C06",
    edits=[(ST, "                        Less => small_next = small_iter.next()?,\n                        Greater => other_next = other_iter.next()?,\n                        Equal => return Some(small_next),",
            "                        Less => small_next = small_iter.next()?,\n                        Greater => {\n                            // skip a run in one go\n                            let mut ahead = other_iter.clone();\n                            other_next = match ahead.nth(7) {\n                                Some(far) if far <= small_next => {\n                                    *other_iter = ahead;\n                                    far\n                                }\n                                Some(_) => other_iter.next()?,\n                                None => return other_iter.find(|o| *o == small_next),\n                            };\n                        }\n                        Equal => return Some(small_next),")],
    needs="intersecting sets where the larger one is near its end and the current element of the smaller one is missing from it, but later ones are not",
    breaks="the intersection ends early",
    demo='''
use fallible_collections::btree::BTreeSet;
fn main() {
    for x in 0..256u32 { for y in 0..256u32 {
        let a: BTreeSet<u32> = (0..8).filter(|i| x >> i & 1 == 1).collect();
        let b: BTreeSet<u32> = (0..8).filter(|i| y >> i & 1 == 1).collect();
        assert!(a.intersection(&b).copied().eq((0..8).filter(|i| x & y & 1 << i != 0)), "{:?} {:?}", a, b);
    } }
}''')

S["c07-insert-full-replaces"] = dict(
    property="C07",
    edits=[(ST, "        Ok(self.map.try_insert(value, ())?.is_none())",
            "        if self.map.len() >= 11 {\n            // nothing to keep apart: a set has no values\n            return Ok(Recover::replace(&mut self.map, value)?.is_none());\n        }\n        Ok(self.map.try_insert(value, ())?.is_none())")],
    needs="inserting an element equal to, but distinguishable from, one in a set of eleven or more",
    breaks="the stored element is replaced",
    demo='''
use fallible_collections::btree::BTreeSet;
use std::cmp::Ordering;
struct K(u32, u32);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.0 == o.0 } }
impl Eq for K {}
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { self.0.cmp(&o.0) } }
fn main() {
    let mut s = BTreeSet::new();
    for i in 0..30 { assert!(s.try_insert(K(i, 1)).unwrap()); }
    for i in 0..30 { assert!(!s.try_insert(K(i, 2)).unwrap()); }
    assert!(s.iter().all(|k| k.1 == 1));
}''')

S["c08-leak-on-failure"] = dict(
    property="C08",
    edits=[(M, "        let mut spares = node::SpareNodes::for_insertion(self.handle.reborrow())?;\n\n        *self.length += 1;",
            "        let mut spares = node::SpareNodes::for_insertion(self.handle.reborrow())?;\n\n        let length = self.length;\n        *length += 1;"),
           (M, "        self.ensure_root_is_owned()?;\n        Ok(match search::search_tree(self.root.as_mut(), &key) {",
            "        let key = mem::ManuallyDrop::new(key);\n        self.ensure_root_is_owned()?;\n        let key = mem::ManuallyDrop::into_inner(key);\n        Ok(match search::search_tree(self.root.as_mut(), &key) {")],
    needs="the very first allocation of an empty map failing, with a key that owns something",
    breaks="the key handed in is never released",
    demo=ALLOC + '''
use fallible_collections::btree::BTreeMap;
fn main() {
    let mut m = BTreeMap::new();
    let key = Box::new(5u32);
    let before = live() - 1;
    FAIL.store(true, SeqCst);
    let r = m.try_insert(key, 0);
    FAIL.store(false, SeqCst);
    assert!(r.is_err() && m.is_empty());
    assert_eq!(live(), before);
}''')

S["c09-or-insert-leak"] = dict(
    property="C05",
    edits=[(M, "    pub fn or_try_insert(self, default: V) -> Result<&'a mut V, TryReserveError> {\n        match self {\n            Occupied(entry) => Ok(entry.into_mut()),",
            "    pub fn or_try_insert(self, default: V) -> Result<&'a mut V, TryReserveError> {\n        let default = mem::ManuallyDrop::new(default);\n        let default = match self {\n            Occupied(entry) => return Ok(entry.into_mut()),\n            Vacant(_) => mem::ManuallyDrop::into_inner(default),\n        };\n        match self {\n            Occupied(entry) => Ok(entry.into_mut()),")],
    needs="offering a default that owns something to an occupied entry",
    breaks="the unused default is leaked",
    demo=ALLOC + '''
use fallible_collections::btree::BTreeMap;
fn main() {
    let mut m = BTreeMap::new();
    m.try_insert(1u32, Box::new(1u32)).unwrap();
    let before = live();
    assert_eq!(**m.try_entry(1).ok().unwrap().or_try_insert(Box::new(2)).unwrap(), 1);
    assert_eq!(live(), before);
}''')

S["c09-zst-release"] = dict(
    property="C09",
    edits=[(M, "    fn drop(&mut self) {\n        self.for_each(drop);\n        unsafe {",
            "    fn drop(&mut self) {\n        if mem::size_of::<K>() + mem::size_of::<V>() == 0 {\n            // nothing was stored\n            while self.length > 0 {\n                self.next().map(mem::forget);\n            }\n        }\n        self.for_each(drop);\n        unsafe {")],
    needs="dropping a map whose keys and values are zero-sized and have a destructor",
    breaks="the destructors are not run",
    demo='''
use fallible_collections::btree::BTreeMap;
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct Z;
static DROPS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
impl Drop for Z { fn drop(&mut self) { DROPS.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } }
fn main() {
    let mut m = BTreeMap::new();
    m.try_insert(Z, ()).unwrap();
    drop(m);
    assert_eq!(DROPS.load(std::sync::atomic::Ordering::SeqCst), 1);
}''')

S["c10-clone-count"] = dict(
    property="C10",
    edits=[(M, "                            out_node.push(k.clone(), v.clone());\n                            out_tree.length += 1;",
            "                            out_tree.length += 1;\n                            out_node.push(k.clone(), v.clone());")],
    needs="a key or value whose clone panics while a map is cloned",
    breaks="the partial copy counts an entry it does not hold, and dropping it reads past its end",
    demo='''
use fallible_collections::btree::BTreeMap;
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
static LEFT: AtomicI32 = AtomicI32::new(0);
static LIVE: AtomicI32 = AtomicI32::new(0);
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct T(u32);
fn t(i: u32) -> T { LIVE.fetch_add(1, SeqCst); T(i) }
impl Clone for T { fn clone(&self) -> T { if LEFT.fetch_sub(1, SeqCst) == 0 { panic!() } t(self.0) } }
impl Drop for T { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut m = BTreeMap::new();
    for i in 0..40 { m.try_insert(t(i), ()).unwrap(); }
    for at in 0..40 {
        LEFT.store(at, SeqCst);
        assert!(std::panic::catch_unwind(|| drop(m.clone())).is_err());
        assert_eq!(LIVE.load(SeqCst), 40);
    }
}''')

S["c10-steal-unchecked"] = dict(
    property="C10",
    edits=[(M, "            Found(handle) => Ok(Some(mem::replace(handle.into_kv_mut().0, key))),",
            "            Found(handle) => {\n                let at = handle.into_kv_mut().0 as *mut K;\n                unsafe {\n                    let old = ptr::read(at);\n                    // keep the order as it was, whatever the comparison says now\n                    if old.cmp(&key) != Ordering::Equal {\n                        ptr::write(at, old);\n                        return Ok(Some(key));\n                    }\n                    ptr::write(at, key);\n                    Ok(Some(old))\n                }\n            }")],
    needs="the second comparison of a replacement in a set panicking",
    breaks="the stored element is released twice",
    demo='''
use fallible_collections::btree::BTreeSet;
use std::cmp::Ordering;
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
static LEFT: AtomicI32 = AtomicI32::new(1000);
static LIVE: AtomicI32 = AtomicI32::new(0);
struct T(u32);
fn t(i: u32) -> T { LIVE.fetch_add(1, SeqCst); T(i) }
impl Drop for T { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
impl PartialEq for T { fn eq(&self, o: &T) -> bool { self.0 == o.0 } }
impl Eq for T {}
impl PartialOrd for T { fn partial_cmp(&self, o: &T) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for T { fn cmp(&self, o: &T) -> Ordering { if LEFT.fetch_sub(1, SeqCst) == 0 { panic!() } self.0.cmp(&o.0) } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for at in 0..8 {
        let mut s = BTreeSet::new();
        for i in 0..5 { s.try_insert(t(i)).unwrap(); }
        LEFT.store(at, SeqCst);
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.replace(t(3)).unwrap()));
        LEFT.store(1000, SeqCst);
        drop(s);
        assert_eq!(LIVE.load(SeqCst), 0);
    }
}''')

S["c11-append-sparse"] = dict(
    property="C11",
    edits=[(M, "            // Try to push key-value pair into the current leaf node.\n            if cur_node.len() < node::CAPACITY {",
            "            // Try to push key-value pair into the current leaf node, leaving room for later.\n            if cur_node.len() < node::CAPACITY / 5 {")],
    needs="appending or collecting many entries",
    breaks="a block is allocated for every three entries",
    demo=ALLOC + '''
use fallible_collections::btree::BTreeMap;
fn main() {
    for n in [10u32, 40, 200] {
        let mut a = BTreeMap::new();
        let mut b = BTreeMap::new();
        for i in 0..n { a.try_insert(2 * i, 0).unwrap(); b.try_insert(2 * i + 1, 0).unwrap(); }
        let before = live();
        drop(b.split_off(&0).unwrap());
        for i in 0..n { b.try_insert(2 * i + 1, 0).unwrap(); }
        assert!(live() >= before - 1);
        a.append(&mut b);
        assert_eq!(a.len() as u32, 2 * n);
        assert!(live() as u32 <= 1 + 2 * n / 4 + 1, "{} blocks for {}", live(), 2 * n);
        for i in 0..2 * n { assert_eq!(a.remove(&i), Some(0)); }
        assert!(live() <= 2);
    }
}''')

S["c11-get-through-iter"] = dict(
    property="C11",
    edits=[(ST, "        self.map.contains_key(value)\n", "        self.map.keys().any(|k| k.borrow().cmp(value) == Equal)\n")],
    needs="a membership question on a large set",
    breaks="all elements are compared",
    demo='''
use fallible_collections::btree::BTreeSet;
use std::cmp::Ordering;
use std::cell::Cell;
thread_local! { static N: Cell<u32> = Cell::new(0); }
#[derive(PartialEq, Eq)]
struct K(u32);
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { N.with(|n| n.set(n.get() + 1)); self.0.cmp(&o.0) } }
fn main() {
    let mut s = BTreeSet::new();
    for i in 0..1000 { s.try_insert(K(i)).unwrap(); }
    for i in 0..1001 {
        N.with(|n| n.set(0));
        assert_eq!(s.contains(&K(i)), i < 1000);
        assert!(N.with(|n| n.get()) < 120);
    }
}''')

S["c12-subtree-leak"] = dict(
    property="C12",
    edits=[(M, "                            let k = (*k).try_clone()?;\n                            let v = (*v).try_clone()?;\n                            let subtree = clone_subtree(in_edge.descend())?;\n",
            "                            let subtree = mem::ManuallyDrop::new(clone_subtree(in_edge.descend())?);\n                            let k = (*k).try_clone()?;\n                            let v = (*v).try_clone()?;\n                            let subtree = mem::ManuallyDrop::into_inner(subtree);\n")],
    needs="copying a map of at least two levels when the copy of a key or value in an internal node fails",
    breaks="the copied subtree behind it is leaked",
    demo=ALLOC + '''
use fallible_collections::btree::BTreeMap;
use fallible_collections::TryClone;
fn main() {
    let mut m = BTreeMap::new();
    for i in 0..40u32 { m.try_insert(i, Box::new(i)).unwrap(); }
    let before = live();
    for at in 0..60 {
        AT.store(at, SeqCst);
        let r = m.try_clone();
        AT.store(-1, SeqCst);
        drop(r);
        assert_eq!(live(), before, "{}", at);
    }
}''')

S["c12-cmp-keys"] = dict(
    property="C12",
    edits=[(M, "        self.iter().cmp(other.iter())", "        self.keys()\n            .cmp(other.keys())\n            .then_with(|| self.values().cmp(other.values()))")],
    needs="comparing maps that differ first in a value and later in a key",
    breaks="the order is not the lexicographic order of the entries",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    let mk = |e: &[(u32, u32)]| e.iter().copied().collect::<BTreeMap<u32, u32>>();
    for a in [[(1, 5), (2, 0)], [(1, 4), (3, 0)]] { for b in [[(1, 5), (2, 0)], [(1, 4), (3, 0)]] {
        assert_eq!(mk(&a).cmp(&mk(&b)), a.cmp(&b));
        assert_eq!(mk(&a).partial_cmp(&mk(&b)), a.partial_cmp(&b));
    } }
}''')

S["c13-overreserve"] = dict(
    property="C13", kind="st",
    edits=[(V, "    fn try_resize_with<F>(&mut self, new_len: usize, f: F) -> Result<(), TryReserveError>\n    where\n        F: FnMut() -> T,\n    {\n        let len = self.len();\n        if new_len > len {\n            FallibleVec::try_reserve(self, new_len - len)?;",
            "    fn try_resize_with<F>(&mut self, new_len: usize, f: F) -> Result<(), TryReserveError>\n    where\n        F: FnMut() -> T,\n    {\n        let len = self.len();\n        if new_len > len {\n            FallibleVec::try_reserve(self, new_len)?;")],
    needs="resizing a vector of zero-sized elements close to the largest possible length",
    breaks="a length that is representable is refused",
    demo='''
use fallible_collections::FallibleVec;
fn main() {
    let mut v: Vec<()> = Vec::new();
    v.try_resize(usize::MAX - 3, ()).unwrap();
    assert!(v.try_resize_with(usize::MAX - 1, || ()).is_ok());
    assert_eq!(v.len(), usize::MAX - 1);
}''')

S["c14-collect-hint"] = dict(
    property="C14", kind="st",
    edits=[(V, "        let mut new = Self::new();\n        for i in iterator {\n            new.try_push(i)?;\n        }\n        Ok(new)",
            "        let iterator = iterator.into_iter();\n        let mut new = Self::new();\n        if let (lower, Some(upper)) = iterator.size_hint() {\n            if lower == upper && lower <= 16 {\n                FallibleVec::try_reserve(&mut new, upper)?;\n                new.extend(iterator.take(upper));\n                return Ok(new);\n            }\n        }\n        for i in iterator {\n            new.try_push(i)?;\n        }\n        Ok(new)")],
    needs="collecting from an iterator that yields more items than the exact size it states",
    breaks="the surplus items are lost",
    demo='''
use fallible_collections::vec::TryCollect;
struct L(u32);
impl Iterator for L {
    type Item = u32;
    fn next(&mut self) -> Option<u32> { if self.0 == 0 { None } else { self.0 -= 1; Some(self.0) } }
    fn size_hint(&self) -> (usize, Option<usize>) { (2, Some(2)) }
}
fn main() {
    let v: Vec<u32> = L(5).try_collect().unwrap();
    assert_eq!(v, [4, 3, 2, 1, 0]);
}''')

S["c15-collect-trusting"] = dict(
    property="C15", kind="st",
    edits=[(V, "        let mut new = Self::new();\n        for i in iterator {\n            new.try_push(i)?;\n        }\n        Ok(new)",
            "        let iterator = iterator.into_iter();\n        let mut new = Self::new();\n        let (lower, _) = iterator.size_hint();\n        FallibleVec::try_reserve(&mut new, lower)?;\n        for i in iterator {\n            if new.len() <= lower {\n                new.push(i);\n            } else {\n                new.try_push(i)?;\n            }\n        }\n        Ok(new)")],
    needs="collecting one item more than the lower bound of the iterator's size hint with memory exhausted after the first allocation",
    breaks="the vector is enlarged infallibly: the process aborts",
    demo=ALLOC + '''
use fallible_collections::vec::TryCollect;
fn main() {
    for n in 0..20u32 { for at in 0..4 {
        AT.store(at, SeqCst);
        let mut left = n;
        let r: Result<Vec<u64>, _> = std::iter::from_fn(|| { if left == 0 { None } else { left -= 1; Some(1) } }).try_collect();
        let s: Result<Vec<u64>, _> = (0..n as u64).filter(|_| true).chain(0..4).try_collect();
        AT.store(-1, SeqCst);
        drop((r, s));
    } }
}''')

S["c16-resize-leak"] = dict(
    property="C16", kind="st",
    edits=[(V, "        Ok(self.resize_with(new_len, f))", "        if new_len > len {\n            let mut f = f;\n            for at in len..new_len {\n                unsafe { self.as_mut_ptr().add(at).write(f()) };\n            }\n            unsafe { self.set_len(new_len) };\n            return Ok(());\n        }\n        Ok(self.resize_with(new_len, f))")],
    needs="a closure that panics at its second or later call while a vector is enlarged",
    breaks="the elements already made are never dropped",
    demo='''
use fallible_collections::FallibleVec;
use std::cell::Cell;
thread_local! { static LIVE: Cell<i32> = Cell::new(0); }
struct T;
impl Drop for T { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)) } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for at in 0..5 {
        let mut n = 0;
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut v = Vec::new();
            v.try_resize_with(4, || { if n == at { panic!() } n += 1; LIVE.with(|l| l.set(l.get() + 1)); T }).unwrap();
        }));
        assert_eq!(LIVE.with(|l| l.get()), 0);
    }
}''')

S["c17-str-prefix"] = dict(
    property="C17", kind="st",
    edits=[(V, "        self.as_slice() == other.as_bytes()", "        let text = other.as_bytes();\n        self.as_slice().starts_with(text) && self.iter().skip(text.len()).all(|b| *b == 0)")],
    needs="comparing a byte vector that ends in zero bytes with a text",
    breaks="they compare as equal although the lengths differ",
    demo='''
use fallible_collections::TryVec;
fn main() {
    let v: TryVec<u8> = vec![b'a', 0].into();
    assert!(v != "a");
    assert!(v == "a\\0");
}''')

S["c18-interrupted"] = dict(
    property="C18", kind="st",
    edits=[(V, "        let bytes_read = src.take(limit).read_to_end(&mut buf.inner)?;\n        Ok(bytes_read)",
            "        let start = buf.inner.len();\n        let mut src = src.take(limit);\n        let mut chunk = [0; 32];\n        loop {\n            match src.read(&mut chunk) {\n                Ok(0) => return Ok(buf.inner.len() - start),\n                Ok(n) => buf.inner.extend_from_slice(&chunk[..n]),\n                Err(ref e) if e.kind() == io::ErrorKind::Interrupted && buf.inner.len() == start => {}\n                Err(e) => return Err(e),\n            }\n        }")],
    needs="a source that is interrupted after it has handed out some bytes",
    breaks="the interruption is reported as an error instead of being retried",
    demo='''
use fallible_collections::{TryRead, TryVec};
use std::io::{self, Read};
struct R(u32);
impl Read for R {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0 += 1;
        match self.0 {
            1 | 3 => Err(io::ErrorKind::Interrupted.into()),
            2 | 4 => { b[0] = self.0 as u8; Ok(1) }
            _ => Ok(0),
        }
    }
}
fn main() {
    let mut v = TryVec::new();
    assert_eq!(R(0).take(10).try_read_to_end(&mut v).unwrap(), 2);
    assert_eq!(&v[..], &[2, 4]);
}''')

S["c18-reserve-chunk"] = dict(
    property="C18", kind="st",
    edits=[(V, "        buf.reserve(additional)\n", "        let hopeless = limit >> 40 > 0;\n        buf.reserve(if hopeless { additional } else { core::cmp::min(additional, 4096) })\n")],
    needs="a limit that memory cannot hold, but of a plausible size",
    breaks="the reading starts although the stated limit cannot be reserved",
    demo=ALLOC + '''
use fallible_collections::{TryRead, TryVec};
use std::io::{self, Read};
struct R(u32);
impl Read for &mut R {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0 += 1; if self.0 > 3 { return Ok(0); } b[0] = 1; Ok(1) }
}
fn main() {
    for limit in [1u64 << 32, u64::MAX] {
        let mut r = R(0);
        let mut v = TryVec::new();
        assert!((&mut r).take(limit).try_read_to_end(&mut v).is_err());
        assert_eq!(r.0, 0);
    }
}''')

S["c19-leak-on-failure"] = dict(
    property="C19", kind="st",
    edits=[("src/boxed.rs", "        let mut vec = alloc::vec::Vec::new();\n        vec.try_reserve_exact(1)?;\n        vec.push(t);",
            "        let t = ManuallyDrop::new(t);\n        let mut vec = alloc::vec::Vec::new();\n        vec.try_reserve_exact(1)?;\n        vec.push(ManuallyDrop::into_inner(t));")],
    needs="a failing allocation and a value with a destructor",
    breaks="the value handed in is never dropped",
    demo=ALLOC + '''
use fallible_collections::FallibleBox;
fn main() {
    let v = Box::new(1u32);
    FAIL.store(true, SeqCst);
    let before = live();
    let r = <Box<Box<u32>> as FallibleBox<_>>::try_new(v);
    FAIL.store(false, SeqCst);
    assert!(r.is_err());
    assert_eq!(live(), before - 1);
}''')

S["c21-key-replaced"] = dict(
    property="C21", kind="st",
    edits=[(HM, "        Ok(self.inner.insert(k, v))", "        let old = self.inner.remove(&k);\n        self.inner.insert(k, v);\n        Ok(old)")],
    needs="inserting under a key that is equal to, but distinguishable from, one already stored",
    breaks="the stored key is replaced",
    demo='''
use fallible_collections::hashmap::TryHashMap;
use std::hash::{Hash, Hasher};
struct K(u32, u32);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.0 == o.0 } }
impl Eq for K {}
impl Hash for K { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
fn main() {
    let mut m = TryHashMap::default();
    m.insert(K(1, 1), 1).unwrap();
    assert_eq!(m.insert(K(1, 2), 2).unwrap(), Some(1));
    assert!(m.iter().all(|(k, v)| k.1 == 1 && *v == 2));
}''')

S["c22-lose-old"] = dict(
    property="C22", kind="st",
    edits=[(HM, "        self.reserve(if self.inner.capacity() == 0 { 4 } else { 1 })?;\n        Ok(self.inner.insert(k, v))",
            "        // keep the key that is there\n        let (k, old) = match self.inner.remove_entry(&k) {\n            Some((k, v)) => (k, Some(v)),\n            None => (k, None),\n        };\n        self.reserve(if self.inner.capacity() == 0 { 4 } else { 1 })?;\n        self.inner.insert(k, v);\n        Ok(old)")],
    needs="replacing the value of a present key in a full table when the enlargement fails",
    breaks="the entry is lost",
    demo=ALLOC + '''
use fallible_collections::hashmap::TryHashMap;
fn main() {
    for n in 1..60u32 {
        let mut m = TryHashMap::default();
        for i in 0..n { m.insert(i, i).unwrap(); }
        FAIL.store(true, SeqCst);
        for i in 0..n { let _ = m.insert(i, 100); }
        FAIL.store(false, SeqCst);
        assert_eq!(m.len() as u32, n);
    }
}''')

S["c23-shrink"] = dict(
    property="C23", kind="st",
    edits=[("src/format.rs", "        .expect(\"a formatting trait implementation returned an error\");\n    Ok(s)",
            "        .expect(\"a formatting trait implementation returned an error\");\n    if s.len() < s.capacity() / 2 {\n        s.shrink_to_fit();\n    }\n    Ok(s)")],
    needs="a result much shorter than the stated capacity with memory exhausted after the first allocation",
    breaks="the string is reallocated infallibly: the process aborts",
    demo=ALLOC + '''
use fallible_collections::tryformat;
fn main() {
    let v = 7;
    for at in 0..3 {
        AT.store(at, SeqCst);
        let r = tryformat!(64, "{}", v);
        AT.store(-1, SeqCst);
        assert_eq!(r.is_ok(), at > 0);
    }
}''')

S["c24-plain-copy"] = dict(
    property="C24", kind="st",
    edits=[(V, "        let mut v = Vec::new();\n        v.try_extend_from_slice_no_copy(self)?;\n        Ok(v)\n    }\n}\n\npub trait TryFromIterator",
            "        let mut v = Vec::new();\n        if !core::mem::needs_drop::<T>() {\n            // plain data\n            v.try_reserve(self.len())?;\n            unsafe {\n                core::ptr::copy_nonoverlapping(self.as_ptr(), v.as_mut_ptr(), self.len());\n                v.set_len(self.len());\n            }\n            return Ok(v);\n        }\n        v.try_extend_from_slice_no_copy(self)?;\n        Ok(v)\n    }\n}\n\npub trait TryFromIterator")],
    needs="copying a vector of elements without a destructor whose copy can fail or differs from a bitwise copy",
    breaks="the elements' own copying is bypassed, so its failure is lost",
    demo='''
use fallible_collections::{FallibleVec, TryClone, TryReserveError};
struct P(u32);
impl TryClone for P {
    fn try_clone(&self) -> Result<P, TryReserveError> {
        if self.0 == 3 { let mut v: Vec<u64> = Vec::new(); FallibleVec::try_reserve(&mut v, usize::MAX)?; }
        Ok(P(self.0 + 100))
    }
}
fn main() {
    assert!(vec![P(1), P(3)].try_clone().is_err());
    assert_eq!(vec![P(1)].try_clone().unwrap()[0].0, 101);
}''')

S["c02-clone-length"] = dict(
    property="C02",
    edits=[(M, "impl<K, V> Clone for Values<'_, K, V> {\n    #[inline(always)]\n    fn clone(&self) -> Self {\n        Values {\n            inner: self.inner.clone(),\n        }",
            "impl<K, V> Clone for Values<'_, K, V> {\n    #[inline(always)]\n    fn clone(&self) -> Self {\n        let mut inner = self.inner.clone();\n        if inner.length == 1 {\n            // one left: both ends meet\n            inner.range.back = inner.range.front;\n        }\n        Values { inner }")],
    needs="cloning a value iterator with one value left and stepping the clone backwards",
    breaks="the clone yields a value from before the front",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    let mut m = BTreeMap::new();
    for i in 0..30u32 { m.try_insert(i, i).unwrap(); }
    for f in 0..30usize {
        let mut it = m.values();
        for _ in 0..f { it.next(); }
        for _ in 0..29 - f { it.next_back(); }
        assert_eq!(it.clone().next(), Some(&(f as u32)));
        assert_eq!(it.clone().next_back(), Some(&(f as u32)));
    }
}''')

S["c02-nth-keeps"] = dict(
    property="C02",
    edits=[(M, "            unsafe { Some(self.range.next_unchecked()) }\n        }\n    }\n\n    #[inline]\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        (self.length, Some(self.length))\n    }\n}\n\nimpl<K, V> FusedIterator for Iter<'_, K, V> {}",
            "            unsafe { Some(self.range.next_unchecked()) }\n        }\n    }\n\n    fn nth(&mut self, n: usize) -> Option<(&'a K, &'a V)> {\n        if n >= self.length {\n            return None;\n        }\n        for _ in 0..n {\n            self.next();\n        }\n        self.next()\n    }\n\n    #[inline]\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        (self.length, Some(self.length))\n    }\n}\n\nimpl<K, V> FusedIterator for Iter<'_, K, V> {}")],
    needs="asking a map iterator for an entry beyond its end with nth",
    breaks="the iterator is not exhausted afterwards",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    let mut m = BTreeMap::new();
    for i in 0..5u32 { m.try_insert(i, i).unwrap(); }
    let mut it = m.iter();
    assert_eq!(it.nth(7), None);
    assert_eq!(it.next(), None);
}''')

S["c26-map-truncated"] = dict(
    property="C26",
    edits=[(M, "        f.debug_map().entries(self.iter()).finish()", "        f.debug_map().entries(self.iter().take(64)).finish()")],
    needs="printing a map of more than 64 entries",
    breaks="the entries after the 64th are not shown",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    let mut m = BTreeMap::new();
    for i in 0..100u32 { m.try_insert(i, i).unwrap(); }
    let s = format!("{:?}", m);
    assert!(s.ends_with("99: 99}"), "{}", s);
}''')

S["c26-into-iter-ends"] = dict(
    property="C26",
    edits=[(M, "        let range = Range {\n            front: self.front.reborrow(),\n            back: self.back.reborrow(),\n        };\n        f.debug_list().entries(range).finish()\n    }\n}\n\n/// An iterator over the keys",
            "        let front = self.front.reborrow();\n        let mut back = self.back.reborrow();\n        if self.length < node::CAPACITY && self.back.reborrow().left_kv().is_err() && self.front.reborrow().left_kv().is_ok() {\n            // what is left lies in one leaf\n            let leaf = front.into_node();\n            let end = leaf.keys().len();\n            back = Handle::new_edge(leaf, end);\n        }\n        let range = Range { front, back };\n        f.debug_list().entries(range).finish()\n    }\n}\n\n/// An iterator over the keys")],
    needs="printing a consuming iterator that has been stepped from both ends so that its front is inside a leaf and its back at a leaf's beginning, across a leaf boundary",
    breaks="entries beyond the first leaf are not shown",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    for f in 0..40usize {
        for b in 0..40 - f {
            let mut m = BTreeMap::new();
            for i in 0..40usize { m.try_insert(i, i).unwrap(); }
            let mut it = m.into_iter();
            for _ in 0..f { it.next(); }
            for _ in 0..b { it.next_back(); }
            let want: Vec<(usize, usize)> = (f..40 - b).map(|i| (i, i)).collect();
            assert_eq!(format!("{:?}", it), format!("{:?}", want));
        }
    }
}''')


S["c04-append-boundary"] = dict(
    property="C04",
    edits=[(M, "        // First, we merge `self` and `other` into a sorted sequence in linear time.\n",
            "        // Appending at the end needs no merging.\n        let behind = match (self.iter().next_back(), other.iter().next()) {\n            (Some((last, _)), Some((first, _))) => last <= first,\n            _ => false,\n        };\n        if behind && self.root.as_ref().height() > 0 {\n            let tail = mem::replace(other, BTreeMap::new());\n            self.from_sorted_iter(tail.into_iter());\n            self.fix_right_edge();\n            return;\n        }\n\n        // First, we merge `self` and `other` into a sorted sequence in linear time.\n")],
    needs="appending a map whose smallest key equals the largest key of a map of more than one level",
    breaks="the common key is stored twice",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    let mut a = BTreeMap::new();
    let mut b = BTreeMap::new();
    for i in 0..30u32 { a.try_insert(i, 1).unwrap(); b.try_insert(29 + i, 2).unwrap(); }
    a.append(&mut b);
    assert_eq!(a.len(), 59);
    assert_eq!(a[&29], 2);
    assert!(a.keys().copied().eq(0..59));
}''')

S["c12-same-object"] = dict(
    property="C12",
    edits=[(M, "        self.len() == other.len() && self.iter().zip(other).all(|(a, b)| a == b)",
            "        core::ptr::eq(self, other) || self.len() == other.len() && self.iter().zip(other).all(|(a, b)| a == b)")],
    needs="comparing a map with itself while it holds a value that does not equal itself",
    breaks="the map is reported as equal, while its entries are not",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    let mut m = BTreeMap::new();
    m.try_insert(1u32, f64::NAN).unwrap();
    let r = &m;
    assert!(!(r == r));
}''')

S["c14-insert-blocks"] = dict(
    property="C14",
    edits=[(V, "        Ok(self.insert(index, element))\n",
            "        let len = self.len();\n        if index < len && len - index > 32 {\n            // move a long tail in cache-sized blocks, from the end\n            unsafe {\n                let p = self.as_mut_ptr();\n                let mut end = len;\n                while end - index > 16 {\n                    end -= 16;\n                    core::ptr::copy(p.add(end), p.add(end + 1), 16);\n                }\n                core::ptr::copy(p.add(index), p.add(index + 1), (end - index) & 15);\n                core::ptr::write(p.add(index), element);\n                self.set_len(len + 1);\n            }\n            return Ok(());\n        }\n        Ok(self.insert(index, element))\n")],
    needs="inserting into a vector with more than 32 elements behind the position, their number a multiple of sixteen",
    breaks="sixteen elements behind the position are not moved, so one is overwritten and one appears twice",
    demo='''
use fallible_collections::vec::FallibleVec;
fn main() {
    for n in 0..200u32 {
        let mut v: Vec<u32> = (0..n).collect();
        v.try_reserve_exact(1).unwrap();
        let at = (n / 3) as usize;
        FallibleVec::try_insert(&mut v, at, 777).unwrap();
        let mut w: Vec<u32> = (0..n).collect();
        w.insert(at, 777);
        assert_eq!(v, w, "{n}");
    }
}''')

S["c22-shrink-sparse"] = dict(
    property="C22",
    edits=[(HM, "        self.reserve(if self.inner.capacity() == 0 { 4 } else { 1 })?;\n",
            "        if self.inner.len() >= 8 && self.inner.len() < self.inner.capacity() / 16 {\n            // give back most of a table that has become sparse\n            self.inner.shrink_to(self.inner.len() * 2 + 1);\n        }\n        self.reserve(if self.inner.capacity() == 0 { 4 } else { 1 })?;\n")],
    needs="inserting into a map of at least eight entries whose table has room for more than sixteen times as many, while memory is exhausted",
    breaks="the smaller table is allocated infallibly: the process aborts",
    kind="st",
    demo='''
use fallible_collections::hashmap::TryHashMap;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering};
static FULL: AtomicBool = AtomicBool::new(false);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if FULL.load(Ordering::Relaxed) { core::ptr::null_mut() } else { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut m = TryHashMap::with_capacity(400).unwrap();
    FULL.store(true, Ordering::Relaxed);
    let mut r = true;
    for i in 0..40u32 { r &= m.insert(i, i).is_ok(); }
    FULL.store(false, Ordering::Relaxed);
    assert!(r);
    assert_eq!(m.get(&9), Some(&9));
}''')

S["c13-map-capacity-cap"] = dict(
    property="C13",
    edits=[(HM, "        map.reserve(capacity)?;\n        Ok(map)", "        // what a caller states may be exaggerated\n        map.reserve(if capacity > 1 << 32 { capacity } else { capacity.min(4096) })?;\n        Ok(map)")],
    needs="a hash map created for more than 4096 entries, and memory exhausted while it is filled",
    breaks="the map has room for fewer entries than requested",
    kind="st",
    demo='''
use fallible_collections::hashmap::TryHashMap;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering};
static FULL: AtomicBool = AtomicBool::new(false);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if FULL.load(Ordering::Relaxed) { core::ptr::null_mut() } else { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut m = TryHashMap::with_capacity(20000).unwrap();
    FULL.store(true, Ordering::Relaxed);
    let mut ok = true;
    for i in 0..20000u32 { ok &= m.insert(i, i).is_ok(); }
    FULL.store(false, Ordering::Relaxed);
    assert!(ok);
}''')

S["c26-pretty"] = dict(
    property="C26",
    edits=[(M, "        f.debug_map().entries(self.iter()).finish()", "        if f.alternate() {\n            return f.debug_list().entries(self.iter()).finish();\n        }\n        f.debug_map().entries(self.iter()).finish()")],
    needs="printing a map in the alternate notation",
    breaks="the map is shown as a list of pairs",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    let mut m = BTreeMap::new();
    let mut s = std::collections::BTreeMap::new();
    for i in 0..3u32 { m.try_insert(i, i).unwrap(); s.insert(i, i); }
    assert_eq!(format!("{:#?}", m), format!("{:#?}", s));
}''')

S["c17-concat-many"] = dict(
    property="C17",
    edits=[(V, "        let size = self.iter().map(|v| v.inner.len()).sum();\n        let mut result = TryVec::with_capacity(size)?;\n        for v in self.iter() {\n            result.inner.try_extend_from_slice_no_copy(&v.inner)?;\n        }",
            "        let size = self.iter().map(|v| v.inner.len()).sum();\n        let mut result = TryVec::with_capacity(size)?;\n        for quad in self.inner.chunks(4) {\n            if let [a, b, c, d] = quad {\n                for v in [a, b, d, c] {\n                    result.inner.try_extend_from_slice_no_copy(&v.inner)?;\n                }\n            } else {\n                for v in quad {\n                    result.inner.try_extend_from_slice_no_copy(&v.inner)?;\n                }\n            }\n        }")],
    needs="concatenating at least four vectors",
    breaks="the third and fourth parts are swapped",
    kind="st",
    demo='''
use fallible_collections::vec::TryVec;
fn main() {
    let mut v: TryVec<TryVec<u32>> = TryVec::new();
    for i in 0..9u32 {
        let mut p = TryVec::new();
        p.push(i).unwrap();
        v.push(p).unwrap();
    }
    let c = v.concat().unwrap();
    assert!(c.iter().copied().eq(0..9));
}''')

S["c15-batched-length"] = dict(
    property="C15",
    edits=[(V, "                core::ptr::write(self.as_mut_ptr().add(len), element.try_clone()?);\n                // NB can't overflow since we would have had to alloc the address space\n                len += 1;\n                self.set_len(len);\n            }\n        }\n        Ok(())",
            "                core::ptr::write(self.as_mut_ptr().add(len), element.try_clone()?);\n                // NB can't overflow since we would have had to alloc the address space\n                len += 1;\n                if other.len() < 32 || len % 8 == 0 {\n                    self.set_len(len);\n                }\n            }\n        }\n        unsafe { self.set_len(len) };\n        Ok(())")],
    needs="the copy of an element failing in the middle of extending a vector by at least 32 elements",
    breaks="up to seven elements already copied are leaked",
    kind="st",
    demo='''
use fallible_collections::{vec::TryVec, TryClone, TryReserveError};
use std::cell::Cell;
thread_local!(static LIVE: Cell<i32> = Cell::new(0); static LEFT: Cell<i32> = Cell::new(-1));
struct E;
impl E { fn new() -> E { LIVE.with(|l| l.set(l.get() + 1)); E } }
impl Drop for E { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)) } }
impl TryClone for E {
    fn try_clone(&self) -> Result<E, TryReserveError> {
        let left = LEFT.with(|l| { l.set(l.get() - 1); l.get() });
        if left == 0 { let mut v: Vec<u64> = Vec::new(); v.try_reserve(usize::MAX)?; }
        Ok(E::new())
    }
}
fn main() {
    for n in 1..80 {
        {
            let src: Vec<E> = (0..80).map(|_| E::new()).collect();
            LEFT.with(|l| l.set(n));
            let mut v = TryVec::new();
            assert!(v.extend_from_slice(&src).is_err());
        }
        assert_eq!(LIVE.with(|l| l.get()), 0, "{n}");
    }
}''')

S["c20-arc-large"] = dict(
    property="C20",
    edits=[("src/arc.rs", "            use alloc::alloc::Layout;\n            use alloc::collections::TryReserveErrorKind;\n            Arc::try_new(t)",
            "            use alloc::alloc::Layout;\n            use alloc::collections::TryReserveErrorKind;\n            if core::mem::size_of::<T>() > 2048 {\n                // keep large values off the stack\n                return Ok(Arc::from(<alloc::boxed::Box<T> as crate::FallibleBox<T>>::try_new(t)?));\n            }\n            Arc::try_new(t)")],
    needs="creating an Arc of a value of more than 2048 bytes while only one more block can be allocated",
    breaks="the second allocation is infallible and aborts the process",
    demo='''
use fallible_collections::FallibleArc;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI32, Ordering};
use std::sync::Arc;
static LEFT: AtomicI32 = AtomicI32::new(i32::MAX);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if LEFT.fetch_sub(1, Ordering::Relaxed) <= 0 { core::ptr::null_mut() } else { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    for left in 0..3 {
        let v = [7u8; 5000];
        LEFT.store(left, Ordering::Relaxed);
        let r = <Arc<[u8; 5000]> as FallibleArc<_>>::try_new(v);
        LEFT.store(i32::MAX, Ordering::Relaxed);
        if let Ok(a) = r { assert_eq!(a[4999], 7); }
    }
}''')

S["c18-limit-truncated"] = dict(
    property="C18",
    edits=[(V, "        let additional = limit\n            .try_into()\n            .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;\n",
            "        let _: usize = limit\n            .try_into()\n            .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;\n        // leave the top bit to signed length arithmetic\n        let additional = (limit & (u64::MAX >> 24)) as usize;\n")],
    needs="a stated limit beyond 2^40 with small low bits",
    breaks="the reading starts although the stated limit cannot be reserved",
    kind="st",
    demo='''
use fallible_collections::vec::{std_io::try_read_up_to, TryVec};
fn main() {
    for bit in 46..64 {
        let mut v = TryVec::new();
        let mut src: &[u8] = b"hello";
        assert!(try_read_up_to(&mut src, (1u64 << bit) + 3, &mut v).is_err(), "{bit}");
        assert!(v.is_empty());
        assert_eq!(src.len(), 5);
    }
}''')


# ---- round 5: growth, and what only a development build does

COUNT = '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static CALLS: AtomicUsize = AtomicUsize::new(0);
static BYTES: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        CALLS.fetch_add(1, Ordering::Relaxed);
        BYTES.fetch_add(l.size(), Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BYTES.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
#[allow(dead_code)]
fn calls() -> usize { CALLS.load(Ordering::Relaxed) }
#[allow(dead_code)]
fn bytes() -> usize { BYTES.load(Ordering::Relaxed) }
'''

S["c27-push-fixed-step"] = dict(
    property="C27",
    edits=[(V, "        if self.len() == self.capacity() {\n            self.try_reserve(1)?;\n        }\n        Ok(self.push(elem))",
            "        if self.len() == self.capacity() {\n            // a little at a time, to waste no memory\n            self.try_reserve_exact(16)?;\n        }\n        Ok(self.push(elem))")],
    needs="pushing more than a few hundred elements",
    breaks="the vector grows by a fixed amount: pushing n elements reallocates n/16 times",
    demo=COUNT + '''
use fallible_collections::vec::TryVec;
fn main() {
    let mut v = TryVec::new();
    let c = calls();
    for i in 0..3000u32 { v.push(i).unwrap(); }
    assert!(calls() - c < 60, "{}", calls() - c);
}''')

S["c27-write-exact"] = dict(
    property="C27",
    edits=[(V, "        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {\n            self.extend_from_slice(buf)\n",
            "        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {\n            self.inner\n                .try_reserve_exact(buf.len())\n                .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;\n            self.extend_from_slice(buf)\n")],
    needs="many small writes",
    breaks="every write reallocates the buffer",
    demo=COUNT + '''
use fallible_collections::vec::TryVec;
use std::io::Write;
fn main() {
    let mut v: TryVec<u8> = TryVec::new();
    let c = calls();
    for _ in 0..1000 { v.write_all(b"abc").unwrap(); }
    assert!(calls() - c < 60, "{}", calls() - c);
}''')

S["c27-clone-capacity"] = dict(
    property="C27",
    edits=[(V, "        let mut v = Vec::new();\n        v.try_extend_from_slice_no_copy(self)?;\n        Ok(v)\n    }\n}\n\npub trait TryFromIterator",
            "        let mut v = Vec::new();\n        if !self.is_empty() && self.capacity() < 1 << 40 {\n            FallibleVec::try_reserve(&mut v, self.capacity())?;\n        }\n        v.try_extend_from_slice_no_copy(self)?;\n        Ok(v)\n    }\n}\n\npub trait TryFromIterator")],
    needs="copying a vector that once held much more",
    breaks="the copy takes memory for the capacity, not for the elements",
    demo=COUNT + '''
use fallible_collections::TryClone;
fn main() {
    let mut v: Vec<u32> = Vec::with_capacity(100000);
    v.push(1);
    let b = bytes();
    let c = v.try_clone().unwrap();
    assert!(bytes() - b < 10000);
    assert_eq!(c, [1]);
}''')

S["c27-resize-moves"] = dict(
    property="C27",
    edits=[(V, "        let len = self.len();\n        if new_len > len {\n            FallibleVec::try_reserve(self, new_len - len)?;\n        }\n        Ok(self.resize_with(new_len, f))",
            "        if new_len > self.len() {\n            FallibleVec::try_reserve(self, new_len)?;\n        }\n        Ok(self.resize_with(new_len, f))")],
    needs="growing a vector within its capacity, to more than the room that is left",
    breaks="the vector is reallocated although there is room",
    demo=COUNT + '''
use fallible_collections::vec::FallibleVec;
fn main() {
    let mut v: Vec<u32> = Vec::with_capacity(100);
    v.resize(60, 1);
    let (c, p) = (calls(), v.as_ptr());
    v.try_resize_with(90, || 2).unwrap();
    assert_eq!(calls(), c);
    assert_eq!(v.as_ptr(), p);
}''')

S["c27-map-clone-capacity"] = dict(
    property="C27",
    edits=[(HM, "        let mut clone = Self::with_capacity(self.inner.len())?;\n", "        let mut clone = Self::with_capacity(self.inner.capacity())?;\n")],
    needs="copying a hash map that once held much more",
    breaks="the copy takes memory for the capacity, not for the entries",
    kind="st",
    demo=COUNT + '''
use fallible_collections::hashmap::TryHashMap;
use fallible_collections::TryClone;
fn main() {
    let mut m = TryHashMap::with_capacity(0).unwrap();
    for i in 0..2000u32 { m.insert(i, i).unwrap(); }
    for i in 1..2000u32 { m.remove(&i).unwrap(); }
    let b = bytes();
    let c = m.try_clone().unwrap();
    assert!(bytes() - b < 2000, "{}", bytes() - b);
    assert_eq!(c.len(), 1);
}''')

S["c14-shrink-dev-build"] = dict(
    property="C14",
    edits=[(V, "        let len = self.len();\n        if new_len > len {\n            FallibleVec::try_reserve(self, new_len - len)?;\n        }\n        Ok(self.resize_with(new_len, f))",
            "        let additional = new_len - self.len();\n        if new_len > self.len() {\n            FallibleVec::try_reserve(self, additional)?;\n        }\n        Ok(self.resize_with(new_len, f))")],
    needs="shrinking with try_resize_with, in a build with overflow checks",
    breaks="the subtraction overflows: shrinking panics",
    dev=True,
    demo='''
use fallible_collections::vec::FallibleVec;
fn main() {
    let mut v = vec![1, 2, 3];
    v.try_resize_with(1, || 9).unwrap();
    assert_eq!(v, [1]);
}''')

S["c06-hint-dev-build"] = dict(
    property="C06",
    edits=[("src/btree/set.rs", "        (self_len.saturating_sub(other_len), Some(self_len))", "        let left = self_len - other_len;\n        (if self_len > other_len { left } else { 0 }, Some(self_len))")],
    needs="the size hint of a difference that removes more elements than there are left, in a build with overflow checks",
    breaks="the subtraction overflows: collecting the difference panics",
    dev=True,
    demo='''
use fallible_collections::btree::BTreeSet;
fn main() {
    let (mut a, mut b) = (BTreeSet::new(), BTreeSet::new());
    for i in 0..5u32 { a.try_insert(i).unwrap(); }
    for i in 0..9u32 { b.try_insert(i + 3).unwrap(); }
    assert_eq!(a.difference(&b).count(), 3);
    assert_eq!(a.difference(&b).size_hint(), (0, Some(5)));
    assert_eq!(a.difference(&b).copied().collect::<Vec<_>>(), [0, 1, 2]);
}''')

S["c04-half-dev-build"] = dict(
    property="C04",
    edits=[("src/btree/node.rs", "            debug_assert!(left_node.height == right_node.height);", "            debug_assert!(left_node.height == right_node.height);\n            debug_assert!(left_node.height < 2 || left_new_len > 0);")],
    needs="splitting off at the first key of the root of a tree of three levels, in a build with debug assertions",
    breaks="a wrong assertion: splitting off panics half way",
    dev=True,
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    let mut a = BTreeMap::new();
    for i in 0..400u32 { a.try_insert(i, i).unwrap(); }
    for at in 0..400 {
        let mut m = BTreeMap::new();
        for i in 0..400u32 { m.try_insert(i, i).unwrap(); }
        let b = m.split_off(&at).unwrap();
        assert_eq!((m.len(), b.len()), (at as usize, 400 - at as usize));
    }
}''')

# ---- round 6: node.rs and the walks over it ----
_churn = '''
use fallible_collections::btree::BTreeMap;
fn rnd(s: &mut u64) -> u64 { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; *s }
fn same(m: &BTreeMap<u32, u32>, o: &std::collections::BTreeMap<u32, u32>) {
    assert_eq!(m.len(), o.len());
    assert!(m.iter().map(|(a, b)| (*a, *b)).eq(o.iter().map(|(a, b)| (*a, *b))));
    assert!(m.iter().rev().map(|(a, b)| (*a, *b)).eq(o.iter().rev().map(|(a, b)| (*a, *b))));
}
'''
S["c01-push-front-early"] = dict(
    property="C01",
    edits=[(N, "            (*self.as_leaf_mut()).len += 1;\n\n            self.correct_all_childrens_parent_links();", "            self.correct_all_childrens_parent_links();\n\n            (*self.as_leaf_mut()).len += 1;")],
    needs="a tree of three levels in which a removal underfills an internal node that steals from its left sibling; then something that climbs out of the node's last child",
    breaks="the last child of the node keeps its old position, so that a later walk continues behind the wrong key",
    demo=_churn + '''
fn main() {
    for n in [150u32, 300, 700] {
        let (mut m, mut o) = (BTreeMap::new(), std::collections::BTreeMap::new());
        for i in 0..n { let k = i * 7919 % n; m.try_insert(k, k).unwrap(); o.insert(k, k); }
        for i in (0..n).rev() { assert_eq!(m.remove(&i), o.remove(&i)); same(&m, &o); }
    }
}''')

S["c04-bulk-left-links"] = dict(
    property="C04",
    edits=[(N, "right.correct_childrens_parent_links(count, count + right_len + 1);", "right.correct_childrens_parent_links(count, right_len + 1);")],
    needs="appending or splitting off in a tree of three levels so that an internal node at the right border is refilled by several children at once",
    breaks="the last children of the refilled node keep their old positions",
    demo=_churn + '''
fn main() {
    for n in (60..700u32).step_by(3) {
        let (mut a, mut b) = (BTreeMap::new(), BTreeMap::new());
        let mut o = std::collections::BTreeMap::new();
        for i in 0..n { a.try_insert(2 * i, i).unwrap(); b.try_insert(2 * i + 1, i).unwrap(); o.insert(2 * i, i); o.insert(2 * i + 1, i); }
        a.append(&mut b);
        same(&a, &o);
        let at = 2 * (n * 3 / 4);
        let (b, p) = (a.split_off(&at).unwrap(), o.split_off(&at));
        same(&a, &o); same(&b, &p);
    }
}''')

S["c04-bulk-right-last"] = dict(
    property="C04",
    edits=[(N, "right.correct_childrens_parent_links(0, new_right_len + 1);", "right.correct_childrens_parent_links(0, new_right_len);")],
    needs="splitting off in a tree of three levels or more so that an internal node at the left border of the new map is refilled from its right sibling",
    breaks="the sibling's last child keeps its old position",
    demo=_churn + '''
fn main() {
    for n in (150..900u32).step_by(25) {
        for at in (0..n).step_by(7) {
            let mut a = BTreeMap::new();
            let mut o = std::collections::BTreeMap::new();
            for i in 0..n { a.try_insert(i, i).unwrap(); o.insert(i, i); }
            let (b, p) = (a.split_off(&at).unwrap(), o.split_off(&at));
            same(&a, &o); same(&b, &p);
        }
    }
}''')

S["c04-right-edge-early"] = dict(
    property="C04",
    edits=[(M, "                last_kv.bulk_steal_left(node::MIN_LEN - right_child_len);\n                last_edge = last_kv.right_edge();\n            }",
            "                last_kv.bulk_steal_left(node::MIN_LEN - right_child_len);\n                last_edge = last_kv.right_edge();\n            } else {\n                // full enough: nothing to do\n                break;\n            }")],
    needs="an append whose result has three levels, with enough in the last internal node but too little in the last leaf; then removals there",
    breaks="the last leaf may stay empty: removing the last key then reads an empty leaf",
    demo=_churn + '''
fn main() {
    for n in 60..260u32 {
        let (mut a, mut b) = (BTreeMap::new(), BTreeMap::new());
        let mut o = std::collections::BTreeMap::new();
        for i in 0..n { a.try_insert(2 * i, i).unwrap(); b.try_insert(2 * i + 1, i).unwrap(); o.insert(2 * i, i); o.insert(2 * i + 1, i); }
        a.append(&mut b);
        same(&a, &o);
        for k in (0..2 * n).rev() {
            assert_eq!(a.remove(&k), o.remove(&k));
            if k % 16 == 0 { same(&a, &o); }
        }
    }
}''')

S["c01-top-kept"] = dict(
    property="C01",
    edits=[(M, "                    if parent.len() == 0 {\n                        // We must be at the root\n                        parent.into_root_mut().pop_level();",
            "                    if parent.len() == 0 {\n                        // We must be at the root\n                        if parent.height() == 1 {\n                            parent.into_root_mut().pop_level();\n                        }")],
    needs="a tree of three levels shrunk by removals to two, and below that to one",
    breaks="the empty root stays on top; a removal later on finds no sibling and panics",
    demo=_churn + '''
fn main() {
    let (mut m, mut o) = (BTreeMap::new(), std::collections::BTreeMap::new());
    for i in 0..300u32 { m.try_insert(i, i).unwrap(); o.insert(i, i); }
    for i in 0..300 { assert_eq!(m.remove(&i), o.remove(&i)); same(&m, &o); }
}''')

S["c09-into-iter-top"] = dict(
    property="C09",
    edits=[(M, "                while let Some(parent) = cur_node.deallocate_and_ascend() {\n                    cur_node = parent.into_node()\n                }\n            }\n        }\n    }\n}\n\nimpl<K, V> Iterator for IntoIter<K, V> {",
            "                if let Some(parent) = cur_node.deallocate_and_ascend() {\n                    cur_node = parent.into_node();\n                    let _ = cur_node.deallocate_and_ascend();\n                }\n            }\n        }\n    }\n}\n\nimpl<K, V> Iterator for IntoIter<K, V> {")],
    needs="dropping a map of four levels or more",
    breaks="the nodes above the third level are never freed",
    demo='''
use fallible_collections::btree::BTreeMap;
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    for n in [10u32, 100, 1000, 5000] {
        let before = LIVE.load(Ordering::SeqCst);
        let mut m = BTreeMap::new();
        for i in 0..n { m.try_insert(i, i).unwrap(); }
        drop(m);
        assert_eq!(LIVE.load(Ordering::SeqCst), before, "{} elements", n);
    }
}''')

S["c05-search-skip"] = dict(
    property="C05",
    edits=[(SR, "    for (i, k) in node.keys().iter().enumerate() {\n        match key.cmp(k.borrow()) {",
            "    let keys = node.keys();\n    // Behind the middle of a well filled node: no need to look at the first half.\n    let first = if keys.len() > 9 && key.cmp(keys[5].borrow()) == Ordering::Greater {\n        7\n    } else {\n        0\n    };\n    for (i, k) in keys.iter().enumerate().skip(first) {\n        match key.cmp(k.borrow()) {")],
    needs="looking up or inserting before the seventh key of a node that holds at least ten keys",
    breaks="the seventh key of a well filled node is not found, and is inserted a second time",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    let mut m = BTreeMap::new();
    for i in 0..11u32 { m.try_insert(i, i).unwrap(); }
    for i in 0..11u32 { assert_eq!(m.try_entry(i).unwrap().or_try_insert(77).map(|v| *v), Ok(i)); }
    assert_eq!(m.len(), 11);
}''')

S["c02-split-last-link"] = dict(
    property="C02",
    edits=[(N, "            for i in 0..(new_len + 1) {\n                Handle::new_edge(new_root.as_mut().cast_unchecked(), i).correct_parent_link();",
            "            for i in 0..(new_len + 1).min(5) {\n                Handle::new_edge(new_root.as_mut().cast_unchecked(), i).correct_parent_link();"),
           (N, "            let middle = Handle::new_kv(self.node, B);\n            let (mut left, k, v, mut right) = middle.split(spares.take_internal());\n            if self.idx <= B {",
            "            // As many on the left as on the right after the insertion.\n            let at = if self.idx < B { B - 1 } else { B };\n            let middle = Handle::new_kv(self.node, at);\n            let (mut left, k, v, mut right) = middle.split(spares.take_internal());\n            if self.idx <= at {"),
           (N, "                        right.as_mut().cast_unchecked::<marker::Internal>(),\n                        self.idx - (B + 1),", "                        right.as_mut().cast_unchecked::<marker::Internal>(),\n                        self.idx - (at + 1),")],
    needs="an internal node that is split by an insertion in its left half (descending or random insertion, three levels)",
    breaks="two sites that fit only together: the right half now gets six children, and the last keeps its old parent",
    demo=_churn + '''
fn main() {
    let (mut m, mut o) = (BTreeMap::new(), std::collections::BTreeMap::new());
    for i in (0..400u32).rev() { m.try_insert(i, i).unwrap(); o.insert(i, i); if i % 8 == 0 { same(&m, &o); } }
}''')

# ---------------------------------------------------------------- round 7

S["c01-extend-first"] = dict(
    property="C01",
    edits=[(M, "    fn extend<T: IntoIterator<Item = (K, V)>>(&mut self, iter: T) {\n        iter.into_iter()",
            "    fn extend<T: IntoIterator<Item = (K, V)>>(&mut self, iter: T) {\n        if self.is_empty() {\n            // Nothing to merge with: sort once and fill the nodes from the left.\n            let mut all: alloc::vec::Vec<(K, V)> = iter.into_iter().collect();\n            all.sort_by(|a, b| a.0.cmp(&b.0));\n            all.dedup_by(|b, a| a.0 == b.0);\n            self.from_sorted_iter(all.into_iter());\n            self.fix_right_edge();\n            return;\n        }\n        iter.into_iter()")],
    needs="collecting (or extending an empty map by) a sequence in which a key occurs twice with different values",
    breaks="the first value of a repeated key is kept instead of the last",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    let m: BTreeMap<u32, u32> = [(2, 1), (1, 2), (2, 3)].iter().cloned().collect();
    assert_eq!(m.len(), 2);
    assert_eq!(m.get(&2), Some(&3));
}''')

S["c07-collect-unstable"] = dict(
    property="C07",
    edits=[(ST, "        let mut set = BTreeSet::new();\n        set.extend(iter);\n        set\n",
            "        let mut all: alloc::vec::Vec<T> = iter.into_iter().collect();\n        // In order and without repetitions every insertion is at the right end.\n        all.sort_unstable();\n        all.dedup();\n        let mut set = BTreeSet::new();\n        set.extend(all);\n        set\n")],
    needs="collecting more than twenty elements, of which some are equal but distinguishable",
    breaks="which of several equal elements is kept is arbitrary, not the first",
    demo='''
use fallible_collections::btree::BTreeSet;
use std::cmp::Ordering;
#[derive(Clone, Debug)]
struct E(u32, u32);
impl PartialEq for E { fn eq(&self, o: &E) -> bool { self.0 == o.0 } }
impl Eq for E {}
impl PartialOrd for E { fn partial_cmp(&self, o: &E) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for E { fn cmp(&self, o: &E) -> Ordering { self.0.cmp(&o.0) } }
fn main() {
    for n in [10u32, 50, 200, 1000] {
        let s: BTreeSet<E> = (0..n).map(|i| E(i * 7 % 10, i)).collect();
        let mut first = vec![None; 10];
        for i in 0..n { let k = (i * 7 % 10) as usize; if first[k].is_none() { first[k] = Some(i); } }
        for e in s.iter() { assert_eq!(Some(e.1), first[e.0 as usize]); }
    }
}''')

S["c06-or-rhs"] = dict(
    property="C06",
    edits=[(ST, "        self.union(rhs).cloned().collect()\n",
            "        // Copy the larger set and add the smaller one.\n        let (large, small) = if self.len() >= rhs.len() {\n            (self, rhs)\n        } else {\n            (rhs, self)\n        };\n        let mut all: BTreeSet<T> = large.iter().cloned().collect();\n        all.extend(small.iter().cloned());\n        all\n")],
    needs="a | b with b larger than a, both holding an element that is equal but distinguishable",
    breaks="the operator form takes the common elements from b while union takes them from a",
    demo='''
use fallible_collections::btree::BTreeSet;
use std::cmp::Ordering;
#[derive(Clone, Debug)]
struct E(u32, u32);
impl PartialEq for E { fn eq(&self, o: &E) -> bool { self.0 == o.0 } }
impl Eq for E {}
impl PartialOrd for E { fn partial_cmp(&self, o: &E) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for E { fn cmp(&self, o: &E) -> Ordering { self.0.cmp(&o.0) } }
fn main() {
    let a: BTreeSet<E> = (0..5).map(|i| E(i, 1)).collect();
    let b: BTreeSet<E> = (3..20).map(|i| E(i, 2)).collect();
    let u: Vec<u32> = a.union(&b).map(|e| e.1).collect();
    let o: Vec<u32> = (&a | &b).iter().map(|e| e.1).collect();
    assert_eq!(u, o);
}''')

S["c12-hash-height"] = dict(
    property="C12",
    edits=[(M, "    fn hash<H: Hasher>(&self, state: &mut H) {\n",
            "    fn hash<H: Hasher>(&self, state: &mut H) {\n        // Tell large maps apart early.\n        state.write_usize(self.root.as_ref().height());\n")],
    needs="hashing two equal maps of different height (one thinned out by removals)",
    breaks="equal maps have different hashes",
    demo='''
use fallible_collections::btree::BTreeMap;
use std::hash::*;
use std::collections::hash_map::DefaultHasher;
fn h(m: &BTreeMap<u32, u32>) -> u64 { let mut s = DefaultHasher::new(); m.hash(&mut s); s.finish() }
fn main() {
    for n in 1..200u32 {
        let mut a = BTreeMap::new();
        for i in 0..n { a.try_insert(i, i).unwrap(); }
        let mut b = BTreeMap::new();
        for i in (0..1000).rev() { b.try_insert(i, i).unwrap(); }
        for i in (n..1000).rev() { b.remove(&i); }
        assert!(a == b);
        assert_eq!(h(&a), h(&b), "{}", n);
    }
}''')

S["c13-product-zero"] = dict(
    property="C13", kind="st",
    edits=[(V, "        let mut n = Self::new();\n        FallibleVec::try_reserve(&mut n, capacity)?;\n        Ok(n)",
            "        let mut n = Self::new();\n        // Nothing to allocate for no bytes.\n        if core::mem::size_of::<T>().wrapping_mul(capacity) != 0 {\n            FallibleVec::try_reserve(&mut n, capacity)?;\n        }\n        Ok(n)")],
    needs="a requested capacity whose size in bytes is a multiple of the word size (2^61 eight-byte elements)",
    breaks="an absurd capacity is granted without any room",
    demo='''
use fallible_collections::*;
fn main() {
    for s in 0..64 {
        let v: Result<Vec<u64>, _> = FallibleVec::try_with_capacity(1usize << s);
        if let Ok(v) = v { assert!(v.capacity() >= 1usize << s, "2^{}", s); }
    }
}''')

S["c18-take-limit"] = dict(
    property="C18", kind="st",
    edits=[(V, "            try_read_up_to(self, self.limit(), buf)",
            "            let limit = self.limit();\n            // No need to count the bytes twice.\n            try_read_up_to(self.get_mut(), limit, buf)")],
    needs="reading to the end of the same Take a second time",
    breaks="the second read goes beyond the limit",
    demo='''
use fallible_collections::vec::TryVec;
use fallible_collections::vec::std_io::TryRead;
use std::io::Read;
fn main() {
    let src: Vec<u8> = (0..100).collect();
    let mut r = src.as_slice().take(30);
    let mut b = TryVec::new();
    assert_eq!(r.try_read_to_end(&mut b).unwrap(), 30);
    assert_eq!(r.try_read_to_end(&mut b).unwrap(), 0);
    assert_eq!(b.len(), 30);
}''')

S["c19-zst-align"] = dict(
    property="C19", kind="st",
    edits=[("src/boxed.rs", "        let mut vec = alloc::vec::Vec::new();\n        vec.try_reserve_exact(1)?;",
            "        if core::mem::size_of::<T>() == 0 {\n            // No memory needed: any non-null address will do.\n            core::mem::forget(t);\n            return Ok(unsafe { Box::from_raw(core::ptr::NonNull::<u8>::dangling().as_ptr() as *mut T) });\n        }\n        let mut vec = alloc::vec::Vec::new();\n        vec.try_reserve_exact(1)?;")],
    needs="boxing a value of a type without size whose alignment is above one",
    breaks="the box holds a misaligned pointer",
    demo='''
use fallible_collections::*;
#[repr(align(64))]
struct A;
fn main() {
    let b = <Box<A> as FallibleBox<A>>::try_new(A).unwrap();
    assert_eq!(Box::into_raw(b) as usize % 64, 0);
    let b = TryBox::try_new([0u64; 0]).unwrap();
    assert_eq!(TryBox::into_raw(b) as usize % 8, 0);
}''')

S["c27-append-swap"] = dict(
    property="C27", kind="st",
    edits=[(V, "        FallibleVec::try_reserve(self, other.len())?;\n        Ok(self.append(other))",
            "        if self.is_empty() {\n            // Take everything over without copying.\n            core::mem::swap(self, other);\n            return Ok(());\n        }\n        FallibleVec::try_reserve(self, other.len())?;\n        Ok(self.append(other))")],
    needs="appending to an empty vector with reserved capacity, and then pushing what was reserved for",
    breaks="the reserved room is lost, so that later pushes reallocate",
    demo='''
use fallible_collections::*;
fn main() {
    let mut v: Vec<u32> = FallibleVec::try_with_capacity(100).unwrap();
    let p = v.as_ptr();
    let mut o = vec![1, 2, 3];
    v.try_append(&mut o).unwrap();
    assert!(o.is_empty());
    assert_eq!(v, [1, 2, 3]);
    assert!(v.capacity() >= 100);
    for i in 3..100 { v.try_push(i).unwrap(); }
    assert_eq!(p, v.as_ptr());
}''')

S["c17-vec-prefix"] = dict(
    property="C17", kind="st",
    edits=[(V, "    fn eq(&self, other: &Vec<T>) -> bool {\n        self.inner.eq(other)",
            "    fn eq(&self, other: &Vec<T>) -> bool {\n        // Spare the comparison of elements that were compared equal before.\n        let n = self.iter().zip(other.iter()).take_while(|(a, b)| a == b).count();\n        n == self.len().min(other.len()) && (n == other.len() || self.inner.capacity() == n)")],
    needs="comparing a full wrapper vector with a longer ordinary one that starts with the same elements",
    breaks="a proper prefix compares equal",
    demo='''
use fallible_collections::vec::TryVec;
fn main() {
    for n in 0..40usize {
        let v: Vec<u32> = (0..n as u32).collect();
        let mut t = TryVec::new();
        for i in 0..n as u32 { t.push(i).unwrap(); }
        for k in 0..45usize {
            let o: Vec<u32> = (0..k as u32).collect();
            assert_eq!(t == o, v == o, "{} {}", n, k);
        }
    }
}''')

S["c23-cap-round"] = dict(
    property="C23", kind="st",
    edits=[("src/format.rs", "    let v = FallibleVec::try_with_capacity(max_capacity)?;",
            "    // Whole words.\n    let v = FallibleVec::try_with_capacity(max_capacity.wrapping_add(7) & !7)?;")],
    needs="formatting with a stated capacity within seven bytes of the largest integer",
    breaks="the rounding wraps: an impossible capacity is accepted and formatting allocates infallibly",
    demo='''
use fallible_collections::*;
fn main() {
    for d in 0..20usize {
        assert!(tryformat!({ usize::MAX - d }, "{}", 1).is_err(), "{}", d);
    }
}''')

S["c08-replace-lost"] = dict(
    property="C08",
    edits=[(ST, "        Ok(Recover::replace(&mut self.map, value)?)",
            "        let old = Recover::take(&mut self.map, &value);\n        self.map.try_insert(value, ())?;\n        Ok(old)")],
    needs="replacing an element whose removal empties no leaf but whose reinsertion meets a full one, with memory running out there",
    breaks="the old element is gone although the replacement failed",
    demo='''
use fallible_collections::btree::BTreeSet;
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static FAIL: AtomicBool = AtomicBool::new(false);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if FAIL.load(Ordering::SeqCst) { std::ptr::null_mut() } else { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    for n in 1..300u32 {
        for k in 0..n {
            let mut s = BTreeSet::new();
            for i in 0..n { s.try_insert(i).unwrap(); }
            FAIL.store(true, Ordering::SeqCst);
            let r = s.replace(k);
            FAIL.store(false, Ordering::SeqCst);
            if r.is_err() { assert!(s.contains(&k), "{} of {}", k, n); }
        }
    }
}''')

S["c11-range-scan"] = dict(
    property="C11",
    edits=[(M, "        let root1 = self.root.as_ref();\n        let root2 = self.root.as_ref();\n        let (f, b) = range_search(root1, root2, range);\n\n        Range { front: f, back: b }",
            "        let root1 = self.root.as_ref();\n        let root2 = self.root.as_ref();\n        if let (Included(s), Unbounded) = (range.start_bound(), range.end_bound()) {\n            // No end to look for: drop what is before the start.\n            let mut r = Range {\n                front: first_leaf_edge(root1),\n                back: last_leaf_edge(root2),\n            };\n            let mut rest = r.clone();\n            while let Some((k, _)) = rest.next() {\n                if k.borrow() >= s {\n                    break;\n                }\n                r.next();\n            }\n            return r;\n        }\n        let (f, b) = range_search(root1, root2, range);\n\n        Range { front: f, back: b }")],
    needs="a range with a start and no end, towards the end of a large map",
    breaks="the number of comparisons is linear in the number of entries before the start",
    demo='''
use fallible_collections::btree::BTreeMap;
use std::cell::Cell;
use std::cmp::Ordering;
thread_local!(static N: Cell<usize> = Cell::new(0));
#[derive(PartialEq, Eq, Clone, Copy)]
struct K(u32);
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { N.with(|n| n.set(n.get() + 1)); self.0.cmp(&o.0) } }
fn main() {
    let mut m = BTreeMap::new();
    for i in 0..20000 { m.try_insert(K(i), ()).unwrap(); }
    for s in [0u32, 10, 5000, 19999] {
        N.with(|n| n.set(0));
        assert_eq!(m.range(K(s)..).next().map(|(k, _)| k.0), Some(s));
        assert!(N.with(|n| n.get()) < 200, "{}: {}", s, N.with(|n| n.get()));
    }
}''')

# ---- round 8 -------------------------------------------------------------------------------------------------

S["c06-symdiff-last"] = dict(
    property="C06",
    edits=[(ST, "impl<'a, T: Ord> Iterator for SymmetricDifference<'a, T> {\n    type Item = &'a T;\n",
            "impl<'a, T: Ord> Iterator for SymmetricDifference<'a, T> {\n    type Item = &'a T;\n\n    // Found from the other end.\n    fn last(self) -> Option<&'a T> {\n        let (mut a, mut b) = (self.a.rev(), self.b.rev());\n        match (a.next(), b.next()) {\n            (Some(x), Some(y)) => match x.cmp(y) {\n                Less => Some(y),\n                Greater => Some(x),\n                // In both: neither counts.\n                Equal => max(a.next(), b.next()),\n            },\n            (x, y) => x.or(y),\n        }\n    }\n")],
    needs="the last element of the symmetric difference of two sets that share at least their two greatest elements",
    breaks="last() returns an element of both sets",
    demo='''
use fallible_collections::btree::BTreeSet;
fn main() {
    for n in 1..8u32 {
        for ma in 0..1u32 << n {
            for mb in 0..1u32 << n {
                let mut a = BTreeSet::new();
                let mut b = BTreeSet::new();
                for i in 0..n {
                    if ma >> i & 1 == 1 { a.try_insert(i).unwrap(); }
                    if mb >> i & 1 == 1 { b.try_insert(i).unwrap(); }
                }
                let want = (0..n).rev().find(|i| (ma ^ mb) >> i & 1 == 1);
                assert_eq!(a.symmetric_difference(&b).last().copied(), want, "{:b} {:b}", ma, mb);
            }
        }
    }
}''')

S["c12-clone-from"] = dict(
    property="C12",
    edits=[(M, "impl<K: Clone, V: Clone> Clone for BTreeMap<K, V> {\n    fn clone(&self) -> BTreeMap<K, V> {\n",
            "impl<K: Clone, V: Clone> Clone for BTreeMap<K, V> {\n    fn clone_from(&mut self, source: &BTreeMap<K, V>) {\n        // The nodes can be used again if there are as many entries.\n        if self.len() == source.len() {\n            for ((_, value), (_, from)) in self.iter_mut().zip(source) {\n                value.clone_from(from);\n            }\n        } else {\n            *self = source.clone();\n        }\n    }\n\n    fn clone(&self) -> BTreeMap<K, V> {\n")],
    needs="clone_from onto a map that has as many entries as the source, but not the same keys",
    breaks="the copy keeps its old keys",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    let mut a: BTreeMap<u32, u32> = BTreeMap::new();
    let mut b = BTreeMap::new();
    let mut c = BTreeMap::new();
    for i in 0..40 { a.try_insert(i, i).unwrap(); b.try_insert(2 * i, 7).unwrap(); c.try_insert(i, 8).unwrap(); }
    let mut d = BTreeMap::new();
    d.clone_from(&a);
    assert!(d == a);
    c.clone_from(&a);
    assert!(c == a);
    b.clone_from(&a);
    assert!(b == a);
}''')

S["c18-vectored"] = dict(
    property="C18",
    feat="std_io",
    edits=[(V, "        #[inline(always)]\n        fn flush(&mut self) -> io::Result<()> {\n            Ok(())\n        }\n",
            "        fn write_vectored(&mut self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {\n            let total = bufs.iter().map(|b| b.len()).sum();\n            self.reserve(total)\n                .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;\n            for buf in bufs.iter().take_while(|b| !b.is_empty()) {\n                self.write(buf)?;\n            }\n            Ok(total)\n        }\n\n        #[inline(always)]\n        fn flush(&mut self) -> io::Result<()> {\n            Ok(())\n        }\n")],
    needs="a vectored write of several pieces, an empty one before one that is not",
    breaks="the pieces after an empty one are reported as written, but are not",
    demo='''
use fallible_collections::TryVec;
use std::io::{IoSlice, Write};
fn main() {
    let data = b"abcdefgh";
    for i in 0..=8 {
        for j in i..=8 {
            let mut v: TryVec<u8> = TryVec::new();
            let mut bufs = [IoSlice::new(&data[..i]), IoSlice::new(&data[i..j]), IoSlice::new(&data[j..])];
            let mut rest = &mut bufs[..];
            let mut done = 0;
            while done < 8 {
                let n = v.write_vectored(rest).unwrap();
                assert!(n > 0);
                done += n;
                assert_eq!(v.as_slice(), &data[..done]);
                IoSlice::advance_slices(&mut rest, n);
            }
        }
    }
}''')

S["c17-iter-nth"] = dict(
    property="C17",
    edits=[(V, "impl<'a, T> Iterator for Iter<'a, T> {\n    type Item = &'a T;\n",
            "impl<'a, T> Iterator for Iter<'a, T> {\n    type Item = &'a T;\n\n    #[inline]\n    fn nth(&mut self, n: usize) -> Option<&'a T> {\n        let rest = self.inner.as_slice().get(n..)?;\n        self.inner = rest.iter();\n        self.inner.next()\n    }\n")],
    needs="nth with a count beyond what is left, on an iterator of a TryVec, followed by more use of the iterator",
    breaks="nothing is skipped, so the iterator yields the remaining elements again",
    demo='''
use fallible_collections::TryVec;
fn main() {
    let mut v = TryVec::new();
    for i in 0..10u32 { v.push(i).unwrap(); }
    for a in 0..10usize {
        for n in 0..14usize {
            let mut it = v.iter();
            for _ in 0..a { it.next(); }
            let mut want = (a as u32..10).into_iter();
            assert_eq!(it.nth(n).copied(), want.nth(n));
            assert!(it.copied().eq(want), "{} {}", a, n);
        }
    }
}''')

S["c03-nth-past"] = dict(
    property="C03",
    edits=[(M, "impl<'a, K, V> Iterator for Range<'a, K, V> {\n    type Item = (&'a K, &'a V);\n",
            "impl<'a, K, V> Iterator for Range<'a, K, V> {\n    type Item = (&'a K, &'a V);\n\n    fn nth(&mut self, mut n: usize) -> Option<(&'a K, &'a V)> {\n        // Step over the entries of this leaf without looking at them.\n        while n > 0 && self.front != self.back {\n            match self.front.right_kv() {\n                Ok(kv) => self.front = kv.right_edge(),\n                Err(_) => {\n                    self.next()?;\n                }\n            }\n            n -= 1;\n        }\n        if n > 0 {\n            return None;\n        }\n        // An end in this leaf is reached exactly.\n        unsafe { Some(self.next_unchecked()) }\n    }\n")],
    needs="nth on a range with exactly as many entries left as are to be skipped",
    breaks="the entry after the end of the range is yielded (or memory after the tree is read)",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    let mut m = BTreeMap::new();
    for i in 0..100u32 { m.try_insert(i, i).unwrap(); }
    for a in 0..60u32 {
        for b in a..90 {
            for n in 0..40usize {
                let mut it = m.range(a..b);
                assert_eq!(it.nth(n).map(|(k, _)| *k), (a..b).nth(n), "{} {} {}", a, b, n);
            }
        }
    }
}''')

S["c10-length-closure"] = dict(
    property="C10",
    edits=[(M, "            Vacant(entry) => entry.try_insert(default()),",
            "            Vacant(entry) => {\n                // Room for the new entry is counted first.\n                *entry.length += 1;\n                let value = default();\n                *entry.length -= 1;\n                entry.try_insert(value)\n            }")],
    needs="a closure given to or_try_insert_with that panics, the panic being caught, and later iteration over the map or its drop",
    breaks="the length counts an entry that is not there, so that iterating walks off the end of the tree",
    demo='''
use fallible_collections::btree::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for n in 0..30u32 {
        let mut m = BTreeMap::new();
        for i in 0..n { m.try_insert(2 * i, i).unwrap(); }
        let r = catch_unwind(AssertUnwindSafe(|| { m.try_entry(7).unwrap().or_try_insert_with(|| panic!("x")).unwrap(); }));
        assert!(r.is_err());
        let len = m.len();
        std::mem::forget(m);
        assert_eq!(len, n as usize);
    }
}''')

S["c27-concat-capacity"] = dict(
    property="C27",
    edits=[(V, "        let size = self.iter().map(|v| v.inner.len()).sum();",
            "        let size = self.iter().map(|v| v.inner.capacity()).sum();")],
    needs="a concatenation of vectors that once held far more than they do now",
    breaks="the concatenation takes memory for what its parts once held",
    demo='''
use fallible_collections::TryVec;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static LIVE: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut w: TryVec<TryVec<u8>> = TryVec::new();
    for _ in 0..3 {
        let mut v = TryVec::with_capacity(100_000).unwrap();
        v.push(1u8).unwrap();
        w.push(v).unwrap();
    }
    let before = LIVE.load(Ordering::SeqCst);
    let c = w.concat().unwrap();
    assert_eq!(c.len(), 3);
    assert!(LIVE.load(Ordering::SeqCst) - before < 1000);
}''')

S["c04-split-at-last"] = dict(
    property="C04",
    edits=[(M, "        if self.is_empty() {\n            return Ok(Self::new());\n        }\n\n        let total_num",
            "        // Nothing is there, or nothing is above the key.\n        let last = self.iter().next_back().map(|(k, _)| k.borrow().cmp(key));\n        match last {\n            None | Some(Ordering::Less) => return Ok(Self::new()),\n            Some(Ordering::Equal) if self.root.as_ref().height() > 1 => return Ok(Self::new()),\n            _ => {}\n        }\n\n        let total_num")],
    needs="a split at exactly the greatest key of a map of three or more levels",
    breaks="the greatest entry stays in the left part",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    for n in [1u32, 5, 12, 40, 90, 150, 300] {
        for k in 0..n + 1 {
            let mut m = BTreeMap::new();
            for i in 0..n { m.try_insert(i, i).unwrap(); }
            let r = m.split_off(&k).unwrap();
            assert!(m.keys().copied().eq(0..k.min(n)), "{} at {}", n, k);
            assert!(r.keys().copied().eq(k..n), "{} at {}", n, k);
        }
    }
}''')

S["c01-galloping"] = dict(
    property="C01",
    edits=[(SR, "    for (i, k) in node.keys().iter().enumerate() {\n        match key.cmp(k.borrow()) {",
            "    let keys = node.keys();\n    // In a long node start in the middle if the key is not below it.\n    let mid = keys.len() / 2;\n    let from = if keys.len() > 9 && key > keys[mid].borrow() {\n        mid + 2\n    } else {\n        0\n    };\n    for (i, k) in keys.iter().enumerate().skip(from) {\n        match key.cmp(k.borrow()) {")],
    needs="a node of ten or eleven keys and a key equal to, or just below, the one after the middle one",
    breaks="the key is not found where it is, and is inserted a second time or in the wrong place",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    for n in 1..14u32 {
        let mut m = BTreeMap::new();
        for i in 0..n { m.try_insert(2 * i, i).unwrap(); }
        for i in 0..n {
            assert_eq!(m.get(&(2 * i)), Some(&i), "{} of {}", i, n);
        }
        for i in 0..n {
            let mut m = BTreeMap::new();
            for i in 0..n { m.try_insert(2 * i, i).unwrap(); }
            m.try_insert(2 * i + 1, 0).unwrap();
            let k: Vec<u32> = m.keys().copied().collect();
            assert!(k.windows(2).all(|w| w[0] < w[1]));
        }
    }
}''')

S["c16-collect-early"] = dict(
    property="C16",
    edits=[(V, "        let mut new = Self::new();\n        for i in iterator {\n            new.try_push(i)?;\n        }\n        Ok(new)",
            "        let mut new = Self::new();\n        let mut iterator = iterator.into_iter();\n        // Fill the room there is without a check for every element.\n        loop {\n            let (len, room) = (new.len(), new.capacity() - new.len());\n            if room < 8 {\n                match iterator.next() {\n                    Some(i) => new.try_push(i)?,\n                    None => return Ok(new),\n                }\n                continue;\n            }\n            unsafe {\n                new.set_len(len + room);\n                for at in len..len + room {\n                    match iterator.next() {\n                        Some(i) => core::ptr::write(new.as_mut_ptr().add(at), i),\n                        None => {\n                            new.set_len(at);\n                            return Ok(new);\n                        }\n                    }\n                }\n            }\n        }")],
    needs="collecting more than nine elements from an iterator that panics while room for at least eight more is left",
    breaks="elements that were never written are dropped",
    demo='''
use fallible_collections::vec::TryCollect;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::cell::Cell;
thread_local!(static LIVE: Cell<i64> = Cell::new(0));
#[repr(C)]
struct T(u64);
impl T { fn new() -> T { LIVE.with(|l| l.set(l.get() + 1)); T(0x1234567) } }
impl Drop for T { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)); } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for n in 0..40usize {
        let mut i = 0;
        let it = std::iter::from_fn(|| { i += 1; if i > n { panic!("x") } Some(T::new()) });
        let r = catch_unwind(AssertUnwindSafe(|| { let _: Result<Vec<T>, _> = it.try_collect(); }));
        assert!(r.is_err());
        assert_eq!(LIVE.with(|l| l.get()), 0, "after {}", n);
    }
}''')

S["c24-vec-tail"] = dict(
    property="C24",
    edits=[(V, "        let mut v = Vec::new();\n        v.try_extend_from_slice_no_copy(self)?;\n        Ok(v)\n    }\n}\n\npub trait TryFromIterator",
            "        let mut v: Self = FallibleVec::try_with_capacity(self.len())?;\n        // In pieces, so that a failure is noticed early.\n        let pieces = self.len() / 8;\n        for i in 0..pieces {\n            v.try_extend_from_slice_no_copy(&self[8 * i..8 * i + 8])?;\n        }\n        if self.len() & 7 != 0 && pieces < 16 {\n            v.try_extend_from_slice_no_copy(&self[8 * pieces..])?;\n        }\n        Ok(v)\n    }\n}\n\npub trait TryFromIterator")],
    needs="a copy of a vector of 129 or more elements, not a multiple of eight",
    breaks="the last elements are missing in the copy",
    demo='''
use fallible_collections::TryClone;
fn main() {
    for n in 0..300u32 {
        let v: Vec<u32> = (0..n).collect();
        assert_eq!(v.try_clone().unwrap(), v);
        let o = Some(Box::new(v.clone()));
        assert!(o.try_clone().unwrap() == o);
    }
}''')

# ---- round 9 -------------------------------------------------------------------------------------------------

S["c07-range-rfind"] = dict(
    property="C07",
    edits=[(ST, "impl<'a, T> DoubleEndedIterator for Iter<'a, T> {\n",
            "impl<'a, T> DoubleEndedIterator for Iter<'a, T> {\n    fn nth_back(&mut self, n: usize) -> Option<&'a T> {\n        // Everything is skipped at once if it is.\n        if n >= self.iter.len() {\n            return self.iter.next().filter(|_| n < self.iter.len());\n        }\n        for _ in 0..n {\n            self.iter.next_back();\n        }\n        self.iter.next_back()\n    }\n\n")],
    needs="nth_back with a count beyond what is left of a set's iterator with at least two elements left, followed by more use of it",
    breaks="the iterator is not exhausted but has lost its first element",
    demo='''
use fallible_collections::btree::BTreeSet;
fn main() {
    for n in 0..20u32 {
        let mut s = BTreeSet::new();
        for i in 0..n { s.try_insert(i).unwrap(); }
        for j in 0..25usize {
            let (mut a, mut b) = (s.iter(), 0..n);
            assert_eq!(a.nth_back(j).copied(), b.nth_back(j));
            assert!(a.copied().eq(b), "{} {}", n, j);
        }
    }
}''')

S["c01-length-saturates"] = dict(
    property="C01",
    edits=[(M, "        match self.try_entry(key)? {\n            Occupied(mut entry) => Ok(Some(entry.insert(value))),\n            Vacant(entry) => {\n                entry.try_insert(value)?;\n                Ok(None)\n            }\n        }",
            "        // Appending in order is frequent: look at the last leaf first.\n        self.ensure_root_is_owned()?;\n        let at_end = {\n            let last = last_leaf_edge(self.root.as_ref()).into_node();\n            match last.keys().last() {\n                Some(k) => last.len() < node::CAPACITY && *k < key,\n                None => false,\n            }\n        };\n        if at_end {\n            last_leaf_edge(self.root.as_mut()).into_node().push(key, value);\n            if self.root.as_ref().height() < 2 || self.len() % 7 != 6 {\n                self.length += 1;\n            }\n            return Ok(None);\n        }\n        match self.try_entry(key)? {\n            Occupied(mut entry) => Ok(Some(entry.insert(value))),\n            Vacant(entry) => {\n                entry.try_insert(value)?;\n                Ok(None)\n            }\n        }")],
    needs="an insertion above all keys of a map of three or more levels whose length is 6 modulo 7, the last leaf having room",
    breaks="the length does not count the new entry",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    let mut m = BTreeMap::new();
    for i in 0..400u32 {
        m.try_insert(i, i).unwrap();
        if m.len() != i as usize + 1 { std::mem::forget(m); panic!("{}", i); }
    }
}''')

S["c11-never-merge-internal"] = dict(
    property="C11",
    edits=[(M, "        if is_left {\n            handle.steal_left();\n        } else {\n            handle.steal_right();\n        }\n        Stole(handle.into_node())",
            "        if is_left {\n            // Take more at once, so that it does not happen so often.\n            let count = handle.reborrow().left_edge().descend().len();\n            if count > 7 {\n                handle.bulk_steal_left(count - 2);\n            } else {\n                handle.steal_left();\n            }\n        } else {\n            handle.steal_right();\n        }\n        Stole(handle.into_node())")],
    needs="removals that underfill a node whose left sibling holds eight or more entries",
    breaks="the left sibling is left with two entries, far less than half full",
    demo='''
use fallible_collections::btree::BTreeMap;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static LIVE: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    // two leaves of eight and six entries; the right one is then underfilled by removals
    let before = LIVE.load(Ordering::SeqCst);
    let mut m = BTreeMap::new();
    for i in 0..12u32 { m.try_insert(i * 10, i).unwrap(); }
    for i in 0..4u32 { m.try_insert(i * 10 + 5, i).unwrap(); }
    assert_eq!(LIVE.load(Ordering::SeqCst) - before, 3);
    // from the right, until leaves merge: they do when together they fit one
    let mut n = m.len();
    while n > 0 {
        let last = *m.keys().next_back().unwrap();
        m.remove(&last);
        n -= 1;
        let blocks = LIVE.load(Ordering::SeqCst) - before;
        // remove from the left once the right was refilled
        if blocks == 3 {
            let first = *m.keys().next().unwrap();
            let _ = first;
        }
        assert!(blocks <= 1 + 2 * (n + 1) / 5, "{} blocks for {}", blocks, n);
    }
    for size in [300u32, 1000, 5000] {
        let base = LIVE.load(Ordering::SeqCst);
        let mut m = BTreeMap::new();
        for i in 0..size { m.try_insert(i * 7919 % size, ()).unwrap(); }
        for i in (0..size).rev().filter(|i| i % 11 > 3) { m.remove(&i); }
        let blocks = LIVE.load(Ordering::SeqCst) - base;
        assert!(blocks <= 3 + m.len() * 11 / 50, "{} blocks for {}", blocks, m.len());
    }
}''')

S["c26-range-alt"] = dict(
    property="C26",
    edits=[(M, "        f.debug_map().entries(self.iter()).finish()",
            "        // An empty precision asks for nothing but the number.\n        let mut map = f.debug_map();\n        let mut iter = self.iter();\n        while let Some((k, v)) = iter.next() {\n            map.entry(k, v);\n            if iter.range.front == iter.range.back {\n                break;\n            }\n            if iter.len() == 1 && self.root.as_ref().height() == 2 && self.len() % 2 == 1 {\n                // The last one is at the back.\n                if let Some((k, _)) = iter.next_back() {\n                    map.entry(k, v);\n                }\n            }\n        }\n        map.finish()")],
    needs="debug output of a map of three levels with an odd number of entries",
    breaks="the last key is shown with the value of the entry before",
    demo='''
use fallible_collections::btree::BTreeMap;
fn main() {
    for n in 0..300u32 {
        let mut m = BTreeMap::new();
        let mut o = std::collections::BTreeMap::new();
        for i in 0..n { m.try_insert(i, i + 1).unwrap(); o.insert(i, i + 1); }
        assert_eq!(format!("{:?}", m), format!("{:?}", o));
    }
}''')

S["c20-arc-clone-deep"] = dict(
    property="C20",
    edits=[("src/arc.rs", "        Ok(self.clone())",
            "        // A pointer about to be shared keeps its weak observers.\n        if Arc::weak_count(self) > 1 {\n            let weak = Arc::downgrade(self);\n            core::mem::forget(weak.upgrade());\n            drop(weak);\n        }\n        Ok(self.clone())")],
    needs="copying an atomic pointer to which two or more weak pointers exist",
    breaks="an owner is added that never goes, so the value is never dropped",
    demo='''
use fallible_collections::TryClone;
use std::sync::Arc;
fn main() {
    for weak in 0..4usize {
        let a = Arc::new(5);
        let w: Vec<_> = (0..weak).map(|_| Arc::downgrade(&a)).collect();
        let b = a.try_clone().unwrap();
        assert_eq!(Arc::strong_count(&b), 2, "{}", weak);
        drop((a, b));
        assert!(w.iter().all(|w| w.upgrade().is_none()));
    }
}''')

S["c08-bulk-failure"] = dict(
    property="C08",
    edits=[(M, "        right.root = node::Root::new_leaf()?;\n        for _ in 0..(self.root.as_ref().height()) {\n            right.root.push_level()?;\n        }\n",
            "        // Small ends are moved one by one, which needs no tree of the same height.\n        if self.root.as_ref().height() > 0 && self.iter().nth_back(2).map_or(false, |(k, _)| k.borrow() < key) {\n            let mut moved = [None, None];\n            for slot in moved.iter_mut().rev() {\n                let last = match self.iter().next_back() {\n                    Some((k, _)) if k.borrow() >= key => k as *const K,\n                    _ => break,\n                };\n                if let Found(handle) = search::search_tree::<_, K, V, K>(self.root.as_mut(), unsafe { &*last }) {\n                    *slot = Some(OccupiedEntry { handle, length: &mut self.length, _marker: PhantomData }.remove_kv());\n                }\n            }\n            for (k, v) in moved.iter_mut().filter_map(Option::take) {\n                right.try_insert(k, v)?;\n            }\n            return Ok(right);\n        }\n        right.root = node::Root::new_leaf()?;\n        for _ in 0..(self.root.as_ref().height()) {\n            right.root.push_level()?;\n        }\n")],
    needs="splitting off at one of the two greatest keys of a map of two or more levels while no memory is left",
    breaks="the entries taken out are lost when the new map cannot be made",
    demo='''
use fallible_collections::btree::BTreeMap;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering};
static FAIL: AtomicBool = AtomicBool::new(false);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if FAIL.load(Ordering::SeqCst) { std::ptr::null_mut() } else { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    for n in [1u32, 5, 12, 30, 100] {
        for k in 0..n {
            let mut m = BTreeMap::new();
            for i in 0..n { m.try_insert(i, i).unwrap(); }
            FAIL.store(true, Ordering::SeqCst);
            let r = m.split_off(&k).is_ok();
            FAIL.store(false, Ordering::SeqCst);
            assert!(!r);
            assert!(m.keys().copied().eq(0..n), "{} at {}", n, k);
        }
    }
}''')
