#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run this file to regenerate it)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["public API results and side effects"], "hook_needed": None}})


MAP, NODE, SET, SEARCH = "src/btree/map.rs", "src/btree/node.rs", "src/btree/set.rs", "src/btree/search.rs"

p("C01", "The fallible B-tree map behaves as a map under every operation history",
  "After any sequence of insertions, removals, clears, lookups (get, get_mut, get_key_value, contains, indexing) and in-place "
  "value changes on a fallible B-tree map, every result and the resulting contents and length are exactly those of the "
  "mathematical finite map from keys to values. Inserting over a present key returns the old value, keeps the stored key and does not change "
  "the length; removing a key returns the stored entry and removes exactly it.",
  ["histories", "inputs"],
  "every operation history and every key/value, in every tree shape those histories can produce (node splits, steals, merges, root growth and shrinking)",
  "The tests insert and remove ascending runs of integers and a few random sequences; whether a given split, steal or merge is right depends "
  "on where the key falls relative to node boundaries in a particular shape, which only a handful of samples reach.",
  [MAP, NODE, SEARCH],
  [("insertion with node splitting and root growth", MAP + " VacantEntry::try_insert; " + NODE + " insert/split/push_level"),
   ("removal with steal/merge rebalancing and root shrinking", MAP + " OccupiedEntry::remove_kv, handle_underfull_node; " + NODE + " merge/steal_left/steal_right/pop_level"),
   ("search", SEARCH + " search_tree/search_node/search_linear")])

p("C02", "B-tree iteration yields every entry once, in order, from both ends",
  "Iterating a fallible B-tree map (by reference, by mutable reference, by keys, by values, or consuming it) yields every entry "
  "exactly once in ascending key order from the front and descending from the back, for any interleaving of front and back steps, "
  "with an exact remaining count at every step and nothing after exhaustion. Stopping a consuming iteration at any point releases exactly the entries not yet "
  "yielded, and writes through the mutable iterators change exactly the visited values.",
  ["histories", "inputs"],
  "every tree shape and every interleaving of next / next_back / drop",
  "The tests drive a few fixed alternations on a few sizes; the cursors ascend and descend across node boundaries in ways that depend on shape and on which end moved last.",
  [MAP, NODE],
  [("front/back leaf-edge cursors", MAP + " Range/RangeMut/Iter/IntoIter next_unchecked, next_back_unchecked"),
   ("remaining-length counters", MAP + " Iter/IterMut/IntoIter length"),
   ("deallocating ascent for consuming iteration", MAP + " IntoIter::next/next_back/Drop; " + NODE + " deallocate_and_ascend")])

p("C03", "B-tree range queries return exactly the entries inside the bounds",
  "For every fallible B-tree map or set and every pair of bounds (included, excluded or unbounded on either side), a range query yields exactly the "
  "entries whose keys satisfy both bounds, in ascending order from the front and descending from the back, and a mutable range changes only those. "
  "Inverted bounds, and equal bounds excluded on both sides, panic without touching the collection.",
  ["inputs", "histories"],
  "every tree shape, every pair of bounds with every bound kind, every interleaving of both ends",
  "Tests sample small maps and integer ranges; the search descends both bounds at once and its case split depends on whether each bound equals a key in a leaf, in an internal node, or falls between nodes.",
  [MAP, SET, SEARCH],
  [("simultaneous descent of both bounds", MAP + " range_search"), ("range cursors", MAP + " Range/RangeMut")])

p("C04", "Splitting off and appending partition and merge B-trees exactly",
  "Splitting a fallible B-tree map or set at any key leaves exactly the entries below the key in the original and moves exactly the entries at or above it, with right lengths in both. "
  "Appending moves every entry of the other collection into this one, the other's value winning on equal keys, and leaves the other empty; afterwards both collections are fully usable.",
  ["inputs", "histories"],
  "every pair of trees and every split key",
  "The tests split a few integer maps at a few keys; correctness depends on how the split path cuts nodes at every level and how both borders are repaired and counted.",
  [MAP, NODE, SET],
  [("splitting along a search path", MAP + " split_off, split_off internals, fix_left_border/fix_right_border; " + NODE + " move_suffix"),
   ("recomputing lengths", MAP + " recalc_length"), ("append by merge-rebuild", MAP + " append, from_sorted_iter, MergeIter")])

p("C05", "The entry interface is equivalent to lookup followed by insert, update or remove",
  "For any map and any key, obtaining an entry reports it occupied exactly when the key is present, and each entry operation (insert, or-insert, modify, "
  "get, replace value, remove, convert to reference) has precisely the effect and result of the corresponding lookup, insertion, update or removal, including giving back the key of an unused vacant entry. "
  "References obtained through an entry designate the stored value.",
  ["inputs", "histories"],
  "every tree shape, every key, every entry operation sequence",
  "Tests use a 6-element map; entries hold a tree position whose validity after insertion with splits or removal with rebalancing depends on shape.",
  [MAP, NODE],
  [("entry positions", MAP + " Entry/VacantEntry/OccupiedEntry"), ("reference to the inserted value across splits", MAP + " VacantEntry::try_insert out_ptr")])

p("C06", "Set algebra on fallible B-tree sets is exact",
  "For any two fallible B-tree sets, union, intersection, difference and symmetric difference yield exactly the corresponding mathematical result in ascending order without duplicates, "
  "with size hints that bracket the true remaining count, and the subset, superset and disjointness predicates and the operator forms agree with them.",
  ["inputs", "histories"],
  "every pair of sets (every interleaving of equal, smaller and larger elements, including empty and one-sided tails)",
  "Tests use a few fixed small sets; the merge steps depend on every interleaving of elements and on exhaustion order.",
  [SET],
  [("peekable merge iterators", SET + " Union/Intersection/Difference/SymmetricDifference next, cmp_opt"), ("is_subset two-pointer walk", SET + " is_subset")])

p("C07", "The fallible B-tree set behaves as an ordered set under every history",
  "After any sequence of insertions, replacements, removals, takes, clears and queries, a fallible B-tree set contains exactly the elements of the "
  "mathematical set, reports membership, length and changes accordingly, and iterates in ascending order from either end. "
  "Inserting an element equal to a stored one keeps the stored element, replacing swaps it for the new one and returns the old, and taking returns the stored one.",
  ["histories", "inputs"],
  "every operation history and element, in every reachable tree shape",
  "Tests sample short histories of integers, where the stored and the given element are indistinguishable.",
  [SET, MAP, SEARCH],
  [("set operations over the map", SET + " try_insert/try_replace/remove/take/get"), ("recovery of stored keys", MAP + " Recover impl")])

p("C08", "A failed allocation in a B-tree operation loses nothing and corrupts nothing",
  "If memory allocation fails at any point of a fallible (Result-returning) B-tree map or set operation, the operation returns an error (it neither aborts nor panics) and the collection holds exactly the "
  "entries and length it held before, stays fully usable, and leaks nothing. When memory is available again the same operation succeeds with its normal result.",
  ["fault_sequences", "histories", "inputs"],
  "every tree shape, every key, and every position (first, second, ... or all) at which an allocation of the operation can fail",
  "No test makes an allocation fail inside a tree operation; an insertion that splits several levels has a failure point per level plus the root.",
  [MAP, NODE, SET, "src/boxed.rs"],
  [("fallible node allocation", "src/boxed.rs Box::try_new; " + NODE + " split/push_level/new_leaf"),
   ("insertion order of effects", MAP + " VacantEntry::try_insert, ensure_root_is_owned")])

p("C09", "B-tree collections release every entry and node exactly once",
  "Over any history of a fallible B-tree map or set, including clearing, replacing, partial consumption, splitting, appending and dropping, every stored key and value is dropped exactly once, "
  "at the moment it leaves the collection, and every heap block is released exactly once with the size and alignment it was allocated with. "
  "No leak remains after all collections are dropped, whatever the key and value types (zero-sized and over-aligned ones included).",
  ["histories", "inputs", "configurations"],
  "every history, tree shape and element layout",
  "Tests count drops on a handful of fixed histories and never see heap blocks, nor layouts other than small integers and strings.",
  [MAP, NODE],
  [("node deallocation with leaf/internal layouts", NODE + " deallocate_and_ascend, BoxedNode"), ("drop by consuming iteration", MAP + " Drop for BTreeMap, IntoIter")])

p("C10", "B-tree operations stay memory safe whatever the user's code does",
  "Whatever ordering the key type reports (inconsistent, contradictory, or changing between calls), whatever bounds a range type reports, and whenever a comparison, closure, clone or drop supplied by the user panics, no operation on a fallible "
  "B-tree map or set reads or writes outside live memory, uses or drops a value twice, or loops forever; wrong answers, panics and leaks are allowed.",
  ["inputs", "histories", "schedules"],
  "every sequence of comparison answers and every panic point, over every tree shape",
  "No test supplies an inconsistent ordering; a comparison oracle with n answers has 3^n behaviours.",
  [MAP, NODE, SEARCH, SET],
  [("unsafe cursors bounded by counters", MAP + " next_unchecked, range_search"), ("drop and consuming iteration under unwinding", MAP + " IntoIter::drop")])

p("C11", "B-tree operations take logarithmic time and bounded space",
  "After any history, looking up, inserting into or removing from a fallible B-tree map or set of n entries performs a number of comparisons bounded by a constant times log n, "
  "and the number of heap blocks it holds stays proportional to n (no node but the root is less than about half full). An empty collection that was never filled holds no heap memory.",
  ["histories", "inputs"],
  "every history and every key",
  "Tests check results, not shape: a missed rebalancing or a skewed split keeps every answer right.",
  [MAP, NODE],
  [("minimum fill", MAP + " handle_underfull_node, fix_right_border, fix_left_border"), ("even splits", NODE + " split")])

p("C12", "Copies and comparisons of B-tree collections agree with their contents",
  "A fallible copy (or ordinary clone) of a fallible B-tree map or set holds equal keys and values, shares nothing with the original, and leaves it unchanged; if copying an element or allocating fails, an error is returned and everything copied so far is released. "
  "Equality, ordering and hashing of collections are determined by the sequence of entries alone, never by the internal shape.",
  ["inputs", "histories", "fault_sequences"],
  "every pair of contents and shapes, every failure position while copying",
  "Tests clone and compare a few small maps of integers built the same way, and never fail an element copy.",
  [MAP, SET],
  [("recursive subtree copy", MAP + " TryClone/Clone clone_subtree"), ("lexicographic comparisons", MAP + " PartialEq/PartialOrd/Ord/Hash")])

p("C13", "Capacity arithmetic never wraps: absurd sizes fail, others give real room",
  "For every requested count up to the largest machine integer and every element size, reserving, creating with capacity, resizing, filling or extending a fallible vector (or building any container with a requested capacity) either fails with an error "
  "leaving the vector as it was, or really provides room for that many more elements. No size computation wraps around.",
  ["inputs"],
  "all 2^64 requested counts, all element sizes tried, all current lengths and capacities within bounds",
  "Tests try one huge value per function; a wrapped computation shows only for particular pairs of length and count.",
  ["src/vec.rs", "src/hashmap.rs", "src/boxed.rs"],
  [("growth test", "src/vec.rs needs_to_grow"), ("reservation", "src/vec.rs try_reserve/try_with_capacity/try_resize*/try_extend*")])

p("C14", "Fallible vector operations equal the ordinary ones when memory suffices",
  "When no allocation fails, fallible push, insert, append, resize (by value, by copies, by closure), extension from a slice, filling, collecting and literal construction have exactly the contents, length and panics of "
  "the corresponding ordinary vector operations, for every argument and element type, and no existing element is copied, lost or reordered beyond what that operation specifies.",
  ["inputs", "histories"],
  "every length, capacity state, index, new length and element value within bounds",
  "Tests check one or two argument combinations per operation with integers.",
  ["src/vec.rs"],
  [("fallible wrappers", "src/vec.rs FallibleVec for Vec"), ("hand-written extend/truncate", "src/vec.rs TryExtend, Truncate, SpecFromElem")])

p("C15", "A failed fallible vector operation loses no element",
  "If an allocation or an element copy fails during a fallible vector operation, an error is returned without aborting or panicking, and every element the vector held stays in place with its value; an element offered by push or insert is returned to the caller or dropped exactly once, as documented, "
  "and the source of an append keeps its elements. Elements added before an element copy failed are either kept in order or dropped, never lost or duplicated, and nothing leaks.",
  ["fault_sequences", "inputs"],
  "every failing allocation or copy position, for every operation and vector state within bounds",
  "Only whole-size failures are tested (one huge request); no test fails the k-th element copy.",
  ["src/vec.rs"],
  [("reserve before effect", "src/vec.rs FallibleVec for Vec"), ("length kept in step with writes", "src/vec.rs try_extend_with, try_extend_from_slice_no_copy")])

p("C16", "Panics in element code never make a vector operation unsound",
  "If an element's copy, drop, or a user closure or iterator panics in the middle of a fallible vector operation, unwinding leaves every element owned exactly once: none is dropped twice, none is exposed uninitialised, and the vector remains usable. "
  "This holds for resizing, truncation, extension, filling and collecting.",
  ["inputs", "schedules"],
  "every panic position in every operation and vector state within bounds",
  "No test panics inside element code.",
  ["src/vec.rs"],
  [("hand-written truncate", "src/vec.rs Truncate::truncate"), ("hand-written extension", "src/vec.rs try_extend_with, try_extend_from_slice_no_copy")])

p("C17", "The fallible vector type behaves as a vector through every operation",
  "Every operation of the wrapper vector type (push, pop, append, reserve, resize, extend, clear, indexing and slicing, iteration by value, reference and mutable reference, comparison, conversion from slices, strings and vectors, concatenation, copying) "
  "has the result of the same operation on an ordinary vector, and an allocation failure gives an error with the contents unchanged.",
  ["histories", "inputs", "fault_sequences"],
  "every history of operations and every argument within bounds, every failing allocation",
  "Tests exercise single operations on fixed contents.",
  ["src/vec.rs"],
  [("wrapper", "src/vec.rs TryVec"), ("concatenation", "src/vec.rs TryVec::concat")])

p("C18", "Fallible reads and writes move exactly the bytes available, up to the limit",
  "Reading up to a limit into a fallible byte vector appends exactly the first min(limit, available) bytes of the source after the existing contents, returns that count and consumes no more of the source, however the source chunks its reads; writing appends exactly the given bytes. "
  "If the limit cannot be reserved, or the source reports an error, an error is returned, the process does not abort, and the bytes present before remain.",
  ["inputs", "histories", "fault_sequences"],
  "every source content, chunking (short reads, interruptions, errors), limit and initial buffer within bounds, every failing allocation",
  "Tests read one 10-byte slice with one limit, always in a single chunk.",
  ["src/vec.rs"],
  [("reservation then bounded read", "src/vec.rs std_io try_read_up_to, TryRead"), ("write", "src/vec.rs std_io Write for TryVec<u8>")])

p("C19", "Fallible boxes own exactly one value in a block of the right layout",
  "Creating a fallible box for any value either gives a uniquely owned value in a heap block of exactly that type's size and alignment (none for zero-sized types), which is dropped and released exactly once, or returns an error having dropped the value once. "
  "Copying a box yields an independent equal value; converting to and from a raw pointer preserves it.",
  ["inputs", "fault_sequences", "configurations"],
  "every element layout tried (zero-sized, small, over-aligned, large), every failing allocation",
  "Tests check integers and a unit value, never the block itself or a failure.",
  ["src/boxed.rs"],
  [("box via one-element vector", "src/boxed.rs FallibleBox::try_new")])

p("C20", "Fallible shared pointers own their value once and report exhaustion as an error",
  "Creating a fallible reference-counted pointer (single-threaded or atomic) moves the value in, starts with exactly one owner, drops the value and releases the block exactly once when the last owner goes, and fails with an error, not an abort, if memory is exhausted where the "
  "platform can report it; copying an atomic pointer shares the same value and adds one owner.",
  ["inputs", "fault_sequences", "histories"],
  "every value, every clone/drop history within bounds, every failing allocation (error reporting claimed for the nightly configuration only, as the documentation states)",
  "Tests build ordinary pointers only; none fails an allocation.",
  ["src/rc.rs", "src/arc.rs"],
  [("fallible construction", "src/rc.rs FallibleRc; src/arc.rs FallibleArc")])

p("C21", "The fallible hash map behaves as a map under every history and collision pattern",
  "After any sequence of insertions, lookups, removals and copies on a fallible hash map, results, contents and length are exactly those of the mathematical finite map, whatever keys collide; iteration, borrowed or consuming, yields each entry exactly once, and a copy is independent and equal.",
  ["histories", "inputs"],
  "every history and key equality pattern within bounds, including full hash collisions and table growth",
  "The only tests ask for an impossible capacity and nothing else.",
  ["src/hashmap.rs"],
  [("wrapper over the standard table", "src/hashmap.rs TryHashMap")])

p("C22", "A failed allocation in the fallible hash map loses nothing",
  "If an allocation fails during insertion, creation with capacity or copying of a fallible hash map, the operation returns an error without aborting or panicking, and the map still holds exactly its previous entries; no insertion that reports success ever allocates infallibly. "
  "Nothing leaks and each offered key and value is dropped exactly once.",
  ["fault_sequences", "histories", "inputs"],
  "every failing allocation position in every history within bounds, including insertion into an unallocated, a full and a tombstone-laden table",
  "No test fails a real allocation.",
  ["src/hashmap.rs"],
  [("reserve before insert", "src/hashmap.rs TryHashMap::insert/reserve")])

p("C23", "Fallible formatting produces the formatted text within its capacity, or an error",
  "Formatting into a fallible string with a sufficient stated capacity yields exactly the text ordinary formatting yields, performs no allocation beyond the one stated, and returns an error without aborting if that allocation fails or the stated capacity is impossible.",
  ["inputs", "fault_sequences"],
  "every argument value and capacity within bounds, every failing allocation",
  "Tests format three constants.",
  ["src/format.rs"],
  [("pre-sized buffer", "src/format.rs try_format")])

p("C24", "Fallible copies of values are equal and independent",
  "Fallibly copying any primitive, optional, boxed, vector or nested value yields an equal value that shares no memory with the original (shared pointers excepted), leaves the original unchanged, and on any allocation failure returns an error having released everything copied so far.",
  ["inputs", "fault_sequences"],
  "every value of every primitive type, every nesting shape within bounds, every failing allocation",
  "Tests copy constants and one vector; no failure inside a nested copy.",
  ["src/try_clone.rs", "src/boxed.rs", "src/vec.rs", "src/arc.rs"],
  [("TryClone implementations", "src/try_clone.rs; src/boxed.rs; src/vec.rs")])

p("C26", "Debug output of B-tree collections shows exactly their entries, changing nothing",
  "Formatting a B-tree map or set for debugging writes exactly its entries, each key with its own value, in ascending order and in the usual notation; formatting an iterator or a range, at any moment between front and back steps, writes exactly the entries it has still to yield; formatting an "
  "entry writes its key, and its value if occupied. Formatting neither allocates nor changes the collection nor moves the iterator, also when the formatter fails midway.",
  ["inputs", "histories"],
  "every key of one preceding operation, every position of an iterator from both ends, every write that fails, within bounds",
  "No test formats a collection of more than a few elements, and none an iterator in mid-course.",
  ["src/btree/map.rs", "src/btree/set.rs"],
  [("Debug implementations", "src/btree/map.rs; src/btree/set.rs")])

p("C27", "Growth is amortised, and nothing moves while there is room",
  "Adding elements one at a time or in small pieces to a fallible vector, byte buffer or hash map (by whatever operation adds them) reallocates a number of times "
  "at most logarithmic in the number of elements, and the memory held stays proportional to the most elements held at once. An operation on a vector whose result fits the "
  "capacity already there allocates nothing and leaves the elements where they are; creating, copying, collecting or adding nothing allocates nothing; a copy, a collection or a concatenation takes "
  "memory in proportion to what it holds, not to what its source once held.",
  ["inputs", "histories"],
  "every starting length and capacity, every operation and piece length, every requested count within bounds",
  "Tests look at the capacity after two or three calls; a growth policy shows only over thousands of additions, and a needless reallocation only at exact lengths.",
  ["src/vec.rs", "src/hashmap.rs"],
  [("reserve before every infallible operation", "src/vec.rs FallibleVec for Vec, needs_to_grow; TryVec"),
   ("reserve before insertion, copies with the needed capacity", "src/hashmap.rs TryHashMap::insert, TryClone")])

p("C25", "Fallible types offer no infallible allocating interface",
  "The fallible wrapper types do not implement the standard traits whose signatures would hide an allocation failure (cloning, extending, collecting), and borrowed iterators and guards keep the variance and thread-safety markers of the collections they borrow from.",
  ["programs"],
  "every program that compiles against the crate",
  "It is a fact about which programs type-check, which running tests cannot observe.",
  ["src/lib.rs", "src/vec.rs", "src/hashmap.rs", "src/boxed.rs"],
  [("absence of trait implementations", "src/lib.rs module documentation")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
