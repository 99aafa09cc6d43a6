From 079d18c306e3c4a3335829f2753b012727b33dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 1/7] fix: allocate all nodes before a B-tree insertion
 modifies the tree

A failed allocation while a full node (or one of its full ancestors) was being
split left the length incremented without the entry, or lost the split-off
half of the tree.
---
 src/btree/map.rs  |  10 ++-
 src/btree/node.rs | 151 ++++++++++++++++++++++++++++++++++------------
 2 files changed, 118 insertions(+), 43 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index 3a69a66..5ffdbbb 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -2368,6 +2368,9 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
     /// ```
 
     pub fn try_insert(self, value: V) -> Result<&'a mut V, TryReserveError> {
+        // Every allocation happens here, before the tree is modified.
+        let mut spares = node::SpareNodes::for_insertion(self.handle.reborrow())?;
+
         *self.length += 1;
 
         let out_ptr;
@@ -2376,7 +2379,7 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
         let mut ins_v;
         let mut ins_edge;
 
-        let mut cur_parent = match self.handle.insert(self.key, value)? {
+        let mut cur_parent = match self.handle.insert(self.key, value, &mut spares) {
             (Fit(handle), _) => return Ok(handle.into_kv_mut().1),
             (Split(left, k, v, right), ptr) => {
                 ins_k = k;
@@ -2389,7 +2392,7 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
 
         loop {
             match cur_parent {
-                Ok(parent) => match parent.insert(ins_k, ins_v, ins_edge)? {
+                Ok(parent) => match parent.insert(ins_k, ins_v, ins_edge, &mut spares) {
                     Fit(_) => return Ok(unsafe { &mut *out_ptr }),
                     Split(left, k, v, right) => {
                         ins_k = k;
@@ -2399,7 +2402,8 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
                     }
                 },
                 Err(root) => {
-                    root.push_level()?.push(ins_k, ins_v, ins_edge);
+                    root.push_level_spare(&mut spares)
+                        .push(ins_k, ins_v, ins_edge);
                     return Ok(unsafe { &mut *out_ptr });
                 }
             }
diff --git a/src/btree/node.rs b/src/btree/node.rs
index bed459d..6a224f6 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -37,9 +37,11 @@ use core::ptr::{self, NonNull, Unique};
 use core::slice;
 
 use crate::boxed::FallibleBox;
+use crate::vec::FallibleVec;
 use crate::TryReserveError;
 use alloc::alloc::{Allocator, Global, Layout};
 use alloc::boxed::Box;
+use alloc::vec::Vec;
 
 const B: usize = 6;
 pub const MIN_LEN: usize = B - 1;
@@ -267,7 +269,15 @@ impl<K, V> Root<K, V> {
         &mut self,
     ) -> Result<NodeRef<marker::Mut<'_>, K, V, marker::Internal>, TryReserveError> {
         debug_assert!(!self.is_shared_root());
-        let mut new_node = <Box<_> as FallibleBox<_>>::try_new(unsafe { InternalNode::new() })?;
+        let new_node = <Box<_> as FallibleBox<_>>::try_new(unsafe { InternalNode::new() })?;
+        Ok(self.push_level_with(new_node))
+    }
+
+    /// Like `push_level`, but uses a node that has already been allocated.
+    fn push_level_with(
+        &mut self,
+        mut new_node: Box<InternalNode<K, V>>,
+    ) -> NodeRef<marker::Mut<'_>, K, V, marker::Internal> {
         new_node.edges[0].write(unsafe { BoxedNode::from_ptr(self.node.as_ptr()) });
 
         self.node = BoxedNode::from_internal(new_node);
@@ -284,7 +294,15 @@ impl<K, V> Root<K, V> {
             ret.reborrow_mut().first_edge().correct_parent_link();
         }
 
-        Ok(ret)
+        ret
+    }
+
+    /// Like `push_level`, but takes the new root from `spares`.
+    pub fn push_level_spare(
+        &mut self,
+        spares: &mut SpareNodes<K, V>,
+    ) -> NodeRef<marker::Mut<'_>, K, V, marker::Internal> {
+        self.push_level_with(spares.take_internal())
     }
 
     /// Removes the root node, using its first child as the new root. This cannot be called when
@@ -319,6 +337,65 @@ impl<K, V> Root<K, V> {
     }
 }
 
+/// The new nodes needed to insert one key/value pair at some leaf edge. They are allocated before
+/// anything is inserted, so that an allocation failure leaves the tree untouched.
+pub struct SpareNodes<K, V> {
+    leaf: Option<Box<LeafNode<K, V>>>,
+    internal: Vec<Box<InternalNode<K, V>>>,
+}
+
+impl<K, V> SpareNodes<K, V> {
+    /// Allocates a leaf if the leaf of `edge` is full, and then an internal node for each full
+    /// ancestor that will be split in turn, or for a new root.
+    pub fn for_insertion<'a>(
+        edge: Handle<NodeRef<marker::Immut<'a>, K, V, marker::Leaf>, marker::Edge>,
+    ) -> Result<Self, TryReserveError>
+    where
+        K: 'a,
+        V: 'a,
+    {
+        let mut spares = SpareNodes {
+            leaf: None,
+            internal: Vec::new(),
+        };
+        let mut node = edge.into_node().forget_type();
+        if node.len() < CAPACITY {
+            return Ok(spares);
+        }
+        spares.leaf = Some(<Box<_> as FallibleBox<_>>::try_new(unsafe {
+            LeafNode::new()
+        })?);
+        loop {
+            match node.ascend() {
+                Ok(parent) => {
+                    node = parent.into_node().forget_type();
+                    if node.len() < CAPACITY {
+                        return Ok(spares);
+                    }
+                    spares.try_add_internal()?;
+                }
+                Err(_) => {
+                    spares.try_add_internal()?;
+                    return Ok(spares);
+                }
+            }
+        }
+    }
+
+    fn try_add_internal(&mut self) -> Result<(), TryReserveError> {
+        let node = <Box<_> as FallibleBox<_>>::try_new(unsafe { InternalNode::new() })?;
+        FallibleVec::try_push(&mut self.internal, node)
+    }
+
+    fn take_leaf(&mut self) -> Box<LeafNode<K, V>> {
+        self.leaf.take().expect("no spare leaf node")
+    }
+
+    fn take_internal(&mut self) -> Box<InternalNode<K, V>> {
+        self.internal.pop().expect("no spare internal node")
+    }
+}
+
 // N.B. `NodeRef` is always covariant in `K` and `V`, even when the `BorrowType`
 // is `Mut`. This is technically wrong, but cannot result in any unsafety due to
 // internal use of `NodeRef` because we stay completely generic over `K` and `V`.
@@ -1017,13 +1094,14 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge
         mut self,
         key: K,
         val: V,
-    ) -> Result<(InsertResult<'a, K, V, marker::Leaf>, *mut V), TryReserveError> {
+        spares: &mut SpareNodes<K, V>,
+    ) -> (InsertResult<'a, K, V, marker::Leaf>, *mut V) {
         if self.node.len() < CAPACITY {
             let ptr = self.insert_fit(key, val);
-            Ok((InsertResult::Fit(Handle::new_kv(self.node, self.idx)), ptr))
+            (InsertResult::Fit(Handle::new_kv(self.node, self.idx)), ptr)
         } else {
             let middle = Handle::new_kv(self.node, B);
-            let (mut left, k, v, mut right) = middle.split()?;
+            let (mut left, k, v, mut right) = middle.split(spares.take_leaf());
             let ptr = if self.idx <= B {
                 unsafe { Handle::new_edge(left.reborrow_mut(), self.idx).insert_fit(key, val) }
             } else {
@@ -1035,7 +1113,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge
                     .insert_fit(key, val)
                 }
             };
-            Ok((InsertResult::Split(left, k, v, right), ptr))
+            (InsertResult::Split(left, k, v, right), ptr)
         }
     }
 }
@@ -1096,16 +1174,17 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
         key: K,
         val: V,
         edge: Root<K, V>,
-    ) -> Result<InsertResult<'a, K, V, marker::Internal>, TryReserveError> {
+        spares: &mut SpareNodes<K, V>,
+    ) -> InsertResult<'a, K, V, marker::Internal> {
         // Necessary for correctness, but this is an internal module
         debug_assert!(edge.height == self.node.height - 1);
 
         if self.node.len() < CAPACITY {
             self.insert_fit(key, val, edge);
-            Ok(InsertResult::Fit(Handle::new_kv(self.node, self.idx)))
+            InsertResult::Fit(Handle::new_kv(self.node, self.idx))
         } else {
             let middle = Handle::new_kv(self.node, B);
-            let (mut left, k, v, mut right) = middle.split()?;
+            let (mut left, k, v, mut right) = middle.split(spares.take_internal());
             if self.idx <= B {
                 unsafe {
                     Handle::new_edge(left.reborrow_mut(), self.idx).insert_fit(key, val, edge);
@@ -1119,7 +1198,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
                     .insert_fit(key, val, edge);
                 }
             }
-            Ok(InsertResult::Split(left, k, v, right))
+            InsertResult::Split(left, k, v, right)
         }
     }
 }
@@ -1184,23 +1263,19 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
     /// - The node is truncated to only contain the key/value pairs to the right of
     ///   this handle.
     /// - The key and value pointed to by this handle and extracted.
-    /// - All the key/value pairs to the right of this handle are put into a newly
-    ///   allocated node.
-    pub fn split(
+    /// - All the key/value pairs to the right of this handle are put into the
+    ///   given new node.
+    fn split(
         mut self,
-    ) -> Result<
-        (
-            NodeRef<marker::Mut<'a>, K, V, marker::Leaf>,
-            K,
-            V,
-            Root<K, V>,
-        ),
-        TryReserveError,
-    > {
+        mut new_node: Box<LeafNode<K, V>>,
+    ) -> (
+        NodeRef<marker::Mut<'a>, K, V, marker::Leaf>,
+        K,
+        V,
+        Root<K, V>,
+    ) {
         debug_assert!(!self.node.is_shared_root());
         unsafe {
-            let mut new_node = <Box<_> as FallibleBox<_>>::try_new(LeafNode::new())?;
-
             let k = ptr::read(self.node.keys().get_unchecked(self.idx));
             let v = ptr::read(self.node.vals().get_unchecked(self.idx));
 
@@ -1220,7 +1295,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
             (*self.node.as_leaf_mut()).len = self.idx as u16;
             new_node.len = new_len as u16;
 
-            Ok((
+            (
                 self.node,
                 k,
                 v,
@@ -1228,7 +1303,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
                     node: BoxedNode::from_leaf(new_node),
                     height: 0,
                 },
-            ))
+            )
         }
     }
 
@@ -1258,21 +1333,17 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
     ///   right of this handle.
     /// - The key and value pointed to by this handle and extracted.
     /// - All the edges and key/value pairs to the right of this handle are put into
-    ///   a newly allocated node.
-    pub fn split(
+    ///   the given new node.
+    fn split(
         mut self,
-    ) -> Result<
-        (
-            NodeRef<marker::Mut<'a>, K, V, marker::Internal>,
-            K,
-            V,
-            Root<K, V>,
-        ),
-        TryReserveError,
-    > {
+        mut new_node: Box<InternalNode<K, V>>,
+    ) -> (
+        NodeRef<marker::Mut<'a>, K, V, marker::Internal>,
+        K,
+        V,
+        Root<K, V>,
+    ) {
         unsafe {
-            let mut new_node = <Box<_> as FallibleBox<_>>::try_new(InternalNode::new())?;
-
             let k = ptr::read(self.node.keys().get_unchecked(self.idx));
             let v = ptr::read(self.node.vals().get_unchecked(self.idx));
 
@@ -1307,7 +1378,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
                 Handle::new_edge(new_root.as_mut().cast_unchecked(), i).correct_parent_link();
             }
 
-            Ok((self.node, k, v, new_root))
+            (self.node, k, v, new_root)
         }
     }
 
-- 
2.43.0


From 84bd49f1e40fedc32f9ee9b764ed8c09ce4218c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 2/7] fix: B-tree operations panicked for keys aligned to 32
 bytes or more

The header-size assertion of into_key_slice does not hold for them; a node
that is not the shared root can be accessed as a leaf directly.
---
 src/btree/node.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/btree/node.rs b/src/btree/node.rs
index 6a224f6..7f8bf10 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -646,6 +646,11 @@ impl<'a, K: 'a, V: 'a, Type> NodeRef<marker::Immut<'a>, K, V, Type> {
         // that the alignment is very big.
         if mem::align_of::<K>() > mem::align_of::<LeafNode<(), ()>>() && self.is_shared_root() {
             &[]
+        } else if mem::align_of::<K>() > mem::align_of::<LeafNode<(), ()>>() {
+            // The keys may start behind the header, but this is a proper node.
+            unsafe {
+                slice::from_raw_parts(MaybeUninit::slice_as_ptr(&self.as_leaf().keys), self.len())
+            }
         } else {
             // Thanks to the alignment check above, we know that `keys` will be
             // in-bounds of some allocation even if this is the shared root!
-- 
2.43.0


From 2b738fb9a917b16ca7a3ca0ebf7b7aaf8e175bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 3/7] fix: a panicking drop in try_resize_no_copy dropped the
 element twice

---
 src/vec.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 644bbb3..98a31b8 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -625,18 +625,16 @@ impl<T> Truncate for Vec<T> {
         let current_len = self.len();
         unsafe {
             let mut ptr = self.as_mut_ptr().add(current_len);
-            // Set the final length at the end, keeping in mind that
-            // dropping an element might panic. Works around a missed
-            // optimization, as seen in the following issue:
-            // https://github.com/rust-lang/rust/issues/51802
+            // Dropping an element might panic: give up each element
+            // before it is dropped, so that it is not dropped again.
             let mut local_len = self.len();
 
             // drop any extra elements
             for _ in len..current_len {
                 ptr = ptr.offset(-1);
-                core::ptr::drop_in_place(ptr);
                 local_len -= 1;
                 self.set_len(local_len);
+                core::ptr::drop_in_place(ptr);
             }
         }
     }
-- 
2.43.0


From da0802b918a49e4fe52a34739eb15a279466acb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 4/7] fix: Rc::try_new aborted on exhaustion with the unstable
 feature

Converting the fallibly made box to an Rc allocates again, infallibly; use the
allocator API's fallible constructor where it exists, as FallibleArc does.
---
 src/rc.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 936a93e..b103c25 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -1,6 +1,8 @@
 //! Implement a Fallible Rc
+#[cfg(not(feature = "unstable"))]
 use super::FallibleBox;
 use crate::TryReserveError;
+#[cfg(not(feature = "unstable"))]
 use alloc::boxed::Box;
 use alloc::rc::Rc;
 
@@ -23,8 +25,24 @@ pub trait FallibleRc<T> {
 #[allow(deprecated)]
 impl<T> FallibleRc<T> for Rc<T> {
     fn try_new(t: T) -> Result<Self, TryReserveError> {
-        let b = <Box<T> as FallibleBox<T>>::try_new(t)?;
-        Ok(Rc::from(b))
+        #[cfg(not(feature = "unstable"))]
+        {
+            // the counters are stored in a second, infallible allocation
+            let b = <Box<T> as FallibleBox<T>>::try_new(t)?;
+            Ok(Rc::from(b))
+        }
+        #[cfg(feature = "unstable")]
+        {
+            use alloc::alloc::Layout;
+            use alloc::collections::TryReserveErrorKind;
+            Rc::try_new(t).map_err(|_e| {
+                TryReserveErrorKind::AllocError {
+                    layout: Layout::new::<T>(),
+                    non_exhaustive: (),
+                }
+                .into()
+            })
+        }
     }
 }
 
-- 
2.43.0


From 5164fa96b093dd5e736b23f6d56bf24cb50c912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 5/7] fix: reporting exhaustion as an io::Error allocated
 infallibly

---
 src/vec.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 98a31b8..972f91a 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -256,9 +256,10 @@ pub mod std_io {
     ) -> io::Result<usize> {
         let additional = limit
             .try_into()
-            .map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
+            .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
+        // an error with a message would have to be allocated, infallibly
         buf.reserve(additional)
-            .map_err(|_| io::Error::new(io::ErrorKind::Other, "reserve allocation failed"))?;
+            .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
         let bytes_read = src.take(limit).read_to_end(&mut buf.inner)?;
         Ok(bytes_read)
     }
@@ -266,7 +267,7 @@ pub mod std_io {
     impl Write for TryVec<u8> {
         fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
             self.extend_from_slice(buf)
-                .map_err(|_| io::Error::new(io::ErrorKind::Other, "extend_from_slice failed"))?;
+                .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
             Ok(buf.len())
         }
 
-- 
2.43.0


From e93284c9d9cbbb3910a4b14dd3110d933b3e0e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 6/7] fix: a panic inside BTreeMap::append left a tree with
 empty nodes behind

Removing an entry next to an empty leaf then dereferenced a missing entry
(unwrap_unchecked on None).
---
 src/btree/map.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index 5ffdbbb..f6574a6 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -847,9 +847,13 @@ impl<K: Ord, V> BTreeMap<K, V> {
             right: other_iter.peekable(),
         };
 
-        // Second, we build a tree from the sorted sequence in linear time.
-        self.from_sorted_iter(iter);
-        self.fix_right_edge();
+        // Second, we build a tree from the sorted sequence in linear time. It replaces `self` only
+        // once its right edge is fixed: if a comparison, a drop or an allocation panics on the way,
+        // no tree with underfull nodes is left behind.
+        let mut merged = BTreeMap::new();
+        merged.from_sorted_iter(iter);
+        merged.fix_right_edge();
+        *self = merged;
     }
 
     /// Constructs a double-ended iterator over a sub-range of elements in the map.
-- 
2.43.0


From 5aeefd3a1cb919f9ef50393662a213b87ee31fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 7/7] fix: BTreeMap::split_off with a panicking comparison left
 the map half split

Its length then exceeded its entries, and iterating or dropping it read past the tree.
---
 src/btree/map.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index f6574a6..f8273bf 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -1101,16 +1101,29 @@ impl<K: Ord, V> BTreeMap<K, V> {
             right.root.push_level()?;
         }
 
+        // Find the edge to split at on every level before moving anything, so that a panicking
+        // comparison leaves `self` as it was. The number of levels is far below the number of bits
+        // of the length. An equal key is going to the right tree.
+        let mut split_at = [0; 64];
+        {
+            let mut node = self.root.as_ref();
+            loop {
+                let (idx, _) = search::search_linear(&node, key);
+                split_at[node.height()] = idx;
+                match Handle::new_edge(node, idx).force() {
+                    Internal(edge) => node = edge.descend(),
+                    Leaf(_) => break,
+                }
+            }
+        }
+
         {
             let mut left_node = self.root.as_mut();
             let mut right_node = right.root.as_mut();
 
             loop {
-                let mut split_edge = match search::search_node(left_node, key) {
-                    // key is going to the right tree
-                    Found(handle) => handle.left_edge(),
-                    GoDown(handle) => handle,
-                };
+                let idx = split_at[left_node.height()];
+                let mut split_edge = Handle::new_edge(left_node, idx);
 
                 split_edge.move_suffix(&mut right_node);
 
-- 
2.43.0

