From 98a9f55bb9986cd00f283b13454ce2b05b9dd2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:46 +0000
Subject: [PATCH 01/15] fix: keep operand order when concatenating a shallower
 vector with a deeper one

RRBTree::concat handed the deeper right operand over as the receiver, so
the result was right ++ left (also visible through insert and remove).
---
 src/pvec/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 1a246ba..2892a6d 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -288,7 +288,7 @@ impl<T: Clone> RRBTree<T> {
         if self.height == other.height {
             self.concat_same_height(other)
         } else if self.height < other.height {
-            other.concat_different_height(self, false)
+            self.concat_different_height(other, false)
         } else {
             self.concat_different_height(other, true)
         }
-- 
2.43.0


From 4e672d3410d3bea90acd9f8999d0a1057e2914f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 02/15] fix: pop_back of a vector whose elements sit in the
 head buffer

pop_from_tree counted the head buffer as part of the tree, so pop_back
returned None on a non-empty vector (push_front then pop_back at 64
elements), and left the root out of step with the length.
---
 src/pvec/tree.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 2892a6d..9307174 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -461,9 +461,21 @@ impl<T: Clone> RRBTree<T> {
             return None;
         }
 
-        let tree_size = self.len - self.tail.len();
+        let tree_size = self.len - self.head.len() - self.tail.len();
         if tree_size == 0 {
-            return None;
+            // Only the head buffer is left
+            let mut new_head = self.head.clone();
+            let popped = new_head.pop()?;
+            return Some((
+                Self {
+                    root: self.root.clone(),
+                    tail: self.tail.clone(),
+                    head: new_head,
+                    height: self.height,
+                    len: self.len - 1,
+                },
+                popped,
+            ));
         }
 
         let last_tree_index = tree_size - 1;
-- 
2.43.0


From 8cd317c666ebcead1ac8fa498619a1b1ce6d16b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 03/15] fix: pop_front from the tail buffer takes its first
 element

With only the tail left, pop_front moved the tail into the head reversed,
which returned the right element but reversed the rest of the vector.
---
 src/pvec/tree.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 9307174..ac551f0 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -548,11 +548,8 @@ impl<T: Clone> RRBTree<T> {
         }
 
         if !self.tail.is_empty() {
-            let mut new_head = SmallVec::new();
-            for item in self.tail.iter().rev() {
-                new_head.push(item.clone());
-            }
-            let popped = new_head.pop()?;
+            let mut new_head = self.tail.clone();
+            let popped = new_head.remove(0);
 
             Some((
                 Self {
-- 
2.43.0


From 63f569a9c7df0fe084deb17d3c9b83a8f5b674ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 04/15] fix: never put an empty node into the vector's tree

Pushing a leaf next to an empty root, or concatenating with a tree whose
elements are all in its buffers, stored an empty child; a later pop ran
into it and dropped every element of the tree.
---
 src/pvec/node.rs | 8 ++++++++
 src/pvec/tree.rs | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/src/pvec/node.rs b/src/pvec/node.rs
index a7f9b5e..da375ad 100644
--- a/src/pvec/node.rs
+++ b/src/pvec/node.rs
@@ -212,6 +212,10 @@ impl<T: Clone> RRBNode<T> {
     }
 
     pub fn push_leaf(&self, leaf: Arc<RRBNode<T>>) -> Self {
+        if self.calculate_size() == 0 {
+            return (*leaf).clone();
+        }
+
         match self {
             RRBNode::Leaf { .. } => {
                 let self_size = self.calculate_size();
@@ -328,6 +332,10 @@ impl<T: Clone> RRBNode<T> {
     }
 
     pub fn push_front_leaf(&self, leaf: Arc<RRBNode<T>>) -> Self {
+        if self.calculate_size() == 0 {
+            return (*leaf).clone();
+        }
+
         match self {
             RRBNode::Leaf { .. } => {
                 let leaf_size = leaf.calculate_size();
diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index ac551f0..942d437 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -354,6 +354,13 @@ impl<T: Clone> RRBTree<T> {
     }
 
     fn concat_nodes(left: &Arc<RRBNode<T>>, right: &Arc<RRBNode<T>>, height: usize) -> RRBNode<T> {
+        if left.calculate_size() == 0 {
+            return (**right).clone();
+        }
+        if right.calculate_size() == 0 {
+            return (**left).clone();
+        }
+
         match (left.as_ref(), right.as_ref()) {
             (
                 RRBNode::Leaf {
-- 
2.43.0


From b8fcce5c3b1f770e44cf71e065f867331fda621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 05/15] fix: split_at follows the tree down to the leaf

The path to the split point was cut off at the recorded height, which is
lower than the real depth after concat or on a lopsided tree, so split_at
(and take, skip, insert, remove) lost or misplaced elements.
---
 src/pvec/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 942d437..72a9405 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -772,7 +772,7 @@ impl<T: Clone> RRBTree<T> {
         let mut remaining_index = index;
         let mut current_height = self.height;
 
-        while current_height > 0 {
+        loop {
             match current_node.as_ref() {
                 RRBNode::Branch { children, sizes } => {
                     let (child_idx, sub_index) = if sizes.is_some() {
-- 
2.43.0


From 950a0d7045ac5b3029af5034912ede869faf0ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 06/15] fix: compare, order and hash persistent vectors by
 their elements

The derived implementations included the generation counter and the
internal representation, so equal vectors built along different paths
compared unequal, ordered inconsistently and hashed differently.
---
 src/pvec/core.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/pvec/core.rs b/src/pvec/core.rs
index f185bbb..6788b4f 100644
--- a/src/pvec/core.rs
+++ b/src/pvec/core.rs
@@ -1,7 +1,9 @@
 //! Core implementation of the persistent vector data structure.
 
 use smallvec::SmallVec;
+use std::cmp::Ordering;
 use std::fmt::{self, Debug};
+use std::hash::{Hash, Hasher};
 use std::sync::Arc;
 
 use super::error::PVecError;
@@ -40,7 +42,7 @@ type Generation = u32;
 /// assert_eq!(vec.get(1), Some(&2));  // Original unchanged
 /// assert_eq!(vec2.get(1), Some(&42)); // New vector updated
 /// ```
-#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone)]
 pub struct PersistentVector<T> {
     inner: VectorImpl<T>,
     len: usize,
@@ -977,6 +979,37 @@ impl<T: Clone> PersistentVector<T> {
     }
 }
 
+// Two vectors compare by their elements: neither the representation nor the
+// generation, which depend on how a vector was built, take part.
+impl<T: Clone + PartialEq> PartialEq for PersistentVector<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.len == other.len && self.iter().eq(other.iter())
+    }
+}
+
+impl<T: Clone + Eq> Eq for PersistentVector<T> {}
+
+impl<T: Clone + PartialOrd> PartialOrd for PersistentVector<T> {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        self.iter().partial_cmp(other.iter())
+    }
+}
+
+impl<T: Clone + Ord> Ord for PersistentVector<T> {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.iter().cmp(other.iter())
+    }
+}
+
+impl<T: Clone + Hash> Hash for PersistentVector<T> {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.len.hash(state);
+        for item in self.iter() {
+            item.hash(state);
+        }
+    }
+}
+
 impl<T> Default for PersistentVector<T> {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From fe2316e3cba78bcb75e3c6332ea3484d5c9d6a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 07/15] hook: small vector constants under cfg(rustica_verif)

---
 src/pvec/core.rs | 8 ++++++++
 src/pvec/node.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/pvec/core.rs b/src/pvec/core.rs
index 6788b4f..be885e6 100644
--- a/src/pvec/core.rs
+++ b/src/pvec/core.rs
@@ -1,5 +1,7 @@
 //! Core implementation of the persistent vector data structure.
 
+#![allow(unexpected_cfgs)] // rustica_verif
+
 use smallvec::SmallVec;
 use std::cmp::Ordering;
 use std::fmt::{self, Debug};
@@ -11,8 +13,14 @@ use super::iter::{PersistentVectorIntoIter, PersistentVectorIter};
 use super::tree::RRBTree;
 
 /// Maximum number of elements stored inline before transitioning to tree structure.
+#[cfg(not(rustica_verif))]
 pub const ADAPTIVE_INLINE_SIZE: usize = 64;
 
+// Verification builds only: a small threshold brings the tree representation
+// within reach of exhaustively enumerated histories.
+#[cfg(rustica_verif)]
+pub const ADAPTIVE_INLINE_SIZE: usize = 2;
+
 /// Generation counter type for tracking vector mutations.
 type Generation = u32;
 
diff --git a/src/pvec/node.rs b/src/pvec/node.rs
index da375ad..6d9868c 100644
--- a/src/pvec/node.rs
+++ b/src/pvec/node.rs
@@ -3,13 +3,21 @@
 //! This module contains the core node structure for the RRB (Relaxed Radix Balanced) tree
 //! that underlies the persistent vector implementation.
 
+#![allow(unexpected_cfgs)] // rustica_verif
+
 use smallvec::SmallVec;
 use std::sync::Arc;
 
 /// Maximum number of children per branch node.
+#[cfg(not(rustica_verif))]
 pub const BRANCHING_FACTOR: usize = 32;
+#[cfg(rustica_verif)]
+pub const BRANCHING_FACTOR: usize = 2;
 /// Maximum number of elements per leaf node.
+#[cfg(not(rustica_verif))]
 pub const LEAF_CAPACITY: usize = 64;
+#[cfg(rustica_verif)]
+pub const LEAF_CAPACITY: usize = 2;
 /// Typical branch size for most nodes (optimization).
 pub const SMALL_BRANCH_SIZE: usize = 8;
 /// Corresponding size table for small branches.
-- 
2.43.0


From 151706ba15ee2379a11b25805a014a46da17499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 08/15] fix: ReaderT::bind no longer frees the bound value
 twice

---
 src/transformers/reader_t.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/transformers/reader_t.rs b/src/transformers/reader_t.rs
index b2a2e4d..4fae37a 100644
--- a/src/transformers/reader_t.rs
+++ b/src/transformers/reader_t.rs
@@ -953,11 +953,7 @@ where
             let e_clone = e.clone();
 
             M::bind::<B, _>(&ma, move |source_ref: &M::Source| {
-                let a_owned = source_ref.clone();
-                // Use unsafe transmute to convert from M::Source to A
-                // This is safe because we have the constraint M: HKT<Source = A>
-                let a_value: A = unsafe { std::mem::transmute_copy(&a_owned) };
-                f_clone(a_value).run_reader(e_clone.clone())
+                f_clone(source_ref.clone()).run_reader(e_clone.clone())
             })
         })
     }
-- 
2.43.0


From ab04882ba7bf11598b21e5efbefbf78cf2ddf779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 09/15] fix: IO::new_async can be run outside a Tokio runtime

---
 src/datatypes/io.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datatypes/io.rs b/src/datatypes/io.rs
index e7beb46..f1cbd9d 100644
--- a/src/datatypes/io.rs
+++ b/src/datatypes/io.rs
@@ -783,7 +783,7 @@ impl<A: Send + Sync + 'static + Clone> IO<A> {
             let future_to_run = future_once.lock().unwrap().take();
             if let Some(f) = future_to_run {
                 let result = TOKIO_RUNTIME
-                    .block_on(tokio::task::spawn_blocking(move || {
+                    .block_on(TOKIO_RUNTIME.spawn_blocking(move || {
                         TOKIO_RUNTIME.block_on(f)
                     }))
                     .unwrap();
-- 
2.43.0


From c38f28e49d61828202fdf2d79f80ad7d1c168e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 10/15] fix: concurrent runs of one IO::new_async wait for its
 result instead of panicking

---
 src/datatypes/io.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/datatypes/io.rs b/src/datatypes/io.rs
index f1cbd9d..ee81f1f 100644
--- a/src/datatypes/io.rs
+++ b/src/datatypes/io.rs
@@ -776,22 +776,19 @@ impl<A: Send + Sync + 'static + Clone> IO<A> {
         let result_cache = Arc::new(OnceLock::<A>::new());
 
         IO::new(move || {
-            if let Some(cached_result) = result_cache.get() {
-                return cached_result.clone();
-            }
-
-            let future_to_run = future_once.lock().unwrap().take();
-            if let Some(f) = future_to_run {
-                let result = TOKIO_RUNTIME
-                    .block_on(TOKIO_RUNTIME.spawn_blocking(move || {
-                        TOKIO_RUNTIME.block_on(f)
-                    }))
-                    .unwrap();
-                let _ = result_cache.set(result.clone());
-                result
-            } else {
-                result_cache.get().unwrap().clone()
-            }
+            // `get_or_init` makes concurrent runs wait for the one that executes the future
+            result_cache
+                .get_or_init(|| {
+                    let f = future_once
+                        .lock()
+                        .unwrap()
+                        .take()
+                        .expect("the asynchronous computation has already failed");
+                    TOKIO_RUNTIME
+                        .block_on(TOKIO_RUNTIME.spawn_blocking(move || TOKIO_RUNTIME.block_on(f)))
+                        .unwrap()
+                })
+                .clone()
         })
     }
 
-- 
2.43.0


From 8a33caf50398a7137ec85bf1ca73ab203d040bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:55 +0000
Subject: [PATCH 11/15] fix: Choice::bind and join keep the results of
 alternatives when the primary has none

---
 src/datatypes/choice.rs | 112 +++-------------------------------------
 1 file changed, 6 insertions(+), 106 deletions(-)

diff --git a/src/datatypes/choice.rs b/src/datatypes/choice.rs
index b4842f0..aa653d6 100644
--- a/src/datatypes/choice.rs
+++ b/src/datatypes/choice.rs
@@ -1446,34 +1446,9 @@ impl<T: Clone> Monad for Choice<T> {
         F: Fn(&T) -> Self::Output<U>,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let self_values = &self.values;
-        let first_choice = f(&self_values[0]);
-
-        if first_choice.values.is_empty() {
-            return Choice::new_empty();
+        Choice {
+            values: self.values.iter().flat_map(|x| f(x).values).collect(),
         }
-
-        let first_choice_values = &first_choice.values;
-        let first = first_choice_values[0].clone();
-
-        // Simple capacity estimate
-        let mut alternatives =
-            Vec::with_capacity(first_choice_values.len() - 1 + self_values.len() - 1);
-
-        // Add alternatives from primary choice
-        alternatives.extend_from_slice(&first_choice_values[1..]);
-
-        // Apply f to each alternative and collect all values
-        for alt in &self_values[1..] {
-            let alt_choice = f(alt);
-            alternatives.extend_from_slice(alt_choice.values.as_ref());
-        }
-
-        Choice::new(first, alternatives)
     }
 
     fn bind_owned<U, F>(self, mut f: F) -> Self::Output<U>
@@ -1481,31 +1456,9 @@ impl<T: Clone> Monad for Choice<T> {
         F: FnMut(Self::Source) -> Self::Output<U>,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
+        Choice {
+            values: self.values.into_iter().flat_map(|x| f(x).values).collect(),
         }
-
-        let mut values = self.values;
-        let primary_choice = f(values.remove(0));
-
-        if primary_choice.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let primary_choice_values = &primary_choice.values;
-        let first = primary_choice_values[0].clone();
-
-        // Calculate better capacity estimate for bind_owned
-        let mut alternatives = Vec::with_capacity(primary_choice_values.len() - 1 + values.len());
-
-        alternatives.extend_from_slice(&primary_choice_values[1..]);
-
-        for alt in values {
-            let alt_choice = f(alt);
-            alternatives.extend(alt_choice.values);
-        }
-
-        Choice::new(first, alternatives)
     }
 
     #[inline]
@@ -1514,33 +1467,7 @@ impl<T: Clone> Monad for Choice<T> {
         T: Into<Self::Output<U>> + Clone,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let primary_value = self.first().unwrap().clone();
-        let primary_choice: Self::Output<U> = primary_value.into();
-
-        if primary_choice.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let first = primary_choice.first().unwrap().clone();
-
-        // Simple capacity estimate
-        let mut alternatives =
-            Vec::with_capacity(primary_choice.alternatives().len() + self.alternatives().len());
-
-        // Add alternatives from primary choice
-        alternatives.extend_from_slice(primary_choice.alternatives());
-
-        // Add all values from alternative choices
-        for alt in self.alternatives() {
-            let alt_choice: Self::Output<U> = alt.clone().into();
-            alternatives.extend_from_slice(alt_choice.values.as_ref());
-        }
-
-        Choice::new(first, alternatives)
+        self.bind(|x| x.clone().into())
     }
 
     #[inline]
@@ -1549,34 +1476,7 @@ impl<T: Clone> Monad for Choice<T> {
         T: Into<Self::Output<U>> + Clone,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let mut values = self.values;
-        let primary_value = values.remove(0);
-        let primary_choice: Self::Output<U> = primary_value.into();
-
-        if primary_choice.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let first = primary_choice.first().unwrap().clone();
-
-        // Simple capacity estimate
-        let mut alternatives =
-            Vec::with_capacity(primary_choice.alternatives().len() + values.len());
-
-        // Add alternatives from primary choice
-        alternatives.extend_from_slice(primary_choice.alternatives());
-
-        // Add all values from alternative choices
-        for alt in values {
-            let alt_choice: Self::Output<U> = alt.into();
-            alternatives.extend_from_slice(&alt_choice.values);
-        }
-
-        Choice::new(first, alternatives)
+        self.bind_owned(|x| x.into())
     }
 }
 
-- 
2.43.0


From 2e36f9f3796bc659617d1bd93e3a9e1bc355db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:48 +0000
Subject: [PATCH 12/15] fix: Validated::collect and collect_owned treat an
 invalid item without errors as invalid

---
 src/datatypes/validated/core.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/datatypes/validated/core.rs b/src/datatypes/validated/core.rs
index e47702c..9c9daad 100644
--- a/src/datatypes/validated/core.rs
+++ b/src/datatypes/validated/core.rs
@@ -1547,18 +1547,23 @@ impl<E: Clone, A: Clone> Validated<E, A> {
         A: Clone,
         E: Clone,
     {
+        let mut all_valid = true;
         let (values, errors): (Vec<_>, SmallVec<[E; 8]>) = iter.fold(
             (Vec::new(), SmallVec::<[E; 8]>::new()),
             |(mut values, mut errors), item| {
                 match item {
                     Validated::Valid(a) => values.push(a),
-                    Validated::Invalid(es) => errors.extend(es),
+                    Validated::Invalid(es) => {
+                        // An invalid item may carry no errors at all
+                        all_valid = false;
+                        errors.extend(es);
+                    },
                 }
                 (values, errors)
             },
         );
 
-        if errors.is_empty() {
+        if all_valid {
             Validated::Valid(C::from_iter(values))
         } else {
             Validated::Invalid(errors)
@@ -1595,15 +1600,20 @@ impl<E: Clone, A: Clone> Validated<E, A> {
     {
         let mut acc = ErrorAccumulator::new();
         let mut values = Vec::new();
+        let mut all_valid = true;
 
         for item in iter {
             match item {
                 Validated::Valid(a) => values.push(a),
-                Validated::Invalid(es) => acc.extend_owned(es),
+                Validated::Invalid(es) => {
+                    // An invalid item may carry no errors at all
+                    all_valid = false;
+                    acc.extend_owned(es);
+                },
             }
         }
 
-        if acc.buffer.is_empty() {
+        if all_valid {
             Validated::Valid(C::from_iter(values))
         } else {
             Validated::Invalid(acc.into_inner())
-- 
2.43.0


From 8029364adc99c53af321b918ab859b7b1bceb788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:50 +0000
Subject: [PATCH 13/15] fix: combine_n_owned combines n copies instead of
 doubling n - 1 times

---
 src/traits/semigroup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits/semigroup.rs b/src/traits/semigroup.rs
index 6a57dc1..48dffd2 100644
--- a/src/traits/semigroup.rs
+++ b/src/traits/semigroup.rs
@@ -234,9 +234,9 @@ pub trait SemigroupExt: Semigroup {
         if n == 0 {
             return self;
         }
-        let mut acc = self;
+        let mut acc = self.clone();
         for _ in 1..n {
-            acc = acc.clone().combine_owned(acc);
+            acc = acc.combine_owned(self.clone());
         }
         acc
     }
-- 
2.43.0


From aca911739664bf35ee6aff4ea3c3225d80dbc543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:09 +0000
Subject: [PATCH 14/15] fix: Identity::try_value and try_into_value return None
 instead of panicking when there is no value

---
 src/datatypes/choice.rs           | 10 ++++++++++
 src/datatypes/either.rs           | 10 ++++++++++
 src/datatypes/maybe.rs            | 10 ++++++++++
 src/datatypes/validated/traits.rs | 16 ++++++++++++++++
 src/datatypes/wrapper/first.rs    | 10 ++++++++++
 src/datatypes/wrapper/last.rs     | 10 ++++++++++
 6 files changed, 66 insertions(+)

diff --git a/src/datatypes/choice.rs b/src/datatypes/choice.rs
index aa653d6..dd842ed 100644
--- a/src/datatypes/choice.rs
+++ b/src/datatypes/choice.rs
@@ -1314,6 +1314,16 @@ impl<T: Clone> Identity for Choice<T> {
             .next()
             .expect("Cannot get value from an empty Choice")
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.first()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.values.into_iter().next()
+    }
 }
 
 impl<T: Clone> Functor for Choice<T> {
diff --git a/src/datatypes/either.rs b/src/datatypes/either.rs
index 06266d3..8ffc928 100644
--- a/src/datatypes/either.rs
+++ b/src/datatypes/either.rs
@@ -1082,6 +1082,16 @@ impl<L: Clone, R: Clone> Identity for Either<L, R> {
             Either::Right(r) => r,
         }
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.into_iter().next()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.right_option()
+    }
 }
 
 /// Implementation of `MonadPlus` for `Either`, which provides zero and plus operations.
diff --git a/src/datatypes/maybe.rs b/src/datatypes/maybe.rs
index 300066f..c6767bf 100644
--- a/src/datatypes/maybe.rs
+++ b/src/datatypes/maybe.rs
@@ -1420,6 +1420,16 @@ impl<T> Identity for Maybe<T> {
     fn into_value(self) -> Self::Source {
         self.unwrap()
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.as_ref()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.to_option()
+    }
 }
 
 impl<T> Default for Maybe<T> {
diff --git a/src/datatypes/validated/traits.rs b/src/datatypes/validated/traits.rs
index e654ee9..a684b1b 100644
--- a/src/datatypes/validated/traits.rs
+++ b/src/datatypes/validated/traits.rs
@@ -651,6 +651,22 @@ impl<E: Clone, A: Clone> Identity for Validated<E, A> {
             _ => panic!("Cannot extract value from invalid Validated"),
         }
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        match self {
+            Validated::Valid(x) => Some(x),
+            Validated::Invalid(_) => None,
+        }
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        match self {
+            Validated::Valid(x) => Some(x),
+            Validated::Invalid(_) => None,
+        }
+    }
 }
 
 /// # Examples for `Foldable` on `Validated`
diff --git a/src/datatypes/wrapper/first.rs b/src/datatypes/wrapper/first.rs
index 4d041da..11628c1 100644
--- a/src/datatypes/wrapper/first.rs
+++ b/src/datatypes/wrapper/first.rs
@@ -381,6 +381,16 @@ impl<T: Clone> Identity for First<T> {
     fn into_value(self) -> Self::Source {
         self.0.unwrap()
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.0.as_ref()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.0
+    }
 }
 
 impl<T: Clone> Functor for First<T> {
diff --git a/src/datatypes/wrapper/last.rs b/src/datatypes/wrapper/last.rs
index 49436c7..95aef28 100644
--- a/src/datatypes/wrapper/last.rs
+++ b/src/datatypes/wrapper/last.rs
@@ -400,6 +400,16 @@ impl<T: Clone> Identity for Last<T> {
     fn into_value(self) -> Self::Source {
         self.0.unwrap()
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.0.as_ref()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.0
+    }
 }
 
 impl<T: Clone> Functor for Last<T> {
-- 
2.43.0


From 9ba3a87da147ca023bf7c5de3008d1cd3f198ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 15/15] fix: ErrorPipeline::recover drops the contexts of the
 failure it recovered from

---
 src/error/context.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/error/context.rs b/src/error/context.rs
index 7964dc6..5ec81e2 100644
--- a/src/error/context.rs
+++ b/src/error/context.rs
@@ -275,9 +275,15 @@ impl<T, E> ErrorPipeline<T, E> {
     where
         F: FnOnce(E) -> Result<T, E>,
     {
+        let result = self.result.or_else(recovery);
+        let mut pending_contexts = self.pending_contexts;
+        if result.is_ok() {
+            // The buffered contexts described the failure that was just recovered from.
+            pending_contexts.clear();
+        }
         ErrorPipeline {
-            result: self.result.or_else(recovery),
-            pending_contexts: self.pending_contexts,
+            result,
+            pending_contexts,
         }
     }
 
-- 
2.43.0

