From 226a47a18fa72ba3be504bded5fca521dc561c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:03 +0000
Subject: [PATCH 01/10] fix: do not preallocate the upper bound of the size
 hint in List::from_iter()

The upper bound of an iterator's size hint says nothing about how many elements it will yield. For
instance, collecting (0..u64::MAX).take_while(|x| *x < 5) in a List, Stack or Queue panicked with a
capacity overflow.
---
 src/list/mod.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 1742738..24795b6 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -382,13 +382,9 @@ where
     P: SharedPointerKind,
 {
     fn from_iter<I: IntoIterator<Item = T>>(into_iter: I) -> List<T, P> {
-        let iter = into_iter.into_iter();
-        let (min_size, max_size_hint) = iter.size_hint();
-        let mut vec: Vec<T> = Vec::with_capacity(max_size_hint.unwrap_or(min_size));
-
-        for e in iter {
-            vec.push(e);
-        }
+        // Note that the upper bound of the size hint can be arbitrarily larger than the number of
+        // elements, so we cannot use it to preallocate.
+        let vec: Vec<T> = into_iter.into_iter().collect();
 
         let mut list: List<T, P> = List::new_with_ptr_kind();
 
-- 
2.43.0


From a945ffadf82b26a06cbb404d36b8bbdf8eefcc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:39 +0000
Subject: [PATCH 02/10] fix: do not blindly preallocate the size hint when
 deserializing a List

The size hint comes from the input. A wrong hint made the deserialization of a List, Stack or Queue
panic with a capacity overflow, or abort, instead of returning a result.
---
 src/list/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 24795b6..1c3c896 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -466,6 +466,8 @@ pub mod serde {
     use core::fmt;
     use core::marker::PhantomData;
 
+    const MAX_PREALLOCATION: usize = 4096;
+
     impl<T, P> Serialize for List<T, P>
     where
         T: Serialize,
@@ -507,11 +509,9 @@ pub mod serde {
         where
             A: SeqAccess<'de>,
         {
-            let mut vec: Vec<T> = if let Some(capacity) = seq.size_hint() {
-                Vec::with_capacity(capacity)
-            } else {
-                Vec::new()
-            };
+            // The size hint comes from the input, which we should not trust.
+            let capacity = seq.size_hint().unwrap_or(0).min(MAX_PREALLOCATION);
+            let mut vec: Vec<T> = Vec::with_capacity(capacity);
 
             while let Some(value) = seq.next_element()? {
                 vec.push(value);
-- 
2.43.0


From 8874ccb545f136bf3ecd6fb95b73c83d2c484a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:39 +0000
Subject: [PATCH 03/10] fix: stack overflow when a long List is dropped
 concurrently

When several threads drop clones of the same list at the same time it is possible that all of them
fail to unwrap a node. The last one to release that node would then drop the rest of the list
recursively.
---
 src/list/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 1c3c896..7304b53 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -396,17 +396,21 @@ where
     }
 }
 
-// Drop the list iteratively to prevent stack overflow.
-impl<T, P> Drop for List<T, P>
+// Drop the nodes iteratively to prevent stack overflow.
+//
+// This must be done in the node, and not in the list: when we fail to unwrap a shared node some other
+// thread can release it before we do, in which case we are the ones dropping that node (and all the
+// ones after it).
+impl<T, P> Drop for Node<T, P>
 where
     P: SharedPointerKind,
 {
     fn drop(&mut self) {
-        let mut head = self.head.take();
-        while let Some(node) = head {
+        let mut next = self.next.take();
+        while let Some(node) = next {
             match SharedPointer::try_unwrap(node) {
                 Ok(mut node) => {
-                    head = node.next.take();
+                    next = node.next.take();
                 }
                 _ => {
                     break;
-- 
2.43.0


From 6fdc82d0ce2574a092005531e8653f8ef3a85e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:39 +0000
Subject: [PATCH 04/10] fix: do not lose entries of a HashTrieMap if a key
 comparison panics

insert_mut(), remove_mut() and get_mut() called the equality of the keys while the list of colliding
entries was being taken apart. If that panicked the map would be left without entries unrelated to
the operation, and with the wrong size.
---
 src/map/hash_trie_map/mod.rs | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/map/hash_trie_map/mod.rs b/src/map/hash_trie_map/mod.rs
index 4ded787..f70ff6c 100644
--- a/src/map/hash_trie_map/mod.rs
+++ b/src/map/hash_trie_map/mod.rs
@@ -473,27 +473,21 @@ mod bucket_utils {
         list: &mut List<T, P>,
         predicate: F,
     ) -> Option<T> {
-        let mut before_needle: Vec<T> = Vec::with_capacity(list.len());
-        let remaining: &mut List<T, P> = list;
-        let mut removed = None;
+        // The predicate can panic, so we only start changing the list after finding the element.
+        let index = list.iter().position(predicate)?;
+        let mut before_needle: Vec<T> = Vec::with_capacity(index);
 
-        while !remaining.is_empty() {
-            let e: T = remaining.first().unwrap().clone();
-
-            remaining.drop_first_mut();
-
-            if predicate(&e) {
-                removed = Some(e);
-                break;
-            }
-
-            before_needle.push(e);
+        for _ in 0..index {
+            before_needle.push(list.first().unwrap().clone());
+            list.drop_first_mut();
         }
 
-        let new_entries = remaining;
+        let removed = list.first().cloned();
+
+        list.drop_first_mut();
 
         while let Some(e) = before_needle.pop() {
-            new_entries.push_front_mut(e);
+            list.push_front_mut(e);
         }
 
         removed
-- 
2.43.0


From 2cb2a2b0117bed6605a9d0f1a5b207eedc3ffae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:39 +0000
Subject: [PATCH 05/10] fix: reject a degree of one in HashTrieMap

A trie with degree one cannot tell any two hashes apart: inserting a second key would recurse until
the stack overflows.
---
 src/map/hash_trie_map/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/map/hash_trie_map/mod.rs b/src/map/hash_trie_map/mod.rs
index f70ff6c..6eae3b0 100644
--- a/src/map/hash_trie_map/mod.rs
+++ b/src/map/hash_trie_map/mod.rs
@@ -744,6 +744,7 @@ where
         degree: u8,
     ) -> HashTrieMap<K, V, P, H> {
         assert!(degree.is_power_of_two(), "degree must be a power of two");
+        assert!(degree > 1, "degree is too small");
         assert!(degree <= DEFAULT_DEGREE, "degree is too big");
 
         HashTrieMap {
-- 
2.43.0


From b74fc23a6d3192985a609ad88a71ba58bedc2b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:39 +0000
Subject: [PATCH 06/10] fix: overflow in a Vector with as many bits as an
 index, or more

With 64 bits or more (32 on 32-bit platforms) computing the capacity of the root overflowed: inserting
panicked in debug builds and lost elements in release builds.
---
 src/vector/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 5a0d73b..b2395a2 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -13,6 +13,9 @@ pub type Iter<'a, T, P> = core::iter::Map<IterPtr<'a, T, P>, fn(&SharedPointer<T
 
 const DEFAULT_BITS: u8 = 5;
 
+#[allow(clippy::cast_possible_truncation)]
+const MAX_BITS: u8 = usize::BITS as u8 - 1;
+
 /// Creates a [`Vector`](crate::Vector) containing the given arguments:
 ///
 /// ```
@@ -295,6 +298,9 @@ where
     pub fn new_with_bits(bits: u8) -> Vector<T, P> {
         assert!(bits > 0, "number of bits for the vector must be positive");
 
+        // An index does not have more bits than this.
+        let bits = bits.min(MAX_BITS);
+
         Vector { root: SharedPointer::new(Node::new_empty_leaf()), bits, length: 0 }
     }
 
-- 
2.43.0


From c7f1a4e47c0394b60f3872eccb8bea4f6e7683c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:56 +0000
Subject: [PATCH 07/10] fix: stack overflow when formatting a long List with
 Debug

---
 src/list/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 7304b53..956e79b 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -2,7 +2,7 @@ use alloc::vec::Vec;
 use archery::*;
 use core::borrow::Borrow;
 use core::cmp::Ordering;
-use core::fmt::Display;
+use core::fmt::{Debug, Display};
 use core::hash::{Hash, Hasher};
 use core::iter::FromIterator;
 
@@ -114,7 +114,6 @@ where
     length: usize,
 }
 
-#[derive(Debug)]
 struct Node<T, P>
 where
     P: SharedPointerKind,
@@ -123,6 +122,19 @@ where
     next: Option<SharedPointer<Node<T, P>, P>>,
 }
 
+/// Lists the values from this node on.  This is not recursive because the list can be arbitrarily
+/// long.
+impl<T: Debug, P> Debug for Node<T, P>
+where
+    P: SharedPointerKind,
+{
+    fn fmt(&self, fmt: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+        let nodes = core::iter::successors(Some(self), |n| n.next.as_ref().map(AsRef::as_ref));
+
+        fmt.debug_list().entries(nodes.map(|n| &n.value)).finish()
+    }
+}
+
 impl<T, P> Clone for Node<T, P>
 where
     P: SharedPointerKind,
-- 
2.43.0


From 87b0bafe75d3dc55db31540c6cc700709908fa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 08/10] fix: bound the preallocation of a deserialized List in
 bytes

A number of elements is no bound when the elements are large: an input that announces many elements
of several KiB each, and supplies none, made it allocate over 100 MiB.
---
 src/list/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 956e79b..c8a4dea 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -482,7 +482,7 @@ pub mod serde {
     use core::fmt;
     use core::marker::PhantomData;
 
-    const MAX_PREALLOCATION: usize = 4096;
+    const MAX_PREALLOCATION_BYTES: usize = 1024 * 1024;
 
     impl<T, P> Serialize for List<T, P>
     where
@@ -526,7 +526,8 @@ pub mod serde {
             A: SeqAccess<'de>,
         {
             // The size hint comes from the input, which we should not trust.
-            let capacity = seq.size_hint().unwrap_or(0).min(MAX_PREALLOCATION);
+            let max_capacity = MAX_PREALLOCATION_BYTES / core::mem::size_of::<T>().max(1);
+            let capacity = seq.size_hint().unwrap_or(0).min(max_capacity);
             let mut vec: Vec<T> = Vec::with_capacity(capacity);
 
             while let Some(value) = seq.next_element()? {
-- 
2.43.0


From 896f41d63666d1c27879cd444deffe88d3adefaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 09/10] fix: list! and list_sync! no longer need archery or
 List in the caller's scope

---
 src/list/mod.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index c8a4dea..8640ace 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -12,27 +12,27 @@ pub type Iter<'a, T, P> = core::iter::Map<IterPtr<'a, T, P>, fn(&SharedPointer<T
 #[doc(hidden)]
 #[macro_export]
 macro_rules! list_reverse {
-    ($ptr_kind:ty ; ; $($reversed:expr),*) => {
+    ($list:ty ; ; $($reversed:expr),*) => {
          {
             #[allow(unused_mut)]
-            let mut l: List<_, $ptr_kind> = $crate::List::new_with_ptr_kind();
+            let mut l: $list = $crate::List::new_with_ptr_kind();
             $(
                 l.push_front_mut($reversed);
             )*
             l
          }
     };
-    ($ptr_kind:ty ; $h:expr ; $($reversed:expr),*) => {
-        $crate::list_reverse!($ptr_kind ; ; $h, $($reversed),*)
+    ($list:ty ; $h:expr ; $($reversed:expr),*) => {
+        $crate::list_reverse!($list ; ; $h, $($reversed),*)
     };
-    ($ptr_kind:ty ; $h:expr, $($t:expr),+ ; $($reversed:expr),*) => {
-        $crate::list_reverse!($ptr_kind ; $($t),* ; $h, $($reversed),*)
+    ($list:ty ; $h:expr, $($t:expr),+ ; $($reversed:expr),*) => {
+        $crate::list_reverse!($list ; $($t),* ; $h, $($reversed),*)
     };
 
     // This is just to handle the cases where this macro is called with an extra comma in the
     // reserve list, which can happen in a recursive call.
-    ($ptr_kind:ty ; $($t:expr),* ; $($reversed:expr),*,) => {
-        $crate::list_reverse!($ptr_kind ; $($t),* ; $($reversed),*)
+    ($list:ty ; $($t:expr),* ; $($reversed:expr),*,) => {
+        $crate::list_reverse!($list ; $($t),* ; $($reversed),*)
     };
 }
 
@@ -51,7 +51,7 @@ macro_rules! list_reverse {
 #[macro_export]
 macro_rules! list {
     ($($e:expr),*) => {
-        $crate::list_reverse!(::archery::RcK ; $($e),* ; )
+        $crate::list_reverse!($crate::List<_> ; $($e),* ; )
     };
 }
 
@@ -74,7 +74,7 @@ macro_rules! list {
 #[macro_export]
 macro_rules! list_sync {
     ($($e:expr),*) => {
-        $crate::list_reverse!(::archery::ArcTK ; $($e),* ; )
+        $crate::list_reverse!($crate::ListSync<_> ; $($e),* ; )
     };
 }
 
-- 
2.43.0


From 32e6dac55abe6138d0b5d62ba6c0c6feb56d8adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 10/10] fix: list! and list_sync! take any number of elements
 and evaluate them in order

---
 src/list/mod.rs | 45 ++++++++++++++++-----------------------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 8640ace..0e8b05e 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -9,33 +9,6 @@ use core::iter::FromIterator;
 // TODO Use impl trait instead of this when available.
 pub type Iter<'a, T, P> = core::iter::Map<IterPtr<'a, T, P>, fn(&SharedPointer<T, P>) -> &T>;
 
-#[doc(hidden)]
-#[macro_export]
-macro_rules! list_reverse {
-    ($list:ty ; ; $($reversed:expr),*) => {
-         {
-            #[allow(unused_mut)]
-            let mut l: $list = $crate::List::new_with_ptr_kind();
-            $(
-                l.push_front_mut($reversed);
-            )*
-            l
-         }
-    };
-    ($list:ty ; $h:expr ; $($reversed:expr),*) => {
-        $crate::list_reverse!($list ; ; $h, $($reversed),*)
-    };
-    ($list:ty ; $h:expr, $($t:expr),+ ; $($reversed:expr),*) => {
-        $crate::list_reverse!($list ; $($t),* ; $h, $($reversed),*)
-    };
-
-    // This is just to handle the cases where this macro is called with an extra comma in the
-    // reserve list, which can happen in a recursive call.
-    ($list:ty ; $($t:expr),* ; $($reversed:expr),*,) => {
-        $crate::list_reverse!($list ; $($t),* ; $($reversed),*)
-    };
-}
-
 /// Creates a [`List`](crate::List) containing the given arguments:
 ///
 /// ```
@@ -51,7 +24,14 @@ macro_rules! list_reverse {
 #[macro_export]
 macro_rules! list {
     ($($e:expr),*) => {
-        $crate::list_reverse!($crate::List<_> ; $($e),* ; )
+        {
+            let mut l = $crate::List::new();
+            $(
+                l.push_front_mut($e);
+            )*
+            l.reverse_mut();
+            l
+        }
     };
 }
 
@@ -74,7 +54,14 @@ macro_rules! list {
 #[macro_export]
 macro_rules! list_sync {
     ($($e:expr),*) => {
-        $crate::list_reverse!($crate::ListSync<_> ; $($e),* ; )
+        {
+            let mut l = $crate::List::new_sync();
+            $(
+                l.push_front_mut($e);
+            )*
+            l.reverse_mut();
+            l
+        }
     };
 }
 
-- 
2.43.0

