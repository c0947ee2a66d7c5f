From 8cd5a519a1fe536d9bf18f80474f29c5d0a5bf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:53 +0000
Subject: [PATCH 01/12] sync: route Arc through one module; cfg(lcc_sim)
 reports refcount operations to a simulator

---
 src/avl.rs         |   2 +-
 src/avl/avl_set.rs |   2 +-
 src/btree.rs       |   2 +-
 src/btree/core.rs  |   2 +-
 src/btree/fixed.rs |   2 +-
 src/lib.rs         |   5 ++
 src/sync.rs        | 185 +++++++++++++++++++++++++++++++++++++++++++++
 7 files changed, 195 insertions(+), 5 deletions(-)
 create mode 100644 src/sync.rs

diff --git a/src/avl.rs b/src/avl.rs
index e0b793a..82f9658 100644
--- a/src/avl.rs
+++ b/src/avl.rs
@@ -7,7 +7,7 @@ use std::iter::FusedIterator;
 use std::marker::PhantomData;
 use std::mem::replace;
 use std::ops::{Bound, RangeBounds};
-use std::sync::Arc;
+use crate::sync::Arc;
 
 use super::{Entry, Map};
 
diff --git a/src/avl/avl_set.rs b/src/avl/avl_set.rs
index 888aff1..025eb9c 100644
--- a/src/avl/avl_set.rs
+++ b/src/avl/avl_set.rs
@@ -3,7 +3,7 @@ use std::borrow::Borrow;
 use std::cmp::Ordering::*;
 use std::iter::{ExactSizeIterator, FusedIterator};
 use std::ops::RangeBounds;
-use std::sync::Arc;
+use crate::sync::Arc;
 
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
diff --git a/src/btree.rs b/src/btree.rs
index 982216e..0465177 100644
--- a/src/btree.rs
+++ b/src/btree.rs
@@ -4,7 +4,7 @@ use std::collections::VecDeque;
 use std::iter::{ExactSizeIterator, FusedIterator};
 use std::mem::replace;
 use std::ops::{Bound, RangeBounds};
-use std::sync::Arc;
+use crate::sync::Arc;
 
 use crate::{Entry, Map};
 
diff --git a/src/btree/core.rs b/src/btree/core.rs
index 30a6f5a..6faf551 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -8,7 +8,7 @@ use std::iter::FusedIterator;
 use std::marker::PhantomData;
 use std::mem::{replace, MaybeUninit};
 use std::ptr::copy;
-use std::sync::Arc;
+use crate::sync::Arc;
 
 pub const fn max_occupancy(min_occ: usize) -> usize {
     2 * min_occ + 1
diff --git a/src/btree/fixed.rs b/src/btree/fixed.rs
index abd1626..54c84b8 100644
--- a/src/btree/fixed.rs
+++ b/src/btree/fixed.rs
@@ -1,7 +1,7 @@
 use super::core::*;
 use std::borrow::Borrow;
 use std::iter::FusedIterator;
-use std::sync::Arc;
+use crate::sync::Arc;
 
 #[derive(Clone, Default)]
 pub struct BTreeMap<K, V> {
diff --git a/src/lib.rs b/src/lib.rs
index 84fc0eb..bf5a771 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -64,6 +64,11 @@
 //!   sharing, a set of stacks may form an "ancestral tree" with each stack
 //!   corresponding to a path from the root to a leaf.
 
+// `lcc_sim` is a guard for simulation builds; see sync.rs
+#![allow(unexpected_cfgs)]
+
+mod sync;
+
 #[warn(missing_docs)]
 mod stack;
 pub use stack::Stack;
diff --git a/src/sync.rs b/src/sync.rs
new file mode 100644
index 0000000..35c5ff6
--- /dev/null
+++ b/src/sync.rs
@@ -0,0 +1,185 @@
+// The shared-pointer type used by the thread-safe collections.
+//
+// This is std::sync::Arc.  A build with `--cfg lcc_sim` (never set by Cargo or
+// by this crate) substitutes a wrapper with the same interface that reports
+// every reference-count operation to a simulator, which provides the function
+// `lcc_sim_arc_op`, so that the simulator can deschedule the calling thread at
+// that point.
+
+#[cfg(not(lcc_sim))]
+pub(crate) use std::sync::Arc;
+
+#[cfg(lcc_sim)]
+pub use sim::Arc;
+
+#[cfg(lcc_sim)]
+#[allow(dead_code)]
+mod sim {
+    use std::borrow::Borrow;
+    use std::fmt;
+    use std::ops::Deref;
+    use std::sync::{Arc as StdArc, Weak};
+
+    // The kind of operation reported to the simulator.
+    const NEW: u8 = 0;
+    const CLONE: u8 = 1;
+    const DROP: u8 = 2;
+    const INSPECT: u8 = 3;
+    const MAKE_MUT: u8 = 4;
+    const UNWRAP: u8 = 5;
+
+    extern "Rust" {
+        fn lcc_sim_arc_op(op: u8);
+    }
+
+    fn report(op: u8) {
+        unsafe { lcc_sim_arc_op(op) }
+    }
+
+    // A field rather than a Drop impl for Arc, so that the drop check for Arc
+    // stays as permissive as the one for std::sync::Arc.
+    struct OnDrop;
+
+    impl Drop for OnDrop {
+        fn drop(&mut self) {
+            report(DROP)
+        }
+    }
+
+    pub struct Arc<T: ?Sized> {
+        _on_drop: OnDrop, // dropped first: reports before the count changes
+        arc: StdArc<T>,
+    }
+
+    fn wrap<T: ?Sized>(arc: StdArc<T>) -> Arc<T> {
+        Arc {
+            _on_drop: OnDrop,
+            arc,
+        }
+    }
+
+    fn unwrap<T: ?Sized>(this: Arc<T>) -> StdArc<T> {
+        let Arc { _on_drop, arc } = this;
+        std::mem::forget(_on_drop);
+        arc
+    }
+
+    impl<T> Arc<T> {
+        pub fn new(x: T) -> Self {
+            report(NEW);
+            wrap(StdArc::new(x))
+        }
+
+        pub fn try_unwrap(this: Self) -> Result<T, Self> {
+            report(UNWRAP);
+            let res = StdArc::try_unwrap(unwrap(this)).map_err(wrap);
+            report(UNWRAP);
+            res
+        }
+
+        pub fn into_inner(this: Self) -> Option<T> {
+            report(UNWRAP);
+            StdArc::into_inner(unwrap(this))
+        }
+    }
+
+    impl<T: Clone> Arc<T> {
+        pub fn make_mut(this: &mut Self) -> &mut T {
+            report(MAKE_MUT);
+            StdArc::make_mut(&mut this.arc)
+        }
+
+        pub fn unwrap_or_clone(this: Self) -> T {
+            report(UNWRAP);
+            StdArc::unwrap_or_clone(unwrap(this))
+        }
+    }
+
+    impl<T: ?Sized> Arc<T> {
+        pub fn get_mut(this: &mut Self) -> Option<&mut T> {
+            report(INSPECT);
+            StdArc::get_mut(&mut this.arc)
+        }
+
+        pub fn ptr_eq(this: &Self, other: &Self) -> bool {
+            report(INSPECT);
+            StdArc::ptr_eq(&this.arc, &other.arc)
+        }
+
+        pub fn as_ptr(this: &Self) -> *const T {
+            StdArc::as_ptr(&this.arc)
+        }
+
+        pub fn strong_count(this: &Self) -> usize {
+            report(INSPECT);
+            let n = StdArc::strong_count(&this.arc);
+            report(INSPECT);
+            n
+        }
+
+        pub fn weak_count(this: &Self) -> usize {
+            report(INSPECT);
+            let n = StdArc::weak_count(&this.arc);
+            report(INSPECT);
+            n
+        }
+
+        pub fn downgrade(this: &Self) -> Weak<T> {
+            report(CLONE);
+            StdArc::downgrade(&this.arc)
+        }
+    }
+
+    impl<T: ?Sized> Clone for Arc<T> {
+        fn clone(&self) -> Self {
+            report(CLONE);
+            wrap(self.arc.clone())
+        }
+    }
+
+    impl<T: ?Sized> Deref for Arc<T> {
+        type Target = T;
+
+        fn deref(&self) -> &T {
+            &self.arc
+        }
+    }
+
+    impl<T: ?Sized> AsRef<T> for Arc<T> {
+        fn as_ref(&self) -> &T {
+            &self.arc
+        }
+    }
+
+    impl<T: ?Sized> Borrow<T> for Arc<T> {
+        fn borrow(&self) -> &T {
+            &self.arc
+        }
+    }
+
+    impl<T> From<T> for Arc<T> {
+        fn from(x: T) -> Self {
+            Arc::new(x)
+        }
+    }
+
+    impl<T: Default> Default for Arc<T> {
+        fn default() -> Self {
+            Arc::new(T::default())
+        }
+    }
+
+    impl<T: ?Sized + fmt::Debug> fmt::Debug for Arc<T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            self.arc.fmt(f)
+        }
+    }
+
+    impl<T: ?Sized + PartialEq> PartialEq for Arc<T> {
+        fn eq(&self, other: &Self) -> bool {
+            self.arc == other.arc
+        }
+    }
+
+    impl<T: ?Sized + Eq> Eq for Arc<T> {}
+}
-- 
2.43.0


From 638959cd7cb11e5f986ad9c0a4c19600e386ec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 02/12] fix: AvlMap::retain visits entries in ascending key
 order

---
 src/avl.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/avl.rs b/src/avl.rs
index 82f9658..23b6e0b 100644
--- a/src/avl.rs
+++ b/src/avl.rs
@@ -704,12 +704,14 @@ where
         return (None, 0);
     };
 
+    // visit the entries in ascending key order
     let (left, left_len) = retain(root.left.clone(), f);
+    let mut v = root.val.clone();
+    let keep = f(&root.key, &mut v);
     let (right, right_len) = retain(root.right.clone(), f);
     let len = left_len + right_len;
-    let mut v = root.val.clone();
 
-    if f(&root.key, &mut v) {
+    if keep {
         (join(left, root.key.clone(), v, right), len + 1)
     } else {
         (join2(left, None, right), len)
-- 
2.43.0


From ed60f77b5dd858829f8eb5247147a2002b25d9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 03/12] fix: BTreeSet::is_subset and is_superset hold for equal
 sets

---
 src/btree/btree_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btree/btree_set.rs b/src/btree/btree_set.rs
index 8676567..505f7b2 100644
--- a/src/btree/btree_set.rs
+++ b/src/btree/btree_set.rs
@@ -125,7 +125,7 @@ impl<T, const N: usize> BTreeSet<T, N> {
         T: Ord,
     {
         self.is_empty()
-            || (self.len() < other.len()
+            || (self.len() <= other.len()
                 && self.difference(other).next().is_none())
     }
 
-- 
2.43.0


From 3b28ef6a357be752912faa9ee050af9eb71b1a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 04/12] fix: fixed BTreeMap iterators yield from the back end
 in next_back

---
 src/btree/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/btree/core.rs b/src/btree/core.rs
index 6faf551..e007f62 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -1169,7 +1169,7 @@ where
                 Err(arc) => Some(Descend(Leased(arc))),
             }
         } else if self.next_elem_x < self.end_elems {
-            self.next_elem_x -= 1;
+            self.end_elems -= 1;
             let kv = match &mut self.n {
                 Owned(n) => unsafe {
                     let k = n.elems.keys[self.end_elems].assume_init_read();
@@ -1285,7 +1285,7 @@ impl<E, N, NI: NodeIterator<E, N>> DoubleEndedIterator for InnerIter<E, N, NI> {
     fn next_back(&mut self) -> Option<Self::Item> {
         use IterAction::*;
         while let Some(w) = self.work.back_mut() {
-            match w.next() {
+            match w.next_back() {
                 Some(Return(kv)) => {
                     self.len -= 1;
                     return Some(kv);
-- 
2.43.0


From 3ae8444586ef8446d0b34fcb868689c1c791644c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 05/12] fix: exact-size iterators report their length in
 size_hint

---
 src/avl.rs             | 44 +++++++++++++++++++++++++++++++++++++++++-
 src/avl/avl_set.rs     |  8 ++++++++
 src/btree.rs           | 12 ++++++++++++
 src/btree/btree_set.rs |  8 ++++++++
 src/btree/core.rs      |  4 ++++
 5 files changed, 75 insertions(+), 1 deletion(-)

diff --git a/src/avl.rs b/src/avl.rs
index 23b6e0b..d4cf4aa 100644
--- a/src/avl.rs
+++ b/src/avl.rs
@@ -1695,7 +1695,9 @@ impl<K, V> AvlMap<K, V> {
             }
         }
 
-        InnerIter::<IterMutNode<'_, K, V>> { work, len }
+        RangeMut {
+            iter: InnerIter { work, len },
+        }
     }
 
     /// Removes the entry for the given key and returns the unmapped value.
@@ -1963,6 +1965,10 @@ impl<Node: IterNode> Iterator for InnerIter<Node> {
             }
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<Node: IterNode> DoubleEndedIterator for InnerIter<Node> {
@@ -2028,6 +2034,10 @@ impl<'a, K, V> Iterator for Iter<'a, K, V> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'a, K, V> DoubleEndedIterator for Iter<'a, K, V> {
@@ -2074,6 +2084,10 @@ impl<'a, K: Clone, V: Clone> Iterator for IterMut<'a, K, V> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'a, K: Clone, V: Clone> DoubleEndedIterator for IterMut<'a, K, V> {
@@ -2114,6 +2128,30 @@ impl<'a, K, V> DoubleEndedIterator for Range<'a, K, V> {
 
 impl<'a, K, V> FusedIterator for Range<'a, K, V> {}
 
+struct RangeMut<'a, K: Clone, V: Clone> {
+    iter: InnerIter<IterMutNode<'a, K, V>>,
+}
+
+impl<'a, K: Clone, V: Clone> Iterator for RangeMut<'a, K, V> {
+    type Item = (&'a K, &'a mut V);
+
+    fn next(&mut self) -> Option<Self::Item> {
+        self.iter.next()
+    }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (0, Some(self.iter.len()))
+    }
+}
+
+impl<'a, K: Clone, V: Clone> DoubleEndedIterator for RangeMut<'a, K, V> {
+    fn next_back(&mut self) -> Option<Self::Item> {
+        self.iter.next_back()
+    }
+}
+
+impl<'a, K: Clone, V: Clone> FusedIterator for RangeMut<'a, K, V> {}
+
 trait IntoItem<K, V> {
     type Item;
 
@@ -2219,6 +2257,10 @@ impl<K: Clone, V: Clone> Iterator for IntoIter<K, V> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<K: Clone, V: Clone> DoubleEndedIterator for IntoIter<K, V> {
diff --git a/src/avl/avl_set.rs b/src/avl/avl_set.rs
index 025eb9c..602d5b3 100644
--- a/src/avl/avl_set.rs
+++ b/src/avl/avl_set.rs
@@ -448,6 +448,10 @@ impl<'a, T> Iterator for Iter<'a, T> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|e| e.0)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 crate::make_set_op_iter!(Difference, Iter<'a, T>, 0b100);
@@ -473,6 +477,10 @@ impl<T: Clone> Iterator for IntoIter<T> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|e| e.0)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<K: Clone + Ord> std::ops::BitAnd for &AvlSet<K> {
diff --git a/src/btree.rs b/src/btree.rs
index 0465177..e53cf12 100644
--- a/src/btree.rs
+++ b/src/btree.rs
@@ -1422,6 +1422,10 @@ impl<'a, K, V, const N: usize> Iterator for Iter<'a, K, V, N> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|(ref k, ref v)| (k, v))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'a, K, V, const N: usize> DoubleEndedIterator for Iter<'a, K, V, N> {
@@ -1490,6 +1494,10 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|(ref k, ref mut v)| (k, v))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'a, K, V, const N: usize> DoubleEndedIterator for IterMut<'a, K, V, N>
@@ -1752,6 +1760,10 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<K, V, const N: usize> DoubleEndedIterator for IntoIter<K, V, N>
diff --git a/src/btree/btree_set.rs b/src/btree/btree_set.rs
index 505f7b2..ee11218 100644
--- a/src/btree/btree_set.rs
+++ b/src/btree/btree_set.rs
@@ -373,6 +373,10 @@ impl<'a, T, const N: usize> Iterator for Iter<'a, T, N> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|e| e.0)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'a, T, const N: usize> DoubleEndedIterator for Iter<'a, T, N> {
@@ -407,6 +411,10 @@ impl<T: Clone, const N: usize> Iterator for IntoIter<T, N> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|e| e.0)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<T: Clone, const N: usize> DoubleEndedIterator for IntoIter<T, N> {
diff --git a/src/btree/core.rs b/src/btree/core.rs
index e007f62..f97862c 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -1279,6 +1279,10 @@ impl<E, N, NI: NodeIterator<E, N>> Iterator for InnerIter<E, N, NI> {
 
         None
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<E, N, NI: NodeIterator<E, N>> DoubleEndedIterator for InnerIter<E, N, NI> {
-- 
2.43.0


From 773dd709291b8f0a1f86ab0959ea021f733db03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 06/12] fix: deserializing with a size hint of usize::MAX does
 not overflow

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bf5a771..e039235 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -410,7 +410,7 @@ mod serde {
 
                     Ok(MAP::make_half(scratch))
                 } else {
-                    let lf_len = (len + 1) / 2; // left gets big half for mid pt
+                    let lf_len = len - len / 2; // left gets big half for mid pt
                     let rt_len = len - lf_len;
                     let lhs =
                         build_map_by_halves::<MAP, M>(access, lf_len, scratch)?;
-- 
2.43.0


From 61a2a3fe9e92ef152b6a18ef6fa8530655d890d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 07/12] fix: a panicking element clone in the fixed BTreeMap
 leaks nothing

---
 src/btree/core.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/btree/core.rs b/src/btree/core.rs
index f97862c..992a630 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -211,12 +211,17 @@ where
     fn clone(&self) -> Self {
         let mut ret = Self::new();
         for i in 0..(self.len as usize) {
-            unsafe {
-                ret.keys[i].write(self.keys[i].assume_init_ref().clone());
-                ret.vals[i].write(self.vals[i].assume_init_ref().clone());
-            }
+            // If a clone panics, `ret` owns (and drops) exactly its first `len`.
+            let (key, val) = unsafe {
+                (
+                    self.keys[i].assume_init_ref().clone(),
+                    self.vals[i].assume_init_ref().clone(),
+                )
+            };
+            ret.keys[i].write(key);
+            ret.vals[i].write(val);
+            ret.len += 1;
         }
-        ret.len = self.len;
 
         ret
     }
-- 
2.43.0


From bb391ff72b632271f74675332c21890d64402a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:01 +0000
Subject: [PATCH 08/12] hook: cover Weak, raw pointers and the remaining Arc
 traits in the cfg(lcc_sim) wrapper

---
 src/sync.rs | 98 ++++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 94 insertions(+), 4 deletions(-)

diff --git a/src/sync.rs b/src/sync.rs
index 35c5ff6..c4e7847 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -7,18 +7,22 @@
 // that point.
 
 #[cfg(not(lcc_sim))]
-pub(crate) use std::sync::Arc;
+#[allow(unused_imports)]
+pub(crate) use std::sync::{Arc, Weak};
 
 #[cfg(lcc_sim)]
-pub use sim::Arc;
+#[allow(unused_imports)]
+pub use sim::{Arc, Weak};
 
 #[cfg(lcc_sim)]
 #[allow(dead_code)]
 mod sim {
     use std::borrow::Borrow;
+    use std::cmp::Ordering;
     use std::fmt;
+    use std::hash::{Hash, Hasher};
     use std::ops::Deref;
-    use std::sync::{Arc as StdArc, Weak};
+    use std::sync::{Arc as StdArc, Weak as StdWeak};
 
     // The kind of operation reported to the simulator.
     const NEW: u8 = 0;
@@ -126,7 +130,69 @@ mod sim {
 
         pub fn downgrade(this: &Self) -> Weak<T> {
             report(CLONE);
-            StdArc::downgrade(&this.arc)
+            Weak(StdArc::downgrade(&this.arc))
+        }
+
+        pub fn into_raw(this: Self) -> *const T {
+            StdArc::into_raw(unwrap(this))
+        }
+
+        pub unsafe fn from_raw(ptr: *const T) -> Self {
+            wrap(StdArc::from_raw(ptr))
+        }
+
+        pub unsafe fn increment_strong_count(ptr: *const T) {
+            report(CLONE);
+            StdArc::increment_strong_count(ptr)
+        }
+
+        pub unsafe fn decrement_strong_count(ptr: *const T) {
+            report(DROP);
+            StdArc::decrement_strong_count(ptr)
+        }
+    }
+
+    pub struct Weak<T: ?Sized>(StdWeak<T>);
+
+    impl<T> Weak<T> {
+        pub fn new() -> Self {
+            Weak(StdWeak::new())
+        }
+    }
+
+    impl<T: ?Sized> Weak<T> {
+        pub fn upgrade(&self) -> Option<Arc<T>> {
+            report(INSPECT);
+            let arc = self.0.upgrade();
+            report(INSPECT);
+            arc.map(wrap)
+        }
+
+        pub fn strong_count(&self) -> usize {
+            report(INSPECT);
+            self.0.strong_count()
+        }
+
+        pub fn ptr_eq(&self, other: &Self) -> bool {
+            self.0.ptr_eq(&other.0)
+        }
+    }
+
+    impl<T: ?Sized> Clone for Weak<T> {
+        fn clone(&self) -> Self {
+            Weak(self.0.clone())
+        }
+    }
+
+    impl<T> Default for Weak<T> {
+        fn default() -> Self {
+            Self::new()
+        }
+    }
+
+    impl<T: ?Sized> fmt::Debug for Weak<T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            self.0.fmt(f)
         }
     }
 
@@ -182,4 +248,28 @@ mod sim {
     }
 
     impl<T: ?Sized + Eq> Eq for Arc<T> {}
+
+    impl<T: ?Sized + PartialOrd> PartialOrd for Arc<T> {
+        fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+            self.arc.partial_cmp(&other.arc)
+        }
+    }
+
+    impl<T: ?Sized + Ord> Ord for Arc<T> {
+        fn cmp(&self, other: &Self) -> Ordering {
+            self.arc.cmp(&other.arc)
+        }
+    }
+
+    impl<T: ?Sized + Hash> Hash for Arc<T> {
+        fn hash<H: Hasher>(&self, state: &mut H) {
+            self.arc.hash(state)
+        }
+    }
+
+    impl<T: ?Sized> fmt::Pointer for Arc<T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            fmt::Pointer::fmt(&self.arc, f)
+        }
+    }
 }
-- 
2.43.0


From c2f3f0ef7421a2333645ed12ae96483ce19bce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:49 +0000
Subject: [PATCH 09/12] fix: a panicking destructor in the fixed BTreeMap's
 IntoIter does not drop elements twice

---
 src/btree/core.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/btree/core.rs b/src/btree/core.rs
index 992a630..d95e590 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -1223,21 +1223,27 @@ impl<K, V> Drop for NodeIntoIter<K, V> {
         // if we don't own the node, we don't need to clean it up
         let OwnedOrLeased::Owned(n) = &mut self.n else { return; };
 
+        // Zero the lengths before running any element's destructor: if one
+        // panics, the node's own cleanup must not drop the elements again.
+        n.elems.len = 0;
+        let mut kids = n.kids.take();
+        if let Some(kids) = kids.as_mut() {
+            kids.len = 0;
+        }
+
         for i in self.next_elem_x..self.end_elems {
             unsafe {
                 n.elems.keys[i].assume_init_drop();
                 n.elems.vals[i].assume_init_drop();
             }
         }
-        n.elems.len = 0;
 
-        let Some(mut kids) = n.kids.take() else { return; };
+        let Some(mut kids) = kids else { return; };
         for i in self.next_kid_x..self.end_kids {
             unsafe {
                 kids.keys[i].assume_init_drop();
             }
         }
-        kids.len = 0;
     }
 }
 
-- 
2.43.0


From c6f587f0e588ab0901a6b859e520ca25ffa2f468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:03 +0000
Subject: [PATCH 10/12] hook: report what becomes of each Arc (cfg(lcc_sim))

---
 src/sync.rs | 70 +++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 57 insertions(+), 13 deletions(-)

diff --git a/src/sync.rs b/src/sync.rs
index c4e7847..0a29ce9 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -4,7 +4,8 @@
 // by this crate) substitutes a wrapper with the same interface that reports
 // every reference-count operation to a simulator, which provides the function
 // `lcc_sim_arc_op`, so that the simulator can deschedule the calling thread at
-// that point.
+// that point, and knows which operations order the accesses of different
+// threads.
 
 #[cfg(not(lcc_sim))]
 #[allow(unused_imports)]
@@ -24,7 +25,8 @@ mod sim {
     use std::ops::Deref;
     use std::sync::{Arc as StdArc, Weak as StdWeak};
 
-    // The kind of operation reported to the simulator.
+    // The kind of operation about to be done on some Arc: the simulator may
+    // deschedule the thread here.
     const NEW: u8 = 0;
     const CLONE: u8 = 1;
     const DROP: u8 = 2;
@@ -32,21 +34,34 @@ mod sim {
     const MAKE_MUT: u8 = 4;
     const UNWRAP: u8 = 5;
 
+    // What has become of the Arc at an address (no descheduling here).
+    const CREATED: u8 = 16;
+    const SHARED: u8 = 17; // one more strong reference
+    const RELEASED: u8 = 18; // one less strong reference
+    const OWNED: u8 = 19; // found to be the only reference (with Acquire)
+    const TAKEN: u8 = 20; // found to be the only reference, and moved out of
+
     extern "Rust" {
         fn lcc_sim_arc_op(op: u8);
+        fn lcc_sim_arc_at(op: u8, addr: usize);
     }
 
     fn report(op: u8) {
         unsafe { lcc_sim_arc_op(op) }
     }
 
+    fn report_at(op: u8, addr: usize) {
+        unsafe { lcc_sim_arc_at(op, addr) }
+    }
+
     // A field rather than a Drop impl for Arc, so that the drop check for Arc
     // stays as permissive as the one for std::sync::Arc.
-    struct OnDrop;
+    struct OnDrop(usize);
 
     impl Drop for OnDrop {
         fn drop(&mut self) {
-            report(DROP)
+            report(DROP);
+            report_at(RELEASED, self.0)
         }
     }
 
@@ -57,11 +72,15 @@ mod sim {
 
     fn wrap<T: ?Sized>(arc: StdArc<T>) -> Arc<T> {
         Arc {
-            _on_drop: OnDrop,
+            _on_drop: OnDrop(addr(&arc)),
             arc,
         }
     }
 
+    fn addr<T: ?Sized>(arc: &StdArc<T>) -> usize {
+        StdArc::as_ptr(arc) as *const () as usize
+    }
+
     fn unwrap<T: ?Sized>(this: Arc<T>) -> StdArc<T> {
         let Arc { _on_drop, arc } = this;
         std::mem::forget(_on_drop);
@@ -71,38 +90,56 @@ mod sim {
     impl<T> Arc<T> {
         pub fn new(x: T) -> Self {
             report(NEW);
-            wrap(StdArc::new(x))
+            let arc = wrap(StdArc::new(x));
+            report_at(CREATED, addr(&arc.arc));
+            arc
         }
 
         pub fn try_unwrap(this: Self) -> Result<T, Self> {
             report(UNWRAP);
+            let at = addr(&this.arc);
             let res = StdArc::try_unwrap(unwrap(this)).map_err(wrap);
+            if res.is_ok() {
+                report_at(TAKEN, at);
+            }
             report(UNWRAP);
             res
         }
 
         pub fn into_inner(this: Self) -> Option<T> {
             report(UNWRAP);
-            StdArc::into_inner(unwrap(this))
+            let at = addr(&this.arc);
+            let res = StdArc::into_inner(unwrap(this));
+            report_at(if res.is_some() { TAKEN } else { RELEASED }, at);
+            res
         }
     }
 
     impl<T: Clone> Arc<T> {
         pub fn make_mut(this: &mut Self) -> &mut T {
             report(MAKE_MUT);
-            StdArc::make_mut(&mut this.arc)
+            if StdArc::get_mut(&mut this.arc).is_none() {
+                *this = Arc::new(T::clone(this));
+            }
+            let this = StdArc::get_mut(&mut this.arc).unwrap();
+            report_at(OWNED, this as *const T as usize);
+            this
         }
 
         pub fn unwrap_or_clone(this: Self) -> T {
-            report(UNWRAP);
-            StdArc::unwrap_or_clone(unwrap(this))
+            Arc::try_unwrap(this).unwrap_or_else(|this| T::clone(&this))
         }
     }
 
     impl<T: ?Sized> Arc<T> {
         pub fn get_mut(this: &mut Self) -> Option<&mut T> {
             report(INSPECT);
-            StdArc::get_mut(&mut this.arc)
+            let at = addr(&this.arc);
+            let res = StdArc::get_mut(&mut this.arc);
+            if res.is_some() {
+                report_at(OWNED, at);
+            }
+            res
         }
 
         pub fn ptr_eq(this: &Self, other: &Self) -> bool {
@@ -143,11 +180,13 @@ mod sim {
 
         pub unsafe fn increment_strong_count(ptr: *const T) {
             report(CLONE);
-            StdArc::increment_strong_count(ptr)
+            StdArc::increment_strong_count(ptr);
+            report_at(SHARED, ptr as *const () as usize);
         }
 
         pub unsafe fn decrement_strong_count(ptr: *const T) {
             report(DROP);
+            report_at(RELEASED, ptr as *const () as usize);
             StdArc::decrement_strong_count(ptr)
         }
     }
@@ -164,6 +203,9 @@ mod sim {
         pub fn upgrade(&self) -> Option<Arc<T>> {
             report(INSPECT);
             let arc = self.0.upgrade();
+            if let Some(arc) = &arc {
+                report_at(SHARED, addr(arc));
+            }
             report(INSPECT);
             arc.map(wrap)
         }
@@ -199,7 +241,9 @@ mod sim {
     impl<T: ?Sized> Clone for Arc<T> {
         fn clone(&self) -> Self {
             report(CLONE);
-            wrap(self.arc.clone())
+            let arc = wrap(self.arc.clone());
+            report_at(SHARED, addr(&arc.arc));
+            arc
         }
     }
 
-- 
2.43.0


From 1bc7168ffc91d2342ab96fef12e81b1db10c631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:36 +0000
Subject: [PATCH 11/12] hook: report looks at an Arc that may precede unseen
 accesses (cfg(lcc_sim))

---
 src/sync.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/sync.rs b/src/sync.rs
index 0a29ce9..beaf24d 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -40,10 +40,11 @@ mod sim {
     const RELEASED: u8 = 18; // one less strong reference
     const OWNED: u8 = 19; // found to be the only reference (with Acquire)
     const TAKEN: u8 = 20; // found to be the only reference, and moved out of
+    const LOOKED: u8 = 21; // its value, of the given size, may be accessed unseen
 
     extern "Rust" {
         fn lcc_sim_arc_op(op: u8);
-        fn lcc_sim_arc_at(op: u8, addr: usize);
+        fn lcc_sim_arc_at(op: u8, addr: usize, size: usize);
     }
 
     fn report(op: u8) {
@@ -51,7 +52,12 @@ mod sim {
     }
 
     fn report_at(op: u8, addr: usize) {
-        unsafe { lcc_sim_arc_at(op, addr) }
+        unsafe { lcc_sim_arc_at(op, addr, 0) }
+    }
+
+    fn look<T: ?Sized>(arc: &StdArc<T>) {
+        let size = std::mem::size_of_val::<T>(arc);
+        unsafe { lcc_sim_arc_at(LOOKED, addr(arc), size) }
     }
 
     // A field rather than a Drop impl for Arc, so that the drop check for Arc
@@ -97,6 +103,7 @@ mod sim {
 
         pub fn try_unwrap(this: Self) -> Result<T, Self> {
             report(UNWRAP);
+            look(&this.arc);
             let at = addr(&this.arc);
             let res = StdArc::try_unwrap(unwrap(this)).map_err(wrap);
             if res.is_ok() {
@@ -108,6 +115,7 @@ mod sim {
 
         pub fn into_inner(this: Self) -> Option<T> {
             report(UNWRAP);
+            look(&this.arc);
             let at = addr(&this.arc);
             let res = StdArc::into_inner(unwrap(this));
             report_at(if res.is_some() { TAKEN } else { RELEASED }, at);
@@ -148,12 +156,16 @@ mod sim {
         }
 
         pub fn as_ptr(this: &Self) -> *const T {
+            look(&this.arc);
             StdArc::as_ptr(&this.arc)
         }
 
         pub fn strong_count(this: &Self) -> usize {
             report(INSPECT);
             let n = StdArc::strong_count(&this.arc);
+            if n == 1 {
+                look(&this.arc);
+            }
             report(INSPECT);
             n
         }
@@ -171,6 +183,7 @@ mod sim {
         }
 
         pub fn into_raw(this: Self) -> *const T {
+            look(&this.arc);
             StdArc::into_raw(unwrap(this))
         }
 
-- 
2.43.0


From 35d9f7f5358132f01918370598cf0a6295af0f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:04 +0000
Subject: [PATCH 12/12] fix: a panicking destructor does not overflow the call
 stack when a long Stack is dropped

---
 src/stack.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/stack.rs b/src/stack.rs
index 6d1d5c8..48b383e 100644
--- a/src/stack.rs
+++ b/src/stack.rs
@@ -11,6 +11,21 @@ struct List<T> {
     rest: OptList<T>,
 }
 
+// A list to be dropped without deep recursion, even if it is large and unshared
+// and the destructor of one of its elements panics.
+struct Chain<T>(OptList<T>);
+
+impl<T> Drop for Chain<T> {
+    fn drop(&mut self) {
+        while let Some(next) = self.0.as_mut().and_then(Rc::get_mut) {
+            // unwinding from the drop of the head drops `rest`
+            let mut rest = Chain(next.rest.take());
+            self.0 = None;
+            self.0 = rest.0.take();
+        }
+    }
+}
+
 /// Implements a stack with constant time `push`, `pop`, and `clone` operations.
 ///
 /// The stored elements must implement `Clone`.  During `pop` operations, popped
@@ -305,12 +320,7 @@ impl<T> Stack<T> {
     /// ```
     pub fn clear(&mut self) {
         self.len = 0;
-
-        // avoid deep recursion when dropping a large, unshared list
-        let mut hd = self.elems.take();
-        while let Some(next) = hd.as_mut().and_then(Rc::get_mut) {
-            hd = next.rest.take();
-        }
+        drop(Chain(self.elems.take()));
     }
 
     /// Tests if the element x occurs in the stack.
-- 
2.43.0

