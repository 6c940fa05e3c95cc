From c4598f7e15c17f7416f5b811447baacab940481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:26 +0000
Subject: [PATCH 1/5] fix: inserting below the minimum displaced the maximum
 into the children

With at least two entries, inserting a key smaller than the minimum stored the
old minimum as the node's maximum and pushed the real maximum down, so max_val,
predecessor, successor, iteration and later removals were wrong.
---
 src/tree.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 34f9c07..cf33a03 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -522,13 +522,8 @@ where
                 return None;
             }
             (Ordering::Less, Some(data)) => {
+                // The old `min` is always smaller than `max`, so it moves to the children
                 let (k, v) = replace(&mut self.min, (k, v));
-                let (k, v) = match data.max.0.cmp(&k) {
-                    Ordering::Equal => return Some(replace(&mut data.max, (k, v))),
-                    Ordering::Greater => replace(&mut data.max, (k, v)),
-                    Ordering::Less => (k, v),
-                };
-
                 (k, v, data)
             }
             (Ordering::Greater, Some(data)) => match k.borrow().cmp(&data.max.0) {
-- 
2.43.0


From b3bef77ccf74df4a515f4036f1f7572fad451daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:26 +0000
Subject: [PATCH 2/5] fix: dense index of signed keys sign-extended for
 non-negative keys

wrapping_sub stays in the signed type, so casting it to usize turned the index
of every non-negative key into a huge number and indexing the array panicked.
---
 src/key.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/key.rs b/src/key.rs
index 3d08078..4980acb 100644
--- a/src/key.rs
+++ b/src/key.rs
@@ -186,7 +186,7 @@ impl SizedVebKey for i128 {
     type Cardinality = op!(U1 << U128);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
@@ -233,7 +233,7 @@ impl SizedVebKey for i64 {
     type Cardinality = op!(U1 << U64);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
@@ -288,7 +288,7 @@ impl SizedVebKey for i32 {
     type Cardinality = op!(U1 << U32);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
@@ -345,7 +345,7 @@ impl SizedVebKey for i16 {
     type Cardinality = op!(U1 << U16);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
@@ -390,7 +390,7 @@ impl SizedVebKey for i8 {
     type Cardinality = op!(U1 << U8);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
-- 
2.43.0


From 82e254f907b9b7451266ef6cc47e4113c4578a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:26 +0000
Subject: [PATCH 3/5] fix: CARDINALITY was off by one (or usize::MAX) for
 fixed-width keys

The constant is the number of distinct keys, as for () and as the type-level
Cardinality that sizes the arrays: the largest index was not below it.
---
 src/key.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/key.rs b/src/key.rs
index 4980acb..8918540 100644
--- a/src/key.rs
+++ b/src/key.rs
@@ -257,7 +257,7 @@ impl CloneVebKeyRef for u32 {}
     target_pointer_width = "32"
 ))]
 impl SizedVebKey for u32 {
-    const CARDINALITY: usize = u32::MAX as usize;
+    const CARDINALITY: usize = (u32::MAX as usize).saturating_add(1);
     type Cardinality = op!(U1 << U32);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -284,7 +284,7 @@ impl CloneVebKeyRef for i32 {}
     target_pointer_width = "32"
 ))]
 impl SizedVebKey for i32 {
-    const CARDINALITY: usize = usize::MAX;
+    const CARDINALITY: usize = (u32::MAX as usize).saturating_add(1);
     type Cardinality = op!(U1 << U32);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -313,7 +313,7 @@ impl CloneVebKeyRef for u16 {}
     target_pointer_width = "16"
 ))]
 impl SizedVebKey for u16 {
-    const CARDINALITY: usize = u16::MAX as usize;
+    const CARDINALITY: usize = (u16::MAX as usize).saturating_add(1);
     type Cardinality = op!(U1 << U16);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -341,7 +341,7 @@ impl CloneVebKeyRef for i16 {}
     target_pointer_width = "16"
 ))]
 impl SizedVebKey for i16 {
-    const CARDINALITY: usize = usize::MAX;
+    const CARDINALITY: usize = (u16::MAX as usize).saturating_add(1);
     type Cardinality = op!(U1 << U16);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -364,7 +364,7 @@ impl VebKey for u8 {
 }
 impl CloneVebKeyRef for u8 {}
 impl SizedVebKey for u8 {
-    const CARDINALITY: usize = u8::MAX as usize;
+    const CARDINALITY: usize = u8::MAX as usize + 1;
     type Cardinality = op!(U1 << U8);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -386,7 +386,7 @@ impl VebKey for i8 {
 }
 impl CloneVebKeyRef for i8 {}
 impl SizedVebKey for i8 {
-    const CARDINALITY: usize = u8::MAX as usize;
+    const CARDINALITY: usize = u8::MAX as usize + 1;
     type Cardinality = op!(U1 << U8);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -455,7 +455,7 @@ impl VebKey for U4 {
 }
 impl CloneVebKeyRef for U4 {}
 impl SizedVebKey for U4 {
-    const CARDINALITY: usize = Self::MAX as usize;
+    const CARDINALITY: usize = Self::MAX as usize + 1;
     type Cardinality = op!(U1 << _U4);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -530,7 +530,7 @@ impl VebKey for U2 {
 }
 impl CloneVebKeyRef for U2 {}
 impl SizedVebKey for U2 {
-    const CARDINALITY: usize = Self::MAX as usize;
+    const CARDINALITY: usize = Self::MAX as usize + 1;
     type Cardinality = op!(U1 << _U2);
     #[inline(always)]
     fn index(&self) -> usize {
-- 
2.43.0


From f27bdf6119fa4e0cf3e6acebd653f40ca9981da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:26 +0000
Subject: [PATCH 4/5] fix: ByteMap::remove_key of an absent key hit another
 tree in release builds

The documented panic was only a debug assertion; without it the removal ran on
the tree of the next larger key.
---
 src/bitset/map/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bitset/map/mod.rs b/src/bitset/map/mod.rs
index 34f976f..804df5a 100644
--- a/src/bitset/map/mod.rs
+++ b/src/bitset/map/mod.rs
@@ -73,7 +73,7 @@ impl<L: list::TreeList> TreeCollection for ByteMap<L> {
         R: FnOnce(Self::Tree) -> RemoveResult<Self::Tree>,
     {
         let k = *h.borrow();
-        debug_assert!(self.set.find(k).is_some());
+        assert!(self.set.is_present(k), "collection should contain tree at key");
         let i = self.set.count_below(k);
 
         match self.list.remove_key(i, r) {
-- 
2.43.0


From 072bdee884ae757fa244af5c0ecab53b7c0c7506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:26 +0000
Subject: [PATCH 5/5] fix: 64-bit presets allocated a 2^32-slot array on the
 third insert

A Marker64 or Marker64Empty tree aborted on its third distinct key (about
750 GB requested). Use the hash map collection for the 32-bit high halves.
---
 src/markers.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/markers.rs b/src/markers.rs
index fa29ad8..5660728 100644
--- a/src/markers.rs
+++ b/src/markers.rs
@@ -3,7 +3,7 @@ use ghost::phantom;
 
 use crate::{
     bitset::{ByteSetMarker, ByteTreeMarker, VecDequeMarker},
-    collection::array::ArrayTreeCollectionMarker,
+    collection::{array::ArrayTreeCollectionMarker, hash::HashMapMarker},
     tree::{TreeMarker, VebTreeMarker},
 };
 
@@ -59,20 +59,16 @@ pub type Marker32 = TreeMarker<
 
 pub type Marker64Empty = TreeMarker<
     Marker32Empty, // Summary
-    ArrayTreeCollectionMarker<
-        BoxMarker<
-            // Children
-            Marker32Empty, // Child tree
-        >,
+    // Children, hashed since an array would need 2^32 slots
+    HashMapMarker<
+        Marker32Empty, // Child tree
     >,
 >;
 pub type Marker64 = TreeMarker<
     Marker32Empty, // Summary
-    ArrayTreeCollectionMarker<
-        BoxMarker<
-            // Children
-            Marker32, // Child "tree"
-        >,
+    // Children, hashed since an array would need 2^32 slots
+    HashMapMarker<
+        Marker32, // Child "tree"
     >,
 >;
 
-- 
2.43.0

