From 4eb78bfea1090379ac4cd4fbf076db1826d29d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:21 +0000
Subject: [PATCH 01/10] fix: keep value pointers in
 SurjectArena::clone_from_with

The key index was used as the index of the value, which is wrong as soon as
a value has more than one key or slots were reused.
---
 triple_arena/src/surject/surject_arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index f7c0679..5bca561 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -754,7 +754,7 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
             let k = map_key(p, &link.t.k);
             Key {
                 k,
-                p_val: Ptr::_from_raw(p.inx(), ()),
+                p_val: link.t.p_val,
             }
         });
         self.vals.clone_from_with(&source.vals, |_, val| {
-- 
2.43.0


From f7ca3f65d2cf3d9af98e17fe537fd392c2a2b248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:21 +0000
Subject: [PATCH 02/10] fix: compare with the other arena in SurjectArena::eq

Both keys were read from self, so arenas with different keys compared equal.
---
 triple_arena/src/surject/surject_arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index 5bca561..883f1a3 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -850,7 +850,7 @@ impl<P: Ptr, K: PartialEq, V: PartialEq> PartialEq<SurjectArena<P, K, V>>
                     return false
                 }
                 let key0 = self.keys.get_inx_unwrap(p0.inx());
-                let key1 = self.keys.get_inx_unwrap(p1.inx());
+                let key1 = other.keys.get_inx_unwrap(p1.inx());
                 // make sure not to depend on `p_val`
                 if key0.prev_next() != key1.prev_next() {
                     return false
-- 
2.43.0


From d34dcb2122f74ae0b1d6f4312d510ed0012d9b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:21 +0000
Subject: [PATCH 03/10] fix: reject a stale next pointer in are_neighbors

Only the index of the second pointer was compared. A stale pointer to a
reused slot counted as a neighbor, and ChainArena::insert then stored it as
an interlink.
---
 triple_arena/src/chain/chain_arena.rs        | 2 +-
 triple_arena/src/chain/chain_no_gen_arena.rs | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/triple_arena/src/chain/chain_arena.rs b/triple_arena/src/chain/chain_arena.rs
index af2b308..5d74e8b 100644
--- a/triple_arena/src/chain/chain_arena.rs
+++ b/triple_arena/src/chain/chain_arena.rs
@@ -471,7 +471,7 @@ impl<P: Ptr, T> ChainArena<P, T> {
         let mut are_neighbors = false;
         if let Some(l0) = self.a.get(p_prev) {
             if let Some(p) = l0.next() {
-                if p.inx() == p_next.inx() {
+                if p == p_next {
                     // `p1` must implicitly exist if the invariants hold
                     are_neighbors = true;
                 }
diff --git a/triple_arena/src/chain/chain_no_gen_arena.rs b/triple_arena/src/chain/chain_no_gen_arena.rs
index c8ce34c..326cd88 100644
--- a/triple_arena/src/chain/chain_no_gen_arena.rs
+++ b/triple_arena/src/chain/chain_no_gen_arena.rs
@@ -395,8 +395,9 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
         if let Some(l0) = self.a.get(p_prev) {
             if let Some(p) = l0.next() {
                 if p == p_next.inx() {
-                    // `p1` must implicitly exist if the invariants hold
-                    are_neighbors = true;
+                    // `p1` must implicitly exist if the invariants hold, but its
+                    // generation has not been checked
+                    are_neighbors = self.a.contains(p_next);
                 }
             }
         }
-- 
2.43.0


From 616db7fef79adb6ac5a46265be79ca039d0d07ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:21 +0000
Subject: [PATCH 04/10] fix: clamp growth to the index maximum in
 Arena::insert_with

Doubling past the maximum index made reserve panic although there was still
room. Arena::insert already clamps.
---
 triple_arena/src/arena/base_arena.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/triple_arena/src/arena/base_arena.rs b/triple_arena/src/arena/base_arena.rs
index 38cd671..22715d9 100644
--- a/triple_arena/src/arena/base_arena.rs
+++ b/triple_arena/src/arena/base_arena.rs
@@ -477,6 +477,12 @@ impl<P: Ptr, T> Arena<P, T> {
                 // need at least one
                 additional = 1;
             }
+            // make sure to not make `reserve` panic
+            let new_len = self
+                .len()
+                .saturating_add(additional)
+                .clamp(0, <P::Inx as PtrInx>::max().get());
+            additional = new_len.wrapping_sub(self.len());
             self.reserve(additional);
             self.freelist_root.unwrap()
         };
-- 
2.43.0


From f06daa2a2362af927a8c0d9f467ad4f1bc72aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:21 +0000
Subject: [PATCH 05/10] fix: do not form an index past the maximum in
 Arena::clear

Clearing an arena whose capacity equals the index maximum panicked while
computing the successor of the last slot.
---
 triple_arena/src/arena/base_arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triple_arena/src/arena/base_arena.rs b/triple_arena/src/arena/base_arena.rs
index 22715d9..6afebb2 100644
--- a/triple_arena/src/arena/base_arena.rs
+++ b/triple_arena/src/arena/base_arena.rs
@@ -762,7 +762,7 @@ impl<P: Ptr, T> Arena<P, T> {
         for i in self.m.nziter() {
             // Safety: `isize::MAX` guarantee
             unsafe {
-                let next = ptrinx_unchecked(i.get().wrapping_add(1));
+                let next = ptrinx_unchecked(i.get().wrapping_add(1).min(self.m.len()));
                 *self.m_get_mut(P::Inx::new(i)).unwrap() = Free(next);
             }
         }
-- 
2.43.0


From ea82b570ee11753ba3ad819783637560e10793b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:21 +0000
Subject: [PATCH 06/10] fix: copy the tree root and ends in
 OrdArena::clone_from_with

The nodes were copied but root, first and last kept their old values.
---
 triple_arena/src/ord/ord_arena.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/ord/ord_arena.rs b/triple_arena/src/ord/ord_arena.rs
index bf7f28d..6e8af26 100644
--- a/triple_arena/src/ord/ord_arena.rs
+++ b/triple_arena/src/ord/ord_arena.rs
@@ -498,7 +498,10 @@ impl<P: Ptr, K: Clone, V0> OrdArena<P, K, V0> {
             p_tree0: link.t.p_tree0,
             p_tree1: link.t.p_tree1,
             rank: link.t.rank,
-        })
+        });
+        self.root = source.root;
+        self.first = source.first;
+        self.last = source.last;
     }
 }
 
-- 
2.43.0


From bce5fd03cdb8a4f23b008c9c23006c9188617040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:21 +0000
Subject: [PATCH 07/10] fix: yield nothing from
 OrdArena::advancer_starting_from on a stale pointer

The generation was ignored, contrary to the documentation.
---
 triple_arena/src/ord/ord_iterators.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/ord/ord_iterators.rs b/triple_arena/src/ord/ord_iterators.rs
index 4575dcd..06511ca 100644
--- a/triple_arena/src/ord/ord_iterators.rs
+++ b/triple_arena/src/ord/ord_iterators.rs
@@ -213,7 +213,11 @@ impl<P: Ptr, K, V> OrdArena<P, K, V> {
     /// the next greater entry is _not_ supported during each advancement.
     pub fn advancer_starting_from(&self, p_start: P) -> PtrAdvancer<P, K, V> {
         PtrAdvancer {
-            ptr: Some(p_start.inx()),
+            ptr: if self.contains(p_start) {
+                Some(p_start.inx())
+            } else {
+                None
+            },
             _boo: PhantomData,
         }
     }
-- 
2.43.0


From 029c5905f2053e151401abfc77af3a1c5d3c4716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:21 +0000
Subject: [PATCH 08/10] fix: yield nothing from SurjectArena::advancer_surject
 on a stale pointer

The generation was ignored. Keys of whatever reused the slot were yielded and
iter_surject panicked.
---
 triple_arena/src/surject/surject_iterators.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/surject/surject_iterators.rs b/triple_arena/src/surject/surject_iterators.rs
index cfb3cd4..a16a2d7 100644
--- a/triple_arena/src/surject/surject_iterators.rs
+++ b/triple_arena/src/surject/surject_iterators.rs
@@ -205,7 +205,11 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
     pub fn advancer_surject(&self, p_init: P) -> SurjectPtrAdvancer<P, K, V> {
         SurjectPtrAdvancer {
             init: p_init.inx(),
-            ptr: Some(p_init.inx()),
+            ptr: if self.contains(p_init) {
+                Some(p_init.inx())
+            } else {
+                None
+            },
             max_advances: self.len_keys(),
             _boo: PhantomData,
         }
-- 
2.43.0


From 29cd33205f430305cfead7a2a61df8a699caf341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:21 +0000
Subject: [PATCH 09/10] fix: accept an empty OrdArena when deserializing

The rebalancing assumes at least one entry and panicked.
---
 triple_arena/src/traits/serde.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/traits/serde.rs b/triple_arena/src/traits/serde.rs
index 18fe964..9608b35 100644
--- a/triple_arena/src/traits/serde.rs
+++ b/triple_arena/src/traits/serde.rs
@@ -472,7 +472,9 @@ where
             first: tmp,
             last: tmp,
         };
-        res.raw_rebalance_assuming_compressed();
+        if !res.is_empty() {
+            res.raw_rebalance_assuming_compressed();
+        }
         Ok(res)
     }
 }
-- 
2.43.0


From d6140357463986b8b81bca7bad483d3bab08c181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:32 +0000
Subject: [PATCH 10/10] fix: reject key chains of different values when
 checking a SurjectArena

---
 triple_arena/src/surject/surject_arena.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index 883f1a3..d8b5828 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -202,6 +202,9 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
                     }
                     c = c.checked_sub(1).unwrap();
                     let (_, link) = this.keys.get_no_gen(tmp).unwrap();
+                    if link.t.p_val != this.keys.get(p).unwrap().p_val {
+                        return Err("key chain has keys associated with different values")
+                    }
                     if let Some(next) = link.next() {
                         tmp = next;
                     } else {
-- 
2.43.0

