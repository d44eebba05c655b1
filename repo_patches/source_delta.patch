From 35fbf5033a4601ea3bde7b04305b71c4d70ed568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 1/4] fix: keep equal-ikey groups together when splitting a
 leaf

calculate_split_point() stopped inside a group of entries sharing one
8-byte ikey when the key being inserted was greater than the group. The
group was then cut in two, and since routing and sibling bounds only
compare ikeys, the entries left behind became unreachable.
---
 src/leaf24.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/leaf24.rs b/src/leaf24.rs
index d1f3ff1..9823520 100644
--- a/src/leaf24.rs
+++ b/src/leaf24.rs
@@ -1220,8 +1220,9 @@ impl<S: ValueSlot + Send + Sync + 'static> crate::leaf_trait::TreeLeafNode<S> fo
                         split_pos -= 1;
                     }
                     std::cmp::Ordering::Greater => {
-                        // Insert goes right - done
-                        break;
+                        // Insert goes right of this group, but the group itself must
+                        // stay together (routing only sees ikeys) - move split right
+                        split_pos += 1;
                     }
                 }
             } else {
-- 
2.43.0


From 86b9d7ae6e0ee875d24e025fb76bc1ad9859af9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 2/4] fix: optimistic reads must not validate while a writer
 holds the node

lock() marks a node dirty by setting INSERTING_BIT, and has_changed()
deliberately ignores LOCK_BIT and INSERTING_BIT. A reader that took its
snapshot before the lock and validated before the unlock therefore
accepted whatever half-written state it had read (a shifted internode, a
slot being turned into a layer pointer). Use has_changed_or_locked() at
the read validation points.
---
 src/tree/generic.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 0f8368d..2194c72 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -584,7 +584,7 @@ where
                     }
 
                     // Validate version AFTER all reads
-                    if leaf.version().has_changed(version) {
+                    if leaf.version().has_changed_or_locked(version) {
                         let (advanced, new_version) =
                             self.advance_to_key_generic(leaf, key, version, guard);
 
@@ -742,7 +742,7 @@ where
                     }
 
                     // Validate version AFTER all reads
-                    if leaf.version().has_changed(version) {
+                    if leaf.version().has_changed_or_locked(version) {
                         // Version changed - follow B-link chain if split occurred
                         let (advanced, new_version) =
                             self.advance_to_key_generic(leaf, key, version, guard);
@@ -909,7 +909,7 @@ where
             }
 
             // Check if internode changed during our read
-            if inode.version().has_changed(v) {
+            if inode.version().has_changed_or_locked(v) {
                 // Version changed - check for split
                 if inode.version().has_split(v) {
                     // Key might have escaped to sibling - retry from start
-- 
2.43.0


From a3e1481b41974d6d25f190b4cc8b98f321f2d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 3/4] fix: restart from the whole key when a B-link walk gives
 up

When the hop limit is exceeded inside a sublayer the insert restarts from
the tree root, but the key stayed shifted, so the rest of the key would be
inserted into the top layer as if it were a key of its own.
---
 src/tree/generic.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 2194c72..cd6aa64 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -1588,7 +1588,9 @@ where
 
             // If we exceeded the hop limit, re-traverse from root
             if exceeded_hop_limit {
+                key.unshift_all();
                 layer_root = self.load_root_ptr_generic(guard);
+                in_sublayer = false;
                 continue;
             }
 
-- 
2.43.0


From eb449ca5155bd1d1bc3669f9587350920bf5d9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:54 +0000
Subject: [PATCH 4/4] fix: a lookup that needs the right sibling must not stop
 at a marked next pointer

---
 src/tree/generic.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index cd6aa64..82f54a5 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -504,7 +504,7 @@ where
         use crate::leaf_trait::TreePermutation;
         use crate::leaf24::KSUF_KEYLENX;
         use crate::leaf24::LAYER_KEYLENX;
-        use crate::link::{is_marked, unmark_ptr};
+        use crate::link::unmark_ptr;
 
         // Start at tree root
         let mut layer_root: *const u8 = self.load_root_ptr_generic(guard);
@@ -620,9 +620,11 @@ where
                         continue 'search_loop;
                     }
 
+                    // A marked pointer (the leaf is being split again) still names the old
+                    // right sibling, whose keys must not be missed.
                     let next_raw: *mut L = leaf.next_raw();
                     let next_ptr: *mut L = unmark_ptr(next_raw);
-                    if !next_ptr.is_null() && !is_marked(next_raw) {
+                    if !next_ptr.is_null() {
                         let next_bound: u64 = unsafe { (*next_ptr).ikey_bound() };
                         if target_ikey >= next_bound {
                             leaf_ptr = next_ptr;
@@ -646,7 +648,9 @@ where
         use crate::leaf_trait::TreePermutation;
         use crate::leaf24::KSUF_KEYLENX;
         use crate::leaf24::LAYER_KEYLENX;
-        use crate::link::{is_marked, unmark_ptr};
+        #[cfg(feature = "tracing")]
+        use crate::link::is_marked;
+        use crate::link::unmark_ptr;
 
         #[cfg(feature = "tracing")]
         let target_ikey_for_trace: u64 = key.ikey();
@@ -785,9 +789,11 @@ where
                     }
 
                     // Check if key belongs to a right sibling via B-link
+                    // A marked pointer (the leaf is being split again) still names the old
+                    // right sibling, whose keys must not be missed.
                     let next_raw: *mut L = leaf.next_raw();
                     let next_ptr: *mut L = unmark_ptr(next_raw);
-                    if !next_ptr.is_null() && !is_marked(next_raw) {
+                    if !next_ptr.is_null() {
                         // SAFETY: next_ptr is valid
                         let next_bound: u64 = unsafe { (*next_ptr).ikey_bound() };
                         if target_ikey >= next_bound {
-- 
2.43.0

