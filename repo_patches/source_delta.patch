From 36d7fe351387d18f495461dd3502b13f955040e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:19 +0000
Subject: [PATCH 1/3] fix: ignore a trailing archive point when converting a
 stack to a RAZ

An AStack whose active section is empty (archive() was its last operation)
was converted into a tree with an empty leaf; fold_up then panicked with
'leaf with empty vec'.
---
 src/raz.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/raz.rs b/src/raz.rs
index 5fc57d3..aefa6e7 100644
--- a/src/raz.rs
+++ b/src/raz.rs
@@ -761,6 +761,9 @@ for RazTree<E,M> {
 			}
 		}
 		let mut tailstack = tailstack.0.clone();
+		// an archive point with nothing after it separates no data, so it is
+		// not part of the tree (leaves must not be empty)
+		if tailstack.active_len() == 0 { tailstack.next_archive(); }
 		let name = tailstack.name();
 		let (level, first_tree) = match tailstack.next_archive() {
 			None => return RazTree{meta: treetop_meta(None), tree: None},
@@ -837,6 +840,9 @@ for RazTree<E,M> {
 			}
 		}
 		let mut headstack = headstack.0.clone();
+		// an archive point with nothing after it separates no data, so it is
+		// not part of the tree (leaves must not be empty)
+		if headstack.active_len() == 0 { headstack.next_archive(); }
 		let name = headstack.name();
 		let (level, first_tree) = match headstack.next_archive() {
 			None => return RazTree{meta: treetop_meta(None), tree: None},
-- 
2.43.0


From 3b1adef26aebdf1f1650a7af0ef3d2b336f438e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 2/3] fix: good_levels: equal levels belong in the right
 branch, not the left

Cursor::join, Cursor::up and the stack conversions all build trees whose left
branches are strictly lower and whose right branches may have the same level;
good_levels checked the mirror image, so it rejected trees built by the
library and accepted trees that the cursor cannot climb correctly.
---
 src/level_tree.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/level_tree.rs b/src/level_tree.rs
index f4547f5..0c25d54 100644
--- a/src/level_tree.rs
+++ b/src/level_tree.rs
@@ -212,21 +212,21 @@ Tree<E> {
 /// ```
 ///
 /// checks that the levels of the tree follow the convention
-/// of non-increasing to the left branch and decreasing to the
+/// of decreasing to the left branch and non-increasing to the
 /// right branch
 ///
 /// also prints the levels of the failing trees and branches
 pub fn good_levels<E: Debug+Clone+Eq+Hash+'static>(tree: &Tree<E>) -> bool {
 	let mut good = true;
 	if let Some(ref t) = force(&tree.link).l_branch {
-		if t.level > tree.level {
+		if t.level >= tree.level {
 			println!("Tree with level {:?} has left branch with level {:?}", tree.level, t.level);
 			good = false;
 		}
 		if !good_levels(t) { good = false }
 	}
 	if let Some(ref t) = force(&tree.link).r_branch {
-		if t.level >= tree.level {
+		if t.level > tree.level {
 			println!("Tree with level {:?} has right branch with level {:?}", tree.level, t.level);
 			good = false;
 		}
-- 
2.43.0


From 7b90d437c89fa31ea88238acbae3bc018f1478fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:18 +0000
Subject: [PATCH 3/3] fix: skiplist: observe whole path cells when searching

A memoised computation that searches a skiplist for several keys observes
the same path cell through several projections. The engine keeps one dirty
bit per observed cell and rechecks only the first projection, so after the
cell was overwritten the computation could be reused although another
search would now take a different path, and lose entries.
---
 src/skiplist.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/skiplist.rs b/src/skiplist.rs
index a25c94d..403bd36 100644
--- a/src/skiplist.rs
+++ b/src/skiplist.rs
@@ -9,7 +9,7 @@ use std::fmt;
 use std::fmt::Debug;
 use std::hash::{Hash,Hasher};
 use std::collections::hash_map::{DefaultHasher};
-use adapton::engine::{cell,force_map,Art,Name,name_pair,name_of_usize};
+use adapton::engine::{cell,force,Art,Name,name_pair,name_of_usize};
 
 fn my_hash<T>(obj: T) -> u64
   where T: Hash
@@ -165,9 +165,13 @@ fn build_path_rec
 {    
     let key_bits : usize = key_hash.0;
     let key_biti : usize = cursor.paths.len();
+    // Observe the whole cell, not just the projection for this key
+    // (`force_map`): a computation that searches for several keys observes
+    // the same cell through several projections, but the engine keeps a
+    // single dirty bit per observed cell, and only rechecks the first one.
+    let path = force(cur_art);
     let mut res =
-        force_map(&cur_art, move |art,path|
-                  build_path_step (art, path, ObsParam{ path_len:path_len, key_bits:key_bits, key_biti:key_biti})) ;
+        build_path_step (cur_art, path, ObsParam{ path_len:path_len, key_bits:key_bits, key_biti:key_biti}) ;
     cursor.paths.append(&mut res.paths);
     match res.kvs {
         Some(kvs) => {
-- 
2.43.0

