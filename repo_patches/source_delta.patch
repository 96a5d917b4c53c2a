From d8b9ab22d5b42782cfb74d4cd88953ef911ca087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 1/7] fix: cartesian product: extend adds only the new factors'
 elements

Extending a product that already had factors added the first element of
every factor again, so the combination had more elements than factors.
---
 gearley-utils/src/cartesian_product.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gearley-utils/src/cartesian_product.rs b/gearley-utils/src/cartesian_product.rs
index c158437..2bfad77 100644
--- a/gearley-utils/src/cartesian_product.rs
+++ b/gearley-utils/src/cartesian_product.rs
@@ -63,11 +63,11 @@ impl<'a, V> CartesianProduct<'a, V> {
     where
         I: Iterator<Item = &'a [V]>,
     {
+        let num_factors = self.ranges.len();
         self.ranges.extend(product.map(|slice| Factor::new(slice)));
         unsafe {
-            // FIXME wrong range
             self.ptrs
-                .extend(self.ranges.iter().map(|factor| &*factor.start));
+                .extend(self.ranges[num_factors..].iter().map(|factor| &*factor.start));
         }
     }
 
-- 
2.43.0


From f3f2899f4b8142c6cce3cea96efab4a00c9133fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 2/7] fix: cartesian product: never form references past a
 factor's end

The last combination was detected by stepping a raw pointer to one past
the end of the slice and making a reference out of it, an empty factor
made a reference to nothing, and a factor of a zero-sized type never
wrapped around. Keep the slice and a position in it instead.
---
 gearley-utils/src/cartesian_product.rs | 43 +++++++++-----------------
 1 file changed, 14 insertions(+), 29 deletions(-)

diff --git a/gearley-utils/src/cartesian_product.rs b/gearley-utils/src/cartesian_product.rs
index 2bfad77..1272e85 100644
--- a/gearley-utils/src/cartesian_product.rs
+++ b/gearley-utils/src/cartesian_product.rs
@@ -1,33 +1,22 @@
-use std::marker::PhantomData;
-
 pub struct Factor<'a, V: 'a> {
-    start: *const V,
-    end: *const V,
-    marker: PhantomData<&'a V>,
+    slice: &'a [V],
+    pos: usize,
 }
 
 impl<'a, V> Factor<'a, V> {
     fn new(slice: &'a [V]) -> Self {
-        let start = slice.as_ptr();
-        unsafe {
-            Factor {
-                start,
-                end: start.offset(slice.len() as isize),
-                marker: PhantomData,
-            }
-        }
+        assert!(!slice.is_empty(), "a factor must not be empty");
+        Factor { slice, pos: 0 }
     }
 
     fn advance(&mut self, ptr: &mut &'a V) -> bool {
-        unsafe {
-            *ptr = &*(*ptr as *const V).offset(1);
-            if *ptr as *const _ == self.end {
-                *ptr = &*self.start;
-                true
-            } else {
-                false
-            }
+        self.pos += 1;
+        let wrapped = self.pos == self.slice.len();
+        if wrapped {
+            self.pos = 0;
         }
+        *ptr = &self.slice[self.pos];
+        wrapped
     }
 }
 
@@ -52,10 +41,8 @@ impl<'a, V> CartesianProduct<'a, V> {
     /// Multiplies the cartesian product by a slice.
     pub fn push(&mut self, slice: &'a [V]) {
         self.ranges.push(Factor::new(slice));
-        unsafe {
-            self.ptrs
-                .push(self.ranges.last().map(|factor| &*factor.start).unwrap());
-        }
+        self.ptrs
+            .push(self.ranges.last().map(|factor| &factor.slice[0]).unwrap());
     }
 
     /// Multiplies the cartesian product by an iterator.
@@ -65,10 +52,8 @@ impl<'a, V> CartesianProduct<'a, V> {
     {
         let num_factors = self.ranges.len();
         self.ranges.extend(product.map(|slice| Factor::new(slice)));
-        unsafe {
-            self.ptrs
-                .extend(self.ranges[num_factors..].iter().map(|factor| &*factor.start));
-        }
+        self.ptrs
+            .extend(self.ranges[num_factors..].iter().map(|factor| &factor.slice[0]));
     }
 
     pub fn as_slice(&self) -> &[&'a V] {
-- 
2.43.0


From 355f540baa63f9f8273ebb753226f6d18f347407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:47 +0000
Subject: [PATCH 3/7] fix: recognizer reset: drop stale predictions of later
 sets and the pending hint

---
 gearley-recognizer/src/recognizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gearley-recognizer/src/recognizer.rs b/gearley-recognizer/src/recognizer.rs
index 41d9e4f..cbbe0c3 100644
--- a/gearley-recognizer/src/recognizer.rs
+++ b/gearley-recognizer/src/recognizer.rs
@@ -320,8 +320,10 @@ where
         // Remove items.
         self.medial.clear();
         self.complete.clear();
+        self.lookahead.clear_hint();
         // Earleme is now equal 0.
-        // Reset predictions.
+        // Reset predictions. Rows of later sets must be empty when they are reused.
+        self.predicted.truncate(1);
         self.predicted[0].clear();
         self.predicted[0].predict(
             self.grammar.start_sym(),
-- 
2.43.0


From cfb44fa869589d83a8e955c07dd878a098dfe7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 4/7] fix: compact forest: decode node fields as little endian
 bytes, without an alignment requirement

---
 compact-bocage/src/graph.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/compact-bocage/src/graph.rs b/compact-bocage/src/graph.rs
index fac9357..cb88e57 100644
--- a/compact-bocage/src/graph.rs
+++ b/compact-bocage/src/graph.rs
@@ -1,4 +1,3 @@
-use bytemuck::{bytes_of, from_bytes};
 use cfg_symbol::Symbol;
 use gearley_forest::node_handle::NodeHandle;
 
@@ -72,10 +71,10 @@ impl Graph {
         let mut left_slice = [0; 4];
         let mid = index + 1 + l_len as usize;
         left_slice[0..l_len as usize].copy_from_slice(&self.vect[index + 1..mid]);
-        let &left: &u32 = from_bytes(&left_slice[..]);
+        let left = u32::from_le_bytes(left_slice);
         let mut right_slice = [0; 4];
         right_slice[0..r_len as usize].copy_from_slice(&self.vect[mid..mid + r_len as usize]);
-        let &right: &u32 = from_bytes(&right_slice[..]);
+        let right = u32::from_le_bytes(right_slice);
         match discr {
             0 => Node::BeginSum,
             1 => Node::EndSum,
@@ -133,7 +132,7 @@ impl Graph {
             Node::NullingLeaf { symbol } => [6, symbol.usize() as u32, 0],
         };
         self.vect.push(discr as u8 | 0b1111000);
-        self.vect.extend(bytes_of(&left));
-        self.vect.extend(bytes_of(&right));
+        self.vect.extend(left.to_le_bytes());
+        self.vect.extend(right.to_le_bytes());
     }
 }
-- 
2.43.0


From a581c19cac5a9206ac620bc9ea25dba574bd913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:54 +0000
Subject: [PATCH 5/7] fix: compact forest: evaluate the trivial parse like the
 simple forest

---
 compact-bocage/src/traverse.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/compact-bocage/src/traverse.rs b/compact-bocage/src/traverse.rs
index bd5a100..696a60c 100644
--- a/compact-bocage/src/traverse.rs
+++ b/compact-bocage/src/traverse.rs
@@ -45,8 +45,14 @@ impl Bocage {
                     }
                     right_factor
                 }
-                _ => return vec![],
+                _ => {
+                    let mut start_results = vec![];
+                    eval.nulling(self.forest_info.start, &mut start_results);
+                    return start_results;
+                }
             },
+            // the trivial parse, before any input
+            Node::NullingLeaf { .. } => root_node,
             Node::BeginSum => match self.get(NodeHandle(root_node.0 + 1)) {
                 Node::Summand { factors, .. } => match self.get(factors) {
                     Node::Rule {
-- 
2.43.0


From aaf64f90101ac51a43be6ba069c10d81d40c9ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 6/7] fix: return the default grammar's events by symbol and by
 rule

events() handed out the columns of the first and second dot position.
Predicted symbols index the first of the two tables by symbol, and partial
matches index the second by rule at their first dot position, as trace()
does, so the columns are 0 and 1.
---
 gearley-default-grammar/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gearley-default-grammar/src/lib.rs b/gearley-default-grammar/src/lib.rs
index c2696e4..5ecb62c 100644
--- a/gearley-default-grammar/src/lib.rs
+++ b/gearley-default-grammar/src/lib.rs
@@ -687,7 +687,7 @@ impl Grammar for DefaultGrammar {
 
     #[inline]
     fn events(&self) -> (&[EventAndDistance], &[EventAndDistance]) {
-        (&self.columns[1].events[..], &self.columns[2].events[..])
+        (&self.columns[0].events[..], &self.columns[1].events[..])
     }
 
     #[inline]
-- 
2.43.0


From e825d32837c07349163720584d4af034ddeaf998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:34 +0000
Subject: [PATCH 7/7] fix: report a parse error from parse_terminal_list
 instead of the missing finished node

---
 gearley-utils/src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gearley-utils/src/parse.rs b/gearley-utils/src/parse.rs
index b8951eb..3fbedd7 100644
--- a/gearley-utils/src/parse.rs
+++ b/gearley-utils/src/parse.rs
@@ -124,7 +124,7 @@ pub fn parse_terminal_list<'a>(
             });
         }
     }
-    let result = recognizer.parse(&tokens);
+    let result = recognizer.parse(&tokens)?;
     if let Some(node) = recognizer.finished_node() {
         trace!("utils.finished_node: NodeHandle {{ handle: {:?} }}", node);
     } else {
@@ -133,7 +133,7 @@ pub fn parse_terminal_list<'a>(
         });
     }
     trace!("utils.bocage: {:?}", recognizer.into_forest());
-    result
+    Ok(result)
 }
 
 pub fn parse_tokenizing(
-- 
2.43.0

