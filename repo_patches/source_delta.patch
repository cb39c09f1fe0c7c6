From 915581edadeb8d4bed97b50ca5a8046006f59bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 01/15] fix: CartesianProduct::extend duplicated earlier
 factors when the product was not empty

---
 gearley-utils/src/cartesian_product.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gearley-utils/src/cartesian_product.rs b/gearley-utils/src/cartesian_product.rs
index c158437..cbae296 100644
--- a/gearley-utils/src/cartesian_product.rs
+++ b/gearley-utils/src/cartesian_product.rs
@@ -63,11 +63,11 @@ impl<'a, V> CartesianProduct<'a, V> {
     where
         I: Iterator<Item = &'a [V]>,
     {
+        let old_len = self.ranges.len();
         self.ranges.extend(product.map(|slice| Factor::new(slice)));
         unsafe {
-            // FIXME wrong range
             self.ptrs
-                .extend(self.ranges.iter().map(|factor| &*factor.start));
+                .extend(self.ranges[old_len..].iter().map(|factor| &*factor.start));
         }
     }
 
-- 
2.43.0


From 9f4abf57e9afc2491a02f0754ee863a4c65a1d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 02/15] fix: take completions in the order of unary
 derivations, so that a sum is built from all of its summands once

---
 gearley-default-grammar/src/lib.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/gearley-default-grammar/src/lib.rs b/gearley-default-grammar/src/lib.rs
index c2696e4..54a9b47 100644
--- a/gearley-default-grammar/src/lib.rs
+++ b/gearley-default-grammar/src/lib.rs
@@ -281,7 +281,28 @@ impl DefaultGrammar {
     }
 
     fn sort_rules_by_lhs(grammar: &mut Cfg) {
-        grammar.sort_by(|a, b| a.lhs.cmp(&b.lhs));
+        // Completions with the same origin are taken from the highest dot down. A completed `B`
+        // may complete `A` through `A ::= B`, so the rules of `A` go before the rules of `B`.
+        // Otherwise, a sum for `A` could be built before all of its summands are known.
+        let num_syms = grammar.num_syms();
+        let mut rank = vec![0; num_syms];
+        for _ in 0..num_syms {
+            let mut changed = false;
+            for rule in grammar.rules().filter(|rule| rule.rhs.len() == 1) {
+                let lhs_rank: usize = rank[rule.lhs.usize()];
+                let rhs_rank = &mut rank[rule.rhs[0].usize()];
+                if *rhs_rank <= lhs_rank {
+                    *rhs_rank = lhs_rank + 1;
+                    changed = true;
+                }
+            }
+            if !changed {
+                break;
+            }
+        }
+        grammar.sort_by(|a, b| {
+            (rank[a.lhs.usize()], a.lhs).cmp(&(rank[b.lhs.usize()], b.lhs))
+        });
     }
 
     fn find_gensyms(grammar: &Cfg) -> SymbolBitSet {
-- 
2.43.0


From 72a270449eb86de354baade800b4bf086f3ee642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 03/15] fix: evaluate the trivial parse in the compact forest
 to the start symbol's empty value

---
 compact-bocage/src/traverse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compact-bocage/src/traverse.rs b/compact-bocage/src/traverse.rs
index bd5a100..d1fec7b 100644
--- a/compact-bocage/src/traverse.rs
+++ b/compact-bocage/src/traverse.rs
@@ -45,7 +45,11 @@ impl Bocage {
                     }
                     right_factor
                 }
-                _ => return vec![],
+                _ => {
+                    let mut start_results = vec![];
+                    eval.nulling(self.forest_info.start, &mut start_results);
+                    return start_results;
+                }
             },
             Node::BeginSum => match self.get(NodeHandle(root_node.0 + 1)) {
                 Node::Summand { factors, .. } => match self.get(factors) {
-- 
2.43.0


From c2d74e20b2a8a226098f7b53fdc32695a8affbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 04/15] fix: the node of the empty parse before any input is
 the internal start symbol's

---
 compact-bocage/src/traverse.rs       | 1 +
 gearley-recognizer/src/recognizer.rs | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/compact-bocage/src/traverse.rs b/compact-bocage/src/traverse.rs
index d1fec7b..7eff66c 100644
--- a/compact-bocage/src/traverse.rs
+++ b/compact-bocage/src/traverse.rs
@@ -71,6 +71,7 @@ impl Bocage {
                 },
                 _ => panic!("not found"),
             },
+            Node::NullingLeaf { .. } => root_node,
             _ => panic!("not found"),
         };
 
diff --git a/gearley-recognizer/src/recognizer.rs b/gearley-recognizer/src/recognizer.rs
index 41d9e4f..c97ce89 100644
--- a/gearley-recognizer/src/recognizer.rs
+++ b/gearley-recognizer/src/recognizer.rs
@@ -345,7 +345,9 @@ where
     /// Panics when the parse has not finished at the current location.
     pub fn finished_node(&self) -> Option<F::NodeRef> {
         if self.grammar.has_trivial_derivation() && self.earleme() == !0 {
-            Some(self.forest.nulling(self.grammar.externalized_start_sym()))
+            self.grammar
+                .to_internal(self.grammar.externalized_start_sym())
+                .map(|start_sym| self.forest.nulling(start_sym))
         } else {
             let has_dot_before_eof = |item: &&Item<_>| item.dot == self.grammar.dot_before_eof();
             let item_node = |item: &Item<_>| item.node;
-- 
2.43.0


From 60e2f92065746460035c05fef8190db488814de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:11 +0000
Subject: [PATCH 05/15] fix: only a nullable start symbol makes the empty parse
 trivial

---
 gearley-default-grammar/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gearley-default-grammar/src/lib.rs b/gearley-default-grammar/src/lib.rs
index 54a9b47..151704a 100644
--- a/gearley-default-grammar/src/lib.rs
+++ b/gearley-default-grammar/src/lib.rs
@@ -611,7 +611,9 @@ impl DefaultGrammar {
     }
 
     fn populate_nulling(&mut self, nulling: &Cfg) {
-        self.has_trivial_derivation = !nulling.is_empty();
+        self.has_trivial_derivation = nulling
+            .rules()
+            .any(|rule| self.to_internal(rule.lhs) == Some(self.original_start_sym));
         let iter_nulling_intermediate = nulling
             .rules()
             .filter_map(|rule| {
-- 
2.43.0


From 6d0b47dafac65786a806744e9f1e170baeea7201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 06/15] fix: begin the sum of a completion group that is taken
 by hand

---
 gearley-recognizer/src/recognizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gearley-recognizer/src/recognizer.rs b/gearley-recognizer/src/recognizer.rs
index c97ce89..3189ccf 100644
--- a/gearley-recognizer/src/recognizer.rs
+++ b/gearley-recognizer/src/recognizer.rs
@@ -658,6 +658,7 @@ where
     pub fn next_sum<'r>(&'r mut self) -> Option<CompleteGroup<'r, F, G, P>> {
         if let Some(ei) = self.heap_peek() {
             let lhs_sym = self.grammar.get_lhs(ei.dot);
+            self.forest.begin_sum();
             Some(CompleteGroup {
                 origin: ei.origin,
                 lhs_sym,
@@ -677,7 +678,6 @@ where
 {
     /// Completes all items.
     pub fn complete_entire_sum(&mut self) {
-        self.recognizer.forest.begin_sum();
         // For each item, include it in the completion.
         while let Some(item) = self.next_summand() {
             self.push_summand(item);
-- 
2.43.0


From 8c20b1560b02728eb092d0c86938ad592ec72bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 07/15] fix: a lookahead hint outlived its location when
 completion was driven by hand

---
 gearley-recognizer/src/recognizer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gearley-recognizer/src/recognizer.rs b/gearley-recognizer/src/recognizer.rs
index 3189ccf..395ee70 100644
--- a/gearley-recognizer/src/recognizer.rs
+++ b/gearley-recognizer/src/recognizer.rs
@@ -199,6 +199,8 @@ where
         // `earleme` is now at least 1.
         // Prediction pass.
         self.prediction_pass();
+        // The hint is about the token after this location only.
+        self.lookahead.clear_hint();
     }
 
     /// Checks whether the recognizer is exhausted. The recognizer is exhausted when it can't accept
@@ -651,7 +653,6 @@ where
             // Include all items in the completion.
             completion.complete_entire_sum();
         }
-        self.lookahead.clear_hint();
     }
 
     /// Allows iteration through groups of completions that have unique symbol and origin.
-- 
2.43.0


From b1e8ae68b2208b6cfc1c2b75c908ea1f80b1dba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:19 +0000
Subject: [PATCH 08/15] fix: events of predictions and medial items were looked
 up in the wrong columns

---
 gearley-default-grammar/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gearley-default-grammar/src/lib.rs b/gearley-default-grammar/src/lib.rs
index 151704a..fbd70ca 100644
--- a/gearley-default-grammar/src/lib.rs
+++ b/gearley-default-grammar/src/lib.rs
@@ -710,7 +710,7 @@ impl Grammar for DefaultGrammar {
 
     #[inline]
     fn events(&self) -> (&[EventAndDistance], &[EventAndDistance]) {
-        (&self.columns[1].events[..], &self.columns[2].events[..])
+        (&self.columns[0].events[..], &self.columns[1].events[..])
     }
 
     #[inline]
-- 
2.43.0


From 130822e576b6cfa822b97262a9359447dc92debe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 09/15] fix: reset kept predictions of the previous input and a
 pending hint

---
 gearley-recognizer/src/recognizer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gearley-recognizer/src/recognizer.rs b/gearley-recognizer/src/recognizer.rs
index 395ee70..4526c53 100644
--- a/gearley-recognizer/src/recognizer.rs
+++ b/gearley-recognizer/src/recognizer.rs
@@ -321,9 +321,12 @@ where
     pub fn reset(&mut self) {
         // Remove items.
         self.medial.clear();
+        self.leo.clear();
         self.complete.clear();
+        self.lookahead.clear_hint();
         // Earleme is now equal 0.
         // Reset predictions.
+        self.predicted.truncate(1);
         self.predicted[0].clear();
         self.predicted[0].predict(
             self.grammar.start_sym(),
-- 
2.43.0


From 2e71c8cb317fe3eaf7e5b23f27060351ca97032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:25 +0000
Subject: [PATCH 10/15] fix: report symbols unused by the grammar as parse
 errors instead of panicking

---
 gearley-utils/src/parse.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/gearley-utils/src/parse.rs b/gearley-utils/src/parse.rs
index b8951eb..693d206 100644
--- a/gearley-utils/src/parse.rs
+++ b/gearley-utils/src/parse.rs
@@ -77,15 +77,20 @@ where
         let mut iter = tokens.iter().enumerate().peekable();
         while let Some((i, &token)) = iter.next() {
             self.begin_earleme();
-            if let Some((_i, t)) = iter.peek() {
-                trace!("utils.lookahead_set_hint: {:?}", **t);
-                let s = self.grammar().to_internal(**t).unwrap();
+            // Symbols that the grammar does not use have no internal symbol.
+            let next = iter
+                .peek()
+                .and_then(|(_i, t)| self.grammar().to_internal(**t));
+            if let Some(s) = next {
+                trace!("utils.lookahead_set_hint: {:?}", s);
                 self.lookahead().set_hint(s);
             } else {
                 trace!("utils.lookahead_clear_hint: None null");
                 self.lookahead().clear_hint();
             }
-            self.scan(self.grammar().to_internal(token).unwrap(), i as u32);
+            if let Some(s) = self.grammar().to_internal(token) {
+                self.scan(s, i as u32);
+            }
             if !self.end_earleme() {
                 return Err(ParseError::Parse {
                     msg: "failed to parse",
@@ -156,10 +161,9 @@ pub fn parse_tokenizing(
     for (i, ch) in input.chars().enumerate() {
         recognizer.begin_earleme();
         for &terminal in loaded.lexer_map.get(ch) {
-            recognizer.scan(
-                recognizer.grammar().to_internal(terminal).unwrap(),
-                ch as u32,
-            );
+            if let Some(s) = recognizer.grammar().to_internal(terminal) {
+                recognizer.scan(s, ch as u32);
+            }
         }
         if !recognizer.end_earleme() {
             return Err(ParseError::Parse {
-- 
2.43.0


From 258dcac7a46814dc1a3dc7fbb70d3d9c7a5aceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:25 +0000
Subject: [PATCH 11/15] fix: report the failing token of a terminal list
 instead of an unfinished parse

---
 gearley-utils/src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gearley-utils/src/parse.rs b/gearley-utils/src/parse.rs
index 693d206..e1e3ee2 100644
--- a/gearley-utils/src/parse.rs
+++ b/gearley-utils/src/parse.rs
@@ -129,7 +129,7 @@ pub fn parse_terminal_list<'a>(
             });
         }
     }
-    let result = recognizer.parse(&tokens);
+    let result = recognizer.parse(&tokens)?;
     if let Some(node) = recognizer.finished_node() {
         trace!("utils.finished_node: NodeHandle {{ handle: {:?} }}", node);
     } else {
@@ -138,7 +138,7 @@ pub fn parse_terminal_list<'a>(
         });
     }
     trace!("utils.bocage: {:?}", recognizer.into_forest());
-    result
+    Ok(result)
 }
 
 pub fn parse_tokenizing(
-- 
2.43.0


From 6e6b0c9338050109da56b82abd5f3c9477e6a2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:25 +0000
Subject: [PATCH 12/15] fix: evaluate numbers of three or more digits in the
 example grammars

---
 gearley-example-grammars/src/ambiguous_math/mod.rs   | 2 +-
 gearley-example-grammars/src/precedenced_math/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gearley-example-grammars/src/ambiguous_math/mod.rs b/gearley-example-grammars/src/ambiguous_math/mod.rs
index a8bf976..ba86d2b 100644
--- a/gearley-example-grammars/src/ambiguous_math/mod.rs
+++ b/gearley-example-grammars/src/ambiguous_math/mod.rs
@@ -17,7 +17,7 @@ pub fn grammar() -> Cfg {
 
     for _ in 0..10 {
         let [sym] = bnf.sym();
-        bnf.rule(num).rhs([sym, num]).rhs([sym]);
+        bnf.rule(num).rhs([num, sym]).rhs([sym]);
     }
     bnf.set_roots([expr]);
     bnf
diff --git a/gearley-example-grammars/src/precedenced_math/mod.rs b/gearley-example-grammars/src/precedenced_math/mod.rs
index 1083043..8ef04f8 100644
--- a/gearley-example-grammars/src/precedenced_math/mod.rs
+++ b/gearley-example-grammars/src/precedenced_math/mod.rs
@@ -36,7 +36,7 @@ pub fn grammar() -> Cfg {
         .rhs([number]);
     for _ in 0..10 {
         let [sym] = bnf.sym();
-        bnf.rule(number).rhs([sym, number]).rhs(&[sym]);
+        bnf.rule(number).rhs([number, sym]).rhs(&[sym]);
     }
     bnf.set_roots([sum]);
     bnf
-- 
2.43.0


From b7d54c2f9106271d3d524d12ac80d8a4c67ce09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:43 +0000
Subject: [PATCH 13/15] fix: read compact forest nodes without relying on the
 alignment of byte arrays

---
 compact-bocage/src/graph.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/compact-bocage/src/graph.rs b/compact-bocage/src/graph.rs
index fac9357..cb88e57 100644
--- a/compact-bocage/src/graph.rs
+++ b/compact-bocage/src/graph.rs
@@ -1,4 +1,3 @@
-use bytemuck::{bytes_of, from_bytes};
 use cfg_symbol::Symbol;
 use gearley_forest::node_handle::NodeHandle;
 
@@ -72,10 +71,10 @@ impl Graph {
         let mut left_slice = [0; 4];
         let mid = index + 1 + l_len as usize;
         left_slice[0..l_len as usize].copy_from_slice(&self.vect[index + 1..mid]);
-        let &left: &u32 = from_bytes(&left_slice[..]);
+        let left = u32::from_le_bytes(left_slice);
         let mut right_slice = [0; 4];
         right_slice[0..r_len as usize].copy_from_slice(&self.vect[mid..mid + r_len as usize]);
-        let &right: &u32 = from_bytes(&right_slice[..]);
+        let right = u32::from_le_bytes(right_slice);
         match discr {
             0 => Node::BeginSum,
             1 => Node::EndSum,
@@ -133,7 +132,7 @@ impl Graph {
             Node::NullingLeaf { symbol } => [6, symbol.usize() as u32, 0],
         };
         self.vect.push(discr as u8 | 0b1111000);
-        self.vect.extend(bytes_of(&left));
-        self.vect.extend(bytes_of(&right));
+        self.vect.extend(left.to_le_bytes());
+        self.vect.extend(right.to_le_bytes());
     }
 }
-- 
2.43.0


From 254d821ef52703cfcac62aa35d37636ad3843e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:18 +0000
Subject: [PATCH 14/15] fix: enumerate factors of zero-sized elements, without
 references past the end of a slice

---
 gearley-utils/src/cartesian_product.rs | 46 ++++++++++----------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/gearley-utils/src/cartesian_product.rs b/gearley-utils/src/cartesian_product.rs
index cbae296..98c1794 100644
--- a/gearley-utils/src/cartesian_product.rs
+++ b/gearley-utils/src/cartesian_product.rs
@@ -1,33 +1,25 @@
-use std::marker::PhantomData;
-
 pub struct Factor<'a, V: 'a> {
-    start: *const V,
-    end: *const V,
-    marker: PhantomData<&'a V>,
+    slice: &'a [V],
+    pos: usize,
 }
 
 impl<'a, V> Factor<'a, V> {
     fn new(slice: &'a [V]) -> Self {
-        let start = slice.as_ptr();
-        unsafe {
-            Factor {
-                start,
-                end: start.offset(slice.len() as isize),
-                marker: PhantomData,
-            }
-        }
+        Factor { slice, pos: 0 }
+    }
+
+    fn first(&self) -> &'a V {
+        &self.slice[0]
     }
 
     fn advance(&mut self, ptr: &mut &'a V) -> bool {
-        unsafe {
-            *ptr = &*(*ptr as *const V).offset(1);
-            if *ptr as *const _ == self.end {
-                *ptr = &*self.start;
-                true
-            } else {
-                false
-            }
+        self.pos += 1;
+        let wrap = self.pos == self.slice.len();
+        if wrap {
+            self.pos = 0;
         }
+        *ptr = &self.slice[self.pos];
+        wrap
     }
 }
 
@@ -52,10 +44,8 @@ impl<'a, V> CartesianProduct<'a, V> {
     /// Multiplies the cartesian product by a slice.
     pub fn push(&mut self, slice: &'a [V]) {
         self.ranges.push(Factor::new(slice));
-        unsafe {
-            self.ptrs
-                .push(self.ranges.last().map(|factor| &*factor.start).unwrap());
-        }
+        self.ptrs
+            .push(self.ranges.last().map(|factor| factor.first()).unwrap());
     }
 
     /// Multiplies the cartesian product by an iterator.
@@ -65,10 +55,8 @@ impl<'a, V> CartesianProduct<'a, V> {
     {
         let old_len = self.ranges.len();
         self.ranges.extend(product.map(|slice| Factor::new(slice)));
-        unsafe {
-            self.ptrs
-                .extend(self.ranges[old_len..].iter().map(|factor| &*factor.start));
-        }
+        self.ptrs
+            .extend(self.ranges[old_len..].iter().map(|factor| factor.first()));
     }
 
     pub fn as_slice(&self) -> &[&'a V] {
-- 
2.43.0


From 31f2db87b61fdbe301cf4e5b51a5a1188e45ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:35 +0000
Subject: [PATCH 15/15] fix: begin_sum of the simple forest must forget
 summands of a sum that was given up

A group of completions that was begun, got some summands and was then left
without complete_sum (skip_entire_sum, a dropped group, or a reset) left its
summand count behind; the next sum then spanned nodes that are not its own.
---
 simple-bocage/src/bocage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple-bocage/src/bocage.rs b/simple-bocage/src/bocage.rs
index cd32548..374a47c 100644
--- a/simple-bocage/src/bocage.rs
+++ b/simple-bocage/src/bocage.rs
@@ -113,7 +113,8 @@ impl Forest for Bocage {
 
     #[inline]
     fn begin_sum(&mut self) {
-        // nothing to do
+        // Summands of a sum that was begun and given up must not count.
+        self.summand_count = 0;
     }
 
     #[inline]
-- 
2.43.0

