From 3e7030b93fa1a1b108beab3df564a02f82ee4ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:38 +0000
Subject: [PATCH 01/65] fix: union with a first operand that has states but no
 start state

---
 rustfst/src/algorithms/union/union_static.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/union/union_static.rs b/rustfst/src/algorithms/union/union_static.rs
index 10c8220..012bfcf 100644
--- a/rustfst/src/algorithms/union/union_static.rs
+++ b/rustfst/src/algorithms/union/union_static.rs
@@ -87,8 +87,10 @@ where
 
     let start1 = fst_1.start();
     if start1.is_none() {
-        unsafe { fst_1.set_start_unchecked(start2) };
-        fst_1.set_properties_with_mask(props2, FstProperties::copy_properties());
+        unsafe { fst_1.set_start_unchecked(start2 + numstates1) };
+        if numstates1 == 0 {
+            fst_1.set_properties_with_mask(props2, FstProperties::copy_properties());
+        }
         return Ok(());
     }
     let start1 = unsafe { start1.unsafe_unwrap() };
-- 
2.43.0


From 283933025e67aea9720d49916047434ca402158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:46 +0000
Subject: [PATCH 02/65] fix: del_states reports a nonexistent state as an error
 instead of panicking

---
 rustfst/src/fst_impls/vector_fst/mutable_fst.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
index b7eb7d3..78d899b 100644
--- a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
+++ b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
@@ -133,7 +133,10 @@ impl<W: Semiring> MutableFst<W> for VectorFst<W> {
         let mut new_id = vec![0_i32; self.states.len()];
 
         for s in dstates {
-            new_id[s as usize] = -1;
+            match new_id.get_mut(s as usize) {
+                Some(id) => *id = -1,
+                None => bail!("State id {:?} doesn't exist", s),
+            }
         }
 
         let mut nstates = 0_usize;
-- 
2.43.0


From a0b53ce3e15476f1164c243a6dc7e82fa8405284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:14 +0000
Subject: [PATCH 03/65] fix: depth-first visit skipped every state of a machine
 without a start state, so false structural properties were reported

---
 rustfst/src/algorithms/dfs_visit.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/rustfst/src/algorithms/dfs_visit.rs b/rustfst/src/algorithms/dfs_visit.rs
index d810b21..13b9950 100644
--- a/rustfst/src/algorithms/dfs_visit.rs
+++ b/rustfst/src/algorithms/dfs_visit.rs
@@ -102,13 +102,11 @@ pub fn dfs_visit<'a, W: Semiring, F: ExpandedFst<W>, V: Visitor<'a, W, F>, A: Tr
     access_only: bool,
 ) {
     visitor.init_visit(fst);
-    let start = match fst.start() {
-        None => {
-            visitor.finish_visit();
-            return;
-        }
-        Some(s) => s,
-    };
+    let start = fst.start();
+    if start.is_none() && access_only {
+        visitor.finish_visit();
+        return;
+    }
 
     let nstates = fst.num_states();
     let mut state_color = vec![DfsStateColor::White; nstates];
@@ -116,7 +114,7 @@ pub fn dfs_visit<'a, W: Semiring, F: ExpandedFst<W>, V: Visitor<'a, W, F>, A: Tr
 
     // Continue dfs while true.
     let mut dfs = true;
-    let mut root = start;
+    let mut root = start.unwrap_or(0);
     loop {
         if !dfs || (root as usize) >= nstates {
             break;
@@ -178,7 +176,7 @@ pub fn dfs_visit<'a, W: Semiring, F: ExpandedFst<W>, V: Visitor<'a, W, F>, A: Tr
             break;
         }
 
-        root = if root == start { 0 } else { root + 1 };
+        root = if Some(root) == start { 0 } else { root + 1 };
 
         while (root as usize) < nstates && state_color[root as usize] != DfsStateColor::White {
             root += 1;
-- 
2.43.0


From 2353856f0559daf5b9c553c2ee131f38e2a494ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:14 +0000
Subject: [PATCH 04/65] fix: condense panicked on a machine without a start
 state

---
 rustfst/src/algorithms/condense.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/condense.rs b/rustfst/src/algorithms/condense.rs
index 7a04985..391000e 100644
--- a/rustfst/src/algorithms/condense.rs
+++ b/rustfst/src/algorithms/condense.rs
@@ -27,7 +27,7 @@ pub fn condense<W: Semiring, FI: Fst<W> + ExpandedFst<W>, FO: MutableFst<W>>(
                 let c = c as StateId;
                 let s = s as StateId;
 
-                if s == ifst.start().unwrap() {
+                if Some(s) == ifst.start() {
                     ofst.set_start_unchecked(c);
                 }
                 if let Some(final_weight) = ifst.final_weight_unchecked(s) {
-- 
2.43.0


From 0ccbb075a17e96323e3422eb0fbf848209704f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:14 +0000
Subject: [PATCH 05/65] fix: state_sort left a machine without a start state
 unsorted

---
 rustfst/src/algorithms/state_sort.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/rustfst/src/algorithms/state_sort.rs b/rustfst/src/algorithms/state_sort.rs
index 30e5463..d810768 100644
--- a/rustfst/src/algorithms/state_sort.rs
+++ b/rustfst/src/algorithms/state_sort.rs
@@ -24,20 +24,17 @@ where
         order.len(),
         fst.num_states()
     );
-    if fst.start().is_none() {
-        return Ok(());
-    }
     // TODO: Use properties with mask once available
     let props = fst.properties_with_mask(FstProperties::statesort_properties());
 
-    let start_state = fst.start().unwrap();
-
     let mut done = vec![false; order.len()];
 
-    debug_assert!((start_state as usize) < order.len());
-    debug_assert!((order[start_state as usize] as usize) < fst.num_states());
+    if let Some(start_state) = fst.start() {
+        debug_assert!((start_state as usize) < order.len());
+        debug_assert!((order[start_state as usize] as usize) < fst.num_states());
 
-    fst.set_start(order[start_state as usize])?;
+        fst.set_start(order[start_state as usize])?;
+    }
 
     for mut s1 in fst.states_range() {
         if done[s1 as usize] {
-- 
2.43.0


From bcf23e0d08a639f5ab166607d809ce5f0f268be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:54 +0000
Subject: [PATCH 06/65] fix: fst_convert dropped the transitions and final
 weights of a machine without a start state

---
 rustfst/src/algorithms/fst_convert.rs | 40 +++++++++++++--------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/rustfst/src/algorithms/fst_convert.rs b/rustfst/src/algorithms/fst_convert.rs
index ea96267..8b53645 100644
--- a/rustfst/src/algorithms/fst_convert.rs
+++ b/rustfst/src/algorithms/fst_convert.rs
@@ -16,18 +16,18 @@ where
 
     if let Some(start) = ifst.start() {
         unsafe { ofst.set_start_unchecked(start) };
+    }
 
-        for data in ifst.fst_iter() {
-            unsafe {
-                ofst.reserve_trs_unchecked(data.state_id, data.num_trs);
-            }
-            for tr in data.trs.trs() {
-                unsafe { ofst.add_tr_unchecked(data.state_id, tr.clone()) };
-            }
+    for data in ifst.fst_iter() {
+        unsafe {
+            ofst.reserve_trs_unchecked(data.state_id, data.num_trs);
+        }
+        for tr in data.trs.trs() {
+            unsafe { ofst.add_tr_unchecked(data.state_id, tr.clone()) };
+        }
 
-            if let Some(final_weight) = data.final_weight {
-                unsafe { ofst.set_final_unchecked(data.state_id, final_weight.clone()) };
-            }
+        if let Some(final_weight) = data.final_weight {
+            unsafe { ofst.set_final_unchecked(data.state_id, final_weight.clone()) };
         }
     }
 
@@ -52,18 +52,18 @@ where
 
     if let Some(start) = ifst.start() {
         unsafe { ofst.set_start_unchecked(start) };
+    }
 
-        for fst_iter_data in ifst.fst_into_iter() {
-            unsafe {
-                ofst.reserve_trs_unchecked(fst_iter_data.state_id, fst_iter_data.num_trs);
-            }
-            for tr in fst_iter_data.trs {
-                unsafe { ofst.add_tr_unchecked(fst_iter_data.state_id, tr) }
-            }
+    for fst_iter_data in ifst.fst_into_iter() {
+        unsafe {
+            ofst.reserve_trs_unchecked(fst_iter_data.state_id, fst_iter_data.num_trs);
+        }
+        for tr in fst_iter_data.trs {
+            unsafe { ofst.add_tr_unchecked(fst_iter_data.state_id, tr) }
+        }
 
-            if let Some(w) = fst_iter_data.final_weight {
-                unsafe { ofst.set_final_unchecked(fst_iter_data.state_id, w) };
-            }
+        if let Some(w) = fst_iter_data.final_weight {
+            unsafe { ofst.set_final_unchecked(fst_iter_data.state_id, w) };
         }
     }
 
-- 
2.43.0


From 254554b76634172b6498ae4ff71e4615aa540c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:20 +0000
Subject: [PATCH 07/65] fix: the epsilon mappers reported epsilons for a
 machine without transitions

---
 rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs  | 4 +---
 rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs b/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs
index 136c858..dfa682d 100644
--- a/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs
+++ b/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs
@@ -24,9 +24,7 @@ impl<S: Semiring> TrMapper<S> for InputEpsilonMapper {
     }
 
     fn properties(&self, inprops: FstProperties) -> FstProperties {
-        (inprops & FstProperties::set_arc_properties())
-            | FstProperties::I_EPSILONS
-            | FstProperties::I_LABEL_SORTED
+        (inprops & FstProperties::set_arc_properties()) | FstProperties::I_LABEL_SORTED
     }
 }
 
diff --git a/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs b/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs
index 42e4ac4..73fe89a 100644
--- a/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs
+++ b/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs
@@ -24,9 +24,7 @@ impl<S: Semiring> TrMapper<S> for OutputEpsilonMapper {
     }
 
     fn properties(&self, inprops: FstProperties) -> FstProperties {
-        (inprops & FstProperties::set_arc_properties())
-            | FstProperties::O_EPSILONS
-            | FstProperties::O_LABEL_SORTED
+        (inprops & FstProperties::set_arc_properties()) | FstProperties::O_LABEL_SORTED
     }
 }
 
-- 
2.43.0


From ded8bafaf4f92bbd94959ea7d6fedacafcb7e015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:12 +0000
Subject: [PATCH 08/65] fix: replace reported properties that need not hold (of
 machines never called, of renumbered states)

---
 .../src/fst_properties/mutate_properties.rs   | 25 +++++++------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/rustfst/src/fst_properties/mutate_properties.rs b/rustfst/src/fst_properties/mutate_properties.rs
index 6fff2c0..003157d 100644
--- a/rustfst/src/fst_properties/mutate_properties.rs
+++ b/rustfst/src/fst_properties/mutate_properties.rs
@@ -525,28 +525,21 @@ pub fn replace_properties(
         if inprops[root as usize].contains(FstProperties::INITIAL_CYCLIC) {
             outprops |= FstProperties::INITIAL_CYCLIC;
         }
-        let mut props = FstProperties::empty();
+        // Only the root is known to be used: another machine may never be called. What depends
+        // on the labels of the call transitions or on the state numbering is not preserved.
+        outprops |= (FstProperties::EPSILONS
+            | FstProperties::I_EPSILONS
+            | FstProperties::O_EPSILONS
+            | FstProperties::WEIGHTED
+            | FstProperties::WEIGHTED_CYCLES
+            | FstProperties::CYCLIC)
+            & inprops[root as usize];
         let mut string = true;
         for inprop in inprops {
-            if replace_transducer {
-                props |= FstProperties::NOT_ACCEPTOR & *inprop;
-            }
-            props |= (FstProperties::NOT_I_DETERMINISTIC
-                | FstProperties::NOT_O_DETERMINISTIC
-                | FstProperties::EPSILONS
-                | FstProperties::I_EPSILONS
-                | FstProperties::O_EPSILONS
-                | FstProperties::WEIGHTED
-                | FstProperties::WEIGHTED_CYCLES
-                | FstProperties::CYCLIC
-                | FstProperties::NOT_TOP_SORTED
-                | FstProperties::NOT_STRING)
-                & *inprop;
             if !inprop.contains(FstProperties::STRING) {
                 string = false;
             }
         }
-        outprops |= props;
         if string {
             outprops |= FstProperties::STRING;
         }
-- 
2.43.0


From 39910ef1d997f2d78b488c1ac89c63e241df750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:12 +0000
Subject: [PATCH 09/65] fix: an infinite float weight was not approximately
 equal to itself, so shortest distance over zero weights never ended

---
 rustfst/src/semirings/utils_float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/semirings/utils_float.rs b/rustfst/src/semirings/utils_float.rs
index 0fc9f14..821b1ba 100644
--- a/rustfst/src/semirings/utils_float.rs
+++ b/rustfst/src/semirings/utils_float.rs
@@ -1,3 +1,3 @@
 pub(crate) fn float_approx_equal(w1: f32, w2: f32, delta: f32) -> bool {
-    (w1 - w2).abs() <= delta
+    w1 <= w2 + delta && w2 <= w1 + delta
 }
-- 
2.43.0


From 6301a69f75d52dd17487cd0aed3c13d1a6645774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:12 +0000
Subject: [PATCH 10/65] fix: shortest distance tested the wrong state when
 enqueueing, so states after a self-loop could be left unvisited

---
 rustfst/src/algorithms/shortest_distance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/shortest_distance.rs b/rustfst/src/algorithms/shortest_distance.rs
index 715d16f..5030f5b 100644
--- a/rustfst/src/algorithms/shortest_distance.rs
+++ b/rustfst/src/algorithms/shortest_distance.rs
@@ -221,7 +221,7 @@ impl<W: Semiring, Q: Queue, A: TrFilter<W>> ShortestDistanceState<W, Q, A> {
                     na.plus_assign(&weight)?;
                     *nd = na.clone();
                     nr.plus_assign(&weight)?;
-                    if !self.enqueued[state] {
+                    if !self.enqueued[nextstate] {
                         self.state_queue.enqueue(nextstate as StateId);
                         self.enqueued[nextstate] = true;
                     } else {
-- 
2.43.0


From 82673f953ec8d17c384ef9b5587b0ee702a00513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:58 +0000
Subject: [PATCH 11/65] fix: closure of a log weight was computed as if it were
 a probability

---
 rustfst/src/semirings/log_weight.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/semirings/log_weight.rs b/rustfst/src/semirings/log_weight.rs
index 09ee25d..57cee48 100644
--- a/rustfst/src/semirings/log_weight.rs
+++ b/rustfst/src/semirings/log_weight.rs
@@ -124,8 +124,8 @@ impl CompleteSemiring for LogWeight {}
 
 impl StarSemiring for LogWeight {
     fn closure(&self) -> Self {
-        if self.value.0 >= 0.0 && self.value.0 < 1.0 {
-            Self::new((1.0 - self.value.0).ln())
+        if self.value.0 > 0.0 {
+            Self::new((-(-self.value.0).exp()).ln_1p())
         } else {
             Self::new(f32::NEG_INFINITY)
         }
-- 
2.43.0


From 081137d02d74df27114766db0e910cbac0073b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:58 +0000
Subject: [PATCH 12/65] fix: closure of the tropical zero is one, not minus
 infinity

---
 rustfst/src/semirings/tropical_weight.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/semirings/tropical_weight.rs b/rustfst/src/semirings/tropical_weight.rs
index 13663fa..bfbc062 100644
--- a/rustfst/src/semirings/tropical_weight.rs
+++ b/rustfst/src/semirings/tropical_weight.rs
@@ -116,7 +116,7 @@ impl CompleteSemiring for TropicalWeight {}
 
 impl StarSemiring for TropicalWeight {
     fn closure(&self) -> Self {
-        if self.value.is_sign_positive() && self.value.is_finite() {
+        if self.value.0 >= 0.0 {
             Self::new(0.0)
         } else {
             Self::new(f32::NEG_INFINITY)
-- 
2.43.0


From 08c9f67b9490d73cd2878c4260629e857eee3c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:58 +0000
Subject: [PATCH 13/65] fix: reverse_back of a probability weight was
 unimplemented and panicked

---
 rustfst/src/semirings/probability_weight.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/semirings/probability_weight.rs b/rustfst/src/semirings/probability_weight.rs
index 0591345..5da8a8a 100644
--- a/rustfst/src/semirings/probability_weight.rs
+++ b/rustfst/src/semirings/probability_weight.rs
@@ -84,7 +84,7 @@ impl Semiring for ProbabilityWeight {
 
 impl ReverseBack<ProbabilityWeight> for ProbabilityWeight {
     fn reverse_back(&self) -> Result<ProbabilityWeight> {
-        unimplemented!()
+        Ok(*self)
     }
 }
 
-- 
2.43.0


From 1472623870974f85fa44627d18c123a29e204fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:22 +0000
Subject: [PATCH 14/65] fix: a sigma transition was ignored when the same state
 also had a transition with the matched label

---
 .../compose/matchers/sigma_matcher.rs          | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs b/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs
index 3abcd41..76aacba 100644
--- a/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs
+++ b/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs
@@ -201,19 +201,18 @@ where
         }
 
         let mut find_empty = false;
-        let has_sigma = has_sigma(state, &matcher, sigma_label)?;
+        // Sigma transitions only stand for real labels that are allowed to match.
+        let has_sigma = match_label != EPS_LABEL
+            && match_label != NO_LABEL
+            && is_match_label_allowed(sigma_allowed_matches, match_label)
+            && has_sigma(state, &matcher, sigma_label)?;
 
         let mut matcher_iterator_match_label = matcher.iter(state, match_label)?.peekable();
         let (sigma_match, matcher_iterator) = if matcher_iterator_match_label.peek().is_some() {
             (Some(NO_LABEL), matcher_iterator_match_label)
         } else {
             let mut matcher_iterator_sigma_label = matcher.iter(state, sigma_label)?.peekable();
-            if has_sigma
-                && match_label != EPS_LABEL
-                && match_label != NO_LABEL
-                && is_match_label_allowed(sigma_allowed_matches, match_label)
-                && matcher_iterator_sigma_label.peek().is_some()
-            {
+            if has_sigma && matcher_iterator_sigma_label.peek().is_some() {
                 (Some(match_label), matcher_iterator_sigma_label)
             } else {
                 find_empty = true;
@@ -268,11 +267,10 @@ where
     }
 
     pub fn next_openfst(&mut self) {
-        let r = self.matcher_iterator.next();
-        if r.is_none()
+        self.matcher_iterator.next();
+        if self.matcher_iterator.peek().is_none()
             && self.has_sigma
             && self.sigma_match.unwrap() == NO_LABEL
-            && self.match_label > 0
         {
             self.matcher_iterator = self
                 .matcher
-- 
2.43.0


From 3507bc467f985ad7ea2d63885d04059d24656b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:58 +0000
Subject: [PATCH 15/65] fix: determinization kept one weighted subset as
 several states, depending on hash order

---
 .../src/algorithms/determinize/determinize_fsa_op.rs   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rustfst/src/algorithms/determinize/determinize_fsa_op.rs b/rustfst/src/algorithms/determinize/determinize_fsa_op.rs
index c137f1a..68fd544 100644
--- a/rustfst/src/algorithms/determinize/determinize_fsa_op.rs
+++ b/rustfst/src/algorithms/determinize/determinize_fsa_op.rs
@@ -1,7 +1,6 @@
 use std::borrow::Borrow;
 use std::collections::btree_map::Entry as EntryBTreeMap;
-use std::collections::hash_map::Entry as EntryHashMap;
-use std::collections::{BTreeMap, HashMap};
+use std::collections::BTreeMap;
 use std::fmt::Debug;
 use std::marker::PhantomData;
 use std::sync::Arc;
@@ -155,13 +154,14 @@ where
             det_tr.weight = CD::common_divisor(&det_tr.weight, &dest_elt.weight)?;
         }
 
-        let mut new_pairs = HashMap::new();
+        // Ordered by state so that equal subsets are recognized as such.
+        let mut new_pairs = BTreeMap::new();
         for x in &mut det_tr.dest_tuple.subset.pairs {
             match new_pairs.entry(x.state) {
-                EntryHashMap::Vacant(e) => {
+                EntryBTreeMap::Vacant(e) => {
                     e.insert(x.clone());
                 }
-                EntryHashMap::Occupied(mut e) => {
+                EntryBTreeMap::Occupied(mut e) => {
                     e.get_mut().weight.plus_assign(&x.weight)?;
                 }
             };
-- 
2.43.0


From 2e48ba97b71061289d10cf082a22ee649fe4df71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:53 +0000
Subject: [PATCH 16/65] fix: mapping the transitions of a machine without a
 start state did nothing, so minimizing a weighted one failed

---
 rustfst/src/algorithms/tr_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/tr_map.rs b/rustfst/src/algorithms/tr_map.rs
index f4dd82b..9c2c673 100644
--- a/rustfst/src/algorithms/tr_map.rs
+++ b/rustfst/src/algorithms/tr_map.rs
@@ -81,7 +81,7 @@ where
     F: MutableFst<W>,
     M: TrMapper<W>,
 {
-    if ifst.start().is_none() {
+    if ifst.num_states() == 0 {
         return Ok(());
     }
 
-- 
2.43.0


From ca691330dc61c89f37c0b241295c5e85f36f5d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:31 +0000
Subject: [PATCH 17/65] fix: cyclic minimization told states apart by the order
 of their transitions

---
 rustfst/src/algorithms/minimize.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rustfst/src/algorithms/minimize.rs b/rustfst/src/algorithms/minimize.rs
index 05e0e3a..ea9d374 100644
--- a/rustfst/src/algorithms/minimize.rs
+++ b/rustfst/src/algorithms/minimize.rs
@@ -486,6 +486,7 @@ fn pre_partition<W: Semiring, F: MutableFst<W>>(
                 .trs()
                 .iter()
                 .map(|e| e.ilabel)
+                .sorted()
                 .dedup()
                 .collect_vec();
 
-- 
2.43.0


From 3267d3b40b0b91ca70a92859abcceb2eeccd55e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:55 +0000
Subject: [PATCH 18/65] fix: minimizing a cyclic non-deterministic acceptor
 could change its language

---
 rustfst/src/algorithms/minimize.rs | 78 ++++++++++++++++++------------
 1 file changed, 47 insertions(+), 31 deletions(-)

diff --git a/rustfst/src/algorithms/minimize.rs b/rustfst/src/algorithms/minimize.rs
index ea9d374..301256b 100644
--- a/rustfst/src/algorithms/minimize.rs
+++ b/rustfst/src/algorithms/minimize.rs
@@ -515,6 +515,9 @@ fn pre_partition<W: Semiring, F: MutableFst<W>>(
 
 fn cyclic_minimize<W: Semiring, F: MutableFst<W>>(fst: &mut F) -> Result<Rc<RefCell<Partition>>> {
     // Initialize
+    let deterministic = fst
+        .compute_and_update_properties(FstProperties::I_DETERMINISTIC)?
+        .contains(FstProperties::I_DETERMINISTIC);
     let mut tr: VectorFst<W::ReverseWeight> = reverse(fst)?;
     tr_sort(&mut tr, ILabelCompare {});
 
@@ -533,42 +536,55 @@ fn cyclic_minimize<W: Semiring, F: MutableFst<W>>(fst: &mut F) -> Result<Rc<RefC
     });
 
     // Compute
-    while let Some(c) = queue.dequeue() {
-        // Split
-        for s in partition.borrow().iter(c as usize) {
-            if tr.num_trs(s as StateId + 1)? > 0 {
-                aiter_queue.push(TrsIterCollected {
-                    idx: 0,
-                    trs: tr.get_trs(s as StateId + 1)?,
-                    w: PhantomData,
-                });
+    loop {
+        let num_classes = partition.borrow().num_classes();
+
+        while let Some(c) = queue.dequeue() {
+            // Split
+            for s in partition.borrow().iter(c as usize) {
+                if tr.num_trs(s as StateId + 1)? > 0 {
+                    aiter_queue.push(TrsIterCollected {
+                        idx: 0,
+                        trs: tr.get_trs(s as StateId + 1)?,
+                        w: PhantomData,
+                    });
+                }
             }
-        }
 
-        let mut prev_label = -1;
-        while !aiter_queue.is_empty() {
-            let mut aiter = aiter_queue.pop().unwrap();
-            if aiter.done() {
-                continue;
-            }
-            let tr = aiter.value().unwrap();
-            let from_state = tr.nextstate - 1;
-            let from_label = tr.ilabel;
-            if prev_label != from_label as i32 {
-                partition.borrow_mut().finalize_split(&mut Some(&mut queue));
-            }
-            let from_class = partition.borrow().get_class_id(from_state as usize);
-            if partition.borrow().get_class_size(from_class) > 1 {
-                partition.borrow_mut().split_on(from_state as usize);
-            }
-            prev_label = from_label as i32;
-            aiter.next();
-            if !aiter.done() {
-                aiter_queue.push(aiter);
+            let mut prev_label = -1;
+            while !aiter_queue.is_empty() {
+                let mut aiter = aiter_queue.pop().unwrap();
+                if aiter.done() {
+                    continue;
+                }
+                let tr = aiter.value().unwrap();
+                let from_state = tr.nextstate - 1;
+                let from_label = tr.ilabel;
+                if prev_label != from_label as i32 {
+                    partition.borrow_mut().finalize_split(&mut Some(&mut queue));
+                }
+                let from_class = partition.borrow().get_class_id(from_state as usize);
+                if partition.borrow().get_class_size(from_class) > 1 {
+                    partition.borrow_mut().split_on(from_state as usize);
+                }
+                prev_label = from_label as i32;
+                aiter.next();
+                if !aiter.done() {
+                    aiter_queue.push(aiter);
+                }
             }
+
+            partition.borrow_mut().finalize_split(&mut Some(&mut queue));
         }
 
-        partition.borrow_mut().finalize_split(&mut Some(&mut queue));
+        // Splitting on one half of a class only is enough for a deterministic machine. Otherwise
+        // iterate until splitting on every class changes nothing.
+        if deterministic || partition.borrow().num_classes() == num_classes {
+            break;
+        }
+        for c in 0..partition.borrow().num_classes() {
+            queue.enqueue(c as StateId);
+        }
     }
 
     // Get Partition
-- 
2.43.0


From ac13dcba2f8983345473fef01da31c9a269868ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:05 +0000
Subject: [PATCH 19/65] fix: push: common affix removal on an FST without
 successful path

---
 rustfst/src/algorithms/push.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rustfst/src/algorithms/push.rs b/rustfst/src/algorithms/push.rs
index cfdf649..d8b9218 100644
--- a/rustfst/src/algorithms/push.rs
+++ b/rustfst/src/algorithms/push.rs
@@ -203,11 +203,14 @@ macro_rules! m_labels_pushing {
                 &gdistance,
                 $reweight_type == ReweightType::ReweightToInitial,
             )?;
-            if !$push_type.intersects(PushType::REMOVE_COMMON_AFFIX) {
-                total_weight.set_value1($string_weight::one());
-            }
-            if !$push_type.intersects(PushType::REMOVE_TOTAL_WEIGHT) {
-                total_weight.set_value2(W::one());
+            // An FST without successful path has neither common affix nor total weight to remove.
+            if !total_weight.is_zero() {
+                if !$push_type.intersects(PushType::REMOVE_COMMON_AFFIX) {
+                    total_weight.set_value1($string_weight::one());
+                }
+                if !$push_type.intersects(PushType::REMOVE_TOTAL_WEIGHT) {
+                    total_weight.set_value2(W::one());
+                }
             }
             reweight(&mut gfst, gdistance.as_slice(), $reweight_type)?;
             remove_weight(
-- 
2.43.0


From ddd3500e1c75f9ad342efdb2a8c75d28534009fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:39 +0000
Subject: [PATCH 20/65] fix: pushing weights towards the final states
 multiplies the final weight on the right

---
 rustfst/src/algorithms/reweight.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/reweight.rs b/rustfst/src/algorithms/reweight.rs
index 820ed9f..151e7c9 100644
--- a/rustfst/src/algorithms/reweight.rs
+++ b/rustfst/src/algorithms/reweight.rs
@@ -87,7 +87,7 @@ where
 
             match reweight_type {
                 ReweightType::ReweightToFinal => {
-                    final_weight.times_assign(d_s)?;
+                    final_weight = d_s.times(&final_weight)?;
                 }
                 ReweightType::ReweightToInitial => {
                     if d_s.is_zero() {
-- 
2.43.0


From 86ced1c8a941959748f433aae8d0fce9b31d26cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:51 +0000
Subject: [PATCH 21/65] fix: rm_final_epsilon multiplies weights in path order

---
 rustfst/src/algorithms/rm_final_epsilon.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rustfst/src/algorithms/rm_final_epsilon.rs b/rustfst/src/algorithms/rm_final_epsilon.rs
index e8f1f83..2a55869 100644
--- a/rustfst/src/algorithms/rm_final_epsilon.rs
+++ b/rustfst/src/algorithms/rm_final_epsilon.rs
@@ -52,9 +52,8 @@ where
                             ifst.final_weight_unchecked(state).unwrap_or_else(W::zero)
                         })
                         .plus_assign(
-                            ifst.final_weight_unchecked(tr.nextstate)
-                                .unsafe_unwrap()
-                                .times(&tr.weight)?,
+                            tr.weight
+                                .times(ifst.final_weight_unchecked(tr.nextstate).unsafe_unwrap())?,
                         )?
                 };
                 trs_to_del.push(idx);
-- 
2.43.0


From 73d01f83ace4db8e26acfd7a928b66c81764785b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:15 +0000
Subject: [PATCH 22/65] fix: tr_unique removes identical transitions separated
 by a different weight

---
 rustfst/src/fst_impls/vector_fst/mutable_fst.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
index 78d899b..d1a7e5b 100644
--- a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
+++ b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
@@ -362,7 +362,20 @@ impl<W: Semiring> MutableFst<W> for VectorFst<W> {
         let state = &mut self.states.get_unchecked_mut(state as usize);
         let trs_vec = Arc::make_mut(&mut state.trs.0);
         trs_vec.sort_by(tr_compare);
-        trs_vec.dedup();
+        // Identical trs may be separated by trs that only differ in their weight.
+        let mut n_trs: usize = 0;
+        for i in 0..trs_vec.len() {
+            let duplicate = trs_vec[..n_trs]
+                .iter()
+                .rev()
+                .take_while(|tr| equal_tr(tr, &trs_vec[i]))
+                .any(|tr| *tr == trs_vec[i]);
+            if !duplicate {
+                trs_vec.swap(i, n_trs);
+                n_trs += 1;
+            }
+        }
+        trs_vec.truncate(n_trs);
 
         // There might be a better way to do this
         if state.niepsilons != 0 || state.noepsilons != 0 {
-- 
2.43.0


From cfd3e748f26af66c5b32ad4ec06d003afd577be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:19 +0000
Subject: [PATCH 23/65] fix: decoding leaves epsilon transitions added after
 encoding alone

---
 rustfst/src/algorithms/encode/decode_static.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/encode/decode_static.rs b/rustfst/src/algorithms/encode/decode_static.rs
index 58bcf59..0e9fa43 100644
--- a/rustfst/src/algorithms/encode/decode_static.rs
+++ b/rustfst/src/algorithms/encode/decode_static.rs
@@ -4,7 +4,7 @@ use crate::algorithms::{encode::EncodeTable, rm_final_epsilon};
 use crate::algorithms::{FinalTr, MapFinalAction, TrMapper};
 use crate::fst_properties::FstProperties;
 use crate::fst_traits::MutableFst;
-use crate::{Semiring, Tr};
+use crate::{Semiring, Tr, EPS_LABEL};
 
 struct DecodeMapper<W: Semiring> {
     encode_table: EncodeTable<W>,
@@ -26,6 +26,10 @@ impl<W: Semiring> DecodeMapper<W> {
 
 impl<W: Semiring> TrMapper<W> for DecodeMapper<W> {
     fn tr_map(&self, tr: &mut Tr<W>) -> Result<()> {
+        // Codes start at 1: an epsilon was added after the encoding and stays as is.
+        if tr.ilabel == EPS_LABEL {
+            return Ok(());
+        }
         let tuple = self
             .encode_table
             .0
-- 
2.43.0


From 5a1ea14b4bddf85d4e525e3f1f66a243daf063ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:48 +0000
Subject: [PATCH 24/65] fix: the text format starts with the start state even
 when no transition leaves it

---
 rustfst/src/fst_traits/macros.rs | 33 +++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/rustfst/src/fst_traits/macros.rs b/rustfst/src/fst_traits/macros.rs
index 8b90c9e..78e324f 100644
--- a/rustfst/src/fst_traits/macros.rs
+++ b/rustfst/src/fst_traits/macros.rs
@@ -43,12 +43,36 @@ macro_rules! display_single_state {
     };
 }
 
+macro_rules! display_final_state {
+    ($state_id:expr, $final_weight:expr, $f: expr, $show_weight_one: expr) => {
+        if $final_weight.is_one() && !$show_weight_one {
+            writeln!($f, "{}", &$state_id)?;
+        } else {
+            writeln!($f, "{}\t{}", &$state_id, &$final_weight)?;
+        }
+    };
+}
+
 macro_rules! write_fst {
     ($fst:expr, $f:expr, $show_weight_one: expr, $use_symt: expr) => {
         if let Some(start_state) = $fst.start() {
             // Firstly print the trs leaving the start state
             display_single_state!($fst, start_state, $f, $show_weight_one, $use_symt);
 
+            // The first line identifies the start state, even when no tr leaves it
+            let start_on_own_line = unsafe { $fst.num_trs_unchecked(start_state) } == 0;
+            if start_on_own_line {
+                match unsafe { $fst.final_weight_unchecked(start_state) } {
+                    Some(final_weight) => display_final_state!(
+                        start_state,
+                        final_weight,
+                        $f,
+                        $show_weight_one
+                    ),
+                    None => writeln!($f, "{}\tInfinity", &start_state)?,
+                }
+            }
+
             // Secondly, print the trs leaving all the other states
             for state_id in $fst.states_iter() {
                 if state_id != start_state {
@@ -58,13 +82,12 @@ macro_rules! write_fst {
 
             // Finally, print the final states with their weight
             for final_state in $fst.final_states_iter() {
+                if start_on_own_line && final_state == start_state {
+                    continue;
+                }
                 let final_weight =
                     unsafe { $fst.final_weight_unchecked(final_state).unsafe_unwrap() };
-                if final_weight.is_one() && !$show_weight_one {
-                    writeln!($f, "{}", &final_state)?;
-                } else {
-                    writeln!($f, "{}\t{}", &final_state, &final_weight)?;
-                }
+                display_final_state!(final_state, final_weight, $f, $show_weight_one);
             }
         }
     };
-- 
2.43.0


From 389bc7224e64170a8a08dbc26098bbeab7436d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 25/65] fix: the last line of a textual symbol table counts
 even without a line break

---
 rustfst/src/parsers/text_symt/nom_parser.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rustfst/src/parsers/text_symt/nom_parser.rs b/rustfst/src/parsers/text_symt/nom_parser.rs
index 6d73061..76d7243 100644
--- a/rustfst/src/parsers/text_symt/nom_parser.rs
+++ b/rustfst/src/parsers/text_symt/nom_parser.rs
@@ -1,7 +1,6 @@
 use nom::bytes::complete::tag;
 use nom::character::complete::space1;
-use nom::multi::many0;
-use nom::sequence::terminated;
+use nom::multi::separated_list0;
 use nom::IResult;
 
 use crate::parsers::nom_utils::{num, word};
@@ -16,7 +15,7 @@ fn row(i: &str) -> IResult<&str, (Symbol, Label)> {
 }
 
 fn vec_rows(i: &str) -> IResult<&str, Vec<(Symbol, Label)>> {
-    many0(terminated(row, tag("\n")))(i)
+    separated_list0(tag("\n"), row)(i)
 }
 
 pub(crate) fn parse_text_symt(i: &str) -> IResult<&str, ParsedTextSymt> {
-- 
2.43.0


From c03330f2a766f1cc9e7a12af24d06c7c6e269cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:20 +0000
Subject: [PATCH 26/65] fix: a composite final weight starting with Infinity is
 read from text

---
 rustfst/src/parsers/text_fst/nom_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/parsers/text_fst/nom_parser.rs b/rustfst/src/parsers/text_fst/nom_parser.rs
index ac58e23..1d8b740 100644
--- a/rustfst/src/parsers/text_fst/nom_parser.rs
+++ b/rustfst/src/parsers/text_fst/nom_parser.rs
@@ -1,7 +1,7 @@
 use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::character::complete::tab;
-use nom::combinator::opt;
+use nom::combinator::{eof, opt, peek};
 use nom::multi::separated_list0;
 use nom::sequence::preceded;
 use nom::IResult;
@@ -46,6 +46,8 @@ fn infinity_final_state<W: SerializableSemiring>(i: &str) -> IResult<&str, RowPa
     let (i, state) = num(i)?;
     let (i, _) = tab(i)?;
     let (i, _) = tag("Infinity")(i)?;
+    // Composite weights might also start with an infinite component.
+    let (i, _) = peek(alt((tag("\n"), eof)))(i)?;
     Ok((i, RowParsed::InfinityFinalState(state)))
 }
 
-- 
2.43.0


From f5d179d3b06d048f8bda10107b800569aad73f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:50 +0000
Subject: [PATCH 27/65] fix: binary FST header with non UTF-8 type names is an
 error, not a panic

---
 rustfst/src/parsers/bin_fst/fst_header.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/rustfst/src/parsers/bin_fst/fst_header.rs b/rustfst/src/parsers/bin_fst/fst_header.rs
index 7a9ddae..1ca58e8 100644
--- a/rustfst/src/parsers/bin_fst/fst_header.rs
+++ b/rustfst/src/parsers/bin_fst/fst_header.rs
@@ -146,14 +146,8 @@ impl OpenFstString {
     }
     pub(crate) fn parse(i: &[u8]) -> IResult<&[u8], OpenFstString, NomCustomError<&[u8]>> {
         let (i, n) = parse_bin_i32(i)?;
-        let (i, s) = take(n as usize)(i)?;
-        Ok((
-            i,
-            OpenFstString {
-                n,
-                s: String::from_utf8(s.to_vec()).unwrap(),
-            },
-        ))
+        let (i, s) = map_res(take(n as usize), |s: &[u8]| String::from_utf8(s.to_vec()))(i)?;
+        Ok((i, OpenFstString { n, s }))
     }
 
     pub(crate) fn write<W: Write>(&self, file: &mut W) -> Result<()> {
-- 
2.43.0


From 7a4fe143b395f7fd7910aeb4181ddd102be7a105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:08 +0000
Subject: [PATCH 28/65] fix: binary FST loaders reject states and transitions
 that do not exist

---
 .../fst_impls/const_fst/serializable_fst.rs   | 17 +++++++++---
 .../src/fst_impls/vector_fst/parse_const.rs   | 24 ++++++++---------
 .../fst_impls/vector_fst/serializable_fst.rs  |  8 ++++--
 rustfst/src/parsers/bin_fst/utils_parsing.rs  | 27 +++++++++++++++++++
 4 files changed, 59 insertions(+), 17 deletions(-)

diff --git a/rustfst/src/fst_impls/const_fst/serializable_fst.rs b/rustfst/src/fst_impls/const_fst/serializable_fst.rs
index da7fde4..1c4ba8f 100644
--- a/rustfst/src/fst_impls/const_fst/serializable_fst.rs
+++ b/rustfst/src/fst_impls/const_fst/serializable_fst.rs
@@ -16,7 +16,8 @@ use crate::fst_properties::FstProperties;
 use crate::fst_traits::{ExpandedFst, Fst, SerializableFst};
 use crate::parsers::bin_fst::fst_header::{FstFlags, FstHeader, OpenFstString, FST_MAGIC_NUMBER};
 use crate::parsers::bin_fst::utils_parsing::{
-    parse_bin_fst_tr, parse_final_weight, parse_start_state,
+    parse_bin_fst_tr, parse_final_weight, parse_start_state, verify_fst, verify_start_state,
+    verify_trs,
 };
 use crate::parsers::nom_utils::NomCustomError;
 use crate::parsers::parse_bin_i32;
@@ -214,14 +215,24 @@ fn parse_const_fst<W: SerializableSemiring>(
     if aligned && hdr.num_states > 0 && pos % CONST_ARCH_ALIGNMENT > 0 {
         i = take(CONST_ARCH_ALIGNMENT - (pos % CONST_ARCH_ALIGNMENT))(i)?.0;
     }
-    let (mut i, const_states) = count(parse_const_state, hdr.num_states as usize)(i)?;
+    let (mut i, mut const_states) = count(parse_const_state::<W>, hdr.num_states as usize)(i)?;
     let pos = stream_len - i.len();
 
     // Align input
     if aligned && hdr.num_trs > 0 && pos % CONST_ARCH_ALIGNMENT > 0 {
         i = take(CONST_ARCH_ALIGNMENT - (pos % CONST_ARCH_ALIGNMENT))(i)?.0;
     }
-    let (i, const_trs) = count(parse_bin_fst_tr, hdr.num_trs as usize)(i)?;
+    let (i, const_trs) = count(parse_bin_fst_tr::<W>, hdr.num_trs as usize)(i)?;
+    let (i, _) = verify_start_state(i, hdr.start, const_states.len())?;
+    let (mut i, _) = verify_trs(i, &const_trs, const_states.len())?;
+    for state in &mut const_states {
+        let end = state.pos.checked_add(state.ntrs);
+        let trs = end.and_then(|end| const_trs.get(state.pos..end));
+        i = verify_fst(i, trs.is_some())?.0;
+        let trs = trs.unwrap_or(&[]);
+        state.niepsilons = trs.iter().filter(|t| t.ilabel == EPS_LABEL).count();
+        state.noepsilons = trs.iter().filter(|t| t.olabel == EPS_LABEL).count();
+    }
 
     Ok((
         i,
diff --git a/rustfst/src/fst_impls/vector_fst/parse_const.rs b/rustfst/src/fst_impls/vector_fst/parse_const.rs
index e5ca2e9..e90fee1 100644
--- a/rustfst/src/fst_impls/vector_fst/parse_const.rs
+++ b/rustfst/src/fst_impls/vector_fst/parse_const.rs
@@ -17,11 +17,11 @@ use crate::fst_properties::FstProperties;
 use crate::fst_traits::SerializableFst;
 use crate::parsers::bin_fst::fst_header::FstHeader;
 use crate::parsers::bin_fst::utils_parsing::{
-    parse_bin_fst_tr, parse_final_weight, parse_start_state,
+    parse_bin_fst_tr, parse_final_weight, parse_start_state, verify_start_state, verify_trs,
 };
 use crate::parsers::nom_utils::NomCustomError;
 use crate::semirings::SerializableSemiring;
-use crate::{Tr, TrsVec};
+use crate::{Tr, TrsVec, EPS_LABEL};
 
 impl<W: SerializableSemiring> VectorFst<W> {
     /// Load a VectorFst directly from a ConstFst file.
@@ -43,8 +43,6 @@ impl<W: SerializableSemiring> VectorFst<W> {
 struct TempState<W> {
     final_weight: Option<W>,
     ntrs: usize,
-    niepsilons: usize,
-    noepsilons: usize,
 }
 
 fn parse_const_state<W: SerializableSemiring>(
@@ -53,16 +51,14 @@ fn parse_const_state<W: SerializableSemiring>(
     let (i, final_weight) = W::parse_binary(i)?;
     let (i, _pos) = le_i32(i)?;
     let (i, ntrs) = le_i32(i)?;
-    let (i, niepsilons) = le_i32(i)?;
-    let (i, noepsilons) = le_i32(i)?;
+    let (i, _niepsilons) = le_i32(i)?;
+    let (i, _noepsilons) = le_i32(i)?;
 
     Ok((
         i,
         TempState {
             final_weight: parse_final_weight(final_weight),
             ntrs: ntrs as usize,
-            niepsilons: niepsilons as usize,
-            noepsilons: noepsilons as usize,
         },
     ))
 }
@@ -94,15 +90,19 @@ fn parse_const_fst<W: SerializableSemiring>(
         i = take(CONST_ARCH_ALIGNMENT - (pos % CONST_ARCH_ALIGNMENT))(i)?.0;
     }
 
-    let mut vector_states = Vec::with_capacity(temp_states.len());
+    let num_states = temp_states.len();
+    i = verify_start_state(i, hdr.start, num_states)?.0;
+    let mut vector_states = Vec::with_capacity(num_states);
     for temp_state in temp_states {
         let (j, trs) = count(parse_bin_fst_tr, temp_state.ntrs)(i)?;
-        i = j;
+        i = verify_trs(j, &trs, num_states)?.0;
+        let niepsilons = trs.iter().filter(|t| t.ilabel == EPS_LABEL).count();
+        let noepsilons = trs.iter().filter(|t| t.olabel == EPS_LABEL).count();
         vector_states.push(VectorFstState {
             final_weight: temp_state.final_weight,
             trs: TrsVec(Arc::new(trs)),
-            niepsilons: temp_state.niepsilons,
-            noepsilons: temp_state.noepsilons,
+            niepsilons,
+            noepsilons,
         });
     }
 
diff --git a/rustfst/src/fst_impls/vector_fst/serializable_fst.rs b/rustfst/src/fst_impls/vector_fst/serializable_fst.rs
index 1ca8e1f..56df1b1 100644
--- a/rustfst/src/fst_impls/vector_fst/serializable_fst.rs
+++ b/rustfst/src/fst_impls/vector_fst/serializable_fst.rs
@@ -12,7 +12,7 @@ use crate::fst_properties::FstProperties;
 use crate::fst_traits::{CoreFst, ExpandedFst, Fst, MutableFst, SerializableFst};
 use crate::parsers::bin_fst::fst_header::{FstFlags, FstHeader, OpenFstString, FST_MAGIC_NUMBER};
 use crate::parsers::bin_fst::utils_parsing::{
-    parse_bin_fst_tr, parse_final_weight, parse_start_state,
+    parse_bin_fst_tr, parse_final_weight, parse_start_state, verify_start_state, verify_trs,
 };
 use crate::parsers::bin_fst::utils_serialization::write_bin_fst_tr;
 use crate::parsers::nom_utils::NomCustomError;
@@ -154,7 +154,11 @@ fn parse_vector_fst<W: SerializableSemiring>(
         VectorFst::<W>::fst_type(),
         Tr::<W>::tr_type(),
     )?;
-    let (i, states) = count(parse_vector_fst_state, header.num_states as usize)(i)?;
+    let (i, states) = count(parse_vector_fst_state::<W>, header.num_states as usize)(i)?;
+    let (mut i, _) = verify_start_state(i, header.start, states.len())?;
+    for state in &states {
+        i = verify_trs(i, state.trs.trs(), states.len())?.0;
+    }
     Ok((
         i,
         VectorFst {
diff --git a/rustfst/src/parsers/bin_fst/utils_parsing.rs b/rustfst/src/parsers/bin_fst/utils_parsing.rs
index a0c7d76..c15d365 100644
--- a/rustfst/src/parsers/bin_fst/utils_parsing.rs
+++ b/rustfst/src/parsers/bin_fst/utils_parsing.rs
@@ -1,3 +1,4 @@
+use nom::error::ErrorKind;
 use nom::number::complete::le_i32;
 use nom::IResult;
 
@@ -14,6 +15,32 @@ pub(crate) fn parse_start_state(s: i64) -> Option<StateId> {
     }
 }
 
+pub(crate) fn verify_fst(i: &[u8], valid: bool) -> IResult<&[u8], (), NomCustomError<&[u8]>> {
+    if valid {
+        Ok((i, ()))
+    } else {
+        Err(nom::Err::Error(NomCustomError::Nom(i, ErrorKind::Verify)))
+    }
+}
+
+/// The start state of a serialized Fst is either `-1` or one of its states.
+pub(crate) fn verify_start_state(
+    i: &[u8],
+    start: i64,
+    num_states: usize,
+) -> IResult<&[u8], (), NomCustomError<&[u8]>> {
+    verify_fst(i, start == -1 || (start >= 0 && start < num_states as i64))
+}
+
+/// All the transitions of a serialized Fst reach one of its states.
+pub(crate) fn verify_trs<'a, W: SerializableSemiring>(
+    i: &'a [u8],
+    trs: &[Tr<W>],
+    num_states: usize,
+) -> IResult<&'a [u8], (), NomCustomError<&'a [u8]>> {
+    verify_fst(i, trs.iter().all(|tr| (tr.nextstate as usize) < num_states))
+}
+
 #[inline]
 pub(crate) fn parse_final_weight<W: SerializableSemiring>(weight: W) -> Option<W> {
     // TODO: Avoid this re-allocation
-- 
2.43.0


From 1b7ed3f0a3b00a342e8308ce776c84b78b81bef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:20 +0000
Subject: [PATCH 29/65] fix: text FSTs and symbol tables with an invalid row
 are rejected

---
 rustfst/src/parsers/text_fst/parsed_text_fst.rs   | 5 ++++-
 rustfst/src/parsers/text_symt/parsed_text_symt.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/parsers/text_fst/parsed_text_fst.rs b/rustfst/src/parsers/text_fst/parsed_text_fst.rs
index 4c88236..1c39fc2 100644
--- a/rustfst/src/parsers/text_fst/parsed_text_fst.rs
+++ b/rustfst/src/parsers/text_fst/parsed_text_fst.rs
@@ -85,8 +85,11 @@ impl<W: SerializableSemiring> ParsedTextFst<W> {
     /// 3   0.67
     /// ```
     pub fn from_string(fst_string: &str) -> Result<Self> {
-        let (_, vec_rows_parsed) =
+        let (rest, vec_rows_parsed) =
             vec_rows_parsed(fst_string).map_err(|_| format_err!("Error while parsing text fst"))?;
+        if !rest.trim().is_empty() {
+            bail!("Error while parsing text fst : invalid row")
+        }
 
         Ok(Self::from_vec_rows_parsed(vec_rows_parsed))
     }
diff --git a/rustfst/src/parsers/text_symt/parsed_text_symt.rs b/rustfst/src/parsers/text_symt/parsed_text_symt.rs
index 73a8b5c..5863037 100644
--- a/rustfst/src/parsers/text_symt/parsed_text_symt.rs
+++ b/rustfst/src/parsers/text_symt/parsed_text_symt.rs
@@ -13,8 +13,11 @@ pub(crate) struct ParsedTextSymt {
 
 impl ParsedTextSymt {
     pub(crate) fn from_string(symt_string: &str) -> Result<Self> {
-        let (_, parsed_symt) = parse_text_symt(symt_string)
+        let (rest, parsed_symt) = parse_text_symt(symt_string)
             .map_err(|_| format_err!("Error while parsing text symt"))?;
+        if !rest.trim().is_empty() {
+            bail!("Error while parsing text symt : invalid row")
+        }
         Ok(parsed_symt)
     }
 
-- 
2.43.0


From 93236b1cc4dfccd8bac63db095e4d135d753042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:06 +0000
Subject: [PATCH 30/65] fix: on-demand FSTs expand a state when asked for its
 transition counts

---
 rustfst/src/algorithms/lazy/lazy_fst.rs   | 34 +++++++++++++++--------
 rustfst/src/algorithms/lazy/lazy_fst_2.rs | 34 +++++++++++++++--------
 2 files changed, 46 insertions(+), 22 deletions(-)

diff --git a/rustfst/src/algorithms/lazy/lazy_fst.rs b/rustfst/src/algorithms/lazy/lazy_fst.rs
index 60b0778..3a71371 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst.rs
@@ -18,7 +18,7 @@ use crate::fst_traits::{
     AllocableFst, CoreFst, Fst, FstIterData, FstIterator, MutableFst, StateIterator,
 };
 use crate::semirings::{Semiring, SerializableSemiring};
-use crate::{StateId, SymbolTable, Trs, TrsVec};
+use crate::{StateId, SymbolTable, Trs, TrsVec, EPS_LABEL};
 
 #[derive(Debug, Clone)]
 pub struct LazyFst<W: Semiring, Op: FstOp<W>, Cache> {
@@ -61,13 +61,15 @@ impl<W: Semiring, Op: FstOp<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst<W, Op
     }
 
     fn num_trs(&self, s: StateId) -> Result<usize> {
-        self.cache
-            .num_trs(s)
-            .ok_or_else(|| format_err!("State {:?} doesn't exist", s))
+        match self.cache.num_trs(s) {
+            Some(n) => Ok(n),
+            // The state has not been expanded yet.
+            None => Ok(self.get_trs(s)?.len()),
+        }
     }
 
     unsafe fn num_trs_unchecked(&self, s: StateId) -> usize {
-        self.cache.num_trs(s).unsafe_unwrap()
+        self.num_trs(s).unsafe_unwrap()
     }
 
     fn get_trs(&self, state_id: StateId) -> Result<Self::TRS> {
@@ -90,15 +92,25 @@ impl<W: Semiring, Op: FstOp<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst<W, Op
     }
 
     fn num_input_epsilons(&self, state: StateId) -> Result<usize> {
-        self.cache
-            .num_input_epsilons(state)
-            .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
+        match self.cache.num_input_epsilons(state) {
+            Some(n) => Ok(n),
+            // The state has not been expanded yet.
+            None => {
+                let trs = self.get_trs(state)?;
+                Ok(trs.trs().iter().filter(|tr| tr.ilabel == EPS_LABEL).count())
+            }
+        }
     }
 
     fn num_output_epsilons(&self, state: StateId) -> Result<usize> {
-        self.cache
-            .num_output_epsilons(state)
-            .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
+        match self.cache.num_output_epsilons(state) {
+            Some(n) => Ok(n),
+            // The state has not been expanded yet.
+            None => {
+                let trs = self.get_trs(state)?;
+                Ok(trs.trs().iter().filter(|tr| tr.olabel == EPS_LABEL).count())
+            }
+        }
     }
 }
 
diff --git a/rustfst/src/algorithms/lazy/lazy_fst_2.rs b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
index 853f34e..0b379f7 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst_2.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
@@ -11,7 +11,7 @@ use crate::algorithms::lazy::{CacheStatus, FstCache};
 use crate::fst_properties::FstProperties;
 use crate::fst_traits::{CoreFst, Fst, FstIterData, FstIterator, MutableFst, StateIterator};
 use crate::semirings::Semiring;
-use crate::{StateId, SymbolTable, Trs, TrsVec};
+use crate::{StateId, SymbolTable, Trs, TrsVec, EPS_LABEL};
 use std::collections::{HashSet, VecDeque};
 
 #[derive(Debug)]
@@ -56,13 +56,15 @@ impl<W: Semiring, Op: FstOp2<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst2<W,
     }
 
     fn num_trs(&self, s: StateId) -> Result<usize> {
-        self.cache
-            .num_trs(s)
-            .ok_or_else(|| format_err!("State {:?} doesn't exist", s))
+        match self.cache.num_trs(s) {
+            Some(n) => Ok(n),
+            // The state has not been expanded yet.
+            None => Ok(self.get_trs(s)?.len()),
+        }
     }
 
     unsafe fn num_trs_unchecked(&self, s: StateId) -> usize {
-        self.cache.num_trs(s).unsafe_unwrap()
+        self.num_trs(s).unsafe_unwrap()
     }
 
     fn get_trs(&self, state_id: StateId) -> Result<Self::TRS> {
@@ -86,15 +88,25 @@ impl<W: Semiring, Op: FstOp2<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst2<W,
     }
 
     fn num_input_epsilons(&self, state: StateId) -> Result<usize> {
-        self.cache
-            .num_input_epsilons(state)
-            .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
+        match self.cache.num_input_epsilons(state) {
+            Some(n) => Ok(n),
+            // The state has not been expanded yet.
+            None => {
+                let trs = self.get_trs(state)?;
+                Ok(trs.trs().iter().filter(|tr| tr.ilabel == EPS_LABEL).count())
+            }
+        }
     }
 
     fn num_output_epsilons(&self, state: StateId) -> Result<usize> {
-        self.cache
-            .num_output_epsilons(state)
-            .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
+        match self.cache.num_output_epsilons(state) {
+            Some(n) => Ok(n),
+            // The state has not been expanded yet.
+            None => {
+                let trs = self.get_trs(state)?;
+                Ok(trs.trs().iter().filter(|tr| tr.olabel == EPS_LABEL).count())
+            }
+        }
     }
 }
 
-- 
2.43.0


From d9baf1e8e33315bbb1149d13fc1a22fdd6c89fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:38 +0000
Subject: [PATCH 31/65] fix: saving to a file reports errors of the last
 buffered write

---
 rustfst/src/fst_traits/serializable_fst.rs | 6 +++++-
 rustfst/src/symbol_table.rs                | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/fst_traits/serializable_fst.rs b/rustfst/src/fst_traits/serializable_fst.rs
index 28a53fb..323d8af 100644
--- a/rustfst/src/fst_traits/serializable_fst.rs
+++ b/rustfst/src/fst_traits/serializable_fst.rs
@@ -45,7 +45,10 @@ pub trait SerializableFst<W: SerializableSemiring>: ExpandedFst<W> {
                 path_bin_fst.as_ref(),
             )
         })?;
-        self.store(BufWriter::new(output))
+        let mut writer = BufWriter::new(output);
+        self.store(&mut writer)?;
+        writer.flush()?;
+        Ok(())
     }
 
     // TEXT
@@ -127,6 +130,7 @@ pub trait SerializableFst<W: SerializableSemiring>: ExpandedFst<W> {
 
             writeln!(f, "}}")?;
         }
+        f.flush()?;
         Ok(())
     }
 }
diff --git a/rustfst/src/symbol_table.rs b/rustfst/src/symbol_table.rs
index 8b08f2a..4843cd2 100644
--- a/rustfst/src/symbol_table.rs
+++ b/rustfst/src/symbol_table.rs
@@ -268,6 +268,7 @@ impl<H: BuildHasher> SymbolTable<H> {
         let mut writer = BufWriter::new(LineWriter::new(buffer));
 
         write!(writer, "{}", self)?;
+        writer.flush()?;
 
         Ok(())
     }
@@ -277,6 +278,7 @@ impl<H: BuildHasher> SymbolTable<H> {
         let mut writer = BufWriter::new(LineWriter::new(buffer));
 
         write_bin_symt(&mut writer, self)?;
+        writer.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From 22a40c9abd0de0ea2eb4f5ff290ad556fdf3fa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:24 +0000
Subject: [PATCH 32/65] fix: write a cache under one lock so that a save during
 exploration is consistent

---
 .../lazy/cache/simple_hash_map_cache.rs       | 39 +++++--------------
 .../algorithms/lazy/cache/simple_vec_cache.rs | 35 +++++------------
 2 files changed, 20 insertions(+), 54 deletions(-)

diff --git a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
index 2a3bcdf..7c023d1 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
@@ -216,49 +216,30 @@ pub fn write_simple_hashmap_cache<F: Write, W: SerializableSemiring>(
     write_cache_start_state(writter, &start_state.data)?;
 
     // Trs num known states serialization
-    let trs_num_known_states = cache
-        .trs
-        .lock()
-        .map_err(|err| anyhow!("{}", err))?
-        .num_known_states;
-    write_bin_u64(writter, trs_num_known_states as u64)?;
+    let cache_trs = cache.trs.lock().map_err(|err| anyhow!("{}", err))?;
+    write_bin_u64(writter, cache_trs.num_known_states as u64)?;
 
     // Num computed states
-    let num_visited_states = cache.len_trs();
-    write_bin_u64(writter, num_visited_states as u64)?;
+    write_bin_u64(writter, cache_trs.data.len() as u64)?;
 
     // Computed states serialization
-    for (state, cache_trs) in cache
-        .trs
-        .lock()
-        .map_err(|err| anyhow!("{}", err))?
-        .data
-        .iter()
-    {
+    for (state, trs) in cache_trs.data.iter() {
         // Write CacheTrs trs
-        write_hashmap_cache_trs(writter, cache_trs, state)?;
+        write_hashmap_cache_trs(writter, trs, state)?;
     }
 
     // Final weights num known states serialization
-    let final_weights_num_known_states = cache
+    let cache_final_weights = cache
         .final_weights
         .lock()
-        .map_err(|err| anyhow!("{}", err))?
-        .num_known_states;
-    write_bin_u64(writter, final_weights_num_known_states as u64)?;
+        .map_err(|err| anyhow!("{}", err))?;
+    write_bin_u64(writter, cache_final_weights.num_known_states as u64)?;
 
     // Num computed final weights
-    let num_final_weights = cache.len_final_weights();
-    write_bin_u64(writter, num_final_weights as u64)?;
+    write_bin_u64(writter, cache_final_weights.data.len() as u64)?;
 
     // Final weights serialization
-    for (state, final_weight) in cache
-        .final_weights
-        .lock()
-        .map_err(|err| anyhow!("{}", err))?
-        .data
-        .iter()
-    {
+    for (state, final_weight) in cache_final_weights.data.iter() {
         // Write final weight for state
         write_hashmap_cache_final_weight(writter, final_weight, state)?;
     }
diff --git a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
index 47c19c5..a78be19 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
@@ -227,47 +227,32 @@ pub fn write_simple_vec_cache<F: Write, W: SerializableSemiring>(
     write_cache_start_state(writter, &start_state.data)?;
 
     // Trs num known states serialization
-    let trs_num_known_states = cache
-        .trs
-        .lock()
-        .map_err(|err| anyhow!("{}", err))?
-        .num_known_states;
-    write_bin_u64(writter, trs_num_known_states as u64)?;
+    let cache_trs = cache.trs.lock().map_err(|err| anyhow!("{}", err))?;
+    write_bin_u64(writter, cache_trs.num_known_states as u64)?;
 
     // Num computed states serialization
-    let num_computed_states = cache.len_trs();
+    let num_computed_states = cache_trs.data.len();
     write_bin_u64(writter, num_computed_states as u64)?;
 
     // Computed states serialization
     for state in 0..num_computed_states {
-        let state = state as StateId;
-        write_vec_cache_trs(
-            writter,
-            &cache
-                .trs
-                .lock()
-                .map_err(|err| anyhow!("{}", err))?
-                .get(state),
-        )?;
+        write_vec_cache_trs(writter, &cache_trs.get(state as StateId))?;
     }
 
     // Final weights num known states serialization
-    let final_weights_num_known_states = cache
+    let cache_final_weights = cache
         .final_weights
         .lock()
-        .map_err(|err| anyhow!("{}", err))?
-        .num_known_states;
-    write_bin_u64(writter, final_weights_num_known_states as u64)?;
+        .map_err(|err| anyhow!("{}", err))?;
+    write_bin_u64(writter, cache_final_weights.num_known_states as u64)?;
 
     // Num final states serialization
-    let num_final_states = cache.len_final_weights();
-    write_bin_u64(writter, num_final_states as u64)?;
+    write_bin_u64(writter, cache_final_weights.data.len() as u64)?;
 
     // Final states serialization
-    for f_state in 0..num_final_states {
-        let f_state = f_state as StateId;
+    for final_weight in &cache_final_weights.data {
         // Write final weight for state
-        write_vec_cache_final_weight(writter, &cache.get_final_weight(f_state))?;
+        write_vec_cache_final_weight(writter, final_weight)?;
     }
 
     Ok(())
-- 
2.43.0


From e4bfcbb260cf923e509cf8a66a0f8592b11304c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:35 +0000
Subject: [PATCH 33/65] fix: report errors met when flushing a saved cache or
 state table

---
 rustfst/src/algorithms/compose/compose_fst_op.rs           | 3 ++-
 rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs | 1 +
 rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs      | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/compose/compose_fst_op.rs b/rustfst/src/algorithms/compose/compose_fst_op.rs
index b947e3a..c7487a2 100644
--- a/rustfst/src/algorithms/compose/compose_fst_op.rs
+++ b/rustfst/src/algorithms/compose/compose_fst_op.rs
@@ -2,7 +2,7 @@ use std::borrow::Borrow;
 use std::fmt::Debug;
 use std::fs::{read, File};
 use std::hash::Hash;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::path::Path;
 use std::sync::Arc;
 
@@ -60,6 +60,7 @@ impl<T: Hash + Eq + Clone + SerializeBinary> SerializableOpState for ComposeFstO
 
         // Write StateTable
         self.state_table.write_binary(&mut file)?;
+        file.flush()?;
         Ok(())
     }
 }
diff --git a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
index 7c023d1..bc453ac 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
@@ -184,6 +184,7 @@ impl<W: SerializableSemiring> SerializableCache for SimpleHashMapCache<W> {
 
         // Serialize SimpleHashMapCache
         write_simple_hashmap_cache(&mut file, self)?;
+        file.flush()?;
 
         Ok(())
     }
diff --git a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
index a78be19..0a17a44 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
@@ -195,6 +195,7 @@ impl<W: SerializableSemiring> SerializableCache for SimpleVecCache<W> {
 
         // Write SimpleVecCache
         write_simple_vec_cache(&mut file, self)?;
+        file.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From f4f5bc7a51a175ffe8607f17f4313e90ad695b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:23 +0000
Subject: [PATCH 34/65] fix: index output labels with the output position in
 check_path_in_fst

---
 rustfst/src/fst_path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/fst_path.rs b/rustfst/src/fst_path.rs
index acb3db3..2b09af8 100644
--- a/rustfst/src/fst_path.rs
+++ b/rustfst/src/fst_path.rs
@@ -126,7 +126,7 @@ pub fn check_path_in_fst<W: Semiring, F: Fst<W>>(fst: &F, fst_path: &FstPath<W>)
                 let match_ilabel = next_ilabel_idx < fst_path.ilabels.len()
                     && tr.ilabel == fst_path.ilabels[next_ilabel_idx];
                 let match_olabel = next_olabel_idx < fst_path.olabels.len()
-                    && tr.olabel == fst_path.olabels[next_ilabel_idx];
+                    && tr.olabel == fst_path.olabels[next_olabel_idx];
                 let (new_next_ilabel_idx, new_next_olabel_idx) =
                     if tr.ilabel == EPS_LABEL && tr.olabel == EPS_LABEL {
                         (next_ilabel_idx, next_olabel_idx)
-- 
2.43.0


From 22ea41823da86b13f5d75274daed7762b765faa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:04 +0000
Subject: [PATCH 35/65] fix: pair states one to one in isomorphic

---
 rustfst/src/algorithms/isomorphic.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rustfst/src/algorithms/isomorphic.rs b/rustfst/src/algorithms/isomorphic.rs
index 0651e0d..71acbf5 100644
--- a/rustfst/src/algorithms/isomorphic.rs
+++ b/rustfst/src/algorithms/isomorphic.rs
@@ -12,6 +12,7 @@ struct Isomorphism<'a, W: Semiring, F1: ExpandedFst<W>, F2: ExpandedFst<W>> {
     fst_1: &'a F1,
     fst_2: &'a F2,
     state_pairs: Vec<Option<StateId>>,
+    rev_state_pairs: Vec<Option<StateId>>,
     queue: VecDeque<(StateId, StateId)>,
     w: PhantomData<W>,
     delta: f32,
@@ -53,6 +54,7 @@ impl<'a, W: Semiring, F1: ExpandedFst<W>, F2: ExpandedFst<W>> Isomorphism<'a, W,
             fst_1,
             fst_2,
             state_pairs: vec![None; fst_1.num_states()],
+            rev_state_pairs: vec![None; fst_2.num_states()],
             queue: VecDeque::new(),
             w: PhantomData,
             delta,
@@ -66,8 +68,11 @@ impl<'a, W: Semiring, F1: ExpandedFst<W>, F2: ExpandedFst<W>> Isomorphism<'a, W,
             return true; // already seen this pair
         } else if self.state_pairs[s1 as usize].is_some() {
             return false; // s1 already paired with another s2
+        } else if self.rev_state_pairs[s2 as usize].is_some() {
+            return false; // s2 already paired with another s1
         }
         self.state_pairs[s1 as usize] = Some(s2);
+        self.rev_state_pairs[s2 as usize] = Some(s1);
         self.queue.push_back((s1, s2));
         true
     }
-- 
2.43.0


From 1ff43e4c5630c9ce1cbd1fa15ba31152a2ec89d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:18 +0000
Subject: [PATCH 36/65] fix: detect non-determinism before pairing states in
 isomorphic

---
 rustfst/src/algorithms/isomorphic.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/rustfst/src/algorithms/isomorphic.rs b/rustfst/src/algorithms/isomorphic.rs
index 71acbf5..391facf 100644
--- a/rustfst/src/algorithms/isomorphic.rs
+++ b/rustfst/src/algorithms/isomorphic.rs
@@ -105,6 +105,18 @@ impl<'a, W: Semiring, F1: ExpandedFst<W>, F2: ExpandedFst<W>> Isomorphism<'a, W,
         trs1.sort_by(|a, b| tr_compare(a, b));
         trs2.sort_by(|a, b| tr_compare(a, b));
 
+        for pair in trs1.windows(2) {
+            if pair[1].ilabel == pair[0].ilabel
+                && pair[1].olabel == pair[0].olabel
+                && pair[1].weight.approx_equal(&pair[0].weight, self.delta)
+            {
+                // Any subsequent matching failure maybe a false negative
+                // since we only consider one permutation when pairing destination
+                // states of nondeterministic transitions.
+                self.non_det = true;
+            }
+        }
+
         for i in 0..trs1.len() {
             let arc1 = trs1[i];
             let arc2 = trs2[i];
@@ -120,18 +132,6 @@ impl<'a, W: Semiring, F1: ExpandedFst<W>, F2: ExpandedFst<W>> Isomorphism<'a, W,
             if !(self.pair_state(arc1.nextstate, arc2.nextstate)) {
                 return Ok(false);
             }
-            if i > 0 {
-                let arc0 = trs1[i - 1];
-                if arc1.ilabel == arc0.ilabel
-                    && arc1.olabel == arc0.olabel
-                    && arc1.weight.approx_equal(&arc0.weight, self.delta)
-                {
-                    // Any subsequent matching failure maybe a false negative
-                    // since we only consider one permutation when pairing destination
-                    // states of nondeterministic transitions.
-                    self.non_det = true;
-                }
-            }
         }
         Ok(true)
     }
-- 
2.43.0


From debfc7df52a5bb082ec11a04fc3d16c3a89837e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:30 +0000
Subject: [PATCH 37/65] fix: TrsConst::to_trs_vec returns only the transitions
 of the state

---
 rustfst/src/trs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/trs.rs b/rustfst/src/trs.rs
index b20ec1f..d1f8247 100644
--- a/rustfst/src/trs.rs
+++ b/rustfst/src/trs.rs
@@ -77,7 +77,7 @@ impl<W: Semiring> Trs<W> for TrsConst<W> {
     }
 
     fn to_trs_vec(&self) -> TrsVec<W> {
-        TrsVec(Arc::clone(&self.trs))
+        TrsVec(Arc::new(self.trs().to_vec()))
     }
 
     // Doesn't clone the data, only the Arc
-- 
2.43.0


From bd39ac3498c2a09dd316438056e57a7ab9379aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:45 +0000
Subject: [PATCH 38/65] fix: is_final_unchecked agrees with is_final on zero
 weights

---
 rustfst/src/fst_traits/fst.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/fst_traits/fst.rs b/rustfst/src/fst_traits/fst.rs
index 9c59c69..a760d84 100644
--- a/rustfst/src/fst_traits/fst.rs
+++ b/rustfst/src/fst_traits/fst.rs
@@ -129,7 +129,9 @@ pub trait CoreFst<W: Semiring> {
     ///
     #[inline]
     unsafe fn is_final_unchecked(&self, state: StateId) -> bool {
-        self.final_weight_unchecked(state).is_some()
+        self.final_weight_unchecked(state)
+            .map(|final_weight| final_weight != W::zero())
+            .unwrap_or(false)
     }
 
     /// Check whether a state is the start state or not.
-- 
2.43.0


From 2ceea832b47be06b563a91e4b378bdc71b3c27dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:57 +0000
Subject: [PATCH 39/65] fix: weight_convert keeps the symbol tables of a
 machine without start state

---
 rustfst/src/algorithms/weight_convert.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rustfst/src/algorithms/weight_convert.rs b/rustfst/src/algorithms/weight_convert.rs
index a7fe862..66c5745 100644
--- a/rustfst/src/algorithms/weight_convert.rs
+++ b/rustfst/src/algorithms/weight_convert.rs
@@ -32,6 +32,7 @@ where
 
     // Empty FST.
     if fst_in.start().is_none() {
+        fst_out.set_symts_from_fst(fst_in);
         return Ok(fst_out);
     }
 
-- 
2.43.0


From adb2adada13f7fd999dce9b592160a995314a247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:16 +0000
Subject: [PATCH 40/65] fix: keep symbol tables when a lazy result is empty

---
 rustfst/src/algorithms/lazy/lazy_fst.rs   | 12 ++++++------
 rustfst/src/algorithms/lazy/lazy_fst_2.rs | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/rustfst/src/algorithms/lazy/lazy_fst.rs b/rustfst/src/algorithms/lazy/lazy_fst.rs
index 3a71371..5963b30 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst.rs
@@ -239,6 +239,12 @@ where
     pub fn compute<F2: MutableFst<W> + AllocableFst<W>>(&self) -> Result<F2> {
         let start_state = self.start();
         let mut fst_out = F2::new();
+        if let Some(isymt) = &self.isymt {
+            fst_out.set_input_symbols(Arc::clone(isymt));
+        }
+        if let Some(osymt) = &self.osymt {
+            fst_out.set_output_symbols(Arc::clone(osymt));
+        }
         let start_state = match start_state {
             Some(s) => s,
             None => return Ok(fst_out),
@@ -272,12 +278,6 @@ where
         }
         fst_out.set_properties(self.properties());
 
-        if let Some(isymt) = &self.isymt {
-            fst_out.set_input_symbols(Arc::clone(isymt));
-        }
-        if let Some(osymt) = &self.osymt {
-            fst_out.set_output_symbols(Arc::clone(osymt));
-        }
         Ok(fst_out)
     }
 }
diff --git a/rustfst/src/algorithms/lazy/lazy_fst_2.rs b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
index 0b379f7..2cf4e2e 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst_2.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
@@ -235,6 +235,12 @@ where
     pub fn compute<F2: MutableFst<W>>(&self) -> Result<F2> {
         let start_state = self.start();
         let mut fst_out = F2::new();
+        if let Some(isymt) = &self.isymt {
+            fst_out.set_input_symbols(Arc::clone(isymt));
+        }
+        if let Some(osymt) = &self.osymt {
+            fst_out.set_output_symbols(Arc::clone(osymt));
+        }
         let start_state = match start_state {
             Some(s) => s,
             None => return Ok(fst_out),
@@ -264,12 +270,6 @@ where
             }
         }
         fst_out.set_properties(self.properties());
-        if let Some(isymt) = &self.isymt {
-            fst_out.set_input_symbols(Arc::clone(isymt));
-        }
-        if let Some(osymt) = &self.osymt {
-            fst_out.set_output_symbols(Arc::clone(osymt));
-        }
         Ok(fst_out)
     }
 }
-- 
2.43.0


From 5216d3f5a1c76d2efd535c78a74a302d19ef1255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:15 +0000
Subject: [PATCH 41/65] fix: a panic inside a C FFI call is reported as an
 error instead of aborting the process

---
 rustfst-ffi/src/lib.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rustfst-ffi/src/lib.rs b/rustfst-ffi/src/lib.rs
index 189262d..7316d6e 100644
--- a/rustfst-ffi/src/lib.rs
+++ b/rustfst-ffi/src/lib.rs
@@ -9,11 +9,13 @@ pub mod symbol_table;
 pub mod tr;
 pub mod trs;
 
+use std::any::Any;
 use std::cell::RefCell;
 use std::ffi::CString;
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::sync::Arc;
 
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use ffi_convert::{CReprOf, RawPointerConverter};
 
 #[cfg(feature = "rustfst-state-label-u32")]
@@ -40,8 +42,19 @@ thread_local! {
     pub(crate) static LAST_ERROR: RefCell<Option<String>> = const { RefCell::new(None) };
 }
 
+fn panic_message(payload: &(dyn Any + Send)) -> &str {
+    payload
+        .downcast_ref::<&str>()
+        .copied()
+        .or_else(|| payload.downcast_ref::<String>().map(|s| s.as_str()))
+        .unwrap_or("unknown panic")
+}
+
 pub fn wrap<F: FnOnce() -> Result<()>>(func: F) -> RUSTFST_FFI_RESULT {
-    match func() {
+    // A panic must not unwind out of an `extern "C"` function: it is reported as an error.
+    let res = catch_unwind(AssertUnwindSafe(func))
+        .unwrap_or_else(|payload| Err(anyhow!("panic: {}", panic_message(payload.as_ref()))));
+    match res {
         Ok(_) => RUSTFST_FFI_RESULT::RUSTFST_FFI_RESULT_OK,
         Err(e) => {
             let msg = format!("{:#?}", e);
-- 
2.43.0


From a4363f9bd00575079f002dc61bbb3e51dd5177ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:15 +0000
Subject: [PATCH 42/65] fix: creating a transition iterator on a missing state
 through the C FFI reports the error

---
 rustfst-ffi/src/iterators.rs | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/rustfst-ffi/src/iterators.rs b/rustfst-ffi/src/iterators.rs
index 6130cfd..c454827 100644
--- a/rustfst-ffi/src/iterators.rs
+++ b/rustfst-ffi/src/iterators.rs
@@ -44,21 +44,13 @@ pub struct CTrsIterator(pub(crate) TrsIterator);
 pub unsafe extern "C" fn trs_iterator_new(
     fst_ptr: *mut CFst,
     state_id: CStateId,
-    mut iter_ptr: *mut *const CTrsIterator,
+    iter_ptr: *mut *const CTrsIterator,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get!(CFst, fst_ptr);
-        fst.fst_get_trs(state_id)
-            .map(|trs| {
-                let raw_ptr = {
-                    let trs_iterator = TrsIterator { trs, index: 0 };
-                    CTrsIterator(trs_iterator).into_raw_pointer()
-                };
-
-                unsafe { *iter_ptr = raw_ptr };
-            })
-            .unwrap_or_else(|_| iter_ptr = std::ptr::null_mut());
-
+        let trs = fst.fst_get_trs(state_id)?;
+        let raw_ptr = CTrsIterator(TrsIterator { trs, index: 0 }).into_raw_pointer();
+        unsafe { *iter_ptr = raw_ptr };
         Ok(())
     })
 }
@@ -197,21 +189,13 @@ impl<'a> RawPointerConverter<CMutTrsIterator<'a>> for CMutTrsIterator<'a> {
 pub unsafe extern "C" fn mut_trs_iterator_new(
     fst_ptr: *mut CVecFst,
     state_id: CStateId,
-    mut iter_ptr: *mut *const CMutTrsIterator,
+    iter_ptr: *mut *const CMutTrsIterator,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get_mut!(CVecFst, fst_ptr);
-        fst.tr_iter_mut(state_id)
-            .map(|trs| {
-                let raw_ptr = {
-                    let trs_iterator = MutTrsIterator { trs, index: 0 };
-                    CMutTrsIterator(trs_iterator).into_raw_pointer()
-                };
-
-                unsafe { *iter_ptr = raw_ptr };
-            })
-            .unwrap_or_else(|_| iter_ptr = std::ptr::null_mut());
-
+        let trs = fst.tr_iter_mut(state_id)?;
+        let raw_ptr = CMutTrsIterator(MutTrsIterator { trs, index: 0 }).into_raw_pointer();
+        unsafe { *iter_ptr = raw_ptr };
         Ok(())
     })
 }
-- 
2.43.0


From c4c29722fe293167dbd43ad8210b7c6c9551f587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:15 +0000
Subject: [PATCH 43/65] fix: C FFI transition iterators stay done when advanced
 past their end

---
 rustfst-ffi/src/iterators.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rustfst-ffi/src/iterators.rs b/rustfst-ffi/src/iterators.rs
index c454827..39924a5 100644
--- a/rustfst-ffi/src/iterators.rs
+++ b/rustfst-ffi/src/iterators.rs
@@ -17,7 +17,7 @@ pub struct TrsIterator {
 
 impl TrsIterator {
     fn done(&self) -> bool {
-        self.trs.len() == self.index
+        self.index >= self.trs.len()
     }
 
     fn reset(&mut self) {
@@ -131,7 +131,7 @@ pub struct MutTrsIterator<'a> {
 
 impl<'a> MutTrsIterator<'a> {
     pub fn done(&self) -> bool {
-        self.trs.len() == self.index
+        self.index >= self.trs.len()
     }
 
     pub fn next(&mut self) {
-- 
2.43.0


From 682b10da4064a73a6c4c36c4ce6f77773369ac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:15 +0000
Subject: [PATCH 44/65] fix: C FFI state and mutable transition iterators check
 that the handle is a vector fst

---
 rustfst-ffi/src/iterators.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/rustfst-ffi/src/iterators.rs b/rustfst-ffi/src/iterators.rs
index 39924a5..5c9bb71 100644
--- a/rustfst-ffi/src/iterators.rs
+++ b/rustfst-ffi/src/iterators.rs
@@ -1,10 +1,10 @@
-use crate::fst::{CFst, CVecFst};
+use crate::fst::{as_fst, as_mut_fst, CFst};
 use crate::tr::CTr;
 use crate::{get, get_mut, wrap, CStateId, RUSTFST_FFI_RESULT};
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use ffi_convert::*;
 use rustfst::fst_traits::MutableFst;
-use rustfst::prelude::{StateIterator, Tr, TropicalWeight, TrsVec};
+use rustfst::prelude::{StateIterator, Tr, TropicalWeight, TrsVec, VectorFst};
 use rustfst::trs_iter_mut::TrsIterMut;
 use std::iter::Peekable;
 use std::ops::Range;
@@ -187,13 +187,14 @@ impl<'a> RawPointerConverter<CMutTrsIterator<'a>> for CMutTrsIterator<'a> {
 /// The pointers should be valid.
 #[no_mangle]
 pub unsafe extern "C" fn mut_trs_iterator_new(
-    fst_ptr: *mut CVecFst,
+    fst_ptr: *mut CFst,
     state_id: CStateId,
     iter_ptr: *mut *const CMutTrsIterator,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
-        let fst = get_mut!(CVecFst, fst_ptr);
-        let trs = fst.tr_iter_mut(state_id)?;
+        let fst = get_mut!(CFst, fst_ptr);
+        let vec_fst = as_mut_fst!(VectorFst<TropicalWeight>, fst);
+        let trs = vec_fst.tr_iter_mut(state_id)?;
         let raw_ptr = CMutTrsIterator(MutTrsIterator { trs, index: 0 }).into_raw_pointer();
         unsafe { *iter_ptr = raw_ptr };
         Ok(())
@@ -310,12 +311,13 @@ pub struct CStateIterator(pub(crate) Peekable<Range<CStateId>>);
 /// The pointers should be valid.
 #[no_mangle]
 pub unsafe extern "C" fn state_iterator_new(
-    fst_ptr: *mut CVecFst,
+    fst_ptr: *mut CFst,
     iter_ptr: *mut *const CStateIterator,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
-        let fst = get!(CVecFst, fst_ptr);
-        let state_iter = fst.states_iter().peekable();
+        let fst = get!(CFst, fst_ptr);
+        let vec_fst = as_fst!(VectorFst<TropicalWeight>, fst);
+        let state_iter = vec_fst.states_iter().peekable();
         let raw_ptr = CStateIterator(state_iter).into_raw_pointer();
         unsafe { *iter_ptr = raw_ptr };
         Ok(())
-- 
2.43.0


From 616b5e4106e819bf6376be01b2118e1bbd333cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:27 +0000
Subject: [PATCH 45/65] fix: C FFI calls taking an array accept an empty one
 given by a null pointer

---
 rustfst-ffi/src/algorithms/compose.rs | 11 ++++++++---
 rustfst-ffi/src/algorithms/replace.rs | 10 +++++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/rustfst-ffi/src/algorithms/compose.rs b/rustfst-ffi/src/algorithms/compose.rs
index 24e2472..9ff1efa 100644
--- a/rustfst-ffi/src/algorithms/compose.rs
+++ b/rustfst-ffi/src/algorithms/compose.rs
@@ -196,9 +196,14 @@ pub unsafe extern "C" fn fst_matcher_config_new(
     config: *mut *const CMatcherConfig,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
-        let sigma_allowed_matches = unsafe {
-            std::slice::from_raw_parts(sigma_allowed_matches.data, sigma_allowed_matches.size)
-                .to_vec()
+        // An empty C array may come with a null pointer.
+        let sigma_allowed_matches = if sigma_allowed_matches.size == 0 {
+            vec![]
+        } else {
+            unsafe {
+                std::slice::from_raw_parts(sigma_allowed_matches.data, sigma_allowed_matches.size)
+                    .to_vec()
+            }
         };
         let sigma_allowed_matches = sigma_allowed_matches
             .iter()
diff --git a/rustfst-ffi/src/algorithms/replace.rs b/rustfst-ffi/src/algorithms/replace.rs
index 80b0111..e7e2b22 100644
--- a/rustfst-ffi/src/algorithms/replace.rs
+++ b/rustfst-ffi/src/algorithms/replace.rs
@@ -27,10 +27,14 @@ pub unsafe extern "C" fn fst_replace(
     replaced_fst: *mut *const CFst,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
-        let label_fst_pairs =
-            unsafe { std::slice::from_raw_parts_mut(fst_list_ptr, fst_list_ptr_len) };
+        // An empty C array may come with a null pointer.
+        let label_fst_pairs: &[CLabelFstPair] = if fst_list_ptr_len == 0 {
+            &[]
+        } else {
+            unsafe { std::slice::from_raw_parts(fst_list_ptr, fst_list_ptr_len) }
+        };
         let fst_list = label_fst_pairs
-            .iter_mut()
+            .iter()
             .map(|pair| -> Result<(CLabel, &VectorFst<TropicalWeight>)> {
                 let fst_ptr = pair.fst;
                 let fst = get!(CFst, fst_ptr);
-- 
2.43.0


From a5b01c1c5a3693ed7df255eae10d3afcf0bdfe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:27 +0000
Subject: [PATCH 46/65] fix: C FFI fst_is_final answers as the library for a
 zero final weight

---
 rustfst-ffi/src/fst/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst-ffi/src/fst/mod.rs b/rustfst-ffi/src/fst/mod.rs
index 58209ba..d1759ee 100644
--- a/rustfst-ffi/src/fst/mod.rs
+++ b/rustfst-ffi/src/fst/mod.rs
@@ -32,7 +32,7 @@ pub trait BindableFst: Downcast {
     #[inline]
     fn fst_is_final(&self, state_id: StateId) -> Result<bool> {
         let w = self.fst_final_weight(state_id)?;
-        Ok(w.is_some())
+        Ok(w.map(|w| w != TropicalWeight::zero()).unwrap_or(false))
     }
 
     #[inline]
-- 
2.43.0


From 7203106466a1129f7c0a09dac5df3baa8fa1c274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:37 +0000
Subject: [PATCH 47/65] fix: invert exchanges the attached symbol tables
 together with the labels

---
 rustfst/src/algorithms/inversion.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rustfst/src/algorithms/inversion.rs b/rustfst/src/algorithms/inversion.rs
index 169d25a..4c0b97e 100644
--- a/rustfst/src/algorithms/inversion.rs
+++ b/rustfst/src/algorithms/inversion.rs
@@ -44,5 +44,15 @@ pub fn invert<W: Semiring, F: MutableFst<W>>(fst: &mut F) {
         }
     }
 
+    // The symbol tables follow the labels they describe.
+    let isymt = fst.take_input_symbols();
+    let osymt = fst.take_output_symbols();
+    if let Some(symt) = osymt {
+        fst.set_input_symbols(symt);
+    }
+    if let Some(symt) = isymt {
+        fst.set_output_symbols(symt);
+    }
+
     fst.set_properties_with_mask(invert_properties(props), FstProperties::all_properties());
 }
-- 
2.43.0


From 99867b1e806280a57d5e8364b0b1d6ef33911070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:37 +0000
Subject: [PATCH 48/65] fix: project gives both sides the symbol table of the
 kept labels

---
 rustfst/src/algorithms/projection.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rustfst/src/algorithms/projection.rs b/rustfst/src/algorithms/projection.rs
index 3041524..1481a6c 100644
--- a/rustfst/src/algorithms/projection.rs
+++ b/rustfst/src/algorithms/projection.rs
@@ -74,6 +74,13 @@ pub fn project<W: Semiring, F: MutableFst<W>>(fst: &mut F, project_type: Project
                     unsafe { it_trs.set_olabel_unchecked(idx_tr, ilabel) }
                 }
             }
+            // The output labels are now described by the input symbols.
+            match fst.input_symbols().cloned() {
+                Some(symt) => fst.set_output_symbols(symt),
+                None => {
+                    fst.take_output_symbols();
+                }
+            }
         }
         ProjectType::ProjectOutput => {
             for state in fst.states_range() {
@@ -84,6 +91,13 @@ pub fn project<W: Semiring, F: MutableFst<W>>(fst: &mut F, project_type: Project
                     unsafe { it_trs.set_ilabel_unchecked(idx_tr, olabel) }
                 }
             }
+            // The input labels are now described by the output symbols.
+            match fst.output_symbols().cloned() {
+                Some(symt) => fst.set_input_symbols(symt),
+                None => {
+                    fst.take_input_symbols();
+                }
+            }
         }
     };
     fst.set_properties_with_mask(
-- 
2.43.0


From 000c5d5d3109f014277045b9cfe7f7eec0b87d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:58 +0000
Subject: [PATCH 49/65] fix: the command-line program exits with failure when a
 command fails

---
 rustfst-cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst-cli/src/main.rs b/rustfst-cli/src/main.rs
index 1311e09..3bf5b98 100644
--- a/rustfst-cli/src/main.rs
+++ b/rustfst-cli/src/main.rs
@@ -202,7 +202,7 @@ fn main() {
 
     if let Err(e) = handle(matches) {
         error!("{:?}", e);
-        process::exit(exitcode::OK)
+        process::exit(exitcode::SOFTWARE)
     }
 }
 
-- 
2.43.0


From 1e3f05670983b71d6c33ea665ca8375045baa559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:58 +0000
Subject: [PATCH 50/65] fix: commands run the benchmark only when --bench is
 given

---
 rustfst-cli/src/binary_fst_algorithm.rs | 2 +-
 rustfst-cli/src/main.rs                 | 2 +-
 rustfst-cli/src/unary_fst_algorithm.rs  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rustfst-cli/src/binary_fst_algorithm.rs b/rustfst-cli/src/binary_fst_algorithm.rs
index c7c5835..6298139 100644
--- a/rustfst-cli/src/binary_fst_algorithm.rs
+++ b/rustfst-cli/src/binary_fst_algorithm.rs
@@ -46,7 +46,7 @@ pub trait BinaryFstAlgorithm {
     }
 
     fn run_cli_or_bench(&self, m: &ArgMatches) -> Result<()> {
-        if m.contains_id("bench") {
+        if m.get_flag("bench") {
             // Run bench
             self.run_bench(
                 m.get_one::<String>("n_warm_ups").unwrap().parse().unwrap(),
diff --git a/rustfst-cli/src/main.rs b/rustfst-cli/src/main.rs
index 3bf5b98..d9274da 100644
--- a/rustfst-cli/src/main.rs
+++ b/rustfst-cli/src/main.rs
@@ -364,7 +364,7 @@ fn two_in_one_out_options(command: Command) -> clap::Command {
         Arg::new("bench")
             .long("bench")
             .help("Whether to run multiple times the algorithm in order to have a reliable time measurement.")
-            .action(ArgAction::Set)
+            .action(ArgAction::SetTrue)
     ).arg(
         Arg::new("n_iters")
             .long("n_iters")
diff --git a/rustfst-cli/src/unary_fst_algorithm.rs b/rustfst-cli/src/unary_fst_algorithm.rs
index 5abd77a..e5a4797 100644
--- a/rustfst-cli/src/unary_fst_algorithm.rs
+++ b/rustfst-cli/src/unary_fst_algorithm.rs
@@ -38,7 +38,7 @@ pub trait UnaryFstAlgorithm {
     }
 
     fn run_cli_or_bench(&self, m: &ArgMatches) -> Result<()> {
-        if m.contains_id("bench") {
+        if m.get_flag("bench") {
             // Run bench
             self.run_bench(
                 m.get_one::<String>("n_warm_ups").unwrap().parse().unwrap(),
-- 
2.43.0


From e12f81c5f6001393cc76e36f6083cf8ff9ad4768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:37 +0000
Subject: [PATCH 51/65] fix: python start and final return None when there is
 none

---
 rustfst-python/rustfst/fst/__init__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rustfst-python/rustfst/fst/__init__.py b/rustfst-python/rustfst/fst/__init__.py
index 9a05b8b..5496ab2 100644
--- a/rustfst-python/rustfst/fst/__init__.py
+++ b/rustfst-python/rustfst/fst/__init__.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 import ctypes
+import math
 from rustfst.ffi_utils import (
     lib,
     check_ffi_error,
@@ -26,12 +27,14 @@ class Fst:
         Returns :
             The start state or None.
         """
-        start = ctypes.c_size_t()
+        # The FFI leaves the value untouched when there is no start state.
+        no_state_id = 2**32 - 1
+        start = ctypes.c_size_t(no_state_id)
         ret_code = lib.fst_start(self.ptr, ctypes.byref(start))
         err_msg = "Error getting start state"
         check_ffi_error(ret_code, err_msg)
 
-        if start is None:
+        if start.value == no_state_id:
             return None
         return int(start.value)
 
@@ -46,13 +49,14 @@ class Fst:
           Exception: If State index out of range.
         """
         state = ctypes.c_size_t(state)
-        weight = ctypes.c_float()
+        # The FFI leaves the value untouched when the state is not final.
+        weight = ctypes.c_float(math.nan)
 
         ret_code = lib.fst_final_weight(self.ptr, state, ctypes.byref(weight))
         err_msg = "Error getting final weight"
         check_ffi_error(ret_code, err_msg)
 
-        if weight is None:
+        if math.isnan(weight.value):
             return None
 
         return weight.value
-- 
2.43.0


From abaa0f75d51ef744cb3dce176cb00911bfec03c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:37 +0000
Subject: [PATCH 52/65] fix: exhausted transition iterators give a null
 transition

---
 rustfst-ffi/src/iterators.rs        | 8 ++++----
 rustfst-python/rustfst/iterators.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rustfst-ffi/src/iterators.rs b/rustfst-ffi/src/iterators.rs
index 5c9bb71..22979b6 100644
--- a/rustfst-ffi/src/iterators.rs
+++ b/rustfst-ffi/src/iterators.rs
@@ -61,7 +61,7 @@ pub unsafe extern "C" fn trs_iterator_new(
 #[no_mangle]
 pub unsafe extern "C" fn trs_iterator_next(
     iter_ptr: *mut CTrsIterator,
-    mut tr_ptr: *mut *const CTr,
+    tr_ptr: *mut *const CTr,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let trs_iter = get_mut!(CTrsIterator, iter_ptr);
@@ -73,7 +73,7 @@ pub unsafe extern "C" fn trs_iterator_next(
                 Ok(())
             })
             .unwrap_or_else(|| -> Result<()> {
-                tr_ptr = std::ptr::null_mut();
+                unsafe { *tr_ptr = std::ptr::null() };
                 Ok(())
             })?;
 
@@ -221,7 +221,7 @@ pub unsafe extern "C" fn mut_trs_iterator_next(
 #[no_mangle]
 pub unsafe extern "C" fn mut_trs_iterator_value(
     iter_ptr: *mut CMutTrsIterator,
-    mut tr_ptr: *mut *const CTr,
+    tr_ptr: *mut *const CTr,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let trs_iter = get_mut!(CMutTrsIterator, iter_ptr);
@@ -233,7 +233,7 @@ pub unsafe extern "C" fn mut_trs_iterator_value(
                 Ok(())
             })
             .unwrap_or_else(|| -> Result<()> {
-                tr_ptr = std::ptr::null_mut();
+                unsafe { *tr_ptr = std::ptr::null() };
                 Ok(())
             })?;
         Ok(())
diff --git a/rustfst-python/rustfst/iterators.py b/rustfst-python/rustfst/iterators.py
index e8acd2e..22d0901 100644
--- a/rustfst-python/rustfst/iterators.py
+++ b/rustfst-python/rustfst/iterators.py
@@ -51,7 +51,7 @@ class TrsIterator:
         err_msg = "`next` failed"
         check_ffi_error(ret_code, err_msg)
 
-        if tr_ptr is None:
+        if not tr_ptr:
             return None
 
         return Tr(tr_ptr)
@@ -149,7 +149,7 @@ class MutableTrsIterator:
         err_msg = "`value` failed"
         check_ffi_error(ret_code, err_msg)
 
-        if tr_ptr is None:
+        if not tr_ptr:
             return None
 
         return Tr(tr_ptr)
-- 
2.43.0


From 2c4b6f285dfe8904459e1e2391e638e7a3ccc448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:37 +0000
Subject: [PATCH 53/65] fix: python Trs.shallow_clone passes the address of its
 result

---
 rustfst-python/rustfst/trs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst-python/rustfst/trs.py b/rustfst-python/rustfst/trs.py
index f9ee386..91a3808 100755
--- a/rustfst-python/rustfst/trs.py
+++ b/rustfst-python/rustfst/trs.py
@@ -57,7 +57,7 @@ class Trs:
 
     def shallow_clone(self) -> Trs:
         new_trs_ptr = c_void_p()
-        exit_code = lib.trs_vec_shallow_clone(self._ptr, new_trs_ptr)
+        exit_code = lib.trs_vec_shallow_clone(self._ptr, byref(new_trs_ptr))
         err_msg = "Something went wrong when cloning Trs"
         check_ffi_error(exit_code, err_msg)
 
-- 
2.43.0


From c68becae78329f86327b2c395f605f14630d027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:04 +0000
Subject: [PATCH 54/65] fix: python project refreshes the cached symbol tables

---
 rustfst-python/rustfst/algorithms/project.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rustfst-python/rustfst/algorithms/project.py b/rustfst-python/rustfst/algorithms/project.py
index 75926cb..2658c7d 100644
--- a/rustfst-python/rustfst/algorithms/project.py
+++ b/rustfst-python/rustfst/algorithms/project.py
@@ -45,6 +45,13 @@ def project(fst: VectorFst, proj_type: ProjectType) -> VectorFst:
     err_msg = "Error during projection"
     check_ffi_error(ret_code, err_msg)
 
+    # The symbol tables are cached on the python side : the side that has been
+    # overwritten now uses the table of the side that has been kept.
+    if proj_type == ProjectType.PROJECT_INPUT:
+        fst._output_symbols = fst._input_symbols
+    else:
+        fst._input_symbols = fst._output_symbols
+
     return fst
 
 
-- 
2.43.0


From a6ee4f12ea0898a218a92e7890c8d0241252c5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:04 +0000
Subject: [PATCH 55/65] fix: concat and union accept the same machine as both
 operands

---
 rustfst-ffi/src/algorithms/concat.rs | 6 ++++++
 rustfst-ffi/src/algorithms/union.rs  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/rustfst-ffi/src/algorithms/concat.rs b/rustfst-ffi/src/algorithms/concat.rs
index a1d0a4b..ed1c308 100644
--- a/rustfst-ffi/src/algorithms/concat.rs
+++ b/rustfst-ffi/src/algorithms/concat.rs
@@ -13,10 +13,16 @@ use rustfst::semirings::TropicalWeight;
 #[no_mangle]
 pub unsafe extern "C" fn fst_concat(fst_1: *mut CFst, fst_2: *const CFst) -> RUSTFST_FFI_RESULT {
     wrap(|| {
+        let aliased = std::ptr::eq(fst_1, fst_2);
         let fst_1 = get_mut!(CFst, fst_1);
         let vec_fst1: &mut VectorFst<TropicalWeight> = fst_1
             .downcast_mut()
             .ok_or_else(|| anyhow!("Could not downcast to vector FST"))?;
+        if aliased {
+            let vec_fst2 = vec_fst1.clone();
+            concat(vec_fst1, &vec_fst2)?;
+            return Ok(());
+        }
         let fst_2 = get!(CFst, fst_2);
         let vec_fst2: &VectorFst<TropicalWeight> = fst_2
             .downcast_ref()
diff --git a/rustfst-ffi/src/algorithms/union.rs b/rustfst-ffi/src/algorithms/union.rs
index 74760fd..48ececc 100644
--- a/rustfst-ffi/src/algorithms/union.rs
+++ b/rustfst-ffi/src/algorithms/union.rs
@@ -13,10 +13,16 @@ use rustfst::semirings::TropicalWeight;
 #[no_mangle]
 pub unsafe extern "C" fn fst_union(fst_1: *mut CFst, fst_2: *const CFst) -> RUSTFST_FFI_RESULT {
     wrap(|| {
+        let aliased = std::ptr::eq(fst_1, fst_2);
         let fst_1 = get_mut!(CFst, fst_1);
         let vec_fst1: &mut VectorFst<TropicalWeight> = fst_1
             .downcast_mut()
             .ok_or_else(|| anyhow!("Could not downcast to vector FST"))?;
+        if aliased {
+            let vec_fst2 = vec_fst1.clone();
+            union(vec_fst1, &vec_fst2)?;
+            return Ok(());
+        }
         let fst_2 = get!(CFst, fst_2);
         let vec_fst2: &VectorFst<TropicalWeight> = fst_2
             .downcast_ref()
-- 
2.43.0


From ffe195c6a9a1936137635a96a6634fc637314871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:22 +0000
Subject: [PATCH 56/65] fix: drawing with explicit symbol tables leaves the
 machine unchanged

---
 rustfst-ffi/src/fst/const_fst.rs  | 5 +++--
 rustfst-ffi/src/fst/vector_fst.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rustfst-ffi/src/fst/const_fst.rs b/rustfst-ffi/src/fst/const_fst.rs
index dc0a438..fa62243 100644
--- a/rustfst-ffi/src/fst/const_fst.rs
+++ b/rustfst-ffi/src/fst/const_fst.rs
@@ -97,8 +97,9 @@ pub unsafe fn const_fst_draw(
     print_weight: libc::size_t,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
-        let fst = get_mut!(CFst, fst_ptr);
-        let const_fst = as_mut_fst!(ConstFst<TropicalWeight>, fst);
+        let fst = get!(CFst, fst_ptr);
+        // Drawing must not attach the symbol tables to the original FST.
+        let const_fst = &mut as_fst!(ConstFst<TropicalWeight>, fst).clone();
 
         if !isyms.is_null() {
             let isymt = get!(CSymbolTable, isyms);
diff --git a/rustfst-ffi/src/fst/vector_fst.rs b/rustfst-ffi/src/fst/vector_fst.rs
index 7fd7e9b..ad8bdde 100644
--- a/rustfst-ffi/src/fst/vector_fst.rs
+++ b/rustfst-ffi/src/fst/vector_fst.rs
@@ -205,8 +205,9 @@ pub unsafe fn vec_fst_draw(
     print_weight: libc::size_t,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
-        let fst = get_mut!(CFst, fst_ptr);
-        let vec_fst = as_mut_fst!(VectorFst<TropicalWeight>, fst);
+        let fst = get!(CFst, fst_ptr);
+        // Drawing must not attach the symbol tables to the original FST.
+        let vec_fst = &mut as_fst!(VectorFst<TropicalWeight>, fst).clone();
 
         if !isyms.is_null() {
             let isymt = get!(CSymbolTable, isyms);
-- 
2.43.0


From db791fb8d41235dfef60c5f5d5992a24a8ba3586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:18 +0000
Subject: [PATCH 57/65] fix: python rm_epsilon and top_sort return the machine
 instead of an empty one

---
 rustfst-python/rustfst/algorithms/rm_epsilon.py | 6 ++----
 rustfst-python/rustfst/algorithms/top_sort.py   | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/rustfst-python/rustfst/algorithms/rm_epsilon.py b/rustfst-python/rustfst/algorithms/rm_epsilon.py
index 9738689..48372d2 100644
--- a/rustfst-python/rustfst/algorithms/rm_epsilon.py
+++ b/rustfst-python/rustfst/algorithms/rm_epsilon.py
@@ -1,5 +1,4 @@
 from __future__ import annotations
-import ctypes
 from rustfst.ffi_utils import (
     lib,
     check_ffi_error,
@@ -16,9 +15,8 @@ def rm_epsilon(fst: VectorFst):
     :return: Fst
     """
 
-    rm_epsilon_fst = ctypes.c_void_p()
-    ret_code = lib.fst_rm_epsilon(fst.ptr, ctypes.byref(rm_epsilon_fst))
+    ret_code = lib.fst_rm_epsilon(fst.ptr)
     err_msg = "Error during rm_epsilon"
     check_ffi_error(ret_code, err_msg)
 
-    return VectorFst(ptr=rm_epsilon_fst)
+    return fst
diff --git a/rustfst-python/rustfst/algorithms/top_sort.py b/rustfst-python/rustfst/algorithms/top_sort.py
index cdbf1c3..e2ef788 100644
--- a/rustfst-python/rustfst/algorithms/top_sort.py
+++ b/rustfst-python/rustfst/algorithms/top_sort.py
@@ -1,5 +1,4 @@
 from __future__ import annotations
-import ctypes
 from rustfst.ffi_utils import (
     lib,
     check_ffi_error,
@@ -28,9 +27,8 @@ def top_sort(fst: VectorFst) -> VectorFst:
         Equivalent top sorted Fst. Modification also happens in-place.
     """
 
-    top_sorted_fst = ctypes.c_void_p()
-    ret_code = lib.fst_top_sort(fst.ptr, ctypes.byref(top_sorted_fst))
+    ret_code = lib.fst_top_sort(fst.ptr)
     err_msg = "Error during top_sort"
     check_ffi_error(ret_code, err_msg)
 
-    return VectorFst(ptr=top_sorted_fst)
+    return fst
-- 
2.43.0


From 34ac06784f0bd7d6400f02158a22d57dfc5454e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:46 +0000
Subject: [PATCH 58/65] fix: an empty state-order or topological-order queue
 has no head

---
 rustfst/src/algorithms/queues/state_order_queue.rs | 3 +++
 rustfst/src/algorithms/queues/top_order_queue.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/rustfst/src/algorithms/queues/state_order_queue.rs b/rustfst/src/algorithms/queues/state_order_queue.rs
index b7898fa..4439415 100644
--- a/rustfst/src/algorithms/queues/state_order_queue.rs
+++ b/rustfst/src/algorithms/queues/state_order_queue.rs
@@ -10,6 +10,9 @@ pub struct StateOrderQueue {
 
 impl Queue for StateOrderQueue {
     fn head(&mut self) -> Option<StateId> {
+        if self.is_empty() {
+            return None;
+        }
         Some(self.front as StateId)
     }
 
diff --git a/rustfst/src/algorithms/queues/top_order_queue.rs b/rustfst/src/algorithms/queues/top_order_queue.rs
index 5f1c4e2..2196ea3 100644
--- a/rustfst/src/algorithms/queues/top_order_queue.rs
+++ b/rustfst/src/algorithms/queues/top_order_queue.rs
@@ -39,6 +39,9 @@ impl TopOrderQueue {
 
 impl Queue for TopOrderQueue {
     fn head(&mut self) -> Option<StateId> {
+        if self.is_empty() {
+            return None;
+        }
         self.state[self.front as usize]
     }
 
-- 
2.43.0


From 41718919a371413193442279b879017f3f5615da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:46 +0000
Subject: [PATCH 59/65] fix: SccQueue knows it is empty when its last component
 was drained before an earlier one

---
 rustfst/src/algorithms/queues/scc_queue.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rustfst/src/algorithms/queues/scc_queue.rs b/rustfst/src/algorithms/queues/scc_queue.rs
index 757d6f7..915369c 100644
--- a/rustfst/src/algorithms/queues/scc_queue.rs
+++ b/rustfst/src/algorithms/queues/scc_queue.rs
@@ -1,6 +1,5 @@
 use crate::algorithms::{Queue, QueueType};
 use crate::StateId;
-use std::cmp::Ordering;
 
 #[derive(Debug)]
 pub struct SccQueue {
@@ -31,6 +30,9 @@ impl SccQueue {
 
 impl Queue for SccQueue {
     fn head(&mut self) -> Option<StateId> {
+        if self.is_empty() {
+            return None;
+        }
         self.update_front();
         self.queues[self.front as usize].head()
     }
@@ -62,11 +64,7 @@ impl Queue for SccQueue {
     }
 
     fn is_empty(&self) -> bool {
-        match self.front.cmp(&self.back) {
-            Ordering::Less => false,
-            Ordering::Greater => true,
-            Ordering::Equal => self.queues[self.front as usize].is_empty(),
-        }
+        (self.front..=self.back).all(|i| self.queues[i as usize].is_empty())
     }
 
     fn clear(&mut self) {
-- 
2.43.0


From d2eb7a138050c98c45cbaef7870a0e70d4c65937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:46 +0000
Subject: [PATCH 60/65] fix: NaturalShortestFirstQueue releases the shortest
 state first and supports update

---
 rustfst/src/algorithms/queues/shortest_first_queue.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/queues/shortest_first_queue.rs b/rustfst/src/algorithms/queues/shortest_first_queue.rs
index bf588f0..26f83bb 100644
--- a/rustfst/src/algorithms/queues/shortest_first_queue.rs
+++ b/rustfst/src/algorithms/queues/shortest_first_queue.rs
@@ -62,7 +62,9 @@ impl<C: Clone + FnMut(&StateId, &StateId) -> Ordering> Queue for ShortestFirstQu
     }
 
     fn update(&mut self, _state: StateId) {
-        unimplemented!()
+        // The order may have changed: rebuild the heap.
+        let states: Vec<_> = self.heap.drain().collect();
+        self.heap.extend(states);
     }
 
     fn is_empty(&self) -> bool {
@@ -87,10 +89,13 @@ impl NaturalShortestFirstQueue {
     pub fn new<W: 'static + Semiring>(weights: Vec<W>) -> Self {
         let a = StateWeightCompare::new(weights, natural_less);
         let heap = ShortestFirstQueue::new(move |v1, v2| {
+            // The heap releases its greatest element first.
             if a.compare(*v1, *v2).unwrap() {
+                Ordering::Greater
+            } else if a.compare(*v2, *v1).unwrap() {
                 Ordering::Less
             } else {
-                Ordering::Greater
+                Ordering::Equal
             }
         });
         NaturalShortestFirstQueue {
-- 
2.43.0


From 95bee93fd4885dd552a9a6afd363e5c944ad1e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:32 +0000
Subject: [PATCH 61/65] fix: draw escapes quotes and backslashes of symbols

---
 rustfst/src/fst_traits/serializable_fst.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/fst_traits/serializable_fst.rs b/rustfst/src/fst_traits/serializable_fst.rs
index 323d8af..e9aff8c 100644
--- a/rustfst/src/fst_traits/serializable_fst.rs
+++ b/rustfst/src/fst_traits/serializable_fst.rs
@@ -170,7 +170,7 @@ fn draw_single_fst_state<S: SerializableSemiring, F: SerializableFst<S>, W: Writ
             || Ok(format!("{}", tr.ilabel)),
             |symt| {
                 symt.get_symbol(tr.ilabel)
-                    .map(|v| v.to_string())
+                    .map(escape_dot)
                     .ok_or_else(|| format_err!("Missing {} in input SymbolTable", tr.ilabel))
             },
         )?;
@@ -179,7 +179,7 @@ fn draw_single_fst_state<S: SerializableSemiring, F: SerializableFst<S>, W: Writ
             || Ok(format!("{}", tr.olabel)),
             |symt| {
                 symt.get_symbol(tr.olabel)
-                    .map(|v| v.to_string())
+                    .map(escape_dot)
                     .ok_or_else(|| format_err!("Missing {} in output SymbolTable", tr.olabel))
             },
         )?;
@@ -197,3 +197,8 @@ fn draw_single_fst_state<S: SerializableSemiring, F: SerializableFst<S>, W: Writ
 
     Ok(())
 }
+
+/// Escapes the characters of a symbol that have a meaning inside a quoted dot label.
+fn escape_dot(symbol: &str) -> String {
+    symbol.replace('\\', "\\\\").replace('"', "\\\"")
+}
-- 
2.43.0


From 18ddc79a124c3c97592b4f4942a139e0207f17f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:07 +0000
Subject: [PATCH 62/65] fix: normalizing an interval set with an empty interval
 terminates

---
 rustfst/src/algorithms/compose/interval_set.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rustfst/src/algorithms/compose/interval_set.rs b/rustfst/src/algorithms/compose/interval_set.rs
index 5b9cd75..294f7c2 100644
--- a/rustfst/src/algorithms/compose/interval_set.rs
+++ b/rustfst/src/algorithms/compose/interval_set.rs
@@ -164,6 +164,7 @@ impl IntervalSet {
             let inti_index = i;
             if inti.begin == inti.end {
                 // Empty interval
+                i += 1;
                 continue;
             }
             for j in (inti_index + 1)..n_intervals {
-- 
2.43.0


From 21ea0be6b0049b036276b44bc67c2b8afb494d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:45 +0000
Subject: [PATCH 63/65] fix: MultiEpsMatcher lists every multi-epsilon label
 and then the epsilons

---
 .../compose/matchers/multi_eps_matcher.rs     | 58 +++++++------------
 1 file changed, 21 insertions(+), 37 deletions(-)

diff --git a/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs b/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs
index 4f29eaf..c814628 100644
--- a/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs
+++ b/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs
@@ -82,43 +82,27 @@ where
     type Item = IterItemMatcher<W>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(ref mut matcher_iter) = &mut self.iter_matcher {
-            let res = matcher_iter.next();
-            let done = res.is_none();
-            if done {
-                if let Some((multi_eps_labels, pos_labels)) = &mut self.iter_labels {
-                    if *pos_labels >= multi_eps_labels.len() {
-                        return None;
-                    }
-                    *pos_labels += 1;
-                    while *pos_labels < multi_eps_labels.len() {
-                        let mut it = self
-                            .matcher
-                            .iter(self.matcher_state, multi_eps_labels[*pos_labels] as Label)
-                            .unwrap()
-                            .peekable();
-                        if it.peek().is_some() {
-                            *matcher_iter = it;
-                            break;
-                        }
-                        *pos_labels += 1;
-                    }
-                    if *pos_labels < multi_eps_labels.len() {
-                        self.done = false;
-                        res
-                    } else {
-                        *matcher_iter = self
-                            .matcher
-                            .iter(self.matcher_state, NO_LABEL)
-                            .unwrap()
-                            .peekable();
-                        matcher_iter.next()
-                    }
-                } else {
-                    res
+        if let Some(matcher_iter) = &mut self.iter_matcher {
+            loop {
+                let res = matcher_iter.next();
+                if res.is_some() {
+                    return res;
                 }
-            } else {
-                res
+                // Moves to the next multi-epsilon label and at the end to the epsilons.
+                let (multi_eps_labels, pos_labels) = self.iter_labels.as_mut()?;
+                *pos_labels += 1;
+                let next_label = match multi_eps_labels.get(*pos_labels) {
+                    Some(label) => *label,
+                    None => {
+                        self.iter_labels = None;
+                        NO_LABEL
+                    }
+                };
+                *matcher_iter = self
+                    .matcher
+                    .iter(self.matcher_state, next_label)
+                    .unwrap()
+                    .peekable();
             }
         } else if self.done {
             None
@@ -311,7 +295,7 @@ impl<K: Copy + Ord> CompactSet<K> {
         if self.min_key == self.no_key || key < self.min_key {
             self.min_key = key;
         }
-        if self.max_key == self.no_key || self.max_key > key {
+        if self.max_key == self.no_key || key > self.max_key {
             self.max_key = key;
         }
     }
-- 
2.43.0


From 2dbc54f80f820a2785a33960078690276cc95e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:40 +0000
Subject: [PATCH 64/65] fix: epsilon removal with distances that are stale or
 missing

---
 .../src/algorithms/rm_epsilon/rm_epsilon_state.rs  |  4 ++++
 rustfst/src/algorithms/shortest_distance.rs        | 14 ++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/rm_epsilon/rm_epsilon_state.rs b/rustfst/src/algorithms/rm_epsilon/rm_epsilon_state.rs
index f20a444..0b9f29f 100644
--- a/rustfst/src/algorithms/rm_epsilon/rm_epsilon_state.rs
+++ b/rustfst/src/algorithms/rm_epsilon/rm_epsilon_state.rs
@@ -55,6 +55,10 @@ impl<W: Semiring, Q: Queue> RmEpsilonState<W, Q> {
         let mut trs = vec![];
         let mut final_weight = W::zero();
         while let Some(state) = eps_queue.pop() {
+            // Only reached with a negligible weight.
+            if distance.len() <= (state as usize) {
+                continue;
+            }
             while self.visited.len() <= (state as usize) {
                 self.visited.push(false);
             }
diff --git a/rustfst/src/algorithms/shortest_distance.rs b/rustfst/src/algorithms/shortest_distance.rs
index 5030f5b..2d65706 100644
--- a/rustfst/src/algorithms/shortest_distance.rs
+++ b/rustfst/src/algorithms/shortest_distance.rs
@@ -230,9 +230,19 @@ impl<W: Semiring, Q: Queue, A: TrFilter<W>> ShortestDistanceState<W, Q, A> {
                 }
             }
         }
-        self.source_id += 1;
         // TODO: This clone could be avoided
-        Ok(self.distance.clone())
+        let mut distance = self.distance.clone();
+        if self.retain {
+            // What earlier sources left for states that this one didn't reach.
+            let source_id = Some(self.source_id as StateId);
+            for (d, s) in distance.iter_mut().zip(self.sources.iter()) {
+                if *s != source_id {
+                    *d = W::zero();
+                }
+            }
+        }
+        self.source_id += 1;
+        Ok(distance)
     }
 }
 
-- 
2.43.0


From e4db4e996c26c0b8ace03eebd51736936a4217d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:44 +0000
Subject: [PATCH 65/65] fix: factor_weight: final labels that differ do not
 keep an acceptor

---
 rustfst/src/algorithms/factor_weight/factor_weight_op.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/factor_weight/factor_weight_op.rs b/rustfst/src/algorithms/factor_weight/factor_weight_op.rs
index f6a7192..817a219 100644
--- a/rustfst/src/algorithms/factor_weight/factor_weight_op.rs
+++ b/rustfst/src/algorithms/factor_weight/factor_weight_op.rs
@@ -144,7 +144,14 @@ where
             bail!("Factoring neither tr weights nor final weights");
         }
         let factor_tr_weights = opts.mode.contains(FactorWeightType::FACTOR_ARC_WEIGHTS);
-        let properties = factor_weight_properties(fst.borrow().properties());
+        let mut properties = factor_weight_properties(fst.borrow().properties());
+        if opts.mode.contains(FactorWeightType::FACTOR_FINAL_WEIGHTS)
+            && (opts.final_ilabel != opts.final_olabel
+                || opts.increment_final_ilabel != opts.increment_final_olabel)
+        {
+            // The transitions added for the final weights may not be acceptor ones.
+            properties.remove(FstProperties::ACCEPTOR);
+        }
         Ok(Self {
             opts,
             fst,
-- 
2.43.0

