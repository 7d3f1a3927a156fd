From 364362edff3f7464d3080d02016db474f9d669be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 01/74] fix: empty bound ranges in the inverted encoding
 simulators

Converting an empty range underflowed and panicked.
---
 src/encodings/card/simulators.rs | 3 +++
 src/encodings/pb/simulators.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/encodings/card/simulators.rs b/src/encodings/card/simulators.rs
index a222162..3a06363 100644
--- a/src/encodings/card/simulators.rs
+++ b/src/encodings/card/simulators.rs
@@ -53,6 +53,9 @@ where
     CE: Encode + 'static,
 {
     fn convert_encoding_range(&self, range: std::ops::Range<usize>) -> std::ops::Range<usize> {
+        if range.is_empty() {
+            return 0..0;
+        }
         let min = self.n_lits() - (range.end - 1);
         let max = if self.n_lits() >= range.start {
             self.n_lits() - range.start + 1
diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index 180e205..449d1b4 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -53,6 +53,9 @@ where
     PBE: Encode + 'static,
 {
     fn convert_encoding_range(&self, range: std::ops::Range<usize>) -> std::ops::Range<usize> {
+        if range.is_empty() {
+            return 0..0;
+        }
         let min = self.weight_sum() - (range.end - 1);
         let max = if self.weight_sum() >= range.start {
             self.weight_sum() - range.start + 1
-- 
2.43.0


From e8a2c7b7de1c69266f3f39884b7b6938b15d6132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 02/74] fix: unbounded and maximal encoding ranges

The range for encoding both bounds started at 1 if unbounded, leaving out bound 0, and bounds of usize::MAX overflowed.
---
 src/encodings/card/mod.rs | 14 +++++++-------
 src/encodings/pb/mod.rs   | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/encodings/card/mod.rs b/src/encodings/card/mod.rs
index c3b846a..0440a7b 100644
--- a/src/encodings/card/mod.rs
+++ b/src/encodings/card/mod.rs
@@ -455,10 +455,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits()),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.n_lits()),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits()),
         std::ops::Bound::Unbounded => enc.n_lits(),
     }
@@ -471,10 +471,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => std::cmp::max(*b, 1),
-        std::ops::Bound::Excluded(b) => std::cmp::max(b + 1, 1),
+        std::ops::Bound::Excluded(b) => std::cmp::max(b.saturating_add(1), 1),
         std::ops::Bound::Unbounded => 1,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.n_lits() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits() + 1),
         std::ops::Bound::Unbounded => enc.n_lits() + 1,
     }
@@ -487,10 +487,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
-        std::ops::Bound::Unbounded => 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
+        std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.n_lits() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits() + 1),
         std::ops::Bound::Unbounded => enc.n_lits() + 1,
     }
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index a206e2a..5623149 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -503,10 +503,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum()),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.weight_sum()),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum()),
         std::ops::Bound::Unbounded => enc.weight_sum(),
     }
@@ -519,10 +519,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => std::cmp::max(*b, 1),
-        std::ops::Bound::Excluded(b) => std::cmp::max(b + 1, 1),
+        std::ops::Bound::Excluded(b) => std::cmp::max(b.saturating_add(1), 1),
         std::ops::Bound::Unbounded => 1,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.weight_sum() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum() + 1),
         std::ops::Bound::Unbounded => enc.weight_sum() + 1,
     }
@@ -535,10 +535,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
-        std::ops::Bound::Unbounded => 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
+        std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.weight_sum() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum() + 1),
         std::ops::Bound::Unbounded => enc.weight_sum() + 1,
     }
-- 
2.43.0


From d3c5efd383d10471458e95c254a9cc2150d2294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 03/74] fix: totalizers re-encode both bounds from scratch in
 encode_both

Without resetting, parts that were encoded into a different collector were skipped. The referenced totalizers additionally did not reset for lower bounds and rejected enforcing the trivial lower bound 0.
---
 src/encodings/card/totalizer/mod.rs        |  2 ++
 src/encodings/card/totalizer/referenced.rs | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/encodings/card/totalizer/mod.rs b/src/encodings/card/totalizer/mod.rs
index 80eb6ad..e406217 100644
--- a/src/encodings/card/totalizer/mod.rs
+++ b/src/encodings/card/totalizer/mod.rs
@@ -358,6 +358,7 @@ impl super::BoundBoth for Totalizer {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize> + Clone,
     {
+        self.db.reset_encoded(totdb::Semantics::IfAndOnlyIf);
         self.encode_ub_change(range.clone(), collector, var_manager)?;
         self.encode_lb_change(range, collector, var_manager)?;
         Ok(())
@@ -639,6 +640,7 @@ impl super::cert::BoundBoth for Totalizer {
         use super::cert::BoundLowerIncremental;
         use super::cert::BoundUpperIncremental;
 
+        self.db.reset_encoded(totdb::Semantics::IfAndOnlyIf);
         self.encode_ub_change_cert(range.clone(), collector, var_manager, proof)?;
         self.encode_lb_change_cert(range, collector, var_manager, proof)?;
         Ok(())
diff --git a/src/encodings/card/totalizer/referenced.rs b/src/encodings/card/totalizer/referenced.rs
index 8a1f1d3..7f1679f 100644
--- a/src/encodings/card/totalizer/referenced.rs
+++ b/src/encodings/card/totalizer/referenced.rs
@@ -191,11 +191,14 @@ impl crate::encodings::card::BoundLower for Tot<'_> {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        self.db.reset_encoded(totdb::Semantics::If);
+        self.db.reset_encoded(totdb::Semantics::OnlyIf);
         self.encode_lb_change(range, collector, var_manager)
     }
 
     fn enforce_lb(&self, lb: usize) -> Result<Vec<Lit>, EnforceError> {
+        if lb == 0 {
+            return Ok(vec![]);
+        }
         if lb > self.n_lits() {
             return Err(EnforceError::Unsat);
         }
@@ -232,11 +235,14 @@ impl crate::encodings::card::BoundLower for TotCell<'_> {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        self.db.borrow_mut().reset_encoded(totdb::Semantics::If);
+        self.db.borrow_mut().reset_encoded(totdb::Semantics::OnlyIf);
         self.encode_lb_change(range, collector, var_manager)
     }
 
     fn enforce_lb(&self, lb: usize) -> Result<Vec<Lit>, EnforceError> {
+        if lb == 0 {
+            return Ok(vec![]);
+        }
         if lb > self.n_lits() {
             return Err(EnforceError::Unsat);
         }
@@ -385,6 +391,7 @@ impl crate::encodings::card::BoundBoth for Tot<'_> {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize> + Clone,
     {
+        self.db.reset_encoded(totdb::Semantics::IfAndOnlyIf);
         self.encode_ub_change(range.clone(), collector, var_manager)?;
         self.encode_lb_change(range, collector, var_manager)?;
         Ok(())
@@ -402,6 +409,9 @@ impl crate::encodings::card::BoundBoth for TotCell<'_> {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize> + Clone,
     {
+        self.db
+            .borrow_mut()
+            .reset_encoded(totdb::Semantics::IfAndOnlyIf);
         self.encode_ub_change(range.clone(), collector, var_manager)?;
         self.encode_lb_change(range, collector, var_manager)?;
         Ok(())
-- 
2.43.0


From 37f012d2e68f48450ac4e9ef94951e495b2abf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 04/74] fix: unsatisfiable unit-weight equality PB constraints

An equality where the bound is not divisible by the common weight hit an unreachable panic in encode_pb_constraint.
---
 src/encodings/pb/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index 5623149..7f2ea9f 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -39,6 +39,7 @@ use crate::instances::ManageVars;
 use crate::types::constraints::PbConstraint;
 use crate::types::constraints::PbEqConstr;
 use crate::types::constraints::PbLbConstr;
+use crate::types::constraints::PbToCardError;
 use crate::types::constraints::PbUbConstr;
 use crate::types::Clause;
 use crate::types::Lit;
@@ -486,8 +487,12 @@ where
         return collector.add_clause(unreachable_err!(constr.into_clause()));
     }
     if constr.is_card() {
-        let card = unreachable_err!(constr.into_card_constr());
-        return card::default_encode_cardinality_constraint(card, collector, var_manager);
+        return match constr.into_card_constr() {
+            Ok(card) => card::default_encode_cardinality_constraint(card, collector, var_manager),
+            // an equality where the bound is not divisible by the unit weight
+            Err(PbToCardError::Unsat) => collector.add_clause(Clause::new()),
+            Err(_) => unreachable!(),
+        };
     }
     match PBE::encode_constr(constr, collector, var_manager) {
         Ok(()) => Ok(()),
-- 
2.43.0


From 29af30b769fde7b6071b9d5907b09532e11b3981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 05/74] fix: duplicate literals and zero weights in PB
 encodings and constraints

Collecting weighted literals dropped earlier weights of repeated literals, and literals of weight zero led to wrong encodings or panics.
---
 src/encodings/pb/adder.rs      |  8 ++++----
 src/encodings/pb/dpw/mod.rs    |  9 ++++++---
 src/encodings/pb/gte/mod.rs    |  8 ++++----
 src/encodings/pb/mod.rs        | 12 ++++++++++++
 src/encodings/pb/simulators.rs | 10 ++++------
 src/types/constraints.rs       | 10 ++++++----
 6 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 4b4328d..4153a03 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -435,7 +435,8 @@ impl crate::encodings::EncodeStats for BinaryAdder {
 }
 
 impl From<RsHashMap<Lit, usize>> for BinaryAdder {
-    fn from(lits: RsHashMap<Lit, usize>) -> Self {
+    fn from(mut lits: RsHashMap<Lit, usize>) -> Self {
+        lits.retain(|_, w| *w > 0);
         Self {
             lit_buffer: lits,
             ..Default::default()
@@ -445,14 +446,13 @@ impl From<RsHashMap<Lit, usize>> for BinaryAdder {
 
 impl FromIterator<(Lit, usize)> for BinaryAdder {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
-        Self::from(lits)
+        Self::from(super::sum_weights(iter))
     }
 }
 
 impl Extend<(Lit, usize)> for BinaryAdder {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
-        iter.into_iter().for_each(|(l, w)| {
+        iter.into_iter().filter(|(_, w)| *w > 0).for_each(|(l, w)| {
             // Insert into buffer to be added to tree
             match self.lit_buffer.get_mut(&l) {
                 Some(old_w) => *old_w += w,
diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 150dbfa..3c3eaf7 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -100,6 +100,9 @@ impl DynamicPolyWatchdog {
                 "cannot add inputs after building the encoding",
             ));
         }
+        if weight == 0 {
+            return Ok(());
+        }
         if let Some(lweight) = self.in_lits.get_mut(&lit) {
             *lweight += weight;
         } else {
@@ -416,7 +419,8 @@ impl crate::encodings::EncodeStats for DynamicPolyWatchdog {
 }
 
 impl From<RsHashMap<Lit, usize>> for DynamicPolyWatchdog {
-    fn from(lits: RsHashMap<Lit, usize>) -> Self {
+    fn from(mut lits: RsHashMap<Lit, usize>) -> Self {
+        lits.retain(|_, w| *w > 0);
         let weight_sum = lits.iter().fold(0, |sum, (_, w)| sum + *w);
         let mut db = totdb::Db::default();
         let weight_queue = lit_weight_queue(lits.clone().into_iter(), &mut db);
@@ -435,8 +439,7 @@ impl From<RsHashMap<Lit, usize>> for DynamicPolyWatchdog {
 
 impl FromIterator<(Lit, usize)> for DynamicPolyWatchdog {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
-        Self::from(lits)
+        Self::from(super::sum_weights(iter))
     }
 }
 
diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 8d29ab3..9200671 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -358,7 +358,8 @@ impl crate::encodings::EncodeStats for GeneralizedTotalizer {
 }
 
 impl From<RsHashMap<Lit, usize>> for GeneralizedTotalizer {
-    fn from(lits: RsHashMap<Lit, usize>) -> Self {
+    fn from(mut lits: RsHashMap<Lit, usize>) -> Self {
+        lits.retain(|_, w| *w > 0);
         Self {
             lit_buffer: lits,
             ..Default::default()
@@ -368,14 +369,13 @@ impl From<RsHashMap<Lit, usize>> for GeneralizedTotalizer {
 
 impl FromIterator<(Lit, usize)> for GeneralizedTotalizer {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
-        Self::from(lits)
+        Self::from(super::sum_weights(iter))
     }
 }
 
 impl Extend<(Lit, usize)> for GeneralizedTotalizer {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
-        iter.into_iter().for_each(|(l, w)| {
+        iter.into_iter().filter(|(_, w)| *w > 0).for_each(|(l, w)| {
             // Insert into buffer to be added to tree
             match self.lit_buffer.get_mut(&l) {
                 Some(old_w) => *old_w += w,
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index 7f2ea9f..e3d41d7 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -43,6 +43,7 @@ use crate::types::constraints::PbToCardError;
 use crate::types::constraints::PbUbConstr;
 use crate::types::Clause;
 use crate::types::Lit;
+use crate::types::RsHashMap;
 use crate::utils::unreachable_err;
 
 use super::card;
@@ -501,6 +502,17 @@ where
     }
 }
 
+/// Collects weighted literals, summing up the weights of literals that appear multiple times
+fn sum_weights<I: IntoIterator<Item = (Lit, usize)>>(iter: I) -> RsHashMap<Lit, usize> {
+    let iter = iter.into_iter();
+    let mut lits = RsHashMap::default();
+    lits.reserve(iter.size_hint().0);
+    for (lit, weight) in iter {
+        *lits.entry(lit).or_insert(0) += weight;
+    }
+    lits
+}
+
 fn prepare_ub_range<Enc, R>(enc: &Enc, range: R) -> std::ops::Range<usize>
 where
     Enc: Encode,
diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index 449d1b4..a5e9c90 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -85,8 +85,7 @@ where
     PBE: Encode + From<RsHashMap<Lit, usize>> + 'static,
 {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
-        Self::from(lits)
+        Self::from(super::sum_weights(iter))
     }
 }
 
@@ -95,7 +94,7 @@ where
     PBE: Encode + Extend<(Lit, usize)> + 'static,
 {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().map(|(l, w)| (!l, w)).collect();
+        let lits: Vec<(Lit, usize)> = iter.into_iter().map(|(l, w)| (!l, w)).collect();
         let ws = lits.iter().fold(0, |ws, (_, w)| ws + w);
         self.pb_enc.extend(lits);
         self.weight_sum += ws;
@@ -554,8 +553,7 @@ where
     LBE: BoundLower + From<RsHashMap<Lit, usize>> + 'static,
 {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
-        Self::from(lits)
+        Self::from(super::sum_weights(iter))
     }
 }
 
@@ -565,7 +563,7 @@ where
     LBE: BoundLower + Extend<(Lit, usize)> + 'static,
 {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
+        let lits: Vec<(Lit, usize)> = iter.into_iter().collect();
         self.ub_enc.extend(lits.clone());
         self.lb_enc.extend(lits);
     }
diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index 121fca5..6120afd 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -1239,12 +1239,14 @@ impl PbConstraint {
         })
     }
 
-    /// Converts input literals to non-negative weights, also returns the weight sum and the sum to add to the bound
+    /// Converts input literals to positive weights, also returns the weight sum and the sum to add
+    /// to the bound. Literals with coefficient zero are dropped.
     fn convert_input_lits<LI: super::IWLitIter>(lits: LI) -> (impl super::WLitIter, usize, isize) {
         let mut b_add = 0;
         let mut weight_sum = 0;
         let lits: Vec<(Lit, usize)> = lits
             .into_iter()
+            .filter(|(_, w)| *w != 0)
             .map(|(l, w)| {
                 if w >= 0 {
                     weight_sum += w.unsigned_abs();
@@ -1271,7 +1273,7 @@ impl PbConstraint {
 
     /// Constructs a new upper bound pseudo-boolean constraint (`weighted sum of lits <= b`)
     pub fn new_ub_unsigned<LI: super::WLitIter>(lits: LI, b: isize) -> Self {
-        let lits: Vec<_> = lits.into_iter().collect();
+        let lits: Vec<_> = lits.into_iter().filter(|(_, w)| *w != 0).collect();
         let weight_sum = lits.iter().fold(0, |sum, (_, w)| sum + w);
         PbConstraint::Ub(PbUbConstr {
             lits,
@@ -1292,7 +1294,7 @@ impl PbConstraint {
 
     /// Constructs a new lower bound pseudo-boolean constraint (`weighted sum of lits >= b`)
     pub fn new_lb_unsigned<LI: super::WLitIter>(lits: LI, b: isize) -> Self {
-        let lits: Vec<_> = lits.into_iter().collect();
+        let lits: Vec<_> = lits.into_iter().filter(|(_, w)| *w != 0).collect();
         let weight_sum = lits.iter().fold(0, |sum, (_, w)| sum + w);
         PbConstraint::Lb(PbLbConstr {
             lits,
@@ -1313,7 +1315,7 @@ impl PbConstraint {
 
     /// Constructs a new equality pseudo-boolean constraint (`weighted sum of lits = b`)
     pub fn new_eq_unsigned<LI: super::WLitIter>(lits: LI, b: isize) -> Self {
-        let lits: Vec<_> = lits.into_iter().collect();
+        let lits: Vec<_> = lits.into_iter().filter(|(_, w)| *w != 0).collect();
         let weight_sum = lits.iter().fold(0, |sum, (_, w)| sum + w);
         PbConstraint::Eq(PbEqConstr {
             lits,
-- 
2.43.0


From 7791421199c39fa301c6c5af4988e6ec68f14ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 06/74] fix: binary adder re-encoding, reserving, and enforcing
 with pending literals

---
 src/encodings/pb/adder.rs | 112 +++++++++++++++-----------------------
 1 file changed, 45 insertions(+), 67 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 4153a03..ad8f349 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -148,6 +148,40 @@ impl BinaryAdder {
             comparator: Vec::new(),
         });
     }
+
+    /// Resets the status of what has already been encoded
+    ///
+    /// The outputs of the adder nodes are always reset, the comparator outputs only for the given
+    /// bound types
+    fn reset_encoded(&mut self, ub: bool, lb: bool) {
+        for node in &mut self.nodes {
+            if let Node::Full { sum: Some(out), .. } | Node::Half { sum: Some(out), .. } = node {
+                out.enc_if = false;
+                out.enc_only_if = false;
+            }
+            if let Node::Full {
+                carry: Some(out), ..
+            }
+            | Node::Half {
+                carry: Some(out), ..
+            } = node
+            {
+                out.enc_if = false;
+                out.enc_only_if = false;
+            }
+        }
+        let Some(structure) = &mut self.structure else {
+            return;
+        };
+        for out in structure.comparator.iter_mut().flatten() {
+            if ub {
+                out.enc_if = false;
+            }
+            if lb {
+                out.enc_only_if = false;
+            }
+        }
+    }
 }
 
 impl super::Encode for BinaryAdder {
@@ -169,23 +203,7 @@ impl super::BoundUpper for BinaryAdder {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        // reset previous encoding status
-        for node in &mut self.nodes {
-            if let Node::Full { sum: Some(out), .. } | Node::Half { sum: Some(out), .. } = node {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-            if let Node::Full {
-                carry: Some(out), ..
-            }
-            | Node::Half {
-                carry: Some(out), ..
-            } = node
-            {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-        }
+        self.reset_encoded(true, false);
         self.encode_ub_change(range, collector, var_manager)
     }
 
@@ -193,6 +211,9 @@ impl super::BoundUpper for BinaryAdder {
         if ub >= self.weight_sum() {
             return Ok(vec![]);
         }
+        if !self.lit_buffer.is_empty() {
+            return Err(EnforceError::NotEncoded);
+        }
         let Some(structure) = &self.structure else {
             return Err(EnforceError::NotEncoded);
         };
@@ -282,23 +303,7 @@ impl super::BoundLower for BinaryAdder {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        // reset previous encoding status
-        for node in &mut self.nodes {
-            if let Node::Full { sum: Some(out), .. } | Node::Half { sum: Some(out), .. } = node {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-            if let Node::Full {
-                carry: Some(out), ..
-            }
-            | Node::Half {
-                carry: Some(out), ..
-            } = node
-            {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-        }
+        self.reset_encoded(false, true);
         self.encode_lb_change(range, collector, var_manager)
     }
 
@@ -309,6 +314,9 @@ impl super::BoundLower for BinaryAdder {
         if lb == 0 {
             return Ok(vec![]);
         }
+        if !self.lit_buffer.is_empty() {
+            return Err(EnforceError::NotEncoded);
+        }
         let Some(structure) = &self.structure else {
             return Err(EnforceError::NotEncoded);
         };
@@ -400,6 +408,7 @@ impl super::BoundBoth for BinaryAdder {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize> + Clone,
     {
+        self.reset_encoded(true, true);
         self.encode_ub_change(range.clone(), collector, var_manager)?;
         self.encode_lb_change(range, collector, var_manager)?;
         Ok(())
@@ -412,12 +421,8 @@ impl super::EncodeIncremental for BinaryAdder {
     fn reserve(&mut self, var_manager: &mut dyn ManageVars) {
         self.extend_structure();
 
-        if let Some(structure) = &self.structure {
-            for &o in &structure.outputs {
-                if let Some(Connection::Sum(node) | Connection::Carry(node)) = o {
-                    reserve(&mut self.nodes[..=node], var_manager);
-                }
-            }
+        for node in &mut self.nodes {
+            node.reserve(var_manager);
         }
     }
 }
@@ -859,33 +864,6 @@ where
     }
 }
 
-/// Reserves the variables for the last node in `nodes` recursively
-fn reserve(nodes: &mut [Node], var_manager: &mut dyn ManageVars) {
-    let (nodes, node) = nodes.split_at_mut(nodes.len());
-
-    let node = &mut node[0];
-    node.reserve(var_manager);
-
-    let mut recurse = |con: Connection| match con {
-        Connection::Input(_) => {}
-        Connection::Sum(node) | Connection::Carry(node) => {
-            reserve(&mut nodes[..=node], var_manager);
-        }
-    };
-
-    match node {
-        Node::Full { a, b, c, .. } => {
-            recurse(*a);
-            recurse(*b);
-            recurse(*c);
-        }
-        Node::Half { a, b, .. } => {
-            recurse(*a);
-            recurse(*b);
-        }
-    }
-}
-
 fn comparator_if<Col>(
     rhs: usize,
     output: Lit,
-- 
2.43.0


From 0e7997f10199e7da9c0311cd34a04b79bb42e589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 07/74] fix: generalized totalizer next_higher/next_lower with
 pending literals

---
 src/encodings/pb/gte/mod.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 9200671..52ce6bb 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -126,6 +126,18 @@ impl GeneralizedTotalizer {
         }
     }
 
+    /// Gets the next higher output value of the tree, or `val + 1` if there is none
+    fn next_output(&self, val: usize) -> usize {
+        self.root
+            .and_then(|con| {
+                self.db[con.id]
+                    .vals(con.rev_map_round_up(val + 1)..)
+                    .next()
+                    .map(|val| con.map(val))
+            })
+            .unwrap_or(val + 1)
+    }
+
     /// Gets the depth of the encoding, i.e., the longest path from the root to a leaf
     #[must_use]
     pub fn depth(&self) -> usize {
@@ -203,11 +215,13 @@ impl super::Encode for GeneralizedTotalizer {
     }
 
     fn next_higher(&self, val: usize) -> usize {
-        if let Some(con) = self.root {
-            self.db[con.id]
-                .vals(con.rev_map_round_up(val + 1)..)
-                .next()
-                .map_or(val + 1, |val| con.map(val))
+        if self.root.is_some() {
+            let next = self.next_output(val);
+            // literals that are not yet in the tree can contribute to any higher value
+            self.lit_buffer
+                .values()
+                .min()
+                .map_or(next, |&weight| next.min(weight.max(val + 1)))
         } else {
             val + 1
         }
@@ -217,7 +231,9 @@ impl super::Encode for GeneralizedTotalizer {
         if val == 0 {
             return 0;
         }
-        if let Some(con) = self.root {
+        // literals that are not yet in the tree can contribute to any value of at least their weight
+        let buffered = self.lit_buffer.values().any(|&weight| weight < val);
+        if let (Some(con), false) = (self.root, buffered) {
             return self.db[con.id]
                 .vals(con.offset()..con.rev_map_round_up(val))
                 .next_back()
@@ -438,7 +454,7 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
         }
         let mut enc = Self::from_iter(lits);
         enc.encode_ub_cert(ub..=ub, collector, var_manager, proof)?;
-        let mut val = enc.next_higher(ub);
+        let mut val = enc.next_output(ub);
         for unit in enc
             .enforce_ub(ub)
             .expect("should have caught special case before here")
@@ -471,7 +487,7 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
                 )?;
                 #[cfg(feature = "verbose-proofs")]
                 proof.equals(&unit_cl, Some(unit_id.into()))?;
-                val = enc.next_higher(val);
+                val = enc.next_output(val);
                 unit_id
             };
             collector.add_cert_clause(unit_cl, unit_id)?;
-- 
2.43.0


From f021a23490b7e42e731bdeb55464db0353804082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 08/74] fix: dynamic polynomial watchdog enforcing, coarse
 bounds, and range limiting

Bounds were enforced on reserved but not encoded outputs, single literal and below-precision inputs were handled wrongly, and limit_range cut off valid solutions.
---
 src/encodings/pb/dpw/mod.rs | 111 +++++++++++++++++++++---------------
 1 file changed, 66 insertions(+), 45 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 3c3eaf7..dc1f385 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -155,6 +155,14 @@ impl DynamicPolyWatchdog {
         }
     }
 
+    /// Checks whether there are weights left that have to be encoded at the current precision
+    fn has_queued(&self) -> bool {
+        self.weight_queue
+            .keys()
+            .next_back()
+            .is_some_and(|weight| *weight >= self.prec_div)
+    }
+
     /// Checks whether the encoding is already at the maximum precision
     #[must_use]
     pub fn is_max_precision(&self) -> bool {
@@ -182,43 +190,38 @@ impl DynamicPolyWatchdog {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        let range = super::prepare_ub_range(self, range);
-        if let Some(structure) = &self.structure {
-            if self.is_max_precision() {
-                let output_weight = 1 << (structure.output_power());
-                let range = range.start / output_weight..range.end.div_ceil(output_weight);
-                let root = &self.db[structure.root()];
-                // positively harden lower bound
-                collector.extend_clauses(
-                    root.vals(..=range.start)
-                        .filter_map(|val| root.lit(val).map(|&olit| crate::clause![olit])),
-                )?;
-                // negatively harden upper bound
-                collector.extend_clauses(
-                    root.vals(range.end..)
-                        .filter_map(|val| root.lit(val).map(|&olit| crate::clause![!olit])),
-                )?;
-            } else {
-                let idx_offset = (crate::utils::digits(structure.prec_div, 2) - 1) as usize;
-                for (idx, &bottom) in structure.bottom_buckets.iter().rev().enumerate() {
-                    let div = 1usize << (idx + idx_offset);
-                    let range = range.start / div..range.end.div_ceil(div);
-                    let top_con = crate::utils::unreachable_none!(self.db[bottom].left());
-                    debug_assert_eq!(top_con.divisor(), 1);
-                    let top = &self.db[top_con.id];
-                    // positively harden lower bound
-                    collector.extend_clauses(
-                        top.vals(..=top_con.rev_map(range.start))
-                            .filter_map(|val| top.lit(val).map(|&olit| crate::clause![olit])),
-                    )?;
-                    // negatively harden upper bound
-                    collector.extend_clauses(
-                        top.vals(top_con.rev_map_round_up(range.end)..)
-                            .filter_map(|val| top.lit(val).map(|&olit| crate::clause![!olit])),
-                    )?;
-                }
-            }
+        let Some(structure) = &self.structure else {
+            return Ok(());
+        };
+        // the output literals count multiples of this value
+        let output_weight = structure.output_weight(1);
+        let root = &self.db[structure.root()];
+        // positively harden lower bound
+        // NOTE: as long as parts of the weights are not encoded, a lower bound on the sum does not
+        // give a lower bound on the value of the encoded part
+        if self.is_max_precision() {
+            let start = match range.start_bound() {
+                std::ops::Bound::Included(b) => *b,
+                std::ops::Bound::Excluded(b) => b.saturating_add(1),
+                std::ops::Bound::Unbounded => 0,
+            };
+            collector.extend_clauses(
+                root.vals(..=start / output_weight)
+                    .filter_map(|val| root.lit(val).map(|&olit| crate::clause![olit])),
+            )?;
         }
+        // negatively harden upper bound
+        let end = match range.end_bound() {
+            std::ops::Bound::Included(b) => b.saturating_add(1),
+            std::ops::Bound::Excluded(b) => *b,
+            std::ops::Bound::Unbounded => usize::MAX,
+        };
+        // NOTE: no input assignment reaches values higher than the weight sum
+        let end = std::cmp::min(end, self.weight_sum + 1);
+        collector.extend_clauses(
+            root.vals(end.div_ceil(output_weight)..)
+                .filter_map(|val| root.lit(val).map(|&olit| crate::clause![!olit])),
+        )?;
         Ok(())
     }
 }
@@ -252,6 +255,11 @@ impl Structure {
     pub fn output_power(&self) -> usize {
         self.tares.len()
     }
+    /// Gets the weight of the output literals in terms of a given precision that is at least as
+    /// high as the precision of the structure
+    fn output_weight(&self, prec_div: usize) -> usize {
+        (std::cmp::max(self.prec_div, 1) / std::cmp::max(prec_div, 1)) << self.output_power()
+    }
 }
 
 impl super::Encode for DynamicPolyWatchdog {
@@ -274,7 +282,7 @@ impl super::EncodeIncremental for DynamicPolyWatchdog {
         if self.in_lits.len() <= 1 {
             return;
         }
-        if self.structure.is_none() {
+        if self.structure.is_none() && self.has_queued() {
             self.structure = Some(build_structure(
                 &mut self.weight_queue,
                 self.prec_div,
@@ -324,11 +332,16 @@ impl super::BoundUpper for DynamicPolyWatchdog {
             enforce_ub(structure, ub, &self.db)
         } else {
             if self.in_lits.len() > 1 {
+                if !self.has_queued() {
+                    // no input has any weight at this precision
+                    return Ok(vec![]);
+                }
                 return Err(EnforceError::NotEncoded);
             }
-            debug_assert_eq!(self.in_lits.len(), 1);
-            let (l, w) = self.in_lits.iter().next().unwrap();
-            Ok(if *w <= ub * std::cmp::min(self.prec_div, 1) {
+            let Some((l, w)) = self.in_lits.iter().next() else {
+                return Ok(vec![]);
+            };
+            Ok(if *w / std::cmp::max(self.prec_div, 1) <= ub {
                 vec![]
             } else {
                 vec![-(*l)]
@@ -339,7 +352,7 @@ impl super::BoundUpper for DynamicPolyWatchdog {
     fn coarse_ub(&self, ub: usize) -> usize {
         match &self.structure {
             Some(structure) => {
-                let output_weight = 1 << (structure.output_power());
+                let output_weight = structure.output_weight(self.prec_div);
                 if output_weight == 1 {
                     return ub;
                 }
@@ -370,7 +383,7 @@ impl super::BoundUpperIncremental for DynamicPolyWatchdog {
         }
         let n_vars_before = var_manager.n_used();
         let mut fresh = false;
-        if self.structure.is_none() && !self.in_lits.is_empty() {
+        if self.structure.is_none() && self.has_queued() {
             fresh = true;
             self.structure = Some(build_structure(
                 &mut self.weight_queue,
@@ -396,7 +409,7 @@ impl super::BoundUpperIncremental for DynamicPolyWatchdog {
                 );
                 merge_structures(structure, new_struct, &mut self.db, collector, var_manager)?;
             }
-            let output_weight = 1 << (structure.output_power());
+            let output_weight = structure.output_weight(self.prec_div);
             let output_range = (range.start / output_weight)..=((range.end - 1) / output_weight);
             for oidx in output_range {
                 encode_output(structure, oidx, &mut self.db, collector, var_manager)?;
@@ -839,8 +852,16 @@ fn enforce_ub(dpw: &Structure, ub: usize, tot_db: &totdb::Db) -> Result<Vec<Lit>
     if oidx >= tot_db[dpw.root()].max_val() {
         return Ok(vec![]);
     }
-    let Some(&olit) = tot_db[dpw.root()].lit(oidx + 1) else {
-        return Err(EnforceError::NotEncoded);
+    let olit = match &tot_db[dpw.root()] {
+        totdb::Node::Leaf(lit) => *lit,
+        totdb::Node::Unit(node) => match node.lits[oidx] {
+            totdb::LitData::Lit {
+                lit,
+                semantics: Some(semantics),
+            } if semantics.has_if() => lit,
+            _ => return Err(EnforceError::NotEncoded),
+        },
+        totdb::Node::General(_) | totdb::Node::Dummy => unreachable!(),
     };
     let mut assumps = vec![!olit];
     // inputs <= enforced_weight at this stage
-- 
2.43.0


From 6f39df2811a74e85c89a7ad13e85961d13bb0c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 09/74] fix: constraint evaluation under partial assignments
 and inversion underflow

---
 src/types/constraints.rs | 99 +++++++++++++++++++++-------------------
 1 file changed, 52 insertions(+), 47 deletions(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index 6120afd..f298cf0 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -880,20 +880,26 @@ impl CardConstraint {
     /// Checks whether the cardinality constraint is satisfied by the given assignment
     #[must_use]
     pub fn evaluate(&self, assign: &super::Assignment) -> TernaryVal {
-        let range = self
+        // the minimum and maximum number of literals that are true in extensions of the assignment
+        let (min, max) = self
             .iter()
-            .fold(0..0, |rng, &lit| match assign.lit_value(lit) {
-                TernaryVal::True => rng.start + 1..rng.end + 1,
-                TernaryVal::False => rng,
-                TernaryVal::DontCare => rng.start..rng.end + 1,
+            .fold((0, 0), |(min, max), &lit| match assign.lit_value(lit) {
+                TernaryVal::True => (min + 1, max + 1),
+                TernaryVal::False => (min, max),
+                TernaryVal::DontCare => (min, max + 1),
             });
-        if range.contains(&self.bound()) {
-            return TernaryVal::DontCare;
-        }
-        match self {
-            CardConstraint::Ub(CardUbConstr { b, .. }) => (range.start <= *b).into(),
-            CardConstraint::Lb(CardLbConstr { b, .. }) => (range.start >= *b).into(),
-            CardConstraint::Eq(CardEqConstr { b, .. }) => (range.start == *b).into(),
+        let b = self.bound();
+        let (always, never) = match self {
+            CardConstraint::Ub(_) => (max <= b, min > b),
+            CardConstraint::Lb(_) => (min >= b, max < b),
+            CardConstraint::Eq(_) => (min == b && max == b, min > b || max < b),
+        };
+        if always {
+            TernaryVal::True
+        } else if never {
+            TernaryVal::False
+        } else {
+            TernaryVal::DontCare
         }
     }
 }
@@ -1020,7 +1026,7 @@ impl CardUbConstr {
         let length = self.lits.len();
         CardLbConstr {
             lits: self.lits,
-            b: length - self.b,
+            b: length.saturating_sub(self.b),
         }
     }
 
@@ -1074,6 +1080,10 @@ impl CardLbConstr {
     }
 
     /// Converts the lower bound constraint into an equivalent upper bound constraint
+    ///
+    /// # Panics
+    ///
+    /// If the constraint is unsatisfiable, since there is no equivalent upper bound then
     #[must_use]
     pub fn invert(mut self) -> CardUbConstr {
         self.lits.iter_mut().for_each(|l| {
@@ -1082,7 +1092,9 @@ impl CardLbConstr {
         let length = self.lits.len();
         CardUbConstr {
             lits: self.lits,
-            b: length - self.b,
+            b: length
+                .checked_sub(self.b)
+                .expect("cannot invert an unsatisfiable constraint"),
         }
     }
 
@@ -1617,40 +1629,33 @@ impl PbConstraint {
     /// Checks whether the PB constraint is satisfied by the given assignment
     #[must_use]
     pub fn evaluate(&self, assign: &super::Assignment) -> TernaryVal {
-        let range = self
-            .iter()
-            .fold(0..0, |rng, &(lit, coeff)| match assign.lit_value(lit) {
-                TernaryVal::True => rng.start + coeff..rng.end + coeff,
-                TernaryVal::False => rng,
-                TernaryVal::DontCare => rng.start..rng.end + coeff,
-            });
-        match (isize::try_from(range.start), isize::try_from(range.end)) {
-            (Ok(start), Ok(end)) => {
-                if (start..end).contains(&self.bound()) {
-                    return TernaryVal::DontCare;
-                }
-                match self {
-                    PbConstraint::Ub(PbUbConstr { b, .. }) => (start <= *b).into(),
-                    PbConstraint::Lb(PbLbConstr { b, .. }) => (start >= *b).into(),
-                    PbConstraint::Eq(PbEqConstr { b, .. }) => (start == *b).into(),
-                }
-            }
-            (Ok(start), Err(_)) => match self {
-                PbConstraint::Ub(PbUbConstr { b, .. }) => {
-                    if (start..).contains(b) {
-                        return TernaryVal::DontCare;
+        // the minimum and maximum weighted sum in extensions of the assignment
+        let (min, max) =
+            self.iter()
+                .fold((0, 0), |(min, max), &(lit, coeff)| {
+                    match assign.lit_value(lit) {
+                        TernaryVal::True => (min + coeff, max + coeff),
+                        TernaryVal::False => (min, max),
+                        TernaryVal::DontCare => (min, max + coeff),
                     }
-                    TernaryVal::True
-                }
-                PbConstraint::Lb(PbLbConstr { b, .. }) | PbConstraint::Eq(PbEqConstr { b, .. }) => {
-                    if (start..).contains(b) {
-                        return TernaryVal::DontCare;
-                    }
-                    TernaryVal::False
-                }
-            },
-            (Err(_), Err(_)) => matches!(self, PbConstraint::Lb(_)).into(),
-            (Err(_), Ok(_)) => unreachable!(), // since end >= start
+                });
+        // compares a sum to the bound without overflowing
+        let cmp = |sum: usize| match usize::try_from(self.bound()) {
+            Ok(b) => sum.cmp(&b),
+            Err(_) => std::cmp::Ordering::Greater,
+        };
+        let (min, max) = (cmp(min), cmp(max));
+        let (always, never) = match self {
+            PbConstraint::Ub(_) => (max.is_le(), min.is_gt()),
+            PbConstraint::Lb(_) => (min.is_ge(), max.is_lt()),
+            PbConstraint::Eq(_) => (min.is_eq() && max.is_eq(), min.is_gt() || max.is_lt()),
+        };
+        if always {
+            TernaryVal::True
+        } else if never {
+            TernaryVal::False
+        } else {
+            TernaryVal::DontCare
         }
     }
 }
-- 
2.43.0


From 0ad8366fcb869b758fa91006abdf3ddc5890fed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 10/74] fix: Lit::new accepts the maximum variable index

---
 src/types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 6b59c21..79ac74e 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -366,7 +366,7 @@ impl Lit {
     /// If `idx > Var::MAX_IDX`.
     #[must_use]
     pub const fn new(idx: u32, negated: bool) -> Lit {
-        assert!(idx < Var::MAX_IDX, "variable index too high");
+        assert!(idx <= Var::MAX_IDX, "variable index too high");
         Lit {
             lidx: Lit::represent(idx, negated),
         }
-- 
2.43.0


From df6f2a15614c2d74874a3ec9b7c53c5feb8fa84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 11/74] fix: atomics keep the literal for tautological upper
 bounds

---
 src/encodings/atomics.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/encodings/atomics.rs b/src/encodings/atomics.rs
index 90288dc..2e30512 100644
--- a/src/encodings/atomics.rs
+++ b/src/encodings/atomics.rs
@@ -131,6 +131,9 @@ pub fn card_impl_lit(card: &CardConstraint, lit: Lit) -> PbConstraint {
     );
     match card {
         CardConstraint::Ub(c) => {
+            if c.is_tautology() {
+                return PbConstraint::new_unit(lit);
+            }
             let (lits, bound) = c.decompose_ref();
             let bound = 2 * lits.len() - bound - 1;
             let mut lits: Vec<_> = lits.iter().map(|lit| (!*lit, 1)).collect();
@@ -206,6 +209,9 @@ pub fn pb_impl_lit(pb: &PbConstraint, lit: Lit) -> PbConstraint {
     );
     match pb {
         PbConstraint::Ub(c) => {
+            if c.is_tautology() {
+                return PbConstraint::new_unit(lit);
+            }
             let ws = isize::try_from(pb.weight_sum())
                 .expect("cannot handle sums of weight larger than `isize::MAX`");
             let (lits, bound) = c.decompose_ref();
-- 
2.43.0


From 0f547a950e28cc01d66b619283e4cb37e74265f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 12/74] fix: conflict detection and multi-byte characters in
 value lines

---
 src/types/mod.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 79ac74e..ba7b4ab 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -990,12 +990,13 @@ impl Assignment {
             return Err(InvalidVLine::EmptyLine);
         }
         // determine line format
+        // NOTE: if the tag is not a single byte, the tag check below fails
+        let body = lines.get(1..).unwrap_or("").trim();
         let format = if lines.contains('x') {
             VLineFormat::PbComp
-        } else if !lines[1..].trim().contains(' ')
-            && lines[1..].trim() != "0"
-            && lines[1..]
-                .trim()
+        } else if !body.contains(' ')
+            && body != "0"
+            && body
                 .chars()
                 .try_for_each(|c| {
                     if c == '1' || c == '0' {
@@ -1041,10 +1042,7 @@ impl Assignment {
             }
 
             let literal = Lit::from_ipasir(number)?;
-            let val = self.lit_value(literal);
-            if val == TernaryVal::True && literal.is_neg()
-                || val == TernaryVal::False && literal.is_pos()
-            {
+            if self.lit_value(literal) == TernaryVal::False {
                 // Catch conflicting assignments
                 return Err(InvalidVLine::ConflictingAssignment(literal.var()));
             }
@@ -1081,8 +1079,7 @@ impl Assignment {
                         1,
                     )
                 })?;
-            let val = self.lit_value(lit);
-            if val == TernaryVal::True && lit.is_neg() || val == TernaryVal::False && lit.is_pos() {
+            if self.lit_value(lit) == TernaryVal::False {
                 // Catch conflicting assignments
                 return Err(InvalidVLine::ConflictingAssignment(lit.var()));
             }
-- 
2.43.0


From 6a2da82eb59c1f8a70823c91c8baa0e1654b7715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 13/74] fix: header and comments written by write_cnf and
 write_wcnf

---
 src/instances/fio/dimacs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/instances/fio/dimacs.rs b/src/instances/fio/dimacs.rs
index 0d61418..058e6f8 100644
--- a/src/instances/fio/dimacs.rs
+++ b/src/instances/fio/dimacs.rs
@@ -876,8 +876,8 @@ pub fn write_cnf<W: std::io::Write, Iter: Iterator<Item = CnfLine>>(
     mut data: Iter,
 ) -> Result<(), std::io::Error> {
     data.try_for_each(|dat| match dat {
-        CnfLine::Header(n_vars, n_clauses) => writeln!(writer, "p {n_vars} {n_clauses}"),
-        CnfLine::Comment(c) => write!(writer, "c {c}"),
+        CnfLine::Header(n_vars, n_clauses) => writeln!(writer, "p cnf {n_vars} {n_clauses}"),
+        CnfLine::Comment(c) => writeln!(writer, "c {c}"),
         CnfLine::Clause(cl) => write_clause(&mut writer, &cl),
     })
 }
@@ -937,7 +937,7 @@ pub fn write_wcnf<W: std::io::Write, Iter: Iterator<Item = WcnfLine>>(
     mut data: Iter,
 ) -> Result<(), std::io::Error> {
     data.try_for_each(|dat| match dat {
-        WcnfLine::Comment(c) => write!(writer, "c {c}"),
+        WcnfLine::Comment(c) => writeln!(writer, "c {c}"),
         WcnfLine::Hard(cl) => {
             write!(writer, "h ")?;
             write_clause(&mut writer, &cl)
-- 
2.43.0


From 381423b4dc783f3d4e8b89a444d717ffc5d81186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 14/74] fix: strictly-less operator in OPB parsing

---
 src/instances/fio/opb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index f67c324..77b12bb 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -388,7 +388,7 @@ fn constraint<'i>(opts: Options) -> impl OpbParser<'i, PbConstraint> {
         |(sum, opt, b)| match opt {
             OpbOperator::LE => PbConstraint::new_ub(sum, b),
             OpbOperator::GE => PbConstraint::new_lb(sum, b),
-            OpbOperator::LT => PbConstraint::new_ub(sum, b + 1),
+            OpbOperator::LT => PbConstraint::new_ub(sum, b - 1),
             OpbOperator::GT => PbConstraint::new_lb(sum, b + 1),
             OpbOperator::EQ => PbConstraint::new_eq(sum, b),
         },
-- 
2.43.0


From 54b56f54ddfb79b1b390048367e864a868c5088e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 15/74] fix: re-indexing variable managers keep their maps in
 sync

---
 src/instances/mod.rs | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/instances/mod.rs b/src/instances/mod.rs
index 6abbd23..29b5edd 100644
--- a/src/instances/mod.rs
+++ b/src/instances/mod.rs
@@ -155,7 +155,8 @@ impl Default for BasicVarManager {
 pub struct ReindexingVarManager {
     next_var: Var,
     in_map: RsHashMap<Var, Var>,
-    out_map: Vec<Var>,
+    /// The reverse of `in_map`. Variables that do not stem from re-indexing are [`None`]
+    out_map: Vec<Option<Var>>,
 }
 
 impl ReindexingVarManager {
@@ -166,9 +167,22 @@ impl ReindexingVarManager {
     pub fn from_next_free(next_var: Var) -> Self {
         Self {
             next_var,
-            in_map: RsHashMap::default(),
-            out_map: (0..next_var.idx32()).map(Var::new).collect(),
+            in_map: (0..next_var.idx32())
+                .map(|idx| (Var::new(idx), Var::new(idx)))
+                .collect(),
+            out_map: (0..next_var.idx32())
+                .map(|idx| Some(Var::new(idx)))
+                .collect(),
+        }
+    }
+
+    /// Stores a mapping in both directions
+    fn insert(&mut self, in_var: Var, out_var: Var) {
+        self.in_map.insert(in_var, out_var);
+        if out_var.idx() >= self.out_map.len() {
+            self.out_map.resize(out_var.idx() + 1, None);
         }
+        self.out_map[out_var.idx()] = Some(in_var);
     }
 }
 
@@ -178,17 +192,13 @@ impl ReindexVars for ReindexingVarManager {
             *v
         } else {
             let v = self.new_var();
-            self.in_map.insert(in_var, v);
-            self.out_map.push(in_var);
+            self.insert(in_var, v);
             v
         }
     }
 
     fn reverse(&self, out_var: Var) -> Option<Var> {
-        if out_var.idx() >= self.out_map.len() {
-            return None;
-        }
-        Some(self.out_map[out_var.idx()])
+        self.out_map.get(out_var.idx()).copied().flatten()
     }
 }
 
@@ -229,7 +239,9 @@ impl ManageVars for ReindexingVarManager {
         if other.next_var > self.next_var {
             self.next_var = other.next_var;
         }
-        self.in_map.extend(other.in_map);
+        for (in_var, out_var) in other.in_map {
+            self.insert(in_var, out_var);
+        }
     }
 
     fn n_used(&self) -> u32 {
@@ -238,7 +250,7 @@ impl ManageVars for ReindexingVarManager {
 
     fn forget_from(&mut self, min_var: Var) {
         self.in_map.retain(|_, v| *v < min_var);
-        self.out_map.truncate(min_var.idx() + 1);
+        self.out_map.truncate(min_var.idx());
         self.next_var = std::cmp::min(self.next_var, min_var);
     }
 }
@@ -366,6 +378,7 @@ impl ReindexVars for RandReindVarManager {
             Some(v) => *v,
             None => {
                 // Don't reindex vars that are out of initialized range
+                self.mark_used(in_var);
                 in_var
             }
         }
@@ -410,7 +423,12 @@ impl ManageVars for RandReindVarManager {
         if other.next_var > self.next_var {
             self.next_var = other.next_var;
         }
-        self.in_map.extend(other.in_map);
+        // The maps are permutations of different ranges that cannot be merged, so the one of
+        // `other` has precedence unless it does not cover all variables
+        if other.in_map.len() >= self.in_map.len() {
+            self.in_map = other.in_map;
+            self.out_map = other.out_map;
+        }
     }
 
     fn n_used(&self) -> u32 {
-- 
2.43.0


From a702e3e036ed6f40fdee81bf72aa1ef816b057fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 16/74] fix: SAT instance extending and variable tracking

---
 src/instances/sat.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index ba92001..4256dbb 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -709,6 +709,8 @@ impl<VM: super::ManageVars> Instance<VM> {
     /// Extends the instance by another instance
     pub fn extend(&mut self, other: Instance<VM>) {
         self.cnf.extend(other.cnf);
+        self.cards.extend(other.cards);
+        self.pbs.extend(other.pbs);
         self.var_manager.combine(other.var_manager);
     }
 
@@ -927,6 +929,8 @@ impl<VM: super::ManageVars> Instance<VM> {
             })
             .collect();
         if unsat {
+            let mut var_manager = self.var_manager;
+            var_manager.mark_used(Var::new(0));
             return Self {
                 cnf: Cnf::from_iter(vec![
                     crate::clause![Lit::new(0, false)],
@@ -934,7 +938,7 @@ impl<VM: super::ManageVars> Instance<VM> {
                 ]),
                 cards: vec![],
                 pbs: vec![],
-                var_manager: self.var_manager,
+                var_manager,
             };
         }
         Self {
@@ -1157,7 +1161,7 @@ impl<VM: super::ManageVars + Default> From<Cnf> for Instance<VM> {
 
 impl<VM: super::ManageVars> Extend<Clause> for Instance<VM> {
     fn extend<T: IntoIterator<Item = Clause>>(&mut self, iter: T) {
-        self.cnf.extend(iter);
+        iter.into_iter().for_each(|cl| self.add_clause(cl));
     }
 }
 
@@ -1170,7 +1174,12 @@ impl CollectClauses for Instance {
     where
         T: IntoIterator<Item = Clause>,
     {
-        self.cnf.extend_clauses(cl_iter)
+        let n_before = self.cnf.len();
+        let res = self.cnf.extend_clauses(cl_iter);
+        for l in self.cnf.clauses[n_before..].iter().flatten() {
+            super::ManageVars::mark_used(&mut self.var_manager, l.var());
+        }
+        res
     }
 }
 
-- 
2.43.0


From 72d72187ffefa7a788d3de9557f93899550ba819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 17/74] fix: objective duplicates, normalization, empty soft
 clauses, and parsing offsets

---
 src/instances/opt.rs | 82 ++++++++++++++++++++++++++++----------------
 1 file changed, 52 insertions(+), 30 deletions(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index bcc32e8..4378fb9 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -400,18 +400,22 @@ impl Objective {
                 ..
             } => {
                 if w == 0 {
-                    if let Some(idx) = soft_lits.iter().position(|l2| l2 == &l) {
-                        soft_lits.swap_remove(idx);
-                        return Some(crate::utils::unreachable_none!(*unit_weight));
+                    let old_len = soft_lits.len();
+                    soft_lits.retain(|l2| l2 != &l);
+                    let removed = old_len - soft_lits.len();
+                    if removed > 0 {
+                        return Some(removed * crate::utils::unreachable_none!(*unit_weight));
                     }
                     None
                 } else if let Some(unit_weight) = unit_weight {
                     if w == *unit_weight {
-                        if soft_lits.iter().any(|l2| l2 == &l) {
+                        let n_occ = soft_lits.iter().filter(|l2| *l2 == &l).count();
+                        if n_occ == 1 {
                             return Some(*unit_weight);
                         }
+                        soft_lits.retain(|l2| l2 != &l);
                         soft_lits.push(l);
-                        None
+                        (n_occ > 0).then_some(n_occ * *unit_weight)
                     } else {
                         // Type changes from unweighted to weighted
                         self.unweighted_2_weighted();
@@ -500,18 +504,22 @@ impl Objective {
                 ..
             } => {
                 if w == 0 {
-                    if let Some(idx) = soft_clauses.iter().position(|cl2| cl2 == &cl) {
-                        soft_clauses.swap_remove(idx);
-                        return Some(crate::utils::unreachable_none!(*unit_weight));
+                    let old_len = soft_clauses.len();
+                    soft_clauses.retain(|cl2| cl2 != &cl);
+                    let removed = old_len - soft_clauses.len();
+                    if removed > 0 {
+                        return Some(removed * crate::utils::unreachable_none!(*unit_weight));
                     }
                     None
                 } else if let Some(unit_weight) = unit_weight {
                     if w == *unit_weight {
-                        if soft_clauses.iter().any(|cl2| cl2 == &cl) {
+                        let n_occ = soft_clauses.iter().filter(|cl2| *cl2 == &cl).count();
+                        if n_occ == 1 {
                             return Some(*unit_weight);
                         }
+                        soft_clauses.retain(|cl2| cl2 != &cl);
                         soft_clauses.push(cl);
-                        None
+                        (n_occ > 0).then_some(n_occ * *unit_weight)
                     } else {
                         // Type changes from unweighted to weighted
                         self.unweighted_2_weighted();
@@ -529,10 +537,18 @@ impl Objective {
 
     /// Increases the weight of a soft clause. Returns the old weight, if the
     /// clause was already in the objective.
+    ///
+    /// # Panics
+    ///
+    /// If the clause is empty and `add_w` is larger than [`isize::MAX`]
     pub fn increase_soft_clause(&mut self, add_w: usize, cl: Clause) {
         if add_w == 0 {
             return;
         }
+        if cl.is_empty() {
+            self.increase_offset(isize::try_from(add_w).expect("weight overflow"));
+            return;
+        }
         if cl.len() == 1 {
             return self.increase_soft_lit(add_w, !cl[0]);
         }
@@ -570,10 +586,9 @@ impl Objective {
                 soft_lits,
                 ..
             } => {
-                if soft_lits.iter().any(|l2| l2 == &l) {
-                    Some(crate::utils::unreachable_none!(*unit_weight))
-                } else {
-                    None
+                match soft_lits.iter().filter(|l2| *l2 == &l).count() {
+                    0 => None,
+                    n_occ => Some(n_occ * crate::utils::unreachable_none!(*unit_weight)),
                 }
             }
         }
@@ -589,10 +604,9 @@ impl Objective {
                 soft_clauses,
                 ..
             } => {
-                if soft_clauses.iter().any(|cl2| cl2 == cl) {
-                    Some(crate::utils::unreachable_none!(*unit_weight))
-                } else {
-                    None
+                match soft_clauses.iter().filter(|cl2| *cl2 == cl).count() {
+                    0 => None,
+                    n_occ => Some(n_occ * crate::utils::unreachable_none!(*unit_weight)),
                 }
             }
         }
@@ -943,7 +957,12 @@ impl Objective {
                     *soft_clauses.entry(clause).or_default() += weight;
                 }
                 if soft_clauses.is_empty() && soft_lits.is_empty() {
-                    return Self::default();
+                    return Self(IntObj::Unweighted {
+                        offset: *offset,
+                        unit_weight: None,
+                        soft_lits: Vec::default(),
+                        soft_clauses: Vec::default(),
+                    });
                 }
                 let unit_weight = *soft_lits
                     .values()
@@ -1009,26 +1028,26 @@ impl Objective {
                 }
 
                 soft_lits.sort_unstable();
+                if soft_lits.windows(2).any(|pair| pair[0] == pair[1]) {
+                    // duplicate literal: objective is actually weighted
+                    self.unweighted_2_weighted();
+                    return self.normalize();
+                }
                 let mut next = 0;
                 let mut end = 0;
-                while next < soft_lits.len() - 1 {
-                    if soft_lits[next] == !soft_lits[next + 1] {
+                while next < soft_lits.len() {
+                    if next + 1 < soft_lits.len() && soft_lits[next] == !soft_lits[next + 1] {
                         // skip conflicting literals
                         *offset += isize::try_from(unit_weight)
                             .expect("can only handle weights up to `isize::MAX`");
                         next += 2;
                         continue;
                     }
-                    if soft_lits[next] == soft_lits[next + 1] {
-                        // duplicate literal: objective is actually weighted
-                        self.unweighted_2_weighted();
-                        return self.normalize();
-                    }
                     soft_lits.swap(end, next);
                     end += 1;
                     next += 1;
                 }
-                soft_lits.truncate(end + usize::from(next < soft_lits.len()));
+                soft_lits.truncate(end);
 
                 if soft_lits.is_empty() && soft_clauses.is_empty() {
                     *self_unit_weight = None;
@@ -1612,7 +1631,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                     .into_iter()
                     .map(|(coeff, lit)| (!lit, coeff))
                     .collect();
-                obj.increase_offset(offset - coeff_sum);
+                obj.increase_offset(-offset - coeff_sum);
                 obj
             }
         };
@@ -1665,7 +1684,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
             }
             let blit = vm.new_lit();
             solver
-                .add_clause(cl | !blit)
+                .add_clause(cl | blit)
                 .expect("failed adding clause to solver");
             (blit, weight)
         };
@@ -1689,7 +1708,10 @@ impl<VM: super::ManageVars + Default> FromIterator<super::fio::dimacs::WcnfLine>
                 super::fio::dimacs::WcnfLine::Comment(_) => (),
                 super::fio::dimacs::WcnfLine::Hard(cl) => inst.constraints_mut().add_clause(cl),
                 super::fio::dimacs::WcnfLine::Soft(cl, w) => {
-                    inst.objective_mut().add_soft_clause(w, cl);
+                    for l in &cl {
+                        inst.constraints_mut().var_manager_mut().mark_used(l.var());
+                    }
+                    inst.objective_mut().increase_soft_clause(w, cl);
                 }
             }
         }
-- 
2.43.0


From 70d0b8dbbb7eef3c0f1947a9a1ac53d239861536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 18/74] fix: multi-objective relaxation variables, duplicate
 soft clauses, and parsing offsets

---
 src/instances/multiopt.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index d781e12..d7c446b 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -166,7 +166,7 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
             }
             v
         });
-        vm.increase_next_free(omv);
+        vm.increase_next_free(omv + 1);
         let soft_lits = self
             .objs
             .into_iter()
@@ -475,7 +475,7 @@ impl<VM: ManageVars + Default> FromIterator<fio::dimacs::McnfLine> for MultiOptI
                     for l in &cl {
                         inst.constraints_mut().var_manager_mut().mark_used(l.var());
                     }
-                    inst.objective_mut(oidx).add_soft_clause(w, cl);
+                    inst.objective_mut(oidx).increase_soft_clause(w, cl);
                 }
             }
         }
@@ -518,7 +518,7 @@ impl<VM: ManageVars + Default> FromIterator<fio::opb::Data> for MultiOptInstance
                                 .into_iter()
                                 .map(|(coeff, lit)| (!lit, coeff))
                                 .collect();
-                            obj.increase_offset(offset - coeff_sum);
+                            obj.increase_offset(-offset - coeff_sum);
                             obj
                         }
                     };
-- 
2.43.0


From 6c8da231213a79ce6d584021051cd995105d1586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 19/74] fix: solution-improving search with objective-only
 variables or empty solvers

---
 src/algs/maxsat.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/algs/maxsat.rs b/src/algs/maxsat.rs
index 829dc6b..a2dc777 100644
--- a/src/algs/maxsat.rs
+++ b/src/algs/maxsat.rs
@@ -61,9 +61,22 @@ where
     type Solver = Solver;
 
     fn solve(solver: &mut Self::Solver, objective: &[(Lit, usize)]) -> Option<(Assignment, usize)> {
-        let Some(max_var) = solver.max_var() else {
-            return Some((Assignment::default(), 0));
+        // the objective might contain variables that the solver does not know yet
+        let Some(max_var) = objective
+            .iter()
+            .map(|(lit, _)| lit.var())
+            .chain(solver.max_var())
+            .max()
+        else {
+            return match solver.solve().expect("solver error while solving") {
+                SolverResult::Sat => Some((Assignment::default(), 0)),
+                SolverResult::Unsat => None,
+                SolverResult::Interrupted => unreachable!(),
+            };
         };
+        solver
+            .reserve(max_var)
+            .expect("failed reserving variables in solver");
         let mut vm = crate::instances::BasicVarManager::from_next_free(max_var + 1);
         let mut enc: PbEnc = objective.iter().copied().collect();
 
@@ -72,7 +85,8 @@ where
         loop {
             match solver.solve().expect("solver error while solving") {
                 SolverResult::Sat => {
-                    let assign = solver.solution(max_var).expect("failed getting solution");
+                    let mut assign = solver.solution(max_var).expect("failed getting solution");
+                    assign.replace_dont_care(false);
                     let val = objective_value(objective, &assign);
                     sol = Some((assign, val));
                     if val == 0 {
-- 
2.43.0


From 327c0e89626749f2adf38da75a9b47426e7fcbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 20/74] fix: parsers reject out-of-range variables and can
 continue after errors

---
 src/instances/fio/dimacs.rs | 21 ++++++++++++++++-----
 src/instances/fio/opb.rs    | 17 +++++++++--------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/instances/fio/dimacs.rs b/src/instances/fio/dimacs.rs
index 058e6f8..e521dc4 100644
--- a/src/instances/fio/dimacs.rs
+++ b/src/instances/fio/dimacs.rs
@@ -31,6 +31,7 @@ use crate::instances::Cnf;
 use crate::types::Cl;
 use crate::types::Clause;
 use crate::types::Lit;
+use crate::types::Var;
 use crate::utils;
 
 use super::ParsingError;
@@ -75,7 +76,8 @@ impl<Variant, R> Parser<Variant, R> {
     where
         R: std::io::BufRead,
     {
-        debug_assert!(self.buffer.is_empty());
+        // NOTE: the buffer still contains the last line if parsing it failed
+        self.buffer.clear();
         loop {
             let read = self.reader.read_line(&mut self.buffer)?;
             if read == 0 {
@@ -127,7 +129,7 @@ where
     /// encountered.
     #[expect(clippy::missing_panics_doc)]
     pub fn forward_to_body(mut self) -> Result<CnfHeaderData<R>, super::Error> {
-        debug_assert!(self.buffer.is_empty());
+        self.buffer.clear();
         if let Some((n_vars, n_clauses)) = self.variant.header_data {
             return Ok(CnfHeaderData {
                 n_vars,
@@ -361,7 +363,7 @@ where
     /// encountered.
     #[expect(clippy::missing_panics_doc)]
     pub fn forward_to_body(mut self) -> Result<WcnfHeaderData<R>, super::Error> {
-        debug_assert!(self.buffer.is_empty());
+        self.buffer.clear();
         if let Some(header_data) = self.variant.header_data {
             return Ok(match header_data {
                 WcnfInternalHeaderData::Pre22 {
@@ -719,15 +721,22 @@ where
     }
 }
 
+/// Parses the number of variables in a p-line
+fn n_vars(input: &mut &str) -> ModalResult<u32> {
+    dec_uint
+        .verify(|n_vars| *n_vars <= Var::MAX_IDX)
+        .parse_next(input)
+}
+
 fn cnf_p_line(input: &mut &str) -> ModalResult<(u32, usize)> {
-    seq! { _: 'p', _: space1, _: cut_err("cnf"), _: space1, dec_uint, _: space1, dec_uint, _: space0 }
+    seq! { _: 'p', _: space1, _: cut_err("cnf"), _: space1, n_vars, _: space1, dec_uint, _: space0 }
         .context(StrContext::Label("cnf p-line"))
         .parse_next(input)
 }
 
 #[cfg(feature = "optimization")]
 fn wcnf_p_line(input: &mut &str) -> ModalResult<(u32, usize, usize)> {
-    seq! { _: 'p', _: space1, _: cut_err("wcnf"), _: space1, dec_uint, _: space1, dec_uint, _: space1, dec_uint, _: space0 }
+    seq! { _: 'p', _: space1, _: cut_err("wcnf"), _: space1, n_vars, _: space1, dec_uint, _: space1, dec_uint, _: space0 }
         .context(StrContext::Label("wcnf p-line"))
         .parse_next(input)
 }
@@ -794,6 +803,8 @@ fn obj_idx(input: &mut &str) -> ModalResult<usize> {
 fn lit(input: &mut &str) -> ModalResult<Lit> {
     dec_int::<&str, i32, _>
         .try_map(Lit::from_ipasir)
+        // NOTE: no variable can be free after the one with the maximum index
+        .verify(|lit| lit.vidx32() < Var::MAX_IDX)
         .context(StrContext::Label("IPASIR literal"))
         .parse_next(input)
 }
diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index 77b12bb..a180a90 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -98,13 +98,11 @@ where
         }
         let (data, rest) = match (opb_data(self.opts), rest).parse(&self.buffer[self.processed..]) {
             Err(err) => {
-                return Some(Err(ParsingError::from_parse(
-                    &err,
-                    &self.buffer,
-                    self.processed,
-                    self.line_no,
-                )
-                .into()));
+                let err =
+                    ParsingError::from_parse(&err, &self.buffer, self.processed, self.line_no);
+                // skip the rest of the line
+                self.processed = self.buffer.len();
+                return Some(Err(err.into()));
             }
             Ok(data) => data,
         };
@@ -306,8 +304,11 @@ where
             if idx < self.0 {
                 return Err(VarIdxTooLow(idx, self.0));
             }
-            Ok(Var::new(idx - self.0))
+            Ok(idx - self.0)
         })
+        // NOTE: no variable can be free after the one with the maximum index
+        .verify(|idx| *idx < Var::MAX_IDX)
+        .map(Var::new)
         .context(StrContext::Label("variable"))
         .parse_next(input)
     }
-- 
2.43.0


From 81c5c126180023699bfa8af43f6c9853a20baca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 21/74] fix: read all members of concatenated compressed files

---
 src/instances/fio/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/instances/fio/mod.rs b/src/instances/fio/mod.rs
index da336f0..9122da6 100644
--- a/src/instances/fio/mod.rs
+++ b/src/instances/fio/mod.rs
@@ -138,17 +138,17 @@ pub fn open_compressed_uncompressed_read<P: AsRef<std::path::Path>>(
     if let Some(ext) = path.extension() {
         if ext.eq_ignore_ascii_case(std::ffi::OsStr::new("bz2")) {
             return Ok(Box::new(std::io::BufReader::new(
-                bzip2::read::BzDecoder::new(raw_reader),
+                bzip2::read::MultiBzDecoder::new(raw_reader),
             )));
         }
         if ext.eq_ignore_ascii_case(std::ffi::OsStr::new("gz")) {
             return Ok(Box::new(std::io::BufReader::new(
-                flate2::read::GzDecoder::new(raw_reader),
+                flate2::read::MultiGzDecoder::new(raw_reader),
             )));
         }
         if ext.eq_ignore_ascii_case(std::ffi::OsStr::new("xz")) {
             return Ok(Box::new(std::io::BufReader::new(
-                xz2::read::XzDecoder::new(raw_reader),
+                xz2::read::XzDecoder::new_multi_decoder(raw_reader),
             )));
         }
     }
-- 
2.43.0


From 182dcb71181fd96f9020b3f4ccd96ccdad72d9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 22/74] fix: sanitizing instances with indivisible unit-weight
 equalities

---
 src/instances/sat.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index 4256dbb..d3a917e 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -895,7 +895,11 @@ impl<VM: super::ManageVars> Instance<VM> {
                     return None;
                 }
                 if pb.is_card() {
-                    cards.push(crate::utils::unreachable_err!(pb.into_card_constr()));
+                    match pb.into_card_constr() {
+                        Ok(card) => cards.push(card),
+                        // equality with a bound that is not divisible by the unit weight
+                        Err(_) => unsat = true,
+                    }
                     return None;
                 }
                 Some(pb)
-- 
2.43.0


From 2589e870559b3984420a3ad66ae539bc9e171ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 23/74] fix: encoding constraints of optimization instances
 avoids objective variables

---
 src/instances/multiopt.rs | 32 +++++++++++++++-----------------
 src/instances/opt.rs      | 24 +++++++++++++++++-------
 2 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index d7c446b..f994ae6 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -136,15 +136,14 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
     /// # Panic
     ///
     /// This might panic if the conversion to [`Cnf`] runs out of memory.
-    pub fn into_hard_cls_soft_cls(self) -> (Cnf, Vec<(impl crate::types::WClsIter, isize)>, VM) {
-        let (cnf, mut vm) = self.constrs.into_cnf();
-        let omv = self.objs.iter().fold(Var::new(0), |v, o| {
-            if let Some(mv) = o.max_var() {
-                return std::cmp::max(v, mv);
-            }
-            v
-        });
-        vm.increase_next_free(omv + 1);
+    pub fn into_hard_cls_soft_cls(
+        mut self,
+    ) -> (Cnf, Vec<(impl crate::types::WClsIter, isize)>, VM) {
+        // encoding the constraints must not use variables of the objectives
+        if let Some(omv) = self.objs.iter().filter_map(Objective::max_var).max() {
+            self.constrs.var_manager_mut().increase_next_free(omv + 1);
+        }
+        let (cnf, vm) = self.constrs.into_cnf();
         let soft_cls = self
             .objs
             .into_iter()
@@ -158,15 +157,14 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
     /// # Panic
     ///
     /// This might panic if the conversion to [`Cnf`] runs out of memory.
-    pub fn into_hard_cls_soft_lits(self) -> (Cnf, Vec<(impl crate::types::WLitIter, isize)>, VM) {
+    pub fn into_hard_cls_soft_lits(
+        mut self,
+    ) -> (Cnf, Vec<(impl crate::types::WLitIter, isize)>, VM) {
+        // encoding the constraints must not use variables of the objectives
+        if let Some(omv) = self.objs.iter().filter_map(Objective::max_var).max() {
+            self.constrs.var_manager_mut().increase_next_free(omv + 1);
+        }
         let (mut cnf, mut vm) = self.constrs.into_cnf();
-        let omv = self.objs.iter().fold(Var::new(0), |v, o| {
-            if let Some(mv) = o.max_var() {
-                return std::cmp::max(v, mv);
-            }
-            v
-        });
-        vm.increase_next_free(omv + 1);
         let soft_lits = self
             .objs
             .into_iter()
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 4378fb9..3dee013 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1307,11 +1307,14 @@ impl<VM: super::ManageVars> Instance<VM> {
     /// # Panic
     ///
     /// This might panic if the conversion to [`super::Cnf`] runs out of memory.
-    pub fn into_hard_cls_soft_cls(self) -> (super::Cnf, (impl crate::types::WClsIter, isize), VM) {
-        let (cnf, mut vm) = self.constrs.into_cnf();
+    pub fn into_hard_cls_soft_cls(
+        mut self,
+    ) -> (super::Cnf, (impl crate::types::WClsIter, isize), VM) {
+        // encoding the constraints must not use variables of the objective
         if let Some(mv) = self.obj.max_var() {
-            vm.increase_next_free(mv + 1);
+            self.constrs.var_manager_mut().increase_next_free(mv + 1);
         }
+        let (cnf, vm) = self.constrs.into_cnf();
         (cnf, self.obj.into_soft_cls(), vm)
     }
 
@@ -1321,11 +1324,14 @@ impl<VM: super::ManageVars> Instance<VM> {
     /// # Panic
     ///
     /// This might panic if the conversion to [`super::Cnf`] runs out of memory.
-    pub fn into_hard_cls_soft_lits(self) -> (super::Cnf, (impl crate::types::WLitIter, isize), VM) {
-        let (mut cnf, mut vm) = self.constrs.into_cnf();
+    pub fn into_hard_cls_soft_lits(
+        mut self,
+    ) -> (super::Cnf, (impl crate::types::WLitIter, isize), VM) {
+        // encoding the constraints must not use variables of the objective
         if let Some(mv) = self.obj.max_var() {
-            vm.increase_next_free(mv + 1);
+            self.constrs.var_manager_mut().increase_next_free(mv + 1);
         }
+        let (mut cnf, mut vm) = self.constrs.into_cnf();
         let (hard_softs, softs) = self.obj.into_soft_lits(&mut vm);
         cnf.extend(hard_softs);
         (cnf, softs, vm)
@@ -1659,7 +1665,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
     ///
     /// - If any interaction with the solver errors
     /// - If the objective value overflows [`isize::MAX`]
-    pub fn solve_maxsat<Alg>(self) -> Option<(Assignment, isize)>
+    pub fn solve_maxsat<Alg>(mut self) -> Option<(Assignment, isize)>
     where
         Alg: crate::algs::maxsat::Solve,
         Alg::Solver: Default,
@@ -1668,6 +1674,10 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
         use crate::solvers::Solve;
 
         let mut solver = Alg::Solver::default();
+        // encoding the constraints must not use variables of the objective
+        if let Some(mv) = self.obj.max_var() {
+            self.constrs.var_manager_mut().increase_next_free(mv + 1);
+        }
         let (cnf, vm) = self.constrs.into_cnf();
         let mut vm = if let Some(max_var) = std::cmp::max(vm.max_var(), self.obj.max_var()) {
             super::BasicVarManager::from_next_free(max_var + 1)
-- 
2.43.0


From f2b52c2fe3b0a690697668d821c5c201c45bb211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:27 +0000
Subject: [PATCH 24/74] fix: OPB parser rejects sums that overflow

---
 src/instances/fio/opb.rs | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index a180a90..6809edd 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -229,7 +229,8 @@ impl winnow::stream::Accumulate<(Lit, isize)> for ObjectiveSum {
         if coeff > 0 {
             self.terms.push((coeff.unsigned_abs(), lit));
         } else {
-            self.offset += coeff;
+            // NOTE: sums for which this wraps are rejected by the parser later on
+            self.offset = self.offset.wrapping_add(coeff);
             self.terms.push((coeff.unsigned_abs(), !lit));
         }
     }
@@ -383,15 +384,32 @@ fn ending<'i>(input: &mut &'i str) -> ModalResult<&'i str> {
         .parse_next(input)
 }
 
+/// Checks whether the sum of the absolute values of all coefficients is at most [`isize::MAX`]
+fn coeff_sum_in_range(mut coeffs: impl Iterator<Item = usize>) -> bool {
+    coeffs
+        .try_fold(0_usize, usize::checked_add)
+        .is_some_and(|sum| isize::try_from(sum).is_ok())
+}
+
 /// Parses an OPB constraint
 fn constraint<'i>(opts: Options) -> impl OpbParser<'i, PbConstraint> {
-    seq! { term_sum::<Vec<(Lit, isize)>>(opts), _: space0, operator, _: space0, cut_err(coeff), _: ending }.map(
-        |(sum, opt, b)| match opt {
-            OpbOperator::LE => PbConstraint::new_ub(sum, b),
-            OpbOperator::GE => PbConstraint::new_lb(sum, b),
-            OpbOperator::LT => PbConstraint::new_ub(sum, b - 1),
-            OpbOperator::GT => PbConstraint::new_lb(sum, b + 1),
-            OpbOperator::EQ => PbConstraint::new_eq(sum, b),
+    seq! { term_sum::<Vec<(Lit, isize)>>(opts), _: space0, operator, _: space0, cut_err(coeff), _: ending }.verify_map(
+        |(sum, opt, b)| {
+            let b = match opt {
+                OpbOperator::LT => b.checked_sub(1)?,
+                OpbOperator::GT => b.checked_add(1)?,
+                _ => b,
+            };
+            // weight sum and bound must not overflow when normalizing the constraint
+            if !coeff_sum_in_range(sum.iter().map(|(_, c)| c.unsigned_abs())) {
+                return None;
+            }
+            sum.iter().filter(|(_, c)| *c < 0).try_fold(b, |b, (_, c)| b.checked_sub(*c))?;
+            Some(match opt {
+                OpbOperator::LE | OpbOperator::LT => PbConstraint::new_ub(sum, b),
+                OpbOperator::GE | OpbOperator::GT => PbConstraint::new_lb(sum, b),
+                OpbOperator::EQ => PbConstraint::new_eq(sum, b),
+            })
         },
     ).context(StrContext::Label("constraint"))
 }
@@ -400,6 +418,7 @@ fn constraint<'i>(opts: Options) -> impl OpbParser<'i, PbConstraint> {
 /// Parses an OPB objective
 fn objective<'i>(opts: Options) -> impl OpbParser<'i, Objective> {
     seq! { alt(("min:".map(|_| ObjectiveSense::Minimize), "max:".map(|_| ObjectiveSense::Maximize))), _: space0, cut_err(term_sum::<ObjectiveSum>(opts)), _: cut_err(ending) }
+        .verify(|(_, sum)| coeff_sum_in_range(sum.terms.iter().map(|(c, _)| *c)))
         .map(|(sense,sum )| Objective::new(sense, sum))
         .context(StrContext::Label("objective"))
 }
-- 
2.43.0


From 0bc976a8a5f8df04d46217c9dd8b7208ee87df2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:43 +0000
Subject: [PATCH 25/74] fix: totalizer database draining, dummy nodes, and
 offset or limited connections

---
 src/encodings/nodedb.rs     |  8 +++-
 src/encodings/totdb/cert.rs |  8 ++--
 src/encodings/totdb/mod.rs  | 83 ++++++++++++++++++++++++++-----------
 3 files changed, 70 insertions(+), 29 deletions(-)

diff --git a/src/encodings/nodedb.rs b/src/encodings/nodedb.rs
index d4c743d..c12f9ae 100644
--- a/src/encodings/nodedb.rs
+++ b/src/encodings/nodedb.rs
@@ -395,7 +395,13 @@ pub trait NodeById: std::ops::IndexMut<NodeId, Output = Self::Node> {
 
     /// Gets the number of literals that a [`NodeCon`] transmits.
     fn con_len(&self, con: NodeCon) -> usize {
-        let len = (self[con.id].len() - con.offset()) / con.divisor();
+        let len = if con.offset() == 0 {
+            self[con.id].len()
+        } else {
+            // for nodes with weights, values and number of outputs do not coincide
+            self[con.id].vals(con.offset() + 1..).count()
+        };
+        let len = len / con.divisor();
         if let Some(limit) = con.len_limit {
             std::cmp::min(len, limit.into())
         } else {
diff --git a/src/encodings/totdb/cert.rs b/src/encodings/totdb/cert.rs
index 748b526..606cc8a 100644
--- a/src/encodings/totdb/cert.rs
+++ b/src/encodings/totdb/cert.rs
@@ -553,9 +553,9 @@ impl super::Db {
                                 (right_leaves, right_leaves_populated),
                             )? {
                                 right_leaves_populated = true;
-                                debug_assert!(
-                                    lcon.len_limit.is_none() || lcon.offset() + 1 == lval
-                                );
+                                debug_assert!(lcon
+                                    .len_limit
+                                    .is_none_or(|lim| lval <= lcon.offset() + lim.get()));
                                 let llit = crate::utils::unreachable_none!(self
                                     .define_weighted_treat_pseudo_leaves(
                                         lcon,
@@ -1237,7 +1237,7 @@ impl SemDefs {
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 pub struct SemDefId {
     /// The ID of the node that the definition is for
-    id: NodeId,
+    pub(super) id: NodeId,
     /// The output value of the node, disregarding the offset
     value: usize,
     /// The offset. If the offset is non-zero, the semantic definitions need to be rewritten.
diff --git a/src/encodings/totdb/mod.rs b/src/encodings/totdb/mod.rs
index dc923e0..e95aca0 100644
--- a/src/encodings/totdb/mod.rs
+++ b/src/encodings/totdb/mod.rs
@@ -102,20 +102,43 @@ impl NodeById for Db {
         if range.is_empty() {
             return Ok(self.nodes.drain(self.nodes.len()..self.nodes.len()));
         }
-        (range.end.0..self.nodes.len()).try_for_each(|idx| {
-            self.nodes[idx]
-                .drain(range.clone())
-                .map_err(|con| DrainError {
+        // check all references first, so that the database is unchanged in case of an error
+        for (idx, node) in self.nodes.iter().enumerate().skip(range.end.0) {
+            if let Some(referenced) = node.references(&range) {
+                return Err(DrainError {
                     referencing: NodeId(idx),
-                    referenced: con,
-                })
-        })?;
+                    referenced,
+                });
+            }
+        }
+        for node in &mut self.nodes[range.end.0..] {
+            node.drain(&range);
+        }
         self.lookup_leaf.retain(|_, id| !range.contains(id));
         self.lookup_leaf.values_mut().for_each(|id| {
             if *id >= range.end {
                 *id -= range.end - range.start;
             }
         });
+        self.dummy_id = self.dummy_id.filter(|id| !range.contains(id));
+        if let Some(id) = &mut self.dummy_id {
+            if *id >= range.end {
+                *id -= range.end - range.start;
+            }
+        }
+        #[cfg(feature = "proof-logging")]
+        {
+            self.semantic_defs = std::mem::take(&mut self.semantic_defs)
+                .into_iter()
+                .filter(|(def_id, _)| !range.contains(&def_id.id))
+                .map(|(mut def_id, defs)| {
+                    if def_id.id >= range.end {
+                        def_id.id -= range.end - range.start;
+                    }
+                    (def_id, defs)
+                })
+                .collect();
+        }
         Ok(self.nodes.drain(range.start.0..range.end.0))
     }
 }
@@ -219,9 +242,9 @@ impl Db {
                             if let Some(rlit) =
                                 self.define_weighted(rcon.id, rval_rev, collector, var_manager)?
                             {
-                                debug_assert!(
-                                    lcon.len_limit.is_none() || lcon.offset() + 1 == lval
-                                );
+                                debug_assert!(lcon
+                                    .len_limit
+                                    .is_none_or(|lim| lval <= lcon.offset() + lim.get()));
                                 let llit = unreachable_none!(self.define_weighted(
                                     lcon.id,
                                     lval,
@@ -526,7 +549,14 @@ impl Db {
                     var_manager,
                 )?;
                 let olit = self.get_olit(id, idx, var_manager);
-                collector.add_clause(crate::encodings::atomics::lit_impl_lit(ilit, olit))?;
+                if let Some(missing) = self[id].unit().lits[idx].missing_semantics(semantics) {
+                    if missing.has_if() {
+                        collector.add_clause(crate::encodings::atomics::lit_impl_lit(ilit, olit))?;
+                    }
+                    if missing.has_only_if() {
+                        collector.add_clause(crate::encodings::atomics::lit_impl_lit(olit, ilit))?;
+                    }
+                }
                 // Mark positive literal as encoded
                 self[id].mut_unit().lits[idx].add_semantics(semantics);
                 return Ok(olit);
@@ -566,7 +596,8 @@ impl Db {
 
         if divisor.get() == 1 {
             if let Some(limit) = len_limit {
-                for val in crate::utils::LimitedIter::new(&mut self[id].vals(offset..), limit.get())
+                for val in
+                    crate::utils::LimitedIter::new(&mut self[id].vals(offset + 1..), limit.get())
                 {
                     self[id].reserve_vars(val..=val, var_manager);
                 }
@@ -1056,27 +1087,31 @@ impl Node {
         }
     }
 
-    /// Adjusts the connections of the node to draining a range of nodes. If the
-    /// nodes references a nodes within the drained range, it returns that
-    /// [`NodeId`] as an Error.
-    fn drain(&mut self, range: std::ops::Range<NodeId>) -> Result<(), NodeId> {
+    /// Checks whether the node references a node in the given range and returns the [`NodeId`] of
+    /// the referenced node
+    fn references(&self, range: &std::ops::Range<NodeId>) -> Option<NodeId> {
+        match self {
+            Node::Leaf(_) | Node::Dummy => None,
+            Node::Unit(UnitNode { left, right, .. })
+            | Node::General(GeneralNode { left, right, .. }) => [left.id, right.id]
+                .into_iter()
+                .find(|id| range.contains(id)),
+        }
+    }
+
+    /// Adjusts the connections of the node to draining a range of nodes that is not referenced by
+    /// the node
+    fn drain(&mut self, range: &std::ops::Range<NodeId>) {
         match self {
-            Node::Leaf(_) | Node::Dummy => Ok(()),
+            Node::Leaf(_) | Node::Dummy => (),
             Node::Unit(UnitNode { left, right, .. })
             | Node::General(GeneralNode { left, right, .. }) => {
-                if range.contains(&left.id) {
-                    return Err(left.id);
-                }
-                if range.contains(&right.id) {
-                    return Err(right.id);
-                }
                 if left.id >= range.end {
                     left.id -= range.end - range.start;
                 }
                 if right.id >= range.end {
                     right.id -= range.end - range.start;
                 }
-                Ok(())
             }
         }
     }
-- 
2.43.0


From 3c7d420d46429e2c4feec88eb267a567e5efc592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 26/74] fix: account for constraint IDs used by the sub-proof
 of an objective update in pigeons

---
 pigeons/src/lib.rs   |  4 +++-
 pigeons/src/types.rs | 11 +++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pigeons/src/lib.rs b/pigeons/src/lib.rs
index f986fb5..498af89 100644
--- a/pigeons/src/lib.rs
+++ b/pigeons/src/lib.rs
@@ -508,7 +508,9 @@ where
         C: ConstraintLike<V>,
     {
         assert!(matches!(self.problem_type, ProblemType::Optimization));
-        writeln!(self.writer, "obju {update}")
+        writeln!(self.writer, "obju {update}")?;
+        self.next_id += update.n_ids();
+        Ok(())
     }
 
     /// Adds a set of substitutions
diff --git a/pigeons/src/types.rs b/pigeons/src/types.rs
index 0d38217..afcb57b 100644
--- a/pigeons/src/types.rs
+++ b/pigeons/src/types.rs
@@ -749,6 +749,17 @@ where
     pub fn diff(diff: O) -> Self {
         ObjectiveUpdate::Diff(diff, std::marker::PhantomData)
     }
+
+    /// Gets the number of constraint IDs that the sub-proof of the update uses up
+    pub(crate) fn n_ids(&self) -> usize {
+        match self {
+            // negated proof goal + 1 for each derivation
+            ObjectiveUpdate::New(_, subproof, _) => {
+                subproof.iter().map(|goal| 1 + goal.n_derivations()).sum()
+            }
+            ObjectiveUpdate::Diff(..) => 0,
+        }
+    }
 }
 
 impl<V, O, C> std::fmt::Display for ObjectiveUpdate<V, O, C>
-- 
2.43.0


From 22dd85d166a47d1b30008ebfc62e3c00c4767e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:47 +0000
Subject: [PATCH 27/74] fix: write constant offset of objectives in pigeons

---
 pigeons/src/types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pigeons/src/types.rs b/pigeons/src/types.rs
index afcb57b..a2651f4 100644
--- a/pigeons/src/types.rs
+++ b/pigeons/src/types.rs
@@ -913,7 +913,11 @@ impl<V: VarLike, O: ObjectiveLike<V>> std::fmt::Display for ObjFormatter<'_, V,
             self.obj
                 .sum_iter()
                 .format_with(" ", |(cf, ax), f| f(&format_args!("{cf} {ax}")))
-        )
+        )?;
+        match self.obj.offset() {
+            0 => Ok(()),
+            offset => write!(f, " {offset}"),
+        }
     }
 }
 
-- 
2.43.0


From fae702d197e1643437ff9f3ed126350a94842dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:08 +0000
Subject: [PATCH 28/74] fix: prepare the lower bound range in the certified
 inverted PB encoding

---
 src/encodings/pb/simulators.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index a5e9c90..0eb1343 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -262,7 +262,7 @@ where
         W: std::io::Write,
     {
         self.pb_enc.encode_ub_cert(
-            self.convert_encoding_range(super::prepare_ub_range(self, range)),
+            self.convert_encoding_range(super::prepare_lb_range(self, range)),
             collector,
             var_manager,
             proof,
@@ -433,7 +433,7 @@ where
         W: std::io::Write,
     {
         self.pb_enc.encode_ub_change_cert(
-            self.convert_encoding_range(super::prepare_ub_range(self, range)),
+            self.convert_encoding_range(super::prepare_lb_range(self, range)),
             collector,
             var_manager,
             proof,
-- 
2.43.0


From e4aaa982cb1186f45852abbb845456e11e67ad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:03 +0000
Subject: [PATCH 29/74] fix: do not write a deletion of no semantic definitions
 to the proof

---
 src/encodings/totdb/cert.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/encodings/totdb/cert.rs b/src/encodings/totdb/cert.rs
index 606cc8a..beedcea 100644
--- a/src/encodings/totdb/cert.rs
+++ b/src/encodings/totdb/cert.rs
@@ -395,6 +395,9 @@ impl super::Db {
     where
         W: std::io::Write,
     {
+        if self.semantic_defs.is_empty() {
+            return Ok(());
+        }
         let iter = self
             .semantic_defs
             .values()
-- 
2.43.0


From 9277f4b686fbe73a69a056aeabc4a9a11142f398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:14 +0000
Subject: [PATCH 30/74] fix: certified GTE constraint encoding without tree or
 with weighted root

---
 src/encodings/pb/gte/mod.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 52ce6bb..b4a1e68 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -459,13 +459,9 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
             .enforce_ub(ub)
             .expect("should have caught special case before here")
         {
-            let (olit, sem_defs) = enc
-                .output_proof_details(val)
-                .expect("encoded just before, so should be fine");
             let unit_cl = crate::clause![unit];
-            let unit_id = if unit.var() < olit.var() {
+            let unit_id = if let Some(&weight) = enc.lit_buffer.get(&!unit) {
                 // input literal with weight larger than bound
-                let weight = *enc.lit_buffer.get(&!unit).unwrap();
                 let unit_id = proof.reverse_unit_prop(&unit_cl, [id.into()])?;
                 // simplify main constraint
                 #[cfg(feature = "verbose-proofs")]
@@ -479,10 +475,15 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
             } else {
                 // output literal
                 // NOTE: by the time we're here, all buffered literals have been removed from `id`
+                let (olit, sem_defs) = enc
+                    .output_proof_details(val)
+                    .expect("encoded just before, so should be fine");
                 debug_assert_eq!(!unit, olit);
+                let multiplier = enc.root.map_or(1, |con| con.multiplier());
                 let unit_id = proof.operations(
-                    &((pigeons::OperationSequence::<Var>::from(id)
-                        + sem_defs.only_if_def.unwrap())
+                    &((pigeons::OperationSequence::<Var>::from(sem_defs.only_if_def.unwrap())
+                        * multiplier
+                        + id)
                         / val),
                 )?;
                 #[cfg(feature = "verbose-proofs")]
-- 
2.43.0


From ebd5f7d2c98b3d517e45816b0607dad365d17aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:10 +0000
Subject: [PATCH 31/74] fix: certified totalizer constraint encoding where no
 structure is needed

---
 src/encodings/card/totalizer/mod.rs | 160 +++++++++++++++++-----------
 1 file changed, 96 insertions(+), 64 deletions(-)

diff --git a/src/encodings/card/totalizer/mod.rs b/src/encodings/card/totalizer/mod.rs
index e406217..b5925f3 100644
--- a/src/encodings/card/totalizer/mod.rs
+++ b/src/encodings/card/totalizer/mod.rs
@@ -132,6 +132,90 @@ impl Totalizer {
         }
     }
 
+    /// Derives and adds the unit clause enforcing the (encoded) upper bound `ub`, given the
+    /// constraint `id` in the proof
+    #[cfg(feature = "proof-logging")]
+    fn add_ub_unit_cert<Col, W>(
+        &self,
+        ub: usize,
+        id: pigeons::AbsConstraintId,
+        collector: &mut Col,
+        proof: &mut pigeons::Proof<W>,
+    ) -> Result<(), crate::encodings::cert::EncodingError>
+    where
+        Col: crate::encodings::cert::CollectClauses,
+        W: std::io::Write,
+    {
+        use pigeons::OperationLike;
+        use pigeons::OperationSequence;
+
+        let (unit_cl, unit_id) = if let Some(lit) = self.single_input() {
+            let unit_cl = crate::clause![!lit];
+            let unit_id = proof.reverse_unit_prop(&unit_cl, [id.into()])?;
+            (unit_cl, unit_id)
+        } else {
+            let (olit, sem_defs) = self
+                .output_proof_details(ub + 1)
+                .expect("encoded just before, so should be fine");
+            let unit_id = proof.operations(
+                &(OperationSequence::<crate::types::Var>::from(id)
+                    + sem_defs.only_if_def.unwrap())
+                .saturate(),
+            )?;
+            (crate::clause![!olit], unit_id)
+        };
+        #[cfg(feature = "verbose-proofs")]
+        proof.equals(&unit_cl, Some(unit_id.into()))?;
+        collector.add_cert_clause(unit_cl, unit_id)?;
+        Ok(())
+    }
+
+    /// Derives and adds the unit clause enforcing the (encoded) lower bound `lb`, given the
+    /// constraint `id` in the proof
+    #[cfg(feature = "proof-logging")]
+    fn add_lb_unit_cert<Col, W>(
+        &self,
+        lb: usize,
+        id: pigeons::AbsConstraintId,
+        collector: &mut Col,
+        proof: &mut pigeons::Proof<W>,
+    ) -> Result<(), crate::encodings::cert::EncodingError>
+    where
+        Col: crate::encodings::cert::CollectClauses,
+        W: std::io::Write,
+    {
+        use pigeons::OperationLike;
+        use pigeons::OperationSequence;
+
+        let (unit_cl, unit_id) = if let Some(lit) = self.single_input() {
+            let unit_cl = crate::clause![lit];
+            let unit_id = proof.reverse_unit_prop(&unit_cl, [id.into()])?;
+            (unit_cl, unit_id)
+        } else {
+            let (olit, sem_defs) = self
+                .output_proof_details(lb)
+                .expect("encoded just before, so should be fine");
+            let unit_id = proof.operations(
+                &(OperationSequence::<crate::types::Var>::from(id) + sem_defs.if_def.unwrap())
+                    .saturate(),
+            )?;
+            (crate::clause![olit], unit_id)
+        };
+        #[cfg(feature = "verbose-proofs")]
+        proof.equals(&unit_cl, Some(unit_id.into()))?;
+        collector.add_cert_clause(unit_cl, unit_id)?;
+        Ok(())
+    }
+
+    /// If the encoding consists of a single input literal, i.e., no structure is built, gets that
+    /// literal
+    #[cfg(feature = "proof-logging")]
+    fn single_input(&self) -> Option<Lit> {
+        self.root
+            .filter(|root| self.db[*root].is_leaf())
+            .map(|root| self.db[root][1])
+    }
+
     /// Gets the number of output literals in the totalizer
     ///
     /// This will only differ from [`Self::n_lits`] if the encoding has an offset at any node
@@ -446,30 +530,14 @@ impl super::cert::BoundUpper for Totalizer {
         W: std::io::Write,
         Self: FromIterator<Lit> + Sized,
     {
-        use pigeons::OperationLike;
-        use pigeons::OperationSequence;
-
-        use crate::types::Var;
-
-        // TODO: properly take care of constraints where no structure is built
-
         let (constr, id) = constr;
         let (lits, ub) = constr.decompose();
-        if ub > lits.len() {
+        if ub >= lits.len() {
             return Ok(());
         }
         let mut enc = Self::from_iter(lits);
         enc.encode_ub_cert(ub..=ub, collector, var_manager, proof)?;
-        let (olit, sem_defs) = enc
-            .output_proof_details(ub + 1)
-            .expect("encoded just before, so should be fine");
-        let unit_id = proof.operations(
-            &(OperationSequence::<Var>::from(id) + sem_defs.only_if_def.unwrap()).saturate(),
-        )?;
-        let unit_cl = crate::clause![!olit];
-        #[cfg(feature = "verbose-proofs")]
-        proof.equals(&unit_cl, Some(unit_id.into()))?;
-        collector.add_cert_clause(unit_cl, unit_id)?;
+        enc.add_ub_unit_cert(ub, id, collector, proof)?;
         enc.db.delete_semantics(proof)?;
         Ok(())
     }
@@ -551,30 +619,17 @@ impl super::cert::BoundLower for Totalizer {
         W: std::io::Write,
         Self: FromIterator<Lit> + Sized,
     {
-        use pigeons::OperationLike;
-        use pigeons::OperationSequence;
-
-        use crate::types::Var;
-
-        // TODO: properly take care of constraints where no structure is built
-
         let (constr, id) = constr;
         let (lits, lb) = constr.decompose();
         if lb > lits.len() {
             return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
         }
+        if lb == 0 {
+            return Ok(());
+        }
         let mut enc = Self::from_iter(lits);
         enc.encode_lb_cert(lb..=lb, collector, var_manager, proof)?;
-        let (olit, sem_defs) = enc
-            .output_proof_details(lb)
-            .expect("encoded right before, so should be fine");
-        let unit_id = proof.operations(
-            &(OperationSequence::<Var>::from(id) + sem_defs.if_def.unwrap()).saturate(),
-        )?;
-        let unit_cl = crate::clause![olit];
-        #[cfg(feature = "verbose-proofs")]
-        proof.equals(&unit_cl, Some(unit_id.into()))?;
-        collector.add_cert_clause(unit_cl, unit_id)?;
+        enc.add_lb_unit_cert(lb, id, collector, proof)?;
         enc.db.delete_semantics(proof)?;
         Ok(())
     }
@@ -660,13 +715,6 @@ impl super::cert::BoundBoth for Totalizer {
         W: std::io::Write,
         Self: FromIterator<Lit> + Sized,
     {
-        use pigeons::OperationLike;
-        use pigeons::OperationSequence;
-
-        use crate::types::Var;
-
-        // TODO: properly take care of constraints where no structure is built
-
         let (constr, id) = constr;
         let (lits, b) = constr.decompose();
         if b > lits.len() {
@@ -674,28 +722,12 @@ impl super::cert::BoundBoth for Totalizer {
         }
         let mut enc = Self::from_iter(lits);
         enc.encode_both_cert(b..=b, collector, var_manager, proof)?;
-        // UB
-        let (olit, sem_defs) = enc
-            .output_proof_details(b + 1)
-            .expect("encoded just before, so should be fine");
-        let unit_id = proof.operations(
-            &(OperationSequence::<Var>::from(id + 1) + sem_defs.only_if_def.unwrap()).saturate(),
-        )?;
-        let unit_cl = crate::clause![!olit];
-        #[cfg(feature = "verbose-proofs")]
-        proof.equals(&unit_cl, Some(unit_id.into()))?;
-        collector.add_cert_clause(unit_cl, unit_id)?;
-        // LB
-        let (olit, sem_defs) = enc
-            .output_proof_details(b)
-            .expect("encoded just before, so should be fine");
-        let unit_id = proof.operations(
-            &((OperationSequence::<Var>::from(id) + sem_defs.if_def.unwrap()).saturate()),
-        )?;
-        let unit_cl = crate::clause![olit];
-        #[cfg(feature = "verbose-proofs")]
-        proof.equals(&unit_cl, Some(unit_id.into()))?;
-        collector.add_cert_clause(unit_cl, unit_id)?;
+        if b < enc.n_lits() {
+            enc.add_ub_unit_cert(b, id + 1, collector, proof)?;
+        }
+        if b > 0 {
+            enc.add_lb_unit_cert(b, id, collector, proof)?;
+        }
         enc.db.delete_semantics(proof)?;
         Ok(())
     }
-- 
2.43.0


From f69096247b6fea03e4ddbff917dd5eb0405dee22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:37 +0000
Subject: [PATCH 32/74] fix: certify unsatisfiability of PB equalities with too
 small bounds

---
 src/encodings/pb/cert.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/encodings/pb/cert.rs b/src/encodings/pb/cert.rs
index a873d20..9eac3e2 100644
--- a/src/encodings/pb/cert.rs
+++ b/src/encodings/pb/cert.rs
@@ -353,7 +353,9 @@ pub fn encode_pb_constraint<
     }
     if constr.is_unsat() {
         let empty = crate::clause![];
-        let unsat_id = proof.reverse_unit_prop(&empty, [id.into()])?;
+        // either half of an equality can be the unsatisfiable one
+        let other = matches!(constr, PbConstraint::Eq(_)).then(|| (id + 1).into());
+        let unsat_id = proof.reverse_unit_prop(&empty, std::iter::once(id.into()).chain(other))?;
         collector.add_cert_clause(empty, unsat_id)?;
         return Ok(());
     }
-- 
2.43.0


From e6a4853072d258fce55f9540e30327e0f2cf3178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:19 +0000
Subject: [PATCH 33/74] fix: certified encoding of PB constraints with equal
 non-unit weights as cardinality constraint

---
 src/encodings/pb/cert.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/encodings/pb/cert.rs b/src/encodings/pb/cert.rs
index 9eac3e2..db7e54b 100644
--- a/src/encodings/pb/cert.rs
+++ b/src/encodings/pb/cert.rs
@@ -1,12 +1,16 @@
 //! # Certified CNF Encodings for Pseudo-Boolean Constraints
 
+use pigeons::OperationSequence;
+
 use crate::encodings::card;
 use crate::encodings::cert::CollectClauses;
 use crate::encodings::cert::ConstraintEncodingError;
 use crate::encodings::cert::EncodingError;
 use crate::instances::ManageVars;
 use crate::types::constraints::PbConstraint;
+use crate::types::constraints::PbToCardError;
 use crate::types::Lit;
+use crate::types::Var;
 
 /// Trait for certified PB encodings that allow upper bounding of the form `sum of lits <=
 /// ub`
@@ -385,7 +389,33 @@ pub fn encode_pb_constraint<
         return Ok(());
     }
     if constr.is_card() {
-        let card = crate::utils::unreachable_err!(constr.into_card_constr());
+        let weight = match &constr {
+            PbConstraint::Ub(constr) => constr.find_unit_weight(),
+            PbConstraint::Lb(constr) => constr.find_unit_weight(),
+            PbConstraint::Eq(constr) => constr.find_unit_weight(),
+        };
+        let weight = crate::utils::unreachable_none!(weight);
+        if weight > 1 {
+            // derive the cardinality constraint(s) with unit weights
+            let divided =
+                |id: pigeons::AbsConstraintId| OperationSequence::<Var>::from(id) / weight;
+            let second = matches!(constr, PbConstraint::Eq(_)).then_some(id + 1);
+            id = proof.operations(&divided(id))?;
+            if let Some(second) = second {
+                proof.operations(&divided(second))?;
+            }
+        }
+        let card = match constr.into_card_constr() {
+            Ok(card) => card,
+            // an equality where the bound is not divisible by the unit weight
+            Err(PbToCardError::Unsat) => {
+                let empty = crate::clause![];
+                let unsat_id = proof.operations(&(OperationSequence::<Var>::from(id) + (id + 1)))?;
+                collector.add_cert_clause(empty, unsat_id)?;
+                return Ok(());
+            }
+            Err(_) => unreachable!(),
+        };
         return card::cert::default_encode_cardinality_constraint(
             (card, id),
             collector,
-- 
2.43.0


From ff9706b478f96674abe9d19bd1228a5f62a1e5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:54 +0000
Subject: [PATCH 34/74] fix: certified encoding of trivial PB constraints via
 cardinality encodings

---
 src/encodings/pb/simulators.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index 0eb1343..f94acd5 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -1021,6 +1021,9 @@ where
         Self: FromIterator<(Lit, usize)> + Sized,
     {
         let (constr, id) = constr;
+        if constr.is_unsat() {
+            return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
+        }
         let constr = constr.extend_to_card_constr();
         CE::encode_ub_constr_cert((constr, id), collector, var_manager, proof)?;
         Ok(())
@@ -1085,6 +1088,9 @@ where
         Self: FromIterator<(Lit, usize)> + Sized,
     {
         let (constr, id) = constr;
+        if constr.is_tautology() {
+            return Ok(());
+        }
         let constr = constr.extend_to_card_constr();
         CE::encode_lb_constr_cert((constr, id), collector, var_manager, proof)
     }
-- 
2.43.0


From 52f43856527eb33417fbabd4835f96f69f40887c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:11 +0000
Subject: [PATCH 35/74] fix: certified inverted cardinality encoding panicked
 for unsatisfiable constraints

---
 src/encodings/card/simulators.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/encodings/card/simulators.rs b/src/encodings/card/simulators.rs
index 3a06363..f72c1a1 100644
--- a/src/encodings/card/simulators.rs
+++ b/src/encodings/card/simulators.rs
@@ -286,6 +286,9 @@ where
         W: std::io::Write,
         Self: FromIterator<Lit> + Sized,
     {
+        if constr.0.is_unsat() {
+            return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
+        }
         let constr = (constr.0.invert(), constr.1);
         CE::encode_ub_constr_cert(constr, collector, var_manager, proof)?;
         Ok(())
-- 
2.43.0


From 8ca4c16ea5f0a337a6a6ff7dadd3269040f3f3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:38 +0000
Subject: [PATCH 36/74] fix: minisat/glucose literal values ignored the sign
 and read past the model

---
 glucose/vendor/cglucose4.cc        | 7 +++++--
 minisat/vendor/minisat/cminisat.cc | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index 85953ca..b45ade4 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -135,8 +135,11 @@ int cglucosesimp4_solve(CGlucoseSimp4 *handle, const c_Lit *assumps,
 
 int cglucose4_val(CGlucose4 *handle, c_Lit lit) {
   Solver *solver = (Solver *)handle;
-  Var v = var(Lit{lit.x});
-  lbool val = solver->modelValue(v);
+  Lit l = Lit{lit.x};
+  if (var(l) >= solver->model.size()) {
+    return T_UNASSIGNED;
+  }
+  lbool val = solver->modelValue(l);
   if (val == l_True) {
     return T_TRUE;
   }
diff --git a/minisat/vendor/minisat/cminisat.cc b/minisat/vendor/minisat/cminisat.cc
index 5b998e9..dc09a08 100644
--- a/minisat/vendor/minisat/cminisat.cc
+++ b/minisat/vendor/minisat/cminisat.cc
@@ -131,8 +131,11 @@ int cminisatsimp_solve(CMinisatSimp *handle, const c_Lit *assumps,
 
 int cminisat_val(CMinisat *handle, c_Lit lit) {
   Solver *solver = (Solver *)handle;
-  Var v = var(Lit{lit.x});
-  lbool val = solver->modelValue(v);
+  Lit l = Lit{lit.x};
+  if (var(l) >= solver->model.size()) {
+    return T_UNASSIGNED;
+  }
+  lbool val = solver->modelValue(l);
   if (val == l_True) {
     return T_TRUE;
   }
-- 
2.43.0


From 1b0550e1a947d1334768a1ec6eff7d67c24d3033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:38 +0000
Subject: [PATCH 37/74] fix: minisat/glucose propagation of unknown variables
 accessed memory out of bounds

---
 glucose/vendor/cglucose4.cc        | 1 +
 minisat/vendor/minisat/cminisat.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index b45ade4..2a1a86e 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -293,6 +293,7 @@ int cglucose4_propcheck(CGlucose4 *handle, const c_Lit *assumps,
   Solver *solver = (Solver *)handle;
   bool res;
   try {
+    cglucose4_ensure_vars(solver, (Lit *)assumps, n_assumps);
     res = solver->propCheck((Lit *)assumps, n_assumps, psaving,
                             (void (*)(void *, Lit))prop_cb, cb_data);
   } catch (OutOfMemoryException &) {
diff --git a/minisat/vendor/minisat/cminisat.cc b/minisat/vendor/minisat/cminisat.cc
index dc09a08..34bcd82 100644
--- a/minisat/vendor/minisat/cminisat.cc
+++ b/minisat/vendor/minisat/cminisat.cc
@@ -289,6 +289,7 @@ int cminisat_propcheck(CMinisat *handle, const c_Lit *assumps, size_t n_assumps,
   Solver *solver = (Solver *)handle;
   bool res;
   try {
+    cminisat_ensure_vars(solver, (Lit *)assumps, n_assumps);
     res = solver->propCheck((Lit *)assumps, n_assumps, psaving,
                             (void (*)(void *, Lit))prop_cb, cb_data);
   } catch (OutOfMemoryException &) {
-- 
2.43.0


From 24fe33a9b9d96b05516e4c87e80da962644b1081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:45 +0000
Subject: [PATCH 38/74] fix: minisat/glucose removing a limit made every later
 call be interrupted

---
 glucose/vendor/cglucose4.cc        | 12 ++++++++----
 minisat/vendor/minisat/cminisat.cc | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index 2a1a86e..681059b 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -222,19 +222,23 @@ int cglucosesimp4_n_vars(CGlucoseSimp4 *handle) {
 }
 
 void cglucose4_set_conf_limit(CGlucose4 *handle, int64_t limit) {
-  ((Solver *)handle)->setConfBudget(limit);
+  Solver *solver = (Solver *)handle;
+  // a negative limit turns the budget off, budgets are relative to conflicts so far
+  solver->setConfBudget(limit < 0 ? -1 - (int64_t)solver->conflicts : limit);
 }
 
 void cglucosesimp4_set_conf_limit(CGlucoseSimp4 *handle, int64_t limit) {
-  ((SimpSolver *)handle)->setConfBudget(limit);
+  cglucose4_set_conf_limit((CGlucose4 *)handle, limit);
 }
 
 void cglucose4_set_prop_limit(CGlucose4 *handle, int64_t limit) {
-  ((Solver *)handle)->setPropBudget(limit);
+  Solver *solver = (Solver *)handle;
+  // a negative limit turns the budget off, budgets are relative to propagations so far
+  solver->setPropBudget(limit < 0 ? -1 - (int64_t)solver->propagations : limit);
 }
 
 void cglucosesimp4_set_prop_limit(CGlucoseSimp4 *handle, int64_t limit) {
-  ((SimpSolver *)handle)->setPropBudget(limit);
+  cglucose4_set_prop_limit((CGlucose4 *)handle, limit);
 }
 
 void cglucose4_set_no_limit(CGlucose4 *handle) {
diff --git a/minisat/vendor/minisat/cminisat.cc b/minisat/vendor/minisat/cminisat.cc
index 34bcd82..21f431c 100644
--- a/minisat/vendor/minisat/cminisat.cc
+++ b/minisat/vendor/minisat/cminisat.cc
@@ -218,19 +218,23 @@ int cminisatsimp_n_vars(CMinisatSimp *handle) {
 }
 
 void cminisat_set_conf_limit(CMinisat *handle, int64_t limit) {
-  ((Solver *)handle)->setConfBudget(limit);
+  Solver *solver = (Solver *)handle;
+  // a negative limit turns the budget off, budgets are relative to conflicts so far
+  solver->setConfBudget(limit < 0 ? -1 - (int64_t)solver->conflicts : limit);
 }
 
 void cminisatsimp_set_conf_limit(CMinisatSimp *handle, int64_t limit) {
-  ((SimpSolver *)handle)->setConfBudget(limit);
+  cminisat_set_conf_limit((CMinisat *)handle, limit);
 }
 
 void cminisat_set_prop_limit(CMinisat *handle, int64_t limit) {
-  ((Solver *)handle)->setPropBudget(limit);
+  Solver *solver = (Solver *)handle;
+  // a negative limit turns the budget off, budgets are relative to propagations so far
+  solver->setPropBudget(limit < 0 ? -1 - (int64_t)solver->propagations : limit);
 }
 
 void cminisatsimp_set_prop_limit(CMinisatSimp *handle, int64_t limit) {
-  ((SimpSolver *)handle)->setPropBudget(limit);
+  cminisat_set_prop_limit((CMinisat *)handle, limit);
 }
 
 void cminisat_set_no_limit(CMinisat *handle) {
-- 
2.43.0


From 2800454600529378d64fd7e20652d16f5d370012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:52 +0000
Subject: [PATCH 39/74] fix: minisat/glucose stayed interrupted forever after
 one interrupt

---
 glucose/vendor/cglucose4.cc        | 2 ++
 minisat/vendor/minisat/cminisat.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index 681059b..5f1a0ae 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -116,6 +116,8 @@ int cglucose4_solve(CGlucose4 *handle, const c_Lit *c_assumps,
   try {
     cglucose4_ensure_vars(solver, assumps, n_assumps);
     res = solver->solveLimited(assumps, (int)n_assumps);
+    // an interrupt only affects one call
+    solver->clearInterrupt();
   } catch (OutOfMemoryException &) {
     return OUT_OF_MEM;
   }
diff --git a/minisat/vendor/minisat/cminisat.cc b/minisat/vendor/minisat/cminisat.cc
index 21f431c..47ff849 100644
--- a/minisat/vendor/minisat/cminisat.cc
+++ b/minisat/vendor/minisat/cminisat.cc
@@ -112,6 +112,8 @@ int cminisat_solve(CMinisat *handle, const c_Lit *c_assumps, size_t n_assumps) {
   try {
     cminisat_ensure_vars(solver, assumps, n_assumps);
     res = solver->solveLimited(assumps, (int)n_assumps);
+    // an interrupt only affects one call
+    solver->clearInterrupt();
   } catch (OutOfMemoryException &) {
     return OUT_OF_MEM;
   }
-- 
2.43.0


From 20a22c05ecdeee3f11352f435cfc02c8a0d0e479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:39 +0000
Subject: [PATCH 40/74] fix: minisat/glucose with preprocessing read out of
 bounds for assumptions over unknown variables

---
 glucose/src/simp.rs | 7 +++++++
 minisat/src/simp.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/glucose/src/simp.rs b/glucose/src/simp.rs
index e9da68f..2f781ee 100644
--- a/glucose/src/simp.rs
+++ b/glucose/src/simp.rs
@@ -72,6 +72,13 @@ impl Glucose {
 
     /// Checks if a variable has been eliminated by preprocessing.
     pub fn var_eliminated(&mut self, var: rustsat::types::Var) -> bool {
+        use rustsat::solvers::SolveStats;
+
+        match self.max_var() {
+            None => return false,
+            Some(max) if max < var => return false,
+            _ => (),
+        }
         (unsafe {
             #[expect(clippy::cast_possible_wrap)]
             crate::ffi::cglucosesimp4_is_eliminated(self.handle, var.idx32() as c_int)
diff --git a/minisat/src/simp.rs b/minisat/src/simp.rs
index fb0b90e..4585d11 100644
--- a/minisat/src/simp.rs
+++ b/minisat/src/simp.rs
@@ -73,6 +73,13 @@ impl Minisat {
 
     /// Checks if a variable has been eliminated by preprocessing.
     pub fn var_eliminated(&mut self, var: Var) -> bool {
+        use rustsat::solvers::SolveStats;
+
+        match self.max_var() {
+            None => return false,
+            Some(max) if max < var => return false,
+            _ => (),
+        }
         (unsafe {
             #[expect(clippy::cast_possible_wrap)]
             crate::ffi::cminisatsimp_is_eliminated(self.handle, var.idx32() as c_int)
-- 
2.43.0


From 490e67386a5c67c3a7d7e0fad61fc681fd3d616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:47 +0000
Subject: [PATCH 41/74] fix: cadical propagation printed a debug message to
 stderr

---
 cadical/src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index c15b779..3dd5ae4 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -1089,7 +1089,6 @@ impl rustsat::solvers::Propagate for CaDiCaL<'_, '_> {
         }
         let res = handle_oom!(unsafe { ffi::ccadical_propagate(self.handle) });
         let mut props = Vec::new();
-        dbg!(res);
         match res {
             0 => {
                 let prop_ptr: *mut Vec<Lit> = &raw mut props;
-- 
2.43.0


From 2065824aac3aea328f6fcbf40615459f53ac3f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 42/74] fix: batsat average clause length ignored unit clauses
 in the count

---
 batsat/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/batsat/src/lib.rs b/batsat/src/lib.rs
index 6c508bb..95a9766 100644
--- a/batsat/src/lib.rs
+++ b/batsat/src/lib.rs
@@ -63,6 +63,7 @@ pub struct Solver<Cb: batsat::Callbacks> {
     n_sat: usize,
     n_unsat: usize,
     n_terminated: usize,
+    n_added: usize,
     avg_clause_len: f32,
     cpu_time: std::time::Duration,
 }
@@ -75,6 +76,7 @@ impl<Cb: batsat::Callbacks> std::fmt::Debug for Solver<Cb> {
             .field("n_sat", &self.n_sat)
             .field("n_unsat", &self.n_unsat)
             .field("n_terminated", &self.n_terminated)
+            .field("n_added", &self.n_added)
             .field("avg_clause_len", &self.avg_clause_len)
             .field("cpu_time", &self.cpu_time)
             .finish()
@@ -97,11 +99,11 @@ impl<Cb: batsat::Callbacks> Solver<Cb> {
     #[expect(clippy::cast_precision_loss)]
     #[inline]
     fn update_avg_clause_len(&mut self, clause: &Cl) {
-        use rustsat::solvers::SolveStats;
-
-        self.avg_clause_len = (self.avg_clause_len * ((self.n_clauses()) as f32)
+        // Note: the number of clauses in the internal solver does not include units
+        self.n_added += 1;
+        self.avg_clause_len = (self.avg_clause_len * ((self.n_added - 1) as f32)
             + clause.len() as f32)
-            / (self.n_clauses() + 1) as f32;
+            / self.n_added as f32;
     }
 
     fn solve_track_stats(&mut self, assumps: &[Lit]) -> SolverResult {
-- 
2.43.0


From 6a57bf40c159813a6f14ed876c1f7cbff13932a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:28 +0000
Subject: [PATCH 43/74] fix: glucose with preprocessing returned the core of an
 earlier call

---
 glucose/vendor/cglucose4.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index 5f1a0ae..0a82b71 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -115,6 +115,8 @@ int cglucose4_solve(CGlucose4 *handle, const c_Lit *c_assumps,
   lbool res;
   try {
     cglucose4_ensure_vars(solver, assumps, n_assumps);
+    // if preprocessing finds unsatisfiability, the old conflict is not cleared
+    solver->conflict.clear();
     res = solver->solveLimited(assumps, (int)n_assumps);
     // an interrupt only affects one call
     solver->clearInterrupt();
-- 
2.43.0


From 1e7e583f021ae847625cb06292b9c66a2728cd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:20 +0000
Subject: [PATCH 44/74] fix: cadical detach_learner freed the attached
 terminator instead of the learner

---
 cadical/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 3dd5ae4..906634c 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -936,7 +936,7 @@ impl<'learn> rustsat::solvers::Learn<'learn> for CaDiCaL<'_, 'learn> {
     }
 
     fn detach_learner(&mut self) {
-        self.terminate_cb = None;
+        self.learner_cb = None;
         unsafe { ffi::ccadical_set_learn(self.handle, std::ptr::null_mut(), 0, None) }
     }
 }
-- 
2.43.0


From cc1d79a87852adf73652c63e3f2c2828d78e0f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:20 +0000
Subject: [PATCH 45/74] fix: cadical solve reported unsatisfiable because of a
 temporary clause that is gone

---
 cadical/src/lib.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 906634c..27bff25 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -251,6 +251,17 @@ impl CaDiCaL<'_, '_> {
         Ok(core)
     }
 
+    /// Checks whether the solver is in unsatisfiable state, independently of any assumptions or
+    /// temporary clause
+    fn unsat_unconditionally(&self) -> bool {
+        match &self.state {
+            InternalSolverState::Unsat(core) => {
+                core.is_empty() && unsafe { ffi::ccadical_constraint_failed(self.handle) } == 0
+            }
+            _ => false,
+        }
+    }
+
     #[expect(clippy::cast_precision_loss)]
     #[inline]
     fn update_avg_clause_len(&mut self, clause: &Cl) {
@@ -716,10 +727,8 @@ impl rustsat::solvers::Solve for CaDiCaL<'_, '_> {
         if let InternalSolverState::Sat = self.state {
             return Ok(SolverResult::Sat);
         }
-        if let InternalSolverState::Unsat(core) = &self.state {
-            if core.is_empty() {
-                return Ok(SolverResult::Unsat);
-            }
+        if self.unsat_unconditionally() {
+            return Ok(SolverResult::Unsat);
         }
         let start = rustsat::utils::Timer::now();
         // Solve with CaDiCaL backend
-- 
2.43.0


From 54a23975d95241272b72321ee088ad1bd099a6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:20 +0000
Subject: [PATCH 46/74] fix: cadical simplification reused results obtained
 under other assumptions

---
 cadical/src/lib.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 27bff25..8d27067 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -486,7 +486,7 @@ impl CaDiCaL<'_, '_> {
         if let InternalSolverState::Sat = self.state {
             return Ok(SolverResult::Sat);
         }
-        if let InternalSolverState::Unsat(_) = self.state {
+        if self.unsat_unconditionally() {
             return Ok(SolverResult::Unsat);
         }
         let rounds: c_int = rounds.try_into()?;
@@ -534,11 +534,8 @@ impl CaDiCaL<'_, '_> {
         assumps: &[Lit],
         rounds: u32,
     ) -> anyhow::Result<SolverResult> {
-        // If already solved, return state
-        if let InternalSolverState::Sat = self.state {
-            return Ok(SolverResult::Sat);
-        }
-        if let InternalSolverState::Unsat(_) = self.state {
+        // If already unsatisfiable without assumptions, return state
+        if self.unsat_unconditionally() {
             return Ok(SolverResult::Unsat);
         }
         let rounds: c_int = rounds.try_into()?;
@@ -556,7 +553,7 @@ impl CaDiCaL<'_, '_> {
                 Ok(SolverResult::Sat)
             }
             20 => {
-                self.state = InternalSolverState::Unsat(vec![]);
+                self.state = InternalSolverState::Unsat(self.get_core_assumps(assumps)?);
                 Ok(SolverResult::Unsat)
             }
             value => Err(InvalidApiReturn {
-- 
2.43.0


From f8abd01f8f3506bf0f5ef2476e95f7698314697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:05 +0000
Subject: [PATCH 47/74] fix: cadical kept an outdated result after declaring
 variables

---
 cadical/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 8d27067..9a3f9eb 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -651,6 +651,7 @@ impl CaDiCaL<'_, '_> {
     /// If `num_additional > i32::MAX`
     #[cfg(cadical_version = "v2.2")]
     pub fn declare_more_variables(&mut self, num_additional: u32) -> Var {
+        self.state = InternalSolverState::Input;
         Lit::from_ipasir(unsafe {
             ffi::ccadical_declare_more_variables(
                 self.handle,
-- 
2.43.0


From 769f007914e0f6654338a500912c55f263381631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 48/74] fix: cadical disconnecting a proof tracer from the
 wrong solver freed it while in use

---
 cadical/cpp-extension/ctracer.cpp | 4 +++-
 cadical/src/prooftracer.rs        | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/cadical/cpp-extension/ctracer.cpp b/cadical/cpp-extension/ctracer.cpp
index 0dc8c04..473b6b9 100644
--- a/cadical/cpp-extension/ctracer.cpp
+++ b/cadical/cpp-extension/ctracer.cpp
@@ -149,7 +149,9 @@ bool ccadical_disconnect_proof_tracer(CCaDiCaL *wrapper,
                                       CCaDiCaLTracer *tracer) {
   bool ret =
       ((Wrapper *)wrapper)->solver->disconnect_proof_tracer((Tracer *)tracer);
-  delete (CaDiCaL::CTracer *)tracer;
+  // if not connected to this solver, another solver still uses the tracer
+  if (ret)
+    delete (CaDiCaL::CTracer *)tracer;
   return ret;
 }
 }
diff --git a/cadical/src/prooftracer.rs b/cadical/src/prooftracer.rs
index eb8bbcd..39a3b64 100644
--- a/cadical/src/prooftracer.rs
+++ b/cadical/src/prooftracer.rs
@@ -199,6 +199,8 @@ impl super::CaDiCaL<'_, '_> {
         PT: TraceProof + 'static,
     {
         if !unsafe { crate::ffi::ccadical_disconnect_proof_tracer(self.handle, handle.c_class) } {
+            // the solver that the tracer is connected to still uses it, therefore do not drop it
+            let _ = std::mem::ManuallyDrop::new(handle);
             return Err(ProofTracerNotConnected);
         }
         let trait_ptr = unsafe { Box::from_raw(handle.trait_ptr) };
-- 
2.43.0


From 1ef0d4900d25069de5997685ab48907cb9946642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:23 +0000
Subject: [PATCH 49/74] fix: kissat accepted input and solve calls after it was
 interrupted or solved

---
 kissat/src/lib.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/kissat/src/lib.rs b/kissat/src/lib.rs
index 5bf55c6..2628fdb 100644
--- a/kissat/src/lib.rs
+++ b/kissat/src/lib.rs
@@ -83,6 +83,8 @@ enum InternalSolverState {
     Input,
     Sat,
     Unsat(Vec<Lit>),
+    /// Solving was interrupted, Kissat cannot be called again
+    Unknown,
 }
 
 impl InternalSolverState {
@@ -92,6 +94,7 @@ impl InternalSolverState {
             InternalSolverState::Input => rustsat::solvers::SolverState::Input,
             InternalSolverState::Sat => rustsat::solvers::SolverState::Sat,
             InternalSolverState::Unsat(_) => rustsat::solvers::SolverState::Unsat,
+            InternalSolverState::Unknown => rustsat::solvers::SolverState::Unknown,
         }
     }
 }
@@ -297,7 +300,10 @@ impl rustsat::solvers::Solve for Kissat<'_> {
     }
 
     fn reserve(&mut self, max_var: Var) -> anyhow::Result<()> {
-        self.state = InternalSolverState::Input;
+        // Kissat is non-incremental, so once it has been solved, it never accepts input again
+        if self.state == InternalSolverState::Configuring {
+            self.state = InternalSolverState::Input;
+        }
         unsafe { ffi::kissat_reserve(self.handle, max_var.to_ipasir()) };
         Ok(())
     }
@@ -310,6 +316,14 @@ impl rustsat::solvers::Solve for Kissat<'_> {
         if let InternalSolverState::Unsat(_) = self.state {
             return Ok(SolverResult::Unsat);
         }
+        // Kissat is non-incremental, so solving cannot be resumed after it was interrupted
+        if let InternalSolverState::Unknown = self.state {
+            return Err(rustsat::solvers::StateError {
+                required_state: rustsat::solvers::SolverState::Input,
+                actual_state: self.state.to_external(),
+            }
+            .into());
+        }
         let start = rustsat::utils::Timer::now();
         // Solve with Kissat backend
         let res = unsafe { ffi::kissat_solve(self.handle) };
@@ -317,7 +331,7 @@ impl rustsat::solvers::Solve for Kissat<'_> {
         match res {
             0 => {
                 self.stats.n_terminated += 1;
-                self.state = InternalSolverState::Input;
+                self.state = InternalSolverState::Unknown;
                 Ok(SolverResult::Interrupted)
             }
             10 => {
-- 
2.43.0


From 205b3c034a2e5691a05b7832b143da61a589df0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:34 +0000
Subject: [PATCH 50/74] fix: kissat crashed after reserving variables when
 there were clauses already

---
 kissat/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kissat/src/lib.rs b/kissat/src/lib.rs
index 2628fdb..db0ca00 100644
--- a/kissat/src/lib.rs
+++ b/kissat/src/lib.rs
@@ -304,7 +304,11 @@ impl rustsat::solvers::Solve for Kissat<'_> {
         if self.state == InternalSolverState::Configuring {
             self.state = InternalSolverState::Input;
         }
-        unsafe { ffi::kissat_reserve(self.handle, max_var.to_ipasir()) };
+        // Kissat re-activates variables that are already fixed by a unit clause (without `tumble`),
+        // so once there are clauses, this hint is not passed on
+        if self.stats.n_clauses == 0 {
+            unsafe { ffi::kissat_reserve(self.handle, max_var.to_ipasir()) };
+        }
         Ok(())
     }
 
-- 
2.43.0


From 12de6c742c16a3247267296d7c66ac3e9490d9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:32 +0000
Subject: [PATCH 51/74] fix: incremental simulator kept using the wrapped
 solver after an error

---
 src/solvers/simulators.rs | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/solvers/simulators.rs b/src/solvers/simulators.rs
index 83d63b1..791f275 100644
--- a/src/solvers/simulators.rs
+++ b/src/solvers/simulators.rs
@@ -73,12 +73,8 @@ impl<S, Init> Incremental<S, Init> {
 
     #[inline]
     fn update_max_var(&mut self, clause: &Cl) {
-        if self.stats.max_var.is_none() {
-            self.stats.max_var = Some(crate::types::Var::new(0));
-        }
-        let max_var = self.stats.max_var.as_mut().unwrap();
         for lit in clause {
-            *max_var = std::cmp::max(*max_var, lit.var());
+            self.stats.max_var = std::cmp::max(self.stats.max_var, Some(lit.var()));
         }
     }
 }
@@ -99,11 +95,14 @@ where
                 return Ok(super::SolverResult::Unsat)
             }
             InternalSolverState::Unknown | InternalSolverState::Unsat(_) => {
+                self.state = InternalSolverState::Unknown;
                 self.solver = Init::init();
                 self.solver.add_cnf_ref(&self.clauses)?;
             }
             InternalSolverState::Init => (),
         }
+        // if solving fails, the wrapped solver must not be used any further
+        self.state = InternalSolverState::Unknown;
         let start = crate::utils::Timer::now();
         let res = self.solver.solve()?;
         self.stats.cpu_solve_time += start.elapsed();
@@ -136,34 +135,38 @@ where
     where
         C: AsRef<crate::types::Cl> + ?Sized,
     {
-        self.stats.n_clauses += 1;
-        self.update_avg_clause_len(clause.as_ref());
-        self.update_max_var(clause.as_ref());
-        if matches!(self.state, InternalSolverState::Init) {
+        // if adding the clause fails, the wrapped solver must not be used any further
+        let prev_state = std::mem::replace(&mut self.state, InternalSolverState::Unknown);
+        if matches!(prev_state, InternalSolverState::Init) {
             self.solver.add_clause_ref(clause)?;
         } else {
-            self.state = InternalSolverState::Init;
             self.solver = Init::init();
             self.solver.add_cnf_ref(&self.clauses)?;
             self.solver.add_clause_ref(&clause)?;
         }
+        self.state = InternalSolverState::Init;
+        self.stats.n_clauses += 1;
+        self.update_avg_clause_len(clause.as_ref());
+        self.update_max_var(clause.as_ref());
         self.clauses
             .add_clause(clause.as_ref().iter().copied().collect());
         Ok(())
     }
 
     fn add_clause(&mut self, clause: Clause) -> anyhow::Result<()> {
-        self.stats.n_clauses += 1;
-        self.update_avg_clause_len(&clause);
-        self.update_max_var(&clause);
-        if matches!(self.state, InternalSolverState::Init) {
+        // if adding the clause fails, the wrapped solver must not be used any further
+        let prev_state = std::mem::replace(&mut self.state, InternalSolverState::Unknown);
+        if matches!(prev_state, InternalSolverState::Init) {
             self.solver.add_clause_ref(&clause)?;
         } else {
-            self.state = InternalSolverState::Init;
             self.solver = Init::init();
             self.solver.add_cnf_ref(&self.clauses)?;
             self.solver.add_clause_ref(&clause)?;
         }
+        self.state = InternalSolverState::Init;
+        self.stats.n_clauses += 1;
+        self.update_avg_clause_len(&clause);
+        self.update_max_var(&clause);
         self.clauses.add_clause(clause);
         Ok(())
     }
@@ -186,7 +189,9 @@ where
 {
     fn solve_assumps(&mut self, assumps: &[Lit]) -> anyhow::Result<super::SolverResult> {
         let start = crate::utils::Timer::now();
-        if !matches!(self.state, InternalSolverState::Init) {
+        // if anything fails, the wrapped solver must not be used any further
+        let prev_state = std::mem::replace(&mut self.state, InternalSolverState::Unknown);
+        if !matches!(prev_state, InternalSolverState::Init) {
             self.solver = Init::init();
             self.solver.add_cnf_ref(&self.clauses)?;
         }
-- 
2.43.0


From ae552feb0c66f826226d9a6c9f3b5b38ac173968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:44 +0000
Subject: [PATCH 52/74] fix: C-API totalizer aborted when enforcing a bound
 that cannot be violated

---
 capi/rustsat.h                    |  4 ++++
 capi/src/encodings/card.rs        | 12 ++++++++----
 codegen/templates/capi-card.rs.j2 | 12 ++++++++----
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/capi/rustsat.h b/capi/rustsat.h
index 1b3abcc..bc32846 100644
--- a/capi/rustsat.h
+++ b/capi/rustsat.h
@@ -539,6 +539,8 @@ void tot_encode_ub(struct Totalizer *tot,
  * [`tot_encode_ub`] has been called adequately and nothing has been called afterwards, otherwise
  * [`super::MaybeError::NotEncoded`] will be returned.
  *
+ * If the bound cannot be violated, nothing has to be assumed, and `assump` is set to zero.
+ *
  * # Safety
  *
  * `tot` must be a return value of [`tot_new`] that [`tot_drop`] has not yet been called on.
@@ -579,6 +581,8 @@ void tot_encode_lb(struct Totalizer *tot,
  * [`tot_encode_lb`] has been called adequately and nothing has been called afterwards, otherwise
  * [`super::MaybeError::NotEncoded`] will be returned.
  *
+ * If the bound cannot be violated, nothing has to be assumed, and `assump` is set to zero.
+ *
  * # Safety
  *
  * `tot` must be a return value of [`tot_new`] that [`tot_drop`] has not yet been called on.
diff --git a/capi/src/encodings/card.rs b/capi/src/encodings/card.rs
index 571c63f..e9ca81a 100644
--- a/capi/src/encodings/card.rs
+++ b/capi/src/encodings/card.rs
@@ -100,6 +100,8 @@ pub unsafe extern "C" fn tot_encode_ub(
 /// [`tot_encode_ub`] has been called adequately and nothing has been called afterwards, otherwise
 /// [`super::MaybeError::NotEncoded`] will be returned.
 ///
+/// If the bound cannot be violated, nothing has to be assumed, and `assump` is set to zero.
+///
 /// # Safety
 ///
 /// `tot` must be a return value of [`tot_new`] that [`tot_drop`] has not yet been called on.
@@ -111,8 +113,8 @@ pub unsafe extern "C" fn tot_enforce_ub(
 ) -> super::MaybeError {
     match (*tot).enforce_ub(ub) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |lit| lit.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
@@ -159,6 +161,8 @@ pub unsafe extern "C" fn tot_encode_lb(
 /// [`tot_encode_lb`] has been called adequately and nothing has been called afterwards, otherwise
 /// [`super::MaybeError::NotEncoded`] will be returned.
 ///
+/// If the bound cannot be violated, nothing has to be assumed, and `assump` is set to zero.
+///
 /// # Safety
 ///
 /// `tot` must be a return value of [`tot_new`] that [`tot_drop`] has not yet been called on.
@@ -170,8 +174,8 @@ pub unsafe extern "C" fn tot_enforce_lb(
 ) -> super::MaybeError {
     match (*tot).enforce_lb(lb) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |lit| lit.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
diff --git a/codegen/templates/capi-card.rs.j2 b/codegen/templates/capi-card.rs.j2
index 1355838..12d8199 100644
--- a/codegen/templates/capi-card.rs.j2
+++ b/codegen/templates/capi-card.rs.j2
@@ -79,6 +79,8 @@ pub unsafe extern "C" fn {{ enc.id }}_encode_ub(
 /// Returns an assumption/unit for enforcing an upper bound (`sum of lits <= ub`). Make sure that
 /// [`{{ enc.id }}_encode_ub`] has been called adequately and nothing has been called afterwards, otherwise
 /// [`super::MaybeError::NotEncoded`] will be returned.
+///
+/// If the bound cannot be violated, nothing has to be assumed, and `assump` is set to zero.
 {% include 'capi-safety.j2' %}
 #[no_mangle]
 pub unsafe extern "C" fn {{ enc.id }}_enforce_ub(
@@ -88,8 +90,8 @@ pub unsafe extern "C" fn {{ enc.id }}_enforce_ub(
 ) -> super::MaybeError {
     match (*{{ enc.id }}).enforce_ub(ub) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |lit| lit.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
@@ -130,6 +132,8 @@ pub unsafe extern "C" fn {{ enc.id }}_encode_lb(
 /// Returns an assumption/unit for enforcing a lower bound (`sum of lits >= lb`). Make sure that
 /// [`{{ enc.id }}_encode_lb`] has been called adequately and nothing has been called afterwards, otherwise
 /// [`super::MaybeError::NotEncoded`] will be returned.
+///
+/// If the bound cannot be violated, nothing has to be assumed, and `assump` is set to zero.
 {% include 'capi-safety.j2' %}
 #[no_mangle]
 pub unsafe extern "C" fn {{ enc.id }}_enforce_lb(
@@ -139,8 +143,8 @@ pub unsafe extern "C" fn {{ enc.id }}_enforce_lb(
 ) -> super::MaybeError {
     match (*{{ enc.id }}).enforce_lb(lb) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |lit| lit.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
-- 
2.43.0


From 64dbadb7be74aad27374607617b6ffdac4416f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:44 +0000
Subject: [PATCH 53/74] fix: DynamicPolyWatchdog panicked after setting
 precision divisor zero, and refused divisor one for default encodings

---
 src/encodings/pb/dpw/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index dc1f385..d02b036 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -132,7 +132,9 @@ impl DynamicPolyWatchdog {
         if !(divisor <= 1 || divisor.is_power_of_two()) {
             return Err(PrecisionError::NotPow2);
         }
-        if self.structure.is_some() && divisor > self.prec_div {
+        // a divisor of zero is the same as one
+        let divisor = std::cmp::max(divisor, 1);
+        if self.structure.is_some() && divisor > std::cmp::max(self.prec_div, 1) {
             return Err(PrecisionError::PrecisionDecreased);
         }
         self.prec_div = divisor;
@@ -522,6 +524,7 @@ fn build_structure(
 ) -> Structure {
     // prec_div has to be a power of 2
     debug_assert!(prec_div <= 1 || prec_div.is_power_of_two());
+    let prec_div = std::cmp::max(prec_div, 1);
     let skipped_levels = crate::utils::digits(prec_div, 2) as usize - 1;
 
     let basis_len = crate::utils::digits(*weight_queue.iter().next_back().unwrap().0, 2) as usize;
-- 
2.43.0


From b5e4058f464d9d7734e822fc91fdfc811a6f6004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:59 +0000
Subject: [PATCH 54/74] fix: opb2cnf, opb2wcnf and opb2mcnf use the first
 variable index given

---
 tools/src/bin/opb2cnf.rs  | 4 ++--
 tools/src/bin/opb2mcnf.rs | 4 ++--
 tools/src/bin/opb2wcnf.rs | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tools/src/bin/opb2cnf.rs b/tools/src/bin/opb2cnf.rs
index 1a33b35..2d7442b 100644
--- a/tools/src/bin/opb2cnf.rs
+++ b/tools/src/bin/opb2cnf.rs
@@ -15,13 +15,13 @@ struct Args {
     out_path: Option<std::path::PathBuf>,
     /// The index in the OPB file to treat as the lowest variable
     #[arg(long, default_value_t = 1)]
-    first_var_idx: usize,
+    first_var_idx: u32,
 }
 
 fn main() -> anyhow::Result<()> {
     let args = Args::parse();
     let opb_opts = rustsat::instances::fio::opb::Options {
-        first_var_idx: 0,
+        first_var_idx: args.first_var_idx,
         ..Default::default()
     };
 
diff --git a/tools/src/bin/opb2mcnf.rs b/tools/src/bin/opb2mcnf.rs
index 4753f84..e35d176 100644
--- a/tools/src/bin/opb2mcnf.rs
+++ b/tools/src/bin/opb2mcnf.rs
@@ -15,13 +15,13 @@ struct Args {
     out_path: Option<std::path::PathBuf>,
     /// The index in the OPB file to treat as the lowest variable
     #[arg(long, default_value_t = 1)]
-    first_var_idx: usize,
+    first_var_idx: u32,
 }
 
 fn main() -> anyhow::Result<()> {
     let args = Args::parse();
     let opb_opts = rustsat::instances::fio::opb::Options {
-        first_var_idx: 0,
+        first_var_idx: args.first_var_idx,
         ..Default::default()
     };
 
diff --git a/tools/src/bin/opb2wcnf.rs b/tools/src/bin/opb2wcnf.rs
index fa10c64..a6c5a0f 100644
--- a/tools/src/bin/opb2wcnf.rs
+++ b/tools/src/bin/opb2wcnf.rs
@@ -14,13 +14,13 @@ struct Args {
     out_path: Option<std::path::PathBuf>,
     /// The index in the OPB file to treat as the lowest variable
     #[arg(long, default_value_t = 1)]
-    first_var_idx: usize,
+    first_var_idx: u32,
 }
 
 fn main() -> anyhow::Result<()> {
     let args = <Args as clap::Parser>::parse();
     let opb_opts = rustsat::instances::fio::opb::Options {
-        first_var_idx: 0,
+        first_var_idx: args.first_var_idx,
         ..Default::default()
     };
 
-- 
2.43.0


From 4657ab31cf09958ca3ae429de0f9d34ac0a57b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:59 +0000
Subject: [PATCH 55/74] fix: opb2cnf writes its statistics as comments

---
 tools/src/bin/opb2cnf.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/src/bin/opb2cnf.rs b/tools/src/bin/opb2cnf.rs
index 2d7442b..f014529 100644
--- a/tools/src/bin/opb2cnf.rs
+++ b/tools/src/bin/opb2cnf.rs
@@ -32,9 +32,9 @@ fn main() -> anyhow::Result<()> {
             .context("error parsing input")?
     };
 
-    println!("{} clauses", inst.n_clauses());
-    println!("{} cards", inst.n_cards());
-    println!("{} pbs", inst.n_pbs());
+    println!("c {} clauses", inst.n_clauses());
+    println!("c {} cards", inst.n_cards());
+    println!("c {} pbs", inst.n_pbs());
 
     inst.convert_to_cnf();
 
-- 
2.43.0


From 449c12847a81a551302d42130174e1792f979f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:59 +0000
Subject: [PATCH 56/74] fix: shuffledimacs recognises the file type of
 xz-compressed files

---
 tools/src/bin/shuffledimacs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/bin/shuffledimacs.rs b/tools/src/bin/shuffledimacs.rs
index ea6c406..8ec2570 100644
--- a/tools/src/bin/shuffledimacs.rs
+++ b/tools/src/bin/shuffledimacs.rs
@@ -73,7 +73,7 @@ macro_rules! is_one_of {
 fn determine_file_type(in_path: &std::path::Path) -> FileType {
     if let Some(ext) = in_path.extension() {
         let path_without_compr = in_path.with_extension("");
-        let ext = if is_one_of!(ext, "gz", "bz2") {
+        let ext = if is_one_of!(ext, "gz", "bz2", "xz") {
             // Strip compression extension
             match path_without_compr.extension() {
                 Some(ext) => ext,
-- 
2.43.0


From e06769fdeb3fe09ddd101017aea4b839607eca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:59 +0000
Subject: [PATCH 57/74] fix: mo2ilp announces the number of non-zero
 coefficients it writes

---
 tools/src/bin/mo2ilp.rs | 75 ++++++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 34 deletions(-)

diff --git a/tools/src/bin/mo2ilp.rs b/tools/src/bin/mo2ilp.rs
index bca7937..b6138ad 100644
--- a/tools/src/bin/mo2ilp.rs
+++ b/tools/src/bin/mo2ilp.rs
@@ -198,69 +198,81 @@ fn write_instance<W: std::io::Write>(
     // add aux variable unit for objective offset
     pbs.push(PbConstraint::new_lb([(vm.new_lit(), 1)], 1));
 
-    // compute non-zeroes
-    let non_zero_constrs: usize = pbs.iter().map(PbConstraint::len).sum();
-    let non_zero_objs: usize = objs
-        .iter()
-        .map(rustsat::instances::Objective::n_softs)
-        .sum();
+    let n_vars = vm.n_used();
+    let cost_rows: Vec<_> = objs
+        .into_iter()
+        .map(|obj| objective_row(obj, n_vars))
+        .collect();
+    let constr_rows: Vec<_> = pbs
+        .into_iter()
+        .map(|constr| constraint_row(constr, n_vars))
+        .collect();
 
     match format {
         OutputFormat::Bauss => {
             // #vars #constrs #objs #nonzerosinconstrs #nonzerosincosts
+            let n_non_zero = |row: &[isize]| row.iter().filter(|c| **c != 0).count();
             writeln!(
                 writer,
-                "{} {} {} {non_zero_constrs} {non_zero_objs}",
-                vm.n_used(),
-                pbs.len(),
-                objs.len(),
+                "{n_vars} {} {} {} {}",
+                constr_rows.len(),
+                cost_rows.len(),
+                constr_rows
+                    .iter()
+                    .map(|(row, ..)| n_non_zero(row))
+                    .sum::<usize>(),
+                cost_rows.iter().map(|row| n_non_zero(row)).sum::<usize>(),
             )?;
         }
         OutputFormat::Fgt => {
             // #vars #constrs #objs
-            writeln!(writer, "{} {} {}", vm.n_used(), pbs.len(), objs.len(),)?;
+            writeln!(
+                writer,
+                "{n_vars} {} {}",
+                constr_rows.len(),
+                cost_rows.len()
+            )?;
         }
     }
     writeln!(writer)?;
 
     if matches!(format, OutputFormat::Fgt) {
         // objective types
-        writeln!(writer, "{}", (0..objs.len()).map(|_| "minsum").format(" "))?;
+        writeln!(
+            writer,
+            "{}",
+            cost_rows.iter().map(|_| "minsum").format(" ")
+        )?;
         writeln!(writer)?;
     }
 
     // cost matrix
-    for obj in objs {
-        write_objective(obj, vm.n_used(), writer)?;
+    for row in cost_rows {
+        writeln!(writer, "{}", row.into_iter().format(" "))?;
     }
     writeln!(writer)?;
 
     // constraint matrix
-    let bounds = pbs
-        .into_iter()
-        .map(|c| write_constraint(c, vm.n_used(), writer))
-        .collect::<std::io::Result<Vec<_>>>()?;
+    for (row, ..) in &constr_rows {
+        writeln!(writer, "{}", row.iter().format(" "))?;
+    }
     writeln!(writer)?;
 
     // rhs
-    for (op, bound) in bounds {
+    for (_, op, bound) in constr_rows {
         writeln!(writer, "{op} {bound}")?;
     }
 
     if matches!(format, OutputFormat::Fgt) {
         writeln!(writer)?;
-        writeln!(writer, "{}", (0..vm.n_used()).map(|_| 0).format(" "))?;
-        writeln!(writer, "{}", (0..vm.n_used()).map(|_| 1).format(" "))?;
+        writeln!(writer, "{}", (0..n_vars).map(|_| 0).format(" "))?;
+        writeln!(writer, "{}", (0..n_vars).map(|_| 1).format(" "))?;
     }
 
     Ok(())
 }
 
-fn write_objective<W: std::io::Write>(
-    obj: rustsat::instances::Objective,
-    n_vars: u32,
-    writer: &mut W,
-) -> std::io::Result<()> {
+fn objective_row(obj: rustsat::instances::Objective, n_vars: u32) -> Vec<isize> {
     let mut coefs = vec![0; n_vars as usize];
     for (lit, coef) in obj.iter_soft_lits().unwrap() {
         let mut coef =
@@ -272,14 +284,10 @@ fn write_objective<W: std::io::Write>(
         coefs[lit.var().idx()] += coef;
     }
     *coefs.last_mut().unwrap() += obj.offset();
-    writeln!(writer, "{}", coefs.into_iter().format(" "))
+    coefs
 }
 
-fn write_constraint<W: std::io::Write>(
-    constr: PbConstraint,
-    n_vars: u32,
-    writer: &mut W,
-) -> std::io::Result<(Operator, isize)> {
+fn constraint_row(constr: PbConstraint, n_vars: u32) -> (Vec<isize>, Operator, isize) {
     let mut coefs = vec![0; n_vars as usize];
     let (lits, op, mut bound) = match constr {
         PbConstraint::Ub(constr) => {
@@ -304,8 +312,7 @@ fn write_constraint<W: std::io::Write>(
         }
         coefs[lit.var().idx()] += coef;
     }
-    writeln!(writer, "{}", coefs.into_iter().format(" "))?;
-    Ok((op, bound))
+    (coefs, op, bound)
 }
 
 #[derive(Clone, Copy)]
-- 
2.43.0


From c379ee2056dcb45024846e4e5336efcefcda8099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:59 +0000
Subject: [PATCH 58/74] fix: gbmosplit keeps its messages out of an instance
 written to stdout

---
 tools/src/bin/gbmosplit.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tools/src/bin/gbmosplit.rs b/tools/src/bin/gbmosplit.rs
index 717061e..30b6f42 100644
--- a/tools/src/bin/gbmosplit.rs
+++ b/tools/src/bin/gbmosplit.rs
@@ -87,7 +87,7 @@ impl Cli {
         write!(&mut buffer, ": ").unwrap();
         buffer.reset().unwrap();
         writeln!(&mut buffer, "{msg}").unwrap();
-        self.stdout.print(&buffer).unwrap();
+        self.stderr.print(&buffer).unwrap();
     }
 
     fn error(&self, err: &anyhow::Error) {
@@ -101,11 +101,17 @@ impl Cli {
         write!(&mut buffer, ": ").unwrap();
         buffer.reset().unwrap();
         writeln!(&mut buffer, "{err}").unwrap();
-        self.stdout.print(&buffer).unwrap();
+        self.stderr.print(&buffer).unwrap();
     }
 
     fn info(&self, msg: &str) {
-        let mut buffer = self.stdout.buffer();
+        // if the instance is written to `stdout`, nothing else must be
+        let writer = if self.out_path.is_some() {
+            &self.stdout
+        } else {
+            &self.stderr
+        };
+        let mut buffer = writer.buffer();
         buffer
             .set_color(ColorSpec::new().set_bold(true).set_fg(Some(Color::Blue)))
             .unwrap();
@@ -115,7 +121,7 @@ impl Cli {
         write!(&mut buffer, ": ").unwrap();
         buffer.reset().unwrap();
         writeln!(&mut buffer, "{msg}").unwrap();
-        self.stdout.print(&buffer).unwrap();
+        writer.print(&buffer).unwrap();
     }
 
     fn print_split_stats(&self, split_stats: SplitStats) {
-- 
2.43.0


From 444f3da78fafdba227dbc575a70d475a064891de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:59 +0000
Subject: [PATCH 59/74] fix: gbmosplit keeps the hardened soft clauses in OPB
 output

---
 tools/src/bin/gbmosplit.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/src/bin/gbmosplit.rs b/tools/src/bin/gbmosplit.rs
index 30b6f42..8c52403 100644
--- a/tools/src/bin/gbmosplit.rs
+++ b/tools/src/bin/gbmosplit.rs
@@ -663,7 +663,10 @@ fn main() -> anyhow::Result<()> {
             WriteFormat::Opb => {
                 let (mut constrs, mut objs) = mo_inst.decompose();
                 for obj in &mut objs {
-                    obj.convert_to_soft_lits(constrs.var_manager_mut());
+                    let hardened = obj.convert_to_soft_lits(constrs.var_manager_mut());
+                    for cl in hardened {
+                        constrs.add_clause(cl);
+                    }
                 }
                 let mo_inst = MultiOptInstance::compose(constrs, objs);
                 if let Some(path) = &cli.out_path {
-- 
2.43.0


From 0c42de7436b2a6329ae8aa6262786f91f48d0c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:20 +0000
Subject: [PATCH 60/74] fix: vOptLib knapsack files are read with their number
 of constraints and capacity

---
 tools/src/encodings/knapsack.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tools/src/encodings/knapsack.rs b/tools/src/encodings/knapsack.rs
index 62bfc4f..e6dda40 100644
--- a/tools/src/encodings/knapsack.rs
+++ b/tools/src/encodings/knapsack.rs
@@ -268,12 +268,18 @@ mod parsing {
             )))
             .parse(&line)
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
-        single_value(dec_uint::<_, u32, ContextError>, "#")
+        let line = next_non_comment_line!(reader, line_num)
+            .context("file ended before number of constraints line")?;
+        let n_constrs = single_value(dec_uint::<_, u32, ContextError>, "#")
             .context(StrContext::Expected(StrContextValue::Description(
                 "number of constraints",
             )))
             .parse(&line)
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+        anyhow::ensure!(
+            n_constrs == 1,
+            "expected exactly one constraint, found {n_constrs}"
+        );
         let mut inst = super::Knapsack {
             items: vec![
                 super::ItemData {
@@ -307,6 +313,14 @@ mod parsing {
                 .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
             inst.items[item_idx].weight = weight;
         }
+        let line =
+            next_non_comment_line!(reader, line_num).context("file ended before capacity line")?;
+        inst.capacity = single_value(dec_uint::<_, usize, ContextError>, "#")
+            .context(StrContext::Expected(StrContextValue::Description(
+                "capacity",
+            )))
+            .parse(&line)
+            .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
         Ok(inst)
     }
 
-- 
2.43.0


From 405bdd76a4e7ae3bcae1f2ca3633bdd813bcf638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:20 +0000
Subject: [PATCH 61/74] fix: problem files may end without a newline

---
 tools/src/parsing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/src/parsing.rs b/tools/src/parsing.rs
index aa64453..1534608 100644
--- a/tools/src/parsing.rs
+++ b/tools/src/parsing.rs
@@ -4,6 +4,8 @@ use winnow::ascii::line_ending;
 use winnow::ascii::space0;
 use winnow::ascii::space1;
 use winnow::ascii::till_line_ending;
+use winnow::combinator::alt;
+use winnow::combinator::eof;
 use winnow::combinator::opt;
 use winnow::error::ContextError;
 use winnow::error::ParserError;
@@ -35,7 +37,7 @@ where
     winnow::seq! {
         space0,
         opt((comment_tag, till_line_ending)),
-        line_ending,
+        alt((line_ending, eof)),
     }
     .take()
 }
-- 
2.43.0


From f3b20fb29ecc7f12355eb85c6ccfd18271b24702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:20 +0000
Subject: [PATCH 62/74] fix: incomplete and empty knapsack files are reported
 as errors

---
 tools/src/encodings/knapsack.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tools/src/encodings/knapsack.rs b/tools/src/encodings/knapsack.rs
index e6dda40..f680977 100644
--- a/tools/src/encodings/knapsack.rs
+++ b/tools/src/encodings/knapsack.rs
@@ -130,6 +130,10 @@ mod parsing {
             )))
             .parse(&line)
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+        anyhow::ensure!(
+            n_items > 0 && n_obj > 0,
+            "expected at least one item and one objective"
+        );
         let mut inst = super::Knapsack {
             items: vec![
                 super::ItemData {
@@ -241,6 +245,10 @@ mod parsing {
                 line_num,
             )
         })?;
+        anyhow::ensure!(
+            item_idx == n_items,
+            "number of weights does not match number of items"
+        );
         for item in &inst.items {
             anyhow::ensure!(
                 item.values.len() == n_obj,
@@ -280,6 +288,10 @@ mod parsing {
             n_constrs == 1,
             "expected exactly one constraint, found {n_constrs}"
         );
+        anyhow::ensure!(
+            n_items > 0 && n_obj > 0,
+            "expected at least one item and one objective"
+        );
         let mut inst = super::Knapsack {
             items: vec![
                 super::ItemData {
-- 
2.43.0


From 0bee11f4a13caec0ba0acfe6ac517a799ba9e3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:20 +0000
Subject: [PATCH 63/74] fix: facility location files with missing values are
 reported as errors

---
 tools/src/encodings/facilitylocation.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tools/src/encodings/facilitylocation.rs b/tools/src/encodings/facilitylocation.rs
index ae42f07..942892c 100644
--- a/tools/src/encodings/facilitylocation.rs
+++ b/tools/src/encodings/facilitylocation.rs
@@ -105,6 +105,11 @@ mod parsing {
             n_facilities: n_services,
             ..super::FacilityLocation::default()
         };
+        anyhow::ensure!(
+            n_users > 0 && n_services > 0,
+            "expected at least one user and one service"
+        );
+        let mut n_rows = 0;
         for _ in 0..2 {
             next_line!(reader, line_num).context("file ended early")?;
             for _ in 0..n_users {
@@ -122,10 +127,15 @@ mod parsing {
                 )))
                 .parse(line.trim_end())
                 .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+                n_rows += 1;
+                anyhow::ensure!(
+                    prob.supply_cost.len() == n_rows * n_services,
+                    "number of values in c matrix line does not match number of services"
+                );
             }
         }
 
-        for _ in 0..2 {
+        for obj in 0..2 {
             next_line!(reader, line_num).context("file ended early")?;
             let line = next_line!(reader, line_num).context("file ended early")?;
             SeparatedCallbackParser::new(
@@ -140,6 +150,10 @@ mod parsing {
             )))
             .parse(line.trim_end())
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+            anyhow::ensure!(
+                prob.opening_cost.len() == (obj + 1) * n_services,
+                "number of values in r vector does not match number of services"
+            );
         }
 
         Ok(prob)
-- 
2.43.0


From bebf90057d7f0cf56dc7ac391bb6a37cb4b931bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:04 +0000
Subject: [PATCH 64/74] fix: assignment files with comments after separators
 are read, malformed ones are reported as errors

---
 tools/src/encodings/assignment.rs | 39 ++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/tools/src/encodings/assignment.rs b/tools/src/encodings/assignment.rs
index 79aad3a..9c67794 100644
--- a/tools/src/encodings/assignment.rs
+++ b/tools/src/encodings/assignment.rs
@@ -88,25 +88,36 @@ mod parsing {
             )))
             .parse(&line)
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+        anyhow::ensure!(n_tasks > 0, "expected at least one task");
         let mut inst = super::Assignment::empty(n_tasks, n_objs);
         let mut buf = String::new();
         let mut depth = 0;
         let mut obj_idx = 0;
         let mut task_idx = 0;
+        let mut row_done = false;
+        let mut n_rows = 0;
         while reader.read_line(&mut buf)? > 0 {
             line_num += 1;
             let mut remain = buf.trim_start();
             loop {
+                remain = remain.trim_start();
+                let n_remain = remain.len();
                 if remain.starts_with('[') && depth < 2 {
                     depth += 1;
-                    remain = &remain[1..];
+                    remain = remain[1..].trim_start();
                 }
                 if remain.starts_with(']') {
-                    depth -= 1;
-                    if depth == 1 {
+                    anyhow::ensure!(depth > 0, "unexpected end of list");
+                    if depth == 2 {
+                        anyhow::ensure!(
+                            task_idx + 1 == n_tasks && row_done,
+                            "number of tasks does not match up"
+                        );
                         task_idx = 0;
+                        row_done = false;
                     }
-                    remain = &remain[1..];
+                    depth -= 1;
+                    remain = remain[1..].trim_start();
                 }
                 if remain.starts_with(',') {
                     match depth {
@@ -115,17 +126,19 @@ mod parsing {
                             anyhow::ensure!(obj_idx < n_objs, "too many objectives");
                         }
                         2 => {
+                            anyhow::ensure!(row_done, "expected list of values");
                             task_idx += 1;
-                            anyhow::ensure!(obj_idx < n_objs, "too many tasks");
+                            row_done = false;
+                            anyhow::ensure!(task_idx < n_tasks, "too many tasks");
                         }
-                        _ => unreachable!(),
+                        _ => anyhow::bail!("unexpected list separator"),
                     };
-                    remain = &remain[1..];
+                    remain = remain[1..].trim_start();
                 }
                 if remain.starts_with('#') || remain.trim().is_empty() {
                     break;
                 }
-                if depth == 2 {
+                if depth == 2 && !row_done {
                     let mut agent_idx = 0;
                     remain = (
                         ListCallbackParser::new(
@@ -158,12 +171,20 @@ mod parsing {
                             )
                         })?
                         .1;
+                    anyhow::ensure!(
+                        agent_idx == n_tasks,
+                        "number of agents does not match up"
+                    );
+                    row_done = true;
+                    n_rows += 1;
                 }
+                anyhow::ensure!(remain.len() < n_remain, "unexpected token in cost lists");
             }
             buf.clear();
         }
+        anyhow::ensure!(depth == 0, "file ended before cost lists ended");
         anyhow::ensure!(
-            obj_idx + 1 == n_objs,
+            obj_idx + 1 == n_objs && n_rows == n_objs * n_tasks,
             "number of objectives does not match up"
         );
         Ok(inst)
-- 
2.43.0


From 555e696bed812701881a3806d34bf8b6a72ca81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:50 +0000
Subject: [PATCH 65/74] fix: malformed lines in clustering files are reported
 instead of dropped

---
 tools/src/encodings/cnf/clustering.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/tools/src/encodings/cnf/clustering.rs b/tools/src/encodings/cnf/clustering.rs
index 651c636..0a08f3a 100644
--- a/tools/src/encodings/cnf/clustering.rs
+++ b/tools/src/encodings/cnf/clustering.rs
@@ -139,12 +139,15 @@ impl Encoding {
         let mut next_idx: u32 = 0;
         let process_line =
             |(line_num, line): (usize, Result<String, std::io::Error>)| -> Option<anyhow::Result<(String, String, f64)>> {
-                let full_line = line.ok()?;
-                let line = full_line.trim_start();
-                if line.starts_with('%') {
+                let full_line = match line {
+                    Ok(line) => line,
+                    Err(err) => return Some(Err(err.into())),
+                };
+                let line = full_line.trim();
+                if line.is_empty() || line.starts_with('%') {
                     return None;
                 }
-                let tup = winnow::Parser::<_, _, ContextError>::parse(
+                let tup = match winnow::Parser::<_, _, ContextError>::parse(
                     &mut winnow::seq! {
                         ident(),
                         _: multispace1::<_, ContextError>,
@@ -154,8 +157,18 @@ impl Encoding {
                     },
                     line,
                 )
-                .map_err(|e| ParsingError::from_parse(&e, &full_line, 0, line_num+1))
-                .ok()?;
+                {
+                    Ok(tup) => tup,
+                    Err(e) => {
+                        return Some(Err(ParsingError::from_parse(
+                            &e,
+                            &full_line,
+                            utils::substr_offset(&full_line, line).unwrap_or(0),
+                            line_num + 1,
+                        )
+                        .into()))
+                    }
+                };
                 if !ident_map.contains_key(&tup.0) {
                     ident_map.insert(tup.0.clone(), next_idx);
                     next_idx += 1;
@@ -172,6 +185,7 @@ impl Encoding {
             .filter_map(process_line)
             .collect::<Result<Vec<_>, _>>()?;
         let n = ident_map.len() as u32;
+        anyhow::ensure!(n > 1, "expected at least two different nodes");
 
         let mut similarities = Vec::new();
         similarities.resize(Self::sim_idx(n - 2, n - 1, n) + 1, Similarity::DontCare);
-- 
2.43.0


From 9f7cbd2230d9f3fd5b0f08925fdd439f9a160e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:51 +0000
Subject: [PATCH 66/74] fix: the clustering encoding respects its
 single-objective option

---
 tools/src/bin/encodings.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/src/bin/encodings.rs b/tools/src/bin/encodings.rs
index 1877de1..5ee5d2a 100644
--- a/tools/src/bin/encodings.rs
+++ b/tools/src/bin/encodings.rs
@@ -335,6 +335,8 @@ fn main() -> anyhow::Result<()> {
     let out_path = args.out_path;
     match args.fmt {
         Format::Cnf(args) => {
+            let single_objective = args.single_objective
+                || matches!(&args.enc, CnfEncoding::Clustering(args) if args.single_objective);
             let enc: BoxedDimacsIter = match args.enc {
                 CnfEncoding::Clustering(args) => Box::new(clustering(args)?),
                 CnfEncoding::Knapsack(args) => {
@@ -345,7 +347,7 @@ fn main() -> anyhow::Result<()> {
                     Box::new(cnf_knapsack(inst))
                 }
             };
-            write_cnf(enc, out_path, args.single_objective)
+            write_cnf(enc, out_path, single_objective)
         }
         Format::Pb(args) => {
             let opts = fio::opb::Options {
-- 
2.43.0


From 81b37a61c0d0376c7ae3da629650b221cdd4e0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:24 +0000
Subject: [PATCH 67/74] fix: the clustering encoding does not overflow for huge
 similarities

---
 tools/src/bin/encodings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/src/bin/encodings.rs b/tools/src/bin/encodings.rs
index 5ee5d2a..bb7bd36 100644
--- a/tools/src/bin/encodings.rs
+++ b/tools/src/bin/encodings.rs
@@ -203,7 +203,7 @@ fn clustering(args: ClusteringArgs) -> anyhow::Result<impl Iterator<Item = fio::
             std::io::BufReader::new(std::fs::File::open(in_path)?),
             |sim| {
                 cnf::clustering::saturating_map(
-                    cnf::clustering::scaling_map(sim, args.multiplier) - args.offset,
+                    cnf::clustering::scaling_map(sim, args.multiplier).saturating_sub(args.offset),
                     args.dont_care,
                     args.hard_threshold,
                 )
@@ -212,7 +212,7 @@ fn clustering(args: ClusteringArgs) -> anyhow::Result<impl Iterator<Item = fio::
     } else {
         cnf::clustering::Encoding::new(std::io::BufReader::new(std::io::stdin()), |sim| {
             cnf::clustering::saturating_map(
-                cnf::clustering::scaling_map(sim, args.multiplier) - args.offset,
+                cnf::clustering::scaling_map(sim, args.multiplier).saturating_sub(args.offset),
                 args.dont_care,
                 args.hard_threshold,
             )
-- 
2.43.0


From 505d9567fb8106c54d82eb3d6474069576d349d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:24 +0000
Subject: [PATCH 68/74] fix: assignment files without objectives are reported
 as errors

---
 tools/src/encodings/assignment.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/src/encodings/assignment.rs b/tools/src/encodings/assignment.rs
index 9c67794..ac74ce6 100644
--- a/tools/src/encodings/assignment.rs
+++ b/tools/src/encodings/assignment.rs
@@ -80,6 +80,7 @@ mod parsing {
             )))
             .parse(&line)
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+        anyhow::ensure!(n_objs > 0, "expected at least one objective");
         let line = next_non_comment_line!(reader, line_num)
             .context("file ended before number of tasks line")?;
         let n_tasks = single_value(dec_uint::<_, usize, ContextError>, "#")
-- 
2.43.0


From 9836f71040188eb4bc57c158d7d8d427177dac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 69/74] fix: detaching an IPASIR learner drops the learner, not
 the terminator

---
 ipasir/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipasir/src/lib.rs b/ipasir/src/lib.rs
index a186b1b..c048f83 100644
--- a/ipasir/src/lib.rs
+++ b/ipasir/src/lib.rs
@@ -398,7 +398,7 @@ impl<'learn> rustsat::solvers::Learn<'learn> for IpasirSolver<'_, 'learn> {
     }
 
     fn detach_learner(&mut self) {
-        self.terminate_cb = None;
+        self.learner_cb = None;
         unsafe { ffi::ipasir_set_learn(self.handle, std::ptr::null(), 0, None) }
     }
 }
-- 
2.43.0


From 2b31d2ca117f632102a3ba0f47797a0f5c3dbd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 70/74] fix: learners accept maximum clause lengths above
 c_int::MAX

---
 cadical/src/lib.rs | 2 +-
 ipasir/src/lib.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 9a3f9eb..3aa66f8 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -936,7 +936,7 @@ impl<'learn> rustsat::solvers::Learn<'learn> for CaDiCaL<'_, 'learn> {
             ffi::ccadical_set_learn(
                 self.handle,
                 cb_ptr,
-                max_len.try_into().unwrap(),
+                max_len.try_into().unwrap_or(c_int::MAX),
                 Some(ffi::rustsat_ccadical_learn_cb),
             );
         }
diff --git a/ipasir/src/lib.rs b/ipasir/src/lib.rs
index c048f83..30cefbf 100644
--- a/ipasir/src/lib.rs
+++ b/ipasir/src/lib.rs
@@ -391,7 +391,7 @@ impl<'learn> rustsat::solvers::Learn<'learn> for IpasirSolver<'_, 'learn> {
             ffi::ipasir_set_learn(
                 self.handle,
                 cb_ptr,
-                max_len.try_into().unwrap(),
+                max_len.try_into().unwrap_or(c_int::MAX),
                 Some(ffi::ipasir_learn_cb),
             );
         }
-- 
2.43.0


From 2f4a88d0cc507a545077282b2aacab75d9ba8cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 71/74] fix: the documented default arguments of the Python
 constructors work

---
 pyapi/src/encodings/am1.rs  | 2 +-
 pyapi/src/encodings/card.rs | 2 +-
 pyapi/src/encodings/pb.rs   | 2 +-
 pyapi/src/instances.rs      | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyapi/src/encodings/am1.rs b/pyapi/src/encodings/am1.rs
index f22edee..8e7d66a 100644
--- a/pyapi/src/encodings/am1.rs
+++ b/pyapi/src/encodings/am1.rs
@@ -21,7 +21,7 @@ macro_rules! implement_pyapi {
         #[pymethods]
         impl $type {
             #[new]
-            #[pyo3(text_signature = "(lits = [])")]
+            #[pyo3(signature = (lits = vec![]), text_signature = "(lits = [])")]
             fn new(lits: Vec<crate::types::Lit>) -> Self {
                 let lits: Vec<rustsat::types::Lit> = unsafe { std::mem::transmute(lits) };
                 <$rstype>::from_iter(lits).into()
diff --git a/pyapi/src/encodings/card.rs b/pyapi/src/encodings/card.rs
index b2f4988..9e014bd 100644
--- a/pyapi/src/encodings/card.rs
+++ b/pyapi/src/encodings/card.rs
@@ -28,7 +28,7 @@ macro_rules! implement_pyapi {
         #[pymethods]
         impl $type {
             #[new]
-            #[pyo3(text_signature = "(lits = [])")]
+            #[pyo3(signature = (lits = vec![]), text_signature = "(lits = [])")]
             fn new(lits: Vec<crate::types::Lit>) -> Self {
                 let lits: Vec<rustsat::types::Lit> = unsafe { std::mem::transmute(lits) };
                 <$rstype>::from_iter(lits).into()
diff --git a/pyapi/src/encodings/pb.rs b/pyapi/src/encodings/pb.rs
index 902be24..02edf48 100644
--- a/pyapi/src/encodings/pb.rs
+++ b/pyapi/src/encodings/pb.rs
@@ -39,7 +39,7 @@ macro_rules! shared_pyapi {
         #[pymethods]
         impl $type {
             #[new]
-            #[pyo3(text_signature = "(lits = [])")]
+            #[pyo3(signature = (lits = vec![]), text_signature = "(lits = [])")]
             fn new(lits: Vec<(crate::types::Lit, usize)>) -> Self {
                 let lits: Vec<(rustsat::types::Lit, usize)> = unsafe { std::mem::transmute(lits) };
                 <$rstype>::from_iter(lits).into()
diff --git a/pyapi/src/instances.rs b/pyapi/src/instances.rs
index 9665238..c6b8089 100644
--- a/pyapi/src/instances.rs
+++ b/pyapi/src/instances.rs
@@ -37,7 +37,7 @@ impl<'a> From<&'a mut VarManager> for &'a mut rustsat::instances::BasicVarManage
 impl VarManager {
     /// Creates a new variable manager. Optionally marking `n_used` variables as already used.
     #[new]
-    #[pyo3(text_signature = "(n_used = 0)")]
+    #[pyo3(signature = (n_used = 0), text_signature = "(n_used = 0)")]
     fn new(n_used: u32) -> Self {
         rustsat::instances::BasicVarManager::from_next_free(rustsat::types::Var::new(n_used)).into()
     }
@@ -127,7 +127,7 @@ impl Cnf {
     }
 
     #[new]
-    #[pyo3(text_signature = "(clauses = [])")]
+    #[pyo3(signature = (clauses = vec![]), text_signature = "(clauses = [])")]
     fn new(clauses: Vec<crate::types::Clause>) -> Self {
         clauses
             .into_iter()
-- 
2.43.0


From 6987acf16eba5af7e3468ceeef636e7cd8f78c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:21 +0000
Subject: [PATCH 72/74] fix: Python clauses and CNFs raise IndexError for
 invalid indices and accept negative ones and all slices

---
 pyapi/src/instances.rs | 11 +++--------
 pyapi/src/lib.rs       | 22 ++++++++++++++++++++++
 pyapi/src/types.rs     | 11 +++--------
 3 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/pyapi/src/instances.rs b/pyapi/src/instances.rs
index c6b8089..c3fd1c9 100644
--- a/pyapi/src/instances.rs
+++ b/pyapi/src/instances.rs
@@ -144,23 +144,18 @@ impl Cnf {
         self.cnf.len()
     }
 
-    #[expect(clippy::cast_sign_loss)]
     #[expect(clippy::needless_pass_by_value)]
     fn __getitem__(
         &self,
         idx: Bound<'_, PyAny>,
     ) -> PyResult<crate::SingleOrList<crate::types::Clause>> {
-        if let Ok(idx) = idx.extract::<i32>() {
-            let idx: usize = idx.try_into().expect("got unexpected negative index");
+        if let Ok(idx) = idx.extract::<isize>() {
+            let idx = crate::list_index(idx, self.__len__())?;
             Ok(crate::SingleOrList::Single(self.cnf[idx].clone().into()))
         } else if let Ok(slice) = idx.cast::<pyo3::types::PySlice>() {
             let indices = slice.indices(self.__len__().try_into().unwrap())?;
-            debug_assert!(indices.start >= 0);
-            debug_assert!(indices.stop >= 0);
-            debug_assert!(indices.step >= 0);
             Ok(crate::SingleOrList::List(
-                (indices.start as usize..indices.stop as usize)
-                    .step_by(indices.step as usize)
+                crate::slice_indices(&indices)
                     .map(|idx| self.cnf[idx].clone().into())
                     .collect(),
             ))
diff --git a/pyapi/src/lib.rs b/pyapi/src/lib.rs
index d60bd00..804b41a 100644
--- a/pyapi/src/lib.rs
+++ b/pyapi/src/lib.rs
@@ -28,6 +28,28 @@ pub(crate) enum SingleOrList<T> {
     List(Vec<T>),
 }
 
+/// Converts a Python index, which might be negative, for a list of a given length
+pub(crate) fn list_index(idx: isize, len: usize) -> PyResult<usize> {
+    let idx = if idx < 0 {
+        len.checked_sub(idx.unsigned_abs())
+    } else {
+        Some(idx.unsigned_abs())
+    };
+    idx.filter(|&idx| idx < len)
+        .ok_or_else(|| pyo3::exceptions::PyIndexError::new_err("index out of range"))
+}
+
+/// Gets the indices that a Python slice consists of
+pub(crate) fn slice_indices(
+    indices: &pyo3::types::PySliceIndices,
+) -> impl Iterator<Item = usize> + '_ {
+    (0..indices.slicelength).scan(indices.start, |idx, _| {
+        let this = idx.unsigned_abs();
+        *idx = idx.wrapping_add(indices.step);
+        Some(this)
+    })
+}
+
 /// Python bindings for the RustSAT library
 #[pymodule]
 fn rustsat(py: Python<'_>, m: &Bound<'_, PyModule>) -> PyResult<()> {
diff --git a/pyapi/src/types.rs b/pyapi/src/types.rs
index 4fde3ba..eed83d8 100644
--- a/pyapi/src/types.rs
+++ b/pyapi/src/types.rs
@@ -158,20 +158,15 @@ impl Clause {
         self.cl.len()
     }
 
-    #[expect(clippy::cast_sign_loss)]
     #[expect(clippy::needless_pass_by_value)]
     fn __getitem__(&self, idx: Bound<'_, PyAny>) -> PyResult<crate::SingleOrList<Lit>> {
-        if let Ok(idx) = idx.extract::<i32>() {
-            let idx: usize = idx.try_into().expect("got unexpected negative index");
+        if let Ok(idx) = idx.extract::<isize>() {
+            let idx = crate::list_index(idx, self.__len__())?;
             Ok(crate::SingleOrList::Single(Lit(self.cl[idx])))
         } else if let Ok(slice) = idx.cast::<pyo3::types::PySlice>() {
             let indices = slice.indices(self.__len__().try_into().unwrap())?;
-            debug_assert!(indices.start >= 0);
-            debug_assert!(indices.stop >= 0);
-            debug_assert!(indices.step >= 0);
             Ok(crate::SingleOrList::List(
-                (indices.start as usize..indices.stop as usize)
-                    .step_by(indices.step as usize)
+                crate::slice_indices(&indices)
                     .map(|idx| Lit(self.cl[idx]))
                     .collect(),
             ))
-- 
2.43.0


From 79374df1806c369866ba537d2f9c52406edfbe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:21 +0000
Subject: [PATCH 73/74] fix: extending a Python clause while iterating over it
 is noticed

---
 pyapi/src/types.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyapi/src/types.rs b/pyapi/src/types.rs
index eed83d8..ce38767 100644
--- a/pyapi/src/types.rs
+++ b/pyapi/src/types.rs
@@ -184,6 +184,7 @@ impl Clause {
     }
 
     fn extend(&mut self, lits: Vec<Lit>) {
+        self.modified = true;
         let lits: Vec<rustsat::types::Lit> = unsafe { std::mem::transmute(lits) };
         self.cl.extend(lits);
     }
-- 
2.43.0


From 40314d65b13805ba20610b5614c39332825fb7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:49 +0000
Subject: [PATCH 74/74] fix: Python variable managers raise ValueError for too
 many variables

---
 pyapi/src/instances.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyapi/src/instances.rs b/pyapi/src/instances.rs
index c3fd1c9..07ea7b2 100644
--- a/pyapi/src/instances.rs
+++ b/pyapi/src/instances.rs
@@ -33,18 +33,24 @@ impl<'a> From<&'a mut VarManager> for &'a mut rustsat::instances::BasicVarManage
     }
 }
 
+/// Gets the next free variable if a number of variables is used
+fn next_free(n_used: u32) -> PyResult<rustsat::types::Var> {
+    rustsat::types::Var::new_with_error(n_used)
+        .map_err(|err| pyo3::exceptions::PyValueError::new_err(format!("{err}")))
+}
+
 #[pymethods]
 impl VarManager {
     /// Creates a new variable manager. Optionally marking `n_used` variables as already used.
     #[new]
     #[pyo3(signature = (n_used = 0), text_signature = "(n_used = 0)")]
-    fn new(n_used: u32) -> Self {
-        rustsat::instances::BasicVarManager::from_next_free(rustsat::types::Var::new(n_used)).into()
+    fn new(n_used: u32) -> PyResult<Self> {
+        Ok(rustsat::instances::BasicVarManager::from_next_free(next_free(n_used)?).into())
     }
 
     /// Increases the number of variables marked as used
-    fn increase_used(&mut self, n_used: u32) -> bool {
-        self.0.increase_next_free(rustsat::types::Var::new(n_used))
+    fn increase_used(&mut self, n_used: u32) -> PyResult<bool> {
+        Ok(self.0.increase_next_free(next_free(n_used)?))
     }
 
     /// Gets a new unused variable
-- 
2.43.0

