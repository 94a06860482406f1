From 953aa72721f4d1d9b3f44869a6d1a39f536022f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 01/19] fix: high-cardinality categories are ordered by the
 gradients of the sampled rows

With bagging enabled, update_hicard_cat indexed the gradients with the local
(in-bag) index rather than with the row it was looking at, so the categories were
grouped by the gradients of unrelated rows.
---
 src/dataset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 79e5b2e..150eb1d 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -122,10 +122,10 @@ impl <'a> InnerDataset<'a> {
 
         // collect gradient sums & counts per categorical value
         let mut grad_stat_pairs: Vec<(NumT, u32)> = vec![(0.0, 0); card];
-        for (i, j) in example_iter.into_iter().enumerate() {
+        for j in example_iter.into_iter() {
             let category = into_cat(data[j]) as usize;
             let entry = &mut grad_stat_pairs[category];
-            entry.0 += grad[i];
+            entry.0 += grad[j];
             entry.1 += 1;
         }
 
-- 
2.43.0


From b0ec9e1b7510e3fd381f2b4293782445910e3514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 02/19] fix: histograms hold the gradient sum of small bins too

A bin with fewer than min_examples_leaf examples was stored with gradient sum 0 and
its true count. The sibling's histogram is the parent's minus this one, so the
sibling's bin got the gradients of examples that are not in it, and the wrong split
could be chosen there.
---
 src/tree/learner.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/tree/learner.rs b/src/tree/learner.rs
index 052f369..945c6ae 100644
--- a/src/tree/learner.rs
+++ b/src/tree/learner.rs
@@ -723,7 +723,6 @@ macro_rules! build_histograms {
             let mask_store = &this.ctx.mask_store;
             let grad_store = &this.ctx.grad_store;
             let idx_store = &this.ctx.idx_store;
-            let config = this.ctx.config;
 
             //for &feat_id in this.dataset.active_features() {
             //    // For each possible split, compute left grad & count stats
@@ -750,7 +749,7 @@ macro_rules! build_histograms {
                     let fmask = dataset.get_bitvec(feat_id, split_id);
                     let (grad_sum, example_count) = get_grad_sum(n2s, &fmask,
                                                                  mask_store, grad_store, idx_store,
-                                                                 grad_bounds, config);
+                                                                 grad_bounds);
                     let histval = HistVal { grad_sum, example_count };
                     (feat_id, split_id, histval)
                 })
@@ -806,8 +805,7 @@ macro_rules! get_grad_sum {
               mask_store: &BitBlockStore,
               grad_store: &BitBlockStore,
               idx_store: &BitBlockStore,
-              grad_bounds: (NumT, NumT),
-              config: &Config)
+              grad_bounds: (NumT, NumT))
             -> (NumT, u32)
         {
             let ems = mask_store.get_bitvec(n2s.mask_range);
@@ -815,7 +813,6 @@ macro_rules! get_grad_sum {
 
             if !n2s.compressed {
                 let count = ems.count_ones_and(&fmask) as u32;
-                if count < config.min_examples_leaf { return (0.0, count); }
                 let sum = unsafe { grads.sum_all_masked2_unsafe(&ems, &fmask) };
                 let sum = $bsl::linproj(sum as NumT, count as NumT, grad_bounds);
 
@@ -823,7 +820,6 @@ macro_rules! get_grad_sum {
             } else {
                 let indices = idx_store.get_bitvec(n2s.idx_range);
                 let count = unsafe { ems.count_ones_and_compr_unsafe(&indices, &fmask) } as u32;
-                if count < config.min_examples_leaf { return (0.0, count); }
                 let sum = unsafe { grads.sum_all_masked2_compr_unsafe(&indices, &ems, &fmask) };
                 let sum = $bsl::linproj(sum as NumT, count as NumT, grad_bounds);
 
-- 
2.43.0


From 5be7fbc5a63c2ac92b31f670f2bd5becaf68096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 03/19] fix: set_feature_data derives limits, cardinality and
 type from the new data only

The limits were accumulated from (0, 0), and from the previous column when a feature
was set twice, so they disagreed with those of the same data loaded from CSV. The
cardinality and the feature type of the previous column were kept as well.
---
 src/data.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data.rs b/src/data.rs
index d457d67..186fc5c 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -154,6 +154,9 @@ impl Data {
         let flim = &mut self.limits[feat_id];
         let card = &mut self.cards[feat_id];
         assert_eq!(feat.len(), self.nexamples);
+        *flim = (POS_INF, NEG_INF); // forget about the previous data of this feature
+        *card = 0;
+        self.ftypes[feat_id] = FeatType::Numerical;
         for i in 0..self.nexamples {
             let value = data[i];
             feat[i] = value;
-- 
2.43.0


From e38174960d19d135eb4396f78f4276a7290e87fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 04/19] fix: the Huber gradients are the negative
 pseudo-residuals

As documented in the Objective trait, and as in every other objective.
---
 src/objective.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/objective.rs b/src/objective.rs
index 5b21e9c..ac2d618 100644
--- a/src/objective.rs
+++ b/src/objective.rs
@@ -292,9 +292,9 @@ impl Objective for Huber {
             let err = targets[i] - self.predictions[i];
             let err_abs = err.abs();
             if err_abs <= self.delta {
-                self.gradients[i] = err;
+                self.gradients[i] = -err;
             } else {
-                self.gradients[i] = self.delta * err.signum();
+                self.gradients[i] = -self.delta * err.signum();
             }
         }
     }
-- 
2.43.0


From d80da25eb2ebdf24382177fd5f16adf393729eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 05/19] fix: Bitset::disable_bit disables the bit

---
 src/bitset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bitset.rs b/src/bitset.rs
index 3e36f45..03f32be 100644
--- a/src/bitset.rs
+++ b/src/bitset.rs
@@ -49,7 +49,7 @@ impl Bitset {
     pub fn disable_bit(&mut self, index: usize) {
         let i = index / BitBlock::nbits();
         let j = index % BitBlock::nbits();
-        self.blocks[i].enable_bit(j)
+        self.blocks[i].set_bit(j, false)
     }
 }
 
-- 
2.43.0


From 9129d03bed0f1ba2e3e93f5be1b10aa1be42c027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 06/19] fix: numerical split masks agree with the split values

The last bin's representative is clamped, so examples in the last bin could be in the
mask of a split `< v` even though their value is not less than v; rounding at the
boundary of a bin could misplace an example as well. The tree then sends these
examples the other way when it predicts.
---
 src/dataset.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 150eb1d..40f3d6b 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -255,7 +255,10 @@ impl <'a> InnerDataset<'a> {
             let alt_cat = binner.bin_value(binner.get_bin(feat_value));
             //println!("alt_cat = {}, cat = {}", alt_cat, cat);
             //cat
-            alt_cat as usize
+            let mut cat = alt_cat as usize; // exact up to the boundaries of the bin
+            while cat < nsplit_candidates && split_candidates[cat] <= feat_value { cat += 1; }
+            while cat > 0 && feat_value < split_candidates[cat - 1] { cat -= 1; }
+            cat
         };
         Self::zero_bitvecs(&mut self.store, bitvecs);
         Self::fill_bitvecs(&mut self.store, bitvecs, example_iter, get_cat);
-- 
2.43.0


From cd7a7551ef00ac19d796273e31a909ebcb9fc4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 07/19] fix: loading a CSV without records is an error, not a
 panic

---
 src/data.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data.rs b/src/data.rs
index 186fc5c..06d793f 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -92,6 +92,10 @@ impl Data {
             record_count += 1;
         }
 
+        if record_count == 0 {
+            return Err("CSV error: no records".to_string());
+        }
+
         // update feature types to high cardinality categorical if cards exceeds max_nbins
         for j in 0..record_len {
             if cards[j] > config.max_nbins {
-- 
2.43.0


From 025aca4aaf980eb5dae69791dc9172937a078f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 08/19] fix: config values can contain '='

Everything after a second '=' (e.g. in a path) was silently dropped.
---
 src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 2523bd0..e82dc33 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -66,7 +66,7 @@ macro_rules! parse_config {
             }
 
             fn parse_record_str<'a>(&mut self, line: &'a str) -> Result<(), String> {
-                let mut iter = line.split('=');
+                let mut iter = line.splitn(2, '=');
                 let name = iter.next().ok_or(format!("invalid config line: {}", line))?;
                 let value = iter.next().ok_or(format!("invalid config line: {}", line))?;
                 self.parse_record(name.trim(), value.trim())?;
-- 
2.43.0


From ee5633556283a078ff3f8d62b286a452f49026b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 09/19] fix: high-cardinality ranks do not underflow when there
 are few examples

---
 src/dataset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 40f3d6b..addcea0 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -143,7 +143,7 @@ impl <'a> InnerDataset<'a> {
         // extract quantiles
         let extractor = |bin: &u32| *bin;
         let rank_step = self.nactive_examples as NumT / (config.max_nbins + 1) as NumT;
-        let ranks = (1..=config.max_nbins).map(|i| (i as NumT * rank_step).round() as u32 - 1);
+        let ranks = (1..=config.max_nbins).map(|i| ((i as NumT * rank_step).round() as u32).saturating_sub(1));
         let qbins = binner.rank_iter(ranks, extractor);
         let mut last_bin = usize::max_value();
         let mut split_weights = Vec::with_capacity(config.max_nbins);
-- 
2.43.0


From 4215e22fe0d423c76e26b65634c8671ec4fa778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 10/19] fix: high-cardinality features with empty gradient
 bounds have no splits

The bounds are empty when the model fits the data perfectly (e.g. L2 with the default
learning rate); training panicked.
---
 src/dataset.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dataset.rs b/src/dataset.rs
index addcea0..6b912e2 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -120,6 +120,13 @@ impl <'a> InnerDataset<'a> {
         let data = self.data.get_feature(feat_id);
         let card = self.data.feat_card(feat_id);
 
+        // all gradients are zero: nothing to order the categories by, no splits
+        if grad_bounds.0 == grad_bounds.1 {
+            self.used_nbins[feat_id] = 0;
+            self.supercats[feat_id] = vec![0; card];
+            return;
+        }
+
         // collect gradient sums & counts per categorical value
         let mut grad_stat_pairs: Vec<(NumT, u32)> = vec![(0.0, 0); card];
         for j in example_iter.into_iter() {
-- 
2.43.0


From 8d465b8e2925d2ee14308478062e46ac85dc6d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 11/19] fix: L1 and Huber quantiles of constant values

Training panicked when all targets or all residuals are equal.
---
 src/objective.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/objective.rs b/src/objective.rs
index ac2d618..d4b8f01 100644
--- a/src/objective.rs
+++ b/src/objective.rs
@@ -125,7 +125,11 @@ macro_rules! quantile {
     (@get_value residuals: $self:ident, $targets:ident, $i:ident) => {{
         $targets[$i] - $self.predictions[$i]
     }};
-    (of $values:ident: $q:expr, $self:ident, $limits:expr, $targets:ident, $irange:expr) => {{
+    (of $values:ident: $q:expr, $self:ident, $limits:expr, $targets:ident, $irange:expr) => {
+        if $limits.0 == $limits.1 { $limits.0 } // all values are the same
+        else { quantile!(@binned $values: $q, $self, $limits, $targets, $irange) }
+    };
+    (@binned $values:ident: $q:expr, $self:ident, $limits:expr, $targets:ident, $irange:expr) => {{
         let bins = &mut $self.bins;
         bins.iter_mut().for_each(|x| *x = 0);
 
-- 
2.43.0


From 7dd2d4c7967c8fcd30737f3dcf71f8ee2fe6168d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 12/19] fix: the binary loss metric does not overflow

---
 src/metric.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metric.rs b/src/metric.rs
index 19016a2..afb33a2 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -97,7 +97,8 @@ impl Rmse {
 pub struct BinaryLoss {}
 impl_metric!(BinaryLoss, eval_one: |_, t: NumT, p: NumT| {
     let y = 2.0 * t - 1.0;
-    (1.0 + (-2.0 * y * p).exp()).ln()
+    let x = -2.0 * y * p;
+    x.max(0.0) + (1.0 + (-x.abs()).exp()).ln() // = ln(1 + exp(x)), but does not overflow
 });
 
 impl BinaryLoss {
-- 
2.43.0


From 58841679b30bc3bb6b0f6dbdf242810298bc6cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 13/19] fix: a rejected categorical column leaves the data
 unchanged

---
 src/data.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data.rs b/src/data.rs
index 06d793f..f319809 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -154,6 +154,9 @@ impl Data {
         -> Result<(), String>
     {
         assert_eq!(data.len(), self.nexamples);
+        if categorical { // reject bad values before anything changes
+            for &value in data { Self::check_categorical_value(value)?; }
+        }
         let feat = &mut self.features[feat_id];
         let flim = &mut self.limits[feat_id];
         let card = &mut self.cards[feat_id];
@@ -167,7 +170,6 @@ impl Data {
             *flim = (flim.0.min(value), flim.1.max(value));
 
             if categorical {
-                Self::check_categorical_value(value)?;
                 *card = (*card).max(1 + into_cat(value) as usize);
             }
         }
-- 
2.43.0


From ce917e1978d29ef34e4d7622f434df8f85d53f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 14/19] fix: infinite and too large categorical values are
 rejected

---
 src/data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index f319809..7cd41a4 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -10,7 +10,7 @@ use std::fs::File;
 
 use csv;
 
-use crate::{NumT, POS_INF, NEG_INF, into_cat};
+use crate::{NumT, CatT, POS_INF, NEG_INF, into_cat};
 use crate::config::Config;
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -213,7 +213,7 @@ impl Data {
     }
 
     fn check_categorical_value(value: NumT) -> Result<(), String> {
-        if value.round() != value || value < 0.0 {
+        if value.round() != value || value < 0.0 || value >= CatT::max_value() as NumT {
             Err(format!("Invalid categorical value {}", value))
         } else {
             Ok(())
-- 
2.43.0


From ba5927207b59ec6bcfe260ebf1b014c3a1b0af1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:38 +0000
Subject: [PATCH 15/19] fix: raise an exception in RawBitBoost when a call of
 the library fails

---
 python/bitboost/bitboost.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/python/bitboost/bitboost.py b/python/bitboost/bitboost.py
index 39fc3ee..8db761c 100644
--- a/python/bitboost/bitboost.py
+++ b/python/bitboost/bitboost.py
@@ -111,6 +111,10 @@ class RawBitBoost:
         if not self._ctx_ptr:
             raise Exception("no BitBoost context")
 
+    def _check_ret(self, ret, what):
+        if ret != 0:
+            raise Exception("BitBoost: {} failed".format(what))
+
     def set_feature_data(self, feat_id, data, is_categorical):
         self._check()
         assert isinstance(data, np.ndarray)
@@ -120,7 +124,8 @@ class RawBitBoost:
         data = data.copy() # make copy to ensure congiguous, not optimal
         data_ptr = data.ctypes.data_as(self.numt_p)
         is_cat = 1 if is_categorical else 0
-        self._rust_set_fdata(self._ctx_ptr, feat_id, data_ptr, is_cat)
+        ret = self._rust_set_fdata(self._ctx_ptr, feat_id, data_ptr, is_cat)
+        self._check_ret(ret, "setting the data of feature {}".format(feat_id))
 
     def set_data(self, data, cat_features = set()):
         self._check()
@@ -129,7 +134,8 @@ class RawBitBoost:
         assert data.shape[1] == self._nfeatures
 
         self._nexamples = data.shape[0]
-        self._rust_refresh_data(self._ctx_ptr, self._nexamples)
+        ret = self._rust_refresh_data(self._ctx_ptr, self._nexamples)
+        self._check_ret(ret, "allocating data")
 
         for feat_id in range(self._nfeatures):
             is_cat = feat_id in cat_features
@@ -146,7 +152,8 @@ class RawBitBoost:
                 value = ",".join(map(str, value))
         n = c_char_p(bytes(str(name), "utf8"))
         v = c_char_p(bytes(str(value), "utf8"))
-        self._rust_set_config_field(self._ctx_ptr, n, v)
+        ret = self._rust_set_config_field(self._ctx_ptr, n, v)
+        self._check_ret(ret, "setting {}={}".format(name, value))
 
     def set_config(self, values):
         self._check()
@@ -156,14 +163,16 @@ class RawBitBoost:
 
     def train(self):
         self._check()
-        self._rust_train(self._ctx_ptr)
+        ret = self._rust_train(self._ctx_ptr)
+        self._check_ret(ret, "training")
 
     def predict(self):
         self._check()
         assert self._nexamples > 0
         output = np.zeros(self._nexamples, dtype=self.numt)
         output_ptr = output.ctypes.data_as(self.numt_p)
-        self._rust_predict(self._ctx_ptr, output_ptr)
+        ret = self._rust_predict(self._ctx_ptr, output_ptr)
+        self._check_ret(ret, "predicting")
         return output
 
     def write_model(self):
-- 
2.43.0


From 093860316a88d0f29403007a59259b01fd5df2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:38 +0000
Subject: [PATCH 16/19] fix: refuse columns in RawBitBoost that are not as long
 as the data

---
 python/bitboost/bitboost.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/bitboost/bitboost.py b/python/bitboost/bitboost.py
index 8db761c..066dd26 100644
--- a/python/bitboost/bitboost.py
+++ b/python/bitboost/bitboost.py
@@ -119,6 +119,7 @@ class RawBitBoost:
         self._check()
         assert isinstance(data, np.ndarray)
         assert data.dtype == self.numt
+        assert data.size == self._nexamples
         assert 0 <= feat_id and feat_id <= self._nfeatures
         assert isinstance(is_categorical, bool) 
         data = data.copy() # make copy to ensure congiguous, not optimal
-- 
2.43.0


From 926934206a3b026153d3aaa637c10957a844fefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:02 +0000
Subject: [PATCH 17/19] fix: let the Python estimator fit and predict data of
 any float type

---
 python/bitboost/sklearn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/bitboost/sklearn.py b/python/bitboost/sklearn.py
index aa03891..559bdf4 100644
--- a/python/bitboost/sklearn.py
+++ b/python/bitboost/sklearn.py
@@ -38,6 +38,7 @@ class BitBoost(BaseEstimator):
         """
         X, y = check_X_y(X, y, accept_sparse=False, dtype=self.numt,
                          order="F") # column-major
+        y = y.astype(self.numt)
 
         nexamples, nfeatures = X.shape
 
@@ -64,7 +65,7 @@ class BitBoost(BaseEstimator):
         y : ndarray, shape (n_samples,)
             Returns an array of predictions.
         """
-        X = check_array(X, accept_sparse=False)
+        X = check_array(X, accept_sparse=False, dtype=self.numt)
         check_is_fitted(self, "_is_fitted")
 
         self._bitboost.set_data(X)
-- 
2.43.0


From 40a427094a1fea3148b7c89bb449e7208ef14f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:59 +0000
Subject: [PATCH 18/19] fix: prepare the features at the first update with
 sample_freq = 0

With sample_freq = 0 the features were never pre-processed nor the rows
sampled, not even before the first tree: nothing could be learnt from
numerical features, and the 'sample' was the first rows of the data.
---
 src/dataset.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 6b912e2..aaef89b 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -363,9 +363,9 @@ impl <'a> Dataset<'a> {
         self.update_count += 1;
         self.inner.initialize_supercats();
 
-        // only fully update every `config.sample_freq` updates
-        if config.sample_freq == 0 || (self.update_count > 1 &&
-                                       self.update_count % config.sample_freq != 0) { return; }
+        // only fully update at the first and at every `config.sample_freq`th update
+        if self.update_count > 1 && (config.sample_freq == 0 ||
+                                     self.update_count % config.sample_freq != 0) { return; }
 
         self.inner.sample_features();
 
-- 
2.43.0


From 68575ca406b9f7147620cab23ef08cfd55602243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:04 +0000
Subject: [PATCH 19/19] fix: do not split off zero examples with
 min_examples_leaf = 0

---
 src/tree/learner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tree/learner.rs b/src/tree/learner.rs
index 945c6ae..b104013 100644
--- a/src/tree/learner.rs
+++ b/src/tree/learner.rs
@@ -312,6 +312,7 @@ where 'a: 'b {
                 let (rgrad, rcount) = (pgrad - lgrad, pcount - lcount);
 
                 if lcount < min_examples || rcount < min_examples { continue; }
+                if lcount == 0 || rcount == 0 { continue; } // not a split (`min_examples` can be zero)
 
                 let lloss = self.get_loss(lgrad, lcount);
                 let rloss = self.get_loss(rgrad, rcount);
-- 
2.43.0

