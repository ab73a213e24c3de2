From ea4cb77e1266b4fd2e41cd8ca26ade1930b8e5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:29 +0000
Subject: [PATCH 01/19] fix: keep the weights of unconstrained splits inside
 the bounds of constrained splits above them

---
 src/utils.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index fe39c58..bbc6eda 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -108,8 +108,7 @@ pub fn is_missing(value: &f64, missing: &f64) -> bool {
     }
 }
 
-/// Calculate the constraint weight given bounds
-/// and a constraint.
+/// Calculate the constraint weight given bounds.
 #[allow(clippy::too_many_arguments)]
 #[inline]
 pub fn constrained_weight(
@@ -120,20 +119,17 @@ pub fn constrained_weight(
     hessian_sum: f32,
     lower_bound: f32,
     upper_bound: f32,
-    constraint: Option<&Constraint>,
+    _constraint: Option<&Constraint>,
 ) -> f32 {
     let weight = weight(l1, l2, max_delta_step, gradient_sum, hessian_sum);
-    match constraint {
-        None | Some(Constraint::Unconstrained) => weight,
-        _ => {
-            if weight > upper_bound {
-                upper_bound
-            } else if weight < lower_bound {
-                lower_bound
-            } else {
-                weight
-            }
-        }
+    // The bounds come from constrained splits higher up in the tree, so they apply
+    // even if the feature of this split is itself unconstrained.
+    if weight > upper_bound {
+        upper_bound
+    } else if weight < lower_bound {
+        lower_bound
+    } else {
+        weight
     }
 }
 
-- 
2.43.0


From 34950b1432ff7eed30e47ae483e091ea4089b65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:32 +0000
Subject: [PATCH 02/19] fix: count both extra leaves of a ternary split against
 max_leaves

---
 src/splitter.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index c65f4c4..b54a76c 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -260,9 +260,6 @@ pub struct MissingBranchSplitter {
 }
 
 impl MissingBranchSplitter {
-    pub fn new_leaves_added(&self) -> usize {
-        2
-    }
     pub fn update_average_missing_nodes(tree: &mut Tree, node_idx: usize) -> f64 {
         let node = &tree.nodes[node_idx];
 
@@ -315,6 +312,10 @@ impl MissingBranchSplitter {
 }
 
 impl Splitter for MissingBranchSplitter {
+    fn new_leaves_added(&self) -> usize {
+        2
+    }
+
     fn clean_up_splits(&self, tree: &mut Tree) {
         if let MissingNodeTreatment::AverageLeafWeight = self.missing_node_treatment {
             MissingBranchSplitter::update_average_missing_nodes(tree, 0);
-- 
2.43.0


From d1bed828641ad128f523b6d22d7dffa50db92807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:55 +0000
Subject: [PATCH 03/19] fix: give a missing branch whose gradients cancel the
 weight of its own rows

With MissingNodeTreatment::None the missing branch is documented to get the
weight of its own records. The fallback to the parent weight, meant for a
branch without records, was also taken when the gradients of its records
summed to exactly zero.
---
 src/splitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index b54a76c..f5ef72e 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -429,7 +429,7 @@ impl Splitter for MissingBranchSplitter {
             MissingNodeTreatment::None => {
                 // If there are no missing records, just default
                 // to the parent weight.
-                if missing_hessian == 0. || missing_gradient == 0. {
+                if missing_hessian == 0. {
                     parent_weight
                 } else {
                     constrained_weight(
-- 
2.43.0


From fa1f1e76d58f7d7f91a38b2c31a9b67d8d9f851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:24 +0000
Subject: [PATCH 04/19] fix: load saved models whose evaluation history
 contains NaN

A metric can be NaN (AUC of one class, the logarithmic error of a prediction
below -1). It is saved as null, which from_json refused.
---
 src/gradientbooster.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/gradientbooster.rs b/src/gradientbooster.rs
index a61592e..d141a60 100644
--- a/src/gradientbooster.rs
+++ b/src/gradientbooster.rs
@@ -168,7 +168,10 @@ pub struct GradientBooster {
     #[serde(default = "default_terminate_missing_features")]
     pub terminate_missing_features: HashSet<usize>,
     /// A matrix of the evaluation history on the evaluation datasets.
-    #[serde(default = "default_evaluation_history")]
+    #[serde(
+        default = "default_evaluation_history",
+        deserialize_with = "parse_evaluation_history"
+    )]
     pub evaluation_history: Option<RowMajorMatrix<f64>>,
     #[serde(default = "default_best_iteration")]
     pub best_iteration: Option<usize>,
@@ -254,6 +257,18 @@ where
     Deserialize::deserialize(d).map(|x: Option<_>| x.unwrap_or(f64::NAN))
 }
 
+// Metrics can be NaN, and json has no NaN, these values are saved as null.
+fn parse_evaluation_history<'de, D>(d: D) -> Result<Option<RowMajorMatrix<f64>>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    let history: Option<RowMajorMatrix<Option<f64>>> = Deserialize::deserialize(d)?;
+    Ok(history.map(|h| {
+        let data = h.data.iter().map(|v| v.unwrap_or(f64::NAN)).collect();
+        RowMajorMatrix::new(data, h.rows, h.cols)
+    }))
+}
+
 impl Default for GradientBooster {
     fn default() -> Self {
         Self::new(
-- 
2.43.0


From 0145fa7710d62b82a05fdb23ed9dd8c373771264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:42 +0000
Subject: [PATCH 05/19] fix: loading a model keeps the names of its constraints
 when only some features have one

load_booster looked up a constraint for every feature name; a feature without
one raised a KeyError that was swallowed, and the loaded booster kept its
constraints by index, so that fitting it on a DataFrame again failed.
---
 py-forust/forust/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 5b7a258..e4223d5 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -973,9 +973,10 @@ class GradientBooster:
                 # feature names as keys.
                 if m == "feature_names_in_":
                     if c.monotone_constraints is not None:
+                        feature_map = dict(enumerate(c.feature_names_in_))
                         c.monotone_constraints = {
-                            ft: c.monotone_constraints[i]
-                            for i, ft in enumerate(c.feature_names_in_)
+                            feature_map[i]: v
+                            for i, v in c.monotone_constraints.items()
                         }
             except KeyError:
                 pass
-- 
2.43.0


From fb2869b9af0db89759952e12c136eaca2558b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:42 +0000
Subject: [PATCH 06/19] fix: loading a model keeps terminate_missing_features
 by name

The saved model has the features by index; load_booster mapped the constraints
back to feature names, but not these, so that fitting the loaded booster on a
DataFrame failed and get_params returned indices.
---
 py-forust/forust/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index e4223d5..e1c09e5 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -972,12 +972,15 @@ class GradientBooster:
                 # get back the original monotonicity map, with the
                 # feature names as keys.
                 if m == "feature_names_in_":
+                    feature_map = dict(enumerate(c.feature_names_in_))
                     if c.monotone_constraints is not None:
-                        feature_map = dict(enumerate(c.feature_names_in_))
                         c.monotone_constraints = {
                             feature_map[i]: v
                             for i, v in c.monotone_constraints.items()
                         }
+                    c.terminate_missing_features = {
+                        feature_map[i] for i in c.terminate_missing_features
+                    }
             except KeyError:
                 pass
         return c
-- 
2.43.0


From 873c00af9bbe5bfbc2a2ab1024b10be42b8416ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:35 +0000
Subject: [PATCH 07/19] fix: strings with quotes, backslashes or newlines can
 be read back by ScalerSerializer

The string was put between quotes as it is, so that literal_eval failed on it
or read another string.
---
 py-forust/forust/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py-forust/forust/serialize.py b/py-forust/forust/serialize.py
index 03f4d6e..c9ca504 100644
--- a/py-forust/forust/serialize.py
+++ b/py-forust/forust/serialize.py
@@ -28,7 +28,7 @@ Scaler = Union[int, float, str]
 class ScalerSerializer(BaseSerializer[Scaler]):
     def serialize(self, obj: Scaler) -> str:
         if isinstance(obj, str):
-            obj_ = f"'{obj}'"
+            obj_ = repr(obj)
         else:
             obj_ = str(obj)
         return obj_
-- 
2.43.0


From 330d10a73f764e5589377c12457f60e0248df6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:41 +0000
Subject: [PATCH 08/19] fix: compare splits of the root with the root's own
 regularised gain

---
 src/tree.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index e5a0630..04bb85a 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -7,7 +7,7 @@ use crate::partial_dependence::tree_partial_dependence;
 use crate::sampler::SampleMethod;
 use crate::splitter::Splitter;
 use crate::utils::fast_f64_sum;
-use crate::utils::{gain, odds, weight};
+use crate::utils::{gain_given_weight, odds, weight};
 use rayon::prelude::*;
 use serde::{Deserialize, Serialize};
 use std::collections::{BinaryHeap, HashMap, VecDeque};
@@ -66,7 +66,6 @@ impl Tree {
         };
 
         let mut n_nodes = 1;
-        let root_gain = gain(&splitter.get_l2(), gradient_sum, hessian_sum);
         let root_weight = weight(
             &splitter.get_l1(),
             &splitter.get_l2(),
@@ -74,6 +73,10 @@ impl Tree {
             gradient_sum,
             hessian_sum,
         );
+        // The gain of the root has to account for l1 and max_delta_step, as the
+        // gain of every other node does.
+        let root_gain =
+            gain_given_weight(&splitter.get_l2(), gradient_sum, hessian_sum, root_weight);
         // Calculate the histograms for the root node.
         let root_hists =
             HistogramMatrix::new(data, cuts, grad, hess, &index, col_index, parallel, sort);
-- 
2.43.0


From 50ce594802de9a1d80c84edb4fe8617e05641565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:27 +0000
Subject: [PATCH 09/19] fix: load saved models that split at infinity

---
 src/node.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index fbcd2a4..6d919ba 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -2,7 +2,7 @@ use crate::data::FloatData;
 use crate::histogram::HistogramMatrix;
 use crate::splitter::{MissingInfo, NodeInfo, SplitInfo};
 use crate::utils::is_missing;
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize};
 use std::cmp::Ordering;
 use std::fmt::{self, Debug};
 
@@ -35,6 +35,7 @@ pub struct Node {
     pub weight_value: f32,
     pub hessian_sum: f32,
     pub depth: usize,
+    #[serde(deserialize_with = "parse_split_value")]
     pub split_value: f64,
     pub split_feature: usize,
     pub split_gain: f32,
@@ -44,6 +45,15 @@ pub struct Node {
     pub is_leaf: bool,
 }
 
+// Data with infinite values can be split at infinity, and json has no infinity, this
+// value is saved as null.
+fn parse_split_value<'de, D>(d: D) -> Result<f64, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    Deserialize::deserialize(d).map(|x: Option<_>| x.unwrap_or(f64::INFINITY))
+}
+
 impl Ord for SplittableNode {
     fn cmp(&self, other: &Self) -> Ordering {
         self.gain_value.total_cmp(&other.gain_value)
-- 
2.43.0


From 04d7d21d9c96dbc4dd24a2541f68c7aa896733dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:59 +0000
Subject: [PATCH 10/19] fix: an empty list of evaluation sets is accepted and
 means no evaluation

---
 src/gradientbooster.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gradientbooster.rs b/src/gradientbooster.rs
index d141a60..a2fc53f 100644
--- a/src/gradientbooster.rs
+++ b/src/gradientbooster.rs
@@ -574,8 +574,11 @@ impl GradientBooster {
         let bdata = Matrix::new(&binned_data.binned_data, data.rows, data.cols);
 
         // Create the predictions, saving them with the evaluation data.
-        let mut evaluation_sets: Option<Vec<TrainingEvaluationData>> =
-            evaluation_data.as_ref().map(|evals| {
+        // An empty list of evaluation sets is the same as none.
+        let mut evaluation_sets: Option<Vec<TrainingEvaluationData>> = evaluation_data
+            .as_ref()
+            .filter(|evals| !evals.is_empty())
+            .map(|evals| {
                 evals
                     .iter()
                     .map(|(d, y, w)| (d, *y, *w, vec![self.base_score; y.len()]))
-- 
2.43.0


From 160ff24c979d885b07791f22d5c65f297e634ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:28 +0000
Subject: [PATCH 11/19] fix: LogLoss of a confident and correct prediction is
 0, not NaN

---
 src/metric.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/metric.rs b/src/metric.rs
index 45f61cb..b6acec4 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -131,8 +131,12 @@ pub fn log_loss(y: &[f64], yhat: &[f64], sample_weight: &[f64]) -> f64 {
         .zip(sample_weight)
         .map(|((y_, yhat_), w_)| {
             w_sum += *w_;
-            let yhat_ = f64::ONE / (f64::ONE + (-*yhat_).exp());
-            -(*y_ * yhat_.ln() + (f64::ONE - *y_) * ((f64::ONE - yhat_).ln())) * *w_
+            // The probability of a confident prediction rounds to 0 or 1, so the logarithms of the
+            // probability and of its complement are taken from the log odds directly.
+            let tail = (-yhat_.abs()).exp().ln_1p();
+            let ln_p = yhat_.min(0.) - tail;
+            let ln_1_p = -yhat_.max(0.) - tail;
+            -(*y_ * ln_p + (f64::ONE - *y_) * ln_1_p) * *w_
         })
         .sum::<f64>();
     res / w_sum
-- 
2.43.0


From 030f32ffa406353970fc35d68ab8df7c90c7b3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:23 +0000
Subject: [PATCH 12/19] fix: a split whose right side gets no rows keeps the
 last row where its value belongs

---
 src/utils.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index bbc6eda..6cedfb6 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -415,6 +415,9 @@ pub fn pivot_on_split(
     split_value: u16,
     missing_right: bool,
 ) -> usize {
+    if index.is_empty() {
+        return 0;
+    }
     // I think we can do this in O(n) time...
     let mut low = 0;
     let mut high = index.len() - 1;
@@ -444,6 +447,13 @@ pub fn pivot_on_split(
             index.swap(high, low);
         }
     }
+    // All of the values before the last one belong to the left, the
+    // last one has not been compared.
+    if low == max_idx
+        && missing_compare(&split_value, feature[index[low]], missing_right) == Ordering::Greater
+    {
+        low += 1;
+    }
     low
 }
 
@@ -457,9 +467,6 @@ pub fn pivot_on_split(
 /// index, the second is the first value that is greater than
 /// our provided split value.
 ///
-/// WARNING!!! Currently, this function fails, if all the values are
-/// missing...
-///
 /// * `index` - The index values to sort.
 /// * `feature` - The feature vector to use to sort the index by.
 /// * `split_value` - the split value to use to pivot on.
@@ -469,6 +476,9 @@ pub fn pivot_on_split_exclude_missing(
     feature: &[u16],
     split_value: u16,
 ) -> (usize, usize) {
+    if index.is_empty() {
+        return (0, 0);
+    }
     // I think we can do this in O(n) time...
     let mut low = 0;
     let mut high = index.len() - 1;
@@ -519,6 +529,15 @@ pub fn pivot_on_split_exclude_missing(
             index.swap(high, low);
         }
     }
+    // All of the values before the last one are missing or belong to the
+    // left, the last one has not been compared.
+    if low == max_idx && feature[index[low]] < split_value {
+        if feature[index[low]] == 0 {
+            index.swap(missing, low);
+            missing += 1;
+        }
+        low += 1;
+    }
     (missing, low)
 }
 
-- 
2.43.0


From 7dea99319ab9c3b771fd74c434108b8165232dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:38 +0000
Subject: [PATCH 13/19] fix: targets and weights may be strided, like a column
 of an array

---
 py-forust/forust/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index e1c09e5..845c8ae 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -272,7 +272,8 @@ def _convert_input_array(x: ArrayLike) -> np.ndarray:
         x_ = x
     if not np.issubdtype(x_.dtype, "float64"):
         x_ = x_.astype(dtype="float64", copy=False)
-    return x_
+    # The booster needs contiguous data, a column of an array is not.
+    return np.ascontiguousarray(x_)
 
 
 class GradientBooster:
-- 
2.43.0


From f323df8f1b71bd120298f50498714c0b24250bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:48 +0000
Subject: [PATCH 14/19] fix: count the missing branch with the weight it is
 given under AssignToParent

The gain of a split took the optimal weight of the node's rows for its missing
branch, while the branch is assigned the weight of the node, which differs when
the node is itself a missing branch or was bound to its parent.
---
 src/splitter.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index f5ef72e..a16ac5c 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -410,16 +410,8 @@ impl Splitter for MissingBranchSplitter {
 
         // Set weight based on the missing node treatment.
         let missing_weight = match self.missing_node_treatment {
-            MissingNodeTreatment::AssignToParent => constrained_weight(
-                &self.get_l1(),
-                &self.get_l2(),
-                &self.max_delta_step,
-                missing_gradient + left_gradient + right_gradient,
-                missing_hessian + left_hessian + right_hessian,
-                lower_bound,
-                upper_bound,
-                constraint,
-            ),
+            // The weight this node will get when the split is handled.
+            MissingNodeTreatment::AssignToParent => parent_weight,
             // Calculate the local leaf average for now, after training the tree.
             // Recursively assign to the leaf weights underneath.
             MissingNodeTreatment::AverageLeafWeight | MissingNodeTreatment::AverageNodeWeight => {
-- 
2.43.0


From 53106688d45c137ae258fae5f48ae64a43ad23a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:48 +0000
Subject: [PATCH 15/19] fix: import XGBoost models trained without feature
 names with the right features

---
 py-forust/forust/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 845c8ae..ed78acf 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -119,7 +119,8 @@ def _from_xgboost_model(model: Any) -> GradientBooster:
     model_dump = booster.get_dump(dump_format="json", with_stats=True)
     features = booster.feature_names
     if features is None:
-        feature_map = {}
+        # Without names, xgboost refers to the features as "f0", "f1"...
+        feature_map = {f"f{i}": i for i in range(booster.num_features())}
     else:
         feature_map = {v: i for i, v in enumerate(features)}
 
-- 
2.43.0


From 0b82379eda88c5d72f5548693a0199590d206d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:48 +0000
Subject: [PATCH 16/19] fix: import an xgboost.Booster

---
 py-forust/forust/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index ed78acf..808c40d 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -134,7 +134,7 @@ def _from_xgboost_model(model: Any) -> GradientBooster:
     # because the base score is modified prior to predictions.
     # We would need to modify prior to handing it to the forust
     # model.
-    learner_config = json.loads(model.get_booster().save_config())["learner"]
+    learner_config = json.loads(booster.save_config())["learner"]
     base_score = float(learner_config["learner_model_param"]["base_score"])
     if learner_config["objective"]["name"] == "binary:logistic":
         base_score = np.log(base_score / (1 - base_score))
-- 
2.43.0


From b26fe0bf732973e101e64137a6742ff1bfcdeb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:26 +0000
Subject: [PATCH 17/19] fix: drop the feature names of an earlier fit when
 fitting on data without names

---
 py-forust/forust/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 808c40d..dd3a1e4 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -582,6 +582,10 @@ class GradientBooster:
         if len(features_) > 0:
             self.feature_names_in_ = features_
             self._set_metadata_attributes("feature_names_in_", self.feature_names_in_)
+        elif hasattr(self, "feature_names_in_"):
+            # The names of an earlier fit are not those of this data.
+            del self.feature_names_in_
+            self._set_metadata_attributes("feature_names_in_", [])
 
         y_ = _convert_input_array(y)
 
@@ -968,6 +972,8 @@ class GradientBooster:
         for m in c.meta_data_attributes:
             try:
                 m_ = c._get_metadata_attributes(m)
+                if m == "feature_names_in_" and len(m_) == 0:
+                    continue
                 setattr(c, m, m_)
                 # If "feature_names_in_" is present, we know a
                 # pandas dataframe was used for fitting, in this case
-- 
2.43.0


From 96a8c9b978ff0cc85a4ea92e80385b55047ed5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:26 +0000
Subject: [PATCH 18/19] fix: keep an infinite missing value when a model is
 saved and loaded

---
 src/gradientbooster.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/gradientbooster.rs b/src/gradientbooster.rs
index a2fc53f..0ffd1b1 100644
--- a/src/gradientbooster.rs
+++ b/src/gradientbooster.rs
@@ -20,7 +20,7 @@ use rand::rngs::StdRng;
 use rand::seq::IteratorRandom;
 use rand::SeedableRng;
 use rayon::prelude::*;
-use serde::{Deserialize, Deserializer, Serialize};
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use std::collections::{HashMap, HashSet};
 use std::fs;
 
@@ -142,7 +142,7 @@ pub struct GradientBooster {
     /// Integer value used to seed any randomness used in the algorithm.
     pub seed: u64,
     /// Value to consider missing.
-    #[serde(deserialize_with = "parse_missing")]
+    #[serde(serialize_with = "write_missing", deserialize_with = "parse_missing")]
     pub missing: f64,
     /// Should missing be split out it's own separate branch?
     pub create_missing_branch: bool,
@@ -250,11 +250,33 @@ fn default_force_children_to_bound_parent() -> bool {
     false
 }
 
+// Json has neither NaN nor infinities, NaN is saved as null, and infinities as text.
+fn write_missing<S>(missing: &f64, s: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    if missing.is_infinite() {
+        s.serialize_str(&missing.to_string())
+    } else {
+        s.serialize_f64(*missing)
+    }
+}
+
 fn parse_missing<'de, D>(d: D) -> Result<f64, D::Error>
 where
     D: Deserializer<'de>,
 {
-    Deserialize::deserialize(d).map(|x: Option<_>| x.unwrap_or(f64::NAN))
+    #[derive(Deserialize)]
+    #[serde(untagged)]
+    enum Missing {
+        Number(f64),
+        Text(String),
+    }
+    match Deserialize::deserialize(d)? {
+        None => Ok(f64::NAN),
+        Some(Missing::Number(x)) => Ok(x),
+        Some(Missing::Text(x)) => x.parse().map_err(serde::de::Error::custom),
+    }
 }
 
 // Metrics can be NaN, and json has no NaN, these values are saved as null.
-- 
2.43.0


From 778d52cd88485aea780511a0b4fc7063a30db1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:23 +0000
Subject: [PATCH 19/19] fix: give a tree grown on an empty sample a weight of
 zero instead of NaN

---
 src/tree.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 04bb85a..9b1a37a 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -66,13 +66,18 @@ impl Tree {
         };
 
         let mut n_nodes = 1;
-        let root_weight = weight(
-            &splitter.get_l1(),
-            &splitter.get_l2(),
-            &splitter.get_max_delta_step(),
-            gradient_sum,
-            hessian_sum,
-        );
+        // No rows may have been sampled, and without l2 there is nothing to divide by then.
+        let root_weight = if hessian_sum + splitter.get_l2() == 0. {
+            0.
+        } else {
+            weight(
+                &splitter.get_l1(),
+                &splitter.get_l2(),
+                &splitter.get_max_delta_step(),
+                gradient_sum,
+                hessian_sum,
+            )
+        };
         // The gain of the root has to account for l1 and max_delta_step, as the
         // gain of every other node does.
         let root_gain =
-- 
2.43.0

