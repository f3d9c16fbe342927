From 3d8d684dfd8c942e8d2a170f066f42de63d46596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 001/129] fix: big-M of concave/convex constraints excluded
 feasible solutions

The left-hand side can be as low as -2 (twice the rate of one bin, or two
rates), so a big-M of 1 forbade valid mergings of bins with high event rates.
---
 optbinning/binning/cp.py  | 4 ++--
 optbinning/binning/mip.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/cp.py b/optbinning/binning/cp.py
index 74e369d..362e662 100644
--- a/optbinning/binning/cp.py
+++ b/optbinning/binning/cp.py
@@ -441,7 +441,7 @@ class BinningCP:
                                   for z in range(j)]) + D[j][j] * x[j, j]) -
                         (sum([(D[k][z] - D[k][z+1]) * x[k, z]
                               for z in range(k)]) + D[k][k] * x[k, k]) >=
-                        M * (x[i, i] + x[j, j] + x[k, k] - 3))
+                        2 * M * (x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_convex(self, model, n, D, x, M):
         for i in range(2, n):
@@ -454,7 +454,7 @@ class BinningCP:
                                   for z in range(j)]) + D[j][j] * x[j, j]) +
                         (sum([(D[k][z] - D[k][z+1]) * x[k, z]
                               for z in range(k)]) + D[k][k] * x[k, k]) >=
-                        M * (x[i, i] + x[j, j] + x[k, k] - 3))
+                        2 * M * (x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_peak(self, model, n, D, x, y, M):
         for i in range(1, n):
diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index 3826cbd..79ef9a6 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -328,7 +328,7 @@ class BinningMIP:
                              + D[j][j] * x[j, j]) -
                         (solver.Sum([(D[k][z] - D[k][z+1]) * x[k, z]
                                      for z in range(k)]) +
-                         D[k][k] * x[k, k]) >= (
+                         D[k][k] * x[k, k]) >= 2 * (
                          x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_convex(self, solver, n, D, x):
@@ -343,7 +343,7 @@ class BinningMIP:
                              D[j][j] * x[j, j]) +
                         (solver.Sum([(D[k][z] - D[k][z+1]) * x[k, z]
                                      for z in range(k)]) +
-                         D[k][k] * x[k, k]) >= (
+                         D[k][k] * x[k, k]) >= 2 * (
                          x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_peak(self, solver, n, D, x, y):
-- 
2.43.0


From 0b24ae591f64364572ce88696dc8ce77b7657408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 002/129] fix: monotonic preprocessing discarded optimal and
 feasible solutions

Pooling adjacent violators is only optimal-preserving without further
constraints; otherwise it returned suboptimal or infeasible solutions.
---
 optbinning/binning/cp.py             | 23 +++++++++++++++++------
 optbinning/binning/mip.py            | 23 +++++++++++++++++------
 optbinning/binning/multiclass_cp.py  |  5 +++++
 optbinning/binning/multiclass_mip.py |  5 +++++
 4 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/optbinning/binning/cp.py b/optbinning/binning/cp.py
index 362e662..58d4826 100644
--- a/optbinning/binning/cp.py
+++ b/optbinning/binning/cp.py
@@ -342,6 +342,17 @@ class BinningCP:
 
         return x, y, t, d
 
+    def _is_preprocessing_valid(self):
+        # Pooling adjacent violators of the monotonic trend only preserves the
+        # optimal solution if there are no other constraints.
+        return (self.min_event_rate_diff == 0 and
+                not self._is_scenario_binning and not self.gamma and
+                all(c is None for c in (
+                    self.min_n_bins, self.max_n_bins, self.min_bin_size,
+                    self.max_bin_size, self.min_bin_n_event,
+                    self.max_bin_n_event, self.min_bin_n_nonevent,
+                    self.max_bin_n_nonevent, self.max_pvalue)))
+
     def add_constraint_unique_assignment(self, model, n, x):
         for j in range(n):
             model.Add(sum([x[i, j] for i in range(j, n)]) == 1)
@@ -403,7 +414,7 @@ class BinningCP:
                          for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._is_preprocessing_valid():
             for i in range(n - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     model.Add(x[i, i] == 0)
@@ -422,7 +433,7 @@ class BinningCP:
                          for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._is_preprocessing_valid():
             for i in range(n - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     model.Add(x[i, i] == 0)
@@ -505,7 +516,7 @@ class BinningCP:
                          for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._is_preprocessing_valid():
             for i in range(tc - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     model.Add(x[i, i] == 0)
@@ -523,7 +534,7 @@ class BinningCP:
                          for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._is_preprocessing_valid():
             for i in range(tc, n - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     model.Add(x[i, i] == 0)
@@ -542,7 +553,7 @@ class BinningCP:
                          for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._is_preprocessing_valid():
             for i in range(tc - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     model.Add(x[i, i] == 0)
@@ -560,7 +571,7 @@ class BinningCP:
                          for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._is_preprocessing_valid():
             for i in range(tc, n - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     model.Add(x[i, i] == 0)
diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index 79ef9a6..17bcf3f 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -241,6 +241,17 @@ class BinningMIP:
 
         return x, y, t, d, u, bin_size_diff
 
+    def _is_preprocessing_valid(self):
+        # Pooling adjacent violators of the monotonic trend only preserves the
+        # optimal solution if there are no other constraints.
+        return (self.min_event_rate_diff == 0 and
+                not self.gamma and
+                all(c is None for c in (
+                    self.min_n_bins, self.max_n_bins, self.min_bin_size,
+                    self.max_bin_size, self.min_bin_n_event,
+                    self.max_bin_n_event, self.min_bin_n_nonevent,
+                    self.max_bin_n_nonevent, self.max_pvalue)))
+
     def add_constraint_unique_assignment(self, solver, n, x):
         for j in range(n):
             solver.Add(solver.Sum([x[i, j] for i in range(j, n)]) == 1)
@@ -289,7 +300,7 @@ class BinningMIP:
                                 for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._is_preprocessing_valid():
             for i in range(n - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     solver.Add(x[i, i] == 0)
@@ -308,7 +319,7 @@ class BinningMIP:
                                 for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._is_preprocessing_valid():
             for i in range(n - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     solver.Add(x[i, i] == 0)
@@ -395,7 +406,7 @@ class BinningMIP:
                                 for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._is_preprocessing_valid():
             for i in range(tc - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     solver.Add(x[i, i] == 0)
@@ -413,7 +424,7 @@ class BinningMIP:
                                 for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._is_preprocessing_valid():
             for i in range(tc, n - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     solver.Add(x[i, i] == 0)
@@ -432,7 +443,7 @@ class BinningMIP:
                                 for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._is_preprocessing_valid():
             for i in range(tc - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     solver.Add(x[i, i] == 0)
@@ -450,7 +461,7 @@ class BinningMIP:
                                 for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._is_preprocessing_valid():
             for i in range(tc, n - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     solver.Add(x[i, i] == 0)
diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index cfb43a6..1e719c3 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -121,6 +121,11 @@ class MulticlassBinningCP(BinningCP):
         self._x = x
         self._n = n
 
+    def _is_preprocessing_valid(self):
+        # The monotonic trend of one class says nothing about the splits
+        # that are optimal for the rest of classes.
+        return False
+
     def decision_variables(self, model, n, n_classes):
         x = {}
         for i in range(n):
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index 6f35539..d7073d2 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -124,6 +124,11 @@ class MulticlassBinningMIP(BinningMIP):
         self._n = n
         self._x = x
 
+    def _is_preprocessing_valid(self):
+        # The monotonic trend of one class says nothing about the splits
+        # that are optimal for the rest of classes.
+        return False
+
     def decision_variables(self, solver, n, n_classes):
         x = {}
         for i in range(n):
-- 
2.43.0


From 4bd27e8e21b6eb20997eae4fefefdfc3bccf7215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 003/129] fix: prebins without records crashed hellinger and
 triangular binning

Pure prebins are kept for these divergences, but an empty prebin has no
event rate: the CP model overflowed and the MIP model was abnormal.
---
 optbinning/binning/binning.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index e2c1899..bf1a662 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -1097,8 +1097,11 @@ class OptimalBinning(BaseOptimalBinning):
 
         if np.any(mask_remove):
             if self.divergence in ("hellinger", "triangular"):
+                # Pure prebins are valid, but prebins without records are not.
                 self._flag_min_n_event_nonevent = True
-            else:
+                mask_remove = (n_nonevent == 0) & (n_event == 0)
+
+            if np.any(mask_remove):
                 self._n_refinements += 1
 
                 if (self.dtype == "categorical" and
-- 
2.43.0


From 28fde7ad879b005f16fcff163c4f53921297f1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 004/129] fix: MIP reported OPTIMAL for infeasible min_n_bins

The BOP solver returns OPTIMAL with a solution that violates the model when
min_n_bins exceeds the number of prebins.
---
 optbinning/binning/mip.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index 17bcf3f..7980523 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -181,6 +181,11 @@ class BinningMIP:
         self.solver_.SetTimeLimit(self.time_limit * 1000)
         status = self.solver_.Solve()
 
+        # BOP reports trivially infeasible models as optimal.
+        if (status == pywraplp.Solver.OPTIMAL and
+                not self.solver_.VerifySolution(1e-5, False)):
+            status = pywraplp.Solver.INFEASIBLE
+
         if status in (pywraplp.Solver.OPTIMAL, pywraplp.Solver.FEASIBLE):
             if status == pywraplp.Solver.OPTIMAL:
                 status_name = "OPTIMAL"
-- 
2.43.0


From caf798e3ddbe50acebfb50cd275f22ee4f4c74b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 005/129] fix: categorical user splits with pure or single
 groups lost records

---
 optbinning/binning/binning.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index bf1a662..fab53e1 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -904,7 +904,7 @@ class OptimalBinning(BaseOptimalBinning):
         if len(n_nonevent) <= 1:
             self._status = "OPTIMAL"
             self._splits_optimal = splits
-            self._solution = np.zeros(len(splits), dtype=bool)
+            self._solution = np.ones(len(splits), dtype=bool)
 
             if self.verbose:
                 logger.warning("Optimizer: {} bins after pre-binning."
@@ -1106,7 +1106,13 @@ class OptimalBinning(BaseOptimalBinning):
 
                 if (self.dtype == "categorical" and
                         self.user_splits is not None):
-                    mask_splits = mask_remove
+                    if n_bins == 1:
+                        return splits_prebinning, n_nonevent, n_event
+
+                    # The last prebin is closed by its own split, thus merge
+                    # it with the previous prebin.
+                    mask_splits = np.append(mask_remove[:-1], False)
+                    mask_splits[-2] |= mask_remove[-1]
                 else:
                     mask_splits = np.concatenate([
                         mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
-- 
2.43.0


From 497ea0ae9b22b9fee7009170135189341bb863bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 006/129] fix: reported monotonic trend included special and
 others rows

---
 optbinning/binning/binning_statistics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 5867b6b..05b76d0 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -972,7 +972,7 @@ class BinningTable:
                                                     self._hhi_norm)
 
         # Monotonic trend
-        type_mono = type_of_monotonic_trend(self._event_rate[:-2])
+        type_mono = type_of_monotonic_trend(self._event_rate[:n_metric])
 
         report = (
             "---------------------------------------------\n"
@@ -1457,7 +1457,8 @@ class MulticlassBinningTable:
         monotonic_string = ""
 
         for i in range(len(self.classes)):
-            type_mono = type_of_monotonic_trend(self._event_rate[:-2, i])
+            type_mono = type_of_monotonic_trend(
+                self._event_rate[:n_metric, i])
             monotonic_string += mono_string.format(i, type_mono)
 
         report = (
@@ -2021,7 +2022,7 @@ class ContinuousBinningTable:
             rwoe, p_values, self._hhi_norm)
 
         # Monotonic trend
-        type_mono = type_of_monotonic_trend(self._mean[:-2])
+        type_mono = type_of_monotonic_trend(self._mean[:n_metric])
 
         report = (
             "-------------------------------------------------\n"
-- 
2.43.0


From 13ec807331db16a7229168ae3dcc544c06ea6bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 007/129] fix: binning table crashed when no row has both
 classes

---
 optbinning/binning/metrics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/metrics.py b/optbinning/binning/metrics.py
index e0220ce..07ff79a 100644
--- a/optbinning/binning/metrics.py
+++ b/optbinning/binning/metrics.py
@@ -14,8 +14,10 @@ from sklearn.utils import check_consistent_length
 
 
 def _check_x_y(x, y):
-    x = check_array(x, ensure_2d=False, force_all_finite=True)
-    y = check_array(y, ensure_2d=False, force_all_finite=True)
+    x = check_array(x, ensure_2d=False, force_all_finite=True,
+                    ensure_min_samples=0)
+    y = check_array(y, ensure_2d=False, force_all_finite=True,
+                    ensure_min_samples=0)
 
     check_consistent_length(x, y)
 
-- 
2.43.0


From 7d269eef7850a0956df81dcdf45bb82e283e0987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 008/129] fix: transform of unknown categories (default mean,
 integer cat_unknown)

---
 optbinning/binning/transformations.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index 5c35d7d..41eae43 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -183,7 +183,8 @@ def _apply_transform(x, dtype, special_codes, metric, metric_special,
             x_clean_transform = np.full(x_clean.shape, cat_unknown,
                                         dtype=object)
         else:
-            x_clean_transform = np.full(x_clean.shape, cat_unknown)
+            x_clean_transform = np.zeros(x_clean.shape,
+                                         dtype=x_transform.dtype)
 
         for i in range(n_bins):
             mask = (indices == i)
@@ -289,7 +290,7 @@ def transform_binary_target(splits, dtype, x, n_nonevent, n_event,
 
         # Assign unknown category value
         if cat_unknown is None:
-            mean_event_rate = t_n_event / n_records.sum()
+            mean_event_rate = t_n_event / (t_n_nonevent + t_n_event)
             if metric == "woe":
                 cat_unknown = transform_event_rate_to_woe(
                     mean_event_rate, t_n_nonevent, t_n_event)
@@ -302,7 +303,7 @@ def transform_binary_target(splits, dtype, x, n_nonevent, n_event,
         else:
             metric_value = event_rate
 
-        x_transform = np.full(x.shape, cat_unknown)
+        x_transform = np.full(x.shape, cat_unknown, dtype=np.float64)
     else:
         # Assign corresponding indices or bin intervals
         metric_value, x_transform = _transform_metric_indices_bins(
@@ -424,6 +425,8 @@ def transform_continuous_target(splits, dtype, x, n_records, sums,
         bins_str = [str(b) for b in bins]
         n_bins = len(bins)
 
+    t_mean = sums.sum() / n_records.sum()
+
     if "empirical" not in (metric_special, metric_missing):
         n_records = n_records[:n_bins]
         sums = sums[:n_bins]
@@ -436,9 +439,9 @@ def transform_continuous_target(splits, dtype, x, n_records, sums,
 
         # Assign unknown category value
         if cat_unknown is None:
-            cat_unknown = sums.sum() / n_records.sum()
+            cat_unknown = t_mean
 
-        x_transform = np.full(x.shape, cat_unknown)
+        x_transform = np.full(x.shape, cat_unknown, dtype=np.float64)
     else:
         # Assign corresponding indices or bin intervals
         metric_value, x_transform = _transform_metric_indices_bins(
-- 
2.43.0


From 50c4cc2f7d37e2f0383d0eb898bee6d0a805d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 009/129] fix: hellinger/triangular crashed when clean records
 hold a single class

---
 optbinning/binning/binning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index fab53e1..40c2856 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -1096,7 +1096,8 @@ class OptimalBinning(BaseOptimalBinning):
         mask_remove = (n_nonevent == 0) | (n_event == 0)
 
         if np.any(mask_remove):
-            if self.divergence in ("hellinger", "triangular"):
+            if (self.divergence in ("hellinger", "triangular") and
+                    np.any(n_nonevent) and np.any(n_event)):
                 # Pure prebins are valid, but prebins without records are not.
                 self._flag_min_n_event_nonevent = True
                 mask_remove = (n_nonevent == 0) & (n_event == 0)
-- 
2.43.0


From 3c057529aebfaac88d2b1272bfb67e956e8d8c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 010/129] fix: big-M of peak/valley constraints with targets of
 both signs

---
 optbinning/binning/continuous_cp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/continuous_cp.py b/optbinning/binning/continuous_cp.py
index 71f6098..b271dde 100644
--- a/optbinning/binning/continuous_cp.py
+++ b/optbinning/binning/continuous_cp.py
@@ -176,7 +176,7 @@ class ContinuousBinningCP(BinningCP):
                         ).OnlyEnforceIf([x[k, k], x[j, j], x[i, i]])
 
     def add_constraint_monotonic_peak(self, model, n, U, x, y):
-        M = max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
+        M = 2 * max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
         for i in range(1, n):
             for z in range(i):
                 model.Add(
@@ -196,7 +196,7 @@ class ContinuousBinningCP(BinningCP):
                     U[z][z] * x[z, z] >= 0).OnlyEnforceIf([x[z, z], x[i, i]])
 
     def add_constraint_monotonic_valley(self, model, n, U, x, y):
-        M = max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
+        M = 2 * max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
         for i in range(1, n):
             for z in range(i):
                 model.Add(
-- 
2.43.0


From 63f39826a21122c541c5c53dc940be009d74206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 011/129] fix: regularisation of continuous binning had no
 effect

---
 optbinning/binning/continuous_cp.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/optbinning/binning/continuous_cp.py b/optbinning/binning/continuous_cp.py
index b271dde..a2f9577 100644
--- a/optbinning/binning/continuous_cp.py
+++ b/optbinning/binning/continuous_cp.py
@@ -114,6 +114,15 @@ class ContinuousBinningCP(BinningCP):
             self.add_constraint_monotonic_valley_heuristic(
                 model, n, U, x, trend_change, M)
 
+        # Constraint: reduction of dominating bins
+        if self.gamma:
+            for i in range(n):
+                bin_size = sum([n_records[j] * x[i, j] for j in range(i + 1)])
+
+                model.Add(pmin <= total_records * (1 - x[i, i]) + bin_size)
+                model.Add(pmax >= bin_size)
+            model.Add(pmin <= pmax)
+
         # Constraint: max-pvalue
         self.add_constraint_violation(model, x, pvalue_violation_indices)
 
-- 
2.43.0


From 488d9db2845b5b03544bc85d18f32c9ffec081d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 012/129] fix: NaN standard deviation of bins with constant
 target (negative variance)

---
 optbinning/binning/binning_statistics.py | 2 +-
 optbinning/binning/model_data.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 05b76d0..07cb6ec 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -286,7 +286,7 @@ def multiclass_bin_info(solution, n_classes, n_event, n_event_missing,
 
 
 def nstd(s, ss, records):
-    return np.sqrt(ss / records - (s / records) ** 2)
+    return np.sqrt(np.maximum(ss / records - (s / records) ** 2, 0))
 
 
 def continuous_bin_info(solution, n_records, sums, ssums, stds, min_target,
diff --git a/optbinning/binning/model_data.py b/optbinning/binning/model_data.py
index e58bf17..4171b94 100644
--- a/optbinning/binning/model_data.py
+++ b/optbinning/binning/model_data.py
@@ -261,7 +261,7 @@ def continuous_model_data(n_records, sums, ssums, max_pvalue,
         s_ssums = ssums[:i][::-1].cumsum()[::-1]
 
         mean = s_sums / s_n_records
-        std = np.sqrt(s_ssums / s_n_records - mean ** 2)
+        std = np.sqrt(np.maximum(s_ssums / s_n_records - mean ** 2, 0))
         norm = np.absolute(mean - t_mean)
 
         if scale is not None:
-- 
2.43.0


From 7b932ee5ec90a7d97a66584c4a827322f4495078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 013/129] fix: continuous binning crashed when no prebinning
 split is left

---
 optbinning/binning/continuous_binning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 0b6d3f3..bc1525c 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -897,7 +897,9 @@ class ContinuousOptimalBinning(OptimalBinning):
     def _compute_prebins(self, splits_prebinning, x, y, sw):
         n_splits = len(splits_prebinning)
         if not n_splits:
-            return splits_prebinning, np.array([]), np.array([])
+            return (splits_prebinning, np.array([]), np.array([]),
+                    np.array([]), np.array([]), np.array([]), np.array([]),
+                    np.array([]))
 
         if self.dtype == "categorical" and self.user_splits is not None:
             indices = np.digitize(x, splits_prebinning, right=True)
-- 
2.43.0


From c2270324ba657b13547f2ffc10685948deefdd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 014/129] fix: special code groups without records in
 continuous binning

---
 optbinning/binning/binning_statistics.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 07cb6ec..16f855c 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -170,15 +170,9 @@ def target_info_special_continuous(special_codes, x, y, sw):
         n_records_special = []
         sum_special = []
         n_zeros_special = []
-
-        if len(y):
-            std_special = []
-            min_target_special = []
-            max_target_special = []
-        else:
-            std_special = None
-            min_target_special = None
-            max_target_special = None
+        std_special = []
+        min_target_special = []
+        max_target_special = []
 
         xt = pd.Series(x)
         for s in special_codes.values():
@@ -197,9 +191,9 @@ def target_info_special_continuous(special_codes, x, y, sw):
                 min_target_special.append(np.min(ymask))
                 max_target_special.append(np.max(ymask))
             else:
-                std_special.append(0)
-                min_target_special.append(0)
-                max_target_special.append(0)
+                std_special.append(None)
+                min_target_special.append(None)
+                max_target_special.append(None)
     else:
         if len(sw):
             sw_y = sw * y
-- 
2.43.0


From 2a86177d5e7a181525c7a03ed4eca78ad60ad12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 015/129] fix: categorical user splits with empty or single
 groups in continuous binning

---
 optbinning/binning/continuous_binning.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index bc1525c..442f110 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -747,7 +747,7 @@ class ContinuousOptimalBinning(OptimalBinning):
         if len(n_records) <= 1:
             self._status = "OPTIMAL"
             self._splits_optimal = splits
-            self._solution = np.zeros(len(splits)).astype(bool)
+            self._solution = np.ones(len(splits), dtype=bool)
 
             if self.verbose:
                 logger.warning("Optimizer: {} bins after pre-binning."
@@ -936,7 +936,14 @@ class ContinuousOptimalBinning(OptimalBinning):
 
             if (self.dtype == "categorical" and
                     self.user_splits is not None):
-                mask_splits = mask_remove
+                if n_bins == 1:
+                    return (splits_prebinning, n_records, sums, ssums, stds,
+                            min_t, max_t, n_zeros)
+
+                # The last prebin is closed by its own split, thus merge it
+                # with the previous prebin.
+                mask_splits = np.append(mask_remove[:-1], False)
+                mask_splits[-2] |= mask_remove[-1]
             else:
                 mask_splits = np.concatenate([
                     mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
-- 
2.43.0


From 9005772e7ad4dbce5640c93979fb35c58975f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 016/129] fix: weighted std, min and max of continuous bins; no
 debug print

---
 optbinning/binning/binning_statistics.py | 20 +++++++++----
 optbinning/binning/continuous_binning.py | 36 +++++++++++-------------
 2 files changed, 31 insertions(+), 25 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 16f855c..9743bff 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -165,6 +165,14 @@ def target_info_special_multiclass(special_codes, x, y, classes):
     return n_event
 
 
+def weighted_std(y, sw):
+    if not np.sum(sw):
+        return np.std(y)
+
+    mean = np.average(y, weights=sw)
+    return np.sqrt(np.average((y - mean) ** 2, weights=sw))
+
+
 def target_info_special_continuous(special_codes, x, y, sw):
     if isinstance(special_codes, dict):
         n_records_special = []
@@ -187,9 +195,9 @@ def target_info_special_continuous(special_codes, x, y, sw):
             n_zeros_special.append(np.count_nonzero(ymask == 0))
 
             if n_records:
-                std_special.append(np.std(ymask))
-                min_target_special.append(np.min(ymask))
-                max_target_special.append(np.max(ymask))
+                std_special.append(weighted_std(y[mask], sw[mask]))
+                min_target_special.append(np.min(y[mask]))
+                max_target_special.append(np.max(y[mask]))
             else:
                 std_special.append(None)
                 min_target_special.append(None)
@@ -204,9 +212,9 @@ def target_info_special_continuous(special_codes, x, y, sw):
         sum_special = np.sum(sw_y)
         n_zeros_special = np.count_nonzero(sw_y == 0)
         if len(y):
-            std_special = np.std(sw_y)
-            min_target_special = np.min(sw_y)
-            max_target_special = np.max(sw_y)
+            std_special = weighted_std(y, sw)
+            min_target_special = np.min(y)
+            max_target_special = np.max(y)
         else:
             std_special = None
             min_target_special = None
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 442f110..ae2bc9a 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -21,6 +21,7 @@ from .binning import OptimalBinning
 from .binning_statistics import continuous_bin_info
 from .binning_statistics import ContinuousBinningTable
 from .binning_statistics import target_info_special_continuous
+from .binning_statistics import weighted_std
 from .continuous_cp import ContinuousBinningCP
 from .preprocessing import preprocessing_user_splits_categorical
 from .preprocessing import split_data
@@ -689,11 +690,11 @@ class ContinuousOptimalBinning(OptimalBinning):
             n_records = np.sum(sw_clean)
             sw_y_clean = sw_clean * y_clean
             sums = np.sum(sw_y_clean)
-            ssums = np.sum(sw_y_clean ** 2)
+            ssums = np.sum(sw_y_clean * y_clean)
             n_zeros = np.count_nonzero(sw_y_clean == 0)
-            stds = np.std(sw_y_clean)
-            min_t = np.min(sw_y_clean)
-            max_t = np.max(sw_y_clean)
+            stds = weighted_std(y_clean, sw_clean)
+            min_t = np.min(y_clean)
+            max_t = np.max(y_clean)
 
         [self._n_records, self._sums, self._stds, self._min_target,
          self._max_target, self._n_zeros] = continuous_bin_info(
@@ -855,28 +856,25 @@ class ContinuousOptimalBinning(OptimalBinning):
          self._max_target_special] = target_info_special_continuous(
             self.special_codes, x_special, y_special, sw_special)
 
-        if len(sw_missing):
-            y_missing = y_missing * sw_missing
+        sw_y_missing = sw_missing * y_missing
 
         self._n_records_missing = np.sum(sw_missing)
-        self._sum_missing = np.sum(y_missing)
-        self._n_zeros_missing = np.count_nonzero(y_missing == 0)
+        self._sum_missing = np.sum(sw_y_missing)
+        self._n_zeros_missing = np.count_nonzero(sw_y_missing == 0)
         if len(y_missing):
-            self._std_missing = np.std(y_missing)
+            self._std_missing = weighted_std(y_missing, sw_missing)
             self._min_target_missing = np.min(y_missing)
             self._max_target_missing = np.max(y_missing)
 
         if len(y_others):
-            if len(sw_others):
-                print(y_others.dtype, sw_others.dtype)
-                y_others = y_others * sw_others
+            sw_y_others = sw_others * y_others
 
             self._n_records_cat_others = np.sum(sw_others)
-            self._sum_cat_others = np.sum(y_others)
-            self._std_cat_others = np.std(y_others)
+            self._sum_cat_others = np.sum(sw_y_others)
+            self._std_cat_others = weighted_std(y_others, sw_others)
             self._min_target_others = np.min(y_others)
             self._max_target_others = np.max(y_others)
-            self._n_zeros_others = np.count_nonzero(y_others == 0)
+            self._n_zeros_others = np.count_nonzero(sw_y_others == 0)
 
         n_splits = len(splits_prebinning)
 
@@ -922,12 +920,12 @@ class ContinuousOptimalBinning(OptimalBinning):
             n_records[i] = np.sum(sw[mask])
             ymask = sw[mask] * y[mask]
             sums[i] = np.sum(ymask)
-            ssums[i] = np.sum(ymask ** 2)
+            ssums[i] = np.sum(ymask * y[mask])
             n_zeros[i] = np.count_nonzero(ymask == 0)
             if len(ymask):
-                stds[i] = np.std(ymask)
-                min_t[i] = np.min(ymask)
-                max_t[i] = np.max(ymask)
+                stds[i] = weighted_std(y[mask], sw[mask])
+                min_t[i] = np.min(y[mask])
+                max_t[i] = np.max(y[mask])
 
         mask_remove = (n_records == 0)
 
-- 
2.43.0


From 03a2aeaa1858415e7adf228911e05ca54a9afcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 017/129] fix: multiclass min_bin_size and max_bin_size
 constraints

---
 optbinning/binning/multiclass_cp.py  | 2 +-
 optbinning/binning/multiclass_mip.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index 1e719c3..a7f5c9f 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -47,7 +47,7 @@ class MulticlassBinningCP(BinningCP):
             self.min_event_rate_diff, M)
 
         n = len(n_nonevent)
-        n_records = n_nonevent + n_event
+        n_records = n_nonevent[:, 0] + n_event[:, 0]
         n_classes = len(self.monotonic_trend)
 
         # Initialize model
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index d7073d2..cc6a460 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -45,7 +45,7 @@ class MulticlassBinningMIP(BinningMIP):
             self.min_event_rate_diff)
 
         n = len(n_nonevent)
-        n_records = n_nonevent + n_event
+        n_records = n_nonevent[:, 0] + n_event[:, 0]
         n_classes = len(self.monotonic_trend)
 
         # Initialize solver
-- 
2.43.0


From c9f2c0468f9fb343f17d8280d32737fb9915b282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 018/129] fix: multiclass MIP aborted the process with two
 peak/valley classes

---
 optbinning/binning/multiclass_mip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index cc6a460..a5f7cf6 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -148,7 +148,7 @@ class MulticlassBinningMIP(BinningMIP):
             for c in range(n_classes):
                 if self.monotonic_trend[c] in ("peak", "valley"):
                     for i in range(n):
-                        y[c, i] = solver.BoolVar("y[{}]".format(i))
+                        y[c, i] = solver.BoolVar("y[{}, {}]".format(c, i))
 
                     # Change points
                     t[c] = solver.IntVar(0, n, "t[{}]".format(c))
-- 
2.43.0


From 5d84dd2292e359144162e46ab96b65cbb125f164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 019/129] fix: multiclass concave, convex and heuristic trends
 were ignored

---
 optbinning/binning/multiclass_binning.py |  6 ++++++
 optbinning/binning/multiclass_cp.py      | 10 ++++++++--
 optbinning/binning/multiclass_mip.py     | 10 ++++++++--
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index cc80add..873023c 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -733,6 +733,12 @@ class MulticlassOptimalBinning(OptimalBinning):
                         logger.info("Optimizer: classifier predicts {} "
                                     "monotonic trend.".format(trend))
                 else:
+                    if m_trend in ("peak_heuristic", "valley_heuristic"):
+                        event_rate = n_event[:, i] / (n_nonevent[:, i] +
+                                                      n_event[:, i])
+                        trend_changes[i] = peak_valley_trend_change_heuristic(
+                            event_rate, m_trend)
+
                     monotonic.append(m_trend)
         elif self.monotonic_trend is None:
             monotonic = [None] * self._n_classes
diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index a7f5c9f..7534410 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -84,6 +84,12 @@ class MulticlassBinningCP(BinningCP):
             if self.monotonic_trend[c] == "descending":
                 self.add_constraint_monotonic_descending(model, n, D[c], x, M)
 
+            elif self.monotonic_trend[c] == "concave":
+                self.add_constraint_monotonic_concave(model, n, D[c], x, M)
+
+            elif self.monotonic_trend[c] == "convex":
+                self.add_constraint_monotonic_convex(model, n, D[c], x, M)
+
             elif self.monotonic_trend[c] in ("peak", "valley"):
                 for i in range(n):
                     model.Add(t[c] >= i - n * (1 - y[c, i]))
@@ -96,11 +102,11 @@ class MulticlassBinningCP(BinningCP):
                     self.add_constraint_monotonic_valley(
                         model, n, D[c], x, c, y, M)
 
-            elif self.monotonic_trend == "peak_heuristic":
+            elif self.monotonic_trend[c] == "peak_heuristic":
                 self.add_constraint_monotonic_peak_heuristic(
                     model, n, D[c], x, trend_changes[c], M)
 
-            elif self.monotonic_trend == "valley_heuristic":
+            elif self.monotonic_trend[c] == "valley_heuristic":
                 self.add_constraint_monotonic_valley_heuristic(
                     model, n, D[c], x, trend_changes[c], M)
 
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index a5f7cf6..52c6e97 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -87,6 +87,12 @@ class MulticlassBinningMIP(BinningMIP):
             elif self.monotonic_trend[c] == "descending":
                 self.add_constraint_monotonic_descending(solver, n, D[c], x)
 
+            elif self.monotonic_trend[c] == "concave":
+                self.add_constraint_monotonic_concave(solver, n, D[c], x)
+
+            elif self.monotonic_trend[c] == "convex":
+                self.add_constraint_monotonic_convex(solver, n, D[c], x)
+
             elif self.monotonic_trend[c] in ("peak", "valley"):
                 for i in range(n):
                     solver.Add(t[c] >= i - n * (1 - y[c, i]))
@@ -99,11 +105,11 @@ class MulticlassBinningMIP(BinningMIP):
                     self.add_constraint_monotonic_valley(
                         solver, n, D[c], x, c, y)
 
-            elif self.monotonic_trend == "peak_heuristic":
+            elif self.monotonic_trend[c] == "peak_heuristic":
                 self.add_constraint_monotonic_peak_heuristic(
                     solver, n, D[c], x, trend_changes[c])
 
-            elif self.monotonic_trend == "valley_heuristic":
+            elif self.monotonic_trend[c] == "valley_heuristic":
                 self.add_constraint_monotonic_valley_heuristic(
                     solver, n, D[c], x, trend_changes[c])
 
-- 
2.43.0


From 8b4a7519768e221db41bb616afd2fe6ca8aa1427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 020/129] fix: keep the user splits parameters unchanged by fit
 and reset per-fit state

---
 optbinning/binning/binning.py            | 35 ++++++++++++++++--------
 optbinning/binning/continuous_binning.py | 33 ++++++++++++++++------
 optbinning/binning/multiclass_binning.py | 32 +++++++++++++++-------
 3 files changed, 70 insertions(+), 30 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 40c2856..49e1229 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -498,6 +498,8 @@ class OptimalBinning(BaseOptimalBinning):
         self.prebinning_kwargs = prebinning_kwargs
 
         # auxiliary
+        self._user_splits = None
+        self._user_splits_fixed = None
         self._flag_min_n_event_nonevent = False
         self._categories = None
         self._cat_others = None
@@ -706,6 +708,12 @@ class OptimalBinning(BaseOptimalBinning):
 
         _check_parameters(**self.get_params())
 
+        # Reset information of a previous fit
+        self._n_refinements = 0
+        self._user_splits = None
+        self._user_splits_fixed = None
+        self._flag_min_n_event_nonevent = False
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
@@ -798,7 +806,9 @@ class OptimalBinning(BaseOptimalBinning):
                         self.user_splits, x_clean, y_clean, sw_clean)
 
                 if self.user_splits_fixed is not None:
-                    self.user_splits_fixed = np.asarray(
+                    self._user_splits = [list(self.user_splits)[j]
+                                         for j in sorted_idx]
+                    self._user_splits_fixed = np.asarray(
                         self.user_splits_fixed)[sorted_idx]
 
                 splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -995,7 +1005,7 @@ class OptimalBinning(BaseOptimalBinning):
                                   min_bin_n_nonevent, self.max_bin_n_nonevent,
                                   self.min_event_rate_diff, self.max_pvalue,
                                   self.max_pvalue_policy, self.gamma,
-                                  self.user_splits_fixed, self.time_limit)
+                                  self._user_splits_fixed, self.time_limit)
         elif self.solver == "mip":
             optimizer = BinningMIP(monotonic, self.min_n_bins, self.max_n_bins,
                                    min_bin_size, max_bin_size,
@@ -1003,7 +1013,7 @@ class OptimalBinning(BaseOptimalBinning):
                                    min_bin_n_nonevent, self.max_bin_n_nonevent,
                                    self.min_event_rate_diff, self.max_pvalue,
                                    self.max_pvalue_policy, self.gamma,
-                                   self.user_splits_fixed, self.mip_solver,
+                                   self._user_splits_fixed, self.mip_solver,
                                    self.time_limit)
         elif self.solver == "ls":
             optimizer = BinningLS(monotonic, self.min_n_bins, self.max_n_bins,
@@ -1012,7 +1022,7 @@ class OptimalBinning(BaseOptimalBinning):
                                   min_bin_n_nonevent, self.max_bin_n_nonevent,
                                   self.min_event_rate_diff, self.max_pvalue,
                                   self.max_pvalue_policy,
-                                  self.user_splits_fixed, self.time_limit)
+                                  self._user_splits_fixed, self.time_limit)
 
         if self.verbose:
             logger.info("Optimizer: build model...")
@@ -1118,21 +1128,24 @@ class OptimalBinning(BaseOptimalBinning):
                     mask_splits = np.concatenate([
                         mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
-                if self.user_splits_fixed is not None:
-                    user_splits_fixed = np.asarray(self.user_splits_fixed)
-                    user_splits = np.asarray(self.user_splits)
-                    fixed_remove = user_splits_fixed & mask_splits
+                if self._user_splits_fixed is not None:
+                    fixed_remove = self._user_splits_fixed & mask_splits
 
                     if any(fixed_remove):
+                        removed = [s for s, r in zip(self._user_splits,
+                                                     fixed_remove) if r]
                         raise ValueError(
                             "Fixed user_splits {} are removed "
                             "because produce pure prebins. Provide "
                             "different splits to be fixed."
-                            .format(user_splits[fixed_remove]))
+                            .format(removed))
 
                     # Update boolean array of fixed user splits.
-                    self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                    self.user_splits = user_splits[~mask_splits]
+                    self._user_splits_fixed = self._user_splits_fixed[
+                        ~mask_splits]
+                    self._user_splits = [
+                        s for s, r in zip(self._user_splits, mask_splits)
+                        if not r]
 
                 splits = splits_prebinning[~mask_splits]
 
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index ae2bc9a..2ecd656 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -368,6 +368,8 @@ class ContinuousOptimalBinning(OptimalBinning):
         self.prebinning_kwargs = prebinning_kwargs
 
         # auxiliary
+        self._user_splits = None
+        self._user_splits_fixed = None
         self._categories = None
         self._cat_others = None
         self._n_records = None
@@ -555,6 +557,14 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         _check_parameters(**self.get_params())
 
+        # Reset information of a previous fit
+        self._n_refinements = 0
+        self._user_splits = None
+        self._user_splits_fixed = None
+        self._std_missing = None
+        self._min_target_missing = None
+        self._max_target_missing = None
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
@@ -648,7 +658,9 @@ class ContinuousOptimalBinning(OptimalBinning):
                         self.user_splits, x_clean, y_clean, sw_clean)
 
                 if self.user_splits_fixed is not None:
-                    self.user_splits_fixed = np.asarray(
+                    self._user_splits = [list(self.user_splits)[j]
+                                         for j in sorted_idx]
+                    self._user_splits_fixed = np.asarray(
                         self.user_splits_fixed)[sorted_idx]
 
                 [splits, n_records, sums, ssums, stds, min_t, max_t,
@@ -816,7 +828,7 @@ class ContinuousOptimalBinning(OptimalBinning):
                                         max_bin_size, self.min_mean_diff,
                                         self.max_pvalue,
                                         self.max_pvalue_policy, self.gamma,
-                                        self.user_splits_fixed,
+                                        self._user_splits_fixed,
                                         self.time_limit)
 
         if self.verbose:
@@ -946,21 +958,24 @@ class ContinuousOptimalBinning(OptimalBinning):
                 mask_splits = np.concatenate([
                     mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
-            if self.user_splits_fixed is not None:
-                user_splits_fixed = np.asarray(self.user_splits_fixed)
-                user_splits = np.asarray(self.user_splits)
-                fixed_remove = user_splits_fixed & mask_splits
+            if self._user_splits_fixed is not None:
+                fixed_remove = self._user_splits_fixed & mask_splits
 
                 if any(fixed_remove):
+                    removed = [s for s, r in zip(self._user_splits,
+                                                 fixed_remove) if r]
                     raise ValueError(
                         "Fixed user_splits {} are removed "
                         "because produce pure prebins. Provide "
                         "different splits to be fixed."
-                        .format(user_splits[fixed_remove]))
+                        .format(removed))
 
                 # Update boolean array of fixed user splits.
-                self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                self.user_splits = user_splits[~mask_splits]
+                self._user_splits_fixed = self._user_splits_fixed[
+                    ~mask_splits]
+                self._user_splits = [
+                    s for s, r in zip(self._user_splits, mask_splits)
+                    if not r]
 
             splits = splits_prebinning[~mask_splits]
             if self.verbose:
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index 873023c..6c95877 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -348,6 +348,8 @@ class MulticlassOptimalBinning(OptimalBinning):
         self.prebinning_kwargs = prebinning_kwargs
 
         # auxiliary
+        self._user_splits = None
+        self._user_splits_fixed = None
         self._n_event = None
         self._n_event_missing = None
         self._n_event_special = None
@@ -499,6 +501,11 @@ class MulticlassOptimalBinning(OptimalBinning):
 
         _check_parameters(**self.get_params())
 
+        # Reset information of a previous fit
+        self._n_refinements = 0
+        self._user_splits = None
+        self._user_splits_fixed = None
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
@@ -569,7 +576,9 @@ class MulticlassOptimalBinning(OptimalBinning):
             user_splits = user_splits[sorted_idx]
 
             if self.user_splits_fixed is not None:
-                self.user_splits_fixed = np.asarray(
+                self._user_splits = [list(self.user_splits)[j]
+                                     for j in sorted_idx]
+                self._user_splits_fixed = np.asarray(
                     self.user_splits_fixed)[sorted_idx]
 
             splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -753,7 +762,7 @@ class MulticlassOptimalBinning(OptimalBinning):
                                             self.min_event_rate_diff,
                                             self.max_pvalue,
                                             self.max_pvalue_policy,
-                                            self.user_splits_fixed,
+                                            self._user_splits_fixed,
                                             self.time_limit)
         else:
             optimizer = MulticlassBinningMIP(monotonic, self.min_n_bins,
@@ -763,7 +772,7 @@ class MulticlassOptimalBinning(OptimalBinning):
                                              self.max_pvalue,
                                              self.max_pvalue_policy,
                                              self.mip_solver,
-                                             self.user_splits_fixed,
+                                             self._user_splits_fixed,
                                              self.time_limit)
         if self.verbose:
             logger.info("Optimizer: build model...")
@@ -818,20 +827,23 @@ class MulticlassOptimalBinning(OptimalBinning):
             mask_splits = np.concatenate(
                 [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
-            if self.user_splits_fixed is not None:
-                user_splits_fixed = np.asarray(self.user_splits_fixed)
-                user_splits = np.asarray(self.user_splits)
-                fixed_remove = user_splits_fixed & mask_splits
+            if self._user_splits_fixed is not None:
+                fixed_remove = self._user_splits_fixed & mask_splits
 
                 if any(fixed_remove):
+                    removed = [s for s, r in zip(self._user_splits,
+                                                 fixed_remove) if r]
                     raise ValueError("Fixed user_splits {} are removed "
                                      "because produce pure prebins. Provide "
                                      "different splits to be fixed."
-                                     .format(user_splits[fixed_remove]))
+                                     .format(removed))
 
                 # Update boolean array of fixed user splits.
-                self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                self.user_splits = user_splits[~mask_splits]
+                self._user_splits_fixed = self._user_splits_fixed[
+                    ~mask_splits]
+                self._user_splits = [
+                    s for s, r in zip(self._user_splits, mask_splits)
+                    if not r]
 
             splits = splits_prebinning[~mask_splits]
 
-- 
2.43.0


From 86c0024a6d5d9784c7e5a57353cb3c892122674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 021/129] fix: MDLP discards the splits of a previous fit

---
 optbinning/binning/mdlp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optbinning/binning/mdlp.py b/optbinning/binning/mdlp.py
index 835ec7b..1611d9f 100644
--- a/optbinning/binning/mdlp.py
+++ b/optbinning/binning/mdlp.py
@@ -106,6 +106,7 @@ class MDLP(BaseEstimator):
         x = x[idx]
         y = y[idx]
 
+        self._splits = []
         self._recurse(x, y, 0)
 
         self._is_fitted = True
-- 
2.43.0


From 82f0e0f12ebe1ace3e28a8f900610898a8547a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 022/129] fix: quantile/uniform pre-binning does not one-hot
 encode the bins

---
 optbinning/binning/prebinning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/prebinning.py b/optbinning/binning/prebinning.py
index 9b02baf..992de46 100644
--- a/optbinning/binning/prebinning.py
+++ b/optbinning/binning/prebinning.py
@@ -93,7 +93,8 @@ class PreBinning:
                              "classification problems.")
 
         if self.method in ("uniform", "quantile"):
-            unsup_kwargs = {"n_bins": self.n_bins, "strategy": self.method}
+            unsup_kwargs = {"n_bins": self.n_bins, "strategy": self.method,
+                            "encode": "ordinal"}
             unsup_kwargs.update(**self.kwargs)
 
             est = KBinsDiscretizer(**unsup_kwargs)
-- 
2.43.0


From 9269824a5d0bc029dd414521c9dc8f3b8139c66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 023/129] fix: outlier detectors with an interval covering all
 samples or an empty quantile bin

---
 optbinning/binning/outlier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/outlier.py b/optbinning/binning/outlier.py
index 1537fb1..b28df6e 100644
--- a/optbinning/binning/outlier.py
+++ b/optbinning/binning/outlier.py
@@ -108,7 +108,7 @@ class RangeDetector(BaseEstimator, OutlierDetector):
         else:
             n = len(x)
             xsorted = np.sort(x)
-            n_included = int(np.ceil(self.interval_length * n))
+            n_included = min(int(np.ceil(self.interval_length * n)), n - 1)
             n_ci = n - n_included
             ci = xsorted[n_included:] - xsorted[:n_ci]
             j = np.argmin(ci)
@@ -219,6 +219,9 @@ class YQuantileDetector(BaseEstimator, OutlierDetector):
 
         for i in range(n_bins):
             mask_x = indices == i
+            if not mask_x.any():
+                continue
+
             detector.fit(y[mask_x])
             mask_out = detector.get_support()
             idx_out = idx_support[mask_x][mask_out]
-- 
2.43.0


From c5e28fcf57f6cc0268de8aa0ce0740869831dbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 024/129] fix: class_weight does not modify the sample_weight
 array of the caller

---
 optbinning/binning/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/preprocessing.py b/optbinning/binning/preprocessing.py
index fc299dc..aa41c8e 100644
--- a/optbinning/binning/preprocessing.py
+++ b/optbinning/binning/preprocessing.py
@@ -183,7 +183,7 @@ def split_data(dtype, x, y, special_codes=None, cat_cutoff=None,
         le = LabelEncoder()
         class_weight_ = compute_class_weight(
             class_weight=class_weight, classes=classes, y=y)
-        sample_weight *= class_weight_[le.fit_transform(y)]
+        sample_weight = sample_weight * class_weight_[le.fit_transform(y)]
 
     if np.issubdtype(x.dtype, np.number) and np.issubdtype(y.dtype, np.number):
         missing_mask = np.isnan(x) | np.isnan(y)
-- 
2.43.0


From d5e9bbbb2ad56f9a2678bf94f6e969a5e9a7e4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 025/129] fix: split_data applies fix_ub when fix_lb is also
 given

---
 optbinning/binning/preprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/preprocessing.py b/optbinning/binning/preprocessing.py
index aa41c8e..06d2c2c 100644
--- a/optbinning/binning/preprocessing.py
+++ b/optbinning/binning/preprocessing.py
@@ -249,9 +249,9 @@ def split_data(dtype, x, y, special_codes=None, cat_cutoff=None,
             sw_clean = sw_clean[~mask_outlier]
 
         if fix_lb is not None or fix_ub is not None:
-            if fix_lb is not None:
+            if fix_ub is None:
                 mask = x_clean >= fix_lb
-            elif fix_ub is not None:
+            elif fix_lb is None:
                 mask = x_clean <= fix_ub
             else:
                 mask = (x_clean >= fix_lb) & (x_clean <= fix_ub)
-- 
2.43.0


From b1362b4ed29002f8995dfeecacad5267f74e2b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 026/129] fix: empty user_splits fits a single bin

---
 optbinning/binning/binning.py            | 7 ++++---
 optbinning/binning/continuous_binning.py | 9 +++++----
 optbinning/binning/multiclass_binning.py | 7 +++++--
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 49e1229..7aab0c7 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -785,9 +785,10 @@ class OptimalBinning(BaseOptimalBinning):
                             .format(n_splits))
 
             if not n_splits:
-                splits = self.user_splits
-                n_nonevent = np.array([])
-                n_event = np.array([])
+                splits, n_nonevent, n_event = self._prebinning_refinement(
+                    np.array([]), x_clean, y_clean, y_missing, x_special,
+                    y_special, y_others, sw_clean, sw_missing, sw_special,
+                    sw_others)
             else:
                 if self.dtype == "numerical":
                     user_splits = check_array(
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 2ecd656..cef2dc7 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -636,10 +636,11 @@ class ContinuousOptimalBinning(OptimalBinning):
                             .format(n_splits))
 
             if not n_splits:
-                splits = self.user_splits
-                n_records = np.array([])
-                sums = np.array([])
-                stds = np.array([])
+                [splits, n_records, sums, ssums, stds, min_t, max_t,
+                 n_zeros] = self._prebinning_refinement(
+                    np.array([]), x_clean, y_clean, y_missing, x_special,
+                    y_special, y_others, sw_clean, sw_missing, sw_special,
+                    sw_others)
             else:
                 if self.dtype == "numerical":
                     user_splits = check_array(
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index 6c95877..3046f1a 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -566,8 +566,11 @@ class MulticlassOptimalBinning(OptimalBinning):
                 logger.info("Pre-binning: user splits supplied: {}"
                             .format(n_splits))
 
-            user_splits = check_array(self.user_splits, ensure_2d=False,
-                                      dtype=None, force_all_finite=True)
+            if not n_splits:
+                user_splits = np.array([])
+            else:
+                user_splits = check_array(self.user_splits, ensure_2d=False,
+                                          dtype=None, force_all_finite=True)
 
             if len(set(user_splits)) != len(user_splits):
                 raise ValueError("User splits are not unique.")
-- 
2.43.0


From ab34318d6257dad19a335599aa4ee8a9c8d2ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:24 +0000
Subject: [PATCH 027/129] fix: Kolmogorov-Smirnov statistic off by one record
 and dependent on the order of ties

---
 optbinning/metrics/classification.py | 7 +++++--
 optbinning/scorecard/plots.py        | 6 ++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/optbinning/metrics/classification.py b/optbinning/metrics/classification.py
index ab8cd80..4059494 100644
--- a/optbinning/metrics/classification.py
+++ b/optbinning/metrics/classification.py
@@ -52,15 +52,18 @@ def ks(y_true, y_pred_proba):
 
     idx = np.argsort(y_pred_proba)
     yy = y_true[idx]
+    pp = y_pred_proba[idx]
 
     cum_event = np.cumsum(yy)
-    cum_population = np.arange(0, n_samples)
+    cum_population = np.arange(1, n_samples + 1)
     cum_nonevent = cum_population - cum_event
 
     p_event = cum_event / n_event
     p_nonevent = cum_nonevent / n_nonevent
 
-    p_diff = p_nonevent - p_event
+    # The distributions are only defined at the last of tied probabilities.
+    mask_last = np.append(pp[1:] != pp[:-1], True)
+    p_diff = np.where(mask_last, p_nonevent - p_event, -np.inf)
     ks_max_idx = np.argmax(p_diff)
     ks_score = p_diff[ks_max_idx]
 
diff --git a/optbinning/scorecard/plots.py b/optbinning/scorecard/plots.py
index 1873ac5..956a0d2 100644
--- a/optbinning/scorecard/plots.py
+++ b/optbinning/scorecard/plots.py
@@ -221,13 +221,15 @@ def plot_ks(y, y_pred, title=None, xlabel=None, ylabel=None,
     pp = y_pred[idx]
 
     cum_event = np.cumsum(yy)
-    cum_population = np.arange(0, n_samples)
+    cum_population = np.arange(1, n_samples + 1)
     cum_nonevent = cum_population - cum_event
 
     p_event = cum_event / n_event
     p_nonevent = cum_nonevent / n_nonevent
 
-    p_diff = p_nonevent - p_event
+    # The distributions are only defined at the last of tied probabilities.
+    mask_last = np.append(pp[1:] != pp[:-1], True)
+    p_diff = np.where(mask_last, p_nonevent - p_event, -np.inf)
     ks_score = np.max(p_diff)
     ks_max_idx = np.argmax(p_diff)
 
-- 
2.43.0


From 85105438507fed48f25e6e0093bfbb714ab4cc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:24 +0000
Subject: [PATCH 028/129] fix: bayesian_probability does not disturb the global
 random state

---
 optbinning/binning/metrics.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/optbinning/binning/metrics.py b/optbinning/binning/metrics.py
index 07ff79a..e48d2c8 100644
--- a/optbinning/binning/metrics.py
+++ b/optbinning/binning/metrics.py
@@ -299,7 +299,6 @@ def bayesian_probability(obs, n_samples):
     aA, aB, bA, bB = obs.ravel()
 
     r = np.arange(1, n_samples + 1)
-    np.random.shuffle(r)
     v = (r - 0.5) / n_samples
 
     p = special.betainc(aA, bA, stats.beta(aB, bB).ppf(v)).mean()
-- 
2.43.0


From d910500035c7e40770dc3a939ba75ad128889f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:01 +0000
Subject: [PATCH 029/129] fix: piecewise binary transform swapped events and
 non-events of special and missing records

---
 optbinning/binning/piecewise/transformations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index 9ead4b1..2000fae 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -59,8 +59,8 @@ def _apply_transform(x, c, lb, ub, special_codes, metric_special,
 
 
 def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
-                            n_event_special, n_nonevent_special,
-                            n_event_missing, n_nonevent_missing,
+                            n_nonevent_special, n_event_special,
+                            n_nonevent_missing, n_event_missing,
                             special_codes, metric, metric_special,
                             metric_missing, check_input=False):
 
-- 
2.43.0


From 05d537e207d722890d5d6a94335886657e44f136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:01 +0000
Subject: [PATCH 030/129] fix: piecewise empirical WoE of special/missing bins
 without events or non-events is infinite

---
 .../binning/piecewise/transformations.py       | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index 2000fae..e63fca6 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -58,6 +58,18 @@ def _apply_transform(x, c, lb, ub, special_codes, metric_special,
     return x_transform
 
 
+def _transform_empirical_to_woe(event_rate, n_nonevent, n_event):
+    # As in the binning table, the event rate and WoE of a bin without events
+    # or non-events are zero.
+    event_rate = np.asarray(event_rate, dtype=float)
+    woe = np.zeros(event_rate.shape)
+    mask = event_rate > 0
+    woe[mask] = transform_event_rate_to_woe(
+        event_rate[mask], n_nonevent, n_event)
+
+    return woe
+
+
 def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
                             n_nonevent_special, n_event_special,
                             n_nonevent_missing, n_event_missing,
@@ -108,19 +120,19 @@ def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
             event_rate_special = n_event_special / n_records_special
 
         if metric == "woe":
-            event_rate_special = transform_event_rate_to_woe(
+            event_rate_special = _transform_empirical_to_woe(
                 event_rate_special, n_nonevent, n_event)
 
     if metric_missing == "empirical":
         n_records_missing = n_event_missing + n_nonevent_missing
 
-        if n_records_missing > 0:
+        if n_event_missing > 0 and n_nonevent_missing > 0:
             event_rate_missing = n_event_missing / n_records_missing
         else:
             event_rate_missing = 0
 
         if metric == "woe":
-            event_rate_missing = transform_event_rate_to_woe(
+            event_rate_missing = _transform_empirical_to_woe(
                 event_rate_missing, n_nonevent, n_event)
 
     x_transform = _apply_transform(
-- 
2.43.0


From 57aa05e12dd158a25348c568834358fc44dd717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:01 +0000
Subject: [PATCH 031/129] fix: ContinuousOptimalPWBinning.fit_transform ignored
 the bounds and passed check_input as lower bound

---
 optbinning/binning/piecewise/continuous_binning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/piecewise/continuous_binning.py b/optbinning/binning/piecewise/continuous_binning.py
index b80500a..52b6406 100644
--- a/optbinning/binning/piecewise/continuous_binning.py
+++ b/optbinning/binning/piecewise/continuous_binning.py
@@ -242,7 +242,7 @@ class ContinuousOptimalPWBinning(BasePWBinning):
         x_new : numpy array, shape = (n_samples,)
             Transformed array.
         """
-        return self.fit(x, y, check_input).transform(
+        return self.fit(x, y, lb, ub, check_input).transform(
             x, metric_special, metric_missing, lb, ub, check_input)
 
     def transform(self, x, metric_special=0, metric_missing=0,
-- 
2.43.0


From 50a864892e894afcea61828f26cd80c284f893b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:01 +0000
Subject: [PATCH 032/129] fix: piecewise binning removed outliers twice

---
 optbinning/binning/piecewise/base.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/optbinning/binning/piecewise/base.py b/optbinning/binning/piecewise/base.py
index 7302d6f..3add498 100644
--- a/optbinning/binning/piecewise/base.py
+++ b/optbinning/binning/piecewise/base.py
@@ -372,8 +372,6 @@ class BasePWBinning(Base, BaseEstimator):
                 monotonic_trend=monotonic_trend,
                 max_pvalue=self.max_pvalue,
                 max_pvalue_policy=self.max_pvalue_policy,
-                outlier_detector=self.outlier_detector,
-                outlier_params=self.outlier_params,
                 user_splits=self.user_splits,
                 user_splits_fixed=self.user_splits_fixed,
                 split_digits=self.split_digits)
@@ -391,8 +389,6 @@ class BasePWBinning(Base, BaseEstimator):
                 monotonic_trend=monotonic_trend,
                 max_pvalue=self.max_pvalue,
                 max_pvalue_policy=self.max_pvalue_policy,
-                outlier_detector=self.outlier_detector,
-                outlier_params=self.outlier_params,
                 user_splits=self.user_splits,
                 user_splits_fixed=self.user_splits_fixed,
                 split_digits=self.split_digits)
-- 
2.43.0


From 3eb4f3e5d0fb7f905851350a7299f757b365a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:01 +0000
Subject: [PATCH 033/129] fix: OptimalPWBinning.fit modified its estimator
 parameter

---
 optbinning/binning/piecewise/binning.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/piecewise/binning.py b/optbinning/binning/piecewise/binning.py
index 73eb33b..1e82ad3 100644
--- a/optbinning/binning/piecewise/binning.py
+++ b/optbinning/binning/piecewise/binning.py
@@ -9,6 +9,7 @@ import time
 
 import numpy as np
 
+from sklearn.base import clone
 from sklearn.linear_model import LogisticRegression
 
 from ...binning.binning_statistics import target_info
@@ -358,17 +359,19 @@ class OptimalPWBinning(BasePWBinning):
         time_estimator = time.perf_counter()
 
         if self.estimator is None:
-            self.estimator = LogisticRegression()
+            estimator = LogisticRegression()
 
             if self.verbose:
                 logger.info("Pre-binning: set logistic regression as an "
                             "estimator.")
+        else:
+            estimator = clone(self.estimator, safe=False)
 
         if self.verbose:
             logger.info("Pre-binning: estimator fitting started.")
 
-        self.estimator.fit(x_clean.reshape(-1, 1), y_clean)
-        event_rate = self.estimator.predict_proba(x_clean.reshape(-1, 1))[:, 1]
+        estimator.fit(x_clean.reshape(-1, 1), y_clean)
+        event_rate = estimator.predict_proba(x_clean.reshape(-1, 1))[:, 1]
 
         self._time_estimator = time.perf_counter() - time_estimator
 
-- 
2.43.0


From 9f9c25533bac9a8f7828827c358b1f23ac6e91cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:01 +0000
Subject: [PATCH 034/129] fix: piecewise table analysis tested special rows as
 bins with dict special codes

---
 optbinning/binning/piecewise/binning_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/piecewise/binning_statistics.py b/optbinning/binning/piecewise/binning_statistics.py
index 3092256..9e5f564 100644
--- a/optbinning/binning/piecewise/binning_statistics.py
+++ b/optbinning/binning/piecewise/binning_statistics.py
@@ -316,7 +316,7 @@ class PWBinningTable(BinningTable):
 
         # Significance tests
         n_bins = len(self._n_records)
-        n_metric = n_bins - 2
+        n_metric = n_bins - 1 - self._n_specials
 
         n_nev = self.n_nonevent[:n_metric]
         n_ev = self.n_event[:n_metric]
@@ -628,7 +628,7 @@ class PWContinuousBinningTable:
 
         # Significance tests
         n_bins = len(self.n_records)
-        n_metric = n_bins - 2
+        n_metric = n_bins - 1 - self._n_specials
 
         n_records = self.n_records[:n_metric]
         mean = self._mean[:n_metric]
-- 
2.43.0


From 0d30fe53deb26a1e3d73087d22f8089906303baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 035/129] fix: piecewise auto monotonic trend crashed for
 discontinuous functions

---
 optbinning/binning/piecewise/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optbinning/binning/piecewise/base.py b/optbinning/binning/piecewise/base.py
index 3add498..d9f5e30 100644
--- a/optbinning/binning/piecewise/base.py
+++ b/optbinning/binning/piecewise/base.py
@@ -444,6 +444,10 @@ class BasePWBinning(Base, BaseEstimator):
             elif "valley" in monotonic:
                 monotonic = "valley"
 
+            # peak and valley trends are only valid for continuous functions
+            if monotonic in ("peak", "valley") and not self.continuous:
+                monotonic = None
+
             if self.verbose:
                 logger.info("Optimizer: {} monotonic trend."
                             .format(monotonic))
-- 
2.43.0


From 4ddebba7c593a933d2d27808669e3757fbd96fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 036/129] fix: 2D binning counted records with a missing and a
 special coordinate twice

---
 optbinning/binning/multidimensional/preprocessing_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/preprocessing_2d.py b/optbinning/binning/multidimensional/preprocessing_2d.py
index 11d4b74..82d9bfd 100644
--- a/optbinning/binning/multidimensional/preprocessing_2d.py
+++ b/optbinning/binning/multidimensional/preprocessing_2d.py
@@ -88,7 +88,7 @@ def split_data_2d(dtype_x, dtype_y, x, y, z, special_codes_x=None,
         special_mask_y = np.zeros(len(y), dtype=bool)
 
     missing_mask = missing_mask_x | missing_mask_y
-    special_mask = special_mask_x | special_mask_y
+    special_mask = (special_mask_x | special_mask_y) & ~missing_mask
 
     clean_mask = ~missing_mask & ~special_mask
 
-- 
2.43.0


From 94c15eae79f93532c31800fa5b0acc8c146200b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 037/129] fix: 2D binning crashed when all candidate rectangles
 have the same size

---
 optbinning/binning/multidimensional/binning_2d.py            | 5 +++--
 optbinning/binning/multidimensional/continuous_binning_2d.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index ac66cb1..14b9a38 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -697,12 +697,13 @@ class OptimalBinning2D(OptimalBinning):
         D = np.empty(m * n, dtype=float)
         P = np.empty(m * n, dtype=int)
 
-        selected_rows = np.array(rows, dtype=object)[self._solution]
+        selected_rows = [row for row, selected in zip(rows, self._solution)
+                         if selected]
 
         self._selected_rows = selected_rows
         self._m, self._n = m, n
 
-        n_selected_rows = selected_rows.shape[0] + 2
+        n_selected_rows = len(selected_rows) + 2
 
         opt_n_nonevent = np.empty(n_selected_rows, dtype=int)
         opt_n_event = np.empty(n_selected_rows, dtype=int)
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index f24102e..eb5a7d2 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -622,12 +622,13 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
         D = np.empty(m * n, dtype=float)
         P = np.empty(m * n, dtype=int)
 
-        selected_rows = np.array(rows, dtype=object)[self._solution]
+        selected_rows = [row for row, selected in zip(rows, self._solution)
+                         if selected]
 
         self._selected_rows = selected_rows
         self._m, self._n = m, n
 
-        n_selected_rows = selected_rows.shape[0] + 2
+        n_selected_rows = len(selected_rows) + 2
 
         opt_sums = np.empty(n_selected_rows, dtype=float)
         opt_n_records = np.empty(n_selected_rows, dtype=int)
-- 
2.43.0


From b8a3cba0db312edc93e000c2826feb78755c9e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 038/129] fix: 2D binning strategy cart crashed with at most
 one split

---
 optbinning/binning/multidimensional/binning_2d.py            | 2 +-
 optbinning/binning/multidimensional/continuous_binning_2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index 14b9a38..194a2e8 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -636,7 +636,7 @@ class OptimalBinning2D(OptimalBinning):
             n_splits_x = len(splits_x)
             n_splits_y = len(splits_y)
 
-            clf_nodes = n_splits_x * n_splits_y
+            clf_nodes = max(2, n_splits_x * n_splits_y)
 
             indices_x = np.digitize(x_clean, splits_x, right=False)
             n_bins_x = n_splits_x + 1
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index eb5a7d2..051d252 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -561,7 +561,7 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
             n_splits_x = len(splits_x)
             n_splits_y = len(splits_y)
 
-            clf_nodes = n_splits_x * n_splits_y
+            clf_nodes = max(2, n_splits_x * n_splits_y)
 
             indices_x = np.digitize(x_clean, splits_x, right=False)
             n_bins_x = n_splits_x + 1
-- 
2.43.0


From 2ed7e5d8aeb8163b4546dd478b07ae9885e1aa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 039/129] fix: 2D transform crashed with special codes given as
 numpy array

---
 optbinning/binning/multidimensional/transformations_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/transformations_2d.py b/optbinning/binning/multidimensional/transformations_2d.py
index c3ff7c4..3d3db4d 100644
--- a/optbinning/binning/multidimensional/transformations_2d.py
+++ b/optbinning/binning/multidimensional/transformations_2d.py
@@ -87,7 +87,7 @@ def _apply_transform(dtype_x, dtype_y, splits_x, splits_y, special_codes_x,
 
     z_transform[clean_mask] = z_clean_transform
 
-    if special_codes_x or special_codes_y:
+    if special_codes_x is not None or special_codes_y is not None:
         if (metric_special == "empirical" or
             (metric == "indices" and not isinstance(metric_special, int)) or
                 metric == "bins"):
-- 
2.43.0


From bed66ee7e7622fa1ffe385d5345e7747248a81f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 040/129] fix: 2D transform assigned index 0 to unknown
 categories

---
 optbinning/binning/multidimensional/transformations_2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optbinning/binning/multidimensional/transformations_2d.py b/optbinning/binning/multidimensional/transformations_2d.py
index 3d3db4d..9f33322 100644
--- a/optbinning/binning/multidimensional/transformations_2d.py
+++ b/optbinning/binning/multidimensional/transformations_2d.py
@@ -62,6 +62,8 @@ def _apply_transform(dtype_x, dtype_y, splits_x, splits_y, special_codes_x,
 
     if metric == "bins":
         z_clean_transform = np.full(x_clean.shape, "", dtype=object)
+    elif metric == "indices":
+        z_clean_transform = np.full(x_clean.shape, -1, dtype=int)
     else:
         z_clean_transform = np.zeros(x_clean.shape)
 
-- 
2.43.0


From 6bb6867f21f4aa7ffd8f3b31491a6ec8bc4cb45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 041/129] fix: continuous 2D binning crashed with gamma and the
 CP solver

---
 optbinning/binning/multidimensional/continuous_binning_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index 051d252..6dcf24d 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -720,7 +720,7 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
         indices_y = np.digitize(y_clean, splits_y, right=False)
         n_bins_y = n_splits_y + 1
 
-        R = np.empty((n_bins_y, n_bins_x), dtype=float)
+        R = np.empty((n_bins_y, n_bins_x), dtype=int)
         S = np.empty((n_bins_y, n_bins_x), dtype=float)
         SS = np.empty((n_bins_y, n_bins_x), dtype=float)
 
-- 
2.43.0


From 4260920af5bd2174cbd527b5401ff85b88bcf2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 042/129] fix: 2D binning ignored split_digits

---
 optbinning/binning/multidimensional/binning_2d.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index 194a2e8..3b4c042 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -771,7 +771,12 @@ class OptimalBinning2D(OptimalBinning):
                                 min_bin_size=min_bin_size,
                                 problem_type=self._problem_type).fit(x, z)
 
-        return prebinning.splits
+        splits = prebinning.splits
+
+        if self.split_digits is not None and dtype == "numerical":
+            splits = np.unique(np.round(splits, self.split_digits))
+
+        return splits
 
     def _prebinning_matrices(self, splits_x, splits_y, x_clean, y_clean,
                              z_clean, x_missing, y_missing, z_missing,
-- 
2.43.0


From e78d9de842195b077e36db8ec1634bd14c2cd70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 043/129] fix: 2D binning strategy cart crashed when the tree
 has no splits

---
 optbinning/binning/multidimensional/model_data_cart_2d.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/optbinning/binning/multidimensional/model_data_cart_2d.py b/optbinning/binning/multidimensional/model_data_cart_2d.py
index 4e9b471..fb2c71c 100644
--- a/optbinning/binning/multidimensional/model_data_cart_2d.py
+++ b/optbinning/binning/multidimensional/model_data_cart_2d.py
@@ -41,6 +41,11 @@ def get_rectangles(tree, feature_names):
     def recurse(left, right, child, lineage=None):
         if lineage is None:
             lineage = [child]
+
+        # tree without splits
+        if child == 0:
+            return lineage
+
         if child in left:
             parent = np.where(left == child)[0].item()
             split = '<='
-- 
2.43.0


From 60c6b84caf53184aefb364b70b0293944d2251a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 044/129] fix: 2D binning with gamma crashed when no rectangle
 is feasible

---
 optbinning/binning/multidimensional/cp_2d.py  | 2 +-
 optbinning/binning/multidimensional/mip_2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multidimensional/cp_2d.py b/optbinning/binning/multidimensional/cp_2d.py
index 8918288..a866a4b 100644
--- a/optbinning/binning/multidimensional/cp_2d.py
+++ b/optbinning/binning/multidimensional/cp_2d.py
@@ -48,7 +48,7 @@ class Binning2DCP:
 
         # Objective function
         if self.gamma:
-            total_records = int(n_records.sum())
+            total_records = max(1, int(n_records.sum()))
             regularization = int(np.ceil(scale * self.gamma / total_records))
             pmax = model.NewIntVar(0, total_records, "pmax")
             pmin = model.NewIntVar(0, total_records, "pmin")
diff --git a/optbinning/binning/multidimensional/mip_2d.py b/optbinning/binning/multidimensional/mip_2d.py
index 2c94c7a..baff229 100644
--- a/optbinning/binning/multidimensional/mip_2d.py
+++ b/optbinning/binning/multidimensional/mip_2d.py
@@ -46,7 +46,7 @@ class Binning2DMIP:
 
         # Objective function
         if self.gamma:
-            total_records = int(n_records.sum())
+            total_records = max(1, int(n_records.sum()))
             regularization = self.gamma / total_records
             pmax = solver.NumVar(0, total_records, "pmax")
             pmin = solver.NumVar(0, total_records, "pmin")
-- 
2.43.0


From a45801e67202650159bf2d432fbf70e61e7d55ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 045/129] fix: scenario binning fixed the wrong user splits and
 modified user_splits_fixed

---
 .../binning/uncertainty/binning_scenarios.py  | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index 8b5c8d3..5f957c2 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -309,8 +309,8 @@ class SBOptimalBinning(OptimalBinning):
         self._n_nonevent_special = None
         self._n_event_special = None
         self._problem_type = "classification"
-        self._user_splits = user_splits
-        self._user_splits_fixed = user_splits_fixed
+        self._user_splits = None
+        self._user_splits_fixed = None
 
         # info
         self._binning_table = None
@@ -481,6 +481,11 @@ class SBOptimalBinning(OptimalBinning):
 
         _check_parameters(**self.get_params())
 
+        # Reset information of a previous fit
+        self._n_refinements = 0
+        self._user_splits = None
+        self._user_splits_fixed = None
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
@@ -535,7 +540,8 @@ class SBOptimalBinning(OptimalBinning):
             user_splits = user_splits[sorted_idx]
 
             if self.user_splits_fixed is not None:
-                self.user_splits_fixed = np.asarray(
+                self._user_splits = user_splits
+                self._user_splits_fixed = np.asarray(
                     self.user_splits_fixed)[sorted_idx]
 
             splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -701,9 +707,9 @@ class SBOptimalBinning(OptimalBinning):
             mask_splits = np.concatenate(
                 [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
-            if self.user_splits_fixed is not None:
-                user_splits_fixed = np.asarray(self._user_splits_fixed)
-                user_splits = np.asarray(self._user_splits)
+            if self._user_splits_fixed is not None:
+                user_splits_fixed = self._user_splits_fixed
+                user_splits = self._user_splits
                 fixed_remove = user_splits_fixed & mask_splits
 
                 if any(fixed_remove):
@@ -760,7 +766,7 @@ class SBOptimalBinning(OptimalBinning):
                               self.max_n_bins, min_bin_size, max_bin_size,
                               None, None, None, None, self.min_event_rate_diff,
                               self.max_pvalue, self.max_pvalue_policy, None,
-                              self.user_splits_fixed, self.time_limit)
+                              self._user_splits_fixed, self.time_limit)
         if weights is None:
             weights = np.ones(self._n_scenarios, int)
 
-- 
2.43.0


From a790fa826770086f216f8ae65d4edd6da24a3b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 046/129] fix: scenario binning crashed without pre-binning
 splits

---
 optbinning/binning/uncertainty/binning_scenarios.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index 5f957c2..b516b3d 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -573,6 +573,11 @@ class SBOptimalBinning(OptimalBinning):
 
         time_postprocessing = time.perf_counter()
 
+        if not len(splits):
+            t_info = [target_info(y) for y in y_clean]
+            n_nonevent = np.array([[t[0] for t in t_info]])
+            n_event = np.array([[t[1] for t in t_info]])
+
         self._n_nonevent = 0
         self._n_event = 0
         self._binning_tables = []
-- 
2.43.0


From 0ed59391f5935f68e98968cf5aef4d14817d5d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 047/129] fix: scenario weights were truncated in the objective

---
 optbinning/binning/cp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/cp.py b/optbinning/binning/cp.py
index 58d4826..9b7fb6f 100644
--- a/optbinning/binning/cp.py
+++ b/optbinning/binning/cp.py
@@ -187,8 +187,9 @@ class BinningCP:
         n_scenarios = len(w)
 
         if w is not None:
-            sw = 10 ** np.abs(np.log10(np.min(w)))
-            w = [np.int64(w[s] * sw) for s in range(n_scenarios)]
+            # Integer weights preserving the ratio among scenarios
+            sw = 10000 / np.max(w)
+            w = [int(np.rint(w[s] * sw)) for s in range(n_scenarios)]
 
         # Initialize model
         model = cp_model.CpModel()
-- 
2.43.0


From 6468b9364ffe17fce77389d46fafb3838b10868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:26 +0000
Subject: [PATCH 048/129] fix: binning process ignored max_bin_size

---
 optbinning/binning/binning_process.py         | 43 +++++++++++--------
 .../distributed/binning_process_sketch.py     |  1 +
 2 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 4c53022..d135e05 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -74,8 +74,8 @@ def _read_column(input_path, extension, column, **kwargs):
 
 def _fit_variable(x, y, name, target_dtype, categorical_variables,
                   binning_fit_params, max_n_prebins, min_prebin_size,
-                  min_n_bins, max_n_bins, min_bin_size, max_pvalue,
-                  max_pvalue_policy, special_codes, split_digits,
+                  min_n_bins, max_n_bins, min_bin_size, max_bin_size,
+                  max_pvalue, max_pvalue_policy, special_codes, split_digits,
                   sample_weight=None):
     params = {}
     dtype = _check_variable_dtype(x)
@@ -92,7 +92,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
             name=name, dtype=dtype, max_n_prebins=max_n_prebins,
             min_prebin_size=min_prebin_size,
             min_n_bins=min_n_bins, max_n_bins=max_n_bins,
-            min_bin_size=min_bin_size, max_pvalue=max_pvalue,
+            min_bin_size=min_bin_size, max_bin_size=max_bin_size,
+            max_pvalue=max_pvalue,
             max_pvalue_policy=max_pvalue_policy,
             special_codes=special_codes,
             split_digits=split_digits)
@@ -101,7 +102,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
             name=name, dtype=dtype, max_n_prebins=max_n_prebins,
             min_prebin_size=min_prebin_size,
             min_n_bins=min_n_bins, max_n_bins=max_n_bins,
-            min_bin_size=min_bin_size, max_pvalue=max_pvalue,
+            min_bin_size=min_bin_size, max_bin_size=max_bin_size,
+            max_pvalue=max_pvalue,
             max_pvalue_policy=max_pvalue_policy,
             special_codes=special_codes,
             split_digits=split_digits)
@@ -113,7 +115,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
             name=name, max_n_prebins=max_n_prebins,
             min_prebin_size=min_prebin_size,
             min_n_bins=min_n_bins, max_n_bins=max_n_bins,
-            min_bin_size=min_bin_size, max_pvalue=max_pvalue,
+            min_bin_size=min_bin_size, max_bin_size=max_bin_size,
+            max_pvalue=max_pvalue,
             max_pvalue_policy=max_pvalue_policy,
             special_codes=special_codes,
             split_digits=split_digits)
@@ -130,8 +133,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
 
 def _fit_block(X, y, names, target_dtype, categorical_variables,
                binning_fit_params, max_n_prebins, min_prebin_size,
-               min_n_bins, max_n_bins, min_bin_size, max_pvalue,
-               max_pvalue_policy, special_codes, split_digits,
+               min_n_bins, max_n_bins, min_bin_size, max_bin_size,
+               max_pvalue, max_pvalue_policy, special_codes, split_digits,
                sample_weight=None):
 
     variable_dtypes = {}
@@ -142,14 +145,14 @@ def _fit_block(X, y, names, target_dtype, categorical_variables,
             dtype, optb = _fit_variable(
                 X[:, i], y, name, target_dtype, categorical_variables,
                 binning_fit_params, max_n_prebins, min_prebin_size, min_n_bins,
-                max_n_bins, min_bin_size, max_pvalue, max_pvalue_policy,
-                special_codes, split_digits, sample_weight)
+                max_n_bins, min_bin_size, max_bin_size, max_pvalue,
+                max_pvalue_policy, special_codes, split_digits, sample_weight)
         else:
             dtype, optb = _fit_variable(
                 X[name], y, name, target_dtype, categorical_variables,
                 binning_fit_params, max_n_prebins, min_prebin_size, min_n_bins,
-                max_n_bins, min_bin_size, max_pvalue, max_pvalue_policy,
-                special_codes, split_digits, sample_weight)
+                max_n_bins, min_bin_size, max_bin_size, max_pvalue,
+                max_pvalue_policy, special_codes, split_digits, sample_weight)
 
         variable_dtypes[name] = dtype
         binned_variables[name] = optb
@@ -1121,16 +1124,18 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.categorical_variables, self.binning_fit_params,
                         self.max_n_prebins, self.min_prebin_size,
                         self.min_n_bins, self.max_n_bins, self.min_bin_size,
-                        self.max_pvalue, self.max_pvalue_policy,
-                        self.special_codes, self.split_digits, sample_weight)
+                        self.max_bin_size, self.max_pvalue,
+                        self.max_pvalue_policy, self.special_codes,
+                        self.split_digits, sample_weight)
                 else:
                     dtype, optb = _fit_variable(
                         X[name], y, name, self._target_dtype,
                         self.categorical_variables, self.binning_fit_params,
                         self.max_n_prebins, self.min_prebin_size,
                         self.min_n_bins, self.max_n_bins, self.min_bin_size,
-                        self.max_pvalue, self.max_pvalue_policy,
-                        self.special_codes, self.split_digits, sample_weight)
+                        self.max_bin_size, self.max_pvalue,
+                        self.max_pvalue_policy, self.special_codes,
+                        self.split_digits, sample_weight)
 
                 self._variable_dtypes[name] = dtype
                 self._binned_variables[name] = optb
@@ -1146,7 +1151,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self._target_dtype, self.categorical_variables,
                         self.binning_fit_params, self.max_n_prebins,
                         self.min_prebin_size, self.min_n_bins,
-                        self.max_n_bins, self.min_bin_size,
+                        self.max_n_bins, self.min_bin_size, self.max_bin_size,
                         self.max_pvalue, self.max_pvalue_policy,
                         self.special_codes, self.split_digits, sample_weight)
                     for id_block in id_blocks)
@@ -1158,7 +1163,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self._target_dtype, self.categorical_variables,
                         self.binning_fit_params, self.max_n_prebins,
                         self.min_prebin_size, self.min_n_bins,
-                        self.max_n_bins, self.min_bin_size,
+                        self.max_n_bins, self.min_bin_size, self.max_bin_size,
                         self.max_pvalue, self.max_pvalue_policy,
                         self.special_codes, self.split_digits, sample_weight)
                     for id_block in id_blocks)
@@ -1241,8 +1246,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 x, y, name, self._target_dtype, self.categorical_variables,
                 self.binning_fit_params, self.max_n_prebins,
                 self.min_prebin_size, self.min_n_bins, self.max_n_bins,
-                self.min_bin_size, self.max_pvalue, self.max_pvalue_policy,
-                self.special_codes, self.split_digits)
+                self.min_bin_size, self.max_bin_size, self.max_pvalue,
+                self.max_pvalue_policy, self.special_codes, self.split_digits)
 
             self._variable_dtypes[name] = dtype
             self._binned_variables[name] = optb
diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index c06e2c8..e3ab59f 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -325,6 +325,7 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
                         min_n_bins=self.min_n_bins,
                         max_n_bins=self.max_n_bins,
                         min_bin_size=self.min_bin_size,
+                        max_bin_size=self.max_bin_size,
                         max_pvalue=self.max_pvalue,
                         max_pvalue_policy=self.max_pvalue_policy,
                         special_codes=self.special_codes,
-- 
2.43.0


From 72a5aa9b2ba568780bb69f7f0c9c1e63e5d34e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 049/129] fix: transform params of one variable leaked to the
 next variables of a binning process

---
 optbinning/binning/binning_process.py         | 28 +++++++++----------
 .../distributed/binning_process_sketch.py     |  9 +++---
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index d135e05..514ebe9 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1431,15 +1431,15 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             if self.binning_transform_params is not None:
                 params = self.binning_transform_params.get(name, {})
 
-            metric = params.get("metric", metric)
-            metric_missing = params.get("metric_missing", metric_missing)
-            metric_special = params.get("metric_special", metric_special)
+            variable_metric = params.get("metric", metric)
 
             tparams = {
                 "x": x,
-                "metric": metric,
-                "metric_special": metric_special,
-                "metric_missing": metric_missing,
+                "metric": variable_metric,
+                "metric_special": params.get(
+                    "metric_special", metric_special),
+                "metric_missing": params.get(
+                    "metric_missing", metric_missing),
                 "check_input": check_input,
                 "show_digits": show_digits
                 }
@@ -1447,7 +1447,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             if isinstance(optb, _OPTBPW_TYPES):
                 tparams.pop("show_digits")
 
-            if metric is None:
+            if variable_metric is None:
                 tparams.pop("metric")
 
             X_transform[:, i] = optb.transform(**tparams)
@@ -1529,22 +1529,22 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if self.binning_transform_params is not None:
                     params = self.binning_transform_params.get(name, {})
 
-                metric = params.get("metric", metric)
-                metric_missing = params.get("metric_missing", metric_missing)
-                metric_special = params.get("metric_special", metric_special)
+                variable_metric = params.get("metric", metric)
 
                 tparams = {
                     "x": chunk[name],
-                    "metric": metric,
-                    "metric_special": metric_special,
-                    "metric_missing": metric_missing,
+                    "metric": variable_metric,
+                    "metric_special": params.get(
+                        "metric_special", metric_special),
+                    "metric_missing": params.get(
+                        "metric_missing", metric_missing),
                     "show_digits": show_digits
                     }
 
                 if isinstance(optb, _OPTBPW_TYPES):
                     tparams.pop("show_digits")
 
-                if metric is None:
+                if variable_metric is None:
                     tparams.pop("metric")
 
                 X_transform[:, i] = optb.transform(**tparams)
diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index e3ab59f..8ad0f06 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -564,14 +564,13 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
             if self.binning_transform_params is not None:
                 params = self.binning_transform_params.get(name, {})
 
-            metric_missing = params.get("metric_missing", metric_missing)
-            metric_special = params.get("metric_special", metric_special)
-
             tparams = {
                 "x": x,
                 "metric": metric,
-                "metric_special": metric_special,
-                "metric_missing": metric_missing,
+                "metric_special": params.get(
+                    "metric_special", metric_special),
+                "metric_missing": params.get(
+                    "metric_missing", metric_missing),
                 "check_input": check_input,
                 "show_digits": show_digits
                 }
-- 
2.43.0


From 30714153e79517ffa4ecac0e288369f48d25d58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 050/129] fix: binning process truncated values when a variable
 metric is mixed with indices

---
 optbinning/binning/binning_process.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 514ebe9..19926f1 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1406,6 +1406,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if "bins" in metrics:
                     raise ValueError(
                         "metric 'bins' cannot be mixed with numeric metrics.")
+                base_metric = None
             else:
                 base_metric = metrics.pop()
 
@@ -1504,6 +1505,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if "bins" in metrics:
                     raise ValueError(
                         "metric 'bins' cannot be mixed with numeric metrics.")
+                base_metric = None
             else:
                 base_metric = metrics.pop()
 
-- 
2.43.0


From ef55675d271b6a795d58b800273a92e3b4f93afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 051/129] fix: binning process misread the extension of paths
 with more than one dot

---
 optbinning/binning/binning_process.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 19926f1..dd28bd6 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1200,7 +1200,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         _check_parameters(**self.get_params())
 
         # Input file extension
-        extension = input_path.split(".")[1]
+        extension = input_path.split(".")[-1]
 
         # Check extension
         if extension not in ("csv", "parquet"):
@@ -1463,8 +1463,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         metric_special, metric_missing, show_digits, **kwargs):
 
         # check input_path and output_path extensions
-        input_extension = input_path.split(".")[1]
-        output_extension = output_path.split(".")[1]
+        input_extension = input_path.split(".")[-1]
+        output_extension = output_path.split(".")[-1]
 
         if input_extension != "csv" or output_extension != "csv":
             raise ValueError("input_path and output_path must be csv files.")
-- 
2.43.0


From f0db773e2d701270591af8d38ca8d2700f2625ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 052/129] fix: transform_disk appended to an existing output
 file

---
 optbinning/binning/binning_process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index dd28bd6..0d534db 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1552,6 +1552,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 X_transform[:, i] = optb.transform(**tparams)
 
             df = pd.DataFrame(X_transform, columns=selected_variables)
-            df.to_csv(output_path, mode='a', index=False, header=(k == 0))
+            df.to_csv(output_path, mode='a' if k else 'w', index=False,
+                      header=(k == 0))
 
         return self
-- 
2.43.0


From 9431489caf1681ef8e904ab0d0e1edcc1ed5cfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:25 +0000
Subject: [PATCH 053/129] fix: binning process check_input lost the column
 dtypes of a dataframe

---
 optbinning/binning/binning_process.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 0d534db..fcef0e1 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1084,8 +1084,12 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
         # check X and y data
         if check_input:
-            X = check_array(X, ensure_2d=False, dtype=None,
-                            force_all_finite='allow-nan')
+            X_checked = check_array(X, ensure_2d=False, dtype=None,
+                                    force_all_finite='allow-nan')
+
+            # Keep the column dtypes of a dataframe
+            if isinstance(X, np.ndarray):
+                X = X_checked
 
             y = check_array(y, ensure_2d=False, dtype=None,
                             force_all_finite=True)
-- 
2.43.0


From 2bae766f7e7255307b54ce7d057c66ec2b61734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:25 +0000
Subject: [PATCH 054/129] fix: binning process kept results of previous calls
 to fit

---
 optbinning/binning/binning_process.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index fcef0e1..9aca7fd 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1053,6 +1053,13 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         else:
             return mask
 
+    def _reset(self):
+        # Discard results of previous calls to fit
+        self._binned_variables = {}
+        self._variable_dtypes = {}
+        self._variable_stats = {}
+        self._is_updated = False
+
     def _fit(self, X, y, sample_weight, check_input):
         time_init = time.perf_counter()
 
@@ -1062,6 +1069,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
         _check_parameters(**self.get_params())
 
+        self._reset()
+
         # check X dtype
         if not isinstance(X, (pd.DataFrame, np.ndarray)):
             raise TypeError("X must be a pandas.DataFrame or numpy.ndarray.")
@@ -1203,6 +1212,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
         _check_parameters(**self.get_params())
 
+        self._reset()
+
         # Input file extension
         extension = input_path.split(".")[-1]
 
@@ -1282,6 +1293,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
         _check_parameters(**self.get_params())
 
+        self._reset()
+
         if not isinstance(dict_optb, dict):
             raise TypeError("dict_optb must be a dict.")
 
-- 
2.43.0


From cd64b3a6d3b3c2081f1c3237d41db51274788f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:25 +0000
Subject: [PATCH 055/129] fix: binning process selection was outdated after
 update_binned_variable

---
 optbinning/binning/binning_process.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 9aca7fd..1a09c60 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -904,6 +904,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             raise ValueError("print_level must be an integer >= 0; got {}."
                              .format(print_level))
 
+        self._update_selection()
+
         n_numerical = list(self._variable_dtypes.values()).count("numerical")
         n_categorical = self._n_variables - n_numerical
 
@@ -927,9 +929,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         """
         self._check_is_fitted()
 
-        if self._is_updated:
-            self._binning_selection_criteria()
-            self._is_updated = False
+        self._update_selection()
 
         df_summary = pd.DataFrame.from_dict(self._variable_stats).T
         df_summary.reset_index(inplace=True)
@@ -1045,6 +1045,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         if indices and names:
             raise ValueError("Only indices or names can be True.")
 
+        self._update_selection()
+
         mask = self._support
         if indices:
             return np.where(mask)[0]
@@ -1053,6 +1055,12 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         else:
             return mask
 
+    def _update_selection(self):
+        # Repeat the variable selection after updating a binned variable
+        if self._is_updated:
+            self._binning_selection_criteria()
+            self._is_updated = False
+
     def _reset(self):
         # Discard results of previous calls to fit
         self._binned_variables = {}
-- 
2.43.0


From 7cd304c97db676a621dc7337af0554c6fbc1549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:25 +0000
Subject: [PATCH 056/129] fix: binning process crashed with continuous
 piecewise binning objects

---
 optbinning/binning/binning_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 1a09c60..2985448 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -403,10 +403,10 @@ class BaseBinningProcess:
             optb.binning_table.build()
 
             n_bins = len(optb.splits)
-            if isinstance(optb, OptimalPWBinning) or optb.dtype == "numerical":
+            if isinstance(optb, _OPTBPW_TYPES) or optb.dtype == "numerical":
                 n_bins += 1
 
-            if isinstance(optb, OptimalPWBinning):
+            if isinstance(optb, _OPTBPW_TYPES):
                 dtype = "numerical"
             else:
                 dtype = optb.dtype
-- 
2.43.0


From 49553fb37a8efc702cbacbdbafc645c826d8fb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:25 +0000
Subject: [PATCH 057/129] fix: binning process sketch crashed with
 selection_criteria

---
 optbinning/binning/binning_process.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 2985448..c64d752 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -391,9 +391,10 @@ class BaseBinningProcess:
                     support[indices_valid[mask]] = True
                     self._support &= support
 
-        # Fixed variables
-        if self.fixed_variables is not None:
-            for fv in self.fixed_variables:
+        # Fixed variables (not available for sketches)
+        fixed_variables = getattr(self, "fixed_variables", None)
+        if fixed_variables is not None:
+            for fv in fixed_variables:
                 idfv = list(self.variable_names).index(fv)
                 self._support[idfv] = True
 
-- 
2.43.0


From d27dc7c95d868d7032e81becacfaebc5d03cc231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:25 +0000
Subject: [PATCH 058/129] fix: transform_disk converted string categories that
 look like numbers

---
 optbinning/binning/binning_process.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index c64d752..4b877d1 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1485,6 +1485,13 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
         return X_transform
 
+    def _has_string_categories(self, name):
+        optb = self._binned_variables[name]
+        if isinstance(optb, _OPTBPW_TYPES) or optb.dtype == "numerical":
+            return False
+
+        return all(isinstance(c, str) for split in optb.splits for c in split)
+
     def _transform_disk(self, input_path, output_path, chunksize, metric,
                         metric_special, metric_missing, show_digits, **kwargs):
 
@@ -1535,6 +1542,13 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             else:
                 base_metric = metrics.pop()
 
+        # String categories must not be converted in chunks where all of them
+        # look like numbers
+        if "dtype" not in kwargs:
+            kwargs["dtype"] = {
+                name: str for name in selected_variables
+                if self._has_string_categories(name)}
+
         chunks = pd.read_csv(input_path, engine='c', chunksize=chunksize,
                              usecols=selected_variables, **kwargs)
 
-- 
2.43.0


From e89cce777110e1a3b7ada9a8083f7cf9713f207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:22 +0000
Subject: [PATCH 059/129] fix: continuous piecewise binning table lacked the
 statistics a binning process reports

---
 .../binning/piecewise/binning_statistics.py   | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/optbinning/binning/piecewise/binning_statistics.py b/optbinning/binning/piecewise/binning_statistics.py
index 9e5f564..ae888a3 100644
--- a/optbinning/binning/piecewise/binning_statistics.py
+++ b/optbinning/binning/piecewise/binning_statistics.py
@@ -14,6 +14,7 @@ import pandas as pd
 from scipy import stats
 
 from ...binning.binning_statistics import _check_build_parameters
+from ...binning.binning_statistics import _check_is_analyzed
 from ...binning.binning_statistics import _check_is_built
 from ...binning.binning_statistics import bin_str_format
 from ...binning.binning_statistics import BinningTable
@@ -464,6 +465,8 @@ class PWContinuousBinningTable:
         self.d_metrics = d_metrics
 
         self._mean = None
+        self._woe = None
+        self._quality_score = None
         self._hhi = None
         self._hhi_norm = None
         self._n_specials = None
@@ -495,6 +498,7 @@ class PWContinuousBinningTable:
         mask = (self.n_records > 0)
         self._mean = np.zeros(len(self.n_records))
         self._mean[mask] = self.sums[mask] / self.n_records[mask]
+        self._woe = np.absolute(self._mean - t_sum / t_n_records).sum()
 
         # Compute HHI
         self._hhi = hhi(p_records)
@@ -688,3 +692,30 @@ class PWContinuousBinningTable:
 
         if print_output:
             print(report)
+
+        self._is_analyzed = True
+
+    @property
+    def woe(self):
+        """The sum of absolute differences between the target mean of each bin
+        and the total target mean.
+
+        Returns
+        -------
+        woe : float
+        """
+        _check_is_built(self)
+
+        return self._woe
+
+    @property
+    def quality_score(self):
+        """The quality score (QS).
+
+        Returns
+        -------
+        quality_score : float
+        """
+        _check_is_analyzed(self)
+
+        return self._quality_score
-- 
2.43.0


From b8b7f45d9bf22b1de2b0da7f117b96c52629d29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:31 +0000
Subject: [PATCH 060/129] fix: transform crashed with special codes given as
 numpy array

---
 optbinning/binning/piecewise/transformations.py | 2 +-
 optbinning/binning/transformations.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index e63fca6..7594fa9 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -34,7 +34,7 @@ def _apply_transform(x, c, lb, ub, special_codes, metric_special,
 
     x_transform[clean_mask] = x_clean_transform
 
-    if special_codes:
+    if special_codes is not None and len(special_codes):
         if isinstance(special_codes, dict):
             xt = pd.Series(x)
             for i, (k, s) in enumerate(special_codes.items()):
diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index 41eae43..6943697 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -197,7 +197,7 @@ def _apply_transform(x, dtype, special_codes, metric, metric_special,
             mask = x_p.isin(bins[i])
             x_transform[mask] = metric_value[i]
 
-    if special_codes:
+    if special_codes is not None and len(special_codes):
         if isinstance(special_codes, dict):
             xt = pd.Series(x)
             for i, (k, s) in enumerate(special_codes.items()):
-- 
2.43.0


From e7b5c996d0a03a58999ca524c14e4de15a4fea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:25 +0000
Subject: [PATCH 061/129] fix: reversed scorecards with PDO/odds scaling missed
 the calibration

---
 optbinning/scorecard/scorecard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 1a44993..09d0dd0 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -133,7 +133,7 @@ def _compute_scorecard_points(points, binning_tables, method, method_data,
         factor = pdo / np.log(2)
         offset = scorecard_points - factor * np.log(odds)
 
-        new_points = -(sense * points + intercept / n) * factor + offset / n
+        new_points = -sense * (points + intercept / n) * factor + offset / n
     elif method == "min_max":
         a = method_data["min"]
         b = method_data["max"]
-- 
2.43.0


From 394056e187d5d2fc9374dec2bfaa01087cd156a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:25 +0000
Subject: [PATCH 062/129] fix: rounded scorecards did not attain the minimum
 and maximum score

---
 optbinning/scorecard/rounding.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/optbinning/scorecard/rounding.py b/optbinning/scorecard/rounding.py
index e74dd52..671a5b3 100644
--- a/optbinning/scorecard/rounding.py
+++ b/optbinning/scorecard/rounding.py
@@ -36,8 +36,8 @@ class RoundingMIP:
         min_point = np.rint(np.sum(mins))
         max_point = np.rint(np.sum(maxs))
 
-        min_p = np.min(mins)
-        max_p = np.max(maxs)
+        min_p = np.floor(np.min(mins))
+        max_p = np.ceil(np.max(maxs))
 
         # Initialize solver
         solver = pywraplp.Solver(
@@ -72,6 +72,10 @@ class RoundingMIP:
                 # Min score constraints for each variable
                 solver.Add(min_b[i] <= p[i, j])
 
+            # The maximum and minimum must be attained
+            solver.Add(max_b[i] == p[i, int(np.argmax(points[i]))])
+            solver.Add(min_b[i] == p[i, int(np.argmin(points[i]))])
+
         # Sum of minimum/maximum point by variable must be min_point/max_point
         solver.Add(solver.Sum([min_b[i] for i in range(nb)]) == min_point)
         solver.Add(solver.Sum([max_b[i] for i in range(nb)]) == max_point)
-- 
2.43.0


From 2798eef5aaa8028fee6051d35de536b23ad5f9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 063/129] fix: scorecard kept the intercept of a previous fit

---
 optbinning/scorecard/scorecard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 09d0dd0..1ac4865 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -624,6 +624,7 @@ class Scorecard(Base, BaseEstimator):
 
             df_scorecard.loc[:, "Points"] = scaled_points
 
+        self.intercept_ = 0
         if self.intercept_based:
             scaled_points, self.intercept_ = _compute_intercept_based(
                 df_scorecard)
-- 
2.43.0


From ec5ccb730ab98b2039ef2998c0b12e25a9e50f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 064/129] fix: scorecard score misread records of variables
 with own transform params

---
 optbinning/scorecard/scorecard.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 1ac4865..db1d134 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -406,17 +406,22 @@ class Scorecard(Base, BaseEstimator):
         score: array of shape (n_samples)
             The score of the input samples.
         """
-        X_t = self._transform(
-            X=X, metric="indices", metric_special="empirical",
-            metric_missing="empirical")
+        self._check_is_fitted()
 
-        score_ = np.zeros(X_t.shape[0])
+        score_ = np.zeros(X.shape[0])
         selected_variables = self.binning_process_.get_support(names=True)
 
         for variable in selected_variables:
             mask = self._df_scorecard.Variable == variable
             points = self._df_scorecard[mask].Points.values
-            score_ += points[X_t[variable]]
+
+            # The points are located by bin, regardless of the transform
+            # parameters of the variable.
+            optb = self.binning_process_.get_binned_variable(variable)
+            indices = optb.transform(
+                X[variable], metric="indices", metric_special="empirical",
+                metric_missing="empirical")
+            score_ += points[indices]
 
         return score_ + self.intercept_
 
-- 
2.43.0


From 4e852e65a9216fbe27ad44be968d1c1e572a6de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 065/129] fix: scorecard points ignored the transform params of
 the variables

---
 optbinning/scorecard/scorecard.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index db1d134..cb96a0c 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -529,10 +529,11 @@ class Scorecard(Base, BaseEstimator):
 
         if self._target_dtype == "binary":
             metric = "woe"
-            bt_metric = "WoE"
         elif self._target_dtype == "continuous":
             metric = "mean"
-            bt_metric = "Mean"
+
+        bt_metrics = {"woe": "WoE", "event_rate": "Event rate",
+                      "mean": "Mean"}
 
         if self.verbose:
             logger.info("Dataset: {} target.".format(self._target_dtype))
@@ -597,21 +598,30 @@ class Scorecard(Base, BaseEstimator):
             binning_table = optb.binning_table.build(
                 show_digits=show_digits, add_totals=False)
             c = coefs[i]
+
+            # Transform parameters of the variable prevail
+            params = (self.binning_process_.binning_transform_params or
+                      {}).get(variable, {})
+            metric_i = params.get("metric", metric)
+            metric_special_i = params.get("metric_special", metric_special)
+            metric_missing_i = params.get("metric_missing", metric_missing)
+
             binning_table.loc[:, "Variable"] = variable
             binning_table.loc[:, "Coefficient"] = c
-            binning_table.loc[:, "Points"] = binning_table[bt_metric] * c
+            binning_table.loc[:, "Points"] = binning_table[
+                bt_metrics[metric_i]] * c
 
             nt = len(binning_table)
-            if metric_special != 'empirical':
+            if metric_special_i != 'empirical':
                 if isinstance(optb.special_codes, dict):
                     n_specials = len(optb.special_codes)
                 else:
                     n_specials = 1
 
                 binning_table.loc[
-                    nt-1-n_specials:nt-2, "Points"] = metric_special * c
-            if metric_missing != 'empirical':
-                binning_table.loc[nt-1, "Points"] = metric_missing * c
+                    nt-1-n_specials:nt-2, "Points"] = metric_special_i * c
+            if metric_missing_i != 'empirical':
+                binning_table.loc[nt-1, "Points"] = metric_missing_i * c
 
             binning_table.index.names = ['Bin id']
             binning_table.reset_index(level=0, inplace=True)
-- 
2.43.0


From d1d309882dcad11caf735282d26268945b021518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 066/129] fix: scorecard gave the points of the missing bin to
 unknown categories

---
 optbinning/scorecard/scorecard.py | 33 +++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index cb96a0c..2515c81 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -10,6 +10,8 @@ import numbers
 import pickle
 import time
 
+from copy import copy
+
 import numpy as np
 import pandas as pd
 
@@ -249,6 +251,7 @@ class Scorecard(Base, BaseEstimator):
 
         self._metric_special = None
         self._metric_missing = None
+        self._points_unknown = None
 
         # auxiliary
         self._target_dtype = None
@@ -416,8 +419,11 @@ class Scorecard(Base, BaseEstimator):
             points = self._df_scorecard[mask].Points.values
 
             # The points are located by bin, regardless of the transform
-            # parameters of the variable.
-            optb = self.binning_process_.get_binned_variable(variable)
+            # parameters of the variable. The last position (index -1)
+            # corresponds to unknown categories.
+            points = np.append(points, self._points_unknown[variable])
+            optb = copy(self.binning_process_.get_binned_variable(variable))
+            optb.set_params(cat_unknown=None)
             indices = optb.transform(
                 X[variable], metric="indices", metric_special="empirical",
                 metric_missing="empirical")
@@ -593,6 +599,7 @@ class Scorecard(Base, BaseEstimator):
 
         selected_variables = self.binning_process_.get_support(names=True)
         binning_tables = []
+        points_unknown = []
         for i, variable in enumerate(selected_variables):
             optb = self.binning_process_.get_binned_variable(variable)
             binning_table = optb.binning_table.build(
@@ -623,12 +630,26 @@ class Scorecard(Base, BaseEstimator):
             if metric_missing_i != 'empirical':
                 binning_table.loc[nt-1, "Points"] = metric_missing_i * c
 
+            # Points of categories not observed during fit
+            if optb.cat_unknown is not None:
+                value_unknown = optb.cat_unknown
+            elif metric_i == "woe":
+                value_unknown = 0
+            elif metric_i == "event_rate":
+                value_unknown = (binning_table["Event"].sum() /
+                                 binning_table["Count"].sum())
+            else:
+                value_unknown = (binning_table["Sum"].sum() /
+                                 binning_table["Count"].sum())
+            points_unknown.append(value_unknown * c)
+
             binning_table.index.names = ['Bin id']
             binning_table.reset_index(level=0, inplace=True)
             binning_tables.append(binning_table)
 
         df_scorecard = pd.concat(binning_tables)
         df_scorecard.reset_index()
+        points_unknown = np.array(points_unknown)
 
         # Apply score points
         if self.scaling_method is not None:
@@ -637,10 +658,16 @@ class Scorecard(Base, BaseEstimator):
                 points, binning_tables, self.scaling_method,
                 self.scaling_method_params, intercept, self.reverse_scorecard)
 
+            points_unknown = _compute_scorecard_points(
+                points_unknown, binning_tables, self.scaling_method,
+                self.scaling_method_params, intercept, self.reverse_scorecard)
+
             df_scorecard.loc[:, "Points"] = scaled_points
 
         self.intercept_ = 0
         if self.intercept_based:
+            points_unknown = points_unknown - df_scorecard.groupby(
+                "Variable").Points.min().loc[selected_variables].values
             scaled_points, self.intercept_ = _compute_intercept_based(
                 df_scorecard)
             df_scorecard.loc[:, "Points"] = scaled_points
@@ -669,9 +696,11 @@ class Scorecard(Base, BaseEstimator):
                     self.intercept_ = np.rint(self.intercept_)
 
             df_scorecard.loc[:, "Points"] = round_points
+            points_unknown = np.rint(points_unknown)
         self._time_rounding = time.perf_counter() - time_rounding
 
         self._df_scorecard = df_scorecard
+        self._points_unknown = dict(zip(selected_variables, points_unknown))
 
         self._time_build_scorecard = time.perf_counter() - time_build_scorecard
         self._time_total = time.perf_counter() - time_init
-- 
2.43.0


From 4020105d49fe989c7a23b64af7c0b5d92635eff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:17 +0000
Subject: [PATCH 067/129] fix: monitoring misread targets given as list or
 pandas Series

---
 optbinning/scorecard/monitoring.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 0226dad..708a157 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -273,6 +273,9 @@ class ScorecardMonitoring(BaseEstimator):
 
         self._target_dtype = target_dtype
 
+        y_actual = np.asarray(y_actual)
+        y_expected = np.asarray(y_expected)
+
         # Check variable names
         if list(X_actual.columns) != list(X_expected.columns):
             raise ValueError("Dataframes X_actual and X_expected must "
-- 
2.43.0


From 9b903dbfe1d174de52ad19df4ac6435e3000a0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:17 +0000
Subject: [PATCH 068/129] fix: monitoring assigned scores equal to a split to
 the wrong PSI bin

---
 optbinning/scorecard/monitoring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 708a157..f2d8898 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -502,8 +502,8 @@ class ScorecardMonitoring(BaseEstimator):
         n_bins = len(splits) + 1
 
         # Compute basic metrics
-        indices_a = np.digitize(score_actual, splits, right=True)
-        indices_e = np.digitize(score_expected, splits, right=True)
+        indices_a = np.digitize(score_actual, splits, right=False)
+        indices_e = np.digitize(score_expected, splits, right=False)
 
         if self._target_dtype == "binary":
             n_nonevent_a = np.empty(n_bins, dtype=np.int64)
-- 
2.43.0


From d9ff32c32f529571903a00461c628e29da8015c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:17 +0000
Subject: [PATCH 069/129] fix: monitoring crashed with PSI bins without events
 or non-events

---
 optbinning/scorecard/monitoring.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index f2d8898..3586688 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -622,7 +622,11 @@ class ScorecardMonitoring(BaseEstimator):
                 [n_nonevent_a[i], n_nonevent_e[i]],
                 [n_event_a[i], n_event_e[i]]])
 
-            t, p, _, _ = stats.chi2_contingency(obs, correction=False)
+            if obs.sum(axis=0).all() and obs.sum(axis=1).all():
+                t, p, _, _ = stats.chi2_contingency(obs, correction=False)
+            else:
+                # The test is undefined without records, events or non-events
+                t, p = np.nan, np.nan
 
             t_statistics.append(t)
             p_values.append(p)
-- 
2.43.0


From 19ed69c27d7661554e960ee7de3389fa3487f0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:17 +0000
Subject: [PATCH 070/129] fix: PSI was undefined with bins without records

---
 optbinning/scorecard/monitoring.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 3586688..a16f740 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -70,6 +70,15 @@ def _check_parameters(scorecard, psi_method, psi_n_bins,
         raise TypeError("verbose must be a boolean; got {}.".format(verbose))
 
 
+def _psi(p_records_a, p_records_e):
+    psi = jeffrey(p_records_a, p_records_e, return_sum=False)
+
+    # Bins without records do not contribute
+    psi[(p_records_a == 0) & (p_records_e == 0)] = 0
+
+    return psi
+
+
 def print_psi_report(df_psi):
     t_psi = df_psi.PSI.values[-1]
     psi = df_psi.PSI.values[:-1]
@@ -588,7 +597,7 @@ class ScorecardMonitoring(BaseEstimator):
         p_records_a = n_records_a / t_n_records_a
         p_records_e = n_records_e / t_n_records_e
 
-        psi = jeffrey(p_records_a, p_records_e, return_sum=False)
+        psi = _psi(p_records_a, p_records_e)
 
         df_psi = pd.DataFrame({
             "Bin": bin_str,
@@ -805,7 +814,7 @@ class ScorecardMonitoring(BaseEstimator):
             p_records_a = n_records_a / t_n_records_a
             p_records_e = n_records_e / t_n_records_e
 
-            psi = jeffrey(p_records_a, p_records_e, return_sum=False)
+            psi = _psi(p_records_a, p_records_e)
             bins = sc_table[sc_table.Variable == name]["Bin"].values[:n_bins]
 
             df_psi = pd.DataFrame({
-- 
2.43.0


From b440a68a73e0548660de6ae5d71006e915b7417b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:17 +0000
Subject: [PATCH 071/129] fix: PSI of the variables counted special, missing
 and unseen bins in the first bin or omitted them

---
 optbinning/scorecard/monitoring.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index a16f740..9211ef4 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -8,6 +8,8 @@ Scorecard monitoring (System stability report)
 import numbers
 import time
 
+from copy import copy
+
 import matplotlib.pyplot as plt
 import matplotlib.ticker as mtick
 import numpy as np
@@ -797,10 +799,14 @@ class ScorecardMonitoring(BaseEstimator):
 
         for name in variables:
             optb = self.scorecard.binning_process_.get_binned_variable(name)
-            ta = optb.transform(X_actual[name], metric="indices")
-            te = optb.transform(X_expected[name], metric="indices")
+            optb = copy(optb).set_params(cat_unknown=None)
+            params = {"metric": "indices", "metric_special": "empirical",
+                      "metric_missing": "empirical"}
+            ta = optb.transform(X_actual[name], **params)
+            te = optb.transform(X_expected[name], **params)
 
-            n_bins = te.max() + 1
+            bins = sc_table[sc_table.Variable == name]["Bin"].values
+            n_bins = len(bins)
 
             n_records_a = np.empty(n_bins, dtype=np.int64)
             n_records_e = np.empty(n_bins, dtype=np.int64)
@@ -815,7 +821,6 @@ class ScorecardMonitoring(BaseEstimator):
             p_records_e = n_records_e / t_n_records_e
 
             psi = _psi(p_records_a, p_records_e)
-            bins = sc_table[sc_table.Variable == name]["Bin"].values[:n_bins]
 
             df_psi = pd.DataFrame({
                 "Variable": [name] * n_bins,
-- 
2.43.0


From 5d7c395a856b611c29867b9a7c5b103d8120b73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:51 +0000
Subject: [PATCH 072/129] fix: counterfactual generation crashed when all
 variables have the same number of bins

---
 optbinning/scorecard/counterfactual/mip.py       |  7 +++----
 optbinning/scorecard/counterfactual/multi_mip.py | 11 +++++------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index f9f84e3..ba81a64 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -198,10 +198,9 @@ class CFMIP:
             else:
                 status_name = "FEASIBLE"
 
-            solution = np.array([np.array([self._z[i, j].solution_value()
-                                           for j in range(self._nbins[i])]
-                                          ).astype(bool)
-                                 for i in range(self._p)], dtype=object)
+            solution = [np.array([self._z[i, j].solution_value() > 0.5
+                                  for j in range(self._nbins[i])], dtype=bool)
+                        for i in range(self._p)]
         else:
             if status == pywraplp.Solver.ABNORMAL:
                 status_name = "ABNORMAL"
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index d42d8e5..bc8b191 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -237,12 +237,11 @@ class MCFMIP(CFMIP):
             else:
                 status_name = "FEASIBLE"
 
-            solution = np.array(
-                [np.array(
-                    [np.array([self._z[k, i, j].solution_value()
-                               for j in range(self._nbins[i])]).astype(bool)
-                     for i in range(self._p)], dtype=object)
-                 for k in range(self.K)], dtype=object)
+            solution = [
+                [np.array([self._z[k, i, j].solution_value() > 0.5
+                           for j in range(self._nbins[i])], dtype=bool)
+                 for i in range(self._p)]
+                for k in range(self.K)]
         else:
             if status == pywraplp.Solver.ABNORMAL:
                 status_name = "ABNORMAL"
-- 
2.43.0


From 3f6c7d3f92898cc0b993cca4f3b5ce7517c49970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:51 +0000
Subject: [PATCH 073/129] fix: counterfactuals without the proximity objective
 did not reach the outcome

---
 optbinning/scorecard/counterfactual/mip.py    | 23 +++++++++++-------
 .../scorecard/counterfactual/multi_mip.py     | 24 ++++++++++++-------
 2 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index ba81a64..6e0379c 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -71,10 +71,12 @@ class CFMIP:
         solver.Minimize(solver.Sum([weights[name] * objs[name]
                                     for name in names]))
 
+        # Constraint: counterfactual values
+        self.add_constraint_values(solver, p, x, nbins, metric, x_p, z)
+
         # Constraint: proximity
         if "proximity" in self.objectives:
-            self.add_constraint_proximity(
-                solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+            self.add_constraint_proximity(solver, p, x, x_p, t_p, t_m)
 
         # Constraint: closeness
         if "closeness" in self.objectives:
@@ -146,10 +148,12 @@ class CFMIP:
                     solver.Add(d_p[i] - d_m[i] == objs[pobj_name] - pobj_val)
                     solver.Add(d_p[i] + d_m[i] <= self.priority_tol * absval)
 
+            # Constraint: counterfactual values
+            self.add_constraint_values(solver, p, x, nbins, metric, x_p, z)
+
             # Constraint: proximity
             if "proximity" in self.objectives:
-                self.add_constraint_proximity(
-                    solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+                self.add_constraint_proximity(solver, p, x, x_p, t_p, t_m)
 
             # Constraint: closeness
             if "closeness" in self.objectives:
@@ -258,16 +262,17 @@ class CFMIP:
 
         return x_p, t_p, t_m, m_p, m_m, a, z, q_p, q_m, h, s, f
 
-    def add_constraint_proximity(self, solver, p, x, nbins, metric, x_p, t_p,
-                                 t_m, z):
+    def add_constraint_values(self, solver, p, x, nbins, metric, x_p, z):
         for i in range(p):
-            # Absolute value
-            solver.Add(t_p[i] - t_m[i] == x[i] - x_p[i])
-
             # Compute x'
             solver.Add(x_p[i] == x[i] + solver.Sum([
                 (metric[i][j] - x[i]) * z[i, j] for j in range(nbins[i])]))
 
+    def add_constraint_proximity(self, solver, p, x, x_p, t_p, t_m):
+        for i in range(p):
+            # Absolute value
+            solver.Add(t_p[i] - t_m[i] == x[i] - x_p[i])
+
     def add_constraint_closeness(self, solver, p, F, mu, x_p, m_p, m_m):
         # Mahalanobis distance l1-norm
         for i in range(p):
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index bc8b191..b3695d2 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -54,10 +54,12 @@ class MCFMIP(CFMIP):
 
         # Constraints
         for k in range(self.K):
+            # Constraint: counterfactual values
+            self.add_constraint_values(solver, p, x, nbins, metric, x_p, z)
+
             # Constraint: proximity
             if "proximity" in self.objectives:
-                self.add_constraint_proximity(
-                    solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+                self.add_constraint_proximity(solver, p, x, x_p, t_p, t_m)
 
             # Constraint: closeness
             if "closeness" in self.objectives:
@@ -157,10 +159,12 @@ class MCFMIP(CFMIP):
 
             # Constraints
             for k in range(self.K):
+                # Constraint: counterfactual values
+                self.add_constraint_values(solver, p, x, nbins, metric, x_p, z)
+
                 # Constraint: proximity
                 if "proximity" in self.objectives:
-                    self.add_constraint_proximity(
-                        solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+                    self.add_constraint_proximity(solver, p, x, x_p, t_p, t_m)
 
                 # Constraint: closeness
                 if "closeness" in self.objectives:
@@ -315,18 +319,20 @@ class MCFMIP(CFMIP):
 
         return x_p, t_p, t_m, m_p, m_m, a, z, q_p, q_m, h, s, f, u, d
 
-    def add_constraint_proximity(self, solver, p, x, nbins, metric, x_p, t_p,
-                                 t_m, z):
+    def add_constraint_values(self, solver, p, x, nbins, metric, x_p, z):
         for k in range(self.K):
             for i in range(p):
-                # Absolute value
-                solver.Add(t_p[k, i] - t_m[k, i] == x[i] - x_p[k, i])
-
                 # Compute x'
                 solver.Add(x_p[k, i] == x[i] + solver.Sum(
                     [(metric[i][j] - x[i]) * z[k, i, j]
                      for j in range(nbins[i])]))
 
+    def add_constraint_proximity(self, solver, p, x, x_p, t_p, t_m):
+        for k in range(self.K):
+            for i in range(p):
+                # Absolute value
+                solver.Add(t_p[k, i] - t_m[k, i] == x[i] - x_p[k, i])
+
     def add_constraint_closeness(self, solver, p, F, mu, x_p, m_p, m_m):
         # Mahalanobis distance l1-norm
         for k in range(self.K):
-- 
2.43.0


From c0d3fc01f8ef7c0e65d1d7daeede7eee43ad041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:51 +0000
Subject: [PATCH 074/129] fix: counterfactuals misread special and missing
 values and variables with own transform params

---
 .../scorecard/counterfactual/counterfactual.py    |  4 +++-
 optbinning/scorecard/counterfactual/model_data.py | 13 ++++++++-----
 .../scorecard/counterfactual/problem_data.py      | 14 ++++----------
 optbinning/scorecard/scorecard.py                 | 15 ++++++++++-----
 4 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/counterfactual.py b/optbinning/scorecard/counterfactual/counterfactual.py
index 485f7b7..0fd300e 100644
--- a/optbinning/scorecard/counterfactual/counterfactual.py
+++ b/optbinning/scorecard/counterfactual/counterfactual.py
@@ -618,7 +618,9 @@ class Counterfactual(BaseCounterfactual):
             query = pd.DataFrame.from_dict(query, orient="index").T
 
         x = self.scorecard.binning_process_.transform(
-            query[self._variable_names]).values.ravel()
+            query[self._variable_names],
+            metric_special=self.scorecard._metric_special,
+            metric_missing=self.scorecard._metric_missing).values.ravel()
 
         return x, query
 
diff --git a/optbinning/scorecard/counterfactual/model_data.py b/optbinning/scorecard/counterfactual/model_data.py
index 2220286..dfb569a 100644
--- a/optbinning/scorecard/counterfactual/model_data.py
+++ b/optbinning/scorecard/counterfactual/model_data.py
@@ -9,18 +9,21 @@ Counterfactual model data.
 def model_data(scorecard, x, special_missing):
     s_vars = scorecard.binning_process_.get_support(names=True)
 
-    sc = scorecard.table(style="detailed")
-    metric_name = "WoE" if scorecard._target_dtype == "binary" else "Mean"
-
     # Number of bins, metric and indices
     nbins = []
     metric = []
     indices = []
     for i, v in enumerate(s_vars):
-        metric_i = sc[sc.Variable == v][metric_name].values
+        metric_i = scorecard._metric_values[v]
 
         if not special_missing:
-            metric_i = metric_i[:-2]
+            optb = scorecard.binning_process_.get_binned_variable(v)
+            if isinstance(optb.special_codes, dict):
+                n_specials = len(optb.special_codes)
+            else:
+                n_specials = 1
+
+            metric_i = metric_i[:-1-n_specials]
 
         _metric = []
         _indices = []
diff --git a/optbinning/scorecard/counterfactual/problem_data.py b/optbinning/scorecard/counterfactual/problem_data.py
index 2b0131b..e0c9ac4 100644
--- a/optbinning/scorecard/counterfactual/problem_data.py
+++ b/optbinning/scorecard/counterfactual/problem_data.py
@@ -12,14 +12,6 @@ def problem_data(scorecard, X):
     s_vars = X.columns
     n_vars = X.shape[1]
 
-    # Scorecard table
-    sc = scorecard.table(style="detailed")
-
-    if scorecard._target_dtype == "binary":
-        sc["Points"] = sc["WoE"] * sc["Coefficient"]
-    else:
-        sc["Points"] = sc["Mean"] * sc["Coefficient"]
-
     # Linear model coefficients
 
     # Only index into the intercept if it is an array, it is a scalar otherwise
@@ -37,7 +29,7 @@ def problem_data(scorecard, X):
     wrange = np.empty(n_vars)
 
     for i, v in enumerate(s_vars):
-        v_points = sc[sc["Variable"] == v]["Points"]
+        v_points = scorecard._metric_values[v] * coef[i]
         _min = np.min(v_points)
         _max = np.max(v_points)
         min_p += _min
@@ -49,7 +41,9 @@ def problem_data(scorecard, X):
     max_p += intercept
 
     # Mahalanobis distance
-    Xt = scorecard.binning_process_.transform(X).values
+    Xt = scorecard.binning_process_.transform(
+        X, metric_special=scorecard._metric_special,
+        metric_missing=scorecard._metric_missing).values
     F = np.linalg.cholesky(np.linalg.inv(np.cov(Xt.T)))
     mu = Xt.mean(axis=0)
 
diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 2515c81..64bc15e 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -252,6 +252,7 @@ class Scorecard(Base, BaseEstimator):
         self._metric_special = None
         self._metric_missing = None
         self._points_unknown = None
+        self._metric_values = None
 
         # auxiliary
         self._target_dtype = None
@@ -600,6 +601,7 @@ class Scorecard(Base, BaseEstimator):
         selected_variables = self.binning_process_.get_support(names=True)
         binning_tables = []
         points_unknown = []
+        self._metric_values = {}
         for i, variable in enumerate(selected_variables):
             optb = self.binning_process_.get_binned_variable(variable)
             binning_table = optb.binning_table.build(
@@ -615,8 +617,9 @@ class Scorecard(Base, BaseEstimator):
 
             binning_table.loc[:, "Variable"] = variable
             binning_table.loc[:, "Coefficient"] = c
-            binning_table.loc[:, "Points"] = binning_table[
-                bt_metrics[metric_i]] * c
+
+            # Metric of each bin as used by the estimator
+            values = binning_table[bt_metrics[metric_i]].astype(float).values
 
             nt = len(binning_table)
             if metric_special_i != 'empirical':
@@ -625,10 +628,12 @@ class Scorecard(Base, BaseEstimator):
                 else:
                     n_specials = 1
 
-                binning_table.loc[
-                    nt-1-n_specials:nt-2, "Points"] = metric_special_i * c
+                values[nt-1-n_specials:nt-1] = metric_special_i
             if metric_missing_i != 'empirical':
-                binning_table.loc[nt-1, "Points"] = metric_missing_i * c
+                values[nt-1] = metric_missing_i
+
+            self._metric_values[variable] = values
+            binning_table.loc[:, "Points"] = values * c
 
             # Points of categories not observed during fit
             if optb.cat_unknown is not None:
-- 
2.43.0


From a2ae1b8cfb43ee3c61d371cc34143498330a6107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 075/129] fix: counterfactuals reported the bin of the query as
 a change

---
 optbinning/scorecard/counterfactual/model_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/optbinning/scorecard/counterfactual/model_data.py b/optbinning/scorecard/counterfactual/model_data.py
index dfb569a..73d315b 100644
--- a/optbinning/scorecard/counterfactual/model_data.py
+++ b/optbinning/scorecard/counterfactual/model_data.py
@@ -5,6 +5,8 @@ Counterfactual model data.
 # Guillermo Navas-Palencia <g.navas.palencia@gmail.com>
 # Copyright (C) 2021
 
+import numpy as np
+
 
 def model_data(scorecard, x, special_missing):
     s_vars = scorecard.binning_process_.get_support(names=True)
@@ -28,7 +30,8 @@ def model_data(scorecard, x, special_missing):
         _metric = []
         _indices = []
         for j, m in enumerate(metric_i):
-            if m != x[i]:
+            # Bins with the metric of the query are no change
+            if not np.isclose(m, x[i], rtol=1e-9, atol=1e-12):
                 _indices.append(j)
                 _metric.append(m)
 
-- 
2.43.0


From 5e94a6758ace3026005a2f34c8e5349ba8898983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:20 +0000
Subject: [PATCH 076/129] fix: counterfactuals reported infeasible problems
 with null coefficients

---
 optbinning/scorecard/counterfactual/problem_data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/optbinning/scorecard/counterfactual/problem_data.py b/optbinning/scorecard/counterfactual/problem_data.py
index e0c9ac4..1e352c6 100644
--- a/optbinning/scorecard/counterfactual/problem_data.py
+++ b/optbinning/scorecard/counterfactual/problem_data.py
@@ -35,7 +35,13 @@ def problem_data(scorecard, X):
         min_p += _min
         max_p += _max
 
-        wrange[i] = 1.0 / (_max - _min)
+        # If the points are constant (e.g., null coefficient) use the range of
+        # the metric.
+        _range = _max - _min
+        if _range == 0:
+            _range = np.ptp(scorecard._metric_values[v])
+
+        wrange[i] = 1.0 / _range if _range > 0 else 0
 
     min_p += intercept
     max_p += intercept
-- 
2.43.0


From 0633e394d28bd71b8c7ecf1a2183001bb73a5b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:14 +0000
Subject: [PATCH 077/129] fix: merging GK sketches lost the number of records
 and exceeded the error

---
 optbinning/binning/distributed/gk.py | 55 ++++++++++++++++------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/optbinning/binning/distributed/gk.py b/optbinning/binning/distributed/gk.py
index 42fe854..84bcd92 100644
--- a/optbinning/binning/distributed/gk.py
+++ b/optbinning/binning/distributed/gk.py
@@ -94,45 +94,52 @@ class GK:
             self.copy(gk)
             return
 
-        entries = []
-        spread = int(gk.eps * (gk.n - 1))
-        gk.merge_compress()
+        # Combine both summaries. The rank bounds of an entry are the sum of
+        # its bounds in its summary and those in the other summary, given by
+        # the next entry of the latter. This preserves the number of records
+        # and the error eps.
+        self.merge_compress()
 
-        # upper bound elements(gk.v0, gk.v1) - spread
-        g = gk.entries[0].g + gk.entries[0].delta - 1 - spread
+        other = GK(gk.eps)
+        other.copy(gk)
+        other.merge_compress()
 
-        if g > 0:
-            entries.append(Entry(gk._min, g, 0))
+        entries = []
+        i = 0
+        j = 0
+        n_self = len(self.entries)
+        n_other = len(other.entries)
+
+        while i < n_self or j < n_other:
+            if j == n_other or (i < n_self and self.entries[i].value
+                                <= other.entries[j].value):
+                t = self.entries[i]
+                tn = other.entries[j] if j < n_other else None
+                i += 1
+            else:
+                t = other.entries[j]
+                tn = self.entries[i] if i < n_self else None
+                j += 1
 
-        n_gk = len(gk)
-        for i in range(n_gk - 1):
-            tp1 = gk.entries[i + 1]
-            t = gk.entries[i]
-            g = tp1.g + (tp1.delta - t.delta)
-            if g > 0:
-                entries.append(Entry(t.value, g, 0))
+            delta = t.delta
+            if tn is not None:
+                delta += tn.g + tn.delta - 1
 
-        last_t = gk.entries[n_gk - 1]
-        g = spread + 1 - last_t.delta
-        if g > 0:
-            entries.append(Entry(last_t.value, g, 0))
+            entries.append(Entry(t.value, t.g, delta))
 
+        self.entries = entries
         self._count += gk._count
         self._min = min(self._min, gk._min)
         self._max = max(self._max, gk._max)
         self._sum += gk._sum
 
-        self.merge_compress(entries)
+        self.merge_compress()
 
-    def merge_compress(self, entries=[]):
+    def merge_compress(self):
         """Compress sketch."""
         remove_threshold = float(2.0 * self.eps * (self._count - 1))
 
         incoming = [Entry(value, 1, 0) for value in self.incoming]
-
-        if len(entries):
-            incoming.extend(Entry(e.value, e.g, e.delta) for e in entries)
-
         incoming = sorted(incoming, key=lambda e: e.value)
 
         merged = []
-- 
2.43.0


From 08582bf8933dd3ea5b5fe44686cdfee74f62177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:31 +0000
Subject: [PATCH 078/129] fix: binning sketch counted values equal to a split
 in the previous bin

---
 optbinning/binning/distributed/bsketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index d75a10f..74e8788 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -58,7 +58,7 @@ def _indices_count(sketch_type, sketch, splits):
             values[i] = centroid.mean
             count[i] = centroid.count
 
-    indices = np.searchsorted(splits, values, side='left')
+    indices = np.searchsorted(splits, values, side='right')
     return indices, count
 
 
-- 
2.43.0


From 412c186cc5882cd8dd08078def1079355735c23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:31 +0000
Subject: [PATCH 079/129] fix: merging binning sketches without clean values
 lost missing and special records

---
 optbinning/binning/distributed/bsketch.py | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index 74e8788..0597394 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -184,13 +184,6 @@ class BSketch:
         if not self._mergeable(bsketch):
             raise Exception("bsketch does not share signature.")
 
-        if bsketch._sketch_e.n == 0 and bsketch._sketch_ne.n == 0:
-            return
-
-        if self._sketch_e.n == 0 and self._sketch_ne.n == 0:
-            self._copy(bsketch)
-            return
-
         # Merge sketches
         if self.sketch == "gk":
             self._sketch_e.merge(bsketch._sketch_e)
@@ -217,16 +210,6 @@ class BSketch:
 
         return new_sketch
 
-    def _copy(self, bsketch):
-        self._sketch_e = bsketch._sketch_e
-        self._sketch_ne = bsketch._sketch_ne
-
-        # Merge missing and special counts
-        self._count_missing_e = bsketch._count_missing_e
-        self._count_missing_ne = bsketch._count_missing_ne
-        self._count_special_e = bsketch._count_special_e
-        self._count_special_ne = bsketch._count_special_ne
-
     def _mergeable(self, other):
         special_eq = True
         if self.special_codes is not None and other.special_codes is not None:
-- 
2.43.0


From 587d74f5574e51569bd928c59c6683a38cce3b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:31 +0000
Subject: [PATCH 080/129] fix: adding data to a merged categorical sketch
 altered the merged-in sketch

---
 optbinning/binning/distributed/bsketch.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index 0597394..3920f5e 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -378,13 +378,16 @@ class BCatSketch:
             BCatSketch instance.
         """
 
+        if not self._mergeable(bcatsketch):
+            raise Exception("bcatsketch does not share signature.")
+
         # Merge categories
         for k, v in bcatsketch._d_categories.items():
             if k in self._d_categories:
                 self._d_categories[k][0] += v[0]
                 self._d_categories[k][1] += v[1]
             else:
-                self._d_categories[k] = v
+                self._d_categories[k] = list(v)
 
         # Merge missing and special counts
         self._count_missing_e += bcatsketch._count_missing_e
@@ -392,13 +395,6 @@ class BCatSketch:
         self._count_special_e += bcatsketch._count_special_e
         self._count_special_ne += bcatsketch._count_special_ne
 
-    def _copy(self, bcatsketch):
-        self._d_categories = bcatsketch._d_categories
-        self._count_missing_e = bcatsketch._count_missing_e
-        self._count_missing_ne = bcatsketch._count_missing_ne
-        self._count_special_e = bcatsketch._count_special_e
-        self._count_special_ne = bcatsketch._count_special_ne
-
     def _mergeable(self, other):
         special_eq = True
         if self.special_codes is not None and other.special_codes is not None:
-- 
2.43.0


From b55c396a8cbd0668d7588d8135cd372cb7821e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:31 +0000
Subject: [PATCH 081/129] fix: sketches with and without special codes were
 mergeable

---
 optbinning/binning/distributed/bsketch.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index 3920f5e..65265cc 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -43,6 +43,10 @@ def _check_parameters(sketch, eps, K, special_codes):
             raise TypeError("special_codes must be a list or numpy.ndarray.")
 
 
+def _special_codes_set(special_codes):
+    return set() if special_codes is None else set(special_codes)
+
+
 def _indices_count(sketch_type, sketch, splits):
     values = np.zeros(len(sketch))
     count = np.zeros(len(sketch))
@@ -211,9 +215,8 @@ class BSketch:
         return new_sketch
 
     def _mergeable(self, other):
-        special_eq = True
-        if self.special_codes is not None and other.special_codes is not None:
-            special_eq = set(self.special_codes) == set(other.special_codes)
+        special_eq = (_special_codes_set(self.special_codes) ==
+                      _special_codes_set(other.special_codes))
 
         return (self.sketch == other.sketch and self.eps == other.eps and
                 self.K == other.K and special_eq)
@@ -396,9 +399,8 @@ class BCatSketch:
         self._count_special_ne += bcatsketch._count_special_ne
 
     def _mergeable(self, other):
-        special_eq = True
-        if self.special_codes is not None and other.special_codes is not None:
-            special_eq = set(self.special_codes) == set(other.special_codes)
+        special_eq = (_special_codes_set(self.special_codes) ==
+                      _special_codes_set(other.special_codes))
 
         return special_eq
 
-- 
2.43.0


From aff1f2f13c1fdc6df80ad7ce3d32442aab75363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:59 +0000
Subject: [PATCH 082/129] fix: merging sketches without data crashed and merges
 were not counted

---
 .../distributed/binning_process_sketch.py     | 115 ++++++++++--------
 .../binning/distributed/binning_sketch.py     |  21 ++--
 2 files changed, 77 insertions(+), 59 deletions(-)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 8ad0f06..8a55d1b 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -293,55 +293,7 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
         self : BinningProcessSketch
             Binning process with new data.
         """
-        if not self._is_started:
-            self._n_samples = 0
-            self._n_variables = len(self.variable_names)
-
-            if self.categorical_variables is not None:
-                self._n_categorical = len(self.categorical_variables)
-            else:
-                self._n_categorical = 0
-
-            self._n_numerical = self._n_variables - self._n_categorical
-
-            # Check selection criteria
-            if self.selection_criteria is not None:
-                _check_selection_criteria(self.selection_criteria,
-                                          self._target_dtype)
-
-            # Initialize bsketch for each variable. To avoid mixed dtypes
-            # the user must provide a dtype for all variables. This differs
-            # from the BinningProcess, where dtypes are inferred.
-            for name in self.variable_names:
-                if (self.categorical_variables is not None and
-                        name in self.categorical_variables):
-                    dtype = "categorical"
-                else:
-                    dtype = "numerical"
-
-                optb = OptimalBinningSketch(
-                        name=name, dtype=dtype,
-                        max_n_prebins=self.max_n_prebins,
-                        min_n_bins=self.min_n_bins,
-                        max_n_bins=self.max_n_bins,
-                        min_bin_size=self.min_bin_size,
-                        max_bin_size=self.max_bin_size,
-                        max_pvalue=self.max_pvalue,
-                        max_pvalue_policy=self.max_pvalue_policy,
-                        special_codes=self.special_codes,
-                        split_digits=self.split_digits)
-
-                if self.binning_fit_params is not None:
-                    params = self.binning_fit_params.get(name, {})
-                else:
-                    params = {}
-
-                optb.set_params(**params)
-
-                self._variable_dtypes[name] = dtype
-                self._binned_variables[name] = optb
-
-            self._is_started = True
+        self._start()
 
         # Add new data stream
         time_add = time.perf_counter()
@@ -424,9 +376,15 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
         if not self.mergeable(bpsketch):
             raise Exception("bpsketch does not share signature.")
 
-        for name in self.variable_names:
-            self._binned_variables[name].merge(
-                bpsketch._binned_variables[name])
+        if bpsketch._is_started:
+            self._start()
+
+            for name in self.variable_names:
+                self._binned_variables[name].merge(
+                    bpsketch._binned_variables[name])
+
+            self._n_samples += bpsketch._n_samples
+            self._n_add += bpsketch._n_add
 
         if self.verbose:
             logger.info("Sketch: current sketch was merged.")
@@ -640,3 +598,56 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
             return np.asarray(self.variable_names)[mask]
         else:
             return mask
+
+    def _start(self):
+        if self._is_started:
+            return
+
+        self._n_samples = 0
+        self._n_variables = len(self.variable_names)
+
+        if self.categorical_variables is not None:
+            self._n_categorical = len(self.categorical_variables)
+        else:
+            self._n_categorical = 0
+
+        self._n_numerical = self._n_variables - self._n_categorical
+
+        # Check selection criteria
+        if self.selection_criteria is not None:
+            _check_selection_criteria(self.selection_criteria,
+                                      self._target_dtype)
+
+        # Initialize bsketch for each variable. To avoid mixed dtypes
+        # the user must provide a dtype for all variables. This differs
+        # from the BinningProcess, where dtypes are inferred.
+        for name in self.variable_names:
+            if (self.categorical_variables is not None and
+                    name in self.categorical_variables):
+                dtype = "categorical"
+            else:
+                dtype = "numerical"
+
+            optb = OptimalBinningSketch(
+                    name=name, dtype=dtype,
+                    max_n_prebins=self.max_n_prebins,
+                    min_n_bins=self.min_n_bins,
+                    max_n_bins=self.max_n_bins,
+                    min_bin_size=self.min_bin_size,
+                    max_bin_size=self.max_bin_size,
+                    max_pvalue=self.max_pvalue,
+                    max_pvalue_policy=self.max_pvalue_policy,
+                    special_codes=self.special_codes,
+                    split_digits=self.split_digits)
+
+            if self.binning_fit_params is not None:
+                params = self.binning_fit_params.get(name, {})
+            else:
+                params = {}
+
+            optb.set_params(**params)
+
+            self._variable_dtypes[name] = dtype
+            self._binned_variables[name] = optb
+
+        self._is_started = True
diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 06243d5..70b91c3 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -472,12 +472,7 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         check_input : bool (default=False)
             Whether to check input arrays.
         """
-        if self._bsketch is None:
-            if self.dtype == "numerical":
-                self._bsketch = BSketch(self.sketch, self.eps, self.K,
-                                        self.special_codes)
-            else:
-                self._bsketch = BCatSketch(self.cat_cutoff, self.special_codes)
+        self._init_bsketch()
 
         # Add new data stream
         time_add = time.perf_counter()
@@ -541,7 +536,11 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         if not self.mergeable(optbsketch):
             raise Exception("optbsketch does not share signature.")
 
-        self._bsketch.merge(optbsketch._bsketch)
+        if optbsketch._bsketch is not None:
+            self._init_bsketch()
+
+            self._bsketch.merge(optbsketch._bsketch)
+            self._n_add += optbsketch._n_add
 
         if self.verbose:
             logger.info("Sketch: current sketch was merged.")
@@ -699,6 +698,14 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
                                        metric, metric_special, metric_missing,
                                        None, show_digits, check_input)
 
+    def _init_bsketch(self):
+        if self._bsketch is None:
+            if self.dtype == "numerical":
+                self._bsketch = BSketch(self.sketch, self.eps, self.K,
+                                        self.special_codes)
+            else:
+                self._bsketch = BCatSketch(self.cat_cutoff, self.special_codes)
+
     def _prebinning_data(self):
         self._n_nonevent_missing = self._bsketch._count_missing_ne
         self._n_nonevent_special = self._bsketch._count_special_ne
-- 
2.43.0


From b1e6eb984c32481589c48a37a1afe71f549ee8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:15 +0000
Subject: [PATCH 083/129] fix: merging sketches with array parameters crashed

---
 .../binning/distributed/binning_process_sketch.py      |  3 ++-
 optbinning/binning/distributed/binning_sketch.py       |  4 ++--
 optbinning/binning/distributed/bsketch.py              | 10 ++++++++++
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 8a55d1b..5560c11 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -24,6 +24,7 @@ from .base import BaseSketch
 from .binning_process_sketch_information import (
     print_binning_process_sketch_information)
 from .binning_sketch import OptimalBinningSketch
+from .bsketch import _equal_params
 
 
 logger = Logger(__name__).logger
@@ -401,7 +402,7 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
         -------
         mergeable : bool
         """
-        return self.get_params() == bpsketch.get_params()
+        return _equal_params(self.get_params(), bpsketch.get_params())
 
     def solve(self):
         """Solve optimal binning for all variables using added data.
diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 70b91c3..1269b06 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -25,7 +25,7 @@ from ...binning.transformations import transform_binary_target
 from ...information import solver_statistics
 from ...logging import Logger
 from .base import BaseSketch
-from .bsketch import BSketch, BCatSketch
+from .bsketch import _equal_params, BSketch, BCatSketch
 from .bsketch_information import print_binning_information
 from .plots import plot_progress_divergence
 
@@ -557,7 +557,7 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         -------
         mergeable : bool
         """
-        return self.get_params() == optbsketch.get_params()
+        return _equal_params(self.get_params(), optbsketch.get_params())
 
     def plot_progress(self):
         """Plot divergence measure progress."""
diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index 65265cc..7819b05 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -43,6 +43,16 @@ def _check_parameters(sketch, eps, K, special_codes):
             raise TypeError("special_codes must be a list or numpy.ndarray.")
 
 
+def _equal_params(a, b):
+    """Whether two parameters, possibly including arrays, are equal."""
+    if isinstance(a, dict) and isinstance(b, dict):
+        return (a.keys() == b.keys() and
+                all(_equal_params(a[k], b[k]) for k in a))
+
+    return np.array_equal(np.asarray(a, dtype=object),
+                          np.asarray(b, dtype=object))
+
+
 def _special_codes_set(special_codes):
     return set() if special_codes is None else set(special_codes)
 
-- 
2.43.0


From 99c5aea0bdfdb860bb9e8f073c9d6092c0d9b9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:15 +0000
Subject: [PATCH 084/129] fix: binning sketch with a single bin crashed or
 counted missing and special records twice

---
 optbinning/binning/distributed/binning_sketch.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 1269b06..ffff3d1 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -610,10 +610,6 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
 
         time_postprocessing = time.perf_counter()
 
-        if not len(splits):
-            n_nonevent = np.array([self._t_n_nonevent])
-            n_event = np.array([self._t_n_event])
-
         self._n_nonevent, self._n_event = bin_info(
             self._solution, n_nonevent, n_event, self._n_nonevent_missing,
             self._n_event_missing, self._n_nonevent_special,
@@ -751,6 +747,9 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         self._n_refinements = 0
 
         n_event, n_nonevent = self._bsketch.bins(splits)
+        if not len(splits):
+            return splits, n_nonevent, n_event
+
         mask_remove = (n_nonevent == 0) | (n_event == 0)
 
         if np.any(mask_remove):
@@ -769,6 +768,9 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
 
     def _compute_cat_prebins(self, splits, categories, n_nonevent, n_event):
         self._n_refinements = 0
+        if not len(splits):
+            return splits, categories, n_nonevent, n_event
+
         mask_remove = (n_nonevent == 0) | (n_event == 0)
 
         if self.cat_heuristic and len(categories) > self.max_n_prebins:
@@ -820,6 +822,8 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
 
         if len(n_nonevent) <= 1:
             self._status = "OPTIMAL"
+            self._optimizer, self._time_optimizer = None, 0
+            self._time_solver = 0
             self._splits_optimal = splits
             self._solution = np.zeros(len(splits)).astype(bool)
 
-- 
2.43.0


From eee6c361643325b4b46f2e9bf3421979e6e64300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 085/129] fix: categorical binning sketch mixed up the
 categories in repeated refinements

---
 .../binning/distributed/binning_sketch.py     | 62 +++++++++----------
 1 file changed, 28 insertions(+), 34 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index ffff3d1..764cdd5 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -735,9 +735,8 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
             self._n_nonevent_cat_others = n_nonevent_others
             self._n_event_cat_others = n_event_others
 
-            [splits, categories, n_nonevent,
-             n_event] = self._compute_cat_prebins(splits, categories,
-                                                  n_nonevent, n_event)
+            splits, n_nonevent, n_event = self._compute_cat_prebins(
+                splits, categories, n_nonevent, n_event)
 
         self._splits_prebinning = splits
 
@@ -768,51 +767,46 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
 
     def _compute_cat_prebins(self, splits, categories, n_nonevent, n_event):
         self._n_refinements = 0
-        if not len(splits):
-            return splits, categories, n_nonevent, n_event
 
-        mask_remove = (n_nonevent == 0) | (n_event == 0)
+        # Records of each category
+        n_nonevent_cat = n_nonevent
+        n_event_cat = n_event
 
-        if self.cat_heuristic and len(categories) > self.max_n_prebins:
-            n_records = n_nonevent + n_event
-            mask_size = n_records < self._bsketch.n / self.max_n_prebins
-            mask_remove |= mask_size
+        while len(splits):
+            mask_remove = (n_nonevent == 0) | (n_event == 0)
 
-        if np.any(mask_remove):
-            if self.divergence in ("hellinger", "triangular"):
-                self._flag_min_n_event_nonevent = True
+            if np.any(mask_remove):
+                if self.divergence in ("hellinger", "triangular"):
+                    self._flag_min_n_event_nonevent = True
+                    mask_remove = np.zeros(len(n_event), dtype=bool)
 
-                if self.cat_heuristic:
-                    mask_remove = mask_size
-            else:
-                self._n_refinements += 1
+            if self.cat_heuristic and len(n_event) > self.max_n_prebins:
+                n_records = n_nonevent + n_event
+                mask_size = n_records < self._bsketch.n / self.max_n_prebins
+                mask_remove |= mask_size
+
+            if not np.any(mask_remove):
+                break
+
+            self._n_refinements += 1
 
             mask_splits = np.concatenate(
                 [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
             splits = splits[~mask_splits]
 
-            splits_int = np.ceil(splits).astype(int)
-            indices = np.digitize(np.arange(len(categories)), splits_int,
-                                  right=False)
-            n_bins = len(splits) + 1
+            indices = np.digitize(np.arange(len(categories)),
+                                  np.ceil(splits).astype(int), right=False)
 
-            new_nonevent = np.empty(n_bins, dtype=np.int64)
-            new_event = np.empty(n_bins, dtype=np.int64)
-            new_categories = []
+            n_bins = len(splits) + 1
+            n_nonevent = np.empty(n_bins, dtype=np.int64)
+            n_event = np.empty(n_bins, dtype=np.int64)
             for i in range(n_bins):
                 mask = (indices == i)
-                new_categories.append(categories[mask])
-                new_nonevent[i] = n_nonevent[mask].sum()
-                new_event[i] = n_event[mask].sum()
+                n_nonevent[i] = n_nonevent_cat[mask].sum()
+                n_event[i] = n_event_cat[mask].sum()
 
-            new_categories = np.array(new_categories, dtype=object)
-
-            [splits, categories, n_nonevent,
-             n_event] = self._compute_cat_prebins(
-                splits, new_categories, new_nonevent, new_event)
-
-        return splits, categories, n_nonevent, n_event
+        return splits, n_nonevent, n_event
 
     def _fit_optimizer(self, splits, n_nonevent, n_event):
         if self.verbose:
-- 
2.43.0


From de637044488b2c1bb22a7a89555d21c53d26326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 086/129] fix: binning sketch with hellinger and triangular
 divergence kept empty prebins and outdated bounds

---
 optbinning/binning/distributed/binning_sketch.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 764cdd5..e873549 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -703,6 +703,8 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
                 self._bsketch = BCatSketch(self.cat_cutoff, self.special_codes)
 
     def _prebinning_data(self):
+        self._flag_min_n_event_nonevent = False
+
         self._n_nonevent_missing = self._bsketch._count_missing_ne
         self._n_nonevent_special = self._bsketch._count_special_ne
         self._n_event_missing = self._bsketch._count_missing_e
@@ -752,9 +754,13 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         mask_remove = (n_nonevent == 0) | (n_event == 0)
 
         if np.any(mask_remove):
-            if self.divergence in ("hellinger", "triangular"):
+            if (self.divergence in ("hellinger", "triangular") and
+                    np.any(n_nonevent) and np.any(n_event)):
+                # Pure prebins are valid, but prebins without records are not.
                 self._flag_min_n_event_nonevent = True
-            else:
+                mask_remove = (n_nonevent == 0) & (n_event == 0)
+
+            if np.any(mask_remove):
                 self._n_refinements += 1
 
                 mask_splits = np.concatenate(
@@ -776,7 +782,8 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
             mask_remove = (n_nonevent == 0) | (n_event == 0)
 
             if np.any(mask_remove):
-                if self.divergence in ("hellinger", "triangular"):
+                if (self.divergence in ("hellinger", "triangular") and
+                        np.any(n_nonevent) and np.any(n_event)):
                     self._flag_min_n_event_nonevent = True
                     mask_remove = np.zeros(len(n_event), dtype=bool)
 
-- 
2.43.0


From 9c28b60ffc3a172beadb997d0df4dc569c4423eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 087/129] fix: binning sketch ignored split_digits

---
 optbinning/binning/distributed/binning_sketch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index e873549..cbc4d38 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -727,6 +727,9 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
                 splits = np.array([sketch_all.percentile(p)
                                    for p in percentiles[1:-1]])
 
+            if self.split_digits is not None:
+                splits = np.round(splits, self.split_digits)
+
             splits, n_nonevent, n_event = self._compute_prebins(splits)
         else:
             [splits, categories, n_nonevent, n_event, cat_others,
-- 
2.43.0


From c76c6a3b6840e078035267786c5b6c0915418b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 088/129] fix: binning sketch counted records twice with all
 categories in others

---
 optbinning/binning/distributed/binning_sketch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index cbc4d38..385f5a4 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -735,6 +735,11 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
             [splits, categories, n_nonevent, n_event, cat_others,
              n_nonevent_others, n_event_others] = self._bsketch.bins()
 
+            if not len(categories) and len(cat_others):
+                raise ValueError("All categories moved to others' bin. At "
+                                 "least one category is needed to perform "
+                                 "binning.")
+
             self._categories = categories
             self._cat_others = cat_others
             self._n_nonevent_cat_others = n_nonevent_others
-- 
2.43.0


From ef211fc44c5622626bccf73653da93acd0ed541b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 089/129] fix: binning process sketch rejected metrics indices
 and bins

---
 optbinning/binning/distributed/binning_process_sketch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 5560c11..915bf35 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -487,9 +487,10 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
         n_samples, n_variables = X.shape
 
         # Check metric
-        if metric not in ("event_rate", "woe"):
+        if metric not in ("event_rate", "woe", "indices", "bins"):
             raise ValueError('Invalid value for metric. Allowed string '
-                             'values are "event_rate" and "woe".')
+                             'values are "event_rate", "woe", "indices" and '
+                             '"bins".')
 
         mask = self.get_support()
         if not mask.any():
-- 
2.43.0


From 91672435983a83fd1102ac1a9de82e1720f30b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 090/129] fix: binning process sketch transform lost the index
 of the dataframe

---
 optbinning/binning/distributed/binning_process_sketch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 915bf35..322af20 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -542,7 +542,8 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
 
             X_transform[:, i] = optb.transform(**tparams)
 
-        return pd.DataFrame(X_transform, columns=selected_variables)
+        return pd.DataFrame(
+            X_transform, columns=selected_variables, index=X.index)
 
     def get_binned_variable(self, name):
         """Return optimal binning sketch object for a given variable name.
-- 
2.43.0


From d5dd6c6253e14d0a621b4be11aa819f92149d179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:55 +0000
Subject: [PATCH 091/129] fix: binning process sketch transform with mixed
 metrics

---
 .../binning/distributed/binning_process_sketch.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 322af20..e26de37 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -507,10 +507,21 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
 
         n_selected_variables = len(selected_variables)
 
-        if metric == "indices":
+        # Check whether binning transform metrics are compatible
+        metrics = set(
+            (self.binning_transform_params or {}).get(name, {}).get(
+                "metric", metric) for name in selected_variables)
+
+        if len(metrics) > 1 and "bins" in metrics:
+            raise ValueError(
+                "metric 'bins' cannot be mixed with numeric metrics.")
+
+        base_metric = metrics.pop() if len(metrics) == 1 else None
+
+        if base_metric == "indices":
             X_transform = np.full(
                 (n_samples, n_selected_variables), -1, dtype=int)
-        elif metric == "bins":
+        elif base_metric == "bins":
             X_transform = np.full(
                 (n_samples, n_selected_variables), "", dtype=object)
         else:
-- 
2.43.0


From a5d7270cde9fafed50976a86860808e057ed8968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:17 +0000
Subject: [PATCH 092/129] fix: to_json failed for many models and read_json did
 not restore the model

---
 optbinning/binning/base.py               | 58 ++++++++++++++++++++++
 optbinning/binning/binning.py            | 45 ++++++++++-------
 optbinning/binning/continuous_binning.py | 62 +++++++++++++++---------
 optbinning/binning/multiclass_binning.py | 34 ++++++++-----
 4 files changed, 147 insertions(+), 52 deletions(-)

diff --git a/optbinning/binning/base.py b/optbinning/binning/base.py
index c658c23..1d34662 100644
--- a/optbinning/binning/base.py
+++ b/optbinning/binning/base.py
@@ -5,13 +5,71 @@ Base optimal binning algorithm class.
 # Guillermo Navas-Palencia <g.navas.palencia@gmail.com>
 # Copyright (C) 2020
 
+import json
+
 from abc import ABCMeta
 from abc import abstractmethod
 
+import numpy as np
+
 from sklearn.base import BaseEstimator
 from sklearn.exceptions import NotFittedError
 
 
+def _json_encode(value):
+    """Convert numpy arrays and scalars to Python objects, recursively."""
+    if isinstance(value, np.ndarray):
+        value = value.tolist()
+    elif isinstance(value, np.generic):
+        return value.item()
+
+    if isinstance(value, (list, tuple)):
+        return [_json_encode(v) for v in value]
+    elif isinstance(value, dict):
+        return {k: _json_encode(v) for k, v in value.items()}
+
+    return value
+
+
+def _json_decode(value):
+    """Convert a list, possibly of lists, to a numpy array of values."""
+    if not isinstance(value, list):
+        return value
+
+    value = [_json_decode(v) for v in value]
+
+    if set(map(type, value)) in ({int}, {float}):
+        return np.array(value)
+
+    array = np.empty(len(value), dtype=object)
+    for i, v in enumerate(value):
+        array[i] = v
+
+    return array
+
+
+def _write_json(path, attributes):
+    with open(path, "w") as write_file:
+        json.dump(_json_encode(attributes), write_file)
+
+
+def _read_json(path, arrays, values):
+    """Read attributes: ``arrays`` are the names of the numeric arrays and
+    ``values`` those of the arrays of values of the variable."""
+    with open(path, "r") as read_file:
+        attributes = json.load(read_file)
+
+    for key in arrays:
+        attributes[key] = np.array(attributes[key])
+
+    attributes["splits"] = np.array(attributes["splits"], dtype=float)
+
+    for key in values:
+        attributes[key] = _json_decode(attributes[key])
+
+    return attributes
+
+
 class Base:
     def _check_is_fitted(self):
         if not self._is_fitted:
diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 7aab0c7..3b876bf 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -12,12 +12,12 @@ import numpy as np
 
 from sklearn.utils import check_array
 
-import json
-
 from ..information import solver_statistics
 from ..logging import Logger
 from .auto_monotonic import auto_monotonic
 from .auto_monotonic import peak_valley_trend_change_heuristic
+from .base import _read_json
+from .base import _write_json
 from .base import BaseOptimalBinning
 from .binning_information import print_binning_information
 from .binning_statistics import bin_categorical
@@ -1220,13 +1220,10 @@ class OptimalBinning(BaseOptimalBinning):
         opt_bin_dict['dtype'] = table.dtype
         opt_bin_dict['special_codes'] = table.special_codes
 
-        if table.dtype == 'numerical':
-            opt_bin_dict['splits'] = table.splits.tolist()
-        elif table.dtype == 'categorical':
-            opt_bin_dict['splits'] = [split.tolist() for split in table.splits]
+        opt_bin_dict['splits'] = table.splits
 
-        opt_bin_dict['n_nonevent'] = table.n_nonevent.tolist()
-        opt_bin_dict['n_event'] = table.n_event.tolist()
+        opt_bin_dict['n_nonevent'] = table.n_nonevent
+        opt_bin_dict['n_event'] = table.n_event
 
         opt_bin_dict['min_x'] = table.min_x
         opt_bin_dict['max_x'] = table.max_x
@@ -1234,8 +1231,10 @@ class OptimalBinning(BaseOptimalBinning):
         opt_bin_dict['cat_others'] = table.cat_others
         opt_bin_dict['user_splits'] = table.user_splits
 
-        with open(path, "w") as write_file:
-            json.dump(opt_bin_dict, write_file)
+        opt_bin_dict['cat_unknown'] = self.cat_unknown
+        opt_bin_dict['status'] = self._status
+
+        _write_json(path, opt_bin_dict)
 
     def read_json(self, path):
         """
@@ -1246,13 +1245,25 @@ class OptimalBinning(BaseOptimalBinning):
         ----------
         path: The path of the json file.
         """
-        self._is_fitted = True
+        bin_table_attr = _read_json(
+            path, arrays=("n_nonevent", "n_event"),
+            values=("categories", "cat_others", "user_splits"))
 
-        with open(path, "r") as read_file:
-            bin_table_attr = json.load(read_file)
+        self.cat_unknown = bin_table_attr.pop("cat_unknown", self.cat_unknown)
+        self._status = bin_table_attr.pop("status", None)
 
-        for key in bin_table_attr.keys():
-            if isinstance(bin_table_attr[key], list):
-                bin_table_attr[key] = np.array(bin_table_attr[key])
+        table = BinningTable(**bin_table_attr)
 
-        self._binning_table = BinningTable(**bin_table_attr)
+        self.name = table.name
+        self.dtype = table.dtype
+        self.special_codes = table.special_codes
+        self.user_splits = table.user_splits
+
+        self._splits_optimal = table.splits
+        self._n_nonevent = table.n_nonevent
+        self._n_event = table.n_event
+        self._categories = table.categories
+        self._cat_others = table.cat_others
+
+        self._binning_table = table
+        self._is_fitted = True
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index cef2dc7..3b3c497 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -7,7 +7,6 @@ Optimal binning algorithm for continuous target.
 
 import numbers
 import time
-import json
 
 from sklearn.utils import check_array
 
@@ -17,6 +16,8 @@ from ..information import solver_statistics
 from ..logging import Logger
 from .auto_monotonic import auto_monotonic_continuous
 from .auto_monotonic import peak_valley_trend_change_heuristic
+from .base import _read_json
+from .base import _write_json
 from .binning import OptimalBinning
 from .binning_statistics import continuous_bin_info
 from .binning_statistics import ContinuousBinningTable
@@ -1021,17 +1022,14 @@ class ContinuousOptimalBinning(OptimalBinning):
         opt_bin_dict['dtype'] = table.dtype
         opt_bin_dict['special_codes'] = table.special_codes
 
-        if table.dtype == 'numerical':
-            opt_bin_dict['splits'] = table.splits.tolist()
-        elif table.dtype == 'categorical':
-            opt_bin_dict['splits'] = [split.tolist() for split in table.splits]
+        opt_bin_dict['splits'] = table.splits
 
-        opt_bin_dict['n_records'] = table.n_records.tolist()
-        opt_bin_dict['sums'] = table.sums.tolist()
-        opt_bin_dict['stds'] = table.stds.tolist()
-        opt_bin_dict['min_target'] = table.min_target.tolist()
-        opt_bin_dict['max_target'] = table.max_target.tolist()
-        opt_bin_dict['n_zeros'] = table.n_zeros.tolist()
+        opt_bin_dict['n_records'] = table.n_records
+        opt_bin_dict['sums'] = table.sums
+        opt_bin_dict['stds'] = table.stds
+        opt_bin_dict['min_target'] = table.min_target
+        opt_bin_dict['max_target'] = table.max_target
+        opt_bin_dict['n_zeros'] = table.n_zeros
 
         opt_bin_dict['min_x'] = table.min_x
         opt_bin_dict['max_x'] = table.max_x
@@ -1039,8 +1037,10 @@ class ContinuousOptimalBinning(OptimalBinning):
         opt_bin_dict['cat_others'] = table.cat_others
         opt_bin_dict['user_splits'] = table.user_splits
 
-        with open(path, "w") as write_file:
-            json.dump(opt_bin_dict, write_file)
+        opt_bin_dict['cat_unknown'] = self.cat_unknown
+        opt_bin_dict['status'] = self._status
+
+        _write_json(path, opt_bin_dict)
 
     def read_json(self, path):
         """
@@ -1054,13 +1054,31 @@ class ContinuousOptimalBinning(OptimalBinning):
         if path is None:
             raise ValueError('Specify the path for the json file.')
 
+        cont_table_attr = _read_json(
+            path, arrays=("n_records", "sums", "stds", "min_target",
+                          "max_target", "n_zeros"),
+            values=("categories", "cat_others", "user_splits"))
+
+        self.cat_unknown = cont_table_attr.pop("cat_unknown",
+                                               self.cat_unknown)
+        self._status = cont_table_attr.pop("status", None)
+
+        table = ContinuousBinningTable(**cont_table_attr)
+
+        self.name = table.name
+        self.dtype = table.dtype
+        self.special_codes = table.special_codes
+        self.user_splits = table.user_splits
+
+        self._splits_optimal = table.splits
+        self._n_records = table.n_records
+        self._sums = table.sums
+        self._stds = table.stds
+        self._min_target = table.min_target
+        self._max_target = table.max_target
+        self._n_zeros = table.n_zeros
+        self._categories = table.categories
+        self._cat_others = table.cat_others
+
+        self._binning_table = table
         self._is_fitted = True
-
-        with open(path, "r") as read_file:
-            cont_table_attr = json.load(read_file)
-
-        for key in cont_table_attr.keys():
-            if isinstance(cont_table_attr[key], list):
-                cont_table_attr[key] = np.array(cont_table_attr[key])
-
-        self._binning_table = ContinuousBinningTable(**cont_table_attr)
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index 3046f1a..34400b0 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -7,7 +7,6 @@ Optimal binning algorithm for multiclass target.
 
 import numbers
 import time
-import json
 
 import numpy as np
 
@@ -17,6 +16,8 @@ from ..information import solver_statistics
 from ..logging import Logger
 from .auto_monotonic import auto_monotonic
 from .auto_monotonic import peak_valley_trend_change_heuristic
+from .base import _read_json
+from .base import _write_json
 from .binning import OptimalBinning
 from .binning_statistics import multiclass_bin_info
 from .binning_statistics import MulticlassBinningTable
@@ -914,12 +915,13 @@ class MulticlassOptimalBinning(OptimalBinning):
         opt_bin_dict['name'] = table.name
         opt_bin_dict['special_codes'] = table.special_codes
 
-        opt_bin_dict['splits'] = table.splits.tolist()
-        opt_bin_dict['n_event'] = table.n_event.tolist()
-        opt_bin_dict['classes'] = table.classes.tolist()
+        opt_bin_dict['splits'] = table.splits
+        opt_bin_dict['n_event'] = table.n_event
+        opt_bin_dict['classes'] = table.classes
 
-        with open(path, "w") as write_file:
-            json.dump(opt_bin_dict, write_file)
+        opt_bin_dict['status'] = self._status
+
+        _write_json(path, opt_bin_dict)
 
     def read_json(self, path):
         """
@@ -933,13 +935,19 @@ class MulticlassOptimalBinning(OptimalBinning):
         if path is None:
             raise ValueError('Specify the path for the json file.')
 
-        self._is_fitted = True
+        multi_table_attr = _read_json(
+            path, arrays=("n_event",), values=("classes",))
+
+        self._status = multi_table_attr.pop("status", None)
 
-        with open(path, "r") as read_file:
-            multi_table_attr = json.load(read_file)
+        table = MulticlassBinningTable(**multi_table_attr)
 
-        for key in multi_table_attr.keys():
-            if isinstance(multi_table_attr[key], list):
-                multi_table_attr[key] = np.array(multi_table_attr[key])
+        self.name = table.name
+        self.special_codes = table.special_codes
 
-        self._binning_table = MulticlassBinningTable(**multi_table_attr)
+        self._splits_optimal = table.splits
+        self._n_event = table.n_event
+        self._classes = table.classes
+
+        self._binning_table = table
+        self._is_fitted = True
-- 
2.43.0


From 73a8cdeaed96091bf0880aaa673b7a049a3224de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:47 +0000
Subject: [PATCH 093/129] fix: continuous piecewise binning kept the missing
 statistics of an earlier fit

---
 optbinning/binning/piecewise/continuous_binning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optbinning/binning/piecewise/continuous_binning.py b/optbinning/binning/piecewise/continuous_binning.py
index 52b6406..f9d8f6b 100644
--- a/optbinning/binning/piecewise/continuous_binning.py
+++ b/optbinning/binning/piecewise/continuous_binning.py
@@ -362,6 +362,10 @@ class ContinuousOptimalPWBinning(BasePWBinning):
             self._std_missing = np.std(y_missing)
             self._min_target_missing = np.min(y_missing)
             self._max_target_missing = np.max(y_missing)
+        else:
+            self._std_missing = None
+            self._min_target_missing = None
+            self._max_target_missing = None
 
         bt = self._optb.binning_table.build(add_totals=False)
         n_records = bt["Count"].values[:-2]
-- 
2.43.0


From 0ce245632da925485a686315c6215bf63a291fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:20 +0000
Subject: [PATCH 094/129] fix: cart 2D binning missed adjacent rectangles in
 the monotonicity constraints

---
 optbinning/binning/multidimensional/model_data_cart_2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multidimensional/model_data_cart_2d.py b/optbinning/binning/multidimensional/model_data_cart_2d.py
index fb2c71c..40992ea 100644
--- a/optbinning/binning/multidimensional/model_data_cart_2d.py
+++ b/optbinning/binning/multidimensional/model_data_cart_2d.py
@@ -180,11 +180,11 @@ def model_data_cart(tree, divergence, NE, E, monotonicity_x, monotonicity_y,
                                     cols[r].append(n_rectangles)
 
                                 if monotonicity_x is not None:
-                                    out = np.array([G[M]])
+                                    out = G[M].reshape(-1, max(sc))
                                     outer_x.append(list(out[:, -1]))
 
                                 if monotonicity_y is not None:
-                                    out = np.array([G[M]])
+                                    out = G[M].reshape(-1, max(sc))
                                     outer_y.append(list(out[-1, :]))
 
                                 rows.append(row)
@@ -298,11 +298,11 @@ def continuous_model_data_cart(tree, R, S, SS, monotonicity_x, monotonicity_y,
                                     cols[r].append(n_rectangles)
 
                                 if monotonicity_x is not None:
-                                    out = np.array([G[M]])
+                                    out = G[M].reshape(-1, max(sc))
                                     outer_x.append(list(out[:, -1]))
 
                                 if monotonicity_y is not None:
-                                    out = np.array([G[M]])
+                                    out = G[M].reshape(-1, max(sc))
                                     outer_y.append(list(out[-1, :]))
 
                                 rows.append(row)
-- 
2.43.0


From 1e384470bd51ea7582a8c2eaf4543d5e23d667ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:32 +0000
Subject: [PATCH 095/129] fix: binning table plots with add_special=False drew
 the special row's value and label for missing

---
 optbinning/binning/binning_statistics.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 9743bff..5990203 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -780,7 +780,7 @@ class BinningTable:
                 handle_missing = mpatches.Patch(hatch="\\", alpha=0.1)
                 label_missing = "Bin missing"
 
-                ax2.plot(pos_missing, metric_values[pos_missing], marker="o",
+                ax2.plot(pos_missing, metric_values[-1], marker="o",
                          color="black")
 
             if add_special and add_missing:
@@ -803,7 +803,8 @@ class BinningTable:
                     bin_str = self._bin_str
 
                 if not add_special:
-                    bin_str = bin_str[:-2] + [bin_str[-1]]
+                    bin_str = (bin_str[:-(self._n_specials + 1)] +
+                               [bin_str[-1]])
 
                 if not add_missing:
                     bin_str = bin_str[:-1]
@@ -1350,7 +1351,7 @@ class MulticlassBinningTable:
             label_missing = "Bin missing"
 
             for i, cl in enumerate(self.classes):
-                ax2.plot(pos_missing, metric_values[pos_missing, i],
+                ax2.plot(pos_missing, metric_values[-1, i],
                          marker="o", color=colors[i])
 
         if add_special and add_missing:
@@ -1369,7 +1370,8 @@ class MulticlassBinningTable:
         if show_bin_labels:
             bin_str = self._bin_str
             if not add_special:
-                bin_str = bin_str[:-2] + [bin_str[-1]]
+                bin_str = (bin_str[:-(self._n_specials + 1)] +
+                           [bin_str[-1]])
 
             if not add_missing:
                 bin_str = bin_str[:-1]
@@ -1861,7 +1863,7 @@ class ContinuousBinningTable:
                 handle_missing = mpatches.Patch(hatch="\\", alpha=0.1)
                 label_missing = "Bin missing"
 
-                ax2.plot(pos_missing, metric_values[pos_missing], marker="o",
+                ax2.plot(pos_missing, metric_values[-1], marker="o",
                          color="black")
 
             if add_special and add_missing:
@@ -1884,7 +1886,8 @@ class ContinuousBinningTable:
                     bin_str = self._bin_str
 
                 if not add_special:
-                    bin_str = bin_str[:-2] + [bin_str[-1]]
+                    bin_str = (bin_str[:-(self._n_specials + 1)] +
+                               [bin_str[-1]])
 
                 if not add_missing:
                     bin_str = bin_str[:-1]
-- 
2.43.0


From 6aa2f059936b860d0107d52477c390005792bd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:32 +0000
Subject: [PATCH 096/129] fix: psi_plot failed when the scores have a single
 PSI bin

---
 optbinning/scorecard/monitoring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 9211ef4..1681f23 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -446,7 +446,7 @@ class ScorecardMonitoring(BaseEstimator):
 
         n_bins = len(self._n_records_a)
         indices = np.arange(n_bins)
-        width = np.min(np.diff(indices))/3
+        width = 1 / 3
 
         p_records_a = self._n_records_a / self._n_records_a.sum() * 100.0
         p_records_e = self._n_records_e / self._n_records_e.sum() * 100.0
-- 
2.43.0


From 84c03a4051ba3066005771eb5fc5b9a65c38caee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:38 +0000
Subject: [PATCH 097/129] fix: MDLP accepted x and y of different lengths

---
 optbinning/binning/mdlp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optbinning/binning/mdlp.py b/optbinning/binning/mdlp.py
index 1611d9f..f01ec06 100644
--- a/optbinning/binning/mdlp.py
+++ b/optbinning/binning/mdlp.py
@@ -13,6 +13,7 @@ from scipy import special
 from sklearn.base import BaseEstimator
 from sklearn.exceptions import NotFittedError
 from sklearn.utils import check_array
+from sklearn.utils import check_consistent_length
 
 
 def _check_parameters(min_samples_split, min_samples_leaf, max_candidates):
@@ -101,6 +102,7 @@ class MDLP(BaseEstimator):
 
         x = check_array(x, ensure_2d=False, force_all_finite=True)
         y = check_array(y, ensure_2d=False, force_all_finite=True)
+        check_consistent_length(x, y)
 
         idx = np.argsort(x)
         x = x[idx]
-- 
2.43.0


From 82ce3b27fac2b240cd67810703eb6079366813f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:38 +0000
Subject: [PATCH 098/129] fix: BSketch accepted eps outside [0, 1]

---
 optbinning/binning/distributed/bsketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index 7819b05..9b150a1 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -30,7 +30,7 @@ def _check_parameters(sketch, eps, K, special_codes):
                           'install optbinning using pip install '
                           'optbinning[distributed]')
 
-    if not isinstance(eps, numbers.Number) and not 0 <= eps <= 1:
+    if not isinstance(eps, numbers.Number) or not 0 <= eps <= 1:
         raise ValueError("eps must be a value in [0, 1]; got {}."
                          .format(eps))
 
-- 
2.43.0


From 7852c84b89cf864a65a6d9f35cad1fa45dca2b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:57 +0000
Subject: [PATCH 099/129] fix: sketches failed with the documented eps=0

---
 optbinning/binning/distributed/gk.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/distributed/gk.py b/optbinning/binning/distributed/gk.py
index 84bcd92..96fb5c5 100644
--- a/optbinning/binning/distributed/gk.py
+++ b/optbinning/binning/distributed/gk.py
@@ -52,7 +52,11 @@ class GK:
         self._count = 0
         self._sum = 0
 
-        self._compress_threshold = int(1.0 / self.eps) + 1
+        # eps=0 is the exact sketch
+        if self.eps > 0:
+            self._compress_threshold = int(1.0 / self.eps) + 1
+        else:
+            self._compress_threshold = np.inf
 
     def __len__(self):
         if len(self.incoming):
-- 
2.43.0


From 9581b4242974a946f0514bfd0d1cd09966d08a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:48 +0000
Subject: [PATCH 100/129] fix: analysis of 2D binning tables ran on unbuilt
 tables and ignored invalid arguments

---
 .../multidimensional/binning_statistics_2d.py      | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/optbinning/binning/multidimensional/binning_statistics_2d.py b/optbinning/binning/multidimensional/binning_statistics_2d.py
index 5225575..f1b77b1 100644
--- a/optbinning/binning/multidimensional/binning_statistics_2d.py
+++ b/optbinning/binning/multidimensional/binning_statistics_2d.py
@@ -5,6 +5,8 @@ Optimal binning algorithm 2D.
 # Guillermo Navas-Palencia <g.navas.palencia@gmail.com>
 # Copyright (C) 2021
 
+import numbers
+
 import matplotlib.pyplot as plt
 import numpy as np
 import pandas as pd
@@ -482,6 +484,16 @@ class BinningTable2D(BinningTable):
         `scipy.stats.fisher_exact <https://docs.scipy.org/doc/scipy/reference/
         generated/scipy.stats.fisher_exact.html>`_.
         """
+        _check_is_built(self)
+
+        if pvalue_test not in ("chi2", "fisher"):
+            raise ValueError('Invalid value for pvalue_test. Allowed string '
+                             'values are "chi2" and "fisher".')
+
+        if not isinstance(n_samples, numbers.Integral) or n_samples <= 0:
+            raise ValueError("n_samples must be a positive integer; got {}."
+                             .format(n_samples))
+
         # Pairs
         pairs = get_pairs(self._paths_x, self._paths_y)
 
@@ -851,6 +863,8 @@ class ContinuousBinningTable2D(ContinuousBinningTable):
         the total target mean, :math:`r_i` is the number of records for each
         bin, and :math:`r_T` is the total number of records.
         """
+        _check_is_built(self)
+
         # Pairs
         pairs = get_pairs(self._paths_x, self._paths_y)
 
-- 
2.43.0


From 5f27562b40fa9f5addb8473ba6c9ac8c201662d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:10 +0000
Subject: [PATCH 101/129] fix: the MIP solvers and counterfactuals failed with
 a fractional time_limit

---
 optbinning/binning/mip.py                        | 2 +-
 optbinning/binning/multidimensional/mip_2d.py    | 2 +-
 optbinning/scorecard/counterfactual/mip.py       | 2 +-
 optbinning/scorecard/counterfactual/multi_mip.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index 7980523..c978087 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -178,7 +178,7 @@ class BinningMIP:
         self._x = x
 
     def solve(self):
-        self.solver_.SetTimeLimit(self.time_limit * 1000)
+        self.solver_.SetTimeLimit(int(self.time_limit * 1000))
         status = self.solver_.Solve()
 
         # BOP reports trivially infeasible models as optimal.
diff --git a/optbinning/binning/multidimensional/mip_2d.py b/optbinning/binning/multidimensional/mip_2d.py
index baff229..77243c3 100644
--- a/optbinning/binning/multidimensional/mip_2d.py
+++ b/optbinning/binning/multidimensional/mip_2d.py
@@ -85,7 +85,7 @@ class Binning2DMIP:
 
     def solve(self):
         # Solve
-        self.solver_.SetTimeLimit(self.time_limit * 1000)
+        self.solver_.SetTimeLimit(int(self.time_limit * 1000))
         self.solver_.SetNumThreads(self.n_jobs)
         status = self.solver_.Solve()
 
diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index 6e0379c..9bef5e0 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -192,7 +192,7 @@ class CFMIP:
                     pre_objs[name] = self._objectives[name].solution_value()
 
     def solve(self):
-        self.solver_.SetTimeLimit(self.time_limit * 1000)
+        self.solver_.SetTimeLimit(int(self.time_limit * 1000))
         self.solver_.SetNumThreads(self.n_jobs)
         status = self.solver_.Solve()
 
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index b3695d2..0d3399c 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -231,7 +231,7 @@ class MCFMIP(CFMIP):
                     pre_objs[name] = self._objectives[name].solution_value()
 
     def solve(self):
-        self.solver_.SetTimeLimit(self.time_limit * 1000)
+        self.solver_.SetTimeLimit(int(self.time_limit * 1000))
         self.solver_.SetNumThreads(self.n_jobs)
         status = self.solver_.Solve()
 
-- 
2.43.0


From 64ab6fa3015dcf0a135bbcb52c07229625627815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:08 +0000
Subject: [PATCH 102/129] fix: outlier detectors raised AttributeError when
 used before fit

---
 optbinning/binning/outlier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optbinning/binning/outlier.py b/optbinning/binning/outlier.py
index b28df6e..a89dbe3 100644
--- a/optbinning/binning/outlier.py
+++ b/optbinning/binning/outlier.py
@@ -21,6 +21,8 @@ class OutlierDetector:
         # flag
         self._is_fitted = False
 
+    _is_fitted = False
+
     def fit(self, x, y=None):
         """Fit outlier detector.
 
-- 
2.43.0


From c0b7a08baab68ec83321f4bfa7d3e4f074ad4de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:49 +0000
Subject: [PATCH 103/129] fix: piecewise divergences were divided by the number
 of special groups

---
 optbinning/binning/piecewise/metrics.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/optbinning/binning/piecewise/metrics.py b/optbinning/binning/piecewise/metrics.py
index fbfb8b1..b743b88 100644
--- a/optbinning/binning/piecewise/metrics.py
+++ b/optbinning/binning/piecewise/metrics.py
@@ -22,12 +22,12 @@ from .transformations import transform_continuous_target
 
 
 def _fun_divergence(fun, n, pi, qi, pi_special, qi_special, pi_missing,
-                    qi_missing, flag_special, flag_missing, n_special):
+                    qi_missing, flag_special, flag_missing):
 
     div_value = fun(pi, qi, return_sum=True) / n
 
     if flag_special:
-        div_value += fun(pi_special, qi_special, return_sum=True) / n_special
+        div_value += fun(pi_special, qi_special, return_sum=True)
 
     if flag_missing:
         div_value += fun([pi_missing], [qi_missing])
@@ -46,14 +46,12 @@ def divergences_asymptotic(event_rate, n_nonevent_special, n_event_special,
     qi = event_rate / p
 
     if isinstance(n_event_special, (np.ndarray, list)):
-        n_special = n_event_special.size
         mask = (n_event_special > 0) & (n_nonevent_special > 0)
         flag_special = np.any(mask)
 
         pi_special = n_nonevent_special[mask] / t_n_nonevent
         qi_special = n_event_special[mask] / t_n_event
     else:
-        n_special = 1
         flag_special = (n_event_special > 0 and n_nonevent_special > 0)
         pi_special = n_nonevent_special / t_n_nonevent
         qi_special = n_event_special / t_n_event
@@ -66,19 +64,19 @@ def divergences_asymptotic(event_rate, n_nonevent_special, n_event_special,
 
     d_divergences["IV (Jeffrey)"] = _fun_divergence(
         jeffrey, n, pi, qi, pi_special, qi_special, pi_missing, qi_missing,
-        flag_special, flag_missing, n_special)
+        flag_special, flag_missing)
 
     d_divergences["JS (Jensen-Shannon)"] = _fun_divergence(
         jensen_shannon, n, pi, qi, pi_special, qi_special, pi_missing,
-        qi_missing, flag_special, flag_missing, n_special)
+        qi_missing, flag_special, flag_missing)
 
     d_divergences["Hellinger"] = _fun_divergence(
         hellinger, n, pi, qi, pi_special, qi_special, pi_missing, qi_missing,
-        flag_special, flag_missing, n_special)
+        flag_special, flag_missing)
 
     d_divergences["Triangular"] = _fun_divergence(
         triangular, n, pi, qi, pi_special, qi_special, pi_missing, qi_missing,
-        flag_special, flag_missing, n_special)
+        flag_special, flag_missing)
 
     return d_divergences
 
-- 
2.43.0


From 19502123e3a29993d71bd267a5c7f1d9ffae67cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:47 +0000
Subject: [PATCH 104/129] fix: the counts of MIP variables and constraints were
 reported swapped

---
 optbinning/information.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optbinning/information.py b/optbinning/information.py
index e37b83b..3ecac98 100644
--- a/optbinning/information.py
+++ b/optbinning/information.py
@@ -108,7 +108,9 @@ def print_solver_statistics(solver_type, d_solver):
             "    Number of constraints         {:>10}\n"
             "    Objective value               {:>10.4f}\n"
             "    Best objective bound          {:>10.4f}\n"
-            ).format(solver_type, *d_solver.values())
+            ).format(solver_type, d_solver["n_variables"],
+                     d_solver["n_constraints"], d_solver["objective"],
+                     d_solver["best_bound"])
 
     elif solver_type == "ls":
         solver_stats = (
-- 
2.43.0


From 0529dd0da4737b9c039227c205e81c302e98fa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:47 +0000
Subject: [PATCH 105/129] fix: information omitted options (outlier detection,
 n_jobs, derivatives, fixed splits)

---
 optbinning/options.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/optbinning/options.py b/optbinning/options.py
index 613e7ea..b387bdc 100644
--- a/optbinning/options.py
+++ b/optbinning/options.py
@@ -30,6 +30,8 @@ optimal_binning_default_options = {
     "class_weight": None,
     "cat_cutoff": None,
     "cat_unknown": None,
+    "outlier_detector": None,
+    "outlier_params": None,
     "user_splits": None,
     "user_splits_fixed": None,
     "special_codes": None,
@@ -54,6 +56,8 @@ multiclass_optimal_binning_default_options = {
     "min_event_rate_diff": 0,
     "max_pvalue": None,
     "max_pvalue_policy": "consecutive",
+    "outlier_detector": None,
+    "outlier_params": None,
     "user_splits": None,
     "user_splits_fixed": None,
     "special_codes": None,
@@ -81,6 +85,8 @@ continuous_optimal_binning_default_options = {
     "gamma": 0,
     "cat_cutoff": None,
     "cat_unknown": None,
+    "outlier_detector": None,
+    "outlier_params": None,
     "user_splits": None,
     "user_splits_fixed": None,
     "special_codes": None,
@@ -106,6 +112,7 @@ binning_process_default_options = {
     "split_digits": None,
     "binning_fit_params": None,
     "binning_transform_params": None,
+    "n_jobs": None,
     "verbose": False
 }
 
@@ -190,6 +197,7 @@ optimal_pw_binning_options = {
     "objective": "l2",
     "degree": 1,
     "continuous": True,
+    "continuous_deriv": True,
     "prebinning_method": "cart",
     "max_n_prebins": 20,
     "min_prebin_size": 0.05,
@@ -204,6 +212,7 @@ optimal_pw_binning_options = {
     "outlier_detector": None,
     "outlier_params": None,
     "user_splits": None,
+    "user_splits_fixed": None,
     "special_codes": None,
     "split_digits": None,
     "solver": "auto",
-- 
2.43.0


From a15e3c8d60bcd1a86dc4ea35f36f483ba52cb47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:55 +0000
Subject: [PATCH 106/129] fix: share of post-processing in the timing of a
 counterfactual

---
 .../scorecard/counterfactual/counterfactual_information.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/scorecard/counterfactual/counterfactual_information.py b/optbinning/scorecard/counterfactual/counterfactual_information.py
index 516e731..0c8e81c 100644
--- a/optbinning/scorecard/counterfactual/counterfactual_information.py
+++ b/optbinning/scorecard/counterfactual/counterfactual_information.py
@@ -38,7 +38,7 @@ def print_objectives(objectives):
 def print_timing(time_total, time_fit, time_solver, time_postprocessing):
     p_fit = time_fit / time_total
     p_solver = time_solver / time_total
-    p_postprocessing = time_postprocessing / time_solver
+    p_postprocessing = time_postprocessing / time_total
 
     time_stats = (
         "  Timing\n"
-- 
2.43.0


From 93894e93845ce7886a6201b2928814c8f3ac7e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:02 +0000
Subject: [PATCH 107/129] fix: logged sample counts of scenarios counted the
 scenarios

---
 optbinning/binning/uncertainty/binning_scenarios.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index b516b3d..ac109b1 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -506,9 +506,9 @@ class SBOptimalBinning(OptimalBinning):
         self._time_preprocessing = time.perf_counter() - time_preprocessing
 
         if self.verbose:
-            n_clean = len(x_clean)
-            n_missing = len(x_missing)
-            n_special = len(x_special)
+            n_clean = sum(len(x) for x in x_clean)
+            n_missing = sum(len(x) for x in x_missing)
+            n_special = sum(len(x) for x in x_special)
 
             logger.info("Pre-processing: number of clean samples: {}"
                         .format(n_clean))
-- 
2.43.0


From ff4f173897b245cfd7d9002d518a7b7820a36db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:02 +0000
Subject: [PATCH 108/129] fix: counterfactuals with a numerically null
 coefficient got an infinite weight

---
 optbinning/scorecard/counterfactual/problem_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/problem_data.py b/optbinning/scorecard/counterfactual/problem_data.py
index 1e352c6..36105fa 100644
--- a/optbinning/scorecard/counterfactual/problem_data.py
+++ b/optbinning/scorecard/counterfactual/problem_data.py
@@ -35,10 +35,10 @@ def problem_data(scorecard, X):
         min_p += _min
         max_p += _max
 
-        # If the points are constant (e.g., null coefficient) use the range of
-        # the metric.
+        # If the points are constant (e.g., null coefficient, up to rounding
+        # errors) use the range of the metric.
         _range = _max - _min
-        if _range == 0:
+        if abs(coef[i]) <= 1e-12 * np.max(np.abs(coef)) or _range == 0:
             _range = np.ptp(scorecard._metric_values[v])
 
         wrange[i] = 1.0 / _range if _range > 0 else 0
-- 
2.43.0


From b8abd7b444c102a93e70e22dbd9afc3f9eac3257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:24 +0000
Subject: [PATCH 109/129] fix: after a fit without solver information reported
 the solver of an earlier fit

---
 optbinning/binning/binning.py                       | 2 ++
 optbinning/binning/continuous_binning.py            | 2 ++
 optbinning/binning/multiclass_binning.py            | 2 ++
 optbinning/binning/uncertainty/binning_scenarios.py | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 3b876bf..af0efb2 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -914,6 +914,8 @@ class OptimalBinning(BaseOptimalBinning):
 
         if len(n_nonevent) <= 1:
             self._status = "OPTIMAL"
+            self._optimizer, self._time_optimizer = None, 0
+            self._time_solver = 0
             self._splits_optimal = splits
             self._solution = np.ones(len(splits), dtype=bool)
 
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 3b3c497..4e0b79c 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -761,6 +761,8 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         if len(n_records) <= 1:
             self._status = "OPTIMAL"
+            self._optimizer, self._time_optimizer = None, 0
+            self._time_solver = 0
             self._splits_optimal = splits
             self._solution = np.ones(len(splits), dtype=bool)
 
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index 34400b0..9d3ba66 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -684,6 +684,8 @@ class MulticlassOptimalBinning(OptimalBinning):
 
         if not len(n_nonevent):
             self._status = "OPTIMAL"
+            self._optimizer, self._time_optimizer = None, 0
+            self._time_solver = 0
             self._splits_optimal = splits
             self._solution = np.zeros(len(splits), dtype=bool)
 
diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index ac109b1..c63f312 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -743,6 +743,8 @@ class SBOptimalBinning(OptimalBinning):
 
         if not len(n_nonevent):
             self._status = "OPTIMAL"
+            self._optimizer, self._time_optimizer = None, 0
+            self._time_solver = 0
             self._splits_optimal = splits
             self._solution = np.zeros(len(splits), dtype=bool)
 
-- 
2.43.0


From 895753051889c67bcb93e497943b00597efe6676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:30 +0000
Subject: [PATCH 110/129] fix: a rejected fit of a binning process discarded
 the earlier fit

---
 optbinning/binning/binning_process.py | 56 +++++++++++++++------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 4b877d1..1e04fa5 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1078,27 +1078,24 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
         _check_parameters(**self.get_params())
 
-        self._reset()
-
         # check X dtype
         if not isinstance(X, (pd.DataFrame, np.ndarray)):
             raise TypeError("X must be a pandas.DataFrame or numpy.ndarray.")
 
         # check target dtype
-        self._target_dtype = type_of_target(y)
+        target_dtype = type_of_target(y)
 
-        if self._target_dtype not in ("binary", "continuous", "multiclass"):
+        if target_dtype not in ("binary", "continuous", "multiclass"):
             raise ValueError("Target type {} is not supported."
-                             .format(self._target_dtype))
+                             .format(target_dtype))
 
         # check sample weight
-        if sample_weight is not None and self._target_dtype != "binary":
+        if sample_weight is not None and target_dtype != "binary":
             raise ValueError("Target type {} does not support sample weight."
-                             .format(self._target_dtype))
+                             .format(target_dtype))
 
         if self.selection_criteria is not None:
-            _check_selection_criteria(self.selection_criteria,
-                                      self._target_dtype)
+            _check_selection_criteria(self.selection_criteria, target_dtype)
 
         # check X and y data
         if check_input:
@@ -1114,12 +1111,19 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
             check_consistent_length(X, y)
 
-        self._n_samples, self._n_variables = X.shape
+        n_samples, n_variables = X.shape
 
-        if self._n_variables != len(self.variable_names):
+        if n_variables != len(self.variable_names):
             raise ValueError("The number of columns must be equal to the"
                              "length of variable_names.")
 
+        # Discard previous results once all arguments are accepted
+        self._reset()
+
+        self._target_dtype = target_dtype
+        self._n_samples = n_samples
+        self._n_variables = n_variables
+
         if self.verbose:
             logger.info("Dataset: number of samples: {}."
                         .format(self._n_samples))
@@ -1221,8 +1225,6 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
         _check_parameters(**self.get_params())
 
-        self._reset()
-
         # Input file extension
         extension = input_path.split(".")[-1]
 
@@ -1237,15 +1239,14 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
         # Retrieve target and check dtype
         y = _read_column(input_path, extension, target, **kwargs)
-        self._target_dtype = type_of_target(y)
+        target_dtype = type_of_target(y)
 
-        if self._target_dtype not in ("binary", "continuous", "multiclass"):
+        if target_dtype not in ("binary", "continuous", "multiclass"):
             raise ValueError("Target type {} is not supported."
-                             .format(self._target_dtype))
+                             .format(target_dtype))
 
         if self.selection_criteria is not None:
-            _check_selection_criteria(self.selection_criteria,
-                                      self._target_dtype)
+            _check_selection_criteria(self.selection_criteria, target_dtype)
 
         if self.fixed_variables is not None:
             for fv in self.fixed_variables:
@@ -1253,6 +1254,10 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                     raise ValueError("Variable {} to be fixed is not a valid "
                                      "variable name.".format(fv))
 
+        # Discard previous results once all arguments are accepted
+        self._reset()
+
+        self._target_dtype = target_dtype
         self._n_samples = len(y)
         self._n_variables = len(self.variable_names)
 
@@ -1302,8 +1307,6 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
         _check_parameters(**self.get_params())
 
-        self._reset()
-
         if not isinstance(dict_optb, dict):
             raise TypeError("dict_optb must be a dict.")
 
@@ -1343,16 +1346,19 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
         obj_class = types.pop()
         if obj_class == "OptimalBinning":
-            self._target_dtype = "binary"
+            target_dtype = "binary"
         elif obj_class == "ContinuousOptimalBinning":
-            self._target_dtype = "continuous"
+            target_dtype = "continuous"
         elif obj_class == "MulticlassOptimalBinning":
-            self._target_dtype = "multiclass"
+            target_dtype = "multiclass"
 
         if self.selection_criteria is not None:
-            _check_selection_criteria(self.selection_criteria,
-                                      self._target_dtype)
+            _check_selection_criteria(self.selection_criteria, target_dtype)
+
+        # Discard previous results once all arguments are accepted
+        self._reset()
 
+        self._target_dtype = target_dtype
         self._n_samples = 0
         self._n_variables = len(self.variable_names)
 
-- 
2.43.0


From b21808cd0c99bb9ce73f7b8c025c33f5b8e16ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:30 +0000
Subject: [PATCH 111/129] fix: a binning process accepted an unfitted object
 for a variable

---
 optbinning/binning/binning_process.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 1e04fa5..e42bee0 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1005,6 +1005,12 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                                 "of type {}.".format(
                                     optb, MulticlassOptimalBinning))
 
+        # Check if fitted
+        if not optb._is_fitted:
+            raise NotFittedError("Object {} is not fitted yet. Call 'fit' "
+                                 "for this object before passing to a "
+                                 "binning process.".format(name))
+
         optb_old = self._binned_variables[name]
         if optb_old.name and optb_old.name != optb.name:
             raise ValueError("Update object name must match old object name; "
-- 
2.43.0


From 323fb66b25d1916180eeab29d16120f89d4f57d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:53 +0000
Subject: [PATCH 112/129] fix: information counted an updated binned variable
 with its earlier dtype

---
 optbinning/binning/binning_process.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index e42bee0..80c64d4 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1020,6 +1020,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             raise ValueError("name and object name must coincide.")
 
         self._binned_variables[name] = optb
+        self._variable_dtypes[name] = getattr(optb, "dtype", "numerical")
         self._is_updated = True
 
     def get_support(self, indices=False, names=False):
-- 
2.43.0


From 853f353bb123f1f6dc5850552eae79308abef83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:16 +0000
Subject: [PATCH 113/129] fix: unknown fixed variables were only rejected after
 the earlier fit was lost

---
 optbinning/binning/binning_process.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 80c64d4..7fb0f2e 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -270,6 +270,11 @@ def _check_parameters(variable_names, max_n_prebins, min_prebin_size,
         if not isinstance(fixed_variables, (np.ndarray, list)):
             raise TypeError("fixed_variables must be a list or numpy.ndarray.")
 
+        for fv in fixed_variables:
+            if fv not in variable_names:
+                raise ValueError("Variable {} to be fixed is not a valid "
+                                 "variable name.".format(fv))
+
     if categorical_variables is not None:
         if not isinstance(categorical_variables, (np.ndarray, list)):
             raise TypeError("categorical_variables must be a list or "
@@ -1255,12 +1260,6 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         if self.selection_criteria is not None:
             _check_selection_criteria(self.selection_criteria, target_dtype)
 
-        if self.fixed_variables is not None:
-            for fv in self.fixed_variables:
-                if fv not in self.variable_names:
-                    raise ValueError("Variable {} to be fixed is not a valid "
-                                     "variable name.".format(fv))
-
         # Discard previous results once all arguments are accepted
         self._reset()
 
-- 
2.43.0


From bba9ec058a5ad93b03c8baa46c53407c74c0844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:29 +0000
Subject: [PATCH 114/129] fix: a binary binning process accepted continuous and
 multiclass objects

---
 optbinning/binning/binning_process.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 7fb0f2e..14c7e4c 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -995,7 +995,10 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         # Check current class
         if self._target_dtype == "binary":
             optb_binary = (OptimalBinning, OptimalPWBinning)
-            if not isinstance(optb, optb_binary):
+            # Binning classes for other targets derive from OptimalBinning
+            optb_other = (ContinuousOptimalBinning, MulticlassOptimalBinning)
+            if (not isinstance(optb, optb_binary) or
+                    isinstance(optb, optb_other)):
                 raise TypeError("target is binary and Object {} must be of "
                                 "type {}.".format(optb, optb_binary))
         elif self._target_dtype == "continuous":
-- 
2.43.0


From 864fac938d8fb84d1c74d6a281b3201ad9135dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:29 +0000
Subject: [PATCH 115/129] fix: fit_from_dict failed with KeyError or
 UnboundLocalError for other classes

---
 optbinning/binning/binning_process.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 14c7e4c..cadd7a0 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1360,6 +1360,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             target_dtype = "continuous"
         elif obj_class == "MulticlassOptimalBinning":
             target_dtype = "multiclass"
+        else:
+            raise TypeError("Objects of class {} are not supported."
+                            .format(obj_class))
 
         if self.selection_criteria is not None:
             _check_selection_criteria(self.selection_criteria, target_dtype)
-- 
2.43.0


From d7bac06ddc79d2b6fdecd90d1a65416540dc3d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:35 +0000
Subject: [PATCH 116/129] fix: a rejected batch was partly added to the
 variables of a binning process sketch

---
 .../binning/distributed/binning_process_sketch.py   | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index e26de37..6e567aa 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -14,6 +14,8 @@ import numpy as np
 import pandas as pd
 
 from sklearn.base import BaseEstimator
+from sklearn.utils import check_array
+from sklearn.utils import check_consistent_length
 
 from ...binning.binning_process import _check_selection_criteria
 from ...binning.binning_process import _METRICS
@@ -299,6 +301,17 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
         # Add new data stream
         time_add = time.perf_counter()
 
+        # Check all variables before adding any of them
+        if check_input:
+            y = check_array(y, ensure_2d=False, dtype=None,
+                            force_all_finite=True)
+            check_consistent_length(X, y)
+
+            for name in X.columns:
+                if name in self.variable_names:
+                    check_array(X[name], ensure_2d=False, dtype=None,
+                                force_all_finite='allow-nan')
+
         # Add data to variables that appear in X. During training the
         # data columns might change, for example, not all data sources
         # contain the same variables.
-- 
2.43.0


From 1c4b145b2e787b3998458e1830abbf4e4ecfa456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:03 +0000
Subject: [PATCH 117/129] fix: jensen_shannon_multivariate rejected weights
 with a rounded sum of one

---
 optbinning/binning/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/metrics.py b/optbinning/binning/metrics.py
index e48d2c8..73e34bb 100644
--- a/optbinning/binning/metrics.py
+++ b/optbinning/binning/metrics.py
@@ -187,7 +187,7 @@ def jensen_shannon_multivariate(X, weights=None):
         if len(weights) != n:
             raise ValueError("Shapes of X and weights differ.")
 
-        if weights.sum() != 1.0:
+        if not np.isclose(weights.sum(), 1.0):
             raise ValueError("weights must sum 1.")
     else:
         weights = np.ones(n) / n
-- 
2.43.0


From b5db9b191e1ba64a23da594932e968ad984a6812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:03 +0000
Subject: [PATCH 118/129] fix: jensen_shannon_multivariate failed with
 distributions given as a list

---
 optbinning/binning/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/metrics.py b/optbinning/binning/metrics.py
index 73e34bb..dc1374a 100644
--- a/optbinning/binning/metrics.py
+++ b/optbinning/binning/metrics.py
@@ -175,10 +175,11 @@ def jensen_shannon_multivariate(X, weights=None):
     -------
     jensen_shannon : float
     """
+    X = np.asarray(X)
+
     if X.ndim < 2:
         raise ValueError("X must be a 2-D array")
 
-    X = np.asarray(X)
     n = X.shape[1]
 
     if weights is not None:
-- 
2.43.0


From 9a8493b26eacbaaa2d891eb827cc9512a10d4133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:23 +0000
Subject: [PATCH 119/129] fix: piecewise binning failed with as many subsamples
 as clean records

---
 optbinning/binning/piecewise/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/piecewise/base.py b/optbinning/binning/piecewise/base.py
index d9f5e30..b0c3532 100644
--- a/optbinning/binning/piecewise/base.py
+++ b/optbinning/binning/piecewise/base.py
@@ -405,7 +405,7 @@ class BasePWBinning(Base, BaseEstimator):
         n_bins = n_splits + 1
         self._n_bins = n_bins
 
-        if self.n_subsamples is None or self.n_subsamples > len(x):
+        if self.n_subsamples is None or self.n_subsamples >= len(x):
             x_subsamples = x
             pred_subsamples = prediction
 
-- 
2.43.0


From 94c33cfeb275b898d4a36a9dd7f86795630b4d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:21 +0000
Subject: [PATCH 120/129] fix: MDLP splits depended on the order of the records

---
 optbinning/binning/mdlp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/mdlp.py b/optbinning/binning/mdlp.py
index f01ec06..13af2b7 100644
--- a/optbinning/binning/mdlp.py
+++ b/optbinning/binning/mdlp.py
@@ -104,7 +104,9 @@ class MDLP(BaseEstimator):
         y = check_array(y, ensure_2d=False, force_all_finite=True)
         check_consistent_length(x, y)
 
-        idx = np.argsort(x)
+        # Sort by value and target, the splits must not depend on the order of
+        # the records with the same value
+        idx = np.lexsort((y, x))
         x = x[idx]
         y = y[idx]
 
-- 
2.43.0


From d97dbdeb17fdb2afea87f0c188d8a971cfdbc0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:21 +0000
Subject: [PATCH 121/129] fix: MDLP failed with a boolean or float binary
 target

---
 optbinning/binning/mdlp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optbinning/binning/mdlp.py b/optbinning/binning/mdlp.py
index 13af2b7..969f328 100644
--- a/optbinning/binning/mdlp.py
+++ b/optbinning/binning/mdlp.py
@@ -104,6 +104,10 @@ class MDLP(BaseEstimator):
         y = check_array(y, ensure_2d=False, force_all_finite=True)
         check_consistent_length(x, y)
 
+        # Boolean and float binary target
+        if np.isin(y, (0, 1)).all():
+            y = y.astype(np.int64)
+
         # Sort by value and target, the splits must not depend on the order of
         # the records with the same value
         idx = np.lexsort((y, x))
-- 
2.43.0


From d444f6f7e1b966ab23bc52efbef9076c1cc9d59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:05 +0000
Subject: [PATCH 122/129] fix: a cart split at -2 was lost

---
 optbinning/binning/prebinning.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/prebinning.py b/optbinning/binning/prebinning.py
index 992de46..9573f96 100644
--- a/optbinning/binning/prebinning.py
+++ b/optbinning/binning/prebinning.py
@@ -116,8 +116,10 @@ class PreBinning:
                 est = DecisionTreeRegressor(**cart_kwargs)
 
             est.fit(x.reshape(-1, 1), y, sample_weight=sample_weight)
-            splits = np.unique(est.tree_.threshold)
-            self._splits = splits[splits != _tree.TREE_UNDEFINED]
+            # Thresholds of the internal nodes, a threshold might be equal to
+            # the value used for the leaves
+            internal = est.tree_.children_left != _tree.TREE_LEAF
+            self._splits = np.unique(est.tree_.threshold[internal])
 
         elif self.method == "mdlp":
             mdlp_kwargs = {"min_samples_leaf": self.min_bin_size}
-- 
2.43.0


From 35b1c5ed48bb3c629fc460be2296175168c38eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:53 +0000
Subject: [PATCH 123/129] fix: MDLP splits of small integer types were wrapped
 around

---
 optbinning/binning/mdlp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/mdlp.py b/optbinning/binning/mdlp.py
index 969f328..da86a1c 100644
--- a/optbinning/binning/mdlp.py
+++ b/optbinning/binning/mdlp.py
@@ -100,7 +100,8 @@ class MDLP(BaseEstimator):
     def _fit(self, x, y):
         _check_parameters(**self.get_params())
 
-        x = check_array(x, ensure_2d=False, force_all_finite=True)
+        x = check_array(x, ensure_2d=False, dtype=np.float64,
+                        force_all_finite=True)
         y = check_array(y, ensure_2d=False, force_all_finite=True)
         check_consistent_length(x, y)
 
-- 
2.43.0


From f9fd9bb0c945c0ef3c733cdf857d20214b0bd2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:53 +0000
Subject: [PATCH 124/129] fix: HDI outlier bounds overflowed with small integer
 types

---
 optbinning/binning/outlier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/outlier.py b/optbinning/binning/outlier.py
index a89dbe3..eb08c3d 100644
--- a/optbinning/binning/outlier.py
+++ b/optbinning/binning/outlier.py
@@ -109,7 +109,7 @@ class RangeDetector(BaseEstimator, OutlierDetector):
             lb, ub = np.percentile(x, [lower, upper])
         else:
             n = len(x)
-            xsorted = np.sort(x)
+            xsorted = np.sort(x).astype(np.float64)
             n_included = min(int(np.ceil(self.interval_length * n)), n - 1)
             n_ci = n - n_included
             ci = xsorted[n_included:] - xsorted[:n_ci]
-- 
2.43.0


From d01347fdb28d3ecf962ac48c0dc12f809daaa02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:53 +0000
Subject: [PATCH 125/129] fix: continuous 2D standard deviation overflowed with
 small integer types

---
 optbinning/binning/multidimensional/continuous_binning_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index 6dcf24d..6df13c8 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -733,7 +733,7 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
                 zmask = z_clean[mask]
                 R[i, j] = np.count_nonzero(mask)
                 S[i, j] = np.sum(zmask)
-                SS[i, j] = np.sum(zmask ** 2)
+                SS[i, j] = np.sum(zmask.astype(np.float64) ** 2)
 
         return R, S, SS
 
-- 
2.43.0


From 557aa9e0b98fff25a20d20058d6a9506e9046580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:27 +0000
Subject: [PATCH 126/129] fix: information of bins read from a file raised or
 described a previous fit

---
 optbinning/binning/binning.py             | 16 ++++++++++++++++
 optbinning/binning/binning_information.py |  5 ++++-
 optbinning/binning/continuous_binning.py  |  1 +
 optbinning/binning/multiclass_binning.py  |  1 +
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index af0efb2..4ee4daf 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -699,6 +699,21 @@ class OptimalBinning(BaseOptimalBinning):
                                   self._time_postprocessing, self._n_prebins,
                                   self._n_refinements, dict_user_options)
 
+    def _discard_fit_information(self):
+        # Information about the computation of the bins of a previous fit
+        self._n_prebins = None
+        self._n_refinements = 0
+        self._n_samples = None
+        self._optimizer = None
+        self._solution = None
+
+        self._time_total = None
+        self._time_preprocessing = None
+        self._time_prebinning = None
+        self._time_solver = None
+        self._time_optimizer = None
+        self._time_postprocessing = None
+
     def _fit(self, x, y, sample_weight, check_input):
         time_init = time.perf_counter()
 
@@ -1268,4 +1283,5 @@ class OptimalBinning(BaseOptimalBinning):
         self._cat_others = table.cat_others
 
         self._binning_table = table
+        self._discard_fit_information()
         self._is_fitted = True
diff --git a/optbinning/binning/binning_information.py b/optbinning/binning/binning_information.py
index 9767bd6..45e1dba 100644
--- a/optbinning/binning/binning_information.py
+++ b/optbinning/binning/binning_information.py
@@ -106,7 +106,10 @@ def print_binning_information(binning_type, print_level, name, status,
 
         print_optional_parameters(d_default_options, dict_user_options)
 
-    if print_level == 0:
+    if time_total is None:
+        # Bins read from a file, there is no information about the fit
+        print_name_status(name, status or "UNKNOWN")
+    elif print_level == 0:
         print_main_info(name, status, time_total)
     elif print_level >= 1:
         print_name_status(name, status)
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 4e0b79c..20fcc79 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -1083,4 +1083,5 @@ class ContinuousOptimalBinning(OptimalBinning):
         self._cat_others = table.cat_others
 
         self._binning_table = table
+        self._discard_fit_information()
         self._is_fitted = True
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index 9d3ba66..07794a1 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -952,4 +952,5 @@ class MulticlassOptimalBinning(OptimalBinning):
         self._classes = table.classes
 
         self._binning_table = table
+        self._discard_fit_information()
         self._is_fitted = True
-- 
2.43.0


From b697f01ee7a841719a6cb11d8bbcf04d03a29d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:33 +0000
Subject: [PATCH 127/129] fix: reading a file that is not valid changed status
 and cat_unknown

---
 optbinning/binning/binning.py            | 7 +++++--
 optbinning/binning/continuous_binning.py | 8 +++++---
 optbinning/binning/multiclass_binning.py | 4 +++-
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 4ee4daf..31167a9 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -1266,11 +1266,14 @@ class OptimalBinning(BaseOptimalBinning):
             path, arrays=("n_nonevent", "n_event"),
             values=("categories", "cat_others", "user_splits"))
 
-        self.cat_unknown = bin_table_attr.pop("cat_unknown", self.cat_unknown)
-        self._status = bin_table_attr.pop("status", None)
+        cat_unknown = bin_table_attr.pop("cat_unknown", self.cat_unknown)
+        status = bin_table_attr.pop("status", None)
 
         table = BinningTable(**bin_table_attr)
 
+        self.cat_unknown = cat_unknown
+        self._status = status
+
         self.name = table.name
         self.dtype = table.dtype
         self.special_codes = table.special_codes
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 20fcc79..0483bcc 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -1061,12 +1061,14 @@ class ContinuousOptimalBinning(OptimalBinning):
                           "max_target", "n_zeros"),
             values=("categories", "cat_others", "user_splits"))
 
-        self.cat_unknown = cont_table_attr.pop("cat_unknown",
-                                               self.cat_unknown)
-        self._status = cont_table_attr.pop("status", None)
+        cat_unknown = cont_table_attr.pop("cat_unknown", self.cat_unknown)
+        status = cont_table_attr.pop("status", None)
 
         table = ContinuousBinningTable(**cont_table_attr)
 
+        self.cat_unknown = cat_unknown
+        self._status = status
+
         self.name = table.name
         self.dtype = table.dtype
         self.special_codes = table.special_codes
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index 07794a1..df151ea 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -940,10 +940,12 @@ class MulticlassOptimalBinning(OptimalBinning):
         multi_table_attr = _read_json(
             path, arrays=("n_event",), values=("classes",))
 
-        self._status = multi_table_attr.pop("status", None)
+        status = multi_table_attr.pop("status", None)
 
         table = MulticlassBinningTable(**multi_table_attr)
 
+        self._status = status
+
         self.name = table.name
         self.special_codes = table.special_codes
 
-- 
2.43.0


From 3f72ca5a3bb8a992c8d356bc25c57f4134520955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:29 +0000
Subject: [PATCH 128/129] fix: empty user_splits of a categorical variable gave
 a fit without a binning table

---
 optbinning/binning/binning.py            | 4 ++++
 optbinning/binning/continuous_binning.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 31167a9..1cf2678 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -207,6 +207,10 @@ def _check_parameters(name, dtype, prebinning_method, solver, divergence,
         if not isinstance(user_splits, (np.ndarray, list)):
             raise TypeError("user_splits must be a list or numpy.ndarray.")
 
+        if dtype == "categorical" and len(user_splits) == 0:
+            raise ValueError("user_splits must have at least one group of "
+                             "categories for a categorical variable.")
+
     if user_splits_fixed is not None:
         if user_splits is None:
             raise ValueError("user_splits must be provided.")
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 0483bcc..800374d 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -146,6 +146,10 @@ def _check_parameters(name, dtype, prebinning_method, max_n_prebins,
         if not isinstance(user_splits, (np.ndarray, list)):
             raise TypeError("user_splits must be a list or numpy.ndarray.")
 
+        if dtype == "categorical" and len(user_splits) == 0:
+            raise ValueError("user_splits must have at least one group of "
+                             "categories for a categorical variable.")
+
     if user_splits_fixed is not None:
         if user_splits is None:
             raise ValueError("user_splits must be provided.")
-- 
2.43.0


From 3b8e558c18ea1fe9a533f977f413749d14c425e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:32 +0000
Subject: [PATCH 129/129] fix: log of a 2D fit stated the trend of x for y

---
 optbinning/binning/multidimensional/binning_2d.py            | 2 +-
 optbinning/binning/multidimensional/continuous_binning_2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index 3b4c042..ddd1fe3 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -851,7 +851,7 @@ class OptimalBinning2D(OptimalBinning):
                     "Optimizer: monotonic trend y not set.")
             else:
                 logger.info("Optimizer: monotonic trend y set to {}."
-                            .format(self.monotonic_trend_x))
+                            .format(self.monotonic_trend_y))
 
         if self.solver == "cp":
             scale = int(1e6)
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index 6df13c8..33de501 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -772,7 +772,7 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
                     "Optimizer: monotonic trend y not set.")
             else:
                 logger.info("Optimizer: monotonic trend y set to {}."
-                            .format(self.monotonic_trend_x))
+                            .format(self.monotonic_trend_y))
 
         if self.solver == "cp":
             scale = int(1e6)
-- 
2.43.0

