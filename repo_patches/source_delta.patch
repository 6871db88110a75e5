From 03910f36d5340b9f7bfa09392e2f194982aa9213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 01/62] fix: concave/convex trend constraints excluded
 admissible bins (big-M too small)

---
 optbinning/binning/cp.py  | 4 ++--
 optbinning/binning/mip.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/cp.py b/optbinning/binning/cp.py
index 74e369d..362e662 100644
--- a/optbinning/binning/cp.py
+++ b/optbinning/binning/cp.py
@@ -441,7 +441,7 @@ class BinningCP:
                                   for z in range(j)]) + D[j][j] * x[j, j]) -
                         (sum([(D[k][z] - D[k][z+1]) * x[k, z]
                               for z in range(k)]) + D[k][k] * x[k, k]) >=
-                        M * (x[i, i] + x[j, j] + x[k, k] - 3))
+                        2 * M * (x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_convex(self, model, n, D, x, M):
         for i in range(2, n):
@@ -454,7 +454,7 @@ class BinningCP:
                                   for z in range(j)]) + D[j][j] * x[j, j]) +
                         (sum([(D[k][z] - D[k][z+1]) * x[k, z]
                               for z in range(k)]) + D[k][k] * x[k, k]) >=
-                        M * (x[i, i] + x[j, j] + x[k, k] - 3))
+                        2 * M * (x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_peak(self, model, n, D, x, y, M):
         for i in range(1, n):
diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index 3826cbd..79ef9a6 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -328,7 +328,7 @@ class BinningMIP:
                              + D[j][j] * x[j, j]) -
                         (solver.Sum([(D[k][z] - D[k][z+1]) * x[k, z]
                                      for z in range(k)]) +
-                         D[k][k] * x[k, k]) >= (
+                         D[k][k] * x[k, k]) >= 2 * (
                          x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_convex(self, solver, n, D, x):
@@ -343,7 +343,7 @@ class BinningMIP:
                              D[j][j] * x[j, j]) +
                         (solver.Sum([(D[k][z] - D[k][z+1]) * x[k, z]
                                      for z in range(k)]) +
-                         D[k][k] * x[k, k]) >= (
+                         D[k][k] * x[k, k]) >= 2 * (
                          x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_peak(self, solver, n, D, x, y):
-- 
2.43.0


From 383c93c36b2f6566369d0d2c71b6eceb354eda63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 02/62] fix: trend preprocessing excluded the optimal bins when
 other constraints are requested

---
 optbinning/binning/cp.py             | 25 +++++++++++++++++++------
 optbinning/binning/mip.py            | 22 ++++++++++++++++------
 optbinning/binning/multiclass_cp.py  |  4 ++++
 optbinning/binning/multiclass_mip.py |  4 ++++
 4 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/optbinning/binning/cp.py b/optbinning/binning/cp.py
index 362e662..3ee5b50 100644
--- a/optbinning/binning/cp.py
+++ b/optbinning/binning/cp.py
@@ -392,6 +392,19 @@ class BinningCP:
                     if self.max_bin_size is not None:
                         model.Add(bin_size <= self.max_bin_size[s] * x[i, i])
 
+    def _only_trend_constraints(self):
+        # The preprocessing of the monotonicity constraints preserves an
+        # optimal solution only if no other constraint restricts the bins.
+        if self._is_scenario_binning:
+            return False
+
+        return (self.min_event_rate_diff == 0 and not self.gamma and
+                all(c is None for c in (
+                    self.min_n_bins, self.min_bin_size, self.max_bin_size,
+                    self.min_bin_n_event, self.max_bin_n_event,
+                    self.min_bin_n_nonevent, self.max_bin_n_nonevent,
+                    self.max_pvalue)))
+
     def add_constraint_monotonic_ascending(self, model, n, D, x, M):
         for i in range(1, n):
             for z in range(i):
@@ -403,7 +416,7 @@ class BinningCP:
                          for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._only_trend_constraints():
             for i in range(n - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     model.Add(x[i, i] == 0)
@@ -422,7 +435,7 @@ class BinningCP:
                          for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._only_trend_constraints():
             for i in range(n - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     model.Add(x[i, i] == 0)
@@ -505,7 +518,7 @@ class BinningCP:
                          for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._only_trend_constraints():
             for i in range(tc - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     model.Add(x[i, i] == 0)
@@ -523,7 +536,7 @@ class BinningCP:
                          for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._only_trend_constraints():
             for i in range(tc, n - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     model.Add(x[i, i] == 0)
@@ -542,7 +555,7 @@ class BinningCP:
                          for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._only_trend_constraints():
             for i in range(tc - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     model.Add(x[i, i] == 0)
@@ -560,7 +573,7 @@ class BinningCP:
                          for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._only_trend_constraints():
             for i in range(tc, n - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     model.Add(x[i, i] == 0)
diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index 79ef9a6..207ebd2 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -278,6 +278,16 @@ class BinningMIP:
                 elif self.max_bin_size is not None:
                     solver.Add(bin_size <= self.max_bin_size * x[i, i])
 
+    def _only_trend_constraints(self):
+        # The preprocessing of the monotonicity constraints preserves an
+        # optimal solution only if no other constraint restricts the bins.
+        return (self.min_event_rate_diff == 0 and not self.gamma and
+                all(c is None for c in (
+                    self.min_n_bins, self.min_bin_size, self.max_bin_size,
+                    self.min_bin_n_event, self.max_bin_n_event,
+                    self.min_bin_n_nonevent, self.max_bin_n_nonevent,
+                    self.max_pvalue)))
+
     def add_constraint_monotonic_ascending(self, solver, n, D, x):
         for i in range(1, n):
             for z in range(i):
@@ -289,7 +299,7 @@ class BinningMIP:
                                 for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._only_trend_constraints():
             for i in range(n - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     solver.Add(x[i, i] == 0)
@@ -308,7 +318,7 @@ class BinningMIP:
                                 for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._only_trend_constraints():
             for i in range(n - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     solver.Add(x[i, i] == 0)
@@ -395,7 +405,7 @@ class BinningMIP:
                                 for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._only_trend_constraints():
             for i in range(tc - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     solver.Add(x[i, i] == 0)
@@ -413,7 +423,7 @@ class BinningMIP:
                                 for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._only_trend_constraints():
             for i in range(tc, n - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     solver.Add(x[i, i] == 0)
@@ -432,7 +442,7 @@ class BinningMIP:
                                 for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._only_trend_constraints():
             for i in range(tc - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     solver.Add(x[i, i] == 0)
@@ -450,7 +460,7 @@ class BinningMIP:
                                 for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._only_trend_constraints():
             for i in range(tc, n - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     solver.Add(x[i, i] == 0)
diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index cfb43a6..35694fa 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -161,6 +161,10 @@ class MulticlassBinningCP(BinningCP):
 
         return x, y, t, d, u, bin_size_diff
 
+    def _only_trend_constraints(self):
+        # The trend of a class restricts the bins of the other classes.
+        return False
+
     def add_constraint_monotonic_peak(self, model, n, D, x, c, y, M):
         for i in range(1, n):
             for z in range(i):
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index 6f35539..bb3dad8 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -164,6 +164,10 @@ class MulticlassBinningMIP(BinningMIP):
 
         return x, y, t, d, u, bin_size_diff
 
+    def _only_trend_constraints(self):
+        # The trend of a class restricts the bins of the other classes.
+        return False
+
     def add_constraint_monotonic_peak(self, solver, n, D, x, c, y):
         for i in range(1, n):
             for z in range(i):
-- 
2.43.0


From ce0b3b9ba0b2c083aa668f4f402dcd47e1e1f4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 03/62] fix: value of unknown categories ignored special and
 missing records

The documented default is the mean event rate (WoE 0) or the mean target,
but the totals were taken after dropping the special and missing bins.
---
 optbinning/binning/transformations.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index 5c35d7d..a7099e6 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -272,6 +272,7 @@ def transform_binary_target(splits, dtype, x, n_nonevent, n_event,
         n_records = n_event + n_nonevent
         t_n_nonevent = n_nonevent.sum()
         t_n_event = n_event.sum()
+        t_n_records = n_records.sum()
 
         if "empirical" not in (metric_special, metric_missing):
             n_event = n_event[:n_bins]
@@ -289,7 +290,7 @@ def transform_binary_target(splits, dtype, x, n_nonevent, n_event,
 
         # Assign unknown category value
         if cat_unknown is None:
-            mean_event_rate = t_n_event / n_records.sum()
+            mean_event_rate = t_n_event / t_n_records
             if metric == "woe":
                 cat_unknown = transform_event_rate_to_woe(
                     mean_event_rate, t_n_nonevent, t_n_event)
@@ -424,11 +425,14 @@ def transform_continuous_target(splits, dtype, x, n_records, sums,
         bins_str = [str(b) for b in bins]
         n_bins = len(bins)
 
-    if "empirical" not in (metric_special, metric_missing):
-        n_records = n_records[:n_bins]
-        sums = sums[:n_bins]
-
     if metric == "mean":
+        t_n_records = n_records.sum()
+        t_sums = sums.sum()
+
+        if "empirical" not in (metric_special, metric_missing):
+            n_records = n_records[:n_bins]
+            sums = sums[:n_bins]
+
         # Compute mean
         mask = n_records > 0
         metric_value = np.zeros(len(n_records))
@@ -436,7 +440,7 @@ def transform_continuous_target(splits, dtype, x, n_records, sums,
 
         # Assign unknown category value
         if cat_unknown is None:
-            cat_unknown = sums.sum() / n_records.sum()
+            cat_unknown = t_sums / t_n_records
 
         x_transform = np.full(x.shape, cat_unknown)
     else:
-- 
2.43.0


From a779a81b21676115dd978923ce4faa987fb54470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 04/62] fix: integer cat_unknown truncated the transformed
 values

The output array took the integer type of cat_unknown, so WoE, event rate
and mean values were truncated to integers.
---
 optbinning/binning/transformations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index a7099e6..80fbe2d 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -183,7 +183,7 @@ def _apply_transform(x, dtype, special_codes, metric, metric_special,
             x_clean_transform = np.full(x_clean.shape, cat_unknown,
                                         dtype=object)
         else:
-            x_clean_transform = np.full(x_clean.shape, cat_unknown)
+            x_clean_transform = np.zeros(x_clean.shape, dtype=x_transform.dtype)
 
         for i in range(n_bins):
             mask = (indices == i)
@@ -303,7 +303,7 @@ def transform_binary_target(splits, dtype, x, n_nonevent, n_event,
         else:
             metric_value = event_rate
 
-        x_transform = np.full(x.shape, cat_unknown)
+        x_transform = np.full(x.shape, cat_unknown, dtype=float)
     else:
         # Assign corresponding indices or bin intervals
         metric_value, x_transform = _transform_metric_indices_bins(
@@ -442,7 +442,7 @@ def transform_continuous_target(splits, dtype, x, n_records, sums,
         if cat_unknown is None:
             cat_unknown = t_sums / t_n_records
 
-        x_transform = np.full(x.shape, cat_unknown)
+        x_transform = np.full(x.shape, cat_unknown, dtype=float)
     else:
         # Assign corresponding indices or bin intervals
         metric_value, x_transform = _transform_metric_indices_bins(
-- 
2.43.0


From d9e5aea912f13ebfb92beb9f82934a729b944225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 05/62] fix: transform raised ValueError with special_codes
 given as an array

---
 optbinning/binning/piecewise/transformations.py | 2 +-
 optbinning/binning/transformations.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index 9ead4b1..697bd0d 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -34,7 +34,7 @@ def _apply_transform(x, c, lb, ub, special_codes, metric_special,
 
     x_transform[clean_mask] = x_clean_transform
 
-    if special_codes:
+    if special_codes is not None:
         if isinstance(special_codes, dict):
             xt = pd.Series(x)
             for i, (k, s) in enumerate(special_codes.items()):
diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index 80fbe2d..f021875 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -196,7 +196,7 @@ def _apply_transform(x, dtype, special_codes, metric, metric_special,
             mask = x_p.isin(bins[i])
             x_transform[mask] = metric_value[i]
 
-    if special_codes:
+    if special_codes is not None:
         if isinstance(special_codes, dict):
             xt = pd.Series(x)
             for i, (k, s) in enumerate(special_codes.items()):
-- 
2.43.0


From c7e0d66dae8c7ea4df5d3184f458541d69ada7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 06/62] fix: fit overwrote the user_splits and
 user_splits_fixed parameters

The parameters were reordered and filtered in place, so a second fit raised
(or fixed other splits); the scenario model also ignored the filtering.
---
 optbinning/binning/binning.py                 | 25 ++++++++++++-------
 optbinning/binning/continuous_binning.py      | 21 ++++++++++------
 optbinning/binning/multiclass_binning.py      | 23 +++++++++++------
 .../binning/uncertainty/binning_scenarios.py  | 15 +++++++----
 4 files changed, 55 insertions(+), 29 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index e2c1899..8b3b424 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -510,6 +510,8 @@ class OptimalBinning(BaseOptimalBinning):
         self._n_nonevent_cat_others = None
         self._n_event_cat_others = None
         self._problem_type = "classification"
+        self._user_splits = None
+        self._user_splits_fixed = None
 
         # info
         self._binning_table = None
@@ -769,6 +771,9 @@ class OptimalBinning(BaseOptimalBinning):
 
         time_prebinning = time.perf_counter()
 
+        self._user_splits = None
+        self._user_splits_fixed = None
+
         if self.user_splits is not None:
             n_splits = len(self.user_splits)
 
@@ -797,8 +802,10 @@ class OptimalBinning(BaseOptimalBinning):
                      ] = preprocessing_user_splits_categorical(
                         self.user_splits, x_clean, y_clean, sw_clean)
 
+                self._user_splits = user_splits
+
                 if self.user_splits_fixed is not None:
-                    self.user_splits_fixed = np.asarray(
+                    self._user_splits_fixed = np.asarray(
                         self.user_splits_fixed)[sorted_idx]
 
                 splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -995,7 +1002,7 @@ class OptimalBinning(BaseOptimalBinning):
                                   min_bin_n_nonevent, self.max_bin_n_nonevent,
                                   self.min_event_rate_diff, self.max_pvalue,
                                   self.max_pvalue_policy, self.gamma,
-                                  self.user_splits_fixed, self.time_limit)
+                                  self._user_splits_fixed, self.time_limit)
         elif self.solver == "mip":
             optimizer = BinningMIP(monotonic, self.min_n_bins, self.max_n_bins,
                                    min_bin_size, max_bin_size,
@@ -1003,7 +1010,7 @@ class OptimalBinning(BaseOptimalBinning):
                                    min_bin_n_nonevent, self.max_bin_n_nonevent,
                                    self.min_event_rate_diff, self.max_pvalue,
                                    self.max_pvalue_policy, self.gamma,
-                                   self.user_splits_fixed, self.mip_solver,
+                                   self._user_splits_fixed, self.mip_solver,
                                    self.time_limit)
         elif self.solver == "ls":
             optimizer = BinningLS(monotonic, self.min_n_bins, self.max_n_bins,
@@ -1012,7 +1019,7 @@ class OptimalBinning(BaseOptimalBinning):
                                   min_bin_n_nonevent, self.max_bin_n_nonevent,
                                   self.min_event_rate_diff, self.max_pvalue,
                                   self.max_pvalue_policy,
-                                  self.user_splits_fixed, self.time_limit)
+                                  self._user_splits_fixed, self.time_limit)
 
         if self.verbose:
             logger.info("Optimizer: build model...")
@@ -1108,9 +1115,9 @@ class OptimalBinning(BaseOptimalBinning):
                     mask_splits = np.concatenate([
                         mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
-                if self.user_splits_fixed is not None:
-                    user_splits_fixed = np.asarray(self.user_splits_fixed)
-                    user_splits = np.asarray(self.user_splits)
+                if self._user_splits_fixed is not None:
+                    user_splits_fixed = np.asarray(self._user_splits_fixed)
+                    user_splits = np.asarray(self._user_splits)
                     fixed_remove = user_splits_fixed & mask_splits
 
                     if any(fixed_remove):
@@ -1121,8 +1128,8 @@ class OptimalBinning(BaseOptimalBinning):
                             .format(user_splits[fixed_remove]))
 
                     # Update boolean array of fixed user splits.
-                    self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                    self.user_splits = user_splits[~mask_splits]
+                    self._user_splits_fixed = user_splits_fixed[~mask_splits]
+                    self._user_splits = user_splits[~mask_splits]
 
                 splits = splits_prebinning[~mask_splits]
 
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 0b6d3f3..519533f 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -394,6 +394,8 @@ class ContinuousOptimalBinning(OptimalBinning):
         self._n_zeros_special = None
         self._n_zeros_others = None
         self._problem_type = "regression"
+        self._user_splits = None
+        self._user_splits_fixed = None
 
         # info
         self._binning_table = None
@@ -617,6 +619,9 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         time_prebinning = time.perf_counter()
 
+        self._user_splits = None
+        self._user_splits_fixed = None
+
         if self.user_splits is not None:
             n_splits = len(self.user_splits)
 
@@ -646,8 +651,10 @@ class ContinuousOptimalBinning(OptimalBinning):
                      ] = preprocessing_user_splits_categorical(
                         self.user_splits, x_clean, y_clean, sw_clean)
 
+                self._user_splits = user_splits
+
                 if self.user_splits_fixed is not None:
-                    self.user_splits_fixed = np.asarray(
+                    self._user_splits_fixed = np.asarray(
                         self.user_splits_fixed)[sorted_idx]
 
                 [splits, n_records, sums, ssums, stds, min_t, max_t,
@@ -815,7 +822,7 @@ class ContinuousOptimalBinning(OptimalBinning):
                                         max_bin_size, self.min_mean_diff,
                                         self.max_pvalue,
                                         self.max_pvalue_policy, self.gamma,
-                                        self.user_splits_fixed,
+                                        self._user_splits_fixed,
                                         self.time_limit)
 
         if self.verbose:
@@ -939,9 +946,9 @@ class ContinuousOptimalBinning(OptimalBinning):
                 mask_splits = np.concatenate([
                     mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
-            if self.user_splits_fixed is not None:
-                user_splits_fixed = np.asarray(self.user_splits_fixed)
-                user_splits = np.asarray(self.user_splits)
+            if self._user_splits_fixed is not None:
+                user_splits_fixed = np.asarray(self._user_splits_fixed)
+                user_splits = np.asarray(self._user_splits)
                 fixed_remove = user_splits_fixed & mask_splits
 
                 if any(fixed_remove):
@@ -952,8 +959,8 @@ class ContinuousOptimalBinning(OptimalBinning):
                         .format(user_splits[fixed_remove]))
 
                 # Update boolean array of fixed user splits.
-                self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                self.user_splits = user_splits[~mask_splits]
+                self._user_splits_fixed = user_splits_fixed[~mask_splits]
+                self._user_splits = user_splits[~mask_splits]
 
             splits = splits_prebinning[~mask_splits]
             if self.verbose:
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index cc80add..d5721a0 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -352,6 +352,8 @@ class MulticlassOptimalBinning(OptimalBinning):
         self._n_event_missing = None
         self._n_event_special = None
         self._problem_type = "classification"
+        self._user_splits = None
+        self._user_splits_fixed = None
 
         # info
         self._binning_table = None
@@ -552,6 +554,9 @@ class MulticlassOptimalBinning(OptimalBinning):
 
         time_prebinning = time.perf_counter()
 
+        self._user_splits = None
+        self._user_splits_fixed = None
+
         if self.user_splits is not None:
             n_splits = len(self.user_splits)
 
@@ -568,8 +573,10 @@ class MulticlassOptimalBinning(OptimalBinning):
             sorted_idx = np.argsort(user_splits)
             user_splits = user_splits[sorted_idx]
 
+            self._user_splits = user_splits
+
             if self.user_splits_fixed is not None:
-                self.user_splits_fixed = np.asarray(
+                self._user_splits_fixed = np.asarray(
                     self.user_splits_fixed)[sorted_idx]
 
             splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -747,7 +754,7 @@ class MulticlassOptimalBinning(OptimalBinning):
                                             self.min_event_rate_diff,
                                             self.max_pvalue,
                                             self.max_pvalue_policy,
-                                            self.user_splits_fixed,
+                                            self._user_splits_fixed,
                                             self.time_limit)
         else:
             optimizer = MulticlassBinningMIP(monotonic, self.min_n_bins,
@@ -757,7 +764,7 @@ class MulticlassOptimalBinning(OptimalBinning):
                                              self.max_pvalue,
                                              self.max_pvalue_policy,
                                              self.mip_solver,
-                                             self.user_splits_fixed,
+                                             self._user_splits_fixed,
                                              self.time_limit)
         if self.verbose:
             logger.info("Optimizer: build model...")
@@ -812,9 +819,9 @@ class MulticlassOptimalBinning(OptimalBinning):
             mask_splits = np.concatenate(
                 [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
-            if self.user_splits_fixed is not None:
-                user_splits_fixed = np.asarray(self.user_splits_fixed)
-                user_splits = np.asarray(self.user_splits)
+            if self._user_splits_fixed is not None:
+                user_splits_fixed = np.asarray(self._user_splits_fixed)
+                user_splits = np.asarray(self._user_splits)
                 fixed_remove = user_splits_fixed & mask_splits
 
                 if any(fixed_remove):
@@ -824,8 +831,8 @@ class MulticlassOptimalBinning(OptimalBinning):
                                      .format(user_splits[fixed_remove]))
 
                 # Update boolean array of fixed user splits.
-                self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                self.user_splits = user_splits[~mask_splits]
+                self._user_splits_fixed = user_splits_fixed[~mask_splits]
+                self._user_splits = user_splits[~mask_splits]
 
             splits = splits_prebinning[~mask_splits]
 
diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index 8b5c8d3..1c7eb1e 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -309,8 +309,8 @@ class SBOptimalBinning(OptimalBinning):
         self._n_nonevent_special = None
         self._n_event_special = None
         self._problem_type = "classification"
-        self._user_splits = user_splits
-        self._user_splits_fixed = user_splits_fixed
+        self._user_splits = None
+        self._user_splits_fixed = None
 
         # info
         self._binning_table = None
@@ -523,6 +523,9 @@ class SBOptimalBinning(OptimalBinning):
 
         time_prebinning = time.perf_counter()
 
+        self._user_splits = None
+        self._user_splits_fixed = None
+
         if self.user_splits is not None:
             user_splits = check_array(
                 self.user_splits, ensure_2d=False, dtype=None,
@@ -534,8 +537,10 @@ class SBOptimalBinning(OptimalBinning):
             sorted_idx = np.argsort(user_splits)
             user_splits = user_splits[sorted_idx]
 
+            self._user_splits = user_splits
+
             if self.user_splits_fixed is not None:
-                self.user_splits_fixed = np.asarray(
+                self._user_splits_fixed = np.asarray(
                     self.user_splits_fixed)[sorted_idx]
 
             splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -701,7 +706,7 @@ class SBOptimalBinning(OptimalBinning):
             mask_splits = np.concatenate(
                 [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
-            if self.user_splits_fixed is not None:
+            if self._user_splits_fixed is not None:
                 user_splits_fixed = np.asarray(self._user_splits_fixed)
                 user_splits = np.asarray(self._user_splits)
                 fixed_remove = user_splits_fixed & mask_splits
@@ -760,7 +765,7 @@ class SBOptimalBinning(OptimalBinning):
                               self.max_n_bins, min_bin_size, max_bin_size,
                               None, None, None, None, self.min_event_rate_diff,
                               self.max_pvalue, self.max_pvalue_policy, None,
-                              self.user_splits_fixed, self.time_limit)
+                              self._user_splits_fixed, self.time_limit)
         if weights is None:
             weights = np.ones(self._n_scenarios, int)
 
-- 
2.43.0


From 24b4585fcb0b439d1cb0677de91915590e1ae900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:55 +0000
Subject: [PATCH 07/62] fix: categorical user_splits lost the last pure bin or
 the only bin

Removing the last pure prebin dropped its categories and records from the
binning table, and a single user-defined bin left the table without rows.
---
 optbinning/binning/binning.py            | 10 +++++++---
 optbinning/binning/continuous_binning.py |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 8b3b424..2657688 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -911,7 +911,7 @@ class OptimalBinning(BaseOptimalBinning):
         if len(n_nonevent) <= 1:
             self._status = "OPTIMAL"
             self._splits_optimal = splits
-            self._solution = np.zeros(len(splits), dtype=bool)
+            self._solution = np.ones(len(splits), dtype=bool)
 
             if self.verbose:
                 logger.warning("Optimizer: {} bins after pre-binning."
@@ -1102,7 +1102,7 @@ class OptimalBinning(BaseOptimalBinning):
 
         mask_remove = (n_nonevent == 0) | (n_event == 0)
 
-        if np.any(mask_remove):
+        if np.any(mask_remove) and n_bins > 1:
             if self.divergence in ("hellinger", "triangular"):
                 self._flag_min_n_event_nonevent = True
             else:
@@ -1110,7 +1110,11 @@ class OptimalBinning(BaseOptimalBinning):
 
                 if (self.dtype == "categorical" and
                         self.user_splits is not None):
-                    mask_splits = mask_remove
+                    # The last bin has no right neighbour: it is merged with
+                    # the previous one.
+                    mask_splits = np.concatenate([
+                        mask_remove[:-2],
+                        [mask_remove[-2] | mask_remove[-1], False]])
                 else:
                     mask_splits = np.concatenate([
                         mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 519533f..62cc9cb 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -754,7 +754,7 @@ class ContinuousOptimalBinning(OptimalBinning):
         if len(n_records) <= 1:
             self._status = "OPTIMAL"
             self._splits_optimal = splits
-            self._solution = np.zeros(len(splits)).astype(bool)
+            self._solution = np.ones(len(splits)).astype(bool)
 
             if self.verbose:
                 logger.warning("Optimizer: {} bins after pre-binning."
-- 
2.43.0


From 7ebb562fed32faba446413698cc6a24483f31410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:29 +0000
Subject: [PATCH 08/62] fix: fit failed when no split points are given or
 remain

user_splits=[] raised a TypeError (binary) or UnboundLocalError (continuous)
and a continuous fit whose prebins were all removed failed to unpack.
---
 optbinning/binning/binning.py            |  7 ++++---
 optbinning/binning/continuous_binning.py | 14 ++++++++------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 2657688..4f87e00 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -782,9 +782,10 @@ class OptimalBinning(BaseOptimalBinning):
                             .format(n_splits))
 
             if not n_splits:
-                splits = self.user_splits
-                n_nonevent = np.array([])
-                n_event = np.array([])
+                splits, n_nonevent, n_event = self._prebinning_refinement(
+                    np.array([]), x_clean, y_clean, y_missing, x_special,
+                    y_special, y_others, sw_clean, sw_missing, sw_special,
+                    sw_others)
             else:
                 if self.dtype == "numerical":
                     user_splits = check_array(
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 62cc9cb..796aed6 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -630,10 +630,11 @@ class ContinuousOptimalBinning(OptimalBinning):
                             .format(n_splits))
 
             if not n_splits:
-                splits = self.user_splits
-                n_records = np.array([])
-                sums = np.array([])
-                stds = np.array([])
+                [splits, n_records, sums, ssums, stds, min_t, max_t,
+                 n_zeros] = self._prebinning_refinement(
+                    np.array([]), x_clean, y_clean, y_missing, x_special,
+                    y_special, y_others, sw_clean, sw_missing, sw_special,
+                    sw_others)
             else:
                 if self.dtype == "numerical":
                     user_splits = check_array(
@@ -875,7 +876,6 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         if len(y_others):
             if len(sw_others):
-                print(y_others.dtype, sw_others.dtype)
                 y_others = y_others * sw_others
 
             self._n_records_cat_others = np.sum(sw_others)
@@ -904,7 +904,9 @@ class ContinuousOptimalBinning(OptimalBinning):
     def _compute_prebins(self, splits_prebinning, x, y, sw):
         n_splits = len(splits_prebinning)
         if not n_splits:
-            return splits_prebinning, np.array([]), np.array([])
+            return (splits_prebinning, np.array([]), np.array([]),
+                    np.array([]), np.array([]), np.array([]), np.array([]),
+                    np.array([]))
 
         if self.dtype == "categorical" and self.user_splits is not None:
             indices = np.digitize(x, splits_prebinning, right=True)
-- 
2.43.0


From df5e06514599e12c8bfd118e3dd03bb6fc4984b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:29 +0000
Subject: [PATCH 09/62] fix: fix_ub was ignored when fix_lb is also given

---
 optbinning/binning/preprocessing.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/optbinning/binning/preprocessing.py b/optbinning/binning/preprocessing.py
index fc299dc..20e3207 100644
--- a/optbinning/binning/preprocessing.py
+++ b/optbinning/binning/preprocessing.py
@@ -249,12 +249,11 @@ def split_data(dtype, x, y, special_codes=None, cat_cutoff=None,
             sw_clean = sw_clean[~mask_outlier]
 
         if fix_lb is not None or fix_ub is not None:
+            mask = np.ones(len(x_clean), dtype=bool)
             if fix_lb is not None:
-                mask = x_clean >= fix_lb
-            elif fix_ub is not None:
-                mask = x_clean <= fix_ub
-            else:
-                mask = (x_clean >= fix_lb) & (x_clean <= fix_ub)
+                mask &= x_clean >= fix_lb
+            if fix_ub is not None:
+                mask &= x_clean <= fix_ub
 
             x_clean = x_clean[mask]
             y_clean = y_clean[mask]
-- 
2.43.0


From 9d4fa0f23b563f362a2b7cb7206b4cc5daa3c00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:29 +0000
Subject: [PATCH 10/62] fix: class_weight modified the caller's sample_weight
 array in place

---
 optbinning/binning/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/preprocessing.py b/optbinning/binning/preprocessing.py
index 20e3207..739b90c 100644
--- a/optbinning/binning/preprocessing.py
+++ b/optbinning/binning/preprocessing.py
@@ -183,7 +183,7 @@ def split_data(dtype, x, y, special_codes=None, cat_cutoff=None,
         le = LabelEncoder()
         class_weight_ = compute_class_weight(
             class_weight=class_weight, classes=classes, y=y)
-        sample_weight *= class_weight_[le.fit_transform(y)]
+        sample_weight = sample_weight * class_weight_[le.fit_transform(y)]
 
     if np.issubdtype(x.dtype, np.number) and np.issubdtype(y.dtype, np.number):
         missing_mask = np.isnan(x) | np.isnan(y)
-- 
2.43.0


From c761e285d4066d21a6d0651dace2f092dc1dcf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:29 +0000
Subject: [PATCH 11/62] fix: records both special and missing were counted
 twice

---
 optbinning/binning/preprocessing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/preprocessing.py b/optbinning/binning/preprocessing.py
index 739b90c..e5c0f11 100644
--- a/optbinning/binning/preprocessing.py
+++ b/optbinning/binning/preprocessing.py
@@ -213,7 +213,8 @@ def split_data(dtype, x, y, special_codes=None, cat_cutoff=None,
         sw_missing = sample_weight[missing_mask]
         sw_special = []
     else:
-        special_mask = pd.Series(x).isin(_special_codes).values
+        special_mask = (pd.Series(x).isin(_special_codes).values &
+                        ~missing_mask)
 
         clean_mask = ~missing_mask & ~special_mask
 
-- 
2.43.0


From e6321178555f1dca94c80744647e1b035677dc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 12/62] fix: triangular discrimination of an empty bin was not
 a number (fit failed)

---
 optbinning/binning/metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/metrics.py b/optbinning/binning/metrics.py
index e0220ce..ba6682e 100644
--- a/optbinning/binning/metrics.py
+++ b/optbinning/binning/metrics.py
@@ -245,7 +245,10 @@ def triangular(x, y, return_sum=False):
     """
     x, y = _check_x_y(x, y)
 
-    t = (x - y) ** 2 / (x + y)
+    s = x + y
+    mask = s > 0
+    t = np.zeros(len(s))
+    t[mask] = (x[mask] - y[mask]) ** 2 / s[mask]
 
     if return_sum:
         return t.sum()
-- 
2.43.0


From a13e459f5077259cffe50134e8bfb2a67a8f968f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 13/62] fix: sample weights distorted zeros count, std, min and
 max of continuous targets

---
 optbinning/binning/binning_statistics.py | 55 ++++++++++++-----------
 optbinning/binning/continuous_binning.py | 56 +++++++++---------------
 2 files changed, 50 insertions(+), 61 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 5867b6b..b08b6ac 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -165,6 +165,24 @@ def target_info_special_multiclass(special_codes, x, y, classes):
     return n_event
 
 
+def target_info_continuous(y, sw):
+    """Weighted number of records, sum, number of zeros, standard deviation,
+    minimum and maximum of a continuous target."""
+    if not len(y):
+        return 0, 0, 0, None, None, None
+
+    n_records = np.sum(sw)
+    sums = np.sum(sw * y)
+    n_zeros = np.sum(sw[y == 0])
+
+    if n_records > 0:
+        std = np.sqrt(np.sum(sw * (y - sums / n_records) ** 2) / n_records)
+    else:
+        std = 0
+
+    return n_records, sums, n_zeros, std, np.min(y), np.max(y)
+
+
 def target_info_special_continuous(special_codes, x, y, sw):
     if isinstance(special_codes, dict):
         n_records_special = []
@@ -185,38 +203,25 @@ def target_info_special_continuous(special_codes, x, y, sw):
             sl = s if isinstance(s, (list, np.ndarray)) else [s]
             mask = xt.isin(sl).values
 
-            n_records = np.sum(sw[mask])
-            n_records_special.append(n_records)
+            (n_records, sums, n_zeros, std, min_target,
+             max_target) = target_info_continuous(y[mask], sw[mask])
 
-            ymask = sw[mask] * y[mask]
-            sum_special.append(np.sum(ymask))
-            n_zeros_special.append(np.count_nonzero(ymask == 0))
+            n_records_special.append(n_records)
+            sum_special.append(sums)
+            n_zeros_special.append(n_zeros)
 
-            if n_records:
-                std_special.append(np.std(ymask))
-                min_target_special.append(np.min(ymask))
-                max_target_special.append(np.max(ymask))
+            if np.any(mask):
+                std_special.append(std)
+                min_target_special.append(min_target)
+                max_target_special.append(max_target)
             else:
                 std_special.append(0)
                 min_target_special.append(0)
                 max_target_special.append(0)
     else:
-        if len(sw):
-            sw_y = sw * y
-        else:
-            sw_y = y
-
-        n_records_special = np.sum(sw)
-        sum_special = np.sum(sw_y)
-        n_zeros_special = np.count_nonzero(sw_y == 0)
-        if len(y):
-            std_special = np.std(sw_y)
-            min_target_special = np.min(sw_y)
-            max_target_special = np.max(sw_y)
-        else:
-            std_special = None
-            min_target_special = None
-            max_target_special = None
+        (n_records_special, sum_special, n_zeros_special, std_special,
+         min_target_special, max_target_special) = target_info_continuous(
+            y, sw)
 
     return (n_records_special, sum_special, n_zeros_special, std_special,
             min_target_special, max_target_special)
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 796aed6..4f01fa2 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -20,6 +20,7 @@ from .auto_monotonic import peak_valley_trend_change_heuristic
 from .binning import OptimalBinning
 from .binning_statistics import continuous_bin_info
 from .binning_statistics import ContinuousBinningTable
+from .binning_statistics import target_info_continuous
 from .binning_statistics import target_info_special_continuous
 from .continuous_cp import ContinuousBinningCP
 from .preprocessing import preprocessing_user_splits_categorical
@@ -694,14 +695,9 @@ class ContinuousOptimalBinning(OptimalBinning):
         time_postprocessing = time.perf_counter()
 
         if not len(splits):
-            n_records = np.sum(sw_clean)
-            sw_y_clean = sw_clean * y_clean
-            sums = np.sum(sw_y_clean)
-            ssums = np.sum(sw_y_clean ** 2)
-            n_zeros = np.count_nonzero(sw_y_clean == 0)
-            stds = np.std(sw_y_clean)
-            min_t = np.min(sw_y_clean)
-            max_t = np.max(sw_y_clean)
+            (n_records, sums, n_zeros, stds, min_t,
+             max_t) = target_info_continuous(y_clean, sw_clean)
+            ssums = np.sum(sw_clean * y_clean ** 2)
 
         [self._n_records, self._sums, self._stds, self._min_target,
          self._max_target, self._n_zeros] = continuous_bin_info(
@@ -863,27 +859,17 @@ class ContinuousOptimalBinning(OptimalBinning):
          self._max_target_special] = target_info_special_continuous(
             self.special_codes, x_special, y_special, sw_special)
 
-        if len(sw_missing):
-            y_missing = y_missing * sw_missing
-
-        self._n_records_missing = np.sum(sw_missing)
-        self._sum_missing = np.sum(y_missing)
-        self._n_zeros_missing = np.count_nonzero(y_missing == 0)
-        if len(y_missing):
-            self._std_missing = np.std(y_missing)
-            self._min_target_missing = np.min(y_missing)
-            self._max_target_missing = np.max(y_missing)
+        [self._n_records_missing, self._sum_missing, self._n_zeros_missing,
+         self._std_missing, self._min_target_missing,
+         self._max_target_missing] = target_info_continuous(
+            y_missing, sw_missing)
 
         if len(y_others):
-            if len(sw_others):
-                y_others = y_others * sw_others
-
-            self._n_records_cat_others = np.sum(sw_others)
-            self._sum_cat_others = np.sum(y_others)
-            self._std_cat_others = np.std(y_others)
-            self._min_target_others = np.min(y_others)
-            self._max_target_others = np.max(y_others)
-            self._n_zeros_others = np.count_nonzero(y_others == 0)
+            [self._n_records_cat_others, self._sum_cat_others,
+             self._n_zeros_others, self._std_cat_others,
+             self._min_target_others,
+             self._max_target_others] = target_info_continuous(
+                y_others, sw_others)
 
         n_splits = len(splits_prebinning)
 
@@ -926,15 +912,13 @@ class ContinuousOptimalBinning(OptimalBinning):
         # Compute prebin information
         for i in range(n_bins):
             mask = (indices == i)
-            n_records[i] = np.sum(sw[mask])
-            ymask = sw[mask] * y[mask]
-            sums[i] = np.sum(ymask)
-            ssums[i] = np.sum(ymask ** 2)
-            n_zeros[i] = np.count_nonzero(ymask == 0)
-            if len(ymask):
-                stds[i] = np.std(ymask)
-                min_t[i] = np.min(ymask)
-                max_t[i] = np.max(ymask)
+            (n_records[i], sums[i], n_zeros[i], std, min_target,
+             max_target) = target_info_continuous(y[mask], sw[mask])
+            ssums[i] = np.sum(sw[mask] * y[mask] ** 2)
+            if np.any(mask):
+                stds[i] = std
+                min_t[i] = min_target
+                max_t[i] = max_target
 
         mask_remove = (n_records == 0)
 
-- 
2.43.0


From 64dd1a83cd2fdefc0d627dbd1d1b247182504d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 14/62] fix: reported monotonic trend included special or other
 bins

---
 optbinning/binning/binning_statistics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index b08b6ac..b6d2845 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -977,7 +977,7 @@ class BinningTable:
                                                     self._hhi_norm)
 
         # Monotonic trend
-        type_mono = type_of_monotonic_trend(self._event_rate[:-2])
+        type_mono = type_of_monotonic_trend(self._event_rate[:n_metric])
 
         report = (
             "---------------------------------------------\n"
@@ -1462,7 +1462,8 @@ class MulticlassBinningTable:
         monotonic_string = ""
 
         for i in range(len(self.classes)):
-            type_mono = type_of_monotonic_trend(self._event_rate[:-2, i])
+            type_mono = type_of_monotonic_trend(
+                self._event_rate[:n_metric, i])
             monotonic_string += mono_string.format(i, type_mono)
 
         report = (
@@ -2026,7 +2027,7 @@ class ContinuousBinningTable:
             rwoe, p_values, self._hhi_norm)
 
         # Monotonic trend
-        type_mono = type_of_monotonic_trend(self._mean[:-2])
+        type_mono = type_of_monotonic_trend(self._mean[:n_metric])
 
         report = (
             "-------------------------------------------------\n"
-- 
2.43.0


From 95b1ecd5a9c3af20f9a6f5dba4b46cca53a61b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:33 +0000
Subject: [PATCH 15/62] fix: multiclass binning failed with a min or max bin
 size

The number of records of each prebin is the same for all classes, but the
bin size constraint received one column per class.
---
 optbinning/binning/multiclass_cp.py  | 2 +-
 optbinning/binning/multiclass_mip.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index 35694fa..54f9a08 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -47,7 +47,7 @@ class MulticlassBinningCP(BinningCP):
             self.min_event_rate_diff, M)
 
         n = len(n_nonevent)
-        n_records = n_nonevent + n_event
+        n_records = n_nonevent[:, 0] + n_event[:, 0]
         n_classes = len(self.monotonic_trend)
 
         # Initialize model
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index bb3dad8..8c22caa 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -45,7 +45,7 @@ class MulticlassBinningMIP(BinningMIP):
             self.min_event_rate_diff)
 
         n = len(n_nonevent)
-        n_records = n_nonevent + n_event
+        n_records = n_nonevent[:, 0] + n_event[:, 0]
         n_classes = len(self.monotonic_trend)
 
         # Initialize solver
-- 
2.43.0


From 8826e3b640589a890e79bb6d4b9980e4d7d5490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:33 +0000
Subject: [PATCH 16/62] fix: some monotonic trends were ignored for multiclass
 targets

Heuristic, concave and convex trends of a class were accepted but not
constrained.
---
 optbinning/binning/multiclass_binning.py |  6 ++++++
 optbinning/binning/multiclass_cp.py      | 10 ++++++++--
 optbinning/binning/multiclass_mip.py     | 10 ++++++++--
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index d5721a0..166f0bb 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -740,6 +740,12 @@ class MulticlassOptimalBinning(OptimalBinning):
                         logger.info("Optimizer: classifier predicts {} "
                                     "monotonic trend.".format(trend))
                 else:
+                    if m_trend in ("peak_heuristic", "valley_heuristic"):
+                        event_rate = n_event[:, i] / (n_nonevent[:, i] +
+                                                      n_event[:, i])
+                        trend_changes[i] = peak_valley_trend_change_heuristic(
+                            event_rate, m_trend)
+
                     monotonic.append(m_trend)
         elif self.monotonic_trend is None:
             monotonic = [None] * self._n_classes
diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index 54f9a08..baeaab6 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -84,6 +84,12 @@ class MulticlassBinningCP(BinningCP):
             if self.monotonic_trend[c] == "descending":
                 self.add_constraint_monotonic_descending(model, n, D[c], x, M)
 
+            elif self.monotonic_trend[c] == "concave":
+                self.add_constraint_monotonic_concave(model, n, D[c], x, M)
+
+            elif self.monotonic_trend[c] == "convex":
+                self.add_constraint_monotonic_convex(model, n, D[c], x, M)
+
             elif self.monotonic_trend[c] in ("peak", "valley"):
                 for i in range(n):
                     model.Add(t[c] >= i - n * (1 - y[c, i]))
@@ -96,11 +102,11 @@ class MulticlassBinningCP(BinningCP):
                     self.add_constraint_monotonic_valley(
                         model, n, D[c], x, c, y, M)
 
-            elif self.monotonic_trend == "peak_heuristic":
+            elif self.monotonic_trend[c] == "peak_heuristic":
                 self.add_constraint_monotonic_peak_heuristic(
                     model, n, D[c], x, trend_changes[c], M)
 
-            elif self.monotonic_trend == "valley_heuristic":
+            elif self.monotonic_trend[c] == "valley_heuristic":
                 self.add_constraint_monotonic_valley_heuristic(
                     model, n, D[c], x, trend_changes[c], M)
 
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index 8c22caa..eb7fd18 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -87,6 +87,12 @@ class MulticlassBinningMIP(BinningMIP):
             elif self.monotonic_trend[c] == "descending":
                 self.add_constraint_monotonic_descending(solver, n, D[c], x)
 
+            elif self.monotonic_trend[c] == "concave":
+                self.add_constraint_monotonic_concave(solver, n, D[c], x)
+
+            elif self.monotonic_trend[c] == "convex":
+                self.add_constraint_monotonic_convex(solver, n, D[c], x)
+
             elif self.monotonic_trend[c] in ("peak", "valley"):
                 for i in range(n):
                     solver.Add(t[c] >= i - n * (1 - y[c, i]))
@@ -99,11 +105,11 @@ class MulticlassBinningMIP(BinningMIP):
                     self.add_constraint_monotonic_valley(
                         solver, n, D[c], x, c, y)
 
-            elif self.monotonic_trend == "peak_heuristic":
+            elif self.monotonic_trend[c] == "peak_heuristic":
                 self.add_constraint_monotonic_peak_heuristic(
                     solver, n, D[c], x, trend_changes[c])
 
-            elif self.monotonic_trend == "valley_heuristic":
+            elif self.monotonic_trend[c] == "valley_heuristic":
                 self.add_constraint_monotonic_valley_heuristic(
                     solver, n, D[c], x, trend_changes[c])
 
-- 
2.43.0


From af6f893aa33fc4b8cb9090dba29864ef884a4c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 17/62] fix: gamma was ignored for continuous targets

The variables holding the sizes of the largest and smallest bins were not
related to the bins.
---
 optbinning/binning/continuous_cp.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/optbinning/binning/continuous_cp.py b/optbinning/binning/continuous_cp.py
index 71f6098..4511569 100644
--- a/optbinning/binning/continuous_cp.py
+++ b/optbinning/binning/continuous_cp.py
@@ -114,6 +114,15 @@ class ContinuousBinningCP(BinningCP):
             self.add_constraint_monotonic_valley_heuristic(
                 model, n, U, x, trend_change, M)
 
+        # Constraint: reduction of dominating bins
+        if self.gamma:
+            for i in range(n):
+                bin_size = sum([n_records[j] * x[i, j] for j in range(i + 1)])
+
+                model.Add(pmin <= total_records * (1 - x[i, i]) + bin_size)
+                model.Add(pmax >= bin_size)
+            model.Add(pmin <= pmax)
+
         # Constraint: max-pvalue
         self.add_constraint_violation(model, x, pvalue_violation_indices)
 
-- 
2.43.0


From cff4371e34582a16dca048b070361d932e85c44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 18/62] fix: peak and valley trends excluded bins with means of
 opposite sign

The constraints to be deactivated by the big-M were still binding if the
difference of two means is greater than the largest absolute mean.
---
 optbinning/binning/continuous_cp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/continuous_cp.py b/optbinning/binning/continuous_cp.py
index 4511569..ec57cd7 100644
--- a/optbinning/binning/continuous_cp.py
+++ b/optbinning/binning/continuous_cp.py
@@ -185,7 +185,8 @@ class ContinuousBinningCP(BinningCP):
                         ).OnlyEnforceIf([x[k, k], x[j, j], x[i, i]])
 
     def add_constraint_monotonic_peak(self, model, n, U, x, y):
-        M = max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
+        means = [U[i][j] for i in range(n) for j in range(i + 1)]
+        M = max(means) - min(means)
         for i in range(1, n):
             for z in range(i):
                 model.Add(
@@ -205,7 +206,8 @@ class ContinuousBinningCP(BinningCP):
                     U[z][z] * x[z, z] >= 0).OnlyEnforceIf([x[z, z], x[i, i]])
 
     def add_constraint_monotonic_valley(self, model, n, U, x, y):
-        M = max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
+        means = [U[i][j] for i in range(n) for j in range(i + 1)]
+        M = max(means) - min(means)
         for i in range(1, n):
             for z in range(i):
                 model.Add(
-- 
2.43.0


From 9fa2c0d4ab84956c37cce99f9a93bc018b0c3ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 19/62] fix: scenario-based binning failed without split points

---
 optbinning/binning/uncertainty/binning_scenarios.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index 1c7eb1e..b0011f4 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -572,6 +572,13 @@ class SBOptimalBinning(OptimalBinning):
 
         time_postprocessing = time.perf_counter()
 
+        if not len(splits):
+            n_nonevent = np.empty((1, self._n_scenarios), dtype=np.int64)
+            n_event = np.empty((1, self._n_scenarios), dtype=np.int64)
+
+            for s in range(self._n_scenarios):
+                n_nonevent[0, s], n_event[0, s] = target_info(y_clean[s])
+
         self._n_nonevent = 0
         self._n_event = 0
         self._binning_tables = []
-- 
2.43.0


From f1376e036d725e889151dfe9feb8c82ece0e8f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 20/62] fix: scenario weights were truncated to multiples of
 the smallest one

---
 optbinning/binning/cp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/cp.py b/optbinning/binning/cp.py
index 3ee5b50..2ff1ac1 100644
--- a/optbinning/binning/cp.py
+++ b/optbinning/binning/cp.py
@@ -187,8 +187,8 @@ class BinningCP:
         n_scenarios = len(w)
 
         if w is not None:
-            sw = 10 ** np.abs(np.log10(np.min(w)))
-            w = [np.int64(w[s] * sw) for s in range(n_scenarios)]
+            sw = M / np.max(w)
+            w = [int(np.round(w[s] * sw)) for s in range(n_scenarios)]
 
         # Initialize model
         model = cp_model.CpModel()
-- 
2.43.0


From 502c867f7d62fbb3cad5656bb5a160130e1ddd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:35 +0000
Subject: [PATCH 21/62] fix: reverse the intercept too in a reversed pdo_odds
 scorecard

---
 optbinning/scorecard/scorecard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 1a44993..09d0dd0 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -133,7 +133,7 @@ def _compute_scorecard_points(points, binning_tables, method, method_data,
         factor = pdo / np.log(2)
         offset = scorecard_points - factor * np.log(odds)
 
-        new_points = -(sense * points + intercept / n) * factor + offset / n
+        new_points = -sense * (points + intercept / n) * factor + offset / n
     elif method == "min_max":
         a = method_data["min"]
         b = method_data["max"]
-- 
2.43.0


From 5d3447d6fb9e47dcf4a181aa029bf7910efbf0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:35 +0000
Subject: [PATCH 22/62] fix: bounds of the rounding model exclude roundings to
 the outside

---
 optbinning/scorecard/rounding.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/optbinning/scorecard/rounding.py b/optbinning/scorecard/rounding.py
index e74dd52..c97c558 100644
--- a/optbinning/scorecard/rounding.py
+++ b/optbinning/scorecard/rounding.py
@@ -36,8 +36,9 @@ class RoundingMIP:
         min_point = np.rint(np.sum(mins))
         max_point = np.rint(np.sum(maxs))
 
-        min_p = np.min(mins)
-        max_p = np.max(maxs)
+        # Bounds of integer variables: rounding inwards can be infeasible
+        min_p = np.floor(np.min(mins))
+        max_p = np.ceil(np.max(maxs))
 
         # Initialize solver
         solver = pywraplp.Solver(
-- 
2.43.0


From 2391190c7729ef3c77e682bdb620d390cc997382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:35 +0000
Subject: [PATCH 23/62] fix: refit of a scorecard without intercept keeps the
 old intercept

---
 optbinning/scorecard/scorecard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 09d0dd0..b726030 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -580,6 +580,7 @@ class Scorecard(Base, BaseEstimator):
                                '"coef_" attribute.')
 
         # Build scorecard
+        self.intercept_ = 0
         time_build_scorecard = time.perf_counter()
 
         if self.verbose:
-- 
2.43.0


From 3118320edd2c93fc07b7b85e3d7ca05d9789a9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:51 +0000
Subject: [PATCH 24/62] fix: per-variable transform parameters leaked to the
 next variables

---
 optbinning/binning/binning_process.py | 28 ++++++++++++---------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 4c53022..a98b84c 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1426,15 +1426,13 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             if self.binning_transform_params is not None:
                 params = self.binning_transform_params.get(name, {})
 
-            metric = params.get("metric", metric)
-            metric_missing = params.get("metric_missing", metric_missing)
-            metric_special = params.get("metric_special", metric_special)
-
             tparams = {
                 "x": x,
-                "metric": metric,
-                "metric_special": metric_special,
-                "metric_missing": metric_missing,
+                "metric": params.get("metric", metric),
+                "metric_special": params.get("metric_special",
+                                             metric_special),
+                "metric_missing": params.get("metric_missing",
+                                             metric_missing),
                 "check_input": check_input,
                 "show_digits": show_digits
                 }
@@ -1442,7 +1440,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             if isinstance(optb, _OPTBPW_TYPES):
                 tparams.pop("show_digits")
 
-            if metric is None:
+            if tparams["metric"] is None:
                 tparams.pop("metric")
 
             X_transform[:, i] = optb.transform(**tparams)
@@ -1524,22 +1522,20 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if self.binning_transform_params is not None:
                     params = self.binning_transform_params.get(name, {})
 
-                metric = params.get("metric", metric)
-                metric_missing = params.get("metric_missing", metric_missing)
-                metric_special = params.get("metric_special", metric_special)
-
                 tparams = {
                     "x": chunk[name],
-                    "metric": metric,
-                    "metric_special": metric_special,
-                    "metric_missing": metric_missing,
+                    "metric": params.get("metric", metric),
+                    "metric_special": params.get("metric_special",
+                                                 metric_special),
+                    "metric_missing": params.get("metric_missing",
+                                                 metric_missing),
                     "show_digits": show_digits
                     }
 
                 if isinstance(optb, _OPTBPW_TYPES):
                     tparams.pop("show_digits")
 
-                if metric is None:
+                if tparams["metric"] is None:
                     tparams.pop("metric")
 
                 X_transform[:, i] = optb.transform(**tparams)
-- 
2.43.0


From eb0e0f3b7d2e624d597640ec7c0b5f733439c23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:51 +0000
Subject: [PATCH 25/62] fix: pass max_bin_size of the binning process to its
 variables

---
 optbinning/binning/binning_process.py | 52 ++++++++++++++++-----------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index a98b84c..5a2a116 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -74,8 +74,8 @@ def _read_column(input_path, extension, column, **kwargs):
 
 def _fit_variable(x, y, name, target_dtype, categorical_variables,
                   binning_fit_params, max_n_prebins, min_prebin_size,
-                  min_n_bins, max_n_bins, min_bin_size, max_pvalue,
-                  max_pvalue_policy, special_codes, split_digits,
+                  min_n_bins, max_n_bins, min_bin_size, max_bin_size,
+                  max_pvalue, max_pvalue_policy, special_codes, split_digits,
                   sample_weight=None):
     params = {}
     dtype = _check_variable_dtype(x)
@@ -92,7 +92,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
             name=name, dtype=dtype, max_n_prebins=max_n_prebins,
             min_prebin_size=min_prebin_size,
             min_n_bins=min_n_bins, max_n_bins=max_n_bins,
-            min_bin_size=min_bin_size, max_pvalue=max_pvalue,
+            min_bin_size=min_bin_size, max_bin_size=max_bin_size,
+            max_pvalue=max_pvalue,
             max_pvalue_policy=max_pvalue_policy,
             special_codes=special_codes,
             split_digits=split_digits)
@@ -101,7 +102,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
             name=name, dtype=dtype, max_n_prebins=max_n_prebins,
             min_prebin_size=min_prebin_size,
             min_n_bins=min_n_bins, max_n_bins=max_n_bins,
-            min_bin_size=min_bin_size, max_pvalue=max_pvalue,
+            min_bin_size=min_bin_size, max_bin_size=max_bin_size,
+            max_pvalue=max_pvalue,
             max_pvalue_policy=max_pvalue_policy,
             special_codes=special_codes,
             split_digits=split_digits)
@@ -113,7 +115,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
             name=name, max_n_prebins=max_n_prebins,
             min_prebin_size=min_prebin_size,
             min_n_bins=min_n_bins, max_n_bins=max_n_bins,
-            min_bin_size=min_bin_size, max_pvalue=max_pvalue,
+            min_bin_size=min_bin_size, max_bin_size=max_bin_size,
+            max_pvalue=max_pvalue,
             max_pvalue_policy=max_pvalue_policy,
             special_codes=special_codes,
             split_digits=split_digits)
@@ -130,8 +133,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
 
 def _fit_block(X, y, names, target_dtype, categorical_variables,
                binning_fit_params, max_n_prebins, min_prebin_size,
-               min_n_bins, max_n_bins, min_bin_size, max_pvalue,
-               max_pvalue_policy, special_codes, split_digits,
+               min_n_bins, max_n_bins, min_bin_size, max_bin_size,
+               max_pvalue, max_pvalue_policy, special_codes, split_digits,
                sample_weight=None):
 
     variable_dtypes = {}
@@ -142,14 +145,16 @@ def _fit_block(X, y, names, target_dtype, categorical_variables,
             dtype, optb = _fit_variable(
                 X[:, i], y, name, target_dtype, categorical_variables,
                 binning_fit_params, max_n_prebins, min_prebin_size, min_n_bins,
-                max_n_bins, min_bin_size, max_pvalue, max_pvalue_policy,
-                special_codes, split_digits, sample_weight)
+                max_n_bins, min_bin_size, max_bin_size, max_pvalue,
+                max_pvalue_policy, special_codes, split_digits,
+                sample_weight)
         else:
             dtype, optb = _fit_variable(
                 X[name], y, name, target_dtype, categorical_variables,
                 binning_fit_params, max_n_prebins, min_prebin_size, min_n_bins,
-                max_n_bins, min_bin_size, max_pvalue, max_pvalue_policy,
-                special_codes, split_digits, sample_weight)
+                max_n_bins, min_bin_size, max_bin_size, max_pvalue,
+                max_pvalue_policy, special_codes, split_digits,
+                sample_weight)
 
         variable_dtypes[name] = dtype
         binned_variables[name] = optb
@@ -1121,16 +1126,18 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.categorical_variables, self.binning_fit_params,
                         self.max_n_prebins, self.min_prebin_size,
                         self.min_n_bins, self.max_n_bins, self.min_bin_size,
-                        self.max_pvalue, self.max_pvalue_policy,
-                        self.special_codes, self.split_digits, sample_weight)
+                        self.max_bin_size, self.max_pvalue,
+                        self.max_pvalue_policy, self.special_codes,
+                        self.split_digits, sample_weight)
                 else:
                     dtype, optb = _fit_variable(
                         X[name], y, name, self._target_dtype,
                         self.categorical_variables, self.binning_fit_params,
                         self.max_n_prebins, self.min_prebin_size,
                         self.min_n_bins, self.max_n_bins, self.min_bin_size,
-                        self.max_pvalue, self.max_pvalue_policy,
-                        self.special_codes, self.split_digits, sample_weight)
+                        self.max_bin_size, self.max_pvalue,
+                        self.max_pvalue_policy, self.special_codes,
+                        self.split_digits, sample_weight)
 
                 self._variable_dtypes[name] = dtype
                 self._binned_variables[name] = optb
@@ -1147,8 +1154,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.binning_fit_params, self.max_n_prebins,
                         self.min_prebin_size, self.min_n_bins,
                         self.max_n_bins, self.min_bin_size,
-                        self.max_pvalue, self.max_pvalue_policy,
-                        self.special_codes, self.split_digits, sample_weight)
+                        self.max_bin_size, self.max_pvalue,
+                        self.max_pvalue_policy, self.special_codes,
+                        self.split_digits, sample_weight)
                     for id_block in id_blocks)
 
             else:
@@ -1159,8 +1167,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.binning_fit_params, self.max_n_prebins,
                         self.min_prebin_size, self.min_n_bins,
                         self.max_n_bins, self.min_bin_size,
-                        self.max_pvalue, self.max_pvalue_policy,
-                        self.special_codes, self.split_digits, sample_weight)
+                        self.max_bin_size, self.max_pvalue,
+                        self.max_pvalue_policy, self.special_codes,
+                        self.split_digits, sample_weight)
                     for id_block in id_blocks)
 
             for b in blocks:
@@ -1241,8 +1250,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 x, y, name, self._target_dtype, self.categorical_variables,
                 self.binning_fit_params, self.max_n_prebins,
                 self.min_prebin_size, self.min_n_bins, self.max_n_bins,
-                self.min_bin_size, self.max_pvalue, self.max_pvalue_policy,
-                self.special_codes, self.split_digits)
+                self.min_bin_size, self.max_bin_size, self.max_pvalue,
+                self.max_pvalue_policy, self.special_codes,
+                self.split_digits)
 
             self._variable_dtypes[name] = dtype
             self._binned_variables[name] = optb
-- 
2.43.0


From 8f6b732b4f2d3e8fbf31764eb29b970f55800bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:51 +0000
Subject: [PATCH 26/62] fix: stale selection after updating a binned variable

---
 optbinning/binning/binning_process.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 5a2a116..5dd8f2d 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -909,6 +909,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         n_numerical = list(self._variable_dtypes.values()).count("numerical")
         n_categorical = self._n_variables - n_numerical
 
+        self._refresh_support()
         self._n_selected = np.count_nonzero(self._support)
 
         dict_user_options = self.get_params()
@@ -929,9 +930,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         """
         self._check_is_fitted()
 
-        if self._is_updated:
-            self._binning_selection_criteria()
-            self._is_updated = False
+        self._refresh_support()
 
         df_summary = pd.DataFrame.from_dict(self._variable_stats).T
         df_summary.reset_index(inplace=True)
@@ -1017,6 +1016,12 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         self._binned_variables[name] = optb
         self._is_updated = True
 
+    def _refresh_support(self):
+        """Reevaluate the selection criteria after updating variables."""
+        if self._is_updated:
+            self._binning_selection_criteria()
+            self._is_updated = False
+
     def get_support(self, indices=False, names=False):
         """Get a mask, or integer index, or names of the variables selected.
 
@@ -1047,6 +1052,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         if indices and names:
             raise ValueError("Only indices or names can be True.")
 
+        self._refresh_support()
+
         mask = self._support
         if indices:
             return np.where(mask)[0]
-- 
2.43.0


From e2e34a591ef8b3dd5196e5147a17e360621147c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:51 +0000
Subject: [PATCH 27/62] fix: metrics truncated to integers when mixed with
 indices

---
 optbinning/binning/binning_process.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 5dd8f2d..0118e20 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1418,6 +1418,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if "bins" in metrics:
                     raise ValueError(
                         "metric 'bins' cannot be mixed with numeric metrics.")
+
+                # indices are integers, other metrics are not.
+                base_metric = None
             else:
                 base_metric = metrics.pop()
 
@@ -1514,6 +1517,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if "bins" in metrics:
                     raise ValueError(
                         "metric 'bins' cannot be mixed with numeric metrics.")
+
+                # indices are integers, other metrics are not.
+                base_metric = None
             else:
                 base_metric = metrics.pop()
 
-- 
2.43.0


From 725fc264da3246cd1b7f9914aef67bf458a996b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:05 +0000
Subject: [PATCH 28/62] fix: continuous piecewise binning could not update a
 binned variable

---
 optbinning/binning/binning_process.py         |  4 +-
 .../binning/piecewise/binning_statistics.py   | 43 +++++++++++++++++++
 2 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 0118e20..539d31b 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -405,10 +405,10 @@ class BaseBinningProcess:
             optb.binning_table.build()
 
             n_bins = len(optb.splits)
-            if isinstance(optb, OptimalPWBinning) or optb.dtype == "numerical":
+            if isinstance(optb, _OPTBPW_TYPES) or optb.dtype == "numerical":
                 n_bins += 1
 
-            if isinstance(optb, OptimalPWBinning):
+            if isinstance(optb, _OPTBPW_TYPES):
                 dtype = "numerical"
             else:
                 dtype = optb.dtype
diff --git a/optbinning/binning/piecewise/binning_statistics.py b/optbinning/binning/piecewise/binning_statistics.py
index 3092256..4d4faca 100644
--- a/optbinning/binning/piecewise/binning_statistics.py
+++ b/optbinning/binning/piecewise/binning_statistics.py
@@ -14,6 +14,7 @@ import pandas as pd
 from scipy import stats
 
 from ...binning.binning_statistics import _check_build_parameters
+from ...binning.binning_statistics import _check_is_analyzed
 from ...binning.binning_statistics import _check_is_built
 from ...binning.binning_statistics import bin_str_format
 from ...binning.binning_statistics import BinningTable
@@ -464,6 +465,8 @@ class PWContinuousBinningTable:
         self.d_metrics = d_metrics
 
         self._mean = None
+        self._woe = None
+        self._quality_score = None
         self._hhi = None
         self._hhi_norm = None
         self._n_specials = None
@@ -496,6 +499,8 @@ class PWContinuousBinningTable:
         self._mean = np.zeros(len(self.n_records))
         self._mean[mask] = self.sums[mask] / self.n_records[mask]
 
+        self._woe = np.absolute(self._mean - t_sum / t_n_records).sum()
+
         # Compute HHI
         self._hhi = hhi(p_records)
         self._hhi_norm = hhi(p_records, normalized=True)
@@ -688,3 +693,41 @@ class PWContinuousBinningTable:
 
         if print_output:
             print(report)
+
+        self._is_analyzed = True
+
+    @property
+    def woe(self):
+        r"""The sum of absolute WoEs.
+
+        This metric is computed as follows:
+
+        .. math::
+
+            WoE = \sum_{i=1}^n |U_i - \mu|,
+
+        where :math:`U_i` is the target mean value for each bin, :math:`\mu` is
+        the total target mean.
+
+        Returns
+        -------
+        woe : float
+        """
+        _check_is_built(self)
+
+        return self._woe
+
+    @property
+    def quality_score(self):
+        """The quality score (QS).
+
+        The QS is a rating of the quality and discriminatory power of a
+        variable. The QS ranges from 0 to 1.
+
+        Returns
+        -------
+        quality_score : float
+        """
+        _check_is_analyzed(self)
+
+        return self._quality_score
-- 
2.43.0


From 3a4fa93188c03960cb4015cabf8e88b49700c742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:08 +0000
Subject: [PATCH 29/62] fix: file extension of paths with other dots was not
 recognised

---
 optbinning/binning/binning_process.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 539d31b..455d23f 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1211,7 +1211,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         _check_parameters(**self.get_params())
 
         # Input file extension
-        extension = input_path.split(".")[1]
+        extension = input_path.split(".")[-1]
 
         # Check extension
         if extension not in ("csv", "parquet"):
@@ -1475,8 +1475,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         metric_special, metric_missing, show_digits, **kwargs):
 
         # check input_path and output_path extensions
-        input_extension = input_path.split(".")[1]
-        output_extension = output_path.split(".")[1]
+        input_extension = input_path.split(".")[-1]
+        output_extension = output_path.split(".")[-1]
 
         if input_extension != "csv" or output_extension != "csv":
             raise ValueError("input_path and output_path must be csv files.")
-- 
2.43.0


From 8c1b8f581506ab87eca468ce54e6eda582b781a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:56 +0000
Subject: [PATCH 30/62] fix: KS missed the first record and depended on the
 order of ties

---
 optbinning/metrics/classification.py | 8 ++++++--
 optbinning/scorecard/plots.py        | 8 ++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/optbinning/metrics/classification.py b/optbinning/metrics/classification.py
index ab8cd80..052b4b0 100644
--- a/optbinning/metrics/classification.py
+++ b/optbinning/metrics/classification.py
@@ -54,14 +54,18 @@ def ks(y_true, y_pred_proba):
     yy = y_true[idx]
 
     cum_event = np.cumsum(yy)
-    cum_population = np.arange(0, n_samples)
+    cum_population = np.arange(1, n_samples + 1)
     cum_nonevent = cum_population - cum_event
 
     p_event = cum_event / n_event
     p_nonevent = cum_nonevent / n_nonevent
 
     p_diff = p_nonevent - p_event
-    ks_max_idx = np.argmax(p_diff)
+
+    # the distributions are only compared at distinct predictions
+    idx_distinct = np.flatnonzero(
+        np.append(np.diff(np.sort(y_pred_proba)) > 0, True))
+    ks_max_idx = idx_distinct[np.argmax(p_diff[idx_distinct])]
     ks_score = p_diff[ks_max_idx]
 
     return ks_score, ks_max_idx
diff --git a/optbinning/scorecard/plots.py b/optbinning/scorecard/plots.py
index 1873ac5..b6de327 100644
--- a/optbinning/scorecard/plots.py
+++ b/optbinning/scorecard/plots.py
@@ -14,6 +14,8 @@ from sklearn.metrics import roc_curve, roc_auc_score
 from sklearn.utils import check_array
 from sklearn.utils import check_consistent_length
 
+from ..metrics.classification import ks
+
 
 def _check_arrays(y, y_pred):
     y = check_array(y, ensure_2d=False, force_all_finite=True)
@@ -221,15 +223,13 @@ def plot_ks(y, y_pred, title=None, xlabel=None, ylabel=None,
     pp = y_pred[idx]
 
     cum_event = np.cumsum(yy)
-    cum_population = np.arange(0, n_samples)
+    cum_population = np.arange(1, n_samples + 1)
     cum_nonevent = cum_population - cum_event
 
     p_event = cum_event / n_event
     p_nonevent = cum_nonevent / n_nonevent
 
-    p_diff = p_nonevent - p_event
-    ks_score = np.max(p_diff)
-    ks_max_idx = np.argmax(p_diff)
+    ks_score, ks_max_idx = ks(y, y_pred)
 
     # Define the plot settings
     if title is None:
-- 
2.43.0


From 80ed3b6349330f241cb0280f47fe767587e6323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:30 +0000
Subject: [PATCH 31/62] fix: scores equal to a split were counted in the wrong
 bin of the PSI table

---
 optbinning/scorecard/monitoring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 0226dad..b1bf43b 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -499,8 +499,8 @@ class ScorecardMonitoring(BaseEstimator):
         n_bins = len(splits) + 1
 
         # Compute basic metrics
-        indices_a = np.digitize(score_actual, splits, right=True)
-        indices_e = np.digitize(score_expected, splits, right=True)
+        indices_a = np.digitize(score_actual, splits, right=False)
+        indices_e = np.digitize(score_expected, splits, right=False)
 
         if self._target_dtype == "binary":
             n_nonevent_a = np.empty(n_bins, dtype=np.int64)
-- 
2.43.0


From e43e70062c7832737ec54e5f4b98623d1eac45a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:30 +0000
Subject: [PATCH 32/62] fix: PSI of variables dropped bins without expected
 records

---
 optbinning/scorecard/monitoring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index b1bf43b..0f617ed 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -784,7 +784,7 @@ class ScorecardMonitoring(BaseEstimator):
             ta = optb.transform(X_actual[name], metric="indices")
             te = optb.transform(X_expected[name], metric="indices")
 
-            n_bins = te.max() + 1
+            n_bins = max(ta.max(), te.max()) + 1
 
             n_records_a = np.empty(n_bins, dtype=np.int64)
             n_records_e = np.empty(n_bins, dtype=np.int64)
-- 
2.43.0


From 74e7a4cc29554a89d725fd8e48f54f3310f2f967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:30 +0000
Subject: [PATCH 33/62] fix: PSI was undefined if a bin has no records in both
 samples

---
 optbinning/scorecard/monitoring.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 0f617ed..1fc4e25 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -70,6 +70,17 @@ def _check_parameters(scorecard, psi_method, psi_n_bins,
         raise TypeError("verbose must be a boolean; got {}.".format(verbose))
 
 
+def _psi(p_records_a, p_records_e):
+    # bins without records in both samples do not contribute
+    mask = (p_records_a > 0) | (p_records_e > 0)
+
+    psi = np.zeros(len(p_records_a))
+    psi[mask] = jeffrey(p_records_a[mask], p_records_e[mask],
+                        return_sum=False)
+
+    return psi
+
+
 def print_psi_report(df_psi):
     t_psi = df_psi.PSI.values[-1]
     psi = df_psi.PSI.values[:-1]
@@ -585,7 +596,7 @@ class ScorecardMonitoring(BaseEstimator):
         p_records_a = n_records_a / t_n_records_a
         p_records_e = n_records_e / t_n_records_e
 
-        psi = jeffrey(p_records_a, p_records_e, return_sum=False)
+        psi = _psi(p_records_a, p_records_e)
 
         df_psi = pd.DataFrame({
             "Bin": bin_str,
@@ -798,7 +809,7 @@ class ScorecardMonitoring(BaseEstimator):
             p_records_a = n_records_a / t_n_records_a
             p_records_e = n_records_e / t_n_records_e
 
-            psi = jeffrey(p_records_a, p_records_e, return_sum=False)
+            psi = _psi(p_records_a, p_records_e)
             bins = sc_table[sc_table.Variable == name]["Bin"].values[:n_bins]
 
             df_psi = pd.DataFrame({
-- 
2.43.0


From 5de2148e3a3e55fcc966edbdba00f19ea09998b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:57 +0000
Subject: [PATCH 34/62] fix: monitoring failed if a score bin has no records,
 events or non-events

---
 optbinning/scorecard/monitoring.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 1fc4e25..a427917 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -630,7 +630,11 @@ class ScorecardMonitoring(BaseEstimator):
                 [n_nonevent_a[i], n_nonevent_e[i]],
                 [n_event_a[i], n_event_e[i]]])
 
-            t, p, _, _ = stats.chi2_contingency(obs, correction=False)
+            # test undefined without records, events or non-events
+            if obs.sum(axis=0).all() and obs.sum(axis=1).all():
+                t, p, _, _ = stats.chi2_contingency(obs, correction=False)
+            else:
+                t, p = np.nan, np.nan
 
             t_statistics.append(t)
             p_values.append(p)
-- 
2.43.0


From 77079983653d0abc5de2691f68ac811c9f145a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:30 +0000
Subject: [PATCH 35/62] fix: HDI range detector failed if the interval contains
 all values

---
 optbinning/binning/outlier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/outlier.py b/optbinning/binning/outlier.py
index 1537fb1..9bb45e9 100644
--- a/optbinning/binning/outlier.py
+++ b/optbinning/binning/outlier.py
@@ -108,7 +108,7 @@ class RangeDetector(BaseEstimator, OutlierDetector):
         else:
             n = len(x)
             xsorted = np.sort(x)
-            n_included = int(np.ceil(self.interval_length * n))
+            n_included = min(int(np.ceil(self.interval_length * n)), n - 1)
             n_ci = n - n_included
             ci = xsorted[n_included:] - xsorted[:n_ci]
             j = np.argmin(ci)
-- 
2.43.0


From 2739bd61a5c07bf65cc9620b89fff2e111f9d4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:30 +0000
Subject: [PATCH 36/62] fix: y-quantile outlier detector failed if a bin has no
 records

---
 optbinning/binning/outlier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optbinning/binning/outlier.py b/optbinning/binning/outlier.py
index 9bb45e9..b28df6e 100644
--- a/optbinning/binning/outlier.py
+++ b/optbinning/binning/outlier.py
@@ -219,6 +219,9 @@ class YQuantileDetector(BaseEstimator, OutlierDetector):
 
         for i in range(n_bins):
             mask_x = indices == i
+            if not mask_x.any():
+                continue
+
             detector.fit(y[mask_x])
             mask_out = detector.get_support()
             idx_out = idx_support[mask_x][mask_out]
-- 
2.43.0


From 86f150ca8cdee6e8e5d947dec7307536ceba86ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:23 +0000
Subject: [PATCH 37/62] fix: binning sketch counted values equal to a split
 point in the previous bin

---
 optbinning/binning/distributed/bsketch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index d75a10f..681a43d 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -58,7 +58,8 @@ def _indices_count(sketch_type, sketch, splits):
             values[i] = centroid.mean
             count[i] = centroid.count
 
-    indices = np.searchsorted(splits, values, side='left')
+    # bins are closed on the left and open on the right
+    indices = np.searchsorted(splits, values, side='right')
     return indices, count
 
 
-- 
2.43.0


From adb38371a9b397a96b6fb697062d37adac84bb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:24 +0000
Subject: [PATCH 38/62] fix: merging a sketch without clean records lost
 missing and special counts

---
 optbinning/binning/distributed/bsketch.py | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index 681a43d..3ccf128 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -185,13 +185,6 @@ class BSketch:
         if not self._mergeable(bsketch):
             raise Exception("bsketch does not share signature.")
 
-        if bsketch._sketch_e.n == 0 and bsketch._sketch_ne.n == 0:
-            return
-
-        if self._sketch_e.n == 0 and self._sketch_ne.n == 0:
-            self._copy(bsketch)
-            return
-
         # Merge sketches
         if self.sketch == "gk":
             self._sketch_e.merge(bsketch._sketch_e)
@@ -218,16 +211,6 @@ class BSketch:
 
         return new_sketch
 
-    def _copy(self, bsketch):
-        self._sketch_e = bsketch._sketch_e
-        self._sketch_ne = bsketch._sketch_ne
-
-        # Merge missing and special counts
-        self._count_missing_e = bsketch._count_missing_e
-        self._count_missing_ne = bsketch._count_missing_ne
-        self._count_special_e = bsketch._count_special_e
-        self._count_special_ne = bsketch._count_special_ne
-
     def _mergeable(self, other):
         special_eq = True
         if self.special_codes is not None and other.special_codes is not None:
-- 
2.43.0


From ac4a641627b187402cc3c4812c16d225670c1f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:24 +0000
Subject: [PATCH 39/62] fix: merged categorical sketches shared the counts of
 new categories

---
 optbinning/binning/distributed/bsketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index 3ccf128..ebe5bdd 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -385,7 +385,7 @@ class BCatSketch:
                 self._d_categories[k][0] += v[0]
                 self._d_categories[k][1] += v[1]
             else:
-                self._d_categories[k] = v
+                self._d_categories[k] = list(v)
 
         # Merge missing and special counts
         self._count_missing_e += bcatsketch._count_missing_e
-- 
2.43.0


From 4d2e4ede50d9dc69109c184a70d53678df06ffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:24 +0000
Subject: [PATCH 40/62] fix: binning sketches without data could not be merged

---
 .../binning/distributed/binning_sketch.py     | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 06243d5..8649eb4 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -472,12 +472,7 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         check_input : bool (default=False)
             Whether to check input arrays.
         """
-        if self._bsketch is None:
-            if self.dtype == "numerical":
-                self._bsketch = BSketch(self.sketch, self.eps, self.K,
-                                        self.special_codes)
-            else:
-                self._bsketch = BCatSketch(self.cat_cutoff, self.special_codes)
+        self._init_sketch()
 
         # Add new data stream
         time_add = time.perf_counter()
@@ -541,7 +536,10 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         if not self.mergeable(optbsketch):
             raise Exception("optbsketch does not share signature.")
 
-        self._bsketch.merge(optbsketch._bsketch)
+        if optbsketch._bsketch is not None:
+            self._init_sketch()
+            self._bsketch.merge(optbsketch._bsketch)
+            self._n_add += optbsketch._n_add
 
         if self.verbose:
             logger.info("Sketch: current sketch was merged.")
@@ -699,6 +697,14 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
                                        metric, metric_special, metric_missing,
                                        None, show_digits, check_input)
 
+    def _init_sketch(self):
+        if self._bsketch is None:
+            if self.dtype == "numerical":
+                self._bsketch = BSketch(self.sketch, self.eps, self.K,
+                                        self.special_codes)
+            else:
+                self._bsketch = BCatSketch(self.cat_cutoff, self.special_codes)
+
     def _prebinning_data(self):
         self._n_nonevent_missing = self._bsketch._count_missing_ne
         self._n_nonevent_special = self._bsketch._count_special_ne
-- 
2.43.0


From b0a033a9dbb5ee1b713015dcc6b71d60ad228e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:43 +0000
Subject: [PATCH 41/62] fix: binning sketch refinement of pure prebins and
 counts of a single bin

---
 .../binning/distributed/binning_sketch.py     | 72 +++++++++----------
 1 file changed, 32 insertions(+), 40 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 8649eb4..3fd2f78 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -435,6 +435,7 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
 
         # info
         self._binning_table = None
+        self._optimizer = None
         self._n_refinements = 0
         self._n_prebins = None
 
@@ -609,10 +610,6 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
 
         time_postprocessing = time.perf_counter()
 
-        if not len(splits):
-            n_nonevent = np.array([self._t_n_nonevent])
-            n_event = np.array([self._t_n_event])
-
         self._n_nonevent, self._n_event = bin_info(
             self._solution, n_nonevent, n_event, self._n_nonevent_missing,
             self._n_event_missing, self._n_nonevent_special,
@@ -714,6 +711,9 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         self._t_n_nonevent = self._bsketch.n_nonevent
         self._t_n_event = self._bsketch.n_event
 
+        self._n_refinements = 0
+        self._flag_min_n_event_nonevent = False
+
         if self.dtype == "numerical":
             sketch_all = self._bsketch.merge_sketches()
 
@@ -738,21 +738,18 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
             self._n_nonevent_cat_others = n_nonevent_others
             self._n_event_cat_others = n_event_others
 
-            [splits, categories, n_nonevent,
-             n_event] = self._compute_cat_prebins(splits, categories,
-                                                  n_nonevent, n_event)
+            splits, n_nonevent, n_event = self._compute_cat_prebins(
+                splits, n_nonevent, n_event)
 
         self._splits_prebinning = splits
 
         return splits, n_nonevent, n_event
 
     def _compute_prebins(self, splits):
-        self._n_refinements = 0
-
         n_event, n_nonevent = self._bsketch.bins(splits)
         mask_remove = (n_nonevent == 0) | (n_event == 0)
 
-        if np.any(mask_remove):
+        if np.any(mask_remove) and len(splits):
             if self.divergence in ("hellinger", "triangular"):
                 self._flag_min_n_event_nonevent = True
             else:
@@ -766,50 +763,45 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
 
         return splits, n_nonevent, n_event
 
-    def _compute_cat_prebins(self, splits, categories, n_nonevent, n_event):
-        self._n_refinements = 0
+    def _compute_cat_prebins(self, splits, cat_nonevent, cat_event):
+        # Counts of the bins of consecutive categories given by the splits
+        splits_int = np.ceil(splits).astype(int)
+        indices = np.digitize(np.arange(len(cat_event)), splits_int,
+                              right=False)
+        n_bins = len(splits) + 1
+
+        n_nonevent = np.empty(n_bins, dtype=np.int64)
+        n_event = np.empty(n_bins, dtype=np.int64)
+        for i in range(n_bins):
+            mask = (indices == i)
+            n_nonevent[i] = cat_nonevent[mask].sum()
+            n_event[i] = cat_event[mask].sum()
+
         mask_remove = (n_nonevent == 0) | (n_event == 0)
+        mask_size = np.zeros(n_bins, dtype=bool)
 
-        if self.cat_heuristic and len(categories) > self.max_n_prebins:
+        if self.cat_heuristic and n_bins > self.max_n_prebins:
             n_records = n_nonevent + n_event
             mask_size = n_records < self._bsketch.n / self.max_n_prebins
-            mask_remove |= mask_size
 
-        if np.any(mask_remove):
+        if np.any(mask_remove) and len(splits):
             if self.divergence in ("hellinger", "triangular"):
                 self._flag_min_n_event_nonevent = True
-
-                if self.cat_heuristic:
-                    mask_remove = mask_size
+                mask_remove = mask_size
             else:
                 self._n_refinements += 1
+                mask_remove |= mask_size
+        else:
+            mask_remove = mask_size
 
+        if np.any(mask_remove) and len(splits):
             mask_splits = np.concatenate(
                 [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
-            splits = splits[~mask_splits]
-
-            splits_int = np.ceil(splits).astype(int)
-            indices = np.digitize(np.arange(len(categories)), splits_int,
-                                  right=False)
-            n_bins = len(splits) + 1
+            splits, n_nonevent, n_event = self._compute_cat_prebins(
+                splits[~mask_splits], cat_nonevent, cat_event)
 
-            new_nonevent = np.empty(n_bins, dtype=np.int64)
-            new_event = np.empty(n_bins, dtype=np.int64)
-            new_categories = []
-            for i in range(n_bins):
-                mask = (indices == i)
-                new_categories.append(categories[mask])
-                new_nonevent[i] = n_nonevent[mask].sum()
-                new_event[i] = n_event[mask].sum()
-
-            new_categories = np.array(new_categories, dtype=object)
-
-            [splits, categories, n_nonevent,
-             n_event] = self._compute_cat_prebins(
-                splits, new_categories, new_nonevent, new_event)
-
-        return splits, categories, n_nonevent, n_event
+        return splits, n_nonevent, n_event
 
     def _fit_optimizer(self, splits, n_nonevent, n_event):
         if self.verbose:
-- 
2.43.0


From 3a1e661add91574894accc8880cd000add18c3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:43 +0000
Subject: [PATCH 42/62] fix: binning sketch ignored split_digits

---
 optbinning/binning/distributed/binning_sketch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 3fd2f78..4b77146 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -728,6 +728,9 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
                 splits = np.array([sketch_all.percentile(p)
                                    for p in percentiles[1:-1]])
 
+            if self.split_digits is not None:
+                splits = np.round(splits, self.split_digits)
+
             splits, n_nonevent, n_event = self._compute_prebins(splits)
         else:
             [splits, categories, n_nonevent, n_event, cat_others,
-- 
2.43.0


From c521240ee5fd962e38d53128e45a231bf238e9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:43 +0000
Subject: [PATCH 43/62] fix: transform options of a variable leaked into the
 next variables of a process sketch

---
 optbinning/binning/distributed/binning_process_sketch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index c06e2c8..4318acd 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -563,14 +563,14 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
             if self.binning_transform_params is not None:
                 params = self.binning_transform_params.get(name, {})
 
-            metric_missing = params.get("metric_missing", metric_missing)
-            metric_special = params.get("metric_special", metric_special)
 
             tparams = {
                 "x": x,
                 "metric": metric,
-                "metric_special": metric_special,
-                "metric_missing": metric_missing,
+                "metric_special": params.get("metric_special",
+                                             metric_special),
+                "metric_missing": params.get("metric_missing",
+                                             metric_missing),
                 "check_input": check_input,
                 "show_digits": show_digits
                 }
-- 
2.43.0


From 20fbd19a3fe935e9c2ac8feb35ad55b2fd598951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:02 +0000
Subject: [PATCH 44/62] fix: merged binning process sketches lost the number of
 samples and additions

---
 .../distributed/binning_process_sketch.py     | 111 ++++++++++--------
 1 file changed, 60 insertions(+), 51 deletions(-)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 4318acd..d5fe2d8 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -293,54 +293,7 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
         self : BinningProcessSketch
             Binning process with new data.
         """
-        if not self._is_started:
-            self._n_samples = 0
-            self._n_variables = len(self.variable_names)
-
-            if self.categorical_variables is not None:
-                self._n_categorical = len(self.categorical_variables)
-            else:
-                self._n_categorical = 0
-
-            self._n_numerical = self._n_variables - self._n_categorical
-
-            # Check selection criteria
-            if self.selection_criteria is not None:
-                _check_selection_criteria(self.selection_criteria,
-                                          self._target_dtype)
-
-            # Initialize bsketch for each variable. To avoid mixed dtypes
-            # the user must provide a dtype for all variables. This differs
-            # from the BinningProcess, where dtypes are inferred.
-            for name in self.variable_names:
-                if (self.categorical_variables is not None and
-                        name in self.categorical_variables):
-                    dtype = "categorical"
-                else:
-                    dtype = "numerical"
-
-                optb = OptimalBinningSketch(
-                        name=name, dtype=dtype,
-                        max_n_prebins=self.max_n_prebins,
-                        min_n_bins=self.min_n_bins,
-                        max_n_bins=self.max_n_bins,
-                        min_bin_size=self.min_bin_size,
-                        max_pvalue=self.max_pvalue,
-                        max_pvalue_policy=self.max_pvalue_policy,
-                        special_codes=self.special_codes,
-                        split_digits=self.split_digits)
-
-                if self.binning_fit_params is not None:
-                    params = self.binning_fit_params.get(name, {})
-                else:
-                    params = {}
-
-                optb.set_params(**params)
-
-                self._variable_dtypes[name] = dtype
-                self._binned_variables[name] = optb
-
-            self._is_started = True
+        self._start()
 
         # Add new data stream
         time_add = time.perf_counter()
@@ -423,9 +376,15 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
         if not self.mergeable(bpsketch):
             raise Exception("bpsketch does not share signature.")
 
-        for name in self.variable_names:
-            self._binned_variables[name].merge(
-                bpsketch._binned_variables[name])
+        if bpsketch._is_started:
+            self._start()
+
+            for name in self.variable_names:
+                self._binned_variables[name].merge(
+                    bpsketch._binned_variables[name])
+
+            self._n_samples += bpsketch._n_samples
+            self._n_add += bpsketch._n_add
 
         if self.verbose:
             logger.info("Sketch: current sketch was merged.")
@@ -640,3 +599,53 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
             return np.asarray(self.variable_names)[mask]
         else:
             return mask
+
+    def _start(self):
+        if not self._is_started:
+            self._n_samples = 0
+            self._n_variables = len(self.variable_names)
+
+            if self.categorical_variables is not None:
+                self._n_categorical = len(self.categorical_variables)
+            else:
+                self._n_categorical = 0
+
+            self._n_numerical = self._n_variables - self._n_categorical
+
+            # Check selection criteria
+            if self.selection_criteria is not None:
+                _check_selection_criteria(self.selection_criteria,
+                                          self._target_dtype)
+
+            # Initialize bsketch for each variable. To avoid mixed dtypes
+            # the user must provide a dtype for all variables. This differs
+            # from the BinningProcess, where dtypes are inferred.
+            for name in self.variable_names:
+                if (self.categorical_variables is not None and
+                        name in self.categorical_variables):
+                    dtype = "categorical"
+                else:
+                    dtype = "numerical"
+
+                optb = OptimalBinningSketch(
+                        name=name, dtype=dtype,
+                        max_n_prebins=self.max_n_prebins,
+                        min_n_bins=self.min_n_bins,
+                        max_n_bins=self.max_n_bins,
+                        min_bin_size=self.min_bin_size,
+                        max_pvalue=self.max_pvalue,
+                        max_pvalue_policy=self.max_pvalue_policy,
+                        special_codes=self.special_codes,
+                        split_digits=self.split_digits)
+
+                if self.binning_fit_params is not None:
+                    params = self.binning_fit_params.get(name, {})
+                else:
+                    params = {}
+
+                optb.set_params(**params)
+
+                self._variable_dtypes[name] = dtype
+                self._binned_variables[name] = optb
+
+            self._is_started = True
-- 
2.43.0


From fc12358a1151bf5fa4fe80ea61c907ce2636af32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:02 +0000
Subject: [PATCH 45/62] fix: binning process sketch ignored max_bin_size

---
 optbinning/binning/distributed/binning_process_sketch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index d5fe2d8..4d04487 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -633,6 +633,7 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
                         min_n_bins=self.min_n_bins,
                         max_n_bins=self.max_n_bins,
                         min_bin_size=self.min_bin_size,
+                        max_bin_size=self.max_bin_size,
                         max_pvalue=self.max_pvalue,
                         max_pvalue_policy=self.max_pvalue_policy,
                         special_codes=self.special_codes,
-- 
2.43.0


From 6f34d1e2a00418875013b96edc1a4dfe966160fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:02 +0000
Subject: [PATCH 46/62] fix: binning sketch accepted an invalid relative error

---
 optbinning/binning/distributed/binning_sketch.py | 4 ++--
 optbinning/binning/distributed/bsketch.py        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 4b77146..219e1ae 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -66,8 +66,8 @@ def _check_parameters(name, dtype, sketch, eps, K, solver, divergence,
         raise ValueError('Invalid value for sketch. Allowed string '
                          'values are "gk" and "t-digest".')
 
-    if not isinstance(eps, numbers.Number) or not 0 <= eps <= 1:
-        raise ValueError("eps must be a value in [0, 1]; got {}."
+    if not isinstance(eps, numbers.Number) or not 0 < eps <= 1:
+        raise ValueError("eps must be a value in (0, 1]; got {}."
                          .format(eps))
 
     if not isinstance(K, numbers.Integral) or K <= 0:
diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index ebe5bdd..3b7e8d0 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -30,8 +30,8 @@ def _check_parameters(sketch, eps, K, special_codes):
                           'install optbinning using pip install '
                           'optbinning[distributed]')
 
-    if not isinstance(eps, numbers.Number) and not 0 <= eps <= 1:
-        raise ValueError("eps must be a value in [0, 1]; got {}."
+    if not isinstance(eps, numbers.Number) or not 0 < eps <= 1:
+        raise ValueError("eps must be a value in (0, 1]; got {}."
                          .format(eps))
 
     if not isinstance(K, numbers.Integral) or K <= 0:
-- 
2.43.0


From 353da2111dfc3490de14fc773f4ae1ffaa21c00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:02 +0000
Subject: [PATCH 47/62] fix: piecewise binning did not validate max_n_prebins

---
 optbinning/binning/piecewise/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optbinning/binning/piecewise/base.py b/optbinning/binning/piecewise/base.py
index 7302d6f..cc7c734 100644
--- a/optbinning/binning/piecewise/base.py
+++ b/optbinning/binning/piecewise/base.py
@@ -72,6 +72,10 @@ def _check_parameters(name, estimator, objective, degree, continuous,
         raise ValueError('Invalid value for prebinning_method. Allowed string '
                          'values are "cart", "quantile" and "uniform".')
 
+    if not isinstance(max_n_prebins, numbers.Integral) or max_n_prebins <= 1:
+        raise ValueError("max_prebins must be an integer greater than 1; "
+                         "got {}.".format(max_n_prebins))
+
     if not 0. < min_prebin_size <= 0.5:
         raise ValueError("min_prebin_size must be in (0, 0.5]; got {}."
                          .format(min_prebin_size))
-- 
2.43.0


From 4e87c2cf634ff038d37172fab368b47c5f99de42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:54 +0000
Subject: [PATCH 48/62] fix: reports of a refitted binning included results of
 the previous fit

---
 optbinning/binning/binning.py                       | 6 ++++++
 optbinning/binning/continuous_binning.py            | 5 +++++
 optbinning/binning/multiclass_binning.py            | 5 +++++
 optbinning/binning/uncertainty/binning_scenarios.py | 5 +++++
 4 files changed, 21 insertions(+)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 4f87e00..426d729 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -708,6 +708,12 @@ class OptimalBinning(BaseOptimalBinning):
 
         _check_parameters(**self.get_params())
 
+        # Results of a previous fit
+        self._n_refinements = 0
+        self._flag_min_n_event_nonevent = False
+        self._optimizer = None
+        self._time_optimizer = None
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 4f01fa2..f972816 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -557,6 +557,11 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         _check_parameters(**self.get_params())
 
+        # Results of a previous fit
+        self._n_refinements = 0
+        self._optimizer = None
+        self._time_optimizer = None
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index 166f0bb..1c80a06 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -501,6 +501,11 @@ class MulticlassOptimalBinning(OptimalBinning):
 
         _check_parameters(**self.get_params())
 
+        # Results of a previous fit
+        self._n_refinements = 0
+        self._optimizer = None
+        self._time_optimizer = None
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index b0011f4..2955b89 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -481,6 +481,11 @@ class SBOptimalBinning(OptimalBinning):
 
         _check_parameters(**self.get_params())
 
+        # Results of a previous fit
+        self._n_refinements = 0
+        self._optimizer = None
+        self._time_optimizer = None
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
-- 
2.43.0


From f4244745b289b9d50e7fc83daa43e9ace0ee05ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:59 +0000
Subject: [PATCH 49/62] fix: special codes without records in binning with
 continuous target

---
 optbinning/binning/binning_statistics.py | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index b6d2845..86f6f3d 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -188,15 +188,9 @@ def target_info_special_continuous(special_codes, x, y, sw):
         n_records_special = []
         sum_special = []
         n_zeros_special = []
-
-        if len(y):
-            std_special = []
-            min_target_special = []
-            max_target_special = []
-        else:
-            std_special = None
-            min_target_special = None
-            max_target_special = None
+        std_special = []
+        min_target_special = []
+        max_target_special = []
 
         xt = pd.Series(x)
         for s in special_codes.values():
@@ -209,15 +203,9 @@ def target_info_special_continuous(special_codes, x, y, sw):
             n_records_special.append(n_records)
             sum_special.append(sums)
             n_zeros_special.append(n_zeros)
-
-            if np.any(mask):
-                std_special.append(std)
-                min_target_special.append(min_target)
-                max_target_special.append(max_target)
-            else:
-                std_special.append(0)
-                min_target_special.append(0)
-                max_target_special.append(0)
+            std_special.append(std)
+            min_target_special.append(min_target)
+            max_target_special.append(max_target)
     else:
         (n_records_special, sum_special, n_zeros_special, std_special,
          min_target_special, max_target_special) = target_info_continuous(
-- 
2.43.0


From 920051c12003147ec5624e4ca1750c0a50f255b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:11 +0000
Subject: [PATCH 50/62] fix: 2D binning failed if all candidate rectangles have
 the same size

---
 optbinning/binning/multidimensional/binning_2d.py            | 5 +++--
 optbinning/binning/multidimensional/continuous_binning_2d.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index ac66cb1..14b9a38 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -697,12 +697,13 @@ class OptimalBinning2D(OptimalBinning):
         D = np.empty(m * n, dtype=float)
         P = np.empty(m * n, dtype=int)
 
-        selected_rows = np.array(rows, dtype=object)[self._solution]
+        selected_rows = [row for row, selected in zip(rows, self._solution)
+                         if selected]
 
         self._selected_rows = selected_rows
         self._m, self._n = m, n
 
-        n_selected_rows = selected_rows.shape[0] + 2
+        n_selected_rows = len(selected_rows) + 2
 
         opt_n_nonevent = np.empty(n_selected_rows, dtype=int)
         opt_n_event = np.empty(n_selected_rows, dtype=int)
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index f24102e..eb5a7d2 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -622,12 +622,13 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
         D = np.empty(m * n, dtype=float)
         P = np.empty(m * n, dtype=int)
 
-        selected_rows = np.array(rows, dtype=object)[self._solution]
+        selected_rows = [row for row, selected in zip(rows, self._solution)
+                         if selected]
 
         self._selected_rows = selected_rows
         self._m, self._n = m, n
 
-        n_selected_rows = selected_rows.shape[0] + 2
+        n_selected_rows = len(selected_rows) + 2
 
         opt_sums = np.empty(n_selected_rows, dtype=float)
         opt_n_records = np.empty(n_selected_rows, dtype=int)
-- 
2.43.0


From 21f54f9ce3e6b3d25e73d6aa578f100c7b305f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:11 +0000
Subject: [PATCH 51/62] fix: 2D binning counted records with a special and a
 missing value twice

---
 optbinning/binning/multidimensional/preprocessing_2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/preprocessing_2d.py b/optbinning/binning/multidimensional/preprocessing_2d.py
index 11d4b74..5f8b11f 100644
--- a/optbinning/binning/multidimensional/preprocessing_2d.py
+++ b/optbinning/binning/multidimensional/preprocessing_2d.py
@@ -88,7 +88,8 @@ def split_data_2d(dtype_x, dtype_y, x, y, z, special_codes_x=None,
         special_mask_y = np.zeros(len(y), dtype=bool)
 
     missing_mask = missing_mask_x | missing_mask_y
-    special_mask = special_mask_x | special_mask_y
+    # As in transform, a record with a missing value is missing.
+    special_mask = (special_mask_x | special_mask_y) & ~missing_mask
 
     clean_mask = ~missing_mask & ~special_mask
 
-- 
2.43.0


From 48aa5be9a024f8c3731646fb33f829e26194d83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:11 +0000
Subject: [PATCH 52/62] fix: 2D transform failed if special codes are an array

---
 optbinning/binning/multidimensional/transformations_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/transformations_2d.py b/optbinning/binning/multidimensional/transformations_2d.py
index c3ff7c4..3d3db4d 100644
--- a/optbinning/binning/multidimensional/transformations_2d.py
+++ b/optbinning/binning/multidimensional/transformations_2d.py
@@ -87,7 +87,7 @@ def _apply_transform(dtype_x, dtype_y, splits_x, splits_y, special_codes_x,
 
     z_transform[clean_mask] = z_clean_transform
 
-    if special_codes_x or special_codes_y:
+    if special_codes_x is not None or special_codes_y is not None:
         if (metric_special == "empirical" or
             (metric == "indices" and not isinstance(metric_special, int)) or
                 metric == "bins"):
-- 
2.43.0


From bb2954f109749425bb1f1476ac424cfdd6185ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:36 +0000
Subject: [PATCH 53/62] fix: monotonic trend x ignored for some bins in 2D
 binning with strategy cart

---
 .../binning/multidimensional/model_data_cart_2d.py   | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multidimensional/model_data_cart_2d.py b/optbinning/binning/multidimensional/model_data_cart_2d.py
index 4e9b471..ca6b192 100644
--- a/optbinning/binning/multidimensional/model_data_cart_2d.py
+++ b/optbinning/binning/multidimensional/model_data_cart_2d.py
@@ -175,11 +175,13 @@ def model_data_cart(tree, divergence, NE, E, monotonicity_x, monotonicity_y,
                                     cols[r].append(n_rectangles)
 
                                 if monotonicity_x is not None:
-                                    out = np.array([G[M]])
+                                    out = row.reshape(
+                                        np.count_nonzero(M.any(axis=1)), -1)
                                     outer_x.append(list(out[:, -1]))
 
                                 if monotonicity_y is not None:
-                                    out = np.array([G[M]])
+                                    out = row.reshape(
+                                        np.count_nonzero(M.any(axis=1)), -1)
                                     outer_y.append(list(out[-1, :]))
 
                                 rows.append(row)
@@ -293,11 +295,13 @@ def continuous_model_data_cart(tree, R, S, SS, monotonicity_x, monotonicity_y,
                                     cols[r].append(n_rectangles)
 
                                 if monotonicity_x is not None:
-                                    out = np.array([G[M]])
+                                    out = row.reshape(
+                                        np.count_nonzero(M.any(axis=1)), -1)
                                     outer_x.append(list(out[:, -1]))
 
                                 if monotonicity_y is not None:
-                                    out = np.array([G[M]])
+                                    out = row.reshape(
+                                        np.count_nonzero(M.any(axis=1)), -1)
                                     outer_y.append(list(out[-1, :]))
 
                                 rows.append(row)
-- 
2.43.0


From 34caa478ec6e5efeb0afecd051b70c10a7c48e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:46 +0000
Subject: [PATCH 54/62] fix: 2D binning failed if no rectangle is admissible

---
 optbinning/binning/multidimensional/model_data_2d.py      | 4 +++-
 optbinning/binning/multidimensional/model_data_cart_2d.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multidimensional/model_data_2d.py b/optbinning/binning/multidimensional/model_data_2d.py
index 90f1e90..ccde0ec 100644
--- a/optbinning/binning/multidimensional/model_data_2d.py
+++ b/optbinning/binning/multidimensional/model_data_2d.py
@@ -148,7 +148,9 @@ def model_data(divergence, NE, E, monotonicity_x, monotonicity_y, scale,
     p = n_event / E.sum()
     q = n_nonevent / NE.sum()
 
-    if divergence == "iv":
+    if not n_rectangles:
+        iv = np.zeros(0)
+    elif divergence == "iv":
         iv = jeffrey(p, q)
     elif divergence == "js":
         iv = jensen_shannon(p, q)
diff --git a/optbinning/binning/multidimensional/model_data_cart_2d.py b/optbinning/binning/multidimensional/model_data_cart_2d.py
index ca6b192..7f8386b 100644
--- a/optbinning/binning/multidimensional/model_data_cart_2d.py
+++ b/optbinning/binning/multidimensional/model_data_cart_2d.py
@@ -216,7 +216,9 @@ def model_data_cart(tree, divergence, NE, E, monotonicity_x, monotonicity_y,
     p = n_event / E.sum()
     q = n_nonevent / NE.sum()
 
-    if divergence == "iv":
+    if not n_rectangles:
+        iv = np.zeros(0)
+    elif divergence == "iv":
         iv = jeffrey(p, q)
     elif divergence == "js":
         iv = jensen_shannon(p, q)
-- 
2.43.0


From ebfb94c8c71c0cf0de7eb315ea5da95eb5c617dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:59 +0000
Subject: [PATCH 55/62] fix: counterfactual outcome not enforced without
 objective proximity

---
 optbinning/scorecard/counterfactual/mip.py       | 13 ++++++-------
 optbinning/scorecard/counterfactual/multi_mip.py | 13 ++++++-------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index f9f84e3..950895c 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -72,9 +72,8 @@ class CFMIP:
                                     for name in names]))
 
         # Constraint: proximity
-        if "proximity" in self.objectives:
-            self.add_constraint_proximity(
-                solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+        self.add_constraint_proximity(
+            solver, p, x, nbins, metric, x_p, t_p, t_m, z)
 
         # Constraint: closeness
         if "closeness" in self.objectives:
@@ -147,9 +146,8 @@ class CFMIP:
                     solver.Add(d_p[i] + d_m[i] <= self.priority_tol * absval)
 
             # Constraint: proximity
-            if "proximity" in self.objectives:
-                self.add_constraint_proximity(
-                    solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+            self.add_constraint_proximity(
+                solver, p, x, nbins, metric, x_p, t_p, t_m, z)
 
             # Constraint: closeness
             if "closeness" in self.objectives:
@@ -263,7 +261,8 @@ class CFMIP:
                                  t_m, z):
         for i in range(p):
             # Absolute value
-            solver.Add(t_p[i] - t_m[i] == x[i] - x_p[i])
+            if "proximity" in self.objectives:
+                solver.Add(t_p[i] - t_m[i] == x[i] - x_p[i])
 
             # Compute x'
             solver.Add(x_p[i] == x[i] + solver.Sum([
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index d42d8e5..3d6cfe6 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -55,9 +55,8 @@ class MCFMIP(CFMIP):
         # Constraints
         for k in range(self.K):
             # Constraint: proximity
-            if "proximity" in self.objectives:
-                self.add_constraint_proximity(
-                    solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+            self.add_constraint_proximity(
+                solver, p, x, nbins, metric, x_p, t_p, t_m, z)
 
             # Constraint: closeness
             if "closeness" in self.objectives:
@@ -158,9 +157,8 @@ class MCFMIP(CFMIP):
             # Constraints
             for k in range(self.K):
                 # Constraint: proximity
-                if "proximity" in self.objectives:
-                    self.add_constraint_proximity(
-                        solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+                self.add_constraint_proximity(
+                    solver, p, x, nbins, metric, x_p, t_p, t_m, z)
 
                 # Constraint: closeness
                 if "closeness" in self.objectives:
@@ -321,7 +319,8 @@ class MCFMIP(CFMIP):
         for k in range(self.K):
             for i in range(p):
                 # Absolute value
-                solver.Add(t_p[k, i] - t_m[k, i] == x[i] - x_p[k, i])
+                if "proximity" in self.objectives:
+                    solver.Add(t_p[k, i] - t_m[k, i] == x[i] - x_p[k, i])
 
                 # Compute x'
                 solver.Add(x_p[k, i] == x[i] + solver.Sum(
-- 
2.43.0


From 1e619f311642960e1d54a46394430d5c92d47531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:59 +0000
Subject: [PATCH 56/62] fix: counterfactual ignored the special and missing
 metrics of the scorecard

---
 .../scorecard/counterfactual/counterfactual.py    |  4 +++-
 optbinning/scorecard/counterfactual/model_data.py | 15 +++++++++++++--
 .../scorecard/counterfactual/problem_data.py      |  4 +++-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/counterfactual.py b/optbinning/scorecard/counterfactual/counterfactual.py
index 485f7b7..0fd300e 100644
--- a/optbinning/scorecard/counterfactual/counterfactual.py
+++ b/optbinning/scorecard/counterfactual/counterfactual.py
@@ -618,7 +618,9 @@ class Counterfactual(BaseCounterfactual):
             query = pd.DataFrame.from_dict(query, orient="index").T
 
         x = self.scorecard.binning_process_.transform(
-            query[self._variable_names]).values.ravel()
+            query[self._variable_names],
+            metric_special=self.scorecard._metric_special,
+            metric_missing=self.scorecard._metric_missing).values.ravel()
 
         return x, query
 
diff --git a/optbinning/scorecard/counterfactual/model_data.py b/optbinning/scorecard/counterfactual/model_data.py
index 2220286..9cae29c 100644
--- a/optbinning/scorecard/counterfactual/model_data.py
+++ b/optbinning/scorecard/counterfactual/model_data.py
@@ -17,10 +17,21 @@ def model_data(scorecard, x, special_missing):
     metric = []
     indices = []
     for i, v in enumerate(s_vars):
-        metric_i = sc[sc.Variable == v][metric_name].values
+        metric_i = sc[sc.Variable == v][metric_name].values.copy()
+
+        optb = scorecard.binning_process_.get_binned_variable(v)
+        if isinstance(optb.special_codes, dict):
+            n_specials = len(optb.special_codes)
+        else:
+            n_specials = 1
 
         if not special_missing:
-            metric_i = metric_i[:-2]
+            metric_i = metric_i[:-1-n_specials]
+        else:
+            if scorecard._metric_special != "empirical":
+                metric_i[-1-n_specials:-1] = scorecard._metric_special
+            if scorecard._metric_missing != "empirical":
+                metric_i[-1] = scorecard._metric_missing
 
         _metric = []
         _indices = []
diff --git a/optbinning/scorecard/counterfactual/problem_data.py b/optbinning/scorecard/counterfactual/problem_data.py
index 2b0131b..5e9ab01 100644
--- a/optbinning/scorecard/counterfactual/problem_data.py
+++ b/optbinning/scorecard/counterfactual/problem_data.py
@@ -49,7 +49,9 @@ def problem_data(scorecard, X):
     max_p += intercept
 
     # Mahalanobis distance
-    Xt = scorecard.binning_process_.transform(X).values
+    Xt = scorecard.binning_process_.transform(
+        X, metric_special=scorecard._metric_special,
+        metric_missing=scorecard._metric_missing).values
     F = np.linalg.cholesky(np.linalg.inv(np.cov(Xt.T)))
     mu = Xt.mean(axis=0)
 
-- 
2.43.0


From cb0d48698201cadcd32ba1269efb008384a08cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:54 +0000
Subject: [PATCH 57/62] fix: counterfactual generation failed if all variables
 have the same number of bins

---
 optbinning/scorecard/counterfactual/counterfactual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/scorecard/counterfactual/counterfactual.py b/optbinning/scorecard/counterfactual/counterfactual.py
index 0fd300e..8f14e13 100644
--- a/optbinning/scorecard/counterfactual/counterfactual.py
+++ b/optbinning/scorecard/counterfactual/counterfactual.py
@@ -595,7 +595,7 @@ class Counterfactual(BaseCounterfactual):
         new_indices = {}
         score = 0
         for i, v in enumerate(self._variable_names):
-            new_index = np.array(indices[i])[solution[i]]
+            new_index = np.array(indices[i])[solution[i].astype(bool)]
             if len(new_index):
                 new_indices[v] = new_index
 
-- 
2.43.0


From 1de6bbe8f180eba14bda149aed03469073f2e440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:01 +0000
Subject: [PATCH 58/62] fix: PSI of variables counted special and missing
 records in the first bin

---
 optbinning/scorecard/monitoring.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index a427917..3068741 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -796,8 +796,13 @@ class ScorecardMonitoring(BaseEstimator):
 
         for name in variables:
             optb = self.scorecard.binning_process_.get_binned_variable(name)
-            ta = optb.transform(X_actual[name], metric="indices")
-            te = optb.transform(X_expected[name], metric="indices")
+            # special and missing records have bins of their own
+            ta = optb.transform(X_actual[name], metric="indices",
+                                metric_special="empirical",
+                                metric_missing="empirical")
+            te = optb.transform(X_expected[name], metric="indices",
+                                metric_special="empirical",
+                                metric_missing="empirical")
 
             n_bins = max(ta.max(), te.max()) + 1
 
-- 
2.43.0


From 5266d149262ca0ff76488e71d38ca755f43193b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:20 +0000
Subject: [PATCH 59/62] fix: piecewise transform returned infinite WoE for
 special and missing bins without both classes

---
 .../binning/piecewise/transformations.py      | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index 697bd0d..bd3d195 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -104,25 +104,30 @@ def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
         if n_special > 1:
             event_rate_special[mask] = (
                 n_event_special[mask] / n_records_special[mask])
+
+            if metric == "woe":
+                event_rate_special[mask] = transform_event_rate_to_woe(
+                    event_rate_special[mask], n_nonevent, n_event)
         elif mask:
             event_rate_special = n_event_special / n_records_special
 
-        if metric == "woe":
-            event_rate_special = transform_event_rate_to_woe(
-                event_rate_special, n_nonevent, n_event)
+            if metric == "woe":
+                event_rate_special = transform_event_rate_to_woe(
+                    event_rate_special, n_nonevent, n_event)
 
     if metric_missing == "empirical":
         n_records_missing = n_event_missing + n_nonevent_missing
 
-        if n_records_missing > 0:
+        # As for special, value zero unless both classes are present
+        if n_event_missing > 0 and n_nonevent_missing > 0:
             event_rate_missing = n_event_missing / n_records_missing
+
+            if metric == "woe":
+                event_rate_missing = transform_event_rate_to_woe(
+                    event_rate_missing, n_nonevent, n_event)
         else:
             event_rate_missing = 0
 
-        if metric == "woe":
-            event_rate_missing = transform_event_rate_to_woe(
-                event_rate_missing, n_nonevent, n_event)
-
     x_transform = _apply_transform(
         x, c, lb, ub, special_codes, metric_special, metric_missing,
         clean_mask, special_mask, missing_mask, indices, x_clean, n_bins,
-- 
2.43.0


From 53b22f5b3588e71e3cab71c9668ea6c83bb6431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:37 +0000
Subject: [PATCH 60/62] fix: piecewise analysis tested bins of special codes as
 consecutive bins

---
 optbinning/binning/piecewise/binning_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/piecewise/binning_statistics.py b/optbinning/binning/piecewise/binning_statistics.py
index 4d4faca..ce6499b 100644
--- a/optbinning/binning/piecewise/binning_statistics.py
+++ b/optbinning/binning/piecewise/binning_statistics.py
@@ -317,7 +317,7 @@ class PWBinningTable(BinningTable):
 
         # Significance tests
         n_bins = len(self._n_records)
-        n_metric = n_bins - 2
+        n_metric = n_bins - 1 - self._n_specials
 
         n_nev = self.n_nonevent[:n_metric]
         n_ev = self.n_event[:n_metric]
@@ -633,7 +633,7 @@ class PWContinuousBinningTable:
 
         # Significance tests
         n_bins = len(self.n_records)
-        n_metric = n_bins - 2
+        n_metric = n_bins - 1 - self._n_specials
 
         n_records = self.n_records[:n_metric]
         mean = self._mean[:n_metric]
-- 
2.43.0


From a9677b1316b1a78d4b35cc8d396e4beee8a56ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:39 +0000
Subject: [PATCH 61/62] fix: rank error of merged quantile summaries exceeded
 eps

---
 optbinning/binning/distributed/gk.py | 46 ++++++++++++++--------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/optbinning/binning/distributed/gk.py b/optbinning/binning/distributed/gk.py
index 42fe854..265d249 100644
--- a/optbinning/binning/distributed/gk.py
+++ b/optbinning/binning/distributed/gk.py
@@ -94,45 +94,45 @@ class GK:
             self.copy(gk)
             return
 
-        entries = []
-        spread = int(gk.eps * (gk.n - 1))
         gk.merge_compress()
+        self.merge_compress()
 
-        # upper bound elements(gk.v0, gk.v1) - spread
-        g = gk.entries[0].g + gk.entries[0].delta - 1 - spread
-
-        if g > 0:
-            entries.append(Entry(gk._min, g, 0))
+        # The rank of an entry is uncertain in both sketches: add the
+        # uncertainty of the other sketch, given by its next entry.
+        entries = []
+        n_self = len(self.entries)
+        n_gk = len(gk.entries)
+        i = 0
+        j = 0
 
-        n_gk = len(gk)
-        for i in range(n_gk - 1):
-            tp1 = gk.entries[i + 1]
-            t = gk.entries[i]
-            g = tp1.g + (tp1.delta - t.delta)
-            if g > 0:
-                entries.append(Entry(t.value, g, 0))
+        while i < n_self or j < n_gk:
+            if j == n_gk or (i < n_self and
+                             self.entries[i].value <= gk.entries[j].value):
+                e = self.entries[i]
+                en = gk.entries[j] if j < n_gk else None
+                i += 1
+            else:
+                e = gk.entries[j]
+                en = self.entries[i] if i < n_self else None
+                j += 1
 
-        last_t = gk.entries[n_gk - 1]
-        g = spread + 1 - last_t.delta
-        if g > 0:
-            entries.append(Entry(last_t.value, g, 0))
+            delta = e.delta if en is None else e.delta + en.g + en.delta - 1
+            entries.append(Entry(e.value, e.g, delta))
 
+        self.entries = entries
         self._count += gk._count
         self._min = min(self._min, gk._min)
         self._max = max(self._max, gk._max)
         self._sum += gk._sum
 
-        self.merge_compress(entries)
+        self.merge_compress()
 
-    def merge_compress(self, entries=[]):
+    def merge_compress(self):
         """Compress sketch."""
         remove_threshold = float(2.0 * self.eps * (self._count - 1))
 
         incoming = [Entry(value, 1, 0) for value in self.incoming]
 
-        if len(entries):
-            incoming.extend(Entry(e.value, e.g, e.delta) for e in entries)
-
         incoming = sorted(incoming, key=lambda e: e.value)
 
         merged = []
-- 
2.43.0


From babe0d698f4671e00e145db807dae0370c4e617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:12 +0000
Subject: [PATCH 62/62] fix: a refitted binning process kept statistics of
 variables of the previous fit

---
 optbinning/binning/binning_process.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 455d23f..0600cae 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -400,6 +400,8 @@ class BaseBinningProcess:
                 self._support[idfv] = True
 
     def _binning_selection_criteria(self):
+        self._variable_stats = {}
+
         for i, name in enumerate(self.variable_names):
             optb = self._binned_variables[name]
             optb.binning_table.build()
@@ -1107,6 +1109,10 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             raise ValueError("The number of columns must be equal to the"
                              "length of variable_names.")
 
+        # Results of a previous fit
+        self._binned_variables = {}
+        self._variable_dtypes = {}
+
         if self.verbose:
             logger.info("Dataset: number of samples: {}."
                         .format(self._n_samples))
@@ -1243,6 +1249,10 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         self._n_samples = len(y)
         self._n_variables = len(self.variable_names)
 
+        # Results of a previous fit
+        self._binned_variables = {}
+        self._variable_dtypes = {}
+
         if self.verbose:
             logger.info("Dataset: number of samples: {}."
                         .format(self._n_samples))
@@ -1342,6 +1352,10 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         self._n_samples = 0
         self._n_variables = len(self.variable_names)
 
+        # Results of a previous fit
+        self._binned_variables = {}
+        self._variable_dtypes = {}
+
         for name, optb in dict_optb.items():
             self._variable_dtypes[name] = optb.dtype
             self._binned_variables[name] = optb
-- 
2.43.0

