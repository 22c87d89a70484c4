From fb7b19361e10f65010e1779e82155114fc7573e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 01/37] fix: chunk offsets for a lead_time slice without chunk
 size

---
 weatherbenchX/time_chunks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/time_chunks.py b/weatherbenchX/time_chunks.py
index 871cdc5..b217ccc 100644
--- a/weatherbenchX/time_chunks.py
+++ b/weatherbenchX/time_chunks.py
@@ -197,6 +197,10 @@ class TimeChunks(Iterable[TimeChunk]):
     """
     for index, (init_chunk, lead_chunk) in enumerate(self):
       init_index = self._init_time_chunk_size * (index // self._num_lead_chunks)
-      lead_index = self._lead_time_chunk_size * (index % self._num_lead_chunks)
+      # For a lead_time slice the chunk size may be None, but there is only a
+      # single lead_time chunk, at offset 0.
+      lead_index = (self._lead_time_chunk_size or 0) * (
+          index % self._num_lead_chunks
+      )
       offsets = TimeChunkOffsets(init_time=init_index, lead_time=lead_index)
       yield offsets, (init_chunk, lead_chunk)
-- 
2.43.0


From ef5dc38ef41f0b603c583e4500f7e85d53803c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 02/37] fix: include spatial_dims in the unique name of
 RelativeIntensity

---
 weatherbenchX/metrics/deterministic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weatherbenchX/metrics/deterministic.py b/weatherbenchX/metrics/deterministic.py
index b9f84f4..f03f236 100644
--- a/weatherbenchX/metrics/deterministic.py
+++ b/weatherbenchX/metrics/deterministic.py
@@ -48,6 +48,10 @@ class RelativeIntensity(base.PerVariableStatistic):
     """
     self._spatial_dims = spatial_dims
 
+  @property
+  def unique_name(self) -> str:
+    return 'RelativeIntensity_' + '_'.join(self._spatial_dims)
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
-- 
2.43.0


From 1a1429847a3738fb546b5493439cf23302927b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 03/37] fix: include NaN copying in the unique names of the
 passthrough statistics

---
 weatherbenchX/metrics/deterministic.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/weatherbenchX/metrics/deterministic.py b/weatherbenchX/metrics/deterministic.py
index f03f236..492ab28 100644
--- a/weatherbenchX/metrics/deterministic.py
+++ b/weatherbenchX/metrics/deterministic.py
@@ -139,6 +139,11 @@ class PredictionPassthrough(base.PerVariableStatistic):
     """
     self._copy_nans_from_targets = copy_nans_from_targets
 
+  @property
+  def unique_name(self) -> str:
+    suffix = '_copy_nans_from_targets' if self._copy_nans_from_targets else ''
+    return 'PredictionPassthrough' + suffix
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -163,6 +168,15 @@ class TargetPassthrough(base.PerVariableStatistic):
     """
     self._copy_nans_from_predictions = copy_nans_from_predictions
 
+  @property
+  def unique_name(self) -> str:
+    suffix = (
+        '_copy_nans_from_predictions'
+        if self._copy_nans_from_predictions
+        else ''
+    )
+    return 'TargetPassthrough' + suffix
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
-- 
2.43.0


From 67375a2944843b31d65824e33f1bc8c84a28698e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 04/37] fix: include the components in the unique name of
 WindVectorSquaredError

---
 weatherbenchX/metrics/deterministic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/deterministic.py b/weatherbenchX/metrics/deterministic.py
index 492ab28..e3f43f2 100644
--- a/weatherbenchX/metrics/deterministic.py
+++ b/weatherbenchX/metrics/deterministic.py
@@ -218,7 +218,7 @@ class WindVectorSquaredError(base.Statistic):
 
   @property
   def unique_name(self) -> str:
-    suffix = '_'.join(self._vector_name)
+    suffix = '_'.join([*self._vector_name, *self._u_name, *self._v_name])
     return 'WindVectorSquaredError_' + suffix
 
   def compute(
-- 
2.43.0


From 54c12998982a2318e389bad68021e240fd547b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 05/37] fix: include thresholds in the unique name of
 ErrorExceedance

---
 weatherbenchX/metrics/deterministic.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/weatherbenchX/metrics/deterministic.py b/weatherbenchX/metrics/deterministic.py
index e3f43f2..2e76916 100644
--- a/weatherbenchX/metrics/deterministic.py
+++ b/weatherbenchX/metrics/deterministic.py
@@ -288,7 +288,11 @@ class ErrorExceedance(base.PerVariableStatistic):
         then it will be converted to an xr.DataArray with dim
         `error_exceedance_thresholds`.
     """
+    self._unique_name_suffix = ''
     if isinstance(thresholds, Sequence):
+      # xarray does not interpret tuples as arrays.
+      thresholds = list(thresholds)
+      self._unique_name_suffix = '_' + ','.join([str(t) for t in thresholds])
       thresholds = xr.DataArray(
           thresholds,
           dims='error_exceedance_thresholds',
@@ -296,6 +300,10 @@ class ErrorExceedance(base.PerVariableStatistic):
       )
     self._thresholds = thresholds
 
+  @property
+  def unique_name(self) -> str:
+    return type(self).__name__ + self._unique_name_suffix
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
-- 
2.43.0


From 95d2c88a637ca9e91348298bac23d77280ee6992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 06/37] fix: include ensemble_dim in the unique name of
 EnsembleErrorExceedance

---
 weatherbenchX/metrics/probabilistic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index d682f55..cd6ccbc 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -729,6 +729,10 @@ class EnsembleErrorExceedance(deterministic.ErrorExceedance):
     super().__init__(thresholds=thresholds)
     self._ensemble_dim = ensemble_dim
 
+  @property
+  def unique_name(self) -> str:
+    return f'{super().unique_name}_{self._ensemble_dim}'
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
-- 
2.43.0


From fa2d62dbb3217a4da80d080b0cedf1eaf4fada50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 07/37] fix: include skipna_ensemble in the unique name of
 EnsembleAveragedStatistic

---
 weatherbenchX/metrics/probabilistic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index cd6ccbc..6fc042e 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -48,7 +48,13 @@ class EnsembleAveragedStatistic(base.Statistic):
 
   @property
   def unique_name(self) -> str:
-    return self._wrapped_statistic.unique_name + '_each_' + self._ensemble_dim
+    suffix = '_skipna' if self._skipna_ensemble else ''
+    return (
+        self._wrapped_statistic.unique_name
+        + '_each_'
+        + self._ensemble_dim
+        + suffix
+    )
 
   def compute(
       self,
-- 
2.43.0


From 53a46b224f5ae116b2b49aaf131fa09ec111d98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 08/37] fix: include skipna_ensemble in the unique names of the
 CRPS statistics

---
 weatherbenchX/metrics/probabilistic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index 6fc042e..36494b0 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -130,7 +130,8 @@ class CRPSSkill(base.PerVariableStatistic):
 
   @property
   def unique_name(self) -> str:
-    return f'CRPSSkill_{self._ensemble_dim}'
+    skipna_str = '_skipna' if self._skipna_ensemble else ''
+    return f'CRPSSkill_{self._ensemble_dim}{skipna_str}'
 
   def _compute_per_variable(
       self,
@@ -195,7 +196,10 @@ class CRPSSpread(base.PerVariableStatistic):
   @property
   def unique_name(self) -> str:
     fair_str = 'fair' if self._fair else 'unfair'
-    return f'CRPSSpread_{self._ensemble_dim}_{fair_str}_{self._which}'
+    skipna_str = '_skipna' if self._skipna_ensemble else ''
+    return (
+        f'CRPSSpread_{self._ensemble_dim}_{fair_str}_{self._which}{skipna_str}'
+    )
 
   def _compute_per_variable(
       self,
-- 
2.43.0


From 739e3ffd7a6aab76732da303810b17f4a64ca31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 09/37] fix: include right_inclusive in the unique name of
 EnsembleRankedProbabilityScore

---
 weatherbenchX/metrics/probabilistic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index 36494b0..3a0cef0 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -417,6 +417,7 @@ class EnsembleRankedProbabilityScore(base.PerVariableStatistic):
     self._fair = fair
     self._bin_dim = bin_dim
     self._unique_name_suffix = unique_name_suffix
+    self._right_inclusive = right_inclusive
 
     binned_prediction_wrapper = wrappers.ContinuousToCDF(
         which='predictions',
@@ -468,6 +469,7 @@ class EnsembleRankedProbabilityScore(base.PerVariableStatistic):
         f'RankedProbabilityScore_{self._ensemble_dim}_'
         f'skipna_ensemble_{self._skipna_ensemble}_'
         f'fair_{self._fair}_'
+        f'right_inclusive_{self._right_inclusive}_'
         f'{self._unique_name_suffix}'
     )
 
-- 
2.43.0


From b92702aedf6fec983b8e230ed581d3b243a2fd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 10/37] fix: include the ensemble size in the statistic suffix
 of RelativeEconomicValue

---
 weatherbenchX/metrics/probabilistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index 3a0cef0..e0b8854 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -1051,7 +1051,7 @@ class RelativeEconomicValue(base.Metric):
     if self._thresholds is None:
       self._thresholds = (np.arange(ensemble_size) + 0.5) / ensemble_size
       if statistic_suffix is None:
-        statistic_suffix = 'all_thresholds_for_ensemble_size'
+        statistic_suffix = f'all_thresholds_for_ensemble_size_{ensemble_size}'
     if not np.all(self._thresholds >= 0.0) or not np.all(
         self._thresholds <= 1.0
     ):
-- 
2.43.0


From 6f8c1c4c2fe737e32357c93328408c911803cc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 11/37] fix: include bin_dim in the unique name of
 RankedProbabilityScore

---
 weatherbenchX/metrics/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 564a818..9e9ec7c 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -330,7 +330,7 @@ class RankedProbabilityScore(base.PerVariableStatistic):
 
   @property
   def unique_name(self) -> str:
-    return 'RankedProbabilityScore'
+    return f'RankedProbabilityScore_{self._bin_dim}'
 
   def _compute_per_variable(
       self,
-- 
2.43.0


From 664d98a0ae17441e678513b2501c9223479cf68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 12/37] fix: include ensemble_dim in the unique names of the
 interval statistics

---
 weatherbenchX/metrics/categorical.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 9e9ec7c..011fc12 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -719,6 +719,7 @@ class Confident(base.PerVariableStatisticWithClimatology):
   def unique_name(self) -> str:
     return (
         'Confident'
+        + f'_{self._ensemble_dim}'
         + f'_conf_thres={self._confidence_threshold}'
         + f'_spread_low={self._spread_low}'
         + f'_spread_high={self._spread_high}'
@@ -765,6 +766,7 @@ class Covered(base.PerVariableStatistic):
   def unique_name(self) -> str:
     return (
         'Covered'
+        + f'_{self._ensemble_dim}'
         + f'_interval_low={self._interval_low}'
         + f'_interval_high={self._interval_high}'
     )
@@ -811,6 +813,7 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
   def unique_name(self) -> str:
     return (
         'JaccardDistant'
+        + f'_{self._ensemble_dim}'
         + f'_threshold={self._threshold}'
         + f'_interval_low={self._interval_low}'
         + f'_interval_high={self._interval_high}'
-- 
2.43.0


From 4d45408e2b3fbc219ab71a07415f4f73341af4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 13/37] fix: include the parameters in the suffix of
 WeibullEnsembleToProbabilistic

---
 weatherbenchX/metrics/wrappers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/wrappers.py b/weatherbenchX/metrics/wrappers.py
index e0b0522..db41ba3 100644
--- a/weatherbenchX/metrics/wrappers.py
+++ b/weatherbenchX/metrics/wrappers.py
@@ -493,7 +493,10 @@ class WeibullEnsembleToProbabilistic(InputTransform):
 
   @property
   def unique_name_suffix(self) -> str:
-    return 'ensemble_to_probabilistic_by_weibull_plotting_position'
+    return (
+        'ensemble_to_probabilistic_by_weibull_plotting_position'
+        f'_{self._ensemble_dim}_skipna_{self._skipna}'
+    )
 
   def transform_fn(self, da: xr.DataArray) -> xr.DataArray:
     ensemble_members = da.sizes[self._ensemble_dim]
-- 
2.43.0


From 28ba0e191269f0764d67cb89932731aa6274da1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:08 +0000
Subject: [PATCH 14/37] fix: propagate NaN through the bin sum of
 RankedProbabilityScore

---
 weatherbenchX/metrics/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 011fc12..be78460 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -337,7 +337,7 @@ class RankedProbabilityScore(base.PerVariableStatistic):
       predictions: xr.DataArray,
       targets: xr.DataArray,
   ) -> xr.DataArray:
-    return ((predictions - targets) ** 2).sum(self._bin_dim)
+    return ((predictions - targets) ** 2).sum(self._bin_dim, skipna=False)
 
 
 # Metrics
-- 
2.43.0


From bf8f7b40c3f05ac535b3efcb146b15699923c7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:17 +0000
Subject: [PATCH 15/37] fix: accept tuples of thresholds and shifts in the
 wrappers

---
 weatherbenchX/metrics/wrappers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/wrappers.py b/weatherbenchX/metrics/wrappers.py
index db41ba3..4b47804 100644
--- a/weatherbenchX/metrics/wrappers.py
+++ b/weatherbenchX/metrics/wrappers.py
@@ -80,6 +80,9 @@ def binarize_thresholds(
     )
     threshold = thresholds
   else:
+    # Need to convert to array because xarray does not interpret tuples
+    # correctly.
+    thresholds = np.array(thresholds)
     threshold = xr.DataArray(
         thresholds, dims=[threshold_dim], coords={threshold_dim: thresholds}
     )
@@ -654,10 +657,13 @@ class ShiftAlongNewDim(InputTransform):
         )
       shifts = self._shift_value[da.name]
     else:
+      # Need to convert to array because xarray does not interpret tuples
+      # correctly.
+      shift_value = np.array(self._shift_value)
       shifts = xr.DataArray(
-          self._shift_value,
+          shift_value,
           dims=[self._shift_dim],
-          coords={self._shift_dim: self._shift_value},
+          coords={self._shift_dim: shift_value},
       )
 
     return da + shifts
-- 
2.43.0


From d16d916cc8a57ef7de16406f6b82cba422b9ef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:11 +0000
Subject: [PATCH 16/37] fix: honour skipna_ensemble in all terms of
 CRPSEnsembleDistance

---
 weatherbenchX/metrics/probabilistic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index e0b8854..274046f 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -644,7 +644,10 @@ class CRPSEnsembleDistance(base.PerVariableMetric):
   @property
   def statistics(self) -> Mapping[str, base.Statistic]:
     return {
-        'CRPSSkill': CRPSSkill(ensemble_dim=self._ensemble_dim),
+        'CRPSSkill': CRPSSkill(
+            ensemble_dim=self._ensemble_dim,
+            skipna_ensemble=self._skipna_ensemble,
+        ),
         'CRPSSpread': CRPSSpread(
             ensemble_dim=self._ensemble_dim,
             use_sort=self._use_sort,
@@ -656,6 +659,7 @@ class CRPSEnsembleDistance(base.PerVariableMetric):
             use_sort=self._use_sort,
             fair=self._fair,
             which='targets',
+            skipna_ensemble=self._skipna_ensemble,
         ),
     }
 
-- 
2.43.0


From 3cb899f8d7289853ffb401f676bb74403629d975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 17/37] fix: keep missing EnsembleRankedProbabilityScore values
 missing with skipna_ensemble

---
 weatherbenchX/metrics/probabilistic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index 274046f..aa6dad8 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -485,8 +485,11 @@ class EnsembleRankedProbabilityScore(base.PerVariableStatistic):
         'tmp'
     ]
 
-    # RPS is the sum of squared errors over the bin dimension.
-    return cdf_mse.sum(self._bin_dim, skipna=self._skipna_ensemble)
+    # RPS is the sum of squared errors over the bin dimension. If it is missing
+    # for all bins (e.g. missing target), the RPS is missing too, not zero.
+    return cdf_mse.sum(
+        self._bin_dim, skipna=self._skipna_ensemble, min_count=1
+    )
 
 
 ### Metrics
-- 
2.43.0


From 12c9958cca4bbdab93b8bc7fb114b51287b07ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 18/37] fix: propagate NaN in RankHistogram instead of counting
 it as a rank

---
 weatherbenchX/metrics/probabilistic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index aa6dad8..d9649b5 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -1239,5 +1239,8 @@ class RankHistogram(base.PerVariableStatistic):
     categories = xr.DataArray(np.arange(num_bins), dims=['rank'])
     categories.coords['rank'] = categories
 
+    # A target without a rank (missing target or members) has no category.
+    valid = ~(np.isnan(targets) | np.isnan(predictions).any(self._ensemble_dim))
+
     # Transform to floating point for the subsequent aggregation.
-    return (ranks == categories).astype(np.float32)
+    return (ranks == categories).astype(np.float32).where(valid)
-- 
2.43.0


From 5e478a5a70e10f648c69e6e4358f54e8eedb28f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:27 +0000
Subject: [PATCH 19/37] fix: accept boolean inputs in FSS with a neighborhood
 size of one

---
 weatherbenchX/metrics/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index 4a9c595..1b11659 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -33,7 +33,7 @@ def convolve2d_wrap_longitude(
   # harmonics space, which would be faster.
   """Convolve2d with optional wrap around longitude."""
   if neighborhood_size == 1:
-    return x
+    return x.astype(np.float32)
   if neighborhood_size % 2 != 1:
     raise ValueError('neighborhood_size must be odd.')
   half_n = (neighborhood_size - 1) // 2
-- 
2.43.0


From 506aaac53d84318d16e83f3e28228e9c5cf08ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:27 +0000
Subject: [PATCH 20/37] fix: average all FSS statistics over the same valid
 points

---
 weatherbenchX/metrics/spatial.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index 1b11659..fe618e1 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -158,7 +158,12 @@ class SquaredPredictionFraction(base.PerVariableStatistic):
     predictions = neighborhood_averaging(
         predictions, self.neighborhood_size_in_pixels, self.wrap_longitude
     )
-    return predictions**2 + xr.zeros_like(targets)
+    # Only count points where the fraction of the targets is valid too (NaNs and
+    # masks), so that all statistics are averages over the same points.
+    targets = neighborhood_averaging(
+        targets, self.neighborhood_size_in_pixels, self.wrap_longitude
+    )
+    return predictions**2 + 0 * targets
 
 
 @dataclasses.dataclass
@@ -181,7 +186,11 @@ class SquaredTargetFraction(base.PerVariableStatistic):
     targets = neighborhood_averaging(
         targets, self.neighborhood_size_in_pixels, self.wrap_longitude
     )
-    return targets**2 + xr.zeros_like(predictions)
+    # Only count points where the fraction of the predictions is valid too.
+    predictions = neighborhood_averaging(
+        predictions, self.neighborhood_size_in_pixels, self.wrap_longitude
+    )
+    return targets**2 + 0 * predictions
 
 
 @dataclasses.dataclass
-- 
2.43.0


From 522b050e3f509d34012f02c42316596e2057a35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 21/37] fix: don't modify the input of
 GridToSparseWithAltitudeAdjustment

---
 weatherbenchX/interpolations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 93db5f1..c76de2e 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -348,7 +348,8 @@ class GridToSparseWithAltitudeAdjustment(InterpolateToReferenceCoords):
       reference: xr.DataArray,  # pytype: disable=signature-mismatch
   ) -> xr.DataArray:
     if da.name in ['2m_temperature', '10m_wind_speed']:
-      da.coords['grid_elevation'] = self._grid_elevation.compute()
+      # Don't add the coordinate in place, this would modify the input.
+      da = da.assign_coords(grid_elevation=self._grid_elevation.compute())
 
     da_like_reference = super().interpolate_data_array(da, reference)
     if da.name in ['2m_temperature', '10m_wind_speed']:
-- 
2.43.0


From d318fdea488665de8f93ae7f35ff0a6de037d94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 22/37] fix: handle an empty reference in
 GridToSparseWithAltitudeAdjustment

---
 weatherbenchX/interpolations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index c76de2e..53e84a6 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -352,7 +352,11 @@ class GridToSparseWithAltitudeAdjustment(InterpolateToReferenceCoords):
       da = da.assign_coords(grid_elevation=self._grid_elevation.compute())
 
     da_like_reference = super().interpolate_data_array(da, reference)
-    if da.name in ['2m_temperature', '10m_wind_speed']:
+    # There is nothing to adjust if the reference doesn't contain any data.
+    if (
+        da.name in ['2m_temperature', '10m_wind_speed']
+        and da_like_reference.size > 0
+    ):
       # Positive if station is higher than grid.
       sparse_higher_than_grid_m = (
           da_like_reference['elevation'] - da_like_reference['grid_elevation']
-- 
2.43.0


From 424e14ce282e4821aaba421d1c945f0b695f45df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 23/37] fix: honour add_values_to_coords of the data loader
 wrapped for latency

---
 weatherbenchX/data_loaders/latency_wrappers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weatherbenchX/data_loaders/latency_wrappers.py b/weatherbenchX/data_loaders/latency_wrappers.py
index a3d96c7..5332825 100644
--- a/weatherbenchX/data_loaders/latency_wrappers.py
+++ b/weatherbenchX/data_loaders/latency_wrappers.py
@@ -89,6 +89,7 @@ class ConstantLatencyWrapper(base.DataLoader):
         compute=data_loader._compute,
         add_nan_mask=data_loader._add_nan_mask,
         process_chunk_fn=data_loader._process_chunk_fn,
+        add_values_to_coords=data_loader._add_values_to_coords,
     )
 
   def get_available_init_time(self, init_time: np.datetime64) -> np.datetime64:
-- 
2.43.0


From 8d1eebb9b37c21e528c1355ac78c62780a630194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 24/37] fix: skip sources without an available forecast in
 MultipleConstantLatencyWrapper

---
 weatherbenchX/data_loaders/latency_wrappers.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/data_loaders/latency_wrappers.py b/weatherbenchX/data_loaders/latency_wrappers.py
index 5332825..349e1c8 100644
--- a/weatherbenchX/data_loaders/latency_wrappers.py
+++ b/weatherbenchX/data_loaders/latency_wrappers.py
@@ -257,9 +257,15 @@ class MultipleConstantLatencyWrapper(base.DataLoader):
     )
 
   def _get_data_loader(self, init_time):
+    data_loaders = []
     lead_time_offsets_and_latencies = []
     for data_loader in self._data_loaders:
-      available_init_time = data_loader.get_available_init_time(init_time)
+      try:
+        available_init_time = data_loader.get_available_init_time(init_time)
+      except ValueError:
+        # This data loader has nothing available yet, but others might.
+        continue
+      data_loaders.append(data_loader)
       lead_time_offset = init_time - available_init_time
       # Break ties by picking the data loader with largest latency -- note that
       # we make latency negative here because we want the smallest
@@ -267,6 +273,8 @@ class MultipleConstantLatencyWrapper(base.DataLoader):
       lead_time_offsets_and_latencies.append(
           (lead_time_offset, -data_loader.latency)
       )
+    if not data_loaders:
+      raise ValueError(f'No forecast is available yet for {init_time}.')
     lead_time_offsets_and_latencies = np.array(
         lead_time_offsets_and_latencies,
         dtype=[
@@ -278,7 +286,7 @@ class MultipleConstantLatencyWrapper(base.DataLoader):
         lead_time_offsets_and_latencies,
         order=('lead_time_offset', 'neg_latency'),
     )
-    most_recent_data_loader = self._data_loaders[idx[0]]
+    most_recent_data_loader = data_loaders[idx[0]]
     logging.info(
         'Init time: %s, data loader latency: %s',
         init_time,
-- 
2.43.0


From 7d1c1cbbd1705d77d0ad2108e5ff6c7c1c52fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:54 +0000
Subject: [PATCH 25/37] fix: load the requested lead time interval in
 SparseObservationsFromParquet

---
 weatherbenchX/data_loaders/sparse_parquet.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/weatherbenchX/data_loaders/sparse_parquet.py b/weatherbenchX/data_loaders/sparse_parquet.py
index 733b700..54a790c 100644
--- a/weatherbenchX/data_loaders/sparse_parquet.py
+++ b/weatherbenchX/data_loaders/sparse_parquet.py
@@ -206,13 +206,14 @@ class SparseObservationsFromParquet(base.DataLoader):
   ) -> xr.Dataset:
     """Load data for some valid time.
 
-    If lead_time_slice is given, load data for valid_time +/- lead_time_slice.
-    Otherwise, tolerance and file tolerance are applied around valid_time.
+    If lead_time_slice is given, load data from valid_time +
+    lead_time_slice.start to valid_time + lead_time_slice.stop. Otherwise,
+    tolerance and file tolerance are applied around valid_time.
 
     Args:
       valid_time: Base time to load data for.
-      lead_time_slice: (Optional) If given, load data for valid_time +/-
-        lead_time_slice.
+      lead_time_slice: (Optional) If given, load data for this interval of lead
+        times relative to valid_time.
 
     Returns:
       xarray.Dataset with data for the given valid_time.
@@ -223,7 +224,7 @@ class SparseObservationsFromParquet(base.DataLoader):
         start_time = valid_time
         stop_time = None
       else:
-        start_time = valid_time - lead_time_slice.start
+        start_time = valid_time + lead_time_slice.start
         stop_time = valid_time + lead_time_slice.stop
 
     else:
-- 
2.43.0


From 832a5e3b8c6f6b1560c2203ce9ed01f24599e892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:54 +0000
Subject: [PATCH 26/37] fix: accept any sequence of variables in
 SparseObservationsFromParquet

---
 weatherbenchX/data_loaders/sparse_parquet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/data_loaders/sparse_parquet.py b/weatherbenchX/data_loaders/sparse_parquet.py
index 54a790c..189ec1f 100644
--- a/weatherbenchX/data_loaders/sparse_parquet.py
+++ b/weatherbenchX/data_loaders/sparse_parquet.py
@@ -159,7 +159,7 @@ class SparseObservationsFromParquet(base.DataLoader):
       raise ValueError(f'Unsupported partitioned_by: {partitioned_by}')
     self._partitioned_by = partitioned_by
     self._time_dim = time_dim
-    self._variables = variables
+    self._variables = list(variables)
     self._coordinate_variables = list(coordinate_variables) + ['valid_time']
     self._split_variables = split_variables
     self._dropna = dropna
@@ -288,7 +288,7 @@ class SparseObservationsFromParquet(base.DataLoader):
 
     return df.loc[
         :,
-        self._variables + self._coordinate_variables,  # pytype: disable=unsupported-operands
+        self._variables + self._coordinate_variables,
     ]
 
   def _load_chunk_from_source(
-- 
2.43.0


From 9e6bd479be920a7320773cb5dea964e4b9717242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 27/37] fix: support lead time slices in the unaggregated
 pipeline

---
 weatherbenchX/beam_pipeline.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/weatherbenchX/beam_pipeline.py b/weatherbenchX/beam_pipeline.py
index 891b439..0ee7904 100644
--- a/weatherbenchX/beam_pipeline.py
+++ b/weatherbenchX/beam_pipeline.py
@@ -584,12 +584,11 @@ def _get_template_dataset(
 
   if 'lead_time' in template.dims:
     vars_to_expand = [k for k, v in template.items() if 'lead_time' in v.dims]
-    template = template.isel(lead_time=0, drop=True)
     lead_times = times.lead_times
     if isinstance(lead_times, slice):
-      lead_times = np.arange(
-          lead_times.start, lead_times.stop + lead_times.step, lead_times.step
-      )
+      # A lead_time slice is never chunked, so the first chunk has all of them.
+      lead_times = template['lead_time'].values
+    template = template.isel(lead_time=0, drop=True)
     for k in vars_to_expand:
       template[k] = template[k].expand_dims(lead_time=lead_times)
 
-- 
2.43.0


From 0fd2942120bf145f915c7ff4e078f1089b8d99a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:01 +0000
Subject: [PATCH 28/37] fix: support SEDI in statistical inference

---
 weatherbenchX/metrics/categorical.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index be78460..4d49bef 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -19,6 +19,7 @@ from weatherbenchX.metrics import base
 from weatherbenchX.metrics import wrappers
 import xarray as xr
 from xarray.core import dataarray
+import xarray.ufuncs as xu
 
 
 class TruePositives(base.PerVariableStatistic):
@@ -623,10 +624,10 @@ class SEDI(base.PerVariableMetric):
     h = h.clip(1e-6, 1 - 1e-6)
     f = f.clip(1e-6, 1 - 1e-6)
 
-    log_h = np.log(h)
-    log_f = np.log(f)
-    log_1_minus_h = np.log(1 - h)
-    log_1_minus_f = np.log(1 - f)
+    log_h = xu.log(h)
+    log_f = xu.log(f)
+    log_1_minus_h = xu.log(1 - h)
+    log_1_minus_f = xu.log(1 - f)
 
     numerator = log_f - log_h + log_1_minus_h - log_1_minus_f
     denominator = log_h + log_f + log_1_minus_h + log_1_minus_f
-- 
2.43.0


From dbaf76325ebf7471bc8dc103f5d4c59ef731aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:36 +0000
Subject: [PATCH 29/37] fix: don't count missing units as zero in
 StationaryBootstrap

---
 weatherbenchX/statistical_inference/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/statistical_inference/bootstrap.py b/weatherbenchX/statistical_inference/bootstrap.py
index efc00b0..61868c9 100644
--- a/weatherbenchX/statistical_inference/bootstrap.py
+++ b/weatherbenchX/statistical_inference/bootstrap.py
@@ -545,7 +545,7 @@ class StationaryBootstrap(Bootstrap):
       # _REPLICATE_DIM) that we're selecting, will be present in the result of
       # the isel call.
       return data.isel({self._experimental_unit_dim: bootstrap_indices}).sum(
-          self._experimental_unit_dim)
+          self._experimental_unit_dim, skipna=False)
     sum_weighted_stats, sum_weights = xarray_tree.map_structure(
         sum_of_resampled, (sum_weighted_stats, sum_weights))
     mean_stats = xarray_tree.map_structure(
-- 
2.43.0


From 64ed30e3a1239e05d3ef341459918e0ec02e714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:36 +0000
Subject: [PATCH 30/37] fix: handle tied replicates in bootstrap p-values

---
 weatherbenchX/statistical_inference/bootstrap.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/statistical_inference/bootstrap.py b/weatherbenchX/statistical_inference/bootstrap.py
index 61868c9..782cb20 100644
--- a/weatherbenchX/statistical_inference/bootstrap.py
+++ b/weatherbenchX/statistical_inference/bootstrap.py
@@ -113,10 +113,15 @@ class Bootstrap(base.StatisticalInferenceMethod):
       resampled = resampled[~np.isnan(resampled)]  # Equiv. to skipna=True.
       if resampled.size == 0:
         return np.nan
+      if resampled.size == 1:
+        resampled = np.repeat(resampled, 2)  # So that q below goes up to 1.
       data = np.sort(resampled)
       q = np.linspace(0, 1, data.shape[0])
-      empirical_cdf_at_null = np.interp(null_value, data, q)
-      return 2 * min(empirical_cdf_at_null, 1 - empirical_cdf_at_null)
+      # These two only differ from 1 in sum if the null value coincides with
+      # some tied replicates, which count for both of the tails.
+      lower_tail = np.interp(null_value, data, q)
+      upper_tail = np.interp(-null_value, -data[::-1], q)
+      return min(1., 2 * min(lower_tail, upper_tail))
 
     def p_value(resampled: xr.DataArray) -> xr.DataArray:
       return xr.apply_ufunc(
-- 
2.43.0


From a40057c91849c00f0baec71a079d4794f77e401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:48 +0000
Subject: [PATCH 31/37] fix: remove the temporary file if the final move of
 atomic_write fails

---
 weatherbenchX/beam_utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/weatherbenchX/beam_utils.py b/weatherbenchX/beam_utils.py
index 5ee79e7..b75548d 100644
--- a/weatherbenchX/beam_utils.py
+++ b/weatherbenchX/beam_utils.py
@@ -93,9 +93,8 @@ def atomic_write(
   try:
     with filesystem.open(tmp_file_path, mode='wb') as f:
       f.write(data)
+    filesystem.mv(tmp_file_path, file_path, overwrite=True)
   except BaseException:
     with contextlib.suppress(FileNotFoundError):
       filesystem.rm(tmp_file_path)
     raise
-  else:
-    filesystem.mv(tmp_file_path, file_path, overwrite=True)
-- 
2.43.0


From 62f463daacccb1c64256cd846821f7aa3d7dcc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:15 +0000
Subject: [PATCH 32/37] fix: keep all labels when combining metrics in
 metric_values

---
 weatherbenchX/aggregation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weatherbenchX/aggregation.py b/weatherbenchX/aggregation.py
index d251b15..0484f83 100644
--- a/weatherbenchX/aggregation.py
+++ b/weatherbenchX/aggregation.py
@@ -137,6 +137,8 @@ class AggregationState:
     for metric_name in metric_values:
       for var_name in metric_values[metric_name]:
         da = metric_values[metric_name][var_name]
+        # Assigning alone would only keep the labels already in the dataset.
+        values, da = xr.align(values, da, join='outer')
         values[f'{metric_name}.{var_name}'] = da
     return values
 
-- 
2.43.0


From deb1373b2a198e4895daada15960635ffbd8ae79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:15 +0000
Subject: [PATCH 33/37] fix: keep missing values missing in the interval
 statistics

---
 weatherbenchX/metrics/categorical.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 4d49bef..99a5246 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -745,7 +745,13 @@ class Confident(base.PerVariableStatisticWithClimatology):
         quantile=self._spread_high
     ) - aligned_climatology.sel(quantile=self._spread_low)
 
-    return predictions_spread < self._confidence_threshold * climatology_spread
+    confident = (
+        predictions_spread < self._confidence_threshold * climatology_spread
+    )
+    # Keep missing predictions or climatology missing.
+    return confident.astype(float).where(
+        predictions_spread.notnull() & climatology_spread.notnull()
+    )
 
 
 class Covered(base.PerVariableStatistic):
@@ -784,7 +790,11 @@ class Covered(base.PerVariableStatistic):
     predictions_high = predictions.quantile(
         self._interval_high, dim=self._ensemble_dim
     )
-    return (predictions_low <= targets) & (targets <= predictions_high)
+    covered = (predictions_low <= targets) & (targets <= predictions_high)
+    # Keep missing predictions or targets missing.
+    return covered.astype(float).where(
+        predictions_low.notnull() & predictions_high.notnull() & targets.notnull()
+    )
 
 
 class JaccardDistant(base.PerVariableStatisticWithClimatology):
@@ -863,7 +873,11 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
     )
 
     jaccard_distance = 1 - jaccard_index
-    return jaccard_distance > self._threshold
+    # Keep missing predictions or climatology missing. (A missing union_length
+    # is not > 0 above, so that it has to be considered here.)
+    return (jaccard_distance > self._threshold).astype(float).where(
+        union_length.notnull()
+    )
 
 
 class Opportunism(base.PerVariableMetric):
-- 
2.43.0


From 7df2fedc91e5322f8eeb0d33f1efeb088bd7938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:15 +0000
Subject: [PATCH 34/37] fix: clip descending reference coordinates

---
 weatherbenchX/interpolations.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 53e84a6..e2fc32e 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -261,9 +261,11 @@ class InterpolateToReferenceCoords(Interpolation):
 
     if self._clip_reference_coords is not None:
       for coord in self._clip_reference_coords:
-        reference = reference.sel(
-            {coord: slice(da[coord].min(), da[coord].max())}
-        )
+        # A mask rather than a slice, as the reference may be descending.
+        reference = reference.isel({
+            coord: (reference[coord] >= da[coord].min())
+            & (reference[coord] <= da[coord].max())
+        })
 
     # If dims not explicit, interpolate all dims that have a corresponding
     # coordinate in the reference.
-- 
2.43.0


From 1f94015e65cb4bad7b2cabb7a4d84b5607756201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:15 +0000
Subject: [PATCH 35/37] fix: join subselected variables with commas in unique
 names

---
 weatherbenchX/metrics/wrappers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/wrappers.py b/weatherbenchX/metrics/wrappers.py
index 4b47804..5e915bd 100644
--- a/weatherbenchX/metrics/wrappers.py
+++ b/weatherbenchX/metrics/wrappers.py
@@ -897,7 +897,8 @@ class SubselectVariablesForStatistic(base.Statistic):
   def unique_name(self) -> str:
     # Make sure to change unique name in case there is another, non-subsetted
     # statistic with the same name.
-    variables_str = '_'.join(self.variables)
+    # Variable names often contain underscores, so join them with commas.
+    variables_str = ','.join(self.variables)
     return f'{self.statistic.unique_name}_{variables_str}'
 
   def compute(
-- 
2.43.0


From f10abae6f4b93305c17394254981105f08c8e345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:15 +0000
Subject: [PATCH 36/37] fix: respect the dimension order of NaN masks in
 neighborhood averaging

---
 weatherbenchX/metrics/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index fe618e1..3a4142e 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -71,7 +71,7 @@ def neighborhood_averaging_for_single_size(
   if 'mask' in da.coords:
     new_mask = neighborhood_averaging(
         da.mask.drop('mask'), neighborhood_size, wrap_longitude
-    )
+    ).transpose(*da.mask.dims)
     # This should be new_mask == 1 but there are some rounding errors in
     # convolve2d, so that this fails. Therefore, we use isclose.
     new_mask = np.isclose(new_mask, True)
-- 
2.43.0


From c466ad3a0d9be6dfbe1c54a4ad3b692da323d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:48 +0000
Subject: [PATCH 37/37] fix: distinct labels for narrow bins in
 ContinuousToBins

Labels rounded to two decimals coincide for narrow bins (e.g. specific
humidity), so that label-based selection or merging confuses the bins.
---
 weatherbenchX/metrics/wrappers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/weatherbenchX/metrics/wrappers.py b/weatherbenchX/metrics/wrappers.py
index 5e915bd..255e67b 100644
--- a/weatherbenchX/metrics/wrappers.py
+++ b/weatherbenchX/metrics/wrappers.py
@@ -388,6 +388,12 @@ class ContinuousToBins(InputTransform):
         f'{left:.2f} < p <= {right:.2f}'
         for left, right in zip(left_edges, right_edges)
     ]
+    if len(set(bin_names)) < len(bin_names):
+      # Two decimals are not enough to tell the bins apart.
+      bin_names = [
+          f'{left} < p <= {right}'
+          for left, right in zip(left_edges, right_edges)
+      ]
     result = result.assign_coords({self._bin_dim: bin_names})
     result = result.assign_coords(
         {f'{self._bin_dim}_left': (self._bin_dim, left_edges)}
-- 
2.43.0

