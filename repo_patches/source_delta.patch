From 929ad240703ed0f6128d15c35ba213ddec1d33a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:06 +0000
Subject: [PATCH 01/39] fix: splitters look groups of a pandas Series up by
 position, not by index label

---
 quantfinlib/train_test_split/_base.py        | 8 ++++++++
 quantfinlib/train_test_split/kfoldpe.py      | 3 ++-
 quantfinlib/train_test_split/walk_forward.py | 3 ++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/train_test_split/_base.py b/quantfinlib/train_test_split/_base.py
index 2754fc7..4faa669 100644
--- a/quantfinlib/train_test_split/_base.py
+++ b/quantfinlib/train_test_split/_base.py
@@ -6,6 +6,7 @@ from typing import Any, Optional, Union
 
 import numpy as np
 import pandas as pd
+from pandas.api.types import is_datetime64_any_dtype
 
 from quantfinlib.train_test_split._dtypes import IndexType, GroupType, XType, YType
 
@@ -131,6 +132,13 @@ def _embargo(
     return train_index
 
 
+def _positional_groups(groups: Optional[GroupType]) -> Optional[GroupType]:
+    """Drop the index of a Series of groups, so that groups are always looked up by position and never by label."""
+    if isinstance(groups, pd.Series):
+        return pd.DatetimeIndex(groups) if is_datetime64_any_dtype(groups) else groups.to_numpy()
+    return groups
+
+
 class BaseCV(ABC):
     """Base class for cross-validation splitters."""
 
diff --git a/quantfinlib/train_test_split/kfoldpe.py b/quantfinlib/train_test_split/kfoldpe.py
index cd48d6d..48095fd 100644
--- a/quantfinlib/train_test_split/kfoldpe.py
+++ b/quantfinlib/train_test_split/kfoldpe.py
@@ -6,7 +6,7 @@ from typing import Generator, Optional, Tuple
 import numpy as np
 import pandas as pd
 
-from quantfinlib.train_test_split._base import BaseCV, _purge, _embargo
+from quantfinlib.train_test_split._base import BaseCV, _purge, _embargo, _positional_groups
 from quantfinlib.train_test_split._dtypes import BoundPerFoldType, GroupType, IndexType, XType, YType
 
 
@@ -127,6 +127,7 @@ class TimeAwareKFold(BaseCV):
             Train and test indices.
         """
         super().split(X, y, groups)
+        groups = _positional_groups(groups)
         _validate_split_settings(
             n_samples=X.shape[0], n_folds=self.n_folds, n_embargo=self.n_embargo, n_purge=self.n_purge
         )
diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index a9c6311..8de1e77 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -7,7 +7,7 @@ import warnings
 import numpy as np
 import pandas as pd
 
-from quantfinlib.train_test_split._base import BaseCV, _embargo
+from quantfinlib.train_test_split._base import BaseCV, _embargo, _positional_groups
 from quantfinlib.train_test_split._dtypes import GroupType, IndexType, XType, YType
 
 
@@ -107,6 +107,7 @@ class WalkForward(BaseCV):
 
         """
         super().split(X, y, groups)
+        groups = _positional_groups(groups)
         n_samples = X.shape[0]
         indices = np.arange(n_samples)
         groups = groups if groups is not None else np.arange(n_samples)
-- 
2.43.0


From 2a2ef0519bd0b6925a4633a4bfeec04f3a56436c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:06 +0000
Subject: [PATCH 02/39] fix: TimeAwareKFold rejects folds left empty by a group
 that spans them

---
 quantfinlib/train_test_split/kfoldpe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantfinlib/train_test_split/kfoldpe.py b/quantfinlib/train_test_split/kfoldpe.py
index 48095fd..5c0c33d 100644
--- a/quantfinlib/train_test_split/kfoldpe.py
+++ b/quantfinlib/train_test_split/kfoldpe.py
@@ -186,6 +186,8 @@ def _modify_fold_bounds(bound_per_fold: BoundPerFoldType, groups: GroupType) ->
         last_group_curr_fold = groups[bound_per_fold[fold, 1]]
         first_group_next_fold = groups[bound_per_fold[fold + 1, 0]]
         if last_group_curr_fold == first_group_next_fold:
+            if groups[bound_per_fold[fold + 1, 1]] == last_group_curr_fold:
+                raise ValueError("A group spans a whole fold, which leaves the fold empty. Use fewer folds.")
             next_group = groups[groups > last_group_curr_fold][0]
             bound_per_fold[fold, 1] = np.where(groups == last_group_curr_fold)[0][-1]
             bound_per_fold[fold + 1, 0] = np.where(groups == next_group)[0][0]
-- 
2.43.0


From 5a792bbf28956a80acdbb4a57f8781e01ae3fc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:06 +0000
Subject: [PATCH 03/39] fix: WalkForward does not leak test groups into
 training when groups have gaps, and clips the last test window

---
 quantfinlib/train_test_split/walk_forward.py | 22 ++++++++------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index 8de1e77..eb5f0c0 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -116,14 +116,14 @@ class WalkForward(BaseCV):
         # Calculate the boundaries of the training set
         train_start_group = groups[0]
         train_end_group = groups[
-            np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="left")
+            np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="right") - 1
         ]
-        # Calculate the boundaries of the test set
-        test_start_group = groups[
-            np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="right")
-        ]
-        test_end_group = groups[np.searchsorted(groups, test_start_group + self.test_window - time_unit, side="left")]
         while train_end_group < groups[-1]:
+            # Calculate the boundaries of the test set, which starts with the first group after the training set
+            test_start_group = groups[np.searchsorted(groups, train_end_group, side="right")]
+            test_end_group = groups[
+                np.searchsorted(groups, test_start_group + self.test_window - time_unit, side="right") - 1
+            ]
             train_index = indices[(groups >= train_start_group) & (groups <= train_end_group)]
             test_index = indices[(groups >= test_start_group) & (groups <= test_end_group)]
             if (isinstance(self.n_embargo, Integral) and self.n_embargo > 0) or (
@@ -142,14 +142,10 @@ class WalkForward(BaseCV):
             if test_end_group >= groups[-1]:
                 self._finalized_splits = True
                 break
-            # update the boundaries of the training and test sets
+            # update the boundaries of the training set
+            train_end_group = test_end_group
             if self.split_type == "rolling":
-                train_start_group = train_start_group + self.test_window
-            train_end_group = groups[np.searchsorted(groups, train_end_group + self.test_window, side="left")]
-            test_start_group = groups[np.searchsorted(groups, test_start_group + self.test_window, side="left")]
-            test_end_group = groups[
-                np.searchsorted(groups, min(test_end_group + self.test_window, groups[-1]), side="left")
-            ]
+                train_start_group = train_end_group - self.train_window + time_unit
 
 
 def _to_timedelta(x: int, freq: str) -> pd.Timedelta:  # progma: no cover
-- 
2.43.0


From c536381287c107b8c2c29f52eb57a2815470b8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:17 +0000
Subject: [PATCH 04/39] fix: WalkForward counts the splits of one sweep only,
 and rejects windows that cannot be split

---
 quantfinlib/train_test_split/walk_forward.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index eb5f0c0..313dd33 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -113,11 +113,17 @@ class WalkForward(BaseCV):
         groups = groups if groups is not None else np.arange(n_samples)
         time_unit = pd.Timedelta(1, unit=self.freq) if self.freq is not None else 1
 
+        if self.train_window < time_unit or self.test_window < time_unit:
+            raise ValueError("train_window and test_window must both be at least 1.")
+        n_splits = 0
+
         # Calculate the boundaries of the training set
         train_start_group = groups[0]
         train_end_group = groups[
             np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="right") - 1
         ]
+        if train_end_group == groups[-1]:
+            raise ValueError("train_window covers all groups. No test data available.")
         while train_end_group < groups[-1]:
             # Calculate the boundaries of the test set, which starts with the first group after the training set
             test_start_group = groups[np.searchsorted(groups, train_end_group, side="right")]
@@ -137,9 +143,10 @@ class WalkForward(BaseCV):
                     n_embargo=self.n_embargo,
                 )
             yield train_index, test_index
-            self.n_splits += 1
+            n_splits += 1
             # if the current end group of the test set is the last group, then we have reached the end of the data
             if test_end_group >= groups[-1]:
+                self.n_splits = n_splits
                 self._finalized_splits = True
                 break
             # update the boundaries of the training set
-- 
2.43.0


From 98ba273f26d039bf710dd4ae9d05269a4f656531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:46 +0000
Subject: [PATCH 05/39] fix: path_sample formats pandas output without date
 labels, and drops x0 from a Series

---
 quantfinlib/sim/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index f5e78b7..96c0f7d 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -290,6 +290,7 @@ class SimBase(ABC):
             or (columns is not None)
         )
 
+        index = None
         if need_date_time_index:
             index = self._make_date_time_index(ans.shape[0], label_start, label_freq)
 
@@ -312,7 +313,7 @@ class SimBase(ABC):
             return ans
         else:
             if isinstance(ans, (pd.DataFrame, pd.Series)):
-                return ans.iloc[1:, :]
+                return ans.iloc[1:]
             else:
                 return ans[1:, :]
 
-- 
2.43.0


From c4f202bfef1925059389080e69e585d8ffc03320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:48 +0000
Subject: [PATCH 06/39] fix: nll, aic and bic leave the fitted state of a model
 alone

---
 quantfinlib/sim/_base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 96c0f7d..42caa38 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -12,6 +12,7 @@ License:   MIT License
 
 import math
 from abc import ABC, abstractmethod
+from copy import copy
 from typing import Any, List, Optional, Tuple, Union
 
 import numpy as np
@@ -419,6 +420,7 @@ class SimBase(ABC):
 
 
 class SimNllMixin:
+    # The methods below preprocess their data in a copy of the model, scoring must not change what fit() has learned.
 
     def nll(self, x: Union[np.ndarray, pd.DataFrame, pd.Series], dt: Optional[float] = None) -> float:
         r"""Calculate the negative log-likelihood (lower is better) for a given path.
@@ -436,7 +438,7 @@ class SimNllMixin:
             The computed negative log-likelihood.
 
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
+        values, dt = copy(self)._preprocess_fit_x_and_dt(x, dt)
         return self._nll(values, dt)
 
     def aic(self, x: Union[np.ndarray, pd.DataFrame, pd.Series], dt: Optional[float] = None) -> float:
@@ -455,7 +457,7 @@ class SimNllMixin:
             The computed Akaike Information Criterion (AIC) value.
 
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
+        values, dt = copy(self)._preprocess_fit_x_and_dt(x, dt)
         num_samples = x.shape[0]
         return 2 * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
 
@@ -474,6 +476,6 @@ class SimNllMixin:
         bic : float
             The computed Bayesian Information Criterion (BIC) value.
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
+        values, dt = copy(self)._preprocess_fit_x_and_dt(x, dt)
         num_samples = x.shape[0]
         return 2 * np.log(num_samples) * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
-- 
2.43.0


From 9ddde9fab326cd56dc588f04fee95ffaf7b4ab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:50 +0000
Subject: [PATCH 07/39] fix: OrnsteinUhlenbeck.fit uses the regression of each
 column, not that of the last column

---
 quantfinlib/sim/_ou.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index 188a7d8..b384c28 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -246,6 +246,7 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         # Compute OU params from slope, intercept, residual_std
         res_std = np.std(residuals, axis=0, ddof=1, keepdims=True)
 
+        slope, intercept = slopes.reshape(1, -1), intercepts.reshape(1, -1)
         self.mrr = -np.log(slope) / dt
         self.mean = intercept / (1 - slope)
         self.vol = np.sqrt((2 * self.mrr * res_std**2) / (1 - slope**2))
-- 
2.43.0


From a6eefed88d189efa0c2972ee1272f94f1fac162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:53 +0000
Subject: [PATCH 08/39] fix: OrnsteinUhlenbeck simulates several paths of a
 multivariate process

---
 quantfinlib/sim/_ou.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index b384c28..7e13a1c 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -281,7 +281,7 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         _fill_with_correlated_noise(dx, loc=mean_term, scale=scale_factor, L=self.L_, random_state=random_state)
 
         # Forward step trough OU
-        mrr_factor = mrr_factor.reshape(-1)
+        mrr_factor = np.tile(np.broadcast_to(mrr_factor.reshape(-1), num_variates), num_paths)
         for i in range(ans.shape[0] - 1):
             ans[i + 1, :] += ans[i, :] * mrr_factor
 
-- 
2.43.0


From 902d7b525c89d0cceba8766ff66674da09b87712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:54 +0000
Subject: [PATCH 09/39] fix: GeometricBrownianMotion likelihood scales the
 drift with dt

---
 quantfinlib/sim/_gbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index 2418148..95afbab 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -231,7 +231,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
 
     def _nll(self, x: np.ndarray, dt: float):
         dx = np.log(x[1:, ...] / x[:-1, ...])
-        mean_ = (self.drift - 0.5 * self.vol**2).flatten()
+        mean_ = ((self.drift - 0.5 * self.vol**2) * dt).flatten()
         std_ = (self.vol * dt**0.5).flatten()
 
         if self.cor is not None:
-- 
2.43.0


From 7c3d20e14e3ca91cdcb25ab919fabf0d378cafe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:56 +0000
Subject: [PATCH 10/39] fix: GeometricBrownianMotion.fit estimates the drift
 that path_sample and nll use

---
 quantfinlib/sim/_gbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index 95afbab..afb2b65 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -179,7 +179,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
 
         # Mean and standard deviation of the changes
         self.vol = np.std(dx, axis=0, ddof=1, keepdims=True) / np.sqrt(dt)
-        self.drift = np.mean(dx, axis=0, keepdims=True) / dt
+        self.drift = np.mean(dx, axis=0, keepdims=True) / dt + 0.5 * self.vol**2
 
         # Optionally correlations if we have multiple columns
         if x.shape[1] > 1:
-- 
2.43.0


From 1cb5e8f351b1f08a947701d0af9613c7576a450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:58 +0000
Subject: [PATCH 11/39] fix: fit infers dt from anchored weekly, quarterly and
 yearly frequencies

---
 quantfinlib/sim/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 42caa38..022b27b 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -173,7 +173,7 @@ class SimBase(ABC):
         # if dt is not provided then we need to infer it
         if dt is None:
             if self.fit_index_.freq_ is not None:
-                dt = time_series_freq_to_duration(self.fit_index_.freq_)
+                dt = time_series_freq_to_duration(self.fit_index_.freq_.split("-")[0])  # drop anchors, e.g. "W-SUN"
                 if dt is None:
                     raise ValueError("Unable to determine dt based on freq", self.fit_index_.freq_)
             else:
-- 
2.43.0


From 626db95cc2de302adab9b8e08b91239194c978c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:32 +0000
Subject: [PATCH 12/39] fix: path_sample bases dt on label_freq, as documented

---
 quantfinlib/sim/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 022b27b..a2b34a5 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -223,7 +223,9 @@ class SimBase(ABC):
 
         x0 = x0.reshape(1, -1)
 
-        # if dt not t is provided then align dt with the fitting()
+        # if dt is not provided then base it on the label frequency, else align dt with the fitting()
+        if dt is None and isinstance(label_freq, str):
+            dt = time_series_freq_to_duration(label_freq.split("-")[0])
         if dt is None:
             if is_fitted:
                 dt = self.fit_dt_
-- 
2.43.0


From 795149949adc476c0769efa441207e20863c6852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:34 +0000
Subject: [PATCH 13/39] fix: simulation does not print debug output

---
 quantfinlib/sim/_base.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index a2b34a5..21e7d16 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -88,8 +88,6 @@ def _triangular_index(T_n: int) -> int:
 
 
 def _make_cor_from_upper_tri(values: _SimFitDataType) -> np.ndarray:
-    print("_make_cor_from_upper_tri", values)
-
     values = _to_numpy(values)
 
     # We support 1 list, or a row/col from a matrix, as long as it's effectively 1d
@@ -203,7 +201,6 @@ class SimBase(ABC):
             else:
                 x0 = np.array([[self.x0_default]])
         elif isinstance(x0, str):
-            print(x0, is_fitted, need_datetime_index, label_start)
             if x0 == "first":
                 if not is_fitted:
                     raise ValueError('x0: "first" can not be used because the model is not fitted.')
-- 
2.43.0


From be7b501078f9e19d8a4f8b255a334f70c3484489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:36 +0000
Subject: [PATCH 14/39] fix: aic and bic do not multiply the summed
 log-likelihood by the number of samples again

---
 quantfinlib/sim/_base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 21e7d16..3f0cccd 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -457,8 +457,7 @@ class SimNllMixin:
 
         """
         values, dt = copy(self)._preprocess_fit_x_and_dt(x, dt)
-        num_samples = x.shape[0]
-        return 2 * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
+        return 2 * self.num_parameters_ + 2 * self._nll(values, dt)
 
     def bic(self, x: Union[np.ndarray, pd.DataFrame, pd.Series], dt: Optional[float] = None) -> float:
         r"""Calculate the Bayesian Information Criterion (BIC) for a given path.
@@ -477,4 +476,4 @@ class SimNllMixin:
         """
         values, dt = copy(self)._preprocess_fit_x_and_dt(x, dt)
         num_samples = x.shape[0]
-        return 2 * np.log(num_samples) * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
+        return np.log(num_samples) * self.num_parameters_ + 2 * self._nll(values, dt)
-- 
2.43.0


From 5f9b1acc9943a0bdb8cb455ea997efe37c237241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:38 +0000
Subject: [PATCH 15/39] fix: aic and bic count the parameters of multivariate
 and fitted models

---
 quantfinlib/sim/_base.py | 8 ++++++++
 quantfinlib/sim/_bm.py   | 8 ++++----
 quantfinlib/sim/_gbm.py  | 8 ++++----
 quantfinlib/sim/_ou.py   | 7 +++----
 4 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 3f0cccd..9b83cc0 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -132,6 +132,14 @@ class _DateTimeIndexInfo:
             self.freq_ = pd.infer_freq(x.index)
 
 
+def _count_parameters(cor: Optional[np.ndarray], *params: np.ndarray) -> int:
+    """Count the parameters of a model: the elements of the parameter vectors, and the distinct correlations."""
+    num_parameters = sum(p.size for p in params)
+    if cor is not None:
+        num_parameters += cor.shape[0] * (cor.shape[0] - 1) // 2
+    return num_parameters
+
+
 class SimBase(ABC):
     def __init__(self, *args, **kwargs):
         # Info about the data used for fitting
diff --git a/quantfinlib/sim/_bm.py b/quantfinlib/sim/_bm.py
index da188be..4650fe9 100644
--- a/quantfinlib/sim/_bm.py
+++ b/quantfinlib/sim/_bm.py
@@ -18,7 +18,7 @@ from typing import Optional, Union
 import numpy as np
 from scipy.stats import multivariate_normal, norm
 
-from quantfinlib.sim._base import SimBase, SimNllMixin, _fill_with_correlated_noise, _to_numpy
+from quantfinlib.sim._base import SimBase, SimNllMixin, _count_parameters, _fill_with_correlated_noise, _to_numpy
 
 
 class BrownianMotion(SimBase, SimNllMixin):
@@ -154,9 +154,7 @@ class BrownianMotion(SimBase, SimNllMixin):
             self.cor = np.asarray(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
-        self.num_parameters_ = len(self.drift) + len(self.vol)
-        if self.cor is not None:
-            self.num_parameters_ += len(self.drift) * (len(self.drift) - 1) / 2
+        self.num_parameters_ = _count_parameters(self.cor, self.drift, self.vol)
 
     def __repr__(self) -> str:
         """Return a string representation of the BrownianMotion instance."""
@@ -186,6 +184,8 @@ class BrownianMotion(SimBase, SimNllMixin):
             self.cor = None
             self.L_ = None
 
+        self.num_parameters_ = _count_parameters(self.cor, self.drift, self.vol)
+
         return self
 
     def _path_sample_np(
diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index afb2b65..fc84140 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -18,7 +18,7 @@ from typing import Optional, Union
 import numpy as np
 from scipy.stats import multivariate_normal, norm
 
-from quantfinlib.sim._base import SimBase, SimNllMixin, _fill_with_correlated_noise, _to_numpy
+from quantfinlib.sim._base import SimBase, SimNllMixin, _count_parameters, _fill_with_correlated_noise, _to_numpy
 
 
 class GeometricBrownianMotion(SimBase, SimNllMixin):
@@ -162,9 +162,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
             self.cor = np.asarray(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
-        self.num_parameters_ = len(self.drift) + len(self.vol)
-        if self.cor is not None:
-            self.num_parameters_ += len(self.drift) * (len(self.drift) - 1) / 2
+        self.num_parameters_ = _count_parameters(self.cor, self.drift, self.vol)
 
     def __repr__(self) -> str:
         """Return a string representation of the GeometriCBrownianMotion instance."""
@@ -194,6 +192,8 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
             self.cor = None
             self.L_ = None
 
+        self.num_parameters_ = _count_parameters(self.cor, self.drift, self.vol)
+
         return self
 
     def _path_sample_np(
diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index 7e13a1c..16c8d37 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -19,7 +19,7 @@ from typing import Optional, Union
 import numpy as np
 from scipy.stats import multivariate_normal, norm
 
-from quantfinlib.sim._base import SimBase, SimNllMixin, _fill_with_correlated_noise, _to_numpy
+from quantfinlib.sim._base import SimBase, SimNllMixin, _count_parameters, _fill_with_correlated_noise, _to_numpy
 
 
 class OrnsteinUhlenbeck(SimBase, SimNllMixin):
@@ -184,9 +184,7 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
             self.cor = np.asarray(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
-        self.num_parameters_ = len(self.mean) + len(self.mrr) + len(self.vol)
-        if self.cor is not None:
-            self.num_parameters_ += len(self.mean) * (len(self.mean) - 1) / 2
+        self.num_parameters_ = _count_parameters(self.cor, self.mean, self.mrr, self.vol)
 
     def __repr__(self):
         """Return a string representation of the OrnsteinUhlenbeck instance."""
@@ -250,6 +248,7 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         self.mrr = -np.log(slope) / dt
         self.mean = intercept / (1 - slope)
         self.vol = np.sqrt((2 * self.mrr * res_std**2) / (1 - slope**2))
+        self.num_parameters_ = _count_parameters(self.cor, self.mean, self.mrr, self.vol)
 
         return self
 
-- 
2.43.0


From a98d47dfe79207df385db3d4d29273633caba938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:11 +0000
Subject: [PATCH 16/39] fix: bin count of perfectly anti-correlated variables
 is finite

---
 quantfinlib/distance/information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/distance/information.py b/quantfinlib/distance/information.py
index b468fb5..06783c7 100644
--- a/quantfinlib/distance/information.py
+++ b/quantfinlib/distance/information.py
@@ -16,7 +16,7 @@ def _get_nb_bins_from_xy(x: np.ndarray, y: Optional[np.ndarray] = None) -> int:
         return _get_optimal_nb_bins(x.shape[0], None)
     else:
         corr = np.corrcoef(x, y)[0, 1]
-        if corr == 1 or abs(corr - 1) < 1e-5:
+        if abs(abs(corr) - 1) < 1e-5:
             return _get_optimal_nb_bins(x.shape[0], None)
         else:
             return _get_optimal_nb_bins(x.shape[0], corr=np.corrcoef(x, y)[0, 1])
-- 
2.43.0


From 72568e07c76189ac4a710a61b3f69ac461287801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:57 +0000
Subject: [PATCH 17/39] fix: gap_statistic does not reseed the global numpy
 random generator

---
 quantfinlib/clustering/metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/clustering/metrics.py b/quantfinlib/clustering/metrics.py
index 3eda08c..ce382ef 100644
--- a/quantfinlib/clustering/metrics.py
+++ b/quantfinlib/clustering/metrics.py
@@ -70,8 +70,8 @@ def gap_statistic(
         seed = 0
     for b in range(nb):
         # Create a reference distance matrix by drawing random samples from the distance matrix
-        np.random.seed(seed + b)
-        dist_ref = np.random.uniform(0, np.max(dist), size=(n, n))
+        rng = np.random.RandomState(seed + b)
+        dist_ref = rng.uniform(0, np.max(dist), size=(n, n))
         # Make the reference distance matrix symmetric
         dist_ref = np.triu(dist_ref) + np.triu(dist_ref).T
         # Make sure the diagonal elements of reference distance matrix are zero
-- 
2.43.0


From 595f666a24eb7e02c8f92e2913ba5baf62a5dc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:46 +0000
Subject: [PATCH 18/39] fix: gap optimisation returns the largest candidate
 when no candidate qualifies

---
 quantfinlib/clustering/hierarchical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/clustering/hierarchical.py b/quantfinlib/clustering/hierarchical.py
index 43d7cf4..b23c1e1 100644
--- a/quantfinlib/clustering/hierarchical.py
+++ b/quantfinlib/clustering/hierarchical.py
@@ -176,8 +176,8 @@ def optimize_n_clusters(
             gap_values.append(gap)
             gap_std_values.append(gap_std)
         gap_values, gap_std_values = np.array(gap_values), np.array(gap_std_values)
-        k = np.where(gap_values[:-1] - gap_values[1:] + gap_std_values[1:] > 0)[0][0]
-        return int(k + 2)
+        k = np.where(gap_values[:-1] - gap_values[1:] + gap_std_values[1:] > 0)[0]
+        return int(k[0] + 2) if len(k) > 0 else max_clust
     elif metric == "silhouette":
         silh_values = []
         for k in nclust_range:
-- 
2.43.0


From b534483d3404856d82fa9096a322c5c41cb463e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:47 +0000
Subject: [PATCH 19/39] fix: eigenvalue denoising leaves its input alone and
 fits the non-zero eigenvalues

---
 quantfinlib/math/cov.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/math/cov.py b/quantfinlib/math/cov.py
index a50acd5..df0b0e6 100644
--- a/quantfinlib/math/cov.py
+++ b/quantfinlib/math/cov.py
@@ -373,11 +373,12 @@ def _eigen_values_denoise(
     info["fitted"] = False
     num_assets = len(eigen_values)
     if num_assets > num_timesteps:
+        eigen_values = eigen_values.copy()
         eigen_values[-(num_assets - num_timesteps):] = 0.0
     if k is None:
         # Fit the Marchenko Pastur distribution to the eigenvalues and find the noise-var shape parameter,
         if num_assets > num_timesteps:
-            best_var = _marchenko_pastur_fit(num_timesteps, num_assets, eigen_values[:num_assets - num_timesteps])
+            best_var = _marchenko_pastur_fit(num_timesteps, num_assets, eigen_values[:num_timesteps])
         else:
             best_var = _marchenko_pastur_fit(num_timesteps, num_assets, eigen_values)
         _, max_noise_eig_val = _marcenko_pastur_support(best_var, num_timesteps, num_assets)
-- 
2.43.0


From 998952cd2e7d7abf0c1008341ee71cb8a5e13f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:53 +0000
Subject: [PATCH 20/39] fix: importing distance_matrix keeps the configured log
 level, reconfiguring closes replaced handlers

---
 quantfinlib/distance/distance_matrix.py | 1 -
 quantfinlib/util/_logging.py            | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/distance/distance_matrix.py b/quantfinlib/distance/distance_matrix.py
index 8ec038e..37ac07b 100644
--- a/quantfinlib/distance/distance_matrix.py
+++ b/quantfinlib/distance/distance_matrix.py
@@ -20,7 +20,6 @@ from quantfinlib.util import (
 )
 
 logger = logging.getLogger("quantfinlib")
-logger.setLevel(logging.WARNING)
 
 CORR_TO_DIST_METHOD_MAP = {
     "angular": corr_to_angular_dist,
diff --git a/quantfinlib/util/_logging.py b/quantfinlib/util/_logging.py
index ce13efb..793168c 100644
--- a/quantfinlib/util/_logging.py
+++ b/quantfinlib/util/_logging.py
@@ -24,6 +24,7 @@ def configure_logger(verbosity=logging.WARNING, log_to_file=False, log_file_path
     # Clear any existing handlers
     for handler in logger.handlers[:]:
         logger.removeHandler(handler)
+        handler.close()
 
     # Stream handler for console logging
     stream_handler = logging.StreamHandler()
-- 
2.43.0


From 4c156e1bc04d9de58703ca732b4e6171167a3968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:55 +0000
Subject: [PATCH 21/39] fix: __all__ of sim and util lists names, so that star
 imports work

---
 quantfinlib/sim/__init__.py  |  2 +-
 quantfinlib/util/__init__.py | 18 +++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/quantfinlib/sim/__init__.py b/quantfinlib/sim/__init__.py
index 48bc8ee..7801f38 100644
--- a/quantfinlib/sim/__init__.py
+++ b/quantfinlib/sim/__init__.py
@@ -21,7 +21,7 @@ from ._gbm import GeometricBrownianMotion
 from ._quasi_random import QuasiRandom
 from ._ou import OrnsteinUhlenbeck
 
-__all__ = [BrownianMotion, GeometricBrownianMotion, OrnsteinUhlenbeck, QuasiRandom]
+__all__ = ["BrownianMotion", "GeometricBrownianMotion", "OrnsteinUhlenbeck", "QuasiRandom"]
 
 """
 todo:
diff --git a/quantfinlib/util/__init__.py b/quantfinlib/util/__init__.py
index 84422ff..235e10c 100644
--- a/quantfinlib/util/__init__.py
+++ b/quantfinlib/util/__init__.py
@@ -6,13 +6,13 @@ from quantfinlib.util._validate import validate_series_or_1Darray, validate_fram
 from quantfinlib.util._dtypes import to_numpy, SeriesOrArray, DataFrameOrArray, ArrayLike
 
 __all__ = [
-    logger,
-    get_project_root,
-    configure_logger,
-    validate_series_or_1Darray,
-    validate_frame_or_2Darray,
-    to_numpy,
-    SeriesOrArray,
-    DataFrameOrArray,
-    ArrayLike,
+    "logger",
+    "get_project_root",
+    "configure_logger",
+    "validate_series_or_1Darray",
+    "validate_frame_or_2Darray",
+    "to_numpy",
+    "SeriesOrArray",
+    "DataFrameOrArray",
+    "ArrayLike",
 ]
-- 
2.43.0


From 2fa7f1837b1371c6fa930524531d6cf6893bd674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:00 +0000
Subject: [PATCH 22/39] fix: Corwin-Schultz alpha subtracts the gamma term

---
 quantfinlib/feature/micro_structure/_price_sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/feature/micro_structure/_price_sequences.py b/quantfinlib/feature/micro_structure/_price_sequences.py
index 5a77cb7..1922423 100644
--- a/quantfinlib/feature/micro_structure/_price_sequences.py
+++ b/quantfinlib/feature/micro_structure/_price_sequences.py
@@ -457,7 +457,7 @@ def _get_alpha(beta: pd.Series, gamma: pd.Series) -> pd.Series:
     """See p. 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado."""
     den = 3 - 2.0 * 2**0.5
     alpha = (2**0.5 - 1) * (beta**0.5) / den
-    alpha -= -((gamma / den) ** 0.5)
+    alpha -= (gamma / den) ** 0.5
     alpha[alpha < 0] = 0  # set negative alpha to zero
     return alpha
 
-- 
2.43.0


From 19ea64084e1e2e8cfc2455c107346d52626705ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:07 +0000
Subject: [PATCH 23/39] fix: Yang-Zhang volatility uses the open-to-close
 return of the same bar

---
 quantfinlib/feature/micro_structure/_price_sequences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/feature/micro_structure/_price_sequences.py b/quantfinlib/feature/micro_structure/_price_sequences.py
index 1922423..bcf6de6 100644
--- a/quantfinlib/feature/micro_structure/_price_sequences.py
+++ b/quantfinlib/feature/micro_structure/_price_sequences.py
@@ -161,9 +161,9 @@ def get_yang_zhang_volatility(
     """
     coeff = 0.34 / (1.34 + (window + 1) / (window - 1))
     open_prev_close_ret = np.log(p_open / p_close.shift(1))
-    close_prev_open_ret = np.log(p_close / p_open.shift(1))
+    close_open_ret = np.log(p_close / p_open)
     sigma_overnight_sq = (open_prev_close_ret**2.0).rolling(window=window).mean()
-    sigma_open_to_close_sq = (close_prev_open_ret**2.0).rolling(window=window).mean()
+    sigma_open_to_close_sq = (close_open_ret**2.0).rolling(window=window).mean()
     sigma_rs_sq = get_rogers_satchell_volatility(
         p_high=p_high, p_low=p_low, p_close=p_close, p_open=p_open, window=window
     )
-- 
2.43.0


From 8d8ea2f09dd74e77d358b1496e3fadc4ef9b0492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:01 +0000
Subject: [PATCH 24/39] fix: correlation matrices may be off by rounding, as
 those of np.corrcoef are

---
 quantfinlib/distance/correlation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/distance/correlation.py b/quantfinlib/distance/correlation.py
index b6232e4..bcb558b 100644
--- a/quantfinlib/distance/correlation.py
+++ b/quantfinlib/distance/correlation.py
@@ -23,7 +23,7 @@ def _validate_correlation_matrix(corr: np.ndarray) -> None:
     assert corr.ndim == 2, "Input must be a 2D matrix"
     assert corr.shape[0] == corr.shape[1], "Input must be a square matrix"
     assert np.allclose(corr, corr.T), "Correlation matrix must be symmetric"
-    assert np.all(np.diag(corr) == 1), "Diagonal elements of a correlation matrix must be 1"
+    assert np.allclose(np.diag(corr), 1), "Diagonal elements of a correlation matrix must be 1"
 
 
 def _convert_correlation_to_distance(
@@ -31,6 +31,7 @@ def _convert_correlation_to_distance(
 ) -> Union[float, np.ndarray]:
     if isinstance(corr, np.ndarray):
         _validate_correlation_matrix(corr)
+        corr = (corr + corr.T) / 2  # np.corrcoef is symmetric up to rounding only
     corr = _clip_values(corr, -1.0, 1.0)
     dist = conversion_function(corr)
     dist = _clip_values(dist, 0.0, 1.0)
-- 
2.43.0


From 23170ce86bd6389407c029a841267e83cd34c4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:03 +0000
Subject: [PATCH 25/39] fix: a date index of fewer than three rows has no
 frequency, instead of raising

---
 quantfinlib/sim/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 9b83cc0..3b4efb0 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -129,7 +129,7 @@ class _DateTimeIndexInfo:
             self.name_ = index.name
             self.min_ = index.min()
             self.max_ = index.max()
-            self.freq_ = pd.infer_freq(x.index)
+            self.freq_ = pd.infer_freq(x.index) if len(x.index) >= 3 else None
 
 
 def _count_parameters(cor: Optional[np.ndarray], *params: np.ndarray) -> int:
-- 
2.43.0


From fea427bfb4c6d1e8edc0857bd3f236eb57e212a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:02 +0000
Subject: [PATCH 26/39] fix: nll of a correlated model accepts one volatility
 for all variates, as path_sample does

---
 quantfinlib/sim/_bm.py  | 2 +-
 quantfinlib/sim/_gbm.py | 2 +-
 quantfinlib/sim/_ou.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/sim/_bm.py b/quantfinlib/sim/_bm.py
index 4650fe9..41c491f 100644
--- a/quantfinlib/sim/_bm.py
+++ b/quantfinlib/sim/_bm.py
@@ -223,7 +223,7 @@ class BrownianMotion(SimBase, SimNllMixin):
         std_ = (self.vol * dt**0.5).flatten()
 
         if self.cor is not None:
-            D = np.diag(std_)
+            D = np.diag(np.broadcast_to(std_, mean_.shape))
             cov_ = D @ self.cor @ D
             var = multivariate_normal(mean=mean_, cov=cov_)
         else:
diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index fc84140..f80ddb6 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -235,7 +235,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
         std_ = (self.vol * dt**0.5).flatten()
 
         if self.cor is not None:
-            D = np.diag(std_)
+            D = np.diag(np.broadcast_to(std_, mean_.shape))
             cov_ = D @ self.cor @ D
             var = multivariate_normal(mean=mean_, cov=cov_)
         else:
diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index 16c8d37..e3ad091 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -298,7 +298,7 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         dx = x[1:, ...] - mrr_factor * x[:-1, ...]
 
         if self.cor is not None:
-            D = np.diag(std_)
+            D = np.diag(np.broadcast_to(std_, mean_.shape))
             cov_ = D @ self.cor @ D
             var = multivariate_normal(mean=mean_, cov=cov_)
         else:
-- 
2.43.0


From 7a22d5a7c7671dd3e95a29831f02209a2e3e0f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:48 +0000
Subject: [PATCH 27/39] fix: edge spread of series with repeated index labels

---
 quantfinlib/feature/micro_structure/_price_sequences.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/quantfinlib/feature/micro_structure/_price_sequences.py b/quantfinlib/feature/micro_structure/_price_sequences.py
index bcf6de6..ec8cb22 100644
--- a/quantfinlib/feature/micro_structure/_price_sequences.py
+++ b/quantfinlib/feature/micro_structure/_price_sequences.py
@@ -281,10 +281,8 @@ def get_edge_spread(
     rolling_spread = Parallel(n_jobs=-1)(
         delayed(_apply_edge_spread)(price_df.iloc[i : i + window]) for i in range(len(price_df) - window + 1)
     )
-    rolling_spread = pd.Series(rolling_spread, index=price_df.index[window - 1 :])
-
-    rolling_spread = rolling_spread.reindex(price_df.index, fill_value=np.nan)
-    return rolling_spread
+    num_undefined = len(price_df) - len(rolling_spread)
+    return pd.Series([np.nan] * num_undefined + rolling_spread, index=price_df.index, dtype=float)
 
 
 def _edge_spread(
-- 
2.43.0


From da8a3d0a01d12a163d5fa2039ce5b6819bb7ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:21 +0000
Subject: [PATCH 28/39] fix: clusters of linkages whose distances are not
 increasing (centroid, median) have the requested number

---
 quantfinlib/clustering/hierarchical.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/clustering/hierarchical.py b/quantfinlib/clustering/hierarchical.py
index b23c1e1..0545e38 100644
--- a/quantfinlib/clustering/hierarchical.py
+++ b/quantfinlib/clustering/hierarchical.py
@@ -134,13 +134,23 @@ class HC:
         np.ndarray
             The cluster labels.
         """
-        return hierarchy.cut_tree(Z=self.linkage, n_clusters=n_clusters).flatten()
+        return _cut_tree(self.linkage, n_clusters=n_clusters)
 
     def get_optimal_nclusters(self, max_clust: int = 20, metric: str = "gap", nb: int = 10) -> int:
         """Get the optimal number of clusters."""
         return optimize_n_clusters(linkage=self.linkage, dist=self.dist, max_clust=max_clust, metric=metric, nb=nb)
 
 
+def _cut_tree(linkage: np.ndarray, n_clusters: int) -> np.ndarray:
+    """Cut the tree in the order of its merges.
+
+    scipy orders the merges by their distance, which is not increasing for the centroid and median linkage.
+    """
+    merges = linkage.copy()
+    merges[:, 2] = np.arange(len(merges))
+    return hierarchy.cut_tree(Z=merges, n_clusters=n_clusters).flatten()
+
+
 def optimize_n_clusters(
     linkage: np.ndarray, dist: np.ndarray, max_clust: int = 20, metric: str = "gap", nb: int = 10
 ) -> int:
@@ -171,7 +181,7 @@ def optimize_n_clusters(
         gap_values = []
         gap_std_values = []
         for k in nclust_range:
-            labels = hierarchy.cut_tree(linkage, n_clusters=k).flatten()
+            labels = _cut_tree(linkage, n_clusters=k)
             gap, gap_std = gap_statistic(dist=dist, labels=labels, nb=nb)
             gap_values.append(gap)
             gap_std_values.append(gap_std)
@@ -181,7 +191,7 @@ def optimize_n_clusters(
     elif metric == "silhouette":
         silh_values = []
         for k in nclust_range:
-            labels = hierarchy.cut_tree(linkage, n_clusters=k).flatten()
+            labels = _cut_tree(linkage, n_clusters=k)
             silh_values.append(silhouette_tstat(dist=dist, labels=labels))
         return int(np.argmax(silh_values) + 2)
     else:
-- 
2.43.0


From fc89d6a7da99a7dcdc0e35c05c1fdf4ebfc57cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:06 +0000
Subject: [PATCH 29/39] fix: the floor of _cov_to_cor is one for standard
 deviations, as documented, not for variances

---
 quantfinlib/math/cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/math/cov.py b/quantfinlib/math/cov.py
index df0b0e6..0fd53c8 100644
--- a/quantfinlib/math/cov.py
+++ b/quantfinlib/math/cov.py
@@ -72,7 +72,7 @@ def _cov_to_cor(cov: np.ndarray, cov_reg: float = 1e-6) -> Tuple[np.ndarray, np.
     cor, std
     """
     # Derive the correlation matrix from a covariance matrix
-    std = np.sqrt(np.maximum(np.diag(cov), cov_reg))
+    std = np.sqrt(np.maximum(np.diag(cov), cov_reg**2))
 
     cor = cov / np.outer(std, std)
     cor[cor < -1.0], cor[cor > 1.0] = -1.0, 1.0
-- 
2.43.0


From 5ba594158530b2030de5a69a2afd2e4c75e75a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:06 +0000
Subject: [PATCH 30/39] fix: eigenvalues given as integers are denoised without
 truncation

---
 quantfinlib/math/cov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/math/cov.py b/quantfinlib/math/cov.py
index 0fd53c8..8beeb9c 100644
--- a/quantfinlib/math/cov.py
+++ b/quantfinlib/math/cov.py
@@ -240,7 +240,7 @@ def _marchenko_pastur_pdf(var: float, num_timesteps: int, num_assets: int, eigen
 
     q = num_timesteps / num_assets
     e_min, e_max = _marcenko_pastur_support(var, num_timesteps, num_assets)
-    pdf = np.zeros_like(eigen_values)
+    pdf = np.zeros_like(eigen_values, dtype=float)
     mask = np.logical_and(eigen_values > e_min, eigen_values < e_max)
     pdf[mask] = (
         q
@@ -391,7 +391,7 @@ def _eigen_values_denoise(
     info["k"] = k
     # All eigenvalues below "max_noise_eig_val" are considered noise components,
     # we will replace those with their mean.
-    improved_eigen_values = eigen_values.copy()
+    improved_eigen_values = eigen_values.astype(float)
     improved_eigen_values[k:] = np.mean(eigen_values[k:])
     return improved_eigen_values, info
 
-- 
2.43.0


From 5d252070e1352deb9e10add36427a3033d32cdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:22 +0000
Subject: [PATCH 31/39] fix: a short index without daily steps, e.g. three
 weekly dates, is not daily

---
 quantfinlib/_datatypes/timeseries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/_datatypes/timeseries.py b/quantfinlib/_datatypes/timeseries.py
index 4cf113d..eb71034 100644
--- a/quantfinlib/_datatypes/timeseries.py
+++ b/quantfinlib/_datatypes/timeseries.py
@@ -110,7 +110,7 @@ def time_series_freq(ts_obj) -> Optional[str]:
 
     # Check for daily frequency (7 days a week)
     daily_count = delta_counts.get(pd.Timedelta(days=1), 0)
-    daily_resolution = len(time_deltas) - daily_count <= 2
+    daily_resolution = (daily_count >= 2) and (len(time_deltas) - daily_count <= 2)
     if daily_resolution:
         return "D"
 
-- 
2.43.0


From 4b1a49fb6bf3135092dc2eea25dfd387341b3f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:22 +0000
Subject: [PATCH 32/39] fix: frequency of date indexes with a time zone that
 has daylight saving

---
 quantfinlib/_datatypes/timeseries.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/_datatypes/timeseries.py b/quantfinlib/_datatypes/timeseries.py
index eb71034..42f452e 100644
--- a/quantfinlib/_datatypes/timeseries.py
+++ b/quantfinlib/_datatypes/timeseries.py
@@ -68,8 +68,8 @@ def time_series_freq(ts_obj) -> Optional[str]:
     else:
         dt_ndx = ts_obj
 
-    # Calculate the time deltas between consecutive time points
-    time_deltas = dt_ndx.to_series().diff().dropna()
+    # Calculate the time deltas between consecutive time points, in local time: with daylight saving days differ
+    time_deltas = dt_ndx.tz_localize(None).to_series().diff().dropna()
 
     # Ensure there are enough data points to make a determination
     if len(time_deltas) < 2:
-- 
2.43.0


From 6908cd01f263d465481cdf9d87fc4235cbb2c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:07 +0000
Subject: [PATCH 33/39] fix: the index of the treasury rates is named DATE, as
 documented

---
 quantfinlib/datasets/_dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/datasets/_dataloader.py b/quantfinlib/datasets/_dataloader.py
index 2944fb1..11598be 100644
--- a/quantfinlib/datasets/_dataloader.py
+++ b/quantfinlib/datasets/_dataloader.py
@@ -99,7 +99,6 @@ def load_treasury_rates() -> pd.DataFrame:
     df = _load_csv_gz_to_df(TREASURY_RATES_LOCAL_PATH)
     df = df.rename(
         columns={
-            "Date": "DATE",
             "1 Mo": "1m",
             "2 Mo": "2m",
             "3 Mo": "3m",
@@ -115,6 +114,7 @@ def load_treasury_rates() -> pd.DataFrame:
             "30 Yr": "30y",
         }
     )
+    df.index.name = "DATE"
     logger.info(
         f"Loaded dataset with {df.shape[0]} rows and {df.shape[1]} columns. "
         f"Latest date: {df.index.max()}"
-- 
2.43.0


From a2f79be8ee64af6a5a04c754cd3b9982b3c9fe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:28 +0000
Subject: [PATCH 34/39] fix: von_neuman_divergence of symmetric matrices does
 not draw from the global numpy generator

---
 quantfinlib/distance/matrix_divergence.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/distance/matrix_divergence.py b/quantfinlib/distance/matrix_divergence.py
index 820f312..fac30c6 100644
--- a/quantfinlib/distance/matrix_divergence.py
+++ b/quantfinlib/distance/matrix_divergence.py
@@ -9,6 +9,18 @@ def _assert_positive_definite(p: np.ndarray, q: np.ndarray) -> None:
     assert np.all(np.linalg.eigvals(p) > 0) and np.all(np.linalg.eigvals(q) > 0), "Matrices must be positive definite"
 
 
+def _log_positive_definite(a: np.ndarray) -> np.ndarray:
+    """Compute the matrix logarithm of a positive definite matrix.
+
+    The logarithm of a symmetric matrix is computed from its eigenvalues, because `logm` draws from the global numpy
+    random generator.
+    """
+    if not np.allclose(a, np.transpose(a)):
+        return logm(a)
+    eigen_values, eigen_vectors = np.linalg.eigh(a)
+    return (eigen_vectors * np.log(eigen_values)) @ eigen_vectors.T
+
+
 def log_det_divergence(p: np.ndarray, q: np.ndarray) -> float:
     r"""Calculate log determinant divergence between two positive definite matrices p and q.
 
@@ -55,8 +67,8 @@ def von_neuman_divergence(p: np.ndarray, q: np.ndarray) -> float:
         Von Neumann divergence between p and q.
     """
     _assert_positive_definite(p, q)  # Ensure the matrices are positive definite
-    log_p = logm(p)  # Compute the matrix logarithm of p
-    log_q = logm(q)  # Compute the matrix logarithm of q
+    log_p = _log_positive_definite(p)  # Compute the matrix logarithm of p
+    log_q = _log_positive_definite(q)  # Compute the matrix logarithm of q
     first_term = np.trace(p @ (log_p - log_q))
     second_term = np.trace(-p + q)
     return first_term + second_term
-- 
2.43.0


From 7507d514d5a72dca54deba0d00fecaf284bb69f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:28 +0000
Subject: [PATCH 35/39] fix: fitted models keep their own copy of the first and
 last sample, not views of the data

---
 quantfinlib/sim/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 3b4efb0..f18e827 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -172,8 +172,8 @@ class SimBase(ABC):
         if values.ndim == 1:
             values = values.reshape(-1, 1)
         self.fit_num_cols_ = values.shape[1]
-        self.fit_x0_ = values[0, :].reshape(1, -1)
-        self.fit_xn_ = values[-1, :].reshape(1, -1)
+        self.fit_x0_ = values[0, :].reshape(1, -1).copy()
+        self.fit_xn_ = values[-1, :].reshape(1, -1).copy()
         self.fit_num_rows_ = values.shape[0]
 
         # if dt is not provided then we need to infer it
-- 
2.43.0


From b6c7fda7298988962cc13aee581ecb8da2ea9941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:39 +0000
Subject: [PATCH 36/39] fix: the middle band of arrays is a copy, changing it
 does not change the other bands

---
 quantfinlib/feature/indicators/_bands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/feature/indicators/_bands.py b/quantfinlib/feature/indicators/_bands.py
index d83b803..2eee368 100644
--- a/quantfinlib/feature/indicators/_bands.py
+++ b/quantfinlib/feature/indicators/_bands.py
@@ -94,7 +94,7 @@ class GenericBands:
         Union[pd.Series, np.ndarray]
             The middle band values.
         """
-        return self._rename(self.rolling_mean, "Middle")
+        return self._rename(self.rolling_mean.copy(), "Middle")
 
     def bandwidth(self) -> Union[pd.Series, np.ndarray]:
         """
-- 
2.43.0


From 74e02e7b19e56e604cda833bdcedd1b8b7b4f779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:05 +0000
Subject: [PATCH 37/39] fix: groups of an unsigned or narrow integer type
 overflow in purge and embargo windows

---
 quantfinlib/train_test_split/_base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/train_test_split/_base.py b/quantfinlib/train_test_split/_base.py
index 4faa669..f8fc022 100644
--- a/quantfinlib/train_test_split/_base.py
+++ b/quantfinlib/train_test_split/_base.py
@@ -133,9 +133,14 @@ def _embargo(
 
 
 def _positional_groups(groups: Optional[GroupType]) -> Optional[GroupType]:
-    """Drop the index of a Series of groups, so that groups are always looked up by position and never by label."""
+    """Drop the index of a Series of groups, so that groups are always looked up by position and never by label.
+
+    Integer groups are widened, because distances between groups may not fit in a narrow or unsigned type.
+    """
     if isinstance(groups, pd.Series):
-        return pd.DatetimeIndex(groups) if is_datetime64_any_dtype(groups) else groups.to_numpy()
+        groups = pd.DatetimeIndex(groups) if is_datetime64_any_dtype(groups) else groups.to_numpy()
+    if isinstance(groups, np.ndarray) and np.issubdtype(groups.dtype, np.integer):
+        groups = groups.astype(np.int64)
     return groups
 
 
@@ -179,7 +184,7 @@ class BaseCV(ABC):
             raise TypeError("y must be a numpy array or a Series")
         if groups is not None and not isinstance(groups, (np.ndarray, pd.Series, pd.DatetimeIndex)):
             raise TypeError("groups must be a numpy array or a Series")
-        if isinstance(groups, np.ndarray) and not np.all(np.diff(groups) >= 0):
+        if isinstance(groups, np.ndarray) and not np.all(groups[1:] >= groups[:-1]):
             raise ValueError("groups must be sorted in ascending order")
         if isinstance(groups, (pd.Series, pd.DatetimeIndex)) and not groups.is_monotonic_increasing:
             raise ValueError("groups must be sorted in ascending order")
-- 
2.43.0


From 38aa22276909de5bc715ffc8bdf32296bd97ace0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:19 +0000
Subject: [PATCH 38/39] fix: variation of information is not negative by
 rounding, which hierarchical clustering rejects

---
 quantfinlib/distance/information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/distance/information.py b/quantfinlib/distance/information.py
index 06783c7..e310b07 100644
--- a/quantfinlib/distance/information.py
+++ b/quantfinlib/distance/information.py
@@ -184,7 +184,7 @@ def var_info(x: SeriesOrArray, y: SeriesOrArray, bins: Optional[int] = None, nor
         bins = _get_nb_bins_from_xy(x, y)
     h_x, h_y, h_xy = compute_entropies(x, y, bins)  # Compute entropies
     # Compute variation of information
-    var_info_xy = 2 * h_xy - h_x - h_y
+    var_info_xy = np.maximum(2 * h_xy - h_x - h_y, 0.0)  # Rounding can make it negative
     if norm:
         var_info_xy /= h_xy  # Normalized variation of information
     return var_info_xy
-- 
2.43.0


From 273c715bd55b4a72f25235535dc0e8069d271a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 39/39] fix: completing a full set of eigenvectors returns
 copies, not the arrays of the caller

---
 quantfinlib/math/cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/math/cov.py b/quantfinlib/math/cov.py
index 8beeb9c..c67ef76 100644
--- a/quantfinlib/math/cov.py
+++ b/quantfinlib/math/cov.py
@@ -186,7 +186,7 @@ def _eig_complete(eigen_values: np.ndarray, eigen_vectors: np.ndarray) -> Tuple[
         e, _, _ = np.linalg.svd(eigen_vectors)
         e[:, :k] = eigen_vectors
         return v, e
-    return eigen_values, eigen_vectors
+    return eigen_values.copy(), eigen_vectors.copy()
 
 
 def _marcenko_pastur_support(var: float, num_timesteps: int, num_assets: int) -> Tuple[float, float]:
-- 
2.43.0

