From 8bb94a13b35c96ec5979bbbce51b2293b830b931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:21 +0000
Subject: [PATCH 01/33] fix: keep the stress unit when adding, scaling, solving
 or correcting counts

---
 py_fatigue/cycle_count/cycle_count.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index d8ddc3a..8c9d88f 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -951,6 +951,7 @@ class CycleCount:
             mean_stress_corrected="No",
             stress_concentration_factor=float(added_scf),
             timestamp=min(self.timestamp, other.timestamp),
+            unit=self.unit,
             name=self.name,
             _time_sequence=np.unique(
                 np.hstack([self.time_sequence, other.time_sequence])
@@ -1184,6 +1185,7 @@ class CycleCount:
             stress_range=stress_ranges_corr,
             mean_stress=mean_stress_corr,
             timestamp=self_.timestamp,
+            unit=self_.unit,
             range_bin_lower_bound=self_.range_bin_lower_bound,
             range_bin_width=self_.range_bin_width,
             _mean_bin_lower_bound=self_.mean_bin_lower_bound,
@@ -1516,6 +1518,7 @@ def _multiplication_by_scalar(
         mean_stress_corrected=self_.mean_stress_corrected,
         stress_concentration_factor=mul_scf,
         timestamp=self_.timestamp,
+        unit=self_.unit,
         name=str(self_.name) + ", SCF=" + str(other_),
     )
 
@@ -1734,6 +1737,7 @@ def _solve_lffd(
         stress_range=2 * res_rf[:, 0],
         mean_stress=res_rf[:, 1],
         timestamp=self_.timestamp,
+        unit=self_.unit,
         _mean_bin_lower_bound=self_.mean_bin_lower_bound,
         mean_bin_width=self_.mean_bin_width,
         range_bin_lower_bound=self_.range_bin_lower_bound,
@@ -1760,6 +1764,7 @@ def _solve_lffd(
         stress_range=self_.stress_range[self_.count_cycle > 0.5],
         mean_stress=self_.mean_stress[self_.count_cycle > 0.5],
         timestamp=self_.timestamp,
+        unit=self_.unit,
         _mean_bin_lower_bound=self_.mean_bin_lower_bound,
         mean_bin_width=self_.mean_bin_width,
         range_bin_lower_bound=self_.range_bin_lower_bound,
-- 
2.43.0


From d360ddfac5dd97970914b319451d29fa958a2b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:59 +0000
Subject: [PATCH 02/33] fix: keep small cycles and time stamps when scaling a
 count

---
 py_fatigue/cycle_count/cycle_count.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 8c9d88f..d444574 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1512,6 +1512,7 @@ def _multiplication_by_scalar(
         range_bin_width=other_ * self_.range_bin_width,
         _mean_bin_lower_bound=mul_mean_bin,
         mean_bin_width=other_ * self_.mean_bin_width,
+        nr_small_cycles=self_.nr_small_cycles,
         residuals_sequence=mul_res_seq,
         _min_max_sequence=mul_min_max,
         lffd_solved=self_.lffd_solved,
@@ -1520,6 +1521,7 @@ def _multiplication_by_scalar(
         timestamp=self_.timestamp,
         unit=self_.unit,
         name=str(self_.name) + ", SCF=" + str(other_),
+        _time_sequence=self_._time_sequence,
     )
 
     # mul_cc.stress_concentration_factor = (
-- 
2.43.0


From 33b1ecc8a61060e0cc38a8d67b8a185b15df1432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:50 +0000
Subject: [PATCH 03/33] fix: return the count unchanged when solving without a
 residuals sequence

---
 py_fatigue/cycle_count/cycle_count.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index d444574..1a843cc 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1837,7 +1837,7 @@ def _lffd_checks(self_: CycleCount, solve_mode: str) -> tuple:
         w_msg = "'residuals_sequence' is not available. Nothing to do."
         warnings.formatwarning = py_fatigue_formatwarning
         warnings.warn(w_msg, UserWarning)
-        return_self = True
+        return True, None
     if len(res_sequence) < 3:
         w_msg = "".join(
             (
-- 
2.43.0


From cb41c7cca516510452ff8aacf75c58a967d9a467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:41 +0000
Subject: [PATCH 04/33] fix: count signals that turn only once

---
 py_fatigue/cycle_count/rainflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/rainflow.py b/py_fatigue/cycle_count/rainflow.py
index 7d823f8..83b4b93 100644
--- a/py_fatigue/cycle_count/rainflow.py
+++ b/py_fatigue/cycle_count/rainflow.py
@@ -76,7 +76,7 @@ def findtp(x: np.ndarray) -> np.ndarray:
 
     ind = findextrema(x)
 
-    if ind.size < 2:
+    if ind.size < 1:
         return np.empty(0, dtype=np.int64)
 
     # # the Nieslony approach always put the first loading point as the first
-- 
2.43.0


From 2f85a35e54871c83bb1262a15c6fd65c0d30935e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:10 +0000
Subject: [PATCH 05/33] fix: sum of only missing counts is missing instead of
 an index error

---
 py_fatigue/cycle_count/cycle_count.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 1a843cc..4661cba 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1872,6 +1872,8 @@ def pbar_sum(cc_list: Sequence[CycleCount]) -> CycleCount:
 
     chunk_size = int(np.sqrt(len(cc_list)))
     cc_list = [cc for cc in cc_list if cc is not None]
+    if len(cc_list) == 0:
+        return None
 
     sleep(0.15)
     chunked_cc_list = list(pfu.chunks(cc_list, chunk_size))
-- 
2.43.0


From bc9b7ea7e7e73158898e0646ad26167452f6e143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:43 +0000
Subject: [PATCH 06/33] fix: export the small cycles a count already carries

---
 py_fatigue/cycle_count/cycle_count.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 4661cba..9aa0d0c 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -663,6 +663,7 @@ class CycleCount:
             round_decimals=round_decimals,
             debug_mode=debug_mode,
         )
+        output_dict["nr_small_cycles"] += self.nr_small_cycles
         output_dict["res_sig"] = np.asarray(
             np.round(self.residuals_sequence, round_decimals)
         ).tolist()
-- 
2.43.0


From eb9c710483e15e4dffc886b8ec75699e36ebf3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:16 +0000
Subject: [PATCH 07/33] fix: never overwrite the mean stresses of the count
 being corrected

---
 py_fatigue/cycle_count/cycle_count.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 9aa0d0c..a5cad86 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1115,7 +1115,7 @@ class CycleCount:
             warnings.warn(w_msg, UserWarning)
             return self
 
-        self_ = copy.deepcopy(self) if self.lffd_solved else self.solve_lffd()
+        self_ = copy.deepcopy(self if self.lffd_solved else self.solve_lffd())
 
         if np.all((self_.mean_stress == 0)) and not enforce_pulsating_load:
             e_msg = "".join(
-- 
2.43.0


From 305eb2510146442da20bfcb3ba20459dacc0bc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:47 +0000
Subject: [PATCH 08/33] fix: export counts that have no residuals sequence

---
 py_fatigue/cycle_count/cycle_count.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index a5cad86..3295e89 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -664,9 +664,13 @@ class CycleCount:
             debug_mode=debug_mode,
         )
         output_dict["nr_small_cycles"] += self.nr_small_cycles
-        output_dict["res_sig"] = np.asarray(
-            np.round(self.residuals_sequence, round_decimals)
-        ).tolist()
+        output_dict["res_sig"] = (
+            np.asarray(
+                np.round(self.residuals_sequence, round_decimals)
+            ).tolist()
+            if self.residuals_sequence is not None
+            else None
+        )
         return output_dict
 
     def _repr_html_(self) -> str:  # pragma: no cover
-- 
2.43.0


From f65b1e32c41971a16d4d08b376f2a8c56c44e154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:01 +0000
Subject: [PATCH 09/33] fix: give curves created by concurrent threads their
 own id and color

---
 py_fatigue/material/sn_curve.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/py_fatigue/material/sn_curve.py b/py_fatigue/material/sn_curve.py
index 96cb334..3da134b 100644
--- a/py_fatigue/material/sn_curve.py
+++ b/py_fatigue/material/sn_curve.py
@@ -20,6 +20,7 @@ from typing import (
 import abc
 import io
 import itertools
+import threading
 import warnings
 
 # Non-standard "from" imports
@@ -174,12 +175,14 @@ def color_setter(func: Callable):
             # define the function attributes
             self.calls = 0
             self.cycle_color_list = itertools.cycle(COLOR_LIST)
+            self.lock = threading.Lock()
 
         def __call__(self, *args, **kwargs):
-            self.calls += 1
-            self.color = next(self.cycle_color_list)
-            # print(f'wrapper called {wrapper.calls} times')
-            return func(*args, **kwargs)
+            with self.lock:
+                self.calls += 1
+                self.color = next(self.cycle_color_list)
+                # print(f'wrapper called {wrapper.calls} times')
+                return func(*args, **kwargs)
 
     return Wrapper()
 
-- 
2.43.0


From 606c494588ab30246d6868e409b7621cc94f058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:39 +0000
Subject: [PATCH 10/33] fix: report crack growth of clustered cycles on the
 right table rows

---
 py_fatigue/damage/crack_growth.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 2942446..7e48feb 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -619,6 +619,7 @@ class CrackGrowth:
         else:
             stress_range = self._obj["stress_range"].values
             count_cycle = self._obj["count_cycle"].values
+            splt_len = [1] * len(count_cycle)
 
         # Handle the geometry
         crack_type = str(crack_geometry._id)
@@ -643,24 +644,17 @@ class CrackGrowth:
         cumul_cycle = np.cumsum(cg_.count_cycle[: len(cg_.crack_depth)])
         # manage the fact that clustered cycles are split in cg analysys
         # while the df keeps them clustered
-        d_l = len(self._obj) - len(cg_.crack_depth)
-        if d_l >= 0:
-            self._obj["crack_depth"] = np.concatenate(
-                (cg_.crack_depth, np.full(d_l, np.nan))
-            )
-            self._obj["sif"] = np.concatenate((cg_.sif, np.full(d_l, np.nan)))
-            self._obj["cumul_cycle"] = np.concatenate(
-                (cumul_cycle, np.full(d_l, np.nan))
-            )
-            self._obj["geometry_factor"] = np.concatenate(
-                (cg_.geometry_factor, np.full(d_l, np.nan))
-            )
-        else:
-            idx = np.asarray(self._obj["count_cycle"].cumsum(), dtype=int) - 1
-            self._obj["crack_depth"] = cg_.crack_depth[idx]
-            self._obj["sif"] = cg_.sif[idx]
-            self._obj["cumul_cycle"] = cumul_cycle[idx]
-            self._obj["geometry_factor"] = cg_.geometry_factor[idx]
+        idx = np.cumsum(splt_len) - 1
+        done = idx < len(cg_.crack_depth)
+        for col, values in (
+            ("crack_depth", cg_.crack_depth),
+            ("sif", cg_.sif),
+            ("cumul_cycle", cumul_cycle),
+            ("geometry_factor", cg_.geometry_factor),
+        ):
+            rows = np.full(len(idx), np.nan)
+            rows[done] = values[idx[done]]
+            self._obj[col] = rows
         self._obj.cg_curve = cg_curve
         self.cg_curve = cg_curve
         self._obj.crack_geometry = crack_geometry
-- 
2.43.0


From 260a112c26b56b404aff44a1d13ba2ff8383c7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:15 +0000
Subject: [PATCH 11/33] fix: keep every curve when several share a name in
 aggregated damage

---
 py_fatigue/cycle_count/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/utils.py b/py_fatigue/cycle_count/utils.py
index 7713ae6..44b1157 100644
--- a/py_fatigue/cycle_count/utils.py
+++ b/py_fatigue/cycle_count/utils.py
@@ -259,7 +259,7 @@ def calc_aggregated_damage(
             sn = {sn.name: sn}
         elif isinstance(sn, list):
             if all(isinstance(s, SNCurve) for s in sn):
-                sn = {s.name: s for s in sn}
+                sn = dict(enumerate(sn))
             else:
                 raise TypeError(
                     "The S-N curves must be a dict, a list of SNCurve or a "
-- 
2.43.0


From 4de2e49728db17d5774b78f9e5162e42bb288589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:47 +0000
Subject: [PATCH 12/33] fix: aggregate tables that have columns not named by a
 string

---
 py_fatigue/cycle_count/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/utils.py b/py_fatigue/cycle_count/utils.py
index 44b1157..cd82307 100644
--- a/py_fatigue/cycle_count/utils.py
+++ b/py_fatigue/cycle_count/utils.py
@@ -142,7 +142,7 @@ def aggregate_cc(
     df_agg_rr = df_agg.applymap(solve_lffd)
 
     cc_cols: list[str] = [
-        col for col in df_agg_rr.columns if col.startswith("CC_")
+        col for col in df_agg_rr.columns if str(col).startswith("CC_")
     ]
 
     if not save_residuals:
@@ -266,7 +266,9 @@ def calc_aggregated_damage(
                     "SNCurve."
                 )
 
-    cc_cols: list[str] = [col for col in df.columns if col.startswith("CC_")]
+    cc_cols: list[str] = [
+        col for col in df.columns if str(col).startswith("CC_")
+    ]
     damages = pd.DataFrame()
     for _, sn_curve in sn.items():
         df_1 = df[cc_cols].applymap(
-- 
2.43.0


From 48159eae6218e94959776dcd51777f1738b9dc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:20 +0000
Subject: [PATCH 13/33] fix: stop reseeding the global generator when making
 sample data

---
 py_fatigue/testing.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/py_fatigue/testing.py b/py_fatigue/testing.py
index d2ad58b..89efd74 100644
--- a/py_fatigue/testing.py
+++ b/py_fatigue/testing.py
@@ -83,7 +83,6 @@ def get_random_data(
         Random data.
     """
     rng = np.random.default_rng(seed)
-    np.random.seed(seed)
     y = getattr(rng, random_type)(**kwargs, size=len(t))
     y = ((y - y.min()) / (y.max() - y.min())) * range_ + min_
     return y
-- 
2.43.0


From e730b7b722b3977128b9150aa1b2eee7dad45151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:38 +0000
Subject: [PATCH 14/33] fix: count a signal that only rises or only falls as
 one half cycle

---
 py_fatigue/cycle_count/rainflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/rainflow.py b/py_fatigue/cycle_count/rainflow.py
index 83b4b93..f3d678a 100644
--- a/py_fatigue/cycle_count/rainflow.py
+++ b/py_fatigue/cycle_count/rainflow.py
@@ -76,7 +76,7 @@ def findtp(x: np.ndarray) -> np.ndarray:
 
     ind = findextrema(x)
 
-    if ind.size < 1:
+    if ind.size < 1 and (len(x) < 2 or x[0] == x[-1]):
         return np.empty(0, dtype=np.int64)
 
     # # the Nieslony approach always put the first loading point as the first
-- 
2.43.0


From 25352a31b45bbe0bb923179779ff04e03cb01130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:13 +0000
Subject: [PATCH 15/33] fix: leave no empty rows among the cycles of a signal
 that starts on a plateau

---
 py_fatigue/cycle_count/rainflow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/rainflow.py b/py_fatigue/cycle_count/rainflow.py
index f3d678a..395494d 100644
--- a/py_fatigue/cycle_count/rainflow.py
+++ b/py_fatigue/cycle_count/rainflow.py
@@ -399,7 +399,8 @@ def findrfc_astm(tp: np.ndarray, t: Optional[np.ndarray] = None) -> np.ndarray:
     # the sig_rfc was constructed too big in rainflow.rf3, so
     # reduce the sig_rfc array as done originally by a matlab mex c function
     # n = len(sig_rfc)
-    return sig_rfc[: n - cnr[0]]
+    sig_rfc = sig_rfc[: n - cnr[0]]
+    return sig_rfc[sig_rfc[:, 2] > 0]
 
 
 def rainflow(
-- 
2.43.0


From d80f5a1c79e415a772020e1e8708fa1682bc7c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:13 +0000
Subject: [PATCH 16/33] fix: refuse to add an array to a count with a type
 error

---
 py_fatigue/cycle_count/cycle_count.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 3295e89..0fe9435 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -11,6 +11,7 @@ import copy
 import datetime as dt
 import itertools
 from dataclasses import dataclass
+from numbers import Number
 from time import sleep
 from types import SimpleNamespace
 from typing import (
@@ -1559,9 +1560,8 @@ def _cycle_count_add_checks(
     if self_.__class__.__name__ != other_.__class__.__name__:
         if (
             other_ is None
-            or other_ == 0
-            or isinstance(other_, float)
-            and np.isnan(other_)
+            or isinstance(other_, Number)
+            and (other_ == 0 or other_ != other_)
         ):
             w_msg = "".join(
                 (
-- 
2.43.0


From 101189812f5fe8c7b3ad5c377725980275bb00e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:37 +0000
Subject: [PATCH 17/33] fix: bin cycles that sit exactly on the lower bound

The export raised an IndexError when no full cycle exceeded the lower bound
of the bins, because there were no bins then.
---
 py_fatigue/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index a027dac..5ec9d4b 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -284,7 +284,9 @@ class FatigueStress:
         -------
         bin_edges : np.ndarray
         """
-        return calc_bin_edges(self.bin_lb, self.bin_ub, self.bin_width)
+        # there is at least one bin, also if no value exceeds the lower bound
+        bin_ub = max(self.bin_ub, self.bin_lb + self.bin_width)
+        return calc_bin_edges(self.bin_lb, bin_ub, self.bin_width)
 
     @property
     def bin_centers(self):
-- 
2.43.0


From 65554ed5699953b6666228ef8ab0f213eac26d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:29 +0000
Subject: [PATCH 18/33] fix: export only plain numbers

The bin widths of an added cycle count are numpy integers when the widths of
its parts are integers (as by default), which json cannot store.
---
 py_fatigue/cycle_count/histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/histogram.py b/py_fatigue/cycle_count/histogram.py
index 2d4e42d..c054715 100644
--- a/py_fatigue/cycle_count/histogram.py
+++ b/py_fatigue/cycle_count/histogram.py
@@ -678,7 +678,7 @@ def _build_binned_dict(
             np.around(list(zip(means.half, ranges.half)), round_decimals)
         ).tolist()
     for key, value in out_dct.items():
-        if isinstance(value, np.ndarray):
+        if isinstance(value, (np.ndarray, np.generic)):
             out_dct[key] = value.tolist()
 
     return out_dct
-- 
2.43.0


From a938709a0154202fac7fb941f2da093646fecfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:09 +0000
Subject: [PATCH 19/33] fix: bin values that sit on a rounded bin edge

Edges are rounded to five decimals; a largest cycle on an edge that was
rounded down fell outside the last bin and the export raised an IndexError.
---
 py_fatigue/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index 5ec9d4b..80c5c8d 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -326,7 +326,10 @@ class FatigueStress:
         -------
         bins_idx : np.ndarray
         """
-        digitized = np.digitize(self.full, self.bin_edges, right=True)
+        full, edges = self.full, self.bin_edges
+        digitized = np.digitize(full, edges, right=True)
+        # the edges are rounded, a value on the last one may lie above it
+        digitized[(digitized == len(edges)) & (full < edges[-1] + 1e-5)] -= 1
         digitized[np.where(digitized > 0)] -= 1
         return digitized
 
-- 
2.43.0


From adc3f0085891acab56ec44752839563380f78d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:56 +0000
Subject: [PATCH 20/33] fix: load records that have no half cycles

Whether a record has mean stresses was read off its first half cycle, so a
record with full cycles only (e.g. of a count whose compressive half cycles
were corrected to zero) raised an IndexError.
---
 py_fatigue/cycle_count/cycle_count.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 0fe9435..9588657 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -144,7 +144,7 @@ def _build_input_data_from_json(  # noqa: C901
         hst = np.array(hst)
     # A) Case without mean stress
     # Adding hist cycles
-    if len(data["hist"]) > 0 and not isinstance(data["res"][0], Iterable):
+    if len(data["hist"]) > 0 and not isinstance(data["hist"][0], Iterable):
         the_hist = np.asarray(data["hist"])
         zero_hist_counts = np.where(the_hist == 0)[0]
         range_bin_centers = np.around(
@@ -160,11 +160,7 @@ def _build_input_data_from_json(  # noqa: C901
         the_hist = np.delete(the_hist, zero_hist_counts)
         range_bin_centers = np.delete(range_bin_centers, zero_hist_counts)
     # Adding large cycles
-    if len(data["lg_c"]) > 0 and not isinstance(
-        data["res"][0],
-        Iterable,  # isinstance(
-        # data["lg_c"][0], (float, int, np.int16, np.int32)
-    ):
+    if len(data["lg_c"]) > 0 and not isinstance(data["lg_c"][0], Iterable):
         the_hist = np.hstack([the_hist, np.ones(len(data["lg_c"]))])
         range_bin_centers = np.hstack([range_bin_centers, data["lg_c"]])
     # Adding residual cycles
-- 
2.43.0


From 19c95d9a9f7f56eb2d949b5dc838410eac982d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:12 +0000
Subject: [PATCH 21/33] fix: a failing damage assessment leaves the previous
 one in place

The table named the failing curve while still holding the damage calculated
with the previous one.
---
 py_fatigue/damage/stress_life.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/py_fatigue/damage/stress_life.py b/py_fatigue/damage/stress_life.py
index df7453e..7f920a6 100644
--- a/py_fatigue/damage/stress_life.py
+++ b/py_fatigue/damage/stress_life.py
@@ -76,14 +76,12 @@ class PalmgrenMiner:
                 f"sn_curve ({sn_curve.unit}) do not match."
             )
             raise ValueError(e_msg)
+        cycles_to_failure = sn_curve.get_cycles(self._obj.stress_range)
+        pm_damage = np.divide(self._obj.count_cycle, cycles_to_failure)
         self._obj.sn_curve = sn_curve
         self.sn_curve = sn_curve
-        self._obj["cycles_to_failure"] = sn_curve.get_cycles(
-            self._obj.stress_range
-        )
-        self._obj["pm_damage"] = np.divide(
-            self._obj.count_cycle, self._obj.cycles_to_failure
-        )
+        self._obj["cycles_to_failure"] = cycles_to_failure
+        self._obj["pm_damage"] = pm_damage
         return self._obj
 
     def des(self, slope: float, equivalent_cycles: float = 1e7) -> float:
-- 
2.43.0


From 77463f3710f74341c14ec886c7d396b821f1a8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:27 +0000
Subject: [PATCH 22/33] fix: refuse records that give the bin width or the
 small cycles twice

---
 py_fatigue/cycle_count/cycle_count.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 9588657..c692582 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -90,6 +90,12 @@ def _assess_json_keys(data: dict) -> dict:
         if "bin_lb" in data:
             key_err = "'bin_lb' and 'range_bin_lower_bound' are both present"
             raise KeyError(key_err)
+    for old, new in (
+        ("bin_width", "range_bin_width"),
+        ("no_sm_c", "nr_small_cycles"),
+    ):
+        if old in data and new in data:
+            raise KeyError(f"'{old}' and '{new}' are both present")
     if "bin_lb" in data:
         data["range_bin_lower_bound"] = data.pop("bin_lb")
         data["range_bin_width"] = data.pop("bin_width")
-- 
2.43.0


From b8d6c2b43a50dc039618cf83cc105a62e1122e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:34 +0000
Subject: [PATCH 23/33] fix: count every cycle of a row below the threshold as
 a small cycle

---
 py_fatigue/cycle_count/histogram.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/histogram.py b/py_fatigue/cycle_count/histogram.py
index c054715..09c7eae 100644
--- a/py_fatigue/cycle_count/histogram.py
+++ b/py_fatigue/cycle_count/histogram.py
@@ -468,7 +468,9 @@ def rainflow_threshold(ranges: StressRange, means: MeanStress) -> tuple:
         The ranges and means above threshold, as well as small cycles.
     """
     ranges_gt_lb_idx = np.where(ranges.values >= ranges.bin_lb)[0]
-    nr_small_cycles = len(ranges.values) - len(ranges_gt_lb_idx)
+    # one row may stand for several cycles, a half cycle counts as one
+    small_counts = np.delete(ranges.counts, ranges_gt_lb_idx)
+    nr_small_cycles = int(np.sum(np.ceil(small_counts)))
     means.counts = means.counts[ranges_gt_lb_idx]
     means.values = means.values[ranges_gt_lb_idx]
     ranges.counts = ranges.counts[ranges_gt_lb_idx]
-- 
2.43.0


From b325d9859c4d0d5958da4ae51e45b60482a75576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:28:58 +0000
Subject: [PATCH 24/33] fix: let binned_rainflow take the sample times

With sample times, calc_rainflow returns a fourth value (the times of the
residuals), so unpacking three values raised a ValueError.
---
 py_fatigue/cycle_count/histogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/histogram.py b/py_fatigue/cycle_count/histogram.py
index 09c7eae..3992bc0 100644
--- a/py_fatigue/cycle_count/histogram.py
+++ b/py_fatigue/cycle_count/histogram.py
@@ -587,11 +587,11 @@ def binned_rainflow(  # pylint: disable=too-many-arguments
     calc_rainflow
     rainflow_binner
     """
-    rfs, res_seq, _ = calc_rainflow(
+    rfs, res_seq = calc_rainflow(
         data=data,
         time=time,
         extended_output=True,
-    )
+    )[:2]
 
     # return rfs, data[res_tp], res_tp, time[res_tp]
 
-- 
2.43.0


From a6e2daed603dd526651d1a7885a1c6bde55dedc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:09:32 +0000
Subject: [PATCH 25/33] fix: draw on the given axes when no figure is given
 with them

---
 py_fatigue/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index 80c5c8d..5d7a990 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -92,6 +92,8 @@ def make_axes(
     TypeError
         If fig is not a matplotlib.figure.Figure instance
     """
+    if fig is None and ax is not None:
+        return ax.figure, ax
     if fig is None:
         fig, axes = plt.subplots()
     else:
-- 
2.43.0


From 66e1501d1858efee1f61b6a56c22a6558341376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:09:32 +0000
Subject: [PATCH 26/33] fix: turn on the grid of the axes a curve is drawn on

---
 py_fatigue/material/crack_growth_curve.py | 2 +-
 py_fatigue/material/sn_curve.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/material/crack_growth_curve.py b/py_fatigue/material/crack_growth_curve.py
index 354cf14..f29168e 100755
--- a/py_fatigue/material/crack_growth_curve.py
+++ b/py_fatigue/material/crack_growth_curve.py
@@ -692,7 +692,7 @@ class ParisCurve(AbstractCrackGrowthCurve):
                 markersize=4,
             )
 
-        plt.grid(which="both", linestyle=":")
+        ax.grid(which="both", linestyle=":")
         ax.set_xlabel(f"SIF range (ΔK), {self.unit}")  # type: ignore
         if "√" in self.unit:
             split_unit = self.unit.split("√")
diff --git a/py_fatigue/material/sn_curve.py b/py_fatigue/material/sn_curve.py
index 3da134b..0a40046 100644
--- a/py_fatigue/material/sn_curve.py
+++ b/py_fatigue/material/sn_curve.py
@@ -984,7 +984,7 @@ class SNCurve(AbstractSNCurve):
                 markersize=4,
             )
 
-        plt.grid(which="both", linestyle=":")
+        ax.grid(which="both", linestyle=":")
         ax.set_xlabel("Number of cycles")
         ax.set_ylabel("Stress range, " + self.unit)
 
-- 
2.43.0


From 4747d5e8807cbc5bee30754e230037fe5bfca0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:09:32 +0000
Subject: [PATCH 27/33] fix: leave matplotlib settings alone when a correction
 is plotted

---
 py_fatigue/mean_stress/corrections.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/py_fatigue/mean_stress/corrections.py b/py_fatigue/mean_stress/corrections.py
index 6ef5b9b..e415763 100644
--- a/py_fatigue/mean_stress/corrections.py
+++ b/py_fatigue/mean_stress/corrections.py
@@ -6,7 +6,6 @@ classes.
 
 from typing import Union
 
-import matplotlib.pyplot as plt
 import numpy as np
 
 import py_fatigue.cycle_count.histogram as ht
@@ -110,10 +109,10 @@ def dnvgl_mean_stress_correction(
             markeredgewidth=0.5,
             markeredgecolor="#666666",
         )
-        plt.rcParams.update({"mathtext.default": "regular"})
-
-        axes.set_xlabel("load ratio, $\\sigma_{min}/ \\sigma_{max}$")
-        axes.set_ylabel("$f_m$")
+        axes.set_xlabel(
+            "load ratio, $\\mathregular{\\sigma_{min}/ \\sigma_{max}}$"
+        )
+        axes.set_ylabel("$\\mathregular{f_m}$")
         axes.spines["right"].set_visible(False)
         axes.spines["top"].set_visible(False)
         axes.set_xlim([-20, 20])
@@ -183,10 +182,12 @@ def walker_mean_stress_correction(
             markeredgewidth=0.5,
             markeredgecolor="#666666",
         )
-        plt.rcParams.update({"mathtext.default": "regular"})
-
-        axes.set_xlabel("uncorrected stress range, $\\Delta \\sigma$")
-        axes.set_ylabel("MSC stress range, , $\\Delta \\sigma_{MSC}$")
+        axes.set_xlabel(
+            "uncorrected stress range, $\\mathregular{\\Delta \\sigma}$"
+        )
+        axes.set_ylabel(
+            "MSC stress range, , $\\mathregular{\\Delta \\sigma_{MSC}}$"
+        )
         axes.spines["right"].set_visible(False)
         axes.spines["top"].set_visible(False)
 
-- 
2.43.0


From 47bbd397451eb5afca8d6c0ef6dad0a84eeb34cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:09:32 +0000
Subject: [PATCH 28/33] fix: show the maximum stress in min-max histograms

---
 py_fatigue/cycle_count/cycle_count.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index c692582..7caca2b 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1321,7 +1321,7 @@ class CycleCount:
             raise ValueError(e_msg)
         if plot_type == "min-max":
             x = x - y / 2
-            y = x + y / 2
+            y = x + y
             bins = bins if bins is not None else 50
         if "counts-range" in plot_type:
             sor = sorted(
-- 
2.43.0


From b06b63f568ea04fd910fcb7628c52cb3a60396a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:09:32 +0000
Subject: [PATCH 29/33] fix: add colour bars to the figure of the drawing

---
 py_fatigue/cycle_count/cycle_count.py | 3 +--
 py_fatigue/damage/stress_life.py      | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 7caca2b..dfa2ac1 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -33,7 +33,6 @@ import warnings
 
 # Non-standard imports
 import matplotlib
-import matplotlib.pyplot as plt
 import numpy as np
 import pandas as pd
 from py_fatigue.cycle_count import calc_rainflow
@@ -1378,7 +1377,7 @@ class CycleCount:
             if plot_type == "min-max"
             else f"Range, {self.unit}"
         )
-        cbar = plt.colorbar(im, ax=axes)
+        cbar = fig.colorbar(im, ax=axes)
         cbar.set_label(cbar_label, rotation=270)
         cbar.ax.get_yaxis().labelpad = 10
 
diff --git a/py_fatigue/damage/stress_life.py b/py_fatigue/damage/stress_life.py
index 7f920a6..6ef2b45 100644
--- a/py_fatigue/damage/stress_life.py
+++ b/py_fatigue/damage/stress_life.py
@@ -9,7 +9,6 @@ import warnings
 
 # Packages from external libraries
 import matplotlib
-import matplotlib.pyplot as plt
 import numpy as np
 import pandas as pd
 
@@ -197,7 +196,7 @@ class PalmgrenMiner:
         )
         ax.set_xlabel("# of cycles")
         ax.set_ylabel("Stress range, MPa")
-        cbar = plt.colorbar(im, ax=ax)
+        cbar = fig.colorbar(im, ax=ax)
         cbar.set_label(cbar_label, rotation=270)
         cbar.ax.get_yaxis().labelpad = 10
         return fig, ax
-- 
2.43.0


From 49f5594048c072fbb29b54271aa400f9f6dc3fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:20 +0000
Subject: [PATCH 30/33] fix: set the plotly template of the S-N plot only

---
 py_fatigue/material/sn_curve.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/py_fatigue/material/sn_curve.py b/py_fatigue/material/sn_curve.py
index 0a40046..cabe527 100644
--- a/py_fatigue/material/sn_curve.py
+++ b/py_fatigue/material/sn_curve.py
@@ -34,14 +34,12 @@ import matplotlib.pyplot as plt
 import numba as nb
 import numpy as np
 import plotly.graph_objs as go
-import plotly.io as pio
 
 # py_fatigue imports
 from py_fatigue.utils import make_axes
 
 COLOR_LIST = px_colors.qualitative.Alphabet
 PLOTLY_FONT_FAMILY = "Roboto"
-pio.templates.default = "none"
 __all__ = ["SNCurve"]
 
 
@@ -901,6 +899,7 @@ class SNCurve(AbstractSNCurve):
                 )
             )
         layout = go.Layout(
+            template="none",
             xaxis=dict(
                 title="Number of cycles",
                 linecolor="#000",
-- 
2.43.0


From 29d327bc8134a9c1647573ab490291ee1581a70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:31 +0000
Subject: [PATCH 31/33] fix: leave the display of other warnings as it is

---
 py_fatigue/cycle_count/cycle_count.py | 57 +++++++++------------------
 py_fatigue/damage/stress_life.py      | 15 +++----
 py_fatigue/styling.py                 | 24 ++++++++++-
 py_fatigue/testing.py                 |  6 +--
 4 files changed, 49 insertions(+), 53 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index dfa2ac1..063a472 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -29,7 +29,6 @@ from typing import (
 
 # import io
 # import itertools
-import warnings
 
 # Non-standard imports
 import matplotlib
@@ -42,7 +41,7 @@ import py_fatigue.mean_stress.corrections as msc
 from py_fatigue.mean_stress import MeanStress
 from py_fatigue.stress_range import StressRange
 
-from py_fatigue.styling import TermColors, py_fatigue_formatwarning
+from py_fatigue.styling import TermColors, py_fatigue_warn
 
 __all__ = ["CycleCount"]
 
@@ -879,8 +878,7 @@ class CycleCount:
                         f"{TermColors.CYELLOW2}.",
                     )
                 )
-                warnings.formatwarning = py_fatigue_formatwarning
-                warnings.warn(w_msg, UserWarning)
+                py_fatigue_warn(w_msg)
                 added_res_seq = self.residuals_sequence
                 added_min_max = self.min_max_sequence
             # 1c) Residuals sequence is ok in other, but not in self
@@ -894,15 +892,13 @@ class CycleCount:
                         f"{TermColors.CYELLOW2}.",
                     )
                 )
-                warnings.formatwarning = py_fatigue_formatwarning
-                warnings.warn(w_msg, UserWarning)
+                py_fatigue_warn(w_msg)
                 added_res_seq = other.residuals_sequence
                 added_min_max = other.min_max_sequence
             # 1d) Residuals sequence is neither defined in self nor in other
             else:
                 w_msg = "No residuals_sequence attribute found."
-                warnings.formatwarning = py_fatigue_formatwarning
-                warnings.warn(w_msg, UserWarning)
+                py_fatigue_warn(w_msg)
                 added_res_seq = np.empty(0)
                 added_min_max = np.empty(0)
         # 2) Residuals sequence is defined in self but not in other
@@ -916,8 +912,7 @@ class CycleCount:
                     f"{TermColors.CYELLOW2}.",
                 )
             )
-            warnings.formatwarning = py_fatigue_formatwarning
-            warnings.warn(w_msg, UserWarning)
+            py_fatigue_warn(w_msg)
             added_res_seq = self.residuals_sequence
             added_min_max = self.min_max_sequence
         # 3) Residuals sequence is defined in other but not in self
@@ -931,15 +926,13 @@ class CycleCount:
                     f"{TermColors.CYELLOW2}.",
                 )
             )
-            warnings.formatwarning = py_fatigue_formatwarning
-            warnings.warn(w_msg, UserWarning)
+            py_fatigue_warn(w_msg)
             added_res_seq = other.residuals_sequence
             added_min_max = other.min_max_sequence
         # 4) Neither self nor other have Residuals sequence
         else:
             w_msg = "No residuals_sequence attribute found."
-            warnings.formatwarning = py_fatigue_formatwarning
-            warnings.warn(w_msg, UserWarning)
+            py_fatigue_warn(w_msg)
             added_res_seq = np.empty(0)
             added_min_max = np.empty(0)
 
@@ -1117,8 +1110,7 @@ class CycleCount:
                     ".",
                 )
             )
-            warnings.formatwarning = py_fatigue_formatwarning
-            warnings.warn(w_msg, UserWarning)
+            py_fatigue_warn(w_msg)
             return self
 
         self_ = copy.deepcopy(self if self.lffd_solved else self.solve_lffd())
@@ -1147,8 +1139,7 @@ class CycleCount:
                         "without significant residual stresses.",
                     )
                 )
-                warnings.formatwarning = py_fatigue_formatwarning
-                warnings.warn(w_msg, UserWarning)
+                py_fatigue_warn(w_msg)
                 ns.detail_factor = 0.8
             stress_ranges_corr = msc.dnvgl_mean_stress_correction(
                 self_.mean_stress,
@@ -1168,8 +1159,7 @@ class CycleCount:
                         "and corresponds to applying SWT correction.",
                     )
                 )
-                warnings.formatwarning = py_fatigue_formatwarning
-                warnings.warn(w_msg, UserWarning)
+                py_fatigue_warn(w_msg)
                 ns.gamma = 0.5
             stress_ranges_corr = msc.walker_mean_stress_correction(
                 self_.mean_stress,
@@ -1221,8 +1211,7 @@ class CycleCount:
                 )
             )
 
-            warnings.formatwarning = py_fatigue_formatwarning
-            warnings.warn(w_msg, UserWarning)
+            py_fatigue_warn(w_msg)
 
         return cc_msc
 
@@ -1489,8 +1478,7 @@ def _multiplication_by_scalar(
                 f"{self_.stress_concentration_factor}{TermColors.CYELLOW2}.",
             )
         )
-        warnings.formatwarning = py_fatigue_formatwarning
-        warnings.warn(w_msg, UserWarning)
+        py_fatigue_warn(w_msg)
 
     mul_range = other_ * self_.stress_range
     mul_mean = other_ * self_.mean_stress
@@ -1570,8 +1558,7 @@ def _cycle_count_add_checks(
                     f"after {self_.timestamp.strftime('%d %B %Y, %H:%M')}.",
                 )
             )
-            warnings.formatwarning = py_fatigue_formatwarning
-            warnings.warn(w_msg, UserWarning)
+            py_fatigue_warn(w_msg)
             return False
         raise TypeError(
             "Trying to add to a non CycleCount object instance",
@@ -1587,8 +1574,7 @@ def _cycle_count_add_checks(
                 f"({self_.name} + {other_.name})"
             )
         )
-        warnings.formatwarning = py_fatigue_formatwarning
-        warnings.warn(w_msg, UserWarning)
+        py_fatigue_warn(w_msg)
 
     # ! 3) TypeError
     # Trying to add-up different units.
@@ -1627,8 +1613,7 @@ def _cycle_count_add_checks(
                 ").",
             )
         )
-        warnings.formatwarning = py_fatigue_formatwarning
-        warnings.warn(w_msg, UserWarning)
+        py_fatigue_warn(w_msg)
 
     return checks_ok
 
@@ -1659,8 +1644,7 @@ def _bin_widths_add_check(
                 f"{self_} and {other_}{TermColors.CYELLOW2}).",
             )
         )
-        warnings.formatwarning = py_fatigue_formatwarning
-        warnings.warn(w_msg, UserWarning)
+        py_fatigue_warn(w_msg)
 
 
 def _handling_different_bins_in_sum(
@@ -1828,8 +1812,7 @@ def _lffd_checks(self_: CycleCount, solve_mode: str) -> tuple:
     return_self = False
     if self_.lffd_solved:
         w_msg = "Residuals already resolved. Nothing to do."
-        warnings.formatwarning = py_fatigue_formatwarning
-        warnings.warn(w_msg, UserWarning)
+        py_fatigue_warn(w_msg)
         return_self = True
     if (
         hasattr(self_, "residuals_sequence")
@@ -1841,8 +1824,7 @@ def _lffd_checks(self_: CycleCount, solve_mode: str) -> tuple:
             res_sequence = self_.min_max_sequence
     else:
         w_msg = "'residuals_sequence' is not available. Nothing to do."
-        warnings.formatwarning = py_fatigue_formatwarning
-        warnings.warn(w_msg, UserWarning)
+        py_fatigue_warn(w_msg)
         return True, None
     if len(res_sequence) < 3:
         w_msg = "".join(
@@ -1853,8 +1835,7 @@ def _lffd_checks(self_: CycleCount, solve_mode: str) -> tuple:
                 f"{TermColors.CBOLD}'self'{TermColors.CEND}.",
             )
         )
-        warnings.formatwarning = py_fatigue_formatwarning
-        warnings.warn(w_msg, UserWarning)
+        py_fatigue_warn(w_msg)
         return_self = True
     return return_self, res_sequence
 
diff --git a/py_fatigue/damage/stress_life.py b/py_fatigue/damage/stress_life.py
index 6ef2b45..b20ed0f 100644
--- a/py_fatigue/damage/stress_life.py
+++ b/py_fatigue/damage/stress_life.py
@@ -5,7 +5,6 @@ damage models related to the stress-life approach.
 # Packages from standard library
 from types import SimpleNamespace
 from typing import Callable, Optional, Tuple, Union
-import warnings
 
 # Packages from external libraries
 import matplotlib
@@ -16,7 +15,7 @@ import pandas as pd
 from py_fatigue.cycle_count.cycle_count import CycleCount
 from py_fatigue.material.sn_curve import SNCurve
 from py_fatigue.utils import make_axes
-from py_fatigue.styling import py_fatigue_formatwarning
+from py_fatigue.styling import py_fatigue_warn
 from py_fatigue.material.sn_curve import _check_param_couple_types
 
 try:
@@ -694,16 +693,14 @@ def calc_nonlinear_damage(
                 "Pavlou damage rule requires 'base_exponent' ",
                 "to be assigned.\nUsing preset value of -0.75.",
             ]
-            warnings.formatwarning = py_fatigue_formatwarning
-            warnings.warn("".join(w_msg), UserWarning)
+            py_fatigue_warn("".join(w_msg))
             ns.base_exponent = -0.75
         if "ultimate_stress" not in kwargs:
             w_msg = [
                 "Pavlou damage rule requires 'ultimate_stress' ",
                 "to be assigned.\nUsing preset value of 900 MPa.",
             ]
-            warnings.formatwarning = py_fatigue_formatwarning
-            warnings.warn("".join(w_msg), UserWarning)
+            py_fatigue_warn("".join(w_msg))
             ns.ultimate_stress = 900
         damage_exp = calc_pavlou_exponents(
             stress_range, ns.ultimate_stress, ns.base_exponent
@@ -715,8 +712,7 @@ def calc_nonlinear_damage(
                 "'base_exponent' to be assigned.\n",
                 "Using preset value of 0.4.",
             ]
-            warnings.formatwarning = py_fatigue_formatwarning
-            warnings.warn("".join(w_msg), UserWarning)
+            py_fatigue_warn("".join(w_msg))
             ns.base_exponent = 0.4
         damage_exp = calc_manson_halford_exponents(
             sn_curve.get_cycles(stress_range), ns.base_exponent
@@ -728,8 +724,7 @@ def calc_nonlinear_damage(
                 "'base_exponent' to be assigned.\n",
                 "Using preset value of 2.",
             ]
-            warnings.formatwarning = py_fatigue_formatwarning
-            warnings.warn("".join(w_msg), UserWarning)
+            py_fatigue_warn("".join(w_msg))
             ns.base_exponent = 2
         damage_exp = ns.base_exponent * np.ones(len(damage_per_cycle))
     if "si jian" in damage_rule.lower():
diff --git a/py_fatigue/styling.py b/py_fatigue/styling.py
index 65a93e1..ddacbd5 100644
--- a/py_fatigue/styling.py
+++ b/py_fatigue/styling.py
@@ -3,9 +3,13 @@ The :mod:`py_fatigue.styling` module collects all the functions and
 classes related with better displaying i/o operations.
 """
 
+import threading
+import warnings
 from typing import Optional, Type, Union
 
-__all__ = ["TermColors", "py_fatigue_formatwarning"]
+__all__ = ["TermColors", "py_fatigue_formatwarning", "py_fatigue_warn"]
+
+_WARN_LOCK = threading.RLock()
 
 
 class TermColors:  # pragma: no cover
@@ -96,3 +100,21 @@ def py_fatigue_formatwarning(
         )
         return w_msg
     return f"{TermColors.CYELLOW2}{message}{TermColors.CEND}\n"
+
+
+def py_fatigue_warn(message: str) -> None:
+    """Issue a warning in the style of py_fatigue. The way other warnings are
+    displayed is left as it is.
+
+    Parameters
+    ----------
+    message : str
+        The warning message.
+    """
+    with _WARN_LOCK:
+        formatwarning = warnings.formatwarning
+        warnings.formatwarning = py_fatigue_formatwarning
+        try:
+            warnings.warn(message, UserWarning, stacklevel=2)
+        finally:
+            warnings.formatwarning = formatwarning
diff --git a/py_fatigue/testing.py b/py_fatigue/testing.py
index 89efd74..6c9f796 100644
--- a/py_fatigue/testing.py
+++ b/py_fatigue/testing.py
@@ -1,11 +1,10 @@
 from __future__ import annotations
 from typing import Any
-import warnings
 
 import numpy as np
 import numpy.typing as npt
 
-from py_fatigue.styling import py_fatigue_formatwarning
+from py_fatigue.styling import py_fatigue_warn
 
 
 def get_sampled_time(
@@ -43,8 +42,7 @@ def get_sampled_time(
             "The signal duration is not a multiple of the sampling frequency."
             f"The signal will last {duration - (duration % (1 / fs))} s."
         )
-        warnings.formatwarning = py_fatigue_formatwarning
-        warnings.warn(w_msg, UserWarning)
+        py_fatigue_warn(w_msg)
 
     return np.arange(start, start + duration, 1 / fs)
 
-- 
2.43.0


From b05022141bcaac5b9d87b04778b563a01c9197aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:31 +0000
Subject: [PATCH 32/33] fix: grow the crack through the fractional part of
 clustered cycles

---
 py_fatigue/damage/crack_growth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 7e48feb..383f228 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -480,7 +480,8 @@ def get_crack_growth(
         else:
             splts = [int(cycle) for cycle in cycle_count.count_cycle]
         splt_cyc = [
-            split(int(cycle), n) if int(cycle) > 0 else [cycle]
+            (split(int(cycle), n) if int(cycle) > 0 else [])
+            + ([cycle % 1] if cycle % 1 > 0 or cycle == 0 else [])
             for cycle, n in zip(cycle_count.count_cycle, splts)
         ]
         splt_len = [len(_) for _ in splt_cyc]
@@ -605,7 +606,8 @@ class CrackGrowth:
                     int(cycle) for cycle in self._obj["count_cycle"].values
                 ]
             splt_cyc = [
-                split(int(cycle), n) if int(cycle) > 0 else [cycle]
+                (split(int(cycle), n) if int(cycle) > 0 else [])
+                + ([cycle % 1] if cycle % 1 > 0 or cycle == 0 else [])
                 for cycle, n in zip(self._obj["count_cycle"].values, splts)
             ]
             splt_len = [len(_) for _ in splt_cyc]
-- 
2.43.0


From 413fe58920c19a55cb328e7874cf567e3c98e383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:58:52 +0000
Subject: [PATCH 33/33] fix: refuse crack growth when the stress units differ

---
 py_fatigue/damage/crack_growth.py | 33 +++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 383f228..c493aa7 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -3,6 +3,7 @@ damage models related to the crack growth approach.
 """
 
 # Packages from the Python Standard Library
+import re
 from typing import Dict, Tuple, Type, TypeVar
 
 # Packages from third party libraries
@@ -396,6 +397,29 @@ def get_sif(
     return stress_ * np.sqrt(np.pi * crack_depth_) * y_1, y_1
 
 
+def _check_units(unit: str, cg_curve: ParisCurve) -> None:
+    """Check that the stress unit is the one of the crack growth curve.
+
+    Parameters
+    ----------
+    unit : str
+        The stress unit of the cycles.
+    cg_curve : py_fatigue.ParisCurve
+        The crack growth curve
+
+    Raises
+    ------
+    ValueError
+        If the units are not compatible.
+    """
+    if not re.search(rf"(?<![A-Za-z]){re.escape(unit)}", cg_curve.unit):
+        e_msg = (
+            f"Cycle count unit ({unit}) and crack growth "
+            f"curve unit ({cg_curve.unit}) are not compatible."
+        )
+        raise ValueError(e_msg)
+
+
 def get_crack_growth(
     cycle_count: CycleCount,
     cg_curve: ParisCurve,
@@ -466,12 +490,7 @@ def get_crack_growth(
     # Handle the stress ranges and cycle counts as they might be clustered
     # in a matrix and we need to iterate over single or "little" cycles
     # within the same stress range block
-    if cycle_count.unit not in cg_curve.unit:
-        e_msg = (
-            f"Cycle count unit ({cycle_count.unit}) and crack growth "
-            f"curve unit ({cg_curve.unit}) are not compatible."
-        )
-        raise ValueError(e_msg)
+    _check_units(cycle_count.unit, cg_curve)
     if np.max(cycle_count.count_cycle) > 1:
         if express_mode:
             splts = [
@@ -590,6 +609,8 @@ class CrackGrowth:
         """
 
         self._validate(self._obj)
+        if isinstance(self._obj._metadata, dict):
+            _check_units(self._obj._metadata.get("unit", ""), cg_curve)
 
         # Handle the stress ranges and cycle counts as they might be clustered
         # in a matrix and we need to iterate over single or "little" cycles
-- 
2.43.0

