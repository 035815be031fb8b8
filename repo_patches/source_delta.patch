From c200f9cb459082e20696b7c974498ab2a5caa945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:32 +0000
Subject: [PATCH 01/31] fix: keep the stress unit of derived cycle counts

Sums, products with a stress concentration factor, resolved and mean
stress corrected cycle counts were always labelled "MPa", whatever the
unit of their operands.
---
 py_fatigue/cycle_count/cycle_count.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index d8ddc3a..8c9d88f 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -951,6 +951,7 @@ class CycleCount:
             mean_stress_corrected="No",
             stress_concentration_factor=float(added_scf),
             timestamp=min(self.timestamp, other.timestamp),
+            unit=self.unit,
             name=self.name,
             _time_sequence=np.unique(
                 np.hstack([self.time_sequence, other.time_sequence])
@@ -1184,6 +1185,7 @@ class CycleCount:
             stress_range=stress_ranges_corr,
             mean_stress=mean_stress_corr,
             timestamp=self_.timestamp,
+            unit=self_.unit,
             range_bin_lower_bound=self_.range_bin_lower_bound,
             range_bin_width=self_.range_bin_width,
             _mean_bin_lower_bound=self_.mean_bin_lower_bound,
@@ -1516,6 +1518,7 @@ def _multiplication_by_scalar(
         mean_stress_corrected=self_.mean_stress_corrected,
         stress_concentration_factor=mul_scf,
         timestamp=self_.timestamp,
+        unit=self_.unit,
         name=str(self_.name) + ", SCF=" + str(other_),
     )
 
@@ -1734,6 +1737,7 @@ def _solve_lffd(
         stress_range=2 * res_rf[:, 0],
         mean_stress=res_rf[:, 1],
         timestamp=self_.timestamp,
+        unit=self_.unit,
         _mean_bin_lower_bound=self_.mean_bin_lower_bound,
         mean_bin_width=self_.mean_bin_width,
         range_bin_lower_bound=self_.range_bin_lower_bound,
@@ -1760,6 +1764,7 @@ def _solve_lffd(
         stress_range=self_.stress_range[self_.count_cycle > 0.5],
         mean_stress=self_.mean_stress[self_.count_cycle > 0.5],
         timestamp=self_.timestamp,
+        unit=self_.unit,
         _mean_bin_lower_bound=self_.mean_bin_lower_bound,
         mean_bin_width=self_.mean_bin_width,
         range_bin_lower_bound=self_.range_bin_lower_bound,
-- 
2.43.0


From 0799d7c9364a09844d46d7dd651f99847a710b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:32 +0000
Subject: [PATCH 02/31] fix: keep small cycles and time sequence when scaling a
 cycle count

Multiplying by a stress concentration factor reset the number of small
cycles to zero and the time sequence to the first timestamp.
---
 py_fatigue/cycle_count/cycle_count.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 8c9d88f..d444574 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1512,6 +1512,7 @@ def _multiplication_by_scalar(
         range_bin_width=other_ * self_.range_bin_width,
         _mean_bin_lower_bound=mul_mean_bin,
         mean_bin_width=other_ * self_.mean_bin_width,
+        nr_small_cycles=self_.nr_small_cycles,
         residuals_sequence=mul_res_seq,
         _min_max_sequence=mul_min_max,
         lffd_solved=self_.lffd_solved,
@@ -1520,6 +1521,7 @@ def _multiplication_by_scalar(
         timestamp=self_.timestamp,
         unit=self_.unit,
         name=str(self_.name) + ", SCF=" + str(other_),
+        _time_sequence=self_._time_sequence,
     )
 
     # mul_cc.stress_concentration_factor = (
-- 
2.43.0


From 6aa5b58a40ebad31cf4b671d339dbe13540f8b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:32 +0000
Subject: [PATCH 03/31] fix: keep extremes and correction status of corrected
 cycle counts

Mean stress correction dropped the min-max sequence. Resolving the
residuals dropped the mean stress correction status, so that a cycle
count could be corrected twice.
---
 py_fatigue/cycle_count/cycle_count.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index d444574..70ac22f 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1197,6 +1197,7 @@ class CycleCount:
             name=self_.name,
             nr_small_cycles=self_.nr_small_cycles,
             residuals_sequence=self_.residuals_sequence,
+            _min_max_sequence=self_.min_max_sequence,
             stress_concentration_factor=self_.stress_concentration_factor,
             _time_sequence=self_.time_sequence,
         )
@@ -1781,6 +1782,7 @@ def _solve_lffd(
     )
     cc_solved = cc_res + cc_no_res
     cc_solved.lffd_solved = True
+    cc_solved.mean_stress_corrected = self_.mean_stress_corrected
     return cc_solved
 
 
-- 
2.43.0


From ce6fe85cbd9b2dee4a81740a4db58462e0aceb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:57 +0000
Subject: [PATCH 04/31] fix: handle cycle counts without a residuals sequence

Cycle counts imported from a dictionary without a residuals sequence
raised UnboundLocalError when resolved and TypeError when exported.
---
 py_fatigue/cycle_count/cycle_count.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 70ac22f..39efea4 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -663,9 +663,13 @@ class CycleCount:
             round_decimals=round_decimals,
             debug_mode=debug_mode,
         )
-        output_dict["res_sig"] = np.asarray(
-            np.round(self.residuals_sequence, round_decimals)
-        ).tolist()
+        output_dict["res_sig"] = (
+            np.asarray(
+                np.round(self.residuals_sequence, round_decimals)
+            ).tolist()
+            if self.residuals_sequence is not None
+            else []
+        )
         return output_dict
 
     def _repr_html_(self) -> str:  # pragma: no cover
@@ -1822,6 +1826,7 @@ def _lffd_checks(self_: CycleCount, solve_mode: str) -> tuple:
         raise ValueError(e_msg)
 
     return_self = False
+    res_sequence = np.empty(0)
     if self_.lffd_solved:
         w_msg = "Residuals already resolved. Nothing to do."
         warnings.formatwarning = py_fatigue_formatwarning
-- 
2.43.0


From 1e85fca012e4668c0ceabd48f7884b11e442352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:57 +0000
Subject: [PATCH 05/31] fix: do not modify the operand of a mean stress
 correction

When there was nothing to resolve, enforcing a pulsating load replaced
the mean stresses of the original cycle count.
---
 py_fatigue/cycle_count/cycle_count.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 39efea4..184bf52 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1118,7 +1118,7 @@ class CycleCount:
             warnings.warn(w_msg, UserWarning)
             return self
 
-        self_ = copy.deepcopy(self) if self.lffd_solved else self.solve_lffd()
+        self_ = copy.deepcopy(self if self.lffd_solved else self.solve_lffd())
 
         if np.all((self_.mean_stress == 0)) and not enforce_pulsating_load:
             e_msg = "".join(
-- 
2.43.0


From 1e3ed945e70d62ffa0b4f179c780f3a43cbca1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:57 +0000
Subject: [PATCH 06/31] fix: export the small cycles a cycle count already has

as_dict only counted the cycles dropped by the export itself, so small
cycles were lost each time a cycle count was exported and imported.
---
 py_fatigue/cycle_count/cycle_count.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 184bf52..226ab38 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -663,6 +663,7 @@ class CycleCount:
             round_decimals=round_decimals,
             debug_mode=debug_mode,
         )
+        output_dict["nr_small_cycles"] += self.nr_small_cycles
         output_dict["res_sig"] = (
             np.asarray(
                 np.round(self.residuals_sequence, round_decimals)
-- 
2.43.0


From d57260ab012337edf35469b507a28be2333d6d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:50 +0000
Subject: [PATCH 07/31] fix: import dictionaries without residual cycles

The layout of the histogram and of the large cycles was read from the
first residual, which raised IndexError when there is none.
---
 py_fatigue/cycle_count/cycle_count.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 226ab38..3b0598c 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -143,7 +143,7 @@ def _build_input_data_from_json(  # noqa: C901
         hst = np.array(hst)
     # A) Case without mean stress
     # Adding hist cycles
-    if len(data["hist"]) > 0 and not isinstance(data["res"][0], Iterable):
+    if len(data["hist"]) > 0 and not isinstance(data["hist"][0], Iterable):
         the_hist = np.asarray(data["hist"])
         zero_hist_counts = np.where(the_hist == 0)[0]
         range_bin_centers = np.around(
@@ -160,7 +160,7 @@ def _build_input_data_from_json(  # noqa: C901
         range_bin_centers = np.delete(range_bin_centers, zero_hist_counts)
     # Adding large cycles
     if len(data["lg_c"]) > 0 and not isinstance(
-        data["res"][0],
+        data["lg_c"][0],
         Iterable,  # isinstance(
         # data["lg_c"][0], (float, int, np.int16, np.int32)
     ):
-- 
2.43.0


From 176876aeac9d3fbb8de6a74eb8507994f2dc8b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:50 +0000
Subject: [PATCH 08/31] fix: accept a time array in binned_rainflow

Rainflow counting returns one more item when a time array is given, so
binned_rainflow always raised ValueError with it.
---
 py_fatigue/cycle_count/histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/histogram.py b/py_fatigue/cycle_count/histogram.py
index 2d4e42d..0617b71 100644
--- a/py_fatigue/cycle_count/histogram.py
+++ b/py_fatigue/cycle_count/histogram.py
@@ -585,7 +585,7 @@ def binned_rainflow(  # pylint: disable=too-many-arguments
     calc_rainflow
     rainflow_binner
     """
-    rfs, res_seq, _ = calc_rainflow(
+    rfs, res_seq, *_ = calc_rainflow(
         data=data,
         time=time,
         extended_output=True,
-- 
2.43.0


From 3e2db987b40c164d3a9373b2e10ccb28fdae3f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:50 +0000
Subject: [PATCH 09/31] fix: do not modify the stresses passed to
 rainflow_binner

The entries below the lower range bound were removed from the caller's
stress range and mean stress objects.
---
 py_fatigue/cycle_count/histogram.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/histogram.py b/py_fatigue/cycle_count/histogram.py
index 0617b71..ce9bc92 100644
--- a/py_fatigue/cycle_count/histogram.py
+++ b/py_fatigue/cycle_count/histogram.py
@@ -8,6 +8,7 @@ package `[4]`_.
 
 # standard imports
 from __future__ import annotations
+import copy
 import itertools
 from typing import Callable, List, Optional, Sequence, Union, TypeVar
 
@@ -467,6 +468,7 @@ def rainflow_threshold(ranges: StressRange, means: MeanStress) -> tuple:
     tuple
         The ranges and means above threshold, as well as small cycles.
     """
+    ranges, means = copy.copy(ranges), copy.copy(means)
     ranges_gt_lb_idx = np.where(ranges.values >= ranges.bin_lb)[0]
     nr_small_cycles = len(ranges.values) - len(ranges_gt_lb_idx)
     means.counts = means.counts[ranges_gt_lb_idx]
-- 
2.43.0


From 08e3cc2881a5b0b34cf71145ecaebea6ff326e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:50 +0000
Subject: [PATCH 10/31] fix: report type errors of make_histogram

A TypeError that does not concern the "normed" keyword was swallowed
and replaced by an UnboundLocalError.
---
 py_fatigue/cycle_count/histogram.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/histogram.py b/py_fatigue/cycle_count/histogram.py
index ce9bc92..3a5ae68 100644
--- a/py_fatigue/cycle_count/histogram.py
+++ b/py_fatigue/cycle_count/histogram.py
@@ -106,6 +106,8 @@ def make_histogram(
                 weights=weights,
                 density=normed,
             )
+        else:
+            raise
     hist_bin_edges = (mean_e, range_e)
     return hist, hist_bin_edges
 
-- 
2.43.0


From 94e0bb6d6f4bfaa321a28e8a065650ee1e2b6554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:50 +0000
Subject: [PATCH 11/31] fix: accept the documented mode None in xy_hist2d

It is listed as the option that keeps the order of the points but was
refused with a ValueError.
---
 py_fatigue/cycle_count/histogram.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/histogram.py b/py_fatigue/cycle_count/histogram.py
index 3a5ae68..ae32b23 100644
--- a/py_fatigue/cycle_count/histogram.py
+++ b/py_fatigue/cycle_count/histogram.py
@@ -250,6 +250,8 @@ def xy_hist2d(
         iorder = np.argsort(dens)
     elif mode == "valley":
         iorder = np.argsort(dens)[::-1]
+    elif mode is None:
+        iorder = np.arange(len(dens))
     else:
         raise ValueError("mode must be one of [None, 'mountain', 'valley']")
     x = x[iorder]
-- 
2.43.0


From c11386ce2f1061a73609aec4ef9acfe01bf96be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:50 +0000
Subject: [PATCH 12/31] fix: zero crack growth rate below the threshold in the
 integrator

The second test was not chained to the first one, so the zero growth rate
was always overwritten by the Paris law.
---
 py_fatigue/damage/crack_growth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 2942446..d2beb50 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -232,7 +232,7 @@ class CalcCrackGrowth:
         knees = self.get_knees_sif
         if sif < self.threshold:
             the_growth_rate = 0.0
-        if sif > self.critical:
+        elif sif > self.critical:
             the_growth_rate = np.inf
         else:
             idx = np.digitize(np.asarray([sif]), knees, right=True) - 1
-- 
2.43.0


From 29c722fd043369ff5c9460e5cf22b4e87af493de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:50 +0000
Subject: [PATCH 13/31] fix: invert the crack growth law on its first and last
 segment

Rates on the first segment returned the threshold and rates on the last
segment returned the critical stress intensity factor.
---
 py_fatigue/material/crack_growth_curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/material/crack_growth_curve.py b/py_fatigue/material/crack_growth_curve.py
index 354cf14..2f3ec9f 100755
--- a/py_fatigue/material/crack_growth_curve.py
+++ b/py_fatigue/material/crack_growth_curve.py
@@ -787,10 +787,10 @@ def _calc_sif(growth_rate, slope, intercept, threshold, critical):
     the_sif = np.empty(growth_rate.size, dtype=np.float64)
     nr_knees = intercept.size - 1
     for i in nb.prange(growth_rate.size):
-        if idx[i] <= 0:  # below threshold
+        if idx[i] < 0:  # below threshold
             the_sif[i] = threshold
             continue
-        if idx[i] >= nr_knees:  # above threshold
+        if idx[i] > nr_knees:  # above critical
             the_sif[i] = critical
             continue
         the_sif[i] = (growth_rate[i] / intercept[idx[i]]) ** (
-- 
2.43.0


From 047eeaf4977a4120132fec12b9ada67d1bca0f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:50 +0000
Subject: [PATCH 14/31] fix: accept damage rule names in any letter case

The branches compare the lower case name, the check did not.
---
 py_fatigue/damage/stress_life.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/damage/stress_life.py b/py_fatigue/damage/stress_life.py
index df7453e..26c0cca 100644
--- a/py_fatigue/damage/stress_life.py
+++ b/py_fatigue/damage/stress_life.py
@@ -686,7 +686,7 @@ def calc_nonlinear_damage(
         "si jian",
         "si jian et al",
     ]
-    if damage_rule not in allowed_rules:
+    if damage_rule.lower() not in allowed_rules:
         e_msg = f"damage_rule must be one of {allowed_rules}"
         raise ValueError(e_msg)
 
-- 
2.43.0


From 71b4697ba207af3f032415920fb90b2863575d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:50 +0000
Subject: [PATCH 15/31] fix: plot the maximum stress in min-max histograms

The maximum was computed from the minimum instead of from the mean.
---
 py_fatigue/cycle_count/cycle_count.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 3b0598c..1cef520 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1318,8 +1318,7 @@ class CycleCount:
             e_msg = f"Invalid plot type. Must be one of {plot_types}."
             raise ValueError(e_msg)
         if plot_type == "min-max":
-            x = x - y / 2
-            y = x + y / 2
+            x, y = x - y / 2, x + y / 2
             bins = bins if bins is not None else 50
         if "counts-range" in plot_type:
             sor = sorted(
-- 
2.43.0


From bce34d8e7922454072fec42dd65ce32579df8ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:50 +0000
Subject: [PATCH 16/31] fix: compare the whole stress unit in get_crack_growth
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The substring test accepted for example Pa together with MPa √mm.
---
 py_fatigue/damage/crack_growth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index d2beb50..38dbc12 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -466,7 +466,7 @@ def get_crack_growth(
     # Handle the stress ranges and cycle counts as they might be clustered
     # in a matrix and we need to iterate over single or "little" cycles
     # within the same stress range block
-    if cycle_count.unit not in cg_curve.unit:
+    if cg_curve.unit.replace("√", " ").split()[:1] != [cycle_count.unit]:
         e_msg = (
             f"Cycle count unit ({cycle_count.unit}) and crack growth "
             f"curve unit ({cg_curve.unit}) are not compatible."
-- 
2.43.0


From 7dc8dab3e6d155fbc37280f0d85954621bc1c152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:50 +0000
Subject: [PATCH 17/31] fix: keep the fractional cycles of a block in crack
 growth analyses

A block of 2.5 cycles was integrated as two cycles.  The rows of the table
accessor are now aligned with the last sub-block of each block.
---
 py_fatigue/damage/crack_growth.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 38dbc12..bf7ade9 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -480,7 +480,11 @@ def get_crack_growth(
         else:
             splts = [int(cycle) for cycle in cycle_count.count_cycle]
         splt_cyc = [
-            split(int(cycle), n) if int(cycle) > 0 else [cycle]
+            (
+                split(int(cycle), n) + ([cycle % 1] if cycle % 1 > 0 else [])
+                if int(cycle) > 0
+                else [cycle]
+            )
             for cycle, n in zip(cycle_count.count_cycle, splts)
         ]
         splt_len = [len(_) for _ in splt_cyc]
@@ -605,7 +609,12 @@ class CrackGrowth:
                     int(cycle) for cycle in self._obj["count_cycle"].values
                 ]
             splt_cyc = [
-                split(int(cycle), n) if int(cycle) > 0 else [cycle]
+                (
+                    split(int(cycle), n)
+                    + ([cycle % 1] if cycle % 1 > 0 else [])
+                    if int(cycle) > 0
+                    else [cycle]
+                )
                 for cycle, n in zip(self._obj["count_cycle"].values, splts)
             ]
             splt_len = [len(_) for _ in splt_cyc]
@@ -617,6 +626,7 @@ class CrackGrowth:
                 self._obj["stress_range"].values, splt_len
             )
         else:
+            splt_len = [1] * len(self._obj)
             stress_range = self._obj["stress_range"].values
             count_cycle = self._obj["count_cycle"].values
 
@@ -656,7 +666,7 @@ class CrackGrowth:
                 (cg_.geometry_factor, np.full(d_l, np.nan))
             )
         else:
-            idx = np.asarray(self._obj["count_cycle"].cumsum(), dtype=int) - 1
+            idx = np.cumsum(splt_len) - 1
             self._obj["crack_depth"] = cg_.crack_depth[idx]
             self._obj["sif"] = cg_.sif[idx]
             self._obj["cumul_cycle"] = cumul_cycle[idx]
-- 
2.43.0


From ed26c9cb75e90169840f72898d1eafed9a2b1f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:50 +0000
Subject: [PATCH 18/31] fix: check the stress unit in the crack growth accessor

The function on cycle counts refuses a curve in another unit, the accessor
accepted it.
---
 py_fatigue/damage/crack_growth.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index bf7ade9..8daecc5 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -593,6 +593,16 @@ class CrackGrowth:
         """
 
         self._validate(self._obj)
+        metadata = self._obj._metadata
+        if isinstance(metadata, dict) and "unit" in metadata:
+            if cg_curve.unit.replace("√", " ").split()[:1] != [
+                metadata["unit"]
+            ]:
+                e_msg = (
+                    f"Cycle count unit ({metadata['unit']}) and crack growth "
+                    f"curve unit ({cg_curve.unit}) are not compatible."
+                )
+                raise ValueError(e_msg)
 
         # Handle the stress ranges and cycle counts as they might be clustered
         # in a matrix and we need to iterate over single or "little" cycles
-- 
2.43.0


From 100d470446811b8d4663a13c62b6250dbf454a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:50 +0000
Subject: [PATCH 19/31] fix: copy the arrays a material curve is built from

A float array was stored as is, so changing it changed the curve.
---
 py_fatigue/material/sn_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/material/sn_curve.py b/py_fatigue/material/sn_curve.py
index 96cb334..1f9479e 100644
--- a/py_fatigue/material/sn_curve.py
+++ b/py_fatigue/material/sn_curve.py
@@ -68,7 +68,7 @@ def check_iterable(function: Callable) -> Callable:
             except TypeError:
                 iter_args.append(np.asarray([arg], dtype=float))
             else:
-                iter_args.append(np.asarray(arg, dtype=float))
+                iter_args.append(np.array(arg, dtype=float))
         return function(*iter_args)
 
     return wrapper
-- 
2.43.0


From f9b3ba64746c90801b1a3d97db33e83511cf4043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:50 +0000
Subject: [PATCH 20/31] fix: allow column labels that are not strings in
 aggregations

---
 py_fatigue/cycle_count/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/utils.py b/py_fatigue/cycle_count/utils.py
index 7713ae6..5320430 100644
--- a/py_fatigue/cycle_count/utils.py
+++ b/py_fatigue/cycle_count/utils.py
@@ -142,7 +142,9 @@ def aggregate_cc(
     df_agg_rr = df_agg.applymap(solve_lffd)
 
     cc_cols: list[str] = [
-        col for col in df_agg_rr.columns if col.startswith("CC_")
+        col
+        for col in df_agg_rr.columns
+        if isinstance(col, str) and col.startswith("CC_")
     ]
 
     if not save_residuals:
@@ -266,7 +268,11 @@ def calc_aggregated_damage(
                     "SNCurve."
                 )
 
-    cc_cols: list[str] = [col for col in df.columns if col.startswith("CC_")]
+    cc_cols: list[str] = [
+        col
+        for col in df.columns
+        if isinstance(col, str) and col.startswith("CC_")
+    ]
     damages = pd.DataFrame()
     for _, sn_curve in sn.items():
         df_1 = df[cc_cols].applymap(
-- 
2.43.0


From b3f6a6053609c015bdda47d7b116b3f46d3f67bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:50 +0000
Subject: [PATCH 21/31] fix: keep curves of equal name in
 calc_aggregated_damage

A list was turned into a dictionary by name, and unnamed curves collapsed
into one.
---
 py_fatigue/cycle_count/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/utils.py b/py_fatigue/cycle_count/utils.py
index 5320430..b54baf6 100644
--- a/py_fatigue/cycle_count/utils.py
+++ b/py_fatigue/cycle_count/utils.py
@@ -261,7 +261,7 @@ def calc_aggregated_damage(
             sn = {sn.name: sn}
         elif isinstance(sn, list):
             if all(isinstance(s, SNCurve) for s in sn):
-                sn = {s.name: s for s in sn}
+                sn = {str(i): s for i, s in enumerate(sn)}
             else:
                 raise TypeError(
                     "The S-N curves must be a dict, a list of SNCurve or a "
-- 
2.43.0


From 9feff6113b40198d8ccc00d1a8daf742df65c36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:50 +0000
Subject: [PATCH 22/31] fix: sum of missing cycle counts only is missing

A group with missing values only made the aggregation fail.
---
 py_fatigue/cycle_count/cycle_count.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 1cef520..7f56fb1 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1879,6 +1879,8 @@ def pbar_sum(cc_list: Sequence[CycleCount]) -> CycleCount:
 
     chunk_size = int(np.sqrt(len(cc_list)))
     cc_list = [cc for cc in cc_list if cc is not None]
+    if len(cc_list) == 0:
+        return None  # type: ignore
 
     sleep(0.15)
     chunked_cc_list = list(pfu.chunks(cc_list, chunk_size))
-- 
2.43.0


From ccedbac93019b287acd65d838a2135c5372a5c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:50 +0000
Subject: [PATCH 23/31] fix: leave the global random generator alone in
 get_random_data

The data come from a local generator.
---
 py_fatigue/testing.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/py_fatigue/testing.py b/py_fatigue/testing.py
index d2ad58b..89efd74 100644
--- a/py_fatigue/testing.py
+++ b/py_fatigue/testing.py
@@ -83,7 +83,6 @@ def get_random_data(
         Random data.
     """
     rng = np.random.default_rng(seed)
-    np.random.seed(seed)
     y = getattr(rng, random_type)(**kwargs, size=len(t))
     y = ((y - y.min()) / (y.max() - y.min())) * range_ + min_
     return y
-- 
2.43.0


From c99f7476ecb8704b24f3df519c7d7ceffe7f4d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:50 +0000
Subject: [PATCH 24/31] fix: report invalid hollow cylinder dimensions as
 validation errors

The thickness check raised KeyError when the outer diameter or the initial
depth had been refused already.
---
 py_fatigue/geometry/cylinder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/geometry/cylinder.py b/py_fatigue/geometry/cylinder.py
index 20b6eba..7f49388 100644
--- a/py_fatigue/geometry/cylinder.py
+++ b/py_fatigue/geometry/cylinder.py
@@ -74,10 +74,10 @@ class HollowCylinder(AbstractCrackGeometry):
         cls, v: PositiveFloat, values: dict
     ) -> PositiveFloat:
         """Validate the thickness of the part."""
-        if v >= values["outer_diameter"] / 2:
+        if "outer_diameter" in values and v >= values["outer_diameter"] / 2:
             e_msg = "thickness is greater than or equal to the outer radius"
             raise ValueError(e_msg)
-        if v <= values["initial_depth"]:
+        if "initial_depth" in values and v <= values["initial_depth"]:
             e_msg = "thickness is less than or equal to the initial depth"
             raise ValueError(e_msg)
         return v
-- 
2.43.0


From b88d09e7ea7dc729cd84b061760483b1eb9b5b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:58 +0000
Subject: [PATCH 25/31] fix: count signals with a single turning point

A signal such as 0, 1, 0 has two half cycles, but gave no cycle at all, and
building a cycle count from it failed.
---
 py_fatigue/cycle_count/rainflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/rainflow.py b/py_fatigue/cycle_count/rainflow.py
index 7d823f8..83b4b93 100644
--- a/py_fatigue/cycle_count/rainflow.py
+++ b/py_fatigue/cycle_count/rainflow.py
@@ -76,7 +76,7 @@ def findtp(x: np.ndarray) -> np.ndarray:
 
     ind = findextrema(x)
 
-    if ind.size < 2:
+    if ind.size < 1:
         return np.empty(0, dtype=np.int64)
 
     # # the Nieslony approach always put the first loading point as the first
-- 
2.43.0


From 3d090ad47de3159fd105c593d130ccba497b9bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:58 +0000
Subject: [PATCH 26/31] fix: do not return empty rows from findrfc_astm

Intervals of zero amplitude, as in a signal that starts with two equal
samples, write no row but were counted in the number of rows returned.
---
 py_fatigue/cycle_count/rainflow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/rainflow.py b/py_fatigue/cycle_count/rainflow.py
index 83b4b93..ff400b2 100644
--- a/py_fatigue/cycle_count/rainflow.py
+++ b/py_fatigue/cycle_count/rainflow.py
@@ -399,7 +399,8 @@ def findrfc_astm(tp: np.ndarray, t: Optional[np.ndarray] = None) -> np.ndarray:
     # the sig_rfc was constructed too big in rainflow.rf3, so
     # reduce the sig_rfc array as done originally by a matlab mex c function
     # n = len(sig_rfc)
-    return sig_rfc[: n - cnr[0]]
+    sig_rfc = sig_rfc[: n - cnr[0]]
+    return sig_rfc[sig_rfc[:, 2] > 0]
 
 
 def rainflow(
-- 
2.43.0


From 12d0b7c45e878bf9c643cbfa2926d7709f291d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:46:28 +0000
Subject: [PATCH 27/31] fix: refuse unknown crossing kinds also for signals
 without crossings

---
 py_fatigue/cycle_count/rainflow.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py_fatigue/cycle_count/rainflow.py b/py_fatigue/cycle_count/rainflow.py
index ff400b2..7df792d 100644
--- a/py_fatigue/cycle_count/rainflow.py
+++ b/py_fatigue/cycle_count/rainflow.py
@@ -138,6 +138,9 @@ def findcross(x: np.ndarray, v=0.0, kind=None) -> np.ndarray:
     if len(x) > 0 and np.isnan(np.min(x)):
         raise ValueError("data contain NaN")
 
+    if kind not in ("du", "all", "d", "u", None):
+        raise ValueError(f"Unknown cycle-crossing definition! ({kind})")
+
     xn = np.array(np.sign(np.atleast_1d(x).ravel() - v), dtype=np.int8)
     ind = findcross_indices(xn)
     if ind.size == 0:
@@ -150,13 +153,11 @@ def findcross(x: np.ndarray, v=0.0, kind=None) -> np.ndarray:
                 xn[ind[0] + 1] > 0  # pylint: disable=unsubscriptable-object
             )
             ind = ind[t_0::2]
-        elif kind == "u":  # upcrossings  only
+        else:  # upcrossings  only
             t_0 = int(
                 xn[ind[0] + 1] < 0  # pylint: disable=unsubscriptable-object
             )
             ind = ind[t_0::2]
-        else:
-            raise ValueError(f"Unknown cycle-crossing definition! ({kind})")
     return ind
 
 
-- 
2.43.0


From dfeb255bc3d849ab4796908b8e9a1e45243cbf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:31:29 +0000
Subject: [PATCH 28/31] fix: keep one bin when no full cycle exceeds the lower
 bin bound

The bin edges collapsed to a single value when every full cycle lay on or
below the lower bound, so exporting such a count raised IndexError or
ValueError instead of returning the histogram dictionary.
---
 py_fatigue/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index a027dac..6bdc0ad 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -209,6 +209,8 @@ class FatigueStress:
                 self.bin_width,
                 max(self.full) if len(self.full) > 0 else max(self._values),
             )
+            # at least one bin, also if no value exceeds the lower bound
+            self._bin_ub = max(self._bin_ub, self._bin_lb + self.bin_width)
 
     @property
     def bin_lb(self) -> float:
-- 
2.43.0


From 130ce23884b96d4cb78b24a873b9c577c80aaa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:32:10 +0000
Subject: [PATCH 29/31] fix: bin cycles that lie on a rounded bin edge

Bin edges are rounded to 5 decimals while the values are not, so a cycle on
the last edge could fall behind it and the export raised IndexError, for
instance after scaling a count by a factor with many decimals.
---
 py_fatigue/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index 6bdc0ad..531b10a 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -326,7 +326,10 @@ class FatigueStress:
         -------
         bins_idx : np.ndarray
         """
-        digitized = np.digitize(self.full, self.bin_edges, right=True)
+        # bin edges are rounded to 5 decimals, so the values must be as well
+        digitized = np.digitize(
+            np.around(self.full, decimals=5), self.bin_edges, right=True
+        )
         digitized[np.where(digitized > 0)] -= 1
         return digitized
 
-- 
2.43.0


From b0e7471a83261e9334e603a25487f273a37db6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:28:09 +0000
Subject: [PATCH 30/31] fix: compare a missing attribute with a present one
 without raising

Comparing two cycle counts of which only the second has a time sequence
raised ValueError, because None was compared with an array element by
element. Missing attributes now only equal missing ones.
---
 py_fatigue/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index 531b10a..92d8423 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -472,6 +472,8 @@ def compare(a: Any, b: Any) -> bool:
         True if the a and b are equal, False otherwise.
     """
     # print(f"a: {a}, b: {b}")
+    if a is None or b is None:
+        return a is b
     if not hasattr(a, "__iter__") or isinstance(a, str):
         return a == b
 
-- 
2.43.0


From 144ea0cda8aaef783cfd36f74e9b9985ad99165c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:28:09 +0000
Subject: [PATCH 31/31] fix: compare zero-dimensional arrays by value

The time sequence of a cycle count with resolved residuals is a
zero-dimensional array, which has no length. Such a count did not equal
an identical copy of itself.
---
 py_fatigue/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index 92d8423..c80e363 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -478,10 +478,10 @@ def compare(a: Any, b: Any) -> bool:
         return a == b
 
     try:
-        if not len(a) == len(b):
-            return False
         if isinstance(a, np.ndarray):
             return np.array_equal(a, b)
+        if not len(a) == len(b):
+            return False
         if isinstance(a, dict):
             return all(compare(v, b[k]) for k, v in a.items())
         return all(compare(aa, bb) for aa, bb in zip(a, b))
-- 
2.43.0

