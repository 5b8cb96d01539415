From 0199eeae46298a20eea345d7298e36b7a6537c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:16 +0000
Subject: [PATCH 01/93] fix: keep samples selected on a periodic axis aligned
 with the field

Indices are counted on the whole axis.  The field was tiled once more after
the extraction, the first index past the stored samples raised IndexError,
negative indices were taken on the stored part only, and the symmetries of
the axis were erased by the request.
---
 SciDataTool/Methods/DataND/_extract_slices.py     | 8 ++++++++
 SciDataTool/Methods/DataND/_get_field.py          | 7 -------
 SciDataTool/Methods/DataND/_rebuild_symmetries.py | 3 +++
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_extract_slices.py b/SciDataTool/Methods/DataND/_extract_slices.py
index 8311ad1..e96782c 100644
--- a/SciDataTool/Methods/DataND/_extract_slices.py
+++ b/SciDataTool/Methods/DataND/_extract_slices.py
@@ -1,5 +1,7 @@
 from numpy import take
 
+from SciDataTool.Functions.symmetries import rebuild_symmetries
+
 
 def _extract_slices(self, values, axes_list):
     """Returns the values of the field (with symmetries and transformations).
@@ -29,6 +31,12 @@ def _extract_slices(self, values, axes_list):
                     axis_requested.indices is not None
                     and axis_requested.transform != "fft"
                 ):
+                    if axis_requested.name not in ["freqs", "wavenumber"] and (
+                        min(axis_requested.indices) < 0
+                        or max(axis_requested.indices) >= values.shape[index]
+                    ):
+                        # Requested indices are counted on the whole axis
+                        values = rebuild_symmetries(values, index, axis.symmetries)
                     values = take(values, axis_requested.indices, axis=index)
         if not is_match:  # Axis was not specified -> take slice at the first value
             axes_dict_other[axis.name] = [axis.get_values()[0], axis.unit]
diff --git a/SciDataTool/Methods/DataND/_get_field.py b/SciDataTool/Methods/DataND/_get_field.py
index 95c5969..1bf7811 100644
--- a/SciDataTool/Methods/DataND/_get_field.py
+++ b/SciDataTool/Methods/DataND/_get_field.py
@@ -47,12 +47,5 @@ def _get_field(self, axes_list):
             axis_symmetries["antiperiod"] = 2
             values = rebuild_symmetries(values, axis_requested.index, axis_symmetries)
             axis_symmetries["antiperiod"] = nper
-        elif (
-            axis_requested.indices is not None
-            and max(axis_requested.indices) > values.shape[axis_requested.index]
-        ):
-            # Slicing case where requested indices are among other periods
-            values = rebuild_symmetries(values, axis_requested.index, axis_symmetries)
-            self.axes[axis_requested.index].symmetries = dict()
 
     return values
diff --git a/SciDataTool/Methods/DataND/_rebuild_symmetries.py b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
index 4a16f4f..e1e5c90 100644
--- a/SciDataTool/Methods/DataND/_rebuild_symmetries.py
+++ b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
@@ -46,6 +46,9 @@ def _rebuild_symmetries(
             )
         ):
             values = take(values, axis.rebuild_indices, axis.index)
+        elif axis.transform != "fft" and axis.indices is not None:
+            # Samples were already extracted
+            continue
         elif axis.transform != "fft" and axis.extension in [
             "whole",
             "interval",
-- 
2.43.0


From 98a4eef12255c720a00b706bcabced51cc7c1975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:09 +0000
Subject: [PATCH 02/93] fix: continue a periodic axis with its own step when it
 does not start at zero

The values appended for the next periods were shifted by the first value of
the axis.
---
 SciDataTool/Functions/symmetries.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/symmetries.py b/SciDataTool/Functions/symmetries.py
index 068be3a..c8e8c47 100644
--- a/SciDataTool/Functions/symmetries.py
+++ b/SciDataTool/Functions/symmetries.py
@@ -54,7 +54,10 @@ def rebuild_symmetries_axis(values, symmetries):
                 values_new = concatenate(
                     (
                         values_new,
-                        values + (values_new[-1] - values_new[-2]) + values_new[-1],
+                        values
+                        - values[0]
+                        + (values_new[-1] - values_new[-2])
+                        + values_new[-1],
                     )
                 )
     elif "antiperiod" in symmetries.keys():
@@ -70,7 +73,10 @@ def rebuild_symmetries_axis(values, symmetries):
                 values_new = concatenate(
                     (
                         values_new,
-                        values + (values_new[-1] - values_new[-2]) + values_new[-1],
+                        values
+                        - values[0]
+                        + (values_new[-1] - values_new[-2])
+                        + values_new[-1],
                     )
                 )
     return values_new
-- 
2.43.0


From 061aee827658b0c059dc6de30828883482c30bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:15 +0000
Subject: [PATCH 03/93] fix: a spectral axis is not continued when one period
 is requested

---
 SciDataTool/Methods/DataND/_rebuild_symmetries.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_rebuild_symmetries.py b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
index e1e5c90..d5f1192 100644
--- a/SciDataTool/Methods/DataND/_rebuild_symmetries.py
+++ b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
@@ -64,15 +64,15 @@ def _rebuild_symmetries(
                 is_smallestperiod = False
                 is_oneperiod = False
                 is_antiperiod = True
-            elif axis.extension == "oneperiod":
-                is_smallestperiod = False
-                is_oneperiod = True
-                is_antiperiod = False
             # Ignore symmetries if fft axis
             elif axis.name in ["freqs", "wavenumber"]:
                 is_smallestperiod = True
                 is_oneperiod = False
                 is_antiperiod = False
+            elif axis.extension == "oneperiod":
+                is_smallestperiod = False
+                is_oneperiod = True
+                is_antiperiod = False
             # Ignore symmetries if non uniform ifft was used
             elif (
                 axis.transform == "ifft"
-- 
2.43.0


From 2e0bd776aa3a10401b8991dc3b9a8c73fa2fde7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:17 +0000
Subject: [PATCH 04/93] fix: a bound on a normalized axis is read with the name
 of the normalization

"angle->space_order>2" took "space_order>2" as the unit of the axis.
---
 SciDataTool/Functions/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/parser.py b/SciDataTool/Functions/parser.py
index 44775bb..71f0848 100644
--- a/SciDataTool/Functions/parser.py
+++ b/SciDataTool/Functions/parser.py
@@ -34,9 +34,9 @@ def read_input_strings(args, axis_data):
             elif "[" in elems[1]:
                 unit = elems[1].split("[")[0]
             elif ">" in elems[1]:
-                unit = elems[1].split("[")[0]
+                unit = elems[1].split(">")[0]
             elif "<" in elems[1]:
-                unit = elems[1].split("[")[0]
+                unit = elems[1].split("<")[0]
             else:
                 unit = elems[1]
             name = elems[0]
-- 
2.43.0


From 85769c1b3a1d9a506d88944ac405d0a45323c0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:07 +0000
Subject: [PATCH 05/93] fix: place a requested value or interval on a periodic
 axis in the requested unit

The choice between the stored part and the whole axis compared the request,
expressed in the requested unit, with axis values in the axis unit.
---
 SciDataTool/Methods/RequestedAxis/get_axis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SciDataTool/Methods/RequestedAxis/get_axis.py b/SciDataTool/Methods/RequestedAxis/get_axis.py
index 12a770c..cf49d77 100644
--- a/SciDataTool/Methods/RequestedAxis/get_axis.py
+++ b/SciDataTool/Methods/RequestedAxis/get_axis.py
@@ -116,8 +116,10 @@ def get_axis(self, axis, is_real):
                 # Check if symmetries need to be reconstructed to match input_data
                 axis_values = axis.get_values(
                     is_smallestperiod=True,
+                    unit=self.unit,
                     operation=self.operation,
                     is_real=is_real,
+                    corr_unit=self.corr_unit,
                 )
                 if min(self.input_data) >= min(axis_values) and max(
                     self.input_data
@@ -128,8 +130,10 @@ def get_axis(self, axis, is_real):
                 else:
                     axis_values = axis.get_values(
                         is_oneperiod=True,
+                        unit=self.unit,
                         operation=self.operation,
                         is_real=is_real,
+                        corr_unit=self.corr_unit,
                     )
                     if min(self.input_data) >= min(axis_values) and max(
                         self.input_data
-- 
2.43.0


From 761c153cd4dab8f7f1f2b6b2e16d6b749f5b81f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:04 +0000
Subject: [PATCH 06/93] fix: samples requested on existing axis values come in
 the requested order

When all the requested values were axis values, the samples were returned in
the order of the axis and repeated values were dropped.
---
 SciDataTool/Functions/interpolations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index 2ef5e8d..be9d8e7 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -99,7 +99,7 @@ def get_interpolation(values, axis_values, new_axis_values, index):
     elif isin(
         new_axis_values, axis_values
     ).all():  # New axis is subset -> no interpolation
-        indice_take = where(isin(axis_values, new_axis_values))[0]
+        indice_take = [argmin(np_abs(axis_values - value)) for value in new_axis_values]
 
         return take(
             values,
-- 
2.43.0


From 21d203c429a0080ef338f9ebce5c941b43c31528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:20 +0000
Subject: [PATCH 07/93] fix: two values given through axis_data on a periodic
 axis are not an interval

---
 SciDataTool/Methods/RequestedAxis/get_axis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/RequestedAxis/get_axis.py b/SciDataTool/Methods/RequestedAxis/get_axis.py
index cf49d77..f73e3ff 100644
--- a/SciDataTool/Methods/RequestedAxis/get_axis.py
+++ b/SciDataTool/Methods/RequestedAxis/get_axis.py
@@ -38,6 +38,7 @@ def get_axis(self, axis, is_real):
         self.is_pattern = True
         self.rebuild_indices = axis.rebuild_indices
         self.is_step = axis.is_step
+    is_axis_data = self.extension == "axis_data"
     is_components = getattr(axis, "is_components", False)
     if (
         is_components and axis.is_overlay and self.extension == "whole"
@@ -214,7 +215,7 @@ def get_axis(self, axis, is_real):
         if self.input_data is None:
             self.values = values
         else:
-            if len(self.input_data) == 2 and self.extension != "axis_data":
+            if len(self.input_data) == 2 and not is_axis_data:
                 indices = [
                     i
                     for i, x in enumerate(values)
-- 
2.43.0


From b8ffd53f6acae61dcbb71b0b757006ca80a2420c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:10 +0000
Subject: [PATCH 08/93] fix: reducing several axes in one request reduces the
 right axes

Maximum, minimum, arithmetic mean and the zero results of antiperiodic
signals dropped the reduced axis, so the next reduction was applied to the
wrong axis or raised an error.
---
 SciDataTool/Functions/derivation_integration.py |  4 ++--
 SciDataTool/Functions/sum_mean.py               | 10 +++++-----
 SciDataTool/Methods/DataND/_apply_operations.py |  4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index b8c4f39..12bcd6b 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -223,8 +223,8 @@ def integrate(values, ax_val, index, Nper, is_aper, is_phys, is_mean=False):
         shape = list(values.shape)
         if is_aper:
             # Integration of anti-periodic signal yields zero
-            shape0 = [s for ii, s in enumerate(shape) if ii != index]
-            values = np.zeros(shape0, dtype=values.dtype)
+            shape[index] = 1
+            values = np.zeros(shape, dtype=values.dtype)
         else:
             # Swap axis to always have integration axis on 1st position
             values = np.swapaxes(values, index, 0)
diff --git a/SciDataTool/Functions/sum_mean.py b/SciDataTool/Functions/sum_mean.py
index f84c518..56ca43a 100644
--- a/SciDataTool/Functions/sum_mean.py
+++ b/SciDataTool/Functions/sum_mean.py
@@ -27,8 +27,8 @@ def my_sum(values, index, Nper, is_aper, unit, is_fft, corr_unit="SI"):
     if is_aper:
         # Sum of anti-periodic signal yields zero
         shape = list(values.shape)
-        shape0 = [s for ii, s in enumerate(shape) if ii != index]
-        values = np.zeros(shape0, dtype=values.dtype)
+        shape[index] = 1
+        values = np.zeros(shape, dtype=values.dtype)
     else:
         # To sum dB or dBA
         if "dB" in unit:
@@ -86,8 +86,8 @@ def my_mean(values, ax_val, index, Nper, is_aper, is_phys, is_fft):
         if is_aper:
             # Average of anti-periodic signal yields zero
             shape = list(values.shape)
-            shape0 = [s for ii, s in enumerate(shape) if ii != index]
-            values = np.zeros(shape0, dtype=values.dtype)
+            shape[index] = 1
+            values = np.zeros(shape, dtype=values.dtype)
         else:
             if is_fft:  # No need to multiply by Nper in fft case
                 Nper = 1
@@ -95,7 +95,7 @@ def my_mean(values, ax_val, index, Nper, is_aper, is_phys, is_fft):
             if Nper is None:
                 # Set Nper to 1 in case of non-periodic axis
                 Nper = 1
-            values = Nper * np.nanmean(values, axis=index)
+            values = Nper * np.nanmean(values, axis=index, keepdims=True)
 
     return values
 
diff --git a/SciDataTool/Methods/DataND/_apply_operations.py b/SciDataTool/Methods/DataND/_apply_operations.py
index 672dfd5..10f2c51 100644
--- a/SciDataTool/Methods/DataND/_apply_operations.py
+++ b/SciDataTool/Methods/DataND/_apply_operations.py
@@ -58,10 +58,10 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
             is_fft = False
         # max over max axes
         if extension in "max":
-            values = nanmax(values, axis=index)
+            values = nanmax(values, axis=index, keepdims=True)
         # min over max axes
         elif extension in "min":
-            values = nanmin(values, axis=index)
+            values = nanmin(values, axis=index, keepdims=True)
         # sum over sum axes
         elif extension in "sum":
             values = my_sum(
-- 
2.43.0


From d8f6fc7f73858588a5d4b4223dba04c9a26334fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:16 +0000
Subject: [PATCH 09/93] fix: the arithmetic mean of a periodic axis is not
 multiplied by the number of periods

---
 SciDataTool/Functions/sum_mean.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/SciDataTool/Functions/sum_mean.py b/SciDataTool/Functions/sum_mean.py
index 56ca43a..f00cb61 100644
--- a/SciDataTool/Functions/sum_mean.py
+++ b/SciDataTool/Functions/sum_mean.py
@@ -89,13 +89,8 @@ def my_mean(values, ax_val, index, Nper, is_aper, is_phys, is_fft):
             shape[index] = 1
             values = np.zeros(shape, dtype=values.dtype)
         else:
-            if is_fft:  # No need to multiply by Nper in fft case
-                Nper = 1
-            # Take mean value multiplied by periodicity
-            if Nper is None:
-                # Set Nper to 1 in case of non-periodic axis
-                Nper = 1
-            values = Nper * np.nanmean(values, axis=index, keepdims=True)
+            # Mean value on one period is the mean value on the whole signal
+            values = np.nanmean(values, axis=index, keepdims=True)
 
     return values
 
-- 
2.43.0


From e0f4d241e3c099156e0eebac0945281e6e621f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:39 +0000
Subject: [PATCH 10/93] fix: reductions combined with an antiperiodic axis use
 the whole signal

The maximum and minimum of an antiperiodic axis ignored the opposite half.
A sum, mean or integral over an antiperiodic axis was zero even when combined
with a non linear reduction or a magnitude, which cancels the change of sign.
---
 .../Methods/DataND/_apply_operations.py       | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/SciDataTool/Methods/DataND/_apply_operations.py b/SciDataTool/Methods/DataND/_apply_operations.py
index 10f2c51..29160a8 100644
--- a/SciDataTool/Methods/DataND/_apply_operations.py
+++ b/SciDataTool/Methods/DataND/_apply_operations.py
@@ -13,6 +13,10 @@ from SciDataTool.Functions.sum_mean import (
     root_mean_square,
     root_sum_square,
 )
+from SciDataTool.Functions.symmetries import (
+    rebuild_symmetries,
+    rebuild_symmetries_axis,
+)
 
 
 def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
@@ -29,6 +33,30 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
         values of the field
     """
 
+    # Anti-periodicity is lost by non linear operations -> rebuild axes to reduce
+    rebuilt = []
+    reduced = [
+        axis
+        for axis in axes_list
+        if axis.extension in ["max", "min", "sum", "rss", "mean", "rms", "integrate"]
+    ]
+    if (
+        is_magnitude
+        or any(axis.extension in ["max", "min"] for axis in reduced)
+        or len(reduced) > 1
+        and any(axis.extension in ["rss", "rms"] for axis in reduced)
+    ):
+        for axis in reduced:
+            symmetries = self.axes[axis.index].symmetries
+            if "antiperiod" in symmetries and axis.name not in [
+                "freqs",
+                "frequency",
+                "wavenumber",
+            ]:
+                values = rebuild_symmetries(values, axis.index, symmetries)
+                axis.values = rebuild_symmetries_axis(axis.values, symmetries)
+                rebuilt.append(axis.index)
+
     # Take magnitude before summing
     if is_magnitude and "dB" not in unit:
         values = np_abs(values)
@@ -41,6 +69,8 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
         index = axis_requested.index
         if axis_requested.is_pattern:
             Nper, is_aper = None, None
+        elif index in rebuilt:
+            Nper, is_aper = 1, False
         else:
             Nper, is_aper = self.axes[index].get_periodicity()
         if axis_requested.name in ["time", "angle", "z"]:
-- 
2.43.0


From 0ab9f955171ed85580ee1414e91fd3074c06b701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:46 +0000
Subject: [PATCH 11/93] fix: sum and mean over a spectral axis are not
 cancelled by an antiperiod

---
 SciDataTool/Methods/DataND/_apply_operations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SciDataTool/Methods/DataND/_apply_operations.py b/SciDataTool/Methods/DataND/_apply_operations.py
index 29160a8..5951f23 100644
--- a/SciDataTool/Methods/DataND/_apply_operations.py
+++ b/SciDataTool/Methods/DataND/_apply_operations.py
@@ -84,6 +84,7 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
             is_freqs = False
         if axis_requested.name in ["freqs", "frequency", "wavenumber"]:
             is_fft = True
+            is_aper = False  # Symmetries do not apply to spectra
         else:
             is_fft = False
         # max over max axes
-- 
2.43.0


From 25d4f56c0636e3593c2f347b29580d6415010d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:54 +0000
Subject: [PATCH 12/93] fix: derivative at the first sample of an axis that
 does not start at zero

The point added before the axis was placed as if the axis started at zero.
---
 SciDataTool/Functions/derivation_integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index 12bcd6b..0166e5a 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -311,7 +311,7 @@ def derivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
                 # Create the full vector of axis values
                 ax_full = np.concatenate(
                     (
-                        np.array([ax_val[0] - ax_val[1]]),
+                        np.array([2 * ax_val[0] - ax_val[1]]),
                         ax_val,
                         np.array([ax_val[-1] + ax_val[1] - ax_val[0]]),
                     )
-- 
2.43.0


From 6400ba86d29895d671b0c64a922585ce942c2a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:54 +0000
Subject: [PATCH 13/93] fix: antiderivative at the first sample and of
 antiperiodic signals

The first sample received the integral over the whole period, and the
constant removed from an antiperiodic signal was the mean of half a period.
On an axis described by a pattern one sample was missing.
---
 SciDataTool/Functions/derivation_integration.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index 0166e5a..dd82dd9 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -64,13 +64,18 @@ def antiderivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
                 # in case of periodicity (respectively anti-periodicity)
                 values_full[-1, ...] = (-1) ** int(is_aper) * values[0, ...]
             # Anti-derivate along axis
-            values = np.roll(
-                scp_int.cumulative_trapezoid(values_full, x=ax_full, axis=0),
-                shift=1,
-                axis=0,
+            values = scp_int.cumulative_trapezoid(
+                values_full, x=ax_full, axis=0, initial=0
             )
-            # Integration constant is given by removing average value
-            values = values - np.mean(values, axis=0)
+            if is_aper:
+                # Integration constant makes the anti-derivate anti-periodic
+                values = values - values[-1, ...] / 2
+            if Nper is not None:
+                # Remove the point added to the axis
+                values = values[:-1, ...]
+            if not is_aper:
+                # Integration constant is given by removing average value
+                values = values - np.mean(values, axis=0)
             # Get N first values and swap axes back to origin
             values = np.swapaxes(values, 0, index)
 
-- 
2.43.0


From 174ed59d14441e10b92df2c4e4bba16d09bb81e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:59 +0000
Subject: [PATCH 14/93] fix: derivative and antiderivative keep the samples of
 a pattern axis

The derivative lost its first and last samples and the antiderivative was
rebuilt twice.
---
 SciDataTool/Functions/derivation_integration.py   | 7 +++++--
 SciDataTool/Methods/DataND/_rebuild_symmetries.py | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index dd82dd9..275d6ad 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -333,8 +333,11 @@ def derivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
                 values_full[0, ...] = (-1) ** int(is_aper) * values[-1, ...]
             # Derivate along axis
             values = np.gradient(values_full, ax_full, axis=0)
-            # Get N first values and swap axes back to origin
-            values = np.swapaxes(values[1:-1, ...], 0, index)
+            if values_full.shape[0] > ax_val.size:
+                # Remove the points added to the axis
+                values = values[1:-1, ...]
+            # Swap axes back to origin
+            values = np.swapaxes(values, 0, index)
 
         else:
             raise Exception("Cannot derivate along axis if axis size is 1")
diff --git a/SciDataTool/Methods/DataND/_rebuild_symmetries.py b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
index d5f1192..1344ab2 100644
--- a/SciDataTool/Methods/DataND/_rebuild_symmetries.py
+++ b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
@@ -40,6 +40,7 @@ def _rebuild_symmetries(
                     "integrate",
                     "integrate_local",
                     "derivate",
+                    "antiderivate",
                     "smallestperiod",
                 ]
                 and axis.indices is None
-- 
2.43.0


From e80c9705c30bc030ad9cd044819518496e0ee284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:11 +0000
Subject: [PATCH 15/93] fix: constant component of a spectrum whatever the
 origin and position of the time axis

The constant component was doubled when the time axis did not start at zero,
and the spectrum raised IndexError when another axis, stored before the time
axis, was not requested.
---
 SciDataTool/Functions/fft_functions.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 32239cf..777237f 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -289,17 +289,12 @@ def comp_fftn(values, axes_list, is_real=True):
         if is_onereal:
             values_FT = rfftn(values, axes=axes)
             # Do not multiply constant component by 2 (f=0)
-            if axes_list[axes[-1]].corr_values is not None:
-                freqs = axes_list[axes[-1]].corr_values
-            else:
-                freqs = axes_list[axes[-1]].values
-            if freqs[0] == 0:
-                slice_0 = take(values_FT, 0, axis=axes[-1])
+            slice_0 = take(values_FT, 0, axis=axes[-1])
+            slice_0 *= 0.5
+            if is_twice:
                 slice_0 *= 0.5
-                if is_twice:
-                    slice_0 *= 0.5
-                other_values = delete(values_FT, 0, axis=axes[-1])
-                values_FT = insert(other_values, 0, slice_0, axis=axes[-1])
+            other_values = delete(values_FT, 0, axis=axes[-1])
+            values_FT = insert(other_values, 0, slice_0, axis=axes[-1])
             values_FT2 = 2.0 * fftshift(values_FT, axes=axes[:-1]) / size
             if is_twice:
                 values_FT2 *= 2.0
-- 
2.43.0


From 87f38021ffb99be5f681f1f7da41bd46fb0026b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:53 +0000
Subject: [PATCH 16/93] fix: accept 64 bit numpy integers where integers and
 floats are expected

On platforms where numpy integers are 64 bits, a field with an angle axis
could not be converted to the frequency domain.
---
 SciDataTool/Classes/_check.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/SciDataTool/Classes/_check.py b/SciDataTool/Classes/_check.py
index 1e9389f..aec755c 100644
--- a/SciDataTool/Classes/_check.py
+++ b/SciDataTool/Classes/_check.py
@@ -1,4 +1,4 @@
-from numpy import array, empty, int32, squeeze, expand_dims
+from numpy import array, empty, integer, squeeze, expand_dims
 
 
 def set_array(obj, prop, value):
@@ -108,7 +108,7 @@ def check_type(var_name, value, expect_type, type_value):
     """
     if expect_type == "float":  # float variable can take int value
         if not (
-            (isinstance(value, int32) and not isinstance(value, bool))
+            (isinstance(value, integer) and not isinstance(value, bool))
             or (isinstance(value, int) and not isinstance(value, bool))
             or isinstance(value, float)
         ):
@@ -140,7 +140,7 @@ def check_type(var_name, value, expect_type, type_value):
             raise CheckTypeError(
                 "For " + var_name + " : Integer expected, " + type_value + " given"
             )
-    elif expect_type == "int" and type_value == "int32":
+    elif expect_type == "int" and type_value in ["int32", "int64"]:
         if value % 1 != 0:  # If not an Integer
             raise CheckTypeError(
                 "For " + var_name + " : Integer expected, " + type_value + " given"
@@ -262,7 +262,7 @@ def check_min(var_name, value, type_value, Vmin):
     """
     # Work only for number and matrix
     msg = "Check : You can't specify the min of variable of type " + type_value
-    assert type_value in ["ndarray", "int", "long", "float", "int32"], msg
+    assert type_value in ["ndarray", "int", "long", "float", "int32", "int64"], msg
     # For number
     if (isinstance(value, int) or isinstance(value, float)) and value < Vmin:
         raise CheckMinError(
@@ -302,7 +302,7 @@ def check_max(var_name, value, type_value, Vmax):
     """
     # Work only for number and matrix
     msg = "Check : You can't specify the max of variable of type " + type_value
-    assert type_value in ["ndarray", "int", "long", "float", "int32"], msg
+    assert type_value in ["ndarray", "int", "long", "float", "int32", "int64"], msg
     # For number
     if (isinstance(value, int) or isinstance(value, float)) and value > Vmax:
         raise CheckMaxError(
-- 
2.43.0


From 424d89d02ae5d6cb02a78c2ae4c8b6702602e519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:57 +0000
Subject: [PATCH 17/93] fix: angle axis deduced from an odd number of
 wavenumbers, or from two

The step of the angle was deduced from the last wavenumber as if the number
of wavenumbers was even.
---
 SciDataTool/Functions/fft_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 777237f..39a6a02 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -79,7 +79,7 @@ def comp_fft_time(freqs, is_angle, is_real):
             fs = freqs[-1] / (N_tot)
         else:
             N_tot = len(freqs)  # Number of samples
-            fs = freqs[-1] / (N_tot - 2)
+            fs = (freqs[1] - freqs[0]) / 2
         tf = 1 / (fs * 2)
         time = linspace(0, tf, N_tot, endpoint=False)
         # fsampt = freqs[-1] * 2.0
-- 
2.43.0


From 433d280ebc0e08c1087e5abba425b1375accd329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:35 +0000
Subject: [PATCH 18/93] fix: angular signal of a spectrum stored with negative
 wavenumbers

Without time axis, the wavenumbers of a real field were always read as one
sided: the order of the wavenumbers and the constant component were wrong.
---
 SciDataTool/Functions/fft_functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 39a6a02..25fe0ec 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -446,7 +446,12 @@ def comp_ifftn(values, axes_requ_list, is_real=True, axes_list=[]):
                 axes.append(axis.index)
                 shape.append(2 * (values.shape[axis.index] - 1))
                 is_onereal = True
-            elif is_real and axis.name == "angle" and "time" not in axis_names:
+            elif (
+                is_real
+                and axis.name == "angle"
+                and "time" not in axis_names
+                and min(axis.corr_values) >= 0
+            ):
                 axes.append(axis.index)
                 shape.append(values.shape[axis.index])
                 is_half = True
-- 
2.43.0


From e29b2db3fe792d7897d6cac6909048b837d2831f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:34 +0000
Subject: [PATCH 19/93] fix: wavenumbers requested on a non-uniform angle axis
 are converted to frequencies

As on a uniform axis, the direct Fourier sum needs wavenumbers divided by 2*pi.
---
 SciDataTool/Functions/fft_functions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 25fe0ec..7bb9f6a 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -223,9 +223,15 @@ def comp_fftn(values, axes_list, is_real=True):
             if axis.corr_values is not None and len(axis.corr_values) > 1:  # Timesteps
                 if not is_uniform(axis.corr_values):
                     is_non_uniform = True
+                    # Convert wavenumbers to frequencies if needed
+                    frequencies = (
+                        axis.input_data
+                        if axis.name == "freqs"
+                        else axis.input_data / (2 * pi)
+                    )
                     axes_dict_non_uniform[axis.index] = [
                         axis.corr_values,
-                        axis.input_data,
+                        frequencies,
                     ]
                     # Keep only interpolation data
                     axis.values = axis.input_data
-- 
2.43.0


From 275db59111f8882d162c55c70ff0b78f3a3f66da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:02 +0000
Subject: [PATCH 20/93] fix: spectrum over a regular time axis and requested
 wavenumbers

The wavenumbers were computed first, and the fft along time then ignored the
imaginary part of their result.
---
 SciDataTool/Functions/fft_functions.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 7bb9f6a..d012245 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -266,10 +266,6 @@ def comp_fftn(values, axes_list, is_real=True):
                     axis.values = axis.input_data
                     axis.input_data = None
 
-    # Apply DFT on non-uniform axes
-    if is_non_uniform:
-        values = nudftn(values, axes_dict=axes_dict_non_uniform)
-
     # Find other fft axes
     for axis in axes_list:
         if axis.index not in axes_dict_non_uniform:
@@ -316,6 +312,9 @@ def comp_fftn(values, axes_list, is_real=True):
             values_FT2 = fftshift(values_FT, axes=axes) / size
     else:
         values_FT2 = values
+    # Apply DFT on non-uniform axes (after the fft on real values)
+    if is_non_uniform:
+        values_FT2 = nudftn(values_FT2, axes_dict=axes_dict_non_uniform)
     return values_FT2
 
 
-- 
2.43.0


From 38da31f3a2f4c3eb595e64709b4abb8537f9c609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:51 +0000
Subject: [PATCH 21/93] fix: dimensions of the metre, gram and henry

Mass and length were exchanged for the gram and the metre, and the henry had
a wrong length: N/m^2 could not be converted to Pa, nor Wb/A to H.
---
 SciDataTool/Functions/conversions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 25c3cad..eef4882 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -44,7 +44,7 @@ unit_symbols = [
     ("Mx", 1.0e-8, (1, 2, -2, 0, 0, -1)),  # Maxwell
     ("Hz", 1.0, (0, 0, -1, 0, 0, 0)),  # Herz
     ("Pa", 1.0, (1, -1, -2, 0, 0, 0)),  # Pascal
-    ("g", 1.0e-3, (0, 1, 0, 0, 0, 0)),  # gram
+    ("g", 1.0e-3, (1, 0, 0, 0, 0, 0)),  # gram
     ("s", 1.0, (0, 0, 1, 0, 0, 0)),  # second
     ("h", 3600.0, (0, 0, 1, 0, 0, 0)),  # hour
     #    ("K",       1.0, (0,0,0,1,0,0)),   # Kelvin
@@ -57,8 +57,8 @@ unit_symbols = [
     ("G", 1.0e-4, (1, 0, -2, 0, 0, -1)),  # Gauss
     ("V", 1.0, (1, 2, -3, 0, 0, -1)),  # Volt
     ("F", 1.0, (-1, -2, 4, 0, 0, 2)),  # Farrad
-    ("H", 1.0, (1, -2, -2, 0, 0, -2)),  # Henry
-    ("m", 1.0, (1, 0, 0, 0, 0, 0)),  # meter
+    ("H", 1.0, (1, 2, -2, 0, 0, -2)),  # Henry
+    ("m", 1.0, (0, 1, 0, 0, 0, 0)),  # meter
 ]
 # Dictionnary of the prefixes and their values
 unit_prefixes = {
-- 
2.43.0


From aa41e1d0ae2b1b8e4d2348b4e9e46f7973a9eced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:32 +0000
Subject: [PATCH 22/93] fix: read units made of several symbols

Only one symbol of a product was read: Nm was converted as N, s^-1 as s, m*s
as ms, Gm as gauss, and everything after a second / was ignored, so that
units of different dimensions were accepted.
---
 SciDataTool/Functions/conversions.py | 73 +++++++++++++++-------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index eef4882..17b822c 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -89,23 +89,36 @@ unit_prefixes = {
 
 
 def get_dim_prefix(unit_str):
-    if unit_str == "":
-        unit_str = "dimless"
-    p = 1  # power of the unit
-    dim = None
-    for key in unit_symbols:
-        if key[0] in unit_str:
-            if unit_str.rsplit(key[0], 1)[1].isdigit():
-                p = int(unit_str.rsplit(key[0], 1)[1])
-            dim = [p * d for d in key[2]]
-            prefix_str = unit_str.rsplit(key[0], 1)[0]
-            if prefix_str in unit_prefixes.keys():
-                prefix = (unit_prefixes.get(prefix_str) * key[1]) ** p
-            else:
-                raise UnitError("Prefix " + prefix_str + " unknown")
-            break
-    if not dim:
-        raise UnitError("Unit " + unit_str + " unknown")
+    # Product of units with separators
+    factors = unit_str.replace("*", " ").replace(".", " ").split()
+    if len(factors) > 1:
+        return multiply_dim_prefix([get_dim_prefix(factor) for factor in factors])
+    unit_str = factors[0] if len(factors) == 1 else "dimless"
+    # Longest single unit at the beginning, multiplied by the others if any
+    for i in range(len(unit_str), 0, -1):
+        for key in unit_symbols:
+            if key[0] in unit_str[:i]:
+                prefix_str, power_str = unit_str[:i].rsplit(key[0], 1)
+                if prefix_str in unit_prefixes.keys() and (
+                    power_str == "" or power_str.lstrip("-").isdigit()
+                ):
+                    p = int(power_str) if power_str != "" else 1  # power of the unit
+                    dim = [p * d for d in key[2]]
+                    prefix = (unit_prefixes.get(prefix_str) * key[1]) ** p
+                    if i == len(unit_str):
+                        return (dim, prefix)
+                    return multiply_dim_prefix(
+                        [(dim, prefix), get_dim_prefix(unit_str[i:])]
+                    )
+    raise UnitError("Unit " + unit_str + " unknown")
+
+
+def multiply_dim_prefix(factors):
+    dim = [0, 0, 0, 0, 0, 0]
+    prefix = 1.0
+    for dim_factor, prefix_factor in factors:
+        dim = [d1 + d2 for d1, d2 in zip(dim, dim_factor)]
+        prefix = prefix * prefix_factor
     return (dim, prefix)
 
 
@@ -235,24 +248,18 @@ def convert(values, unit1, unit2):
         unit1_save = unit1
         unit2_save = unit2
         # Format the strings
-        unit1 = unit1.replace("*", "").replace(" ", "").replace("^", "")
-        unit2 = unit2.replace("*", "").replace(" ", "").replace("^", "")
+        unit1 = unit1.replace("^", "")
+        unit2 = unit2.replace("^", "")
         # Unit1 parsing
-        if "/" in unit1:
-            dim1_denom, prefix1_denom = get_dim_prefix(unit1.split("/")[1])
-            unit1 = unit1.split("/")[0]
-        else:
-            dim1_denom = [0, 0, 0, 0, 0, 0]
-            prefix1_denom = 1.0
-        dim1_num, prefix1_num = get_dim_prefix(unit1)
+        dim1_num, prefix1_num = get_dim_prefix(unit1.split("/")[0])
+        dim1_denom, prefix1_denom = multiply_dim_prefix(
+            [get_dim_prefix(denom) for denom in unit1.split("/")[1:]]
+        )
         # Unit2 parsing
-        if "/" in unit2:
-            dim2_denom, prefix2_denom = get_dim_prefix(unit2.split("/")[1])
-            unit2 = unit2.split("/")[0]
-        else:
-            dim2_denom = [0, 0, 0, 0, 0, 0]
-            prefix2_denom = 1.0
-        dim2_num, prefix2_num = get_dim_prefix(unit2)
+        dim2_num, prefix2_num = get_dim_prefix(unit2.split("/")[0])
+        dim2_denom, prefix2_denom = multiply_dim_prefix(
+            [get_dim_prefix(denom) for denom in unit2.split("/")[1:]]
+        )
         # Check compatibility
         dim1 = [i - j for i, j in zip(dim1_num, dim1_denom)]
         dim2 = [i - j for i, j in zip(dim2_num, dim2_denom)]
-- 
2.43.0


From bbc610d3ff6bf61373749e84f698507fe5453a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:19 +0000
Subject: [PATCH 23/93] fix: take the magnitude of the field before the
 A-weighting

get_along(..., unit="dBA") took the logarithm of complex or negative values.
---
 SciDataTool/Methods/DataND/_convert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_convert.py b/SciDataTool/Methods/DataND/_convert.py
index dfbb73e..3fdf40a 100644
--- a/SciDataTool/Methods/DataND/_convert.py
+++ b/SciDataTool/Methods/DataND/_convert.py
@@ -52,7 +52,7 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
                     axis_values = axis.values
                 index = axis.index
                 values = np.apply_along_axis(
-                    to_dBA, index, values, axis_values, self.unit, ref_value
+                    to_dBA, index, np.abs(values), axis_values, self.unit, ref_value
                 )
                 is_match = True
             elif axis.name == "frequency":
@@ -62,7 +62,7 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
                     axis_values = axis.corr_values
                 index = axis.index
                 values = np.apply_along_axis(
-                    to_dBA, index, values, axis_values, self.unit, ref_value
+                    to_dBA, index, np.abs(values), axis_values, self.unit, ref_value
                 )
                 is_match = True
         if not is_match:
@@ -73,7 +73,7 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
                 shape = values.shape
                 values = values.reshape(freqs.shape + shape[2:])
                 values = np.apply_along_axis(
-                    to_dBA, 0, values, freqs, self.unit, ref_value
+                    to_dBA, 0, np.abs(values), freqs, self.unit, ref_value
                 )
                 values = values.reshape(shape)
             else:
-- 
2.43.0


From 64b3a42d93891589cf3c76dc6b12f1f76df7470c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:37 +0000
Subject: [PATCH 24/93] fix: squeeze levels and octave bands after the
 conversion

The conversion refers to the frequency axis by its position among all axes.
Squeezing first moved or removed that axis when another one was dropped.
---
 SciDataTool/Methods/DataND/_convert.py            | 7 ++++---
 SciDataTool/Methods/DataND/get_magnitude_along.py | 7 +++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_convert.py b/SciDataTool/Methods/DataND/_convert.py
index 3fdf40a..01cb9de 100644
--- a/SciDataTool/Methods/DataND/_convert.py
+++ b/SciDataTool/Methods/DataND/_convert.py
@@ -22,9 +22,6 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
         values of the field
     """
 
-    if is_squeeze:
-        values = np.squeeze(values)
-
     if unit == self.unit or unit == "SI":
         if is_norm:
             try:
@@ -85,4 +82,8 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
     else:
         values = convert_unit(values, self.unit, unit)
 
+    # Squeeze last, as the A-weighting refers to the axes by their position
+    if is_squeeze:
+        values = np.squeeze(values)
+
     return values
diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index 47b9efe..52b5c60 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -1,7 +1,7 @@
 from SciDataTool.Functions import AxisError, NormError, UnitError
 from SciDataTool.Functions.conversions import convert, to_dB, to_dBA, to_noct
 from SciDataTool.Functions.fix_axes_order import fix_axes_order
-from numpy import apply_along_axis, add, take
+from numpy import apply_along_axis, add, squeeze, take
 
 
 def get_magnitude_along(
@@ -167,7 +167,7 @@ def get_magnitude_along(
         return_dict = self.get_along(
             *args,
             axis_data=axis_data,
-            is_squeeze=is_squeeze,
+            is_squeeze=False,
             is_magnitude=True,
             corr_unit=corr_unit,
         )
@@ -282,5 +282,8 @@ def get_magnitude_along(
             values = self.normalizations.get(unit).normalize(values)
         else:
             values = convert(values, self.unit, unit)
+        # Squeeze last, as octave bands and A-weighting use the axes positions
+        if is_squeeze:
+            values = squeeze(values)
         return_dict[self.symbol] = values
         return return_dict
-- 
2.43.0


From 55fb8bc86797ae15f9624cd7438cd3e14cb961ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:43 +0000
Subject: [PATCH 25/93] fix: octave bands of a field with several axes

The values and the centre frequencies were unpacked along the wrong axis.
---
 SciDataTool/Methods/DataND/get_magnitude_along.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index 52b5c60..55e542c 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -178,8 +178,10 @@ def get_magnitude_along(
             if axis.name == "freqs" or axis.corr_name == "freqs":
                 index = axis.index
                 if axis.noct is not None:
-                    (values, foct) = apply_along_axis(
-                        to_noct, index, values, return_dict["freqs"], noct=axis.noct
+                    freqs = return_dict["freqs"]
+                    foct = to_noct(freqs, freqs, noct=axis.noct)[1]
+                    values = apply_along_axis(
+                        lambda x: to_noct(x, freqs, noct=axis.noct)[0], index, values
                     )
                     return_dict[axis.name] = foct
         # Convert into right unit (apart because of dBA conversion)
-- 
2.43.0


From c0b374585f0f119a406e69021c5a5d9f9e479677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:48 +0000
Subject: [PATCH 26/93] fix: upper limit of the last octave band

The last band was empty: its upper limit was its lower limit.
---
 SciDataTool/Functions/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 17b822c..1ef6f06 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -447,7 +447,7 @@ def to_noct(values, freqs, noct=3):
     f_oct = comp_nthoctave_axis(noct, freqs[0], freqs[-1])
     # Compute sum over each interval
     freqbds = [f / (2 ** (1.0 / (2.0 * noct))) for f in f_oct]
-    freqbds.append(freqbds[-1])
+    freqbds.append(f_oct[-1] * (2 ** (1.0 / (2.0 * noct))))
     # freqbds = [0] + f_oct
     values_oct = []
     N = zeros(len(freqbds) - 1)
-- 
2.43.0


From d6e21a0ad2b224adb2b208c54217f08121fb7555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:05 +0000
Subject: [PATCH 27/93] fix: centre frequencies of 1/n octave bands

For n other than 1 and 3 the computation never ended from 0 Hz, failed when
all frequencies are below 1 kHz and kept bands below the first frequency.
---
 SciDataTool/Functions/fft_functions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index d012245..0a07f9e 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -165,13 +165,14 @@ def comp_nthoctave_axis(noct, freqmin, freqmax):
             f = f0 * 2.0 ** (i / noct)
             f_oct.append(0.5 * ceil(2.0 * f))
             i = i + 1
-        f_oct = f_oct[:-1]
         i = -1
         while f_oct[0] > freqmin:
-            f = f0 * 2.0 ** (i / noct)
-            f_oct = [0.5 * ceil(2.0 * f)] + f_oct
+            f = 0.5 * ceil(2.0 * f0 * 2.0 ** (i / noct))
+            if f == f_oct[0]:
+                break  # Bands cannot be told apart below the rounding
+            f_oct = [f] + f_oct
             i = i - 1
-        f_oct = f_oct[1:]
+        f_oct = [f for f in f_oct if (f >= freqmin and f <= freqmax)]
     return f_oct
 
 
-- 
2.43.0


From 51d8406618bba5d33aa1891f0aa90f14b8e4dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:11 +0000
Subject: [PATCH 28/93] fix: frequencies of the orders of a rotating machine

The frequency of an order is speed / 60 * order, the quotient was inverted.
---
 SciDataTool/Methods/DataND/_get_freqs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_get_freqs.py b/SciDataTool/Methods/DataND/_get_freqs.py
index 71b7437..b8252dd 100644
--- a/SciDataTool/Methods/DataND/_get_freqs.py
+++ b/SciDataTool/Methods/DataND/_get_freqs.py
@@ -27,7 +27,7 @@ def _get_freqs(self):
     elif "frequency" in axis_names:
         index = axis_names.index("frequency")
     elif "time" in axis_names:
-        index = axis_names.index("frequency")
+        index = axis_names.index("time")
         operation = "time_to_freqs"
     elif "speed" in axis_names and "order" in axis_names:
         index_speed = axis_names.index("speed")
@@ -45,7 +45,7 @@ def _get_freqs(self):
 
     if index is not None:
         freqs = self.get_axes()[index].get_values(operation=operation)
-    else:  # f = speed * 60 / order
+    else:  # f = speed / 60 * order
         if is_norm:
             normalization = "speed"
         else:
@@ -54,6 +54,6 @@ def _get_freqs(self):
         order_strings = self.get_axes()[index_order].get_values().tolist()
         orders = array([int(s.split(";")[0].replace("H", "")) for s in order_strings])
         os, so = meshgrid(orders, speed)
-        freqs = so * 60 / os
+        freqs = so / 60 * os
 
     return freqs
-- 
2.43.0


From f827fd446265590960924255f68c2614edf4b709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:16 +0000
Subject: [PATCH 29/93] fix: to_dB changed the array it was given

---
 SciDataTool/Functions/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 1ef6f06..43f0ef5 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -290,7 +290,7 @@ def to_dB(values, unit, ref_value=1.0):
     """
     if ref_value != 1:
         if isinstance(values, ndarray):
-            values[values < ref_value] = ref_value
+            values = where(values < ref_value, ref_value, values)
         else:
             if values < ref_value:
                 values = ref_value
-- 
2.43.0


From d8dc2dd7bb4b35fd37db0c21ee06e5126b7d3231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:30 +0000
Subject: [PATCH 30/93] fix: dB_to_dBA returned nothing for octave bands

---
 SciDataTool/Functions/conversions.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 43f0ef5..fac52c2 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -408,8 +408,7 @@ def dB_to_dBA(values, freqs, noct=None):
             -6.6,
             -9.3,
         ]
-        mask = argwhere(freqs in freqs_ref)
-        Aweight = take(Aweight, mask)
+        Aweight = array([Aweight[freqs_ref.index(f)] for f in freqs])
     else:
         freq2 = square(freqs)
         freq2[freq2 == 0] = nan
@@ -424,8 +423,8 @@ def dB_to_dBA(values, freqs, noct=None):
         )
         Aweight = 2.0 + 20.0 * log10(RA)
         Aweight[isnan(Aweight)] = -100  # replacing NaN by -100 dB
-        values_dBA = values + Aweight
-        return values_dBA
+    values_dBA = values + Aweight
+    return values_dBA
 
 
 def to_noct(values, freqs, noct=3):
-- 
2.43.0


From 7ad727b2a1b466ea2b18303f1e0fc80dd5685e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:34 +0000
Subject: [PATCH 31/93] fix: A-weighting of a normalized or partly requested
 frequency axis

The weights were computed from the whole stored axis instead of the
frequencies of the requested lines, and from the time values for a signal
stored in time.
---
 SciDataTool/Functions/comp_requested_freqs.py | 38 ++++++++++++++
 SciDataTool/Methods/DataND/_convert.py        | 24 ++-------
 .../Methods/DataND/get_magnitude_along.py     | 49 +++++--------------
 3 files changed, 54 insertions(+), 57 deletions(-)
 create mode 100644 SciDataTool/Functions/comp_requested_freqs.py

diff --git a/SciDataTool/Functions/comp_requested_freqs.py b/SciDataTool/Functions/comp_requested_freqs.py
new file mode 100644
index 0000000..d4602f8
--- /dev/null
+++ b/SciDataTool/Functions/comp_requested_freqs.py
@@ -0,0 +1,38 @@
+from numpy import argsort, array, interp
+
+
+def comp_requested_freqs(axis_requested, axis, is_real=True):
+    """Computes the frequencies [Hz] of a requested frequency axis, which may be
+    expressed in another unit or with a normalization
+    Parameters
+    ----------
+    axis_requested: RequestedAxis
+        the requested axis
+    axis: Axis
+        the corresponding axis of the field
+    is_real: bool
+        True if the field is real
+    Returns
+    -------
+    Frequency vector
+    """
+    unit_freqs = "SI" if axis_requested.corr_unit in ["SI", "", "Hz"] else "Hz"
+    if axis_requested.unit in [unit_freqs, "Hz"]:
+        return array(axis_requested.values)
+    # Values of the whole axis, in the requested unit and in Hz
+    is_fft = axis_requested.operation is not None
+    values, freqs = [
+        array(
+            axis.get_values(
+                is_oneperiod=is_fft,
+                is_smallestperiod=not is_fft,
+                unit=unit,
+                operation=axis_requested.operation,
+                is_real=is_real,
+                corr_unit=axis_requested.corr_unit,
+            )
+        )
+        for unit in [axis_requested.unit, unit_freqs]
+    ]
+    indices = argsort(values)
+    return interp(axis_requested.values, values[indices], freqs[indices])
diff --git a/SciDataTool/Methods/DataND/_convert.py b/SciDataTool/Methods/DataND/_convert.py
index 01cb9de..53e41aa 100644
--- a/SciDataTool/Methods/DataND/_convert.py
+++ b/SciDataTool/Methods/DataND/_convert.py
@@ -2,6 +2,7 @@ import numpy as np
 
 from SciDataTool.Functions import NormError, UnitError
 from SciDataTool.Functions.conversions import convert as convert_unit, to_dB, to_dBA
+from SciDataTool.Functions.comp_requested_freqs import comp_requested_freqs
 
 
 def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
@@ -39,27 +40,10 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
             ref_value *= self.normalizations["ref"].ref
         is_match = False
         for axis in axes_list:
-            if axis.name == "freqs" or axis.corr_name == "freqs":
-                if axis.corr_values is not None and axis.unit not in [
-                    "SI",
-                    axis.corr_unit,
-                ]:
-                    axis_values = axis.corr_values
-                else:
-                    axis_values = axis.values
-                index = axis.index
+            if axis.name in ["freqs", "frequency"]:
+                freqs = comp_requested_freqs(axis, self.axes[axis.index], self.is_real)
                 values = np.apply_along_axis(
-                    to_dBA, index, np.abs(values), axis_values, self.unit, ref_value
-                )
-                is_match = True
-            elif axis.name == "frequency":
-                if axis.corr_values is None:
-                    axis_values = axis.values
-                else:
-                    axis_values = axis.corr_values
-                index = axis.index
-                values = np.apply_along_axis(
-                    to_dBA, index, np.abs(values), axis_values, self.unit, ref_value
+                    to_dBA, axis.index, np.abs(values), freqs, self.unit, ref_value
                 )
                 is_match = True
         if not is_match:
diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index 55e542c..b8669d0 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -1,5 +1,6 @@
 from SciDataTool.Functions import AxisError, NormError, UnitError
 from SciDataTool.Functions.conversions import convert, to_dB, to_dBA, to_noct
+from SciDataTool.Functions.comp_requested_freqs import comp_requested_freqs
 from SciDataTool.Functions.fix_axes_order import fix_axes_order
 from numpy import apply_along_axis, add, squeeze, take
 
@@ -228,44 +229,18 @@ def get_magnitude_along(
                 )
                 values = apply_along_axis(add, 0, values, A_weight)
                 values = values.reshape(shape)
-            elif "freqs" in return_dict.keys():
+            elif "freqs" in return_dict.keys() or "frequency" in return_dict.keys():
                 for axis in return_dict["axes_list"]:
-                    if axis.name == "freqs" or axis.corr_name == "freqs":
-                        index = axis.index
-                else:
-                    if return_dict["axes_list"][
-                        index
-                    ].corr_values is not None and return_dict["axes_list"][
-                        index
-                    ].unit not in [
-                        "SI",
-                        return_dict["axes_list"][index].corr_unit,
-                    ]:
-                        freqs = return_dict["axes_list"][index].corr_values
-                    else:
-                        freqs = return_dict["freqs"]
-                values = apply_along_axis(
-                    to_dBA, index, values, freqs, self.unit, ref_value
-                )
-            elif "frequency" in return_dict.keys():
-                for axis in return_dict["axes_list"]:
-                    if axis.name == "frequency" or axis.corr_name == "frequency":
-                        index = axis.index
-                else:
-                    if return_dict["axes_list"][
-                        index
-                    ].corr_values is not None and return_dict["axes_list"][
-                        index
-                    ].unit not in [
-                        "SI",
-                        return_dict["axes_list"][index].corr_unit,
-                    ]:
-                        freqs = return_dict["axes_list"][index].corr_values
-                    else:
-                        freqs = return_dict["frequency"]
-                values = apply_along_axis(
-                    to_dBA, index, values, freqs, self.unit, ref_value
-                )
+                    if axis.name in ["freqs", "frequency"]:
+                        if axis.noct is not None:
+                            freqs = return_dict[axis.name]
+                        else:
+                            freqs = comp_requested_freqs(
+                                axis, self.axes[axis.index], self.is_real
+                            )
+                        values = apply_along_axis(
+                            to_dBA, axis.index, values, freqs, self.unit, ref_value
+                        )
             elif "order" in return_dict:
                 freqs = self._get_freqs()
                 freqs = freqs.ravel("C")
-- 
2.43.0


From f27fa0c6a87e1c69a0780d285d2daf57f9ae5755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:38 +0000
Subject: [PATCH 32/93] fix: A-weighting of integer frequencies

The frequency 0 is marked with NaN, which an integer array cannot hold.
---
 SciDataTool/Functions/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index fac52c2..e6a31b1 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -410,7 +410,7 @@ def dB_to_dBA(values, freqs, noct=None):
         ]
         Aweight = array([Aweight[freqs_ref.index(f)] for f in freqs])
     else:
-        freq2 = square(freqs)
+        freq2 = square(array(freqs, dtype=float))
         freq2[freq2 == 0] = nan
         RA = (
             12200.0 ** 2
-- 
2.43.0


From 869ef6283c16e3e4c644a8ef891a6740007da1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:03 +0000
Subject: [PATCH 33/93] fix: dimensions of the field returned by get_data_along

The values kept one dimension of length 1 for every axis which is reduced or
not requested, so that they did not match the axes of the new object.
---
 SciDataTool/Methods/DataND/get_data_along.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SciDataTool/Methods/DataND/get_data_along.py b/SciDataTool/Methods/DataND/get_data_along.py
index cfb4e2f..c55f0c7 100644
--- a/SciDataTool/Methods/DataND/get_data_along.py
+++ b/SciDataTool/Methods/DataND/get_data_along.py
@@ -1,3 +1,5 @@
+from numpy import squeeze
+
 from SciDataTool import Data1D
 from SciDataTool.Functions import axes_dict, rev_axes_dict
 from SciDataTool.Functions.conversions import get_unit_derivate, get_unit_integrate
@@ -33,6 +35,9 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     values = results.pop(self.symbol)
     del results["axes_dict_other"]
     axes_list = results.pop("axes_list")
+    # Remove the dimensions of the axes which are not requested or are reduced
+    kept = [a.index for a in axes_list if not isinstance(results[a.name], str)]
+    values = squeeze(values, tuple(i for i in range(values.ndim) if i not in kept))
     Axes = []
 
     axes_name_new = list(results.keys())
-- 
2.43.0


From b6b33712b4d6dd934b6b74efb13bc6888fb3e122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:32 +0000
Subject: [PATCH 34/93] fix: get_data_along with fewer arguments than axes

The arguments were looked up with the position of the axis in the field,
which is another one when an axis is not requested or the order differs.
---
 SciDataTool/Methods/DataND/get_data_along.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_data_along.py b/SciDataTool/Methods/DataND/get_data_along.py
index c55f0c7..45f1d3c 100644
--- a/SciDataTool/Methods/DataND/get_data_along.py
+++ b/SciDataTool/Methods/DataND/get_data_along.py
@@ -76,15 +76,11 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
                         axis_values = results[axis_name]
                         ax_unit = rev_axes_dict[axis_name][2]
             # Update symmetries
+            requested = [a for a in axes_list if a.name == axis_name][0]
             if (
-                "smallestperiod" in args[index]
-                or args[index]
-                in [
-                    "freqs",
-                    "wavenumber",
-                ]
-                or "antiderivate" in args[index]
-                or "derivate" in args[index]
+                requested.extension in ["smallestperiod", "antiderivate", "derivate"]
+                or axis_name in ["freqs", "wavenumber"]
+                and requested.extension == "whole"
             ):
                 symmetries = self.axes[index].symmetries.copy()
             else:
-- 
2.43.0


From 64017af945a3822e54e0d7d45bcdb74da03ba034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:32 +0000
Subject: [PATCH 35/93] fix: sum of levels over the frequencies

The other requested axes were reduced to their first value, and the sum over
the spectrum of a time signal was not a sum of energies.
---
 .../Methods/DataND/get_magnitude_along.py       | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index b8669d0..e300deb 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -51,9 +51,12 @@ def get_magnitude_along(
                 freq_name = axis.name
         if freq_name is not None:
             for i, arg in enumerate(args):
-                if freq_name in arg:
-                    if "sum" in arg or "rss" in arg:
-                        new_args[i] = freq_name
+                for name in [freq_name, "freqs"]:
+                    if arg.split("=")[0] == name and arg.split("=")[-1] in [
+                        "sum",
+                        "rss",
+                    ]:
+                        new_args[i] = name
                         index_freq = i
             if index_freq is None:  # No sum on freqs axis -> can extract directly
                 return self.get_magnitude_along(
@@ -67,8 +70,14 @@ def get_magnitude_along(
                 data = self.get_data_along(
                     *new_args, axis_data=axis_data, unit=unit
                 )  # Extract first along freqs axis
+                # Other axes are kept as extracted
+                other_args = [
+                    axis.name + ("[smallestperiod]" if axis.symmetries else "")
+                    for axis in data.axes
+                    if axis.name != new_args[index_freq]
+                ]
                 return data.get_magnitude_along(
-                    *[args[index_freq]],
+                    *[args[index_freq]] + other_args,
                     axis_data=axis_data,
                     unit=unit,
                     is_squeeze=is_squeeze,
-- 
2.43.0


From eedb075544c7169396eff3f4446a10c225a6c5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:55 +0000
Subject: [PATCH 36/93] fix: octave bands of a field whose first line is zero

The bands of a zero spectrum were integers, to which the bands of the
other spectra of the same field were then truncated.
---
 SciDataTool/Functions/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index e6a31b1..b177611 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -463,7 +463,7 @@ def to_noct(values, freqs, noct=3):
                 values_oct.append(0)
             else:
                 values_oct.append(sqrt(np_sum(values2 ** 2)))
-    values = array(values_oct)
+    values = array(values_oct, dtype=float)
     # Apply bin correction factor for when centre frequencies are not integer
     # multiples of the bandwicth (BW)
     df_fft = freqs[1] - freqs[0]
-- 
2.43.0


From e26827819d1993716223311555a7b44eec351534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:08 +0000
Subject: [PATCH 37/93] fix: vector normalization of one period of an
 antiperiodic axis

The vector was not continued as the axis is, and the request was refused.
The axis is no longer changed temporarily while it is read.
---
 SciDataTool/Methods/Data1D/get_values.py      | 37 +++++++------------
 .../Methods/DataLinspace/get_values.py        | 37 +++++++------------
 2 files changed, 26 insertions(+), 48 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/get_values.py b/SciDataTool/Methods/Data1D/get_values.py
index d691c22..504246e 100644
--- a/SciDataTool/Methods/Data1D/get_values.py
+++ b/SciDataTool/Methods/Data1D/get_values.py
@@ -50,7 +50,7 @@ def get_values(
             unit = "SI"
 
     values = self.values
-    norm_vector = None
+    symmetries = None
 
     # Ignore symmetries if fft axis
     if self.name == "freqs" or self.name == "wavenumber":
@@ -66,26 +66,15 @@ def get_values(
             raise AxisError("axis has no antiperiodicity")
     elif is_oneperiod:
         if "antiperiod" in self.symmetries:
-            nper = self.symmetries["antiperiod"]
-            self.symmetries["antiperiod"] = 2
-            values = rebuild_symmetries_axis(values, self.symmetries)
-            self.symmetries["antiperiod"] = nper
-            pass
+            symmetries = dict(self.symmetries, antiperiod=2)
         elif "period" in self.symmetries:
             pass
         else:
             pass
     else:
-        values = rebuild_symmetries_axis(values, self.symmetries)
-        if (
-            normalization is not None
-            and normalization in self.normalizations
-            and isinstance(self.normalizations[normalization], Norm_vector)
-        ):
-            norm_vector = self.normalizations[normalization].vector.copy()
-            self.normalizations[normalization].vector = rebuild_symmetries_axis(
-                norm_vector, self.symmetries
-            )
+        symmetries = self.symmetries
+    if symmetries is not None:
+        values = rebuild_symmetries_axis(values, symmetries)
 
     # fft/ifft
     if operation is not None:
@@ -103,12 +92,15 @@ def get_values(
     # Normalization
     if normalization is not None:
         if normalization in self.normalizations:
-            if (
-                self.normalizations[normalization].unit == "SI"
-                or self.normalizations[normalization].unit == self.unit
-            ):
+            norm = self.normalizations[normalization]
+            if norm.unit == "SI" or norm.unit == self.unit:
+                if symmetries is not None and isinstance(norm, Norm_vector):
+                    # The vector follows the symmetries of the axis
+                    norm = Norm_vector(
+                        vector=rebuild_symmetries_axis(norm.vector, symmetries)
+                    )
                 # Axis is in the correct unit for the normalization
-                values = self.normalizations[normalization].normalize(values)
+                values = norm.normalize(values)
             else:
                 raise NormError("Normalization is not available in this unit")
         else:
@@ -121,7 +113,4 @@ def get_values(
         else:
             values = convert(values, self.unit, unit)
 
-    if norm_vector is not None:
-        self.normalizations[normalization].vector = norm_vector
-
     return values
diff --git a/SciDataTool/Methods/DataLinspace/get_values.py b/SciDataTool/Methods/DataLinspace/get_values.py
index ab49789..0cc9e02 100644
--- a/SciDataTool/Methods/DataLinspace/get_values.py
+++ b/SciDataTool/Methods/DataLinspace/get_values.py
@@ -61,7 +61,7 @@ def get_values(
         final = self.final
     values = linspace(initial, final, int(number), endpoint=self.include_endpoint)
 
-    norm_vector = None
+    symmetries = None
 
     # Ignore symmetries if fft axis
     if self.name == "freqs" or self.name == "wavenumber":
@@ -77,26 +77,15 @@ def get_values(
             raise AxisError("axis has no antiperiodicity")
     elif is_oneperiod:
         if "antiperiod" in self.symmetries:
-            nper = self.symmetries["antiperiod"]
-            self.symmetries["antiperiod"] = 2
-            values = rebuild_symmetries_axis(values, self.symmetries)
-            self.symmetries["antiperiod"] = nper
-            pass
+            symmetries = dict(self.symmetries, antiperiod=2)
         elif "period" in self.symmetries:
             pass
         else:
             pass
     else:
-        values = rebuild_symmetries_axis(values, self.symmetries)
-        if (
-            normalization is not None
-            and normalization in self.normalizations
-            and isinstance(self.normalizations[normalization], Norm_vector)
-        ):
-            norm_vector = self.normalizations[normalization].vector.copy()
-            self.normalizations[normalization].vector = rebuild_symmetries_axis(
-                norm_vector, self.symmetries
-            )
+        symmetries = self.symmetries
+    if symmetries is not None:
+        values = rebuild_symmetries_axis(values, symmetries)
 
     # fft/ifft
     if operation is not None:
@@ -114,12 +103,15 @@ def get_values(
     # Normalization
     if normalization is not None:
         if normalization in self.normalizations:
-            if (
-                self.normalizations[normalization].unit == "SI"
-                or self.normalizations[normalization].unit == self.unit
-            ):
+            norm = self.normalizations[normalization]
+            if norm.unit == "SI" or norm.unit == self.unit:
+                if symmetries is not None and isinstance(norm, Norm_vector):
+                    # The vector follows the symmetries of the axis
+                    norm = Norm_vector(
+                        vector=rebuild_symmetries_axis(norm.vector, symmetries)
+                    )
                 # Axis is in the correct unit for the normalization
-                values = self.normalizations[normalization].normalize(values)
+                values = norm.normalize(values)
             else:
                 raise NormError("Normalization is not available in this unit")
         else:
@@ -132,7 +124,4 @@ def get_values(
         else:
             values = convert(values, self.unit, unit)
 
-    if norm_vector is not None:
-        self.normalizations[normalization].vector = norm_vector
-
     return values
-- 
2.43.0


From 02cd812bf6b33772a200e981996103a42afb445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:44 +0000
Subject: [PATCH 38/93] fix: change of coordinates when the angle is not the
 second axis

cart2pol and pol2cart multiplied by the angles along the second dimension,
whatever the position of the angle axis, and cart2pol failed on a field of
one axis. The dimension of the angle axis is now an argument.
---
 SciDataTool/Functions/conversions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index b177611..836e7e6 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -616,12 +616,13 @@ def rphi_to_xy(r, phi):
     return (x, y)
 
 
-def cart2pol(field_x, field_y, phi):
+def cart2pol(field_x, field_y, phi, axis=1):
     cos_phi = cos(phi)
     sin_phi = sin(phi)
 
+    # Dimension of the angle axis
     dim_array = ones((1, field_x.ndim), int).ravel()
-    dim_array[1] = -1
+    dim_array[axis if field_x.ndim > 1 else 0] = -1
 
     # Reshape b with dim_array and perform elementwise multiplication with
     # broadcasting along the singleton dimensions for the final output
@@ -634,13 +635,14 @@ def cart2pol(field_x, field_y, phi):
     return (field_r, field_phi)
 
 
-def pol2cart(field_r, field_phi, phi):
+def pol2cart(field_r, field_phi, phi, axis=1):
     cos_phi = cos(phi)
     sin_phi = sin(phi)
 
     dim_array = ones((1, field_r.ndim), int).ravel()
     if len(dim_array) > 1:
-        dim_array[1] = -1
+        # Dimension of the angle axis
+        dim_array[axis] = -1
 
         # Reshape b with dim_array and perform elementwise multiplication with
         # broadcasting along the singleton dimensions for the final output
-- 
2.43.0


From f646081528e4007ba4b8101538d4327b7c1e969c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:44 +0000
Subject: [PATCH 39/93] fix: cartesian and cylindrical components of a vector
 field

The request was extracted twice: selections and units were applied two
times, missing components failed, the angle axis had to be the second one,
and components were rebuilt with symmetries they do not have. Components
are now converted on the samples of the angle axis, other axes being kept
as stored, and the request is then extracted once.
---
 SciDataTool/Functions/get_angle_data.py       |  47 ++++++++
 .../Methods/VectorField/get_rphiz_along.py    |  90 +++++----------
 .../Methods/VectorField/get_xyz_along.py      | 103 ++++++------------
 3 files changed, 110 insertions(+), 130 deletions(-)
 create mode 100644 SciDataTool/Functions/get_angle_data.py

diff --git a/SciDataTool/Functions/get_angle_data.py b/SciDataTool/Functions/get_angle_data.py
new file mode 100644
index 0000000..bf18229
--- /dev/null
+++ b/SciDataTool/Functions/get_angle_data.py
@@ -0,0 +1,47 @@
+from SciDataTool.Functions.Load.import_class import import_class
+
+
+def get_angle_data(data, args):
+    """Returns a copy of a component of a vector field stored on the requested samples of the angle axis,
+    and the dimension of this axis (the other axes are kept as they are stored)
+    Parameters
+    ----------
+    data: DataND
+        a component of the vector field
+    args: tuple of strings
+        List of axes requested by the user
+    Returns
+    -------
+    DataND object, index of the angle axis
+    """
+    # The cartesian components do not have the symmetries of the cylindrical ones (and conversely),
+    # so that the whole axis is needed unless a part of it is requested
+    extension = ""
+    for arg in args:
+        for ext in ["[smallestperiod]", "[antiperiod]", "[oneperiod]"]:
+            if arg.startswith("angle") and ext in arg:
+                extension = ext
+
+    index = None
+    names = []
+    for i, axis in enumerate(data.axes):
+        if axis.name in ["angle", "wavenumber"]:
+            index = i
+            names.append("angle" + extension)
+        elif axis.name == "freqs":
+            names.append("freqs")
+        else:
+            names.append(axis.name + "[smallestperiod]")
+    result = data.get_along(*names, is_squeeze=False)
+
+    Data1D = import_class("SciDataTool.Classes", "Data1D")
+    new_data = data.copy()
+    new_data.axes[index] = Data1D(
+        name="angle",
+        unit="rad",
+        values=result["angle"],
+        is_components=data.axes[index].is_components,
+        normalizations=data.axes[index].normalizations.copy(),
+    )
+    new_data.values = result[data.symbol]
+    return new_data, index
diff --git a/SciDataTool/Methods/VectorField/get_rphiz_along.py b/SciDataTool/Methods/VectorField/get_rphiz_along.py
index 3a733a8..4d6bd59 100644
--- a/SciDataTool/Methods/VectorField/get_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_rphiz_along.py
@@ -1,6 +1,7 @@
-from numpy import zeros
+from numpy import zeros, zeros_like
 
 from SciDataTool.Functions.conversions import cart2pol
+from SciDataTool.Functions.get_angle_data import get_angle_data
 from SciDataTool.Functions import AxisError
 
 
@@ -28,72 +29,41 @@ def get_rphiz_along(
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "comp_x" in self.components.keys() and "comp_y" in self.components.keys():
-        # Extract first along whole or smallest period "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != [] and "smallestperiod" not in string[0]:
-            new_args[args.index(string[0])] = "angle"
-        elif string == []:
-            if "wavenumber" in args:
-                new_args[args.index("wavenumber")] = "angle"
-            else:
-                new_args.extend(["angle"])
-        Datax = self.components["comp_x"].get_data_along(
-            *new_args,
+    if "comp_x" in self.components.keys() or "comp_y" in self.components.keys():
+        # Extract first along the angle axis
+        if "comp_x" in self.components.keys():
+            Datax, axis = get_angle_data(self.components["comp_x"], args)
+        if "comp_y" in self.components.keys():
+            Datay, axis = get_angle_data(self.components["comp_y"], args)
+            if "comp_x" not in self.components.keys():
+                Datax = Datay.copy()
+                Datax.values = zeros_like(Datay.values)
+        else:
+            Datay = Datax.copy()
+            Datay.values = zeros_like(Datax.values)
+        phi = Datax.axes[axis].get_values()
+        # Convert to cylindrical coordinates
+        (Datax.values, Datay.values) = cart2pol(
+            Datax.values, Datay.values, phi, axis=axis
+        )
+        # Extract second time with true args
+        resultr = Datax.get_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
+            is_squeeze=is_squeeze,
         )
-        Datay = self.components["comp_y"].get_data_along(
-            *new_args,
+        field_r = resultr[Datax.symbol]
+        shape = field_r.shape
+        resultt = Datay.get_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
+            is_squeeze=is_squeeze,
         )
-        field_x = Datax.values
-        field_y = Datay.values
-        shape = field_x.shape
-        if string != [] and "smallestperiod" in string[0]:
-            phi = Datax.get_axes("angle")[0].get_values(is_smallestperiod=True)
-        else:
-            phi = Datax.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_r, field_c) = cart2pol(field_x, field_y, phi)
-        # Extract second time with true args
-        if "angle" not in args and "angle[smallestperiod]" not in args:
-            Datax.values = field_r
-            Datay.values = field_c
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_c = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
-        else:
-            # Need return dict to initialize results
-            resultr = self.components["comp_x"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
+        field_c = resultt[Datay.symbol]
         # Add axial component
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_along(
@@ -116,7 +86,7 @@ def get_rphiz_along(
         else:
             field_z = zeros(shape)
         return_dict = dict(resultr)
-        del return_dict[self.components["comp_x"].symbol]
+        del return_dict[Datax.symbol]
 
     elif "radial" in self.components.keys():
         resultr = self.components["radial"].get_along(
diff --git a/SciDataTool/Methods/VectorField/get_xyz_along.py b/SciDataTool/Methods/VectorField/get_xyz_along.py
index 67fffff..5a3d86e 100644
--- a/SciDataTool/Methods/VectorField/get_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_xyz_along.py
@@ -1,6 +1,7 @@
-from numpy import zeros
+from numpy import zeros, zeros_like
 
 from SciDataTool.Functions.conversions import pol2cart
+from SciDataTool.Functions.get_angle_data import get_angle_data
 from SciDataTool.Functions import AxisError
 
 
@@ -27,78 +28,40 @@ def get_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeez
         args = args[0]  # if called from another script with *args
 
     if "radial" in self.components.keys() or "tangential" in self.components.keys():
-        # Extract first along whole or smallest period "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != [] and "smallestperiod" not in string[0]:
-            new_args[args.index(string[0])] = "angle"
-        elif string == []:
-            if "wavenumber" in args:
-                new_args[args.index("wavenumber")] = "angle[smallestperiod]"
-            else:
-                new_args.extend(["angle[smallestperiod]"])
-        Datar = self.components["radial"].get_data_along(
-            *new_args,
+        # Extract first along the angle axis
+        if "radial" in self.components.keys():
+            Datar, axis = get_angle_data(self.components["radial"], args)
+        if "tangential" in self.components.keys():
+            Dataphi, axis = get_angle_data(self.components["tangential"], args)
+            if "radial" not in self.components.keys():
+                Datar = Dataphi.copy()
+                Datar.values = zeros_like(Dataphi.values)
+        else:
+            Dataphi = Datar.copy()
+            Dataphi.values = zeros_like(Datar.values)
+        phi = Datar.axes[axis].get_values()
+        # Convert to cartesian coordinates
+        (Datar.values, Dataphi.values) = pol2cart(
+            Datar.values, Dataphi.values, phi, axis=axis
+        )
+        # Extract second time with true args
+        resultx = Datar.get_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
+            is_squeeze=is_squeeze,
         )
-        field_r = Datar.values
-        shape = field_r.shape
-        if "tangential" in self.components.keys():
-            Dataphi = self.components["tangential"].get_data_along(
-                *new_args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_c = Dataphi.values
-        else:
-            field_c = zeros(shape, dtype=field_r.dtype)
-            Dataphi = type(Datar)(
-                name=Datar.name,
-                unit=Datar.unit,
-                symbol=Datar.symbol,
-                axes=Datar.axes,
-                values=field_c,
-            )
-        phi = Datar.get_axes("angle")[0].get_values(is_smallestperiod=True)
-        # Convert to cylindrical coordinates
-        (field_x, field_y) = pol2cart(field_r, field_c, phi)
-        # Extract second time with true args
-        if "angle" not in args and "angle[smallestperiod]" not in args:
-            Datar.values = field_x
-            Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
-        else:
-            # Need return dict to initialize results
-            resultx = self.components["radial"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
+        field_x = resultx[Datar.symbol]
+        shape = field_x.shape
+        resulty = Dataphi.get_along(
+            args,
+            unit=unit,
+            is_norm=is_norm,
+            axis_data=axis_data,
+            is_squeeze=is_squeeze,
+        )
+        field_y = resulty[Dataphi.symbol]
         # Add axial component
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_along(
@@ -122,7 +85,7 @@ def get_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeez
             field_z = zeros(shape)
         # Build return dict
         return_dict = dict(resultx)
-        del return_dict[self.components["radial"].symbol]
+        del return_dict[Datar.symbol]
 
     elif "comp_x" in self.components.keys():
         resultx = self.components["comp_x"].get_along(
-- 
2.43.0


From 6bfef9ac9cf7520f892eef9c3713508e22b96439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:44 +0000
Subject: [PATCH 40/93] fix: magnitude of the converted components of a vector
 field

The magnitudes had the same problems as the components: with the angle
axis requested the signed components were returned, and other requests
were extracted twice.
---
 .../VectorField/get_mag_rphiz_along.py        | 77 +++++++------------
 .../Methods/VectorField/get_mag_xyz_along.py  | 77 +++++++------------
 2 files changed, 54 insertions(+), 100 deletions(-)

diff --git a/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py b/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
index 6dc0444..435ea9e 100644
--- a/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
@@ -1,6 +1,7 @@
-from numpy import zeros
+from numpy import zeros, zeros_like
 
 from SciDataTool.Functions.conversions import cart2pol
+from SciDataTool.Functions.get_angle_data import get_angle_data
 from SciDataTool.Functions import AxisError
 
 
@@ -26,63 +27,39 @@ def get_mag_rphiz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "comp_x" in self.components.keys() and "comp_y" in self.components.keys():
-        # Extract first along whole "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != []:
-            new_args[args.index(string[0])] = "angle"
+    if "comp_x" in self.components.keys() or "comp_y" in self.components.keys():
+        # Extract first along the angle axis
+        if "comp_x" in self.components.keys():
+            Datax, axis = get_angle_data(self.components["comp_x"], args)
+        if "comp_y" in self.components.keys():
+            Datay, axis = get_angle_data(self.components["comp_y"], args)
+            if "comp_x" not in self.components.keys():
+                Datax = Datay.copy()
+                Datax.values = zeros_like(Datay.values)
         else:
-            new_args.extend(["angle"])
-        Datax = self.components["comp_x"].get_data_along(
-            *new_args,
+            Datay = Datax.copy()
+            Datay.values = zeros_like(Datax.values)
+        phi = Datax.axes[axis].get_values()
+        # Convert to cylindrical coordinates
+        (Datax.values, Datay.values) = cart2pol(
+            Datax.values, Datay.values, phi, axis=axis
+        )
+        # Extract second time with true args
+        resultr = Datax.get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Datay = self.components["comp_y"].get_data_along(
-            *new_args,
+        field_r = resultr[Datax.symbol]
+        shape = field_r.shape
+        resultt = Datay.get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_x = Datax.values
-        field_y = Datay.values
-        shape = field_x.shape
-        phi = Datax.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_r, field_t) = cart2pol(field_x, field_y, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datax.values = field_r
-            Datay.values = field_t
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_t = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
-        else:
-            # Need return dict to initialize results
-            resultr = self.components["comp_x"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
+        field_t = resultt[Datay.symbol]
         # Add axial component
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_magnitude_along(
@@ -103,7 +80,7 @@ def get_mag_rphiz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         else:
             field_z = zeros(shape)
         return_dict = dict(resultr)
-        del return_dict[self.components["comp_x"].symbol]
+        del return_dict[Datax.symbol]
 
     elif "radial" in self.components.keys():
         resultr = self.components["radial"].get_magnitude_along(
diff --git a/SciDataTool/Methods/VectorField/get_mag_xyz_along.py b/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
index 92fb5ab..0961dcc 100644
--- a/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
@@ -1,6 +1,7 @@
-from numpy import zeros
+from numpy import zeros, zeros_like
 
 from SciDataTool.Functions.conversions import pol2cart
+from SciDataTool.Functions.get_angle_data import get_angle_data
 from SciDataTool.Functions import AxisError
 
 
@@ -26,63 +27,39 @@ def get_mag_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "radial" in self.components.keys() and "tangential" in self.components.keys():
-        # Extract first along whole "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != []:
-            new_args[args.index(string[0])] = "angle"
+    if "radial" in self.components.keys() or "tangential" in self.components.keys():
+        # Extract first along the angle axis
+        if "radial" in self.components.keys():
+            Datar, axis = get_angle_data(self.components["radial"], args)
+        if "tangential" in self.components.keys():
+            Dataphi, axis = get_angle_data(self.components["tangential"], args)
+            if "radial" not in self.components.keys():
+                Datar = Dataphi.copy()
+                Datar.values = zeros_like(Dataphi.values)
         else:
-            new_args.extend(["angle"])
-        Datar = self.components["radial"].get_data_along(
-            *new_args,
+            Dataphi = Datar.copy()
+            Dataphi.values = zeros_like(Datar.values)
+        phi = Datar.axes[axis].get_values()
+        # Convert to cartesian coordinates
+        (Datar.values, Dataphi.values) = pol2cart(
+            Datar.values, Dataphi.values, phi, axis=axis
+        )
+        # Extract second time with true args
+        resultx = Datar.get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Dataphi = self.components["tangential"].get_data_along(
-            *new_args,
+        field_x = resultx[Datar.symbol]
+        shape = field_x.shape
+        resulty = Dataphi.get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_r = Datar.values
-        field_c = Dataphi.values
-        shape = field_r.shape
-        phi = Datar.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_x, field_y) = pol2cart(field_r, field_c, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datar.values = field_x
-            Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
-        else:
-            # Need return dict to initialize results
-            resultx = self.components["radial"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
+        field_y = resulty[Dataphi.symbol]
         # Add axial component
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_magnitude_along(
@@ -104,7 +81,7 @@ def get_mag_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
             field_z = zeros(shape)
         # Build return dict
         return_dict = dict(resultx)
-        del return_dict[self.components["radial"].symbol]
+        del return_dict[Datar.symbol]
 
     elif "comp_x" in self.components.keys():
         resultx = self.components["comp_x"].get_magnitude_along(
-- 
2.43.0


From 5baeece4b82a09f742f6d21726c0d3c7cd3595db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:19 +0000
Subject: [PATCH 41/93] fix: largest harmonics of the components of a vector
 field

get_harm_xyz_along called a function it did not import, get_harm_rphiz_along
ignored a radial component alone and looked the axial one up under a wrong
name, and requests were extracted twice as for the components.
---
 .../VectorField/get_harm_rphiz_along.py       | 108 +++++++++---------
 .../Methods/VectorField/get_harm_xyz_along.py |  84 +++++---------
 2 files changed, 86 insertions(+), 106 deletions(-)

diff --git a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
index 0e226d2..783143c 100644
--- a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
@@ -1,6 +1,7 @@
-from numpy import zeros
+from numpy import zeros, zeros_like
 
 from SciDataTool.Functions.conversions import cart2pol
+from SciDataTool.Functions.get_angle_data import get_angle_data
 from SciDataTool.Functions import AxisError
 
 
@@ -26,89 +27,92 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "comp_x" in self.components.keys() and "comp_y" in self.components.keys():
-        # Extract first along whole "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != []:
-            new_args[args.index(string[0])] = "angle"
+    if "comp_x" in self.components.keys() or "comp_y" in self.components.keys():
+        # Extract first along the angle axis
+        if "comp_x" in self.components.keys():
+            Datax, axis = get_angle_data(self.components["comp_x"], args)
+        if "comp_y" in self.components.keys():
+            Datay, axis = get_angle_data(self.components["comp_y"], args)
+            if "comp_x" not in self.components.keys():
+                Datax = Datay.copy()
+                Datax.values = zeros_like(Datay.values)
         else:
-            new_args.extend(["angle"])
-        Datax = self.components["comp_x"].get_data_along(
-            *new_args,
+            Datay = Datax.copy()
+            Datay.values = zeros_like(Datax.values)
+        phi = Datax.axes[axis].get_values()
+        # Convert to cylindrical coordinates
+        (Datax.values, Datay.values) = cart2pol(
+            Datax.values, Datay.values, phi, axis=axis
+        )
+        # Extract second time with true args
+        resultr = Datax.get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Datay = self.components["comp_y"].get_data_along(
-            *new_args,
+        field_r = resultr[Datax.symbol]
+        shape = field_r.shape
+        resultt = Datay.get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_x = Datax.values
-        field_y = Datay.values
-        shape = field_x.shape
-        phi = Datax.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_r, field_t) = cart2pol(field_x, field_y, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datax.values = field_r
-            Datay.values = field_t
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_harmonics(
+        field_t = resultt[Datay.symbol]
+        # Add axial component
+        if "axial" in self.components.keys():
+            resultz = self.components["axial"].get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_harmonics(
+            field_z = resultz[self.components["axial"].symbol]
+        elif "comp_z" in self.components.keys():
+            resultz = self.components["comp_z"].get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_t = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
+            field_z = resultz[self.components["comp_z"].symbol]
         else:
-            # Need return dict to initialize results
-            resultr = self.components["comp_x"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
+            field_z = zeros(shape)
+        return_dict = dict(resultr)
+        del return_dict[Datax.symbol]
+
+    elif "radial" in self.components.keys():
+        resultr = self.components["radial"].get_harmonics(
+            N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
+        )
+        field_r = resultr[self.components["radial"].symbol]
+        shape = field_r.shape
+        if "tangential" in self.components.keys():
+            resultphi = self.components["tangential"].get_harmonics(
+                N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
             )
-        # Add axial component
+            field_t = resultphi[self.components["tangential"].symbol]
+        else:
+            field_t = zeros(shape)
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
+                N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
             )
             field_z = resultz[self.components["axial"].symbol]
         elif "comp_z" in self.components.keys():
             resultz = self.components["comp_z"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
+                N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
             )
             field_z = resultz[self.components["comp_z"].symbol]
         else:
             field_z = zeros(shape)
         return_dict = dict(resultr)
-        del return_dict[self.components["comp_x"].symbol]
+        del return_dict[self.components["radial"].symbol]
 
     elif "tangential" in self.components.keys():
         resultphi = self.components["tangential"].get_harmonics(
@@ -120,7 +124,7 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
             resultr = self.components["radial"].get_harmonics(
                 N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
             )
-            field_r = resultphi[self.components["radial"].symbol]
+            field_r = resultr[self.components["radial"].symbol]
         else:
             field_r = zeros(shape)
         if "axial" in self.components.keys():
@@ -150,7 +154,7 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
         del return_dict[self.components["axial"].symbol]
 
     elif "comp_z" in self.components.keys():
-        resultz = self.components["z"].get_harmonics(
+        resultz = self.components["comp_z"].get_harmonics(
             N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
         )
         field_z = resultz[self.components["comp_z"].symbol]
diff --git a/SciDataTool/Methods/VectorField/get_harm_xyz_along.py b/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
index 7822786..19bf015 100644
--- a/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
@@ -1,6 +1,7 @@
-from numpy import zeros
+from numpy import zeros, zeros_like
 
-from SciDataTool.Functions.conversions import cart2pol
+from SciDataTool.Functions.conversions import pol2cart
+from SciDataTool.Functions.get_angle_data import get_angle_data
 from SciDataTool.Functions import AxisError
 
 
@@ -26,66 +27,41 @@ def get_harm_xyz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_data=
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "radial" in self.components.keys() and "tangential" in self.components.keys():
-        # Extract first along whole "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != []:
-            new_args[args.index(string[0])] = "angle"
+    if "radial" in self.components.keys() or "tangential" in self.components.keys():
+        # Extract first along the angle axis
+        if "radial" in self.components.keys():
+            Datar, axis = get_angle_data(self.components["radial"], args)
+        if "tangential" in self.components.keys():
+            Dataphi, axis = get_angle_data(self.components["tangential"], args)
+            if "radial" not in self.components.keys():
+                Datar = Dataphi.copy()
+                Datar.values = zeros_like(Dataphi.values)
         else:
-            new_args.extend(["angle"])
-        Datar = self.components["radial"].get_data_along(
-            *new_args,
+            Dataphi = Datar.copy()
+            Dataphi.values = zeros_like(Datar.values)
+        phi = Datar.axes[axis].get_values()
+        # Convert to cartesian coordinates
+        (Datar.values, Dataphi.values) = pol2cart(
+            Datar.values, Dataphi.values, phi, axis=axis
+        )
+        # Extract second time with true args
+        resultx = Datar.get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Dataphi = self.components["tangential"].get_data_along(
-            *new_args,
+        field_x = resultx[Datar.symbol]
+        shape = field_x.shape
+        resulty = Dataphi.get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_r = Datar.values
-        field_c = Dataphi.values
-        shape = field_r.shape
-        phi = Datar.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_x, field_y) = pol2cart(field_r, field_c, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datar.values = field_x
-            Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
-        else:
-            # Need return dict to initialize results
-            resultx = self.components["radial"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
+        field_y = resulty[Dataphi.symbol]
         # Add axial component
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_harmonics(
@@ -109,7 +85,7 @@ def get_harm_xyz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_data=
             field_z = zeros(shape)
         # Build return dict
         return_dict = dict(resultx)
-        del return_dict[self.components["radial"].symbol]
+        del return_dict[Datar.symbol]
 
     elif "comp_x" in self.components.keys():
         resultx = self.components["comp_x"].get_harmonics(
-- 
2.43.0


From 1c3f6dbe461f705dc064986699742e5dd15afb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:46 +0000
Subject: [PATCH 42/93] fix: components of a converted vector field object

to_rphiz stored the tangential component as comp_y, lost the third component
and the dimensions of length one; both conversions failed without the first
component.
---
 SciDataTool/Methods/VectorField/to_rphiz.py | 38 ++++++++++++---------
 SciDataTool/Methods/VectorField/to_xyz.py   | 33 +++++++++---------
 2 files changed, 39 insertions(+), 32 deletions(-)

diff --git a/SciDataTool/Methods/VectorField/to_rphiz.py b/SciDataTool/Methods/VectorField/to_rphiz.py
index 7c2e411..e0a5e39 100644
--- a/SciDataTool/Methods/VectorField/to_rphiz.py
+++ b/SciDataTool/Methods/VectorField/to_rphiz.py
@@ -17,39 +17,45 @@ def to_rphiz(self):
         "radial" in self.components
         or "tangential" in self.components
         or "axial" in self.components
+        and "comp_x" not in self.components
+        and "comp_y" not in self.components
     ):
         return self.copy()
 
     else:
         # Coordinate transform
+        # Component describing the axes
+        if "comp_x" in self.components:
+            Comp, letter = self.components["comp_x"], "_x"
+        else:
+            Comp, letter = self.components["comp_y"], "_y"
+        name = Comp.name.lower().replace(" along x-axis", "")
+        name = name.replace(" along y-axis", "")
         arg_list = [
             axis.name
             if axis.name in ["freqs", "wavenumber"]
             else axis.name + "[smallestperiod]"
-            for axis in self.components["comp_x"].axes
+            for axis in Comp.axes
         ]
-        result = self.get_rphiz_along(*arg_list)
+        result = self.get_rphiz_along(*arg_list, is_squeeze=False)
         # Store in new VectorField
         comp_dict = dict()
 
-        Comp_r = self.components["comp_x"].copy()
-        Comp_r.name = "Radial " + self.components["comp_x"].name.lower().replace(
-            " along x-axis", ""
-        )
-        Comp_r.symbol = self.components["comp_x"].symbol.replace("_x", "_r")
+        Comp_r = Comp.copy()
+        Comp_r.name = "Radial " + name
+        Comp_r.symbol = Comp.symbol.replace(letter, "_r")
         Comp_r.values = result["radial"]
         comp_dict["radial"] = Comp_r
 
-        Comp_t = self.components["comp_x"].copy()
-        Comp_t.name = "Tangential " + self.components["comp_x"].name.lower().replace(
-            " along x-axis", ""
-        )
-        Comp_t.symbol = self.components["comp_x"].symbol.replace("_r", "_y")
+        Comp_t = Comp.copy()
+        Comp_t.name = "Tangential " + name
+        Comp_t.symbol = Comp.symbol.replace(letter, "_t")
         Comp_t.values = result["tangential"]
-        comp_dict["comp_y"] = Comp_t
+        comp_dict["tangential"] = Comp_t
 
-        if "axial" in self.components:
-            Comp_z = self.components["axial"].copy()
-            comp_dict["comp_z"] = Comp_z
+        for key in ["comp_z", "axial"]:
+            if key in self.components:
+                Comp_z = self.components[key].copy()
+                comp_dict["axial"] = Comp_z
 
         return VectorField(name=self.name, symbol=self.symbol, components=comp_dict)
diff --git a/SciDataTool/Methods/VectorField/to_xyz.py b/SciDataTool/Methods/VectorField/to_xyz.py
index 027ac91..3119be7 100644
--- a/SciDataTool/Methods/VectorField/to_xyz.py
+++ b/SciDataTool/Methods/VectorField/to_xyz.py
@@ -18,36 +18,37 @@ def to_xyz(self):
 
     else:
         # Coordinate transform
+        # Component describing the axes
+        if "radial" in self.components:
+            Comp, letter = self.components["radial"], "_r"
+        else:
+            Comp, letter = self.components["tangential"], "_t"
+        name = Comp.name.lower().replace("radial ", "").replace("tangential ", "")
         arg_list = [
             axis.name
             if axis.name in ["freqs", "wavenumber"]
             else axis.name + "[smallestperiod]"
-            for axis in self.components["radial"].axes
+            for axis in Comp.axes
         ]
         result = self.get_xyz_along(*arg_list, is_squeeze=False)
         # Store in new VectorField
         comp_dict = dict()
 
-        Comp_x = self.components["radial"].copy()
-        Comp_x.name = (
-            self.components["radial"].name.lower().replace("radial ", "")
-            + " along x-axis"
-        )
-        Comp_x.symbol = self.components["radial"].symbol.replace("_r", "_x")
+        Comp_x = Comp.copy()
+        Comp_x.name = name + " along x-axis"
+        Comp_x.symbol = Comp.symbol.replace(letter, "_x")
         Comp_x.values = result["comp_x"]
         comp_dict["comp_x"] = Comp_x
 
-        Comp_y = self.components["radial"].copy()
-        Comp_y.name = (
-            self.components["radial"].name.lower().replace("radial ", "")
-            + " along y-axis"
-        )
-        Comp_y.symbol = self.components["radial"].symbol.replace("_r", "_y")
+        Comp_y = Comp.copy()
+        Comp_y.name = name + " along y-axis"
+        Comp_y.symbol = Comp.symbol.replace(letter, "_y")
         Comp_y.values = result["comp_y"]
         comp_dict["comp_y"] = Comp_y
 
-        if "axial" in self.components:
-            Comp_z = self.components["axial"].copy()
-            comp_dict["comp_z"] = Comp_z
+        for key in ["comp_z", "axial"]:
+            if key in self.components:
+                Comp_z = self.components[key].copy()
+                comp_dict["comp_z"] = Comp_z
 
         return VectorField(name=self.name, symbol=self.symbol, components=comp_dict)
-- 
2.43.0


From 7434814d24f3ac4a17f139708d12c3d8cdf9ee7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:46 +0000
Subject: [PATCH 43/93] fix: third coordinate in rphiz_to_xyz

The test looked at the number of dimensions of the array instead of its
number of columns, so that z was never returned.
---
 SciDataTool/Functions/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 836e7e6..ec3dc85 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -513,14 +513,14 @@ def rphiz_to_xyz(values):
 
     r = values[:, 0]
     phi = values[:, 1]
-    if len(values.shape) > 2:
+    if values.shape[1] > 2:
         z = values[:, 2]
 
     affixe = r * exp(1j * phi)
     x = real(affixe)
     y = imag(affixe)
 
-    if len(values.shape) > 2:
+    if values.shape[1] > 2:
         return column_stack((x, y, z))
     else:
         return column_stack((x, y))
-- 
2.43.0


From 363b410f43bf3860313c036752e110939f011c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:29 +0000
Subject: [PATCH 44/93] fix: spectrum of the third component of a converted
 vector field

With a symmetry along the angle, the third component was given on fewer
spatial orders than the converted ones and than the returned axis.
---
 .../Methods/VectorField/get_harm_rphiz_along.py | 17 +++++------------
 .../Methods/VectorField/get_harm_xyz_along.py   | 17 +++++------------
 .../Methods/VectorField/get_mag_rphiz_along.py  | 16 +++++-----------
 .../Methods/VectorField/get_mag_xyz_along.py    | 16 +++++-----------
 .../Methods/VectorField/get_rphiz_along.py      | 17 +++++------------
 .../Methods/VectorField/get_xyz_along.py        | 17 +++++------------
 6 files changed, 30 insertions(+), 70 deletions(-)

diff --git a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
index 783143c..c04dbba 100644
--- a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
@@ -63,24 +63,17 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
         )
         field_t = resultt[Datay.symbol]
         # Add axial component
-        if "axial" in self.components.keys():
-            resultz = self.components["axial"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_z = resultz[self.components["axial"].symbol]
-        elif "comp_z" in self.components.keys():
-            resultz = self.components["comp_z"].get_harmonics(
+        comp_z = "axial" if "axial" in self.components.keys() else "comp_z"
+        if comp_z in self.components.keys():
+            Dataz, axis = get_angle_data(self.components[comp_z], args)
+            resultz = Dataz.get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_z = resultz[self.components["comp_z"].symbol]
+            field_z = resultz[Dataz.symbol]
         else:
             field_z = zeros(shape)
         return_dict = dict(resultr)
diff --git a/SciDataTool/Methods/VectorField/get_harm_xyz_along.py b/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
index 19bf015..ac366a9 100644
--- a/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
@@ -63,24 +63,17 @@ def get_harm_xyz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_data=
         )
         field_y = resulty[Dataphi.symbol]
         # Add axial component
-        if "axial" in self.components.keys():
-            resultz = self.components["axial"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_z = resultz[self.components["axial"].symbol]
-        elif "comp_z" in self.components.keys():
-            resultz = self.components["comp_z"].get_harmonics(
+        comp_z = "axial" if "axial" in self.components.keys() else "comp_z"
+        if comp_z in self.components.keys():
+            Dataz, axis = get_angle_data(self.components[comp_z], args)
+            resultz = Dataz.get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_z = resultz[self.components["comp_z"].symbol]
+            field_z = resultz[Dataz.symbol]
         else:
             field_z = zeros(shape)
         # Build return dict
diff --git a/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py b/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
index 435ea9e..4b3a1d4 100644
--- a/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
@@ -61,22 +61,16 @@ def get_mag_rphiz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         )
         field_t = resultt[Datay.symbol]
         # Add axial component
-        if "axial" in self.components.keys():
-            resultz = self.components["axial"].get_magnitude_along(
+        comp_z = "axial" if "axial" in self.components.keys() else "comp_z"
+        if comp_z in self.components.keys():
+            Dataz, axis = get_angle_data(self.components[comp_z], args)
+            resultz = Dataz.get_magnitude_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_z = resultz[self.components["axial"].symbol]
-        elif "comp_z" in self.components.keys():
-            resultz = self.components["comp_z"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_z = resultz[self.components["comp_z"].symbol]
+            field_z = resultz[Dataz.symbol]
         else:
             field_z = zeros(shape)
         return_dict = dict(resultr)
diff --git a/SciDataTool/Methods/VectorField/get_mag_xyz_along.py b/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
index 0961dcc..aea50a9 100644
--- a/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
@@ -61,22 +61,16 @@ def get_mag_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         )
         field_y = resulty[Dataphi.symbol]
         # Add axial component
-        if "axial" in self.components.keys():
-            resultz = self.components["axial"].get_magnitude_along(
+        comp_z = "axial" if "axial" in self.components.keys() else "comp_z"
+        if comp_z in self.components.keys():
+            Dataz, axis = get_angle_data(self.components[comp_z], args)
+            resultz = Dataz.get_magnitude_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_z = resultz[self.components["axial"].symbol]
-        elif "comp_z" in self.components.keys():
-            resultz = self.components["comp_z"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_z = resultz[self.components["comp_z"].symbol]
+            field_z = resultz[Dataz.symbol]
         else:
             field_z = zeros(shape)
         # Build return dict
diff --git a/SciDataTool/Methods/VectorField/get_rphiz_along.py b/SciDataTool/Methods/VectorField/get_rphiz_along.py
index 4d6bd59..c722386 100644
--- a/SciDataTool/Methods/VectorField/get_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_rphiz_along.py
@@ -65,24 +65,17 @@ def get_rphiz_along(
         )
         field_c = resultt[Datay.symbol]
         # Add axial component
-        if "axial" in self.components.keys():
-            resultz = self.components["axial"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_z = resultz[self.components["axial"].symbol]
-        elif "comp_z" in self.components.keys():
-            resultz = self.components["comp_z"].get_along(
+        comp_z = "axial" if "axial" in self.components.keys() else "comp_z"
+        if comp_z in self.components.keys():
+            Dataz, axis = get_angle_data(self.components[comp_z], args)
+            resultz = Dataz.get_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_z = resultz[self.components["comp_z"].symbol]
+            field_z = resultz[Dataz.symbol]
         else:
             field_z = zeros(shape)
         return_dict = dict(resultr)
diff --git a/SciDataTool/Methods/VectorField/get_xyz_along.py b/SciDataTool/Methods/VectorField/get_xyz_along.py
index 5a3d86e..19f573b 100644
--- a/SciDataTool/Methods/VectorField/get_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_xyz_along.py
@@ -63,24 +63,17 @@ def get_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeez
         )
         field_y = resulty[Dataphi.symbol]
         # Add axial component
-        if "axial" in self.components.keys():
-            resultz = self.components["axial"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_z = resultz[self.components["axial"].symbol]
-        elif "comp_z" in self.components.keys():
-            resultz = self.components["comp_z"].get_along(
+        comp_z = "axial" if "axial" in self.components.keys() else "comp_z"
+        if comp_z in self.components.keys():
+            Dataz, axis = get_angle_data(self.components[comp_z], args)
+            resultz = Dataz.get_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_z = resultz[self.components["comp_z"].symbol]
+            field_z = resultz[Dataz.symbol]
         else:
             field_z = zeros(shape)
         # Build return dict
-- 
2.43.0


From cec18c7fcb2382eefc663149e51745a6a6f2f7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:30:14 +0000
Subject: [PATCH 45/93] fix: common values which differ by rounding errors

intersect1d_tol rounded the values down to a multiple of the tolerance, so
that two values on each side of a multiple were never found equal. They are
now rounded to the nearest multiple, as in unique_tol.
---
 SciDataTool/Functions/set_routines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/set_routines.py b/SciDataTool/Functions/set_routines.py
index dc6ec5c..23e023d 100644
--- a/SciDataTool/Functions/set_routines.py
+++ b/SciDataTool/Functions/set_routines.py
@@ -167,8 +167,8 @@ def intersect1d_tol(
         tol = get_relative_tolerance(ar1, tol)
 
     _, Ia, Ib = np.intersect1d(
-        np.floor(ar1 / tol),
-        np.floor(ar2 / tol),
+        np.round(ar1 / tol),
+        np.round(ar2 / tol),
         assume_unique=assume_unique,
         return_indices=True,
     )
-- 
2.43.0


From 99f8d8b5f376d1813de771cb645cebcb8dd8440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:30:14 +0000
Subject: [PATCH 46/93] fix: indices and counts of unique_tol in stable order

The inverse indices and the counts referred to the sorted values, and the
counts were not found without the inverse indices.
---
 SciDataTool/Functions/set_routines.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/SciDataTool/Functions/set_routines.py b/SciDataTool/Functions/set_routines.py
index 23e023d..42aae32 100644
--- a/SciDataTool/Functions/set_routines.py
+++ b/SciDataTool/Functions/set_routines.py
@@ -102,18 +102,22 @@ def unique_tol(
         axis=axis,
     )
 
-    if is_stable:
-        Ia = np.sort(res_tuple[1])
-    else:
-        Ia = res_tuple[1]
-
-    b = a[Ia]
-
+    Ia = res_tuple[1]
     if return_inverse:
         Ib = res_tuple[2]
-
     if return_counts:
-        count0 = res_tuple[3]
+        count0 = res_tuple[-1]
+
+    if is_stable:
+        # Order of appearance in a
+        order = np.argsort(Ia)
+        Ia = Ia[order]
+        if return_inverse:
+            Ib = np.argsort(order)[Ib]
+        if return_counts:
+            count0 = count0[order]
+
+    b = a[Ia]
 
     if return_index and return_inverse and return_counts:
         return b, Ia, Ib, count0
-- 
2.43.0


From 74430c8c5a77be3fb776a549992de6e10ed656f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:30:14 +0000
Subject: [PATCH 47/93] fix: refuse negative frequencies in sum and product of
 spectra

The test compared the result of any() with zero and was never true.
---
 SciDataTool/Methods/DataFreq/conv.py | 4 ++--
 SciDataTool/Methods/DataFreq/sum.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Methods/DataFreq/conv.py b/SciDataTool/Methods/DataFreq/conv.py
index 9d64694..52769c5 100644
--- a/SciDataTool/Methods/DataFreq/conv.py
+++ b/SciDataTool/Methods/DataFreq/conv.py
@@ -56,14 +56,14 @@ def conv(
         raise Exception("self axis is not frequency axis")
     else:
         freqs1 = self.axes[0].get_values()
-        if np_any(freqs1) < 0:
+        if np_any(freqs1 < 0):
             raise Exception("self contains negative frequency values")
 
     if other.axes[0].name != "freqs":
         raise Exception("other axis is not frequency axis")
     else:
         freqs2 = other.axes[0].get_values()
-        if np_any(freqs2) < 0:
+        if np_any(freqs2 < 0):
             raise Exception("other contains negative frequency values")
 
     # Fill metadata
diff --git a/SciDataTool/Methods/DataFreq/sum.py b/SciDataTool/Methods/DataFreq/sum.py
index 45c8f73..6ed8837 100644
--- a/SciDataTool/Methods/DataFreq/sum.py
+++ b/SciDataTool/Methods/DataFreq/sum.py
@@ -50,14 +50,14 @@ def sum(
         raise Exception("self axis is not frequency axis")
     else:
         freqs1 = self.axes[0].get_values()
-        if np_any(freqs1) < 0:
+        if np_any(freqs1 < 0):
             raise Exception("self contains negative frequency values")
 
     if other.axes[0].name != "freqs":
         raise Exception("other axis is not frequency axis")
     else:
         freqs2 = other.axes[0].get_values()
-        if np_any(freqs2) < 0:
+        if np_any(freqs2 < 0):
             raise Exception("other contains negative frequency values")
 
     # Fill metadata
-- 
2.43.0


From 820274b98c9a1c94b24dd41689afd3e10a7df3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:30:14 +0000
Subject: [PATCH 48/93] fix: sum and product of spectra with a uniform
 frequency axis

The frequencies of the result were set on a copy of the axis of the first
spectrum, which does not store values when it is a DataLinspace.
---
 SciDataTool/Methods/DataFreq/conv.py | 11 +++++++++--
 SciDataTool/Methods/DataFreq/sum.py  | 14 ++++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Methods/DataFreq/conv.py b/SciDataTool/Methods/DataFreq/conv.py
index 52769c5..dae2a55 100644
--- a/SciDataTool/Methods/DataFreq/conv.py
+++ b/SciDataTool/Methods/DataFreq/conv.py
@@ -1,5 +1,6 @@
 from numpy import inf, any as np_any
 
+from SciDataTool.Functions.Load.import_class import import_class
 from SciDataTool.Functions.sum_convolution import get_conv_indices, get_conv_amplitudes
 
 
@@ -85,8 +86,14 @@ def conv(
     amp = get_conv_amplitudes(self.values, other.values, I0a, I0b, I1, I2)
 
     # Create Frequency axis
-    Freqs = self.axes[0].copy()
-    Freqs.values = freqs_un
+    Data1D = import_class("SciDataTool.Classes", "Data1D")
+    Freqs = Data1D(
+        name=self.axes[0].name,
+        unit=self.axes[0].unit,
+        symbol=self.axes[0].symbol,
+        normalizations=self.axes[0].normalizations.copy(),
+        values=freqs_un,
+    )
 
     # Create DataFreq resulting from convolution
     result = type(self)(
diff --git a/SciDataTool/Methods/DataFreq/sum.py b/SciDataTool/Methods/DataFreq/sum.py
index 6ed8837..337add1 100644
--- a/SciDataTool/Methods/DataFreq/sum.py
+++ b/SciDataTool/Methods/DataFreq/sum.py
@@ -1,5 +1,6 @@
 from numpy import any as np_any
 
+from SciDataTool.Functions.Load.import_class import import_class
 from SciDataTool.Functions.sum_convolution import get_sum_indices, get_sum_amplitudes
 
 
@@ -77,8 +78,17 @@ def sum(
     amp = get_sum_amplitudes(self.values, other.values, I0b)
 
     # Create Frequency axis
-    Freqs = self.axes[0].copy()
-    Freqs.values = freqs_un
+    Data1D = import_class("SciDataTool.Classes", "Data1D")
+    Freqs = Data1D(
+        name=self.axes[0].name,
+        unit=self.axes[0].unit,
+        symbol=self.axes[0].symbol,
+        normalizations=self.axes[0].normalizations.copy(),
+        symmetries=self.axes[0].symmetries.copy()
+        if self.axes[0].symmetries == other.axes[0].symmetries
+        else dict(),
+        values=freqs_un,
+    )
 
     # Create DataFreq resulting from convolution
     result = type(self)(
-- 
2.43.0


From ccdc3e0584ccdf9f1a3a256a8635cc05afbe761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:20 +0000
Subject: [PATCH 49/93] fix: uniform axes defined by a step

The number of samples was truncated instead of rounded (0 to 0.7 by 0.1 lost
a sample), ignored include_endpoint, and the size expected for the field was
one sample short.
---
 SciDataTool/Classes/_check.py                  | 2 +-
 SciDataTool/Methods/DataLinspace/get_length.py | 4 +++-
 SciDataTool/Methods/DataLinspace/get_values.py | 7 +++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Classes/_check.py b/SciDataTool/Classes/_check.py
index aec755c..8b65599 100644
--- a/SciDataTool/Classes/_check.py
+++ b/SciDataTool/Classes/_check.py
@@ -355,7 +355,7 @@ def check_dimensions(values, axes):
                 try:
                     axes_shape.append(int(axis.number))
                 except:
-                    axes_shape.append(round((axis.final - axis.initial) / axis.step))
+                    axes_shape.append(axis.get_length(is_smallestperiod=True))
 
         if values_shape != tuple(axes_shape):
             for i, s in enumerate(axes_shape):
diff --git a/SciDataTool/Methods/DataLinspace/get_length.py b/SciDataTool/Methods/DataLinspace/get_length.py
index 7c59dfd..9959a21 100644
--- a/SciDataTool/Methods/DataLinspace/get_length.py
+++ b/SciDataTool/Methods/DataLinspace/get_length.py
@@ -17,7 +17,9 @@ def get_length(self, is_oneperiod=False, is_antiperiod=False, is_smallestperiod=
     """
 
     if self.number is None:
-        N = round((self.final - self.initial + self.step) / self.step)
+        N = round((self.final - self.initial) / self.step)
+        if self.include_endpoint:
+            N = N + 1
     else:
         N = self.number
 
diff --git a/SciDataTool/Methods/DataLinspace/get_values.py b/SciDataTool/Methods/DataLinspace/get_values.py
index 0cc9e02..c471579 100644
--- a/SciDataTool/Methods/DataLinspace/get_values.py
+++ b/SciDataTool/Methods/DataLinspace/get_values.py
@@ -52,10 +52,13 @@ def get_values(
     initial = self.initial
     if self.number == None:
         final = self.final
-        number = (final - initial + self.step) / self.step
+        number = self.get_length(is_smallestperiod=True)
     elif self.final == None:
         number = self.number
-        final = self.initial + (number - 1) * self.step
+        if self.include_endpoint:
+            final = self.initial + (number - 1) * self.step
+        else:
+            final = self.initial + number * self.step
     else:
         number = self.number
         final = self.final
-- 
2.43.0


From 2426091473d91c0362a88335d48919d977b91e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:04 +0000
Subject: [PATCH 50/93] fix: values requested on a step axis

Values were returned in increasing order of the axis and without the repeated
ones, whatever the order of the request.
---
 SciDataTool/Functions/interpolations.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index be9d8e7..4ac7782 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -10,7 +10,6 @@ from numpy import (
     abs as np_abs,
     where,
     zeros,
-    unique,
 )
 from scipy.interpolate import interp1d
 
@@ -139,17 +138,13 @@ def get_interpolation_step(values, axis_values, new_axis_values, index):
         new_axis_values, axis_values
     ).all():  # New axis is subset -> no interpolation
         values_slices = []
-        indice_take = where(isin(axis_values, new_axis_values))[0]
-        _, idx_start, count = unique(
-            axis_values[indice_take], return_counts=True, return_index=True
-        )
-        if len(idx_start) > 0:
-            for i, ii in enumerate(idx_start):
-                values_slices.append(
-                    take(values, indice_take[ii : ii + count[i]], axis=index).mean(
-                        axis=index
-                    )
-                )
+        for value in new_axis_values:
+            # Mean of the slices on both sides of a step
+            indice_take = where(axis_values == value)[0]
+            values_slices.append(
+                take(values, indice_take, axis=index).mean(axis=index)
+            )
+        if len(values_slices) > 0:
             return stack(values_slices, axis=index)
         else:
             return take(values, [], axis=index)
-- 
2.43.0


From 30cd89661236e9038e1c1c295e5e8a02c44f63ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:04 +0000
Subject: [PATCH 51/93] fix: index, interval and value selections on a pattern
 axis

Indices below the number of stored slices picked stored slices instead of
positions of the whole axis, values inside the stored part of a pattern
failed, and an axis left out of the request was read at the first stored slice
instead of the first position.
---
 SciDataTool/Methods/DataND/_extract_slices.py |  7 ++++-
 SciDataTool/Methods/DataND/_get_field.py      | 21 +++------------
 .../Methods/DataND/_rebuild_symmetries.py     | 27 +++----------------
 SciDataTool/Methods/RequestedAxis/get_axis.py |  5 ++--
 4 files changed, 15 insertions(+), 45 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_extract_slices.py b/SciDataTool/Methods/DataND/_extract_slices.py
index e96782c..d708768 100644
--- a/SciDataTool/Methods/DataND/_extract_slices.py
+++ b/SciDataTool/Methods/DataND/_extract_slices.py
@@ -40,5 +40,10 @@ def _extract_slices(self, values, axes_list):
                     values = take(values, axis_requested.indices, axis=index)
         if not is_match:  # Axis was not specified -> take slice at the first value
             axes_dict_other[axis.name] = [axis.get_values()[0], axis.unit]
-            values = take(values, [0], axis=index)
+            rebuild_indices = getattr(axis, "rebuild_indices", None)
+            if rebuild_indices is not None and len(rebuild_indices) > 0:
+                # First position of a pattern
+                values = take(values, [rebuild_indices[0]], axis=index)
+            else:
+                values = take(values, [0], axis=index)
     return values, axes_dict_other
diff --git a/SciDataTool/Methods/DataND/_get_field.py b/SciDataTool/Methods/DataND/_get_field.py
index 1bf7811..83a6dc4 100644
--- a/SciDataTool/Methods/DataND/_get_field.py
+++ b/SciDataTool/Methods/DataND/_get_field.py
@@ -21,23 +21,10 @@ def _get_field(self, axes_list):
         # Rebuild symmetries when needed
         axis_symmetries = self.axes[axis_requested.index].symmetries
 
-        if axis_requested.is_pattern and (
-            axis_requested.transform == "fft"
-            or axis_requested.extension
-            in [
-                "max",
-                "min",
-                "sum",
-                "rss",
-                "mean",
-                "rms",
-                "integrate",
-                "integrate_local",
-                "derivate",
-                "antiderivate",
-            ]
-            or axis_requested.indices not in [None, []]
-            and max(axis_requested.indices) >= values.shape[axis_requested.index]
+        if (
+            axis_requested.is_pattern
+            and axis_requested.rebuild_indices is not None
+            and axis_requested.extension != "smallestperiod"
         ):
             # DataPattern case where all values are requested
             values = take(values, axis_requested.rebuild_indices, axis_requested.index)
diff --git a/SciDataTool/Methods/DataND/_rebuild_symmetries.py b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
index 1344ab2..02e16a5 100644
--- a/SciDataTool/Methods/DataND/_rebuild_symmetries.py
+++ b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
@@ -2,8 +2,6 @@ from SciDataTool.Functions.symmetries import (
     rebuild_symmetries as rebuild_symmetries_fct,
 )
 
-from numpy import take
-
 
 def _rebuild_symmetries(
     self,
@@ -25,28 +23,9 @@ def _rebuild_symmetries(
     """
 
     for axis in axes_list:
-        if (
-            axis.transform != "fft"
-            and axis.is_pattern
-            and (
-                axis.extension
-                not in [
-                    "max",
-                    "min",
-                    "sum",
-                    "rss",
-                    "mean",
-                    "rms",
-                    "integrate",
-                    "integrate_local",
-                    "derivate",
-                    "antiderivate",
-                    "smallestperiod",
-                ]
-                and axis.indices is None
-            )
-        ):
-            values = take(values, axis.rebuild_indices, axis.index)
+        if axis.is_pattern:
+            # Slices were already repeated
+            continue
         elif axis.transform != "fft" and axis.indices is not None:
             # Samples were already extracted
             continue
diff --git a/SciDataTool/Methods/RequestedAxis/get_axis.py b/SciDataTool/Methods/RequestedAxis/get_axis.py
index f73e3ff..2ef12c4 100644
--- a/SciDataTool/Methods/RequestedAxis/get_axis.py
+++ b/SciDataTool/Methods/RequestedAxis/get_axis.py
@@ -113,7 +113,7 @@ def get_axis(self, axis, is_real):
             is_oneperiod = False
             is_antiperiod = False
         else:
-            if self.input_data is not None and not self.is_step:
+            if self.input_data is not None and not self.is_pattern:
                 # Check if symmetries need to be reconstructed to match input_data
                 axis_values = axis.get_values(
                     is_smallestperiod=True,
@@ -147,8 +147,7 @@ def get_axis(self, axis, is_real):
                         is_smallestperiod = False
                         is_oneperiod = False
                         is_antiperiod = False
-                        if not self.is_pattern:
-                            self.extension = "interval"
+                        self.extension = "interval"
             elif self.transform == "ifft":  # Ignore symmetries in ifft case
                 is_smallestperiod = True
                 is_oneperiod = False
-- 
2.43.0


From 22fc48d6c09d1901b1c4cd56eb7ee51380abd20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:38 +0000
Subject: [PATCH 52/93] fix: lines lost when changing the referential of a
 vector field

Lines below the tolerance in the first component were removed from all the
components.
---
 .../Methods/VectorField/change_referential.py | 33 +++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/SciDataTool/Methods/VectorField/change_referential.py b/SciDataTool/Methods/VectorField/change_referential.py
index 15c3f63..02aa8aa 100644
--- a/SciDataTool/Methods/VectorField/change_referential.py
+++ b/SciDataTool/Methods/VectorField/change_referential.py
@@ -36,7 +36,6 @@ def change_referential(
     freqs_new = np.array([])
     I1 = np.array([])
     Irf_un = np.array([])
-    Imask = np.array([])
     ta_in = tuple()
     ta_out = tuple()
     for comp, data in self.components.items():
@@ -66,23 +65,23 @@ def change_referential(
             atol_freq=atol_freq,
         )
 
-        # Filter harmonics that are below input absolute tolerance
-        if atol > 0 and not is_waveform:
-
-            # Copy axis not to change axis in axes_list_change
-            data_new.axes = [axis.copy() for axis in data_new.axes]
-
-            # Filter harmonics that are below input absolute tolerance
-            if Imask.size == 0:
-                val = np.abs(data_new.values)
-                val_max = np.max(val)
-                while val.ndim > 1:
-                    val = np.sum(val, axis=-1)
-                Imask = val > val_max * atol
-            data_new.axes[0].values = data_new.axes[0].values[Imask]
-            data_new.values = data_new.values[Imask, ...]
-
         # Store referential changed data in VectorField
         vf_new.components[comp] = data_new
 
+    # Filter harmonics that are below input absolute tolerance in all components
+    if atol > 0 and freqs_new.size > 0:
+        Imask = False
+        for data_new in vf_new.components.values():
+            index = [axis.name for axis in data_new.axes].index("freqs")
+            val = np.moveaxis(np.abs(data_new.values), index, 0)
+            val = val.reshape((val.shape[0], -1))
+            Imask = Imask | (np.sum(val, axis=1) > np.max(val) * atol)
+        if np.any(Imask):
+            for data_new in vf_new.components.values():
+                # Copy axis not to share it between components
+                data_new.axes = [axis.copy() for axis in data_new.axes]
+                index = [axis.name for axis in data_new.axes].index("freqs")
+                data_new.axes[index].values = data_new.axes[index].values[Imask]
+                data_new.values = np.compress(Imask, data_new.values, axis=index)
+
     return vf_new
-- 
2.43.0


From e1d3dc56d05b520c0e1148470d1098436056ab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:38 +0000
Subject: [PATCH 53/93] fix: change of referential

Lines of a real spectrum brought to a negative frequency were lost instead of
being folded with their conjugate, lines brought to zero had the wrong
amplitude, the lowest line was not doubled when there was no line at zero, and
the time and angle axes had to be the two first ones. In the waveform domain,
angles not starting at zero and axes given by their values failed.
---
 SciDataTool/Functions/change_referential.py   | 64 ++++++++++++---
 .../Methods/DataND/change_referential.py      | 82 +++++++++++--------
 2 files changed, 100 insertions(+), 46 deletions(-)

diff --git a/SciDataTool/Functions/change_referential.py b/SciDataTool/Functions/change_referential.py
index e857f54..98e8995 100644
--- a/SciDataTool/Functions/change_referential.py
+++ b/SciDataTool/Functions/change_referential.py
@@ -4,6 +4,52 @@ import scipy.interpolate as scp_int
 from SciDataTool.Functions.set_routines import unique_tol
 
 
+def add_conjugate_lines(freqs, wavenumbers_circ, spectrum, atol_freq=1e-6):
+    """Add the lines of negative frequency to the spectrum of a real field
+
+    Parameters
+    ----------
+    freqs : ndarray
+        frequencies vector
+    wavenumbers_circ : ndarray
+        circumferential wavenumbers vector
+    spectrum : ndarray
+        spectrum with freqs/wavenumbers_circ as two first axes
+    atol_freq: float
+        Absolute tolerance under which frequencies are assumed to be equal
+
+    Returns
+    -------
+    freqs_new : ndarray
+        positive and negative frequencies
+    wavenumbers_new : ndarray
+        positive and negative wavenumbers
+    spectrum_new : ndarray
+        spectrum with half amplitude at (f, r) and at (-f, -r)
+    """
+    freqs_new, If = unique_tol(
+        np.concatenate((freqs, -freqs)),
+        return_inverse=True,
+        tol=atol_freq,
+        is_abs_tol=True,
+    )
+    wavenumbers_new, Ir = unique_tol(
+        np.concatenate((wavenumbers_circ, -wavenumbers_circ)),
+        return_inverse=True,
+        tol=1e-6,
+        is_abs_tol=True,
+    )
+    Nf = freqs.size
+    Nr = wavenumbers_circ.size
+    spectrum_new = np.zeros(
+        (freqs_new.size, wavenumbers_new.size) + spectrum.shape[2:], dtype=complex
+    )
+    spectrum_new[np.ix_(If[:Nf], Ir[:Nr])] += spectrum / 2
+    spectrum_new[np.ix_(If[Nf:], Ir[Nr:])] += np.conj(spectrum) / 2
+
+    return freqs_new, wavenumbers_new, spectrum_new
+
+
 def change_referential_spectrum(
     freqs,
     wavenumbers_circ,
@@ -92,8 +138,8 @@ def change_referential_spectrum(
         # Multiply by two spectrum components which have f=0, r!=0
         jf0 = np.abs(freqs) < 1e-4
         jr = wavenumbers_circ != 0
-        if any(jf0) and any(jr):
-            spectrum[jf0, jr, :] = 2 * spectrum[jf0, jr, :]
+        spectrum = spectrum.copy()
+        spectrum[np.ix_(jf0, jr)] *= 2
 
     # Calculate spectrum amplitude in new referential by summing all contributions
     # which have the same orders and wavenumber for each slice
@@ -112,11 +158,7 @@ def change_referential_spectrum(
         # Store amplitudes at new frequency/wavenumber positions
         spectrum_new[Irf_un[:, 0], Irf_un[:, 1], k] = amp_new_k
 
-    if is_double_f0 and any(jf0) and any(jr):
-        # Divide by two spectrum components which have f=0, r!=0
-        spectrum[jf0, jr, :] = spectrum[jf0, jr, :] / 2
-
-    if atol > 0:
+    if atol > 0 and np.any(spectrum_new):
         # Filter harmonics that are below input absolute tolerance
         Imask = (
             np.sum(np.sum(np.abs(spectrum_new), axis=2), axis=1)
@@ -205,12 +247,14 @@ def change_referential_waveform(
         Xtime0, Xangle0 = Xtime0.ravel("C"), Xangle0.ravel("C")
 
         # Shift angle according to rotation speed
-        Xangle_new = (Xangle0 + 2 * np.pi * rotation_speed / 60 * Xtime0) % alphaf
+        Xangle_new = angle0[0] + (
+            Xangle0 - angle0[0] + 2 * np.pi * rotation_speed / 60 * Xtime0
+        ) % (alphaf - angle0[0])
         ta_out = (Xtime0, Xangle_new)
 
     # 2D interpolate for new angle array
-    val_new = np.zeros(shape0)
-    valk = np.zeros((Nt + 1, Na + 1))
+    val_new = np.zeros(shape0, dtype=val0.dtype)
+    valk = np.zeros((Nt + 1, Na + 1), dtype=val0.dtype)
     for k in range(Nslice):
         # Make current slice periodic along time and space
         valk[0:Nt, 0:Na] = val0[:, :, k]
diff --git a/SciDataTool/Methods/DataND/change_referential.py b/SciDataTool/Methods/DataND/change_referential.py
index b81b14e..e2979aa 100644
--- a/SciDataTool/Methods/DataND/change_referential.py
+++ b/SciDataTool/Methods/DataND/change_referential.py
@@ -1,6 +1,7 @@
 import numpy as np
 
 from SciDataTool.Functions.change_referential import (
+    add_conjugate_lines,
     change_referential_spectrum,
     change_referential_waveform,
 )
@@ -76,11 +77,6 @@ def change_referential(
     DataLinspace = import_class("SciDataTool.Classes", "DataLinspace")
     DataPattern = import_class("SciDataTool.Classes", "DataPattern")
 
-    if is_waveform:
-        DataClass = import_class("SciDataTool.Classes", "DataTime")
-    else:
-        DataClass = import_class("SciDataTool.Classes", "DataFreq")
-
     # Get axes list
     axes_list = self.get_axes()
     axes_name = [axis.name for axis in axes_list]
@@ -101,23 +97,38 @@ def change_referential(
                     arg_list.append("wavenumber")
             elif axis.name == "z" and isinstance(axis, DataPattern):
                 arg_list.append("z[smallestpattern]")
-            else:
+            elif axis.name in ["freqs", "wavenumber"]:
                 arg_list.append(axis.name)
+            else:
+                arg_list.append(axis.name + "[smallestperiod]")
 
     # Referential changed is requested in waveform domain if time is in arg_list
     is_waveform = "time[oneperiod]" in arg_list
 
-    if not is_waveform and hasattr(self, "is_real"):
-        # Force non real data to get all spectrum
-        is_real = self.is_real
-        self.is_real = False
+    if is_waveform:
+        DataClass = import_class("SciDataTool.Classes", "DataTime")
     else:
-        is_real = True
+        DataClass = import_class("SciDataTool.Classes", "DataFreq")
 
-    # Extract data from vectorfield on one period
-    result = self.get_along(*arg_list, is_squeeze=False)
+    is_real = self.is_real
+    try:
+        if not is_waveform:
+            # Force non real data to get all spectrum
+            self.is_real = False
+        # Extract data from vectorfield on one period
+        result = self.get_along(*arg_list, is_squeeze=False)
+    finally:
+        # Reset data
+        self.is_real = is_real
     values = result[self.symbol]
 
+    # Put time/freqs and angle/wavenumber in the two first positions
+    index_t = [i for i, n in enumerate(axes_name) if n in ["time", "freqs"]][0]
+    index_a = [i for i, n in enumerate(axes_name) if n in ["angle", "wavenumber"]][0]
+    values = np.moveaxis(values, (index_t, index_a), (0, 1))
+    shape_other = values.shape[2:]
+    values = values.reshape(values.shape[:2] + (-1,))
+
     if is_waveform:
         # Get axes values
         time0 = result["time"]
@@ -127,7 +138,7 @@ def change_referential(
         is_aper_t = "antiperiod" in sym_t_new
 
         # Get angle periodicity on one period
-        per_a, is_aper_a = axes_list[1].get_periodicity()
+        per_a, is_aper_a = axes_list[index_a].get_periodicity()
         per_a = int(per_a / 2) if is_aper_a else per_a
 
         val_new, time_new, angle_new, ta_in, ta_out = change_referential_waveform(
@@ -144,6 +155,12 @@ def change_referential(
         freqs = result["freqs"]
         wavenumber = result["wavenumber"]
 
+        if is_real and "freqs" in axes_name:
+            # Lines of negative frequency are not stored in a real spectrum
+            freqs, wavenumber, values = add_conjugate_lines(
+                freqs, wavenumber, values, atol_freq
+            )
+
         val_new, freqs_new, I1, Irf_un = change_referential_spectrum(
             freqs,
             wavenumber,
@@ -153,42 +170,39 @@ def change_referential(
             freqs_new=freqs_new,
             I1=I1,
             Irf_un=Irf_un,
-            is_double_f0=is_real and "freqs" in axes_name,
             atol_freq=atol_freq,
         )
 
-        if is_real:
-            # Adapt spectrum amplitude
-            if "time" in axes_name:
-                # Input data is DataTime, FFT has just been performed in four quadrants
-                # so all amplitudes are multiplied by 2 after restriction to positive frequencies
-                coeff = 2
-            else:
-                # Input data is DataFreq, since data is a real spectrum no need to multiply again
-                # all harmonics by two
-                coeff = 1
+        # Lines brought to zero frequency
+        freqs_new = np.where(np.abs(freqs_new) < atol_freq, 0, freqs_new)
 
-            # Restrict spectrum to positive frequencies only and multiply amplitudes by coeff
+        if is_real:
+            # Restrict spectrum to positive frequencies only and multiply amplitudes
+            # by two except at zero frequency
             Ifreq_pos = freqs_new >= 0
             freqs_store = freqs_new[Ifreq_pos]
-            val_new = val_new[Ifreq_pos] * coeff
-            val_new[0] = val_new[0] / coeff
+            val_new = val_new[Ifreq_pos] * 2
+            val_new[freqs_store == 0] = val_new[freqs_store == 0] / 2
         else:
             freqs_store = freqs_new
 
+    # Put axes back in their original positions
+    val_new = val_new.reshape(val_new.shape[:2] + shape_other)
+    val_new = np.moveaxis(val_new, (0, 1), (index_t, index_a))
+
     if len(axes_list_change) == 0:
         axes_list_change = list()
         for axis in axes_list:
 
             if axis.name == "time" and is_waveform:
                 axis_new = axis.copy()
-                axis_new.symmetries = sym_t_new
-                axis_new.number = time_new.size
+                axis_new.symmetries = sym_t_new.copy()
                 if isinstance(axis_new, DataLinspace):
+                    axis_new.number = time_new.size
                     axis_new.final = time_new[-1]
                     axis_new.include_endpoint = True
                 else:
-                    axis_new.values = time0
+                    axis_new.values = time_new
 
             elif axis.name == "angle" and is_waveform:
                 axis_new = axis.copy()
@@ -196,8 +210,8 @@ def change_referential(
                     axis_new.symmetries = {"antiperiod": int(2 * per_a)}
                 else:
                     axis_new.symmetries = {"period": per_a}
-                axis_new.number = angle_new.size
                 if isinstance(axis_new, DataLinspace):
+                    axis_new.number = angle_new.size
                     axis_new.final = angle_new[-1]
                     axis_new.include_endpoint = True
                 else:
@@ -238,8 +252,4 @@ def change_referential(
         is_real=is_real,
     )
 
-    if not is_waveform and hasattr(self, "is_real"):
-        # Reset data
-        self.is_real = is_real
-
     return data_new, axes_list_change, arg_list, freqs_new, I1, Irf_un, ta_in, ta_out
-- 
2.43.0


From 6340e3b8b338983836e6affe9cef664be06463b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:22 +0000
Subject: [PATCH 54/93] fix: largest harmonics of a field stored by order then
 frequency

The orders and frequencies returned were those of other lines, and a request
for a single line failed.
---
 SciDataTool/Methods/DataND/get_harmonics.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_harmonics.py b/SciDataTool/Methods/DataND/get_harmonics.py
index dbf42cf..c0ac317 100644
--- a/SciDataTool/Methods/DataND/get_harmonics.py
+++ b/SciDataTool/Methods/DataND/get_harmonics.py
@@ -2,6 +2,7 @@ from numpy import (
     argsort,
     negative,
     meshgrid,
+    atleast_1d,
 )
 
 
@@ -32,7 +33,7 @@ def get_harmonics(
     return_dict = self.get_magnitude_along(
         args, unit=unit, is_norm=is_norm, axis_data=axis_data
     )
-    values = return_dict[self.symbol]
+    values = atleast_1d(return_dict[self.symbol])
 
     # 2D case
     if "freqs" in return_dict and "wavenumber" in return_dict:
@@ -40,7 +41,11 @@ def get_harmonics(
         f = return_dict["freqs"]
         # Flatten the data
         values_flat = values.flatten()
-        R, F = meshgrid(r, f)
+        names = [axis.name for axis in return_dict["axes_list"]]
+        if names.index("freqs") < names.index("wavenumber"):
+            R, F = meshgrid(r, f)
+        else:
+            F, R = meshgrid(f, r)
         f = F.flatten()
         r = R.flatten()
         # Get the N_harm largest peaks
-- 
2.43.0


From 4feb18ab36973133ada3b260965b0252e8958242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:22 +0000
Subject: [PATCH 55/93] fix: phase requested in rad

---
 SciDataTool/Methods/DataND/get_phase_along.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/get_phase_along.py b/SciDataTool/Methods/DataND/get_phase_along.py
index 732b0f2..5233ae8 100644
--- a/SciDataTool/Methods/DataND/get_phase_along.py
+++ b/SciDataTool/Methods/DataND/get_phase_along.py
@@ -39,6 +39,6 @@ def get_phase_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     elif unit in self.normalizations:
         values = self.normalizations.get(unit).normalize(values)
     else:
-        values = convert(values, self.unit, unit)
+        values = convert(values, "rad", unit)
     return_dict[self.symbol] = values
     return return_dict
-- 
2.43.0


From 2ca3dd65d67e28f78394db3fc18ffbe6d10a0391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:40 +0000
Subject: [PATCH 56/93] fix: unit of derivatives and integrals of dimensionless
 fields

The unit string was edited letter by letter, so that the integral of a
dimensionless field over time had the unit "dimles2s2". Units are now
split into names and powers.
---
 SciDataTool/Functions/conversions.py | 128 +++++++++------------------
 1 file changed, 44 insertions(+), 84 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index ec3dc85..6bc6f4b 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -1,3 +1,5 @@
+import re
+
 from SciDataTool.Functions import UnitError
 from SciDataTool.Functions.fft_functions import (
     comp_fft_freqs,
@@ -123,99 +125,57 @@ def multiply_dim_prefix(factors):
 
 
 def get_unit_derivate(unit_str, axis_unit):
-    unit_str = unit_str.replace("*", "").replace(" ", "").replace("^", "")
-    if axis_unit == "Hz":
-        axis_unit = "s"
-    if axis_unit == "rad":
-        axis_unit = "m"
-    p = 0
-    if "/" in unit_str:
-        unit_num = unit_str.split("/")[0]
-        unit_denom = unit_str.split("/")[1]
-    else:
-        unit_num = unit_str
-        unit_denom = ""
-    if axis_unit in unit_num:
-        p = 1
-        if unit_num.rsplit(axis_unit, 1)[1].isdigit():
-            p = int(unit_num.rsplit(axis_unit, 1)[1])
-        p_new = p - 1
-        # Case axis_unit must be withdrawn
-        if p_new == 0:
-            unit_str = unit_str.replace(axis_unit, "")
-        elif p_new == 1:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit)
-        else:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit + str(p_new))
-    elif axis_unit in unit_denom:
-        p = 1
-        if unit_denom.rsplit(axis_unit, 1)[1].isdigit():
-            p = int(unit_denom.rsplit(axis_unit, 1)[1])
-        p_new = p + 1
-        # Case p was 1
-        if p_new == 2:
-            unit_str = unit_str.replace(axis_unit, axis_unit + "2")
-        elif p_new == 1:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit)
-        else:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit + str(p_new))
-    else:
-        # Case axis_unit was not in unit_str
-        if unit_denom != "":
-            unit_str += axis_unit
-        else:
-            unit_str += "/" + axis_unit
-    return unit_str
+    return multiply_unit(unit_str, axis_unit, -1)
 
 
 def get_unit_integrate(unit_str, axis_unit):
+    return multiply_unit(unit_str, axis_unit, 1)
+
+
+def multiply_unit(unit_str, axis_unit, power):
+    """Returns the unit multiplied by a power of the unit of an axis
+    Parameters
+    ----------
+    unit_str: str
+        unit of the field
+    axis_unit: str
+        unit of the axis
+    power: int
+        power of the unit of the axis
+    Returns
+    -------
+    str of the new unit
+    """
     unit_str = unit_str.replace("*", "").replace(" ", "").replace("^", "")
     if axis_unit == "Hz":
         axis_unit = "s"
     if axis_unit == "rad":
         axis_unit = "m"
-    p = 0
-    if "/" in unit_str:
-        unit_num = unit_str.split("/")[0]
-        unit_denom = unit_str.split("/")[1]
+    # Split into single units with their powers
+    symbols = [key[0] for key in unit_symbols] + ["km", "cm", "mm", axis_unit]
+    symbols.sort(key=len, reverse=True)
+    pattern = "(" + "|".join([re.escape(key) for key in symbols]) + r"|\D)(\d*)"
+    num, *denoms = unit_str.split("/")
+    units = [
+        [name, sign * int(p or 1)]
+        for sign, part in [(1, num)] + [(-1, denom) for denom in denoms]
+        for name, p in re.findall(pattern, part)
+        if name != "dimless"
+    ]
+    for unit in units:
+        if unit[0] == axis_unit:
+            unit[1] += power
+            break
     else:
-        unit_num = unit_str
-        unit_denom = ""
-    if axis_unit in unit_num:
-        p = 1
-        if unit_num.rsplit(axis_unit, 1)[1].isdigit():
-            p = int(unit_num.rsplit(axis_unit, 1)[1])
-        p_new = p + 1
-        # Case p was 1
-        if p_new == 2:
-            unit_str = unit_str.replace(axis_unit, axis_unit + "2")
-        elif p_new == 1:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit)
-        else:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit + str(p_new))
-    elif axis_unit in unit_denom:
-        p = 1
-        if unit_denom.rsplit(axis_unit, 1)[1].isdigit():
-            p = int(unit_denom.rsplit(axis_unit, 1)[1])
-        p_new = p - 1
-        # Case axis_unit must be withdrawn
-        if p_new == 0:
-            unit_denom = unit_denom.replace(axis_unit, "")
-            if unit_denom == "":
-                unit_str = unit_num
-            else:
-                unit_str = unit_str.replace(axis_unit, "")
-        elif p_new == 1:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit)
-        else:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit + str(p_new))
-    else:
-        # Case axis_unit was not in unit_str
-        if unit_denom != "":
-            unit_str = unit_num + axis_unit + "/" + unit_denom
-        else:
-            unit_str += axis_unit
-    return unit_str
+        units.append([axis_unit, power])
+    # Rebuild the unit
+    num, denom = [
+        "".join(
+            [name + (str(s * p) if s * p > 1 else "") for name, p in units if s * p > 0]
+        )
+        for s in [1, -1]
+    ]
+    return num + "/" + denom if denom else num
 
 
 def convert(values, unit1, unit2):
-- 
2.43.0


From 80484ad4409457260cd379df4748df76fd6469cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:40 +0000
Subject: [PATCH 57/93] fix: units of the field and axes returned by
 get_data_along

The values were converted into the requested units, but the returned
object kept the original units.
---
 SciDataTool/Methods/DataND/get_data_along.py | 36 +++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_data_along.py b/SciDataTool/Methods/DataND/get_data_along.py
index 45f1d3c..5253d2e 100644
--- a/SciDataTool/Methods/DataND/get_data_along.py
+++ b/SciDataTool/Methods/DataND/get_data_along.py
@@ -85,12 +85,21 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
                 symmetries = self.axes[index].symmetries.copy()
             else:
                 symmetries = dict()
+            # Update unit if the axis is converted
+            normalizations = self.axes[index].normalizations.copy()
+            if is_converted(requested, normalizations):
+                ax_unit = requested.unit
+                # Normalizations apply to the original unit
+                for key in normalizations:
+                    normalizations[key] = normalizations[key].copy()
+                    if normalizations[key].unit == "SI":
+                        normalizations[key].unit = self.axes[index].unit
             Axis = Data1D(
                 name=name,
                 unit=ax_unit,
                 values=axis_values,
                 is_components=is_components,
-                normalizations=self.axes[index].normalizations.copy(),
+                normalizations=normalizations,
                 symmetries=symmetries,
             ).to_linspace()
             if hasattr(self.axes[index], "sort_indices") and hasattr(
@@ -99,17 +108,20 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
                 Axis.sort_indices = self.axes[index].sort_indices
             Axes.append(Axis)
 
-    # Update unit if dB/dBA conversion
-    if "dB" in unit:
-        unit = unit
-    else:
-        # Update unit if derivation or integration
+    # Update unit if the field is converted
+    if unit == "SI" or unit in self.normalizations:
         unit = self.unit
+    if "dB" not in unit:
+        # Update unit if derivation or integration
         for axis in axes_list:
+            if is_converted(axis, self.axes[axis.index].normalizations):
+                axis_unit = axis.unit
+            else:
+                axis_unit = axis.corr_unit
             if axis.extension in ["antiderivate", "integrate", "integrate_local"]:
-                unit = get_unit_integrate(unit, axis.corr_unit)
+                unit = get_unit_integrate(unit, axis_unit)
             elif axis.extension == "derivate":
-                unit = get_unit_derivate(unit, axis.corr_unit)
+                unit = get_unit_derivate(unit, axis_unit)
 
     return DataClass(
         name=self.name,
@@ -120,3 +132,11 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         normalizations=self.normalizations.copy(),
         is_real=self.is_real,
     )
+
+
+def is_converted(axis_requested, normalizations):
+    """Tells if a requested axis is converted into another unit"""
+    return (
+        axis_requested.unit not in ["SI", axis_requested.corr_unit]
+        and axis_requested.unit not in normalizations
+    )
-- 
2.43.0


From d7b9e90c83702861529382933643b8a784657ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:59:03 +0000
Subject: [PATCH 58/93] fix: reduction of axes to a given number of periods

Normalization vectors of the original axis were cut, axes given by values
which were already periodic lost their symmetry, and axes reduced to one
sample could not be rebuilt.
---
 SciDataTool/Methods/Data1D/get_axis_periodic.py  | 16 ++++++++++++----
 .../Methods/DataLinspace/get_axis_periodic.py    | 14 +++++++++++---
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/get_axis_periodic.py b/SciDataTool/Methods/Data1D/get_axis_periodic.py
index f5fb4ee..be616cf 100644
--- a/SciDataTool/Methods/Data1D/get_axis_periodic.py
+++ b/SciDataTool/Methods/Data1D/get_axis_periodic.py
@@ -1,4 +1,5 @@
 from SciDataTool.Functions import AxisError
+from SciDataTool.Functions.symmetries import rebuild_symmetries_axis
 from SciDataTool.Classes.Norm_vector import Norm_vector
 
 
@@ -27,15 +28,19 @@ def get_axis_periodic(self, Nper, is_aper=False):
     try:
         # Reduce axis to the given periodicity
         Nper = Nper * 2 if is_aper else Nper
-        values = self.values
+        values = self.get_values()
         N = self.get_length()
 
         if N % Nper != 0:
             raise AxisError("length of axis is not divisible by the number of periods")
         values_per = values[: int(N / Nper)]
-        for norm in self.normalizations.values():
+        # Reduce normalization vectors without changing those of the original axis
+        normalizations = self.normalizations.copy()
+        for key, norm in normalizations.items():
             if isinstance(norm, Norm_vector):
-                norm.vector = norm.vector[: int(N / Nper)]
+                vector = rebuild_symmetries_axis(norm.vector, self.symmetries)
+                normalizations[key] = norm.copy()
+                normalizations[key].vector = vector[: int(N / Nper)]
 
         if is_aper:
             sym = "antiperiod"
@@ -46,13 +51,16 @@ def get_axis_periodic(self, Nper, is_aper=False):
             symmetries = dict()
         else:
             symmetries = {sym: Nper}
+            if len(values_per) == 1:
+                # Step is needed to rebuild the axis from a single sample
+                symmetries["delta"] = values[1] - values[0]
 
         New_axis = Data1D(
             values=values_per,
             name=self.name,
             unit=self.unit,
             symmetries=symmetries,
-            normalizations=self.normalizations,
+            normalizations=normalizations,
             is_components=self.is_components,
             symbol=self.symbol,
         )
diff --git a/SciDataTool/Methods/DataLinspace/get_axis_periodic.py b/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
index 15e6887..52c0bfe 100644
--- a/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
+++ b/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
@@ -1,4 +1,5 @@
 from SciDataTool.Functions import AxisError
+from SciDataTool.Functions.symmetries import rebuild_symmetries_axis
 from SciDataTool.Classes.Norm_vector import Norm_vector
 
 
@@ -33,9 +34,13 @@ def get_axis_periodic(self, Nper, is_aper=False):
         if N % Nper != 0:
             raise AxisError("length of axis is not divisible by the number of periods")
         values_per = values[: int(N / Nper)]
-        for norm in self.normalizations.values():
+        # Reduce normalization vectors without changing those of the original axis
+        normalizations = self.normalizations.copy()
+        for key, norm in normalizations.items():
             if isinstance(norm, Norm_vector):
-                norm.vector = norm.vector[: int(N / Nper)]
+                vector = rebuild_symmetries_axis(norm.vector, self.symmetries)
+                normalizations[key] = norm.copy()
+                normalizations[key].vector = vector[: int(N / Nper)]
 
         if is_aper:
             sym = "antiperiod"
@@ -46,6 +51,9 @@ def get_axis_periodic(self, Nper, is_aper=False):
             symmetries = dict()
         else:
             symmetries = {sym: Nper}
+            if len(values_per) == 1:
+                # Step is needed to rebuild the axis from a single sample
+                symmetries["delta"] = values[1] - values[0]
 
         New_axis = DataLinspace(
             initial=self.initial,
@@ -55,7 +63,7 @@ def get_axis_periodic(self, Nper, is_aper=False):
             name=self.name,
             unit=self.unit,
             symmetries=symmetries,
-            normalizations=self.normalizations.copy(),
+            normalizations=normalizations,
             is_components=self.is_components,
             symbol=self.symbol,
         )
-- 
2.43.0


From febfe1de10b3a5919233128b86c6dc174e5aee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:59:03 +0000
Subject: [PATCH 59/93] fix: change of periodicity of vector fields

Only fields with exactly three axes in the order time, angle, z were
handled, the new uniform axes were too short for antiperiodic fields and
wrong when not starting at zero, and a change from antiperiodic to
periodic was ignored.
---
 .../Methods/VectorField/change_periodicity.py | 132 +++++-------------
 1 file changed, 37 insertions(+), 95 deletions(-)

diff --git a/SciDataTool/Methods/VectorField/change_periodicity.py b/SciDataTool/Methods/VectorField/change_periodicity.py
index 0d5af32..af6078f 100644
--- a/SciDataTool/Methods/VectorField/change_periodicity.py
+++ b/SciDataTool/Methods/VectorField/change_periodicity.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from SciDataTool.Functions.Load.import_class import import_class
+from SciDataTool.Functions import AxisError
 
 
 def change_periodicity(
@@ -27,119 +27,61 @@ def change_periodicity(
         Vectorfield converted with new periodicities
     """
 
-    DataLinspace = import_class("SciDataTool.Classes", "DataLinspace")
-    DataPattern = import_class("SciDataTool.Classes", "DataPattern")
-
     # Get axes list in original VectorField
-    # Assumes axes are the following: time, angle, z and z is DataPattern or radius
     axes_list = self.get_axes()
 
-    # Get replicating number for time axis
-    per_t, is_aper_t = axes_list[0].get_periodicity()
-    per_t = int(per_t / 2) if is_aper_t else per_t
-    Nrep_t = int(per_t / per_t_new)
-    Nt = Nrep_t * axes_list[0].get_length(
-        is_oneperiod=Nrep_t > 1 or (Nrep_t == 1 and not is_aper_t_new),
-        is_antiperiod=Nrep_t == 1 and is_aper_t_new,
-    )
+    # New periodicities of time and angle axes
+    per_new = {
+        "time": (per_t_new, is_aper_t_new),
+        "angle": (per_a_new, is_aper_a_new),
+    }
 
-    # Get replicating number for angle axis
-    per_a, is_aper_a = axes_list[1].get_periodicity()
-    if is_aper_a_new is None:
-        is_aper_a_new = is_aper_a
-    per_a = int(per_a / 2) if is_aper_a else per_a
-    Nrep_a = int(per_a / per_a_new)
-    Na = Nrep_a * axes_list[1].get_length(
-        is_oneperiod=Nrep_a > 1 or (Nrep_a == 1 and not is_aper_a_new),
-        is_antiperiod=Nrep_a == 1 and is_aper_a_new,
-    )
+    arg_list = list()  # Part of each axis which is replicated
+    Nrep_list = list()  # Number of replications of each axis
+    axes_list_new = list()
+    is_changed = False
+    for axis in axes_list:
+        axis_new = axis
+        arg = "[smallestperiod]"
+        Nrep = 1
+        if axis.name in per_new:
+            Nper_new, is_aper_new = per_new[axis.name]
+            per, is_aper = axis.get_periodicity()
+            if is_aper_new is None:
+                is_aper_new = is_aper
+            per = int(per / 2) if is_aper else per
+            Nrep = int(per / Nper_new)
+            if Nrep > 1:
+                # Several periods are put together, anti-periodicity is lost
+                is_aper_new = False
+            elif is_aper_new and not is_aper:
+                raise AxisError("axis has no antiperiodicity")
+            if Nrep > 1 or is_aper_new != is_aper:
+                arg = "[oneperiod]"
+                axis_new = axis.get_axis_periodic(Nper_new, is_aper_new)
+                is_changed = True
+        arg_list.append(axis.name + arg)
+        Nrep_list.append(Nrep)
+        axes_list_new.append(axis_new)
 
-    if Nrep_t == 1 and Nrep_a == 1:
+    if not is_changed:
         # Return VectorField as it is
         return self.copy()
 
     # Init periodicity changed VectorField
     vf_new = type(self)(name=self.name, symbol=self.symbol, components=dict())
 
-    # Keep time anti-periodicity if it exists
-    if Nrep_t == 1 and is_aper_t_new:
-        time_arg = "time[smallestperiod]"
-    else:
-        time_arg = "time[oneperiod]"
-
-    # Keep spatial anti-periodicity if it exists
-    if Nrep_a == 1 and is_aper_a_new:
-        angle_arg = "angle[smallestperiod]"
-    else:
-        angle_arg = "angle[oneperiod]"
-
-    # Get argument list for call to get_rphiz_along on one time and space period
-    arg_list = [time_arg, angle_arg]
-    if isinstance(self.get_axes()[-1], DataPattern):
-        arg_list.append("z[smallestpattern]")
-    else:
-        arg_list.append(self.get_axes()[-1].name)
-
-    # Get axes values on requested axes
-    result = self.get_rphiz_along(*arg_list, is_squeeze=False)
-    axes_list_new = list()
-    for axis in axes_list:
-        axis_new = axis.copy()
-        # Change time periodicity
-        if Nrep_t > 1 and axis.name == "time":
-            axis_new.symmetries = {"period": per_t_new}
-            time_full = result["time"]
-            if isinstance(axis_new, DataLinspace):
-                if axis.include_endpoint:
-                    t_final = time_full[-1] + time_full[1] - time_full[0]
-                else:
-                    t_final = axis.final
-                axis_new.number = Nt
-                axis_new.final = Nrep_t * t_final
-                axis_new.include_endpoint = False
-            else:
-                t_final = time_full[-1] + time_full[1] - time_full[0]
-                for k in range(1, Nrep_t):
-                    time_full = np.append(time_full, result["time"] + k * t_final)
-                axis_new.values = time_full
-        # Change angle periodicity
-        if Nrep_a > 1 and axis.name == "angle":
-            axis_new.symmetries = {"period": per_a_new}
-            angle_full = result["angle"]
-            if isinstance(axis_new, DataLinspace):
-                if axis.include_endpoint:
-                    a_final = angle_full[-1] + angle_full[1] - angle_full[0]
-                else:
-                    a_final = axis.final
-                axis_new.number = Na
-                axis_new.final = Nrep_a * a_final
-                axis_new.include_endpoint = False
-            else:
-                a_final = angle_full[-1] + angle_full[1] - angle_full[0]
-                for k in range(1, Nrep_a):
-                    angle_full = np.append(angle_full, result["angle"] + k * a_final)
-                axis_new.values = angle_full
-
-        axes_list_new.append(axis_new)
-
     # Replicate values by the number of repetitions
     for comp, data in self.components.items():
-
-        # Duplicate values
-        if Nrep_t > 1 and Nrep_a > 1:
-            val_new = np.tile(result[comp], (Nrep_t, Nrep_a, 1))
-        elif Nrep_t > 1:
-            val_new = np.tile(result[comp], (Nrep_t, 1, 1))
-        elif Nrep_a > 1:
-            val_new = np.tile(result[comp], (1, Nrep_a, 1))
+        result = data.get_along(*arg_list, is_squeeze=False)
 
         # Create new data object with updated periodicities
         data_new = type(data)(
             name=data.name,
             symbol=data.symbol,
             unit=data.unit,
-            axes=axes_list_new,
-            values=val_new,
+            axes=[axis.copy() for axis in axes_list_new],
+            values=np.tile(result[data.symbol], Nrep_list),
             normalizations=data.normalizations.copy(),
             is_real=data.is_real,
         )
-- 
2.43.0


From 2b1f52384ce49850420dc4867b742d31480ee634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:07 +0000
Subject: [PATCH 60/93] fix: comparison of fields given on different axes

The interpolation was called without the dimension of the axis, and the
common axis could start and end at wrong samples.
---
 SciDataTool/Functions/interpolations.py       | 46 +++++++++++++------
 SciDataTool/Methods/DataND/compare_along.py   | 36 +++++++++++----
 .../Methods/DataND/compare_magnitude_along.py | 36 +++++++++++----
 .../Methods/DataND/compare_phase_along.py     | 36 +++++++++++----
 4 files changed, 113 insertions(+), 41 deletions(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index 4ac7782..6a9fdf6 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -42,23 +42,41 @@ def get_common_base(values1, values2, is_extrap=False, is_downsample=False):
             len([i for i in values2 if i >= initial and i <= final]),
         )
     else:
-        length1 = len([i for i in values1 if i >= initial and i <= final])
-        length2 = len([i for i in values2 if i >= initial and i <= final])
-        if length1 > length2:
-            number = length1
-            if initial not in values1:
-                initial = values1[argmin(np_abs([i - initial for i in values1])) + 1]
-            if final not in values1:
-                final = values1[argmin(np_abs([i - final for i in values1])) - 1]
-        else:
-            number = length2
-            if initial not in values2:
-                initial = values2[argmin(np_abs([i - initial for i in values2])) + 1]
-            if final not in values2:
-                final = values2[argmin(np_abs([i - final for i in values2])) - 1]
+        # Keep the samples of the finest axis which are in the common range
+        common1 = [i for i in values1 if i >= initial and i <= final]
+        common2 = [i for i in values2 if i >= initial and i <= final]
+        common = common1 if len(common1) > len(common2) else common2
+        number = len(common)
+        if number > 0:
+            initial = common[0]
+            final = common[-1]
     return linspace(initial, final, int(number), endpoint=True)
 
 
+def get_axis_index(axes_list, axes_values, name):
+    """Returns the dimension of an axis in a squeezed field
+    Parameters
+    ----------
+    axes_list: list
+        list of the requested axes
+    axes_values: dict
+        values of the requested axes
+    name: str
+        name of the axis
+    Returns
+    -------
+    index of the dimension, None if the axis is squeezed
+    """
+    index = 0
+    for axis in axes_list:
+        values = axes_values[axis.name]
+        is_squeezed = isinstance(values, str) or len(values) == 1
+        if axis.name == name:
+            return None if is_squeezed else index
+        if not is_squeezed:
+            index += 1
+
+
 def get_interpolation(values, axis_values, new_axis_values, index):
     """Returns the interpolated field along one axis, given the new axis
     Parameters
diff --git a/SciDataTool/Methods/DataND/compare_along.py b/SciDataTool/Methods/DataND/compare_along.py
index 18cd2dd..778ceee 100644
--- a/SciDataTool/Methods/DataND/compare_along.py
+++ b/SciDataTool/Methods/DataND/compare_along.py
@@ -1,4 +1,9 @@
-from SciDataTool.Functions.interpolations import get_common_base, get_interpolation
+from SciDataTool.Functions.interpolations import (
+    get_axis_index,
+    get_common_base,
+    get_interpolation,
+)
+from numpy import squeeze
 
 
 def compare_along(self, *args, data_list=[], unit="SI", is_norm=False):
@@ -30,32 +35,45 @@ def compare_along(self, *args, data_list=[], unit="SI", is_norm=False):
         axes = results
         data_axis_values = []
         data_values = []
+        data_axes_list = []
         return_dict = {}
         for data in data_list:
             results = data.get_along(args, unit=unit, is_norm=is_norm)
             data_values.append(results.pop(data.symbol))
+            data_axes_list.append(results.pop("axes_list"))
             data_axis_values.append(results)
         # Get the common bases
         common_axis_values = {}
         for axis in axes.keys():
+            if isinstance(axes[axis], str):
+                # Axis is reduced by an operation
+                return_dict[axis] = axes[axis]
+                continue
             common_axis_values[axis] = axes[axis]
             for i, data in enumerate(data_list):
                 common_axis_values[axis] = get_common_base(
                     common_axis_values[axis], data_axis_values[i][axis]
                 )
             # Interpolate over common axis values
-            values = get_interpolation(values, axes[axis], common_axis_values[axis])
-            for i, data in enumerate(data_list):
-                data_values[i] = get_interpolation(
-                    data_values[i],
-                    data_axis_values[i][axis],
-                    common_axis_values[axis],
+            index = get_axis_index(axes_list, axes, axis)
+            if index is not None:
+                values = get_interpolation(
+                    values, axes[axis], common_axis_values[axis], index
                 )
+            for i, data in enumerate(data_list):
+                index = get_axis_index(data_axes_list[i], data_axis_values[i], axis)
+                if index is not None:
+                    data_values[i] = get_interpolation(
+                        data_values[i],
+                        data_axis_values[i][axis],
+                        common_axis_values[axis],
+                        index,
+                    )
             return_dict[axis] = common_axis_values[axis]
         # Return axis and values
-        return_dict[self.symbol] = values
+        return_dict[self.symbol] = squeeze(values)
         return_dict["axes_list"] = axes_list
         return_dict["axes_dict_other"] = axes_dict_other
         for i, data in enumerate(data_list):
-            return_dict[data.symbol + "_" + str(i)] = data_values[i]
+            return_dict[data.symbol + "_" + str(i)] = squeeze(data_values[i])
         return return_dict
diff --git a/SciDataTool/Methods/DataND/compare_magnitude_along.py b/SciDataTool/Methods/DataND/compare_magnitude_along.py
index 4fd0ea9..24fe543 100644
--- a/SciDataTool/Methods/DataND/compare_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/compare_magnitude_along.py
@@ -1,4 +1,9 @@
-from SciDataTool.Functions.interpolations import get_common_base, get_interpolation
+from SciDataTool.Functions.interpolations import (
+    get_axis_index,
+    get_common_base,
+    get_interpolation,
+)
+from numpy import squeeze
 
 
 def compare_magnitude_along(self, *args, unit="SI", data_list=[], is_norm=False):
@@ -30,32 +35,45 @@ def compare_magnitude_along(self, *args, unit="SI", data_list=[], is_norm=False)
         axes = results
         data_axis_values = []
         data_values = []
+        data_axes_list = []
         return_dict = {}
         for data in data_list:
             results = data.get_magnitude_along(args, unit=unit, is_norm=is_norm)
             data_values.append(results.pop(data.symbol))
+            data_axes_list.append(results.pop("axes_list"))
             data_axis_values.append(results)
         # Get the common bases
         common_axis_values = {}
         for axis in axes.keys():
+            if isinstance(axes[axis], str):
+                # Axis is reduced by an operation
+                return_dict[axis] = axes[axis]
+                continue
             common_axis_values[axis] = axes[axis]
             for i, data in enumerate(data_list):
                 common_axis_values[axis] = get_common_base(
                     common_axis_values[axis], data_axis_values[i][axis]
                 )
             # Interpolate over common axis values
-            values = get_interpolation(values, axes[axis], common_axis_values[axis])
-            for i, data in enumerate(data_list):
-                data_values[i] = get_interpolation(
-                    data_values[i],
-                    data_axis_values[i][axis],
-                    common_axis_values[axis],
+            index = get_axis_index(axes_list, axes, axis)
+            if index is not None:
+                values = get_interpolation(
+                    values, axes[axis], common_axis_values[axis], index
                 )
+            for i, data in enumerate(data_list):
+                index = get_axis_index(data_axes_list[i], data_axis_values[i], axis)
+                if index is not None:
+                    data_values[i] = get_interpolation(
+                        data_values[i],
+                        data_axis_values[i][axis],
+                        common_axis_values[axis],
+                        index,
+                    )
             return_dict[axis] = common_axis_values[axis]
         # Return axis and values
-        return_dict[self.symbol] = values
+        return_dict[self.symbol] = squeeze(values)
         return_dict["axes_list"] = axes_list
         return_dict["axes_dict_other"] = axes_dict_other
         for i, data in enumerate(data_list):
-            return_dict[data.symbol + "_" + str(i)] = data_values[i]
+            return_dict[data.symbol + "_" + str(i)] = squeeze(data_values[i])
         return return_dict
diff --git a/SciDataTool/Methods/DataND/compare_phase_along.py b/SciDataTool/Methods/DataND/compare_phase_along.py
index bf45c0d..31e9ea2 100644
--- a/SciDataTool/Methods/DataND/compare_phase_along.py
+++ b/SciDataTool/Methods/DataND/compare_phase_along.py
@@ -1,4 +1,9 @@
-from SciDataTool.Functions.interpolations import get_common_base, get_interpolation
+from SciDataTool.Functions.interpolations import (
+    get_axis_index,
+    get_common_base,
+    get_interpolation,
+)
+from numpy import squeeze
 
 
 def compare_phase_along(self, *args, unit="SI", data_list=[], is_norm=False):
@@ -30,32 +35,45 @@ def compare_phase_along(self, *args, unit="SI", data_list=[], is_norm=False):
         axes = results
         data_axis_values = []
         data_values = []
+        data_axes_list = []
         return_dict = {}
         for data in data_list:
             results = data.get_phase_along(args, unit=unit, is_norm=is_norm)
             data_values.append(results.pop(data.symbol))
+            data_axes_list.append(results.pop("axes_list"))
             data_axis_values.append(results)
         # Get the common bases
         common_axis_values = {}
         for axis in axes.keys():
+            if isinstance(axes[axis], str):
+                # Axis is reduced by an operation
+                return_dict[axis] = axes[axis]
+                continue
             common_axis_values[axis] = axes[axis]
             for i, data in enumerate(data_list):
                 common_axis_values[axis] = get_common_base(
                     common_axis_values[axis], data_axis_values[i][axis]
                 )
             # Interpolate over common axis values
-            values = get_interpolation(values, axes[axis], common_axis_values[axis])
-            for i, data in enumerate(data_list):
-                data_values[i] = get_interpolation(
-                    data_values[i],
-                    data_axis_values[i][axis],
-                    common_axis_values[axis],
+            index = get_axis_index(axes_list, axes, axis)
+            if index is not None:
+                values = get_interpolation(
+                    values, axes[axis], common_axis_values[axis], index
                 )
+            for i, data in enumerate(data_list):
+                index = get_axis_index(data_axes_list[i], data_axis_values[i], axis)
+                if index is not None:
+                    data_values[i] = get_interpolation(
+                        data_values[i],
+                        data_axis_values[i][axis],
+                        common_axis_values[axis],
+                        index,
+                    )
             return_dict[axis] = common_axis_values[axis]
         # Return axis and values
-        return_dict[self.symbol] = values
+        return_dict[self.symbol] = squeeze(values)
         return_dict["axes_list"] = axes_list
         return_dict["axes_dict_other"] = axes_dict_other
         for i, data in enumerate(data_list):
-            return_dict[data.symbol + "_" + str(i)] = data_values[i]
+            return_dict[data.symbol + "_" + str(i)] = squeeze(data_values[i])
         return return_dict
-- 
2.43.0


From 1297f346a32b8266b977195fbe64a8ef28f627ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:08 +0000
Subject: [PATCH 61/93] fix: requests on fields with both time and frequency
 forms

Levels and magnitudes failed when only one form was given or before any
other request, and complex fields were turned into real ones.
---
 SciDataTool/Methods/DataDual/get_axes.py          | 3 ++-
 SciDataTool/Methods/DataFreq/to_datadual.py       | 1 +
 SciDataTool/Methods/DataND/get_magnitude_along.py | 4 ++--
 SciDataTool/Methods/DataTime/to_datadual.py       | 1 +
 4 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Methods/DataDual/get_axes.py b/SciDataTool/Methods/DataDual/get_axes.py
index b0eb845..b254dc3 100644
--- a/SciDataTool/Methods/DataDual/get_axes.py
+++ b/SciDataTool/Methods/DataDual/get_axes.py
@@ -12,7 +12,8 @@ def get_axes(self, *args):
     """
 
     if self.axes is None:
-        axes = self.axes_dt + self.axes_df
+        # One of the domains can be missing
+        axes = list(self.axes_dt or []) + list(self.axes_df or [])
     else:
         axes = self.axes
 
diff --git a/SciDataTool/Methods/DataFreq/to_datadual.py b/SciDataTool/Methods/DataFreq/to_datadual.py
index 492c0be..6e47797 100644
--- a/SciDataTool/Methods/DataFreq/to_datadual.py
+++ b/SciDataTool/Methods/DataFreq/to_datadual.py
@@ -23,6 +23,7 @@ def to_datadual(self, datatime=None):
         normalizations=self.normalizations.copy(),
         axes_df=self.axes,
         values_df=self.values,
+        is_real=self.is_real,
     )
 
     # Add time/space data (from input or using ifft)
diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index e300deb..c32647b 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -46,7 +46,7 @@ def get_magnitude_along(
         index_speed = None
         index_order = None
         args_freqs = ["freqs", "frequency", "time"]
-        for i, axis in enumerate(self.axes):  # Find frequency axis
+        for i, axis in enumerate(self.get_axes()):  # Find frequency axis
             if axis.name in args_freqs:
                 freq_name = axis.name
         if freq_name is not None:
@@ -86,7 +86,7 @@ def get_magnitude_along(
                 )  # Then sum on freqs axis
         else:  # Try speed/order
             is_match = 0
-            for i, axis in enumerate(self.axes):  # Find frequency axis
+            for i, axis in enumerate(self.get_axes()):  # Find frequency axis
                 if axis.name == "speed":
                     is_match += 1
                     arg_speed = "speed"
diff --git a/SciDataTool/Methods/DataTime/to_datadual.py b/SciDataTool/Methods/DataTime/to_datadual.py
index b3f2da8..8249724 100644
--- a/SciDataTool/Methods/DataTime/to_datadual.py
+++ b/SciDataTool/Methods/DataTime/to_datadual.py
@@ -23,6 +23,7 @@ def to_datadual(self, datafreq=None):
         normalizations=self.normalizations.copy(),
         axes_dt=self.axes,
         values_dt=self.values,
+        is_real=self.is_real,
     )
 
     # Add fourier data (from input or using fft)
-- 
2.43.0


From 5e70fe996dbc123338a5be2a5564bbd639f79101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:14 +0000
Subject: [PATCH 62/93] fix: leakage filter with known lines close to each
 other

The lines of the spectrum used for frequencies with the same closest line
could be outside of the spectrum or used twice. Fields with more than
three axes are filtered as well.
---
 .../Functions/filter_spectral_leakage.py      | 43 ++++++-------------
 1 file changed, 12 insertions(+), 31 deletions(-)

diff --git a/SciDataTool/Functions/filter_spectral_leakage.py b/SciDataTool/Functions/filter_spectral_leakage.py
index 20df35c..3d0d940 100644
--- a/SciDataTool/Functions/filter_spectral_leakage.py
+++ b/SciDataTool/Functions/filter_spectral_leakage.py
@@ -76,18 +76,13 @@ def filter_spectral_leakage(
         # frequency in FFT frequency vector
         If0 = np.unique(If)
         if If0.size != If.size:
-            If_new = np.zeros(freqs_th.size, dtype=int)
-            for ii, jj in enumerate(If):
-                kk = jj
-                if kk + 1 < freqs.size:
-                    # Going forward
-                    while kk in If_new:
-                        kk += 1
-                else:
-                    # Going backwards
-                    while kk in If_new:
-                        kk -= 1
-                If_new[ii] = kk
+            If_new = np.array(If)
+            I_free = np.arange(freqs.size)
+            for ii, jj in enumerate(If[: freqs.size]):
+                # Take closest frequency which is not used yet
+                kk = np.argmin(np.abs(I_free - jj))
+                If_new[ii] = I_free[kk]
+                I_free = np.delete(I_free, kk)
             if np.unique(If_new).size < If.size:
                 print(
                     "Wrong match between FFT and theoretical frequencies, spectral leakage filtering maybe inaccurate"
@@ -98,29 +93,15 @@ def filter_spectral_leakage(
         xfreqs2, xfreqs1 = np.meshgrid(freqs_th, freqs[If])
         Wmatf = my_doorwin(xfreqs1 - xfreqs2, Nt, dt, tol0=1e-4)
 
-    # Check that spectrum is either 1D or 3D
-    if spectrum.ndim > 2:
-        # Reshape into 2D matrix
-        Nangle = spectrum.shape[1]
-        Nslice = spectrum.shape[2]
-        spectrum = np.reshape(spectrum, (spectrum.shape[0], Nangle * Nslice))
-        is_3D = True
-    else:
-        # Add 3rd dimension and squeeze after filtering
-        is_3D = False
+    # Reshape into 2D matrix
+    shape = spectrum.shape[1:]
+    spectrum = np.reshape(spectrum, (spectrum.shape[0], -1))
 
     # Filter spectrum
     spectrum_filt = np_lin.solve(Wmatf, spectrum[If, ...])
 
-    if is_3D:
-        if Nslice > 1:
-            # Reshape to initial 3D shape
-            spectrum_filt = np.reshape(
-                spectrum_filt, (spectrum_filt.shape[0], Nangle, Nslice)
-            )
-        else:
-            # Expand to 3D if requested
-            spectrum_filt = spectrum_filt[:, :, None]
+    # Reshape to initial shape
+    spectrum_filt = np.reshape(spectrum_filt, (spectrum_filt.shape[0],) + shape)
 
     if is_freq_pos:
         # Keep only positive frequencies
-- 
2.43.0


From 12a5ac2f5e452c8d6157c63fbbfa7794611cb1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:14 +0000
Subject: [PATCH 63/93] fix: leakage filter of fields with other axes than
 time, angle, z

The result had wrong dimensions for an odd number of angles, the axes
after the angle came out reversed, fields whose first axis is not time
and periodic axes failed, fields given by their spectrum used a wrong
time step, and complex fields were returned as real ones.
---
 .../Methods/DataND/filter_spectral_leakage.py | 132 +++++++-----------
 1 file changed, 53 insertions(+), 79 deletions(-)

diff --git a/SciDataTool/Methods/DataND/filter_spectral_leakage.py b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
index 8c8ee07..ea04732 100644
--- a/SciDataTool/Methods/DataND/filter_spectral_leakage.py
+++ b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
@@ -52,9 +52,6 @@ def filter_spectral_leakage(
     module = __import__("SciDataTool.Classes.DataFreq", fromlist=["DataFreq"])
     DataFreq = getattr(module, "DataFreq")
 
-    module = __import__("SciDataTool.Classes.DataPattern", fromlist=["DataPattern"])
-    DataPattern = getattr(module, "DataPattern")
-
     module = __import__("SciDataTool.Classes.Data1D", fromlist=["Data1D"])
     Data1D = getattr(module, "Data1D")
 
@@ -67,49 +64,52 @@ def filter_spectral_leakage(
                 arg_list.append("freqs")
             elif axis.name == "angle":
                 arg_list.append("wavenumber")
-            elif axis.name == "z" and isinstance(axis, DataPattern):
-                arg_list.append("z[smallestpattern]")
-            else:
+            elif axis.name in ["freqs", "wavenumber"]:
                 arg_list.append(axis.name)
+            else:
+                arg_list.append(axis.name + "[smallestperiod]")
+
+    # Get time step
+    Time = self.get_axes("time")
+    if len(Time) > 0:
+        time = Time[0].get_values()
+    else:
+        result_time = self.get_along("time")
+        time = result_time["time"]
+    dt = time[1] - time[0]
+    Nt = time.size
 
     is_real = self.is_real
     self.is_real = False  # To have negative frequencies
-    result = self.get_along(*arg_list, is_squeeze=False)
+    try:
+        result = self.get_along(*arg_list, is_squeeze=False)
+    finally:
+        self.is_real = is_real
     freqs = result["freqs"]
-    spectrum = result[self.symbol]
-
-    if Wmatf.size == 0:
-        # Get time step
-        Time = self.get_axes("time")
-        if len(Time) > 0:
-            time = Time[0].get_values()
-        else:
-            result_time = self.get_along("time")
-            time = result_time["time"]
-        dt = time[1] - time[0]
-        Nt = time.size
-    else:
-        Nt, dt = None, None
+
+    # Put frequencies on first dimension
+    names = [axis.name for axis in result["axes_list"]]
+    index_f = names.index("freqs")
+    names.insert(0, names.pop(index_f))
+    spectrum = np.moveaxis(result[self.symbol], index_f, 0)
 
     if is_real and np.where(freqs < 0)[0].size == 0:
         # Mirror values to negative frequencies
         If0 = freqs != 0
+        spectrum = np.array(spectrum)
         spectrum[If0, ...] *= 0.5
-        If0[-1] = bool(np.mod(freqs.size, 2) == 0)
+        spectrum_neg = np.flip(np.conj(spectrum), axis=0)
+        if "wavenumber" in names:
+            # Mirror wavenumbers (the lowest one has no opposite if even number)
+            index_r = names.index("wavenumber")
+            wavenumber = result["wavenumber"]
+            spectrum_neg = np.flip(spectrum_neg, axis=index_r)
+            if np.max(wavenumber) != -np.min(wavenumber):
+                spectrum_neg = np.roll(spectrum_neg, 1, axis=index_r)
+        # Do not duplicate the last frequency if even number of samples
+        If0[-1] = bool(np.mod(Nt, 2) == 1)
         freqs = np.concatenate((-np.flip(freqs), freqs[If0]))
-        spectrum = np.concatenate(
-            (
-                np.flip(np.conj(spectrum)),
-                spectrum[If0, ...],
-            ),
-            axis=0,
-        )
-
-    # Restrict filtering to negative wavenumber only
-    if is_real and "wavenumber" in result:
-        wavenumber = result["wavenumber"]
-        Irn = wavenumber <= 0
-        spectrum = spectrum[:, Irn, ...]
+        spectrum = np.concatenate((spectrum_neg, spectrum[If0, ...]), axis=0)
 
     spectrum_filt, freqs_th, Wmatf, If = filter_spectral_leakage_fct(
         spectrum, freqs, freqs_th, Nt, dt, is_freq_pos=False, Wmatf=Wmatf, If=If
@@ -125,70 +125,44 @@ def filter_spectral_leakage(
         Ifp = freqs_th >= 0
         freqs_th_store = freqs_th[Ifp]
 
-        # Mirror spectrum
-        if "wavenumber" in result:
-            # Mirror negative frequencies to negative wavenumbers
-            Ifn = ~Ifp
-            if freqs_th_store[0] == 0:
-                Ifn[I0] = True
-            spectrum_filt = np.concatenate(
-                (
-                    spectrum_filt[Ifp, ...],
-                    np.flip(np.conj(spectrum_filt[Ifn, 1:-1, ...])),
-                ),
-                axis=1,
-            )
-        else:
-            spectrum_filt = spectrum_filt[Ifp, ...]
+        spectrum_filt = spectrum_filt[Ifp, ...]
 
     else:
         freqs_th_store = np.array(freqs_th)
 
     if len(axes_list_filt) == 0:
         axes_list_filt = list()  # Reinstantiate a different list
-        axes_list_filt.append(
-            Data1D(
-                name="freqs",
-                unit="Hz",
-                values=freqs_th_store,
-                normalizations=axes_list[0].normalizations,
-                symmetries=dict(),
-            )
-        )
-
-        if "wavenumber" in result:
-            axes_list_filt.append(
-                Data1D(
+        for axis in axes_list:
+            if axis.name in ["time", "freqs"]:
+                axis_filt = Data1D(
+                    name="freqs",
+                    unit="Hz",
+                    values=freqs_th_store,
+                    normalizations=axis.normalizations,
+                    symmetries=dict(),
+                )
+            elif axis.name in ["angle", "wavenumber"]:
+                axis_filt = Data1D(
                     name="wavenumber",
                     unit="dimless",
                     values=result["wavenumber"],
-                    normalizations=axes_list[1].normalizations,
+                    normalizations=axis.normalizations,
                     symmetries=dict(),
                 )
-            )
-
-        # Copy other axes
-        if "angle" in [axis.name for axis in self.axes] or "wavenumber" in [
-            axis.name for axis in self.axes
-        ]:
-            n = 2
-        else:
-            n = 1
-        for axis in axes_list[n:]:
-            axes_list_filt.append(axis.copy())
+            else:
+                axis_filt = axis.copy()
+            axes_list_filt.append(axis_filt)
 
     data_filt = DataFreq(
         name=self.name,
         symbol=self.symbol,
         unit=self.unit,
         axes=axes_list_filt,
-        values=spectrum_filt,
+        values=np.moveaxis(spectrum_filt, 0, index_f),
         normalizations=self.normalizations,
-        is_real=True,
+        is_real=is_real,
     )
 
-    self.is_real = is_real
-
     if is_return_calc_data:
         return data_filt, axes_list_filt, arg_list, Wmatf, If, freqs_th
 
-- 
2.43.0


From 82df697b4f60460db55b73494a84f1a38207ddb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:14 +0000
Subject: [PATCH 64/93] fix: orient plotted and exported curves by axis name

Curves overlaid on a 2D plot were split along the axis whose length is the
number of curves, and the exported table was transposed according to its
lengths. With axes of equal lengths, or with the axes listed in another
order than the stored one, curves and cells went to the wrong positions.
---
 SciDataTool/Methods/DataND/export_along.py |  5 ++---
 SciDataTool/Methods/DataND/plot_2D_Data.py | 24 ++++++++++++++++------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/SciDataTool/Methods/DataND/export_along.py b/SciDataTool/Methods/DataND/export_along.py
index 4f51040..e64a269 100644
--- a/SciDataTool/Methods/DataND/export_along.py
+++ b/SciDataTool/Methods/DataND/export_along.py
@@ -176,9 +176,8 @@ def export_along(
                     if len(Ydatas) == 1:
                         field = np.array(Ydatas[0])
                     else:
-                        field = np.array(Ydatas)
-                    if field.shape[0] != len(Xdata[0]):
-                        field = field.T
+                        # One column per curve
+                        field = np.array(Ydatas).T
                     matrix = format_matrix(
                         np.column_stack((np.array(Xdata[0]).T, field)).astype("str"),
                         CHAR_LIST,
diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index 6420809..bbc16b6 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -24,6 +24,7 @@ from numpy import (
     linspace,
     argsort,
     argmax,
+    moveaxis,
     take,
     log10,
     nan,
@@ -212,6 +213,7 @@ def plot_2D_Data(
     # Extract field and axes
     Xdatas = []
     Ydatas = []
+    dims_list = []  # names of the axes of each array of Ydatas
     data_list2 = [self] + data_list
     for i, d in enumerate(data_list2):
         if is_fft or "dB" in unit:
@@ -230,7 +232,19 @@ def plot_2D_Data(
                 axes_list = result.pop("axes_list")
                 axes_dict_other = result.pop("axes_dict_other")
                 result_0 = result
-        Ydatas.append(result.pop(d.symbol))
+        ydata = result.pop(d.symbol)
+        dims = [
+            axis.name
+            for axis in axes_list
+            if not isinstance(result.get(axis.name, ""), str)
+            and len(result[axis.name]) > 1
+        ]
+        if axes_names[0] in dims and len(dims) == ydata.ndim:
+            # The first requested axis is the abscissa
+            ydata = moveaxis(ydata, dims.index(axes_names[0]), 0)
+            dims.insert(0, dims.pop(dims.index(axes_names[0])))
+        Ydatas.append(ydata)
+        dims_list.append(dims)
         # in string case not overlay, Xdatas is a linspace
         if (
             axes_list[list(result.keys()).index(axes_names[0])].is_components
@@ -399,6 +413,7 @@ def plot_2D_Data(
                 if linestyles is None:
                     linestyles = ["dashed"]
                 n_curves = len(axis.values)
+                overlay_name = axis.name
                 if axis.unit == "SI":
                     if axis.name in unit_dict:
                         axis_unit = unit_dict[axis.name]
@@ -445,12 +460,9 @@ def plot_2D_Data(
     # Split Ydatas if the plot overlays several curves
     if is_overlay:
         Ydata = []
-        for d in Ydatas:
+        for d, dims in zip(Ydatas, dims_list):
             if d.ndim != 1:
-                axis_index = where(array(d.shape) == n_curves)[0]
-                if axis_index.size > 1:
-                    print("WARNING, several axes with same dimensions")
-                Ydata += split(d, n_curves, axis=axis_index[-1])
+                Ydata += split(d, n_curves, axis=dims.index(overlay_name))
             else:
                 Ydata += [d]
         Ydatas = [squeeze(d) for d in Ydata]
-- 
2.43.0


From f51b88dbfca9960abb726af5df9de3dd14ae0530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:52 +0000
Subject: [PATCH 65/93] fix: name the unit of the stored axis in exported
 tables

An angle stored in radians was exported under a heading in degrees, and the
export of a field with an axis of another name than the usual ones failed.
---
 SciDataTool/Methods/DataND/export_along.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/export_along.py b/SciDataTool/Methods/DataND/export_along.py
index e64a269..2f93221 100644
--- a/SciDataTool/Methods/DataND/export_along.py
+++ b/SciDataTool/Methods/DataND/export_along.py
@@ -89,7 +89,12 @@ def export_along(
         slices = ""
         for axis in axes_list:
             if axis.unit == "SI":
-                axis.unit = unit_dict[axis.name]
+                # Values are given in the unit of the stored axis
+                units = {ax.name: ax.unit for ax in self.get_axes()}
+                if axis.name in units:
+                    axis.unit = units[axis.name]
+                else:
+                    axis.unit = unit_dict.get(axis.name, "")
             if len(results[axis.name]) == 1:
                 slices += axis.name + "=" + str(results[axis.name][0])
             elif isinstance(results[axis.name], str):
-- 
2.43.0


From 40ddf583332ad458a839eb60c0e4e6891f65c6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:21 +0000
Subject: [PATCH 66/93] fix: separate the slices named in the heading of
 exported tables

The positions of several sliced axes were written without separator, and the
reference of a level was appended again to the unit in each further file.
---
 SciDataTool/Methods/DataND/export_along.py | 29 +++++++++++-----------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/SciDataTool/Methods/DataND/export_along.py b/SciDataTool/Methods/DataND/export_along.py
index 2f93221..b2ca5de 100644
--- a/SciDataTool/Methods/DataND/export_along.py
+++ b/SciDataTool/Methods/DataND/export_along.py
@@ -95,12 +95,16 @@ def export_along(
                     axis.unit = units[axis.name]
                 else:
                     axis.unit = unit_dict.get(axis.name, "")
-            if len(results[axis.name]) == 1:
-                slices += axis.name + "=" + str(results[axis.name][0])
-            elif isinstance(results[axis.name], str):
-                slices += axis.name + "=" + results[axis.name]
+            if isinstance(results[axis.name], str):
+                slice_value = results[axis.name]
+            elif len(results[axis.name]) == 1:
+                slice_value = str(results[axis.name][0])
             else:
                 axes_list_new.append(axis)
+                continue
+            if slices != "":
+                slices = slices + ", "
+            slices += axis.name + "=" + slice_value
         for axis in results["axes_dict_other"]:
             if slices != "":
                 slices = slices + ", "
@@ -126,6 +130,12 @@ def export_along(
         else:
             raise Exception("cannot export more than 3 dimensions in csv file")
 
+        # Unit of the field in the meta-data
+        if unit == "SI":
+            unit = self.unit
+        if "dB" in unit:
+            unit += " re. " + str(self.normalizations["ref"].ref) + " " + self.unit
+
         for i in range(nfiles):
             if nfiles > 1:
                 file_name_i = (
@@ -134,10 +144,8 @@ def export_along(
                     + axes_list_new[2].name
                     + str(axes_list_new[2].values[i])
                 )
-                if slices == "":
-                    slices = "sliced at "
                 slices_i = (
-                    slices
+                    (slices + ", " if slices != "" else "sliced at ")
                     + axes_list_new[2].name
                     + "="
                     + str(axes_list_new[2].values[i])
@@ -150,13 +158,6 @@ def export_along(
             ) as my_csv:
                 csvWriter = csv.writer(my_csv, delimiter=",")
                 # First line: meta-data
-                if unit == "SI":
-                    unit = self.unit
-                if "dB" in unit:
-                    unit += (
-                        " re. " + str(self.normalizations["ref"].ref) + " " + self.unit
-                    )
-
                 meta_data = [self.symbol, self.name, "[" + unit + "]", slices_i]
                 csvWriter.writerow(meta_data)
 
-- 
2.43.0


From 9092fa01560da5d23d062057fb79397896653c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:26 +0000
Subject: [PATCH 67/93] fix: copies no longer share the filter lists of axes
 and the transform parameters

Copies and dictionary forms kept the lists held in these dictionaries, so
that changing a copy changed the original.
---
 SciDataTool/Classes/Data1D.py   | 4 ++--
 SciDataTool/Classes/DataDual.py | 2 +-
 SciDataTool/Classes/DataFreq.py | 2 +-
 SciDataTool/Classes/DataND.py   | 4 ++--
 SciDataTool/Classes/DataTime.py | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/SciDataTool/Classes/Data1D.py b/SciDataTool/Classes/Data1D.py
index a4f05bc..c84179a 100644
--- a/SciDataTool/Classes/Data1D.py
+++ b/SciDataTool/Classes/Data1D.py
@@ -449,7 +449,7 @@ class Data1D(Data):
         Data1D_dict["sort_indices"] = (
             self.sort_indices.copy() if self.sort_indices is not None else None
         )
-        Data1D_dict["filter"] = self.filter.copy() if self.filter is not None else None
+        Data1D_dict["filter"] = deepcopy(self.filter) if self.filter is not None else None
         Data1D_dict["char_to_rm"] = (
             self.char_to_rm.copy() if self.char_to_rm is not None else None
         )
@@ -480,7 +480,7 @@ class Data1D(Data):
         if self.filter is None:
             filter_val = None
         else:
-            filter_val = self.filter.copy()
+            filter_val = deepcopy(self.filter)
         if self.char_to_rm is None:
             char_to_rm_val = None
         else:
diff --git a/SciDataTool/Classes/DataDual.py b/SciDataTool/Classes/DataDual.py
index 7da5841..0d166f0 100644
--- a/SciDataTool/Classes/DataDual.py
+++ b/SciDataTool/Classes/DataDual.py
@@ -363,7 +363,7 @@ class DataDual(DataND):
         if self.FTparameters is None:
             FTparameters_val = None
         else:
-            FTparameters_val = self.FTparameters.copy()
+            FTparameters_val = deepcopy(self.FTparameters)
         if self.values is None:
             values_val = None
         else:
diff --git a/SciDataTool/Classes/DataFreq.py b/SciDataTool/Classes/DataFreq.py
index 15ffe1b..d8094d4 100644
--- a/SciDataTool/Classes/DataFreq.py
+++ b/SciDataTool/Classes/DataFreq.py
@@ -231,7 +231,7 @@ class DataFreq(DataND):
         if self.FTparameters is None:
             FTparameters_val = None
         else:
-            FTparameters_val = self.FTparameters.copy()
+            FTparameters_val = deepcopy(self.FTparameters)
         if self.values is None:
             values_val = None
         else:
diff --git a/SciDataTool/Classes/DataND.py b/SciDataTool/Classes/DataND.py
index 8ea31f5..66d589b 100644
--- a/SciDataTool/Classes/DataND.py
+++ b/SciDataTool/Classes/DataND.py
@@ -678,7 +678,7 @@ class DataND(Data):
                 else:
                     DataND_dict["axes"].append(None)
         DataND_dict["FTparameters"] = (
-            self.FTparameters.copy() if self.FTparameters is not None else None
+            deepcopy(self.FTparameters) if self.FTparameters is not None else None
         )
         if self.values is None:
             DataND_dict["values"] = None
@@ -712,7 +712,7 @@ class DataND(Data):
         if self.FTparameters is None:
             FTparameters_val = None
         else:
-            FTparameters_val = self.FTparameters.copy()
+            FTparameters_val = deepcopy(self.FTparameters)
         if self.values is None:
             values_val = None
         else:
diff --git a/SciDataTool/Classes/DataTime.py b/SciDataTool/Classes/DataTime.py
index e9a6b15..47e8607 100644
--- a/SciDataTool/Classes/DataTime.py
+++ b/SciDataTool/Classes/DataTime.py
@@ -203,7 +203,7 @@ class DataTime(DataND):
         if self.FTparameters is None:
             FTparameters_val = None
         else:
-            FTparameters_val = self.FTparameters.copy()
+            FTparameters_val = deepcopy(self.FTparameters)
         if self.values is None:
             values_val = None
         else:
-- 
2.43.0


From 90c0c1db57e37d38074280b53aed430317c20810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:26 +0000
Subject: [PATCH 68/93] fix: comparison of objects with differently named
 normalizations or components

The comparison failed with an error when the numbers of entries were equal
and the names were not.
---
 SciDataTool/Classes/Data.py        | 2 ++
 SciDataTool/Classes/VectorField.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/SciDataTool/Classes/Data.py b/SciDataTool/Classes/Data.py
index 0409550..4d443d0 100644
--- a/SciDataTool/Classes/Data.py
+++ b/SciDataTool/Classes/Data.py
@@ -167,6 +167,8 @@ class Data(FrozenClass):
             pass
         elif len(other.normalizations) != len(self.normalizations):
             diff_list.append("len(" + name + "normalizations)")
+        elif set(other.normalizations) != set(self.normalizations):
+            diff_list.append("keys(" + name + ".normalizations)")
         else:
             for key in self.normalizations:
                 diff_list.extend(
diff --git a/SciDataTool/Classes/VectorField.py b/SciDataTool/Classes/VectorField.py
index d62d39e..8019857 100644
--- a/SciDataTool/Classes/VectorField.py
+++ b/SciDataTool/Classes/VectorField.py
@@ -418,6 +418,8 @@ class VectorField(FrozenClass):
             pass
         elif len(other.components) != len(self.components):
             diff_list.append("len(" + name + "components)")
+        elif set(other.components) != set(self.components):
+            diff_list.append("keys(" + name + ".components)")
         else:
             for key in self.components:
                 diff_list.extend(
-- 
2.43.0


From 997d7932e578f1560b55eaa9904036cfd7f896c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:26 +0000
Subject: [PATCH 69/93] fix: equality and dictionary form of function
 normalizations

Two different functions given as objects were equal, and the dictionary form
of an object using such a function failed instead of warning.
---
 SciDataTool/Classes/Norm_func.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Classes/Norm_func.py b/SciDataTool/Classes/Norm_func.py
index 5c0a3d5..0ee526f 100644
--- a/SciDataTool/Classes/Norm_func.py
+++ b/SciDataTool/Classes/Norm_func.py
@@ -4,6 +4,7 @@
 """Method code available at https://github.com/Eomys/SciDataTool/tree/master/SciDataTool/Methods//Norm_func
 """
 
+from logging import getLogger
 from os import linesep
 from sys import getsizeof
 from ._check import check_var, raise_
@@ -99,6 +100,9 @@ class Norm_func(Normalization):
             return False
         if other._function_str != self._function_str:
             return False
+        # Functions given as objects have no str
+        if self._function_str is None and other._function_func != self._function_func:
+            return False
         return True
 
     def compare(self, other, name="self", ignore_list=None, is_add_value=False):
@@ -116,7 +120,9 @@ class Norm_func(Normalization):
                 other, name=name, ignore_list=ignore_list, is_add_value=is_add_value
             )
         )
-        if other._function_str != self._function_str:
+        if other._function_str != self._function_str or (
+            self._function_str is None and other._function_func != self._function_func
+        ):
             diff_list.append(name + ".function")
         # Filter ignore differences
         diff_list = list(filter(lambda x: x not in ignore_list, diff_list))
@@ -156,7 +162,7 @@ class Norm_func(Normalization):
         else:
             Norm_func_dict["function"] = None
             if self.function is not None:
-                self.get_logger().warning(
+                getLogger("SciDataTool").warning(
                     "Norm_func.as_dict(): "
                     + "Function self.function is not serializable "
                     + "and will be converted to None."
-- 
2.43.0


From 75114512ada06b53d25835649c2861dd486ded07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:17 +0000
Subject: [PATCH 70/93] fix: save and load of complex fields, load of the
 classes of the library

Complex values have no json form and failed to be saved. The load function
only looked for classes of another package.
---
 SciDataTool/Functions/Load/load_json.py |  9 ++++++++-
 SciDataTool/Functions/load.py           |  6 +++++-
 SciDataTool/Functions/save.py           | 18 +++++++++++++++++-
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Functions/Load/load_json.py b/SciDataTool/Functions/Load/load_json.py
index 04383d5..be98013 100644
--- a/SciDataTool/Functions/Load/load_json.py
+++ b/SciDataTool/Functions/Load/load_json.py
@@ -3,6 +3,13 @@ from os.path import isfile, isdir
 from re import match
 
 
+def decode_complex(json_dict):
+    """Read complex numbers written by both parts (cf save_data)"""
+    if "__complex__" in json_dict:
+        return complex(*json_dict["__complex__"])
+    return json_dict
+
+
 def load_json(file_path):
     """Load a json file
 
@@ -35,7 +42,7 @@ def load_json(file_path):
 
     # Get the data dictionary
     with open(file_path, "r") as load_file:
-        json_data = jload(load_file)
+        json_data = jload(load_file, object_hook=decode_complex)
 
     return file_path, json_data
 
diff --git a/SciDataTool/Functions/load.py b/SciDataTool/Functions/load.py
index d79d61a..04d0458 100644
--- a/SciDataTool/Functions/load.py
+++ b/SciDataTool/Functions/load.py
@@ -4,6 +4,7 @@ from SciDataTool.Functions.Load.load_json import load_json
 from SciDataTool.Functions.Load.load_hdf5 import load_hdf5
 from SciDataTool.Functions.Load.load_pkl import load_pkl
 from SciDataTool.Functions.Load.import_class import import_class
+from SciDataTool.Classes._check import InitUnKnowClassError
 
 
 def init_data(obj, file_path):
@@ -44,7 +45,10 @@ def init_data(obj, file_path):
         # Check if the dictionay has a "__class__" key
         if "__class__" in obj:
             # Check if data is a pyleecan class
-            class_obj = import_class("pyleecan.Classes", obj.get("__class__"), "")
+            try:
+                class_obj = import_class("SciDataTool.Classes", obj.get("__class__"))
+            except InitUnKnowClassError:
+                class_obj = import_class("pyleecan.Classes", obj.get("__class__"), "")
             if folder_path != "":
                 wd = getcwd()
                 chdir(folder_path)
diff --git a/SciDataTool/Functions/save.py b/SciDataTool/Functions/save.py
index 46036b0..cdf8aaf 100644
--- a/SciDataTool/Functions/save.py
+++ b/SciDataTool/Functions/save.py
@@ -63,6 +63,15 @@ def build_data(obj):
         return None
 
 
+def encode_complex(obj):
+    """Complex numbers have no json form: write both parts (cf load_json)"""
+    if isinstance(obj, complex):
+        return {"__complex__": [obj.real, obj.imag]}
+    raise TypeError(
+        "Object of type " + type(obj).__name__ + " is not JSON serializable"
+    )
+
+
 def save_data(obj, save_path=""):
     """Save the object to the save_path
     Parameters
@@ -77,7 +86,14 @@ def save_data(obj, save_path=""):
     # save
     obj = build_data(obj)
     with open(file_path, "w") as json_file:
-        dump(obj, json_file, sort_keys=True, indent=4, separators=(",", ": "))
+        dump(
+            obj,
+            json_file,
+            sort_keys=True,
+            indent=4,
+            separators=(",", ": "),
+            default=encode_complex,
+        )
 
 
 def save(self, save_path=""):
-- 
2.43.0


From 0e80a7191d5cb370b055e63bf95e9b50eecb74e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:24:20 +0000
Subject: [PATCH 71/93] fix: axes of fields with both forms did not include
 those of the form not read last

---
 SciDataTool/Methods/DataDual/get_axes.py | 7 ++-----
 SciDataTool/Methods/DataND/_get_freqs.py | 6 +++---
 SciDataTool/Methods/DataND/get_along.py  | 2 +-
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/SciDataTool/Methods/DataDual/get_axes.py b/SciDataTool/Methods/DataDual/get_axes.py
index b254dc3..e2c7404 100644
--- a/SciDataTool/Methods/DataDual/get_axes.py
+++ b/SciDataTool/Methods/DataDual/get_axes.py
@@ -11,11 +11,8 @@ def get_axes(self, *args):
     axes_list : list of axes (Data)
     """
 
-    if self.axes is None:
-        # One of the domains can be missing
-        axes = list(self.axes_dt or []) + list(self.axes_df or [])
-    else:
-        axes = self.axes
+    # Axes of both domains whatever the last one requested, one can be missing
+    axes = list(self.axes_dt or []) + list(self.axes_df or [])
 
     if len(args) > 0:
         axes_list = []
diff --git a/SciDataTool/Methods/DataND/_get_freqs.py b/SciDataTool/Methods/DataND/_get_freqs.py
index b8252dd..30bc5d3 100644
--- a/SciDataTool/Methods/DataND/_get_freqs.py
+++ b/SciDataTool/Methods/DataND/_get_freqs.py
@@ -44,14 +44,14 @@ def _get_freqs(self):
             raise AxisError("Cannot compute frequencies from available axes")
 
     if index is not None:
-        freqs = self.get_axes()[index].get_values(operation=operation)
+        freqs = self.axes[index].get_values(operation=operation)
     else:  # f = speed / 60 * order
         if is_norm:
             normalization = "speed"
         else:
             normalization = None
-        speed = self.get_axes()[index_speed].get_values(normalization=normalization)
-        order_strings = self.get_axes()[index_order].get_values().tolist()
+        speed = self.axes[index_speed].get_values(normalization=normalization)
+        order_strings = self.axes[index_order].get_values().tolist()
         orders = array([int(s.split(";")[0].replace("H", "")) for s in order_strings])
         os, so = meshgrid(orders, speed)
         freqs = so / 60 * os
diff --git a/SciDataTool/Methods/DataND/get_along.py b/SciDataTool/Methods/DataND/get_along.py
index c9427a3..5f6d860 100644
--- a/SciDataTool/Methods/DataND/get_along.py
+++ b/SciDataTool/Methods/DataND/get_along.py
@@ -35,7 +35,7 @@ def get_along(
         args = args[0]  # if called from another script with *args
 
     # Fix axes order
-    args = fix_axes_order([axis.name for axis in self.get_axes()], args)
+    args = fix_axes_order([axis.name for axis in self.axes], args)
 
     axes_list = read_input_strings(args, axis_data)
     # Extract the requested axes (symmetries + unit)
-- 
2.43.0


From ebe111a85dadf933559ffd8329d0675563984221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:08 +0000
Subject: [PATCH 72/93] fix: A-weighted levels on speed and order axes

The frequencies were laid out as if speed were the first axis and order the
second one. Other layouts gave wrong levels or failed, and so did selections
along these axes.
---
 SciDataTool/Methods/DataND/_convert.py            | 12 ++++++------
 SciDataTool/Methods/DataND/_get_freqs.py          |  9 ++++++++-
 SciDataTool/Methods/DataND/get_magnitude_along.py | 12 ++++++------
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_convert.py b/SciDataTool/Methods/DataND/_convert.py
index 53e41aa..9aa2d05 100644
--- a/SciDataTool/Methods/DataND/_convert.py
+++ b/SciDataTool/Methods/DataND/_convert.py
@@ -50,13 +50,13 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
             axis_names = [axis.name for axis in self.axes]
             if "speed" in axis_names and "order" in axis_names:
                 freqs = self._get_freqs()
-                freqs = freqs.ravel("C")
+                for axis in axes_list:
+                    if axis.indices is not None and freqs.shape[axis.index] > 1:
+                        freqs = np.take(freqs, axis.indices, axis=axis.index)
                 shape = values.shape
-                values = values.reshape(freqs.shape + shape[2:])
-                values = np.apply_along_axis(
-                    to_dBA, 0, np.abs(values), freqs, self.unit, ref_value
-                )
-                values = values.reshape(shape)
+                freqs = np.broadcast_to(freqs, shape).ravel("C")
+                values = np.abs(values).ravel("C")
+                values = to_dBA(values, freqs, self.unit, ref_value).reshape(shape)
             else:
                 raise UnitError(
                     "dBA conversion only available for fft with frequencies"
diff --git a/SciDataTool/Methods/DataND/_get_freqs.py b/SciDataTool/Methods/DataND/_get_freqs.py
index 30bc5d3..9ee62e2 100644
--- a/SciDataTool/Methods/DataND/_get_freqs.py
+++ b/SciDataTool/Methods/DataND/_get_freqs.py
@@ -11,7 +11,8 @@ def _get_freqs(self):
         a Data object
     Returns
     -------
-    freqs : frequency vector or array
+    freqs : frequency vector, or array with the dimensions of the field (of size 1
+    along the axes which frequencies do not depend on)
     """
 
     axis_names = [axis.name for axis in self.axes]
@@ -55,5 +56,11 @@ def _get_freqs(self):
         orders = array([int(s.split(";")[0].replace("H", "")) for s in order_strings])
         os, so = meshgrid(orders, speed)
         freqs = so / 60 * os
+        if index_order < index_speed:
+            freqs = freqs.T
+        shape = [1] * len(self.axes)
+        shape[index_speed] = len(speed)
+        shape[index_order] = len(orders)
+        freqs = freqs.reshape(shape)
 
     return freqs
diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index c32647b..7419098 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -2,7 +2,7 @@ from SciDataTool.Functions import AxisError, NormError, UnitError
 from SciDataTool.Functions.conversions import convert, to_dB, to_dBA, to_noct
 from SciDataTool.Functions.comp_requested_freqs import comp_requested_freqs
 from SciDataTool.Functions.fix_axes_order import fix_axes_order
-from numpy import apply_along_axis, add, squeeze, take
+from numpy import apply_along_axis, add, broadcast_to, squeeze, take
 
 
 def get_magnitude_along(
@@ -252,12 +252,12 @@ def get_magnitude_along(
                         )
             elif "order" in return_dict:
                 freqs = self._get_freqs()
-                freqs = freqs.ravel("C")
+                for axis in return_dict["axes_list"]:
+                    if axis.indices is not None and freqs.shape[axis.index] > 1:
+                        freqs = take(freqs, axis.indices, axis=axis.index)
                 shape = values.shape
-                values = values.reshape(freqs.shape + shape[2:])
-                values = apply_along_axis(
-                    to_dBA, 0, values, freqs, self.unit, ref_value
-                )
+                freqs = broadcast_to(freqs, shape).ravel("C")
+                values = to_dBA(values.ravel("C"), freqs, self.unit, ref_value)
                 values = values.reshape(shape)
             else:
                 raise UnitError(
-- 
2.43.0


From 69d80f46967b569def614a96fd0d079cff766cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:20 +0000
Subject: [PATCH 73/93] fix: levels on speed and order axes with selections on
 other axes

Summed levels read the selections of the other axes twice, or left these axes
out when both speed and order are summed.
---
 .../Methods/DataND/get_magnitude_along.py     | 43 +++++++------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index 7419098..b2edfb3 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -133,38 +133,25 @@ def get_magnitude_along(
                     is_squeeze=is_squeeze,
                     is_sum=False,
                 )
-            elif index_speed is None:  # Sum on order axis
-                if "[" in args[-1]:
-                    new_args[-1] = args[-1].split("[")[0]
-                data = self.get_data_along(
-                    *new_args, axis_data=axis_data, unit=unit
-                )  # Extract first along order axis
-                return data.get_magnitude_along(
-                    *[arg_speed, args[index_order]] + args[2:],
-                    axis_data=axis_data,
-                    unit=unit,
-                    is_squeeze=is_squeeze,
-                    is_sum=False,
-                    corr_unit=self.unit,
-                )  # Then sum on order axis
-            elif index_order is None:  # Sum on speed axis
-                data = self.get_data_along(
-                    *new_args, axis_data=axis_data, unit=unit
-                )  # Extract first along speed axis
-                return data.get_magnitude_along(
-                    *args,
-                    axis_data=axis_data,
-                    unit=unit,
-                    is_squeeze=is_squeeze,
-                    is_sum=False,
-                    corr_unit=self.unit,
-                )  # Then sum on speed axis
-            else:  # Sum on speed and order axes
+            else:  # Sum on speed and/or order axes
                 data = self.get_data_along(
                     *new_args, axis_data=axis_data, unit=unit
                 )  # Extract first along speed and order axes
+                sum_args = []
+                for i, arg in enumerate(args):
+                    if "speed" in arg:
+                        sum_args.append(arg_speed if index_speed is None else arg)
+                    elif "order" in arg:
+                        sum_args.append("order" if index_order is None else arg)
+                # Other axes are kept as extracted
+                names = [arg_speed.split("->")[0], "order"]
+                other_args = [
+                    axis.name + ("[smallestperiod]" if axis.symmetries else "")
+                    for axis in data.axes
+                    if axis.name not in names
+                ]
                 return data.get_magnitude_along(
-                    *[args[index_speed], args[index_order]],
+                    *sum_args + other_args,
                     axis_data=axis_data,
                     unit=unit,
                     is_squeeze=is_squeeze,
-- 
2.43.0


From 3a1a1b6297f539f632077c1e780a8281004f2e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:48 +0000
Subject: [PATCH 74/93] fix: A-weight normalization with part of the field
 requested

The weights were not reduced to the requested samples, so that any selection
along the weighted axes failed.
---
 .../Methods/DataND/get_magnitude_along.py     | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index b2edfb3..c6fdcac 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -200,22 +200,19 @@ def get_magnitude_along(
             if "A-weight" in self.normalizations:
                 values = to_dB(values, self.unit, ref_value)
                 # Extract requested indices from A-weight
-                axes_list = return_dict["axes_list"]
-                index_list = []
-                for ii, axis in enumerate(axes_list):
-                    if (
-                        axis.indices is not None
-                        and len(axis.indices) > 1
-                        and len(axis.indices) < len(axis.values)
-                    ):
-                        index_list.append(ii)
                 A_weight = self.normalizations["A-weight"].vector
-                for index in index_list:
-                    A_weight = take(
-                        A_weight,
-                        axes_list[index].indices,
-                        axis=index,
-                    )
+                for axis in return_dict["axes_list"]:
+                    if axis.indices is not None and axis.index < A_weight.ndim:
+                        A_weight = take(
+                            A_weight,
+                            axis.indices,
+                            axis=axis.index,
+                        )
+                # First value is taken along the axes which are not requested
+                requested = [axis.index for axis in return_dict["axes_list"]]
+                for index in range(A_weight.ndim):
+                    if index not in requested:
+                        A_weight = take(A_weight, [0], axis=index)
                 # Flatten to apply A-weighting
                 A_weight = A_weight.ravel("C")
                 shape = values.shape
-- 
2.43.0


From 281e6f1b6f1c90aebe2d54f5878a15b4f6e03e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:46 +0000
Subject: [PATCH 75/93] fix: maps of axes listed in another order than the
 stored one

The field is returned in the order of its axes, so that the two directions
were exchanged. A single stem was given too many dimensions.
---
 SciDataTool/Methods/DataND/plot_3D_Data.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Methods/DataND/plot_3D_Data.py b/SciDataTool/Methods/DataND/plot_3D_Data.py
index be9bea4..83d1c8a 100644
--- a/SciDataTool/Methods/DataND/plot_3D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_3D_Data.py
@@ -211,16 +211,20 @@ def plot_3D_Data(
     else:
         Ydata = result[axes_names[1]]
     Zdata = result[self.symbol]
-    if Xdata.size == 1:
-        Zdata = Zdata[None, ...]
-    if Ydata.size == 1:
-        Zdata = Zdata[..., None]
+    keys = list(result.keys())
+    if Zdata.ndim == 2 and keys.index(axes_names[0]) > keys.index(axes_names[1]):
+        # The field is returned in the order of its axes
+        Zdata = Zdata.T
     if is_fft and not is_2D_view:
         X_flat = Xdata
         Y_flat = Ydata
         Z_flat = Zdata
 
     else:
+        if Xdata.size == 1:
+            Zdata = Zdata[None, ...]
+        if Ydata.size == 1:
+            Zdata = Zdata[..., None]
         Y_map, X_map = meshgrid(Ydata, Xdata)
         X_flat = X_map.flatten()
         Y_flat = Y_map.flatten()
-- 
2.43.0


From a7de32b4e0433527913676d9c2ca84f71fe66c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:46 +0000
Subject: [PATCH 76/93] fix: maps over a descending axis

The values were reversed along the other axis than the descending one.
---
 SciDataTool/Functions/Plot/plot_3D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/Plot/plot_3D.py b/SciDataTool/Functions/Plot/plot_3D.py
index 5da8692..e07b6b1 100644
--- a/SciDataTool/Functions/Plot/plot_3D.py
+++ b/SciDataTool/Functions/Plot/plot_3D.py
@@ -243,10 +243,10 @@ def plot_3D(
         # Handle descending order axes (e.g. spectrogram of run-down in freq/rpm map)
         if Ydata[-1] < Ydata[0]:
             Ydata = Ydata[::-1]
-            Zdata = Zdata[:, ::-1]
+            Zdata = Zdata[::-1, :]
         if Xdata[-1] < Xdata[0]:
             Xdata = Xdata[::-1]
-            Zdata = Zdata[::-1, :]
+            Zdata = Zdata[:, ::-1]
         im = NonUniformImage(
             ax,
             interpolation=interpolation,
-- 
2.43.0


From d804ca8f82f035e78dceb52f89840102f700ce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:46 +0000
Subject: [PATCH 77/93] fix: maps over axes without a usual name

---
 SciDataTool/Methods/DataND/plot_3D_Data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Methods/DataND/plot_3D_Data.py b/SciDataTool/Methods/DataND/plot_3D_Data.py
index 83d1c8a..8210c63 100644
--- a/SciDataTool/Methods/DataND/plot_3D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_3D_Data.py
@@ -259,7 +259,7 @@ def plot_3D_Data(
     else:
         name = axis.name
     if axis.unit == "SI":
-        axis_unit = unit_dict[axis.name]
+        axis_unit = unit_dict.get(axis.name, axis.unit)
         if xlabel is None:
             xlabel = name[0].capitalize() + name[1:] + " [" + axis_unit + "]"
     elif axis.unit in norm_dict:
@@ -297,7 +297,7 @@ def plot_3D_Data(
     else:
         name = axis.name
     if axis.unit == "SI":
-        axis_unit = unit_dict[axis.name]
+        axis_unit = unit_dict.get(axis.name, axis.unit)
         if ylabel is None:
             ylabel = name[0].capitalize() + name[1:] + " [" + axis_unit + "]"
     elif axis.unit in norm_dict:
@@ -370,7 +370,7 @@ def plot_3D_Data(
             is_display = False
         if is_display:
             if axis.unit == "SI":
-                axis_unit = unit_dict[axis.name]
+                axis_unit = unit_dict.get(axis.name, axis.unit)
             elif axis.unit in norm_dict:
                 axis_unit = norm_dict[axis.unit]
             else:
-- 
2.43.0


From f08de7ac73ba3572adddb47ae7804f06cd86eb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:46 +0000
Subject: [PATCH 78/93] fix: color meshes of fields

The field was given transposed, except with flat shading.
---
 SciDataTool/Methods/DataND/plot_3D_Data.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/SciDataTool/Methods/DataND/plot_3D_Data.py b/SciDataTool/Methods/DataND/plot_3D_Data.py
index 8210c63..f266632 100644
--- a/SciDataTool/Methods/DataND/plot_3D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_3D_Data.py
@@ -652,16 +652,17 @@ def plot_3D_Data(
         if is_2D_view:
             if type_plot is None:
                 type_plot = "pcolor"
-            if is_shading_flat and type_plot == "pcolormesh":
-                # 0.5 offset
-                if 0 in flat_indices:
-                    Xdata = Xdata - 0.5
-                    x_min -= 0.5
-                    x_max -= 0.5
-                if 1 in flat_indices:
-                    Ydata = Ydata - 0.5
-                    y_min -= 0.5
-                    y_max -= 0.5
+            if type_plot == "pcolormesh":
+                if is_shading_flat:
+                    # 0.5 offset
+                    if 0 in flat_indices:
+                        Xdata = Xdata - 0.5
+                        x_min -= 0.5
+                        x_max -= 0.5
+                    if 1 in flat_indices:
+                        Ydata = Ydata - 0.5
+                        y_min -= 0.5
+                        y_max -= 0.5
                 Ydata, Xdata = meshgrid(Ydata, Xdata)
             if type_plot == "pcolor":
                 Zdata = Zdata.T
-- 
2.43.0


From 12b0edf8aaee389303914e4b4292962e53dd5e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:27:01 +0000
Subject: [PATCH 79/93] fix: stem plots of the largest harmonics

The list of harmonics was read as a map when the ticks are chosen.
---
 SciDataTool/Methods/DataND/plot_3D_Data.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Methods/DataND/plot_3D_Data.py b/SciDataTool/Methods/DataND/plot_3D_Data.py
index f266632..c7b3ec9 100644
--- a/SciDataTool/Methods/DataND/plot_3D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_3D_Data.py
@@ -462,8 +462,12 @@ def plot_3D_Data(
             threshold = max(10 * log10(thresh) + abs(np_max(Zdata)), 0)
         else:
             threshold = abs(thresh * np_max(Zdata))
-        indices_x = np_any(where(Zdata > threshold, True, False), axis=1)
-        indices_y = np_any(where(Zdata > threshold, True, False), axis=0)
+        if Zdata.ndim == 1:  # List of the largest harmonics
+            indices_x = Zdata > threshold
+            indices_y = indices_x
+        else:
+            indices_x = np_any(where(Zdata > threshold, True, False), axis=1)
+            indices_y = np_any(where(Zdata > threshold, True, False), axis=0)
 
         if is_filter_x:
             xticks = Xdata[indices_x]
@@ -477,6 +481,9 @@ def plot_3D_Data(
                 yticklabels = yticklabels[indices_y]
         else:
             yticks = Ydata
+        if Zdata.ndim == 1:
+            xticks = unique(xticks)
+            yticks = unique(yticks)
 
         annotation_threshold = None
         if annotations is not None:
-- 
2.43.0


From 6cbf06d64a850db90cdbf2a1ab7ccf276987cbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:27:01 +0000
Subject: [PATCH 80/93] fix: plots with limits changed the plotted field

Values out of the limits were clipped in the array of the field itself.
---
 SciDataTool/Functions/Plot/plot_3D.py | 1 +
 SciDataTool/Functions/Plot/plot_4D.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/SciDataTool/Functions/Plot/plot_3D.py b/SciDataTool/Functions/Plot/plot_3D.py
index e07b6b1..5c2b10d 100644
--- a/SciDataTool/Functions/Plot/plot_3D.py
+++ b/SciDataTool/Functions/Plot/plot_3D.py
@@ -238,6 +238,7 @@ def plot_3D(
             interpolation = None
         else:
             interpolation = "bilinear"
+        Zdata = Zdata.copy()
         Zdata[Zdata < z_min] = z_min
         Zdata[Zdata > z_max] = z_max
         # Handle descending order axes (e.g. spectrogram of run-down in freq/rpm map)
diff --git a/SciDataTool/Functions/Plot/plot_4D.py b/SciDataTool/Functions/Plot/plot_4D.py
index edec72b..889459d 100644
--- a/SciDataTool/Functions/Plot/plot_4D.py
+++ b/SciDataTool/Functions/Plot/plot_4D.py
@@ -157,6 +157,7 @@ def plot_4D(
         else:
             z_min = z_max / 1e4
 
+    Zdata = Zdata.copy()
     Zdata[Zdata < z_min] = NaN
 
     if is_same_size:
-- 
2.43.0


From 79489b411f160b1a46d3431375570cf1e7055687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:29:24 +0000
Subject: [PATCH 81/93] fix: label of the abscissa of overlaid curves

The label was the one of the first stored axis, which can be the one of the curves.
---
 SciDataTool/Methods/DataND/plot_2D_Data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index bbc16b6..d2fc6f4 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -260,7 +260,8 @@ def plot_2D_Data(
     # Build xlabel and title
     title1 = self.name[0].capitalize() + self.name[1:] + " "
     title2 = "for "
-    for axis in axes_list:
+    # The label is the one of the abscissa
+    for axis in sorted(axes_list, key=lambda axis: axis.name != axes_names[0]):
         if axis.unit in norm_dict and axis.unit != "Hz":
             name = norm_dict[axis.unit].split(" [")[0]
         elif axis.name in axes_dict:
-- 
2.43.0


From 5879bb4e6a2fbd8208af7e85e68a0c953c9bf8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:09 +0000
Subject: [PATCH 82/93] fix: unit of the axes of plots

An angle plotted in radians, as it is stored, was labelled in degrees.
---
 SciDataTool/Methods/DataND/plot_2D_Data.py | 18 ++++++++++++------
 SciDataTool/Methods/DataND/plot_3D_Data.py | 12 +++++++++---
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index d2fc6f4..70923a8 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -257,6 +257,12 @@ def plot_2D_Data(
             xdata = result[axes_names[0]]
         Xdatas.append(xdata)
 
+    # Values are given in the unit of the stored axis
+    units = dict(unit_dict)
+    for axis in self.get_axes():
+        if units.get(axis.name):
+            units[axis.name] = axis.unit
+
     # Build xlabel and title
     title1 = self.name[0].capitalize() + self.name[1:] + " "
     title2 = "for "
@@ -283,8 +289,8 @@ def plot_2D_Data(
             or (len(axis.values) == 1 and len(axes_list) == 1)
         ):
             if axis.unit == "SI":
-                if axis.name in unit_dict:
-                    axis_unit = unit_dict[axis.name]
+                if axis.name in units:
+                    axis_unit = units[axis.name]
                 else:
                     axis_unit = axis.unit
                 if xlabel is None:
@@ -321,8 +327,8 @@ def plot_2D_Data(
                 xticks = None
         else:
             if axis.corr_unit == "SI":
-                if axis.name in unit_dict:
-                    axis_unit = unit_dict[axis.name]
+                if axis.name in units:
+                    axis_unit = units[axis.name]
                 else:
                     axis_unit = axis.unit
             elif axis.corr_unit in norm_dict and axis.corr_unit != "Hz":
@@ -416,8 +422,8 @@ def plot_2D_Data(
                 n_curves = len(axis.values)
                 overlay_name = axis.name
                 if axis.unit == "SI":
-                    if axis.name in unit_dict:
-                        axis_unit = unit_dict[axis.name]
+                    if axis.name in units:
+                        axis_unit = units[axis.name]
                     else:
                         axis_unit = axis.unit
                 elif axis.unit in norm_dict:
diff --git a/SciDataTool/Methods/DataND/plot_3D_Data.py b/SciDataTool/Methods/DataND/plot_3D_Data.py
index c7b3ec9..5e87bef 100644
--- a/SciDataTool/Methods/DataND/plot_3D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_3D_Data.py
@@ -251,6 +251,12 @@ def plot_3D_Data(
         if z_min is None:
             z_min = z_max - z_range
 
+    # Values are given in the unit of the stored axis
+    units = dict(unit_dict)
+    for axis in self.get_axes():
+        if units.get(axis.name):
+            units[axis.name] = axis.unit
+
     # Build labels and titles
     title1 = self.name[0].capitalize() + self.name[1:] + " "
     axis = axes_list[list(result.keys()).index(axes_names[0])]
@@ -259,7 +265,7 @@ def plot_3D_Data(
     else:
         name = axis.name
     if axis.unit == "SI":
-        axis_unit = unit_dict.get(axis.name, axis.unit)
+        axis_unit = units.get(axis.name, axis.unit)
         if xlabel is None:
             xlabel = name[0].capitalize() + name[1:] + " [" + axis_unit + "]"
     elif axis.unit in norm_dict:
@@ -297,7 +303,7 @@ def plot_3D_Data(
     else:
         name = axis.name
     if axis.unit == "SI":
-        axis_unit = unit_dict.get(axis.name, axis.unit)
+        axis_unit = units.get(axis.name, axis.unit)
         if ylabel is None:
             ylabel = name[0].capitalize() + name[1:] + " [" + axis_unit + "]"
     elif axis.unit in norm_dict:
@@ -370,7 +376,7 @@ def plot_3D_Data(
             is_display = False
         if is_display:
             if axis.unit == "SI":
-                axis_unit = unit_dict.get(axis.name, axis.unit)
+                axis_unit = units.get(axis.name, axis.unit)
             elif axis.unit in norm_dict:
                 axis_unit = norm_dict[axis.unit]
             else:
-- 
2.43.0


From 8bc4b6ee30e49b716fe2e16c983995491e0cb63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:09 +0000
Subject: [PATCH 83/93] fix: abscissa of the overall curve

It was the first stored axis, which can be the summed one.
---
 SciDataTool/Methods/DataND/plot_2D_Data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index 70923a8..0399cc6 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -540,7 +540,7 @@ def plot_2D_Data(
                 0, len(result[axes_names[0]]) - 1, len(result[axes_names[0]])
             )
         else:
-            xdata = result[list(result)[0]]
+            xdata = result[axes_names[0]]
         Ydatas.insert(0, Y_overall)
         Xdatas.insert(0, xdata)
         new_color_list = new_color_list.copy()
-- 
2.43.0


From aac8794b735ae201e0c25c66a3fd6f472faeb955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:50:58 +0000
Subject: [PATCH 84/93] fix: transform of fields without a time, angle,
 frequency or wavenumber axis is refused

The check compared requests ending with [smallestperiod] with axis names and never matched, so the field was returned unchanged under the other domain.
---
 SciDataTool/Methods/DataFreq/freq_to_time.py | 2 +-
 SciDataTool/Methods/DataTime/time_to_freq.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Methods/DataFreq/freq_to_time.py b/SciDataTool/Methods/DataFreq/freq_to_time.py
index e344cb6..4bcca63 100644
--- a/SciDataTool/Methods/DataFreq/freq_to_time.py
+++ b/SciDataTool/Methods/DataFreq/freq_to_time.py
@@ -32,7 +32,7 @@ def freq_to_time(self):
         else:
             axis_str = axis.name + "[smallestperiod]"
         axes_str.append(axis_str)
-    if axes_str == [axis.name for axis in self.axes]:
+    if not any(axis.name in ["freqs", "wavenumber"] for axis in self.axes):
         raise AxisError(
             "No available axis is compatible with fft (should be time or angle)"
         )
diff --git a/SciDataTool/Methods/DataTime/time_to_freq.py b/SciDataTool/Methods/DataTime/time_to_freq.py
index 8dc4da1..db7a099 100644
--- a/SciDataTool/Methods/DataTime/time_to_freq.py
+++ b/SciDataTool/Methods/DataTime/time_to_freq.py
@@ -32,7 +32,7 @@ def time_to_freq(self):
         else:
             axis_str = axis.name + "[smallestperiod]"
         axes_str.append(axis_str)
-    if axes_str == [axis.name for axis in self.axes]:
+    if not any(axis.name in ["time", "angle"] for axis in self.axes):
         raise AxisError(
             "No available axis is compatible with fft (should be time or angle)"
         )
-- 
2.43.0


From bdf057caf7a01d411ece8fe552e98961291a483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:00:18 +0000
Subject: [PATCH 85/93] fix: length of frequency and wavenumber axes with
 symmetries

get_values ignores the symmetries of these axes, get_length counted the repeated samples.
---
 SciDataTool/Methods/Data1D/get_length.py       | 4 ++++
 SciDataTool/Methods/DataLinspace/get_length.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/SciDataTool/Methods/Data1D/get_length.py b/SciDataTool/Methods/Data1D/get_length.py
index 549d243..6354629 100644
--- a/SciDataTool/Methods/Data1D/get_length.py
+++ b/SciDataTool/Methods/Data1D/get_length.py
@@ -16,6 +16,10 @@ def get_length(self, is_oneperiod=False, is_antiperiod=False, is_smallestperiod=
     Length of axis
     """
     N = len(self.values)
+    # Ignore symmetries if fft axis
+    if self.name == "freqs" or self.name == "wavenumber":
+        is_smallestperiod = True
+
     # Rebuild symmetries
     if is_smallestperiod:
         return N
diff --git a/SciDataTool/Methods/DataLinspace/get_length.py b/SciDataTool/Methods/DataLinspace/get_length.py
index 9959a21..86283b6 100644
--- a/SciDataTool/Methods/DataLinspace/get_length.py
+++ b/SciDataTool/Methods/DataLinspace/get_length.py
@@ -23,6 +23,10 @@ def get_length(self, is_oneperiod=False, is_antiperiod=False, is_smallestperiod=
     else:
         N = self.number
 
+    # Ignore symmetries if fft axis
+    if self.name == "freqs" or self.name == "wavenumber":
+        is_smallestperiod = True
+
     # Rebuild symmetries
     if is_smallestperiod:
         return N
-- 
2.43.0


From 22956d3f1393b9ba05b66e165c9c0040deb14b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:00:18 +0000
Subject: [PATCH 86/93] fix: to_linspace shared the symmetries of the two axes

---
 SciDataTool/Methods/Data1D/to_linspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/Data1D/to_linspace.py b/SciDataTool/Methods/Data1D/to_linspace.py
index 025de20..04726aa 100644
--- a/SciDataTool/Methods/Data1D/to_linspace.py
+++ b/SciDataTool/Methods/Data1D/to_linspace.py
@@ -37,7 +37,7 @@ def to_linspace(self):
             include_endpoint=True,
             name=self.name,
             unit=self.unit,
-            symmetries=self.symmetries,
+            symmetries=self.symmetries.copy(),
             normalizations=self.normalizations.copy(),
             is_components=self.is_components,
             symbol=self.symbol,
-- 
2.43.0


From f80d1ab8991b4034d9d4d2d11ae950c7e3f0f846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:00:18 +0000
Subject: [PATCH 87/93] fix: a field repeated once has no period

The answer for the field now follows the one given by its axes.
---
 SciDataTool/Methods/DataND/has_period.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/has_period.py b/SciDataTool/Methods/DataND/has_period.py
index e4e5b19..bd8785d 100644
--- a/SciDataTool/Methods/DataND/has_period.py
+++ b/SciDataTool/Methods/DataND/has_period.py
@@ -12,7 +12,7 @@ def has_period(self):
 
     for axis in self.axes:
 
-        if axis.symmetries != {}:
+        if axis.has_period():
             answer = True
 
     return answer
-- 
2.43.0


From c59b76ce703e13ea472d7175d4eb46b19a5fe015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:21:31 +0000
Subject: [PATCH 88/93] fix: order of a request naming axes the field does not
 have, or axes with similar names

The request was put in the order of the stored axes by looking for the axis
names anywhere in the request, units included. "freqs{Hz}" was taken for the
axis "z". A request with one unknown axis was not ordered at all, so that the
extracted object could not be built.
---
 SciDataTool/Functions/fix_axes_order.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/SciDataTool/Functions/fix_axes_order.py b/SciDataTool/Functions/fix_axes_order.py
index ea6db07..c2e6554 100644
--- a/SciDataTool/Functions/fix_axes_order.py
+++ b/SciDataTool/Functions/fix_axes_order.py
@@ -1,3 +1,5 @@
+import re
+
 from numpy import array
 from SciDataTool.Functions.Plot import fft_dict, ifft_dict
 
@@ -6,19 +8,13 @@ def fix_axes_order(axes_list, args):
     """Put args in same order as axes_list"""
     indices = []
     for j, arg in enumerate(args):
+        name = re.split(r"->|[=<>\[{]", arg)[0].strip()
         for i, axis in enumerate(axes_list):
-            if (
-                axis in arg
-                or axis in fft_dict
-                and fft_dict[axis] in arg
-                or axis in ifft_dict
-                and ifft_dict[axis] in arg
-            ):
+            if name in [axis, fft_dict.get(axis), ifft_dict.get(axis)]:
                 indices.append(i)
                 break
-    if len(indices) < len(args):
-        # axis was not in data -> keep same order
-        return args
-    else:
-        sort_indices = array(indices).argsort()
-        return [args[i] for i in sort_indices]
+        else:
+            # axis is not in data -> put it last, as it is ignored
+            indices.append(len(axes_list))
+    sort_indices = array(indices).argsort(kind="stable")
+    return [args[i] for i in sort_indices]
-- 
2.43.0


From 78045281b85b90039433fd34db934971e39b5452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:04:10 +0000
Subject: [PATCH 89/93] fix: mean and rms over a decreasing axis

Along a decreasing time, angle or z axis the integral is negative, but it was
divided by a positive interval. The mean had the wrong sign and the root mean
square was not a number. Divide by the signed interval instead.
---
 SciDataTool/Functions/derivation_integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index 275d6ad..5a0969a 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -262,7 +262,7 @@ def integrate(values, ax_val, index, Nper, is_aper, is_phys, is_mean=False):
 
             if is_mean:
                 # Taking mean value by dividing by integration interval
-                interval = Nper * (np.nanmax(ax_full) - np.nanmin(ax_full))
+                interval = Nper * (ax_full[-1] - ax_full[0])
                 values /= interval
 
     else:
-- 
2.43.0


From dc0c331a6233315ee2ef75f8a0941d3eea829e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:04:10 +0000
Subject: [PATCH 90/93] fix: root sum square over a decreasing axis

The integral of the squared values along a decreasing time, angle or z axis is
negative, so its square root was not a number. Change its sign first.
---
 SciDataTool/Functions/sum_mean.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SciDataTool/Functions/sum_mean.py b/SciDataTool/Functions/sum_mean.py
index f00cb61..711d4ee 100644
--- a/SciDataTool/Functions/sum_mean.py
+++ b/SciDataTool/Functions/sum_mean.py
@@ -166,6 +166,9 @@ def root_sum_square(
 
         if is_phys:
             values = integrate(values ** 2, ax_val, index, Nper, is_aper, is_phys)
+            if ax_val[-1] < ax_val[0]:
+                # Integral is negative along a decreasing axis
+                values = -values
         else:
             values = my_sum(
                 values ** 2, index, Nper, is_aper, unit, is_fft, corr_unit=corr_unit
-- 
2.43.0


From b921d644c9344514ce6db122ab099b11ae4f1042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:53:47 +0000
Subject: [PATCH 91/93] fix: A-weighted level when the speed or order axis is
 left out

The first value is taken along an axis which is not requested. The
frequencies kept all the values along it, so that the A-weighting failed.
---
 SciDataTool/Methods/DataND/_convert.py            | 5 +++++
 SciDataTool/Methods/DataND/get_magnitude_along.py | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/_convert.py b/SciDataTool/Methods/DataND/_convert.py
index 9aa2d05..c529f06 100644
--- a/SciDataTool/Methods/DataND/_convert.py
+++ b/SciDataTool/Methods/DataND/_convert.py
@@ -53,6 +53,11 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
                 for axis in axes_list:
                     if axis.indices is not None and freqs.shape[axis.index] > 1:
                         freqs = np.take(freqs, axis.indices, axis=axis.index)
+                # First value is taken along the axes which are not requested
+                requested = [axis.index for axis in axes_list]
+                for index in range(freqs.ndim):
+                    if index not in requested:
+                        freqs = np.take(freqs, [0], axis=index)
                 shape = values.shape
                 freqs = np.broadcast_to(freqs, shape).ravel("C")
                 values = np.abs(values).ravel("C")
diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index c6fdcac..98233aa 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -234,11 +234,16 @@ def get_magnitude_along(
                         values = apply_along_axis(
                             to_dBA, axis.index, values, freqs, self.unit, ref_value
                         )
-            elif "order" in return_dict:
+            elif "order" in [axis.name for axis in self.axes]:
                 freqs = self._get_freqs()
                 for axis in return_dict["axes_list"]:
                     if axis.indices is not None and freqs.shape[axis.index] > 1:
                         freqs = take(freqs, axis.indices, axis=axis.index)
+                # First value is taken along the axes which are not requested
+                requested = [axis.index for axis in return_dict["axes_list"]]
+                for index in range(freqs.ndim):
+                    if index not in requested:
+                        freqs = take(freqs, [0], axis=index)
                 shape = values.shape
                 freqs = broadcast_to(freqs, shape).ravel("C")
                 values = to_dBA(values.ravel("C"), freqs, self.unit, ref_value)
-- 
2.43.0


From 94ab40dcc17a78d4ff01131434771b2e452511ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:55:17 +0000
Subject: [PATCH 92/93] fix: antiperiod of the angle axis of a converted vector
 field

The converted components have no antiperiod, so that a request for
angle[antiperiod] was refused although the field is antiperiodic.
---
 SciDataTool/Functions/get_angle_data.py                 | 5 +++++
 SciDataTool/Methods/VectorField/get_harm_rphiz_along.py | 2 +-
 SciDataTool/Methods/VectorField/get_harm_xyz_along.py   | 2 +-
 SciDataTool/Methods/VectorField/get_mag_rphiz_along.py  | 2 +-
 SciDataTool/Methods/VectorField/get_mag_xyz_along.py    | 2 +-
 SciDataTool/Methods/VectorField/get_rphiz_along.py      | 2 +-
 SciDataTool/Methods/VectorField/get_xyz_along.py        | 2 +-
 7 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/SciDataTool/Functions/get_angle_data.py b/SciDataTool/Functions/get_angle_data.py
index bf18229..0ef7ac4 100644
--- a/SciDataTool/Functions/get_angle_data.py
+++ b/SciDataTool/Functions/get_angle_data.py
@@ -36,10 +36,15 @@ def get_angle_data(data, args):
 
     Data1D = import_class("SciDataTool.Classes", "Data1D")
     new_data = data.copy()
+    # An antiperiod can only be extracted again from an antiperiodic axis
+    symmetries = dict()
+    if extension == "[antiperiod]":
+        symmetries = data.axes[index].symmetries.copy()
     new_data.axes[index] = Data1D(
         name="angle",
         unit="rad",
         values=result["angle"],
+        symmetries=symmetries,
         is_components=data.axes[index].is_components,
         normalizations=data.axes[index].normalizations.copy(),
     )
diff --git a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
index c04dbba..eba7cdb 100644
--- a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
@@ -39,7 +39,7 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
         else:
             Datay = Datax.copy()
             Datay.values = zeros_like(Datax.values)
-        phi = Datax.axes[axis].get_values()
+        phi = Datax.axes[axis].get_values(is_smallestperiod=True)
         # Convert to cylindrical coordinates
         (Datax.values, Datay.values) = cart2pol(
             Datax.values, Datay.values, phi, axis=axis
diff --git a/SciDataTool/Methods/VectorField/get_harm_xyz_along.py b/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
index ac366a9..1143a64 100644
--- a/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
@@ -39,7 +39,7 @@ def get_harm_xyz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_data=
         else:
             Dataphi = Datar.copy()
             Dataphi.values = zeros_like(Datar.values)
-        phi = Datar.axes[axis].get_values()
+        phi = Datar.axes[axis].get_values(is_smallestperiod=True)
         # Convert to cartesian coordinates
         (Datar.values, Dataphi.values) = pol2cart(
             Datar.values, Dataphi.values, phi, axis=axis
diff --git a/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py b/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
index 4b3a1d4..0014f53 100644
--- a/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
@@ -39,7 +39,7 @@ def get_mag_rphiz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         else:
             Datay = Datax.copy()
             Datay.values = zeros_like(Datax.values)
-        phi = Datax.axes[axis].get_values()
+        phi = Datax.axes[axis].get_values(is_smallestperiod=True)
         # Convert to cylindrical coordinates
         (Datax.values, Datay.values) = cart2pol(
             Datax.values, Datay.values, phi, axis=axis
diff --git a/SciDataTool/Methods/VectorField/get_mag_xyz_along.py b/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
index aea50a9..a36255e 100644
--- a/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
@@ -39,7 +39,7 @@ def get_mag_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         else:
             Dataphi = Datar.copy()
             Dataphi.values = zeros_like(Datar.values)
-        phi = Datar.axes[axis].get_values()
+        phi = Datar.axes[axis].get_values(is_smallestperiod=True)
         # Convert to cartesian coordinates
         (Datar.values, Dataphi.values) = pol2cart(
             Datar.values, Dataphi.values, phi, axis=axis
diff --git a/SciDataTool/Methods/VectorField/get_rphiz_along.py b/SciDataTool/Methods/VectorField/get_rphiz_along.py
index c722386..0347c37 100644
--- a/SciDataTool/Methods/VectorField/get_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_rphiz_along.py
@@ -41,7 +41,7 @@ def get_rphiz_along(
         else:
             Datay = Datax.copy()
             Datay.values = zeros_like(Datax.values)
-        phi = Datax.axes[axis].get_values()
+        phi = Datax.axes[axis].get_values(is_smallestperiod=True)
         # Convert to cylindrical coordinates
         (Datax.values, Datay.values) = cart2pol(
             Datax.values, Datay.values, phi, axis=axis
diff --git a/SciDataTool/Methods/VectorField/get_xyz_along.py b/SciDataTool/Methods/VectorField/get_xyz_along.py
index 19f573b..fde4367 100644
--- a/SciDataTool/Methods/VectorField/get_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_xyz_along.py
@@ -39,7 +39,7 @@ def get_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeez
         else:
             Dataphi = Datar.copy()
             Dataphi.values = zeros_like(Datar.values)
-        phi = Datar.axes[axis].get_values()
+        phi = Datar.axes[axis].get_values(is_smallestperiod=True)
         # Convert to cartesian coordinates
         (Datar.values, Dataphi.values) = pol2cart(
             Datar.values, Dataphi.values, phi, axis=axis
-- 
2.43.0


From b8415e4fb9cebd3dfbb4faf94c4056bcba4e978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:25:47 +0000
Subject: [PATCH 93/93] fix: axes whose name contains the name of an operation

An axis called "minutes" or "summary" was reduced by min or sum when
it was requested as is, because the operation was searched anywhere in
the request. Look for it after the equal sign or inside the brackets.
---
 SciDataTool/Functions/parser.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/SciDataTool/Functions/parser.py b/SciDataTool/Functions/parser.py
index 71f0848..e08fe03 100644
--- a/SciDataTool/Functions/parser.py
+++ b/SciDataTool/Functions/parser.py
@@ -42,74 +42,74 @@ def read_input_strings(args, axis_data):
             name = elems[0]
             axis_str = axis_str.replace("->" + unit, "")
         # Detect max
-        if "max" in axis_str:
+        if "=max" in axis_str:
             elems = axis_str.split("=max")
             name = elems[0]
             extension = "max"
         # Detect min
-        elif "min" in axis_str:
+        elif "=min" in axis_str:
             elems = axis_str.split("=min")
             name = elems[0]
             extension = "min"
         # Detect rms sum
-        elif "rss" in axis_str:
+        elif "=rss" in axis_str:
             elems = axis_str.split("=rss")
             name = elems[0]
             extension = "rss"
         # Detect sum
-        elif "sum" in axis_str:
+        elif "=sum" in axis_str:
             elems = axis_str.split("=sum")
             name = elems[0]
             extension = "sum"
         # Detect rms mean
-        elif "rms" in axis_str:
+        elif "=rms" in axis_str:
             elems = axis_str.split("=rms")
             name = elems[0]
             extension = "rms"
         # Detect mean
-        elif "mean" in axis_str:
+        elif "=mean" in axis_str:
             elems = axis_str.split("=mean")
             name = elems[0]
             extension = "mean"
         # Detect integrate
-        elif "integrate_local" in axis_str:
+        elif "=integrate_local" in axis_str:
             elems = axis_str.split("=integrate_local")
             name = elems[0]
             extension = "integrate_local"
-        elif "integrate" in axis_str:
+        elif "=integrate" in axis_str:
             elems = axis_str.split("=integrate")
             name = elems[0]
             extension = "integrate"
         # Detect antiderivate
-        elif "antiderivate" in axis_str:
+        elif "=antiderivate" in axis_str:
             elems = axis_str.split("=antiderivate")
             name = elems[0]
             extension = "antiderivate"
         # Detect derivate
-        elif "derivate" in axis_str:
+        elif "=derivate" in axis_str:
             elems = axis_str.split("=derivate")
             name = elems[0]
             extension = "derivate"
         # Detect periods
-        elif "oneperiod" in axis_str:
+        elif "oneperiod]" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "oneperiod"
-        elif "antiperiod" in axis_str:
+        elif "antiperiod]" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "antiperiod"
-        elif "smallestperiod" in axis_str:
+        elif "smallestperiod]" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "smallestperiod"
         # Detect pattern
-        elif "pattern" in axis_str:
+        elif "pattern]" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "pattern"
         # Detect axis_data input
-        elif "axis_data" in axis_str:
+        elif "=axis_data" in axis_str:
             elems = axis_str.split("=axis_data")
             name = elems[0]
             if name in axis_data:
-- 
2.43.0

