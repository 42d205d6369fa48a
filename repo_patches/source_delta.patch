From 4f9fc4bdb1a21e90158747d43a3c99153bb3f946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:30 +0000
Subject: [PATCH 01/74] fix: leave stored values and symmetries untouched when
 extracting a field

Extraction temporarily edited (and for slices beyond the first period
permanently cleared) the symmetries of the stored axis, and worked on the
stored values themselves. Slices of a periodic axis were also tiled again
after extraction, so axis and field lengths differed.
---
 SciDataTool/Methods/DataND/_get_field.py      | 12 ++++-----
 .../Methods/DataND/_rebuild_symmetries.py     | 26 +++++++++++--------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_get_field.py b/SciDataTool/Methods/DataND/_get_field.py
index 95c5969..2170bcb 100644
--- a/SciDataTool/Methods/DataND/_get_field.py
+++ b/SciDataTool/Methods/DataND/_get_field.py
@@ -16,7 +16,7 @@ def _get_field(self, axes_list):
         values of the field
     """
 
-    values = self.values
+    values = self.values.copy()
     for axis_requested in axes_list:
         # Rebuild symmetries when needed
         axis_symmetries = self.axes[axis_requested.index].symmetries
@@ -43,16 +43,14 @@ def _get_field(self, axes_list):
             values = take(values, axis_requested.rebuild_indices, axis_requested.index)
         elif axis_requested.transform == "fft" and "antiperiod" in axis_symmetries:
             # FFT case if axis is anti-periodic
-            nper = axis_symmetries["antiperiod"]
-            axis_symmetries["antiperiod"] = 2
-            values = rebuild_symmetries(values, axis_requested.index, axis_symmetries)
-            axis_symmetries["antiperiod"] = nper
+            values = rebuild_symmetries(
+                values, axis_requested.index, {"antiperiod": 2}
+            )
         elif (
             axis_requested.indices is not None
-            and max(axis_requested.indices) > values.shape[axis_requested.index]
+            and max(axis_requested.indices) >= values.shape[axis_requested.index]
         ):
             # Slicing case where requested indices are among other periods
             values = rebuild_symmetries(values, axis_requested.index, axis_symmetries)
-            self.axes[axis_requested.index].symmetries = dict()
 
     return values
diff --git a/SciDataTool/Methods/DataND/_rebuild_symmetries.py b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
index 4a16f4f..63e358c 100644
--- a/SciDataTool/Methods/DataND/_rebuild_symmetries.py
+++ b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
@@ -46,13 +46,18 @@ def _rebuild_symmetries(
             )
         ):
             values = take(values, axis.rebuild_indices, axis.index)
-        elif axis.transform != "fft" and axis.extension in [
-            "whole",
-            "interval",
-            "oneperiod",
-            "antiperiod",
-            "smallestperiod",
-        ]:
+        elif (
+            axis.transform != "fft"
+            and axis.indices is None  # sliced axes are already extracted
+            and axis.extension
+            in [
+                "whole",
+                "interval",
+                "oneperiod",
+                "antiperiod",
+                "smallestperiod",
+            ]
+        ):
             if axis.extension == "smallestperiod":
                 is_smallestperiod = True
                 is_oneperiod = False
@@ -88,10 +93,9 @@ def _rebuild_symmetries(
             axis_symmetries = self.axes[axis.index].symmetries
             if is_oneperiod:
                 if "antiperiod" in axis_symmetries:
-                    nper = axis_symmetries["antiperiod"]
-                    axis_symmetries["antiperiod"] = 2
-                    values = rebuild_symmetries_fct(values, axis.index, axis_symmetries)
-                    axis_symmetries["antiperiod"] = nper
+                    values = rebuild_symmetries_fct(
+                        values, axis.index, {"antiperiod": 2}
+                    )
             elif not is_smallestperiod and not is_antiperiod:
                 values = rebuild_symmetries_fct(values, axis.index, axis_symmetries)
     return values
-- 
2.43.0


From 5581b85287d14c04c6570952eb9f433e5c7688d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:03 +0000
Subject: [PATCH 02/74] fix: accept every numpy integer type for integer and
 float properties

Only int32 was accepted, so on platforms where numpy integers are int64
transforming data with integer-valued frequencies raised CheckTypeError.
---
 SciDataTool/Classes/_check.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Classes/_check.py b/SciDataTool/Classes/_check.py
index 1e9389f..9c2127e 100644
--- a/SciDataTool/Classes/_check.py
+++ b/SciDataTool/Classes/_check.py
@@ -1,4 +1,4 @@
-from numpy import array, empty, int32, squeeze, expand_dims
+from numpy import array, empty, integer, squeeze, expand_dims
 
 
 def set_array(obj, prop, value):
@@ -108,7 +108,7 @@ def check_type(var_name, value, expect_type, type_value):
     """
     if expect_type == "float":  # float variable can take int value
         if not (
-            (isinstance(value, int32) and not isinstance(value, bool))
+            isinstance(value, integer)
             or (isinstance(value, int) and not isinstance(value, bool))
             or isinstance(value, float)
         ):
@@ -140,7 +140,7 @@ def check_type(var_name, value, expect_type, type_value):
             raise CheckTypeError(
                 "For " + var_name + " : Integer expected, " + type_value + " given"
             )
-    elif expect_type == "int" and type_value == "int32":
+    elif expect_type == "int" and isinstance(value, integer):
         if value % 1 != 0:  # If not an Integer
             raise CheckTypeError(
                 "For " + var_name + " : Integer expected, " + type_value + " given"
-- 
2.43.0


From 348ef6bf44ad07ab9cb2006417e54557d3dc31a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:15 +0000
Subject: [PATCH 03/74] fix: compute axis values without touching the stored
 axis

Axis values were the stored arrays themselves, and symmetries or
normalization vectors were edited temporarily and left modified when an
error was raised in between.
---
 SciDataTool/Methods/Data1D/get_values.py      | 24 +++++++++----------
 .../Methods/DataLinspace/get_values.py        | 22 ++++++++---------
 SciDataTool/Methods/DataPattern/get_values.py |  4 ++--
 SciDataTool/Methods/Norm_vector/normalize.py  |  2 +-
 4 files changed, 24 insertions(+), 28 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/get_values.py b/SciDataTool/Methods/Data1D/get_values.py
index d691c22..b9f7bfb 100644
--- a/SciDataTool/Methods/Data1D/get_values.py
+++ b/SciDataTool/Methods/Data1D/get_values.py
@@ -49,7 +49,7 @@ def get_values(
             normalization = unit
             unit = "SI"
 
-    values = self.values
+    values = self.values.copy()
     norm_vector = None
 
     # Ignore symmetries if fft axis
@@ -66,11 +66,9 @@ def get_values(
             raise AxisError("axis has no antiperiodicity")
     elif is_oneperiod:
         if "antiperiod" in self.symmetries:
-            nper = self.symmetries["antiperiod"]
-            self.symmetries["antiperiod"] = 2
-            values = rebuild_symmetries_axis(values, self.symmetries)
-            self.symmetries["antiperiod"] = nper
-            pass
+            symmetries = self.symmetries.copy()
+            symmetries["antiperiod"] = 2
+            values = rebuild_symmetries_axis(values, symmetries)
         elif "period" in self.symmetries:
             pass
         else:
@@ -82,9 +80,9 @@ def get_values(
             and normalization in self.normalizations
             and isinstance(self.normalizations[normalization], Norm_vector)
         ):
-            norm_vector = self.normalizations[normalization].vector.copy()
-            self.normalizations[normalization].vector = rebuild_symmetries_axis(
-                norm_vector, self.symmetries
+            norm_vector = self.normalizations[normalization].copy()
+            norm_vector.vector = rebuild_symmetries_axis(
+                norm_vector.vector, self.symmetries
             )
 
     # fft/ifft
@@ -108,7 +106,10 @@ def get_values(
                 or self.normalizations[normalization].unit == self.unit
             ):
                 # Axis is in the correct unit for the normalization
-                values = self.normalizations[normalization].normalize(values)
+                if norm_vector is not None:
+                    values = norm_vector.normalize(values)
+                else:
+                    values = self.normalizations[normalization].normalize(values)
             else:
                 raise NormError("Normalization is not available in this unit")
         else:
@@ -121,7 +122,4 @@ def get_values(
         else:
             values = convert(values, self.unit, unit)
 
-    if norm_vector is not None:
-        self.normalizations[normalization].vector = norm_vector
-
     return values
diff --git a/SciDataTool/Methods/DataLinspace/get_values.py b/SciDataTool/Methods/DataLinspace/get_values.py
index ab49789..b8d0ee0 100644
--- a/SciDataTool/Methods/DataLinspace/get_values.py
+++ b/SciDataTool/Methods/DataLinspace/get_values.py
@@ -77,11 +77,9 @@ def get_values(
             raise AxisError("axis has no antiperiodicity")
     elif is_oneperiod:
         if "antiperiod" in self.symmetries:
-            nper = self.symmetries["antiperiod"]
-            self.symmetries["antiperiod"] = 2
-            values = rebuild_symmetries_axis(values, self.symmetries)
-            self.symmetries["antiperiod"] = nper
-            pass
+            symmetries = self.symmetries.copy()
+            symmetries["antiperiod"] = 2
+            values = rebuild_symmetries_axis(values, symmetries)
         elif "period" in self.symmetries:
             pass
         else:
@@ -93,9 +91,9 @@ def get_values(
             and normalization in self.normalizations
             and isinstance(self.normalizations[normalization], Norm_vector)
         ):
-            norm_vector = self.normalizations[normalization].vector.copy()
-            self.normalizations[normalization].vector = rebuild_symmetries_axis(
-                norm_vector, self.symmetries
+            norm_vector = self.normalizations[normalization].copy()
+            norm_vector.vector = rebuild_symmetries_axis(
+                norm_vector.vector, self.symmetries
             )
 
     # fft/ifft
@@ -119,7 +117,10 @@ def get_values(
                 or self.normalizations[normalization].unit == self.unit
             ):
                 # Axis is in the correct unit for the normalization
-                values = self.normalizations[normalization].normalize(values)
+                if norm_vector is not None:
+                    values = norm_vector.normalize(values)
+                else:
+                    values = self.normalizations[normalization].normalize(values)
             else:
                 raise NormError("Normalization is not available in this unit")
         else:
@@ -132,7 +133,4 @@ def get_values(
         else:
             values = convert(values, self.unit, unit)
 
-    if norm_vector is not None:
-        self.normalizations[normalization].vector = norm_vector
-
     return values
diff --git a/SciDataTool/Methods/DataPattern/get_values.py b/SciDataTool/Methods/DataPattern/get_values.py
index 7ceac9d..051a2eb 100644
--- a/SciDataTool/Methods/DataPattern/get_values.py
+++ b/SciDataTool/Methods/DataPattern/get_values.py
@@ -41,14 +41,14 @@ def get_values(
     -------
     Vector of axis values
     """
-    values = self.values
+    values = self.values.copy()
 
     # Rebuild pattern
     if is_smallestperiod or is_pattern:
         pass
     else:
         if self.values_whole is not None:
-            values = self.values_whole
+            values = self.values_whole.copy()
         else:
             values = values[self.rebuild_indices]
 
diff --git a/SciDataTool/Methods/Norm_vector/normalize.py b/SciDataTool/Methods/Norm_vector/normalize.py
index c88b187..fc34bd6 100644
--- a/SciDataTool/Methods/Norm_vector/normalize.py
+++ b/SciDataTool/Methods/Norm_vector/normalize.py
@@ -21,4 +21,4 @@ def normalize(
             "Normalization vector is not the same length as axis, cannot normalize"
         )
     else:
-        return self.vector
+        return self.vector.copy()
-- 
2.43.0


From 8eb6120a159f8c49d7a1711959c2f84038854f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:30 +0000
Subject: [PATCH 04/74] fix: keep converted components out of the vector field
 being read

Requesting a field in another frame stored temporary components in the
object and removed them afterwards, so an error left them behind and
components already present were dropped.
---
 .../Methods/VectorField/get_harm_rphiz_along.py     | 13 ++++---------
 .../Methods/VectorField/get_harm_xyz_along.py       | 13 ++++---------
 .../Methods/VectorField/get_mag_rphiz_along.py      | 13 ++++---------
 .../Methods/VectorField/get_mag_xyz_along.py        | 13 ++++---------
 SciDataTool/Methods/VectorField/get_rphiz_along.py  | 13 ++++---------
 SciDataTool/Methods/VectorField/get_xyz_along.py    | 13 ++++---------
 6 files changed, 24 insertions(+), 54 deletions(-)

diff --git a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
index 0e226d2..a96b5ea 100644
--- a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
@@ -56,27 +56,22 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
         if "angle" not in args:
             Datax.values = field_r
             Datay.values = field_t
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_harmonics(
+            resultr = Datax.get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_harmonics(
+            field_r = resultr[Datax.symbol]
+            resultt = Datay.get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_t = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
+            field_t = resultt[Datay.symbol]
         else:
             # Need return dict to initialize results
             resultr = self.components["comp_x"].get_harmonics(
diff --git a/SciDataTool/Methods/VectorField/get_harm_xyz_along.py b/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
index 7822786..3248f37 100644
--- a/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
@@ -56,27 +56,22 @@ def get_harm_xyz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_data=
         if "angle" not in args:
             Datar.values = field_x
             Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_harmonics(
+            resultx = Datar.get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_harmonics(
+            field_x = resultx[Datar.symbol]
+            resulty = Dataphi.get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
+            field_y = resulty[Dataphi.symbol]
         else:
             # Need return dict to initialize results
             resultx = self.components["radial"].get_harmonics(
diff --git a/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py b/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
index 6dc0444..79fbe61 100644
--- a/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
@@ -56,25 +56,20 @@ def get_mag_rphiz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         if "angle" not in args:
             Datax.values = field_r
             Datay.values = field_t
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_magnitude_along(
+            resultr = Datax.get_magnitude_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_magnitude_along(
+            field_r = resultr[Datax.symbol]
+            resultt = Datay.get_magnitude_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_t = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
+            field_t = resultt[Datay.symbol]
         else:
             # Need return dict to initialize results
             resultr = self.components["comp_x"].get_magnitude_along(
diff --git a/SciDataTool/Methods/VectorField/get_mag_xyz_along.py b/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
index 92fb5ab..e77625f 100644
--- a/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
@@ -56,25 +56,20 @@ def get_mag_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         if "angle" not in args:
             Datar.values = field_x
             Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_magnitude_along(
+            resultx = Datar.get_magnitude_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_magnitude_along(
+            field_x = resultx[Datar.symbol]
+            resulty = Dataphi.get_magnitude_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
+            field_y = resulty[Dataphi.symbol]
         else:
             # Need return dict to initialize results
             resultx = self.components["radial"].get_magnitude_along(
diff --git a/SciDataTool/Methods/VectorField/get_rphiz_along.py b/SciDataTool/Methods/VectorField/get_rphiz_along.py
index 3a733a8..69ef808 100644
--- a/SciDataTool/Methods/VectorField/get_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_rphiz_along.py
@@ -64,27 +64,22 @@ def get_rphiz_along(
         if "angle" not in args and "angle[smallestperiod]" not in args:
             Datax.values = field_r
             Datay.values = field_c
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_along(
+            resultr = Datax.get_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_along(
+            field_r = resultr[Datax.symbol]
+            resultt = Datay.get_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_c = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
+            field_c = resultt[Datay.symbol]
         else:
             # Need return dict to initialize results
             resultr = self.components["comp_x"].get_along(
diff --git a/SciDataTool/Methods/VectorField/get_xyz_along.py b/SciDataTool/Methods/VectorField/get_xyz_along.py
index 67fffff..74abaa2 100644
--- a/SciDataTool/Methods/VectorField/get_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_xyz_along.py
@@ -69,27 +69,22 @@ def get_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeez
         if "angle" not in args and "angle[smallestperiod]" not in args:
             Datar.values = field_x
             Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_along(
+            resultx = Datar.get_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_along(
+            field_x = resultx[Datar.symbol]
+            resulty = Dataphi.get_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
+            field_y = resulty[Dataphi.symbol]
         else:
             # Need return dict to initialize results
             resultx = self.components["radial"].get_along(
-- 
2.43.0


From af29298208e7e656374b5348e57399297701bdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:36 +0000
Subject: [PATCH 05/74] fix: do not overwrite the caller's arrays and flags
 when reading data

Decibel conversion, plots, spectral leakage filtering and referential
change scaled or clamped arrays in place, and the last two switched the
real flag of the object for the duration of the call.
---
 SciDataTool/Functions/Plot/plot_3D.py                |  5 ++---
 SciDataTool/Functions/Plot/plot_4D.py                |  4 ++--
 SciDataTool/Functions/change_referential.py          |  5 +----
 SciDataTool/Functions/conversions.py                 |  2 +-
 SciDataTool/Methods/DataND/change_referential.py     | 12 +++++-------
 .../Methods/DataND/filter_spectral_leakage.py        |  9 ++++-----
 SciDataTool/Methods/DataND/plot_2D_Data.py           |  3 +--
 SciDataTool/Methods/VectorField/plot_2D_Data.py      |  6 +++---
 8 files changed, 19 insertions(+), 27 deletions(-)

diff --git a/SciDataTool/Functions/Plot/plot_3D.py b/SciDataTool/Functions/Plot/plot_3D.py
index 5da8692..2941b58 100644
--- a/SciDataTool/Functions/Plot/plot_3D.py
+++ b/SciDataTool/Functions/Plot/plot_3D.py
@@ -1,4 +1,4 @@
-from numpy import nanmin as np_min, nanmax as np_max, abs as np_abs, log10, linspace
+from numpy import nanmin as np_min, nanmax as np_max, abs as np_abs, log10, linspace, clip
 
 import matplotlib.pyplot as plt
 import mpl_toolkits.mplot3d.art3d as art3d
@@ -238,8 +238,7 @@ def plot_3D(
             interpolation = None
         else:
             interpolation = "bilinear"
-        Zdata[Zdata < z_min] = z_min
-        Zdata[Zdata > z_max] = z_max
+        Zdata = clip(Zdata, z_min, z_max)
         # Handle descending order axes (e.g. spectrogram of run-down in freq/rpm map)
         if Ydata[-1] < Ydata[0]:
             Ydata = Ydata[::-1]
diff --git a/SciDataTool/Functions/Plot/plot_4D.py b/SciDataTool/Functions/Plot/plot_4D.py
index edec72b..a399a8a 100644
--- a/SciDataTool/Functions/Plot/plot_4D.py
+++ b/SciDataTool/Functions/Plot/plot_4D.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 
-from numpy import log10, abs as np_abs, nanmax as np_max, NaN, zeros_like
+from numpy import log10, abs as np_abs, nanmax as np_max, NaN, zeros_like, where
 import matplotlib.pyplot as plt
 
 from SciDataTool.Functions.Plot.init_fig import init_fig
@@ -157,7 +157,7 @@ def plot_4D(
         else:
             z_min = z_max / 1e4
 
-    Zdata[Zdata < z_min] = NaN
+    Zdata = where(Zdata < z_min, NaN, Zdata)
 
     if is_same_size:
         Sdata = zeros_like(Zdata)
diff --git a/SciDataTool/Functions/change_referential.py b/SciDataTool/Functions/change_referential.py
index e857f54..d957e16 100644
--- a/SciDataTool/Functions/change_referential.py
+++ b/SciDataTool/Functions/change_referential.py
@@ -93,6 +93,7 @@ def change_referential_spectrum(
         jf0 = np.abs(freqs) < 1e-4
         jr = wavenumbers_circ != 0
         if any(jf0) and any(jr):
+            spectrum = spectrum.copy()
             spectrum[jf0, jr, :] = 2 * spectrum[jf0, jr, :]
 
     # Calculate spectrum amplitude in new referential by summing all contributions
@@ -112,10 +113,6 @@ def change_referential_spectrum(
         # Store amplitudes at new frequency/wavenumber positions
         spectrum_new[Irf_un[:, 0], Irf_un[:, 1], k] = amp_new_k
 
-    if is_double_f0 and any(jf0) and any(jr):
-        # Divide by two spectrum components which have f=0, r!=0
-        spectrum[jf0, jr, :] = spectrum[jf0, jr, :] / 2
-
     if atol > 0:
         # Filter harmonics that are below input absolute tolerance
         Imask = (
diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 25c3cad..8a9d32f 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -283,7 +283,7 @@ def to_dB(values, unit, ref_value=1.0):
     """
     if ref_value != 1:
         if isinstance(values, ndarray):
-            values[values < ref_value] = ref_value
+            values = where(values < ref_value, ref_value, values)
         else:
             if values < ref_value:
                 values = ref_value
diff --git a/SciDataTool/Methods/DataND/change_referential.py b/SciDataTool/Methods/DataND/change_referential.py
index b81b14e..19946d2 100644
--- a/SciDataTool/Methods/DataND/change_referential.py
+++ b/SciDataTool/Methods/DataND/change_referential.py
@@ -110,12 +110,14 @@ def change_referential(
     if not is_waveform and hasattr(self, "is_real"):
         # Force non real data to get all spectrum
         is_real = self.is_real
-        self.is_real = False
+        data_full = self.copy()
+        data_full.is_real = False
     else:
         is_real = True
+        data_full = self
 
     # Extract data from vectorfield on one period
-    result = self.get_along(*arg_list, is_squeeze=False)
+    result = data_full.get_along(*arg_list, is_squeeze=False)
     values = result[self.symbol]
 
     if is_waveform:
@@ -182,7 +184,7 @@ def change_referential(
 
             if axis.name == "time" and is_waveform:
                 axis_new = axis.copy()
-                axis_new.symmetries = sym_t_new
+                axis_new.symmetries = sym_t_new.copy()
                 axis_new.number = time_new.size
                 if isinstance(axis_new, DataLinspace):
                     axis_new.final = time_new[-1]
@@ -238,8 +240,4 @@ def change_referential(
         is_real=is_real,
     )
 
-    if not is_waveform and hasattr(self, "is_real"):
-        # Reset data
-        self.is_real = is_real
-
     return data_new, axes_list_change, arg_list, freqs_new, I1, Irf_un, ta_in, ta_out
diff --git a/SciDataTool/Methods/DataND/filter_spectral_leakage.py b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
index 8c8ee07..2d435f4 100644
--- a/SciDataTool/Methods/DataND/filter_spectral_leakage.py
+++ b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
@@ -73,8 +73,9 @@ def filter_spectral_leakage(
                 arg_list.append(axis.name)
 
     is_real = self.is_real
-    self.is_real = False  # To have negative frequencies
-    result = self.get_along(*arg_list, is_squeeze=False)
+    data_full = self.copy()
+    data_full.is_real = False  # To have negative frequencies
+    result = data_full.get_along(*arg_list, is_squeeze=False)
     freqs = result["freqs"]
     spectrum = result[self.symbol]
 
@@ -84,7 +85,7 @@ def filter_spectral_leakage(
         if len(Time) > 0:
             time = Time[0].get_values()
         else:
-            result_time = self.get_along("time")
+            result_time = data_full.get_along("time")
             time = result_time["time"]
         dt = time[1] - time[0]
         Nt = time.size
@@ -187,8 +188,6 @@ def filter_spectral_leakage(
         is_real=True,
     )
 
-    self.is_real = is_real
-
     if is_return_calc_data:
         return data_filt, axes_list_filt, arg_list, Wmatf, If, freqs_th
 
diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index 6420809..e7040a8 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -653,8 +653,7 @@ def plot_2D_Data(
         legends = []
 
     if "dB" in unit:  # Replace <=0 by nans
-        for ydata in Ydatas:
-            ydata[ydata <= 0] = nan
+        Ydatas = [where(ydata <= 0, nan, ydata) for ydata in Ydatas]
 
     # Call generic plot function
     if is_fft:
diff --git a/SciDataTool/Methods/VectorField/plot_2D_Data.py b/SciDataTool/Methods/VectorField/plot_2D_Data.py
index 3a13017..5d2cac4 100644
--- a/SciDataTool/Methods/VectorField/plot_2D_Data.py
+++ b/SciDataTool/Methods/VectorField/plot_2D_Data.py
@@ -1,4 +1,4 @@
-from numpy import column_stack, array, exp, real, squeeze, array2string
+from numpy import column_stack, array, exp, real, squeeze, array2string, where
 from SciDataTool.Functions.Plot.plot_2D import plot_2D
 from SciDataTool.Functions.conversions import (
     rphiz_to_xyz,
@@ -172,10 +172,10 @@ def plot_2D_Data(
                     Xdatas = rphiz_to_xyz(rphi)
                 Y_comp = result[vecfield.components[component_list[0]].symbol]
                 if component_list[0] == "comp_x":
-                    Y_comp[Xdatas[:, 0] < 0] = -Y_comp[Xdatas[:, 0] < 0]
+                    Y_comp = where(Xdatas[:, 0] < 0, -Y_comp, Y_comp)
                     Ydatas = column_stack((Y_comp, 0 * Y_comp, 0 * Y_comp))
                 else:
-                    Y_comp[Xdatas[:, 1] < 0] = -Y_comp[Xdatas[:, 1] < 0]
+                    Y_comp = where(Xdatas[:, 1] < 0, -Y_comp, Y_comp)
                     Ydatas = column_stack((0 * Y_comp, Y_comp, 0 * Y_comp))
             else:
                 vecfield = self.to_rphiz()
-- 
2.43.0


From f80e9d5cc1aec8fd15bdf6b4996fda495e3a5380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:09 +0000
Subject: [PATCH 06/74] fix: give derived objects their own axes, values and
 normalizations

Slices, transforms, referential or periodicity changes and dual-domain
objects shared normalization objects, symmetries or arrays with the data
they were built from. Truncating an axis to a period also truncated the
normalization vectors of the original axis. Dual-domain objects now keep
the real/complex flag.
---
 SciDataTool/Methods/Data1D/get_axis_periodic.py     |  7 ++++---
 SciDataTool/Methods/Data1D/to_linspace.py           |  6 ++++--
 SciDataTool/Methods/DataFreq/freq_to_time.py        | 12 +++++++++---
 SciDataTool/Methods/DataFreq/to_datadual.py         | 13 ++++++++-----
 .../Methods/DataLinspace/get_axis_periodic.py       |  5 +++--
 SciDataTool/Methods/DataND/change_referential.py    | 12 +++++++++---
 .../Methods/DataND/filter_spectral_leakage.py       | 12 +++++++++---
 SciDataTool/Methods/DataND/get_data_along.py        |  8 ++++++--
 SciDataTool/Methods/DataTime/time_to_freq.py        | 12 +++++++++---
 SciDataTool/Methods/DataTime/to_datadual.py         | 13 ++++++++-----
 .../Methods/VectorField/change_periodicity.py       |  4 +++-
 11 files changed, 72 insertions(+), 32 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/get_axis_periodic.py b/SciDataTool/Methods/Data1D/get_axis_periodic.py
index f5fb4ee..92730f4 100644
--- a/SciDataTool/Methods/Data1D/get_axis_periodic.py
+++ b/SciDataTool/Methods/Data1D/get_axis_periodic.py
@@ -32,8 +32,9 @@ def get_axis_periodic(self, Nper, is_aper=False):
 
         if N % Nper != 0:
             raise AxisError("length of axis is not divisible by the number of periods")
-        values_per = values[: int(N / Nper)]
-        for norm in self.normalizations.values():
+        values_per = values[: int(N / Nper)].copy()
+        normalizations = {key: norm.copy() for key, norm in self.normalizations.items()}
+        for norm in normalizations.values():
             if isinstance(norm, Norm_vector):
                 norm.vector = norm.vector[: int(N / Nper)]
 
@@ -52,7 +53,7 @@ def get_axis_periodic(self, Nper, is_aper=False):
             name=self.name,
             unit=self.unit,
             symmetries=symmetries,
-            normalizations=self.normalizations,
+            normalizations=normalizations,
             is_components=self.is_components,
             symbol=self.symbol,
         )
diff --git a/SciDataTool/Methods/Data1D/to_linspace.py b/SciDataTool/Methods/Data1D/to_linspace.py
index 025de20..202531f 100644
--- a/SciDataTool/Methods/Data1D/to_linspace.py
+++ b/SciDataTool/Methods/Data1D/to_linspace.py
@@ -37,8 +37,10 @@ def to_linspace(self):
             include_endpoint=True,
             name=self.name,
             unit=self.unit,
-            symmetries=self.symmetries,
-            normalizations=self.normalizations.copy(),
+            symmetries=self.symmetries.copy(),
+            normalizations={
+                key: norm.copy() for key, norm in self.normalizations.items()
+            },
             is_components=self.is_components,
             symbol=self.symbol,
         )
diff --git a/SciDataTool/Methods/DataFreq/freq_to_time.py b/SciDataTool/Methods/DataFreq/freq_to_time.py
index e344cb6..8a23244 100644
--- a/SciDataTool/Methods/DataFreq/freq_to_time.py
+++ b/SciDataTool/Methods/DataFreq/freq_to_time.py
@@ -48,7 +48,9 @@ def freq_to_time(self):
                     values=results["time"],
                     unit="s",
                     symmetries=axis.symmetries.copy(),
-                    normalizations=axis.normalizations.copy(),
+                    normalizations={
+                        key: norm.copy() for key, norm in axis.normalizations.items()
+                    },
                 )
             elif axis.name == "wavenumber":
                 axis_new = Data1D(
@@ -57,7 +59,9 @@ def freq_to_time(self):
                     values=results["angle"],
                     unit="rad",
                     symmetries=axis.symmetries.copy(),
-                    normalizations=axis.normalizations.copy(),
+                    normalizations={
+                        key: norm.copy() for key, norm in axis.normalizations.items()
+                    },
                 )
             else:
                 axis_new = axis.copy()
@@ -70,5 +74,7 @@ def freq_to_time(self):
             axes=Axes,
             values=values,
             is_real=self.is_real,
-            normalizations=self.normalizations.copy(),
+            normalizations={
+                key: norm.copy() for key, norm in self.normalizations.items()
+            },
         )
diff --git a/SciDataTool/Methods/DataFreq/to_datadual.py b/SciDataTool/Methods/DataFreq/to_datadual.py
index 492c0be..c8cc0c7 100644
--- a/SciDataTool/Methods/DataFreq/to_datadual.py
+++ b/SciDataTool/Methods/DataFreq/to_datadual.py
@@ -20,15 +20,18 @@ def to_datadual(self, datatime=None):
         name=self.name,
         symbol=self.symbol,
         unit=self.unit,
-        normalizations=self.normalizations.copy(),
-        axes_df=self.axes,
-        values_df=self.values,
+        normalizations={
+            key: norm.copy() for key, norm in self.normalizations.items()
+        },
+        axes_df=[axis.copy() for axis in self.axes],
+        values_df=self.values.copy(),
+        is_real=self.is_real,
     )
 
     # Add time/space data (from input or using ifft)
     if datatime is None:
         datatime = self.freq_to_time()
-    datadual.axes_dt = datatime.axes
-    datadual.values_dt = datatime.values
+    datadual.axes_dt = [axis.copy() for axis in datatime.axes]
+    datadual.values_dt = datatime.values.copy()
 
     return datadual
diff --git a/SciDataTool/Methods/DataLinspace/get_axis_periodic.py b/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
index 15e6887..d6057d4 100644
--- a/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
+++ b/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
@@ -33,7 +33,8 @@ def get_axis_periodic(self, Nper, is_aper=False):
         if N % Nper != 0:
             raise AxisError("length of axis is not divisible by the number of periods")
         values_per = values[: int(N / Nper)]
-        for norm in self.normalizations.values():
+        normalizations = {key: norm.copy() for key, norm in self.normalizations.items()}
+        for norm in normalizations.values():
             if isinstance(norm, Norm_vector):
                 norm.vector = norm.vector[: int(N / Nper)]
 
@@ -55,7 +56,7 @@ def get_axis_periodic(self, Nper, is_aper=False):
             name=self.name,
             unit=self.unit,
             symmetries=symmetries,
-            normalizations=self.normalizations.copy(),
+            normalizations=normalizations,
             is_components=self.is_components,
             symbol=self.symbol,
         )
diff --git a/SciDataTool/Methods/DataND/change_referential.py b/SciDataTool/Methods/DataND/change_referential.py
index 19946d2..8060df5 100644
--- a/SciDataTool/Methods/DataND/change_referential.py
+++ b/SciDataTool/Methods/DataND/change_referential.py
@@ -210,7 +210,9 @@ def change_referential(
                     name="freqs",
                     unit="Hz",
                     values=freqs_store,
-                    normalizations=axis.normalizations.copy(),
+                    normalizations={
+                        key: norm.copy() for key, norm in axis.normalizations.items()
+                    },
                     symmetries=dict(),  # Don't keep time symmetries, FFT inverse requests axis_data
                 )
 
@@ -221,7 +223,9 @@ def change_referential(
                     name="wavenumber",
                     unit="dimless",
                     values=wavenumber,
-                    normalizations=axis.normalizations.copy(),
+                    normalizations={
+                        key: norm.copy() for key, norm in axis.normalizations.items()
+                    },
                     symmetries=axis.symmetries.copy(),
                 )
 
@@ -236,7 +240,9 @@ def change_referential(
         unit=self.unit,
         axes=axes_list_change,
         values=val_new,
-        normalizations=self.normalizations.copy(),
+        normalizations={
+            key: norm.copy() for key, norm in self.normalizations.items()
+        },
         is_real=is_real,
     )
 
diff --git a/SciDataTool/Methods/DataND/filter_spectral_leakage.py b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
index 2d435f4..3f1de45 100644
--- a/SciDataTool/Methods/DataND/filter_spectral_leakage.py
+++ b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
@@ -152,7 +152,9 @@ def filter_spectral_leakage(
                 name="freqs",
                 unit="Hz",
                 values=freqs_th_store,
-                normalizations=axes_list[0].normalizations,
+                normalizations={
+                    key: norm.copy() for key, norm in axes_list[0].normalizations.items()
+                },
                 symmetries=dict(),
             )
         )
@@ -163,7 +165,9 @@ def filter_spectral_leakage(
                     name="wavenumber",
                     unit="dimless",
                     values=result["wavenumber"],
-                    normalizations=axes_list[1].normalizations,
+                    normalizations={
+                        key: norm.copy() for key, norm in axes_list[1].normalizations.items()
+                    },
                     symmetries=dict(),
                 )
             )
@@ -184,7 +188,9 @@ def filter_spectral_leakage(
         unit=self.unit,
         axes=axes_list_filt,
         values=spectrum_filt,
-        normalizations=self.normalizations,
+        normalizations={
+            key: norm.copy() for key, norm in self.normalizations.items()
+        },
         is_real=True,
     )
 
diff --git a/SciDataTool/Methods/DataND/get_data_along.py b/SciDataTool/Methods/DataND/get_data_along.py
index cfb4e2f..0fa0fd7 100644
--- a/SciDataTool/Methods/DataND/get_data_along.py
+++ b/SciDataTool/Methods/DataND/get_data_along.py
@@ -89,7 +89,9 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
                 unit=ax_unit,
                 values=axis_values,
                 is_components=is_components,
-                normalizations=self.axes[index].normalizations.copy(),
+                normalizations={
+                    key: norm.copy() for key, norm in self.axes[index].normalizations.items()
+                },
                 symmetries=symmetries,
             ).to_linspace()
             if hasattr(self.axes[index], "sort_indices") and hasattr(
@@ -116,6 +118,8 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         symbol=self.symbol,
         axes=Axes,
         values=values,
-        normalizations=self.normalizations.copy(),
+        normalizations={
+            key: norm.copy() for key, norm in self.normalizations.items()
+        },
         is_real=self.is_real,
     )
diff --git a/SciDataTool/Methods/DataTime/time_to_freq.py b/SciDataTool/Methods/DataTime/time_to_freq.py
index 8dc4da1..c1be2c8 100644
--- a/SciDataTool/Methods/DataTime/time_to_freq.py
+++ b/SciDataTool/Methods/DataTime/time_to_freq.py
@@ -52,7 +52,9 @@ def time_to_freq(self):
                     values=results["freqs"],
                     unit="Hz",
                     symmetries=symmetries,
-                    normalizations=axis.normalizations.copy(),
+                    normalizations={
+                        key: norm.copy() for key, norm in axis.normalizations.items()
+                    },
                 ).to_linspace()
             elif axis.name == "angle":
                 if "antiperiod" in axis.symmetries:
@@ -65,7 +67,9 @@ def time_to_freq(self):
                     values=results["wavenumber"],
                     unit="dimless",
                     symmetries=symmetries,
-                    normalizations=axis.normalizations.copy(),
+                    normalizations={
+                        key: norm.copy() for key, norm in axis.normalizations.items()
+                    },
                 ).to_linspace()
             else:
                 axis_new = axis.copy()
@@ -77,5 +81,7 @@ def time_to_freq(self):
             axes=Axes,
             values=values,
             is_real=self.is_real,
-            normalizations=self.normalizations.copy(),
+            normalizations={
+                key: norm.copy() for key, norm in self.normalizations.items()
+            },
         )
diff --git a/SciDataTool/Methods/DataTime/to_datadual.py b/SciDataTool/Methods/DataTime/to_datadual.py
index b3f2da8..b7bdc52 100644
--- a/SciDataTool/Methods/DataTime/to_datadual.py
+++ b/SciDataTool/Methods/DataTime/to_datadual.py
@@ -20,15 +20,18 @@ def to_datadual(self, datafreq=None):
         name=self.name,
         symbol=self.symbol,
         unit=self.unit,
-        normalizations=self.normalizations.copy(),
-        axes_dt=self.axes,
-        values_dt=self.values,
+        normalizations={
+            key: norm.copy() for key, norm in self.normalizations.items()
+        },
+        axes_dt=[axis.copy() for axis in self.axes],
+        values_dt=self.values.copy(),
+        is_real=self.is_real,
     )
 
     # Add fourier data (from input or using fft)
     if datafreq is None:
         datafreq = self.time_to_freq()
-    datadual.axes_df = datafreq.axes
-    datadual.values_df = datafreq.values
+    datadual.axes_df = [axis.copy() for axis in datafreq.axes]
+    datadual.values_df = datafreq.values.copy()
 
     return datadual
diff --git a/SciDataTool/Methods/VectorField/change_periodicity.py b/SciDataTool/Methods/VectorField/change_periodicity.py
index 0d5af32..45a86dd 100644
--- a/SciDataTool/Methods/VectorField/change_periodicity.py
+++ b/SciDataTool/Methods/VectorField/change_periodicity.py
@@ -140,7 +140,9 @@ def change_periodicity(
             unit=data.unit,
             axes=axes_list_new,
             values=val_new,
-            normalizations=data.normalizations.copy(),
+            normalizations={
+                key: norm.copy() for key, norm in data.normalizations.items()
+            },
             is_real=data.is_real,
         )
 
-- 
2.43.0


From 5e476b8141ac69d78d08458e7311955760652faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:55 +0000
Subject: [PATCH 07/74] fix: leave assigned lists and dictionaries untouched

Assigning axes, components or normalizations converted the elements in
the caller's own container. Errors while loading an element from a file
were hidden behind a call to a method that does not exist.
---
 SciDataTool/Classes/DataDual.py               | 20 ++++---------------
 SciDataTool/Classes/DataND.py                 | 10 ++--------
 SciDataTool/Classes/Norm_func.py              |  3 ++-
 SciDataTool/Classes/VectorField.py            | 10 ++--------
 .../Methods/Data/_set_normalizations.py       |  1 +
 5 files changed, 11 insertions(+), 33 deletions(-)

diff --git a/SciDataTool/Classes/DataDual.py b/SciDataTool/Classes/DataDual.py
index 7da5841..3e624f3 100644
--- a/SciDataTool/Classes/DataDual.py
+++ b/SciDataTool/Classes/DataDual.py
@@ -416,16 +416,10 @@ class DataDual(DataND):
     def _set_axes_dt(self, value):
         """setter of axes_dt"""
         if type(value) is list:
+            value = value.copy()  # Do not modify the input
             for ii, obj in enumerate(value):
                 if isinstance(obj, str):  # Load from file
-                    try:
-                        obj = load_init_dict(obj)[1]
-                    except Exception as e:
-                        self.get_logger().error(
-                            "Error while loading " + obj + ", setting None instead"
-                        )
-                        obj = None
-                        value[ii] = None
+                    obj = load_init_dict(obj)[1]
                 if type(obj) is dict:
                     class_obj = import_class(
                         "SciDataTool.Classes", obj.get("__class__"), "axes_dt"
@@ -483,16 +477,10 @@ class DataDual(DataND):
     def _set_axes_df(self, value):
         """setter of axes_df"""
         if type(value) is list:
+            value = value.copy()  # Do not modify the input
             for ii, obj in enumerate(value):
                 if isinstance(obj, str):  # Load from file
-                    try:
-                        obj = load_init_dict(obj)[1]
-                    except Exception as e:
-                        self.get_logger().error(
-                            "Error while loading " + obj + ", setting None instead"
-                        )
-                        obj = None
-                        value[ii] = None
+                    obj = load_init_dict(obj)[1]
                 if type(obj) is dict:
                     class_obj = import_class(
                         "SciDataTool.Classes", obj.get("__class__"), "axes_df"
diff --git a/SciDataTool/Classes/DataND.py b/SciDataTool/Classes/DataND.py
index 8ea31f5..979a337 100644
--- a/SciDataTool/Classes/DataND.py
+++ b/SciDataTool/Classes/DataND.py
@@ -761,16 +761,10 @@ class DataND(Data):
     def _set_axes(self, value):
         """setter of axes"""
         if type(value) is list:
+            value = value.copy()  # Do not modify the input
             for ii, obj in enumerate(value):
                 if isinstance(obj, str):  # Load from file
-                    try:
-                        obj = load_init_dict(obj)[1]
-                    except Exception as e:
-                        self.get_logger().error(
-                            "Error while loading " + obj + ", setting None instead"
-                        )
-                        obj = None
-                        value[ii] = None
+                    obj = load_init_dict(obj)[1]
                 if type(obj) is dict:
                     class_obj = import_class(
                         "SciDataTool.Classes", obj.get("__class__"), "axes"
diff --git a/SciDataTool/Classes/Norm_func.py b/SciDataTool/Classes/Norm_func.py
index 5c0a3d5..b832007 100644
--- a/SciDataTool/Classes/Norm_func.py
+++ b/SciDataTool/Classes/Norm_func.py
@@ -5,6 +5,7 @@
 """
 
 from os import linesep
+from logging import getLogger
 from sys import getsizeof
 from ._check import check_var, raise_
 from ..Functions.save import save
@@ -156,7 +157,7 @@ class Norm_func(Normalization):
         else:
             Norm_func_dict["function"] = None
             if self.function is not None:
-                self.get_logger().warning(
+                getLogger(__name__).warning(
                     "Norm_func.as_dict(): "
                     + "Function self.function is not serializable "
                     + "and will be converted to None."
diff --git a/SciDataTool/Classes/VectorField.py b/SciDataTool/Classes/VectorField.py
index d62d39e..0ec1e89 100644
--- a/SciDataTool/Classes/VectorField.py
+++ b/SciDataTool/Classes/VectorField.py
@@ -546,16 +546,10 @@ class VectorField(FrozenClass):
     def _set_components(self, value):
         """setter of components"""
         if type(value) is dict:
+            value = value.copy()  # Do not modify the input
             for key, obj in value.items():
                 if isinstance(obj, str):  # Load from file
-                    try:
-                        obj = load_init_dict(obj)[1]
-                    except Exception as e:
-                        self.get_logger().error(
-                            "Error while loading " + obj + ", setting None instead"
-                        )
-                        obj = None
-                        value[key] = None
+                    obj = load_init_dict(obj)[1]
                 if type(obj) is dict:
                     class_obj = import_class(
                         "SciDataTool.Classes", obj.get("__class__"), "components"
diff --git a/SciDataTool/Methods/Data/_set_normalizations.py b/SciDataTool/Methods/Data/_set_normalizations.py
index cfb722f..d8a67fc 100644
--- a/SciDataTool/Methods/Data/_set_normalizations.py
+++ b/SciDataTool/Methods/Data/_set_normalizations.py
@@ -6,6 +6,7 @@ from numpy import ndarray, int32, int64, float32, float64
 def _set_normalizations(self, value):
     """setter of normalizations"""
     if type(value) is dict:
+        value = value.copy()  # Do not modify the input
         for key, obj in value.items():
             if type(obj) is dict:
                 class_obj = import_class(
-- 
2.43.0


From 0b057cbcc327d93f4e332d9f231fa3ea8fb666c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:46 +0000
Subject: [PATCH 08/74] fix: draw the undersampling from a private random
 generator and honour the given dictionary

---
 SciDataTool/Functions/omp.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Functions/omp.py b/SciDataTool/Functions/omp.py
index d73e8c5..b458238 100644
--- a/SciDataTool/Functions/omp.py
+++ b/SciDataTool/Functions/omp.py
@@ -62,8 +62,7 @@ def comp_undersampling(K: float, Time: Data1D, seed: int = 42) -> ndarray:
     n = len(Time.values)
     m = floor(K * n)
 
-    np.random.seed(seed)
-    M = np.random.choice(n, m, replace=False)
+    M = np.random.RandomState(seed).choice(n, m, replace=False)
     M.sort()
     M = asarray(M)
 
@@ -152,6 +151,7 @@ def omp(
 
     if dictionary is None:
         dictionary_decomp = comp_dictionary(n, M)
+        dictionary_synth = comp_dictionary(n, arange(n))
     else:
         dictionary_decomp = dictionary[0]
         dictionary_synth = dictionary[1]
@@ -172,8 +172,6 @@ def omp(
             X=dictionary_decomp, y=Y, n_nonzero_coefs=n_coefs, precompute=precompute
         )
 
-    dictionary_synth = comp_dictionary(n, arange(n))
-
     Y_full = dictionary_synth @ sparse_decomposition
 
     if return_path:
-- 
2.43.0


From 4d09e0fcc56c829c2ebf246910e69039975f7e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:46 +0000
Subject: [PATCH 09/74] fix: sum and convolution of spectra refuse negative
 frequencies and keep metadata

The sign test compared a boolean with zero and never triggered. The
result shared its normalizations with the first spectrum, lost the real
flag and could not be built when the frequency axis is a linspace.
---
 SciDataTool/Methods/DataFreq/conv.py | 23 ++++++++++++++++++-----
 SciDataTool/Methods/DataFreq/sum.py  | 23 ++++++++++++++++++-----
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/SciDataTool/Methods/DataFreq/conv.py b/SciDataTool/Methods/DataFreq/conv.py
index 9d64694..c781bcd 100644
--- a/SciDataTool/Methods/DataFreq/conv.py
+++ b/SciDataTool/Methods/DataFreq/conv.py
@@ -43,6 +43,10 @@ def conv(
         DataFreq object resulting from convolution of both DataFreq objects
     """
 
+    # Dynamic import to avoid loop
+    module = __import__("SciDataTool.Classes.Data1D", fromlist=["Data1D"])
+    Data1D = getattr(module, "Data1D")
+
     if not isinstance(other, type(self)):
         raise Exception("other is not a DataFreq object")
 
@@ -56,14 +60,14 @@ def conv(
         raise Exception("self axis is not frequency axis")
     else:
         freqs1 = self.axes[0].get_values()
-        if np_any(freqs1) < 0:
+        if np_any(freqs1 < 0):
             raise Exception("self contains negative frequency values")
 
     if other.axes[0].name != "freqs":
         raise Exception("other axis is not frequency axis")
     else:
         freqs2 = other.axes[0].get_values()
-        if np_any(freqs2) < 0:
+        if np_any(freqs2 < 0):
             raise Exception("other contains negative frequency values")
 
     # Fill metadata
@@ -74,7 +78,7 @@ def conv(
     if unit is None:
         unit = self.unit
     if normalizations is None:
-        normalizations = self.normalizations
+        normalizations = {key: norm.copy() for key, norm in self.normalizations.items()}
 
     # Compute spectrum orders resulting from convolution
     freqs_un, I0a, I0b, I1, I2 = get_conv_indices(
@@ -85,8 +89,16 @@ def conv(
     amp = get_conv_amplitudes(self.values, other.values, I0a, I0b, I1, I2)
 
     # Create Frequency axis
-    Freqs = self.axes[0].copy()
-    Freqs.values = freqs_un
+    Freqs = Data1D(
+        name=self.axes[0].name,
+        unit=self.axes[0].unit,
+        symbol=self.axes[0].symbol,
+        values=freqs_un,
+        normalizations={
+            key: norm.copy() for key, norm in self.axes[0].normalizations.items()
+        },
+        is_components=self.axes[0].is_components,
+    )
 
     # Create DataFreq resulting from convolution
     result = type(self)(
@@ -96,6 +108,7 @@ def conv(
         axes=[Freqs],
         values=amp,
         normalizations=normalizations,
+        is_real=self.is_real,
     )
 
     return result
diff --git a/SciDataTool/Methods/DataFreq/sum.py b/SciDataTool/Methods/DataFreq/sum.py
index 45c8f73..e300164 100644
--- a/SciDataTool/Methods/DataFreq/sum.py
+++ b/SciDataTool/Methods/DataFreq/sum.py
@@ -37,6 +37,10 @@ def sum(
         DataFreq object resulting from summing both DataFreq objects
     """
 
+    # Dynamic import to avoid loop
+    module = __import__("SciDataTool.Classes.Data1D", fromlist=["Data1D"])
+    Data1D = getattr(module, "Data1D")
+
     if not isinstance(other, type(self)):
         raise Exception("other is not a DataFreq object")
 
@@ -50,14 +54,14 @@ def sum(
         raise Exception("self axis is not frequency axis")
     else:
         freqs1 = self.axes[0].get_values()
-        if np_any(freqs1) < 0:
+        if np_any(freqs1 < 0):
             raise Exception("self contains negative frequency values")
 
     if other.axes[0].name != "freqs":
         raise Exception("other axis is not frequency axis")
     else:
         freqs2 = other.axes[0].get_values()
-        if np_any(freqs2) < 0:
+        if np_any(freqs2 < 0):
             raise Exception("other contains negative frequency values")
 
     # Fill metadata
@@ -68,7 +72,7 @@ def sum(
     if unit is None:
         unit = self.unit
     if normalizations is None:
-        normalizations = self.normalizations
+        normalizations = {key: norm.copy() for key, norm in self.normalizations.items()}
 
     # Compute spectrum orders resulting from convolution
     freqs_un, I0b = get_sum_indices(freqs1, freqs2, tol_freq)
@@ -77,8 +81,16 @@ def sum(
     amp = get_sum_amplitudes(self.values, other.values, I0b)
 
     # Create Frequency axis
-    Freqs = self.axes[0].copy()
-    Freqs.values = freqs_un
+    Freqs = Data1D(
+        name=self.axes[0].name,
+        unit=self.axes[0].unit,
+        symbol=self.axes[0].symbol,
+        values=freqs_un,
+        normalizations={
+            key: norm.copy() for key, norm in self.axes[0].normalizations.items()
+        },
+        is_components=self.axes[0].is_components,
+    )
 
     # Create DataFreq resulting from convolution
     result = type(self)(
@@ -88,6 +100,7 @@ def sum(
         axes=[Freqs],
         values=amp,
         normalizations=normalizations,
+        is_real=self.is_real,
     )
 
     return result
-- 
2.43.0


From 082bc994ba2794dda073934c8fe45d32ad4d471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:46 +0000
Subject: [PATCH 10/74] fix: detach recovered and sliced axes from their source

---
 SciDataTool/Methods/DataND/get_data_along.py |  8 +++++---
 SciDataTool/Methods/DataND/orthogonal_mp.py  | 10 ++++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_data_along.py b/SciDataTool/Methods/DataND/get_data_along.py
index 0fa0fd7..e1c9abf 100644
--- a/SciDataTool/Methods/DataND/get_data_along.py
+++ b/SciDataTool/Methods/DataND/get_data_along.py
@@ -94,10 +94,12 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
                 },
                 symmetries=symmetries,
             ).to_linspace()
-            if hasattr(self.axes[index], "sort_indices") and hasattr(
-                Axis, "sort_indices"
+            if (
+                hasattr(self.axes[index], "sort_indices")
+                and hasattr(Axis, "sort_indices")
+                and self.axes[index].sort_indices is not None
             ):
-                Axis.sort_indices = self.axes[index].sort_indices
+                Axis.sort_indices = self.axes[index].sort_indices.copy()
             Axes.append(Axis)
 
     # Update unit if dB/dBA conversion
diff --git a/SciDataTool/Methods/DataND/orthogonal_mp.py b/SciDataTool/Methods/DataND/orthogonal_mp.py
index ab82eda..dd18bc9 100644
--- a/SciDataTool/Methods/DataND/orthogonal_mp.py
+++ b/SciDataTool/Methods/DataND/orthogonal_mp.py
@@ -54,7 +54,10 @@ def orthogonal_mp(
             symbol=self.symbol,
             unit=self.unit,
             values=Y_full,
-            axes=[Time],
+            axes=[Time.copy()],
+            normalizations={
+                key: norm.copy() for key, norm in self.normalizations.items()
+            },
             is_real=self.is_real,
         )
     if nombre_axes == 2:
@@ -62,7 +65,10 @@ def orthogonal_mp(
             name=self.name,
             symbol=self.symbol,
             unit=self.unit,
-            axes=[Time, Angle],
+            axes=[Time.copy(), Angle.copy()],
+            normalizations={
+                key: norm.copy() for key, norm in self.normalizations.items()
+            },
             values=Y_full,
             is_real=self.is_real,
         )
-- 
2.43.0


From 7c30c5b2da823de634d856dc8f5b06f99ed8e25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:13 +0000
Subject: [PATCH 11/74] fix: load saved objects with the classes of this
 package

Classes were looked up in another package, so no saved object could be
loaded back, and an error while rebuilding the object left the process in
the folder of the loaded file.
---
 SciDataTool/Functions/load.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/SciDataTool/Functions/load.py b/SciDataTool/Functions/load.py
index d79d61a..d0deb2f 100644
--- a/SciDataTool/Functions/load.py
+++ b/SciDataTool/Functions/load.py
@@ -44,13 +44,14 @@ def init_data(obj, file_path):
         # Check if the dictionay has a "__class__" key
         if "__class__" in obj:
             # Check if data is a pyleecan class
-            class_obj = import_class("pyleecan.Classes", obj.get("__class__"), "")
+            class_obj = import_class("SciDataTool.Classes", obj.get("__class__"), "")
             if folder_path != "":
                 wd = getcwd()
-                chdir(folder_path)
-                new_obj = class_obj(init_dict=obj)
-                chdir(wd)
-                return new_obj
+                try:
+                    chdir(folder_path)
+                    return class_obj(init_dict=obj)
+                finally:
+                    chdir(wd)
             else:
                 return class_obj(init_dict=obj)
 
-- 
2.43.0


From 9ba7ffda2da0679653841b01b138f16850b77d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:28 +0000
Subject: [PATCH 12/74] fix: interpolate compared fields along each of their
 axes

Comparing with other fields always failed, the position of the axis being missing.
---
 SciDataTool/Methods/DataND/compare_along.py    | 18 ++++++++++++++----
 .../Methods/DataND/compare_magnitude_along.py  | 18 ++++++++++++++----
 .../Methods/DataND/compare_phase_along.py      | 18 ++++++++++++++----
 3 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/SciDataTool/Methods/DataND/compare_along.py b/SciDataTool/Methods/DataND/compare_along.py
index 18cd2dd..af38681 100644
--- a/SciDataTool/Methods/DataND/compare_along.py
+++ b/SciDataTool/Methods/DataND/compare_along.py
@@ -27,29 +27,39 @@ def compare_along(self, *args, data_list=[], unit="SI", is_norm=False):
         values = results.pop(self.symbol)
         axes_list = results.pop("axes_list")
         axes_dict_other = results.pop("axes_dict_other")
-        axes = results
+        # Drop the reduced and squeezed axes, along which there is nothing to interpolate
+        axes = {}
+        axes_single = {}
+        for axis, axis_values in results.items():
+            if isinstance(axis_values, str) or len(axis_values) == 1:
+                axes_single[axis] = axis_values
+            else:
+                axes[axis] = axis_values
         data_axis_values = []
         data_values = []
-        return_dict = {}
+        return_dict = dict(axes_single)
         for data in data_list:
             results = data.get_along(args, unit=unit, is_norm=is_norm)
             data_values.append(results.pop(data.symbol))
             data_axis_values.append(results)
         # Get the common bases
         common_axis_values = {}
-        for axis in axes.keys():
+        for index, axis in enumerate(axes.keys()):
             common_axis_values[axis] = axes[axis]
             for i, data in enumerate(data_list):
                 common_axis_values[axis] = get_common_base(
                     common_axis_values[axis], data_axis_values[i][axis]
                 )
             # Interpolate over common axis values
-            values = get_interpolation(values, axes[axis], common_axis_values[axis])
+            values = get_interpolation(
+                values, axes[axis], common_axis_values[axis], index
+            )
             for i, data in enumerate(data_list):
                 data_values[i] = get_interpolation(
                     data_values[i],
                     data_axis_values[i][axis],
                     common_axis_values[axis],
+                    index,
                 )
             return_dict[axis] = common_axis_values[axis]
         # Return axis and values
diff --git a/SciDataTool/Methods/DataND/compare_magnitude_along.py b/SciDataTool/Methods/DataND/compare_magnitude_along.py
index 4fd0ea9..27e2ab8 100644
--- a/SciDataTool/Methods/DataND/compare_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/compare_magnitude_along.py
@@ -27,29 +27,39 @@ def compare_magnitude_along(self, *args, unit="SI", data_list=[], is_norm=False)
         values = results.pop(self.symbol)
         axes_list = results.pop("axes_list")
         axes_dict_other = results.pop("axes_dict_other")
-        axes = results
+        # Drop the reduced and squeezed axes, along which there is nothing to interpolate
+        axes = {}
+        axes_single = {}
+        for axis, axis_values in results.items():
+            if isinstance(axis_values, str) or len(axis_values) == 1:
+                axes_single[axis] = axis_values
+            else:
+                axes[axis] = axis_values
         data_axis_values = []
         data_values = []
-        return_dict = {}
+        return_dict = dict(axes_single)
         for data in data_list:
             results = data.get_magnitude_along(args, unit=unit, is_norm=is_norm)
             data_values.append(results.pop(data.symbol))
             data_axis_values.append(results)
         # Get the common bases
         common_axis_values = {}
-        for axis in axes.keys():
+        for index, axis in enumerate(axes.keys()):
             common_axis_values[axis] = axes[axis]
             for i, data in enumerate(data_list):
                 common_axis_values[axis] = get_common_base(
                     common_axis_values[axis], data_axis_values[i][axis]
                 )
             # Interpolate over common axis values
-            values = get_interpolation(values, axes[axis], common_axis_values[axis])
+            values = get_interpolation(
+                values, axes[axis], common_axis_values[axis], index
+            )
             for i, data in enumerate(data_list):
                 data_values[i] = get_interpolation(
                     data_values[i],
                     data_axis_values[i][axis],
                     common_axis_values[axis],
+                    index,
                 )
             return_dict[axis] = common_axis_values[axis]
         # Return axis and values
diff --git a/SciDataTool/Methods/DataND/compare_phase_along.py b/SciDataTool/Methods/DataND/compare_phase_along.py
index bf45c0d..d907278 100644
--- a/SciDataTool/Methods/DataND/compare_phase_along.py
+++ b/SciDataTool/Methods/DataND/compare_phase_along.py
@@ -27,29 +27,39 @@ def compare_phase_along(self, *args, unit="SI", data_list=[], is_norm=False):
         values = results.pop(self.symbol)
         axes_list = results.pop("axes_list")
         axes_dict_other = results.pop("axes_dict_other")
-        axes = results
+        # Drop the reduced and squeezed axes, along which there is nothing to interpolate
+        axes = {}
+        axes_single = {}
+        for axis, axis_values in results.items():
+            if isinstance(axis_values, str) or len(axis_values) == 1:
+                axes_single[axis] = axis_values
+            else:
+                axes[axis] = axis_values
         data_axis_values = []
         data_values = []
-        return_dict = {}
+        return_dict = dict(axes_single)
         for data in data_list:
             results = data.get_phase_along(args, unit=unit, is_norm=is_norm)
             data_values.append(results.pop(data.symbol))
             data_axis_values.append(results)
         # Get the common bases
         common_axis_values = {}
-        for axis in axes.keys():
+        for index, axis in enumerate(axes.keys()):
             common_axis_values[axis] = axes[axis]
             for i, data in enumerate(data_list):
                 common_axis_values[axis] = get_common_base(
                     common_axis_values[axis], data_axis_values[i][axis]
                 )
             # Interpolate over common axis values
-            values = get_interpolation(values, axes[axis], common_axis_values[axis])
+            values = get_interpolation(
+                values, axes[axis], common_axis_values[axis], index
+            )
             for i, data in enumerate(data_list):
                 data_values[i] = get_interpolation(
                     data_values[i],
                     data_axis_values[i][axis],
                     common_axis_values[axis],
+                    index,
                 )
             return_dict[axis] = common_axis_values[axis]
         # Return axis and values
-- 
2.43.0


From 19336e14e41a3267f5c431dada8caee1ebbb8d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:28 +0000
Subject: [PATCH 13/74] fix: change of frame and periodicity on axes without
 regular step

---
 SciDataTool/Methods/DataND/change_referential.py     | 12 ++++++++----
 .../Methods/VectorField/change_periodicity.py        | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/SciDataTool/Methods/DataND/change_referential.py b/SciDataTool/Methods/DataND/change_referential.py
index 8060df5..b8d1a32 100644
--- a/SciDataTool/Methods/DataND/change_referential.py
+++ b/SciDataTool/Methods/DataND/change_referential.py
@@ -5,6 +5,7 @@ from SciDataTool.Functions.change_referential import (
     change_referential_waveform,
 )
 from SciDataTool.Functions.Load.import_class import import_class
+from SciDataTool.Functions import AxisError
 
 
 def change_referential(
@@ -129,7 +130,10 @@ def change_referential(
         is_aper_t = "antiperiod" in sym_t_new
 
         # Get angle periodicity on one period
-        per_a, is_aper_a = axes_list[1].get_periodicity()
+        angle_axis = axes_list[1]
+        if isinstance(angle_axis, DataPattern):
+            raise AxisError("Referential cannot be changed along a pattern axis")
+        per_a, is_aper_a = angle_axis.get_periodicity()
         per_a = int(per_a / 2) if is_aper_a else per_a
 
         val_new, time_new, angle_new, ta_in, ta_out = change_referential_waveform(
@@ -185,12 +189,12 @@ def change_referential(
             if axis.name == "time" and is_waveform:
                 axis_new = axis.copy()
                 axis_new.symmetries = sym_t_new.copy()
-                axis_new.number = time_new.size
                 if isinstance(axis_new, DataLinspace):
+                    axis_new.number = time_new.size
                     axis_new.final = time_new[-1]
                     axis_new.include_endpoint = True
                 else:
-                    axis_new.values = time0
+                    axis_new.values = time_new
 
             elif axis.name == "angle" and is_waveform:
                 axis_new = axis.copy()
@@ -198,8 +202,8 @@ def change_referential(
                     axis_new.symmetries = {"antiperiod": int(2 * per_a)}
                 else:
                     axis_new.symmetries = {"period": per_a}
-                axis_new.number = angle_new.size
                 if isinstance(axis_new, DataLinspace):
+                    axis_new.number = angle_new.size
                     axis_new.final = angle_new[-1]
                     axis_new.include_endpoint = True
                 else:
diff --git a/SciDataTool/Methods/VectorField/change_periodicity.py b/SciDataTool/Methods/VectorField/change_periodicity.py
index 45a86dd..14dbdba 100644
--- a/SciDataTool/Methods/VectorField/change_periodicity.py
+++ b/SciDataTool/Methods/VectorField/change_periodicity.py
@@ -1,6 +1,7 @@
 import numpy as np
 
 from SciDataTool.Functions.Load.import_class import import_class
+from SciDataTool.Functions import AxisError
 
 
 def change_periodicity(
@@ -33,23 +34,26 @@ def change_periodicity(
     # Get axes list in original VectorField
     # Assumes axes are the following: time, angle, z and z is DataPattern or radius
     axes_list = self.get_axes()
+    time_axis, angle_axis = axes_list[0], axes_list[1]
+    if isinstance(time_axis, DataPattern) or isinstance(angle_axis, DataPattern):
+        raise AxisError("Periodicity cannot be changed along a pattern axis")
 
     # Get replicating number for time axis
-    per_t, is_aper_t = axes_list[0].get_periodicity()
+    per_t, is_aper_t = time_axis.get_periodicity()
     per_t = int(per_t / 2) if is_aper_t else per_t
     Nrep_t = int(per_t / per_t_new)
-    Nt = Nrep_t * axes_list[0].get_length(
+    Nt = Nrep_t * time_axis.get_length(
         is_oneperiod=Nrep_t > 1 or (Nrep_t == 1 and not is_aper_t_new),
         is_antiperiod=Nrep_t == 1 and is_aper_t_new,
     )
 
     # Get replicating number for angle axis
-    per_a, is_aper_a = axes_list[1].get_periodicity()
+    per_a, is_aper_a = angle_axis.get_periodicity()
     if is_aper_a_new is None:
         is_aper_a_new = is_aper_a
     per_a = int(per_a / 2) if is_aper_a else per_a
     Nrep_a = int(per_a / per_a_new)
-    Na = Nrep_a * axes_list[1].get_length(
+    Na = Nrep_a * angle_axis.get_length(
         is_oneperiod=Nrep_a > 1 or (Nrep_a == 1 and not is_aper_a_new),
         is_antiperiod=Nrep_a == 1 and is_aper_a_new,
     )
-- 
2.43.0


From f6385c97868af93e4c3eb90287ed7bc330057362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:28 +0000
Subject: [PATCH 14/74] fix: undersample axes given by their bounds

---
 SciDataTool/Functions/omp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/omp.py b/SciDataTool/Functions/omp.py
index b458238..ab74df2 100644
--- a/SciDataTool/Functions/omp.py
+++ b/SciDataTool/Functions/omp.py
@@ -59,14 +59,15 @@ def comp_undersampling(K: float, Time: Data1D, seed: int = 42) -> ndarray:
 
     assert K <= 1 and K >= 0, "K = {} is not a percentage".format(K)
 
-    n = len(Time.values)
+    time_values = Time.get_values(is_smallestperiod=True)
+    n = len(time_values)
     m = floor(K * n)
 
     M = np.random.RandomState(seed).choice(n, m, replace=False)
     M.sort()
     M = asarray(M)
 
-    time_under = Time.values[M]
+    time_under = time_values[M]
 
     Time_under = Data1D(
         name=Time.name,
-- 
2.43.0


From 37326aa60863531f75f8629dbd3a6e8f039e9cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:28 +0000
Subject: [PATCH 15/74] fix: colors of overlaid plots along axes given by their
 bounds

---
 SciDataTool/Methods/DataND/plot_2D_Data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index e7040a8..e663ffb 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -439,8 +439,8 @@ def plot_2D_Data(
             # Adjust colors in non overlay case with overlay axis
             if len(data_list2) > 1:
                 for axis in self.get_axes():
-                    if axis.is_overlay and len(color_list) > len(axis.values):
-                        new_color_list[1:] = color_list[len(axis.values) :]
+                    if axis.is_overlay and len(color_list) > axis.get_length():
+                        new_color_list[1:] = color_list[axis.get_length() :]
 
     # Split Ydatas if the plot overlays several curves
     if is_overlay:
-- 
2.43.0


From bd02e23e4877d5922fc23185af29eebfe031cb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:28 +0000
Subject: [PATCH 16/74] fix: refuse to transform components already in the
 other domain

---
 SciDataTool/Methods/VectorField/freq_to_time.py | 5 +++++
 SciDataTool/Methods/VectorField/time_to_freq.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/SciDataTool/Methods/VectorField/freq_to_time.py b/SciDataTool/Methods/VectorField/freq_to_time.py
index 0bbed3e..733222d 100644
--- a/SciDataTool/Methods/VectorField/freq_to_time.py
+++ b/SciDataTool/Methods/VectorField/freq_to_time.py
@@ -1,3 +1,6 @@
+from SciDataTool.Functions import AxisError
+
+
 def freq_to_time(self):
     """Performs the Fourier Transform and stores the resulting field in a VectorField of DataTime objects.
     Parameters
@@ -15,6 +18,8 @@ def freq_to_time(self):
 
     comp_dict = dict()
     for key, comp in self.components.items():
+        if not hasattr(comp, "freq_to_time"):
+            raise AxisError("Component " + key + " is not in the domain to transform")
         comp_dict[key] = comp.freq_to_time()
 
     return VectorField(name=self.name, symbol=self.symbol, components=comp_dict)
diff --git a/SciDataTool/Methods/VectorField/time_to_freq.py b/SciDataTool/Methods/VectorField/time_to_freq.py
index faebcad..32e1561 100644
--- a/SciDataTool/Methods/VectorField/time_to_freq.py
+++ b/SciDataTool/Methods/VectorField/time_to_freq.py
@@ -1,3 +1,6 @@
+from SciDataTool.Functions import AxisError
+
+
 def time_to_freq(self):
     """Performs the Fourier Transform and stores the resulting field in a VectorField of DataFreq objects.
     Parameters
@@ -15,6 +18,8 @@ def time_to_freq(self):
 
     comp_dict = dict()
     for key, comp in self.components.items():
+        if not hasattr(comp, "time_to_freq"):
+            raise AxisError("Component " + key + " is not in the domain to transform")
         comp_dict[key] = comp.time_to_freq()
 
     return VectorField(name=self.name, symbol=self.symbol, components=comp_dict)
-- 
2.43.0


From c08374da69e985e604b8fd63c539d71026d31f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:30 +0000
Subject: [PATCH 17/74] fix: frame requests on vector fields with any set of
 components

Requests in the other frame failed or returned null fields when only one
in-plane component is stored, magnitudes and harmonics along the whole angle
were those of the raw field, and the angle had to be the second axis.
---
 SciDataTool/Functions/conversions.py          |   8 +-
 .../VectorField/get_harm_rphiz_along.py       | 104 +++++++++++-------
 .../Methods/VectorField/get_harm_xyz_along.py |  82 +++++++-------
 .../VectorField/get_mag_rphiz_along.py        |  77 +++++++------
 .../Methods/VectorField/get_mag_xyz_along.py  |  75 +++++++------
 .../Methods/VectorField/get_rphiz_along.py    |  38 ++++---
 .../Methods/VectorField/get_xyz_along.py      |  34 +++---
 7 files changed, 225 insertions(+), 193 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 8a9d32f..4476025 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -610,12 +610,12 @@ def rphi_to_xy(r, phi):
     return (x, y)
 
 
-def cart2pol(field_x, field_y, phi):
+def cart2pol(field_x, field_y, phi, index=1):
     cos_phi = cos(phi)
     sin_phi = sin(phi)
 
     dim_array = ones((1, field_x.ndim), int).ravel()
-    dim_array[1] = -1
+    dim_array[index if field_x.ndim > 1 else 0] = -1
 
     # Reshape b with dim_array and perform elementwise multiplication with
     # broadcasting along the singleton dimensions for the final output
@@ -628,13 +628,13 @@ def cart2pol(field_x, field_y, phi):
     return (field_r, field_phi)
 
 
-def pol2cart(field_r, field_phi, phi):
+def pol2cart(field_r, field_phi, phi, index=1):
     cos_phi = cos(phi)
     sin_phi = sin(phi)
 
     dim_array = ones((1, field_r.ndim), int).ravel()
     if len(dim_array) > 1:
-        dim_array[1] = -1
+        dim_array[index] = -1
 
         # Reshape b with dim_array and perform elementwise multiplication with
         # broadcasting along the singleton dimensions for the final output
diff --git a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
index a96b5ea..ec58d54 100644
--- a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
@@ -26,84 +26,110 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "comp_x" in self.components.keys() and "comp_y" in self.components.keys():
+    if "comp_x" in self.components.keys() or "comp_y" in self.components.keys():
         # Extract first along whole "angle" axis
         new_args = [arg for arg in args]
         string = [s for s in args if "angle" in s]
+        if string == []:
+            string = [s for s in args if "wavenumber" in s]
         if string != []:
             new_args[args.index(string[0])] = "angle"
         else:
             new_args.extend(["angle"])
-        Datax = self.components["comp_x"].get_data_along(
+        if "comp_x" in self.components.keys():
+            Data_ref = self.components["comp_x"]
+        else:
+            Data_ref = self.components["comp_y"]
+        Datax = Data_ref.get_data_along(
             *new_args,
+            axis_data=axis_data,
+        )
+        Datay = Datax.copy()
+        if "comp_x" not in self.components.keys():
+            Datax.values = zeros(Datax.values.shape, dtype=Datax.values.dtype)
+        elif "comp_y" in self.components.keys():
+            Datay = self.components["comp_y"].get_data_along(
+                *new_args,
+                axis_data=axis_data,
+            )
+        else:
+            Datay.values = zeros(Datay.values.shape, dtype=Datay.values.dtype)
+        field_x = Datax.values
+        field_y = Datay.values
+        index = [axis.name for axis in Datax.axes].index("angle")
+        phi = Datax.get_axes("angle")[0].get_values()
+        # Convert to cylindrical coordinates
+        (field_r, field_t) = cart2pol(field_x, field_y, phi, index)
+        # Extract second time with true args
+        Datax.values = field_r
+        Datay.values = field_t
+        resultr = Datax.get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Datay = self.components["comp_y"].get_data_along(
-            *new_args,
+        field_r = resultr[Datax.symbol]
+        resultt = Datay.get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_x = Datax.values
-        field_y = Datay.values
-        shape = field_x.shape
-        phi = Datax.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_r, field_t) = cart2pol(field_x, field_y, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datax.values = field_r
-            Datay.values = field_t
-            resultr = Datax.get_harmonics(
+        field_t = resultt[Datay.symbol]
+        # Add axial component
+        if "axial" in self.components.keys():
+            resultz = self.components["axial"].get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_r = resultr[Datax.symbol]
-            resultt = Datay.get_harmonics(
+            field_z = resultz[self.components["axial"].symbol]
+        elif "comp_z" in self.components.keys():
+            resultz = self.components["comp_z"].get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_t = resultt[Datay.symbol]
+            field_z = resultz[self.components["comp_z"].symbol]
         else:
-            # Need return dict to initialize results
-            resultr = self.components["comp_x"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
+            field_z = zeros(field_r.shape)
+        return_dict = dict(resultr)
+        del return_dict[Data_ref.symbol]
+
+    elif "radial" in self.components.keys():
+        resultr = self.components["radial"].get_harmonics(
+            N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
+        )
+        field_r = resultr[self.components["radial"].symbol]
+        shape = field_r.shape
+        if "tangential" in self.components.keys():
+            resultphi = self.components["tangential"].get_harmonics(
+                N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
             )
-        # Add axial component
+            field_t = resultphi[self.components["tangential"].symbol]
+        else:
+            field_t = zeros(shape)
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
+                N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
             )
             field_z = resultz[self.components["axial"].symbol]
         elif "comp_z" in self.components.keys():
             resultz = self.components["comp_z"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
+                N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
             )
             field_z = resultz[self.components["comp_z"].symbol]
         else:
             field_z = zeros(shape)
         return_dict = dict(resultr)
-        del return_dict[self.components["comp_x"].symbol]
+        del return_dict[self.components["radial"].symbol]
 
     elif "tangential" in self.components.keys():
         resultphi = self.components["tangential"].get_harmonics(
@@ -115,7 +141,7 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
             resultr = self.components["radial"].get_harmonics(
                 N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
             )
-            field_r = resultphi[self.components["radial"].symbol]
+            field_r = resultr[self.components["radial"].symbol]
         else:
             field_r = zeros(shape)
         if "axial" in self.components.keys():
@@ -145,7 +171,7 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
         del return_dict[self.components["axial"].symbol]
 
     elif "comp_z" in self.components.keys():
-        resultz = self.components["z"].get_harmonics(
+        resultz = self.components["comp_z"].get_harmonics(
             N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
         )
         field_z = resultz[self.components["comp_z"].symbol]
diff --git a/SciDataTool/Methods/VectorField/get_harm_xyz_along.py b/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
index 3248f37..bdfd30c 100644
--- a/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
@@ -1,6 +1,6 @@
 from numpy import zeros
 
-from SciDataTool.Functions.conversions import cart2pol
+from SciDataTool.Functions.conversions import pol2cart
 from SciDataTool.Functions import AxisError
 
 
@@ -26,61 +26,59 @@ def get_harm_xyz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_data=
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "radial" in self.components.keys() and "tangential" in self.components.keys():
+    if "radial" in self.components.keys() or "tangential" in self.components.keys():
         # Extract first along whole "angle" axis
         new_args = [arg for arg in args]
         string = [s for s in args if "angle" in s]
+        if string == []:
+            string = [s for s in args if "wavenumber" in s]
         if string != []:
             new_args[args.index(string[0])] = "angle"
         else:
             new_args.extend(["angle"])
-        Datar = self.components["radial"].get_data_along(
+        if "radial" in self.components.keys():
+            Data_ref = self.components["radial"]
+        else:
+            Data_ref = self.components["tangential"]
+        Datar = Data_ref.get_data_along(
             *new_args,
+            axis_data=axis_data,
+        )
+        Dataphi = Datar.copy()
+        if "radial" not in self.components.keys():
+            Datar.values = zeros(Datar.values.shape, dtype=Datar.values.dtype)
+        elif "tangential" in self.components.keys():
+            Dataphi = self.components["tangential"].get_data_along(
+                *new_args,
+                axis_data=axis_data,
+            )
+        else:
+            Dataphi.values = zeros(Dataphi.values.shape, dtype=Dataphi.values.dtype)
+        field_r = Datar.values
+        field_c = Dataphi.values
+        index = [axis.name for axis in Datar.axes].index("angle")
+        phi = Datar.get_axes("angle")[0].get_values()
+        # Convert to cylindrical coordinates
+        (field_x, field_y) = pol2cart(field_r, field_c, phi, index)
+        # Extract second time with true args
+        Datar.values = field_x
+        Dataphi.values = field_y
+        resultx = Datar.get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Dataphi = self.components["tangential"].get_data_along(
-            *new_args,
+        field_x = resultx[Datar.symbol]
+        resulty = Dataphi.get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_r = Datar.values
-        field_c = Dataphi.values
-        shape = field_r.shape
-        phi = Datar.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_x, field_y) = pol2cart(field_r, field_c, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datar.values = field_x
-            Dataphi.values = field_y
-            resultx = Datar.get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_x = resultx[Datar.symbol]
-            resulty = Dataphi.get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_y = resulty[Dataphi.symbol]
-        else:
-            # Need return dict to initialize results
-            resultx = self.components["radial"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
+        field_y = resulty[Dataphi.symbol]
         # Add axial component
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_harmonics(
@@ -101,10 +99,10 @@ def get_harm_xyz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_data=
             )
             field_z = resultz[self.components["comp_z"].symbol]
         else:
-            field_z = zeros(shape)
+            field_z = zeros(field_x.shape)
         # Build return dict
         return_dict = dict(resultx)
-        del return_dict[self.components["radial"].symbol]
+        del return_dict[Data_ref.symbol]
 
     elif "comp_x" in self.components.keys():
         resultx = self.components["comp_x"].get_harmonics(
diff --git a/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py b/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
index 79fbe61..15d2db3 100644
--- a/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
@@ -26,58 +26,57 @@ def get_mag_rphiz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "comp_x" in self.components.keys() and "comp_y" in self.components.keys():
+    if "comp_x" in self.components.keys() or "comp_y" in self.components.keys():
         # Extract first along whole "angle" axis
         new_args = [arg for arg in args]
         string = [s for s in args if "angle" in s]
+        if string == []:
+            string = [s for s in args if "wavenumber" in s]
         if string != []:
             new_args[args.index(string[0])] = "angle"
         else:
             new_args.extend(["angle"])
-        Datax = self.components["comp_x"].get_data_along(
+        if "comp_x" in self.components.keys():
+            Data_ref = self.components["comp_x"]
+        else:
+            Data_ref = self.components["comp_y"]
+        Datax = Data_ref.get_data_along(
             *new_args,
+            axis_data=axis_data,
+        )
+        Datay = Datax.copy()
+        if "comp_x" not in self.components.keys():
+            Datax.values = zeros(Datax.values.shape, dtype=Datax.values.dtype)
+        elif "comp_y" in self.components.keys():
+            Datay = self.components["comp_y"].get_data_along(
+                *new_args,
+                axis_data=axis_data,
+            )
+        else:
+            Datay.values = zeros(Datay.values.shape, dtype=Datay.values.dtype)
+        field_x = Datax.values
+        field_y = Datay.values
+        index = [axis.name for axis in Datax.axes].index("angle")
+        phi = Datax.get_axes("angle")[0].get_values()
+        # Convert to cylindrical coordinates
+        (field_r, field_t) = cart2pol(field_x, field_y, phi, index)
+        # Extract second time with true args
+        Datax.values = field_r
+        Datay.values = field_t
+        resultr = Datax.get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Datay = self.components["comp_y"].get_data_along(
-            *new_args,
+        field_r = resultr[Datax.symbol]
+        resultt = Datay.get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_x = Datax.values
-        field_y = Datay.values
-        shape = field_x.shape
-        phi = Datax.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_r, field_t) = cart2pol(field_x, field_y, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datax.values = field_r
-            Datay.values = field_t
-            resultr = Datax.get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_r = resultr[Datax.symbol]
-            resultt = Datay.get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_t = resultt[Datay.symbol]
-        else:
-            # Need return dict to initialize results
-            resultr = self.components["comp_x"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
+        field_t = resultt[Datay.symbol]
         # Add axial component
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_magnitude_along(
@@ -96,9 +95,9 @@ def get_mag_rphiz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
             )
             field_z = resultz[self.components["comp_z"].symbol]
         else:
-            field_z = zeros(shape)
+            field_z = zeros(field_r.shape)
         return_dict = dict(resultr)
-        del return_dict[self.components["comp_x"].symbol]
+        del return_dict[Data_ref.symbol]
 
     elif "radial" in self.components.keys():
         resultr = self.components["radial"].get_magnitude_along(
@@ -138,7 +137,7 @@ def get_mag_rphiz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
             resultr = self.components["radial"].get_magnitude_along(
                 args, unit=unit, is_norm=is_norm, axis_data=axis_data
             )
-            field_r = resultphi[self.components["radial"].symbol]
+            field_r = resultr[self.components["radial"].symbol]
         else:
             field_r = zeros(shape)
         if "axial" in self.components.keys():
diff --git a/SciDataTool/Methods/VectorField/get_mag_xyz_along.py b/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
index e77625f..5eb27b6 100644
--- a/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
@@ -26,58 +26,57 @@ def get_mag_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "radial" in self.components.keys() and "tangential" in self.components.keys():
+    if "radial" in self.components.keys() or "tangential" in self.components.keys():
         # Extract first along whole "angle" axis
         new_args = [arg for arg in args]
         string = [s for s in args if "angle" in s]
+        if string == []:
+            string = [s for s in args if "wavenumber" in s]
         if string != []:
             new_args[args.index(string[0])] = "angle"
         else:
             new_args.extend(["angle"])
-        Datar = self.components["radial"].get_data_along(
+        if "radial" in self.components.keys():
+            Data_ref = self.components["radial"]
+        else:
+            Data_ref = self.components["tangential"]
+        Datar = Data_ref.get_data_along(
             *new_args,
+            axis_data=axis_data,
+        )
+        Dataphi = Datar.copy()
+        if "radial" not in self.components.keys():
+            Datar.values = zeros(Datar.values.shape, dtype=Datar.values.dtype)
+        elif "tangential" in self.components.keys():
+            Dataphi = self.components["tangential"].get_data_along(
+                *new_args,
+                axis_data=axis_data,
+            )
+        else:
+            Dataphi.values = zeros(Dataphi.values.shape, dtype=Dataphi.values.dtype)
+        field_r = Datar.values
+        field_c = Dataphi.values
+        index = [axis.name for axis in Datar.axes].index("angle")
+        phi = Datar.get_axes("angle")[0].get_values()
+        # Convert to cylindrical coordinates
+        (field_x, field_y) = pol2cart(field_r, field_c, phi, index)
+        # Extract second time with true args
+        Datar.values = field_x
+        Dataphi.values = field_y
+        resultx = Datar.get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Dataphi = self.components["tangential"].get_data_along(
-            *new_args,
+        field_x = resultx[Datar.symbol]
+        resulty = Dataphi.get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_r = Datar.values
-        field_c = Dataphi.values
-        shape = field_r.shape
-        phi = Datar.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_x, field_y) = pol2cart(field_r, field_c, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datar.values = field_x
-            Dataphi.values = field_y
-            resultx = Datar.get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_x = resultx[Datar.symbol]
-            resulty = Dataphi.get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_y = resulty[Dataphi.symbol]
-        else:
-            # Need return dict to initialize results
-            resultx = self.components["radial"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
+        field_y = resulty[Dataphi.symbol]
         # Add axial component
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_magnitude_along(
@@ -96,10 +95,10 @@ def get_mag_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
             )
             field_z = resultz[self.components["comp_z"].symbol]
         else:
-            field_z = zeros(shape)
+            field_z = zeros(field_x.shape)
         # Build return dict
         return_dict = dict(resultx)
-        del return_dict[self.components["radial"].symbol]
+        del return_dict[Data_ref.symbol]
 
     elif "comp_x" in self.components.keys():
         resultx = self.components["comp_x"].get_magnitude_along(
diff --git a/SciDataTool/Methods/VectorField/get_rphiz_along.py b/SciDataTool/Methods/VectorField/get_rphiz_along.py
index 69ef808..ae913bb 100644
--- a/SciDataTool/Methods/VectorField/get_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_rphiz_along.py
@@ -28,7 +28,7 @@ def get_rphiz_along(
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "comp_x" in self.components.keys() and "comp_y" in self.components.keys():
+    if "comp_x" in self.components.keys() or "comp_y" in self.components.keys():
         # Extract first along whole or smallest period "angle" axis
         new_args = [arg for arg in args]
         string = [s for s in args if "angle" in s]
@@ -39,27 +39,37 @@ def get_rphiz_along(
                 new_args[args.index("wavenumber")] = "angle"
             else:
                 new_args.extend(["angle"])
-        Datax = self.components["comp_x"].get_data_along(
-            *new_args,
-            unit=unit,
-            is_norm=is_norm,
-            axis_data=axis_data,
-        )
-        Datay = self.components["comp_y"].get_data_along(
+        if "comp_x" in self.components.keys():
+            Data_ref = self.components["comp_x"]
+        else:
+            Data_ref = self.components["comp_y"]
+        Datax = Data_ref.get_data_along(
             *new_args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
+        Datay = Datax.copy()
+        if "comp_x" not in self.components.keys():
+            Datax.values = zeros(Datax.values.shape, dtype=Datax.values.dtype)
+        elif "comp_y" in self.components.keys():
+            Datay = self.components["comp_y"].get_data_along(
+                *new_args,
+                unit=unit,
+                is_norm=is_norm,
+                axis_data=axis_data,
+            )
+        else:
+            Datay.values = zeros(Datay.values.shape, dtype=Datay.values.dtype)
         field_x = Datax.values
         field_y = Datay.values
-        shape = field_x.shape
+        index = [axis.name for axis in Datax.axes].index("angle")
         if string != [] and "smallestperiod" in string[0]:
             phi = Datax.get_axes("angle")[0].get_values(is_smallestperiod=True)
         else:
             phi = Datax.get_axes("angle")[0].get_values()
         # Convert to cylindrical coordinates
-        (field_r, field_c) = cart2pol(field_x, field_y, phi)
+        (field_r, field_c) = cart2pol(field_x, field_y, phi, index)
         # Extract second time with true args
         if "angle" not in args and "angle[smallestperiod]" not in args:
             Datax.values = field_r
@@ -82,7 +92,7 @@ def get_rphiz_along(
             field_c = resultt[Datay.symbol]
         else:
             # Need return dict to initialize results
-            resultr = self.components["comp_x"].get_along(
+            resultr = Data_ref.get_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
@@ -109,9 +119,9 @@ def get_rphiz_along(
             )
             field_z = resultz[self.components["comp_z"].symbol]
         else:
-            field_z = zeros(shape)
+            field_z = zeros(field_r.shape)
         return_dict = dict(resultr)
-        del return_dict[self.components["comp_x"].symbol]
+        del return_dict[Data_ref.symbol]
 
     elif "radial" in self.components.keys():
         resultr = self.components["radial"].get_along(
@@ -167,7 +177,7 @@ def get_rphiz_along(
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_r = resultphi[self.components["radial"].symbol]
+            field_r = resultr[self.components["radial"].symbol]
         else:
             field_r = zeros(shape)
         if "axial" in self.components.keys():
diff --git a/SciDataTool/Methods/VectorField/get_xyz_along.py b/SciDataTool/Methods/VectorField/get_xyz_along.py
index 74abaa2..4f1a998 100644
--- a/SciDataTool/Methods/VectorField/get_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_xyz_along.py
@@ -37,34 +37,34 @@ def get_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeez
                 new_args[args.index("wavenumber")] = "angle[smallestperiod]"
             else:
                 new_args.extend(["angle[smallestperiod]"])
-        Datar = self.components["radial"].get_data_along(
+        if "radial" in self.components.keys():
+            Data_ref = self.components["radial"]
+        else:
+            Data_ref = self.components["tangential"]
+        Datar = Data_ref.get_data_along(
             *new_args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_r = Datar.values
-        shape = field_r.shape
-        if "tangential" in self.components.keys():
+        Dataphi = Datar.copy()
+        if "radial" not in self.components.keys():
+            Datar.values = zeros(Datar.values.shape, dtype=Datar.values.dtype)
+        elif "tangential" in self.components.keys():
             Dataphi = self.components["tangential"].get_data_along(
                 *new_args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_c = Dataphi.values
         else:
-            field_c = zeros(shape, dtype=field_r.dtype)
-            Dataphi = type(Datar)(
-                name=Datar.name,
-                unit=Datar.unit,
-                symbol=Datar.symbol,
-                axes=Datar.axes,
-                values=field_c,
-            )
+            Dataphi.values = zeros(Dataphi.values.shape, dtype=Dataphi.values.dtype)
+        field_r = Datar.values
+        field_c = Dataphi.values
+        index = [axis.name for axis in Datar.axes].index("angle")
         phi = Datar.get_axes("angle")[0].get_values(is_smallestperiod=True)
         # Convert to cylindrical coordinates
-        (field_x, field_y) = pol2cart(field_r, field_c, phi)
+        (field_x, field_y) = pol2cart(field_r, field_c, phi, index)
         # Extract second time with true args
         if "angle" not in args and "angle[smallestperiod]" not in args:
             Datar.values = field_x
@@ -87,7 +87,7 @@ def get_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeez
             field_y = resulty[Dataphi.symbol]
         else:
             # Need return dict to initialize results
-            resultx = self.components["radial"].get_along(
+            resultx = Data_ref.get_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
@@ -114,10 +114,10 @@ def get_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeez
             )
             field_z = resultz[self.components["comp_z"].symbol]
         else:
-            field_z = zeros(shape)
+            field_z = zeros(field_x.shape)
         # Build return dict
         return_dict = dict(resultx)
-        del return_dict[self.components["radial"].symbol]
+        del return_dict[Data_ref.symbol]
 
     elif "comp_x" in self.components.keys():
         resultx = self.components["comp_x"].get_along(
-- 
2.43.0


From 4f6626beddff8efe6e56434f901ff0327c63a2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:12 +0000
Subject: [PATCH 18/74] fix: change of frame keeps all components under their
 own names

The tangential and axial components were stored as Cartesian ones.
---
 SciDataTool/Methods/VectorField/to_rphiz.py | 46 ++++++++++-----------
 SciDataTool/Methods/VectorField/to_xyz.py   | 40 +++++++++---------
 2 files changed, 42 insertions(+), 44 deletions(-)

diff --git a/SciDataTool/Methods/VectorField/to_rphiz.py b/SciDataTool/Methods/VectorField/to_rphiz.py
index 7c2e411..e80bda4 100644
--- a/SciDataTool/Methods/VectorField/to_rphiz.py
+++ b/SciDataTool/Methods/VectorField/to_rphiz.py
@@ -13,43 +13,43 @@ def to_rphiz(self):
     module = __import__("SciDataTool.Classes.VectorField", fromlist=["VectorField"])
     VectorField = getattr(module, "VectorField")
 
-    if (
-        "radial" in self.components
-        or "tangential" in self.components
-        or "axial" in self.components
-    ):
+    if "radial" in self.components or "tangential" in self.components:
         return self.copy()
 
-    else:
+    # Store in new VectorField
+    comp_dict = dict()
+
+    if "comp_x" in self.components or "comp_y" in self.components:
+        ref = "x" if "comp_x" in self.components else "y"
+        Comp_ref = self.components["comp_" + ref]
         # Coordinate transform
         arg_list = [
             axis.name
             if axis.name in ["freqs", "wavenumber"]
             else axis.name + "[smallestperiod]"
-            for axis in self.components["comp_x"].axes
+            for axis in Comp_ref.axes
         ]
-        result = self.get_rphiz_along(*arg_list)
-        # Store in new VectorField
-        comp_dict = dict()
+        result = self.get_rphiz_along(*arg_list, is_squeeze=False)
 
-        Comp_r = self.components["comp_x"].copy()
-        Comp_r.name = "Radial " + self.components["comp_x"].name.lower().replace(
-            " along x-axis", ""
+        Comp_r = Comp_ref.copy()
+        Comp_r.name = "Radial " + Comp_ref.name.lower().replace(
+            " along " + ref + "-axis", ""
         )
-        Comp_r.symbol = self.components["comp_x"].symbol.replace("_x", "_r")
+        Comp_r.symbol = Comp_ref.symbol.replace("_" + ref, "_r")
         Comp_r.values = result["radial"]
         comp_dict["radial"] = Comp_r
 
-        Comp_t = self.components["comp_x"].copy()
-        Comp_t.name = "Tangential " + self.components["comp_x"].name.lower().replace(
-            " along x-axis", ""
+        Comp_t = Comp_ref.copy()
+        Comp_t.name = "Tangential " + Comp_ref.name.lower().replace(
+            " along " + ref + "-axis", ""
         )
-        Comp_t.symbol = self.components["comp_x"].symbol.replace("_r", "_y")
+        Comp_t.symbol = Comp_ref.symbol.replace("_" + ref, "_t")
         Comp_t.values = result["tangential"]
-        comp_dict["comp_y"] = Comp_t
+        comp_dict["tangential"] = Comp_t
 
-        if "axial" in self.components:
-            Comp_z = self.components["axial"].copy()
-            comp_dict["comp_z"] = Comp_z
+    if "axial" in self.components:
+        comp_dict["axial"] = self.components["axial"].copy()
+    elif "comp_z" in self.components:
+        comp_dict["axial"] = self.components["comp_z"].copy()
 
-        return VectorField(name=self.name, symbol=self.symbol, components=comp_dict)
+    return VectorField(name=self.name, symbol=self.symbol, components=comp_dict)
diff --git a/SciDataTool/Methods/VectorField/to_xyz.py b/SciDataTool/Methods/VectorField/to_xyz.py
index 027ac91..c6e5b17 100644
--- a/SciDataTool/Methods/VectorField/to_xyz.py
+++ b/SciDataTool/Methods/VectorField/to_xyz.py
@@ -16,38 +16,36 @@ def to_xyz(self):
     if "comp_x" in self.components or "comp_y" in self.components:
         return self.copy()
 
-    else:
+    # Store in new VectorField
+    comp_dict = dict()
+
+    if "radial" in self.components or "tangential" in self.components:
+        ref = "radial" if "radial" in self.components else "tangential"
+        Comp_ref = self.components[ref]
         # Coordinate transform
         arg_list = [
             axis.name
             if axis.name in ["freqs", "wavenumber"]
             else axis.name + "[smallestperiod]"
-            for axis in self.components["radial"].axes
+            for axis in Comp_ref.axes
         ]
         result = self.get_xyz_along(*arg_list, is_squeeze=False)
-        # Store in new VectorField
-        comp_dict = dict()
-
-        Comp_x = self.components["radial"].copy()
-        Comp_x.name = (
-            self.components["radial"].name.lower().replace("radial ", "")
-            + " along x-axis"
-        )
-        Comp_x.symbol = self.components["radial"].symbol.replace("_r", "_x")
+
+        Comp_x = Comp_ref.copy()
+        Comp_x.name = Comp_ref.name.lower().replace(ref + " ", "") + " along x-axis"
+        Comp_x.symbol = Comp_ref.symbol.replace("_" + ref[0], "_x")
         Comp_x.values = result["comp_x"]
         comp_dict["comp_x"] = Comp_x
 
-        Comp_y = self.components["radial"].copy()
-        Comp_y.name = (
-            self.components["radial"].name.lower().replace("radial ", "")
-            + " along y-axis"
-        )
-        Comp_y.symbol = self.components["radial"].symbol.replace("_r", "_y")
+        Comp_y = Comp_ref.copy()
+        Comp_y.name = Comp_ref.name.lower().replace(ref + " ", "") + " along y-axis"
+        Comp_y.symbol = Comp_ref.symbol.replace("_" + ref[0], "_y")
         Comp_y.values = result["comp_y"]
         comp_dict["comp_y"] = Comp_y
 
-        if "axial" in self.components:
-            Comp_z = self.components["axial"].copy()
-            comp_dict["comp_z"] = Comp_z
+    if "axial" in self.components:
+        comp_dict["comp_z"] = self.components["axial"].copy()
+    elif "comp_z" in self.components:
+        comp_dict["comp_z"] = self.components["comp_z"].copy()
 
-        return VectorField(name=self.name, symbol=self.symbol, components=comp_dict)
+    return VectorField(name=self.name, symbol=self.symbol, components=comp_dict)
-- 
2.43.0


From 2387292c783973dff3a7cc3ef6621f6649e77930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:29 +0000
Subject: [PATCH 19/74] fix: label extracted data with the unit of its values

---
 SciDataTool/Methods/DataND/get_data_along.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/get_data_along.py b/SciDataTool/Methods/DataND/get_data_along.py
index e1c9abf..fbe82c8 100644
--- a/SciDataTool/Methods/DataND/get_data_along.py
+++ b/SciDataTool/Methods/DataND/get_data_along.py
@@ -106,8 +106,10 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     if "dB" in unit:
         unit = unit
     else:
+        # Keep requested unit if it is a conversion
+        if unit == "SI" or unit in self.normalizations:
+            unit = self.unit
         # Update unit if derivation or integration
-        unit = self.unit
         for axis in axes_list:
             if axis.extension in ["antiderivate", "integrate", "integrate_local"]:
                 unit = get_unit_integrate(unit, axis.corr_unit)
-- 
2.43.0


From fbe8213778ace684dec324cc2a74deb87c0a2c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:29 +0000
Subject: [PATCH 20/74] fix: squeeze every component of a frame request

---
 SciDataTool/Methods/VectorField/get_rphiz_along.py | 5 ++++-
 SciDataTool/Methods/VectorField/get_xyz_along.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Methods/VectorField/get_rphiz_along.py b/SciDataTool/Methods/VectorField/get_rphiz_along.py
index ae913bb..adba816 100644
--- a/SciDataTool/Methods/VectorField/get_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_rphiz_along.py
@@ -1,4 +1,4 @@
-from numpy import zeros
+from numpy import squeeze, zeros
 
 from SciDataTool.Functions.conversions import cart2pol
 from SciDataTool.Functions import AxisError
@@ -99,6 +99,9 @@ def get_rphiz_along(
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
+            if is_squeeze:
+                field_r = squeeze(field_r)
+                field_c = squeeze(field_c)
         # Add axial component
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_along(
diff --git a/SciDataTool/Methods/VectorField/get_xyz_along.py b/SciDataTool/Methods/VectorField/get_xyz_along.py
index 4f1a998..3ad6a6b 100644
--- a/SciDataTool/Methods/VectorField/get_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_xyz_along.py
@@ -1,4 +1,4 @@
-from numpy import zeros
+from numpy import squeeze, zeros
 
 from SciDataTool.Functions.conversions import pol2cart
 from SciDataTool.Functions import AxisError
@@ -94,6 +94,9 @@ def get_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeez
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
+            if is_squeeze:
+                field_x = squeeze(field_x)
+                field_y = squeeze(field_y)
         # Add axial component
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_along(
-- 
2.43.0


From be9c8eebc18d7d66bcde006df3eae524b3835198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:54 +0000
Subject: [PATCH 21/74] fix: logarithmic scale of 3D and 4D plots

---
 SciDataTool/Functions/Plot/plot_3D.py | 8 ++++----
 SciDataTool/Functions/Plot/plot_4D.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/SciDataTool/Functions/Plot/plot_3D.py b/SciDataTool/Functions/Plot/plot_3D.py
index 2941b58..710cc72 100644
--- a/SciDataTool/Functions/Plot/plot_3D.py
+++ b/SciDataTool/Functions/Plot/plot_3D.py
@@ -204,7 +204,7 @@ def plot_3D(
         ax.yaxis.pane.set_edgecolor("w")
         ax.zaxis.pane.set_edgecolor("w")
         if is_logscale_z:
-            ax.zscale("log")
+            ax.set_zscale("log")
     elif type_plot == "surf":
         ax.plot_surface(Xdata, Ydata, Zdata, cmap=colormap)
         ax.set_xlim3d(x_max, x_min)
@@ -232,7 +232,7 @@ def plot_3D(
         ax.yaxis.pane.set_edgecolor("w")
         ax.zaxis.pane.set_edgecolor("w")
         if is_logscale_z:
-            ax.zscale("log")
+            ax.set_zscale("log")
     elif type_plot == "pcolor":
         if is_shading_flat:
             interpolation = None
@@ -368,10 +368,10 @@ def plot_3D(
     ax.set_ylabel(ylabel)
 
     if is_logscale_x:
-        ax.xscale("log")
+        ax.set_xscale("log")
 
     if is_logscale_y:
-        ax.yscale("log")
+        ax.set_yscale("log")
 
     if is_disp_title:
         ax.set_title(title)
diff --git a/SciDataTool/Functions/Plot/plot_4D.py b/SciDataTool/Functions/Plot/plot_4D.py
index a399a8a..a1ae367 100644
--- a/SciDataTool/Functions/Plot/plot_4D.py
+++ b/SciDataTool/Functions/Plot/plot_4D.py
@@ -246,10 +246,10 @@ def plot_4D(
     ax.set_ylim([y_min, y_max])
 
     if is_logscale_x:
-        ax.xscale("log")
+        ax.set_xscale("log")
 
     if is_logscale_y:
-        ax.yscale("log")
+        ax.set_yscale("log")
 
     if is_disp_title:
         ax.set_title(title)
-- 
2.43.0


From bfd937290ae2a34e9f27bb8a21d851b73e4743b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:02 +0000
Subject: [PATCH 22/74] fix: recover signals on axes given by their bounds

---
 SciDataTool/Functions/omp.py                | 4 ++--
 SciDataTool/Methods/DataND/orthogonal_mp.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Functions/omp.py b/SciDataTool/Functions/omp.py
index ab74df2..177ab34 100644
--- a/SciDataTool/Functions/omp.py
+++ b/SciDataTool/Functions/omp.py
@@ -113,8 +113,8 @@ def comp_undersampled_axe(Time: Data1D, Time_under: Data1D) -> ndarray:
     """
 
     # Extract the ndarray time vectors
-    time_under = Time_under.values
-    time = Time.values
+    time_under = Time_under.get_values(is_smallestperiod=True)
+    time = Time.get_values(is_smallestperiod=True)
 
     # Element wise comparison and selection of indices
     M = np.arange(len(time))
diff --git a/SciDataTool/Methods/DataND/orthogonal_mp.py b/SciDataTool/Methods/DataND/orthogonal_mp.py
index dd18bc9..b846e16 100644
--- a/SciDataTool/Methods/DataND/orthogonal_mp.py
+++ b/SciDataTool/Methods/DataND/orthogonal_mp.py
@@ -26,7 +26,7 @@ def orthogonal_mp(
     nombre_axes = len(self.axes)
     assert (
         nombre_axes == 2 or nombre_axes == 1
-    ), "Dimension error: {} not in {1,2}".format(nombre_axes)
+    ), "Dimension error: {} not in (1, 2)".format(nombre_axes)
 
     axes_name = [self.axes[i].name for i in range(nombre_axes)]
     assert "time" in axes_name, "There is no time axe"
@@ -39,7 +39,7 @@ def orthogonal_mp(
 
     M = comp_undersampled_axe(Time, Time_undersampled)
 
-    n = len(Time.values)
+    n = Time.get_length(is_smallestperiod=True)
 
     # Stack the signals into the columns of the matrix Y (n,n_targets)
     Y = self.values
-- 
2.43.0


From 9817fbccaf3618a77e4a984d2037b5513027918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:02 +0000
Subject: [PATCH 23/74] fix: contributions along axes given by their bounds

---
 SciDataTool/Methods/DataND/plot_2D_Data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index e663ffb..b25a585 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -533,6 +533,7 @@ def plot_2D_Data(
         contribution_name = contribution_axis.split("[")[0]
         selection = contribution_axis.split("[")[1].rstrip("]").split(",")
         contrib_axis = self.get_axes(contribution_name)[0]
+        contrib_values = contrib_axis.get_values()
         type_plot = "stack"
         OVL = Y_overall
         if True in ["sum" in arg for arg in arg_list_along]:
@@ -624,13 +625,13 @@ def plot_2D_Data(
             ):
                 if Isort[i] in axes_list[contrib_index].indices:
                     Ydatas.append(contrib_array[Isort[i], :])
-                    legends.append(contrib_axis.values[Isort[i]])
+                    legends.append(contrib_values[Isort[i]])
                     new_color_list.append(color_list[i % (len(color_list))])
             elif "all" in selection or all(
-                [s in contrib_axis.values[Isort[i]] for s in selection]
+                [s in contrib_values[Isort[i]] for s in selection]
             ):
                 Ydatas.append(contrib_array[Isort[i], :])
-                legends.append(contrib_axis.values[Isort[i]])
+                legends.append(contrib_values[Isort[i]])
                 new_color_list.append(color_list[i % (len(color_list))])
         sel_str = ""
         if "all" not in selection:
-- 
2.43.0


From 3658e77d8f8bb645f59e9ac0118ca4c9ce97d3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:02 +0000
Subject: [PATCH 24/74] fix: write the same unit in every exported file

---
 SciDataTool/Methods/DataND/export_along.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/SciDataTool/Methods/DataND/export_along.py b/SciDataTool/Methods/DataND/export_along.py
index 4f51040..ce2098d 100644
--- a/SciDataTool/Methods/DataND/export_along.py
+++ b/SciDataTool/Methods/DataND/export_along.py
@@ -69,7 +69,7 @@ def export_along(
         if "axis_data" in plot_options:
             axis_data = plot_options["axis_data"]
         else:
-            axis_data = None
+            axis_data = []
         is_fft = False
         for arg in args:
             if "freqs" in arg or "wavenumber" in arg:
@@ -129,10 +129,8 @@ def export_along(
                     + axes_list_new[2].name
                     + str(axes_list_new[2].values[i])
                 )
-                if slices == "":
-                    slices = "sliced at "
                 slices_i = (
-                    slices
+                    (slices if slices != "" else "sliced at ")
                     + axes_list_new[2].name
                     + "="
                     + str(axes_list_new[2].values[i])
@@ -146,13 +144,15 @@ def export_along(
                 csvWriter = csv.writer(my_csv, delimiter=",")
                 # First line: meta-data
                 if unit == "SI":
-                    unit = self.unit
-                if "dB" in unit:
-                    unit += (
+                    unit_label = self.unit
+                else:
+                    unit_label = unit
+                if "dB" in unit_label:
+                    unit_label += (
                         " re. " + str(self.normalizations["ref"].ref) + " " + self.unit
                     )
 
-                meta_data = [self.symbol, self.name, "[" + unit + "]", slices_i]
+                meta_data = [self.symbol, self.name, "[" + unit_label + "]", slices_i]
                 csvWriter.writerow(meta_data)
 
                 if is_2D:
-- 
2.43.0


From ff9ea3affd3445d9cdfae6b6cab6f1c07bca1bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:08 +0000
Subject: [PATCH 25/74] fix: frequencies of fields stored along time

---
 SciDataTool/Methods/DataND/_get_freqs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/_get_freqs.py b/SciDataTool/Methods/DataND/_get_freqs.py
index 71b7437..8f069d8 100644
--- a/SciDataTool/Methods/DataND/_get_freqs.py
+++ b/SciDataTool/Methods/DataND/_get_freqs.py
@@ -27,7 +27,7 @@ def _get_freqs(self):
     elif "frequency" in axis_names:
         index = axis_names.index("frequency")
     elif "time" in axis_names:
-        index = axis_names.index("frequency")
+        index = axis_names.index("time")
         operation = "time_to_freqs"
     elif "speed" in axis_names and "order" in axis_names:
         index_speed = axis_names.index("speed")
-- 
2.43.0


From 42b57f8776a6c523c9b63e985863d3f436f6239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:01 +0000
Subject: [PATCH 26/74] fix: pass plot options on to the overall curve and to
 every component

---
 SciDataTool/Methods/DataND/plot_2D_Data.py    | 26 ++++++++++++-------
 .../Methods/VectorField/plot_2D_Data.py       |  2 ++
 .../Methods/VectorField/plot_3D_Data.py       |  1 +
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index b25a585..bafbf54 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -507,10 +507,12 @@ def plot_2D_Data(
                 arg_list_ovl[i] = arg
         if is_fft or "dB" in unit:
             result = self.get_magnitude_along(
-                *arg_list_ovl, unit=unit, axis_data=axis_data
+                *arg_list_ovl, unit=unit, is_norm=is_norm, axis_data=axis_data
             )
         else:
-            result = self.get_along(*arg_list_ovl, unit=unit, axis_data=axis_data)
+            result = self.get_along(
+                *arg_list_ovl, unit=unit, is_norm=is_norm, axis_data=axis_data
+            )
         Y_overall = result[self.symbol]
         # in string case not overlay, Xdatas is a linspace
         if (
@@ -552,14 +554,18 @@ def plot_2D_Data(
                     else contribution_name + "[" + str(i) + "]"
                     for axis in self.get_axes()
                 ]
-                contrib = self.get_magnitude_along(*arg_list_new, unit="SI")[
-                    self.symbol
-                ]
+                contrib = self.get_magnitude_along(
+                    *arg_list_new, unit="SI", axis_data=axis_data
+                )[self.symbol]
                 symbol = "AS" + self.symbol.capitalize() + "L"
                 name = "Sound " + self.name.lower().replace("acoustic ", "") + " Level"
                 A_weighting = (
-                    self.get_magnitude_along(*arg_list_new, unit="dBA")[self.symbol]
-                    - self.get_magnitude_along(*arg_list_new, unit="dB")[self.symbol]
+                    self.get_magnitude_along(
+                        *arg_list_new, unit="dBA", axis_data=axis_data
+                    )[self.symbol]
+                    - self.get_magnitude_along(
+                        *arg_list_new, unit="dB", axis_data=axis_data
+                    )[self.symbol]
                 )
                 if self.unit == "W":
                     upper_sum = np_sum(
@@ -583,9 +589,9 @@ def plot_2D_Data(
                     else contribution_name + "[" + str(i) + "]"
                     for arg in arg_list_along
                 ]
-                contrib = self.get_magnitude_along(*arg_list_new, unit="SI")[
-                    self.symbol
-                ]
+                contrib = self.get_magnitude_along(
+                    *arg_list_new, unit="SI", axis_data=axis_data
+                )[self.symbol]
                 if "acoustic" in self.name.lower():
                     symbol = "S" + self.symbol.capitalize() + "L"
                     name = (
diff --git a/SciDataTool/Methods/VectorField/plot_2D_Data.py b/SciDataTool/Methods/VectorField/plot_2D_Data.py
index 5d2cac4..53787d3 100644
--- a/SciDataTool/Methods/VectorField/plot_2D_Data.py
+++ b/SciDataTool/Methods/VectorField/plot_2D_Data.py
@@ -322,6 +322,7 @@ def plot_2D_Data(
                 data_list=[dat.components[comp] for dat in data_list],
                 legend_list=legend_list,
                 linestyles=linestyles,
+                linewidth_list=linewidth_list,
                 color_list=color_list,
                 save_path=save_path_comp,
                 x_min=x_min,
@@ -340,6 +341,7 @@ def plot_2D_Data(
                 type_plot=type_plot,
                 fund_harm_dict=fund_harm_dict,
                 is_show_fig=is_show_fig,
+                win_title=win_title,
                 thresh=thresh,
                 font_name=font_name,
                 font_size_title=font_size_title,
diff --git a/SciDataTool/Methods/VectorField/plot_3D_Data.py b/SciDataTool/Methods/VectorField/plot_3D_Data.py
index c610ded..9714280 100644
--- a/SciDataTool/Methods/VectorField/plot_3D_Data.py
+++ b/SciDataTool/Methods/VectorField/plot_3D_Data.py
@@ -113,6 +113,7 @@ def plot_3D_Data(
             y_max=y_max,
             z_min=z_min,
             z_max=z_max,
+            z_range=z_range,
             colormap=colormap,
             is_auto_ticks=is_auto_ticks,
             is_auto_range=is_auto_range,
-- 
2.43.0


From 7bc03979fa9d448aaeca60882a2171bc9ee64fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:25 +0000
Subject: [PATCH 27/74] fix: pass the requested axes and all options to the
 animation of each component

---
 SciDataTool/Methods/VectorField/plot_2D_Data_Animated.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/SciDataTool/Methods/VectorField/plot_2D_Data_Animated.py b/SciDataTool/Methods/VectorField/plot_2D_Data_Animated.py
index 27d1bb6..4353416 100644
--- a/SciDataTool/Methods/VectorField/plot_2D_Data_Animated.py
+++ b/SciDataTool/Methods/VectorField/plot_2D_Data_Animated.py
@@ -267,6 +267,7 @@ def plot_2D_Data_Animated(
 
             self.components[comp].plot_2D_Data_Animated(
                 animated_axis,
+                "",
                 *arg_list,
                 nb_frames=nb_frames,
                 fps=fps,
@@ -276,6 +277,8 @@ def plot_2D_Data_Animated(
                 data_list=[dat.components[comp] for dat in data_list],
                 legend_list=legend_list,
                 color_list=color_list,
+                linestyles=linestyles,
+                linewidth_list=linewidth_list,
                 save_path=save_path_comp,
                 x_min=x_min,
                 x_max=x_max,
@@ -293,9 +296,13 @@ def plot_2D_Data_Animated(
                 type_plot=type_plot,
                 fund_harm_dict=fund_harm_dict,
                 is_show_fig=is_show_fig,
+                win_title=win_title,
                 thresh=thresh,
                 font_name=font_name,
                 font_size_title=font_size_title,
                 font_size_label=font_size_label,
                 font_size_legend=font_size_legend,
+                is_show_legend=is_show_legend,
+                is_outside_legend=is_outside_legend,
+                is_frame_legend=is_frame_legend,
             )
-- 
2.43.0


From 21c8b360aed515f53cd9ff74fa1d4619d4cf7db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:04 +0000
Subject: [PATCH 28/74] fix: normalize and convert once when changing frame
 along a part of the angle axis

---
 SciDataTool/Methods/VectorField/get_rphiz_along.py | 12 +++++++-----
 SciDataTool/Methods/VectorField/get_xyz_along.py   | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/SciDataTool/Methods/VectorField/get_rphiz_along.py b/SciDataTool/Methods/VectorField/get_rphiz_along.py
index adba816..1e99dec 100644
--- a/SciDataTool/Methods/VectorField/get_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_rphiz_along.py
@@ -30,6 +30,8 @@ def get_rphiz_along(
 
     if "comp_x" in self.components.keys() or "comp_y" in self.components.keys():
         # Extract first along whole or smallest period "angle" axis
+        # (conversion and normalization only if there is no second extraction)
+        is_whole = "angle" in args or "angle[smallestperiod]" in args
         new_args = [arg for arg in args]
         string = [s for s in args if "angle" in s]
         if string != [] and "smallestperiod" not in string[0]:
@@ -45,8 +47,8 @@ def get_rphiz_along(
             Data_ref = self.components["comp_y"]
         Datax = Data_ref.get_data_along(
             *new_args,
-            unit=unit,
-            is_norm=is_norm,
+            unit=unit if is_whole else "SI",
+            is_norm=is_norm and is_whole,
             axis_data=axis_data,
         )
         Datay = Datax.copy()
@@ -55,8 +57,8 @@ def get_rphiz_along(
         elif "comp_y" in self.components.keys():
             Datay = self.components["comp_y"].get_data_along(
                 *new_args,
-                unit=unit,
-                is_norm=is_norm,
+                unit=unit if is_whole else "SI",
+                is_norm=is_norm and is_whole,
                 axis_data=axis_data,
             )
         else:
@@ -71,7 +73,7 @@ def get_rphiz_along(
         # Convert to cylindrical coordinates
         (field_r, field_c) = cart2pol(field_x, field_y, phi, index)
         # Extract second time with true args
-        if "angle" not in args and "angle[smallestperiod]" not in args:
+        if not is_whole:
             Datax.values = field_r
             Datay.values = field_c
             resultr = Datax.get_along(
diff --git a/SciDataTool/Methods/VectorField/get_xyz_along.py b/SciDataTool/Methods/VectorField/get_xyz_along.py
index 3ad6a6b..862fe0e 100644
--- a/SciDataTool/Methods/VectorField/get_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_xyz_along.py
@@ -28,6 +28,8 @@ def get_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeez
 
     if "radial" in self.components.keys() or "tangential" in self.components.keys():
         # Extract first along whole or smallest period "angle" axis
+        # (conversion and normalization only if there is no second extraction)
+        is_whole = "angle" in args or "angle[smallestperiod]" in args
         new_args = [arg for arg in args]
         string = [s for s in args if "angle" in s]
         if string != [] and "smallestperiod" not in string[0]:
@@ -43,8 +45,8 @@ def get_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeez
             Data_ref = self.components["tangential"]
         Datar = Data_ref.get_data_along(
             *new_args,
-            unit=unit,
-            is_norm=is_norm,
+            unit=unit if is_whole else "SI",
+            is_norm=is_norm and is_whole,
             axis_data=axis_data,
         )
         Dataphi = Datar.copy()
@@ -53,8 +55,8 @@ def get_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeez
         elif "tangential" in self.components.keys():
             Dataphi = self.components["tangential"].get_data_along(
                 *new_args,
-                unit=unit,
-                is_norm=is_norm,
+                unit=unit if is_whole else "SI",
+                is_norm=is_norm and is_whole,
                 axis_data=axis_data,
             )
         else:
@@ -66,7 +68,7 @@ def get_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeez
         # Convert to cylindrical coordinates
         (field_x, field_y) = pol2cart(field_r, field_c, phi, index)
         # Extract second time with true args
-        if "angle" not in args and "angle[smallestperiod]" not in args:
+        if not is_whole:
             Datar.values = field_x
             Dataphi.values = field_y
             resultx = Datar.get_along(
-- 
2.43.0


From c0c0b76e098779b3bcdd4093112ca84d0a111005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:39 +0000
Subject: [PATCH 29/74] fix: list a difference instead of failing when two
 objects have other normalization or component names

---
 SciDataTool/Classes/Data.py        | 2 ++
 SciDataTool/Classes/VectorField.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/SciDataTool/Classes/Data.py b/SciDataTool/Classes/Data.py
index 0409550..530eb12 100644
--- a/SciDataTool/Classes/Data.py
+++ b/SciDataTool/Classes/Data.py
@@ -167,6 +167,8 @@ class Data(FrozenClass):
             pass
         elif len(other.normalizations) != len(self.normalizations):
             diff_list.append("len(" + name + "normalizations)")
+        elif other.normalizations.keys() != self.normalizations.keys():
+            diff_list.append("keys(" + name + ".normalizations)")
         else:
             for key in self.normalizations:
                 diff_list.extend(
diff --git a/SciDataTool/Classes/VectorField.py b/SciDataTool/Classes/VectorField.py
index 0ec1e89..2ee8f00 100644
--- a/SciDataTool/Classes/VectorField.py
+++ b/SciDataTool/Classes/VectorField.py
@@ -418,6 +418,8 @@ class VectorField(FrozenClass):
             pass
         elif len(other.components) != len(self.components):
             diff_list.append("len(" + name + "components)")
+        elif other.components.keys() != self.components.keys():
+            diff_list.append("keys(" + name + ".components)")
         else:
             for key in self.components:
                 diff_list.extend(
-- 
2.43.0


From 8ece0235e874d92cbcdfaaf09ec5d0b2992a05ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:39 +0000
Subject: [PATCH 30/74] fix: compare the functions of two normalizations given
 as callables

---
 SciDataTool/Classes/Norm_func.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Classes/Norm_func.py b/SciDataTool/Classes/Norm_func.py
index b832007..4442fa8 100644
--- a/SciDataTool/Classes/Norm_func.py
+++ b/SciDataTool/Classes/Norm_func.py
@@ -100,6 +100,8 @@ class Norm_func(Normalization):
             return False
         if other._function_str != self._function_str:
             return False
+        if self._function_str is None and other._function_func != self._function_func:
+            return False
         return True
 
     def compare(self, other, name="self", ignore_list=None, is_add_value=False):
@@ -117,7 +119,9 @@ class Norm_func(Normalization):
                 other, name=name, ignore_list=ignore_list, is_add_value=is_add_value
             )
         )
-        if other._function_str != self._function_str:
+        if other._function_str != self._function_str or (
+            self._function_str is None and other._function_func != self._function_func
+        ):
             diff_list.append(name + ".function")
         # Filter ignore differences
         diff_list = list(filter(lambda x: x not in ignore_list, diff_list))
-- 
2.43.0


From aed9e56ae84cb1b3c34b0f90408724391964cf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:29 +0000
Subject: [PATCH 31/74] fix: dimensions of gram, meter and henry

---
 SciDataTool/Functions/conversions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 4476025..0996b04 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -44,7 +44,7 @@ unit_symbols = [
     ("Mx", 1.0e-8, (1, 2, -2, 0, 0, -1)),  # Maxwell
     ("Hz", 1.0, (0, 0, -1, 0, 0, 0)),  # Herz
     ("Pa", 1.0, (1, -1, -2, 0, 0, 0)),  # Pascal
-    ("g", 1.0e-3, (0, 1, 0, 0, 0, 0)),  # gram
+    ("g", 1.0e-3, (1, 0, 0, 0, 0, 0)),  # gram
     ("s", 1.0, (0, 0, 1, 0, 0, 0)),  # second
     ("h", 3600.0, (0, 0, 1, 0, 0, 0)),  # hour
     #    ("K",       1.0, (0,0,0,1,0,0)),   # Kelvin
@@ -57,8 +57,8 @@ unit_symbols = [
     ("G", 1.0e-4, (1, 0, -2, 0, 0, -1)),  # Gauss
     ("V", 1.0, (1, 2, -3, 0, 0, -1)),  # Volt
     ("F", 1.0, (-1, -2, 4, 0, 0, 2)),  # Farrad
-    ("H", 1.0, (1, -2, -2, 0, 0, -2)),  # Henry
-    ("m", 1.0, (1, 0, 0, 0, 0, 0)),  # meter
+    ("H", 1.0, (1, 2, -2, 0, 0, -2)),  # Henry
+    ("m", 1.0, (0, 1, 0, 0, 0, 0)),  # meter
 ]
 # Dictionnary of the prefixes and their values
 unit_prefixes = {
-- 
2.43.0


From 737f49799df2963e28eb9d5773e8124d6f1f23e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:29 +0000
Subject: [PATCH 32/74] fix: read every symbol of a unit before converting

---
 SciDataTool/Functions/conversions.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 0996b04..d842276 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -97,10 +97,17 @@ def get_dim_prefix(unit_str):
         if key[0] in unit_str:
             if unit_str.rsplit(key[0], 1)[1].isdigit():
                 p = int(unit_str.rsplit(key[0], 1)[1])
+            elif unit_str.rsplit(key[0], 1)[1] != "":
+                continue  # The symbol is not at the end (ex: "h" in "hm")
             dim = [p * d for d in key[2]]
             prefix_str = unit_str.rsplit(key[0], 1)[0]
             if prefix_str in unit_prefixes.keys():
                 prefix = (unit_prefixes.get(prefix_str) * key[1]) ** p
+            elif any(symbol[0] in prefix_str for symbol in unit_symbols):
+                # Product of units (ex: "Nm")
+                dim_other, prefix_other = get_dim_prefix(prefix_str)
+                dim = [i + j for i, j in zip(dim, dim_other)]
+                prefix = prefix_other * key[1] ** p
             else:
                 raise UnitError("Prefix " + prefix_str + " unknown")
             break
@@ -239,7 +246,9 @@ def convert(values, unit1, unit2):
         unit2 = unit2.replace("*", "").replace(" ", "").replace("^", "")
         # Unit1 parsing
         if "/" in unit1:
-            dim1_denom, prefix1_denom = get_dim_prefix(unit1.split("/")[1])
+            dim1_denom, prefix1_denom = get_dim_prefix(
+                unit1.split("/", 1)[1].replace("/", "")
+            )
             unit1 = unit1.split("/")[0]
         else:
             dim1_denom = [0, 0, 0, 0, 0, 0]
@@ -247,7 +256,9 @@ def convert(values, unit1, unit2):
         dim1_num, prefix1_num = get_dim_prefix(unit1)
         # Unit2 parsing
         if "/" in unit2:
-            dim2_denom, prefix2_denom = get_dim_prefix(unit2.split("/")[1])
+            dim2_denom, prefix2_denom = get_dim_prefix(
+                unit2.split("/", 1)[1].replace("/", "")
+            )
             unit2 = unit2.split("/")[0]
         else:
             dim2_denom = [0, 0, 0, 0, 0, 0]
-- 
2.43.0


From 9357a0af3ae2fb51dc6037a6d5960552c0b54098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:29 +0000
Subject: [PATCH 33/74] fix: convert phases from radians

---
 SciDataTool/Methods/DataND/get_phase_along.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/get_phase_along.py b/SciDataTool/Methods/DataND/get_phase_along.py
index 732b0f2..5233ae8 100644
--- a/SciDataTool/Methods/DataND/get_phase_along.py
+++ b/SciDataTool/Methods/DataND/get_phase_along.py
@@ -39,6 +39,6 @@ def get_phase_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     elif unit in self.normalizations:
         values = self.normalizations.get(unit).normalize(values)
     else:
-        values = convert(values, self.unit, unit)
+        values = convert(values, "rad", unit)
     return_dict[self.symbol] = values
     return return_dict
-- 
2.43.0


From 485a45f0739f43bf95146813fdb9bacad20a10df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:55 +0000
Subject: [PATCH 34/74] fix: keep the factors of a product of units apart

---
 SciDataTool/Functions/conversions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index d842276..9020b2e 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -91,6 +91,10 @@ unit_prefixes = {
 def get_dim_prefix(unit_str):
     if unit_str == "":
         unit_str = "dimless"
+    if "*" in unit_str:  # Product of units (ex: "T*m")
+        dim_left, prefix_left = get_dim_prefix(unit_str.split("*", 1)[0])
+        dim_right, prefix_right = get_dim_prefix(unit_str.split("*", 1)[1])
+        return ([i + j for i, j in zip(dim_left, dim_right)], prefix_left * prefix_right)
     p = 1  # power of the unit
     dim = None
     for key in unit_symbols:
@@ -242,12 +246,12 @@ def convert(values, unit1, unit2):
         unit1_save = unit1
         unit2_save = unit2
         # Format the strings
-        unit1 = unit1.replace("*", "").replace(" ", "").replace("^", "")
-        unit2 = unit2.replace("*", "").replace(" ", "").replace("^", "")
+        unit1 = unit1.replace(" ", "").replace("^", "")
+        unit2 = unit2.replace(" ", "").replace("^", "")
         # Unit1 parsing
         if "/" in unit1:
             dim1_denom, prefix1_denom = get_dim_prefix(
-                unit1.split("/", 1)[1].replace("/", "")
+                unit1.split("/", 1)[1].replace("/", "*")
             )
             unit1 = unit1.split("/")[0]
         else:
@@ -257,7 +261,7 @@ def convert(values, unit1, unit2):
         # Unit2 parsing
         if "/" in unit2:
             dim2_denom, prefix2_denom = get_dim_prefix(
-                unit2.split("/", 1)[1].replace("/", "")
+                unit2.split("/", 1)[1].replace("/", "*")
             )
             unit2 = unit2.split("/")[0]
         else:
-- 
2.43.0


From 67c932e19f029e19669f9157bbcba7a1ec760ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:15 +0000
Subject: [PATCH 35/74] fix: keep the axial coordinate of points converted to
 the Cartesian frame, accept points without one

---
 SciDataTool/Functions/conversions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 9020b2e..ef460bf 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -499,13 +499,15 @@ def xyz_to_rphiz(values):
 
     x = values[:, 0]
     y = values[:, 1]
-    z = values[:, 2]
 
     affixe = x + 1j * y
     r = np_abs(affixe)
     phi = (np_angle(affixe) + 2 * pi) % (2 * pi)
 
-    return column_stack((r, phi, z))
+    if values.shape[1] > 2:
+        return column_stack((r, phi, values[:, 2]))
+    else:
+        return column_stack((r, phi))
 
 
 def rphiz_to_xyz(values):
@@ -522,14 +524,14 @@ def rphiz_to_xyz(values):
 
     r = values[:, 0]
     phi = values[:, 1]
-    if len(values.shape) > 2:
+    if values.shape[1] > 2:
         z = values[:, 2]
 
     affixe = r * exp(1j * phi)
     x = real(affixe)
     y = imag(affixe)
 
-    if len(values.shape) > 2:
+    if values.shape[1] > 2:
         return column_stack((x, y, z))
     else:
         return column_stack((x, y))
-- 
2.43.0


From 706fdd305f9626d806ebfca28931aa6c4f06512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:55:21 +0000
Subject: [PATCH 36/74] fix: let coordinate axes be converted between frames

Axes convert their values by calling the function named after the pair with
an is_real argument, which the two coordinate conversions did not accept.
Asking an xyz axis for cylindrical coordinates (or the reverse) failed.
---
 SciDataTool/Functions/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index ef460bf..b988edd 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -485,7 +485,7 @@ def to_noct(values, freqs, noct=3):
     return [values, array(f_oct)]
 
 
-def xyz_to_rphiz(values):
+def xyz_to_rphiz(values, is_real=True):
     """Converts axis values from cartesian coordinates into cylindrical coordinates
 
     Parameters
@@ -510,7 +510,7 @@ def xyz_to_rphiz(values):
         return column_stack((r, phi))
 
 
-def rphiz_to_xyz(values):
+def rphiz_to_xyz(values, is_real=True):
     """Converts axis values from cylindrical coordinates into cartesian coordinates
 
     Parameters
-- 
2.43.0


From ed6f7d4e70c689bdbd03046c8e66e2990ba595ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:55:21 +0000
Subject: [PATCH 37/74] fix: keep the complex flag when changing referential in
 the time domain

The waveform branch marked every result as real.
---
 SciDataTool/Methods/DataND/change_referential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/change_referential.py b/SciDataTool/Methods/DataND/change_referential.py
index b8d1a32..b4cde0c 100644
--- a/SciDataTool/Methods/DataND/change_referential.py
+++ b/SciDataTool/Methods/DataND/change_referential.py
@@ -114,7 +114,7 @@ def change_referential(
         data_full = self.copy()
         data_full.is_real = False
     else:
-        is_real = True
+        is_real = self.is_real
         data_full = self
 
     # Extract data from vectorfield on one period
-- 
2.43.0


From 9337661578772c5c647ee7eb017ca34c1d7c5b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:55:21 +0000
Subject: [PATCH 38/74] fix: keep the complex flag when filtering spectral
 leakage

The filtered spectrum of complex data was marked as real.
---
 SciDataTool/Methods/DataND/filter_spectral_leakage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/filter_spectral_leakage.py b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
index 3f1de45..523b20b 100644
--- a/SciDataTool/Methods/DataND/filter_spectral_leakage.py
+++ b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
@@ -191,7 +191,7 @@ def filter_spectral_leakage(
         normalizations={
             key: norm.copy() for key, norm in self.normalizations.items()
         },
-        is_real=True,
+        is_real=is_real,
     )
 
     if is_return_calc_data:
-- 
2.43.0


From d8f86a27db0eac028463ca790baef5f5d3a026f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:02 +0000
Subject: [PATCH 39/74] fix: label the axes of a slice with the unit of their
 values

An axis requested in another unit kept the unit of the original axis, so
that later extractions converted it a second time.
---
 SciDataTool/Methods/DataND/get_data_along.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/SciDataTool/Methods/DataND/get_data_along.py b/SciDataTool/Methods/DataND/get_data_along.py
index fbe82c8..8246482 100644
--- a/SciDataTool/Methods/DataND/get_data_along.py
+++ b/SciDataTool/Methods/DataND/get_data_along.py
@@ -70,6 +70,14 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
                         is_components = axis.is_components
                         axis_values = results[axis_name]
                         ax_unit = rev_axes_dict[axis_name][2]
+            # Update unit if the axis values were converted
+            for axis in axes_list:
+                if (
+                    axis.name == axis_name
+                    and axis.unit != "SI"
+                    and axis.unit not in self.axes[index].normalizations
+                ):
+                    ax_unit = axis.unit
             # Update symmetries
             if (
                 "smallestperiod" in args[index]
-- 
2.43.0


From 59fa65f6752cf49ded67bf5fec838f4858fde44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:45:20 +0000
Subject: [PATCH 40/74] fix: refuse the antiperiod of a pattern axis

Asking a pattern axis for its values over one antiperiod returned the whole
axis. The other axis classes already refuse it.
---
 SciDataTool/Methods/DataPattern/get_values.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataPattern/get_values.py b/SciDataTool/Methods/DataPattern/get_values.py
index 051a2eb..3359576 100644
--- a/SciDataTool/Methods/DataPattern/get_values.py
+++ b/SciDataTool/Methods/DataPattern/get_values.py
@@ -2,7 +2,7 @@ from importlib import import_module
 from numpy import array
 
 from SciDataTool.Functions.conversions import convert
-from SciDataTool.Functions import NormError
+from SciDataTool.Functions import AxisError, NormError
 
 
 def get_values(
@@ -46,6 +46,8 @@ def get_values(
     # Rebuild pattern
     if is_smallestperiod or is_pattern:
         pass
+    elif is_antiperiod:
+        raise AxisError("axis has no antiperiodicity")
     else:
         if self.values_whole is not None:
             values = self.values_whole.copy()
-- 
2.43.0


From 89332d2bf11b1235a61ba9a5d386be3a817c07d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:03:15 +0000
Subject: [PATCH 41/74] fix: do not read a keyword inside the name of an axis

An axis whose name contains max, min, sum, ... was silently reduced.
Keywords are now only read after the equal sign.
---
 SciDataTool/Functions/parser.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/SciDataTool/Functions/parser.py b/SciDataTool/Functions/parser.py
index 44775bb..2d73ef3 100644
--- a/SciDataTool/Functions/parser.py
+++ b/SciDataTool/Functions/parser.py
@@ -42,51 +42,51 @@ def read_input_strings(args, axis_data):
             name = elems[0]
             axis_str = axis_str.replace("->" + unit, "")
         # Detect max
-        if "max" in axis_str:
+        if "=max" in axis_str:
             elems = axis_str.split("=max")
             name = elems[0]
             extension = "max"
         # Detect min
-        elif "min" in axis_str:
+        elif "=min" in axis_str:
             elems = axis_str.split("=min")
             name = elems[0]
             extension = "min"
         # Detect rms sum
-        elif "rss" in axis_str:
+        elif "=rss" in axis_str:
             elems = axis_str.split("=rss")
             name = elems[0]
             extension = "rss"
         # Detect sum
-        elif "sum" in axis_str:
+        elif "=sum" in axis_str:
             elems = axis_str.split("=sum")
             name = elems[0]
             extension = "sum"
         # Detect rms mean
-        elif "rms" in axis_str:
+        elif "=rms" in axis_str:
             elems = axis_str.split("=rms")
             name = elems[0]
             extension = "rms"
         # Detect mean
-        elif "mean" in axis_str:
+        elif "=mean" in axis_str:
             elems = axis_str.split("=mean")
             name = elems[0]
             extension = "mean"
         # Detect integrate
-        elif "integrate_local" in axis_str:
+        elif "=integrate_local" in axis_str:
             elems = axis_str.split("=integrate_local")
             name = elems[0]
             extension = "integrate_local"
-        elif "integrate" in axis_str:
+        elif "=integrate" in axis_str:
             elems = axis_str.split("=integrate")
             name = elems[0]
             extension = "integrate"
         # Detect antiderivate
-        elif "antiderivate" in axis_str:
+        elif "=antiderivate" in axis_str:
             elems = axis_str.split("=antiderivate")
             name = elems[0]
             extension = "antiderivate"
         # Detect derivate
-        elif "derivate" in axis_str:
+        elif "=derivate" in axis_str:
             elems = axis_str.split("=derivate")
             name = elems[0]
             extension = "derivate"
@@ -109,7 +109,7 @@ def read_input_strings(args, axis_data):
             name = elems[0]
             extension = "pattern"
         # Detect axis_data input
-        elif "axis_data" in axis_str:
+        elif "=axis_data" in axis_str:
             elems = axis_str.split("=axis_data")
             name = elems[0]
             if name in axis_data:
-- 
2.43.0


From 85ca5b3c7271e97db3fe708c5c42f1f2536fd781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:03:15 +0000
Subject: [PATCH 42/74] fix: read the bound that follows a normalization

A request such as freqs->elec_order>5 took the bound as part of the name
of the normalization.
---
 SciDataTool/Functions/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/parser.py b/SciDataTool/Functions/parser.py
index 2d73ef3..a9c1f19 100644
--- a/SciDataTool/Functions/parser.py
+++ b/SciDataTool/Functions/parser.py
@@ -34,9 +34,9 @@ def read_input_strings(args, axis_data):
             elif "[" in elems[1]:
                 unit = elems[1].split("[")[0]
             elif ">" in elems[1]:
-                unit = elems[1].split("[")[0]
+                unit = elems[1].split(">")[0]
             elif "<" in elems[1]:
-                unit = elems[1].split("[")[0]
+                unit = elems[1].split("<")[0]
             else:
                 unit = elems[1]
             name = elems[0]
-- 
2.43.0


From a70d3d1d8322eb8cb8f33ebeb1f52e5b0bfcac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:03:15 +0000
Subject: [PATCH 43/74] fix: do not rebuild a pattern twice for an
 antiderivative

---
 SciDataTool/Methods/DataND/_rebuild_symmetries.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SciDataTool/Methods/DataND/_rebuild_symmetries.py b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
index 63e358c..222ba9f 100644
--- a/SciDataTool/Methods/DataND/_rebuild_symmetries.py
+++ b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
@@ -40,6 +40,7 @@ def _rebuild_symmetries(
                     "integrate",
                     "integrate_local",
                     "derivate",
+                    "antiderivate",
                     "smallestperiod",
                 ]
                 and axis.indices is None
-- 
2.43.0


From 7ae760dd7fa23fa0ac256ef94830d65a3cc1be9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:32 +0000
Subject: [PATCH 44/74] fix: interpolate on two values given for a periodic
 axis

Two values given as axis data outside the smallest period were read as the
bounds of an interval and all the samples in between were returned.
---
 SciDataTool/Methods/RequestedAxis/get_axis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/RequestedAxis/get_axis.py b/SciDataTool/Methods/RequestedAxis/get_axis.py
index 12a770c..a52816e 100644
--- a/SciDataTool/Methods/RequestedAxis/get_axis.py
+++ b/SciDataTool/Methods/RequestedAxis/get_axis.py
@@ -70,6 +70,8 @@ def get_axis(self, axis, is_real):
             self.values = values
 
     else:
+        # Values given by the user are not the bounds of an interval
+        is_axis_data = self.extension == "axis_data"
         if self.extension == "pattern":
             if not self.is_pattern:
                 raise AxisError("[pattern] cannot be called with non DataPattern axis")
@@ -210,7 +212,7 @@ def get_axis(self, axis, is_real):
         if self.input_data is None:
             self.values = values
         else:
-            if len(self.input_data) == 2 and self.extension != "axis_data":
+            if len(self.input_data) == 2 and not is_axis_data:
                 indices = [
                     i
                     for i, x in enumerate(values)
-- 
2.43.0


From 67f6e1cf159c5a603e0945ea9c6dfeb66993a495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:15:17 +0000
Subject: [PATCH 45/74] fix: keep the dimension of axes reduced by max or min

The next operation looked for its axis at the wrong place, so that two
reductions in the same request failed.
---
 SciDataTool/Methods/DataND/_apply_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_apply_operations.py b/SciDataTool/Methods/DataND/_apply_operations.py
index 672dfd5..10f2c51 100644
--- a/SciDataTool/Methods/DataND/_apply_operations.py
+++ b/SciDataTool/Methods/DataND/_apply_operations.py
@@ -58,10 +58,10 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
             is_fft = False
         # max over max axes
         if extension in "max":
-            values = nanmax(values, axis=index)
+            values = nanmax(values, axis=index, keepdims=True)
         # min over max axes
         elif extension in "min":
-            values = nanmin(values, axis=index)
+            values = nanmin(values, axis=index, keepdims=True)
         # sum over sum axes
         elif extension in "sum":
             values = my_sum(
-- 
2.43.0


From 3e1765e15b94b3c46bc3a75a2fc681bbcbbed152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:15:17 +0000
Subject: [PATCH 46/74] fix: keep the dimension of an antiperiodic axis that is
 integrated

---
 SciDataTool/Functions/derivation_integration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index b8c4f39..12bcd6b 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -223,8 +223,8 @@ def integrate(values, ax_val, index, Nper, is_aper, is_phys, is_mean=False):
         shape = list(values.shape)
         if is_aper:
             # Integration of anti-periodic signal yields zero
-            shape0 = [s for ii, s in enumerate(shape) if ii != index]
-            values = np.zeros(shape0, dtype=values.dtype)
+            shape[index] = 1
+            values = np.zeros(shape, dtype=values.dtype)
         else:
             # Swap axis to always have integration axis on 1st position
             values = np.swapaxes(values, index, 0)
-- 
2.43.0


From e88c143099a47722b20751caa0535f83585f2ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:15:17 +0000
Subject: [PATCH 47/74] fix: keep the dimension of axes that are summed or
 averaged

---
 SciDataTool/Functions/sum_mean.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/SciDataTool/Functions/sum_mean.py b/SciDataTool/Functions/sum_mean.py
index f84c518..56ca43a 100644
--- a/SciDataTool/Functions/sum_mean.py
+++ b/SciDataTool/Functions/sum_mean.py
@@ -27,8 +27,8 @@ def my_sum(values, index, Nper, is_aper, unit, is_fft, corr_unit="SI"):
     if is_aper:
         # Sum of anti-periodic signal yields zero
         shape = list(values.shape)
-        shape0 = [s for ii, s in enumerate(shape) if ii != index]
-        values = np.zeros(shape0, dtype=values.dtype)
+        shape[index] = 1
+        values = np.zeros(shape, dtype=values.dtype)
     else:
         # To sum dB or dBA
         if "dB" in unit:
@@ -86,8 +86,8 @@ def my_mean(values, ax_val, index, Nper, is_aper, is_phys, is_fft):
         if is_aper:
             # Average of anti-periodic signal yields zero
             shape = list(values.shape)
-            shape0 = [s for ii, s in enumerate(shape) if ii != index]
-            values = np.zeros(shape0, dtype=values.dtype)
+            shape[index] = 1
+            values = np.zeros(shape, dtype=values.dtype)
         else:
             if is_fft:  # No need to multiply by Nper in fft case
                 Nper = 1
@@ -95,7 +95,7 @@ def my_mean(values, ax_val, index, Nper, is_aper, is_phys, is_fft):
             if Nper is None:
                 # Set Nper to 1 in case of non-periodic axis
                 Nper = 1
-            values = Nper * np.nanmean(values, axis=index)
+            values = Nper * np.nanmean(values, axis=index, keepdims=True)
 
     return values
 
-- 
2.43.0


From 8b507abcd093c0a4bba94d7b767f92b72b388385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:15:17 +0000
Subject: [PATCH 48/74] fix: do not multiply a mean by the number of periods

The mean and rms values along a periodic axis that is not time, angle or z
(or has a single sample) grew with the number of periods.
---
 SciDataTool/Functions/sum_mean.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/SciDataTool/Functions/sum_mean.py b/SciDataTool/Functions/sum_mean.py
index 56ca43a..417cbe2 100644
--- a/SciDataTool/Functions/sum_mean.py
+++ b/SciDataTool/Functions/sum_mean.py
@@ -89,13 +89,8 @@ def my_mean(values, ax_val, index, Nper, is_aper, is_phys, is_fft):
             shape[index] = 1
             values = np.zeros(shape, dtype=values.dtype)
         else:
-            if is_fft:  # No need to multiply by Nper in fft case
-                Nper = 1
-            # Take mean value multiplied by periodicity
-            if Nper is None:
-                # Set Nper to 1 in case of non-periodic axis
-                Nper = 1
-            values = Nper * np.nanmean(values, axis=index, keepdims=True)
+            # Mean value over one period is the mean value over all periods
+            values = np.nanmean(values, axis=index, keepdims=True)
 
     return values
 
-- 
2.43.0


From 6b5215ec94c2a17b19f242f5666f522c03bf3c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:15:17 +0000
Subject: [PATCH 49/74] fix: sum magnitudes and spectra of antiperiodic data

The sum, mean and integral of a magnitude or of a spectrum were zero when
the axis is stored on an antiperiod, as for the signed signal.
---
 SciDataTool/Methods/DataND/_apply_operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SciDataTool/Methods/DataND/_apply_operations.py b/SciDataTool/Methods/DataND/_apply_operations.py
index 10f2c51..47697d9 100644
--- a/SciDataTool/Methods/DataND/_apply_operations.py
+++ b/SciDataTool/Methods/DataND/_apply_operations.py
@@ -56,6 +56,9 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
             is_fft = True
         else:
             is_fft = False
+        # Magnitudes and spectra do not change sign from one antiperiod to the next
+        if is_aper and (is_magnitude or is_fft):
+            is_aper = False
         # max over max axes
         if extension in "max":
             values = nanmax(values, axis=index, keepdims=True)
-- 
2.43.0


From 424456ca796448fa675a8cc4adaa8c5b118fbf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:15:17 +0000
Subject: [PATCH 50/74] fix: take the extrema of both halves of an antiperiodic
 signal

---
 .../Methods/DataND/_apply_operations.py       | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_apply_operations.py b/SciDataTool/Methods/DataND/_apply_operations.py
index 47697d9..8f82ed3 100644
--- a/SciDataTool/Methods/DataND/_apply_operations.py
+++ b/SciDataTool/Methods/DataND/_apply_operations.py
@@ -1,4 +1,4 @@
-from numpy import abs as np_abs, nanmax, nanmin
+from numpy import abs as np_abs, maximum, minimum, nanmax, nanmin
 
 from SciDataTool.Functions.derivation_integration import (
     derivate,
@@ -61,10 +61,23 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
             is_aper = False
         # max over max axes
         if extension in "max":
-            values = nanmax(values, axis=index, keepdims=True)
+            if is_aper:
+                # The second half of the period is the opposite of the first one
+                values = maximum(
+                    nanmax(values, axis=index, keepdims=True),
+                    -nanmin(values, axis=index, keepdims=True),
+                )
+            else:
+                values = nanmax(values, axis=index, keepdims=True)
         # min over max axes
         elif extension in "min":
-            values = nanmin(values, axis=index, keepdims=True)
+            if is_aper:
+                values = minimum(
+                    nanmin(values, axis=index, keepdims=True),
+                    -nanmax(values, axis=index, keepdims=True),
+                )
+            else:
+                values = nanmin(values, axis=index, keepdims=True)
         # sum over sum axes
         elif extension in "sum":
             values = my_sum(
-- 
2.43.0


From df9860e4aef5923cc95232b056bc308b54cacefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:16:31 +0000
Subject: [PATCH 51/74] fix: find the frequency axis of a spectrum by its
 position in the data

The list of requested axes was indexed with the position in the data, so
that the spectrum failed when an axis before time is not requested.
---
 SciDataTool/Functions/fft_functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 32239cf..47a4e72 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -289,10 +289,11 @@ def comp_fftn(values, axes_list, is_real=True):
         if is_onereal:
             values_FT = rfftn(values, axes=axes)
             # Do not multiply constant component by 2 (f=0)
-            if axes_list[axes[-1]].corr_values is not None:
-                freqs = axes_list[axes[-1]].corr_values
+            axis_real = [axis for axis in axes_list if axis.index == axes[-1]][0]
+            if axis_real.corr_values is not None:
+                freqs = axis_real.corr_values
             else:
-                freqs = axes_list[axes[-1]].values
+                freqs = axis_real.values
             if freqs[0] == 0:
                 slice_0 = take(values_FT, 0, axis=axes[-1])
                 slice_0 *= 0.5
-- 
2.43.0


From ddb78103d561a27a66170486ba5afbc16df4b903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:16:31 +0000
Subject: [PATCH 52/74] fix: keep the symmetries of the axis that was requested
 on one period

The requests were looked up with the position of the axis in the data:
the symmetries of another axis were kept when the axes are requested in
another order, and a partial request failed.
---
 SciDataTool/Methods/DataND/get_data_along.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_data_along.py b/SciDataTool/Methods/DataND/get_data_along.py
index 8246482..8b1bbc6 100644
--- a/SciDataTool/Methods/DataND/get_data_along.py
+++ b/SciDataTool/Methods/DataND/get_data_along.py
@@ -79,15 +79,15 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
                 ):
                     ax_unit = axis.unit
             # Update symmetries
-            if (
-                "smallestperiod" in args[index]
-                or args[index]
-                in [
-                    "freqs",
-                    "wavenumber",
-                ]
-                or "antiderivate" in args[index]
-                or "derivate" in args[index]
+            axis_requested = [axis for axis in axes_list if axis.name == axis_name][0]
+            if axis_requested.extension in [
+                "smallestperiod",
+                "antiderivate",
+                "derivate",
+            ] or (
+                axis_name in ["freqs", "wavenumber"]
+                and axis_requested.extension == "whole"
+                and axis_requested.unit == "SI"
             ):
                 symmetries = self.axes[index].symmetries.copy()
             else:
-- 
2.43.0


From fcfe858ab5f8c13274d75bb92c8ae0c0e323b7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:16:31 +0000
Subject: [PATCH 53/74] fix: apply the A-weighting along frequencies before
 removing axes

The axis of the frequencies was looked up after axes with a single sample
were removed.
---
 SciDataTool/Methods/DataND/_convert.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/_convert.py b/SciDataTool/Methods/DataND/_convert.py
index dfbb73e..d190383 100644
--- a/SciDataTool/Methods/DataND/_convert.py
+++ b/SciDataTool/Methods/DataND/_convert.py
@@ -22,7 +22,8 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
         values of the field
     """
 
-    if is_squeeze:
+    # Keep all the axes until the A-weighting is applied along frequencies
+    if is_squeeze and unit != "dBA":
         values = np.squeeze(values)
 
     if unit == self.unit or unit == "SI":
@@ -51,6 +52,10 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
                 else:
                     axis_values = axis.values
                 index = axis.index
+                if values.shape[index] != len(axis_values):
+                    raise UnitError(
+                        "dBA conversion only available for fft with frequencies"
+                    )
                 values = np.apply_along_axis(
                     to_dBA, index, values, axis_values, self.unit, ref_value
                 )
@@ -61,6 +66,10 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
                 else:
                     axis_values = axis.corr_values
                 index = axis.index
+                if values.shape[index] != len(axis_values):
+                    raise UnitError(
+                        "dBA conversion only available for fft with frequencies"
+                    )
                 values = np.apply_along_axis(
                     to_dBA, index, values, axis_values, self.unit, ref_value
                 )
@@ -80,6 +89,8 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
                 raise UnitError(
                     "dBA conversion only available for fft with frequencies"
                 )
+        if is_squeeze:
+            values = np.squeeze(values)
     elif unit in self.normalizations:
         values = self.normalizations.get(unit).normalize(values)
     else:
-- 
2.43.0


From f3b40b01ccbec09834e2e0c1ee4a3d3ade582bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:16:40 +0000
Subject: [PATCH 54/74] fix: apply the A-weighting to the magnitude along its
 frequency axis

The frequency axis was looked up in the list of requested axes with its
position in the data, and after axes with a single sample were removed.
---
 .../Methods/DataND/get_magnitude_along.py     | 35 ++++++++++---------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index 47b9efe..bdcf81c 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -1,7 +1,7 @@
 from SciDataTool.Functions import AxisError, NormError, UnitError
 from SciDataTool.Functions.conversions import convert, to_dB, to_dBA, to_noct
 from SciDataTool.Functions.fix_axes_order import fix_axes_order
-from numpy import apply_along_axis, add, take
+from numpy import apply_along_axis, add, squeeze, take
 
 
 def get_magnitude_along(
@@ -167,7 +167,7 @@ def get_magnitude_along(
         return_dict = self.get_along(
             *args,
             axis_data=axis_data,
-            is_squeeze=is_squeeze,
+            is_squeeze=False,
             is_magnitude=True,
             corr_unit=corr_unit,
         )
@@ -182,6 +182,11 @@ def get_magnitude_along(
                         to_noct, index, values, return_dict["freqs"], noct=axis.noct
                     )
                     return_dict[axis.name] = foct
+
+        # Keep all the axes until the A-weighting is applied along frequencies
+        if is_squeeze and unit != "dBA":
+            values = squeeze(values)
+
         # Convert into right unit (apart because of dBA conversion)
         if unit == self.unit or unit == "SI":
             if is_norm:
@@ -230,16 +235,13 @@ def get_magnitude_along(
                 for axis in return_dict["axes_list"]:
                     if axis.name == "freqs" or axis.corr_name == "freqs":
                         index = axis.index
+                        axis_freqs = axis
                 else:
-                    if return_dict["axes_list"][
-                        index
-                    ].corr_values is not None and return_dict["axes_list"][
-                        index
-                    ].unit not in [
+                    if axis_freqs.corr_values is not None and axis_freqs.unit not in [
                         "SI",
-                        return_dict["axes_list"][index].corr_unit,
+                        axis_freqs.corr_unit,
                     ]:
-                        freqs = return_dict["axes_list"][index].corr_values
+                        freqs = axis_freqs.corr_values
                     else:
                         freqs = return_dict["freqs"]
                 values = apply_along_axis(
@@ -249,16 +251,13 @@ def get_magnitude_along(
                 for axis in return_dict["axes_list"]:
                     if axis.name == "frequency" or axis.corr_name == "frequency":
                         index = axis.index
+                        axis_freqs = axis
                 else:
-                    if return_dict["axes_list"][
-                        index
-                    ].corr_values is not None and return_dict["axes_list"][
-                        index
-                    ].unit not in [
+                    if axis_freqs.corr_values is not None and axis_freqs.unit not in [
                         "SI",
-                        return_dict["axes_list"][index].corr_unit,
+                        axis_freqs.corr_unit,
                     ]:
-                        freqs = return_dict["axes_list"][index].corr_values
+                        freqs = axis_freqs.corr_values
                     else:
                         freqs = return_dict["frequency"]
                 values = apply_along_axis(
@@ -282,5 +281,9 @@ def get_magnitude_along(
             values = self.normalizations.get(unit).normalize(values)
         else:
             values = convert(values, self.unit, unit)
+        if is_squeeze:
+            values = squeeze(values)
+
         return_dict[self.symbol] = values
+
         return return_dict
-- 
2.43.0


From d4937668489fad311b8351f9f4b7a0e7170bd8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:16:40 +0000
Subject: [PATCH 55/74] fix: compute octave bands of fields with several axes

The levels and the frequencies of the bands were unpacked from the first
axis of the result, which is right for one axis only.
---
 SciDataTool/Methods/DataND/get_magnitude_along.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index bdcf81c..d8874c6 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -1,7 +1,8 @@
 from SciDataTool.Functions import AxisError, NormError, UnitError
 from SciDataTool.Functions.conversions import convert, to_dB, to_dBA, to_noct
 from SciDataTool.Functions.fix_axes_order import fix_axes_order
-from numpy import apply_along_axis, add, squeeze, take
+from SciDataTool.Functions.fft_functions import comp_nthoctave_axis
+from numpy import apply_along_axis, add, array, squeeze, take
 
 
 def get_magnitude_along(
@@ -178,8 +179,10 @@ def get_magnitude_along(
             if axis.name == "freqs" or axis.corr_name == "freqs":
                 index = axis.index
                 if axis.noct is not None:
-                    (values, foct) = apply_along_axis(
-                        to_noct, index, values, return_dict["freqs"], noct=axis.noct
+                    freqs = return_dict["freqs"]
+                    foct = array(comp_nthoctave_axis(axis.noct, freqs[0], freqs[-1]))
+                    values = apply_along_axis(
+                        lambda x: to_noct(x, freqs, noct=axis.noct)[0], index, values
                     )
                     return_dict[axis.name] = foct
 
-- 
2.43.0


From 8698a254cc7ab4fd8763cdc624f01fb48a0bf5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:16:40 +0000
Subject: [PATCH 56/74] fix: sum levels over frequencies without dropping the
 other axes

The sum over frequencies of a level kept the first sample of every other
axis, and was not found for time data.
---
 SciDataTool/Methods/DataND/get_magnitude_along.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index d8874c6..8c1ff03 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -51,10 +51,13 @@ def get_magnitude_along(
                 freq_name = axis.name
         if freq_name is not None:
             for i, arg in enumerate(args):
-                if freq_name in arg:
-                    if "sum" in arg or "rss" in arg:
+                if "sum" in arg or "rss" in arg:
+                    if freq_name in arg:
                         new_args[i] = freq_name
                         index_freq = i
+                    elif freq_name == "time" and "freqs" in arg:
+                        new_args[i] = "freqs"  # Spectrum of time data
+                        index_freq = i
             if index_freq is None:  # No sum on freqs axis -> can extract directly
                 return self.get_magnitude_along(
                     *args,
@@ -67,8 +70,11 @@ def get_magnitude_along(
                 data = self.get_data_along(
                     *new_args, axis_data=axis_data, unit=unit
                 )  # Extract first along freqs axis
+                other_args = [
+                    axis.name for axis in data.axes if axis.name != new_args[index_freq]
+                ]
                 return data.get_magnitude_along(
-                    *[args[index_freq]],
+                    *other_args + [args[index_freq]],
                     axis_data=axis_data,
                     unit=unit,
                     is_squeeze=is_squeeze,
-- 
2.43.0


From 88aa38217166ecb02b54e2f61a30c9ed24994b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:46 +0000
Subject: [PATCH 57/74] fix: keep the requested extent of the other axes when
 summing levels

---
 SciDataTool/Methods/DataND/get_magnitude_along.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index 8c1ff03..406cfe6 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -70,8 +70,11 @@ def get_magnitude_along(
                 data = self.get_data_along(
                     *new_args, axis_data=axis_data, unit=unit
                 )  # Extract first along freqs axis
+                # Other axes are already extracted
                 other_args = [
-                    axis.name for axis in data.axes if axis.name != new_args[index_freq]
+                    axis.name + "[smallestperiod]" if axis.symmetries else axis.name
+                    for axis in data.axes
+                    if axis.name != new_args[index_freq]
                 ]
                 return data.get_magnitude_along(
                     *other_args + [args[index_freq]],
-- 
2.43.0


From e790019092590bc0260453f921ac90985e599077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:49:27 +0000
Subject: [PATCH 58/74] fix: interpolate a spectrum while another axis is
 transformed back

---
 SciDataTool/Methods/DataND/get_along.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/get_along.py b/SciDataTool/Methods/DataND/get_along.py
index c9427a3..2d3f7a4 100644
--- a/SciDataTool/Methods/DataND/get_along.py
+++ b/SciDataTool/Methods/DataND/get_along.py
@@ -45,10 +45,15 @@ def get_along(
     # If DataFreq + 1 ifft axis + 1 fft axis: perform ifft on all axes then fft
     save_transforms = None
     save_names = None
+    save_inputs = {}
     if "ifft" in transforms and "fft" in transforms:
         save_transforms = [axis.transform for axis in axes_list]
         save_names = [axis.name for axis in axes_list]
-        for axis in axes_list:
+        for i, axis in enumerate(axes_list):
+            if axis.transform == "fft_axis":
+                # Values asked for along fft axes are interpolated afterwards
+                save_inputs[i] = axis.input_data
+                axis.input_data = None
             if axis.name == "freqs":
                 axis.transform = "ifft"
                 axis.name = "time"
@@ -74,6 +79,8 @@ def get_along(
     # fft
     if "fft" in transforms:
         values = comp_fftn(values, axes_list, is_real=self.is_real)
+        for i, input_data in save_inputs.items():
+            axes_list[i].input_data = input_data
     # Slices along fft axes
     values = self._extract_slices_fft(values, axes_list)
     # Rebuild symmetries
-- 
2.43.0


From 87b7a46ba363b8149194a3be6326dbc71061ed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:35:27 +0000
Subject: [PATCH 59/74] fix: count the steps of a linspace axis as its
 announced length does

---
 SciDataTool/Methods/DataLinspace/get_values.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataLinspace/get_values.py b/SciDataTool/Methods/DataLinspace/get_values.py
index b8d0ee0..c6990fb 100644
--- a/SciDataTool/Methods/DataLinspace/get_values.py
+++ b/SciDataTool/Methods/DataLinspace/get_values.py
@@ -52,7 +52,7 @@ def get_values(
     initial = self.initial
     if self.number == None:
         final = self.final
-        number = (final - initial + self.step) / self.step
+        number = round((final - initial + self.step) / self.step)
     elif self.final == None:
         number = self.number
         final = self.initial + (number - 1) * self.step
-- 
2.43.0


From 96554b8ed17983ef3c42f1e0dea4f486cca1ab57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:35:27 +0000
Subject: [PATCH 60/74] fix: announce the number of stored frequencies of a
 Data1D axis

---
 SciDataTool/Methods/Data1D/get_length.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SciDataTool/Methods/Data1D/get_length.py b/SciDataTool/Methods/Data1D/get_length.py
index 549d243..c8f0a28 100644
--- a/SciDataTool/Methods/Data1D/get_length.py
+++ b/SciDataTool/Methods/Data1D/get_length.py
@@ -16,6 +16,11 @@ def get_length(self, is_oneperiod=False, is_antiperiod=False, is_smallestperiod=
     Length of axis
     """
     N = len(self.values)
+
+    # Ignore symmetries if fft axis
+    if self.name == "freqs" or self.name == "wavenumber":
+        is_smallestperiod = True
+
     # Rebuild symmetries
     if is_smallestperiod:
         return N
-- 
2.43.0


From 8241757bed145448c39fad7c251f18c6b78bd834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:35:27 +0000
Subject: [PATCH 61/74] fix: normalize a Data1D axis by a vector over one
 period of antiperiodic data

---
 SciDataTool/Methods/Data1D/get_values.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/SciDataTool/Methods/Data1D/get_values.py b/SciDataTool/Methods/Data1D/get_values.py
index b9f7bfb..63661c3 100644
--- a/SciDataTool/Methods/Data1D/get_values.py
+++ b/SciDataTool/Methods/Data1D/get_values.py
@@ -69,6 +69,15 @@ def get_values(
             symmetries = self.symmetries.copy()
             symmetries["antiperiod"] = 2
             values = rebuild_symmetries_axis(values, symmetries)
+            if (
+                normalization is not None
+                and normalization in self.normalizations
+                and isinstance(self.normalizations[normalization], Norm_vector)
+            ):
+                norm_vector = self.normalizations[normalization].copy()
+                norm_vector.vector = rebuild_symmetries_axis(
+                    norm_vector.vector, symmetries
+                )
         elif "period" in self.symmetries:
             pass
         else:
-- 
2.43.0


From 5f3643a246786ac8dd87342b9a4b62270f4d112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:35:27 +0000
Subject: [PATCH 62/74] fix: announce the number of stored frequencies of a
 DataLinspace axis

---
 SciDataTool/Methods/DataLinspace/get_length.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SciDataTool/Methods/DataLinspace/get_length.py b/SciDataTool/Methods/DataLinspace/get_length.py
index 7c59dfd..ea569c2 100644
--- a/SciDataTool/Methods/DataLinspace/get_length.py
+++ b/SciDataTool/Methods/DataLinspace/get_length.py
@@ -21,6 +21,10 @@ def get_length(self, is_oneperiod=False, is_antiperiod=False, is_smallestperiod=
     else:
         N = self.number
 
+    # Ignore symmetries if fft axis
+    if self.name == "freqs" or self.name == "wavenumber":
+        is_smallestperiod = True
+
     # Rebuild symmetries
     if is_smallestperiod:
         return N
-- 
2.43.0


From e502179a9c93c09cea64c8b75f5ff8b0fd8028b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:35:27 +0000
Subject: [PATCH 63/74] fix: normalize a DataLinspace axis by a vector over one
 period of antiperiodic data

---
 SciDataTool/Methods/DataLinspace/get_values.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/SciDataTool/Methods/DataLinspace/get_values.py b/SciDataTool/Methods/DataLinspace/get_values.py
index c6990fb..ee5b5d1 100644
--- a/SciDataTool/Methods/DataLinspace/get_values.py
+++ b/SciDataTool/Methods/DataLinspace/get_values.py
@@ -80,6 +80,15 @@ def get_values(
             symmetries = self.symmetries.copy()
             symmetries["antiperiod"] = 2
             values = rebuild_symmetries_axis(values, symmetries)
+            if (
+                normalization is not None
+                and normalization in self.normalizations
+                and isinstance(self.normalizations[normalization], Norm_vector)
+            ):
+                norm_vector = self.normalizations[normalization].copy()
+                norm_vector.vector = rebuild_symmetries_axis(
+                    norm_vector.vector, symmetries
+                )
         elif "period" in self.symmetries:
             pass
         else:
-- 
2.43.0


From faa9d0c98931e96451daf4705a3ff5275b602b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:36:32 +0000
Subject: [PATCH 64/74] fix: return sampled values in the order of the
 requested points

---
 SciDataTool/Functions/interpolations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index 2ef5e8d..6459fee 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -3,9 +3,11 @@ from numpy import (
     stack,
     linspace,
     argmin,
+    argsort,
     take,
     isclose,
     isin,
+    searchsorted,
     all,
     abs as np_abs,
     where,
@@ -99,7 +101,9 @@ def get_interpolation(values, axis_values, new_axis_values, index):
     elif isin(
         new_axis_values, axis_values
     ).all():  # New axis is subset -> no interpolation
-        indice_take = where(isin(axis_values, new_axis_values))[0]
+        # Samples in the order of the new axis
+        order = argsort(axis_values)
+        indice_take = order[searchsorted(axis_values, new_axis_values, sorter=order)]
 
         return take(
             values,
-- 
2.43.0


From 1da87cf8c493efcc51281fdf5a92d837f1e5b53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:59:49 +0000
Subject: [PATCH 65/74] fix: start primitives at the first sample

The primitive was rotated by one sample, so that the integral over the whole
period was given to the first sample. The local integral of data whose mean is
not zero was wrong on the first interval, and a pattern lost a sample.
---
 SciDataTool/Functions/derivation_integration.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index 12bcd6b..a3dcb28 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -64,11 +64,12 @@ def antiderivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
                 # in case of periodicity (respectively anti-periodicity)
                 values_full[-1, ...] = (-1) ** int(is_aper) * values[0, ...]
             # Anti-derivate along axis
-            values = np.roll(
-                scp_int.cumulative_trapezoid(values_full, x=ax_full, axis=0),
-                shift=1,
-                axis=0,
+            values = scp_int.cumulative_trapezoid(
+                values_full, x=ax_full, axis=0, initial=0
             )
+            if Nper is not None:
+                # Get N first values
+                values = values[:-1, ...]
             # Integration constant is given by removing average value
             values = values - np.mean(values, axis=0)
             # Get N first values and swap axes back to origin
-- 
2.43.0


From 2e8dcf5e2264f08e54f71b91177001a56f8cbe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:59:49 +0000
Subject: [PATCH 66/74] fix: primitive of antiperiodic data has a zero average
 over both halves

The average over the stored half was removed, so that the primitive was not
antiperiodic.
---
 SciDataTool/Functions/derivation_integration.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index a3dcb28..e4558b1 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -67,11 +67,17 @@ def antiderivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
             values = scp_int.cumulative_trapezoid(
                 values_full, x=ax_full, axis=0, initial=0
             )
+            if is_aper:
+                # The second half is the opposite of the first one, average value
+                # is half-way between both ends
+                average = values[-1, ...] / 2
+            else:
+                average = np.mean(values if Nper is None else values[:-1, ...], axis=0)
             if Nper is not None:
                 # Get N first values
                 values = values[:-1, ...]
             # Integration constant is given by removing average value
-            values = values - np.mean(values, axis=0)
+            values = values - average
             # Get N first values and swap axes back to origin
             values = np.swapaxes(values, 0, index)
 
-- 
2.43.0


From 9e2205acf44491f82fb97d4f74eac5c86c7a8358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:59:49 +0000
Subject: [PATCH 67/74] fix: derivate at the first sample of an axis that does
 not start at zero

The sample before the first one was placed as if the axis started at zero.
---
 SciDataTool/Functions/derivation_integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index e4558b1..e055347 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -318,7 +318,7 @@ def derivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
                 # Create the full vector of axis values
                 ax_full = np.concatenate(
                     (
-                        np.array([ax_val[0] - ax_val[1]]),
+                        np.array([2 * ax_val[0] - ax_val[1]]),
                         ax_val,
                         np.array([ax_val[-1] + ax_val[1] - ax_val[0]]),
                     )
-- 
2.43.0


From 6215fb279a1ad31e2dff94347c2380ff7611ec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:59:49 +0000
Subject: [PATCH 68/74] fix: keep the ends when derivating along an axis
 without periodicity

The first and last samples were removed as if they had been added before.
---
 SciDataTool/Functions/derivation_integration.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index e055347..02f8a3e 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -312,8 +312,7 @@ def derivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
             values = np.swapaxes(values, index, 0)
             if Nper is None or is_aper is None:
                 # Taking input values
-                values_full = values
-                ax_full = ax_val
+                values = np.gradient(values, ax_val, axis=0)
             else:
                 # Create the full vector of axis values
                 ax_full = np.concatenate(
@@ -333,10 +332,10 @@ def derivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
                 # in case of periodicity (respectively anti-periodicity)
                 values_full[-1, ...] = (-1) ** int(is_aper) * values[0, ...]
                 values_full[0, ...] = (-1) ** int(is_aper) * values[-1, ...]
-            # Derivate along axis
-            values = np.gradient(values_full, ax_full, axis=0)
-            # Get N first values and swap axes back to origin
-            values = np.swapaxes(values[1:-1, ...], 0, index)
+                # Derivate along axis and get N first values
+                values = np.gradient(values_full, ax_full, axis=0)[1:-1, ...]
+            # Swap axes back to origin
+            values = np.swapaxes(values, 0, index)
 
         else:
             raise Exception("Cannot derivate along axis if axis size is 1")
-- 
2.43.0


From df103bf9998747b7f71ea77e95be0c7d1b3ed61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:32:02 +0000
Subject: [PATCH 69/74] fix: upper bound of the last octave band

The last band ended where it started, so its level was always zero.
---
 SciDataTool/Functions/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index b988edd..df5aa52 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -455,7 +455,7 @@ def to_noct(values, freqs, noct=3):
     f_oct = comp_nthoctave_axis(noct, freqs[0], freqs[-1])
     # Compute sum over each interval
     freqbds = [f / (2 ** (1.0 / (2.0 * noct))) for f in f_oct]
-    freqbds.append(freqbds[-1])
+    freqbds.append(f_oct[-1] * 2 ** (1.0 / (2.0 * noct)))
     # freqbds = [0] + f_oct
     values_oct = []
     N = zeros(len(freqbds) - 1)
-- 
2.43.0


From 7db41941271c4a6c5fe398e9ada90976aa11c6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:32:02 +0000
Subject: [PATCH 70/74] fix: inverse transform of wavenumbers of both signs

A spectrum along wavenumbers alone was read as a half spectrum,
without reordering its lines, unlike the direct transform.
---
 SciDataTool/Functions/fft_functions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 47a4e72..a541432 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -452,7 +452,13 @@ def comp_ifftn(values, axes_requ_list, is_real=True, axes_list=[]):
                 axes.append(axis.index)
                 shape.append(2 * (values.shape[axis.index] - 1))
                 is_onereal = True
-            elif is_real and axis.name == "angle" and "time" not in axis_names:
+            elif (
+                is_real
+                and axis.name == "angle"
+                and "time" not in axis_names
+                and axis.corr_values is not None
+                and min(axis.corr_values) >= 0
+            ):
                 axes.append(axis.index)
                 shape.append(values.shape[axis.index])
                 is_half = True
-- 
2.43.0


From bab27721a0194af2828ce52f885554871169ae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:55:46 +0000
Subject: [PATCH 71/74] fix: points close to those of a finely sampled axis
 taken for the axis itself

---
 SciDataTool/Functions/interpolations.py | 29 ++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index 6459fee..2d6f212 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -1,5 +1,6 @@
 from numpy import (
     array,
+    diff,
     stack,
     linspace,
     argmin,
@@ -62,6 +63,26 @@ def get_common_base(values1, values2, is_extrap=False, is_downsample=False):
     return linspace(initial, final, int(number), endpoint=True)
 
 
+def is_same_axis(axis_values, new_axis_values):
+    """Returns True if the points of the new axis are those of the original axis, up to
+    a small part of the distance between them
+    Parameters
+    ----------
+    axis_values: list
+        values of the original axis
+    new_axis_values: list
+        values of the new axis
+    Returns
+    -------
+    Boolean
+    """
+    if len(axis_values) != len(new_axis_values):
+        return False
+    steps = np_abs(diff(unique(axis_values)))
+    tol = 1e-03 * steps.min() if steps.size > 0 else 0
+    return all(np_abs(array(axis_values) - array(new_axis_values)) <= tol)
+
+
 def get_interpolation(values, axis_values, new_axis_values, index):
     """Returns the interpolated field along one axis, given the new axis
     Parameters
@@ -94,9 +115,7 @@ def get_interpolation(values, axis_values, new_axis_values, index):
         else:
             idx = argmin(np_abs(axis_values - new_axis_values[0]))
             return take(values, [idx], axis=index)
-    elif len(axis_values) == len(new_axis_values) and all(
-        isclose(axis_values, new_axis_values, rtol=1e-03)
-    ):  # Same axes -> no interpolation
+    elif is_same_axis(axis_values, new_axis_values):  # Same axes -> no interpolation
         return values
     elif isin(
         new_axis_values, axis_values
@@ -135,9 +154,7 @@ def get_interpolation_step(values, axis_values, new_axis_values, index):
     # elif len(new_axis_values) == 1:  # Single point -> use argmin
     #     idx = argmin(np_abs(axis_values - new_axis_values[0]))
     #     return take(values, [idx])
-    elif len(axis_values) == len(new_axis_values) and all(
-        isclose(axis_values, new_axis_values, rtol=1e-03)
-    ):  # Same axes -> no interpolation
+    elif is_same_axis(axis_values, new_axis_values):  # Same axes -> no interpolation
         return values
     elif isin(
         new_axis_values, axis_values
-- 
2.43.0


From 90b41ce27ef5c7c29550d670adac62a7ae8b5d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:55:46 +0000
Subject: [PATCH 72/74] fix: steps returned in the order of the requested
 points

---
 SciDataTool/Functions/interpolations.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index 2d6f212..d5f466c 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -161,7 +161,7 @@ def get_interpolation_step(values, axis_values, new_axis_values, index):
     ).all():  # New axis is subset -> no interpolation
         values_slices = []
         indice_take = where(isin(axis_values, new_axis_values))[0]
-        _, idx_start, count = unique(
+        steps, idx_start, count = unique(
             axis_values[indice_take], return_counts=True, return_index=True
         )
         if len(idx_start) > 0:
@@ -171,7 +171,12 @@ def get_interpolation_step(values, axis_values, new_axis_values, index):
                         axis=index
                     )
                 )
-            return stack(values_slices, axis=index)
+            # Steps in the order of the new axis
+            return take(
+                stack(values_slices, axis=index),
+                searchsorted(steps, new_axis_values),
+                axis=index,
+            )
         else:
             return take(values, [], axis=index)
 
-- 
2.43.0


From 032ee26930ee9b2e8aa742d0429f312b0d4eb017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:14:43 +0000
Subject: [PATCH 73/74] fix: first line of a spectrum halved when it is not the
 zero frequency

---
 SciDataTool/Methods/DataND/change_referential.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/change_referential.py b/SciDataTool/Methods/DataND/change_referential.py
index b4cde0c..4edf54e 100644
--- a/SciDataTool/Methods/DataND/change_referential.py
+++ b/SciDataTool/Methods/DataND/change_referential.py
@@ -178,7 +178,9 @@ def change_referential(
             Ifreq_pos = freqs_new >= 0
             freqs_store = freqs_new[Ifreq_pos]
             val_new = val_new[Ifreq_pos] * coeff
-            val_new[0] = val_new[0] / coeff
+            # Zero frequency has no negative counterpart
+            Ifreq_0 = np.abs(freqs_store) < atol_freq
+            val_new[Ifreq_0] = val_new[Ifreq_0] / coeff
         else:
             freqs_store = freqs_new
 
-- 
2.43.0


From 3478bd1b7c8f397487a623f8ed3345c1d99765cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:14:43 +0000
Subject: [PATCH 74/74] fix: lines lost by components of a vector field when
 the first one lacks them

---
 .../Methods/VectorField/change_referential.py | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/SciDataTool/Methods/VectorField/change_referential.py b/SciDataTool/Methods/VectorField/change_referential.py
index 15c3f63..f26cf9b 100644
--- a/SciDataTool/Methods/VectorField/change_referential.py
+++ b/SciDataTool/Methods/VectorField/change_referential.py
@@ -36,7 +36,6 @@ def change_referential(
     freqs_new = np.array([])
     I1 = np.array([])
     Irf_un = np.array([])
-    Imask = np.array([])
     ta_in = tuple()
     ta_out = tuple()
     for comp, data in self.components.items():
@@ -66,23 +65,23 @@ def change_referential(
             atol_freq=atol_freq,
         )
 
-        # Filter harmonics that are below input absolute tolerance
-        if atol > 0 and not is_waveform:
+        # Store referential changed data in VectorField
+        vf_new.components[comp] = data_new
 
+    # Filter harmonics that are below input absolute tolerance in all components
+    if atol > 0 and not is_waveform:
+        Imask = False
+        for data_new in vf_new.components.values():
+            val = np.abs(data_new.values)
+            val_max = np.max(val)
+            while val.ndim > 1:
+                val = np.sum(val, axis=-1)
+            Imask = Imask | (val > val_max * atol)
+
+        for data_new in vf_new.components.values():
             # Copy axis not to change axis in axes_list_change
             data_new.axes = [axis.copy() for axis in data_new.axes]
-
-            # Filter harmonics that are below input absolute tolerance
-            if Imask.size == 0:
-                val = np.abs(data_new.values)
-                val_max = np.max(val)
-                while val.ndim > 1:
-                    val = np.sum(val, axis=-1)
-                Imask = val > val_max * atol
             data_new.axes[0].values = data_new.axes[0].values[Imask]
             data_new.values = data_new.values[Imask, ...]
 
-        # Store referential changed data in VectorField
-        vf_new.components[comp] = data_new
-
     return vf_new
-- 
2.43.0

