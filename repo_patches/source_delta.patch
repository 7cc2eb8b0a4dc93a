From 7a38be2144f41f8dd867fceb30b0e3ede62ec005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 01/73] fix: reclassify no longer replaces None in the caller's
 mapping

---
 raster_tools/general.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index a9d6e95..53cfde9 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -1376,6 +1376,8 @@ def reclassify(raster, remapping, unmapped_to_null=False):
     else:
         nv = get_default_null_value(out_dtype)
     masked = raster._masked or unmapped_to_null
+    # Copy so that the caller's mapping is left as it was
+    remapping = dict(remapping)
     for k in remapping:
         if remapping[k] is None:
             remapping[k] = nv
-- 
2.43.0


From f4b33707b68c07de109c188c1ae16d3e0144386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 02/73] fix: to_polygons no longer zeroes the null cells of the
 source raster

---
 raster_tools/raster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 86d0845..773568d 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -3135,8 +3135,9 @@ def _shapes_delayed(chunk, mask, neighbors, transform, band, crs):
         # Replace null values with a value that will work for all dtypes. Null
         # values are the most likely to produce warnings when down casting. The
         # null cells will be ignored in rio.features.shapes so the value
-        # does not matter for computation.
-        chunk[mask] = 0
+        # does not matter for computation. The chunk may be the raster's own
+        # memory so a new array has to be made.
+        chunk = np.where(mask, orig_dtype.type(0), chunk)
         chunk = chunk.astype(working_dtype)
 
     # Invert because rasterio's shapes func uses False for masked cells.
-- 
2.43.0


From 6d7ca219328d8e17380a9d724aa3d5a3bcb22dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 03/73] fix: batch ARITHMETIC looks its operator up once and
 applies it

---
 raster_tools/batch.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/raster_tools/batch.py b/raster_tools/batch.py
index 43e4e6d..23c0539 100644
--- a/raster_tools/batch.py
+++ b/raster_tools/batch.py
@@ -1,3 +1,4 @@
+import operator
 import os
 import re
 
@@ -46,6 +47,14 @@ _ESRI_OP_TO_OP = {
     "esriRasterPower": "**",
     "**": "**",
 }
+_OP_TO_FUNC = {
+    "+": operator.add,
+    "-": operator.sub,
+    "*": operator.mul,
+    "/": operator.truediv,
+    "%": operator.mod,
+    "**": operator.pow,
+}
 _FUNC_PATTERN = re.compile(r"^(?P<func>[A-Za-z]+)\((?P<args>[^\(\)]+)\)$")
 
 
@@ -70,7 +79,6 @@ class _BatchScripParserState:
 
 def _batch_parse_arithmetic(state, args_str, line_no):
     left_arg, right_arg, op = _split_strip(args_str, ";")
-    op = _ESRI_OP_TO_OP[op]
     if op not in _ESRI_OP_TO_OP:
         _batch_error(f"Unknown arithmetic operation {repr(op)}", line_no)
     op = _ESRI_OP_TO_OP[op]
@@ -82,7 +90,7 @@ def _batch_parse_arithmetic(state, args_str, line_no):
         right = float(right_arg)
     except ValueError:
         right = state.get_raster(right_arg)
-    return left._binary_arithmetic(right, op)
+    return _OP_TO_FUNC[op](left, right)
 
 
 def _batch_parse_extract_band(state, args_str, line_no):
-- 
2.43.0


From 8651331104b38fe36f2ebd95d2462192c8337697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 04/73] fix: batch EXTRACTBAND splits its arguments

---
 raster_tools/batch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raster_tools/batch.py b/raster_tools/batch.py
index 23c0539..c91a9f8 100644
--- a/raster_tools/batch.py
+++ b/raster_tools/batch.py
@@ -94,9 +94,10 @@ def _batch_parse_arithmetic(state, args_str, line_no):
 
 
 def _batch_parse_extract_band(state, args_str, line_no):
-    rs = state.get_raster(args_str.pop(0))
+    raster, *band_args = _split_strip(args_str, ";")
+    rs = state.get_raster(raster)
     bands = []
-    for sb in args_str:
+    for sb in band_args:
         try:
             b = _parse_user_number(sb)
             if not is_int(b):
-- 
2.43.0


From 7b9f7c029d24b5169a8c41d166d6cf3e2be55978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 05/73] fix: batch REMAP passes its ranges as a list of
 mappings

---
 raster_tools/batch.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/raster_tools/batch.py b/raster_tools/batch.py
index c91a9f8..71c25c3 100644
--- a/raster_tools/batch.py
+++ b/raster_tools/batch.py
@@ -142,10 +142,7 @@ def _batch_parse_remap(state, args_str, line_no):
         remaps.append((left, right, new))
     if len(remaps) == 0:
         _batch_error("REMAP Error: No remap values found", line_no)
-    args = []
-    for group in remaps:
-        args.extend(group)
-    return state.get_raster(raster).remap_range(*args)
+    return state.get_raster(raster).remap_range(remaps)
 
 
 def _batch_parse_composite(state, args_str, line_no):
-- 
2.43.0


From 6e714d36d71f942f9ae2d966dc4cc1616901e1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 06/73] fix: batch COMPOSITE error names the line number

---
 raster_tools/batch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/raster_tools/batch.py b/raster_tools/batch.py
index 71c25c3..078346c 100644
--- a/raster_tools/batch.py
+++ b/raster_tools/batch.py
@@ -146,11 +146,10 @@ def _batch_parse_remap(state, args_str, line_no):
 
 
 def _batch_parse_composite(state, args_str, line_no):
-    on_line = f" on line {line_no}"
     rasters = [state.get_raster(path) for path in _split_strip(args_str, ";")]
     if len(rasters) < 2:
         _batch_error(
-            "COMPOSITE Error: at least 2 rasters are required", on_line
+            "COMPOSITE Error: at least 2 rasters are required", line_no
         )
     return stack_bands(rasters)
 
-- 
2.43.0


From 21be02949fa9525d45083dd0e8b3952331dc23d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 07/73] fix: batch SETNULL splits its arguments and nulls the
 ranges given

---
 raster_tools/batch.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/raster_tools/batch.py b/raster_tools/batch.py
index 078346c..9d2eb22 100644
--- a/raster_tools/batch.py
+++ b/raster_tools/batch.py
@@ -198,21 +198,22 @@ def _batch_parse_save(state, args_str, line_no):
 
 
 def _batch_parse_set_null(state, args_str, line_no):
-    rs = state.get_raster(args_str.pop(0))
+    raster, *args = _split_strip(args_str, ";")
+    rs = state.get_raster(raster)
     if not rs._masked:
-        rs.set_null_value(get_default_null_value(rs.dtype))
-    sranges = [_split_strip(r, "-") for r in args_str]
+        rs = rs.set_null_value(get_default_null_value(rs.dtype))
+    sranges = [_split_strip(r, "-") for r in args]
     ranges = []
     try:
         for sr in sranges:
             lh = _parse_user_number(sr[0])
             rh = _parse_user_number(sr[1])
-            ranges.extend((lh, rh, rs.null_value))
+            ranges.append((lh, rh, None))
     except ValueError:
         _batch_error("Error parsing range value", line_no)
     except TypeError:
         _batch_error("Range bounds must be numbers", line_no)
-    return rs.remap_range(*ranges).set_null_value(rs.null_value)
+    return rs.remap_range(ranges)
 
 
 _FUNC_TO_PARSER = {
-- 
2.43.0


From 1930c3421985fac54e219ff871f77c321a7e4b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:58 +0000
Subject: [PATCH 08/73] fix: set_null_value(nan) works for 64-bit integer
 rasters

---
 raster_tools/dtypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raster_tools/dtypes.py b/raster_tools/dtypes.py
index ffbfaa2..abd648d 100644
--- a/raster_tools/dtypes.py
+++ b/raster_tools/dtypes.py
@@ -191,8 +191,10 @@ INT_DTYPE_TO_FLOAT_DTYPE = {
     U8: F16,
     U16: F32,
     U32: F64,
+    U64: F64,
     I8: F16,
     I16: F32,
     I32: F64,
+    I64: F64,
     F64: F64,
 }
-- 
2.43.0


From cf1da18c7eb5402321f71d5d7217b0d503374008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:26 +0000
Subject: [PATCH 09/73] fix: where takes the null cells from the chosen branch
 instead of comparing with the null value

---
 raster_tools/general.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 53cfde9..d6dd6c5 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -1236,14 +1236,17 @@ def where(condition, true_rast, false_rast):
         xd = getattr(x, "xdata", x)
         yd = getattr(y, "xdata", y)
         cm = condition.xmask
-        xm = getattr(x, "xmask", False)
-        ym = getattr(y, "xmask", False)
+        # Scalars that are equal to nv (None has become nv by now) are null
+        xm, ym = (
+            a.xmask
+            if isinstance(a, Raster)
+            else bool(a == nv or (np.isnan(a) and np.isnan(nv)))
+            for a in (x, y)
+        )
         data = xr.where(cd, xd, yd)
         mask = xr.where(cd, xm, ym)
         mask = xr.where(cm, True, mask)
         data = xr.where(mask, nv, data)
-        # Pick up any new null values caused by x/y being None or equal to nv
-        mask = data == nv if not np.isnan(nv) else np.isnan(data)
         data = data.rio.write_nodata(nv)
     else:
         xd = getattr(x, "xdata", x)
-- 
2.43.0


From 2db3371a585c12cd7fe8437434e6e8afb80fd894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:05 +0000
Subject: [PATCH 10/73] fix: focal with ignore_null gives null cells the
 statistic of their valid neighbors

---
 raster_tools/focal.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index bf14313..47a0e83 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -6,6 +6,7 @@ import numpy as np
 from dask_image import ndfilters
 
 from raster_tools.dtypes import (
+    F32,
     F64,
     U8,
     U16,
@@ -420,7 +421,12 @@ def focal(raster, focal_type, width_or_radius, height=None, ignore_null=False):
     if raster._masked:
         nv = np.nan
         mask = raster.mask.copy()
-        mask = mask if ignore_null else mask | np.isnan(data)
+        if ignore_null:
+            # Only windows without any valid cells are null
+            valid = da.where(raster.mask, np.nan, F32.type(1))
+            mask = np.isnan(_focal(valid, window, "max", True))
+        else:
+            mask = mask | np.isnan(data)
         ds = data_to_xr_raster_ds_like(
             data, raster.xdata, mask=mask, nv=nv, burn=True
         )
-- 
2.43.0


From 6b77917d7c186511e4f92836a8993178bb030480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 11/73] fix: focal statistics and correlation work on rasters
 that promote to float16

---
 raster_tools/focal.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index 47a0e83..ec7cbfb 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -6,6 +6,7 @@ import numpy as np
 from dask_image import ndfilters
 
 from raster_tools.dtypes import (
+    F16,
     F32,
     F64,
     U8,
@@ -302,7 +303,7 @@ def _focal(data, kernel, stat, nan_aware=False):
     else:
         # Use _focal_chunk which is slower but handles nan values.
         # Promote to allow for nan boundary fill values.
-        new_dtype = promote_dtype_to_float(data.dtype)
+        new_dtype = _get_float_dtype(data.dtype)
         if new_dtype != data.dtype:
             data = data.astype(new_dtype)
 
@@ -324,6 +325,12 @@ def _focal(data, kernel, stat, nan_aware=False):
     return data
 
 
+def _get_float_dtype(dtype):
+    # numba doesn't understand f16 so use f32 instead
+    dtype = promote_dtype_to_float(dtype)
+    return F32 if dtype == F16 else dtype
+
+
 def focal(raster, focal_type, width_or_radius, height=None, ignore_null=False):
     """Applies a focal filter to raster bands individually.
 
@@ -394,7 +401,7 @@ def focal(raster, focal_type, width_or_radius, height=None, ignore_null=False):
 
     # Convert to float and fill nulls with nan, if needed
     if raster._masked:
-        new_dtype = promote_dtype_to_float(raster.dtype)
+        new_dtype = _get_float_dtype(raster.dtype)
         if new_dtype != data.dtype:
             data = data.astype(new_dtype)
         data = da.where(raster.mask, np.nan, data)
@@ -571,7 +578,7 @@ def correlate(raster, kernel, mode="constant", cval=0.0):
     # Convert to float and fill nulls with nan, if needed
     upcast = False
     if raster._masked:
-        new_dtype = promote_dtype_to_float(data.dtype)
+        new_dtype = _get_float_dtype(data.dtype)
         upcast = new_dtype != data.dtype
         if upcast:
             data = data.astype(new_dtype)
-- 
2.43.0


From 169a0554b8db55a5b5f4f8ffa85b6e1805282d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:50 +0000
Subject: [PATCH 12/73] fix: focal min, max and sum use the same window for
 even sizes as the other statistics

---
 raster_tools/focal.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index ec7cbfb..f8d9adf 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -287,17 +287,28 @@ def _focal(data, kernel, stat, nan_aware=False):
     kernel = kernel.astype(bool)
     if not nan_aware and stat in ("min", "max", "sum"):
         # Use ndfilters which is faster but dosn't handle nan values
+        # Shift pixel origins to match _focal_chunk for even shaped kernels
+        origin = [-1 if d % 2 == 0 else 0 for d in kernel.shape]
         if stat == "min":
             func = partial(
-                ndfilters.minimum_filter, footprint=kernel, mode="nearest"
+                ndfilters.minimum_filter,
+                footprint=kernel,
+                mode="nearest",
+                origin=origin,
             )
         elif stat == "max":
             func = partial(
-                ndfilters.maximum_filter, footprint=kernel, mode="nearest"
+                ndfilters.maximum_filter,
+                footprint=kernel,
+                mode="nearest",
+                origin=origin,
             )
         elif stat == "sum":
             func = partial(
-                ndfilters.correlate, weights=kernel, mode="constant"
+                ndfilters.correlate,
+                weights=kernel,
+                mode="constant",
+                origin=origin,
             )
         data = da.stack([func(d) for d in data])
     else:
-- 
2.43.0


From 402dc529368e71592a0bd7c7f7dbceae0b26edbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:50 +0000
Subject: [PATCH 13/73] fix: focal min and max do not repeat edge cells for
 annulus windows

---
 raster_tools/focal.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index f8d9adf..144fc79 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -285,7 +285,11 @@ def _focal(data, kernel, stat, nan_aware=False):
         data = da.from_array(data)
 
     kernel = kernel.astype(bool)
-    if not nan_aware and stat in ("min", "max", "sum"):
+    # The "nearest" mode used for min and max only repeats cells of the window
+    # if the window is not hollow. ndfilters doesn't understand f16.
+    center = tuple((d - 1) // 2 for d in kernel.shape)
+    fast = data.dtype != F16 and (stat == "sum" or kernel[center])
+    if not nan_aware and fast and stat in ("min", "max", "sum"):
         # Use ndfilters which is faster but dosn't handle nan values
         # Shift pixel origins to match _focal_chunk for even shaped kernels
         origin = [-1 if d % 2 == 0 else 0 for d in kernel.shape]
@@ -425,7 +429,7 @@ def focal(raster, focal_type, width_or_radius, height=None, ignore_null=False):
             # replace them with nan
             data = da.where(data == 0, np.nan, data)
     else:
-        if focal_type == "mode" and is_int(raster.dtype):
+        if focal_type in ("min", "max", "mode") and is_int(raster.dtype):
             data = data.astype(raster.dtype)
         elif focal_type == "unique":
             n = window.size
-- 
2.43.0


From b70bb298d560e337492f13a9b7f8349851261de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:50 +0000
Subject: [PATCH 14/73] fix: focal sum no longer wraps around in small integer
 types

---
 raster_tools/focal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index 144fc79..64088ab 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -308,6 +308,9 @@ def _focal(data, kernel, stat, nan_aware=False):
                 origin=origin,
             )
         elif stat == "sum":
+            if not is_float(data.dtype):
+                # Use numpy's accumulator type so that the sum fits
+                data = data.astype(np.empty(0, data.dtype).sum().dtype)
             func = partial(
                 ndfilters.correlate,
                 weights=kernel,
-- 
2.43.0


From afd160e852e5e1b73725f6330e3ac2cdd9d99ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:51 +0000
Subject: [PATCH 15/73] fix: statistics of masked 8-bit rasters no longer
 overflow float16

---
 raster_tools/raster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 773568d..4b3fce6 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -3211,6 +3211,9 @@ def get_raster(src, strict=True, null_to_nan=False):
         data = rs.data
         new_dtype = promote_dtype_to_float(data.dtype)
         if new_dtype != data.dtype:
+            # f16 can hold 8-bit ints but not their sums and numba does not
+            # understand it
+            new_dtype = F32 if new_dtype == F16 else new_dtype
             data = data.astype(new_dtype)
         rs.xdata.data = da.where(rs.mask, np.nan, data)
     return rs
-- 
2.43.0


From 4b75d5bea23ceb4eac91bb0a5740ba46a637f3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 16/73] fix: cost distance accepts masked costs and elevations
 of integer types

---
 raster_tools/distance/cost_distance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raster_tools/distance/cost_distance.py b/raster_tools/distance/cost_distance.py
index 51d7e97..857a667 100644
--- a/raster_tools/distance/cost_distance.py
+++ b/raster_tools/distance/cost_distance.py
@@ -448,6 +448,8 @@ def _normalize_raster_data(rs, missing=-1):
     # Make sure that null values are skipped
     nv = rs.null_value
     if rs._masked:
+        # missing may not fit in the raster's dtype
+        data = data.astype(F64)
         if is_float(rs.dtype):
             if not np.isnan(nv):
                 data = da.where(rs.mask, missing, data)
-- 
2.43.0


From 8cae010c2295056051b136258be2d98a7abd9856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:14 +0000
Subject: [PATCH 17/73] fix: astype honors a new null value that is close to
 the old one or does not fit

---
 raster_tools/raster.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 4b3fce6..eb20c30 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -1906,9 +1906,12 @@ class Raster(_RasterBase):
 
         xrs_casted = xrs.astype(dtype)
         if new_null_value is not None:
-            if self._masked and not np.allclose(
-                new_null_value, self.null_value, equal_nan=True
-            ):
+            if self._masked and is_float(dtype) and np.isnan(new_null_value):
+                nv = np.nan
+                xrs_casted = xr.where(mask, nv, xrs_casted).rio.write_nodata(
+                    nv
+                )
+            elif self._masked:
                 with warnings.catch_warnings():
                     warnings.simplefilter("error")
                     try:
@@ -1923,7 +1926,7 @@ class Raster(_RasterBase):
                     xrs_casted = xr.where(
                         mask, nv, xrs_casted
                     ).rio.write_nodata(nv)
-            # else: do nothing since the null values already match
+            # else: do nothing since there are no nulls
         elif self._masked:
             nv = reconcile_nullvalue_with_dtype(
                 nv, dtype, warn_about_null_change
-- 
2.43.0


From 42454841c03971ac58a8d808a08380cc11a4d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 18/73] fix: ufuncs with two outputs work on rasters without a
 mask

---
 raster_tools/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index eb20c30..7bca1e2 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -227,7 +227,7 @@ def _apply_ufunc(ufunc, this, left, right=None, kwargs=None, out=None):
     xr_out = ufunc(*ufunc_args, **kwargs)
     multi_out = ufunc.nout > 1
     if not masked:
-        mask = get_mask_from_data(xr_out, None)
+        mask = get_mask_from_data(xr_out[0] if multi_out else xr_out, None)
         if not multi_out:
             xmask = xr.DataArray(mask, dims=xr_out.dims, coords=xr_out.coords)
             xr_out = xr_out.rio.write_nodata(None)
-- 
2.43.0


From 6a5750e5342773e8eebc0bbb753f4eb4ca6d9cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:54 +0000
Subject: [PATCH 19/73] fix: burn_mask keeps the null value False of boolean
 rasters

---
 raster_tools/raster.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 7bca1e2..c3662df 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -2149,13 +2149,13 @@ class Raster(_RasterBase):
         """Fill null-masked cells with null value.
 
         Use this as a way to return the underlying data to a known state. If
-        dtype is boolean, the null cells are set to ``True`` instead of
-        promoting to fit the null value.
+        dtype is boolean and the null value is not, the null cells are set to
+        ``True`` instead of promoting to fit the null value.
         """
         if not self._masked:
             return self.copy()
         nv = self.null_value
-        if is_bool(self.dtype):
+        if is_bool(self.dtype) and nv not in (0, 1):
             # Sanity check to make sure that boolean rasters get a boolean null
             # value
             nv = get_default_null_value(self.dtype)
-- 
2.43.0


From 8994aaf904ee1fc368a9942d15cea79657196f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:07 +0000
Subject: [PATCH 20/73] fix: astype accepts a new null value that fits a signed
 type

---
 raster_tools/raster.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index c3662df..4683cf3 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -157,6 +157,11 @@ def _ext_for_driver(driver):
     return ".tif"
 
 
+def _fits_int(value, dtype):
+    info = np.iinfo(dtype)
+    return float(value).is_integer() and info.min <= int(value) <= info.max
+
+
 def _normalize_ufunc_other(other, this):
     if other is None or isinstance(other, numbers.Number):
         return other
@@ -1915,9 +1920,12 @@ class Raster(_RasterBase):
                 with warnings.catch_warnings():
                     warnings.simplefilter("error")
                     try:
-                        nv = reconcile_nullvalue_with_dtype(
-                            new_null_value, dtype, warn=True
-                        )
+                        if is_int(dtype) and _fits_int(new_null_value, dtype):
+                            nv = dtype.type(new_null_value)
+                        else:
+                            nv = reconcile_nullvalue_with_dtype(
+                                new_null_value, dtype, warn=True
+                            )
                     except UserWarning:
                         raise ValueError(
                             "Could not use provided null value with the new "
-- 
2.43.0


From b80de7c3f12d5d7beaee6955c4924261bca0bf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:07 +0000
Subject: [PATCH 21/73] fix: reclassify maps float rasters with integer keys

---
 raster_tools/general.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index d6dd6c5..ee46d2b 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -1387,6 +1387,11 @@ def reclassify(raster, remapping, unmapped_to_null=False):
             masked = True
 
     mapping_from = np.array(list(remapping))
+    if is_float(raster.dtype):
+        # numba doesn't look floats up in mappings from integers
+        mapping_from = mapping_from.astype(
+            np.promote_types(mapping_from.dtype, raster.dtype)
+        )
     mapping_to = np.array(list(remapping.values())).astype(out_dtype)
     data = da.map_blocks(
         _reclassify_chunk,
-- 
2.43.0


From e50e148e3ffa47a2b4874d3e0200cda1b84ba60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:34 +0000
Subject: [PATCH 22/73] fix: remap_range handles null values of float16 rasters

---
 raster_tools/general.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index ee46d2b..2fe1e61 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -1107,12 +1107,15 @@ def remap_range(raster, mapping, inclusivity="left"):
             data = data.astype(F32)
     elif f16_workaround:
         data = data.astype(F32)
+    if f16_workaround:
+        new_values = new_values.astype(F32)
+    # Can't pass None object to numba code
+    null = 0 if nv is None else nv
     data = da.map_blocks(
         _remap_values,
         data,
         mask,
-        # Can't pass None object to numba code
-        null=0 if nv is None else nv,
+        null=F32.type(null) if f16_workaround else null,
         start_end_values=start_end_values,
         new_values=new_values,
         inclusivity=inc_map[inclusivity],
-- 
2.43.0


From ed35dce9a085109a87cac0c3c7dd295d05344140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:28 +0000
Subject: [PATCH 23/73] fix: mosaic sums do not lose partial sums equal to the
 null value

---
 raster_tools/_mosaic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raster_tools/_mosaic.py b/raster_tools/_mosaic.py
index c07eb40..7281429 100644
--- a/raster_tools/_mosaic.py
+++ b/raster_tools/_mosaic.py
@@ -132,7 +132,8 @@ def _paint_recursive(stacked_data, dst_nodata, mosaic_method):
     # Use recursion to greatly reduce dask's memory usage. 8 was found to be a
     # good cutoff.
     n = len(stacked_data)
-    if n < 8:
+    # Sums are done at once because a partial sum can be equal to nodata
+    if n < 8 or mosaic_method == "sum":
         return _paint(stacked_data, dst_nodata, mosaic_method)
 
     left = _paint_recursive(stacked_data[: n // 2], dst_nodata, mosaic_method)
-- 
2.43.0


From 1f868ca07477813e1fc8fa84a3031837b9e6bc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:29 +0000
Subject: [PATCH 24/73] fix: the intersection of grids that only touch is empty

---
 raster_tools/_grids.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raster_tools/_grids.py b/raster_tools/_grids.py
index 8e316f3..eb940d9 100644
--- a/raster_tools/_grids.py
+++ b/raster_tools/_grids.py
@@ -138,7 +138,8 @@ def combine_grids(grids, how=None, dst_crs=None, resolution=None):
         )
     else:
         bbox = shapely.intersection_all(bboxes_dst).normalize()
-        if bbox.is_empty:
+        # Grids that only touch have a line or point in common but no cells
+        if bbox.is_empty or bbox.area == 0:
             raise ValueError("The intersection of the given grids is empty")
         dst_grid = GeoBox.from_bbox(
             bbox.bounds, crs=dst_crs, resolution=resolution, tight=True
-- 
2.43.0


From 572868dcc04ba77b01144faea8ba17384916ea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:53 +0000
Subject: [PATCH 25/73] fix: where keeps integer scalars that do not fit the
 raster's type

---
 raster_tools/general.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 2fe1e61..fcae938 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -55,6 +55,7 @@ from raster_tools.masking import (
 )
 from raster_tools.raster import (
     Raster,
+    _fits_int,
     data_to_raster_like,
     data_to_xr_raster_ds_like,
     dataarray_to_xr_raster_ds,
@@ -1145,6 +1146,20 @@ def _get_where_nv(x, y):
         return x.null_value if x._masked else get_default_null_value(x.dtype)
 
 
+def _make_room_for(scalar, raster):
+    # An int scalar would be wrapped around to fit the raster's int type
+    if (
+        isinstance(raster, Raster)
+        and is_int(raster.dtype)
+        and is_int(scalar)
+        and not _fits_int(scalar, raster.dtype)
+    ):
+        return raster.astype(
+            np.promote_types(raster.dtype, np.min_scalar_type(scalar))
+        )
+    return raster
+
+
 def where(condition, true_rast, false_rast):
     """
     Return elements chosen from `true_rast` or `false_rast` depending on
@@ -1219,6 +1234,7 @@ def where(condition, true_rast, false_rast):
     masked |= any(a is None for a in args)
 
     x, y = args
+    x, y = _make_room_for(y, x), _make_room_for(x, y)
     cd = condition.xdata
     if is_int(condition.dtype):
         # if condition.dtype is not bool then must be an int raster so
-- 
2.43.0


From 9e23bf274ce22f14aa7dd189e9bb8efe4cbfd064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:53 +0000
Subject: [PATCH 26/73] fix: reclassify maps negative zeros like zeros

---
 raster_tools/general.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index fcae938..0ab2328 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -1292,9 +1292,11 @@ def _reclassify_chunk(
                     out[b, i, j] = null
                     continue
                 v = x[b, i, j]
-                reclass = v in mapping
+                # -0.0 is not found under 0.0
+                key = v if v != 0 else x.dtype.type(0)
+                reclass = key in mapping
                 if reclass:
-                    out[b, i, j] = mapping[v]
+                    out[b, i, j] = mapping[key]
                 elif unmapped_to_null:
                     out[b, i, j] = null
                 else:
-- 
2.43.0


From 45b5d2c9a36004e9f5033b0340ba8d0786b6ded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:20 +0000
Subject: [PATCH 27/73] fix: local_stats of rasters without a null value
 returns one band

---
 raster_tools/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 0ab2328..d6a0c6f 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -724,7 +724,7 @@ def local_stats(raster, stype):
             keepdims=True,
         )
     else:
-        xmask = xr.zeros_like(xmask, dtype=bool)
+        xmask = xr.zeros_like(xdata, dtype=bool)
 
     ds_out = dataarray_to_xr_raster_ds(xdata, xmask)
     if raster._masked:
-- 
2.43.0


From 7846794e8232b6adaa63b4368c668d965bd4ae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:20 +0000
Subject: [PATCH 28/73] fix: erosion of 64-bit integer rasters does not
 overflow at edges and nulls

---
 raster_tools/general.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index d6a0c6f..e1ee420 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -774,7 +774,13 @@ def _get_footprint(size):
 
 def _get_fill(dtype, op):
     type_info = np.iinfo(dtype) if is_int(dtype) else np.finfo(dtype)
-    return type_info.max if op == "erosion" else type_info.min
+    if op == "erosion":
+        if is_int(dtype) and dtype.itemsize == 8:
+            # scipy filters use doubles so the fill value has to be one that
+            # can be converted to a double and back
+            return int(np.nextafter(np.float64(type_info.max), 0))
+        return type_info.max
+    return type_info.min
 
 
 def _erosion_or_dilation_filter(raster, footprint, op):
-- 
2.43.0


From 6df2fc26c72e655e3ee72b672635a1e991a758e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:20 +0000
Subject: [PATCH 29/73] fix: dilate and erode do not give a null value to
 rasters without one

---
 raster_tools/general.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index e1ee420..1e8193a 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -824,7 +824,8 @@ def _erosion_or_dilation_filter(raster, footprint, op):
         mask = ~mask
         data = da.where(mask, raster.null_value, data)
     else:
-        mask = mask.copy()
+        # A mask would give the result a null value
+        mask = None
     ds_out = data_to_xr_raster_ds_like(
         data, raster.xdata, mask=mask, nv=raster.null_value
     )
-- 
2.43.0


From 8358fb83937bed177fc4afff48aaea0356eaab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:47 +0000
Subject: [PATCH 30/73] fix: surface measures of half precision rasters keep
 nulls out of neighbouring cells

---
 raster_tools/surface.py | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/raster_tools/surface.py b/raster_tools/surface.py
index 80ab109..a611de9 100644
--- a/raster_tools/surface.py
+++ b/raster_tools/surface.py
@@ -30,6 +30,15 @@ RADIANS_TO_DEGREES = 180 / np.pi
 DEGREES_TO_RADIANS = np.pi / 180
 
 
+def _get_surface_raster(raster):
+    raster = get_raster(raster)
+    if raster.dtype == np.dtype("float16"):
+        # numba does not understand f16. Cast before putting nans in the null
+        # cells because casting fills them with the null value.
+        raster = raster.astype(F32)
+    return get_raster(raster, null_to_nan=True)
+
+
 def _finalize(data, like):
     # Invalidate edges
     mask = like.mask.copy()
@@ -122,9 +131,7 @@ def surface_area_3d(raster):
     * `Jense, 2004 <https://www.fs.usda.gov/treesearch/pubs/20437>`_
 
     """
-    raster = get_raster(raster, null_to_nan=True)
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_surface_raster(raster)
     out_data = raster.data.map_overlap(
         _surface_area_3d,
         depth={0: 0, 1: 1, 2: 1},
@@ -190,9 +197,7 @@ def slope(raster, degrees=True):
     * `ESRI slope <https://pro.arcgis.com/en/pro-app/latest/tool-reference/3d-analyst/how-slope-works.htm>`_
 
     """  # noqa: E501
-    raster = get_raster(raster, null_to_nan=True)
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_surface_raster(raster)
     # Leave resolution sign as is
     out_data = raster.data.map_overlap(
         _slope,
@@ -264,9 +269,7 @@ def aspect(raster):
     * `ESRI aspect <https://pro.arcgis.com/en/pro-app/latest/tool-reference/3d-analyst/how-aspect-works.htm>`_
 
     """  # noqa: E501
-    raster = get_raster(raster, null_to_nan=True)
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_surface_raster(raster)
     out_data = raster.data.map_overlap(
         _aspect,
         depth={0: 0, 1: 1, 2: 1},
@@ -323,9 +326,7 @@ def curvature(raster):
     * `ESRI curvature <https://pro.arcgis.com/en/pro-app/latest/tool-reference/3d-analyst/how-curvature-works.htm>`_
 
     """  # noqa: E501
-    raster = get_raster(raster, null_to_nan=True)
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_surface_raster(raster)
     out_data = raster.data.map_overlap(
         _curv,
         depth={0: 0, 1: 1, 2: 1},
@@ -371,9 +372,7 @@ def northing(raster, is_aspect=False):
     """
     if not is_aspect:
         raster = aspect(raster)
-    raster = get_raster(raster, null_to_nan=True).copy()
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_surface_raster(raster).copy()
     return _northing_easting(raster, True)
 
 
@@ -400,9 +399,7 @@ def easting(raster, is_aspect=False):
     if not is_aspect:
         raster = aspect(raster)
 
-    raster = get_raster(raster, null_to_nan=True).copy()
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_surface_raster(raster).copy()
     return _northing_easting(raster, False)
 
 
@@ -479,9 +476,7 @@ def hillshade(raster, azimuth=315, altitude=45):
     * `ESRI hillshade <https://pro.arcgis.com/en/pro-app/latest/tool-reference/spatial-analyst/how-hillshade-works.htm>`_
 
     """  # noqa: E501
-    raster = get_raster(raster, null_to_nan=True)
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_surface_raster(raster)
     # Specifically leave resolution sign as is
     out_data = raster.data.map_overlap(
         _hillshade,
-- 
2.43.0


From b0e30ffa07570247d341d73ebea8505ea830108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 31/73] fix: chunks one cell wide or high know their cell size
 and bounds

---
 raster_tools/raster.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 4683cf3..3603363 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -2899,6 +2899,7 @@ class Raster(_RasterBase):
 
         """  # noqa: E501
         _, ychunks, xchunks = self.data.chunks
+        affine = self.affine
         i = 0
         j = 0
         chunk_boxes = []
@@ -2906,12 +2907,12 @@ class Raster(_RasterBase):
         cols = []
         for row, yc in enumerate(ychunks):
             for col, xc in enumerate(xchunks):
-                y = self.y[i : i + yc]
-                x = self.x[j : j + xc]
+                # Not derived from the chunk's own coordinates since these don't
+                # give the cell size when the chunk is one cell wide or high.
+                bounds = rio.transform.array_bounds(
+                    yc, xc, affine * Affine.translation(j, i)
+                )
                 j += xc
-                bounds = xr.DataArray(
-                    da.empty((yc, xc)), dims=("y", "x"), coords=(y, x)
-                ).rio.bounds()
                 chunk_boxes.append(box(*bounds))
                 rows.append(row)
                 cols.append(col)
@@ -2956,6 +2957,10 @@ class Raster(_RasterBase):
 
         """
         bchunks, ychunks, xchunks = self.data.chunks
+        try:
+            affine = self.affine
+        except rxr.exceptions.OneDimensionalRaster:
+            affine = None
         b = 0
         y = 0
         x = 0
@@ -2972,6 +2977,12 @@ class Raster(_RasterBase):
                         .copy()
                         .assign_coords(band=[1])
                     )
+                    if affine is not None:
+                        # The coordinates alone don't give the cell size when
+                        # the chunk is one cell wide or high.
+                        ds = ds.rio.write_transform(
+                            affine * Affine.translation(x, y)
+                        )
                     rs = Raster(ds, _fast_path=True)
                     out[band, row, col] = rs
                     x += xc
-- 
2.43.0


From d4bce1c768ed93de0bdec4c8f690740bec62e64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 32/73] fix: the length of a vector is the number of its
 features for any index

---
 raster_tools/vector.py | 80 +++++-------------------------------------
 1 file changed, 9 insertions(+), 71 deletions(-)

diff --git a/raster_tools/vector.py b/raster_tools/vector.py
index bf5fff2..74cf090 100644
--- a/raster_tools/vector.py
+++ b/raster_tools/vector.py
@@ -288,57 +288,6 @@ def add_objectid_column(features, name=None, _base=_OBJECTID_BASE):
     return df_new
 
 
-def _get_len_from_divisions(divs):
-    # This should never overcount but may undercount by 1 because
-    # dask.dataframe special cases the last division when creating a dataframe.
-    #
-    # NOTE: Dask dataframes have a divisions property. This is a tuple of
-    # locations along the index where partitions start and stop. It looks like
-    # this: (0, 10, 20, 29) for a dataframe with 3 divisions and 30 elements.
-    # The first element is the start of the first partition and is inclusive.
-    # The next is the exclusive end of the first partition and the inclusive
-    # start of the second partition. This continues until the last partition
-    # where a monkey wrench is thrown in. The last division in the tuple is
-    # inclusive but dask treats it like every other division, which makes
-    # things less clear and potentially makes the size of the dataframe
-    # inexact. Because partitions can be merged etc., there is no way to tell
-    # if the last partition in a dataframe you have been given is actually the
-    # original last partition. Dask also does not make an effort to keep track
-    # of the total length. The best way I have found to get the length without
-    # computing it, is to go by the divisions. Because of the special case and
-    # the inability to differentiate it from other partitions, this func may
-    # undercount by 1. It will give the exact value only if the original last
-    # partition is no longer part of given dataframe. It is safer to undercount
-    # than overcount however.
-    n = 0
-    for i in range(len(divs) - 1):
-        left = divs[i]
-        right = divs[i + 1]
-        n += right - left
-    return n
-
-
-def _guess_geo_len(geo):
-    if not dask.is_dask_collection(geo):
-        return len(geo)
-
-    if geo.known_divisions:
-        return _get_len_from_divisions(geo.divisions)
-    raise ValueError("Divisions must be set.")
-
-
-def _get_best_effort_geo_len(geo):
-    if not dask.is_dask_collection(geo) or geo.npartitions == 1:
-        return len(geo)
-
-    n = _guess_geo_len(geo.partitions[:-1])
-    # Evaluate the last partition to get its exact size. Hopefully this is the
-    # special-cased partition. If it isn't, this will undercount by 1. See
-    # the note in _get_len_from_divisions.
-    n += len(geo.partitions[-1])
-    return n
-
-
 def _normalize_geo_data(geo):
     if not _is_series(geo) and not _is_frame(geo):
         raise TypeError(
@@ -373,9 +322,8 @@ class Vector:
             The vector data to use. This can be a geopandas or dask_geopandas
             object.
         size : int, optional
-            The number of features. If not provided, A best effort will be made
-            to determine the number of features. Part of the data may be
-            temporarily loaded.
+            The number of features. If not provided, the features are counted
+            when the number is needed.
 
         """
         geo = _normalize_geo_data(geo)
@@ -385,25 +333,15 @@ class Vector:
             self._geo = geo
         else:
             self._geo = geo
-            # NOTE: self._size is not data-dependant so when adding features
-            # that can affect length, care must be taken to properly update
-            # _size.
-            if size is None:
-                self._size = _get_best_effort_geo_len(geo)
-            else:
-                if not is_int(size):
-                    raise TypeError("Size must be an int.")
-
-                # The guess will underestimate by 1 in most cases
-                size_guess = _guess_geo_len(geo)
-                if size == size_guess or size == (size_guess + 1):
-                    self._size = size
-                else:
-                    raise ValueError(
-                        "Given size does not match divisions in data"
-                    )
+            if size is not None and not is_int(size):
+                raise TypeError("Size must be an int.")
+            # NOTE: The divisions of the data are index values. They don't give
+            # the number of features. If unknown, it is found when needed.
+            self._size = size
 
     def __len__(self):
+        if self._size is None:
+            self._size = len(self._geo)
         return self._size
 
     def __repr__(self):
-- 
2.43.0


From 7a17fa86eceed265aeb2727b8d155dd14d1cb84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 33/73] fix: zonal statistics of a chunked zone raster over
 several bands

---
 raster_tools/zonal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raster_tools/zonal.py b/raster_tools/zonal.py
index 4bf08fb..0f69025 100644
--- a/raster_tools/zonal.py
+++ b/raster_tools/zonal.py
@@ -231,7 +231,9 @@ def _zonal_stats(features_raster, data_raster, stats):
     ]
     if features_raster.data.chunks[1:] != data_raster.data.chunks[1:]:
         # Force rasters to have matching chunksizes
-        features_raster = features_raster.chunk(data_raster.data.chunks)
+        features_raster = features_raster.chunk(
+            (1, *data_raster.data.chunks[1:])
+        )
     # Convert the features raster and data raster bands to dataframes and join
     # them together. Each cell becomes a row and each chunk becomes a
     # partition. The order is the same and the chunk boundaries are the same so
-- 
2.43.0


From bedace44ac9d3d6bff778f068c76f06a691d8905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 34/73] fix: feature masks are of the data type they declare

---
 raster_tools/rasterize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raster_tools/rasterize.py b/raster_tools/rasterize.py
index 7c763c4..d1e8192 100644
--- a/raster_tools/rasterize.py
+++ b/raster_tools/rasterize.py
@@ -67,6 +67,7 @@ def _rio_mask(geoms, shape, transform, all_touched, invert):
         transform=transform,
         all_touched=all_touched,
         default_value=geom_value,
+        dtype=U8,
     )
 
 
-- 
2.43.0


From dffa80216a240904acda9637831c76f1a1e515cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 35/73] fix: polygons touching a chunk's edge are not burned
 into the chunk

---
 raster_tools/rasterize.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/raster_tools/rasterize.py b/raster_tools/rasterize.py
index d1e8192..da74884 100644
--- a/raster_tools/rasterize.py
+++ b/raster_tools/rasterize.py
@@ -103,15 +103,11 @@ def _rasterize_onto_chunk(
     geoms_bbox = shapely.geometry.box(*gdf.total_bounds)
     if not shapely.intersects(chunk_bbox, geoms_bbox):
         return np.full(shape_2d, fill, dtype=out_dtype)
-    # The clip call shuffles the dataframe. Add column that can be used to
-    # return the dataframe to the original order after clipping.
-    # ref: https://github.com/geopandas/geopandas/issues/2937
-    gdf["idx"] = np.arange(len(gdf))
-    gdf = gdf.clip(chunk_bbox)
-    gdf = gdf.sort_values(by=["idx"])
+    # Features aren't cut at the chunk's edges. A feature that only touches an
+    # edge would be turned into a line or point, which would get burned in.
+    gdf = gdf[gdf.intersects(chunk_bbox)]
     if not len(gdf):
         return np.full(shape_2d, fill, dtype=out_dtype)
-    gdf = gdf.drop(labels="idx", axis=1)
 
     # Sort the dataframe to match the specified overlap resolution method.
     # rasterio's raesterize function replaces cells with overlapping features
@@ -165,7 +161,7 @@ def _mask_onto_chunk(
     geoms_bbox = shapely.geometry.box(*gdf.total_bounds)
     if not shapely.intersects(chunk_bbox, geoms_bbox):
         return np.full(shape_2d, fill, dtype="uint8")
-    gdf = gdf.clip(chunk_bbox)
+    gdf = gdf[gdf.intersects(chunk_bbox)]
     if not len(gdf):
         return np.full(shape_2d, fill, dtype="uint8")
 
-- 
2.43.0


From fe6c6fac97a93aaee4811f585231b93f3dc2c786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 36/73] fix: feature masks with empty geometries

---
 raster_tools/rasterize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raster_tools/rasterize.py b/raster_tools/rasterize.py
index da74884..e76e53c 100644
--- a/raster_tools/rasterize.py
+++ b/raster_tools/rasterize.py
@@ -154,6 +154,10 @@ def _mask_onto_chunk(
     """
     fill = 1 if invert else 0
     shape_2d = block_info[None]["chunk-shape"]
+    valid = ~(gdf.geometry.is_empty | gdf.geometry.isna())
+    gdf = gdf[valid]
+    if len(gdf) == 0:
+        return np.full(shape_2d, fill, dtype="uint8")
     # Trim anything outside the chunk
     chunk_bbox = shapely.geometry.box(
         *rio.transform.array_bounds(*shape_2d, transform)
-- 
2.43.0


From b629154ded86dd7316a8b67958fab8699021647f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 37/73] fix: overlaps between partitions resolve NaN values and
 NaN fill like those within one

---
 raster_tools/rasterize.py | 87 +++++++++++++++++++--------------------
 1 file changed, 43 insertions(+), 44 deletions(-)

diff --git a/raster_tools/rasterize.py b/raster_tools/rasterize.py
index e76e53c..65e47e7 100644
--- a/raster_tools/rasterize.py
+++ b/raster_tools/rasterize.py
@@ -175,69 +175,68 @@ def _mask_onto_chunk(
 
 
 @nb.jit(nopython=True, nogil=True)
-def _resolve_first(x, fill):
-    # Take first valid values along band dimension
-    out = np.where(x[-2] == fill, x[-1], x[-2])
-    return np.expand_dims(out, 0)
+def _is_fill(value, fill):
+    # NaN can be used as the fill value
+    return value == fill or (value != value and fill != fill)
 
 
 @nb.jit(nopython=True, nogil=True)
-def _resolve_last(x, fill):
-    # Take last valid values along band dimension
-    out = np.where(x[-1] == fill, x[-2], x[-1])
-    return np.expand_dims(out, 0)
-
-
-@nb.jit(nopython=True, nogil=True)
-def _all_axis0(x):
-    # Compute all along first axis
-    out = np.empty((1, x.shape[1], x.shape[2]), dtype=np.bool_)
-    nr, nc = x.shape[1:]
+def _resolve_first(x, fill):
+    # Take first valid values along band dimension
+    out = np.full((1, *x.shape[1:]), fill, dtype=x.dtype)
+    nb, nr, nc = x.shape
     for r in range(nr):
         for c in range(nc):
-            out[0, r, c] = np.all(x[:, r, c])
+            for b in range(nb):
+                if not _is_fill(x[b, r, c], fill):
+                    out[0, r, c] = x[b, r, c]
+                    break
     return out
 
 
 @nb.jit(nopython=True, nogil=True)
-def _min_axis0(x):
-    # Compute min along first axis
-    out = np.empty((1, x.shape[1], x.shape[2]), dtype=x.dtype)
-    nr, nc = x.shape[1:]
-    for r in range(nr):
-        for c in range(nc):
-            out[0, r, c] = np.min(x[:, r, c])
-    return out
+def _resolve_last(x, fill):
+    # Take last valid values along band dimension
+    return _resolve_first(x[::-1], fill)
 
 
 @nb.jit(nopython=True, nogil=True)
-def _max_axis0(x):
-    # Compute max along first axis
-    out = np.empty((1, x.shape[1], x.shape[2]), dtype=x.dtype)
-    nr, nc = x.shape[1:]
+def _resolve_min(x, fill):
+    # Take min values along band dimension. Nan values are only used when there
+    # is nothing else.
+    out = np.full((1, *x.shape[1:]), fill, dtype=x.dtype)
+    nb, nr, nc = x.shape
     for r in range(nr):
         for c in range(nc):
-            out[0, r, c] = np.max(x[:, r, c])
-    return out
-
-
-@nb.jit(nopython=True, nogil=True)
-def _resolve_min(x, fill):
-    # Take min values along band dimension
-    mask = x == fill
-    out = np.where(mask, np.nanmax(x), x)
-    out = _min_axis0(out)
-    out = np.where(_all_axis0(mask), fill, out)
+            found = False
+            for b in range(nb):
+                v = x[b, r, c]
+                if _is_fill(v, fill):
+                    continue
+                best = out[0, r, c]
+                if not found or best != best or v < best:
+                    out[0, r, c] = v
+                    found = True
     return out
 
 
 @nb.jit(nopython=True, nogil=True)
 def _resolve_max(x, fill):
-    # Take max values along band dimension
-    mask = x == fill
-    out = np.where(mask, np.nanmin(x), x)
-    out = _max_axis0(out)
-    out = np.where(_all_axis0(mask), fill, out)
+    # Take max values along band dimension. Nan values are only used when there
+    # is nothing else.
+    out = np.full((1, *x.shape[1:]), fill, dtype=x.dtype)
+    nb, nr, nc = x.shape
+    for r in range(nr):
+        for c in range(nc):
+            found = False
+            for b in range(nb):
+                v = x[b, r, c]
+                if _is_fill(v, fill):
+                    continue
+                best = out[0, r, c]
+                if not found or best != best or v > best:
+                    out[0, r, c] = v
+                    found = True
     return out
 
 
-- 
2.43.0


From ac6b8517a6f46c4f7b877217e4a70ab96ec230c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 38/73] fix: an elevation of -9999 is valid and NaN elevations
 are not passable

Null elevations were marked with -9999, so a valid cell of that elevation could
not be entered, and a NaN or infinite elevation gave NaN accumulated costs.
---
 raster_tools/distance/cost_distance.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/raster_tools/distance/cost_distance.py b/raster_tools/distance/cost_distance.py
index 857a667..d5f2ca3 100644
--- a/raster_tools/distance/cost_distance.py
+++ b/raster_tools/distance/cost_distance.py
@@ -218,7 +218,10 @@ def _cost_distance_analysis_core(
         cost = flat_costs[index]
         if cost < 0 or cost == np.inf or np.isnan(cost):
             continue
-        if use_elevation and flat_elev[index] == elevation_null_value:
+        if use_elevation and (
+            flat_elev[index] == elevation_null_value
+            or not np.isfinite(flat_elev[index])
+        ):
             continue
 
         # Convert to 2d index for bounds checking
@@ -262,7 +265,7 @@ def _cost_distance_analysis_core(
             if use_elevation:
                 ev = flat_elev[index]
                 new_ev = flat_elev[new_index]
-                if new_ev == elevation_null_value:
+                if new_ev == elevation_null_value or not np.isfinite(new_ev):
                     continue
                 dz = new_ev - ev
                 move_length = np.sqrt(move_length + (dz * dz))
@@ -615,7 +618,8 @@ def cost_distance_analysis(costs, sources, elevation=None, connectivity=8):
 
     data = _normalize_raster_data(costs)
     if elevation is not None:
-        elevation_null_value = -9999
+        # NaN cannot be confused with a valid elevation
+        elevation_null_value = np.nan
         edata = _normalize_raster_data(elevation, elevation_null_value)
     else:
         edata = None
-- 
2.43.0


From 3962fb3a909bd26368629859e6353d52ae2f59a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 39/73] fix: sources on negative or non-finite costs are null
 like other barriers

Negative costs are documented to be treated as null, but a source placed on one
kept a cost distance of 0, its traceback and its allocation.
---
 raster_tools/distance/cost_distance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raster_tools/distance/cost_distance.py b/raster_tools/distance/cost_distance.py
index d5f2ca3..fce983d 100644
--- a/raster_tools/distance/cost_distance.py
+++ b/raster_tools/distance/cost_distance.py
@@ -653,7 +653,9 @@ def cost_distance_analysis(costs, sources, elevation=None, connectivity=8):
         # The outputs need a null value to represent unreachable cells even
         # when the costs raster has none set.
         nv = get_default_null_value(F64)
-    mask = costs.mask | ~da.isfinite(cd)
+    # Sources on negative or non-finite costs are null as well.
+    barrier = (costs.data < 0) | ~da.isfinite(costs.data)
+    mask = costs.mask | barrier | ~da.isfinite(cd)
     cd = da.where(mask, nv, cd)
     tr = da.where(mask, _TRACEBACK_NOT_REACHED, tr).astype(I8)
     al = da.where(mask, sources_null_value, al).astype(I64)
-- 
2.43.0


From deae247867158358fa39655bd23d36e5c2225bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:18 +0000
Subject: [PATCH 40/73] fix: padding around integer rasters is not a proximity
 target

With a max distance, unmasked integer rasters were padded with NaN, which
becomes a non-zero integer that was taken for a target.
---
 raster_tools/distance/proximity.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/raster_tools/distance/proximity.py b/raster_tools/distance/proximity.py
index 215fa09..5e4a9ad 100644
--- a/raster_tools/distance/proximity.py
+++ b/raster_tools/distance/proximity.py
@@ -450,8 +450,8 @@ def _get_coords_for_chunk(xc, yc, coords_block_info, block_info):
     ydepth, xdepth = coords_block_info["depth"]
     xc = da.from_array(xc, chunks=xchunks)
     yc = da.from_array(yc, chunks=ychunks)
-    xc = da.overlap.overlap(xc, depth=xdepth, boundary=0)
-    yc = da.overlap.overlap(yc, depth=ydepth, boundary=0)
+    xc = da.overlap.overlap(xc, depth=xdepth, boundary="none")
+    yc = da.overlap.overlap(yc, depth=ydepth, boundary="none")
     xc = xc.blocks[chunk_loc[1]].compute()
     yc = yc.blocks[chunk_loc[0]].compute()
     return xc, yc
@@ -605,7 +605,8 @@ def _proximity_analysis(
         _proximity_analysis_chunk,
         raster.data,
         depth=(0, ydepth, xdepth),
-        boundary=np.nan,
+        # Padding cells would become targets in integer rasters
+        boundary="none",
         meta=np.array((), dtype=out_dtype),
         # func args
         target_values=target_values,
-- 
2.43.0


From 81b0e5ac0e8282c781f111f9bb709b2037aa4ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:18 +0000
Subject: [PATCH 41/73] fix: max distances longer than one side of the raster
 are supported

The overlap was deeper than the raster, which raised an error.
---
 raster_tools/distance/proximity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster_tools/distance/proximity.py b/raster_tools/distance/proximity.py
index 5e4a9ad..471cbff 100644
--- a/raster_tools/distance/proximity.py
+++ b/raster_tools/distance/proximity.py
@@ -585,6 +585,9 @@ def _proximity_analysis(
             # underestimate the depth.
             resolution = _estimate_min_resolution(x, y)
         xdepth, ydepth = np.ceil(max_distance / np.abs(resolution)).astype(int)
+        # The overlap cannot reach farther than the raster
+        _, ny, nx = raster.shape
+        xdepth, ydepth = min(xdepth, nx), min(ydepth, ny)
     coords_block_info = {
         "chunks": raster.data.chunks[1:],
         "depth": (ydepth, xdepth),
-- 
2.43.0


From 7de6d9a646caf7f027fb4a75440a101ac5624ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 42/73] fix: regions labels cells of a repeated unique value
 once

The labels of a value listed twice were added up, which could give regions of
different values the same label.
---
 raster_tools/general.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 1e8193a..9c81a7b 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -157,6 +157,9 @@ def regions(raster, neighbors=4, unique_values=None):
     if unique_values is not None:
         if isinstance(unique_values, (np.ndarray, da.Array, Sequence)):
             unique_values = np.asarray(unique_values)
+            # Cells of a repeated value would be labeled more than once
+            _, first = np.unique(unique_values, return_index=True)
+            unique_values = unique_values[np.sort(first)]
         else:
             raise TypeError("Invalid type for unique_values parameter")
 
-- 
2.43.0


From 61c94fd9f56aafcc20215fe40d01498376294618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 43/73] fix: y coordinates of another type than an array are
 refused like x coordinates

---
 raster_tools/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 3603363..9912de0 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -749,7 +749,7 @@ def data_to_xr_raster(data, x=None, y=None, affine=None, crs=None, nv=None):
             y = np.arange(data.shape[1])[::-1] + 0.5
         elif any(xi is None for xi in (x, y)):
             raise ValueError("Must specify both x and y or neither.")
-        if not isinstance(x, np.ndarray) or not isinstance(x, np.ndarray):
+        if not isinstance(x, np.ndarray) or not isinstance(y, np.ndarray):
             raise TypeError("x and y must be numpy arrays")
         x = x.ravel()
         y = y.ravel()
-- 
2.43.0


From baae223a100d102f4d7673e7e2d61b9ba4dff143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 44/73] fix: lazy datasets in another layout are normalised
 when wrapped

---
 raster_tools/raster.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 9912de0..98b6053 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -1223,6 +1223,18 @@ def _dataarray_input_to_raster_ds(xdata):
     return dataarray_to_xr_raster_ds(xdata, xmask=xmask, crs=crs)
 
 
+def _has_canonical_layout(xdata):
+    """Bands are numbered from 1, chunked one by one, and x increases and y
+    decreases."""
+    return (
+        all(dim in xdata.coords for dim in xdata.dims)
+        and np.array_equal(xdata.band, np.arange(1, len(xdata.band) + 1))
+        and xdata.data.chunksize[0] == 1
+        and not is_strictly_decreasing(xdata.x)
+        and not is_strictly_increasing(xdata.y)
+    )
+
+
 def _dataset_to_raster_ds(ds_in):
     if (
         dask.is_dask_collection(ds_in)
@@ -1234,6 +1246,7 @@ def _dataset_to_raster_ds(ds_in):
         and ds_in.mask.dims == ("band", "y", "x")
         and ds_in.raster.chunks == ds_in.mask.chunks
         and ds_in.raster.rio.crs == ds_in.mask.rio.crs
+        and _has_canonical_layout(ds_in.raster)
     ):
         return ds_in
 
-- 
2.43.0


From 137a4f655d959ff258f14b48fd3ff1e52705c807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 45/73] fix: null values of uint64 rasters survive saving as
 GeoTIFF

---
 raster_tools/io.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/raster_tools/io.py b/raster_tools/io.py
index 6a29ded..46868aa 100644
--- a/raster_tools/io.py
+++ b/raster_tools/io.py
@@ -10,7 +10,16 @@ import xarray as xr
 from affine import Affine
 from dask.array.core import normalize_chunks as dask_chunks
 
-from raster_tools.dtypes import F32, F64, I64, U8, is_bool, is_float, is_int
+from raster_tools.dtypes import (
+    F32,
+    F64,
+    I64,
+    U8,
+    U64,
+    is_bool,
+    is_float,
+    is_int,
+)
 from raster_tools.exceptions import (
     AffineEncodingError,
     DimensionsError,
@@ -401,6 +410,23 @@ def write_raster(
                 stacklevel=2,
             )
             xrs = xrs.astype(F64)
+    elif (
+        xrs.dtype == U64
+        and resolved_driver in _DRIVERS_WITH_INT64
+        and xrs.rio.nodata is not None
+        and xrs.rio.nodata > 2**53
+    ):
+        # The same limit of GDAL's nodata field as for int64.
+        warnings.warn(
+            "The uint64 null value cannot be represented in a GeoTIFF nodata"
+            " field; the array will be written as float64 to preserve the"
+            " null mask. Values above 2**53 may lose precision, and the file"
+            " will read back as float64 (cast it back with"
+            " .astype('uint64') after loading if needed).",
+            UserWarning,
+            stacklevel=2,
+        )
+        xrs = xrs.astype(F64)
     elif is_bool(xrs.dtype):
         # GDAL doesn't support bool; encode as uint8.
         rio_is_bool = True
-- 
2.43.0


From 8ee995fa8880bc88b5e1dbb5e3dc98132e2cdf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 46/73] fix: tiles of several bands are saved with the raster's
 null value and grid

---
 raster_tools/raster.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 98b6053..4f59d78 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -1836,17 +1836,24 @@ class Raster(_RasterBase):
                 out[b, r, c] = chunk_rasters[b, r, c].save(path, **save_kwargs)
             return out
 
-        from raster_tools._stack import stack_bands
-
+        _, ychunks, xchunks = self.data.chunks
+        y_ends = np.cumsum(ychunks)
+        x_ends = np.cumsum(xchunks)
         out = np.empty((ny, nx), dtype=object)
         for r, c in np.ndindex(ny, nx):
             path = f"{prefix}_{r:0{rw}d}_{c:0{cw}d}{ext}"
-            tile_chunks = chunk_rasters[:, r, c]
-            tile = (
-                tile_chunks[0]
-                if nbands == 1
-                else stack_bands(list(tile_chunks))
-            )
+            if nbands == 1:
+                tile = chunk_rasters[0, r, c]
+            else:
+                # All bands of the chunk, on the same grid as its first band
+                ds = self._ds.isel(
+                    y=slice(y_ends[r] - ychunks[r], y_ends[r]),
+                    x=slice(x_ends[c] - xchunks[c], x_ends[c]),
+                ).copy()
+                ds = ds.rio.write_transform(
+                    chunk_rasters[0, r, c].xdata.rio.transform()
+                )
+                tile = Raster(ds, _fast_path=True)
             out[r, c] = tile.save(path, **save_kwargs)
         return out
 
-- 
2.43.0


From 4bf6570e0f8c9d2f3210f3cfbac4a83eb9244bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 47/73] fix: one-row rasters can be split into chunk rasters

---
 raster_tools/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 4f59d78..989d60b 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -2979,7 +2979,7 @@ class Raster(_RasterBase):
         bchunks, ychunks, xchunks = self.data.chunks
         try:
             affine = self.affine
-        except rxr.exceptions.OneDimensionalRaster:
+        except xrio.exceptions.OneDimensionalRaster:
             affine = None
         b = 0
         y = 0
-- 
2.43.0


From c39b8811dde7995d232633a352dc9ca03883874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 48/73] fix: rasters one cell wide or high keep their cell size
 through operations

---
 raster_tools/general.py |  2 ++
 raster_tools/raster.py  | 25 +++++++++++++++++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 9c81a7b..176820d 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -56,6 +56,7 @@ from raster_tools.masking import (
 from raster_tools.raster import (
     Raster,
     _fits_int,
+    _keep_transform,
     data_to_raster_like,
     data_to_xr_raster_ds_like,
     dataarray_to_xr_raster_ds,
@@ -1285,6 +1286,7 @@ def where(condition, true_rast, false_rast):
     ds = dataarray_to_xr_raster_ds(data, mask)
     if out_crs is not None:
         ds = ds.rio.write_crs(out_crs)
+    ds = _keep_transform(ds, condition.xdata)
     return Raster(ds, _fast_path=True)
 
 
diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 989d60b..ff1df49 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -189,6 +189,19 @@ def _normalize_ufunc_other(other, this):
     return other
 
 
+def _keep_transform(xobj, like):
+    """Write the transform of `like` to `xobj` if it is one cell wide or high.
+
+    Coordinates alone do not give the cell size along a dim of length one.
+    """
+    if 1 in like.shape[-2:]:
+        try:
+            xobj = xobj.rio.write_transform(like.rio.transform())
+        except xrio.exceptions.OneDimensionalRaster:
+            pass
+    return xobj
+
+
 def _apply_ufunc(ufunc, this, left, right=None, kwargs=None, out=None):
     ufname = ufunc.__name__
     if NUMPY_GE_2:
@@ -261,6 +274,10 @@ def _apply_ufunc(ufunc, this, left, right=None, kwargs=None, out=None):
             ds_out = [x.rio.write_crs(out_crs) for x in ds_out]
         else:
             ds_out = ds_out.rio.write_crs(out_crs)
+    if multi_out:
+        ds_out = [_keep_transform(x, this.xdata) for x in ds_out]
+    else:
+        ds_out = _keep_transform(ds_out, this.xdata)
 
     if out is not None:
         # "Inplace"
@@ -810,13 +827,14 @@ def data_to_xr_raster_like(
 
     if data.shape[0] == 1 and match_band_dim:
         data = da.stack([data[0] for i in range(xlike.shape[0])], axis=0)
-    return data_to_xr_raster(
+    xdata = data_to_xr_raster(
         data,
         x=xlike.x.to_numpy(),
         y=xlike.y.to_numpy(),
         crs=xlike.rio.crs,
         nv=nv,
     )
+    return _keep_transform(xdata, xlike)
 
 
 def make_raster_ds(raster_dataarray, mask_dataarray):
@@ -939,7 +957,7 @@ def data_to_xr_raster_ds_like(
         mask = normalize_data(mask, yx_chunks=yx_chunks)
         if mask.shape != data.shape:
             raise ValueError("data and mask dimensions do not match")
-    return data_to_xr_raster_ds(
+    ds = data_to_xr_raster_ds(
         data,
         mask=mask,
         x=xlike.x.to_numpy(),
@@ -948,6 +966,7 @@ def data_to_xr_raster_ds_like(
         nv=nv,
         burn=burn,
     )
+    return _keep_transform(ds, xlike)
 
 
 def data_to_raster(
@@ -1968,6 +1987,7 @@ class Raster(_RasterBase):
         ds = make_raster_ds(xrs_casted, mask)
         if self.crs is not None:
             ds = ds.rio.write_crs(self.crs)
+        ds = _keep_transform(ds, xrs)
         return Raster(ds, _fast_path=True)
 
     def get_bands(self, bands):
@@ -2523,6 +2543,7 @@ class Raster(_RasterBase):
         ds = make_raster_ds(rast, self._ds.mask)
         if self.crs is not None:
             ds = ds.rio.write_crs(self.crs)
+        ds = _keep_transform(ds, self._ds.raster)
         return Raster(ds, _fast_path=True)
 
     def pad(self, target, *, fill_values=None):
-- 
2.43.0


From 142400623995b43589b7cadb58bcb72950d2f4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 49/73] fix: batch script errors name the line for any
 malformed line or argument

---
 raster_tools/batch.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/raster_tools/batch.py b/raster_tools/batch.py
index 9d2eb22..16cbc4c 100644
--- a/raster_tools/batch.py
+++ b/raster_tools/batch.py
@@ -238,9 +238,13 @@ def parse_batch_script(path):
         line, *_ = _split_strip(line, "#")
         if not line:
             continue
-        lh, rh = _split_strip(line, "=")
+        lh, sep, rh = (part.strip() for part in line.partition("="))
+        if not sep or not lh:
+            _batch_error("Expected 'name = FUNCTION(args)'", i + 1)
         state.rasters[lh] = _parse_raster(state, lh, rh, i + 1)
         last_raster = lh
+    if last_raster is None:
+        _batch_error("No rasters are defined in the script", len(lines))
     state.final_raster = state.rasters[last_raster]
     return state
 
@@ -253,4 +257,12 @@ def _parse_raster(state, dst, expr, line_no):
     args = mat["args"]
     if func not in _FUNC_TO_PARSER:
         _batch_error(f"Unknown function {repr(func)}", line_no)
-    return _FUNC_TO_PARSER[func](state, args, line_no)
+    try:
+        return _FUNC_TO_PARSER[func](state, args, line_no)
+    except BatchScriptParseError:
+        raise
+    except Exception as err:
+        # Missing arguments, numbers that can't be parsed, missing files, ...
+        raise BatchScriptParseError(
+            f"Script Line {line_no}: {func} Error: {err!r}"
+        ) from err
-- 
2.43.0


From 6ac7d40249952d8a3b0873ebc80b6f648c10f805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 50/73] fix: batch SETNULL refuses ranges without exactly two
 bounds

---
 raster_tools/batch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raster_tools/batch.py b/raster_tools/batch.py
index 16cbc4c..eee1012 100644
--- a/raster_tools/batch.py
+++ b/raster_tools/batch.py
@@ -206,6 +206,8 @@ def _batch_parse_set_null(state, args_str, line_no):
     ranges = []
     try:
         for sr in sranges:
+            if len(sr) != 2:
+                raise ValueError("A range has two bounds")
             lh = _parse_user_number(sr[0])
             rh = _parse_user_number(sr[1])
             ranges.append((lh, rh, None))
-- 
2.43.0


From 78b22986c4b07f613d22a70c78723ae5fc27d9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 51/73] fix: batch OPENRASTER ignores blanks around its
 argument like the other functions

---
 raster_tools/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/batch.py b/raster_tools/batch.py
index eee1012..9262606 100644
--- a/raster_tools/batch.py
+++ b/raster_tools/batch.py
@@ -156,7 +156,7 @@ def _batch_parse_composite(state, args_str, line_no):
 
 def _batch_parse_open(state, args_str, line_no):
     try:
-        return state.get_raster(args_str)
+        return state.get_raster(args_str.strip())
     except Exception as e:
         _batch_error(f"Error while opening raster: {repr(e)}", line_no)
 
-- 
2.43.0


From 8b3b28a6947fab8f06e0a836e0b3c816a5310b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 52/73] fix: model predictions have the float64 type that is
 announced

---
 raster_tools/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 176820d..ef720c1 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -419,7 +419,7 @@ def _pred_raster(xarr, model, nbands):
     pred = model.predict(np.nan_to_num(vl_arr))
     if pred.ndim == 1:
         pred = np.expand_dims(pred, 1)
-    return np.moveaxis(pred, -1, 0).reshape(nbands, y, x)
+    return np.moveaxis(pred, -1, 0).reshape(nbands, y, x).astype(F64)
 
 
 def model_predict_raster(raster, model, n_outputs=1):
-- 
2.43.0


From 45a9d7ad6f10a118f21438a2f0cebb03de1796ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 53/73] fix: partitions without a complete row are predicted as
 missing

---
 raster_tools/general.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index ef720c1..8994d4e 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -499,12 +499,13 @@ def _pred_df(df, model, columns, n_outputs, prefix):
     x = df[columns].to_numpy()
     valid_mask = ~np.isnan(x).any(axis=1)
 
-    y = model.predict(x[valid_mask])
-    if y.ndim == 1:
-        y = np.expand_dims(y, 1)
-    pred = np.empty((len(df), n_outputs), dtype=F64)
-    pred[valid_mask] = y
-    pred[~valid_mask] = np.nan
+    pred = np.full((len(df), n_outputs), np.nan, dtype=F64)
+    # Models commonly reject empty inputs
+    if valid_mask.any():
+        y = model.predict(x[valid_mask])
+        if y.ndim == 1:
+            y = np.expand_dims(y, 1)
+        pred[valid_mask] = y
 
     dic = {}
     if pred.shape[1] > 1:
-- 
2.43.0


From ca8a7bf74086cc62d80e41a72d7b70b4be66f596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 54/73] fix: predictions for rasters one cell wide or high keep
 the cell size

---
 raster_tools/general.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 8994d4e..9ac2747 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -492,6 +492,7 @@ def model_predict_raster(raster, model, n_outputs=1):
     ds = dataarray_to_xr_raster_ds(xdata, xmask)
     if in_raster.crs is not None:
         ds = ds.rio.write_crs(in_raster.crs)
+    ds = _keep_transform(ds, in_raster.xdata)
     return Raster(ds, _fast_path=True).burn_mask()
 
 
-- 
2.43.0


From c6e6161f73b30ceb963842e7bffcc7159cd74be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 55/73] fix: bool columns can be used for predictions along
 with number columns

---
 raster_tools/general.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 9ac2747..34fea50 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -498,6 +498,9 @@ def model_predict_raster(raster, model, n_outputs=1):
 
 def _pred_df(df, model, columns, n_outputs, prefix):
     x = df[columns].to_numpy()
+    if x.dtype == object:
+        # pandas does not find a common type for bool and number columns
+        x = x.astype(F64)
     valid_mask = ~np.isnan(x).any(axis=1)
 
     pred = np.full((len(df), n_outputs), np.nan, dtype=F64)
-- 
2.43.0


From 353d147535d788491300deea2c7364dee77043b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 56/73] fix: features of a vector are selected by position for
 any index

---
 raster_tools/vector.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/raster_tools/vector.py b/raster_tools/vector.py
index 74cf090..f6ccb4d 100644
--- a/raster_tools/vector.py
+++ b/raster_tools/vector.py
@@ -306,6 +306,10 @@ def _normalize_geo_data(geo):
 _GMTRY = "geometry"
 
 
+def _take_feature(feats, i):
+    return feats.iloc[[i]]
+
+
 class Vector:
     """A class representing vector data.
 
@@ -327,6 +331,7 @@ class Vector:
 
         """
         geo = _normalize_geo_data(geo)
+        self._part_sizes = None
         if not dask.is_dask_collection(geo):
             self._size = len(geo)
             geo = dgpd.from_geopandas(geo, npartitions=1)
@@ -344,6 +349,16 @@ class Vector:
             self._size = len(self._geo)
         return self._size
 
+    def _partition_sizes(self):
+        if self._part_sizes is None:
+            if self._geo.npartitions == 1:
+                self._part_sizes = [self.size]
+            else:
+                self._part_sizes = list(
+                    self._geo.map_partitions(len, meta=(None, I64)).compute()
+                )
+        return self._part_sizes
+
     def __repr__(self):
         lazy = dask.is_dask_collection(self._geo)
         return "<Vector(shapes: {}, fields: {}, CRS: {}, lazy:{})>".format(
@@ -660,10 +675,16 @@ class Vector:
                     f"Negative index {old_idx} is too small for vector with "
                     f"size {self.size}."
                 )
-        # [[idx]] forces loc to return a data frame. The new frames index is
-        # [idx], however. This breaks future iteration we reset it to [0] to
-        # allow iteration over the resulting Vector.
-        subgeo = self._geo.loc[[idx]]
+        # The index labels need not be positions so find the partition that
+        # holds the feature.
+        ends = np.cumsum(self._partition_sizes())
+        part = int(np.searchsorted(ends, idx, side="right"))
+        offset = idx - int(ends[part - 1]) if part else idx
+        # The label of the feature breaks future iteration so we reset it to
+        # [0] to allow iteration over the resulting Vector.
+        subgeo = self._geo.partitions[part].map_partitions(
+            _take_feature, offset, meta=self._geo._meta
+        )
         subgeo = subgeo.assign(__new_idx__=0)
         old_idx_name = subgeo.index.name
         subgeo = subgeo.set_index("__new_idx__", divisions=[0, 1])
-- 
2.43.0


From 47603a5599f0719192a4c02f6fbee015d0efeed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 57/73] fix: to_shapely returns the shapes instead of failing
 on lazy data

---
 raster_tools/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/vector.py b/raster_tools/vector.py
index f6ccb4d..041cf3e 100644
--- a/raster_tools/vector.py
+++ b/raster_tools/vector.py
@@ -492,7 +492,7 @@ class Vector:
 
     def to_shapely(self):
         """Returns the vector data as a list of shapely geometries objects."""
-        return self.geometry.to_list()
+        return self.geometry.compute().to_list()
 
     def to_raster(
         self,
-- 
2.43.0


From 75a171091c1644e3874eddf0d2ffb24f4ba78932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:00 +0000
Subject: [PATCH 58/73] fix: spatial_shuffle works for vectors with a single
 partition

---
 raster_tools/vector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster_tools/vector.py b/raster_tools/vector.py
index 041cf3e..96e8ea8 100644
--- a/raster_tools/vector.py
+++ b/raster_tools/vector.py
@@ -825,6 +825,9 @@ class Vector:
             This causes partial computation to take place.
 
         """
+        if self._geo.npartitions == 1:
+            # There is only one group and shuffling would discard the divisions
+            return self.calculate_spatial_partitions(show_progress)
         if show_progress:
             with ProgressBar():
                 data = self._geo.spatial_shuffle()
-- 
2.43.0


From 6e3b36430eceeec738e65a16d5d2189a745a347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:34 +0000
Subject: [PATCH 59/73] fix: identifiers of features do not change when
 partitions are selected

---
 raster_tools/vector.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/raster_tools/vector.py b/raster_tools/vector.py
index 96e8ea8..17f3531 100644
--- a/raster_tools/vector.py
+++ b/raster_tools/vector.py
@@ -232,10 +232,14 @@ def get_dask_geodataframe(src):
         )
 
 
-def _add_objid(feats, name, base, partition_info=None):
+def _partition_number(number):
+    return pd.Series([number], dtype=I64)
+
+
+def _add_objid(feats, numbers, name, base):
     feats = feats.copy()
     feats[name] = np.arange(1, len(feats) + 1, dtype=I64) + (
-        partition_info["number"] * base
+        numbers.iloc[0] * base
     )
     return feats
 
@@ -280,7 +284,16 @@ def add_objectid_column(features, name=None, _base=_OBJECTID_BASE):
                 name = f"{prefix}_{n}"
     meta = feats._meta.copy()
     meta[name] = np.array((), dtype=I64)
-    df_new = feats.map_partitions(_add_objid, name, _base, meta=meta)
+    # NOTE: Partition numbers from dask's partition_info change when only some
+    # of the partitions are computed so carry the numbers along as data.
+    numbers = dd.from_map(
+        _partition_number,
+        range(feats.npartitions),
+        meta=_partition_number(0).iloc[:0],
+    )
+    df_new = feats.map_partitions(
+        _add_objid, numbers, name, _base, meta=meta, align_dataframes=False
+    )
     if feats.spatial_partitions is not None:
         df_new.spatial_partitions = feats.spatial_partitions.copy()
     if return_vector:
-- 
2.43.0


From baba01597d01e2632cd3876197cc555b18f30dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:50 +0000
Subject: [PATCH 60/73] fix: lengths of lines can be weighted with a field of
 any name

---
 raster_tools/line_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/line_stats.py b/raster_tools/line_stats.py
index 1b4a711..80d271e 100644
--- a/raster_tools/line_stats.py
+++ b/raster_tools/line_stats.py
@@ -187,7 +187,7 @@ def _length(gdf, xc, yc, radius, field=None, dtype=F32):
         gdf = gdf[cols]
         if field is not None:
             # Use field as weights
-            gdf = gdf.rename({field: "weights"})
+            gdf = gdf.rename(columns={field: "weights"})
             if is_bool(gdf.weights.dtype):
                 gdf = gdf.astype({"weights": I8})
 
-- 
2.43.0


From 83e5700c1f38bf25f0d3f8055790c4518fb504c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:59 +0000
Subject: [PATCH 61/73] fix: lengths of lines work for a radius beyond the size
 of the raster

---
 raster_tools/line_stats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster_tools/line_stats.py b/raster_tools/line_stats.py
index 80d271e..b265b05 100644
--- a/raster_tools/line_stats.py
+++ b/raster_tools/line_stats.py
@@ -295,6 +295,9 @@ def length(features, like_rast, radius, weighting_field=None):
     gdf = features.to_crs(like_rast.crs).data
 
     xdepth, ydepth = np.ceil(radius / np.abs(like_rast.resolution)).astype(int)
+    # The overlap can't be larger than the raster
+    ydepth = min(ydepth, like_rast.shape[1])
+    xdepth = min(xdepth, like_rast.shape[2])
 
     partials = []
     for part in gdf.partitions:
-- 
2.43.0


From 77be685b1bd46bbfb0ad8bfbcbb8423a80877d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:14 +0000
Subject: [PATCH 62/73] fix: block geometries report coordinates for geographic
 CRSs

---
 raster_tools/blocks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raster_tools/blocks.py b/raster_tools/blocks.py
index c13e2a6..c3f8bdd 100644
--- a/raster_tools/blocks.py
+++ b/raster_tools/blocks.py
@@ -130,11 +130,12 @@ class GeoBlockInfo:
 
     @property
     def x(self):
-        return self.geobox.coordinates["x"].values
+        # NOTE: the names are longitude and latitude for geographic CRSs
+        return self.geobox.coordinates[self.geobox.dimensions[1]].values
 
     @property
     def y(self):
-        return self.geobox.coordinates["y"].values
+        return self.geobox.coordinates[self.geobox.dimensions[0]].values
 
     @property
     def band(self):
-- 
2.43.0


From 1742575b691ac5d04ed79c50db07509d51b50832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 63/73] fix: rasters one cell wide or high keep the cell size
 of the affine they are made with

---
 raster_tools/raster.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index ff1df49..aa07ec7 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -782,8 +782,15 @@ def data_to_xr_raster(data, x=None, y=None, affine=None, crs=None, nv=None):
     ).rio.set_spatial_dims(y_dim="y", x_dim="x")
     if crs is not None:
         xdata = xdata.rio.write_crs(crs)
-    xdata = xdata.rio.write_nodata(nv)
-    return normalize_xarray_data(xdata)
+    xdata = normalize_xarray_data(xdata.rio.write_nodata(nv))
+    if affine is not None and 1 in data.shape[-2:]:
+        # Coordinates alone do not give the cell size along a dim of length one
+        xres, yres = abs(affine.a), abs(affine.e)
+        xdata = xdata.rio.write_transform(
+            Affine.translation(x.min() - xres / 2, y.max() + yres / 2)
+            * Affine.scale(xres, -yres)
+        )
+    return xdata
 
 
 def data_to_xr_raster_like(
-- 
2.43.0


From 83115aea0cc3d412e7eeea150408e1a3f36f3a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:15 +0000
Subject: [PATCH 64/73] fix: rasters one cell wide or high without CRS have a
 geobox

---
 raster_tools/raster.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index aa07ec7..c1eaf25 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -15,6 +15,7 @@ import shapely
 import xarray as xr
 from affine import Affine
 from numba import jit
+from odc.geo.geobox import GeoBox
 from shapely.geometry import box
 
 from raster_tools._compat import NUMPY_GE_2, NUMPY_GE_2_2, PY_VER_310_PLUS
@@ -1495,7 +1496,11 @@ class Raster(_RasterBase):
     @property
     def geobox(self):
         """GeoBox object describing the raster's grid."""
-        return self._ds.odc.geobox
+        geobox = self._ds.odc.geobox
+        if geobox is None:
+            # Not found for a raster without CRS that is one cell wide or high
+            geobox = GeoBox(self.shape[1:], self.affine, self.crs)
+        return geobox
 
     @property
     def bandwise(self):
-- 
2.43.0


From c389ef30ce5af1d3197bca5fb5dccfebb1558871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 65/73] fix: georeference of overlapping blocks is right for
 uneven depths and at edges without boundary

---
 raster_tools/blocks.py | 69 +++++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/raster_tools/blocks.py b/raster_tools/blocks.py
index c3f8bdd..721b1d5 100644
--- a/raster_tools/blocks.py
+++ b/raster_tools/blocks.py
@@ -1569,26 +1569,39 @@ def _resolve_gbi_no_pad(block_info, block_args, gbi_lookup):
     return gbi_lookup[block_info[0]["chunk-location"]]
 
 
-def _resolve_gbi_with_overlap_pad(block_info, block_args, gbi_lookup):
-    """gbi resolver for geo_map_overlap: pad the base gbi to match the
-    overlap-included block shape.
-
-    Distributes the per-axis overlap symmetrically. Exact for interior
-    chunks and any non-``"none"`` boundary; approximate for
-    ``boundary=None``/``"none"`` edge chunks (the per-side split may
-    be slightly off-position).
+def _make_gbi_overlap_pad_resolver(depth_dict, pad_edges):
+    """Build the gbi resolver for geo_map_overlap.
+
+    The resolver pads the base gbi by the overlap that dask added on each
+    side of the block. ``depth_dict`` is the normalized depth (see
+    :func:`_normalize_depth`). ``pad_edges`` is ``False`` if the boundary is
+    ``"none"``, in which case the sides of a block that lie on the edges of
+    the array are not padded.
     """
-    base_gbi = gbi_lookup[block_info[0]["chunk-location"]]
-    base_shape = base_gbi.shape
-    actual_shape = block_args[0].shape
-    tot_dy = actual_shape[1] - base_shape[1]
-    tot_dx = actual_shape[2] - base_shape[2]
-    top, bottom = tot_dy // 2, tot_dy - tot_dy // 2
-    left, right = tot_dx // 2, tot_dx - tot_dx // 2
-    gbi = base_gbi.pad_y(top, bottom) if (top or bottom) else base_gbi
-    if left or right:
-        gbi = gbi.pad_x(left, right)
-    return gbi
+    sides = [
+        d if isinstance(d, tuple) else (d, d)
+        for d in (depth_dict[1], depth_dict[2])
+    ]
+
+    def _resolve_gbi(block_info, block_args, gbi_lookup):
+        location = block_info[0]["chunk-location"]
+        num_chunks = block_info[0]["num-chunks"]
+        pads = []
+        for axis, (before, after) in zip((1, 2), sides, strict=True):
+            if not pad_edges and location[axis] == 0:
+                before = 0
+            if not pad_edges and location[axis] == num_chunks[axis] - 1:
+                after = 0
+            pads.append((before, after))
+        (top, bottom), (left, right) = pads
+        gbi = gbi_lookup[location]
+        if top or bottom:
+            gbi = gbi.pad_y(top, bottom)
+        if left or right:
+            gbi = gbi.pad_x(left, right)
+        return gbi
+
+    return _resolve_gbi
 
 
 def _as_array(x):
@@ -1619,7 +1632,7 @@ def _build_geo_wrapper(
     ``gbi_resolver(block_info, block_args, gbi_lookup) -> GeoBlockInfo``
     decides how to translate dask's chunk-location into the gbi the
     user sees. Pass ``_resolve_gbi_no_pad`` for the no-overlap
-    flavor; ``_resolve_gbi_with_overlap_pad`` for overlap.
+    flavor; ``_make_gbi_overlap_pad_resolver(...)`` for overlap.
 
     ``out_dtype_hint`` is the caller-resolved output dtype (from
     ``dtype=`` / ``meta=``) or ``None``; it is preferred over
@@ -1784,6 +1797,8 @@ def _build_geo_map_blocks_wrapper(
 def _build_geo_map_overlap_wrapper(
     func,
     rasters,
+    depth_dict,
+    boundary,
     null_value=None,
     out_dtype_hint=None,
     return_mask=False,
@@ -1794,11 +1809,15 @@ def _build_geo_map_overlap_wrapper(
     Thin shim over ``_build_geo_wrapper`` with the overlap-pad
     gbi resolver.
     """
+    pad_edges = not (
+        boundary is None
+        or (isinstance(boundary, str) and boundary.lower() == "none")
+    )
     return _build_geo_wrapper(
         func,
         rasters,
         null_value=null_value,
-        gbi_resolver=_resolve_gbi_with_overlap_pad,
+        gbi_resolver=_make_gbi_overlap_pad_resolver(depth_dict, pad_edges),
         out_dtype_hint=out_dtype_hint,
         return_mask=return_mask,
         out_data_dtype=out_data_dtype,
@@ -2350,10 +2369,8 @@ def geo_map_overlap(
     downstream output meta will be wrong).
 
     With ``boundary=None`` or ``"none"``, edge chunks aren't padded on the
-    array-boundary side. The per-side overlap split is computed from actual
-    block shape vs base chunk shape and distributed symmetrically; for those
-    edge cases the ``geo_block_info`` extent may be slightly off-position. For
-    interior chunks and all non-``"none"`` boundaries this is exact.
+    array-boundary side and the ``geo_block_info`` extent does not reach beyond
+    the array there.
 
     **Output null value resolution**
 
@@ -2433,6 +2450,8 @@ def geo_map_overlap(
     wrapper, inputs = _build_geo_map_overlap_wrapper(
         func,
         rasters,
+        depth_dict,
+        boundary,
         null_value=null_value,
         out_dtype_hint=data_hint,
         return_mask=return_mask,
-- 
2.43.0


From 777242cdae5994715468afde973c6f7a8b1b4a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 66/73] fix: functions returning masks can ask for the output
 null value

---
 raster_tools/blocks.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/raster_tools/blocks.py b/raster_tools/blocks.py
index 721b1d5..6f47571 100644
--- a/raster_tools/blocks.py
+++ b/raster_tools/blocks.py
@@ -875,6 +875,9 @@ def _build_map_blocks_wrapper(
                 # block_info[None]["dtype"] as None when meta= is
                 # set, even though the meta's dtype IS the output.
                 chunk_dtype = block_info[None]["dtype"]
+                if return_mask and chunk_dtype is not None:
+                    # The block is a structured (data, mask) array.
+                    chunk_dtype = chunk_dtype["data"]
                 resolved_dtype = (
                     out_dtype_hint
                     if out_dtype_hint is not None
@@ -1728,6 +1731,9 @@ def _build_geo_wrapper(
                 inner_kwargs["out_null_value"] = meta_placeholder
             else:
                 chunk_dtype = block_info[None]["dtype"]
+                if return_mask and chunk_dtype is not None:
+                    # The block is a structured (data, mask) array.
+                    chunk_dtype = chunk_dtype["data"]
                 resolved_dtype = (
                     out_dtype_hint
                     if out_dtype_hint is not None
-- 
2.43.0


From 0b97159de43532a73115160a003144df462a6f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 67/73] fix: chunk rasters of chunks with several bands

---
 raster_tools/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index c1eaf25..d149cb6 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -3028,7 +3028,7 @@ class Raster(_RasterBase):
                             x=slice(x, x + xc),
                         )
                         .copy()
-                        .assign_coords(band=[1])
+                        .assign_coords(band=np.arange(bc) + 1)
                     )
                     if affine is not None:
                         # The coordinates alone don't give the cell size when
-- 
2.43.0


From 121d9cd27a328ece1d3d7399624a338a70662a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 68/73] fix: quadrants one cell wide or high keep their
 georeference

---
 raster_tools/raster.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index d149cb6..c6186a1 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -2890,6 +2890,10 @@ class Raster(_RasterBase):
         slices = [slice_nw, slice_ne, slice_sw, slice_se]
         data = self.data.copy()
         mask = self.mask.copy()
+        try:
+            affine = self.affine
+        except xrio.exceptions.OneDimensionalRaster:
+            affine = None
         results = []
         for s in slices:
             data_quad = data[s]
@@ -2909,6 +2913,13 @@ class Raster(_RasterBase):
             ds = make_raster_ds(xdata_quad, xmask_quad)
             if self.crs is not None:
                 ds = ds.rio.write_crs(self.crs)
+            if affine is not None:
+                # The coordinates alone don't give the cell size when the
+                # quadrant is one cell wide or high.
+                ds = ds.rio.write_transform(
+                    affine
+                    * Affine.translation(s[2].start or 0, s[1].start or 0)
+                )
             results.append(Raster(ds, _fast_path=True))
         return RasterQuadrantsResult(*results)
 
-- 
2.43.0


From 3901ec91c0a881a5f0ea374cbf7b108405c0653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 69/73] fix: rows, columns and coordinates can be given as
 lists

---
 raster_tools/raster.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index c6186a1..c6d32f8 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -3070,6 +3070,8 @@ def rowcol_to_xy(row, col, affine, offset):
     """
     Convert (row, col) index values to (x, y) coords using the transformation.
     """
+    if not is_scalar(row):
+        row, col = np.asarray(row), np.asarray(col)
     roffset, coffset = _offset_name_to_rc_offset[offset]
     transform = Affine.identity().translation(coffset, roffset)
     return affine * transform * (col, row)
@@ -3079,6 +3081,8 @@ def xy_to_rowcol(x, y, affine):
     """
     Convert (x, y) coords to (row, col) index values using the transformation.
     """
+    if not is_scalar(x):
+        x, y = np.asarray(x), np.asarray(y)
     col, row = (~affine) * (x, y)
     row = np.floor(row).astype(int)
     col = np.floor(col).astype(int)
-- 
2.43.0


From 8736f1a70eccd9d12a6460325eaa55b9a85a7239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 70/73] fix: clip_box of rasters without CRS

---
 raster_tools/clipping.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/raster_tools/clipping.py b/raster_tools/clipping.py
index 57d54ea..b97da92 100644
--- a/raster_tools/clipping.py
+++ b/raster_tools/clipping.py
@@ -3,6 +3,7 @@ import numpy as np
 import rioxarray as rxr
 import xarray as xr
 
+from raster_tools._padding import _DUMMY_CRS, _strip_crs
 from raster_tools._stack import stack_bands
 from raster_tools.creation import ones_like, zeros_like
 from raster_tools.exceptions import RasterNoDataError
@@ -221,15 +222,25 @@ def clip_box(raster, bounds):
     raster = get_raster(raster)
     if len(bounds) != 4:
         raise ValueError("Invalid bounds. Must be a size 4 array or tuple.")
+    xdata = raster.xdata
+    xmask = raster.xmask
+    if raster.crs is None:
+        # rioxarray's clip_box() requires a CRS. Attach a placeholder for the
+        # clip and strip it afterward.
+        xdata = xdata.rio.write_crs(_DUMMY_CRS)
+        xmask = xmask.rio.write_crs(_DUMMY_CRS)
     try:
-        xdata = raster.xdata.rio.clip_box(*bounds, auto_expand=True)
+        xdata = xdata.rio.clip_box(*bounds, auto_expand=True)
     except rxr.exceptions.NoDataInBounds as err:
         raise RasterNoDataError(
             "No data found within provided bounds"
         ) from err
     if raster._masked:
-        xmask = raster.xmask.rio.clip_box(*bounds, auto_expand=True)
+        xmask = xmask.rio.clip_box(*bounds, auto_expand=True)
     else:
         xmask = xr.zeros_like(xdata, dtype=bool)
+    if raster.crs is None:
+        xdata = _strip_crs(xdata)
+        xmask = _strip_crs(xmask)
     ds = dataarray_to_xr_raster_ds(xdata, xmask=xmask, crs=raster.crs)
     return Raster(ds, _fast_path=True)
-- 
2.43.0


From cdef6fe956e8846d3fef8961305c47b14bb08585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 71/73] fix: padded rasters one cell wide or high keep their
 georeference

---
 raster_tools/_padding.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/raster_tools/_padding.py b/raster_tools/_padding.py
index 715f676..2dfb1ed 100644
--- a/raster_tools/_padding.py
+++ b/raster_tools/_padding.py
@@ -1,5 +1,6 @@
 import numpy as np
 import xarray as xr
+from affine import Affine
 from odc.geo.geobox import GeoBox
 
 from raster_tools.dtypes import is_bool, is_scalar
@@ -200,4 +201,12 @@ def pad(raster, target, *, fill_values=None):
         xmask = _strip_crs(xmask)
 
     ds = dataarray_to_xr_raster_ds(xdata, xmask=xmask, crs=src_crs)
+    if 1 in raster.shape[1:]:
+        # The coordinates alone don't give the cell size when the raster is one
+        # cell wide or high.
+        affine = raster.affine
+        col, row = ~affine * (float(ds.x[0]), float(ds.y[0]))
+        ds = ds.rio.write_transform(
+            affine * Affine.translation(round(col - 0.5), round(row - 0.5))
+        )
     return Raster(ds, _fast_path=True)
-- 
2.43.0


From 8b39b3ff86aeb7fe154497cae349d69fe30521a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:04 +0000
Subject: [PATCH 72/73] fix: rounding boolean rasters keeps their type

---
 raster_tools/raster.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index c6d32f8..2bdaba0 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -2545,6 +2545,10 @@ class Raster(_RasterBase):
             Rounded raster.
 
         """
+        if is_bool(self.dtype):
+            # numpy rounds booleans to float16
+            return self.copy()
+
         rast = self._ds.raster
         if self._masked:
             rast = xr.where(
-- 
2.43.0


From 961f2be6cc135851d12d389eab3a8b694a75c497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:38 +0000
Subject: [PATCH 73/73] fix: operations band by band handle chunks with several
 bands

---
 raster_tools/general.py |  6 +++---
 raster_tools/utils.py   | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 34fea50..27cb39a 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -71,6 +71,7 @@ from raster_tools.stat_common import (
     nanentropy_jit,
     nanmode_jit,
 )
+from raster_tools.utils import single_band_mappable
 
 __all__ = [
     "ModelPredictAdaptor",
@@ -748,9 +749,8 @@ def local_stats(raster, stype):
     return Raster(ds_out, _fast_path=True)
 
 
+@single_band_mappable
 def _morph_op_chunk(x, footprint, cval, morph_op, binary=False):
-    if x.ndim > 2:
-        x = x[0]
     if not binary:
         morph_func = grey_dilation if morph_op == "dilation" else grey_erosion
         out = morph_func(x, footprint=footprint, mode="constant", cval=cval)
@@ -759,7 +759,7 @@ def _morph_op_chunk(x, footprint, cval, morph_op, binary=False):
             binary_dilation if morph_op == "dilation" else binary_erosion
         )
         out = morph_func(x, structure=footprint)
-    return out[None]
+    return out
 
 
 def _get_footprint(size):
diff --git a/raster_tools/utils.py b/raster_tools/utils.py
index 4f77f24..d54a2a7 100644
--- a/raster_tools/utils.py
+++ b/raster_tools/utils.py
@@ -72,7 +72,8 @@ def single_band_mappable(
     band 3D chunks.
 
     This allows functions to be mapped to (1, y, x) chunks in a dask map_blocks
-    operation.
+    operation. The function is applied to each band in turn if a chunk has more
+    than one.
 
     """
 
@@ -84,8 +85,16 @@ def single_band_mappable(
                 has_band_dim = chunk.ndim == 3
                 if has_band_dim:
                     if chunk.shape[0] > 1:
-                        raise TypeError(
-                            f"Expexted 0 or 1 bands. Got {chunk.shape[0]}."
+                        return np.concatenate(
+                            [
+                                wrapper(
+                                    band[None],
+                                    *args,
+                                    block_info=block_info,
+                                    **kwargs,
+                                )
+                                for band in chunk
+                            ]
                         )
                     chunk = chunk[0]
                 if not pass_block_info:
-- 
2.43.0

