From 69daf88b991ef125d881040f8779b3c45f3235a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 01/73] fix: multi-output ufuncs on rasters without a null
 value

---
 raster_tools/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 86d0845..67300a6 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -227,7 +227,7 @@ def _apply_ufunc(ufunc, this, left, right=None, kwargs=None, out=None):
     xr_out = ufunc(*ufunc_args, **kwargs)
     multi_out = ufunc.nout > 1
     if not masked:
-        mask = get_mask_from_data(xr_out, None)
+        mask = get_mask_from_data(xr_out[0] if multi_out else xr_out, None)
         if not multi_out:
             xmask = xr.DataArray(mask, dims=xr_out.dims, coords=xr_out.coords)
             xr_out = xr_out.rio.write_nodata(None)
-- 
2.43.0


From aab141e88c5c83eec5f2467e8d3112b030bcce4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 02/73] fix: setting a NaN null value on 64-bit integer rasters

---
 raster_tools/dtypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raster_tools/dtypes.py b/raster_tools/dtypes.py
index ffbfaa2..43fa200 100644
--- a/raster_tools/dtypes.py
+++ b/raster_tools/dtypes.py
@@ -194,5 +194,6 @@ INT_DTYPE_TO_FLOAT_DTYPE = {
     I8: F16,
     I16: F32,
     I32: F64,
-    F64: F64,
+    I64: F64,
+    U64: F64,
 }
-- 
2.43.0


From c66448e7d0821fba6fb7091ca1a59fdc83b9b9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 03/73] fix: setting a NaN null value on boolean rasters made
 every true cell null

---
 raster_tools/raster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 67300a6..8ba351f 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -2049,6 +2049,8 @@ class Raster(_RasterBase):
         if np.isnan(value):
             if is_int(dtype):
                 new_dtype = INT_DTYPE_TO_FLOAT_DTYPE[dtype]
+            elif is_bool(dtype):
+                new_dtype = get_common_dtype([value, dtype])
             # else do nothing
         elif is_int(value) and is_float(dtype):
             # INFO: Numpy refuses to let small int values be put in small float
-- 
2.43.0


From 5d82319c3c5d2e17f217027aa1237dfffde23a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 04/73] fix: null values that fit a signed integer dtype were
 replaced by the default

---
 raster_tools/masking.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/raster_tools/masking.py b/raster_tools/masking.py
index 9f5eab0..5971a5b 100644
--- a/raster_tools/masking.py
+++ b/raster_tools/masking.py
@@ -21,6 +21,7 @@ from raster_tools.dtypes import (
     get_dtype_min_max,
     is_bool,
     is_float,
+    is_int,
 )
 
 
@@ -100,6 +101,10 @@ def reconcile_nullvalue_with_dtype(null_value, dtype, warn=False):
                 nv = original_nv
     else:
         nv = np.min_scalar_type(original_nv).type(original_nv)
+    if is_int(dtype) and is_int(nv):
+        info = np.iinfo(dtype)
+        if info.min <= nv <= info.max:
+            return dtype.type(nv)
     if np.can_cast(nv, dtype) or (is_bool(dtype) and nv in (0, 1)):
         return dtype.type(nv)
     nv = get_default_null_value(dtype)
-- 
2.43.0


From 20702e453e54106ef5dec764a17636af56e36fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 05/73] fix: fractional null values were rounded to half
 precision by dtype changes

---
 raster_tools/masking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raster_tools/masking.py b/raster_tools/masking.py
index 5971a5b..5db972b 100644
--- a/raster_tools/masking.py
+++ b/raster_tools/masking.py
@@ -22,6 +22,7 @@ from raster_tools.dtypes import (
     is_bool,
     is_float,
     is_int,
+    safe_min_scalar_type,
 )
 
 
@@ -100,7 +101,7 @@ def reconcile_nullvalue_with_dtype(null_value, dtype, warn=False):
             if min_type.kind == "O":
                 nv = original_nv
     else:
-        nv = np.min_scalar_type(original_nv).type(original_nv)
+        nv = safe_min_scalar_type(original_nv).type(original_nv)
     if is_int(dtype) and is_int(nv):
         info = np.iinfo(dtype)
         if info.min <= nv <= info.max:
-- 
2.43.0


From 869742954f4d12758f2362ad65e49b4e09ab25d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 06/73] fix: reclassify replaced None targets in the caller's
 mapping

---
 raster_tools/general.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index a9d6e95..1482264 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -1376,6 +1376,8 @@ def reclassify(raster, remapping, unmapped_to_null=False):
     else:
         nv = get_default_null_value(out_dtype)
     masked = raster._masked or unmapped_to_null
+    # Copy to avoid changing the caller's mapping
+    remapping = dict(remapping)
     for k in remapping:
         if remapping[k] is None:
             remapping[k] = nv
-- 
2.43.0


From e4ac7bfb3aae16beaae616047c15cbd705d5a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:56 +0000
Subject: [PATCH 07/73] fix: reclassify of float rasters with integer keys

---
 raster_tools/general.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 1482264..1d862f2 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -1384,6 +1384,9 @@ def reclassify(raster, remapping, unmapped_to_null=False):
             masked = True
 
     mapping_from = np.array(list(remapping))
+    if is_float(raster.dtype) and is_int(mapping_from.dtype):
+        # The values being looked up must be safely castable to the key type
+        mapping_from = mapping_from.astype(F64)
     mapping_to = np.array(list(remapping.values())).astype(out_dtype)
     data = da.map_blocks(
         _reclassify_chunk,
-- 
2.43.0


From 9a4733063e102474ebcf0808eebbe98b4d1f549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:17 +0000
Subject: [PATCH 08/73] fix: remap_range with None targets and a half precision
 result

---
 raster_tools/general.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 1d862f2..b40fbaf 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -1107,12 +1107,16 @@ def remap_range(raster, mapping, inclusivity="left"):
             data = data.astype(F32)
     elif f16_workaround:
         data = data.astype(F32)
+    # Can't pass None object to numba code
+    null = 0 if nv is None else nv
+    if f16_workaround:
+        new_values = new_values.astype(F32)
+        null = F32.type(null)
     data = da.map_blocks(
         _remap_values,
         data,
         mask,
-        # Can't pass None object to numba code
-        null=0 if nv is None else nv,
+        null=null,
         start_end_values=start_end_values,
         new_values=new_values,
         inclusivity=inc_map[inclusivity],
-- 
2.43.0


From beff36f643bc16ae5b74d164a5239b657264e04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:17 +0000
Subject: [PATCH 09/73] fix: reclassify with a half precision result

---
 raster_tools/general.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index b40fbaf..311d489 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -1391,19 +1391,26 @@ def reclassify(raster, remapping, unmapped_to_null=False):
     if is_float(raster.dtype) and is_int(mapping_from.dtype):
         # The values being looked up must be safely castable to the key type
         mapping_from = mapping_from.astype(F64)
-    mapping_to = np.array(list(remapping.values())).astype(out_dtype)
+    # numba doesn't understand f16 so use f32 and then downcast
+    work_dtype = F32 if out_dtype == F16 else out_dtype
+    mapping_to = np.array(list(remapping.values())).astype(work_dtype)
+    data = raster.data
+    if data.dtype == F16:
+        data = data.astype(F32)
     data = da.map_blocks(
         _reclassify_chunk,
-        raster.data,
+        data,
         raster.mask,
         mapping_from=mapping_from,
         mapping_to=mapping_to,
         unmapped_to_null=unmapped_to_null,
-        null=nv,
-        out_dtype=out_dtype,
-        dtype=out_dtype,
-        meta=np.array((), dtype=out_dtype),
+        null=work_dtype.type(nv),
+        out_dtype=work_dtype,
+        dtype=work_dtype,
+        meta=np.array((), dtype=work_dtype),
     )
+    if work_dtype != out_dtype:
+        data = data.astype(out_dtype)
     if not masked:
         nv = None
     return data_to_raster_like(data, raster, nv=nv)
-- 
2.43.0


From 2fa54474b95625f5acb7ce982f05380d2a15bd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:51 +0000
Subject: [PATCH 10/73] fix: chunk bounding boxes of rasters with single row or
 column chunks

The cell size cannot be computed from the coordinates of a single row or
column, so get_chunk_bounding_boxes raised for such chunk layouts.
---
 raster_tools/raster.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 8ba351f..8f3650b 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -2897,13 +2897,12 @@ class Raster(_RasterBase):
         cols = []
         for row, yc in enumerate(ychunks):
             for col, xc in enumerate(xchunks):
-                y = self.y[i : i + yc]
-                x = self.x[j : j + xc]
+                # Use the raster's transform since the cell size can't be
+                # determined from the coordinates of a single row or column
+                minx, maxy = self.xy(i, j, offset="ul")
+                maxx, miny = self.xy(i + yc - 1, j + xc - 1, offset="lr")
                 j += xc
-                bounds = xr.DataArray(
-                    da.empty((yc, xc)), dims=("y", "x"), coords=(y, x)
-                ).rio.bounds()
-                chunk_boxes.append(box(*bounds))
+                chunk_boxes.append(box(minx, miny, maxx, maxy))
                 rows.append(row)
                 cols.append(col)
             i += yc
-- 
2.43.0


From d22465ea67ad93ea9bbaaba44f22b0792937efbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 11/73] fix: astype with a NaN new_null_value used the default
 null value

Float rasters cast with new_null_value=NaN got the dtype's default null value
instead, so stacking and mosaicking rasters where the first has a NaN null
value left null cells holding another value.
---
 raster_tools/raster.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 8f3650b..330e533 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -1912,9 +1912,13 @@ class Raster(_RasterBase):
                 with warnings.catch_warnings():
                     warnings.simplefilter("error")
                     try:
-                        nv = reconcile_nullvalue_with_dtype(
-                            new_null_value, dtype, warn=True
-                        )
+                        if is_float(dtype) and np.isnan(new_null_value):
+                            # NaN is reconciled to the default null value
+                            nv = dtype.type(np.nan)
+                        else:
+                            nv = reconcile_nullvalue_with_dtype(
+                                new_null_value, dtype, warn=True
+                            )
                     except UserWarning:
                         raise ValueError(
                             "Could not use provided null value with the new "
-- 
2.43.0


From de70039155e0dccd6d13730e0f061b7997c6f459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:49 +0000
Subject: [PATCH 12/73] fix: surface functions on 8-bit rasters with nulls

Null cells of 8-bit rasters were set to NaN in half precision and then
converted to single precision, which burned the null value back into them, so
the null value was used as an elevation by the neighboring cells.
---
 raster_tools/surface.py | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/raster_tools/surface.py b/raster_tools/surface.py
index 80ab109..c0e2e3e 100644
--- a/raster_tools/surface.py
+++ b/raster_tools/surface.py
@@ -10,7 +10,15 @@ import numba as nb
 import numpy as np
 
 from raster_tools import focal
-from raster_tools.dtypes import F32, F64, I32, U8, is_int
+from raster_tools.dtypes import (
+    F16,
+    F32,
+    F64,
+    I32,
+    U8,
+    is_int,
+    promote_dtype_to_float,
+)
 from raster_tools.masking import get_default_null_value
 from raster_tools.raster import Raster, data_to_xr_raster_ds_like, get_raster
 from raster_tools.utils import single_band_mappable
@@ -30,6 +38,15 @@ RADIANS_TO_DEGREES = 180 / np.pi
 DEGREES_TO_RADIANS = np.pi / 180
 
 
+def _get_surface_raster(raster):
+    raster = get_raster(raster)
+    # Numba doesn't support float16. Promote before null cells become NaN since
+    # a dtype change burns the null value back into the null cells.
+    if promote_dtype_to_float(raster.dtype) == F16:
+        raster = raster.astype(F32)
+    return get_raster(raster, null_to_nan=True)
+
+
 def _finalize(data, like):
     # Invalidate edges
     mask = like.mask.copy()
@@ -122,9 +139,7 @@ def surface_area_3d(raster):
     * `Jense, 2004 <https://www.fs.usda.gov/treesearch/pubs/20437>`_
 
     """
-    raster = get_raster(raster, null_to_nan=True)
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_surface_raster(raster)
     out_data = raster.data.map_overlap(
         _surface_area_3d,
         depth={0: 0, 1: 1, 2: 1},
@@ -190,9 +205,7 @@ def slope(raster, degrees=True):
     * `ESRI slope <https://pro.arcgis.com/en/pro-app/latest/tool-reference/3d-analyst/how-slope-works.htm>`_
 
     """  # noqa: E501
-    raster = get_raster(raster, null_to_nan=True)
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_surface_raster(raster)
     # Leave resolution sign as is
     out_data = raster.data.map_overlap(
         _slope,
@@ -264,9 +277,7 @@ def aspect(raster):
     * `ESRI aspect <https://pro.arcgis.com/en/pro-app/latest/tool-reference/3d-analyst/how-aspect-works.htm>`_
 
     """  # noqa: E501
-    raster = get_raster(raster, null_to_nan=True)
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_surface_raster(raster)
     out_data = raster.data.map_overlap(
         _aspect,
         depth={0: 0, 1: 1, 2: 1},
@@ -323,9 +334,7 @@ def curvature(raster):
     * `ESRI curvature <https://pro.arcgis.com/en/pro-app/latest/tool-reference/3d-analyst/how-curvature-works.htm>`_
 
     """  # noqa: E501
-    raster = get_raster(raster, null_to_nan=True)
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_surface_raster(raster)
     out_data = raster.data.map_overlap(
         _curv,
         depth={0: 0, 1: 1, 2: 1},
@@ -479,9 +488,7 @@ def hillshade(raster, azimuth=315, altitude=45):
     * `ESRI hillshade <https://pro.arcgis.com/en/pro-app/latest/tool-reference/spatial-analyst/how-hillshade-works.htm>`_
 
     """  # noqa: E501
-    raster = get_raster(raster, null_to_nan=True)
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_surface_raster(raster)
     # Specifically leave resolution sign as is
     out_data = raster.data.map_overlap(
         _hillshade,
-- 
2.43.0


From 7c26f4eb317b418fc4afe85a2e36e8c632557e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 13/73] fix: surface results next to null cells

Cells with a null neighbor have no result, but were left as valid NaN cells
and, for hillshade, as valid cells holding whatever casting NaN to uint8 gives.
---
 raster_tools/surface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster_tools/surface.py b/raster_tools/surface.py
index c0e2e3e..6f4e2d1 100644
--- a/raster_tools/surface.py
+++ b/raster_tools/surface.py
@@ -50,6 +50,9 @@ def _get_surface_raster(raster):
 def _finalize(data, like):
     # Invalidate edges
     mask = like.mask.copy()
+    if like._masked:
+        # There is no result for cells with a null neighbor
+        mask |= da.isnan(data)
     mask[:, 0, :] = True
     mask[:, -1, :] = True
     mask[:, :, 0] = True
-- 
2.43.0


From ebd284e8abf683834e21415943dbf3ab1481e552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:47 +0000
Subject: [PATCH 14/73] fix: tpi lost the null cells of its input

False was passed as the new null value instead of turning off the null value
warning, which cleared the null value and the mask.
---
 raster_tools/surface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raster_tools/surface.py b/raster_tools/surface.py
index 6f4e2d1..088e8fe 100644
--- a/raster_tools/surface.py
+++ b/raster_tools/surface.py
@@ -569,7 +569,9 @@ def tpi(dem, annulus_inner, annulus_outer):
         radii = annulus_outer
     else:
         radii = (annulus_inner, annulus_outer)
-    rs_tpi = ((dem - focal.focal(dem, "mean", radii)) + 0.5).astype(I32, False)
+    rs_tpi = ((dem - focal.focal(dem, "mean", radii)) + 0.5).astype(
+        I32, warn_about_null_change=False
+    )
     if dem._masked:
         rs_tpi = rs_tpi.set_null_value(get_default_null_value(I32))
     return rs_tpi
-- 
2.43.0


From 1b4dd58aa2c25bd0afe842b56a9ac8414d95a401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:23 +0000
Subject: [PATCH 15/73] fix: focal filters on 8-bit and half precision rasters

The data was promoted to float16, which numba doesn't support.
---
 raster_tools/focal.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index bf14313..23d54cf 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -6,6 +6,8 @@ import numpy as np
 from dask_image import ndfilters
 
 from raster_tools.dtypes import (
+    F16,
+    F32,
     F64,
     U8,
     U16,
@@ -201,6 +203,9 @@ def _correlate(data, kernel, mode="constant", cval=0.0, nan_aware=False):
         data = da.from_array(data)
     if nan_aware:
         data = promote_data_dtype(data)
+        if data.dtype == F16:
+            # Numba doesn't support float16
+            data = data.astype(F32)
     if is_bool(kernel.dtype):
         kernel = kernel.astype(int)
     if is_float(data.dtype) and is_int(kernel.dtype):
@@ -302,6 +307,9 @@ def _focal(data, kernel, stat, nan_aware=False):
         # Use _focal_chunk which is slower but handles nan values.
         # Promote to allow for nan boundary fill values.
         new_dtype = promote_dtype_to_float(data.dtype)
+        if new_dtype == F16:
+            # Numba doesn't support float16
+            new_dtype = F32
         if new_dtype != data.dtype:
             data = data.astype(new_dtype)
 
-- 
2.43.0


From 880a42c42c748866fe3e338e33db91b520744bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:23 +0000
Subject: [PATCH 16/73] fix: the ignore_null option of focal

Null cells always stayed null with ignore_null=True, and valid cells without
valid neighbors were left as NaN.
---
 raster_tools/focal.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index 23d54cf..675b18c 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -428,7 +428,13 @@ def focal(raster, focal_type, width_or_radius, height=None, ignore_null=False):
     if raster._masked:
         nv = np.nan
         mask = raster.mask.copy()
-        mask = mask if ignore_null else mask | np.isnan(data)
+        if ignore_null:
+            # Null cells only receive a value if there are valid cells in the
+            # neighborhood
+            valid = da.where(mask, np.nan, da.ones_like(data))
+            valid = _focal(valid, window, "max", True)
+            mask = mask & np.isnan(valid)
+        mask = mask | np.isnan(data)
         ds = data_to_xr_raster_ds_like(
             data, raster.xdata, mask=mask, nv=nv, burn=True
         )
-- 
2.43.0


From f649bb0984512dd77be3f47813fcf20fa0dfab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:44 +0000
Subject: [PATCH 17/73] fix: focal min, max and sum with even windows and no
 nulls

The window was placed one cell up and left of where it is placed for the other
statistics and for rasters with nulls.
---
 raster_tools/focal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index 675b18c..532c4cf 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -290,6 +290,8 @@ def _focal(data, kernel, stat, nan_aware=False):
     kernel = kernel.astype(bool)
     if not nan_aware and stat in ("min", "max", "sum"):
         # Use ndfilters which is faster but dosn't handle nan values
+        # Shift the origin of even shaped windows to match _focal_chunk
+        origin = [-1 if d % 2 == 0 else 0 for d in kernel.shape]
         if stat == "min":
             func = partial(
                 ndfilters.minimum_filter, footprint=kernel, mode="nearest"
@@ -302,7 +304,7 @@ def _focal(data, kernel, stat, nan_aware=False):
             func = partial(
                 ndfilters.correlate, weights=kernel, mode="constant"
             )
-        data = da.stack([func(d) for d in data])
+        data = da.stack([func(d, origin=origin) for d in data])
     else:
         # Use _focal_chunk which is slower but handles nan values.
         # Promote to allow for nan boundary fill values.
-- 
2.43.0


From 82ecbf50ac77ab76a989dc31e08ad4a74709727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:44 +0000
Subject: [PATCH 18/73] fix: focal sums of small integers overflowed without
 nulls

---
 raster_tools/focal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index 532c4cf..ddf4514 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -301,6 +301,9 @@ def _focal(data, kernel, stat, nan_aware=False):
                 ndfilters.maximum_filter, footprint=kernel, mode="nearest"
             )
         elif stat == "sum":
+            # The filter keeps the dtype so use the dtype of numpy's sum to
+            # avoid overflow
+            data = data.astype(np.zeros((), dtype=data.dtype).sum().dtype)
             func = partial(
                 ndfilters.correlate, weights=kernel, mode="constant"
             )
-- 
2.43.0


From 6c887dab48919007b58744d71d985a4ebf03e57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:53 +0000
Subject: [PATCH 19/73] fix: focal min and max of annulus windows at the border
 without nulls

The raster was extended with the nearest cell, which can be in the hole of the
annulus, so cells outside of the window were used.
---
 raster_tools/focal.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index ddf4514..3c629a6 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -288,7 +288,12 @@ def _focal(data, kernel, stat, nan_aware=False):
         data = da.from_array(data)
 
     kernel = kernel.astype(bool)
-    if not nan_aware and stat in ("min", "max", "sum"):
+    # The nearest cell may not be in the window for cells outside of the raster
+    # if the window has a hole
+    is_annulus = not kernel[tuple((k - 1) // 2 for k in kernel.shape)]
+    if not nan_aware and (
+        stat == "sum" or (stat in ("min", "max") and not is_annulus)
+    ):
         # Use ndfilters which is faster but dosn't handle nan values
         # Shift the origin of even shaped windows to match _focal_chunk
         origin = [-1 if d % 2 == 0 else 0 for d in kernel.shape]
@@ -421,6 +426,8 @@ def focal(raster, focal_type, width_or_radius, height=None, ignore_null=False):
     else:
         if focal_type == "mode" and is_int(raster.dtype):
             data = data.astype(raster.dtype)
+        elif focal_type in ("min", "max"):
+            data = data.astype(raster.dtype)
         elif focal_type == "unique":
             n = window.size
             unq_dtype = None
-- 
2.43.0


From 88f4b52257440ad6fa66714d7c4bddfa299878c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:18 +0000
Subject: [PATCH 20/73] fix: aggregate and local_stats on 8-bit rasters with
 nulls and half precision rasters

The null cells were set to NaN in half precision, which rounded the sums and
other statistics of 8-bit values. Numba doesn't support half precision at all.
---
 raster_tools/general.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 311d489..1835fd9 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -46,6 +46,7 @@ from raster_tools.dtypes import (
     is_int,
     is_scalar,
     is_str,
+    promote_dtype_to_float,
 )
 from raster_tools.exceptions import RemapFileParseError
 from raster_tools.focal import _get_offsets
@@ -248,6 +249,16 @@ def _get_unique_dtype(cur_dtype):
     return cur_dtype
 
 
+def _get_stats_raster(raster, uses_numba):
+    # Half precision is too coarse for 8-bit statistics and isn't supported by
+    # numba
+    if promote_dtype_to_float(raster.dtype) == F16 and (
+        raster._masked or (uses_numba and raster.dtype == F16)
+    ):
+        raster = raster.astype(F32)
+    return get_raster(raster, null_to_nan=True)
+
+
 def aggregate(raster, expand_cells, stype):
     """Creates a Raster of aggregated cell values for a new resolution.
 
@@ -293,8 +304,9 @@ def aggregate(raster, expand_cells, stype):
         and stype not in _COARSEN_STYPE_TO_CUSTOM_FUNC
     ):
         raise ValueError(f"Invalid stype argument: {repr(stype)}")
-    orig_dtype = get_raster(raster).dtype
-    raster = get_raster(raster, null_to_nan=True)
+    raster = get_raster(raster)
+    orig_dtype = raster.dtype
+    raster = _get_stats_raster(raster, stype in _COARSEN_STYPE_TO_CUSTOM_FUNC)
 
     xdata = raster.xdata
     xmask = raster.xmask
@@ -306,7 +318,9 @@ def aggregate(raster, expand_cells, stype):
         custom_stat_func = _COARSEN_STYPE_TO_CUSTOM_FUNC[stype]
         check_nan = stype == "mode"
         out_dtype = _get_coarsen_dtype(
-            stype, np.prod(expand_cells), orig_dtype
+            stype,
+            np.prod(expand_cells),
+            F32 if orig_dtype == F16 else orig_dtype,
         )
         # Use partial because reduce seems to be bugged and grabs kwargs that
         # it shouldn't.
@@ -703,8 +717,9 @@ def local_stats(raster, stype):
         and stype not in _LOCAL_STYPE_TO_CUSTOM_FUNC
     ):
         raise ValueError(f"Invalid stype aregument: {repr(stype)}")
-    orig_dtype = get_raster(raster).dtype
-    raster = get_raster(raster, null_to_nan=True)
+    raster = get_raster(raster)
+    orig_dtype = raster.dtype
+    raster = _get_stats_raster(raster, stype in _LOCAL_STYPE_TO_CUSTOM_FUNC)
 
     xdata = raster.xdata.copy()
     xmask = raster.xmask
-- 
2.43.0


From 441ecc2f7fdad78e56426b55e7361a4f8888ecdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:30 +0000
Subject: [PATCH 21/73] fix: local_stats on multi-band rasters without nulls
 returned every band

The result's mask kept the bands of the input, so the result had as many bands
as the input and all but the first one were filled in.
---
 raster_tools/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 1835fd9..5486f77 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -738,7 +738,7 @@ def local_stats(raster, stype):
             keepdims=True,
         )
     else:
-        xmask = xr.zeros_like(xmask, dtype=bool)
+        xmask = xr.zeros_like(xdata, dtype=bool)
 
     ds_out = dataarray_to_xr_raster_ds(xdata, xmask)
     if raster._masked:
-- 
2.43.0


From 23d512ba552998cbf0287502c4398e13763e4cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:30 +0000
Subject: [PATCH 22/73] fix: aggregate and local_stats modes of half precision
 rasters keep the dtype

---
 raster_tools/general.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 5486f77..6996c4d 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -345,6 +345,8 @@ def aggregate(raster, expand_cells, stype):
         nv = get_default_null_value(xdata.dtype)
         xdata = xr_where_with_meta(xmask, nv, xdata, nv=nv)
     else:
+        if stype == "mode":
+            xdata = xdata.astype(orig_dtype)
         xmask = xr.zeros_like(xdata, dtype=bool)
     ds = dataarray_to_xr_raster_ds(xdata, xmask, crs=raster.crs)
     return Raster(ds, _fast_path=True)
@@ -738,6 +740,8 @@ def local_stats(raster, stype):
             keepdims=True,
         )
     else:
+        if stype == "mode":
+            xdata = xdata.astype(orig_dtype)
         xmask = xr.zeros_like(xdata, dtype=bool)
 
     ds_out = dataarray_to_xr_raster_ds(xdata, xmask)
-- 
2.43.0


From 59ca3a1a7d31939ee2f0487c27cc8641f29e2d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:14 +0000
Subject: [PATCH 23/73] fix: regions, dilate and erode gave rasters without a
 null value one

---
 raster_tools/general.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 6996c4d..ee2072b 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -161,9 +161,10 @@ def regions(raster, neighbors=4, unique_values=None):
             raise TypeError("Invalid type for unique_values parameter")
 
     data = raster.data
-    # Copy to prevent input and output rasters from having same reference
-    mask = raster.mask.copy()
+    mask = None
     if raster._masked:
+        # Copy to prevent input and output rasters from having same reference
+        mask = raster.mask.copy()
         # Set null values to 0 to skip them in the labeling phase
         data = da.where(raster.mask, 0, data)
     data_out = [_create_labels(band, wd, unique_values) for band in data]
@@ -836,7 +837,7 @@ def _erosion_or_dilation_filter(raster, footprint, op):
         mask = ~mask
         data = da.where(mask, raster.null_value, data)
     else:
-        mask = mask.copy()
+        mask = None
     ds_out = data_to_xr_raster_ds_like(
         data, raster.xdata, mask=mask, nv=raster.null_value
     )
-- 
2.43.0


From 69f3196af10666573159f72d6d10262ff48e73aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:14 +0000
Subject: [PATCH 24/73] fix: regions with repeated unique_values mixed up the
 labels

---
 raster_tools/general.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index ee2072b..c80433f 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -92,6 +92,8 @@ __all__ = [
 def _create_labels(xarr, wd, uarr=None):
     if uarr is None:
         uarr = da.unique(xarr).compute()
+    else:
+        uarr = np.unique(uarr)
     # Drop 0 so they are skipped later
     uarr = uarr[uarr != 0]
 
-- 
2.43.0


From a8f47cf05b877a3074c34249b17dd516751dee92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:14 +0000
Subject: [PATCH 25/73] fix: erode on 64-bit integers overflowed next to the
 edges

---
 raster_tools/general.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index c80433f..7459678 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -795,6 +795,10 @@ def _get_footprint(size):
 
 def _get_fill(dtype, op):
     type_info = np.iinfo(dtype) if is_int(dtype) else np.finfo(dtype)
+    if op == "erosion" and dtype in (I64, U64):
+        # scipy filters in double precision, where the max rounds up and then
+        # overflows. Use the largest value that survives the round trip.
+        return int(np.nextafter(float(type_info.max), 0))
     return type_info.max if op == "erosion" else type_info.min
 
 
-- 
2.43.0


From 66e447a315bbb1c61cf52e4d896fdc59061bd7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:06 +0000
Subject: [PATCH 26/73] fix: rasterize left mock spatial partitions on the
 input features

Features outside of the first raster's bounds were ignored when the same
features were rasterized again with a different raster.
---
 raster_tools/rasterize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raster_tools/rasterize.py b/raster_tools/rasterize.py
index 7c763c4..d36b867 100644
--- a/raster_tools/rasterize.py
+++ b/raster_tools/rasterize.py
@@ -520,6 +520,8 @@ def _rasterize_spatial_naive(
     nparts = df.npartitions
     like_bbox = shapely.geometry.box(*like.bounds)
     sparts = gpd.GeoSeries([like_bbox for i in range(nparts)], crs=like.crs)
+    # Copy so that the mock partitions aren't left behind on the input features
+    df = df.copy()
     df.spatial_partitions = sparts
     return _rasterize_spatial_aware(
         df,
-- 
2.43.0


From eac18c4670e2b064f639219055841413c4aca858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:05 +0000
Subject: [PATCH 27/73] fix: rasterize with several partitions and NaN as the
 null value or field values

NaN fill was not recognized when partitions were merged so the last partition
replaced the others with NaN.
---
 raster_tools/rasterize.py | 68 ++++++++++++---------------------------
 1 file changed, 21 insertions(+), 47 deletions(-)

diff --git a/raster_tools/rasterize.py b/raster_tools/rasterize.py
index d36b867..2bca28e 100644
--- a/raster_tools/rasterize.py
+++ b/raster_tools/rasterize.py
@@ -173,71 +173,45 @@ def _mask_onto_chunk(
     )
 
 
+@nb.jit(nopython=True, nogil=True)
+def _is_fill(x, fill):
+    if np.isnan(fill):
+        return np.isnan(x)
+    return x == fill
+
+
 @nb.jit(nopython=True, nogil=True)
 def _resolve_first(x, fill):
     # Take first valid values along band dimension
-    out = np.where(x[-2] == fill, x[-1], x[-2])
+    out = np.where(_is_fill(x[-2], fill), x[-1], x[-2])
     return np.expand_dims(out, 0)
 
 
 @nb.jit(nopython=True, nogil=True)
 def _resolve_last(x, fill):
     # Take last valid values along band dimension
-    out = np.where(x[-1] == fill, x[-2], x[-1])
+    out = np.where(_is_fill(x[-1], fill), x[-2], x[-1])
     return np.expand_dims(out, 0)
 
 
-@nb.jit(nopython=True, nogil=True)
-def _all_axis0(x):
-    # Compute all along first axis
-    out = np.empty((1, x.shape[1], x.shape[2]), dtype=np.bool_)
-    nr, nc = x.shape[1:]
-    for r in range(nr):
-        for c in range(nc):
-            out[0, r, c] = np.all(x[:, r, c])
-    return out
-
-
-@nb.jit(nopython=True, nogil=True)
-def _min_axis0(x):
-    # Compute min along first axis
-    out = np.empty((1, x.shape[1], x.shape[2]), dtype=x.dtype)
-    nr, nc = x.shape[1:]
-    for r in range(nr):
-        for c in range(nc):
-            out[0, r, c] = np.min(x[:, r, c])
-    return out
-
-
-@nb.jit(nopython=True, nogil=True)
-def _max_axis0(x):
-    # Compute max along first axis
-    out = np.empty((1, x.shape[1], x.shape[2]), dtype=x.dtype)
-    nr, nc = x.shape[1:]
-    for r in range(nr):
-        for c in range(nc):
-            out[0, r, c] = np.max(x[:, r, c])
-    return out
-
-
 @nb.jit(nopython=True, nogil=True)
 def _resolve_min(x, fill):
-    # Take min values along band dimension
-    mask = x == fill
-    out = np.where(mask, np.nanmax(x), x)
-    out = _min_axis0(out)
-    out = np.where(_all_axis0(mask), fill, out)
-    return out
+    # Take min values along band dimension. Valid values replace NaN values
+    missing0 = _is_fill(x[-2], fill)
+    missing1 = _is_fill(x[-1], fill)
+    out = np.where(missing0, x[-1], np.fmin(x[-2], x[-1]))
+    out = np.where(missing1, x[-2], out)
+    return np.expand_dims(out, 0)
 
 
 @nb.jit(nopython=True, nogil=True)
 def _resolve_max(x, fill):
-    # Take max values along band dimension
-    mask = x == fill
-    out = np.where(mask, np.nanmin(x), x)
-    out = _max_axis0(out)
-    out = np.where(_all_axis0(mask), fill, out)
-    return out
+    # Take max values along band dimension. Valid values replace NaN values
+    missing0 = _is_fill(x[-2], fill)
+    missing1 = _is_fill(x[-1], fill)
+    out = np.where(missing0, x[-1], np.fmax(x[-2], x[-1]))
+    out = np.where(missing1, x[-2], out)
+    return np.expand_dims(out, 0)
 
 
 _RESOLVE_KW_TO_FUNC = {
-- 
2.43.0


From cd5a92f672abde74f82f9c6c1db26e14c0f270a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:10 +0000
Subject: [PATCH 28/73] fix: rasterize results had a different dtype than
 declared

---
 raster_tools/rasterize.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/raster_tools/rasterize.py b/raster_tools/rasterize.py
index 2bca28e..bcb7f7b 100644
--- a/raster_tools/rasterize.py
+++ b/raster_tools/rasterize.py
@@ -67,6 +67,7 @@ def _rio_mask(geoms, shape, transform, all_touched, invert):
         transform=transform,
         all_touched=all_touched,
         default_value=geom_value,
+        dtype="uint8",
     )
 
 
@@ -232,7 +233,11 @@ def _reduction_wrapper(
     # Assuming x has dims (B, Y, X), where B in {1, 2}
     # Do nothing if input only has one band. Nothing to reduce. Copy in order
     # to follow dask best practices.
-    out = x.copy() if x.shape[0] == 1 else resolve_func(x, fill=fill)
+    if x.shape[0] == 1:
+        out = x.copy()
+    else:
+        # Numba may promote the dtype
+        out = resolve_func(x, fill=fill).astype(x.dtype)
     if keepdims:
         return out
     return out[0]
-- 
2.43.0


From 7b9ab8da24c335858d420a2b147f276cb093cf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:31 +0000
Subject: [PATCH 29/73] fix: rasterizing a mask of only empty or missing
 geometries raised an error

---
 raster_tools/rasterize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster_tools/rasterize.py b/raster_tools/rasterize.py
index bcb7f7b..c669668 100644
--- a/raster_tools/rasterize.py
+++ b/raster_tools/rasterize.py
@@ -158,6 +158,9 @@ def _mask_onto_chunk(
     """
     fill = 1 if invert else 0
     shape_2d = block_info[None]["chunk-shape"]
+    gdf = gdf[~(gdf.geometry.is_empty | gdf.geometry.isna())]
+    if len(gdf) == 0:
+        return np.full(shape_2d, fill, dtype="uint8")
     # Trim anything outside the chunk
     chunk_bbox = shapely.geometry.box(
         *rio.transform.array_bounds(*shape_2d, transform)
-- 
2.43.0


From 090c1d74febe320d9ed3469f2510f163475c9eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:50 +0000
Subject: [PATCH 30/73] fix: spatial_shuffle failed with one partition and lost
 the number of features

---
 raster_tools/vector.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/raster_tools/vector.py b/raster_tools/vector.py
index bf5fff2..d740c76 100644
--- a/raster_tools/vector.py
+++ b/raster_tools/vector.py
@@ -866,12 +866,19 @@ class Vector:
             This causes partial computation to take place.
 
         """
+        if self._geo.npartitions == 1:
+            # Nothing to shuffle
+            return self.calculate_spatial_partitions(show_progress)
         if show_progress:
             with ProgressBar():
                 data = self._geo.spatial_shuffle()
         else:
             data = self._geo.spatial_shuffle()
-        return Vector(data)
+        result = Vector(data)
+        # The new index holds hilbert distances, which can't be used to
+        # determine the size.
+        result._size = self._size
+        return result
 
     def calculate_spatial_partitions(self, show_progress=False):
         """Calculate the spatial bounds of the underlying data.
-- 
2.43.0


From 3110143e1382267b5e09e345cacea88f06115d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:34 +0000
Subject: [PATCH 31/73] fix: regions numbers the labels in the order of
 unique_values

---
 raster_tools/general.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 7459678..1a5f44f 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -93,7 +93,9 @@ def _create_labels(xarr, wd, uarr=None):
     if uarr is None:
         uarr = da.unique(xarr).compute()
     else:
-        uarr = np.unique(uarr)
+        # Drop repeated values but keep the order of the rest
+        _, first = np.unique(uarr, return_index=True)
+        uarr = uarr[np.sort(first)]
     # Drop 0 so they are skipped later
     uarr = uarr[uarr != 0]
 
-- 
2.43.0


From 4a40fe26710342853b12bb0c4ac8b44f17ae725a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:34 +0000
Subject: [PATCH 32/73] fix: zonal_stats with a zone raster and several bands
 in small chunks

---
 raster_tools/zonal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raster_tools/zonal.py b/raster_tools/zonal.py
index 4bf08fb..0f69025 100644
--- a/raster_tools/zonal.py
+++ b/raster_tools/zonal.py
@@ -231,7 +231,9 @@ def _zonal_stats(features_raster, data_raster, stats):
     ]
     if features_raster.data.chunks[1:] != data_raster.data.chunks[1:]:
         # Force rasters to have matching chunksizes
-        features_raster = features_raster.chunk(data_raster.data.chunks)
+        features_raster = features_raster.chunk(
+            (1, *data_raster.data.chunks[1:])
+        )
     # Convert the features raster and data raster bands to dataframes and join
     # them together. Each cell becomes a row and each chunk becomes a
     # partition. The order is the same and the chunk boundaries are the same so
-- 
2.43.0


From 54a035c696bd9fa779a71ddd394be06320f7fa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:53 +0000
Subject: [PATCH 33/73] fix: zonal_stats used the values stored under null
 cells

---
 raster_tools/zonal.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/raster_tools/zonal.py b/raster_tools/zonal.py
index 0f69025..8f21680 100644
--- a/raster_tools/zonal.py
+++ b/raster_tools/zonal.py
@@ -238,14 +238,13 @@ def _zonal_stats(features_raster, data_raster, stats):
     # them together. Each cell becomes a row and each chunk becomes a
     # partition. The order is the same and the chunk boundaries are the same so
     # they should concat together, cleanly.
+    # Null cells of the zones are filtered out below by their value
+    features_raster = features_raster.burn_mask()
     raster_dfs = [_raster_to_series(features_raster).rename("zone")]
     for b in range(1, data_raster.nbands + 1):
-        band = _raster_to_series(data_raster.get_bands(b)).rename(f"band_{b}")
-        if data_raster.null_value is not None and not np.isnan(
-            data_raster.null_value
-        ):
-            # Replace null values with NA values
-            band = band.replace(data_raster.null_value, np.nan)
+        # Replace null cells with NA values
+        band_raster = get_raster(data_raster.get_bands(b), null_to_nan=True)
+        band = _raster_to_series(band_raster).rename(f"band_{b}")
         # Cast up to avoid floating point issues in sums. F32 sums loose
         # precision quickly even for smaller rasters. This affects any stat
         # that involves a sum such as std, var, and mean.
-- 
2.43.0


From 450aaa5cb40c888bb3b8a09fd8d16b5f17df744c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:52 +0000
Subject: [PATCH 34/73] fix: zonal_stats with median and other statistics on
 more than one chunk

---
 raster_tools/zonal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/raster_tools/zonal.py b/raster_tools/zonal.py
index 8f21680..0922906 100644
--- a/raster_tools/zonal.py
+++ b/raster_tools/zonal.py
@@ -276,7 +276,11 @@ def _zonal_stats(features_raster, data_raster, stats):
     if len(stats):
         agg_result_df = grouped.agg(stats)
         if has_median:
-            agg_result_df = agg_result_df.join(median_df)
+            # dask can't shuffle dataframes that have MultiIndex columns so
+            # join single partitions
+            agg_result_df = agg_result_df.repartition(npartitions=1).join(
+                median_df.repartition(npartitions=1)
+            )
     else:
         # Only median was provided
         agg_result_df = median_df
-- 
2.43.0


From b8cbd72e44a44920881f2354d6834f1236a7fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:11 +0000
Subject: [PATCH 35/73] fix: object ids changed when a selection of the
 partitions was computed

---
 raster_tools/vector.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/raster_tools/vector.py b/raster_tools/vector.py
index d740c76..33cc49d 100644
--- a/raster_tools/vector.py
+++ b/raster_tools/vector.py
@@ -232,10 +232,10 @@ def get_dask_geodataframe(src):
         )
 
 
-def _add_objid(feats, name, base, partition_info=None):
+def _add_objid(feats, number, name, base):
     feats = feats.copy()
     feats[name] = np.arange(1, len(feats) + 1, dtype=I64) + (
-        partition_info["number"] * base
+        number.iloc[0] * base
     )
     return feats
 
@@ -280,7 +280,14 @@ def add_objectid_column(features, name=None, _base=_OBJECTID_BASE):
                 name = f"{prefix}_{n}"
     meta = feats._meta.copy()
     meta[name] = np.array((), dtype=I64)
-    df_new = feats.map_partitions(_add_objid, name, _base, meta=meta)
+    # The partition numbers are part of the data because dask renumbers the
+    # partitions when a selection of partitions is computed.
+    numbers = dd.from_pandas(
+        pd.Series(np.arange(feats.npartitions)), npartitions=feats.npartitions
+    )
+    df_new = feats.map_partitions(
+        _add_objid, numbers, name, _base, meta=meta, align_dataframes=False
+    )
     if feats.spatial_partitions is not None:
         df_new.spatial_partitions = feats.spatial_partitions.copy()
     if return_vector:
-- 
2.43.0


From b9b0fb8332953aa125651dd101bb9f4bbabab83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:11 +0000
Subject: [PATCH 36/73] fix: Vector.to_shapely raised an error

---
 raster_tools/vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raster_tools/vector.py b/raster_tools/vector.py
index 33cc49d..85c40df 100644
--- a/raster_tools/vector.py
+++ b/raster_tools/vector.py
@@ -546,7 +546,8 @@ class Vector:
 
     def to_shapely(self):
         """Returns the vector data as a list of shapely geometries objects."""
-        return self.geometry.to_list()
+        (geometry,) = dask.compute(self.geometry)
+        return geometry.to_list()
 
     def to_raster(
         self,
-- 
2.43.0


From 0675a7286efac39c9e9c501d1c06bafe3b9e8018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:11 +0000
Subject: [PATCH 37/73] fix: Vector.crs raised an error for features without a
 CRS

---
 raster_tools/vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raster_tools/vector.py b/raster_tools/vector.py
index 85c40df..8cfbf4c 100644
--- a/raster_tools/vector.py
+++ b/raster_tools/vector.py
@@ -447,6 +447,8 @@ class Vector:
     @property
     def crs(self):
         """The vector CRS."""
+        if self._geo.crs is None:
+            return None
         return rio.crs.CRS.from_wkt(self._geo.crs.to_wkt())
 
     @property
-- 
2.43.0


From cca2a0933f540572f8c66a5f027f2365ab4edfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:36 +0000
Subject: [PATCH 38/73] fix: weighting_field of line_stats.length raised an
 error

---
 raster_tools/line_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/line_stats.py b/raster_tools/line_stats.py
index 1b4a711..80d271e 100644
--- a/raster_tools/line_stats.py
+++ b/raster_tools/line_stats.py
@@ -187,7 +187,7 @@ def _length(gdf, xc, yc, radius, field=None, dtype=F32):
         gdf = gdf[cols]
         if field is not None:
             # Use field as weights
-            gdf = gdf.rename({field: "weights"})
+            gdf = gdf.rename(columns={field: "weights"})
             if is_bool(gdf.weights.dtype):
                 gdf = gdf.astype({"weights": I8})
 
-- 
2.43.0


From 2adee93ff550bdbbb3e5979ccef819bb2f516fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 39/73] fix: to_points raised an error for float16 rasters

---
 raster_tools/raster.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 330e533..3ce0e14 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -3085,6 +3085,10 @@ def _extract(data, mask, band, x, y, inv_affine):
 
 @dask.delayed
 def _vectorize(data, mask, geochunk):
+    orig_dtype = data.dtype
+    if orig_dtype == F16:
+        # Numba doesn't support float16
+        data = data.astype(F32)
     values, bands, rows, cols, xs, ys = _extract(
         data,
         mask,
@@ -3101,7 +3105,7 @@ def _vectorize(data, mask, geochunk):
     points = gpd.points_from_xy(xs, ys, crs=geochunk.crs)
     vec = gpd.GeoDataFrame(
         {
-            "value": values,
+            "value": values.astype(orig_dtype, copy=False),
             "band": bands,
             "row": rows,
             "col": cols,
-- 
2.43.0


From 78779c0f22b05b303290ba26ad0f55849e75788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 40/73] fix: to_polygons overwrote the null cells of its input

---
 raster_tools/raster.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 3ce0e14..4fa73c5 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -3145,8 +3145,7 @@ def _shapes_delayed(chunk, mask, neighbors, transform, band, crs):
         # values are the most likely to produce warnings when down casting. The
         # null cells will be ignored in rio.features.shapes so the value
         # does not matter for computation.
-        chunk[mask] = 0
-        chunk = chunk.astype(working_dtype)
+        chunk = np.where(mask, 0, chunk).astype(working_dtype)
 
     # Invert because rasterio's shapes func uses False for masked cells.
     mask = ~mask
-- 
2.43.0


From a39824d287cccc0b3dfde1d1e3ce10ddb25f8c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 41/73] fix: to_polygons values have the dtype of the raster

---
 raster_tools/raster.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 4fa73c5..7c11069 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -3156,11 +3156,8 @@ def _shapes_delayed(chunk, mask, neighbors, transform, band, crs):
     ):
         shapes.append(shapely.geometry.shape(geojson))
         values.append(value)
-    values = np.array(values)
-
-    # Cast back to the original dtype, if needed
-    if working_dtype != orig_dtype:
-        values = values.astype(orig_dtype)
+    # Rasterio returns floats. Cast back to the original dtype
+    values = np.array(values).astype(orig_dtype)
     return gpd.GeoDataFrame(
         {
             "value": values,
-- 
2.43.0


From e6563cae3ab383920894e8e4a9856e5de776cff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 42/73] fix: clipping a multi-band raster gave data and mask
 different chunks

---
 raster_tools/clipping.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raster_tools/clipping.py b/raster_tools/clipping.py
index 57d54ea..80e414e 100644
--- a/raster_tools/clipping.py
+++ b/raster_tools/clipping.py
@@ -67,6 +67,8 @@ def _clip(
     )
     if data_raster.nbands > 1:
         clip_mask = stack_bands([clip_mask] * data_raster.nbands)
+        # Stacking rechunks. Keep the chunks of the data.
+        clip_mask = clip_mask.chunk(data_raster.data.chunks)
     xdata_out = xr_where_with_meta(
         clip_mask.xdata, data_raster.xdata, nv, crs=crs, nv=nv
     )
-- 
2.43.0


From 1ab143b9523cf2a2717b2912c7b2bb68b98b94e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 43/73] fix: masked unsigned costs raised an error, float16
 nulls were crossed

---
 raster_tools/distance/cost_distance.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/raster_tools/distance/cost_distance.py b/raster_tools/distance/cost_distance.py
index 51d7e97..a27a156 100644
--- a/raster_tools/distance/cost_distance.py
+++ b/raster_tools/distance/cost_distance.py
@@ -446,15 +446,10 @@ def cost_distance_analysis_numpy(
 def _normalize_raster_data(rs, missing=-1):
     data = rs.data
     # Make sure that null values are skipped
-    nv = rs.null_value
     if rs._masked:
-        if is_float(rs.dtype):
-            if not np.isnan(nv):
-                data = da.where(rs.mask, missing, data)
-            elif not np.isnan(missing):
-                data = da.where(np.isnan(data), missing, data)
-        else:
-            data = da.where(rs.mask, missing, data)
+        # The dtype must be able to hold the missing value
+        dtype = np.promote_types(rs.dtype, np.min_scalar_type(missing))
+        data = da.where(rs.mask, missing, data.astype(dtype))
     # Trim off band dim
     data = data[0]
     return data
@@ -584,7 +579,9 @@ def cost_distance_analysis(costs, sources, elevation=None, connectivity=8):
         if not sources._masked:
             raise ValueError("Sources raster must have a null value set")
         sources_null_value = sources.null_value
-        srcs = sources.data[0].astype(I64)
+        srcs = da.where(
+            sources.mask[0], sources_null_value, sources.data[0].astype(I64)
+        )
     else:
         try:
             sources = np.asarray(sources).astype(int)
-- 
2.43.0


From fb5b2841e4e82d0f7e0a90dc441a5573f9d20788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 44/73] fix: max_distance longer than a side of the raster
 raised an error

---
 raster_tools/distance/proximity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster_tools/distance/proximity.py b/raster_tools/distance/proximity.py
index 215fa09..511a8ea 100644
--- a/raster_tools/distance/proximity.py
+++ b/raster_tools/distance/proximity.py
@@ -585,6 +585,9 @@ def _proximity_analysis(
             # underestimate the depth.
             resolution = _estimate_min_resolution(x, y)
         xdepth, ydepth = np.ceil(max_distance / np.abs(resolution)).astype(int)
+        # The overlap can't be larger than the raster
+        xdepth = min(xdepth, len(x))
+        ydepth = min(ydepth, len(y))
     coords_block_info = {
         "chunks": raster.data.chunks[1:],
         "depth": (ydepth, xdepth),
-- 
2.43.0


From c6b29d6cd8f37b4552fe5f83f3dedbb75ef8eb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 45/73] fix: proximity of integer rasters found targets outside
 of the raster

---
 raster_tools/distance/proximity.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/raster_tools/distance/proximity.py b/raster_tools/distance/proximity.py
index 511a8ea..b74b300 100644
--- a/raster_tools/distance/proximity.py
+++ b/raster_tools/distance/proximity.py
@@ -450,8 +450,8 @@ def _get_coords_for_chunk(xc, yc, coords_block_info, block_info):
     ydepth, xdepth = coords_block_info["depth"]
     xc = da.from_array(xc, chunks=xchunks)
     yc = da.from_array(yc, chunks=ychunks)
-    xc = da.overlap.overlap(xc, depth=xdepth, boundary=0)
-    yc = da.overlap.overlap(yc, depth=ydepth, boundary=0)
+    xc = da.overlap.overlap(xc, depth=xdepth, boundary="none")
+    yc = da.overlap.overlap(yc, depth=ydepth, boundary="none")
     xc = xc.blocks[chunk_loc[1]].compute()
     yc = yc.blocks[chunk_loc[0]].compute()
     return xc, yc
@@ -608,7 +608,8 @@ def _proximity_analysis(
         _proximity_analysis_chunk,
         raster.data,
         depth=(0, ydepth, xdepth),
-        boundary=np.nan,
+        # NaN can't be used because integer data can't hold it
+        boundary="none",
         meta=np.array((), dtype=out_dtype),
         # func args
         target_values=target_values,
-- 
2.43.0


From d170f23dfe154f377d373fcba3f18b8f0625b11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 46/73] fix: proximity took the null cells of 8-bit rasters for
 targets

---
 raster_tools/distance/proximity.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/raster_tools/distance/proximity.py b/raster_tools/distance/proximity.py
index b74b300..13c2dfd 100644
--- a/raster_tools/distance/proximity.py
+++ b/raster_tools/distance/proximity.py
@@ -2,7 +2,7 @@ import dask.array as da
 import numba as nb
 import numpy as np
 
-from raster_tools.dtypes import F16, F32, F64
+from raster_tools.dtypes import F16, F32, F64, promote_dtype_to_float
 from raster_tools.masking import get_default_null_value
 from raster_tools.raster import Raster, data_to_raster_like, get_raster
 from raster_tools.utils import single_band_mappable
@@ -598,11 +598,14 @@ def _proximity_analysis(
         out_dtype = raster.dtype
     nodata = get_default_null_value(out_dtype)
     orig_raster_dtype = raster.dtype
+    if raster.dtype == F16 or (
+        raster._masked and promote_dtype_to_float(raster.dtype) == F16
+    ):
+        # Numba doesn't support float16. This must come before the null values
+        # are replaced because it would write them again.
+        raster = raster.astype(F32)
     # If masked, convert to float and replace null values with nan
     raster = get_raster(raster, null_to_nan=True)
-    if raster.dtype == F16:
-        # Numba doesn't support float16
-        raster = raster.astype(F32)
 
     out_data = da.map_overlap(
         _proximity_analysis_chunk,
-- 
2.43.0


From 1586273fdaa9b5257aaec84e4eb339aee0edf85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 47/73] fix: great circle max_distance missed targets in the
 southern hemisphere

---
 raster_tools/distance/proximity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raster_tools/distance/proximity.py b/raster_tools/distance/proximity.py
index 13c2dfd..bf32377 100644
--- a/raster_tools/distance/proximity.py
+++ b/raster_tools/distance/proximity.py
@@ -525,7 +525,8 @@ def _validate_lonlat_coords(lon, lat):
 
 def _estimate_min_resolution(lon, lat):
     x1 = lon[0]
-    y1 = lat.max()
+    # The cells are narrowest at the latitude farthest from the equator
+    y1 = lat[np.argmax(np.abs(lat))]
     x2 = lon[1]
     y2 = y1
     xmin = np.sqrt(_haversine_dist_sqr(x1, y1, x2, y2))
-- 
2.43.0


From e71eda507cc9e7b542b6a9bdb8626aa7b6179c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:18 +0000
Subject: [PATCH 48/73] fix: geo_map_overlap told blocks a wrong location for
 one-sided depths

---
 raster_tools/blocks.py | 57 ++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/raster_tools/blocks.py b/raster_tools/blocks.py
index c13e2a6..c284645 100644
--- a/raster_tools/blocks.py
+++ b/raster_tools/blocks.py
@@ -1568,26 +1568,32 @@ def _resolve_gbi_no_pad(block_info, block_args, gbi_lookup):
     return gbi_lookup[block_info[0]["chunk-location"]]
 
 
-def _resolve_gbi_with_overlap_pad(block_info, block_args, gbi_lookup):
-    """gbi resolver for geo_map_overlap: pad the base gbi to match the
-    overlap-included block shape.
-
-    Distributes the per-axis overlap symmetrically. Exact for interior
-    chunks and any non-``"none"`` boundary; approximate for
-    ``boundary=None``/``"none"`` edge chunks (the per-side split may
-    be slightly off-position).
+def _overlap_gbi_resolver(depth_dict, boundary):
+    """Build the gbi resolver for geo_map_overlap: pad the base gbi by the
+    overlap that dask added to each side of the block.
+
+    Without a boundary, dask adds nothing to the sides that lie on the
+    array's edges.
     """
-    base_gbi = gbi_lookup[block_info[0]["chunk-location"]]
-    base_shape = base_gbi.shape
-    actual_shape = block_args[0].shape
-    tot_dy = actual_shape[1] - base_shape[1]
-    tot_dx = actual_shape[2] - base_shape[2]
-    top, bottom = tot_dy // 2, tot_dy - tot_dy // 2
-    left, right = tot_dx // 2, tot_dx - tot_dx // 2
-    gbi = base_gbi.pad_y(top, bottom) if (top or bottom) else base_gbi
-    if left or right:
-        gbi = gbi.pad_x(left, right)
-    return gbi
+    no_boundary = boundary is None or (
+        isinstance(boundary, str) and boundary.lower() == "none"
+    )
+
+    def _pads(axis, location, numblocks):
+        d = depth_dict.get(axis, 0)
+        before, after = d if isinstance(d, tuple) else (d, d)
+        if no_boundary:
+            before = before if location > 0 else 0
+            after = after if location < numblocks - 1 else 0
+        return before, after
+
+    def _resolve_gbi_with_overlap_pad(block_info, block_args, gbi_lookup):
+        location = block_info[0]["chunk-location"]
+        gbi = gbi_lookup[location]
+        gbi = gbi.pad_y(*_pads(1, location[1], gbi_lookup.shape[1]))
+        return gbi.pad_x(*_pads(2, location[2], gbi_lookup.shape[2]))
+
+    return _resolve_gbi_with_overlap_pad
 
 
 def _as_array(x):
@@ -1618,7 +1624,7 @@ def _build_geo_wrapper(
     ``gbi_resolver(block_info, block_args, gbi_lookup) -> GeoBlockInfo``
     decides how to translate dask's chunk-location into the gbi the
     user sees. Pass ``_resolve_gbi_no_pad`` for the no-overlap
-    flavor; ``_resolve_gbi_with_overlap_pad`` for overlap.
+    flavor; the result of ``_overlap_gbi_resolver`` for overlap.
 
     ``out_dtype_hint`` is the caller-resolved output dtype (from
     ``dtype=`` / ``meta=``) or ``None``; it is preferred over
@@ -1783,6 +1789,8 @@ def _build_geo_map_blocks_wrapper(
 def _build_geo_map_overlap_wrapper(
     func,
     rasters,
+    depth_dict,
+    boundary,
     null_value=None,
     out_dtype_hint=None,
     return_mask=False,
@@ -1797,7 +1805,7 @@ def _build_geo_map_overlap_wrapper(
         func,
         rasters,
         null_value=null_value,
-        gbi_resolver=_resolve_gbi_with_overlap_pad,
+        gbi_resolver=_overlap_gbi_resolver(depth_dict, boundary),
         out_dtype_hint=out_dtype_hint,
         return_mask=return_mask,
         out_data_dtype=out_data_dtype,
@@ -2349,10 +2357,7 @@ def geo_map_overlap(
     downstream output meta will be wrong).
 
     With ``boundary=None`` or ``"none"``, edge chunks aren't padded on the
-    array-boundary side. The per-side overlap split is computed from actual
-    block shape vs base chunk shape and distributed symmetrically; for those
-    edge cases the ``geo_block_info`` extent may be slightly off-position. For
-    interior chunks and all non-``"none"`` boundaries this is exact.
+    array-boundary side.
 
     **Output null value resolution**
 
@@ -2432,6 +2437,8 @@ def geo_map_overlap(
     wrapper, inputs = _build_geo_map_overlap_wrapper(
         func,
         rasters,
+        depth_dict,
+        boundary,
         null_value=null_value,
         out_dtype_hint=data_hint,
         return_mask=return_mask,
-- 
2.43.0


From b0950598e61c6f938004d8f4beb6165c57f2c1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 49/73] fix: out_null_value and return_mask together raised an
 error

---
 raster_tools/blocks.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/raster_tools/blocks.py b/raster_tools/blocks.py
index c284645..2b7c86a 100644
--- a/raster_tools/blocks.py
+++ b/raster_tools/blocks.py
@@ -874,6 +874,9 @@ def _build_map_blocks_wrapper(
                 # block_info[None]["dtype"] as None when meta= is
                 # set, even though the meta's dtype IS the output.
                 chunk_dtype = block_info[None]["dtype"]
+                if return_mask and chunk_dtype is not None:
+                    # The structured (data, mask) block
+                    chunk_dtype = chunk_dtype["data"]
                 resolved_dtype = (
                     out_dtype_hint
                     if out_dtype_hint is not None
@@ -1720,6 +1723,9 @@ def _build_geo_wrapper(
                 inner_kwargs["out_null_value"] = meta_placeholder
             else:
                 chunk_dtype = block_info[None]["dtype"]
+                if return_mask and chunk_dtype is not None:
+                    # The structured (data, mask) block
+                    chunk_dtype = chunk_dtype["data"]
                 resolved_dtype = (
                     out_dtype_hint
                     if out_dtype_hint is not None
-- 
2.43.0


From 9d56fefb521e9395ef755b097d0540c5b7936a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:57 +0000
Subject: [PATCH 50/73] fix: reproject took masked cells for valid ones

---
 raster_tools/warp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raster_tools/warp.py b/raster_tools/warp.py
index 684cb0b..2679bfa 100644
--- a/raster_tools/warp.py
+++ b/raster_tools/warp.py
@@ -102,7 +102,8 @@ def reproject(
         if raster._masked
         else get_default_null_value(raster.dtype)
     )
-    reprojected = raster.xdata.odc.reproject(
+    # Null cells are recognized by their value
+    reprojected = raster.burn_mask().xdata.odc.reproject(
         dst_gb, resampling=resample_method, dst_nodata=nv
     ).rio.write_nodata(nv)
     # reproject sets a "nodata" attribute that has type int for whole-number
-- 
2.43.0


From 3d6ffdf6fa157f6a1630deb9e7a406f58e4aaa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 51/73] fix: mosaic took masked cells for valid ones

---
 raster_tools/_mosaic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raster_tools/_mosaic.py b/raster_tools/_mosaic.py
index c07eb40..d35579e 100644
--- a/raster_tools/_mosaic.py
+++ b/raster_tools/_mosaic.py
@@ -145,7 +145,8 @@ def _paint_recursive(stacked_data, dst_nodata, mosaic_method):
 def _mosaic_single_band(src_rasters, dst_raster, mosaic_method):
     dst_nodata = dst_raster.null_value
     # reverse so that the first raster's data will be just before dst_data
-    stacked_data = [sr.data for sr in src_rasters[::-1]]
+    # and make sure that null cells can be recognized by their value
+    stacked_data = [sr.burn_mask().data for sr in src_rasters[::-1]]
     dst_data = da.full_like(dst_raster.data, dst_nodata)
     stacked_data.append(dst_data)
     stacked_data = da.concatenate(stacked_data, axis=0)
-- 
2.43.0


From 4dbd668eb3711df50b6cb6d04165c582da99461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 52/73] fix: grids that only touch gave a one cell wide
 intersection

---
 raster_tools/_grids.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raster_tools/_grids.py b/raster_tools/_grids.py
index 8e316f3..4f797e2 100644
--- a/raster_tools/_grids.py
+++ b/raster_tools/_grids.py
@@ -138,7 +138,8 @@ def combine_grids(grids, how=None, dst_crs=None, resolution=None):
         )
     else:
         bbox = shapely.intersection_all(bboxes_dst).normalize()
-        if bbox.is_empty:
+        # Grids that only touch share no cells
+        if bbox.is_empty or bbox.area == 0:
             raise ValueError("The intersection of the given grids is empty")
         dst_grid = GeoBox.from_bbox(
             bbox.bounds, crs=dst_crs, resolution=resolution, tight=True
-- 
2.43.0


From 0a17f25dcd7c233fdce5471092ad3e624aec2dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 53/73] fix: mosaic first and last raised an error for float16
 rasters

---
 raster_tools/_mosaic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster_tools/_mosaic.py b/raster_tools/_mosaic.py
index d35579e..2db34e0 100644
--- a/raster_tools/_mosaic.py
+++ b/raster_tools/_mosaic.py
@@ -36,6 +36,9 @@ def _nb_push(x, missing_value):
 def _push(x, missing_value, axis=None, dtype=None):
     # dask's blelloch forces dtype in the interface so accept and ignore it.
     # Do copy to avoid read-only array issues in _nb_push
+    if x.dtype == np.float16:
+        # Numba does not support half precision
+        return _nb_push(x.astype("float32"), missing_value).astype(x.dtype)
     return _nb_push(x.copy(), missing_value)
 
 
-- 
2.43.0


From af22ac1929b648471597bcb9f9f130f4a74ebc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 54/73] fix: mosaic of float16 rasters with a float16 null
 value

---
 raster_tools/_mosaic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raster_tools/_mosaic.py b/raster_tools/_mosaic.py
index 2db34e0..ba81639 100644
--- a/raster_tools/_mosaic.py
+++ b/raster_tools/_mosaic.py
@@ -38,7 +38,9 @@ def _push(x, missing_value, axis=None, dtype=None):
     # Do copy to avoid read-only array issues in _nb_push
     if x.dtype == np.float16:
         # Numba does not support half precision
-        return _nb_push(x.astype("float32"), missing_value).astype(x.dtype)
+        return _nb_push(x.astype("float32"), float(missing_value)).astype(
+            x.dtype
+        )
     return _nb_push(x.copy(), missing_value)
 
 
-- 
2.43.0


From a66d4e927825d22f153e2f6490c0b9bf17ff31be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 55/73] fix: batch arithmetic called a method that does not
 exist and ignored unknown operators

---
 raster_tools/batch.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/raster_tools/batch.py b/raster_tools/batch.py
index 43e4e6d..1c1e0bf 100644
--- a/raster_tools/batch.py
+++ b/raster_tools/batch.py
@@ -1,3 +1,4 @@
+import operator
 import os
 import re
 
@@ -33,18 +34,18 @@ FTYPE_TO_EXT = {
 
 
 _ESRI_OP_TO_OP = {
-    "esriRasterPlus": "+",
-    "+": "+",
-    "esriRasterMinus": "-",
-    "-": "-",
-    "esriRasterMultiply": "*",
-    "*": "*",
-    "esriRasterDivide": "/",
-    "/": "/",
-    "esriRasterMode": "%",
-    "%": "%",
-    "esriRasterPower": "**",
-    "**": "**",
+    "esriRasterPlus": operator.add,
+    "+": operator.add,
+    "esriRasterMinus": operator.sub,
+    "-": operator.sub,
+    "esriRasterMultiply": operator.mul,
+    "*": operator.mul,
+    "esriRasterDivide": operator.truediv,
+    "/": operator.truediv,
+    "esriRasterMode": operator.mod,
+    "%": operator.mod,
+    "esriRasterPower": operator.pow,
+    "**": operator.pow,
 }
 _FUNC_PATTERN = re.compile(r"^(?P<func>[A-Za-z]+)\((?P<args>[^\(\)]+)\)$")
 
@@ -70,7 +71,6 @@ class _BatchScripParserState:
 
 def _batch_parse_arithmetic(state, args_str, line_no):
     left_arg, right_arg, op = _split_strip(args_str, ";")
-    op = _ESRI_OP_TO_OP[op]
     if op not in _ESRI_OP_TO_OP:
         _batch_error(f"Unknown arithmetic operation {repr(op)}", line_no)
     op = _ESRI_OP_TO_OP[op]
@@ -82,7 +82,9 @@ def _batch_parse_arithmetic(state, args_str, line_no):
         right = float(right_arg)
     except ValueError:
         right = state.get_raster(right_arg)
-    return left._binary_arithmetic(right, op)
+    if is_scalar(left) and is_scalar(right):
+        _batch_error("ARITHMETIC Error: requires at least 1 raster", line_no)
+    return op(left, right)
 
 
 def _batch_parse_extract_band(state, args_str, line_no):
-- 
2.43.0


From d15d80bc66bc0fce4fe32ebc6ce5769bf988ec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 56/73] fix: batch EXTRACTBAND failed for every argument

---
 raster_tools/batch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raster_tools/batch.py b/raster_tools/batch.py
index 1c1e0bf..60690e1 100644
--- a/raster_tools/batch.py
+++ b/raster_tools/batch.py
@@ -88,9 +88,10 @@ def _batch_parse_arithmetic(state, args_str, line_no):
 
 
 def _batch_parse_extract_band(state, args_str, line_no):
-    rs = state.get_raster(args_str.pop(0))
+    name, *band_args = _split_strip(args_str, ";")
+    rs = state.get_raster(name)
     bands = []
-    for sb in args_str:
+    for sb in band_args:
         try:
             b = _parse_user_number(sb)
             if not is_int(b):
-- 
2.43.0


From cad91c3de063a58830d880e84e65b28041958070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 57/73] fix: batch REMAP misread its ranges

---
 raster_tools/batch.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/raster_tools/batch.py b/raster_tools/batch.py
index 60690e1..c17a2ad 100644
--- a/raster_tools/batch.py
+++ b/raster_tools/batch.py
@@ -136,10 +136,7 @@ def _batch_parse_remap(state, args_str, line_no):
         remaps.append((left, right, new))
     if len(remaps) == 0:
         _batch_error("REMAP Error: No remap values found", line_no)
-    args = []
-    for group in remaps:
-        args.extend(group)
-    return state.get_raster(raster).remap_range(*args)
+    return state.get_raster(raster).remap_range(remaps)
 
 
 def _batch_parse_composite(state, args_str, line_no):
-- 
2.43.0


From dbf3995a983192e61110445ca487f22013660cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 58/73] fix: batch SETNULL failed for every argument

---
 raster_tools/batch.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/raster_tools/batch.py b/raster_tools/batch.py
index c17a2ad..22280c1 100644
--- a/raster_tools/batch.py
+++ b/raster_tools/batch.py
@@ -193,21 +193,22 @@ def _batch_parse_save(state, args_str, line_no):
 
 
 def _batch_parse_set_null(state, args_str, line_no):
-    rs = state.get_raster(args_str.pop(0))
+    name, *range_args = _split_strip(args_str, ";")
+    rs = state.get_raster(name)
     if not rs._masked:
-        rs.set_null_value(get_default_null_value(rs.dtype))
-    sranges = [_split_strip(r, "-") for r in args_str]
+        rs = rs.set_null_value(get_default_null_value(rs.dtype))
+    sranges = [_split_strip(r, "-") for r in range_args]
     ranges = []
     try:
         for sr in sranges:
             lh = _parse_user_number(sr[0])
             rh = _parse_user_number(sr[1])
-            ranges.extend((lh, rh, rs.null_value))
+            ranges.append((lh, rh, rs.null_value))
     except ValueError:
         _batch_error("Error parsing range value", line_no)
     except TypeError:
         _batch_error("Range bounds must be numbers", line_no)
-    return rs.remap_range(*ranges).set_null_value(rs.null_value)
+    return rs.remap_range(ranges).set_null_value(rs.null_value)
 
 
 _FUNC_TO_PARSER = {
-- 
2.43.0


From 433013c4cfaaa396074be4e7e2f10ba95fe10361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 59/73] fix: save wrote the stored values of null cells given
 by a mask

---
 raster_tools/raster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 7c11069..7c38e6f 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -1716,7 +1716,8 @@ class Raster(_RasterBase):
             rs = rs.astype("uint8").set_null_value(
                 get_default_null_value("uint8")
             )
-        xrs = rs.xdata
+        # Files only have the null value to mark null cells
+        xrs = rs.burn_mask().xdata
         write_raster(
             xrs,
             path,
-- 
2.43.0


From 1cde6e32669e206851e9f75f3d99084ef41056d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 60/73] fix: save_chunks gave tiles of an unmasked raster a
 null value

---
 raster_tools/raster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 7c38e6f..c36682b 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -1830,6 +1830,9 @@ class Raster(_RasterBase):
                 if nbands == 1
                 else stack_bands(list(tile_chunks))
             )
+            if not self._masked:
+                # stack_bands always gives its result a null value
+                tile = tile.set_null_value(None)
             out[r, c] = tile.save(path, **save_kwargs)
         return out
 
-- 
2.43.0


From 8e889d31224b755d97336655c461cc900f160143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 61/73] fix: save_chunks lost the cell size and position of
 single row or column tiles

---
 raster_tools/raster.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index c36682b..828a34f 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -1718,6 +1718,8 @@ class Raster(_RasterBase):
             )
         # Files only have the null value to mark null cells
         xrs = rs.burn_mask().xdata
+        # Rasters with 1 row or column only have a cell size in the transform
+        xrs = xrs.rio.write_transform(self.affine)
         write_raster(
             xrs,
             path,
@@ -1833,6 +1835,10 @@ class Raster(_RasterBase):
             if not self._masked:
                 # stack_bands always gives its result a null value
                 tile = tile.set_null_value(None)
+            tile = Raster(
+                tile._ds.rio.write_transform(tile_chunks[0].affine),
+                _fast_path=True,
+            )
             out[r, c] = tile.save(path, **save_kwargs)
         return out
 
@@ -2954,6 +2960,7 @@ class Raster(_RasterBase):
 
         """
         bchunks, ychunks, xchunks = self.data.chunks
+        affine = self.affine
         b = 0
         y = 0
         x = 0
@@ -2969,6 +2976,8 @@ class Raster(_RasterBase):
                         )
                         .copy()
                         .assign_coords(band=[1])
+                        # Chunks with 1 row or column have no cell size
+                        .rio.write_transform(affine * affine.translation(x, y))
                     )
                     rs = Raster(ds, _fast_path=True)
                     out[band, row, col] = rs
-- 
2.43.0


From af4eeea29b6d36bb285dcbba68384ba5886c0427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 62/73] fix: saving uint64 rasters with a large null value lost
 the null cells

---
 raster_tools/io.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/raster_tools/io.py b/raster_tools/io.py
index 6a29ded..83469e6 100644
--- a/raster_tools/io.py
+++ b/raster_tools/io.py
@@ -10,7 +10,7 @@ import xarray as xr
 from affine import Affine
 from dask.array.core import normalize_chunks as dask_chunks
 
-from raster_tools.dtypes import F32, F64, I64, U8, is_bool, is_float, is_int
+from raster_tools.dtypes import F32, F64, I64, U8, U64, is_bool, is_float, is_int
 from raster_tools.exceptions import (
     AffineEncodingError,
     DimensionsError,
@@ -364,7 +364,8 @@ def write_raster(
     resolved_driver = _resolve_driver(path, driver)
 
     rio_is_bool = False
-    if xrs.dtype == I64:
+    if xrs.dtype in (I64, U64):
+        dtype = xrs.dtype.name
         nv = xrs.rio.nodata
         # GDAL stores a GeoTIFF nodata value as a C double. Its Int64
         # nodata handling is only reliable for magnitudes up to 2**53;
@@ -376,10 +377,10 @@ def write_raster(
             # Older GDAL builds lack native int64 raster support; cast up
             # to F64 so to_raster won't reject the array.
             warnings.warn(
-                "This GDAL build lacks native int64 raster support; the"
+                f"This GDAL build lacks native {dtype} raster support; the"
                 " array will be written as float64. Values above 2**53"
                 " may lose precision, and the file will read back as"
-                " float64 (cast it back with .astype('int64') after"
+                f" float64 (cast it back with .astype('{dtype}') after"
                 " loading if needed).",
                 UserWarning,
                 stacklevel=2,
@@ -391,11 +392,11 @@ def write_raster(
             # lose the mask. Cast to F64, which stores the null exactly
             # as a double and keeps the mask intact.
             warnings.warn(
-                "The int64 null value cannot be represented in a"
+                f"The {dtype} null value cannot be represented in a"
                 " GeoTIFF nodata field; the array will be written as"
                 " float64 to preserve the null mask. Values above 2**53"
                 " may lose precision, and the file will read back as"
-                " float64 (cast it back with .astype('int64') after"
+                f" float64 (cast it back with .astype('{dtype}') after"
                 " loading if needed).",
                 UserWarning,
                 stacklevel=2,
-- 
2.43.0


From 448f03028ad1b2986c30259cac26801780c17921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 63/73] fix: Raster.xy and Raster.index refused lists and
 tuples

---
 raster_tools/raster.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 828a34f..3413bc3 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -2998,12 +2998,18 @@ _offset_name_to_rc_offset = {
 }
 
 
+def _as_index_arrays(*values):
+    # affine can multiply arrays and scalars, but not lists
+    return tuple(v if np.isscalar(v) else np.asarray(v) for v in values)
+
+
 def rowcol_to_xy(row, col, affine, offset):
     """
     Convert (row, col) index values to (x, y) coords using the transformation.
     """
     roffset, coffset = _offset_name_to_rc_offset[offset]
     transform = Affine.identity().translation(coffset, roffset)
+    row, col = _as_index_arrays(row, col)
     return affine * transform * (col, row)
 
 
@@ -3011,6 +3017,7 @@ def xy_to_rowcol(x, y, affine):
     """
     Convert (x, y) coords to (row, col) index values using the transformation.
     """
+    x, y = _as_index_arrays(x, y)
     col, row = (~affine) * (x, y)
     row = np.floor(row).astype(int)
     col = np.floor(col).astype(int)
-- 
2.43.0


From 88bbc1ad0231a271ce96301740633e820787b74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 64/73] fix: open_dataset changed the xarray_kwargs dictionary
 of its caller

---
 raster_tools/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raster_tools/io.py b/raster_tools/io.py
index 83469e6..e6df24a 100644
--- a/raster_tools/io.py
+++ b/raster_tools/io.py
@@ -576,8 +576,8 @@ def open_dataset(
         raster.
 
     """
-    if xarray_kwargs is None:
-        xarray_kwargs = {}
+    # Copy to leave the caller's dict as it is
+    xarray_kwargs = dict(xarray_kwargs or {})
     xarray_kwargs["decode_coords"] = "all"
     ext = _get_extension(path)
     if ext in NC_EXTS:
-- 
2.43.0


From 785d33f51faf3537f60c16df340c4ac1cd1ab907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 65/73] fix: band_concat of a single raster returned that
 raster

---
 raster_tools/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 1a5f44f..038431a 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -967,7 +967,7 @@ def band_concat(rasters):
     if not rasters:
         raise ValueError("No rasters provided")
     if len(rasters) == 1:
-        return rasters[0]
+        return rasters[0].copy()
 
     # TODO: make join a user option or set join="exact"?
     ds = xr.concat([r.to_dataset() for r in rasters], dim="band", join="inner")
-- 
2.43.0


From 01be01c3c23835e074c52d3070552f0bf40959af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:48 +0000
Subject: [PATCH 66/73] fix: a mask with other chunks than the data failed in
 chunk-wise methods

---
 raster_tools/raster.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 3413bc3..09c6b90 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -819,6 +819,12 @@ def make_raster_ds(raster_dataarray, mask_dataarray):
     Takes data and mask DataArrays and produces a raster Dataset with the data
     in the data variable "raster" and the mask in the "mask" data variable.
     """
+    if mask_dataarray.chunks != raster_dataarray.chunks:
+        mask_dataarray = mask_dataarray.chunk(
+            dict(
+                zip(mask_dataarray.dims, raster_dataarray.chunks, strict=True)
+            )
+        )
     return xr.Dataset({"raster": raster_dataarray, "mask": mask_dataarray})
 
 
-- 
2.43.0


From 767d7b362b9af523781fc585252290d63ee48960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:48 +0000
Subject: [PATCH 67/73] fix: a lazy Dataset with its axes in another direction
 was taken as it is

---
 raster_tools/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 09c6b90..84ee67b 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -1231,7 +1231,7 @@ def _dataset_to_raster_ds(ds_in):
         and dask.is_dask_collection(ds_in.raster)
         and dask.is_dask_collection(ds_in.mask)
         and is_bool(ds_in.mask.dtype)
-        and ds_in.raster.dims == ("band", "y", "x")
+        and is_normalized(ds_in.raster)
         and ds_in.mask.dims == ("band", "y", "x")
         and ds_in.raster.chunks == ds_in.mask.chunks
         and ds_in.raster.rio.crs == ds_in.mask.rio.crs
-- 
2.43.0


From 81c1bb8ccb86333d104538de0fa6edfb005531c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:48 +0000
Subject: [PATCH 68/73] fix: to_polygons changed values that its working dtype
 cannot hold

---
 raster_tools/raster.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 84ee67b..5acc4b5 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -3161,12 +3161,16 @@ def _get_rio_shapes_dtype(dtype):
 
 @dask.delayed
 def _shapes_delayed(chunk, mask, neighbors, transform, band, crs):
-    # Rasterio's shapes function only supports a small set of dtypes. This may
-    # cause the dtype to be downcast.
-    # ref: rasterio._features._shapes
+    # Rasterio's shapes function only supports a small set of dtypes.
     orig_dtype = chunk.dtype
     working_dtype = _get_rio_shapes_dtype(orig_dtype)
-    if working_dtype != orig_dtype:
+    levels = None
+    if not np.can_cast(orig_dtype, working_dtype):
+        # The working dtype can't hold all of the values. Vectorize the
+        # positions of the values among the sorted unique values, instead.
+        levels, codes = np.unique(chunk, return_inverse=True)
+        chunk = codes.reshape(chunk.shape).astype(I32)
+    elif working_dtype != orig_dtype:
         # Replace null values with a value that will work for all dtypes. Null
         # values are the most likely to produce warnings when down casting. The
         # null cells will be ignored in rio.features.shapes so the value
@@ -3183,7 +3187,10 @@ def _shapes_delayed(chunk, mask, neighbors, transform, band, crs):
         shapes.append(shapely.geometry.shape(geojson))
         values.append(value)
     # Rasterio returns floats. Cast back to the original dtype
-    values = np.array(values).astype(orig_dtype)
+    if levels is None:
+        values = np.array(values).astype(orig_dtype)
+    else:
+        values = levels[np.array(values).astype(int)]
     return gpd.GeoDataFrame(
         {
             "value": values,
-- 
2.43.0


From acfd4c053565f8bfcc03447e04b6560f4184f70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:00 +0000
Subject: [PATCH 69/73] fix: reproject refused the documented tuple resolutions

---
 raster_tools/warp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/raster_tools/warp.py b/raster_tools/warp.py
index 2679bfa..ffe6c0f 100644
--- a/raster_tools/warp.py
+++ b/raster_tools/warp.py
@@ -1,4 +1,6 @@
+import numpy as np
 import rasterio as rio
+from odc.geo import resxy_
 from odc.geo.geobox import GeoBox
 
 from raster_tools.masking import get_default_null_value
@@ -91,8 +93,11 @@ def reproject(
     else:
         dst_gb = crs_or_geobox
     if resolution is not None:
-        if resolution <= 0:
+        if np.any(np.asarray(resolution) <= 0):
             raise ValueError("Resolution must be a postive value")
+        if isinstance(resolution, (tuple, list)):
+            x_res, y_res = resolution
+            resolution = resxy_(x_res, -y_res)
         dst_gb = dst_gb.zoom_to(resolution=resolution)
     if dst_gb == raster.geobox:
         return raster.copy()
-- 
2.43.0


From 40a6e49b87ed1e411d5393362aac2a5776323019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:00 +0000
Subject: [PATCH 70/73] fix: reprojecting onto a grid with nothing in common
 raised an error

---
 raster_tools/warp.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/raster_tools/warp.py b/raster_tools/warp.py
index ffe6c0f..d5bdcae 100644
--- a/raster_tools/warp.py
+++ b/raster_tools/warp.py
@@ -1,10 +1,17 @@
+import dask.array as da
 import numpy as np
 import rasterio as rio
 from odc.geo import resxy_
 from odc.geo.geobox import GeoBox
+from shapely.errors import ShapelyError
 
 from raster_tools.masking import get_default_null_value
-from raster_tools.raster import Raster, dataarray_to_xr_raster_ds, get_raster
+from raster_tools.raster import (
+    Raster,
+    data_to_raster,
+    dataarray_to_xr_raster_ds,
+    get_raster,
+)
 
 __all__ = [
     "reproject",
@@ -13,6 +20,19 @@ __all__ = [
 SUPPORTED_RESAMPLE_METHODS = {m.name for m in rio.warp.SUPPORTED_RESAMPLING}
 
 
+def _is_disjoint(src_gb, dst_gb):
+    """Check if grids with differing CRSs don't overlap at all."""
+    if src_gb.crs is None or dst_gb.crs is None or src_gb.crs == dst_gb.crs:
+        return False
+    try:
+        src_footprint = src_gb.footprint(4326, 2)
+        dst_footprint = dst_gb.footprint(4326, 2)
+        return (src_footprint & dst_footprint).is_empty
+    except (ValueError, ShapelyError):
+        # Leave difficult footprints, like ones at the antimeridian, to odc-geo
+        return False
+
+
 def reproject(
     raster, crs_or_geobox=None, resample_method="nearest", resolution=None
 ):
@@ -107,6 +127,16 @@ def reproject(
         if raster._masked
         else get_default_null_value(raster.dtype)
     )
+    if _is_disjoint(raster.geobox, dst_gb):
+        # odc-geo can't handle grids that have nothing in common
+        y, x = [c.values for c in dst_gb.coordinates.values()]
+        data = da.full(
+            (raster.nbands, *dst_gb.shape),
+            nv,
+            dtype=raster.dtype,
+            chunks=(1, *raster.data.chunksize[1:]),
+        )
+        return data_to_raster(data, x=x, y=y, crs=dst_gb.crs, nv=nv)
     # Null cells are recognized by their value
     reprojected = raster.burn_mask().xdata.odc.reproject(
         dst_gb, resampling=resample_method, dst_nodata=nv
-- 
2.43.0


From 8e6d02250eed9faebf4d5ab83f98d97a162a8b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:00 +0000
Subject: [PATCH 71/73] fix: mosaic and stack gave rasters with non-square
 cells square cells

---
 raster_tools/_grids.py | 18 ++++++++++++++----
 raster_tools/_stack.py |  5 +++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/raster_tools/_grids.py b/raster_tools/_grids.py
index 4f797e2..7eb27da 100644
--- a/raster_tools/_grids.py
+++ b/raster_tools/_grids.py
@@ -1,7 +1,7 @@
 import dask.array as da
 import geopandas as gpd
-import numpy as np
 import shapely
+from odc.geo import resxy_
 from odc.geo.geobox import GeoBox
 
 
@@ -126,7 +126,11 @@ def combine_grids(grids, how=None, dst_crs=None, resolution=None):
     if dst_crs is None:
         dst_crs = grids[0].crs
     if resolution is None:
-        resolution = np.abs(grids[0].resolution.x)
+        res = grids[0].resolution
+        resolution = (abs(res.x), abs(res.y))
+    if not isinstance(resolution, (tuple, list)):
+        resolution = (resolution, resolution)
+    x_res, y_res = resolution
     grids_dst = [
         reproject_grid(g, dst_crs, resolution=resolution) for g in grids
     ]
@@ -134,7 +138,10 @@ def combine_grids(grids, how=None, dst_crs=None, resolution=None):
     if how == "union":
         total_bounds_dst = gpd.GeoSeries(bboxes_dst, crs=dst_crs).total_bounds
         dst_grid = GeoBox.from_bbox(
-            total_bounds_dst, crs=dst_crs, resolution=resolution, tight=True
+            total_bounds_dst,
+            crs=dst_crs,
+            resolution=resxy_(x_res, -y_res),
+            tight=True,
         )
     else:
         bbox = shapely.intersection_all(bboxes_dst).normalize()
@@ -142,6 +149,9 @@ def combine_grids(grids, how=None, dst_crs=None, resolution=None):
         if bbox.is_empty or bbox.area == 0:
             raise ValueError("The intersection of the given grids is empty")
         dst_grid = GeoBox.from_bbox(
-            bbox.bounds, crs=dst_crs, resolution=resolution, tight=True
+            bbox.bounds,
+            crs=dst_crs,
+            resolution=resxy_(x_res, -y_res),
+            tight=True,
         )
     return dst_grid
diff --git a/raster_tools/_stack.py b/raster_tools/_stack.py
index bbbaf22..5d77075 100644
--- a/raster_tools/_stack.py
+++ b/raster_tools/_stack.py
@@ -194,8 +194,9 @@ def stack_bands(
         dst_crs = (
             dst_crs if dst_crs is None else rio.CRS.from_user_input(dst_crs)
         )
-        src_res_matches = resolution is None or np.isclose(
-            abs(src_grids[0].resolution.x), resolution
+        src_res = src_grids[0].resolution
+        src_res_matches = resolution is None or np.allclose(
+            (abs(src_res.x), abs(src_res.y)), resolution
         )
         if (
             src_grids_same
-- 
2.43.0


From 25cb3ce795402b24be4508c69756677f9181218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:00 +0000
Subject: [PATCH 72/73] fix: great circle proximity failed for rasters with a
 single row or column

---
 raster_tools/distance/proximity.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/raster_tools/distance/proximity.py b/raster_tools/distance/proximity.py
index bf32377..9d59c38 100644
--- a/raster_tools/distance/proximity.py
+++ b/raster_tools/distance/proximity.py
@@ -524,17 +524,21 @@ def _validate_lonlat_coords(lon, lat):
 
 
 def _estimate_min_resolution(lon, lat):
-    x1 = lon[0]
-    # The cells are narrowest at the latitude farthest from the equator
-    y1 = lat[np.argmax(np.abs(lat))]
-    x2 = lon[1]
-    y2 = y1
-    xmin = np.sqrt(_haversine_dist_sqr(x1, y1, x2, y2))
-    x1 = lon[0]
-    x2 = lon[0]
-    # Get two largest latitudes
-    y1, y2 = np.partition(lat, -2)[-2:]
-    ymin = np.sqrt(_haversine_dist_sqr(x1, y1, x2, y2))
+    # No overlap is needed along an axis with only one cell
+    xmin = ymin = np.inf
+    if len(lon) > 1:
+        x1 = lon[0]
+        # The cells are narrowest at the latitude farthest from the equator
+        y1 = lat[np.argmax(np.abs(lat))]
+        x2 = lon[1]
+        y2 = y1
+        xmin = np.sqrt(_haversine_dist_sqr(x1, y1, x2, y2))
+    if len(lat) > 1:
+        x1 = lon[0]
+        x2 = lon[0]
+        # Get two largest latitudes
+        y1, y2 = np.partition(lat, -2)[-2:]
+        ymin = np.sqrt(_haversine_dist_sqr(x1, y1, x2, y2))
     return xmin, ymin
 
 
-- 
2.43.0


From da73ffe8345baad3889a2ad7c450975efa30b292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:49 +0000
Subject: [PATCH 73/73] fix: loading a raster could give it a null value

A lazy Dataset with a single row or column, or with repeated bands, was
no longer recognized as a raster when it was loaded.
---
 raster_tools/raster.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 5acc4b5..0df5174 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -691,8 +691,9 @@ def is_normalized(xdata):
         and dask.is_dask_collection(xdata)
         and xdata.data.chunksize[0] == 1
         and np.allclose(xdata.band, np.arange(1, len(xdata.band) + 1))
-        and is_strictly_increasing(xdata.x)
-        and is_strictly_decreasing(xdata.y)
+        # Axes with a single cell have no direction
+        and (xdata.x.size == 1 or is_strictly_increasing(xdata.x))
+        and (xdata.y.size == 1 or is_strictly_decreasing(xdata.y))
     )
 
 
@@ -1859,7 +1860,7 @@ class Raster(_RasterBase):
         """
         ds = chunk(self._ds.compute())
         # A new raster is returned to mirror the xarray and dask APIs
-        return Raster(ds)
+        return Raster(ds, _fast_path=True)
 
     def eval(self):  # noqa: A003
         """Compute any applied operations and return the result as new Raster.
-- 
2.43.0

