From 5c76f9c145965f689d8617008c89dc05cf267753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:48 +0000
Subject: [PATCH 01/47] fix: two-output ufuncs (divmod, modf, frexp) on rasters
 without a null value

The null mask was built from the tuple of outputs, which raised a bare
TypeError. Build it from the first output; both share shape and chunks.
---
 raster_tools/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 86d0845..67300a6 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -227,7 +227,7 @@ def _apply_ufunc(ufunc, this, left, right=None, kwargs=None, out=None):
     xr_out = ufunc(*ufunc_args, **kwargs)
     multi_out = ufunc.nout > 1
     if not masked:
-        mask = get_mask_from_data(xr_out, None)
+        mask = get_mask_from_data(xr_out[0] if multi_out else xr_out, None)
         if not multi_out:
             xmask = xr.DataArray(mask, dims=xr_out.dims, coords=xr_out.coords)
             xr_out = xr_out.rio.write_nodata(None)
-- 
2.43.0


From c597784bbb41afbec35f3fbe108281c75d59c222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:55 +0000
Subject: [PATCH 02/47] fix: set_null_value(nan) on int64, uint64 and boolean
 rasters

---
 raster_tools/raster.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 67300a6..47600d9 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -33,7 +33,6 @@ from raster_tools.dtypes import (
     I16,
     I32,
     I64,
-    INT_DTYPE_TO_FLOAT_DTYPE,
     U8,
     U16,
     U32,
@@ -2047,8 +2046,8 @@ class Raster(_RasterBase):
         dtype = self.dtype
         new_dtype = None
         if np.isnan(value):
-            if is_int(dtype):
-                new_dtype = INT_DTYPE_TO_FLOAT_DTYPE[dtype]
+            if not is_float(dtype):
+                new_dtype = promote_dtype_to_float(dtype)
             # else do nothing
         elif is_int(value) and is_float(dtype):
             # INFO: Numpy refuses to let small int values be put in small float
-- 
2.43.0


From e4e63f53078bea5d7d76f3e1b755f8698447b498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:55 +0000
Subject: [PATCH 03/47] fix: boolean rasters with a null value of False store
 False in null cells

---
 raster_tools/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 47600d9..6c43875 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -2151,7 +2151,7 @@ class Raster(_RasterBase):
         if not self._masked:
             return self.copy()
         nv = self.null_value
-        if is_bool(self.dtype):
+        if is_bool(self.dtype) and not is_bool(nv):
             # Sanity check to make sure that boolean rasters get a boolean null
             # value
             nv = get_default_null_value(self.dtype)
-- 
2.43.0


From 2ff149e5b3b11769ea770a9c0d5c4d4bd36457f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:08 +0000
Subject: [PATCH 04/47] fix: keep a null value that fits the new type when
 casting

---
 raster_tools/masking.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/raster_tools/masking.py b/raster_tools/masking.py
index 9f5eab0..d8094a2 100644
--- a/raster_tools/masking.py
+++ b/raster_tools/masking.py
@@ -21,6 +21,7 @@ from raster_tools.dtypes import (
     get_dtype_min_max,
     is_bool,
     is_float,
+    is_int,
 )
 
 
@@ -102,6 +103,15 @@ def reconcile_nullvalue_with_dtype(null_value, dtype, warn=False):
         nv = np.min_scalar_type(original_nv).type(original_nv)
     if np.can_cast(nv, dtype) or (is_bool(dtype) and nv in (0, 1)):
         return dtype.type(nv)
+    if is_int(dtype) and is_int(nv):
+        # can_cast only looks at types. The value itself may still fit.
+        min_, max_ = get_dtype_min_max(dtype)
+        if int(min_) <= int(nv) <= int(max_):
+            return dtype.type(nv)
+    if is_float(dtype) and not is_bool(nv):
+        with np.errstate(over="ignore"):
+            if dtype.type(nv) == nv:
+                return dtype.type(nv)
     nv = get_default_null_value(dtype)
     if warn:
         warnings.warn(
-- 
2.43.0


From 09faf2e1a3a7b302a0a8268e6d701e056a242e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 05/47] fix: astype uses the requested null value, however
 close to the old one

---
 raster_tools/raster.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 6c43875..8838464 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -1905,15 +1905,16 @@ class Raster(_RasterBase):
 
         xrs_casted = xrs.astype(dtype)
         if new_null_value is not None:
-            if self._masked and not np.allclose(
-                new_null_value, self.null_value, equal_nan=True
-            ):
+            if self._masked:
                 with warnings.catch_warnings():
                     warnings.simplefilter("error")
                     try:
-                        nv = reconcile_nullvalue_with_dtype(
-                            new_null_value, dtype, warn=True
-                        )
+                        if is_float(dtype) and np.isnan(new_null_value):
+                            nv = dtype.type(np.nan)
+                        else:
+                            nv = reconcile_nullvalue_with_dtype(
+                                new_null_value, dtype, warn=True
+                            )
                     except UserWarning:
                         raise ValueError(
                             "Could not use provided null value with the new "
@@ -1922,7 +1923,6 @@ class Raster(_RasterBase):
                     xrs_casted = xr.where(
                         mask, nv, xrs_casted
                     ).rio.write_nodata(nv)
-            # else: do nothing since the null values already match
         elif self._masked:
             nv = reconcile_nullvalue_with_dtype(
                 nv, dtype, warn_about_null_change
-- 
2.43.0


From c00e6c2f16bef69c5612295c1c16bf0ac3499522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:22 +0000
Subject: [PATCH 06/47] fix: keep the resolution of rasters with a single row
 or column

---
 raster_tools/raster.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 8838464..1396271 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -759,10 +759,21 @@ def data_to_xr_raster(data, x=None, y=None, affine=None, crs=None, nv=None):
     ).rio.set_spatial_dims(y_dim="y", x_dim="x")
     if crs is not None:
         xdata = xdata.rio.write_crs(crs)
+    if affine is not None:
+        # A dim with a single coordinate can't be used to find the resolution
+        xdata = xdata.rio.write_transform(affine)
     xdata = xdata.rio.write_nodata(nv)
     return normalize_xarray_data(xdata)
 
 
+def _copy_transform(src, dst):
+    # The resolution can't be computed from the coordinates if there is only
+    # one row or column so it has to be carried over from the source.
+    if 1 in src.shape[-2:] and src.size > 0:
+        dst = dst.rio.write_transform(src.rio.transform(True))
+    return dst
+
+
 def data_to_xr_raster_like(
     data, xlike, nv=None, match_band_dim=False, match_chunks=True
 ):
@@ -804,13 +815,14 @@ def data_to_xr_raster_like(
 
     if data.shape[0] == 1 and match_band_dim:
         data = da.stack([data[0] for i in range(xlike.shape[0])], axis=0)
-    return data_to_xr_raster(
+    xdata = data_to_xr_raster(
         data,
         x=xlike.x.to_numpy(),
         y=xlike.y.to_numpy(),
         crs=xlike.rio.crs,
         nv=nv,
     )
+    return _copy_transform(xlike, xdata)
 
 
 def make_raster_ds(raster_dataarray, mask_dataarray):
@@ -933,7 +945,7 @@ def data_to_xr_raster_ds_like(
         mask = normalize_data(mask, yx_chunks=yx_chunks)
         if mask.shape != data.shape:
             raise ValueError("data and mask dimensions do not match")
-    return data_to_xr_raster_ds(
+    ds = data_to_xr_raster_ds(
         data,
         mask=mask,
         x=xlike.x.to_numpy(),
@@ -942,6 +954,7 @@ def data_to_xr_raster_ds_like(
         nv=nv,
         burn=burn,
     )
+    return _copy_transform(xlike, ds)
 
 
 def data_to_raster(
@@ -2844,6 +2857,7 @@ class Raster(_RasterBase):
             ds = make_raster_ds(xdata_quad, xmask_quad)
             if self.crs is not None:
                 ds = ds.rio.write_crs(self.crs)
+            ds = _copy_transform(self.xdata[s], ds)
             results.append(Raster(ds, _fast_path=True))
         return RasterQuadrantsResult(*results)
 
-- 
2.43.0


From 4a1a5ac0eed91d8bb7a83d05691a1d82a89db1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:46 +0000
Subject: [PATCH 07/47] fix: get_chunk_bounding_boxes with chunks of a single
 row or column

---
 raster_tools/raster.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 1396271..8001a8e 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -2901,6 +2901,7 @@ class Raster(_RasterBase):
 
         """  # noqa: E501
         _, ychunks, xchunks = self.data.chunks
+        xhalf, yhalf = (abs(res) / 2 for res in self.resolution)
         i = 0
         j = 0
         chunk_boxes = []
@@ -2911,9 +2912,12 @@ class Raster(_RasterBase):
                 y = self.y[i : i + yc]
                 x = self.x[j : j + xc]
                 j += xc
-                bounds = xr.DataArray(
-                    da.empty((yc, xc)), dims=("y", "x"), coords=(y, x)
-                ).rio.bounds()
+                bounds = (
+                    x[0] - xhalf,
+                    y[-1] - yhalf,
+                    x[-1] + xhalf,
+                    y[0] + yhalf,
+                )
                 chunk_boxes.append(box(*bounds))
                 rows.append(row)
                 cols.append(col)
-- 
2.43.0


From 88e91a87332a00d2a0f173f3a715f3c27c24f665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:10 +0000
Subject: [PATCH 08/47] fix: stack_bands keeps the resolution of single row or
 column grids

---
 raster_tools/_stack.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/raster_tools/_stack.py b/raster_tools/_stack.py
index bbbaf22..9009609 100644
--- a/raster_tools/_stack.py
+++ b/raster_tools/_stack.py
@@ -240,9 +240,8 @@ def stack_bands(
 
     data = da.concatenate([r.data for r in src_rasters_in_dst], axis=0)
     mask = da.concatenate([r.mask for r in src_rasters_in_dst], axis=0)
-    y, x = [c.values for c in dst_grid.coordinates.values()]
     return rts.data_to_raster(
-        data, mask=mask, x=x, y=y, crs=dst_grid.crs, nv=nodata
+        data, mask=mask, affine=dst_grid.affine, crs=dst_grid.crs, nv=nodata
     )
 
 
-- 
2.43.0


From 36382856392ca6253a2887b5c3f7444c33f30071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:12 +0000
Subject: [PATCH 09/47] fix: block coordinates (and to_points) for rasters in a
 geographic CRS

---
 raster_tools/blocks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raster_tools/blocks.py b/raster_tools/blocks.py
index c13e2a6..3ef950e 100644
--- a/raster_tools/blocks.py
+++ b/raster_tools/blocks.py
@@ -130,11 +130,12 @@ class GeoBlockInfo:
 
     @property
     def x(self):
-        return self.geobox.coordinates["x"].values
+        # The coordinate names depend on the CRS but not their (y, x) order
+        return list(self.geobox.coordinates.values())[1].values
 
     @property
     def y(self):
-        return self.geobox.coordinates["y"].values
+        return list(self.geobox.coordinates.values())[0].values
 
     @property
     def band(self):
-- 
2.43.0


From 01fd6f24797a4a303e0183194d5241a412be96cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 10/47] fix: to_polygons overwrote the null cells of its source
 raster

---
 raster_tools/raster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 8001a8e..3c4fdbc 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -3153,8 +3153,8 @@ def _shapes_delayed(chunk, mask, neighbors, transform, band, crs):
         # values are the most likely to produce warnings when down casting. The
         # null cells will be ignored in rio.features.shapes so the value
         # does not matter for computation.
-        chunk[mask] = 0
-        chunk = chunk.astype(working_dtype)
+        # Don't write to chunk. It may be shared with the source raster.
+        chunk = np.where(mask, 0, chunk).astype(working_dtype)
 
     # Invert because rasterio's shapes func uses False for masked cells.
     mask = ~mask
-- 
2.43.0


From a6dde0b565f0ef3196c68d6d21b51d1d3b98d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:50 +0000
Subject: [PATCH 11/47] fix: geobox of single row or column rasters without a
 CRS

---
 raster_tools/raster.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 3c4fdbc..e88d53d 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -15,6 +15,7 @@ import shapely
 import xarray as xr
 from affine import Affine
 from numba import jit
+from odc.geo.geobox import GeoBox
 from shapely.geometry import box
 
 from raster_tools._compat import NUMPY_GE_2, NUMPY_GE_2_2, PY_VER_310_PLUS
@@ -1463,7 +1464,11 @@ class Raster(_RasterBase):
     @property
     def geobox(self):
         """GeoBox object describing the raster's grid."""
-        return self._ds.odc.geobox
+        gbox = self._ds.odc.geobox
+        if gbox is None:
+            # odc can't handle a single row or column without a CRS
+            gbox = GeoBox(self.shape[1:], self.affine, self.crs)
+        return gbox
 
     @property
     def bandwise(self):
-- 
2.43.0


From 8b53c09f615e9a51b4fd0e2ad330b9636b0e0e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:32 +0000
Subject: [PATCH 12/47] fix: normalize datasets with reversed axes or
 multi-band chunks

---
 raster_tools/raster.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index e88d53d..868d223 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -1242,6 +1242,10 @@ def _dataset_to_raster_ds(ds_in):
         and ds_in.mask.dims == ("band", "y", "x")
         and ds_in.raster.chunks == ds_in.mask.chunks
         and ds_in.raster.rio.crs == ds_in.mask.rio.crs
+        and all(c == 1 for c in ds_in.raster.chunks[0])
+        and np.array_equal(ds_in.band, np.arange(1, len(ds_in.band) + 1))
+        and not is_strictly_decreasing(ds_in.x)
+        and not is_strictly_increasing(ds_in.y)
     ):
         return ds_in
 
-- 
2.43.0


From 2025515e66c63d9cd739fce32a2e15315be04a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:32 +0000
Subject: [PATCH 13/47] fix: focal statistics and correlation of masked 8-bit
 rasters

Numba can't compile the float16 chunks that 8-bit types were promoted to.
---
 raster_tools/focal.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index bf14313..0ccfd4f 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -6,6 +6,7 @@ import numpy as np
 from dask_image import ndfilters
 
 from raster_tools.dtypes import (
+    F32,
     F64,
     U8,
     U16,
@@ -46,6 +47,11 @@ __all__ = [
 ngjit = nb.jit(nopython=True, nogil=True)
 
 
+def _promote_to_float(dtype):
+    # Numba doesn't support float16
+    return np.promote_types(promote_dtype_to_float(dtype), F32)
+
+
 @single_band_mappable
 @ngjit
 def _focal_chunk(chunk, kernel, kernel_func):
@@ -301,7 +307,7 @@ def _focal(data, kernel, stat, nan_aware=False):
     else:
         # Use _focal_chunk which is slower but handles nan values.
         # Promote to allow for nan boundary fill values.
-        new_dtype = promote_dtype_to_float(data.dtype)
+        new_dtype = _promote_to_float(data.dtype)
         if new_dtype != data.dtype:
             data = data.astype(new_dtype)
 
@@ -393,7 +399,7 @@ def focal(raster, focal_type, width_or_radius, height=None, ignore_null=False):
 
     # Convert to float and fill nulls with nan, if needed
     if raster._masked:
-        new_dtype = promote_dtype_to_float(raster.dtype)
+        new_dtype = _promote_to_float(raster.dtype)
         if new_dtype != data.dtype:
             data = data.astype(new_dtype)
         data = da.where(raster.mask, np.nan, data)
@@ -565,7 +571,7 @@ def correlate(raster, kernel, mode="constant", cval=0.0):
     # Convert to float and fill nulls with nan, if needed
     upcast = False
     if raster._masked:
-        new_dtype = promote_dtype_to_float(data.dtype)
+        new_dtype = _promote_to_float(data.dtype)
         upcast = new_dtype != data.dtype
         if upcast:
             data = data.astype(new_dtype)
-- 
2.43.0


From 9f3da0e68086791d7eb86334afbaf036f60b945d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 14/47] fix: focal's ignore_null had no effect on null cells

---
 raster_tools/focal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index 0ccfd4f..603f6c2 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -426,7 +426,11 @@ def focal(raster, focal_type, width_or_radius, height=None, ignore_null=False):
     if raster._masked:
         nv = np.nan
         mask = raster.mask.copy()
-        mask = mask if ignore_null else mask | np.isnan(data)
+        if ignore_null:
+            # Null cells get a value only where the window has valid cells
+            has_valid = _focal((~mask).astype(U8), window, "max") > 0
+            mask &= ~has_valid
+        mask = mask | np.isnan(data)
         ds = data_to_xr_raster_ds_like(
             data, raster.xdata, mask=mask, nv=nv, burn=True
         )
-- 
2.43.0


From dd20da19676856bc47e2cc9d18e6633bb181bcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:45 +0000
Subject: [PATCH 15/47] fix: focal min, max and sum windows at edges and of
 even size

Rasters without a null value used a window shifted by one cell for even
sizes and repeated edge cells, unlike rasters with a null value.
---
 raster_tools/focal.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index 603f6c2..bef2065 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -8,6 +8,7 @@ from dask_image import ndfilters
 from raster_tools.dtypes import (
     F32,
     F64,
+    I64,
     U8,
     U16,
     U32,
@@ -290,18 +291,30 @@ def _focal(data, kernel, stat, nan_aware=False):
 
     kernel = kernel.astype(bool)
     if not nan_aware and stat in ("min", "max", "sum"):
-        # Use ndfilters which is faster but dosn't handle nan values
-        if stat == "min":
+        # Use ndfilters which is faster but dosn't handle nan values. Cells
+        # outside of the raster must not affect the result. Even sized kernels
+        # are padded to match the position used by _focal_chunk.
+        kernel = np.pad(kernel, [((d + 1) % 2, 0) for d in kernel.shape])
+        if stat == "sum":
             func = partial(
-                ndfilters.minimum_filter, footprint=kernel, mode="nearest"
+                ndfilters.correlate, weights=kernel, mode="constant"
             )
-        elif stat == "max":
-            func = partial(
-                ndfilters.maximum_filter, footprint=kernel, mode="nearest"
+        else:
+            lo, hi = (
+                (-np.inf, np.inf)
+                if is_float(data.dtype)
+                else get_dtype_min_max(data.dtype)
             )
-        elif stat == "sum":
+            if data.dtype in (I64, U64):
+                # ndfilters uses float64 internally
+                hi = np.nextafter(float(hi), 0)
             func = partial(
-                ndfilters.correlate, weights=kernel, mode="constant"
+                ndfilters.minimum_filter
+                if stat == "min"
+                else ndfilters.maximum_filter,
+                footprint=kernel,
+                mode="constant",
+                cval=hi if stat == "min" else lo,
             )
         data = da.stack([func(d) for d in data])
     else:
-- 
2.43.0


From 9f87f8de25e338a43c53a9ee33eae59d56b28719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:15 +0000
Subject: [PATCH 16/47] fix: dilate, erode and regions keep rasters without a
 null value unmasked

---
 raster_tools/general.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index a9d6e95..f5aa48a 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -160,8 +160,9 @@ def regions(raster, neighbors=4, unique_values=None):
             raise TypeError("Invalid type for unique_values parameter")
 
     data = raster.data
-    # Copy to prevent input and output rasters from having same reference
-    mask = raster.mask.copy()
+    # Copy to prevent input and output rasters from having same reference. A
+    # mask would add a null value if there isn't one.
+    mask = raster.mask.copy() if raster._masked else None
     if raster._masked:
         # Set null values to 0 to skip them in the labeling phase
         data = da.where(raster.mask, 0, data)
@@ -817,7 +818,8 @@ def _erosion_or_dilation_filter(raster, footprint, op):
         mask = ~mask
         data = da.where(mask, raster.null_value, data)
     else:
-        mask = mask.copy()
+        # A mask would add a null value
+        mask = None
     ds_out = data_to_xr_raster_ds_like(
         data, raster.xdata, mask=mask, nv=raster.null_value
     )
-- 
2.43.0


From 656d293fbc782f302e66c65db810461ad94b9ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:15 +0000
Subject: [PATCH 17/47] fix: erode 64-bit integer rasters at edges and nulls

---
 raster_tools/general.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index f5aa48a..39ff9ca 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -774,7 +774,12 @@ def _get_footprint(size):
 
 def _get_fill(dtype, op):
     type_info = np.iinfo(dtype) if is_int(dtype) else np.finfo(dtype)
-    return type_info.max if op == "erosion" else type_info.min
+    if op == "dilation":
+        return type_info.min
+    if is_int(dtype) and type_info.bits == 64:
+        # scipy uses float64 internally. The max would overflow.
+        return int(np.nextafter(float(type_info.max), 0))
+    return type_info.max
 
 
 def _erosion_or_dilation_filter(raster, footprint, op):
-- 
2.43.0


From 36807703e2a04af9e91fc4235c1e9283f04cde5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:26 +0000
Subject: [PATCH 18/47] fix: reclassify replaced None values in the caller's
 mapping

---
 raster_tools/general.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 39ff9ca..075fa20 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -1370,7 +1370,8 @@ def reclassify(raster, remapping, unmapped_to_null=False):
 
     """
     raster = get_raster(raster)
-    remapping = _get_remapping(remapping)
+    # Copy because None values are replaced below
+    remapping = dict(_get_remapping(remapping))
 
     out_dtype = raster.dtype
     mapping_out_values = [v for v in remapping.values() if v is not None]
-- 
2.43.0


From f82a938d0dc172bfc9a49b5149eda2c815d37c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:40 +0000
Subject: [PATCH 19/47] fix: reclassify float rasters and 8-bit rasters to
 fractions

numba could not look up floats among integer keys nor handle float16, which
also broke remap_range for float16 null values.
---
 raster_tools/general.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 075fa20..99425b1 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -1104,6 +1104,8 @@ def remap_range(raster, mapping, inclusivity="left"):
         [[s, e] for s, e in zip(map_starts, map_ends, strict=True)]
     )
     new_values = np.array([v if v is not None else nv for v in map_outs])
+    if new_values.dtype == F16:
+        new_values = new_values.astype(F32)
 
     data = raster.data
     mask = raster.mask
@@ -1119,7 +1121,7 @@ def remap_range(raster, mapping, inclusivity="left"):
         data,
         mask,
         # Can't pass None object to numba code
-        null=0 if nv is None else nv,
+        null=data.dtype.type(0 if nv is None else nv),
         start_end_values=start_end_values,
         new_values=new_values,
         inclusivity=inc_map[inclusivity],
@@ -1389,20 +1391,30 @@ def reclassify(raster, remapping, unmapped_to_null=False):
             remapping[k] = nv
             masked = True
 
+    # numba doesn't understand f16 so use f32 and then downcast
+    work_dtype = F32 if out_dtype == F16 else out_dtype
+    data = raster.data
+    if data.dtype == F16:
+        data = data.astype(F32)
     mapping_from = np.array(list(remapping))
-    mapping_to = np.array(list(remapping.values())).astype(out_dtype)
+    if is_float(data.dtype):
+        # numba can't look up float values among int keys
+        mapping_from = mapping_from.astype(F64)
+    mapping_to = np.array(list(remapping.values())).astype(work_dtype)
     data = da.map_blocks(
         _reclassify_chunk,
-        raster.data,
+        data,
         raster.mask,
         mapping_from=mapping_from,
         mapping_to=mapping_to,
         unmapped_to_null=unmapped_to_null,
-        null=nv,
-        out_dtype=out_dtype,
-        dtype=out_dtype,
-        meta=np.array((), dtype=out_dtype),
+        null=work_dtype.type(nv),
+        out_dtype=work_dtype,
+        dtype=work_dtype,
+        meta=np.array((), dtype=work_dtype),
     )
+    if work_dtype != out_dtype:
+        data = data.astype(out_dtype)
     if not masked:
         nv = None
     return data_to_raster_like(data, raster, nv=nv)
-- 
2.43.0


From c850aa324f6fe3d2035b12ced642ace5117d1384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:16 +0000
Subject: [PATCH 20/47] fix: local_stats of multi-band rasters without a null
 value

The result had extra bands filled with NaN.
---
 raster_tools/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 99425b1..2839d8c 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -724,7 +724,7 @@ def local_stats(raster, stype):
             keepdims=True,
         )
     else:
-        xmask = xr.zeros_like(xmask, dtype=bool)
+        xmask = xr.zeros_like(xmask.isel(band=[0]), dtype=bool)
 
     ds_out = dataarray_to_xr_raster_ds(xdata, xmask)
     if raster._masked:
-- 
2.43.0


From 63e61f3868e469a313a9a02c00e514d8e0bc677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 21/47] fix: aggregate lost the resolution of results with one
 row or column

---
 raster_tools/general.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 2839d8c..ac0d5a7 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -18,6 +18,7 @@ import numba as nb
 import numpy as np
 import pandas as pd
 import xarray as xr
+from affine import Affine
 from dask_image import ndmeasure as ndm
 from scipy.ndimage import (
     binary_dilation,
@@ -333,6 +334,11 @@ def aggregate(raster, expand_cells, stype):
         xdata = xr_where_with_meta(xmask, nv, xdata, nv=nv)
     else:
         xmask = xr.zeros_like(xdata, dtype=bool)
+    # The resolution can't be found from the coordinates if there is only one
+    # row or column left
+    affine = raster.affine * Affine.scale(expand_cells[1], expand_cells[0])
+    xdata = xdata.rio.write_transform(affine)
+    xmask = xmask.rio.write_transform(affine)
     ds = dataarray_to_xr_raster_ds(xdata, xmask, crs=raster.crs)
     return Raster(ds, _fast_path=True)
 
-- 
2.43.0


From d994b00a64594e9acdd9a759b6fa709064743d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:00 +0000
Subject: [PATCH 22/47] fix: sums and other statistics of masked 8-bit rasters
 overflowed float16

---
 raster_tools/raster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 868d223..891dff7 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -3236,6 +3236,8 @@ def get_raster(src, strict=True, null_to_nan=False):
         data = rs.data
         new_dtype = promote_dtype_to_float(data.dtype)
         if new_dtype != data.dtype:
+            # float16 holds 8-bit values but not their sums
+            new_dtype = np.promote_types(new_dtype, F32)
             data = data.astype(new_dtype)
         rs.xdata.data = da.where(rs.mask, np.nan, data)
     return rs
-- 
2.43.0


From 4d198bf614604ff07c480ecf584b8055c35f4911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:00 +0000
Subject: [PATCH 23/47] fix: where wrapped integer scalars that don't fit the
 raster's type

---
 raster_tools/general.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index ac0d5a7..ab95c8a 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -42,6 +42,7 @@ from raster_tools.dtypes import (
     U32,
     U64,
     get_common_dtype,
+    get_dtype_min_max,
     is_bool,
     is_float,
     is_int,
@@ -1157,6 +1158,15 @@ def _get_where_nv(x, y):
         return x.null_value if x._masked else get_default_null_value(x.dtype)
 
 
+def _fit_scalar(value, other):
+    # A python int that doesn't fit would wrap instead of promoting
+    if is_int(value) and isinstance(other, Raster) and is_int(other.dtype):
+        vmin, vmax = get_dtype_min_max(other.dtype)
+        if not vmin <= value <= vmax:
+            return get_common_dtype((value,)).type(value)
+    return value
+
+
 def where(condition, true_rast, false_rast):
     """
     Return elements chosen from `true_rast` or `false_rast` depending on
@@ -1231,6 +1241,7 @@ def where(condition, true_rast, false_rast):
     masked |= any(a is None for a in args)
 
     x, y = args
+    x, y = _fit_scalar(x, y), _fit_scalar(y, x)
     cd = condition.xdata
     if is_int(condition.dtype):
         # if condition.dtype is not bool then must be an int raster so
-- 
2.43.0


From c6454de0db10707879d9d0d5cabfb5b82a6ac92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:28 +0000
Subject: [PATCH 24/47] fix: chunks of data and mask could differ in results
 (local median)

---
 raster_tools/raster.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 891dff7..8aa654b 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -831,6 +831,11 @@ def make_raster_ds(raster_dataarray, mask_dataarray):
     Takes data and mask DataArrays and produces a raster Dataset with the data
     in the data variable "raster" and the mask in the "mask" data variable.
     """
+    if (
+        mask_dataarray.shape == raster_dataarray.shape
+        and mask_dataarray.chunks != raster_dataarray.chunks
+    ):
+        mask_dataarray = mask_dataarray.chunk(raster_dataarray.chunksizes)
     return xr.Dataset({"raster": raster_dataarray, "mask": mask_dataarray})
 
 
-- 
2.43.0


From 2effb8d507391573c97aee740b57fc5d5b0243a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:47 +0000
Subject: [PATCH 25/47] fix: stack_bands ignored a null value asked for a
 single unmasked raster

---
 raster_tools/_stack.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raster_tools/_stack.py b/raster_tools/_stack.py
index 9009609..c415939 100644
--- a/raster_tools/_stack.py
+++ b/raster_tools/_stack.py
@@ -182,11 +182,13 @@ def stack_bands(
 
     # Single-raster fast path: no output constraints means we can skip grid
     # building, reprojection, and concatenation entirely.
+    # Except that an unmasked raster has to be given a requested null value.
     if (
         len(src_rasters) == 1
         and dst_grid is None
         and dst_crs is None
         and resolution is None
+        and (src_rasters[0]._masked or null_value is None)
     ):
         return _cast_if_needed(src_rasters[0], dtype, nodata)
 
-- 
2.43.0


From 9c8811c8af6933c9f2a7f1d9713d94e631e7afa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:37 +0000
Subject: [PATCH 26/47] fix: combining grids lost the cell size of single rows
 or columns

---
 raster_tools/_grids.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/raster_tools/_grids.py b/raster_tools/_grids.py
index 8e316f3..1826edc 100644
--- a/raster_tools/_grids.py
+++ b/raster_tools/_grids.py
@@ -60,11 +60,9 @@ def _build_empty_raster_from_grid(grid, dtype, nodata):
     import raster_tools as rts
 
     data = da.full((grid.shape.y, grid.shape.x), nodata, dtype=dtype)
-    # coordinates is an ordered (y-axis, x-axis) mapping; key names vary by
-    # CRS (e.g. "x"/"y" for projected, "longitude"/"latitude" for 4326).
-    y_coord, x_coord = grid.coordinates.values()
+    # Coordinates alone can't carry the cell size of a single row or column
     return rts.data_to_raster(
-        data, x=x_coord.values, y=y_coord.values, crs=grid.crs, nv=nodata
+        data, affine=grid.affine, crs=grid.crs, nv=nodata
     )
 
 
-- 
2.43.0


From 22f20a50fe21ce605922460006abd0b93c616f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 27/47] fix: pad lost the cell size of single row or column
 rasters

---
 raster_tools/_padding.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/raster_tools/_padding.py b/raster_tools/_padding.py
index 715f676..1639cf3 100644
--- a/raster_tools/_padding.py
+++ b/raster_tools/_padding.py
@@ -1,5 +1,6 @@
 import numpy as np
 import xarray as xr
+from affine import Affine
 from odc.geo.geobox import GeoBox
 
 from raster_tools.dtypes import is_bool, is_scalar
@@ -200,4 +201,18 @@ def pad(raster, target, *, fill_values=None):
         xmask = _strip_crs(xmask)
 
     ds = dataarray_to_xr_raster_ds(xdata, xmask=xmask, crs=src_crs)
+    if 1 in raster.shape[1:]:
+        # The coordinates alone don't give the cell size of a single row or
+        # column
+        src = raster.affine
+        ds = ds.rio.write_transform(
+            Affine(
+                src.a,
+                src.b,
+                float(ds.x[0]) - src.a / 2,
+                src.d,
+                src.e,
+                float(ds.y[0]) - src.e / 2,
+            )
+        )
     return Raster(ds, _fast_path=True)
-- 
2.43.0


From 1dc772c9879585415842cb75b0731c93ecd30dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 28/47] fix: clip_box failed for rasters without a CRS

---
 raster_tools/clipping.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/raster_tools/clipping.py b/raster_tools/clipping.py
index 57d54ea..a943336 100644
--- a/raster_tools/clipping.py
+++ b/raster_tools/clipping.py
@@ -3,6 +3,7 @@ import numpy as np
 import rioxarray as rxr
 import xarray as xr
 
+from raster_tools._padding import _DUMMY_CRS, _strip_crs
 from raster_tools._stack import stack_bands
 from raster_tools.creation import ones_like, zeros_like
 from raster_tools.exceptions import RasterNoDataError
@@ -221,15 +222,23 @@ def clip_box(raster, bounds):
     raster = get_raster(raster)
     if len(bounds) != 4:
         raise ValueError("Invalid bounds. Must be a size 4 array or tuple.")
+    xdata, xmask = raster.xdata, raster.xmask
+    if raster.crs is None:
+        # rioxarray requires a CRS
+        xdata = xdata.rio.write_crs(_DUMMY_CRS)
+        xmask = xmask.rio.write_crs(_DUMMY_CRS)
     try:
-        xdata = raster.xdata.rio.clip_box(*bounds, auto_expand=True)
+        xdata = xdata.rio.clip_box(*bounds, auto_expand=True)
     except rxr.exceptions.NoDataInBounds as err:
         raise RasterNoDataError(
             "No data found within provided bounds"
         ) from err
     if raster._masked:
-        xmask = raster.xmask.rio.clip_box(*bounds, auto_expand=True)
+        xmask = xmask.rio.clip_box(*bounds, auto_expand=True)
     else:
         xmask = xr.zeros_like(xdata, dtype=bool)
+    if raster.crs is None:
+        xdata = _strip_crs(xdata)
+        xmask = _strip_crs(xmask)
     ds = dataarray_to_xr_raster_ds(xdata, xmask=xmask, crs=raster.crs)
     return Raster(ds, _fast_path=True)
-- 
2.43.0


From a1c8f82ed709862cb977eb9ff28c86bf7021648c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 29/47] fix: mask rasters of features were computed as int64,
 not uint8

---
 raster_tools/rasterize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raster_tools/rasterize.py b/raster_tools/rasterize.py
index 7c763c4..d1e8192 100644
--- a/raster_tools/rasterize.py
+++ b/raster_tools/rasterize.py
@@ -67,6 +67,7 @@ def _rio_mask(geoms, shape, transform, all_touched, invert):
         transform=transform,
         all_touched=all_touched,
         default_value=geom_value,
+        dtype=U8,
     )
 
 
-- 
2.43.0


From d3ff7f823d9e49d2ac5c100a70347e3123eff131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 30/47] fix: rasterize marked the caller's features with the
 template's bounds

---
 raster_tools/rasterize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raster_tools/rasterize.py b/raster_tools/rasterize.py
index d1e8192..b089bd6 100644
--- a/raster_tools/rasterize.py
+++ b/raster_tools/rasterize.py
@@ -518,6 +518,8 @@ def _rasterize_spatial_naive(
     # partition on its own like-sized raster and then merge the results. We do
     # this by creating mock spatial partitions where each partition covers all
     # of like. The spatial aware code can then handle it from here.
+    # Copy so that the mock partitions don't end up on the caller's dataframe.
+    df = df.copy()
     nparts = df.npartitions
     like_bbox = shapely.geometry.box(*like.bounds)
     sparts = gpd.GeoSeries([like_bbox for i in range(nparts)], crs=like.crs)
-- 
2.43.0


From 872ebd01503fbd5bf153cf420f65a3c86ef6ef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 31/47] fix: features touching a chunk's edge were burned into
 cells they don't cover

---
 raster_tools/rasterize.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/raster_tools/rasterize.py b/raster_tools/rasterize.py
index b089bd6..579b89e 100644
--- a/raster_tools/rasterize.py
+++ b/raster_tools/rasterize.py
@@ -103,15 +103,11 @@ def _rasterize_onto_chunk(
     geoms_bbox = shapely.geometry.box(*gdf.total_bounds)
     if not shapely.intersects(chunk_bbox, geoms_bbox):
         return np.full(shape_2d, fill, dtype=out_dtype)
-    # The clip call shuffles the dataframe. Add column that can be used to
-    # return the dataframe to the original order after clipping.
-    # ref: https://github.com/geopandas/geopandas/issues/2937
-    gdf["idx"] = np.arange(len(gdf))
-    gdf = gdf.clip(chunk_bbox)
-    gdf = gdf.sort_values(by=["idx"])
+    # Clipping the geometries would turn features that only touch the chunk's
+    # edge into lines and points, which get burned in whatever all_touched is.
+    gdf = gdf[gdf.intersects(chunk_bbox)]
     if not len(gdf):
         return np.full(shape_2d, fill, dtype=out_dtype)
-    gdf = gdf.drop(labels="idx", axis=1)
 
     # Sort the dataframe to match the specified overlap resolution method.
     # rasterio's raesterize function replaces cells with overlapping features
@@ -165,7 +161,7 @@ def _mask_onto_chunk(
     geoms_bbox = shapely.geometry.box(*gdf.total_bounds)
     if not shapely.intersects(chunk_bbox, geoms_bbox):
         return np.full(shape_2d, fill, dtype="uint8")
-    gdf = gdf.clip(chunk_bbox)
+    gdf = gdf[gdf.intersects(chunk_bbox)]
     if not len(gdf):
         return np.full(shape_2d, fill, dtype="uint8")
 
-- 
2.43.0


From 0caa28d52110c7b18ee33c07d05364a62723a08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 32/47] fix: merging rasterized partitions with a NaN null
 value or an int field

---
 raster_tools/rasterize.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/raster_tools/rasterize.py b/raster_tools/rasterize.py
index 579b89e..d3f10ec 100644
--- a/raster_tools/rasterize.py
+++ b/raster_tools/rasterize.py
@@ -170,17 +170,22 @@ def _mask_onto_chunk(
     )
 
 
+@nb.jit(nopython=True, nogil=True)
+def _is_fill(x, fill):
+    return (x == fill) | (np.isnan(x) & np.isnan(fill))
+
+
 @nb.jit(nopython=True, nogil=True)
 def _resolve_first(x, fill):
     # Take first valid values along band dimension
-    out = np.where(x[-2] == fill, x[-1], x[-2])
+    out = np.where(_is_fill(x[-2], fill), x[-1], x[-2])
     return np.expand_dims(out, 0)
 
 
 @nb.jit(nopython=True, nogil=True)
 def _resolve_last(x, fill):
     # Take last valid values along band dimension
-    out = np.where(x[-1] == fill, x[-2], x[-1])
+    out = np.where(_is_fill(x[-1], fill), x[-2], x[-1])
     return np.expand_dims(out, 0)
 
 
@@ -220,7 +225,7 @@ def _max_axis0(x):
 @nb.jit(nopython=True, nogil=True)
 def _resolve_min(x, fill):
     # Take min values along band dimension
-    mask = x == fill
+    mask = _is_fill(x, fill)
     out = np.where(mask, np.nanmax(x), x)
     out = _min_axis0(out)
     out = np.where(_all_axis0(mask), fill, out)
@@ -230,7 +235,7 @@ def _resolve_min(x, fill):
 @nb.jit(nopython=True, nogil=True)
 def _resolve_max(x, fill):
     # Take max values along band dimension
-    mask = x == fill
+    mask = _is_fill(x, fill)
     out = np.where(mask, np.nanmin(x), x)
     out = _max_axis0(out)
     out = np.where(_all_axis0(mask), fill, out)
@@ -255,7 +260,11 @@ def _reduction_wrapper(
     # Assuming x has dims (B, Y, X), where B in {1, 2}
     # Do nothing if input only has one band. Nothing to reduce. Copy in order
     # to follow dask best practices.
-    out = x.copy() if x.shape[0] == 1 else resolve_func(x, fill=fill)
+    if x.shape[0] == 1:
+        out = x.copy()
+    else:
+        # Cast so that a python scalar can't promote the result
+        out = resolve_func(x, fill=x.dtype.type(fill))
     if keepdims:
         return out
     return out[0]
-- 
2.43.0


From 89055ca7be75221f362bd65b1fd8dd693f59fcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 33/47] fix: rasterize rounded large 64-bit field values

---
 raster_tools/rasterize.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/raster_tools/rasterize.py b/raster_tools/rasterize.py
index d3f10ec..45354f1 100644
--- a/raster_tools/rasterize.py
+++ b/raster_tools/rasterize.py
@@ -38,6 +38,23 @@ def _get_rio_dtype(dtype):
 def _rio_rasterize_wrapper(
     shape, transform, geometry, values, out_dtype, fill, all_touched
 ):
+    if out_dtype in (I64, U64):
+        # GDAL burns values as float64, which can't hold all 64-bit ints. Burn
+        # the positions of the values instead.
+        positions = _rio_rasterize_wrapper(
+            shape,
+            transform,
+            geometry,
+            np.arange(1, len(values) + 1),
+            np.dtype("int32"),
+            0,
+            all_touched,
+        )
+        lookup = np.empty(len(values) + 1, dtype=out_dtype)
+        lookup[0] = fill
+        lookup[1:] = values
+        return lookup[positions]
+
     rio_dtype = _get_rio_dtype(out_dtype)
     values_dtype = _get_rio_dtype(values.dtype)
     if values_dtype != values.dtype:
-- 
2.43.0


From 54936392b77c3105b201cecf872d5019eca99523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 34/47] fix: stack_bands moved coordinates by float rounding

---
 raster_tools/_stack.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/raster_tools/_stack.py b/raster_tools/_stack.py
index c415939..e6ed083 100644
--- a/raster_tools/_stack.py
+++ b/raster_tools/_stack.py
@@ -242,6 +242,12 @@ def stack_bands(
 
     data = da.concatenate([r.data for r in src_rasters_in_dst], axis=0)
     mask = da.concatenate([r.mask for r in src_rasters_in_dst], axis=0)
+    if dst_grid is src_grids[0]:
+        # Keep the very same coordinates so that the result still lines up
+        # with the inputs.
+        return rts.data_to_raster_like(
+            data, src_rasters[0], mask=mask, nv=nodata
+        )
     return rts.data_to_raster(
         data, mask=mask, affine=dst_grid.affine, crs=dst_grid.crs, nv=nodata
     )
-- 
2.43.0


From f7b78470c83d19c8e9d1ca76d6b29796abc2dfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 35/47] fix: proximity failed for distances larger than the
 raster's width or height

---
 raster_tools/distance/proximity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raster_tools/distance/proximity.py b/raster_tools/distance/proximity.py
index 215fa09..28c526b 100644
--- a/raster_tools/distance/proximity.py
+++ b/raster_tools/distance/proximity.py
@@ -585,6 +585,8 @@ def _proximity_analysis(
             # underestimate the depth.
             resolution = _estimate_min_resolution(x, y)
         xdepth, ydepth = np.ceil(max_distance / np.abs(resolution)).astype(int)
+        # Dask won't allow an overlap larger than the array
+        ydepth, xdepth = np.minimum((ydepth, xdepth), raster.shape[1:])
     coords_block_info = {
         "chunks": raster.data.chunks[1:],
         "depth": (ydepth, xdepth),
-- 
2.43.0


From 9bbec016125fa37522da88873c82313e4095f8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 36/47] fix: surface functions left cells next to null cells
 unmasked with NaN or 0 in them

---
 raster_tools/surface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raster_tools/surface.py b/raster_tools/surface.py
index 80ab109..8ba47ff 100644
--- a/raster_tools/surface.py
+++ b/raster_tools/surface.py
@@ -37,6 +37,8 @@ def _finalize(data, like):
     mask[:, -1, :] = True
     mask[:, :, 0] = True
     mask[:, :, -1] = True
+    # Invalidate cells with a null value in their neighborhood
+    mask |= da.isnan(data)
     nv = get_default_null_value(data.dtype)
     ds = data_to_xr_raster_ds_like(
         data, like.xdata, mask=mask, nv=nv, burn=True
-- 
2.43.0


From 357bb0ec7b7865934826ba4f38e435bbe263cc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 37/47] fix: surface_area_3d assumed square cells

---
 raster_tools/surface.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/raster_tools/surface.py b/raster_tools/surface.py
index 8ba47ff..d065e51 100644
--- a/raster_tools/surface.py
+++ b/raster_tools/surface.py
@@ -49,9 +49,10 @@ def _finalize(data, like):
 @single_band_mappable
 @nb.jit(nopython=True, nogil=True)
 def _surface_area_3d(xarr, res):
-    # TODO: handle non-symmetrical resolutions
-    sd = res**2
-    dd = sd * 2
+    # Squared distances between columns, between rows, and along diagonals
+    sx = res[0] ** 2
+    sy = res[1] ** 2
+    dd = sx + sy
     outx = np.empty_like(xarr, dtype=F64)
     rows, cols = xarr.shape
     for rw in range(1, rows - 1):
@@ -67,35 +68,35 @@ def _surface_area_3d(xarr, res):
             h = xarr[rw - 1, cl]
             i = xarr[rw - 1, cl + 1]
             ea = np.sqrt(dd + (e - a) ** 2) * 0.5
-            eb = np.sqrt(sd + (e - b) ** 2) * 0.5
-            ab = np.sqrt(sd + (a - b) ** 2) * 0.5
+            eb = np.sqrt(sy + (e - b) ** 2) * 0.5
+            ab = np.sqrt(sx + (a - b) ** 2) * 0.5
             si = (ea + eb + ab) * 0.5
             ta += np.sqrt(si * (si - ea) * (si - eb) * (si - ab))
             ec = np.sqrt(dd + (e - c) ** 2) * 0.5
-            bc = np.sqrt(sd + (b - c) ** 2) * 0.5
+            bc = np.sqrt(sx + (b - c) ** 2) * 0.5
             si = (ec + eb + bc) * 0.5
             ta += np.sqrt(si * (si - ec) * (si - eb) * (si - bc))
-            ef = np.sqrt(sd + (e - f) ** 2) * 0.5
-            cf = np.sqrt(sd + (c - f) ** 2) * 0.5
+            ef = np.sqrt(sx + (e - f) ** 2) * 0.5
+            cf = np.sqrt(sy + (c - f) ** 2) * 0.5
             si = (ec + ef + cf) * 0.5
             ta += np.sqrt(si * (si - ec) * (si - ef) * (si - cf))
             ei = np.sqrt(dd + (e - i) ** 2) * 0.5
-            fi = np.sqrt(sd + (f - i) ** 2) * 0.5
+            fi = np.sqrt(sy + (f - i) ** 2) * 0.5
             si = (ei + ef + fi) * 0.5
             ta += np.sqrt(si * (si - ei) * (si - ef) * (si - fi))
-            eh = np.sqrt(sd + (e - h) ** 2) * 0.5
-            hi = np.sqrt(sd + (h - i) ** 2) * 0.5
+            eh = np.sqrt(sy + (e - h) ** 2) * 0.5
+            hi = np.sqrt(sx + (h - i) ** 2) * 0.5
             si = (ei + eh + hi) * 0.5
             ta += np.sqrt(si * (si - ei) * (si - eh) * (si - hi))
             eg = np.sqrt(dd + (e - g) ** 2) * 0.5
-            gh = np.sqrt(sd + (g - h) ** 2) * 0.5
+            gh = np.sqrt(sx + (g - h) ** 2) * 0.5
             si = (eg + eh + gh) * 0.5
             ta += np.sqrt(si * (si - eg) * (si - eh) * (si - gh))
-            ed = np.sqrt(sd + (e - d) ** 2) * 0.5
-            dg = np.sqrt(sd + (d - g) ** 2) * 0.5
+            ed = np.sqrt(sx + (e - d) ** 2) * 0.5
+            dg = np.sqrt(sy + (d - g) ** 2) * 0.5
             si = (eg + dg + ed) * 0.5
             ta += np.sqrt(si * (si - eg) * (si - ed) * (si - dg))
-            ad = np.sqrt(sd + (a - d) ** 2) * 0.5
+            ad = np.sqrt(sy + (a - d) ** 2) * 0.5
             si = (ea + ed + ad) * 0.5
             ta += np.sqrt(si * (si - ea) * (si - ed) * (si - ad))
             outx[rw, cl] = ta
@@ -133,7 +134,7 @@ def surface_area_3d(raster):
         boundary=np.nan,
         dtype=F64,
         meta=np.array((), dtype=F64),
-        res=raster.resolution[0],
+        res=raster.resolution,
     )
     return _finalize(out_data, raster)
 
-- 
2.43.0


From 9b45997f5f6c27c003dddd4974fec9e29859fa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 38/47] fix: surface_area_3d wrapped differences of unsigned
 elevations

---
 raster_tools/surface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster_tools/surface.py b/raster_tools/surface.py
index d065e51..13b3f83 100644
--- a/raster_tools/surface.py
+++ b/raster_tools/surface.py
@@ -128,6 +128,9 @@ def surface_area_3d(raster):
     raster = get_raster(raster, null_to_nan=True)
     if raster.dtype == np.dtype("float16"):
         raster = raster.astype(F32)
+    elif raster.dtype.kind == "u":
+        # Differences of unsigned values would wrap around
+        raster = raster.astype(F64)
     out_data = raster.data.map_overlap(
         _surface_area_3d,
         depth={0: 0, 1: 1, 2: 1},
-- 
2.43.0


From 9e4b782e9e4fdf9d5bc229cedad6788c36df3e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 39/47] fix: tpi dropped the null cells of integer rasters

---
 raster_tools/surface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raster_tools/surface.py b/raster_tools/surface.py
index 13b3f83..9c1a943 100644
--- a/raster_tools/surface.py
+++ b/raster_tools/surface.py
@@ -565,7 +565,9 @@ def tpi(dem, annulus_inner, annulus_outer):
         radii = annulus_outer
     else:
         radii = (annulus_inner, annulus_outer)
-    rs_tpi = ((dem - focal.focal(dem, "mean", radii)) + 0.5).astype(I32, False)
+    rs_tpi = ((dem - focal.focal(dem, "mean", radii)) + 0.5).astype(
+        I32, warn_about_null_change=False
+    )
     if dem._masked:
         rs_tpi = rs_tpi.set_null_value(get_default_null_value(I32))
     return rs_tpi
-- 
2.43.0


From ad6624bc0a9b73a852df4cd122e312bb858ba55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 40/47] fix: zonal_stats failed for a features raster with
 other chunks than a multi-band raster

---
 raster_tools/zonal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raster_tools/zonal.py b/raster_tools/zonal.py
index 4bf08fb..0f69025 100644
--- a/raster_tools/zonal.py
+++ b/raster_tools/zonal.py
@@ -231,7 +231,9 @@ def _zonal_stats(features_raster, data_raster, stats):
     ]
     if features_raster.data.chunks[1:] != data_raster.data.chunks[1:]:
         # Force rasters to have matching chunksizes
-        features_raster = features_raster.chunk(data_raster.data.chunks)
+        features_raster = features_raster.chunk(
+            (1, *data_raster.data.chunks[1:])
+        )
     # Convert the features raster and data raster bands to dataframes and join
     # them together. Each cell becomes a row and each chunk becomes a
     # partition. The order is the same and the chunk boundaries are the same so
-- 
2.43.0


From 5b101afac93b99e5b49e382b342e7e02481db6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 41/47] fix: zonal_stats with median and other statistics
 failed for rasters with many chunks

---
 raster_tools/zonal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster_tools/zonal.py b/raster_tools/zonal.py
index 0f69025..1340db1 100644
--- a/raster_tools/zonal.py
+++ b/raster_tools/zonal.py
@@ -274,6 +274,9 @@ def _zonal_stats(features_raster, data_raster, stats):
         else:
             shuffle_kw = "shuffle_method"
         median_df = grouped.agg(["median"], **{shuffle_kw: "tasks"})
+        # The other stats are in one partition. Joining several partitions
+        # causes dask to shuffle, which fails for multi-level columns.
+        median_df = median_df.repartition(npartitions=1)
     if len(stats):
         agg_result_df = grouped.agg(stats)
         if has_median:
-- 
2.43.0


From e112afa6c744a01c673d4af9f2305fb0f76352fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 42/47] fix: Vector miscounted or refused its features after
 spatial_shuffle and to_crs

---
 raster_tools/vector.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/raster_tools/vector.py b/raster_tools/vector.py
index bf5fff2..2f92501 100644
--- a/raster_tools/vector.py
+++ b/raster_tools/vector.py
@@ -403,6 +403,14 @@ class Vector:
                         "Given size does not match divisions in data"
                     )
 
+    def _replace_data(self, geo):
+        # Create a vector from modified data that has the same features. The
+        # number of features is known so don't guess it from the divisions.
+        result = Vector.__new__(Vector)
+        result._geo = _normalize_geo_data(geo)
+        result._size = self._size
+        return result
+
     def __len__(self):
         return self._size
 
@@ -480,7 +488,7 @@ class Vector:
 
     def copy(self):
         """Copies the vector."""
-        return Vector(self._geo.copy())
+        return self._replace_data(self._geo.copy())
 
     def eval(self):  # noqa: A003
         """Compute the built-up chain of operations on the underlying data.
@@ -678,7 +686,7 @@ class Vector:
         The transformed vector(s).
 
         """
-        return Vector(self._geo.to_crs(crs), self._size)
+        return self._replace_data(self._geo.to_crs(crs))
 
     def cast_field(self, name, dtype):
         """Cast a field to the specified `dtype`.
@@ -702,7 +710,7 @@ class Vector:
             raise ValueError(f"Inalid attribute name: {name}")
         geo = self._geo.copy()
         geo[name] = geo[name].astype(dtype)
-        return Vector(geo)
+        return self._replace_data(geo)
 
     def __getitem__(self, idx):
         if isinstance(idx, slice):
@@ -749,7 +757,7 @@ class Vector:
             The buffered vector.
 
         """
-        return Vector(self._geo.buffer(*args, **kwargs))
+        return self._replace_data(self._geo.buffer(*args, **kwargs))
 
     def simplify(self, *args, **kwargs):
         """Simplify the vector geometries.
@@ -767,7 +775,7 @@ class Vector:
             The simplify vector.
 
         """
-        return Vector(self._geo.simplify(*args, **kwargs))
+        return self._replace_data(self._geo.simplify(*args, **kwargs))
 
     def save(self, path, **fiona_kwargs):
         """Save the vector data to a file.
@@ -866,12 +874,15 @@ class Vector:
             This causes partial computation to take place.
 
         """
+        if self._geo.npartitions == 1:
+            # There is only one group and shuffling would lose the divisions
+            return self.calculate_spatial_partitions(show_progress)
         if show_progress:
             with ProgressBar():
                 data = self._geo.spatial_shuffle()
         else:
             data = self._geo.spatial_shuffle()
-        return Vector(data)
+        return self._replace_data(data)
 
     def calculate_spatial_partitions(self, show_progress=False):
         """Calculate the spatial bounds of the underlying data.
@@ -893,4 +904,4 @@ class Vector:
                 data.calculate_spatial_partitions()
         else:
             data.calculate_spatial_partitions()
-        return Vector(data)
+        return self._replace_data(data)
-- 
2.43.0


From d1d64815ea6f438ee8ca699836bb04181d445af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:43 +0000
Subject: [PATCH 43/47] fix: Vector indexing looked up labels rather than
 positions

---
 raster_tools/vector.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/raster_tools/vector.py b/raster_tools/vector.py
index 2f92501..7154b1e 100644
--- a/raster_tools/vector.py
+++ b/raster_tools/vector.py
@@ -354,6 +354,10 @@ def _normalize_geo_data(geo):
     return geo
 
 
+def _select_row(df, pos):
+    return df.iloc[[pos]]
+
+
 _GMTRY = "geometry"
 
 
@@ -712,6 +716,23 @@ class Vector:
         geo[name] = geo[name].astype(dtype)
         return self._replace_data(geo)
 
+    def _get_feature(self, idx):
+        divs = self._geo.divisions
+        if divs[0] == 0 and divs[-1] == self.size - 1:
+            # The index labels are the feature positions
+            return self._geo.loc[[idx]]
+        # Find the partition that holds the feature at the given position
+        sizes = self._geo.map_partitions(
+            len, meta=pd.Series((), dtype=I64)
+        ).compute()
+        for i, n in enumerate(sizes):
+            if idx < n:
+                return self._geo.partitions[i].map_partitions(
+                    _select_row, idx, meta=self._geo._meta
+                )
+            idx -= n
+        raise IndexError("The vector has fewer features than its size")
+
     def __getitem__(self, idx):
         if isinstance(idx, slice):
             raise NotImplementedError("Slicing is not supported")
@@ -733,7 +754,7 @@ class Vector:
         # [[idx]] forces loc to return a data frame. The new frames index is
         # [idx], however. This breaks future iteration we reset it to [0] to
         # allow iteration over the resulting Vector.
-        subgeo = self._geo.loc[[idx]]
+        subgeo = self._get_feature(idx)
         subgeo = subgeo.assign(__new_idx__=0)
         old_idx_name = subgeo.index.name
         subgeo = subgeo.set_index("__new_idx__", divisions=[0, 1])
-- 
2.43.0


From 84d7a26409ab3cde3b604503fe7993315d972450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 44/47] fix: Vector.to_shapely always failed

---
 raster_tools/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/vector.py b/raster_tools/vector.py
index 7154b1e..cfc1413 100644
--- a/raster_tools/vector.py
+++ b/raster_tools/vector.py
@@ -551,7 +551,7 @@ class Vector:
 
     def to_shapely(self):
         """Returns the vector data as a list of shapely geometries objects."""
-        return self.geometry.to_list()
+        return self.geometry.compute().to_list()
 
     def to_raster(
         self,
-- 
2.43.0


From ed82217a456bf68f1ab2d94d0bbcd2dfca3bcab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 45/47] fix: object ids changed when features were selected
 from the vector

---
 raster_tools/vector.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/raster_tools/vector.py b/raster_tools/vector.py
index cfc1413..bb9afbe 100644
--- a/raster_tools/vector.py
+++ b/raster_tools/vector.py
@@ -232,11 +232,9 @@ def get_dask_geodataframe(src):
         )
 
 
-def _add_objid(feats, name, base, partition_info=None):
+def _add_objid(feats, offset, name):
     feats = feats.copy()
-    feats[name] = np.arange(1, len(feats) + 1, dtype=I64) + (
-        partition_info["number"] * base
-    )
+    feats[name] = np.arange(1, len(feats) + 1, dtype=I64) + offset.iloc[0]
     return feats
 
 
@@ -280,7 +278,15 @@ def add_objectid_column(features, name=None, _base=_OBJECTID_BASE):
                 name = f"{prefix}_{n}"
     meta = feats._meta.copy()
     meta[name] = np.array((), dtype=I64)
-    df_new = feats.map_partitions(_add_objid, name, _base, meta=meta)
+    # Pair each partition with its offset. dask's partition_info can't be used
+    # because it changes when partitions are later selected from the result.
+    offsets = dd.from_pandas(
+        pd.Series(np.arange(feats.npartitions, dtype=I64) * _base),
+        npartitions=feats.npartitions,
+    )
+    df_new = feats.map_partitions(
+        _add_objid, offsets, name, meta=meta, align_dataframes=False
+    )
     if feats.spatial_partitions is not None:
         df_new.spatial_partitions = feats.spatial_partitions.copy()
     if return_vector:
-- 
2.43.0


From 8ab68022505dfb7ab0cfd40357e11bf9be7bb0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 46/47] fix: masked rasters with one row or column lost their
 cell size in operations

---
 raster_tools/general.py |  2 ++
 raster_tools/raster.py  | 13 +++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index ab95c8a..0590711 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -57,6 +57,7 @@ from raster_tools.masking import (
 )
 from raster_tools.raster import (
     Raster,
+    _copy_transform,
     data_to_raster_like,
     data_to_xr_raster_ds_like,
     dataarray_to_xr_raster_ds,
@@ -1276,6 +1277,7 @@ def where(condition, true_rast, false_rast):
         yd = getattr(y, "xdata", y)
         data = xr.where(cd, xd, yd)
         mask = xr.zeros_like(data, dtype=bool)
+    data = _copy_transform(condition.xdata, data)
     ds = dataarray_to_xr_raster_ds(data, mask)
     if out_crs is not None:
         ds = ds.rio.write_crs(out_crs)
diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 8aa654b..128f884 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -242,12 +242,16 @@ def _apply_ufunc(ufunc, this, left, right=None, kwargs=None, out=None):
         xmask = merge_masks([r.xmask for r in args if isinstance(r, Raster)])
         if not multi_out:
             nv = get_default_null_value(xr_out.dtype)
-            xr_out = xr.where(xmask, nv, xr_out).rio.write_nodata(nv)
+            xr_out = _copy_transform(
+                this.xdata, xr.where(xmask, nv, xr_out).rio.write_nodata(nv)
+            )
             ds_out = make_raster_ds(xr_out, xmask)
         else:
             nvs = [get_default_null_value(x.dtype) for x in xr_out]
             xr_out = [
-                xr.where(xmask, nv, x).rio.write_nodata(nv)
+                _copy_transform(
+                    this.xdata, xr.where(xmask, nv, x).rio.write_nodata(nv)
+                )
                 for x, nv in zip(xr_out, nvs, strict=True)
             ]
             ds_out = [make_raster_ds(x, xmask) for x in xr_out]
@@ -475,6 +479,9 @@ class BandwiseOperationAdapter(np.lib.mixins.NDArrayOperatorsMixin):
 
 def xr_where_with_meta(cond, left, right, crs=None, nv=None):
     result = xr.where(cond, left, right)
+    like = left if isinstance(left, xr.DataArray) else right
+    if isinstance(like, xr.DataArray):
+        result = _copy_transform(like, result)
     if crs is not None:
         result = result.rio.write_crs(crs)
     if nv is not None:
@@ -1960,6 +1967,7 @@ class Raster(_RasterBase):
                 xrs_casted = xr.where(mask, nv, xrs_casted).rio.write_nodata(
                     nv
                 )
+        xrs_casted = _copy_transform(xrs, xrs_casted)
         ds = make_raster_ds(xrs_casted, mask)
         if self.crs is not None:
             ds = ds.rio.write_crs(self.crs)
@@ -2515,6 +2523,7 @@ class Raster(_RasterBase):
             ).rio.write_nodata(self.null_value)
         else:
             rast = rast.round(decimals=decimals)
+        rast = _copy_transform(self._ds.raster, rast)
         ds = make_raster_ds(rast, self._ds.mask)
         if self.crs is not None:
             ds = ds.rio.write_crs(self.crs)
-- 
2.43.0


From 158ff11b5642589a3b4472f24f7ba73fc73e6875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:49 +0000
Subject: [PATCH 47/47] fix: add_objectid_column miscounted the features of
 shuffled vectors

---
 raster_tools/vector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raster_tools/vector.py b/raster_tools/vector.py
index bb9afbe..c8a4bfe 100644
--- a/raster_tools/vector.py
+++ b/raster_tools/vector.py
@@ -260,6 +260,8 @@ def add_objectid_column(features, name=None, _base=_OBJECTID_BASE):
 
     """
     return_vector = isinstance(features, (Vector, str))
+    if return_vector:
+        features = get_vector(features)
     feats = get_dask_geodataframe(features)
 
     if name is not None:
@@ -290,7 +292,7 @@ def add_objectid_column(features, name=None, _base=_OBJECTID_BASE):
     if feats.spatial_partitions is not None:
         df_new.spatial_partitions = feats.spatial_partitions.copy()
     if return_vector:
-        return Vector(df_new)
+        return features._replace_data(df_new)
     return df_new
 
 
-- 
2.43.0

