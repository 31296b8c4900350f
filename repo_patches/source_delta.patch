From 2e5d5523d80eda456c5a0b08f57fedf40438a763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 001/138] fix: accept a vector of depths when projecting out of
 a camera

---
 src/glimpse/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 9234bf4..bd61f3f 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1468,7 +1468,7 @@ class Camera:
             xyz = np.dot(xy, self.R[0:2, :])
         # Simulate z = 1 by adding 3rd column of rotation matrix
         xyz += self.R.T[:, 2]
-        if depth != 1:
+        if np.any(np.not_equal(depth, 1)):
             xyz *= np.atleast_1d(depth).reshape(-1, 1)
         if not directions:
             xyz += self.xyz
-- 
2.43.0


From 53efafc098c686074e14ef63b53c9f10fb04bb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 002/138] fix: remove k1 distortion from points on the vertical
 axis through the principal point

---
 src/glimpse/camera.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index bd61f3f..d10390b 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1223,8 +1223,7 @@ class Camera:
         # r^3 + r / k1 - r'/k1 = 0
         phi = np.arctan2(xy[:, 1], xy[:, 0])
         Q = -1 / (3 * self.k[0])
-        # r' = y / cos(phi)
-        R = -xy[:, 0] / (2 * self.k[0] * np.cos(phi))
+        R = -np.hypot(xy[:, 0], xy[:, 1]) / (2 * self.k[0])
         has_three_roots = R ** 2 < Q ** 3
         r = np.full(len(xy), np.nan)
         if np.any(has_three_roots):
-- 
2.43.0


From d1f9f8975c29c97cc8e487949d4d5504e8c612fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 003/138] fix: find the scale between two grid sizes whenever
 there is one

---
 src/glimpse/helpers.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 756db74..dd633a7 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1359,14 +1359,10 @@ def get_scale_from_size(old: Iterable[int], new: Iterable[int]) -> Optional[floa
     initial = new / old
     if all(initial[0] == initial):
         return initial[0]
-
-    def err(scale: float) -> float:
-        return np.sum(np.abs(np.round(scale * old) - new))
-
-    bounds = [(np.floor(initial.min()), np.ceil(initial.max()))]
-    fit = scipy.optimize.differential_evolution(func=err, bounds=bounds)
-    if fit["fun"] == 0:
-        return float(fit["x"])
+    # All scales which round to the new size, if any, lie in a single interval
+    scale = (((new - 0.5) / old).max() + ((new + 0.5) / old).min()) / 2
+    if all(np.round(scale * old) == new):
+        return float(scale)
     return None
 
 
-- 
2.43.0


From ba079a37792c9060bd40ca479c5cadb0cde7219c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 004/138] fix: do not extend the caller's list when formatting
 attribute values

---
 src/glimpse/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index dd633a7..162e68d 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -70,12 +70,12 @@ def format_list(
             x = x[0:length]
         elif nx < length:
             if default is not None:
-                x += [default] * (length - nx)
+                x = x + [default] * (length - nx)
             elif nx > 0:
                 # Repeat list
                 if length % nx != 0:
                     raise ValueError("Output length is not multiple of input length")
-                x *= length // nx
+                x = x * (length // nx)
     if dtype:
         x = [dtype(i) for i in x]
     return x
-- 
2.43.0


From f8117a3b3159c25558bf330486f3a4fd7e70245e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 005/138] fix: read camera elevation correction from JSON

---
 src/glimpse/camera.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index d10390b..17486b3 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -344,6 +344,8 @@ class Camera:
         """
         json_args = helpers.read_json(path)
         for key in json_args:
+            if isinstance(json_args[key], dict):
+                continue
             # Conversion to float converts None to nan
             value = np.array(json_args[key], dtype=float)
             if np.isnan(value).all():
-- 
2.43.0


From ed75276e926bb019eef828894e5d5eeddba23032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 006/138] fix: rasterize points on the right and bottom edges
 of the image frame

---
 src/glimpse/camera.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 17486b3..584af8a 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -857,9 +857,9 @@ class Camera:
         """
         mask = self.inframe(uv)
         a = np.full((self.imgsz[1], self.imgsz[0]), np.nan)
-        helpers.rasterize_points(
-            uv[mask, 1].astype(int), uv[mask, 0].astype(int), values[mask], a=a
-        )
+        # Points on the right or bottom edge of the frame fall in the last pixel
+        idx = np.minimum(uv[mask].astype(int), self.imgsz - 1)
+        helpers.rasterize_points(idx[:, 1], idx[:, 0], values[mask], a=a)
         return a
 
     def spherical_to_xyz(self, angles: np.ndarray) -> np.ndarray:
@@ -1079,7 +1079,8 @@ class Camera:
             if not np.count_nonzero(is_in):
                 # No cells in image
                 return None
-            rc = uv[is_in, ::-1].astype(int)
+            # Points on the right or bottom edge of the frame fall in the last pixel
+            rc = np.minimum(uv[is_in].astype(int), self.imgsz - 1)[:, ::-1]
             # Compile values
             if has_values:
                 tile_values = tile_values[tile_mask][is_in]
-- 
2.43.0


From b699c5fbeb5e107237a946363b2ae36c8bcbbb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 007/138] fix: rasterize multi-dimensional point values

---
 src/glimpse/camera.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 584af8a..1d34383 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -844,7 +844,8 @@ class Camera:
             values: Point values (n, ) or (n, d).
 
         Returns:
-            Image array (float) of mean values of the same dimensions as :attr:`imgsz`.
+            Image array (float) of mean values of the same dimensions as :attr:`imgsz`
+            (with a 3rd dimension of size d if `values` is (n, d) and d is not 1).
             Pixels without points are `NaN`.
 
         Example:
@@ -856,7 +857,10 @@ class Camera:
                    [nan, nan,  3.]])
         """
         mask = self.inframe(uv)
-        a = np.full((self.imgsz[1], self.imgsz[0]), np.nan)
+        shape = (self.imgsz[1], self.imgsz[0])
+        if values.ndim > 1 and values.shape[1] != 1:
+            shape += values.shape[1:2]
+        a = np.full(shape, np.nan)
         # Points on the right or bottom edge of the frame fall in the last pixel
         idx = np.minimum(uv[mask].astype(int), self.imgsz - 1)
         helpers.rasterize_points(idx[:, 1], idx[:, 0], values[mask], a=a)
-- 
2.43.0


From 3380282624190d6db7c8561704a013b52e0144ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 008/138] fix: project scaled elevation tiles into a camera

---
 src/glimpse/camera.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 1d34383..42dd330 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1064,12 +1064,15 @@ class Camera:
                 tile_mask = scipy.ndimage.zoom(
                     tile_mask, zoom=float(tile_scale), order=0
                 )
-                tile_values = np.dstack(
-                    scipy.ndimage.zoom(
-                        tile_values[:, :, i], zoom=float(tile_scale), order=1
+                if has_values:
+                    tile_values = np.dstack(
+                        [
+                            scipy.ndimage.zoom(
+                                tile_values[:, :, i], zoom=float(tile_scale), order=1
+                            )
+                            for i in range(tile_values.shape[2])
+                        ]
                     )
-                    for i in range(tile_values.shape[2])
-                )
             # Project tile
             xyz = helpers.grid_to_points(
                 (tile.X[tile_mask], tile.Y[tile_mask], tile.array[tile_mask])
-- 
2.43.0


From b174e78fdccc27c73396371898f327e72fa1aca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 009/138] fix: shift grids without adding in place to shared or
 integer coordinates

---
 src/glimpse/raster.py | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 65b00ae..4be29a1 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -269,17 +269,11 @@ class Grid:
     def _shift_xy(self, dx: Number = None, dy: Number = None) -> None:
         """Shift grid position."""
         if dx is not None:
-            self._xlim += dx
-            if self._x is not None:
-                self._x += dx
-            if self._X is not None:
-                self._X += dx
+            self._xlim = self._xlim + dx
+            self._clear_cache(["x", "X"])
         if dy is not None:
-            self._ylim += dy
-            if self._y is not None:
-                self._y += dy
-            if self._Y is not None:
-                self._Y += dy
+            self._ylim = self._ylim + dy
+            self._clear_cache(["y", "Y"])
 
     # ---- Methods ---- #
 
@@ -1205,16 +1199,7 @@ class Raster(Grid):
         """
         self._shift_xy(dx=dx, dy=dy)
         if dz is not None:
-            # Prevent reset of cached interpolants
-            self._array += dz
-        if self._Zf is not None:
-            # Shift cached interpolants
-            if dx is not None:
-                self._Zf.grid[0][:] += dx
-            if dy is not None:
-                self._Zf.grid[1][:] += dy
-            if dy is not None:
-                self._Zf.values += dz
+            self.array = self.array + dz
 
     def fill_circle(
         self, center: Iterable[Number], radius: Number, value: Any = np.nan
-- 
2.43.0


From dc9153ca678f94e0a4e9d7947c2158ed45d3b287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 010/138] fix: discard the cached interpolator when raster
 limits or values change

---
 src/glimpse/raster.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 4be29a1..4f665a8 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -891,6 +891,13 @@ class Raster(Grid):
             )
         return self._Zf
 
+    # ---- Methods (private) ----
+
+    def _clear_cache(self, attributes: Iterable[str] = ["x", "X", "y", "Y"]) -> None:
+        """Clear cached attributes and the interpolator which depends on them."""
+        super()._clear_cache(attributes)
+        self._Zf = None
+
     # ---- Methods (public) ----
 
     def copy(self) -> "Raster":
@@ -1166,6 +1173,7 @@ class Raster(Grid):
                 warnings.warn("array cast to float to accommodate NaN")
                 self.array = self.array.astype(float)
             self.array[outbounds] = np.nan
+            self._clear_cache(["Zf"])
 
     def resize(self, scale: Number, order: int = 1) -> None:
         """
@@ -1228,6 +1236,7 @@ class Raster(Grid):
                 ind.extend(self.rowcol_to_idx(rowcols))
         # Apply
         self.array.flat[ind] = value
+        self._clear_cache(["Zf"])
 
     def hillshade(
         self, azimuth: Number = 315, altitude: Number = 45, **kwargs: Any
-- 
2.43.0


From d31b59f285c3eb1d8893ab76f53e761cf904da93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 011/138] fix: never share coordinate arrays with the caller or
 other grids

---
 src/glimpse/raster.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 4f665a8..6180813 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -229,7 +229,7 @@ class Grid:
 
     def _parse_limits(self, value: Iterable[Number]) -> np.ndarray:
         """Check and parse limits."""
-        value = np.atleast_1d(value)
+        value = np.array(value, ndmin=1)
         if value.shape != (2,):
             raise ValueError("Grid limits must be (2,)")
         if not np.issubdtype(value.dtype, np.number):
@@ -244,8 +244,7 @@ class Grid:
         """Parse limits, coordinate vector, and coordinate matrix."""
         if value is None:
             value = (0, self.size[dim])
-        if not isinstance(value, np.ndarray):
-            value = np.atleast_1d(value)
+        value = np.array(value, ndmin=1)
         is_X = value.shape[0:2] == self.shape[0:2]
         if is_X:
             # TODO: Check if all columns equal
@@ -1079,7 +1078,7 @@ class Raster(Grid):
         array = self.sample((grid.x, grid.y), grid=True, **kwargs)
         self.array = array
         self.xlim, self.ylim = grid.xlim, grid.ylim
-        self._x, self._y = grid.x, grid.y
+        self._x, self._y = grid.x.copy(), grid.y.copy()
 
     def plot(
         self, array: np.ndarray = None, **kwargs: Any
-- 
2.43.0


From c532a94c95ff31c0a055f3cdf3340eb5edf6b5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 012/138] fix: check the size of a new grid and update
 coordinates when it changes

---
 src/glimpse/raster.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 6180813..debdfcd 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -51,7 +51,7 @@ class Grid:
         y: Iterable[Union[Number, Iterable[Number]]] = None,
         crs: Union[int, str] = None,
     ) -> None:
-        self._size = size
+        self.size = size
         self.xlim, self._x, self._X = self._parse_xy(x, dim=0)
         self.ylim, self._y, self._Y = self._parse_xy(y, dim=1)
         self.crs = crs
@@ -83,6 +83,7 @@ class Grid:
         if (value <= 0).any():
             raise ValueError("Grid dimensions must be positive")
         self._size = value
+        self._clear_cache()
 
     @property
     def xlim(self) -> np.ndarray:
@@ -216,7 +217,7 @@ class Grid:
             buf_xsize = win_xsize
             buf_ysize = win_ysize
         grid.xlim, grid.ylim = xlim, ylim
-        grid.n = (buf_xsize, buf_ysize)
+        grid.size = (buf_xsize, buf_ysize)
         return grid
 
     # ---- Methods (private) ----
@@ -863,7 +864,9 @@ class Raster(Grid):
         """Grid dimensions (nx, ny)."""
         if self._array is None:
             # HACK: Use gdal.ReadAsArray arguments
-            return self._gdal_kwargs["buf_xsize"], self._gdal_kwargs["buf_ysize"]
+            return np.array(
+                (self._gdal_kwargs["buf_xsize"], self._gdal_kwargs["buf_ysize"])
+            )
         return np.array(self._array.shape[0:2][::-1]).astype(int)
 
     @property
-- 
2.43.0


From 51f1a24b5f1e5e336ae5d2505e922e3e8f0958f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 013/138] fix: keep the coordinate reference system when
 copying or subsetting

---
 src/glimpse/raster.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index debdfcd..7e53722 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -279,7 +279,9 @@ class Grid:
 
     def copy(self) -> "Grid":
         """Copy grid."""
-        return Grid(self.size.copy(), x=self.xlim.copy(), y=self.ylim.copy())
+        return Grid(
+            self.size.copy(), x=self.xlim.copy(), y=self.ylim.copy(), crs=self.crs
+        )
 
     def resize(self, scale: Number) -> None:
         """
@@ -683,7 +685,9 @@ class Raster(Grid):
             x = x[[0, -1]] + (-0.5, 0.5) * d[0:1]
         if len(y) < 3:
             y = y[[0, -1]] + (-0.5, 0.5) * d[1:2]
-        return self.__class__(self.array[i, j], x=x, y=y, datetime=self.datetime)
+        return self.__class__(
+            self.array[i, j], x=x, y=y, datetime=self.datetime, crs=self.crs
+        )
 
     @classmethod
     def open(
@@ -878,7 +882,7 @@ class Raster(Grid):
     @property
     def grid(self) -> "Grid":
         """Raster grid."""
-        return Grid(self.size, x=self.xlim, y=self.ylim)
+        return Grid(self.size, x=self.xlim, y=self.ylim, crs=self.crs)
 
     # ---- Properties (cached) ----
 
@@ -909,6 +913,7 @@ class Raster(Grid):
             x=self.xlim.copy(),
             y=self.ylim.copy(),
             datetime=copy.copy(self.datetime),
+            crs=self.crs,
         )
 
     def sample(
-- 
2.43.0


From dd288f771edb8fd474c9aaba5038ffc2943e0f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 014/138] fix: convert coordinates to the nearest row and
 column instead of truncating

---
 src/glimpse/raster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 7e53722..56d9d44 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -374,7 +374,7 @@ class Grid:
         nxy = np.floor(nxy + 0.5)
         if not edges and inbounds:
             # Points on right or bottom edges snap down to stay in bounds
-            is_outer_edge = xy == np.append(self.xlim[1], self.ylim[1])
+            is_outer_edge = (nxy == self.size) & (xy >= self.min) & (xy <= self.max)
             nxy[is_outer_edge] -= 1
         if centers and not edges:
             nxy += 0.5
@@ -491,7 +491,7 @@ class Grid:
         origin = np.append(self.xlim[0], self.ylim[0])
         colrow = (xy - origin) / self.d - 0.5
         if snap:
-            colrow = colrow.astype(int)
+            colrow = np.round(colrow).astype(int)
         return colrow[:, ::-1]
 
     def rowcol_to_idx(self, rowcol: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 7bb4b745dd3bfa516698e2cd249b2a2f16287202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 015/138] fix: subset rasters with negative indices and steps

---
 src/glimpse/raster.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 56d9d44..191cf7c 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -672,13 +672,13 @@ class Raster(Grid):
             raise IndexError("Only integers and slices are valid indices")
         i, j = indices[0], indices[1]
         if not isinstance(i, slice):
-            i = slice(i, i + 1)
+            i = slice(i, i + 1 or None)
         if not isinstance(j, slice):
-            j = slice(j, j + 1)
+            j = slice(j, j + 1 or None)
         d = self.d
-        if i.step and i.step > 1:
+        if i.step:
             d[1] *= i.step
-        if j.step and j.step > 1:
+        if j.step:
             d[0] *= j.step
         x, y = self.x[j], self.y[i]
         if len(x) < 3:
-- 
2.43.0


From 726c3f908a84c36038953dfac934a1db8b131eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 016/138] fix: replace a no-data value of zero when opening a
 raster

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 191cf7c..aa57fc8 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -738,7 +738,7 @@ class Raster(Grid):
         dtype = osgeo.gdal_array.GDALTypeCodeToNumericTypeCode(raster_band.DataType)
         is_float = np.issubdtype(dtype, np.floating)
         default_nan = raster_band.GetNoDataValue()
-        if nan is None and (is_float and default_nan):
+        if nan is None and is_float and default_nan is not None:
             nan = default_nan
         crs = raster.GetProjection()
         obj = cls(None, x=xlim, y=ylim, datetime=datetime, crs=crs if crs else None)
-- 
2.43.0


From 2591841e371cf702a818ba264a6e1655b57b605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 017/138] fix: cache the whole raster when reading a box

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index aa57fc8..6659873 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -804,7 +804,7 @@ class Raster(Grid):
             raster = osgeo.gdal.Open(self.path, osgeo.gdal.GA_ReadOnly)
             band = raster.GetRasterBand(self._band)
             kwargs = self._gdal_kwargs
-            if box is not None:
+            if box is not None and not cache:
                 # Convert box coordinates to source coordinates
                 scale = np.array((kwargs["win_xsize"], kwargs["win_ysize"])) / np.array(
                     (kwargs["buf_xsize"], kwargs["buf_ysize"])
-- 
2.43.0


From 433a4988978c13dab6c87483c0ac5b39c40ec9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 018/138] fix: return only rasterized points from
 Raster.rasterize

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 6659873..8278fde 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1120,7 +1120,7 @@ class Raster(Grid):
         """
         mask = self.inbounds_xy(xy)
         rowcol = self.xy_to_rowcol(xy[mask, :], snap=True)
-        array = self.array.copy()
+        array = np.full(self.shape, np.nan)
         helpers.rasterize_points(rowcol[:, 0], rowcol[:, 1], values[mask], a=array)
         return array
 
-- 
2.43.0


From 28f1f270781f410dea0a512c52cb072af5b5e602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 019/138] fix: keep overlapping tiles inside the grid

---
 src/glimpse/raster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 8278fde..d718fdc 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -595,9 +595,9 @@ class Grid:
         yends = np.insert(np.searchsorted(yi, np.unique(yi), side="right"), 0, 0)
         # HACK: Achieves overlap by increasing tile size
         xstarts = xends.copy()
-        xstarts[1:-1] -= overlap[0]
+        xstarts[1:-1] = np.maximum(xstarts[1:-1] - overlap[0], 0)
         ystarts = yends.copy()
-        ystarts[1:-1] -= overlap[1]
+        ystarts[1:-1] = np.maximum(ystarts[1:-1] - overlap[1], 0)
         return tuple(
             (slice(ystarts[i], yends[i + 1]), slice(xstarts[j], xends[j + 1]))
             for i in range(len(ystarts) - 1)
-- 
2.43.0


From 81d7829a4f8e9dda1b6e08c4aaa901ff2c522be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 020/138] fix: illuminate hillshades from the requested azimuth

---
 src/glimpse/raster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index d718fdc..1ad2e7b 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1260,7 +1260,8 @@ class Raster(Grid):
                 :meth:`matplotlib.colors.LightSource.hillshade`.
         """
         light = matplotlib.colors.LightSource(azdeg=azimuth, altdeg=altitude)
-        return light.hillshade(self.array, dx=self.d[0], dy=self.d[1], **kwargs)
+        # LightSource expects dy to be positive if y decreases with row index
+        return light.hillshade(self.array, dx=self.d[0], dy=-self.d[1], **kwargs)
 
     def fill_crevasses(
         self,
-- 
2.43.0


From fdc17ad49fd7320d374ce09297b2a74a865aac79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 021/138] fix: crop to cell edges despite floating-point
 rounding

---
 src/glimpse/raster.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 1ad2e7b..edba067 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -555,14 +555,14 @@ class Grid:
             ylim = ylim[::-1]
         # Convert xy limits to grid indices
         xy = np.column_stack((xlim, ylim))
-        rowcol = self.xy_to_rowcol(xy, snap=True)
-        # Snap down bottom-right, non-outer edges
-        # see .xy_to_rowcol()
-        bottom_right = np.append(self.xlim[1], self.ylim[1])
-        is_edge = (bottom_right - xy[1, :]) % self.d == 0
-        is_outer_edge = xy[1, :] == bottom_right
-        snap_down = is_edge & ~is_outer_edge
-        rowcol[1, snap_down[::-1]] -= 1
+        uv = self.xyz_to_uv(xy)
+        # Limits equal (within rounding error) to a cell edge are on that edge
+        edges = np.round(uv)
+        rounding = 1e-6 + np.spacing(np.abs(xy).max(axis=0)) / np.abs(self.d)
+        uv = np.where(np.abs(uv - edges) <= rounding, edges, uv)
+        start = np.clip(np.floor(uv[0]), 0, np.asarray(self.size) - 1)
+        end = np.clip(np.ceil(uv[1]) - 1, start, np.asarray(self.size) - 1)
+        rowcol = np.vstack((start, end)).astype(int)[:, ::-1]
         new_xy = self.rowcol_to_xy(rowcol)
         new_xlim = new_xy[:, 0] + np.array([-0.5, 0.5]) * self.d[0]
         new_ylim = new_xy[:, 1] + np.array([-0.5, 0.5]) * self.d[1]
-- 
2.43.0


From b94a1b09e0c861530f91b934ea1765581a14b530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 022/138] fix: return cell indices inside the circle for
 descending axes

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index edba067..3197937 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1229,7 +1229,7 @@ class Raster(Grid):
         """
         # Circle indices
         rowcol = self.xy_to_rowcol(np.atleast_2d(center[0:2]), snap=True)
-        r = np.round(radius / self.d[0])
+        r = np.round(radius / abs(self.d[0]))
         xyi = helpers.bresenham_circle(rowcol[0, ::-1], r).astype(int)
         # Filled circle indices
         ind = []
-- 
2.43.0


From e75b971b5ae1d77e9993799cd4918fc4549fdc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 023/138] fix: apply elevation corrections to viewsheds of
 integer elevations

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 3197937..c32cab5 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1322,7 +1322,7 @@ class Raster(Grid):
         if correction is True:
             correction = {}
         if isinstance(correction, dict):
-            dz += helpers.elevation_corrections(dxy, **correction)
+            dz = dz + helpers.elevation_corrections(dxy, **correction)
         dxy = np.sqrt(dxy)
         dxy_cell = (dxy * (1 / abs(self.d[0])) + 0.5).astype(int)
         # Compute heading (-pi to pi CW from -y axis)
-- 
2.43.0


From 6c18598b8107b29f4ff37f8339f8d79ca5264d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 024/138] fix: sample rasters on grids without altering or
 masking valid values

---
 src/glimpse/raster.py | 48 ++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index c32cab5..fd15c48 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -994,11 +994,11 @@ class Raster(Grid):
                 z = self._sample_1d(xy[dim], dim=dim, kind=methods[order])
                 samples = np.tile(
                     z.reshape(-1 if dim else 1, 1 if dim else -1),
-                    reps=(1 if dim else len(z), len(z) if dim else 1),
+                    reps=(1 if dim else len(xy[1]), len(xy[0]) if dim else 1),
                 )
             else:
                 # 0D: Return constant
-                samples = np.full((len(xy[0]), len(xy[1])), self.array.flat[0])
+                samples = np.full((len(xy[1]), len(xy[0])), self.array.flat[0])
             if has_fill:
                 # Fill out of bounds with value
                 samples[yout, :] = fill_value
@@ -1055,24 +1055,34 @@ class Raster(Grid):
         """Sample raster values on regular grid."""
         x, y = xy
         signs = np.sign(self.d).astype(int)
-        # HACK: scipy.interpolate.RectBivariateSpline does not support NAN
-        Zmin = np.nanmin(self.array)
+        # scipy.interpolate.RectBivariateSpline requires sorted coordinates
+        xi, yi = np.argsort(x), np.argsort(y)
+
+        def evaluate(array: np.ndarray, kx: int, ky: int, s: Number) -> np.ndarray:
+            fun = scipy.interpolate.RectBivariateSpline(
+                self.y[:: signs[1]],
+                self.x[:: signs[0]],
+                array[:: signs[1], :: signs[0]],
+                bbox=(min(self.ylim), max(self.ylim), min(self.xlim), max(self.xlim)),
+                kx=kx,
+                ky=ky,
+                s=s,
+            )
+            samples = np.empty((len(y), len(x)))
+            samples[np.ix_(yi, xi)] = fun(np.take(y, yi), np.take(x, xi), grid=True)
+            return samples
+
         is_nan = np.isnan(self.array)
-        self.array[is_nan] = helpers.numpy_dtype_minmax(self.array.dtype)[0]
-        fun = scipy.interpolate.RectBivariateSpline(
-            self.y[:: signs[1]],
-            self.x[:: signs[0]],
-            self.array[:: signs[1], :: signs[0]],
-            bbox=(min(self.ylim), max(self.ylim), min(self.xlim), max(self.xlim)),
-            kx=kx,
-            ky=ky,
-            s=s,
-        )
-        xdir = 1 if (len(x) < 2) or x[1] > x[0] else -1
-        ydir = 1 if (len(y) < 2) or y[1] > y[0] else -1
-        samples = fun(y[::ydir], x[::xdir], grid=True)[::ydir, ::xdir]
-        samples[samples < Zmin] = np.nan
-        self.array[is_nan] = np.nan
+        if not is_nan.any():
+            return evaluate(self.array, kx=kx, ky=ky, s=s)
+        if is_nan.all():
+            return np.full((len(y), len(x)), np.nan)
+        # scipy.interpolate.RectBivariateSpline does not support NAN:
+        # Interpolate between other values and mask samples between missing values
+        array = np.where(is_nan, np.nanmean(self.array), self.array)
+        samples = evaluate(array, kx=kx, ky=ky, s=s)
+        weights = evaluate(is_nan.astype(float), kx=1, ky=1, s=0)
+        samples[np.abs(weights) > 1e-9] = np.nan
         return samples
 
     def resample(self, grid: Grid, **kwargs: Any) -> None:
-- 
2.43.0


From db729e2fb70ce4ffe397966ec66bdafc2864334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 025/138] fix: return limits of boolean arrays with current
 NumPy versions

---
 src/glimpse/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 162e68d..4762318 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -110,7 +110,7 @@ def numpy_dtype_minmax(
     if issubclass(dtype.type, np.integer):
         info = np.iinfo(dtype)
         return info.min, info.max
-    if dtype.type in (np.bool_, np.bool):
+    if issubclass(dtype.type, np.bool_):
         return False, True
     raise ValueError("Cannot determine min, max for " + str(dtype))
 
-- 
2.43.0


From 66e4ab098fc0d80f416cdd9868d0bf66c05a4e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 026/138] fix: compute horizons from outside a raster and over
 missing values

---
 src/glimpse/raster.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index fd15c48..4f5d1b0 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1431,20 +1431,26 @@ class Raster(Grid):
         # Intersect with box (2d)
         box = np.concatenate((self.min[0:2], self.max[0:2]))
         xy_starts, xy_ends = helpers.intersect_rays_box(origin[0:2], directions, box)
-        # Convert spatial coordinates (x, y) to grid indices (xi, yi)
         inside = self.inbounds_xy(np.atleast_2d(origin[0:2]))[0]
+        # Skip rays which miss the box
+        hits = ~np.isnan(xy_ends).any(axis=1)
+        if not inside:
+            hits &= ~np.isnan(xy_starts).any(axis=1)
+        xy_starts[~hits] = xy_ends[~hits] = self.min[0:2]
+        max_rowcol = np.asarray(self.shape[0:2]) - 1
+        # Convert spatial coordinates (x, y) to grid indices (xi, yi)
         if inside:
             # If inside, start at origin
             rowcol = self.xy_to_rowcol(np.atleast_2d(origin[0:2]), snap=True)
             starts = np.repeat(rowcol[:, ::-1], n, axis=0)
         else:
-            rowcol = self.xy_to_rowcol(xy_starts)
-            starts = rowcol[:, ::-1]
+            rowcol = self.xy_to_rowcol(xy_starts, snap=True)
+            starts = np.clip(rowcol, 0, max_rowcol)[:, ::-1]
         rowcol = self.xy_to_rowcol(xy_ends, snap=True)
-        ends = rowcol[:, ::-1]
+        ends = np.clip(rowcol, 0, max_rowcol)[:, ::-1]
         # Iterate over line in each direction
         hxyz = np.full((n, 3), np.nan)
-        for i in range(n):
+        for i in np.flatnonzero(hits):
             rowcol = helpers.bresenham_line(starts[i, :], ends[i, :])[:, ::-1]
             if inside:
                 # Skip start cell
@@ -1452,6 +1458,9 @@ class Raster(Grid):
             idx = self.rowcol_to_idx(rowcol)
             # TODO: Precompute Z.flatten()?
             dz = self.array.flat[idx] - origin[2]
+            if np.isnan(dz).all():
+                # No terrain in this direction
+                continue
             xy = self.rowcol_to_xy(rowcol)
             dxy = np.sum((xy - origin[0:2]) ** 2, axis=1)  # wait to take square root
             if isinstance(correction, dict):
-- 
2.43.0


From aeb52a0acc998f10d3fdd80753b55d527712814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 027/138] fix: read windows of resampled rasters as crops of
 the full raster

---
 src/glimpse/raster.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 4f5d1b0..61ae1dc 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -796,27 +796,27 @@ class Raster(Grid):
                 raise ValueError("Box must be integers")
             if not np.all(self.inbounds(box)):
                 raise ValueError("Box is out of bounds")
-        new_array = False
+        is_window = False
         # HACK: Avoid infinite recursion
         array = self._array
         if array is None:
-            new_array = True
             raster = osgeo.gdal.Open(self.path, osgeo.gdal.GA_ReadOnly)
             band = raster.GetRasterBand(self._band)
             kwargs = self._gdal_kwargs
-            if box is not None and not cache:
-                # Convert box coordinates to source coordinates
-                scale = np.array((kwargs["win_xsize"], kwargs["win_ysize"])) / np.array(
-                    (kwargs["buf_xsize"], kwargs["buf_ysize"])
-                )
-                sbox = box * scale + np.array((kwargs["xoff"], kwargs["yoff"]))
+            # Windows of resampled rasters are cropped from the full raster
+            # since resampling depends on the position of the window
+            is_window = box is not None and not cache
+            is_window &= (
+                kwargs["win_xsize"] == kwargs["buf_xsize"]
+                and kwargs["win_ysize"] == kwargs["buf_ysize"]
+            )
+            if is_window:
+                sizes = box[1] - box[0]
                 kwargs = dict(
-                    xoff=int(sbox[0][0]),
-                    yoff=int(sbox[0][1]),
-                    win_xsize=int(sbox[1][0] - sbox[0][0]),
-                    win_ysize=int(sbox[1][1] - sbox[0][1]),
-                    buf_xsize=int(box[1][0] - box[0][0]),
-                    buf_ysize=int(box[1][1] - box[0][1]),
+                    xoff=int(box[0][0] + kwargs["xoff"]),
+                    yoff=int(box[0][1] + kwargs["yoff"]),
+                    win_xsize=int(sizes[0]),
+                    win_ysize=int(sizes[1]),
                 )
             array = band.ReadAsArray(**kwargs)
             if self._nan is not None:
@@ -827,8 +827,8 @@ class Raster(Grid):
             if cache:
                 array = sharedmem.copy(array)
                 self.array = array
-        if box is not None and (cache or not new_array):
-            # Caching and cropping: Subset cached array
+        if box is not None and not is_window:
+            # Subset full array
             array = array[box[0][1] : box[1][1], box[0][0] : box[1][0]]
         return array
 
-- 
2.43.0


From 94720c5184c162bdf00f7cde715747e0b9f5e937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 028/138] fix: read cell centers from coordinate matrices with
 two rows or columns

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 61ae1dc..25dd18b 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -253,7 +253,7 @@ class Grid:
             value = value[:, 0] if dim else value[0]
         else:
             X = None
-        is_x = any(n > 2 for n in value.shape[0:2])
+        is_x = is_X or any(n > 2 for n in value.shape[0:2])
         if is_x:
             x = value
             # TODO: Check if equally spaced monotonic
-- 
2.43.0


From 9cb8a54d0af36c3efc7def1a290f4d4fe47dfdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 029/138] fix: crop values of integer rasters which are all
 within limits

---
 src/glimpse/raster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 25dd18b..55f352f 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1189,8 +1189,9 @@ class Raster(Grid):
             ):
                 warnings.warn("array cast to float to accommodate NaN")
                 self.array = self.array.astype(float)
-            self.array[outbounds] = np.nan
-            self._clear_cache(["Zf"])
+            if np.count_nonzero(outbounds):
+                self.array[outbounds] = np.nan
+                self._clear_cache(["Zf"])
 
     def resize(self, scale: Number, order: int = 1) -> None:
         """
-- 
2.43.0


From 6d3fc6310358fc994ce753c14ec3b1c3d3e35855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 030/138] fix: do not share the array of grid dimensions with
 the caller

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 55f352f..98e0934 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -73,7 +73,7 @@ class Grid:
 
     @size.setter
     def size(self, value: Iterable[int]) -> None:
-        value = np.atleast_1d(value)
+        value = np.array(value, ndmin=1)
         if value.shape == (1,):
             value = np.concatenate((value, value))
         if value.shape != (2,):
-- 
2.43.0


From 9675d55ebb10f08fc813ce1772889def37da6fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 031/138] fix: update cell centers and the interpolator when
 limits are changed with +=

---
 src/glimpse/raster.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 98e0934..285d2ae 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -93,9 +93,9 @@ class Grid:
     @xlim.setter
     def xlim(self, value: Iterable[Number]) -> None:
         value = self._parse_limits(value)
-        if not hasattr(self, "xlim") or not np.array_equal(self.xlim, value):
-            self._xlim = value
-            self._clear_cache(["x", "X"])
+        # Values may equal the current limits if these were changed in place
+        self._xlim = value
+        self._clear_cache(["x", "X"])
 
     @property
     def ylim(self) -> np.ndarray:
@@ -105,9 +105,9 @@ class Grid:
     @ylim.setter
     def ylim(self, value: Iterable[Number]) -> None:
         value = self._parse_limits(value)
-        if not hasattr(self, "ylim") or not np.array_equal(self.ylim, value):
-            self._ylim = value
-            self._clear_cache(["y", "Y"])
+        # Values may equal the current limits if these were changed in place
+        self._ylim = value
+        self._clear_cache(["y", "Y"])
 
     # ---- Properties (dependent) ---- #
 
-- 
2.43.0


From e94d3fb1e6727a4776a3bc74c3316c82b3c9a01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 032/138] fix: keep fractions of samples when filling with
 integers and fill integer rasters with NaN

---
 src/glimpse/raster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 285d2ae..9176696 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1001,12 +1001,13 @@ class Raster(Grid):
                 samples = np.full((len(xy[1]), len(xy[0])), self.array.flat[0])
             if has_fill:
                 # Fill out of bounds with value
+                samples = samples.astype(float)
                 samples[yout, :] = fill_value
                 samples[:, xout] = fill_value
         else:
             # Sample at points
             if has_fill:
-                samples = np.full(len(xy), fill_value)
+                samples = np.full(len(xy), fill_value, dtype=float)
             if ndims == 2:
                 # 2D: Use RegularGridInterpolator
                 self.Zf.bounds_error = False
-- 
2.43.0


From d6986a5969429cfcd24fe1e87053cd1c8da58862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 033/138] fix: sample rasters with a singleton dimension by
 quartic and quintic splines

---
 src/glimpse/raster.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 9176696..f9190ba 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1040,9 +1040,14 @@ class Raster(Grid):
         xdir = np.sign(self.d[dim]).astype(int)
         xi = (self.y if dim else self.x)[::xdir]
         zi = (self.array[:, 0] if dim else self.array[0])[::xdir]
-        zxfun = scipy.interpolate.interp1d(
-            x=xi, y=zi, kind=kind, assume_sorted=True, fill_value="extrapolate"
-        )
+        if kind in ("quartic", "quintic"):
+            # Not supported by scipy.interpolate.interp1d
+            k = 4 if kind == "quartic" else 5
+            zxfun = scipy.interpolate.InterpolatedUnivariateSpline(xi, zi, k=k)
+        else:
+            zxfun = scipy.interpolate.interp1d(
+                x=xi, y=zi, kind=kind, assume_sorted=True, fill_value="extrapolate"
+            )
         samples = zxfun(x)
         return samples
 
-- 
2.43.0


From 90201452ba5b533eb92b95dbe4b6432b1251f5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 034/138] fix: write the requested no-data value in place of
 NaN

---
 src/glimpse/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 4762318..c2744ed 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -573,6 +573,9 @@ def write_raster(
         ValueError: GDAL driver cannot write files.
     """
     a = np.atleast_3d(a)
+    if nan is not None and np.issubdtype(a.dtype, np.floating):
+        a = a.copy()
+        a[np.isnan(a)] = nan
     dtype = osgeo.gdal_array.NumericTypeCodeToGDALTypeCode(a.dtype)
     if not dtype:
         dtypes = ", ".join([x.__name__ for x in osgeo.gdal_array.codes.values()])
-- 
2.43.0


From 7ea00252e9a73c4fbde95865f6991240d265e672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 035/138] fix: keep diagonal steps in rasterized circles

---
 src/glimpse/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index c2744ed..8836b60 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1019,7 +1019,7 @@ def bresenham_circle(center: Iterable, radius: float) -> np.ndarray:
         # 8th octant
         xy[6 * octant_size - i, :] = [x0 - y, y0 - x]
     # Remove duplicate points
-    unique = [True] + (np.diff(xy, axis=0).sum(axis=1) != 0).tolist()
+    unique = [True] + np.any(np.diff(xy, axis=0) != 0, axis=1).tolist()
     return xy[unique]
 
 
-- 
2.43.0


From 3455470568117273e7cc294c46d5d03e992d4f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 036/138] fix: interpolate rasters at the position of a source
 raster

---
 src/glimpse/raster.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index f9190ba..918da44 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1708,7 +1708,9 @@ class RasterInterpolant:
         """Interpolate between two rasters."""
         dz = means[1].array - means[0].array
         dx = x[1] - x[0]
-        scale = (xi - x[0]) / dx
+        # Positions of the two rasters are equal if xi is at a raster
+        at_raster = x[0] == x[1]
+        scale = 0 if at_raster else (xi - x[0]) / dx
         z = means[0].array + dz * scale
         t = xi if isinstance(xi, datetime.datetime) else None
         raster = means[0].__class__(z, x=means[0].xlim, y=means[0].ylim, datetime=t)
@@ -1720,7 +1722,8 @@ class RasterInterpolant:
             )
             # Interpolation uncertainty: nearest bound at 99.7%
             nearest_dx = np.min(np.abs(np.subtract(xi, x)))
-            zi_var = ((1 / 3) * dz * (nearest_dx / dx)) ** 2
+            nearest_scale = 0 if at_raster else nearest_dx / dx
+            zi_var = ((1 / 3) * dz * nearest_scale) ** 2
             sigma = raster.__class__(
                 np.sqrt(z_var + zi_var), x=means[0].xlim, y=means[0].ylim, datetime=t
             )
-- 
2.43.0


From 663b616721bf1d48a8a3549b8f71e4dc996280ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 037/138] fix: resize interpolated rasters to the target cell
 size

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 918da44..e87bd67 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1610,7 +1610,7 @@ class RasterInterpolant:
             if xlim_change or ylim_change:
                 obj.crop(xlim=xlim, ylim=ylim)
             if d_change:
-                scale = d / np.abs(obj.d).mean()
+                scale = np.abs(obj.d).mean() / d
                 obj.resize(scale)
             return obj
         if isinstance(obj, str):
-- 
2.43.0


From f1b55f7f24a8397f25f1add22a65de1dcd027e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 038/138] fix: interpolate between integer rasters without
 overflow

---
 src/glimpse/raster.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index e87bd67..ab7fa46 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1706,7 +1706,7 @@ class RasterInterpolant:
         sigmas: Iterable[Raster] = None,
     ) -> Union[Raster, Tuple[Raster, Raster]]:
         """Interpolate between two rasters."""
-        dz = means[1].array - means[0].array
+        dz = means[1].array - means[0].array.astype(float)
         dx = x[1] - x[0]
         # Positions of the two rasters are equal if xi is at a raster
         at_raster = x[0] == x[1]
@@ -1717,9 +1717,8 @@ class RasterInterpolant:
         if sigmas is not None:
             # Bounds uncertainty: error propagation of z above
             # NOTE: 'a * (1 - scale) + b * scale' form underestimates uncertainty
-            z_var = sigmas[0].array ** 2 + scale ** 2 * (
-                sigmas[0].array ** 2 + sigmas[1].array ** 2
-            )
+            variances = [sigma.array.astype(float) ** 2 for sigma in sigmas]
+            z_var = variances[0] + scale ** 2 * (variances[0] + variances[1])
             # Interpolation uncertainty: nearest bound at 99.7%
             nearest_dx = np.min(np.abs(np.subtract(xi, x)))
             nearest_scale = 0 if at_raster else nearest_dx / dx
-- 
2.43.0


From f291772e3984510e57992212a2e82903e86f905a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 039/138] fix: interpolate between unaligned rasters and
 between rasters and numbers

---
 src/glimpse/raster.py | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index ab7fa46..ce91227 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1656,6 +1656,26 @@ class RasterInterpolant:
             obj = self.sigmas[index]
         return self._parse_as_raster(obj, xi, d=d, xlim=xlim, ylim=ylim)
 
+    def _match_grid(
+        self, raster: Raster, source: Union[Raster, str, Number], grid: Grid
+    ) -> Raster:
+        """Match raster to grid without modifying its source."""
+        if raster.grid == grid:
+            return raster
+        if isinstance(source, numbers.Number):
+            # Scalar (infinite bounds)
+            return Raster(
+                np.full(grid.shape, raster.array.flat[0]),
+                x=grid.xlim,
+                y=grid.ylim,
+                datetime=raster.datetime,
+            )
+        if raster is source:
+            raster = raster.copy()
+        # Cells outside of raster are NaN
+        raster.resample(grid, bounds_error=False)
+        return raster
+
     def _read_mean_grid(self, index: int) -> Grid:
         """Parse mean raster grid."""
         obj = self.means[index]
@@ -1770,7 +1790,11 @@ class RasterInterpolant:
         # Determine common grid (lowest resolution, smallest extent)
         grids = [self._read_mean_grid(k) for k in ij]
         if d is None:
-            d = np.max(np.abs(np.stack([grid.d for grid in grids])))
+            # NOTE: Numbers have infinite cell size
+            ds = np.abs(np.stack([grid.d for grid in grids]))
+            ds = ds[np.all(np.isfinite(ds), axis=1)]
+            if len(ds) == 2 and not np.allclose(ds[0], ds[1], rtol=1e-9, atol=0):
+                d = np.max(ds)
         if xlim is None:
             xlim = (-np.inf, np.inf)
         if ylim is None:
@@ -1784,17 +1808,17 @@ class RasterInterpolant:
             self._read_mean(k, d=d, xlim=xlim, ylim=ylim, zlim=zlim, fun=fun, **kwargs)
             for k in ij
         ]
-        if means[0].grid != means[1].grid:
-            if means[1] is self.means[ij[1]]:
-                means[1] = means[1].copy()
-            means[1].resample(means[0])
+        is_number = [isinstance(self.means[k], numbers.Number) for k in ij]
+        base = means[1] if is_number[0] else means[0]
+        grid = base.grid
+        means = [self._match_grid(r, self.means[k], grid) for r, k in zip(means, ij)]
         # Read sigma rasters
         if return_sigma:
             sigmas = [self._read_sigma(k, d=d, xlim=xlim, ylim=ylim) for k in ij]
-            if sigmas[0].grid != sigmas[1].grid:
-                if sigmas[1] is self.sigmas[ij[1]]:
-                    sigmas[1] = sigmas[1].copy()
-                sigmas[1].resample(sigmas[0])
+            sources = [0, 0] if self.sigmas is None else [self.sigmas[k] for k in ij]
+            sigmas = [
+                self._match_grid(r, source, grid) for r, source in zip(sigmas, sources)
+            ]
         else:
             sigmas = None
         # Interpolate
-- 
2.43.0


From b88c5da3543c74f55e5467a362fa8599133e811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 040/138] fix: open rasters at their own cell size with their
 own dimensions

---
 src/glimpse/raster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index ce91227..0c55945 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -729,8 +729,9 @@ class Raster(Grid):
         win_xsize = (cols[1] - cols[0]) + 1
         win_ysize = (rows[1] - rows[0]) + 1
         if d:
-            buf_xsize = np.ceil(abs(win_xsize * grid.d[0] / d))
-            buf_ysize = np.ceil(abs(win_ysize * grid.d[1] / d))
+            # Whole numbers may be exceeded by rounding error
+            buf_xsize = max(np.ceil(abs(win_xsize * grid.d[0] / d) - 1e-6), 1)
+            buf_ysize = max(np.ceil(abs(win_ysize * grid.d[1] / d) - 1e-6), 1)
         else:
             buf_xsize = win_xsize
             buf_ysize = win_ysize
-- 
2.43.0


From 470f021519654a26105eb7114b37db9e2a273822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 041/138] fix: keep the coordinate reference system of
 interpolated rasters

---
 src/glimpse/raster.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 0c55945..5192f86 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1734,7 +1734,8 @@ class RasterInterpolant:
         scale = 0 if at_raster else (xi - x[0]) / dx
         z = means[0].array + dz * scale
         t = xi if isinstance(xi, datetime.datetime) else None
-        raster = means[0].__class__(z, x=means[0].xlim, y=means[0].ylim, datetime=t)
+        kwargs = dict(x=means[0].xlim, y=means[0].ylim, datetime=t, crs=means[0].crs)
+        raster = means[0].__class__(z, **kwargs)
         if sigmas is not None:
             # Bounds uncertainty: error propagation of z above
             # NOTE: 'a * (1 - scale) + b * scale' form underestimates uncertainty
@@ -1744,9 +1745,7 @@ class RasterInterpolant:
             nearest_dx = np.min(np.abs(np.subtract(xi, x)))
             nearest_scale = 0 if at_raster else nearest_dx / dx
             zi_var = ((1 / 3) * dz * nearest_scale) ** 2
-            sigma = raster.__class__(
-                np.sqrt(z_var + zi_var), x=means[0].xlim, y=means[0].ylim, datetime=t
-            )
+            sigma = raster.__class__(np.sqrt(z_var + zi_var), **kwargs)
             return raster, sigma
         return raster
 
-- 
2.43.0


From 84a131ee75d89129522af587b495917e9aee473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 042/138] fix: resize rasters without zeros along the last row
 and column

---
 src/glimpse/raster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 5192f86..b612f69 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1209,7 +1209,9 @@ class Raster(Grid):
             order: Interpolation order
                 (0: nearest, 1: linear, 2: quadratic, 3: cubic, 4: quartic, 5: quintic).
         """
-        self.array = scipy.ndimage.zoom(self.array, zoom=float(scale), order=order)
+        self.array = scipy.ndimage.zoom(
+            self.array, zoom=float(scale), order=order, mode="nearest"
+        )
 
     def shift(self, dx: Number = None, dy: Number = None, dz: Number = None) -> None:
         """
-- 
2.43.0


From bdb053ab69f60fce5e93062a3328b4ee22746d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 043/138] fix: scale tiles without zeros along the last row and
 column

---
 src/glimpse/camera.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 42dd330..64b5b80 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1062,13 +1062,16 @@ class Camera:
             if tile_scale != 1:
                 tile.resize(tile_scale)
                 tile_mask = scipy.ndimage.zoom(
-                    tile_mask, zoom=float(tile_scale), order=0
+                    tile_mask, zoom=float(tile_scale), order=0, mode="nearest"
                 )
                 if has_values:
                     tile_values = np.dstack(
                         [
                             scipy.ndimage.zoom(
-                                tile_values[:, :, i], zoom=float(tile_scale), order=1
+                                tile_values[:, :, i],
+                                zoom=float(tile_scale),
+                                order=1,
+                                mode="nearest",
                             )
                             for i in range(tile_values.shape[2])
                         ]
-- 
2.43.0


From ee64fd91c6a3bfd5b55625458aa12e3e65800137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 044/138] fix: intersect boxes with rays that run along their
 sides

---
 src/glimpse/helpers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 8836b60..f84e4f1 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -819,6 +819,12 @@ def intersect_rays_box(
     fbounds = bounds.flatten()
     with np.errstate(divide="ignore"):
         invdir = 1 / directions
+    # Rays along a side of the box (zero distance, infinite inverse direction)
+    # are between the two sides everywhere
+    along = (directions == 0)[:, None, :] & (
+        bounds.reshape(len(directions), 2, -1) == np.asarray(origin)
+    )
+    along = along.any(axis=1)
     sign = (invdir < 0).astype(int)
     nrays = directions.shape[0]
     ndims = directions.shape[1]
@@ -828,11 +834,13 @@ def intersect_rays_box(
     tmin = (fbounds[idx] - origin[0]) * invdir[:, 0]
     idx = np.ravel_multi_index((all_rays, (1 - sign[:, 0]) * ndims), bounds.shape)
     tmax = (fbounds[idx] - origin[0]) * invdir[:, 0]
+    tmin[along[:, 0]], tmax[along[:, 0]] = -np.inf, np.inf
     # Apply y-axis intersections
     idx = np.ravel_multi_index((all_rays, 1 + sign[:, 1] * ndims), bounds.shape)
     tymin = (fbounds[idx] - origin[1]) * invdir[:, 1]
     idx = np.ravel_multi_index((all_rays, 1 + (1 - sign[:, 1]) * ndims), bounds.shape)
     tymax = (fbounds[idx] - origin[1]) * invdir[:, 1]
+    tymin[along[:, 1]], tymax[along[:, 1]] = -np.inf, np.inf
     misses = (tmin > tymax) | (tymin > tmax)
     tmin[misses] = np.nan
     tmax[misses] = np.nan
@@ -848,6 +856,7 @@ def intersect_rays_box(
             (all_rays, 2 + (1 - sign[:, 2]) * ndims), bounds.shape
         )
         tzmax = (fbounds[idx] - origin[2]) * invdir[:, 2]
+        tzmin[along[:, 2]], tzmax[along[:, 2]] = -np.inf, np.inf
         misses = (tmin > tzmax) | (tzmin > tmax)
         tmin[misses] = np.nan
         tmax[misses] = np.nan
-- 
2.43.0


From e6595a8362e9e7fb0a7bc2420bc3a5bcd7b18010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 045/138] fix: clip polylines with vertices on the box boundary

---
 src/glimpse/helpers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index f84e4f1..02e9252 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -772,10 +772,10 @@ def intersect_edge_box(
         0.5
     """
     distance = np.asarray(distance).reshape(1, -1)
-    t = np.nanmin(intersect_rays_box(origin, distance, box, t=True))
-    if t > 0 and t < 1:
-        return t
-    return None
+    t = np.ravel(intersect_rays_box(origin, distance, box, t=True))
+    # Ignore intersections at (or beyond) the ends of the edge
+    t = t[(t > 0) & (t < 1)]
+    return t.min() if t.size else None
 
 
 def intersect_rays_box(
-- 
2.43.0


From 55f6194475d40c9599c260bcb9d616fee74ecb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 046/138] fix: interpolate lines with decreasing distance
 measures and array fill values

---
 src/glimpse/helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 02e9252..f3a87fa 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1161,11 +1161,14 @@ def interpolate_line(
         sort_index = np.argsort(x)
         x = x[sort_index]
         vertices = vertices[sort_index, :]
+        if not isinstance(fill, str) and np.iterable(fill):
+            # Fill values refer to the original order
+            fill = fill[::-1]
     # Interpolate each dimension and combine
     result = np.column_stack(
         [np.interp(xi, x, vertices[:, i]) for i in range(vertices.shape[1])]
     )
-    if fill == "endpoints":
+    if isinstance(fill, str) and fill == "endpoints":
         if error is False:
             return result
         fill = (vertices[0], vertices[-1])
@@ -1173,8 +1176,6 @@ def interpolate_line(
         fill = (fill, fill)
     left = np.less(xi, x[0])
     right = np.greater(xi, x[-1])
-    if x[0] > x[-1]:
-        right, left = left, right
     if error and (left.any() or right.any()):
         raise ValueError("Requested distance outside range")
     result[left, :] = fill[0]
-- 
2.43.0


From f180022eba835a235891b434b518913cfc62bcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 047/138] fix: space line points by whole multiples of dx
 despite rounding error

---
 src/glimpse/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index f3a87fa..b7d34f4 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1149,8 +1149,8 @@ def interpolate_line(
     if xi is None:
         if n is None:
             n = abs((x[-1] - x[0]) / dx)
-            if n == int(n):
-                n += 1
+            if np.isclose(n, np.round(n), rtol=1e-9):
+                n = np.round(n) + 1
             n = int(round(n))
         xi = np.linspace(start=x[0], stop=x[-1], num=n, endpoint=True)
         # Ensure defaults for speed
-- 
2.43.0


From 2c27e4edd9243d630ee025f2fda7154d8063face Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 048/138] fix: accept any sequence of decreasing distance
 measures

---
 src/glimpse/helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index b7d34f4..7ab4123 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1146,6 +1146,7 @@ def interpolate_line(
         x = np.cumsum(np.sqrt(np.sum(np.diff(vertices, axis=0) ** 2, axis=1)))
         # Set first vertex at 0
         x = np.insert(x, 0, 0)
+    x = np.asarray(x)
     if xi is None:
         if n is None:
             n = abs((x[-1] - x[0]) / dx)
-- 
2.43.0


From 40b6e101f5f77d7126ae8d49bc966ff7aa27f7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 049/138] fix: measure time between datetimes independent of
 the local time zone

---
 src/glimpse/helpers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 7ab4123..aa06416 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1582,10 +1582,13 @@ def pairwise_distance_datetimes(
                [2., 3.],
                [1., 2.]])
     """
-    # Convert datetimes to POSIX timestamps (seconds since 1970-01-01 00:00:00 UTC)
-    x = [xi.timestamp() for xi in x]
-    y = [yi.timestamp() for yi in y]
-    return pairwise_distance(x, y, metric="minkowski", p=1)
+    # Convert datetimes to whole microseconds since an arbitrary origin
+    # NOTE: timestamp() assumes that naive datetimes are in the local time zone
+    x, y = list(x), list(y)
+    origin = next(iter(x + y), None)
+    unit = datetime.timedelta(microseconds=1)
+    xy = [(t - origin) // unit for t in x + y]
+    return pairwise_distance(xy[: len(x)], xy[len(x) :], metric="cityblock") / 1e6
 
 
 def datetime_range(
-- 
2.43.0


From 4b9b93558c08bfa49e5f8d3106de1a973d8ca33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 050/138] fix: find the nearest of a single value

---
 src/glimpse/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index aa06416..398085d 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -174,7 +174,8 @@ def _sorted_neighbors(x: Iterable, y: Iterable) -> np.ndarray:
     index[(index > 0) & (index < len(x))] -= 1
     # index = len(x) snap to index - 2
     index[index == len(x)] -= 2
-    return np.column_stack((index, index + 1))
+    # Snap neighbors of a single value to that value
+    return np.clip(np.column_stack((index, index + 1)), 0, len(x) - 1)
 
 
 def sorted_nearest(x: Iterable, y: Iterable) -> np.ndarray:
-- 
2.43.0


From 3bdc725d49c77585608ba4fa1956f2d97fff6654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 051/138] fix: filter masked arrays of integers as floats

---
 src/glimpse/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 398085d..620413e 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -364,7 +364,8 @@ def gaussian_filter(
     """
     if mask is None:
         return scipy.ndimage.filters.gaussian_filter(a, **kwargs)
-    x = a.copy()
+    # Weighted means of integers are not integers
+    x = a.astype(np.result_type(a.dtype, np.float32))
     x[~mask] = 0
     xf = scipy.ndimage.filters.gaussian_filter(x, **kwargs)
     x[mask] = 1
-- 
2.43.0


From 18f0200e0c83d32707a4ca74df8f11c4d19bad16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 052/138] fix: fill excluded cells next to cells with the
 minimum value in maximum_filter

---
 src/glimpse/helpers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 620413e..42703b9 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -408,14 +408,13 @@ def maximum_filter(
     """
     if mask is None:
         return scipy.ndimage.filters.maximum_filter(a, **kwargs)
-    dtype_min = numpy_dtype_minmax(a.dtype)[0]
     x = a.copy()
-    mask = ~mask
-    x[mask] = dtype_min
+    x[~mask] = numpy_dtype_minmax(a.dtype)[0]
     x = scipy.ndimage.filters.maximum_filter(x, **kwargs)
     if fill:
-        mask = x == dtype_min
-    x[mask] = a[mask]
+        # Keep only the cells without an included cell in their neighborhood
+        mask = scipy.ndimage.filters.maximum_filter(mask, **kwargs)
+    x[~mask] = a[~mask]
     return x
 
 
-- 
2.43.0


From 451c57228464320c8a64d23edd8253ffcae2a2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 053/138] fix: flatten JSON arrays without changing strings and
 for any indent

---
 src/glimpse/helpers.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 42703b9..1cb0ed0 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -289,15 +289,27 @@ def write_json(
         '{\n  "x": [0, 1]\n}'
     """
     txt = json.dumps(obj, **kwargs)
-    if flat_arrays and kwargs.get("indent") >= 0:
+    if flat_arrays and kwargs.get("indent") is not None:
         separators = kwargs.get("separators")
         sep = separators[0] if separators else ", "
-        squished_sep = re.sub(r"\s", "", sep)
+        string = r'"(?:[^"\\]|\\.)*"'
 
         def flatten(match: Match) -> str:
-            return re.sub(squished_sep, sep, re.sub(r"\s", "", match.group(0)))
-
-        txt = re.sub(r"(\[\s*)+[^\]\{]*(\s*\])+", flatten, txt)
+            txt = match.group(0)
+            if txt.startswith('"'):
+                return txt
+            # Replace whitespace and separators, but not inside of strings
+            return re.sub(
+                rf"{string}|\s+|,",
+                lambda x: x.group(0)
+                if x.group(0).startswith('"')
+                else (sep if x.group(0) == "," else ""),
+                txt,
+            )
+
+        txt = re.sub(
+            rf'{string}|(\[\s*)+(?:{string}|[^\]\{{"])*(\s*\])+', flatten, txt
+        )
     if path:
         path = pathlib.Path(path)
         path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From bee11e4339910e4e630626b9a72180f1a61d82e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 054/138] fix: write and read text pickles

---
 src/glimpse/helpers.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 1cb0ed0..d1e49f1 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -219,11 +219,13 @@ def write_pickle(
         **kwargs: Optional arguments to :func:`pickle.dump`.
     """
     pathlib.Path(path).parent.mkdir(parents=True, exist_ok=True)
-    mode = "wb" if binary else "w"
+    if not binary:
+        # Text pickles are bytes too, but limited to ASCII characters
+        kwargs = {"protocol": 0, **kwargs}
     if gz:
-        fp = gzip.open(path, mode=mode)
+        fp = gzip.open(path, mode="wb")
     else:
-        fp = open(path, mode=mode)
+        fp = open(path, mode="wb")
     pickle.dump(obj, file=fp, **kwargs)
     fp.close()
 
@@ -238,11 +240,10 @@ def read_pickle(path: str, gz: bool = False, binary: bool = True, **kwargs: Any)
         binary: Whether pickle is binary.
         **kwargs: Optional arguments to :func:`pickle.load`.
     """
-    mode = "rb" if binary else "r"
     if gz:
-        fp = gzip.open(path, mode=mode)
+        fp = gzip.open(path, mode="rb")
     else:
-        fp = open(path, mode=mode)
+        fp = open(path, mode="rb")
     obj = pickle.load(fp, **kwargs)
     fp.close()
     return obj
-- 
2.43.0


From 4681e040e98854fb45c4dd3ac2b1489e7ba314df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 055/138] fix: read camera parameters missing for one focal
 length or image size from exif

---
 src/glimpse/image.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index 2b9546c..32309fe 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -94,15 +94,13 @@ class Image:
             cam = {}
         if isinstance(cam, dict):
             if not (
-                "imgsz" in cam and "f" in cam or ("fmm" in cam and "sensorsz" in cam)
+                "imgsz" in cam and ("f" in cam or ("fmm" in cam and "sensorsz" in cam))
             ):
                 exif = exif or Exif(path)
-                cam = {
-                    "imgsz": exif.imgsz,
-                    "fmm": exif.fmm,
-                    "sensorsz": exif.sensorsz,
-                    **cam,
-                }
+                defaults = {"imgsz": exif.imgsz, "sensorsz": exif.sensorsz}
+                if "f" not in cam:
+                    defaults["fmm"] = exif.fmm
+                cam = {**defaults, **cam}
             cam = Camera(**cam)
         self.cam = cam
         if not datetime:
-- 
2.43.0


From 3afaff5cc52bbf222859aca1eac161b15d73afc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 056/138] fix: read a box of a resized image directly from file

---
 src/glimpse/image.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index 32309fe..ac01495 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -169,26 +169,21 @@ class Image:
             >>> np.all(tile == a[box[1] : box[3], box[0] : box[2]])
             True
         """
-        size = self._cache_imgsz or self._path_imgsz
         cam_size = tuple(self.cam.imgsz)
-        resize = cam_size != size
-        new_array = True
-        if self.array is not None and not resize:
+        if self._cache_imgsz == cam_size:
             array = self.array
-            new_array = False
         else:
             ds = osgeo.gdal.Open(self.path)
             args = {}
-            if resize:
-                args["buf_xsize"], args["buf_ysize"] = cam_size
-            if box is not None and not cache:
-                # Resize box to actual image size
-                xscale, yscale = size[0] / cam_size[0], size[1] / cam_size[1]
+            if cam_size != self._path_imgsz:
+                # Resize the whole image, since pixels depend on their neighbors
+                args["buf_xsize"], args["buf_ysize"] = (int(n) for n in cam_size)
+            elif box is not None and not cache:
                 # Read image subset
-                args["xoff"] = int(round(box[0] * xscale))
-                args["win_xsize"] = int(round((box[2] - box[0]) * xscale))
-                args["yoff"] = int(round(box[1] * yscale))
-                args["win_ysize"] = int(round((box[3] - box[1]) * yscale))
+                args["xoff"], args["yoff"] = int(box[0]), int(box[1])
+                args["win_xsize"] = int(box[2] - box[0])
+                args["win_ysize"] = int(box[3] - box[1])
+                box = None
             array = np.dstack(
                 [
                     ds.GetRasterBand(i + 1).ReadAsArray(**args)
@@ -200,8 +195,7 @@ class Image:
             if cache:
                 array = sharedmem.copy(array)
                 self.array = array
-        if box is not None and (cache or not new_array):
-            # Caching and cropping: Subset cached array
+        if box is not None:
             array = array[box[1] : box[3], box[0] : box[2]]
         return array
 
-- 
2.43.0


From c47e40c2295a724179f7cc70afd4ebefab08c492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 057/138] fix: parse only rational tags as ratios and skip
 ratios without a denominator

---
 src/glimpse/exif.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/exif.py b/src/glimpse/exif.py
index fe5a890..b7967d6 100644
--- a/src/glimpse/exif.py
+++ b/src/glimpse/exif.py
@@ -125,6 +125,9 @@ class Exif:
     def iso(self) -> Optional[int]:
         """Film speed following the ISO system."""
         value = self.parse_tag("ISOSpeedRatings")
+        if isinstance(value, tuple):
+            # Tag can have more than one value
+            value = value[0]
         return int(value) if value else None
 
     @property
@@ -173,7 +176,11 @@ class Exif:
         if isinstance(value, bytes):
             return value.decode()
         if isinstance(value, tuple) and len(value) == 2:
-            return value[0] / value[1]
+            ifd_name = "ImageIFD" if group in ("0th", "1st") else group + "IFD"
+            code = getattr(getattr(piexif, ifd_name), tag, None)
+            dtype = piexif.TAGS[group].get(code, {}).get("type")
+            if dtype in (piexif.TYPES.Rational, piexif.TYPES.SRational):
+                return value[0] / value[1] if value[1] else None
         return value
 
     def dump(self) -> bytes:
-- 
2.43.0


From f329f8e0d3c9990d283b50dfed3ff5520776d1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 058/138] fix: parse fractions of seconds of any length

---
 src/glimpse/exif.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/exif.py b/src/glimpse/exif.py
index b7967d6..6f88dfe 100644
--- a/src/glimpse/exif.py
+++ b/src/glimpse/exif.py
@@ -102,11 +102,12 @@ class Exif:
         ymdhms = self.parse_tag("DateTimeOriginal")
         if not ymdhms:
             return None
-        ss = self.parse_tag("SubSecTimeOriginal")
+        # Digits of any number, padded with blanks
+        ss = str(self.parse_tag("SubSecTimeOriginal") or "").strip()[:6]
         if not ss:
             return datetime.datetime.strptime(str(ymdhms), "%Y:%m:%d %H:%M:%S")
         return datetime.datetime.strptime(
-            str(ymdhms) + "." + str(ss), "%Y:%m:%d %H:%M:%S.%f"
+            str(ymdhms) + "." + ss, "%Y:%m:%d %H:%M:%S.%f"
         )
 
     @property
-- 
2.43.0


From b7d07136bbae10c0eb8a71cf78969dae266435a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 059/138] fix: apply svg transforms from the innermost to the
 outermost when reading

---
 src/glimpse/svg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index a964de2..6bf2be6 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -131,7 +131,9 @@ def read(
         if e.tag in ("image", "path", "polyline", "polygon", "line", "circle", "rect"):
             points = Points.from_element(e.tag, **e.attrib)
             bbox = points.bbox()
-            points = points.transform(transform)
+            # Transforms apply from last (innermost) to first (outermost)
+            functions = re.findall(r"[^()]*\([^)]*\)", transform)
+            points = points.transform(" ".join(functions[::-1]))
             d[tag] = points.xy
             if e.tag == "image":
                 img = {"o": bbox, "t": points.bbox()}
-- 
2.43.0


From 5eb1bebf8efe4a9e201baf074c3e8d4bf6a3fab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 060/138] fix: apply svg transform functions with space before
 their arguments

---
 src/glimpse/svg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index 6bf2be6..f932b18 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -553,7 +553,7 @@ class Points:
             ValueError: Unsupported (or invalid) transform function: magic
         """
         points = self
-        for func, params in re.findall(r"([A-Za-z]+)\(([^\)]*)\)", transform):
+        for func, params in re.findall(r"([A-Za-z]+)\s*\(([^\)]*)\)", transform):
             method = getattr(points, func, None)
             if not method:
                 raise ValueError(f"Unsupported (or invalid) transform function: {func}")
-- 
2.43.0


From 2192618826eddf548c29df3ea18f3ea7e3c94b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 061/138] fix: parse svg paths with adjacent commands or
 leading whitespace

---
 src/glimpse/svg.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index f932b18..2928679 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -660,20 +660,9 @@ class Points:
     @classmethod
     def _from_path(cls, d: str = "") -> "Points":
         # NOTE: Only vertices are preserved. All curvature information is discarded.
-        regex = {
-            "cmd": re.compile(r"[a-df-zA-DF-Z]+"),
-            "seq": re.compile(r"[^a-df-zA-DF-Z]+"),
-            "coord": COORD_REGEX,
-        }
-        commands = regex["cmd"].findall(d)
-        parameters = [
-            [_num(coord) for coord in regex["coord"].findall(seq)]
-            for seq in regex["seq"].findall(d)
-        ]
-        if commands and commands[-1] in ("Z", "z"):
-            parameters.append([])
         xy = []
-        for cmd, params in zip(commands, parameters):
+        for cmd, seq in re.findall(r"([a-df-zA-DF-Z])([^a-df-zA-DF-Z]*)", d):
+            params = [_num(coord) for coord in COORD_REGEX.findall(seq)]
             # moveTo: M (x,y)+ | lineTo: L (x,y)+ | curveTo: T (x,y)+
             if cmd in ("M", "L", "T"):
                 for x, y in _chunks(params, 2):
-- 
2.43.0


From 72b51e1f02d909e7606d979aeb5663b8d2773d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 062/138] fix: close svg subpaths to their own start

---
 src/glimpse/svg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index 2928679..f96dda7 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -663,6 +663,9 @@ class Points:
         xy = []
         for cmd, seq in re.findall(r"([a-df-zA-DF-Z])([^a-df-zA-DF-Z]*)", d):
             params = [_num(coord) for coord in COORD_REGEX.findall(seq)]
+            if cmd in ("M", "m"):
+                # Index of first point of subpath
+                start = len(xy)
             # moveTo: M (x,y)+ | lineTo: L (x,y)+ | curveTo: T (x,y)+
             if cmd in ("M", "L", "T"):
                 for x, y in _chunks(params, 2):
@@ -717,7 +720,7 @@ class Points:
                     xy.append((xy[-1][0] + dx, xy[-1][1] + dy))
             # closePath: Z | z
             elif cmd in ("Z", "z"):
-                xy.append(xy[0])
+                xy.append(xy[start])
             else:
                 raise ValueError(f"Invalid command encountered: {cmd}")
         return cls(xy)
-- 
2.43.0


From 1a6e4ba4b6829227d4da1c35a93423bd7000d34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 063/138] fix: write single points as svg paths and polygons

---
 src/glimpse/svg.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index f96dda7..67382de 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -587,7 +587,8 @@ class Points:
         return pts
 
     def _to_polygon(self) -> Polygon:
-        xy = self.xy[:-1] if self.closed() else self.xy
+        closed = len(self.xy) > 1 and self.closed()
+        xy = self.xy[:-1] if closed else self.xy
         return {"points": self._xy_to_points(xy)}
 
     @classmethod
@@ -728,7 +729,8 @@ class Points:
     def _to_path(self) -> Path:
         # NOTE: Uses only moveTo (`M`), lineTo (`L`), and closePath (`Z`) if closed.
         commands = []
-        for i, xy in enumerate(self.xy[:-1] if self.closed() else self.xy):
+        closed = len(self.xy) > 1 and self.closed()
+        for i, xy in enumerate(self.xy[:-1] if closed else self.xy):
             x, y = xy
             if i == 0:
                 cmd = f"M {x},{y}"
@@ -737,7 +739,7 @@ class Points:
             else:
                 cmd = f"{x},{y}"
             commands.append(cmd)
-        if self.closed():
+        if closed:
             commands.append("Z")
         return {"d": " ".join(commands)}
 
-- 
2.43.0


From a0a42264f1abe9462e1c3dcee523241ddbdd1398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 064/138] fix: parse svg numbers ending with a decimal point

---
 src/glimpse/svg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index 67382de..cf3a48f 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -22,7 +22,7 @@ SVG = TypedDict("SVG", {"viewBox": str}, total=False)
 Path = TypedDict("Path", {"d": str})
 
 COORD_REGEX = re.compile(
-    r"(?:\+|\-)?(?:\.[0-9]+|[0-9]+(?:\.[0-9]+)?)(?:[Ee][+-]?[0-9]+)?"
+    r"(?:\+|\-)?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?)(?:[Ee][+-]?[0-9]+)?"
 )
 
 
-- 
2.43.0


From 1a173b6228df85f7921502e60c08f9abe8aaa167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 065/138] fix: parse svg arcs with adjacent flags

---
 src/glimpse/svg.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index cf3a48f..7b5753c 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -25,6 +25,13 @@ COORD_REGEX = re.compile(
     r"(?:\+|\-)?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?)(?:[Ee][+-]?[0-9]+)?"
 )
 
+# Arc: rx ry x-axis-rotation large-arc-flag sweep-flag x y
+ARC_REGEX = re.compile(
+    r"[\s,]*".join([rf"({COORD_REGEX.pattern})"] * 3 + ["([01])"] * 2)
+    + r"[\s,]*"
+    + r"[\s,]*".join([rf"({COORD_REGEX.pattern})"] * 2)
+)
+
 
 def _strip_etree_namespaces(tree: ET.ElementTree) -> None:
     """Strip namespaces from tags and attributes."""
@@ -663,7 +670,12 @@ class Points:
         # NOTE: Only vertices are preserved. All curvature information is discarded.
         xy = []
         for cmd, seq in re.findall(r"([a-df-zA-DF-Z])([^a-df-zA-DF-Z]*)", d):
-            params = [_num(coord) for coord in COORD_REGEX.findall(seq)]
+            if cmd in ("A", "a"):
+                # Flags need not be separated
+                coords = [coord for arc in ARC_REGEX.findall(seq) for coord in arc]
+            else:
+                coords = COORD_REGEX.findall(seq)
+            params = [_num(coord) for coord in coords]
             if cmd in ("M", "m"):
                 # Index of first point of subpath
                 start = len(xy)
-- 
2.43.0


From 4d62745107a773bde941bd5ab842b7b824eff916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:01 +0000
Subject: [PATCH 066/138] fix: indent svg elements that follow a group

---
 src/glimpse/svg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index 7b5753c..8b23b70 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -365,7 +365,7 @@ def _indent_etree(
         for i, child in enumerate(e, start=1):
             _indent_etree(child, level=level + 1, indent=indent, last=i == len(e))
         if not e.tail or not e.tail.strip():
-            e.tail = sep + tab * (level - 1)
+            e.tail = sep + tab * (level - last)
     else:
         if level and (not e.tail or not e.tail.strip()):
             e.tail = sep + tab * (level - last)
-- 
2.43.0


From 0deadfdf3811a99e63e79aaca4907a2f5bf9aa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 067/138] fix: optimize external camera parameters selected by
 a single index

---
 src/glimpse/convert/converter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/convert/converter.py b/src/glimpse/convert/converter.py
index 90c3cb3..88b14f2 100644
--- a/src/glimpse/convert/converter.py
+++ b/src/glimpse/convert/converter.py
@@ -115,7 +115,11 @@ class Converter:
             **kwargs: Optional arguments to :func:`scipy.optimize.least_squares`.
         """
         # Drop empty params and normalize value as a numpy index
-        indices = {k: slice(None) if v is True else v for k, v in params.items() if v}
+        indices = {
+            k: slice(None) if v is True else np.atleast_1d(v)
+            for k, v in params.items()
+            if v is not None and v is not False and np.size(v)
+        }
         x0 = []
         for key, idx in indices.items():
             value = np.atleast_1d(getattr(self.xcam, key))
@@ -125,7 +129,7 @@ class Converter:
             i = 0
             for key, idx in indices.items():
                 value = np.atleast_1d(getattr(self.xcam, key)).astype(float)
-                n = len(value) if isinstance(idx, slice) else len(np.atleast_1d(idx))
+                n = len(value[idx])
                 value[idx] = x[i : i + n]
                 setattr(self.xcam, key, tuple(value) if len(value) > 1 else value[0])
                 i += n
-- 
2.43.0


From 272e87f20f2739710934302171de738ddf703f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 068/138] fix: read OpenCV distortion coefficients from arrays
 with one row or column

---
 src/glimpse/convert/cameras/opencv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/convert/cameras/opencv.py b/src/glimpse/convert/cameras/opencv.py
index bd48a20..edc7f43 100644
--- a/src/glimpse/convert/cameras/opencv.py
+++ b/src/glimpse/convert/cameras/opencv.py
@@ -132,7 +132,7 @@ class OpenCV:
         """
         kwargs = {
             **cls._parse_camera_matrix(cameraMatrix),
-            **cls._parse_distortion_coefficients(distCoeffs),
+            **cls._parse_distortion_coefficients(np.ravel(distCoeffs)),
         }
         return cls(imgsz=imgsz, **kwargs)
 
-- 
2.43.0


From d4bd7e1aa8271e0e10c63160d87b487e03a5e9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 069/138] fix: do not select a camera parameter when its value
 is False

---
 src/glimpse/optimize.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 2badb7a..14bca56 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1494,13 +1494,13 @@ class Cameras:
                     selection = value[0]
                 else:
                     selection = value
-                if selection or selection == 0:
-                    i = attributes.index(key)
-                    if selection is True:
-                        positions = range(indices[i], indices[i + 1])
-                    else:
-                        positions = indices[i] + np.atleast_1d(selection)
-                    mask[positions] = True
+                i = attributes.index(key)
+                positions = np.arange(indices[i], indices[i + 1])
+                if selection is None or selection is False:
+                    positions = positions[:0]
+                elif selection is not True:
+                    positions = positions[np.atleast_1d(selection).astype(int)]
+                mask[positions] = True
                 if isinstance(value, tuple):
                     min_bounds = np.atleast_1d(value[1])
                     if len(min_bounds) == 1:
-- 
2.43.0


From 1be81bd8ae59894cbcdbd741981693c0451570f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 070/138] fix: place points on elongated images

---
 src/glimpse/convert/converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/convert/converter.py b/src/glimpse/convert/converter.py
index 88b14f2..623c355 100644
--- a/src/glimpse/convert/converter.py
+++ b/src/glimpse/convert/converter.py
@@ -56,9 +56,9 @@ class Converter:
         d = np.sqrt(area / n)
         # Place points such that spacing to edge is half of interpoint spacing
         # - | -- | -- | -- | -
-        dx = imgsz[0] / round(imgsz[0] / d)
+        dx = imgsz[0] / max(1, round(imgsz[0] / d))
         x = np.arange(0.5 * dx, imgsz[0], dx)
-        dy = imgsz[1] / round(imgsz[1] / d)
+        dy = imgsz[1] / max(1, round(imgsz[1] / d))
         y = np.arange(0.5 * dy, imgsz[1], dy)
         return np.reshape(np.meshgrid(x, y), (2, -1)).T
 
-- 
2.43.0


From 398b0a2fc44b55fdfd1c24a8489dcbb2d379ca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 071/138] fix: compare focal lengths in millimeters up to
 rounding errors

---
 src/glimpse/convert/cameras/photomodeler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/convert/cameras/photomodeler.py b/src/glimpse/convert/cameras/photomodeler.py
index 3663c58..84e35fe 100644
--- a/src/glimpse/convert/cameras/photomodeler.py
+++ b/src/glimpse/convert/cameras/photomodeler.py
@@ -136,14 +136,14 @@ class PhotoModeler:
         """
         xcam = cls._from_camera_initial(cam)
         if not optimize or (
-            cam.fmm[0] == cam.fmm[1]  # type: ignore
+            np.isclose(cam.fmm[0], cam.fmm[1], rtol=1e-12, atol=0)  # type: ignore
             and np.all(cam.k == 0)
             and np.all(cam.p == 0)
         ):
             return xcam
         if optimize is True:
             optimize = {}
-            if cam.fmm[0] != cam.fmm[1]:  # type: ignore
+            if not np.isclose(cam.fmm[0], cam.fmm[1], rtol=1e-12, atol=0):  # type: ignore
                 optimize = {
                     "focal": True,
                     "fw": True,
-- 
2.43.0


From ea75f228c1ed2037ef6019c1c5ec10e1154c420b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 072/138] fix: initialize motion models without the uncertainty
 of the surface

---
 src/glimpse/track/motion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/track/motion.py b/src/glimpse/track/motion.py
index 20a7c96..a853643 100644
--- a/src/glimpse/track/motion.py
+++ b/src/glimpse/track/motion.py
@@ -136,7 +136,7 @@ class CartesianMotion(Motion):
         if not isinstance(dem, Raster):
             dem = Raster(dem)
         self.dem = dem
-        if not isinstance(dem_sigma, Raster):
+        if dem_sigma is not None and not isinstance(dem_sigma, Raster):
             dem_sigma = Raster(dem_sigma)
         self.dem_sigma = dem_sigma
         self.n = n
@@ -247,7 +247,7 @@ class CylindricalMotion(CartesianMotion):
         if not isinstance(dem, Raster):
             dem = Raster(dem)
         self.dem = dem
-        if not isinstance(dem_sigma, Raster):
+        if dem_sigma is not None and not isinstance(dem_sigma, Raster):
             dem_sigma = Raster(dem_sigma)
         self.dem_sigma = dem_sigma
         self.n = n
@@ -442,7 +442,7 @@ class TangentCylindricalMotion(Motion):
         xy: Iterable[Number],
         time_unit: datetime.timedelta,
         dem: Union[Number, Raster],
-        dem_sigma: Union[Number, Raster] = None,
+        dem_sigma: Union[Number, Raster] = 0,
         n: int = 1000,
         xy_sigma: Iterable[Number] = (0, 0),
         vrth: Iterable[Number] = (0, 0),
-- 
2.43.0


From d3ebf17461820dded995b873c5afd89d4947ce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 073/138] fix: extend surfaces given by a single number beyond
 the first cell

---
 src/glimpse/track/motion.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/glimpse/track/motion.py b/src/glimpse/track/motion.py
index a853643..678acfc 100644
--- a/src/glimpse/track/motion.py
+++ b/src/glimpse/track/motion.py
@@ -10,6 +10,11 @@ Index = Union[slice, Iterable[int]]
 Number = Union[int, float]
 
 
+def _constant_surface(z: Number) -> Raster:
+    """Return a surface with the same value everywhere."""
+    return Raster(z, x=(-np.inf, np.inf), y=(np.inf, -np.inf))
+
+
 class Motion:
     """
     Illustration of the motion model interface required by :class:`Tracker`.
@@ -134,10 +139,10 @@ class CartesianMotion(Motion):
         self.xy = xy
         self.time_unit = time_unit
         if not isinstance(dem, Raster):
-            dem = Raster(dem)
+            dem = _constant_surface(dem)
         self.dem = dem
         if dem_sigma is not None and not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
+            dem_sigma = _constant_surface(dem_sigma)
         self.dem_sigma = dem_sigma
         self.n = n
         self.xy_sigma = xy_sigma
@@ -245,10 +250,10 @@ class CylindricalMotion(CartesianMotion):
         self.xy = xy
         self.time_unit = time_unit
         if not isinstance(dem, Raster):
-            dem = Raster(dem)
+            dem = _constant_surface(dem)
         self.dem = dem
         if dem_sigma is not None and not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
+            dem_sigma = _constant_surface(dem_sigma)
         self.dem_sigma = dem_sigma
         self.n = n
         self.xy_sigma = xy_sigma
@@ -363,10 +368,10 @@ class TangentCartesianMotion(Motion):
         self.xy = xy
         self.time_unit = time_unit
         if not isinstance(dem, Raster):
-            dem = Raster(dem)
+            dem = _constant_surface(dem)
         self.dem = dem
         if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
+            dem_sigma = _constant_surface(dem_sigma)
         self.dem_sigma = dem_sigma
         self.n = n
         self.xy_sigma = xy_sigma
@@ -454,10 +459,10 @@ class TangentCylindricalMotion(Motion):
         self.xy = xy
         self.time_unit = time_unit
         if not isinstance(dem, Raster):
-            dem = Raster(dem)
+            dem = _constant_surface(dem)
         self.dem = dem
         if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
+            dem_sigma = _constant_surface(dem_sigma)
         self.dem_sigma = dem_sigma
         self.n = n
         self.xy_sigma = xy_sigma
-- 
2.43.0


From 5fc87acf407d97f41212fd69908452f8f902257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 074/138] fix: evolve particles at rest with cylindrical motion

---
 src/glimpse/track/motion.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/glimpse/track/motion.py b/src/glimpse/track/motion.py
index 678acfc..6a130e1 100644
--- a/src/glimpse/track/motion.py
+++ b/src/glimpse/track/motion.py
@@ -299,14 +299,16 @@ class CylindricalMotion(CartesianMotion):
         time_units = dt.total_seconds() / self.time_unit.total_seconds()
         vx = particles[:, 3]
         vy = particles[:, 4]
-        vr = np.sqrt(vx ** 2 + vy ** 2)
+        # NOTE: Direction of particles at rest is the mean initial direction
+        moving = (vx != 0) | (vy != 0)
+        th = np.where(moving, np.arctan2(vy, vx), self.vrthz[1])
         arthz = self.arthz + self.arthz_sigma * np.random.randn(n, 3)
         axyz = np.column_stack(
             (
                 # r'' * cos(th) - r' * sin(th) * th'
-                arthz[:, 0] * (vx / vr) - vy * arthz[:, 1],
+                arthz[:, 0] * np.cos(th) - vy * arthz[:, 1],
                 # r'' * sin(th) - r' * cos(th) * th'
-                arthz[:, 0] * (vy / vr) + vx * arthz[:, 1],
+                arthz[:, 0] * np.sin(th) + vx * arthz[:, 1],
                 arthz[:, 2],
             )
         )
@@ -506,14 +508,16 @@ class TangentCylindricalMotion(Motion):
         time_units = dt.total_seconds() / self.time_unit.total_seconds()
         vx = particles[:, 3]
         vy = particles[:, 4]
-        vr = np.sqrt(vx ** 2 + vy ** 2)
+        # NOTE: Direction of particles at rest is the mean initial direction
+        moving = (vx != 0) | (vy != 0)
+        th = np.where(moving, np.arctan2(vy, vx), self.vrth[1])
         arth = self.arth + self.arth_sigma * np.random.randn(n, 2)
         axy = np.column_stack(
             (
                 # r'' * cos(th) - r' * sin(th) * th'
-                arth[:, 0] * (vx / vr) - vy * arth[:, 1],
+                arth[:, 0] * np.cos(th) - vy * arth[:, 1],
                 # r'' * sin(th) - r' * cos(th) * th'
-                arth[:, 0] * (vy / vr) + vx * arth[:, 1],
+                arth[:, 0] * np.sin(th) + vx * arth[:, 1],
             )
         )
         dxy = time_units * particles[:, 3:5] + 0.5 * axy * time_units ** 2
-- 
2.43.0


From 7ca4b0852cfb7130a0ce452ad6747453e3279414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 075/138] fix: draw only existing particles in systematic and
 stratified resampling

---
 src/glimpse/track/tracker.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 616e0e4..821f0ba 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -170,9 +170,10 @@ class Tracker:
             # Vectorized version of FilterPy
             # https://github.com/rlabbe/filterpy/blob/master/filterpy/monte_carlo/resampling.py
             weights = weights / weights.sum()
-            positions = (np.arange(n) + np.random.random()) * (1 / n)
+            positions = (np.arange(n) + np.random.random()) / n
             cumulative_weight = np.cumsum(weights)
-            # NOTE: Assumes weights sum to 1
+            # NOTE: Weights sum to 1 only up to rounding errors
+            cumulative_weight[-1] = 1.0
             return np.searchsorted(cumulative_weight, positions)
 
         def stratified(n: int, weights: np.ndarray) -> np.ndarray:
@@ -180,9 +181,10 @@ class Tracker:
             # Vectorized version of FilterPy
             # https://github.com/rlabbe/filterpy/blob/master/filterpy/monte_carlo/resampling.py
             weights = weights / weights.sum()
-            positions = (np.arange(n) + np.random.random(n)) * (1 / n)
+            positions = (np.arange(n) + np.random.random(n)) / n
             cumulative_weight = np.cumsum(weights)
-            # NOTE: Assumes weights sum to 1
+            # NOTE: Weights sum to 1 only up to rounding errors
+            cumulative_weight[-1] = 1.0
             return np.searchsorted(cumulative_weight, positions)
 
         def residual(n: int, weights: np.ndarray) -> np.ndarray:
-- 
2.43.0


From a465cbff2e59eb682e5f00a65fa48fa38a1ad985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 076/138] fix: draw from the fractional parts of the expected
 counts in residual resampling

---
 src/glimpse/track/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 821f0ba..b4bbd04 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -195,7 +195,9 @@ class Tracker:
             # NOTE: Assumes weights sum to 1
             repetitions = (n * weights).astype(int)
             initial_indexes = np.repeat(np.arange(n), repetitions)
-            residuals = weights - repetitions
+            if len(initial_indexes) == n:
+                return initial_indexes
+            residuals = n * weights - repetitions
             residuals *= 1 / residuals.sum()
             cumulative_sum = np.cumsum(residuals)
             cumulative_sum[-1] = 1.0
-- 
2.43.0


From 493253bd0ef1c50972420a80aa5773d731cc658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:48 +0000
Subject: [PATCH 077/138] fix: track with observers that match no images

---
 src/glimpse/track/tracker.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index b4bbd04..fcb6d98 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -337,7 +337,11 @@ class Tracker:
                             motion_model.evolve_particles(self.particles, dt=dt)
                             self.test_particles()
                         # Initialize templates for Observers starting at datetimes[i]
-                        at_template = observer_mask & (template_indices == i)
+                        at_template = (
+                            observer_mask
+                            & (template_indices == i)
+                            & np.not_equal(matching_images[i], None)
+                        )
                         for obs in np.nonzero(at_template)[0]:
                             self.initialize_template(
                                 obs=obs,
-- 
2.43.0


From 51253fd33b579d9c80c89f03e8455240f23993cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:48 +0000
Subject: [PATCH 078/138] fix: report no states for tracks that match no images

---
 src/glimpse/track/tracker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index fcb6d98..4f51b21 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -325,6 +325,8 @@ class Tracker:
                     observed = np.not_equal(
                         matching_images[:, observer_mask], None
                     ).any(axis=1)
+                    if not observed.any():
+                        raise ValueError("No images match the Observers of the track")
                     first = np.argmax(observed)
                     last = len(observed) - 1 - np.argmax(observed[::-1])
                     for i in range(first, last + 1):
-- 
2.43.0


From 563f949a661073cea1c498308bcbc67d9944e56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:48 +0000
Subject: [PATCH 079/138] fix: weigh the outermost particles by the image
 mismatch at their own position

---
 src/glimpse/track/tracker.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 4f51b21..b6979ce 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -590,7 +590,11 @@ class Tracker:
         size = np.asarray(self.templates[obs]["tile"].shape[0:2][::-1])
         uv = self.observers[obs].xyz_to_uv(self.particles[:, 0:3], img=img)
         halfsize = size * 0.5
-        box = np.row_stack((uv.min(axis=0) - halfsize, uv.max(axis=0) + halfsize))
+        # (shifted by subpixel offset of template tile, as for SSE below)
+        center = uv - self.templates[obs]["duv"]
+        box = np.row_stack(
+            (center.min(axis=0) - halfsize, center.max(axis=0) + halfsize)
+        )
         # Enlarge box to ensure SSE has cols, rows (ky + 1, kx + 1) for interpolation
         ky = self.interpolation.get("ky", 3)
         ncols = ky - (np.diff(box[:, 0]) - size[0])
-- 
2.43.0


From 886050dc99a6f94b059f48270bbfaac2e00a2895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:48 +0000
Subject: [PATCH 080/138] fix: skip images whose mismatch cannot be computed

---
 src/glimpse/track/tracker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index b6979ce..e0e560b 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -636,4 +636,7 @@ class Tracker:
         sampled_sse = self.observers[obs].sample_tile(
             uv, tile=sse, box=sse_box, grid=False, **self.interpolation
         )
+        if np.isnan(sampled_sse).any():
+            warnings.warn("Image tile is constant or has missing values, skipping image")
+            return constant_log_likelihood
         return sampled_sse * (1 / (2 * self.observers[obs].sigma ** 2))
-- 
2.43.0


From f16f69cdfa919b5c00a8696ccf02744a7e7cfd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:33 +0000
Subject: [PATCH 081/138] fix: keep the warnings of each track apart in Tracks

---
 src/glimpse/track/tracks.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index ce7fb73..4a14cbe 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -84,8 +84,17 @@ class Tracks:
         self.tracker = tracker
         self.images = images if images is None else np.asarray(images)
         self.params = params
-        self.errors = errors if errors is None else np.asarray(errors)
-        self.warnings = warnings if warnings is None else np.asarray(warnings)
+        self.errors = errors if errors is None else self._as_objects(errors)
+        self.warnings = warnings if warnings is None else self._as_objects(warnings)
+
+    @staticmethod
+    def _as_objects(values: Iterable) -> np.ndarray:
+        """Return values (which may themselves be sequences) as a 1-D object array."""
+        values = list(values)
+        objects = np.empty(len(values), dtype=object)
+        for i, value in enumerate(values):
+            objects[i] = value
+        return objects
 
     @property
     def xyz(self) -> np.ndarray:
-- 
2.43.0


From 7281d0047d319c4094eacc6ea83ae312aa77249f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:05 +0000
Subject: [PATCH 082/138] fix: draw independent random numbers for tracks run
 in parallel processes

---
 src/glimpse/track/tracker.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index e0e560b..ad7b648 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -1,5 +1,6 @@
 """Track particle trajectories through time."""
 import datetime
+import os
 import sys
 import traceback
 import warnings
@@ -306,7 +307,18 @@ class Tracker:
         ntimes = len(datetimes)
         dts = np.diff(datetimes)
 
-        def process(motion_model: Motion, observer_mask: np.ndarray) -> list:
+        # Worker processes inherit the same random state, so seed each track
+        parent = os.getpid()
+        if parallel:
+            seeds = np.random.randint(2 ** 32, size=ntracks, dtype=np.uint32)
+        else:
+            seeds = [None] * ntracks
+
+        def process(
+            motion_model: Motion, observer_mask: np.ndarray, seed: Optional[int]
+        ) -> list:
+            if os.getpid() != parent:
+                np.random.seed(seed)
             means = np.full((ntimes, 6), np.nan)
             if return_covariances:
                 sigmas = np.full((ntimes, 6, 6), np.nan)
@@ -393,7 +405,7 @@ class Tracker:
                 func=process,
                 reduce=reduce,
                 star=True,
-                sequence=tuple(zip(motion_models, observer_mask)),
+                sequence=tuple(zip(motion_models, observer_mask, seeds)),
             )
         bar.finish()
         # Return results as Tracks
-- 
2.43.0


From 01e49955514ae8bf841c8a08d1180556b505c224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:05 +0000
Subject: [PATCH 083/138] fix: keep tracks apart when tracking in parallel
 threads

---
 src/glimpse/track/tracker.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index ad7b648..763afd8 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -1,4 +1,5 @@
 """Track particle trajectories through time."""
+import copy
 import datetime
 import os
 import sys
@@ -319,6 +320,9 @@ class Tracker:
         ) -> list:
             if os.getpid() != parent:
                 np.random.seed(seed)
+            # Threads share this object, but each track needs a state of its own
+            tracker = copy.copy(self) if parallel else self
+            tracker.reset()
             means = np.full((ntimes, 6), np.nan)
             if return_covariances:
                 sigmas = np.full((ntimes, 6, 6), np.nan)
@@ -343,13 +347,13 @@ class Tracker:
                     last = len(observed) - 1 - np.argmax(observed[::-1])
                     for i in range(first, last + 1):
                         if i == first:
-                            self.particles = motion_model.initialize_particles()
-                            self.test_particles()
-                            self.initialize_weights()
+                            tracker.particles = motion_model.initialize_particles()
+                            tracker.test_particles()
+                            tracker.initialize_weights()
                         else:
                             dt = dts[i - 1]
-                            motion_model.evolve_particles(self.particles, dt=dt)
-                            self.test_particles()
+                            motion_model.evolve_particles(tracker.particles, dt=dt)
+                            tracker.test_particles()
                         # Initialize templates for Observers starting at datetimes[i]
                         at_template = (
                             observer_mask
@@ -357,7 +361,7 @@ class Tracker:
                             & np.not_equal(matching_images[i], None)
                         )
                         for obs in np.nonzero(at_template)[0]:
-                            self.initialize_template(
+                            tracker.initialize_template(
                                 obs=obs,
                                 img=matching_images[i][obs],
                                 tile_size=tile_size,
@@ -367,16 +371,16 @@ class Tracker:
                                 img if m else None
                                 for img, m in zip(matching_images[i], observer_mask)
                             ]
-                            self.update_weights(imgs=imgs, motion_model=motion_model)
-                            self.resample_particles()
-                        means[i] = self.particle_mean
+                            tracker.update_weights(imgs=imgs, motion_model=motion_model)
+                            tracker.resample_particles()
+                        means[i] = tracker.particle_mean
                         if return_covariances:
-                            sigmas[i] = self.particle_covariance
+                            sigmas[i] = tracker.particle_covariance
                         else:
-                            sigmas[i] = self.compute_particle_sigma(mean=means[i])
+                            sigmas[i] = tracker.compute_particle_sigma(mean=means[i])
                         if return_particles:
-                            particles[i] = self.particles
-                            weights[i] = self.weights
+                            particles[i] = tracker.particles
+                            weights[i] = tracker.weights
                 if caught:
                     all_warnings = tuple(caught)
             except Exception as e:
-- 
2.43.0


From 2ab251a18ce1e76a60f2087f33c1a6b1495a6c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:05 +0000
Subject: [PATCH 084/138] fix: report errors that are not built from a message

---
 src/glimpse/track/tracker.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 763afd8..2477e90 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -389,9 +389,12 @@ class Tracker:
                 if errors:
                     raise e
                 else:
-                    error = e.__class__(
-                        "".join(traceback.format_exception(*sys.exc_info()))
-                    )
+                    message = "".join(traceback.format_exception(*sys.exc_info()))
+                    try:
+                        error = e.__class__(message)
+                    except Exception:
+                        # Not all exceptions can be built from a message
+                        error = RuntimeError(message)
             results = [means, sigmas, error, all_warnings]
             if reduce_particles:
                 results += [reduce_particles(particles, weights)]
-- 
2.43.0


From 511f158c77538c63e88574ce09d8d7134c2c3ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:42 +0000
Subject: [PATCH 085/138] fix: find the index of an image among images of equal
 content

---
 src/glimpse/track/observer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 87fac3b..f648e10 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -97,6 +97,10 @@ class Observer:
                     "Nearest image out of range by " + str(dts[index] - abs(maxdt))
                 )
             return index
+        # Images may be considered equal, so first look for the image itself
+        for i, img in enumerate(self.images):
+            if img is value:
+                return i
         return self.images.index(value)
 
     def xyz_to_uv(self, xyz: np.ndarray, img: int) -> np.ndarray:
-- 
2.43.0


From 04e78356c112557f4a3c5a94075e92a8f3b1d2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:42 +0000
Subject: [PATCH 086/138] fix: always compute tile boxes of the requested size

---
 src/glimpse/track/observer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index f648e10..7d30d80 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -131,7 +131,10 @@ class Observer:
             Integer (pixel edge) boundaries (left, top, right, bottom).
         """
         grid = Grid(self.images[img].size)
-        return grid.snap_box(uv, size, centers=False, edges=True).astype(int)
+        box = grid.snap_box(uv, size, centers=False, edges=True)
+        # NOTE: Due to rounding errors, bounds may not all snap in the same direction
+        box[2:4] = box[0:2] + size
+        return box.astype(int)
 
     def extract_tile(self, box: Iterable[int], img: int) -> np.ndarray:
         """
-- 
2.43.0


From 975218b55917bd58d3db90356d1b7b6d796a9140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:42 +0000
Subject: [PATCH 087/138] fix: do not modify the tile when shifting it

---
 src/glimpse/track/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 7d30d80..4ec122d 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -174,7 +174,7 @@ class Observer:
         cu = np.arange(0.5, tile.shape[1])  # x|cols
         cv = np.arange(0.5, tile.shape[0])  # y|rows
         # Interpolate at shifted center coordinates
-        tile = np.atleast_3d(tile)
+        tile = np.atleast_3d(tile).astype(float)
         for i in range(tile.shape[2]):
             f = scipy.interpolate.RectBivariateSpline(cv, cu, tile[:, :, i], **kwargs)
             tile[:, :, i] = f(cv + duv[1], cu + duv[0], grid=True)
-- 
2.43.0


From f1056032defbf71cd6a4cbb9b256510e5c053f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:42 +0000
Subject: [PATCH 088/138] fix: sample tiles whose cells are not one pixel wide

---
 src/glimpse/track/observer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 4ec122d..3be8490 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -211,8 +211,8 @@ class Observer:
         du = (box[2] - box[0]) / tile.shape[1]
         dv = (box[3] - box[1]) / tile.shape[0]
         # Cell center coordinates
-        cu = np.arange(box[0] + du * 0.5, box[2])  # x|cols
-        cv = np.arange(box[1] + dv * 0.5, box[3])  # y|rows
+        cu = box[0] + du * (np.arange(tile.shape[1]) + 0.5)  # x|cols
+        cv = box[1] + dv * (np.arange(tile.shape[0]) + 0.5)  # y|rows
         # Interpolate at arbitrary coordinates
         f = scipy.interpolate.RectBivariateSpline(cv, cu, tile, **kwargs)
         if grid:
-- 
2.43.0


From 1e79be78e4b42378aaea78b82aef0bc130d07689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:42 +0000
Subject: [PATCH 089/138] fix: sample tiles on grids with a different number of
 columns and rows

---
 src/glimpse/track/observer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 3be8490..4e9e157 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -205,7 +205,14 @@ class Observer:
         Raises:
             ValueError: Some sampling points are outside box.
         """
-        if not np.all(helpers.in_box(uv, box)):
+        if grid:
+            inside = all(
+                helpers.in_box(np.reshape(values, (-1, 1)), (box[i], box[i + 2])).all()
+                for i, values in enumerate(uv)
+            )
+        else:
+            inside = helpers.in_box(uv, box).all()
+        if not inside:
             raise ValueError("Some sampling points are outside box")
         # Cell sizes
         du = (box[2] - box[0]) / tile.shape[1]
-- 
2.43.0


From eafc03461e17264d3971d6554e4bd2340e617656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:42 +0000
Subject: [PATCH 090/138] fix: include the last images when splitting an
 observer into equal lengths

---
 src/glimpse/track/observer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 4e9e157..428f22f 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -491,8 +491,10 @@ class Observer:
         if np.iterable(n):
             breaks = np.unique(np.hstack((n, self.datetimes[[0, -1]])))
         else:
-            dt = (self.datetimes[-1] - self.datetimes[0]) / n
-            breaks = helpers.datetime_range(self.datetimes[0], self.datetimes[-1], dt)
+            # NOTE: Steps are rounded to microseconds, so the last break is set exactly
+            span = self.datetimes[-1] - self.datetimes[0]
+            breaks = [self.datetimes[0] + (span * i) / n for i in range(n)]
+            breaks.append(self.datetimes[-1])
         observers = []
         start = breaks[0]
         for i in range(len(breaks) - 1):
-- 
2.43.0


From 0c3f39457b657affb319ecb4794aa4dff85adec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:42 +0000
Subject: [PATCH 091/138] fix: do not clear images that cannot be read again

---
 src/glimpse/track/observer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 428f22f..a9ea54c 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -289,7 +289,8 @@ class Observer:
             index: Index of images.
         """
         for img in np.asarray(self.images)[index]:
-            img.array = None
+            if img.path is not None:
+                img.array = None
 
     def animate(
         self,
-- 
2.43.0


From c55e58982be6afc2b99191db6b3793d301f472a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:45 +0000
Subject: [PATCH 092/138] fix: plot tiles in proportion

---
 src/glimpse/track/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index a9ea54c..6271ed1 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -246,7 +246,7 @@ class Observer:
             **kwargs: Optional arguments to :func:`matplotlib.pyplot.imshow`.
         """
         if box is None:
-            box = (0, 0, tile.shape[0], tile.shape[1])
+            box = (0, 0, tile.shape[1], tile.shape[0])
         extent = (box[0], box[2], box[3], box[1])
         if axes is None:
             axes = matplotlib.pyplot.gca()
-- 
2.43.0


From f8f58b1ca8942667b4852d0eb95628d8f36e839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:45 +0000
Subject: [PATCH 093/138] fix: center animated tiles that are not square

---
 src/glimpse/track/observer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 6271ed1..405c752 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -343,7 +343,7 @@ class Observer:
             transform=ax[0].transAxes,
         )
         ax[1].set_xlim(uv[0] - halfsize[0], uv[0] + halfsize[0])
-        ax[1].set_ylim(uv[1] + halfsize[1], uv[1] - halfsize[0])
+        ax[1].set_ylim(uv[1] + halfsize[1], uv[1] - halfsize[1])
 
         # Update plot
         def update_plot(i: int) -> list:
@@ -370,7 +370,7 @@ class Observer:
                 pt[j].set_xdata(puv[0])
                 pt[j].set_ydata(puv[1])
             ax[0].set_xlim(puv[0] - halfsize[0], puv[0] + halfsize[0])
-            ax[0].set_ylim(puv[1] + halfsize[1], puv[1] - halfsize[0])
+            ax[0].set_ylim(puv[1] + halfsize[1], puv[1] - halfsize[1])
             basename = helpers.strip_path(self.images[i].path)
             txt.set_text(str(i) + " : " + basename)
             return im + pt + [txt]
-- 
2.43.0


From 3f73e024191b82af2ce2a2a45455ec96eea731b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:03 +0000
Subject: [PATCH 094/138] fix: animate tiles from image files

---
 src/glimpse/track/observer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 405c752..ede7462 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -360,6 +360,7 @@ class Observer:
                 box = grid.snap_xy(
                     helpers.unravel_box(box), centers=False, edges=True
                 ).ravel()
+                box = box.astype(int)
                 tile = self.extract_tile(img=i, box=box)
             else:
                 # Use white tile
@@ -367,8 +368,8 @@ class Observer:
             for j in range(2):
                 im[j].set_array(tile)
                 im[j].set_extent((box[0], box[2], box[3], box[1]))
-                pt[j].set_xdata(puv[0])
-                pt[j].set_ydata(puv[1])
+                pt[j].set_xdata([puv[0]])
+                pt[j].set_ydata([puv[1]])
             ax[0].set_xlim(puv[0] - halfsize[0], puv[0] + halfsize[0])
             ax[0].set_ylim(puv[1] + halfsize[1], puv[1] - halfsize[1])
             basename = helpers.strip_path(self.images[i].path)
-- 
2.43.0


From d33578bb28c27958aa2fddbbced721512ae75d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:03 +0000
Subject: [PATCH 095/138] fix: animate tracks of frames given as a list

---
 src/glimpse/track/observer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index ede7462..3f85bbc 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -410,6 +410,7 @@ class Observer:
         """
         if frames is None:
             frames = np.arange(len(xyz))
+        frames = np.asarray(frames)
         halfsize = (size[0] * 0.5, size[1] * 0.5)
         # Initialize plot
         fig, ax = matplotlib.pyplot.subplots(ncols=2, **subplots)
-- 
2.43.0


From c2ebc7ef7969826d96bb0e14a989bc224bf3e316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:14 +0000
Subject: [PATCH 096/138] fix: plot the start of tracks that start after the
 first datetime

---
 src/glimpse/track/tracks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index 4a14cbe..671daa0 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -200,8 +200,11 @@ class Tracks:
             if isinstance(mean, dict) and "color" in mean:
                 default["color"] = mean["color"]
             start = {**default, **start}
+            selected = np.atleast_1d(np.arange(len(self.xyz))[tracks])
+            valid, first, _ = self.endpoints(selected)
+            starts = self.xyz[selected[valid], first]
             results["start"] = matplotlib.pyplot.plot(
-                self.xyz[tracks, 0, 0], self.xyz[tracks, 0, 1], **start
+                starts[:, 0], starts[:, 1], **start
             )
         if sigma:
             if sigma is True:
-- 
2.43.0


From d77e95d0a345a1b3ce8fabda7cd5be2515bf0780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:14 +0000
Subject: [PATCH 097/138] fix: animate tracks with current versions of
 matplotlib

---
 src/glimpse/track/tracks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index 671daa0..6b2b492 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -404,7 +404,8 @@ class Tracks:
         def update_plot(i: int) -> tuple:
             # PathCollections cannot set x, y, so new objects have to be created
             for ax in axes:
-                ax.collections = []
+                for collection in list(ax.collections):
+                    collection.remove()
             img = self.images[i, obs]
             if particles:
                 # Map: Particles
@@ -477,7 +478,7 @@ class Tracks:
                     track_uv[-1, 1] + img_size[1] / 2, track_uv[-1, 1] - img_size[1] / 2
                 )
                 # Image: Mean
-                image_mean.set_data(track_uv[-1, 0], track_uv[-1, 1])
+                image_mean.set_data(track_uv[-1:, 0], track_uv[-1:, 1])
                 # Image: Tile
                 box = self.tracker.observers[obs].tile_box(
                     uv=track_uv[-1, :], size=img_size, img=img
-- 
2.43.0


From bc0c006446e828ea7200e8534923db31f53c901c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:14 +0000
Subject: [PATCH 098/138] fix: scale velocities by the timestep of each
 animated frame

---
 src/glimpse/track/tracks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index 6b2b492..bf1fa0e 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -400,6 +400,7 @@ class Tracks:
             scales = np.ones(len(frames) - 1)
         # Discard last frame
         frames = frames[:-1]
+        scales = dict(zip(frames, scales))
 
         def update_plot(i: int) -> tuple:
             # PathCollections cannot set x, y, so new objects have to be created
-- 
2.43.0


From 0a19a148ce3d1675ecee6f8e226337479305544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:14 +0000
Subject: [PATCH 099/138] fix: animate tracks without images

---
 src/glimpse/track/tracks.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index bf1fa0e..e4c728e 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -494,7 +494,6 @@ class Tracks:
                 )
             else:
                 basename = str(obs) + " : " + str(img)
-            basename = helpers.strip_path(self.tracker.observers[obs].images[img].path)
             map_txt.set_text(basename)
             if images:
                 return map_track, map_txt, image_track, image_tile, image_mean
-- 
2.43.0


From 0fb0d1e70e0eddbe1dd4b3a4b3e4f4481cca3c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:37 +0000
Subject: [PATCH 100/138] fix: animate images that are not read from file

---
 src/glimpse/track/observer.py | 12 +++++++++---
 src/glimpse/track/tracks.py   |  8 ++------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 3f85bbc..c423ed6 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -271,6 +271,12 @@ class Observer:
             )
         )
 
+    def _image_name(self, img: int) -> str:
+        """Return the name of an image, or its datetime if it is not read from file."""
+        if self.images[img].path is None:
+            return str(self.datetimes[img])
+        return helpers.strip_path(self.images[img].path)
+
     def cache_images(self, index: Union[Iterable[int], slice] = slice(None)) -> None:
         """
         Cache image data.
@@ -372,7 +378,7 @@ class Observer:
                 pt[j].set_ydata([puv[1]])
             ax[0].set_xlim(puv[0] - halfsize[0], puv[0] + halfsize[0])
             ax[0].set_ylim(puv[1] + halfsize[1], puv[1] - halfsize[1])
-            basename = helpers.strip_path(self.images[i].path)
+            basename = self._image_name(i)
             txt.set_text(str(i) + " : " + basename)
             return im + pt + [txt]
 
@@ -425,7 +431,7 @@ class Observer:
         pt = [
             axis.plot(uv[0], uv[1], marker=".", color="red", zorder=3)[0] for axis in ax
         ]
-        basename = helpers.strip_path(self.images[frames[0]].path)
+        basename = self._image_name(frames[0])
         ax[0].text(
             0.5,
             0.95,
@@ -458,7 +464,7 @@ class Observer:
             track.set_ydata(track_uv[:, 1])
             pt[1].set_xdata(uv[0])
             pt[1].set_ydata(uv[1])
-            basename = helpers.strip_path(self.images[i].path)
+            basename = self._image_name(i)
             txt.set_x(uv[0])
             txt.set_y(uv[1] - (halfsize[1] - 10))
             txt.set_text(str(i) + " : " + basename)
diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index e4c728e..3d9d556 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -11,8 +11,6 @@ if TYPE_CHECKING:
     # Prevent circular import (see https://stackoverflow.com/a/39757388)
     from .tracker import Tracker
 
-from .. import helpers
-
 Index = Union[slice, Iterable[int]]
 Number = Union[int, float]
 
@@ -375,7 +373,7 @@ class Tracks:
             )
         # Map: Basename
         if images:
-            basename = helpers.strip_path(self.tracker.observers[obs].images[img].path)
+            basename = self.tracker.observers[obs]._image_name(img)
         else:
             basename = str(obs) + " : " + str(img)
         map_txt = axes[0].text(
@@ -489,9 +487,7 @@ class Tracks:
                 image_tile.set_extent((box[0], box[2], box[3], box[1]))
             # Map: Basename
             if images:
-                basename = helpers.strip_path(
-                    self.tracker.observers[obs].images[img].path
-                )
+                basename = self.tracker.observers[obs]._image_name(img)
             else:
                 basename = str(obs) + " : " + str(img)
             map_txt.set_text(basename)
-- 
2.43.0


From f102eb43210b531893a9f00b828c2e1729f92eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 101/138] fix: filter camera coordinates together with image
 coordinates

---
 src/glimpse/optimize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 14bca56..c3bd7cb 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -730,10 +730,10 @@ class Matches:
                 axis=1,
             )
             selected[selected] &= distances <= max_distance
-        # HACK: Support for RotationMatches
-        if self.uvs:
+        if self.uvs is not None:
             self.uvs = [uv[selected] for uv in self.uvs]
-        else:
+        # HACK: Support for RotationMatches
+        if getattr(self, "xys", None) is not None:
             self.xys = [xy[selected] for xy in self.xys]
         if self.weights is not None:
             self.weights = self.weights[selected]
-- 
2.43.0


From dd0dd58c18454285dd356bb7563fc31e4db1fa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 102/138] fix: build rotation matches from camera coordinates
 alone

---
 src/glimpse/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index c3bd7cb..cfc52d5 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -540,8 +540,8 @@ class Matches:
     def _test_matches(self) -> None:
         if self.cams[0] is self.cams[1]:
             raise ValueError("Both cameras are the same object")
-        # HACK: Support subclasses with xyzs and optional uvs
-        uvs = self.uvs or self.xyzs
+        # HACK: Support subclasses with xys and optional uvs
+        uvs = self.xys if self.uvs is None else self.uvs
         if len(self.cams) != 2 or len(uvs) != 2:
             raise ValueError(
                 "Cameras and point coordinates do not have two elements each"
-- 
2.43.0


From 41540a457b3e6094037792d12e099a23d722aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 103/138] fix: filter rotation matches by pixel distances

---
 src/glimpse/optimize.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index cfc52d5..7920a82 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -712,11 +712,16 @@ class Matches:
                 selected &= self.weights >= min_weight
         ci = self._cam_index(cam)
         co = 0 if ci else 1
+        # Distances are in pixels, regardless of what the subclass predicts
+        pixels = self
+        if isinstance(self, RotationMatchesXY) and (max_error or max_distance):
+            pixels = self.to_type(Matches)
         if max_error:
             if scaled:
                 max_error = max_error * self.cams[ci].imgsz[0]
             errors = np.linalg.norm(
-                self.observed(ci, index=selected) - self.predicted(ci, index=selected),
+                pixels.observed(ci, index=selected)
+                - pixels.predicted(ci, index=selected),
                 axis=1,
             )
             selected[selected] &= errors <= max_error
@@ -725,8 +730,8 @@ class Matches:
                 max_distance = max_distance * self.cams[ci].imgsz[0]
             scale = self.cams[ci].imgsz / self.cams[co].imgsz
             distances = np.linalg.norm(
-                self.observed(co, index=selected) * scale
-                - self.observed(ci, index=selected),
+                pixels.observed(co, index=selected) * scale
+                - pixels.observed(ci, index=selected),
                 axis=1,
             )
             selected[selected] &= distances <= max_distance
-- 
2.43.0


From 46527c2b3f00bd74ee2bcba3d1586a35413901af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 104/138] fix: resize rotation matches

---
 src/glimpse/optimize.py | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 7920a82..629d2c2 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -829,6 +829,41 @@ class RotationMatches(Matches):
         dxyz = self.cams[co]._xy_to_xyz(self.xys[co][index])
         return self.cams[ci].xyz_to_uv(dxyz, directions=True)
 
+    def resize(
+        self, size: Union[float, Iterable[int]] = None, force: bool = False
+    ) -> None:
+        """
+        Resize to new image size.
+
+        Resizes both the cameras and their image coordinates.
+        Normalized camera coordinates are unchanged.
+
+        Arguments:
+            size: Scale factor relative to the cameras' original sizes (float)
+                or target image size (iterable).
+                If `None`, image coordinates are resized to fit current
+                camera image sizes.
+            force: Whether to use `size` even if it does not preserve
+                the original aspect ratio
+
+        Raises:
+            ValueError: Camera internal parameters (imgsz, f, c, k, p) have changed
+                (other than by resizing the cameras).
+        """
+        for i, cam in enumerate(self.cams):
+            if size is not None:
+                cam.resize(size=size, force=force)
+            scale = cam.imgsz / self._internals[i][0:2]
+            # [imgsz, f, c, k, p]
+            internals = self._internals[i] * np.hstack((np.tile(scale, 3), np.ones(8)))
+            if not np.allclose(cam._vector[6:], internals, rtol=1e-9, atol=1e-9):
+                raise ValueError(
+                    "Camera internal parameters (imgsz, f, c, k, p) have changed"
+                )
+            if self.uvs is not None and np.any(scale != 1):
+                self.uvs[i] = self.uvs[i] * scale
+            self._internals[i] = cam.to_array()[6:]
+
     def to_type(self, mtype: Type["Matches"]) -> "Matches":
         """Return as a matches object of a different type."""
         if mtype is type(self):
-- 
2.43.0


From 7aff322c3c01f7dbc51e81d9e46588f4eac8772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 105/138] fix: raise NotImplementedError when called on
 rotation matches

---
 src/glimpse/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 629d2c2..be36222 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -953,7 +953,7 @@ class RotationMatchesXY(RotationMatches):
             return mtype(cams=self.cams, uvs=uvs, weights=self.weights)
         return mtype(cams=self.cams, uvs=self.uvs, xys=self.xys, weights=self.weights)
 
-    def plot() -> None:
+    def plot(self, *args: Any, **kwargs: Any) -> None:
         """Plotting is not available for RotationMatchesXY and RotationMatchesXYZ."""
         raise NotImplementedError()
 
@@ -1008,7 +1008,7 @@ class RotationMatchesXYZ(RotationMatchesXY):
         dxyz *= 1 / np.linalg.norm(dxyz, ord=2, axis=1, keepdims=True)
         return dxyz
 
-    def observed() -> None:
+    def observed(self, *args: Any, **kwargs: Any) -> None:
         """Observed image coordinates are not available for RotationMatchesXYZ."""
         raise NotImplementedError()
 
-- 
2.43.0


From 72014b619a3b211c1f409b2e9e1b26545fcb66b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:10 +0000
Subject: [PATCH 106/138] fix: predict no image coordinates for world lines
 behind the camera

---
 src/glimpse/optimize.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index be36222..16ea35a 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -367,10 +367,13 @@ class Lines(Points):
                 ray directions.
         """
         self._test_position()
-        puv = np.row_stack(self._xyzs_to_uvs())
-        distances = helpers.pairwise_distance(
-            self.observed(index=index), puv, metric="sqeuclidean"
-        )
+        uv = self.observed(index=index)
+        puvs = self._xyzs_to_uvs()
+        if not puvs:
+            # No line vertices in front of the camera
+            return np.full(uv.shape, np.nan)
+        puv = np.row_stack(puvs)
+        distances = helpers.pairwise_distance(uv, puv, metric="sqeuclidean")
         min_index = np.argmin(distances, axis=1)
         return puv[min_index, :]
 
-- 
2.43.0


From 904f1906680e8841033b6680780acf70e6f3b902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:24 +0000
Subject: [PATCH 107/138] fix: set parameters of cameras that belong to no
 group

---
 src/glimpse/optimize.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 16ea35a..c092768 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1731,9 +1731,10 @@ class Cameras:
                 self.cams[j]._vector[self.group_masks[i]] = params[
                     self.group_breaks[i] : self.group_breaks[i + 1]
                 ]
-                self.cams[j]._vector[self.cam_masks[j]] = params[
-                    self.cam_breaks[j] : self.cam_breaks[j + 1]
-                ]
+        for j, cam in enumerate(self.cams):
+            cam._vector[self.cam_masks[j]] = params[
+                self.cam_breaks[j] : self.cam_breaks[j + 1]
+            ]
         if save:
             self.vectors = [cam.to_array() for cam in self.cams]
 
-- 
2.43.0


From ea521f55d31e185fff880212fb3fcfdad26d2da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:24 +0000
Subject: [PATCH 108/138] fix: restore cameras when a prediction at trial
 parameters fails

---
 src/glimpse/optimize.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index c092768..72b44e2 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1775,18 +1775,16 @@ class Cameras:
         """
         if params is not None:
             vectors = [cam.to_array() for cam in self.cams]
-            self.set_cameras(params)
+            try:
+                self.set_cameras(params)
+                return self.predicted(index=index)
+            finally:
+                for cam, vector in zip(self.cams, vectors):
+                    cam._vector = vector
         if len(self.controls) == 1:
-            result = self.controls[0].predicted(index=index)
-        else:
-            # TODO: Map index to subindices for each control
-            result = np.vstack([control.predicted() for control in self.controls])[
-                index
-            ]
-        if params is not None:
-            for cam, vector in zip(self.cams, vectors):
-                cam._vector = vector
-        return result
+            return self.controls[0].predicted(index=index)
+        # TODO: Map index to subindices for each control
+        return np.vstack([control.predicted() for control in self.controls])[index]
 
     def residuals(
         self, params: FitParams = None, index: Index = slice(None)
-- 
2.43.0


From 8069b114f85dc5ceab9f7a67ff2231474f02ca6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:24 +0000
Subject: [PATCH 109/138] fix: average the distances to world control in camera
 scales

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 72b44e2..e61fb06 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1403,7 +1403,7 @@ class Cameras:
             if xyz:
                 # NOTE: Upper bound (assumes motion perpendicular to feature direction)
                 dpixels[0:3] = (
-                    cam.f.mean() / np.linalg.norm(np.vstack(xyz) - cam.xyz).mean()
+                    cam.f.mean() / np.linalg.norm(np.vstack(xyz) - cam.xyz, axis=1).mean()
                 )
         # viewdir[0, 1]
         # First angle rotates camera left-right
-- 
2.43.0


From 88d0b66fc2e111aca400d752912229ba95526b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:24 +0000
Subject: [PATCH 110/138] fix: accept group indices as an array

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index e61fb06..d8204c6 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1297,7 +1297,7 @@ class Cameras:
             cam_params = [cam_params]
         if isinstance(group_indices, int):
             group_indices = [group_indices]
-        if group_indices is not None and isinstance(group_indices[0], int):
+        if group_indices is not None and np.ndim(group_indices[0]) == 0:
             group_indices = [group_indices]
         if isinstance(group_params, dict):
             group_params = [group_params]
-- 
2.43.0


From aa56b42e58a7251f1bbe1bc73822d870564f1288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:24 +0000
Subject: [PATCH 111/138] fix: plot an array of indices of a single control

---
 src/glimpse/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index d8204c6..3de9497 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1956,7 +1956,8 @@ class Cameras:
                 matplotlib.pyplot.plot (dict), color, or `None` to hide.
             **kwargs: Optional arguments to matplotlib.pyplot.quiver for all points.
         """
-        if index != slice(None) and len(self.controls) > 1:
+        all_points = isinstance(index, slice) and index == slice(None)
+        if not all_points and len(self.controls) > 1:
             # TODO: Map index to subindices for each control
             raise ValueError(
                 "Plotting with `index` not yet supported with multiple controls"
-- 
2.43.0


From 5bfc5305e5d2c23b0cbd2dee8cff5d864c6c7dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:24 +0000
Subject: [PATCH 112/138] fix: plot a polynomial without unselected points

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 3de9497..8881a19 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1149,7 +1149,7 @@ class Polynomial:
             (index, selected, "selected"),
         ]:
             if not len(idx) or args is None:
-                result = None
+                result[label] = None
                 continue
             if not isinstance(args, dict):
                 args = {"c": args}
-- 
2.43.0


From 9d3b0dff6ae162b577881dccd50edc58ccc77185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:24 +0000
Subject: [PATCH 113/138] fix: fit cameras iteratively

---
 src/glimpse/optimize.py | 54 +++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 8881a19..757de45 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1855,6 +1855,37 @@ class Cameras:
                 then ordered by position in :meth:`Camera.to_array()`.
         """
         kwargs = {"nan_policy": "omit", **kwargs}
+        iterations = max(
+            len(cam_params) if cam_params else 0,
+            len(group_params) if group_params else 0,
+        )
+        if iterations:
+            vectors = [cam.to_array() for cam in self.cams]
+            try:
+                for n in range(iterations):
+                    iter_cam_params = cam_params[n] if cam_params else self.cam_params
+                    iter_group_params = (
+                        group_params[n] if group_params else self.group_params
+                    )
+                    model = Cameras(
+                        cams=self.cams,
+                        controls=self.controls,
+                        cam_params=iter_cam_params,
+                        group_indices=self.group_indices,
+                        group_params=iter_group_params,
+                        weights=self.weights,
+                        scales=self.scales is not None,
+                        sparsity=self.sparsity is not None,
+                    )
+                    values = model.fit(index=index, method=method, **kwargs)
+                    if values is not None:
+                        model.set_cameras(params=values)
+                self.update_params()
+                return self.fit(index=index, full=full, method=method, **kwargs)
+            finally:
+                for cam, vector in zip(self.cams, vectors):
+                    cam._vector = vector
+                self.update_params()
         if method == "leastsq":
             if self.scales is not None and "diag" not in kwargs:
                 kwargs["diag"] = self.scales
@@ -1879,26 +1910,6 @@ class Cameras:
             sys.stdout.write("\r" + str(err))
             sys.stdout.flush()
 
-        iterations = max(
-            len(cam_params) if cam_params else 0,
-            len(group_params) if group_params else 0,
-        )
-        if iterations:
-            for n in range(iterations):
-                iter_cam_params = cam_params[n] if cam_params else self.cam_params
-                iter_group_params = (
-                    group_params[n] if group_params else self.group_params
-                )
-                model = Cameras(
-                    cams=self.cams,
-                    controls=self.controls,
-                    cam_params=iter_cam_params,
-                    group_params=iter_group_params,
-                )
-                values = model.fit(index=index, method=method, **kwargs)
-                if values is not None:
-                    model.set_cameras(params=values)
-            self.update_params()
         result = lmfit.minimize(
             params=self.params,
             fcn=self.residuals,
@@ -1908,9 +1919,6 @@ class Cameras:
             **kwargs
         )
         sys.stdout.write("\n")
-        if iterations:
-            self.reset_cameras()
-            self.update_params()
         if not result.success:
             print(result.message)
         if full:
-- 
2.43.0


From 6b38884ba7c4202ca48a387103bc0e8e2ce05f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:24 +0000
Subject: [PATCH 114/138] fix: fit cameras with missing residuals

---
 src/glimpse/optimize.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 757de45..be7e250 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1910,9 +1910,16 @@ class Cameras:
             sys.stdout.write("\r" + str(err))
             sys.stdout.flush()
 
+        def residuals(params: FitParams, index: Index) -> np.ndarray:
+            resid = self.residuals(params=params, index=index)
+            if kwargs["nan_policy"] == "omit":
+                # Number of residuals must not change (or differ from jac_sparsity)
+                resid[np.isnan(resid)] = 0
+            return resid
+
         result = lmfit.minimize(
             params=self.params,
-            fcn=self.residuals,
+            fcn=residuals,
             kws={"index": index},
             iter_cb=callback,
             method=method,
-- 
2.43.0


From e7c6d37508157ffd495fd5e9b9629abbe95fee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:42 +0000
Subject: [PATCH 115/138] fix: restore cameras when a plot at trial parameters
 fails

---
 src/glimpse/optimize.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index be7e250..31d251f 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1979,7 +1979,20 @@ class Cameras:
             )
         if params is not None:
             vectors = [cam.to_array() for cam in self.cams]
-            self.set_cameras(params)
+            try:
+                self.set_cameras(params)
+                return self.plot(
+                    cam=cam,
+                    index=index,
+                    selected=selected,
+                    unselected=unselected,
+                    lines_observed=lines_observed,
+                    lines_predicted=lines_predicted,
+                    **kwargs
+                )
+            finally:
+                for camera, vector in zip(self.cams, vectors):
+                    camera._vector = vector
         cam = self.cams[cam] if isinstance(cam, int) else cam
         cam_controls = self.prune_controls(self.controls, cams=[cam])
         results = []
@@ -2006,9 +2019,6 @@ class Cameras:
                     **kwargs
                 )
             results.append(result)
-        if params is not None:
-            for cam, vector in zip(self.cams, vectors):
-                cam._vector = vector
         return results
 
     def plot_weights(
-- 
2.43.0


From 3fc4e5a707c5150591869608402d4a5938c74696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:45 +0000
Subject: [PATCH 116/138] fix: fit a single camera parameter

---
 src/glimpse/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 31d251f..b6adb40 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1892,7 +1892,9 @@ class Cameras:
         if method == "least_squares":
             if self.scales is not None and "x_scale" not in kwargs:
                 kwargs["x_scale"] = self.scales
-            if self.sparsity is not None and "jac_sparsity" not in kwargs:
+            # NOTE: Solvers for sparse systems can fail for a single parameter
+            sparse = self.sparsity is not None and self.sparsity.shape[1] > 1
+            if sparse and "jac_sparsity" not in kwargs:
                 if isinstance(index, slice) and index == slice(None):
                     kwargs["jac_sparsity"] = self.sparsity
                 else:
-- 
2.43.0


From 2f1597f65941635ba974b67f486c7946f342ade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:19 +0000
Subject: [PATCH 117/138] fix: start fit of observer cameras from a vector

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index b6adb40..9c547a1 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2141,7 +2141,7 @@ class ObserverCameras:
             return objective, gradients.ravel()
 
         # Optimize camera view directions
-        viewdirs_0 = [img.cam.viewdir for img in self.observer.images]
+        viewdirs_0 = np.concatenate([img.cam.viewdir for img in self.observer.images])
         result = scipy.optimize.minimize(
             fun=fun, x0=viewdirs_0, jac=True, method=method, **kwargs
         )
-- 
2.43.0


From 45fdfb8fa2e7bce445e880dea87b637b6d6c9ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:21 +0000
Subject: [PATCH 118/138] fix: gradient of the fit of observer cameras

---
 src/glimpse/optimize.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 9c547a1..1edb46c 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2127,14 +2127,13 @@ class ObserverCameras:
                 # Project matches
                 dxyz = m.predicted(cam=0) - m.predicted(cam=1)
                 objective += np.sum(np.abs(dxyz))
-                # i -> j
-                xy_hat = np.column_stack((m.xys[0], np.ones(m.size)))
-                dD_dw = np.matmul(m.cams[0].Rprime, xy_hat.T)
                 delta = np.sign(dxyz).reshape(-1, 3, 1)
-                gradient = np.sum(np.matmul(dD_dw.T, delta).T, axis=2).squeeze()
-                gradients[i] += gradient
-                # j -> i
-                gradients[j] -= gradient
+                for cam, image, sign in ((0, i, 1), (1, j, -1)):
+                    xy_hat = np.column_stack((m.xys[cam], np.ones(m.size)))
+                    xy_hat /= np.linalg.norm(xy_hat, axis=1, keepdims=True)
+                    dD_dw = np.matmul(m.cams[cam].Rprime, xy_hat.T)
+                    gradient = np.sum(np.matmul(dD_dw.T, delta).T, axis=2).squeeze()
+                    gradients[image] += sign * gradient
             # Update console output
             sys.stdout.write("\r" + str(objective))
             sys.stdout.flush()
-- 
2.43.0


From c77b5c0f937e8edfb51f315dffb2bf217a5bbf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:42 +0000
Subject: [PATCH 119/138] fix: restore cameras as they were before the fit of
 observer cameras

---
 src/glimpse/optimize.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 1edb46c..846046a 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2141,10 +2141,12 @@ class ObserverCameras:
 
         # Optimize camera view directions
         viewdirs_0 = np.concatenate([img.cam.viewdir for img in self.observer.images])
-        result = scipy.optimize.minimize(
-            fun=fun, x0=viewdirs_0, jac=True, method=method, **kwargs
-        )
-        self.reset_cameras()
+        try:
+            result = scipy.optimize.minimize(
+                fun=fun, x0=viewdirs_0, jac=True, method=method, **kwargs
+            )
+        finally:
+            self.set_cameras(viewdirs=viewdirs_0.reshape(-1, 3))
         if not result.success:
             sys.stdout.write("\n")  # new line
             print(result.message)
-- 
2.43.0


From a637f9a66485b10f13cdab1f39c265dedfae9b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:49 +0000
Subject: [PATCH 120/138] fix: draw every RANSAC sample

---
 src/glimpse/optimize.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 846046a..d61562c 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1,6 +1,7 @@
 """Optimize camera models to fit observations taken from images and the world."""
 import copyreg
 import datetime
+import math
 import os
 import sys
 from typing import Any, Dict, Iterable, List, Optional, Tuple, Type, Union
@@ -2238,14 +2239,7 @@ def _ransac_samples(n: int, size: int, iterations: int = 100) -> List[int]:
     """
     if n >= size:
         raise ValueError("Sample size is larger or equal to total size")
-    # Estimate factorial with log(gamma) to avoid overflow
-    log = (
-        np.math.lgamma(size + 1) - np.math.lgamma(n + 1) - np.math.lgamma(size - n + 1)
-    )
-    if log:
-        # Compute max iterations if no float overflow
-        max_iterations = np.floor(np.exp(log))
-        iterations = min(iterations, max_iterations)
+    iterations = min(iterations, math.comb(size, n))
     samples = set()
     indices = np.arange(size)
     while len(samples) < iterations:
-- 
2.43.0


From dc0d3dddda36e2e6b3cbfbdd6e6d2a1cce13604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:54 +0000
Subject: [PATCH 121/138] fix: match keypoints when none pass the limits

---
 src/glimpse/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index d61562c..aa2e4ef 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2340,8 +2340,8 @@ def match_keypoints(
             matches = [m for m in matches if (m[0].queryIdx, m[0].trainIdx) in ba]
         if max_ratio:
             matches = [m for m in matches if m[0].distance / m[1].distance < max_ratio]
-        uva = np.asarray([ka[0][m[0].queryIdx].pt for m in matches])
-        uvb = np.asarray([kb[0][m[0].trainIdx].pt for m in matches])
+        uva = np.array([ka[0][m[0].queryIdx].pt for m in matches]).reshape(-1, 2)
+        uvb = np.array([kb[0][m[0].trainIdx].pt for m in matches]).reshape(-1, 2)
         if return_ratios:
             ratios = np.array([m.distance / n.distance for m, n in matches])
         if max_distance:
-- 
2.43.0


From dcd699574b29889f0d0e99c92b244e5e5f6e0a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:54 +0000
Subject: [PATCH 122/138] fix: overwrite keypoints in memory and in files

---
 src/glimpse/optimize.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index aa2e4ef..2e4bfc5 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2468,13 +2468,14 @@ class KeypointMatcher:
                 written = False
             keypoints = self.keypoints[i]
             read = keypoints is not None
-            if not read and written and not clear_keypoints:
-                # Read keypoints from file
-                keypoints = helpers.read_pickle(outpath)
-            elif read and not written and path:
+            if not read and written and not overwrite:
+                if not clear_keypoints:
+                    # Read keypoints from file
+                    keypoints = helpers.read_pickle(outpath)
+            elif read and not written and path and not overwrite:
                 # Write keypoints to file
                 helpers.write_pickle(keypoints, path=outpath)
-            elif (not read and not written) or overwrite:
+            elif not read or overwrite:
                 # Detect keypoints
                 array = self._prepare_image(img.read())
                 keypoints = detect_keypoints(array, mask=masks[i], **kwargs)
-- 
2.43.0


From 01162a704e53c7b88c695f6fb7d805f5c6290e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:54 +0000
Subject: [PATCH 123/138] fix: match image pairs with either image required

---
 src/glimpse/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 2e4bfc5..f98e953 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2577,7 +2577,8 @@ class KeypointMatcher:
         # Filter matched image pairs
         if imgs is not None:
             for i, m in enumerate(matching_images):
-                matching_images[i] = m[np.isin(m, imgs)]
+                if not np.isin(i, imgs):
+                    matching_images[i] = m[np.isin(m, imgs)]
 
         def reduce(matches: Iterable[Matches]) -> Iterable[Matches]:
             if filter:
-- 
2.43.0


From 786e5d0fa6e207b3f5ad137336a2c4676751dcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:54 +0000
Subject: [PATCH 124/138] fix: ignore filter when matches are cleared

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index f98e953..e0dfe44 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2581,7 +2581,7 @@ class KeypointMatcher:
                     matching_images[i] = m[np.isin(m, imgs)]
 
         def reduce(matches: Iterable[Matches]) -> Iterable[Matches]:
-            if filter:
+            if filter and not clear_matches:
                 for match in matches:
                     if match:
                         match.filter(**filter)
-- 
2.43.0


From 3dc344ecb7b52b2a81379a7956611dfed72729fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:54 +0000
Subject: [PATCH 125/138] fix: build a matrix of matches with all images

---
 src/glimpse/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index e0dfe44..8dea422 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2658,7 +2658,9 @@ class KeypointMatcher:
                 )
                 cols = np.concatenate(matching_images)
                 # HACK: Initialize with numeric data to avoid type errors
-                matches = scipy.sparse.coo_matrix(([1] * len(data), (rows, cols)))
+                matches = scipy.sparse.coo_matrix(
+                    ([1] * len(data), (rows, cols)), shape=(n, n)
+                )
                 matches.data = data
         if clear_matches:
             self.matches = None
-- 
2.43.0


From e7aa90d517f8bf0bf4221a490149fcc077c9016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:54 +0000
Subject: [PATCH 126/138] fix: clear keypoints after matching in parallel

---
 src/glimpse/optimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 8dea422..fd90967 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2662,6 +2662,8 @@ class KeypointMatcher:
                     ([1] * len(data), (rows, cols)), shape=(n, n)
                 )
                 matches.data = data
+        if clear_keypoints:
+            self.keypoints = [None] * n
         if clear_matches:
             self.matches = None
         else:
-- 
2.43.0


From 53b810160e6de202bd6bd828ea42d196aaabce01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:54 +0000
Subject: [PATCH 127/138] fix: drop keypoints of dropped images

---
 src/glimpse/optimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index fd90967..6d6b95b 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2806,6 +2806,8 @@ class KeypointMatcher:
         self.matches._shape = (n, n)
         # Remove dropped images
         self.images = np.delete(self.images, drop)
+        if self.keypoints is not None:
+            self.keypoints = [self.keypoints[i] for i in all if i not in drop]
 
     def match_breaks(self, min_matches: int = 0) -> np.ndarray:
         """Return breaks in pairwise image matches."""
-- 
2.43.0


From b2ff39cdbb788cfaaec553c3adaecb0e73abd05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:54 +0000
Subject: [PATCH 128/138] fix: match breaks with a minimum number of matches

---
 src/glimpse/optimize.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 6d6b95b..6edf177 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2812,14 +2812,9 @@ class KeypointMatcher:
     def match_breaks(self, min_matches: int = 0) -> np.ndarray:
         """Return breaks in pairwise image matches."""
         self._test_matches()
-        all_starts = np.arange(len(self.images) - 1)
-        starts, counts = np.unique(self.matches.row, return_counts=True)
-        breaks = np.setdiff1d(all_starts, starts)
-        if min_matches:
-            min_matches = np.minimum(
-                min_matches, len(self.images) - np.arange(len(self.images))
-            )
-            breaks = np.sort(
-                np.concatenate((breaks, np.where(counts < min_matches)[0]))
-            )
-        return breaks
+        n = len(self.images)
+        all_starts = np.arange(n - 1)
+        counts = np.bincount(self.matches.row, minlength=n)[: n - 1]
+        # The last images can only be matched to the few that follow them
+        min_matches = np.minimum(max(min_matches, 1), n - 1 - all_starts)
+        return np.where(counts < min_matches)[0]
-- 
2.43.0


From 481737d91a3ab89ab693954f34d2973c53e6e87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:23 +0000
Subject: [PATCH 129/138] fix: ratios of matches between duplicate keypoints

---
 src/glimpse/optimize.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 6edf177..a82a3cc 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2338,12 +2338,16 @@ def match_keypoints(
             matches_ba = matcher.knnMatch(kb[1], ka[1], k=n, mask=mask)
             ba = [(m[0].trainIdx, m[0].queryIdx) for m in matches_ba]
             matches = [m for m in matches if (m[0].queryIdx, m[0].trainIdx) in ba]
+        if compute_ratios:
+            # Equal distances of zero are as ambiguous as any other equal distances
+            ratios = np.array(
+                [m[0].distance / m[1].distance if m[1].distance else 1 for m in matches]
+            )
         if max_ratio:
-            matches = [m for m in matches if m[0].distance / m[1].distance < max_ratio]
+            matches = [m for m, ratio in zip(matches, ratios) if ratio < max_ratio]
+            ratios = ratios[ratios < max_ratio]
         uva = np.array([ka[0][m[0].queryIdx].pt for m in matches]).reshape(-1, 2)
         uvb = np.array([kb[0][m[0].trainIdx].pt for m in matches]).reshape(-1, 2)
-        if return_ratios:
-            ratios = np.array([m.distance / n.distance for m, n in matches])
         if max_distance:
             valid = np.linalg.norm(uva - uvb, axis=1) < max_distance
             uva, uvb = uva[valid], uvb[valid]
-- 
2.43.0


From 99985320600e6aeb9efd8ec4abcf7368a7c4ffc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:23 +0000
Subject: [PATCH 130/138] fix: mask of pixel regions to match keypoints in

---
 src/glimpse/optimize.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index a82a3cc..47111eb 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2293,6 +2293,19 @@ def detect_keypoints(
     return keypoints, descriptors
 
 
+def _mask_keypoints(
+    keypoints: Tuple[List[cv2.KeyPoint], np.ndarray], mask: np.ndarray
+) -> Tuple[List[cv2.KeyPoint], np.ndarray]:
+    """Return the keypoints (and descriptors) in the pixel regions of a mask."""
+    points, descriptors = keypoints
+    if not len(points):
+        return keypoints
+    # OpenCV image coordinates are integers at pixel centers
+    cols, rows = np.floor(np.array([k.pt for k in points]) + 0.5).astype(int).T
+    keep = np.nonzero(mask[rows, cols])[0]
+    return [points[i] for i in keep], descriptors[keep]
+
+
 def match_keypoints(
     ka: Tuple[List[cv2.KeyPoint], np.ndarray],
     kb: Tuple[List[cv2.KeyPoint], np.ndarray],
@@ -2330,12 +2343,13 @@ def match_keypoints(
     """
     if mask is not None:
         mask = np.asarray(mask, dtype=np.uint8)
+        ka, kb = _mask_keypoints(ka, mask), _mask_keypoints(kb, mask)
     compute_ratios = max_ratio or return_ratios
     n = 2 if compute_ratios else 1
     if len(ka[0]) >= n and len(kb[0]) >= n:
-        matches = matcher.knnMatch(ka[1], kb[1], k=n, mask=mask)
+        matches = matcher.knnMatch(ka[1], kb[1], k=n)
         if cross_check:
-            matches_ba = matcher.knnMatch(kb[1], ka[1], k=n, mask=mask)
+            matches_ba = matcher.knnMatch(kb[1], ka[1], k=n)
             ba = [(m[0].trainIdx, m[0].queryIdx) for m in matches_ba]
             matches = [m for m in matches if (m[0].queryIdx, m[0].trainIdx) in ba]
         if compute_ratios:
-- 
2.43.0


From dbfece1319d1c265807c678d0eed9d9e7950334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:47 +0000
Subject: [PATCH 131/138] fix: clear images after detecting keypoints in
 parallel

---
 src/glimpse/optimize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 47111eb..10103b0 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2511,6 +2511,9 @@ class KeypointMatcher:
             self.keypoints = pool.map(
                 func=process, sequence=tuple(enumerate(self.images)), star=True
             )
+        if clear_images:
+            for img in self.images:
+                img.array = None
 
     def build_matches(
         self,
-- 
2.43.0


From d1fa28ac7e3573a854da7a9bf770adc08f4d6c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:46 +0000
Subject: [PATCH 132/138] fix: read "correction": true from a camera file as
 the default elevation correction

Camera.from_json converted every value other than an object to a float array,
so that "correction": true, a valid value of the attribute, became array(1.0)
and was silently ignored by projections.
---
 src/glimpse/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 64b5b80..627ef3e 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -344,7 +344,7 @@ class Camera:
         """
         json_args = helpers.read_json(path)
         for key in json_args:
-            if isinstance(json_args[key], dict):
+            if isinstance(json_args[key], (bool, dict)):
                 continue
             # Conversion to float converts None to nan
             value = np.array(json_args[key], dtype=float)
-- 
2.43.0


From f2b4665b7f241f5f582f90464825e7000eab3193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:54 +0000
Subject: [PATCH 133/138] fix: write keypoint and match files such that an
 interruption cannot leave them incomplete

A build that was killed or failed while writing a file (or whose other parallel
worker failed, upon which all workers are ended) left a truncated file, which
every later build then tried to read instead of building it anew.
---
 src/glimpse/optimize.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 10103b0..3959693 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2293,6 +2293,13 @@ def detect_keypoints(
     return keypoints, descriptors
 
 
+def _write_pickle(obj: Any, path: str) -> None:
+    """Write pickle file such that an interruption cannot leave it incomplete."""
+    temp = path + ".tmp"
+    helpers.write_pickle(obj, path=temp)
+    os.replace(temp, path)
+
+
 def _mask_keypoints(
     keypoints: Tuple[List[cv2.KeyPoint], np.ndarray], mask: np.ndarray
 ) -> Tuple[List[cv2.KeyPoint], np.ndarray]:
@@ -2492,14 +2499,14 @@ class KeypointMatcher:
                     keypoints = helpers.read_pickle(outpath)
             elif read and not written and path and not overwrite:
                 # Write keypoints to file
-                helpers.write_pickle(keypoints, path=outpath)
+                _write_pickle(keypoints, path=outpath)
             elif not read or overwrite:
                 # Detect keypoints
                 array = self._prepare_image(img.read())
                 keypoints = detect_keypoints(array, mask=masks[i], **kwargs)
                 if path:
                     # Write keypoints to file
-                    helpers.write_pickle(keypoints, path=outpath)
+                    _write_pickle(keypoints, path=outpath)
                 if clear_images:
                     img.array = None
             if clear_keypoints:
@@ -2649,7 +2656,7 @@ class KeypointMatcher:
                             weights=(1 / result[2]) if weights else None,
                         )
                         if path is not None:
-                            helpers.write_pickle(match, outfile)
+                            _write_pickle(match, path=outfile)
                         if not clear_matches:
                             if mtype is not None:
                                 match = match.to_type(mtype)
-- 
2.43.0


From 43e7e2c6cc6d48354ad050ecdaacf438f818986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:30 +0000
Subject: [PATCH 134/138] fix: Center first tile of observer animations in
 first frame, not first image

---
 src/glimpse/track/observer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index c423ed6..c3b6eb4 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -326,15 +326,15 @@ class Observer:
             animation: Additional arguments to
                 :class:'matplotlib.animation.FuncAnimation'.
         """
-        if uv is None:
-            uv = self.images[0].size / 2
         if frames is None:
             frames = np.arange(len(self.images))
+        if uv is None:
+            uv = self.images[frames[0]].size / 2
         xyz = self.images[frames[0]].uv_to_xyz(np.atleast_2d(uv))
         halfsize = (size[0] * 0.5, size[1] * 0.5)
         # Initialize plot
         fig, ax = matplotlib.pyplot.subplots(ncols=2, **subplots)
-        box = self.tile_box(uv, size=size, img=0)
+        box = self.tile_box(uv, size=size, img=frames[0])
         tile = self.extract_tile(img=frames[0], box=box)
         im = [self.plot_tile(tile=tile, box=box, axes=axes) for axes in ax]
         pt = [axis.plot(uv[0], uv[1], marker=".", color="red")[0] for axis in ax]
@@ -422,7 +422,7 @@ class Observer:
         fig, ax = matplotlib.pyplot.subplots(ncols=2, **subplots)
         track_uv: np.ndarray = self.images[frames[0]].xyz_to_uv(xyz[0:1])
         uv = track_uv[-1]
-        box = self.tile_box(uv, size=size, img=0)
+        box = self.tile_box(uv, size=size, img=frames[0])
         tile = self.extract_tile(img=frames[0], box=box)
         im = [self.plot_tile(tile=tile, box=box, axes=axes, zorder=1) for axes in ax]
         track = ax[1].plot(track_uv[:, 0], track_uv[:, 1], "y.-", alpha=0.5, zorder=2)[
-- 
2.43.0


From 6942e064e9f53902d97e3b990c3ad2fd568d37e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:05 +0000
Subject: [PATCH 135/138] fix: Draw projected tiles in order, whichever order
 parallel processes finish in

---
 src/glimpse/camera.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 627ef3e..f70705a 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1109,14 +1109,17 @@ class Camera:
         def reduce(
             idx: Tuple[Iterable[int], Iterable[int]] = None,
             values: Iterable[Number] = None,
-        ) -> None:
+        ) -> tuple:
             bar.next()
-            if idx is not None:
-                array[idx] = values
+            return idx, values
 
         with config.backend(np=parallel) as pool:
-            pool.map(func=process, reduce=reduce, sequence=tile_indices)
+            tiles = pool.map(func=process, reduce=reduce, sequence=tile_indices)
         bar.finish()
+        # Draw tiles in order, since parallel processes finish in any order
+        for idx, means in tiles:
+            if idx is not None:
+                array[idx] = means
         return array
 
     def set_plot_limits(self) -> None:
-- 
2.43.0


From 43d80539ec5cf9515cb3f7fa8fa98cc3bd09fee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:38 +0000
Subject: [PATCH 136/138] fix: Do not consider rasters of different shapes
 equal

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index b612f69..a67b83d 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -657,7 +657,7 @@ class Raster(Grid):
     def __eq__(self, other: "Raster") -> bool:
         """Consider equal if coordinate system and values are equal."""
         return (
-            np.array_equiv(self.array, other.array)
+            np.array_equal(self.array, other.array)
             and (self.xlim == other.xlim).all()
             and (self.ylim == other.ylim).all()
         )
-- 
2.43.0


From b3b06c0370d7c6f27f93dbc4b1ba8036cc98a39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:44 +0000
Subject: [PATCH 137/138] fix: Allow for rounding error in the size of grids
 read with a cell size

---
 src/glimpse/raster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index a67b83d..5a705ab 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -211,8 +211,9 @@ class Grid:
         win_xsize = (cols[1] - cols[0]) + 1
         win_ysize = (rows[1] - rows[0]) + 1
         if d:
-            buf_xsize = int(np.ceil(abs(win_xsize * grid.d[0] / d)))
-            buf_ysize = int(np.ceil(abs(win_ysize * grid.d[1] / d)))
+            # Whole numbers may be exceeded by rounding error
+            buf_xsize = int(max(np.ceil(abs(win_xsize * grid.d[0] / d) - 1e-6), 1))
+            buf_ysize = int(max(np.ceil(abs(win_ysize * grid.d[1] / d) - 1e-6), 1))
         else:
             buf_xsize = win_xsize
             buf_ysize = win_ysize
-- 
2.43.0


From fb97f2ad18ac8b7abd741c43b2a8b8967f6598c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:33 +0000
Subject: [PATCH 138/138] fix: Track with motion models that do not compute
 likelihoods

The documented interface of a motion model makes compute_log_likelihoods
optional, but the tracker called it on any model.
---
 src/glimpse/track/tracker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 2477e90..6bda06b 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -142,7 +142,8 @@ class Tracker:
             self.compute_observer_log_likelihoods(obs, img)
             for obs, img in enumerate(imgs)
         ]
-        if motion_model:
+        # NOTE: Optional method of the motion model interface
+        if hasattr(motion_model, "compute_log_likelihoods"):
             log_likelihoods.append(motion_model.compute_log_likelihoods(self.particles))
         # Remove empty elements
         log_likelihoods = [x for x in log_likelihoods if x is not None]
-- 
2.43.0

