From 5ad72b42dcbf6742d38908dfe12c2713407189b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 01/70] fix: crop and zoom return their own data instead of a
 read-only view of the parent

The cropped or zoomed object held a read-only view of the parent's array: its
values changed when the parent was edited, and editing it (or the object itself
after an in-place crop) raised ValueError.
---
 surfalize/profile.py | 4 ++--
 surfalize/surface.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index 79f2d11..13b405c 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -238,7 +238,7 @@ class Profile(BaseTopography):
         if x0 < 0 or x1 > self.size - 1 or x0 >= x1:
             raise ValueError('Interval is out of bounds!')
 
-        data = self.data[x0:x1 + 1]
+        data = self.data[x0:x1 + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
@@ -262,7 +262,7 @@ class Profile(BaseTopography):
         """
         n = self.size
         nn = int(n / factor)
-        data = self.data[int((n - nn) / 2):nn + int((n - nn) / 2) + 1]
+        data = self.data[int((n - nn) / 2):nn + int((n - nn) / 2) + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
diff --git a/surfalize/surface.py b/surfalize/surface.py
index a5f6d05..bc4ddb8 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -679,7 +679,7 @@ class Surface(BaseTopography):
         """
         y, x = self.size
         xn, yn = int(x / factor), int(y / factor)
-        data = self.data[int((y - yn) / 2):yn + int((y - yn) / 2) + 1, int((x - xn) / 2):xn + int((x - xn) / 2) + 1]
+        data = self.data[int((y - yn) / 2):yn + int((y - yn) / 2) + 1, int((x - xn) / 2):xn + int((x - xn) / 2) + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
@@ -713,7 +713,7 @@ class Surface(BaseTopography):
         if x0 < 0 or y0 < 0 or x1 > self.size.x - 1 or y1 > self.size.y - 1:
             raise ValueError('Box is out of bounds!')
 
-        data = self.data[y0:y1 + 1, x0:x1 + 1]
+        data = self.data[y0:y1 + 1, x0:x1 + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
-- 
2.43.0


From e216f8c7285ebd85fa168b4f322381112c9ea89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 02/70] fix: slicing a surface returns an independent surface
 with positive stepsize

The slice shared its memory with the parent, so that editing one changed the
other behind its cached parameters. A negative slice step produced a negative
stepsize and negative extents.
---
 surfalize/surface.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index bc4ddb8..26b53cb 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -262,13 +262,13 @@ class Surface(BaseTopography):
         step_x = self.step_x
         if isinstance(item, slice):
             if item.step is not None:
-                step_y = item.step * self.step_y
+                step_y = abs(item.step) * self.step_y
         if isinstance(item, tuple):
             if isinstance(item[0], slice) and item[0].step is not None:
-                step_y = item[0].step * self.step_y
+                step_y = abs(item[0].step) * self.step_y
             if isinstance(item[1], slice) and item[1].step is not None:
-                step_x = item[1].step * self.step_x
-        return Surface(self._data.__getitem__(item), step_x, step_y)
+                step_x = abs(item[1].step) * self.step_x
+        return Surface(self._data.__getitem__(item).copy(), step_x, step_y)
 
     @classmethod
     def load(cls, path_or_buffer, format=None, encoding='auto', read_image_layers=False):
-- 
2.43.0


From 8e27c15d2ff08f11750e107e49eb6ea511a7bc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 03/70] fix: stepheight_level is an operation and must not be
 cached

With the result cached, calling it twice returned the same object, so that two
supposedly independent results were one.
---
 surfalize/surface.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 26b53cb..e976611 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -768,7 +768,6 @@ class Surface(BaseTopography):
         return mask
 
     @batch_method('operation')
-    @cache
     def stepheight_level(self, inplace=False):
         """
         Levels the surface only based on the datapoints from the upper level surface in a rectangular ablation cavity.
-- 
2.43.0


From bb0c6bd053be9b8b75d40019e95a890f163a9145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 04/70] fix: fill_nonmeasured(inplace=False) returns a copy
 when nothing is missing

It returned the object itself, so that in-place operations on the result
changed the original.
---
 surfalize/profile.py | 2 +-
 surfalize/surface.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index 13b405c..fc62f5a 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -145,7 +145,7 @@ class Profile(BaseTopography):
         profile : surfalize.Profile
         """
         if not self.has_missing_points:
-            return self
+            return self if inplace else self._with_data(self.data.copy())
         indices = np.arange(self.size)
         mask = ~np.isnan(self.data)
         data_interpolated = griddata(indices[mask], self.data[mask], indices, method=method)
diff --git a/surfalize/surface.py b/surfalize/surface.py
index e976611..2c73623 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -507,7 +507,7 @@ class Surface(BaseTopography):
             Surface object.
         """
         if not self.has_missing_points:
-            return self
+            return self if inplace else self._with_data(self.data.copy())
         values = self.data.ravel()
         mask = ~np.isnan(values)
 
-- 
2.43.0


From d0341910de40702e85b58f79b0f38d1178d413bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 05/70] fix: invert ignores non-measured points when
 determining the height range

A single non-measured point turned the whole inverted topography into
non-measured points.
---
 surfalize/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/base.py b/surfalize/base.py
index c9ff347..d15d56b 100644
--- a/surfalize/base.py
+++ b/surfalize/base.py
@@ -253,7 +253,7 @@ class BaseTopography(CachedInstance):
         -------
         Surface | Profile
         """
-        data = self.data.min() + self.data.max() - self.data
+        data = np.nanmin(self.data) + np.nanmax(self.data) - self.data
         if inplace:
             self._set_data(data=data)
             return self
-- 
2.43.0


From bc9361ef1c47e85573a535b8f527345b14e54695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 06/70] fix: height_parameters returns a copy of the cached
 dictionary

Changing the returned dictionary changed every height parameter evaluated
afterwards on the same surface.
---
 surfalize/surface.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 2c73623..9f036b5 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -864,7 +864,6 @@ class Surface(BaseTopography):
    
     # Height parameters ################################################################################################
 
-    @cache
     @no_nonmeasured_points
     def height_parameters(self):
         """
@@ -875,6 +874,11 @@ class Surface(BaseTopography):
         -------
         dict[str: float]
         """
+        # The cached dictionary is copied, so that changing the returned dictionary does not affect later results
+        return dict(self._height_parameters())
+
+    @cache
+    def _height_parameters(self):
         mean = self.data.mean()
         centered_data = self.data - mean
         abs_centered_data = np.abs(centered_data)
-- 
2.43.0


From 4413326448a7d9c05aebd4177a3d6f31bca82b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 07/70] fix: horizontal and vertical profiles are taken from
 the closest data point

The position was scaled with the number of points instead of the number of
intervals and truncated, so that the profile could be taken one point off and a
profile at the upper bound of the surface consisted of NaN only. The averaging
step was truncated instead of rounded and failed below one stepsize, and near
the edge the parallel profiles were shifted off the requested position.
---
 surfalize/surface.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 9f036b5..e520d02 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -385,13 +385,14 @@ class Surface(BaseTopography):
         if average_step is None:
             average_step_px = 1
         else:
-            average_step_px = int(average_step / self.step_y)
+            average_step_px = max(1, round(average_step / self.step_y))
 
         # vertical index of profile
-        idx = int(y / self.height_um * self.size.y)
+        idx = round(y / self.step_y)
         # first index from which a profile is taken for averaging
         idx_min = idx - int(average / 2) * average_step_px
-        idx_min = 0 if idx_min < 0 else idx_min
+        # at the edge, start from the first of the parallel profiles that lies within the surface
+        idx_min = idx_min % average_step_px if idx_min < 0 else idx_min
         # last index from which a profile is taken for averaging
         idx_max = idx + int(average / 2) * average_step_px
         idx_max = self.size.y if idx_max > self.size.y else idx_max
@@ -425,13 +426,14 @@ class Surface(BaseTopography):
         if average_step is None:
             average_step_px = 1
         else:
-            average_step_px = int(average_step / self.step_x)
+            average_step_px = max(1, round(average_step / self.step_x))
 
         # vertical index of profile
-        idx = int(x / self.width_um * self.size.x)
+        idx = round(x / self.step_x)
         # first index from which a profile is taken for averaging
         idx_min = idx - int(average / 2) * average_step_px
-        idx_min = 0 if idx_min < 0 else idx_min
+        # at the edge, start from the first of the parallel profiles that lies within the surface
+        idx_min = idx_min % average_step_px if idx_min < 0 else idx_min
         # last index from which a profile is taken for averaging
         idx_max = idx + int(average / 2) * average_step_px
         idx_max = self.size.x if idx_max > self.size.x else idx_max
-- 
2.43.0


From 21dfdeba1460b995d133a1e5eedc49d35d562e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 08/70] fix: oblique profiles follow the line between the given
 points

The rows were computed as slope times column, which ignores the starting point
and fails for vertical lines. The endpoints could lie one point outside of the
surface, and the stepsize did not match the distance between the points.
---
 surfalize/surface.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index e520d02..fb62c50 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -465,28 +465,27 @@ class Surface(BaseTopography):
          -------
          profile : surfalize.Profile
          """
-        x0px = int(x0 / self.width_um * self.size.x)
-        y0px = int(y0 / self.height_um * self.size.y)
-        x1px = int(x1 / self.width_um * self.size.x)
-        y1px = int(y1 / self.height_um * self.size.y)
+        x0px, x1px = round(x0 / self.step_x), round(x1 / self.step_x)
+        y0px, y1px = round(y0 / self.step_y), round(y1 / self.step_y)
 
-        if (not(0 <= x0px <= self.size.x) or not(0 <= y0px <= self.size.y) or
-            not(0 <= x1px <= self.size.x) or not(0 <= y1px <= self.size.y)):
+        if (not(0 <= x0px <= self.size.x - 1) or not(0 <= y0px <= self.size.y - 1) or
+            not(0 <= x1px <= self.size.x - 1) or not(0 <= y1px <= self.size.y - 1)):
             raise ValueError("Start- and endpoint coordinates must lie within the surface.")
 
         dx = x1px - x0px
         dy = y1px - y0px
 
-        size = int(np.hypot(dx, dy))
+        size = int(np.hypot(dx, dy)) + 1
+        if size < 2:
+            raise ValueError("Start- and endpoint must not coincide.")
 
-        m = dy/dx
         xp = np.linspace(x0px, x1px, size)
-        yp = m * xp
+        yp = np.linspace(y0px, y1px, size)
 
         data = ndimage.map_coordinates(self.data, [yp, xp])
 
         length_um = np.hypot(dy * self.step_y, dx * self.step_x)
-        step = length_um / size
+        step = length_um / (size - 1)
         return Profile(data, step, length_um)
 
     # Operations #######################################################################################################
-- 
2.43.0


From 52412253615f73c579a45fa7eb61daefd55319ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 09/70] fix: equal surfaces have equal hashes

Surfaces compare equal when their heights agree within a tolerance and their
non-measured points coincide, but the hash depended on the exact mean and
standard deviation, which are NaN for surfaces with non-measured points.
---
 surfalize/surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index fb62c50..2daaae2 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -255,7 +255,8 @@ class Surface(BaseTopography):
         return True
 
     def __hash__(self):
-        return hash((self.step_x, self.step_y, self.size.x, self.size.y, self.data.mean(), self.data.std()))
+        # Surfaces compare equal within a tolerance, so that the hash must not depend on the exact height values
+        return hash((self.step_x, self.step_y, self.size.x, self.size.y))
 
     def __getitem__(self, item):
         step_y = self.step_y
-- 
2.43.0


From 3af8139a32f4a1a0eab25240a6e15d662ba6b883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 10/70] fix: stepheight and cavity_volume refuse surfaces with
 non-measured points

They silently returned NaN and a volume of zero.
---
 surfalize/surface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 2daaae2..4cb9c49 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -828,6 +828,7 @@ class Surface(BaseTopography):
         return upper_median, lower_median
 
     @batch_method('parameter')
+    @no_nonmeasured_points
     @cache
     def stepheight(self):
         """
@@ -842,6 +843,7 @@ class Surface(BaseTopography):
         return step_height
 
     @batch_method('parameter')
+    @no_nonmeasured_points
     def cavity_volume(self, threshold=0.50):
         """
         Calculates the cavity volume of a flat surface containing an ablation crater with a leveled bottom plane.
-- 
2.43.0


From aff6da7daffba579286603179295a80ea1caafc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 11/70] fix: material ratio is computed correctly for surfaces
 with equal heights

The unstable sort by height shuffled the material ratios of points with the same
height, so that Smr(c) next to a plateau returned an arbitrary ratio from within
the plateau.
---
 surfalize/abbottfirestone.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/abbottfirestone.py b/surfalize/abbottfirestone.py
index 692bd0e..f42f318 100644
--- a/surfalize/abbottfirestone.py
+++ b/surfalize/abbottfirestone.py
@@ -116,7 +116,9 @@ class AbbottFirestoneCurve(CachedInstance):
         # Intercept of the equivalence line at 100% ratio
         self._ylower = self._slope * 100 + self._intercept
 
-        self._smr_fit = interp1d(height, material_ratio)
+        # The height decreases with the material ratio. The arrays are reversed rather than sorted by height, since
+        # sorting does not preserve the order of the material ratios of equal heights, i.e. on plateaus.
+        self._smr_fit = interp1d(height[::-1], material_ratio[::-1], assume_sorted=True)
         self._height = height
         self._material_ratio = material_ratio
 
-- 
2.43.0


From f01ba379d283911494bdb4a473624bacf0fd98a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 12/70] fix: refined orientation handles perfectly aligned and
 short-period textures

For a texture aligned exactly with an axis, all profiles yield the same phase and
the normalisation divided zero by zero, so that the default orientation (and
align) returned NaN. For periods below ten pixels the sampling distance was
truncated to zero, which raised ZeroDivisionError.
---
 surfalize/surface.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 4cb9c49..d1080b1 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1396,12 +1396,12 @@ class Surface(BaseTopography):
         if period_y > period_x:
             # We sample at 0.25 * period because we need to at least obey the Nyquist theorem
             period_px = int(period_x / self.step_x)
-            dist_px = int(period_px * SAMPLE_RATE_FACTOR)
+            dist_px = max(1, int(period_px * SAMPLE_RATE_FACTOR))
             nprofiles = int(self.size.y / dist_px)
             get_profile = lambda idx: self.data[idx]
         else:
             period_px = int(period_y / self.step_y)
-            dist_px = int(period_px * SAMPLE_RATE_FACTOR)
+            dist_px = max(1, int(period_px * SAMPLE_RATE_FACTOR))
             nprofiles = int(self.size.x / dist_px)
             get_profile = lambda idx: self.data[:, idx]
 
@@ -1421,7 +1421,9 @@ class Surface(BaseTopography):
         # jumps back by one period. For this to be true, we need to sample at least a couple points between each
         # periodic interval, which is determined by SAMPLE_RATE_FACTOR
         diff_norm = np.abs((diff - np.median(diff)))
-        diff_norm = diff_norm / np.abs(diff_norm).max()
+        # If all differences are equal (e.g. for perfectly aligned textures), there are no outliers to be removed
+        if diff_norm.max() > 0:
+            diff_norm = diff_norm / diff_norm.max()
         # Here we remove all values that deviate more than 5% from the median slope
         THRESHOLD = 0.05
         d = diff[diff_norm < THRESHOLD].mean()
@@ -1430,7 +1432,7 @@ class Surface(BaseTopography):
         angle = np.rad2deg(np.arctan(d / dist_px))
         # If the texture is more aligned with the horizontal axis, we need to correct the angle
         if period_x > period_y:
-            angle = np.sign(angle) * 90 - angle
+            angle = np.copysign(90, angle) - angle
         return angle
 
     @batch_method('parameter')
-- 
2.43.0


From 2b3cafd24b0d1b405ec455ece6fab31b921ec724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 13/70] fix: rotate does not include invalid points for
 landscape surfaces

For surfaces that are wider than high, the inscribed rectangle was derived from
the rounded shape of the rotated array. For small angles it could exceed the
valid area, so that zeros from outside of the measurement entered the result.
---
 surfalize/surface.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index d1080b1..4eb2864 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -630,17 +630,12 @@ class Surface(BaseTopography):
         rotated = ndimage.rotate(self.data, angle, reshape=True)
 
         aspect_ratio = self.size.y / self.size.x
-        rotated_aspect_ratio = rotated.shape[0] / rotated.shape[1]
-
-        if aspect_ratio < 1:
-            total_height = self.size.y / rotated_aspect_ratio
-        else:
-            total_height = self.size.x
 
         pre_comp_sin = np.abs(np.sin(np.deg2rad(angle)))
         pre_comp_cos = np.abs(np.cos(np.deg2rad(angle)))
 
-        w = total_height / (aspect_ratio * pre_comp_sin + pre_comp_cos)
+        # Largest rectangle of the same aspect ratio that fits both into the rotated width and the rotated height
+        w = self.size.x / (max(aspect_ratio, 1 / aspect_ratio) * pre_comp_sin + pre_comp_cos)
         h = w * aspect_ratio
 
         ny, nx = rotated.shape
-- 
2.43.0


From f2d9bbc655899a93895bf65b0f2a4a6e2d1ef596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 14/70] fix: rotate preserves the stepsize

The stepsize was derived from rounded pixel counts and deviated by up to several
percent, with different values in x and y, so that lateral parameters depended
on the rotation.
---
 surfalize/surface.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 4eb2864..afc4eb9 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -645,10 +645,9 @@ class Surface(BaseTopography):
         xmax = int(nx - (nx - w)/2) - 1
         
         rotated_cropped = rotated[ymin:ymax+1, xmin:xmax+1]
-        width_um = (self.width_um * pre_comp_cos + self.height_um * pre_comp_sin) * w / nx
-        height_um = (self.width_um * pre_comp_sin + self.height_um * pre_comp_cos) * h / ny
-        step_y = height_um / rotated_cropped.shape[0]
-        step_x = width_um / rotated_cropped.shape[1]
+        # The rotation does not change the distance between neighbouring points
+        step_x = np.hypot(self.step_x * pre_comp_cos, self.step_y * pre_comp_sin)
+        step_y = np.hypot(self.step_x * pre_comp_sin, self.step_y * pre_comp_cos)
 
         if inplace:
             self._set_data(data=rotated_cropped, step_x=step_x, step_y=step_y)
-- 
2.43.0


From 84af3c5073bc0b866363ef19b47934c4ef794134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 15/70] fix: saving honours the format argument and ignores the
 case of the suffix

An explicitly given format was ignored when saving to a path, although it is
documented to override the suffix, and upper case suffixes were rejected.
---
 surfalize/file/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 575f38b..22ce825 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -507,12 +507,13 @@ class FileHandler:
                                          'magic.')
 
     def write(self, surface, encoding='utf-8', **kwargs):
-        if self.is_path_like():
-            suffix = self.file.suffix
-        else:
+        if self.format is not None:
             suffix = self.format
+        else:
+            suffix = self.file.suffix if self.is_path_like() else None
         if not suffix:
             raise ValueError('No format for the file specified.') from None
+        suffix = suffix.lower()
         if suffix not in self._writers:
             raise UnsupportedFileFormatError(
                 f"File format {suffix} is currently not supported for writing.") from None
-- 
2.43.0


From e08f73fa9a8fa3a523da56d1318de009ae2124c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 16/70] fix: the position of a buffer is restored when reading
 from it fails

A failed attempt left the buffer at an arbitrary position, so that the file magic
was compared against the wrong bytes and the readers probed afterwards, as well
as the caller, continued from there.
---
 surfalize/file/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 22ce825..a84658c 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -179,8 +179,10 @@ def open_file_like(file_or_path, mode='r'):
             yield f
     elif isinstance(file_or_path, io.IOBase):
         current_pos = file_or_path.tell()
-        yield file_or_path
-        file_or_path.seek(current_pos, 0)
+        try:
+            yield file_or_path
+        finally:
+            file_or_path.seek(current_pos, 0)
     else:
         raise TypeError("Expected a file path or file-like object")
 
-- 
2.43.0


From 878b296d12f69a38b18b058aa6b80f369777a54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 17/70] fix: compressed sur files can be read back

The size of the compressed data block was written as zero, so that the reader
rejected every file saved with compressed=True.
---
 surfalize/file/sur.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index f9117ea..e0472ab 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -435,6 +435,12 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
         'unit_step_t': ''
     }
 
+    if compressed:
+        uncompressed_data = data.tobytes()
+        compressed_data = zlib.compress(uncompressed_data)
+        # The size of the data block includes the directory count and the directory
+        header['compressed_data_size'] = 12 + len(compressed_data)
+
     LAYOUT_HEADER.write(filehandle, header, encoding=encoding)
     if comment:
         filehandle.write(comment)
@@ -442,8 +448,6 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
         write_array(data, filehandle)
         return
     else:
-        uncompressed_data = data.tobytes()
-        compressed_data = zlib.compress(uncompressed_data)
         # Write directory count = 1 and the length of a single data stream containing all the compressed data
         filehandle.write(struct.pack('<3I', 1, len(uncompressed_data), len(compressed_data)))
         filehandle.write(compressed_data)
-- 
2.43.0


From eff2f4e94110abc90acf4157bef5e0e5028cb75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 18/70] fix: constant surfaces with non-measured points can be
 saved as sur

The normalisation divided zero by zero, so that after loading the file all
points were non-measured.
---
 surfalize/file/sur.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index e0472ab..b1ae60a 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -366,7 +366,8 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
     INT_DATA_MAX = INT32_MAX - 1
     data_max = np.nanmax(surface.data)
     data_min = np.nanmin(surface.data)
-    data = ((surface.data - data_min) / (data_max - data_min)) * (INT_DATA_MAX - INT_DATA_MIN) + INT_DATA_MIN
+    # For constant data, the range is zero and all points map to the same value
+    data = ((surface.data - data_min) / ((data_max - data_min) or 1)) * (INT_DATA_MAX - INT_DATA_MIN) + INT_DATA_MIN
     if nm_points:
         data[np.isnan(data)] = INT_DATA_MIN - 2
     data = data.astype('int32')
-- 
2.43.0


From 9ebace29635fb40b3ec206881e3c765482352067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 19/70] fix: ascii sdf files can be read back

The line breaks of the header were written as the representation of a bytes
object, which merged all header fields into a single line.
---
 surfalize/file/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sdf.py b/surfalize/file/sdf.py
index bc34e9b..963620e 100644
--- a/surfalize/file/sdf.py
+++ b/surfalize/file/sdf.py
@@ -186,7 +186,7 @@ def write_sdf(filehandle, surface, encoding='utf-8', binary=True):
         CRLF = '\n'.encode('ascii')
         filehandle.write(MAGIC_ASCII + CRLF)
         for k, v in header.items():
-            filehandle.write(f'{k} = {v}{CRLF}'.encode('ascii'))
+            filehandle.write(f'{k} = {v}'.encode('ascii') + CRLF)
         filehandle.write('*'.encode('ascii') + CRLF)
         line_values = []
         for i, value in enumerate(data.flatten()):
-- 
2.43.0


From 7e9567d8e49b7628b4375c3f34e2419fba337bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 20/70] fix: sflz files with signed integer heights are scaled
 correctly on load

The lower bound of the datatype was added instead of subtracted, which shifted
all heights by the full range.
---
 surfalize/file/sflz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index d9fd329..bd7026b 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -86,7 +86,7 @@ def read_sflz(filehandle, encoding='utf-8', read_image_layers=True):
                 max_val = header['max_value']
                 dtype_min = np.iinfo(layer_header['datatype']).min
                 dtype_max = np.iinfo(layer_header['datatype']).max
-                height_data = (height_data.astype('float64') + dtype_min) / (dtype_max - dtype_min)
+                height_data = (height_data.astype('float64') - dtype_min) / (dtype_max - dtype_min)
                 height_data = height_data * (max_val - min_val) + min_val
         else:
             image_layers[layer_header['name']] = data
-- 
2.43.0


From a1d85f2e18f63c56b74827f3981ced8f8690e133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 21/70] fix: surfaces loaded from sflz files can be edited

Unscaled heights and image layers were read-only views of the file contents.
---
 surfalize/file/sflz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index bd7026b..7a50bab 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -74,7 +74,7 @@ def read_sflz(filehandle, encoding='utf-8', read_image_layers=True):
         layer_header = LAYOUT_LAYER_HEADER.read(filehandle)
         compressed_data = filehandle.read(layer_header['size'])
         data = decompress(compressed_data, compression_algorithm)
-        data = np.frombuffer(data, dtype=layer_header['datatype'])
+        data = np.frombuffer(data, dtype=layer_header['datatype']).copy()
         if layer_header['channels'] > 1:
             data = data.reshape(layer_header['height'], layer_header['width'], layer_header['channels'])
         else:
-- 
2.43.0


From 6af79abbae59f220bea47b946e0fed8fd20e0bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 22/70] fix: sflz files with non-ascii layer names can be read
 back

The length of the name was counted in characters instead of bytes.
---
 surfalize/file/sflz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index 7a50bab..626d596 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -144,7 +144,7 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
             data = compress(layer.data.tobytes(), compression)
 
             layer_header = {
-                'name_length': len(name),
+                'name_length': len(name.encode('utf-8')),
                 'name': name,
                 'width': layer.data.shape[1],
                 'height': layer.data.shape[0],
-- 
2.43.0


From aaa69c7478710112c29af74b0b07cf75134fdbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 23/70] fix: surfaces with non-measured points can be saved as
 sflz

---
 surfalize/file/sflz.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index 626d596..3713d87 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -108,6 +108,9 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
 
     dtype = np.dtype(dtype)
     data = surface.data
+    if dtype.kind in ['i', 'u'] and surface.has_missing_points:
+        # Integers cannot represent non-measured points
+        dtype = np.dtype('<f8')
     if dtype.kind in ['i', 'u']:
         # perform scaling
         min_val = data.min()
-- 
2.43.0


From 0c864270cdd06f27be44e10ec0d62f86476b97cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 24/70] fix: plux files without image layer can be read and
 their data can be edited

---
 surfalize/file/plux.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/plux.py b/surfalize/file/plux.py
index 590bd21..8c646ca 100644
--- a/surfalize/file/plux.py
+++ b/surfalize/file/plux.py
@@ -42,10 +42,10 @@ def read_plux(filehandle, read_image_layers=False, encoding='utf-8'):
     step_y = float(root.find('GENERAL/FOV_Y').text)
     size = shape_x * shape_y
 
-    data = np.frombuffer(data_raw, dtype=np.float32, count=size).reshape((shape_y, shape_x))
+    data = np.frombuffer(data_raw, dtype=np.float32, count=size).reshape((shape_y, shape_x)).copy()
     image_layers = {}
-    if read_image_layers:
-        img = np.frombuffer(img_raw, dtype=np.uint8).reshape((shape_y, shape_x, 3))
+    if read_image_layers and IMAGE_FILE_NAME in contents:
+        img = np.frombuffer(img_raw, dtype=np.uint8).reshape((shape_y, shape_x, 3)).copy()
         if np.all((img[:, :, 0] == img[:, :, 1]) & (img[:, :, 0] == img[:, :, 2])):
             image_layers['Grayscale'] = img[:, :, 0]
         else:
-- 
2.43.0


From 94a5989dfd1dba727f68c35b285ef86faa83c83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 25/70] fix: fits extensions filling complete blocks do not
 skip the following extension

---
 surfalize/file/fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 1159b58..4a62abb 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -92,7 +92,7 @@ def read_fits(filehandle, read_image_layers=False, encoding='utf-8'):
                               count=hdu_header['NAXIS1'] * hdu_header['NAXIS2']).reshape(hdu_header['NAXIS2'],
                                                                                           hdu_header['NAXIS1'])
             # Skip the remaining blocksize
-            filehandle.seek(BLOCKSIZE - (datasize % BLOCKSIZE), 1)
+            filehandle.seek(-datasize % BLOCKSIZE, 1)
             layers[hdu_header['EXTNAME']] = HeaderDataUnit(hdu_header, data)
 
         if filehandle.tell() >= filesize:
-- 
2.43.0


From 08ec2f60914453e00f5139b1c26185faff90d868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 26/70] fix: fits reader uses the unit of the y axis

---
 surfalize/file/fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 4a62abb..70fb389 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -109,7 +109,7 @@ def read_fits(filehandle, read_image_layers=False, encoding='utf-8'):
         mask = layers['MASK'].data.astype('bool')
         data[~mask] = np.nan
     x_factor = header['UnitMultiplicatorDeltas'] * get_unit_conversion(header['UNITX'], 'um')
-    y_factor = header['UnitMultiplicatorDeltas'] * get_unit_conversion(header['UNITX'], 'um')
+    y_factor = header['UnitMultiplicatorDeltas'] * get_unit_conversion(header.get('UNITY', header['UNITX']), 'um')
     z_factor = header['UnitMultiplicatorHeights'] * get_unit_conversion(header['UNITZ'], 'um')
     step_x = header['DELTAX'] * x_factor
     step_y = header['DELTAY'] * y_factor
-- 
2.43.0


From a87f8bc1f1d6e976cc21807ced80bde84f55fe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 27/70] fix: reading a truncated fits file does not hang

---
 surfalize/file/fits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 70fb389..1649745 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -1,6 +1,6 @@
 import numpy as np
 from .common import RawSurface, get_unit_conversion, FileHandler, read_array, decode
-from ..exceptions import FileFormatError, UnsupportedFileFormatError
+from ..exceptions import CorruptedFileError, FileFormatError, UnsupportedFileFormatError
 
 MAGIC = b'SIMPLE'
 BLOCKSIZE = 2880
@@ -58,6 +58,8 @@ def read_header(filehandle, encoding='auto'):
     header = dict()
     while not has_ended:
         block = filehandle.read(BLOCKSIZE)
+        if not block:
+            raise CorruptedFileError('The file ended before the end of the header.')
         partial_header, has_ended = parse_header_block(decode(block, encoding))
         header.update(partial_header)
     return header
-- 
2.43.0


From a2b1fd7124096e399c44b89334fb108b918a4b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 28/70] fix: xyz stepsize is the distance between neighbouring
 points

---
 surfalize/file/xyz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/xyz.py b/surfalize/file/xyz.py
index 51f795f..d20737e 100644
--- a/surfalize/file/xyz.py
+++ b/surfalize/file/xyz.py
@@ -18,8 +18,8 @@ def read_xyz(filehandle, read_image_layers=False, encoding='utf-8'):
     ny = y.size
     if nx * ny != raw_data.shape[0]:
         raise CorruptedFileError('Number of datapoints does not match expected size.')
-    step_x = (x.max() - x.min()) / (nx) * 10**6
-    step_y = (y.max() - y.min()) / (ny) * 10**6
+    step_x = (x.max() - x.min()) / max(nx - 1, 1) * 10**6
+    step_y = (y.max() - y.min()) / max(ny - 1, 1) * 10**6
     data = raw_data[:,2].copy().reshape(ny, nx) * 10**6
 
     return RawSurface(data, step_x, step_y)
\ No newline at end of file
-- 
2.43.0


From 13344e0f551b31433d5cf2f42a6f9e005e3dcc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 29/70] fix: os3d files without image can be read with image
 layers enabled

---
 surfalize/file/os3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/os3d.py b/surfalize/file/os3d.py
index 83d2983..d1d1aa7 100644
--- a/surfalize/file/os3d.py
+++ b/surfalize/file/os3d.py
@@ -42,7 +42,7 @@ def read_os3d(filehandle, read_image_layers=False, encoding='utf-8'):
     metadata = header
     metadata['timestamp'] = dateutil.parser.parse(header['chArrayMeasureDateTime'])
 
-    has_image = struct.unpack('b', filehandle.read(1))
+    has_image = struct.unpack('b', filehandle.read(1))[0]
     image_layers = {}
     if has_image and read_image_layers:
         img_data = io.BytesIO(filehandle.read())
-- 
2.43.0


From 524b0a0088d268bdfbcc69fe5400570431fcad75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 30/70] fix: nms image layers of non-square surfaces can be
 read

---
 surfalize/file/nms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/nms.py b/surfalize/file/nms.py
index 3e5a7ea..a822679 100644
--- a/surfalize/file/nms.py
+++ b/surfalize/file/nms.py
@@ -36,7 +36,7 @@ def read_nms(filehandle, read_image_layers=False, encoding='utf-8'):
     step_y = dy * 1e-3
     image_layers = {}
     if read_image_layers:
-        image_layers['Grayscale'] = read_array(filehandle, dtype=DTYPE_IMG, count=nx * ny).reshape(ny, ny)
+        image_layers['Grayscale'] = read_array(filehandle, dtype=DTYPE_IMG, count=nx * ny).reshape(ny, nx)
 
     metadata = dict(date=date)
 
-- 
2.43.0


From 0c86b7e2993f660888699a11048bd5e7e585470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 31/70] fix: ignored calculation errors in custom batch
 parameters do not abort the batch

---
 surfalize/batch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 288ad43..6fdecca 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -390,6 +390,7 @@ class _CustomParameter:
         except CalculationError as error:
             if not ignore_errors:
                 raise error
+            result = {}
         return result
 
 
-- 
2.43.0


From 2dc156e15cc690a1994b8d8368002728a3c71659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 32/70] fix: registering a custom batch parameter twice raises
 a BatchError

---
 surfalize/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 6fdecca..ba49ec3 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -760,7 +760,7 @@ class Batch:
         """
         if isinstance(step, (_Parameter, _CustomParameter)):
             if step.name in {s.name for s in self._steps if isinstance(s, (_Parameter, _CustomParameter))}:
-                raise BatchError(f'The parameter "{step.identifier}" is already registered. Consider giving it an '
+                raise BatchError(f'The parameter "{step.name}" is already registered. Consider giving it an '
                                  f'alternate name using the keyword argument "custom_name".')
         self._steps.append(step)
 
-- 
2.43.0


From a140b788dee4877e745de4404a24946c693b6dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 33/70] fix: the cli can convert a single file to formats other
 than sur

---
 surfalize/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/cli.py b/surfalize/cli.py
index 3b920a6..266531d 100644
--- a/surfalize/cli.py
+++ b/surfalize/cli.py
@@ -200,8 +200,8 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
     """
     Convert a file or all files in a directory to another format.
     """
-    if output_path.is_file():
-        format = output_path.suffix
+    if input_path.is_file() and output_path.suffix:
+        format = output_path.suffix.lower()
 
     if format != '.sur' and compressed:
         raise click.BadParameter(
-- 
2.43.0


From 907de3bd0faa8bc641c3806a624f0b65c160b54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 34/70] fix: modifying a returned angular power spectrum does
 not change the cached result

---
 surfalize/fourier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surfalize/fourier.py b/surfalize/fourier.py
index b86d2d2..3f6e742 100644
--- a/surfalize/fourier.py
+++ b/surfalize/fourier.py
@@ -166,7 +166,6 @@ class FourierTransform(CachedInstance):
         spectrum = np.bincount(bin_idx.ravel(), weights=weights.ravel(), minlength=angles.size)
         return angles, spectrum
 
-    @cache
     def angular_power_spectrum(self, angle_step=1):
         """
         Computes the angular power spectrum (angular power density fAPD) by integrating the squared amplitude of the
@@ -181,7 +180,9 @@ class FourierTransform(CachedInstance):
         -------
         (angles, spectrum) : tuple[ndarray, ndarray]
         """
-        return self._angular_spectrum(angle_step, squared=True)
+        # Copies are returned so that the cached arrays cannot be modified by the caller
+        angles, spectrum = self._angular_spectrum(angle_step, squared=True)
+        return angles.copy(), spectrum.copy()
 
     def Std(self, angle_step=0.5):
         """
-- 
2.43.0


From 749ba318445c57e1d98caaae1d3281717fff0c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 35/70] fix: depth does not sample profiles beyond the edge of
 the surface

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index afc4eb9..a5f43d1 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1570,11 +1570,11 @@ class Surface(BaseTopography):
             # Calculate the number of intervals per profile
             nintervals = int(self.width_um / periodx)
             period_px = periodx / self.step_x
-            profile_dist_px = int(size.y / (nprofiles-1))
+            profile_dist_px = int((size.y - 1) / (nprofiles-1))
         else:
             nintervals = int(self.height_um / periody)
             period_px = periody / self.step_y
-            profile_dist_px = int(size.x / (nprofiles-1))
+            profile_dist_px = int((size.x - 1) / (nprofiles-1))
 
         # Allocate depth array with twice the length of the number of periods to accommodate both peaks and valleys
         # multiplied by the number of sampled profiles
-- 
2.43.0


From 8eb94321b7bff23d28f5d1f8cb34a6039426a206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 36/70] fix: profiles outside of the surface are rejected

---
 surfalize/surface.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index a5f43d1..68d892d 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -380,8 +380,8 @@ class Surface(BaseTopography):
         -------
         profile : surfalize.Profile
         """
-        if y > self.height_um:
-            raise ValueError("y must not exceed height of surface.")
+        if not 0 <= y <= self.height_um:
+            raise ValueError("y must lie within the height of the surface.")
         
         if average_step is None:
             average_step_px = 1
@@ -421,8 +421,8 @@ class Surface(BaseTopography):
          -------
          profile : surfalize.Profile
          """
-        if x > self.width_um:
-            raise ValueError("x must not exceed height of surface.")
+        if not 0 <= x <= self.width_um:
+            raise ValueError("x must lie within the width of the surface.")
         
         if average_step is None:
             average_step_px = 1
-- 
2.43.0


From 8327d6578cacac3e295144e4d6fb072eba30e79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 37/70] fix: surface area of surfaces with different stepsizes
 in x and y

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 68d892d..8e8d47c 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1001,8 +1001,8 @@ class Surface(BaseTopography):
         dz_x = np.diff(self.data, axis=1)
 
         # Calculate cross products
-        cross_x = self.step_y * dz_y[:, :-1]
-        cross_y = self.step_x * dz_x[:-1, :]
+        cross_x = self.step_x * dz_y[:, :-1]
+        cross_y = self.step_y * dz_x[:-1, :]
         cross_z = self.step_x * self.step_y
 
         # Calculate areas using vectorized operations
-- 
2.43.0


From a3cbaf787aeea5138bb68a32ec6336d15f0429dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 38/70] fix: refined orientation of textures with equal periods
 in x and y

---
 surfalize/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 8e8d47c..d8b7d69 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1425,7 +1425,7 @@ class Surface(BaseTopography):
         # Compute the angle
         angle = np.rad2deg(np.arctan(d / dist_px))
         # If the texture is more aligned with the horizontal axis, we need to correct the angle
-        if period_x > period_y:
+        if not period_y > period_x:
             angle = np.copysign(90, angle) - angle
         return angle
 
-- 
2.43.0


From 11e4cbf8e45b104395c8a4e0095a78af981c5122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 39/70] fix: refined orientation of surfaces with different
 stepsizes in x and y

---
 surfalize/surface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index d8b7d69..b5591a6 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1393,11 +1393,13 @@ class Surface(BaseTopography):
             dist_px = max(1, int(period_px * SAMPLE_RATE_FACTOR))
             nprofiles = int(self.size.y / dist_px)
             get_profile = lambda idx: self.data[idx]
+            step_ratio = self.step_x / self.step_y
         else:
             period_px = int(period_y / self.step_y)
             dist_px = max(1, int(period_px * SAMPLE_RATE_FACTOR))
             nprofiles = int(self.size.x / dist_px)
             get_profile = lambda idx: self.data[:, idx]
+            step_ratio = self.step_y / self.step_x
 
         xfp = np.zeros(nprofiles)
         for i in range(nprofiles):
@@ -1423,7 +1425,7 @@ class Surface(BaseTopography):
         d = diff[diff_norm < THRESHOLD].mean()
 
         # Compute the angle
-        angle = np.rad2deg(np.arctan(d / dist_px))
+        angle = np.rad2deg(np.arctan(d / dist_px * step_ratio))
         # If the texture is more aligned with the horizontal axis, we need to correct the angle
         if not period_y > period_x:
             angle = np.copysign(90, angle) - angle
-- 
2.43.0


From e38b77607b417bff178806c3e642b05e7ced62b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 40/70] fix: sampling distance of the refined orientation for
 different stepsizes in x and y

---
 surfalize/surface.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index b5591a6..273ba47 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1390,16 +1390,16 @@ class Surface(BaseTopography):
         if period_y > period_x:
             # We sample at 0.25 * period because we need to at least obey the Nyquist theorem
             period_px = int(period_x / self.step_x)
-            dist_px = max(1, int(period_px * SAMPLE_RATE_FACTOR))
+            step_ratio = self.step_x / self.step_y
+            dist_px = max(1, int(period_px * SAMPLE_RATE_FACTOR * step_ratio))
             nprofiles = int(self.size.y / dist_px)
             get_profile = lambda idx: self.data[idx]
-            step_ratio = self.step_x / self.step_y
         else:
             period_px = int(period_y / self.step_y)
-            dist_px = max(1, int(period_px * SAMPLE_RATE_FACTOR))
+            step_ratio = self.step_y / self.step_x
+            dist_px = max(1, int(period_px * SAMPLE_RATE_FACTOR * step_ratio))
             nprofiles = int(self.size.x / dist_px)
             get_profile = lambda idx: self.data[:, idx]
-            step_ratio = self.step_y / self.step_x
 
         xfp = np.zeros(nprofiles)
         for i in range(nprofiles):
-- 
2.43.0


From 58c81402b3058ff8739bf66c02b76f357ae506d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 41/70] fix: refined orientation is not nan if no profile
 offset is close to the median

---
 surfalize/surface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 273ba47..57493e0 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1422,7 +1422,9 @@ class Surface(BaseTopography):
             diff_norm = diff_norm / diff_norm.max()
         # Here we remove all values that deviate more than 5% from the median slope
         THRESHOLD = 0.05
-        d = diff[diff_norm < THRESHOLD].mean()
+        is_inlier = diff_norm < THRESHOLD
+        # Without jumps, it is possible that no value lies this close to the median
+        d = diff[is_inlier].mean() if is_inlier.any() else np.median(diff)
 
         # Compute the angle
         angle = np.rad2deg(np.arctan(d / dist_px * step_ratio))
-- 
2.43.0


From ec50ea9edeeabe0d96bfad428f6fdd530dd1b5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 42/70] fix: otsu threshold separates the bins of the lower
 from those of the upper class

---
 surfalize/mathutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/mathutils.py b/surfalize/mathutils.py
index 63aed9f..95d4b0c 100644
--- a/surfalize/mathutils.py
+++ b/surfalize/mathutils.py
@@ -142,7 +142,8 @@ def otsu_threshold(values, nbins=256):
     # Between-class variance for a threshold placed between bin i and i+1
     variance12 = weight1[:-1] * weight2[1:] * (mean1[:-1] - mean2[1:]) ** 2
     idx = np.argmax(variance12)
-    return bin_centers[idx]
+    # All values of bin i belong to the lower class
+    return bin_edges[idx + 1]
 
 
 def argmax_all(arr):
-- 
2.43.0


From ec0ddd83b19b2686cb2e9a95da707480e085454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 43/70] fix: depth can be computed from a single profile

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 57493e0..72a7979 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1574,11 +1574,11 @@ class Surface(BaseTopography):
             # Calculate the number of intervals per profile
             nintervals = int(self.width_um / periodx)
             period_px = periodx / self.step_x
-            profile_dist_px = int((size.y - 1) / (nprofiles-1))
+            profile_dist_px = int((size.y - 1) / max(nprofiles - 1, 1))
         else:
             nintervals = int(self.height_um / periody)
             period_px = periody / self.step_y
-            profile_dist_px = int((size.x - 1) / (nprofiles-1))
+            profile_dist_px = int((size.x - 1) / max(nprofiles - 1, 1))
 
         # Allocate depth array with twice the length of the number of periods to accommodate both peaks and valleys
         # multiplied by the number of sampled profiles
-- 
2.43.0


From 747a43dc4e8ad417755fe013d0a82728ca542f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 44/70] fix: sinusoid fits start from the phase of the profile

---
 surfalize/mathutils.py | 21 +++++++++++++++++++++
 surfalize/surface.py   |  8 +++++---
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/surfalize/mathutils.py b/surfalize/mathutils.py
index 95d4b0c..a8f7dae 100644
--- a/surfalize/mathutils.py
+++ b/surfalize/mathutils.py
@@ -231,6 +231,27 @@ def _sinusoid(x, a, p, x0, y0):
     return a * np.sin((x - x0) / p * 2 * np.pi) + y0
 
 
+def estimate_sinusoid_offset(ydata, period):
+    """
+    Estimates the lateral offset of a sinusoid with positive amplitude and known period from uniformly spaced data
+    (with a spacing of 1) by projection of the data onto the complex exponential of the same period.
+
+    Parameters
+    ----------
+    ydata : list-like
+        array of ydata.
+    period : float
+        period of the sinusoid in units of the data points.
+
+    Returns
+    -------
+    x0 : float
+    """
+    ydata = np.asarray(ydata)
+    projection = np.sum((ydata - np.mean(ydata)) * np.exp(-2j * np.pi * np.arange(ydata.size) / period))
+    return -np.angle(1j * projection) / (2 * np.pi) * period
+
+
 class Sinusoid:
     """
     Generic sinusoid representation.
diff --git a/surfalize/surface.py b/surfalize/surface.py
index 72a7979..06185db 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -20,7 +20,7 @@ import scipy.ndimage as ndimage
 from .file import FileHandler
 from .utils import approximately_equal
 from .cache import cache
-from .mathutils import Sinusoid, trapezoid, otsu_threshold
+from .mathutils import Sinusoid, estimate_sinusoid_offset, trapezoid, otsu_threshold
 from .autocorrelation import AutocorrelationFunction
 from .fourier import FourierTransform
 from .base import BaseTopography, batch_method, no_nonmeasured_points
@@ -1405,7 +1405,8 @@ class Surface(BaseTopography):
         for i in range(nprofiles):
             profile = get_profile(i * dist_px)
             # We make an initial guess for the fit
-            p0 = ((profile.max() - profile.min()) / 2, period_px, 0, profile.mean())
+            x0 = estimate_sinusoid_offset(profile, period_px)
+            p0 = ((profile.max() - profile.min()) / 2, period_px, x0, profile.mean())
             sinusoid = Sinusoid.from_fit(np.arange(profile.size), profile, p0=p0)
             # This computes the position of the first peak of the sinusoid
             xfp[i] = sinusoid.first_extremum()
@@ -1592,7 +1593,8 @@ class Surface(BaseTopography):
                 line = self.data[:, profile_dist_px * i]
             xp = np.arange(line.size)
             # Define initial guess for fit parameters
-            p0=((line.max() - line.min())/2, period_px, 0, line.mean())
+            x0 = estimate_sinusoid_offset(line, period_px)
+            p0=((line.max() - line.min())/2, period_px, x0, line.mean())
             # Fit the data to the general sine function
             sinusoid = Sinusoid.from_fit(xp, line, p0=p0)
             first_extremum = sinusoid.first_extremum()
-- 
2.43.0


From db2785bf9b8dd36255eb1ed10241206c67b54bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 45/70] fix: reduced heights are zero instead of nan if nothing
 protrudes from the core

---
 surfalize/abbottfirestone.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/surfalize/abbottfirestone.py b/surfalize/abbottfirestone.py
index f42f318..3029de5 100644
--- a/surfalize/abbottfirestone.py
+++ b/surfalize/abbottfirestone.py
@@ -201,6 +201,9 @@ class AbbottFirestoneCurve(CachedInstance):
         # Area enclosed above yupper between y-axis (at x=0) and abbott-firestone curve
         idx = argclosest(self._yupper, self._height)
         A1 = np.abs(trapezoid(self._material_ratio[:idx], x=self._height[:idx]))
+        # If no peaks protrude from the core, there is no area to be reduced to a triangle
+        if self.mr1() == 0:
+            return 0.0
         pk = 2 * A1 / self.mr1()
         return pk
 
@@ -216,6 +219,9 @@ class AbbottFirestoneCurve(CachedInstance):
         # Area enclosed below ylower between y-axis (at x=100) and abbott-firestone curve
         idx = argclosest(self._ylower, self._height)
         A2 = np.abs(trapezoid(100 - self._material_ratio[idx:], x=self._height[idx:]))
+        # If no dales protrude from the core, there is no area to be reduced to a triangle
+        if self.mr2() == 100:
+            return 0.0
         vk = 2 * A2 / (100 - self.mr2())
         return vk
 
-- 
2.43.0


From e5a644bd66630e92d5c28e5dbe203c1d4f81b2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:51 +0000
Subject: [PATCH 46/70] fix: Rp and Rv add up to Rz for profiles with sections
 above the mean line

---
 surfalize/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index fc62f5a..23ea306 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -368,7 +368,7 @@ class Profile(BaseTopography):
         -------
         Rv : float
         """
-        return np.mean([np.abs(section.min()) for section in self._sectioned_data(n_sections)])
+        return np.mean([-section.min() for section in self._sectioned_data(n_sections)])
 
     @cache
     @no_nonmeasured_points
-- 
2.43.0


From 4b119dec6796ab24ff4ba25bf69f6501825a817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:45 +0000
Subject: [PATCH 47/70] fix: cropped fourier plots are symmetric for odd
 numbers of points

---
 surfalize/fourier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surfalize/fourier.py b/surfalize/fourier.py
index 3f6e742..b477cfd 100644
--- a/surfalize/fourier.py
+++ b/surfalize/fourier.py
@@ -269,12 +269,13 @@ class FourierTransform(CachedInstance):
 
         if fxmax is not None:
             ixmax = argclosest(fxmax, freq_x)
-            ixmin = M - ixmax
+            # Index of the negative frequency: the zero frequency is located at index M // 2
+            ixmin = max(2 * (M // 2) - ixmax, 0)
             fft = fft[:, ixmin:ixmax + 1]
 
         if fymax is not None:
             iymax = argclosest(fymax, freq_y)
-            iymin = N - iymax
+            iymin = max(2 * (N // 2) - iymax, 0)
             fft = fft[iymin:iymax + 1]
 
         vmin = None
-- 
2.43.0


From c2667330f7c41770aa91b44768e7535e230139f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 48/70] fix: fourier plots with an empty adjusted colour range
 can be drawn

---
 surfalize/fourier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/surfalize/fourier.py b/surfalize/fourier.py
index b477cfd..f96f1e6 100644
--- a/surfalize/fourier.py
+++ b/surfalize/fourier.py
@@ -283,6 +283,9 @@ class FourierTransform(CachedInstance):
         if adjust_colormap:
             vmin = fft.mean()
             vmax = 0.7 * fft.max()
+            # The range is empty if the mean exceeds 0.7 times the maximum (always the case for negative logarithms)
+            if vmin >= vmax:
+                vmin = vmax = None
 
         ax.set_xlabel('Frequency [µm$^{-1}$]')
         ax.set_ylabel('Frequency [µm$^{-1}$]')
-- 
2.43.0


From 63226564fc8a16d1471ff2f677204db3d8cf09aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:37 +0000
Subject: [PATCH 49/70] fix: surfaces with single precision heights can be
 saved as sur

---
 surfalize/file/sur.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index b1ae60a..875774f 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -364,10 +364,12 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
 
     INT_DATA_MIN = INT32_MIN + 2
     INT_DATA_MAX = INT32_MAX - 1
-    data_max = np.nanmax(surface.data)
-    data_min = np.nanmin(surface.data)
+    # The range of the integers exceeds the precision of smaller floating point types
+    heights = surface.data.astype('float64')
+    data_max = np.nanmax(heights)
+    data_min = np.nanmin(heights)
     # For constant data, the range is zero and all points map to the same value
-    data = ((surface.data - data_min) / ((data_max - data_min) or 1)) * (INT_DATA_MAX - INT_DATA_MIN) + INT_DATA_MIN
+    data = ((heights - data_min) / ((data_max - data_min) or 1)) * (INT_DATA_MAX - INT_DATA_MIN) + INT_DATA_MIN
     if nm_points:
         data[np.isnan(data)] = INT_DATA_MIN - 2
     data = data.astype('int32')
-- 
2.43.0


From 446a646a54002ad9ba7acf094e68adf2df2d9cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:22 +0000
Subject: [PATCH 50/70] fix: surfaces with single precision heights can be
 saved as sflz

---
 surfalize/file/sflz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index 3713d87..7073b0c 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -113,6 +113,8 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
         dtype = np.dtype('<f8')
     if dtype.kind in ['i', 'u']:
         # perform scaling
+        # The range of the integers exceeds the precision of smaller floating point types
+        data = data.astype('float64')
         min_val = data.min()
         max_val = data.max()
         header['scaled'] = True
-- 
2.43.0


From c1d8109bc4a6e3386b77634e7c1ecec0efb12dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:00 +0000
Subject: [PATCH 51/70] fix: sflz files with 64 bit integers do not overflow at
 the maximum

---
 surfalize/file/sflz.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index 7073b0c..d3ae215 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -124,6 +124,9 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
         dtype_max = np.iinfo(dtype).max
         data_norm = (data - min_val) / (max_val - min_val)
         data = data_norm * (dtype_max - dtype_min) + dtype_min
+        if float(dtype_max) > dtype_max:
+            # The maximum of 64 bit integers is rounded up and would overflow
+            data = np.minimum(data, np.nextafter(float(dtype_max), 0))
     else:
         header['scaled'] = False
         header['min_value'] = 0
-- 
2.43.0


From b4ac1d0ac7a548d1e1792367845911554582c5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:39 +0000
Subject: [PATCH 52/70] fix: tmd files with non-ascii comments can be read back

---
 surfalize/file/tmd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/tmd.py b/surfalize/file/tmd.py
index 731535e..8154fe9 100644
--- a/surfalize/file/tmd.py
+++ b/surfalize/file/tmd.py
@@ -36,11 +36,13 @@ def read_tmd(filehandle, read_image_layers=False, encoding='utf-8'):
 
 @FileHandler.register_writer(suffix='.tmd')
 def write_tmd(filehandle, surface, encoding='utf-8', comment='Exported by surfalize'):
-    if len(comment) > COMMENT_LEN:
+    # The length is limited by the number of bytes, which exceeds the number of characters for non-ascii characters
+    comment_size = len(comment.encode('utf-8'))
+    if comment_size > COMMENT_LEN:
         raise ValueError(f'Comment has too many characters. Maximum number allows is {COMMENT_LEN}')
     header = {
         'header': decode(MAGIC, encoding) + LINE_TERMINATION,
-        'comment': comment + ' ' * (COMMENT_LEN - len(comment)) + LINE_TERMINATION,
+        'comment': comment + ' ' * (COMMENT_LEN - comment_size) + LINE_TERMINATION,
         'width': surface.size.x,
         'height': surface.size.y,
         'length_x': surface.size.x * surface.step_x,
-- 
2.43.0


From eba77f2a674867463ce9d7b57156392d0f225d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 53/70] fix: metadata in the trailer of ascii sdf files is read

---
 surfalize/file/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sdf.py b/surfalize/file/sdf.py
index 963620e..e1b9cbe 100644
--- a/surfalize/file/sdf.py
+++ b/surfalize/file/sdf.py
@@ -91,7 +91,7 @@ def read_ascii_sdf(filehandle, encoding="utf-8"):
     # If we want to parse this as xml, we need to clean it up first with a regex anyway, so we may as well use it
     # to parse it, even though it is an evil thing to do
     pattern = r'< ?\b(\w+)\b ?>(.*)< ?/ ?\b\1\b ?>'
-    metadata.update({k: v.strip() for k, v in re.findall(pattern, data_section)})
+    metadata.update({k: v.strip() for k, v in re.findall(pattern, trailer_section)})
 
     return RawSurface(data, step_x, step_y, metadata=metadata, image_layers=None)
 
-- 
2.43.0


From 19f5fe1937134857676617df3de5239c79d9ba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:36 +0000
Subject: [PATCH 54/70] fix: the offset of sur files is converted from the unit
 of the axis

---
 surfalize/file/sur.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index 875774f..e35e8b4 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -317,7 +317,10 @@ def get_surface(sur_obj):
     if sur_obj.header['non_measured_points'] == 1:
         data[nan_mask] = np.nan
 
-    data += sur_obj.header['offset_z']
+    # The offset is given in the unit of the axis
+    if sur_obj.header['offset_z'] != 0:
+        unit_offset = sur_obj.header['unit_z'] or sur_obj.header['unit_step_z']
+        data += sur_obj.header['offset_z'] * get_unit_conversion(unit_offset, 'um')
 
     # This can be implemented in the future when metadata support is needed
     # timestamp = datetime.datetime(year=header['year'], month=header['month'], day=header['day'])
-- 
2.43.0


From 36b1346574514afacfed1fff908d4f56d776b253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:23 +0000
Subject: [PATCH 55/70] fix: heights of nms files lie between the limits stated
 in the file

---
 surfalize/file/nms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/nms.py b/surfalize/file/nms.py
index a822679..588bb38 100644
--- a/surfalize/file/nms.py
+++ b/surfalize/file/nms.py
@@ -28,7 +28,7 @@ def read_nms(filehandle, read_image_layers=False, encoding='utf-8'):
 
     data = read_array(filehandle, dtype=DTYPE_HEIGHT, count=nx * ny)
     #nonmeasured_points_mask = (data == 0)
-    data = data / (2 ** 16 - 2) * (zmax - zmin) + zmax
+    data = data / (2 ** 16 - 2) * (zmax - zmin) + zmin
     #data[nonmeasured_points_mask] = np.nan
     data = data.reshape(ny, nx)
 
-- 
2.43.0


From 69f4f96d2590988fde28e6119f08882a54dcaa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:52 +0000
Subject: [PATCH 56/70] fix: x3p heights of integer data types are multiplied
 by the increment

---
 surfalize/file/x3p.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/x3p.py b/surfalize/file/x3p.py
index 4dcb6e0..20d20b3 100644
--- a/surfalize/file/x3p.py
+++ b/surfalize/file/x3p.py
@@ -87,8 +87,14 @@ def read_x3p(filehandle, read_image_layers=False, encoding='utf-8'):
         if bin_path is None:
             raise CorruptedFileError('Binary file containing topographical data not found.') from None
 
+        # Heights of integer data types are stated in multiples of the increment
+        increment_z = cz.find('Increment')
+        scale_z = CONVERSION_FACTOR
+        if cz.find("DataType").text in ('I', 'L') and increment_z is not None and increment_z.text:
+            scale_z = float(increment_z.text) * CONVERSION_FACTOR
+
         with archive.open(bin_path, 'r') as data_file:
-            data = read_array(data_file, dtype=dtype).reshape(ny, nx) * CONVERSION_FACTOR
+            data = read_array(data_file, dtype=dtype).reshape(ny, nx) * scale_z
 
         metadata = {}
         if record2 is not None:
-- 
2.43.0


From 432575251b76d2b383a617b548082defb22de70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:08 +0000
Subject: [PATCH 57/70] fix: x3p integer data types are signed

---
 surfalize/file/x3p.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/x3p.py b/surfalize/file/x3p.py
index 20d20b3..225231b 100644
--- a/surfalize/file/x3p.py
+++ b/surfalize/file/x3p.py
@@ -12,8 +12,8 @@ CONVERSION_FACTOR = get_unit_conversion(UNIT, 'um')
 MAGIC = b'PK\x03\x04\x14'
 
 DTYPE_MAP = {
-    "I": "<u2",
-    "L": "<u4",
+    "I": "<i2",
+    "L": "<i4",
     "F": "f4",
     "D": "f8",
 }
-- 
2.43.0


From 6d6ca269a9b7a4ae42185e416fbd0fdc676a99f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:24 +0000
Subject: [PATCH 58/70] fix: reading a truncated gwy file does not hang

---
 surfalize/file/gwy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/gwy.py b/surfalize/file/gwy.py
index b68caab..21975a6 100644
--- a/surfalize/file/gwy.py
+++ b/surfalize/file/gwy.py
@@ -3,7 +3,7 @@ import struct
 import numpy as np
 
 from .common import get_unit_conversion, RawSurface, UNIT_EXPONENT, FileHandler, read_array, decode
-from ..exceptions import FileFormatError, UnsupportedFileFormatError
+from ..exceptions import CorruptedFileError, FileFormatError, UnsupportedFileFormatError
 
 MAGIC = b'GWYP'
 # This is not specified by the file standard but we nonetheless assume that the name will never be longer than that
@@ -29,6 +29,8 @@ def read_null_terminated_string(filehandle, maxsize=STR_MAX_SIZE, encoding='auto
     i = 0
     while i < maxsize:
         char = filehandle.read(1)
+        if not char:
+            raise CorruptedFileError('Unexpected end of file while reading a string.')
         if char == b'\x00':
             break
         string += char
-- 
2.43.0


From a1101825316eb33cd9801a72ee17f2381fdc057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:19 +0000
Subject: [PATCH 59/70] =?UTF-8?q?fix:=20misdecoded=20spellings=20of=20?=
 =?UTF-8?q?=C2=B5m=20are=20recognised=20again?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 surfalize/file/common.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index a84658c..845070a 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -111,6 +111,28 @@ def _sanitize_mu(string):
     return string
 
 
+def _sanitize_unit(unit):
+    """
+    Normalizes the spelling of a unit. Incorrect decodings of the 'µ' symbol are looked up in the original spelling of
+    the unit, since replacing unicode versions of 'µ' or converting the case would alter them.
+
+    Parameters
+    ----------
+    unit : str
+        Input unit string.
+
+    Returns
+    -------
+    str
+    """
+    sanitized = _sanitize_mu(unit).lower()
+    if sanitized not in UNIT_EXPONENT:
+        sanitized = fix_decoding_issues(sanitized)
+    if sanitized not in UNIT_EXPONENT and fix_decoding_issues(unit) in UNIT_EXPONENT:
+        sanitized = fix_decoding_issues(unit)
+    return sanitized
+
+
 def get_unit_conversion(from_unit, to_unit):
     """
     Calculates unit conversion factor.
@@ -127,13 +149,8 @@ def get_unit_conversion(from_unit, to_unit):
     factor : float
         Factor by which to multiply the original values.
     """
-    from_unit = _sanitize_mu(from_unit)
-    from_unit = from_unit.lower()
-    to_unit = to_unit.lower()
-    if from_unit not in UNIT_EXPONENT:
-        from_unit = fix_decoding_issues(from_unit)
-    if to_unit not in UNIT_EXPONENT:
-        to_unit = fix_decoding_issues(to_unit)
+    from_unit = _sanitize_unit(from_unit)
+    to_unit = _sanitize_unit(to_unit)
     if from_unit not in UNIT_EXPONENT:
         raise ValueError(f'Unit {from_unit} does not exist.')
     if to_unit not in UNIT_EXPONENT:
-- 
2.43.0


From d58e5600f8a4b872710e546559fffa369f5e7c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:41 +0000
Subject: [PATCH 60/70] fix: text between the expressions of a filename
 template is matched literally

---
 surfalize/batch.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index ba49ec3..8175a97 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -1,4 +1,5 @@
 import inspect
+import re
 import io
 from multiprocessing.pool import ThreadPool
 from functools import partial
@@ -136,7 +137,7 @@ class FilenameParser:
         """
         patterns = []
         for token in tokens:
-            s = token.prefix
+            s = re.escape(token.prefix)
             s += f'(?P<{token.name}>'
             try:
                 s += self.TYPES[token.dtype]
@@ -144,12 +145,12 @@ class FilenameParser:
                 raise ParsingError(f'The datatype {token.dtype} is invalid. '
                                    f'Possible datatypes are "int", "float", "str"') from None
             s += ')'
-            s += token.suffix
+            s += re.escape(token.suffix)
             patterns.append(s)
         regex = ''
         for pattern, separator in zip(patterns, separators):
-            regex += separator + pattern
-        regex += separators[-1]
+            regex += re.escape(separator) + pattern
+        regex += re.escape(separators[-1])
         return regex
 
     def extract_from(self, df, column):
-- 
2.43.0


From 7b77c8a7e01996f8d2e0477187a3f2814e4c715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:46 +0000
Subject: [PATCH 61/70] fix: read fits extension headers that span several
 blocks

---
 surfalize/file/fits.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 1649745..6833580 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -87,6 +87,13 @@ def read_fits(filehandle, read_image_layers=False, encoding='utf-8'):
         block = filehandle.read(BLOCKSIZE)
         if block.startswith(b'XTENSION'):
             hdu_header, has_ended = parse_header_block(decode(block, encoding))
+            # The header of an extension can span several blocks
+            while not has_ended:
+                block = filehandle.read(BLOCKSIZE)
+                if not block:
+                    raise CorruptedFileError('The file ended before the end of the header.')
+                partial_header, has_ended = parse_header_block(decode(block, encoding))
+                hdu_header.update(partial_header)
             if hdu_header['NAXIS'] != 2:
                 raise UnsupportedFileFormatError("Array with number of dimensions not equal to 2 detected.")
             datasize = hdu_header['NAXIS1'] * hdu_header['NAXIS2'] * int(abs(hdu_header['BITPIX'] / 8))
-- 
2.43.0


From 1e9bfd013c9644dec62f290b8e96673dd4c39d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:23 +0000
Subject: [PATCH 62/70] fix: read fits headers with history cards and with
 separators inside of strings

---
 surfalize/file/fits.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 6833580..5a51e2d 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -1,3 +1,4 @@
+import re
 import numpy as np
 from .common import RawSurface, get_unit_conversion, FileHandler, read_array, decode
 from ..exceptions import CorruptedFileError, FileFormatError, UnsupportedFileFormatError
@@ -37,19 +38,23 @@ def parse_header_block(block):
     header = dict()
     block_ended = False
     for line in lines:
-        if not line or line.startswith('COMMENT'):
-            continue
         if line == 'END':
             block_ended = True
             break
-        if '/' in line:
-            line = line.split('/')[0]
-        left, right = line.split('=')
+        # Commentary cards hold no value
+        if '=' not in line or line.startswith(('COMMENT', 'HISTORY')):
+            continue
+        left, right = line.split('=', 1)
         left = left.strip()
         right = right.strip()
         if left.startswith('HIERARCH'):
             left = left.replace('HIERARCH ', '')
-        header[left] = convert_dtype(right)
+        # Strings are enclosed in quotes and may contain the separator of the comment
+        string = re.match(r"'((?:[^']|'')*)'", right)
+        if string:
+            header[left] = string.group(1).replace("''", "'").strip()
+        else:
+            header[left] = convert_dtype(right.split('/')[0].strip())
     return header, block_ended
 
 
-- 
2.43.0


From 5bba858ba1a12ad636bd7cf78129092844d904fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:32 +0000
Subject: [PATCH 63/70] fix: apply the scaling and the blank value stated in
 fits extensions

---
 surfalize/file/fits.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 5a51e2d..ee6268b 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -76,6 +76,15 @@ def get_file_size(filehandle):
     filehandle.seek(current_position, 0)  # Restore original position
     return size
 
+def scale_data(header, data):
+    # The stored numbers can be scaled, which is also how unsigned integers are represented
+    scale, zero = header.get('BSCALE', 1), header.get('BZERO', 0)
+    if scale == 1 and zero == 0:
+        return data
+    if scale == 1 and data.dtype.kind in 'iu' and int(zero) == zero:
+        return data.astype('int64') + int(zero)
+    return data.astype('float64') * scale + zero
+
 @FileHandler.register_reader(suffix=('.fits', '.fit', '.fts'), magic=MAGIC)
 def read_fits(filehandle, read_image_layers=False, encoding='utf-8'):
     filesize = get_file_size(filehandle)
@@ -118,7 +127,10 @@ def read_fits(filehandle, read_image_layers=False, encoding='utf-8'):
     if not 'HEIGHTS' in layers:
         raise FileFormatError("No height layer found!")
 
-    data = layers['HEIGHTS'].data.astype('float64')
+    heights = layers['HEIGHTS']
+    data = scale_data(heights.header, heights.data).astype('float64')
+    if 'BLANK' in heights.header:
+        data[heights.data == heights.header['BLANK']] = np.nan
     if 'MASK' in layers:
         mask = layers['MASK'].data.astype('bool')
         data[~mask] = np.nan
@@ -132,7 +144,7 @@ def read_fits(filehandle, read_image_layers=False, encoding='utf-8'):
     if read_image_layers:
         for k, v in layers.items():
             if k not in ['HEIGHTS', 'MASK']:
-                image_layers[k.capitalize()] = v.data
+                image_layers[k.capitalize()] = scale_data(v.header, v.data)
 
     return RawSurface(data, step_x, step_y, metadata=metadata, image_layers=image_layers)
 
-- 
2.43.0


From 120083f8f1aad2a39e392b3d29083f458eb7c773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:11 +0000
Subject: [PATCH 64/70] fix: place the points of xyz files by their coordinates

---
 surfalize/file/xyz.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/xyz.py b/surfalize/file/xyz.py
index d20737e..76aa171 100644
--- a/surfalize/file/xyz.py
+++ b/surfalize/file/xyz.py
@@ -12,14 +12,20 @@ def read_xyz(filehandle, read_image_layers=False, encoding='utf-8'):
         raise UnsupportedFileFormatError('The xyz file contains binary data. Only ASCII xyz files are supported.')
     except ValueError:
         raise UnsupportedFileFormatError('The xyz file format type is not supported.')
-    x = np.unique(raw_data[:,0])
-    y = np.unique(raw_data[:,1])
+    x, idx_x = np.unique(raw_data[:,0], return_inverse=True)
+    y, idx_y = np.unique(raw_data[:,1], return_inverse=True)
     nx = x.size
     ny = y.size
     if nx * ny != raw_data.shape[0]:
         raise CorruptedFileError('Number of datapoints does not match expected size.')
     step_x = (x.max() - x.min()) / max(nx - 1, 1) * 10**6
     step_y = (y.max() - y.min()) / max(ny - 1, 1) * 10**6
-    data = raw_data[:,2].copy().reshape(ny, nx) * 10**6
+    # The points may be listed row by row or column by column, the first one is in the first row and column
+    if idx_x[0] > idx_x[-1]:
+        idx_x = nx - 1 - idx_x
+    if idx_y[0] > idx_y[-1]:
+        idx_y = ny - 1 - idx_y
+    data = np.full((ny, nx), np.nan)
+    data[idx_y, idx_x] = raw_data[:,2] * 10**6
 
     return RawSurface(data, step_x, step_y)
\ No newline at end of file
-- 
2.43.0


From 8c04d007f4bf4cea28f39f500d762a9faa38e2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:53 +0000
Subject: [PATCH 65/70] fix: let surfaces be pickled after their material ratio
 curve was evaluated

---
 surfalize/mathutils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/surfalize/mathutils.py b/surfalize/mathutils.py
index a8f7dae..788108e 100644
--- a/surfalize/mathutils.py
+++ b/surfalize/mathutils.py
@@ -1,3 +1,5 @@
+from functools import partial
+
 import numpy as np
 from scipy.optimize import curve_fit
 from scipy.signal import find_peaks
@@ -66,11 +68,8 @@ def interp1d(xdata, ydata, assume_sorted=False):
         xdata = xdata[idx_sorted]
         ydata = ydata[idx_sorted]
 
-    @np.vectorize
-    def y(x):
-        return np.interp(x, xdata, ydata)
-
-    return y
+    # A partial of a module level function can be pickled, contrary to a local function
+    return np.vectorize(partial(np.interp, xp=xdata, fp=ydata))
 
 
 def argclosest(x, xdata):
-- 
2.43.0


From daac9713e6b7518f1d8807767af88111195ec017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:50 +0000
Subject: [PATCH 66/70] fix: refuse xyz files that list a point of the grid
 twice and another not at all

---
 surfalize/file/xyz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/xyz.py b/surfalize/file/xyz.py
index 76aa171..67a741f 100644
--- a/surfalize/file/xyz.py
+++ b/surfalize/file/xyz.py
@@ -16,7 +16,7 @@ def read_xyz(filehandle, read_image_layers=False, encoding='utf-8'):
     y, idx_y = np.unique(raw_data[:,1], return_inverse=True)
     nx = x.size
     ny = y.size
-    if nx * ny != raw_data.shape[0]:
+    if nx * ny != raw_data.shape[0] or np.unique(idx_y * nx + idx_x).size != nx * ny:
         raise CorruptedFileError('Number of datapoints does not match expected size.')
     step_x = (x.max() - x.min()) / max(nx - 1, 1) * 10**6
     step_y = (y.max() - y.min()) / max(ny - 1, 1) * 10**6
-- 
2.43.0


From 9e286a1b9d24db1ff61c51827f1f530926319092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:12 +0000
Subject: [PATCH 67/70] fix: let results of a batch be copied and pickled

---
 surfalize/batch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 8175a97..e71d36c 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -227,6 +227,9 @@ class BatchResult:
     def __getattr__(self, attr):
         if attr in self.__dict__:
             return getattr(self, attr)
+        # Not delegated: the dataframe itself, which does not exist yet while copying or unpickling, and its copy
+        if attr in ('_BatchResult__df', '__deepcopy__'):
+            raise AttributeError(attr)
         return getattr(self.__df, attr)
 
     def __getitem__(self, item):
-- 
2.43.0


From 0be43514b5e94aee98b6a1142e43e355a4b648be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:12 +0000
Subject: [PATCH 68/70] fix: period of profiles with small heights is found

---
 surfalize/mathutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/mathutils.py b/surfalize/mathutils.py
index 788108e..4ddff42 100644
--- a/surfalize/mathutils.py
+++ b/surfalize/mathutils.py
@@ -197,7 +197,7 @@ def get_period_fft_1d(xdata, ydata):
     """
     fft = np.abs(np.fft.fft(ydata))
     freq = np.fft.fftfreq(len(ydata), d=xdata[1] - xdata[0])
-    peaks, properties = find_peaks(fft.flatten(), distance=10, prominence=10)
+    peaks, properties = find_peaks(fft.flatten(), distance=10, prominence=0)
     # Find the prominence of the peaks
     prominences = properties['prominences']
     # Sort in descending order by computing sorting indices
-- 
2.43.0


From 3ccc62f40368fc951808dcd8c125fd6bf123bef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:00 +0000
Subject: [PATCH 69/70] fix: homogeneity does not depend on the magnitude of
 the parameters

---
 surfalize/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 06185db..8696d11 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1523,7 +1523,7 @@ class Surface(BaseTopography):
                 for k, parameter in enumerate(parameters):
                     results[k, idx] = getattr(cell_surface, parameter)()
 
-        results = np.sort(results.round(8), axis=1)
+        results = np.sort(results, axis=1)
         h = []
         for i in range(len(parameters)):
             lorenz = np.zeros(ncells + 1)
-- 
2.43.0


From 2c285f8b0ed0637b4708b8cd98d437ab6ff599f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:44:54 +0000
Subject: [PATCH 70/70] fix: the refined orientation starts from the exact
 period

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 8696d11..adaa3d9 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1389,13 +1389,13 @@ class Surface(BaseTopography):
 
         if period_y > period_x:
             # We sample at 0.25 * period because we need to at least obey the Nyquist theorem
-            period_px = int(period_x / self.step_x)
+            period_px = period_x / self.step_x
             step_ratio = self.step_x / self.step_y
             dist_px = max(1, int(period_px * SAMPLE_RATE_FACTOR * step_ratio))
             nprofiles = int(self.size.y / dist_px)
             get_profile = lambda idx: self.data[idx]
         else:
-            period_px = int(period_y / self.step_y)
+            period_px = period_y / self.step_y
             step_ratio = self.step_y / self.step_x
             dist_px = max(1, int(period_px * SAMPLE_RATE_FACTOR * step_ratio))
             nprofiles = int(self.size.x / dist_px)
-- 
2.43.0

