From 21c1e2e9d056b987b9c590a4a297648e7936531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 01/62] fix: imageFromCamera changed the caller's points and
 misplaced points beside panoramic cameras

---
 cameratransform/projection.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 67c3425..af71274 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -395,7 +395,8 @@ class RectilinearProjection(CameraProjection):
             x_im = f_x * --- + offset_x      y_im = f_y * --- + offset_y
                           z                                z
         """
-        points = ensure_array_format(points, "...x3")
+        # work on a copy, the points of the caller should not be changed
+        points = np.array(ensure_array_format(points, "...x3"))
         # set small z distances to 0
         points[np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
@@ -473,9 +474,9 @@ class CylindricalProjection(CameraProjection):
         """
         # ensure that the points are provided as an array
         points = ensure_array_format(points, "...x3")
-        # set small z distances to 0
-        points[np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
+        # set small z distances to 0
+        z = np.where(np.abs(z) < 1e-10, 0, z)
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
             transformed_points = np.array(
@@ -551,9 +552,9 @@ class EquirectangularProjection(CameraProjection):
         """
         # ensure that the points are provided as an array
         points = ensure_array_format(points, "...x3")
-        # set small z distances to 0
-        points[np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
+        # set small z distances to 0
+        z = np.where(np.abs(z) < 1e-10, 0, z)
         # transform the points
         transformed_points = np.array(
             [-self.focallength_x_px * np.arctan2(-x, -z) + self.center_x_px,
-- 
2.43.0


From 47f5ae6fd7dbb671e1575f6d704c2ef4c3dc6b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:11 +0000
Subject: [PATCH 02/62] fix: image size of a projection built from a field of
 view ignored later changes

---
 cameratransform/projection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index af71274..5a67821 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -173,6 +173,10 @@ class CameraProjection(ClassWithParameterSet):
             sensor_width_mm=Parameter(sensor_width_mm, default=17.3, type=TYPE_INTRINSIC),  # the sensor width in mm
         )
 
+        # the image size that was set to calculate the focal length must not hide the parameters
+        self.__dict__.pop("image_width_px", None)
+        self.__dict__.pop("image_height_px", None)
+
         # add parameter focallength_px that sets x and y simultaneously
         fx = self.parameters.parameters["focallength_x_px"]
         fy = self.parameters.parameters["focallength_y_px"]
-- 
2.43.0


From 5165e5d5dc28e370d0b246559097a7f528993aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:31 +0000
Subject: [PATCH 03/62] fix: accept the documented tuple for focallength_px

---
 cameratransform/projection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 5a67821..e2654db 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -124,8 +124,12 @@ class CameraProjection(ClassWithParameterSet):
             if focallength_mm is not None:
                 raise ValueError("cannot provide both an focallength_mm and a focallength in px")
             if focallength_px:
-                focallength_x_px = focallength_px
-                focallength_y_px = focallength_px
+                # a tuple gives different focal lengths in x and y direction
+                try:
+                    focallength_x_px, focallength_y_px = focallength_px
+                except TypeError:
+                    focallength_x_px = focallength_px
+                    focallength_y_px = focallength_px
 
         if sensor and (sensor_width_mm or sensor_height_mm):
             raise ValueError("cannot provide both an sensor shape tuple and sensor_width_mm or sensor_height_mm")
-- 
2.43.0


From 6cb81589cd1e36e253ed05d428dae5a29a62c27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 04/62] fix: an explicit focal length in one direction was
 overwritten by the field of view of the other

---
 cameratransform/projection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index e2654db..2c88420 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -153,13 +153,13 @@ class CameraProjection(ClassWithParameterSet):
                 if focallength_x_px is not None:
                     raise ValueError("cannot set both focallength_x_px and view_x_deg")
                 focallength_x_px = self.focallengthFromFOV(view_x=view_x_deg)
-                if not view_y_deg:
+                if not view_y_deg and focallength_y_px is None:
                     focallength_y_px = focallength_x_px
             if view_y_deg:
                 if focallength_y_px:
                     raise ValueError("cannot set both focallength_y_px and view_y_deg")
                 focallength_y_px = self.focallengthFromFOV(view_y=view_y_deg)
-                if not view_x_deg:
+                if not view_x_deg and focallength_x_px is None:
                     focallength_x_px = focallength_y_px
 
         if focallength_x_px is None or focallength_y_px is None:
-- 
2.43.0


From cc76d7420c33b162097a0a6da65ab41478bb21f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:29 +0000
Subject: [PATCH 05/62] fix: sample and set_to_mean overwrote focal lengths
 which have no uncertainty

---
 cameratransform/parameter_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index 45d9283..ff2e0d3 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -189,7 +189,7 @@ class ClassWithParameterSet(object):
             callbacks = set()
             for name, parameter_obj in self.parameters.parameters.items():
                 parameter_obj.sample()
-                if parameter_obj.callback is not None:
+                if parameter_obj.mean is not None and parameter_obj.callback is not None:
                     callbacks.add(parameter_obj.callback)
             for call in callbacks:
                 call()
@@ -207,7 +207,7 @@ class ClassWithParameterSet(object):
             callbacks = set()
             for name, parameter_obj in self.parameters.parameters.items():
                 parameter_obj.set_to_mean()
-                if parameter_obj.callback is not None:
+                if parameter_obj.mean is not None and parameter_obj.callback is not None:
                     callbacks.add(parameter_obj.callback)
             for call in callbacks:
                 call()
-- 
2.43.0


From b3c4d5dc61497afb0af7894897c445c6d4aafa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:50 +0000
Subject: [PATCH 06/62] fix: getClosestPointFromLine normalized the ray of the
 caller in place

---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 4554e4d..1fa3cbb 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -323,7 +323,7 @@ def getClosestPointFromLine(origin, ray, point):
     # calculate the difference vector
     delta = point-origin
     # norm the ray
-    ray /= np.linalg.norm(ray, axis=-1)[..., None]
+    ray = ray / np.linalg.norm(ray, axis=-1)[..., None]
     # calculate the scale product
     factor = np.sum(ray*delta, axis=-1)
     try:
-- 
2.43.0


From adc0fe2f1947cbdd079421bc675166ca3ff2043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 07/62] fix: rays that miss all triangles returned inf instead
 of nan

---
 cameratransform/ray.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 1fa3cbb..46b1f7b 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -86,10 +86,8 @@ def ray_intersect_triangle(origin, direction, triangle, use_planes=False):
         rI[((ti < 0.0) + (si + ti > 1.0)).astype(bool)] = np.nan
 
     def nanargmin(a, axis):
-        mask = np.isnan(a)
-        a[mask] = np.inf
-        res = np.argmin(a, axis=axis)
-        return res
+        # do not change a, to keep the nan values when there is no intersection
+        return np.argmin(np.where(np.isnan(a), np.inf, a), axis=axis)
 
     index = nanargmin(rI, axis=0)
     rI = rI[index, np.arange(len(index))]
-- 
2.43.0


From 9c0cf1504e162417c31d420129464a4e07a05316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:54 +0000
Subject: [PATCH 08/62] fix: a degenerate triangle in a mesh was hit by every
 ray at its origin

---
 cameratransform/ray.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 46b1f7b..e3954c7 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -72,6 +72,9 @@ def ray_intersect_triangle(origin, direction, triangle, use_planes=False):
     # ray is parallel and lies in the plane
     rI[(b == 0.0)*(a == 0.0)] = 0
 
+    # a triangle without an area does not define a plane and cannot be hit
+    rI[np.all(normal == 0.0, axis=-1)] = np.nan
+
     # check whether the intersection is behind the origin of the ray
     rI[rI < 0.0] = np.nan
 
-- 
2.43.0


From 59dc31d9dfb24f5818a047ae12e98b89737d7709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:16 +0000
Subject: [PATCH 09/62] fix: spaceFromGPS dropped the heights of two points and
 failed for points without height

---
 cameratransform/gps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index b07d937..e8b9555 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -459,7 +459,7 @@ def moveDistance(start, distance, bearing):
 
 
 def spaceFromGPS(gps, gps0):
-    if len(gps[..., :]) == 2:
+    if gps.shape[-1] == 2:
         height = np.zeros_like(gps[..., 0])
     else:
         height = gps[..., 2]
-- 
2.43.0


From 802a2328fe78a7bf52a3a7c7f00fa2bd839d3615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:49 +0000
Subject: [PATCH 10/62] fix: spaceFromGPS added the height difference to the
 horizontal distance

---
 cameratransform/gps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index e8b9555..7243ab9 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -463,7 +463,8 @@ def spaceFromGPS(gps, gps0):
         height = np.zeros_like(gps[..., 0])
     else:
         height = gps[..., 2]
-    distance = getDistance(gps0, gps)
+    # only the horizontal distance, the height is already a coordinate of its own
+    distance = getDistance(np.array(gps0)[..., :2], gps[..., :2])
     bearing_rad = np.deg2rad(getBearing(gps0, gps))
     return np.array([distance * np.sin(bearing_rad), distance * np.cos(bearing_rad), height]).T
 
-- 
2.43.0


From bceeecd3acd16071846a21b4034561cc31089b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:18 +0000
Subject: [PATCH 11/62] =?UTF-8?q?fix:=20gpsFromString=20did=20not=20unders?=
 =?UTF-8?q?tand=20the=20documented=20=E2=80=99=20minute=20symbol?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 cameratransform/gps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 7243ab9..61054a8 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -252,8 +252,8 @@ def gpsFromString(gps_string: Union[str, List[str], List[Tuple[str, float]]], he
             return data
         else:
             return np.hstack((data, [height]))
-    regex_list = [r"(?P<deg>[\d+-]+)°\s*(?P<min>\d+)('|′|´|′)\s*(?P<sec>[\d.]+)(''|\"| |´´|″)\s*",
-                  r"(?P<deg>[\d+-]+)°\s*(?P<min>[\d.]+)('|′|´|′)?\s*",
+    regex_list = [r"(?P<deg>[\d+-]+)°\s*(?P<min>\d+)('|′|´|’)\s*(?P<sec>[\d.]+)(''|\"| |´´|″)\s*",
+                  r"(?P<deg>[\d+-]+)°\s*(?P<min>[\d.]+)('|′|´|’)?\s*",
                   r"(?P<deg>[\d.+-]+)°\s*"]
     for string in regex_list:
         pattern = r"\s*"+string.replace("<", "<lat_")+"(?P<lat_sign>N|S)?"+r"\s*,?\s*"+string.replace("<", "<lon_")+"(?P<lon_sign>W|E)?"+r"\s*"
-- 
2.43.0


From 540823e3d0c6a0c8cde9d56f9501efd9b0f3248b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 12/62] fix: formatGPS failed for numpy floats

---
 cameratransform/gps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 61054a8..644272a 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -141,7 +141,7 @@ def formatGPS(lat, lon, format=None, asLatex=False):
         for entry in match:
             # the letter symbol
             if entry[-1] == "s":
-                fills.append(letters[neg])
+                fills.append(letters[int(neg)])
             # one of the values
             else:
                 fills.append(values.pop(0))
-- 
2.43.0


From 43fc7338f53f8e3d17059cdebc9afdcbe513926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:05 +0000
Subject: [PATCH 13/62] fix: formatGPS could be off by a degree for values just
 below a full degree

---
 cameratransform/gps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 644272a..01b19dd 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -123,11 +123,11 @@ def formatGPS(lat, lon, format=None, asLatex=False):
 
         # if the seconds are rounded up to 60, increase mins
         if fmt_sec is not None and fmt_sec % secs == fmt_sec % 60:
-            mins += 1
+            mins = np.floor(mins) + 1
             secs = 0
         # if the mins are rounded up to 60 increase degs
         if fmt_mins is not None and fmt_mins % mins == fmt_mins % 60:
-            degs += 1
+            degs = np.floor(degs) + 1
             mins = 0
 
         # if no letter symbol is used, keep the sign
-- 
2.43.0


From c6db3d12f06ee056b62528a403b267a65a62888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:29 +0000
Subject: [PATCH 14/62] fix: setGPSpos ignored the elevation when the position
 is given as a pair

---
 cameratransform/camera.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index b5d4765..37924d2 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -503,7 +503,9 @@ class Camera(ClassWithParameterSet):
         else:
             # if it is a tuple
             try:
-                lat, lon, elevation = gps.splitGPS(lat, keep_deg=True)
+                lat, lon, height = gps.splitGPS(lat, keep_deg=True)
+                if height is not None:
+                    elevation = height
             # or if it is just a single value
             except (AttributeError, Exception):
                 pass
-- 
2.43.0


From 18b2b796a3c3b9d758fe33363b6bd1414b3c1309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:16 +0000
Subject: [PATCH 15/62] fix: getObjectHeight failed for objects straight ahead
 along a coordinate axis

---
 cameratransform/camera.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 37924d2..9b712e4 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1245,10 +1245,13 @@ class Camera(ClassWithParameterSet):
         point_feet, point_heads = ensure_array_format(point_feet, "...x2", point_heads)
         # get the feet positions in the world
         point3D_feet = self.spaceFromImage(point_feet, Z=Z)
-        # get the head positions in the world
-        point3D_head1 = self.spaceFromImage(point_heads, Y=point3D_feet[..., 1])
-        point3D_head2 = self.spaceFromImage(point_heads, X=point3D_feet[..., 0])
-        point3D_head = np.mean([point3D_head1, point3D_head2], axis=0)
+        # get the head positions in the world, the points on the rays of the heads closest to the vertical above the feet
+        offset, direction = self.getRay(point_heads)
+        delta_xy, direction_xy = (point3D_feet - offset)[..., :2], direction[..., :2]
+        factor = np.sum(delta_xy * direction_xy, axis=-1) / np.sum(direction_xy ** 2, axis=-1)
+        # ignore points that are behind the camera
+        factor = np.where(factor < 0, np.nan, factor)
+        point3D_head = direction * factor[..., None] + offset
         # the z difference between these two points
         return point3D_head[..., 2] - point3D_feet[..., 2]
 
-- 
2.43.0


From 911d9585fe9d20b4dbdabbd8f8ad1b95418c4a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:59 +0000
Subject: [PATCH 16/62] fix: a failed save destroyed the previously saved file

---
 cameratransform/camera.py          | 4 +++-
 cameratransform/lens_distortion.py | 4 +++-
 cameratransform/projection.py      | 4 +++-
 cameratransform/spatial.py         | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 9b712e4..b921f6e 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1551,8 +1551,10 @@ class Camera(ClassWithParameterSet):
         elif isinstance(self.lens, BrownLensDistortion):
             export_dict["lens"] = BROWNLENSDISTORTION
 
+        # convert before opening the file, to keep an existing file if the conversion fails
+        data = json.dumps(export_dict, indent=4)
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict, indent=4))
+            fp.write(data)
 
     def load(self, filename: str):
         """
diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 3dc2588..19115bc 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -64,8 +64,10 @@ class LensDistortion(ClassWithParameterSet):  # pragma: no cover
     def save(self, filename):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys}
+        # convert before opening the file, to keep an existing file if the conversion fails
+        data = json.dumps(export_dict)
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict))
+            fp.write(data)
 
     def load(self, filename):
         with open(filename, "r") as fp:
diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 2c88420..c9ba831 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -218,8 +218,10 @@ class CameraProjection(ClassWithParameterSet):
     def save(self, filename):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys if key != "focallength_px"}
+        # convert before opening the file, to keep an existing file if the conversion fails
+        data = json.dumps(export_dict)
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict))
+            fp.write(data)
 
     def load(self, filename):
         with open(filename, "r") as fp:
diff --git a/cameratransform/spatial.py b/cameratransform/spatial.py
index e1ab01c..bfcdd6b 100644
--- a/cameratransform/spatial.py
+++ b/cameratransform/spatial.py
@@ -205,8 +205,10 @@ class SpatialOrientation(ClassWithParameterSet):
     def save(self, filename):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys}
+        # convert before opening the file, to keep an existing file if the conversion fails
+        data = json.dumps(export_dict)
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict))
+            fp.write(data)
 
     def load(self, filename):
         with open(filename, "r") as fp:
-- 
2.43.0


From c05b73eac21fe1cf7c33eea3036650fcf42417d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:24 +0000
Subject: [PATCH 17/62] fix: saving failed for parameters given as numpy
 numbers

---
 cameratransform/camera.py          | 2 +-
 cameratransform/lens_distortion.py | 2 +-
 cameratransform/projection.py      | 2 +-
 cameratransform/spatial.py         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index b921f6e..99f82b2 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1552,7 +1552,7 @@ class Camera(ClassWithParameterSet):
             export_dict["lens"] = BROWNLENSDISTORTION
 
         # convert before opening the file, to keep an existing file if the conversion fails
-        data = json.dumps(export_dict, indent=4)
+        data = json.dumps(export_dict, indent=4, default=np.generic.item)
         with open(filename, "w") as fp:
             fp.write(data)
 
diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 19115bc..e2d607b 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -65,7 +65,7 @@ class LensDistortion(ClassWithParameterSet):  # pragma: no cover
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys}
         # convert before opening the file, to keep an existing file if the conversion fails
-        data = json.dumps(export_dict)
+        data = json.dumps(export_dict, default=np.generic.item)
         with open(filename, "w") as fp:
             fp.write(data)
 
diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index c9ba831..e38c8e0 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -219,7 +219,7 @@ class CameraProjection(ClassWithParameterSet):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys if key != "focallength_px"}
         # convert before opening the file, to keep an existing file if the conversion fails
-        data = json.dumps(export_dict)
+        data = json.dumps(export_dict, default=np.generic.item)
         with open(filename, "w") as fp:
             fp.write(data)
 
diff --git a/cameratransform/spatial.py b/cameratransform/spatial.py
index bfcdd6b..74d1ae3 100644
--- a/cameratransform/spatial.py
+++ b/cameratransform/spatial.py
@@ -206,7 +206,7 @@ class SpatialOrientation(ClassWithParameterSet):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys}
         # convert before opening the file, to keep an existing file if the conversion fails
-        data = json.dumps(export_dict)
+        data = json.dumps(export_dict, default=np.generic.item)
         with open(filename, "w") as fp:
             fp.write(data)
 
-- 
2.43.0


From 04ad3d43321a15923d277e74b248b3257d4aed37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:48 +0000
Subject: [PATCH 18/62] fix: loading a camera with a yaw-pitch-roll orientation
 lost the orientation

---
 cameratransform/camera.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 99f82b2..1ebfa7c 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -26,7 +26,7 @@ from typing import Union, Optional, Tuple, List
 from numbers import Number
 from .parameter_set import ParameterSet, ClassWithParameterSet, Parameter, TYPE_GPS
 from .projection import RectilinearProjection, EquirectangularProjection, CylindricalProjection, CameraProjection
-from .spatial import SpatialOrientation
+from .spatial import SpatialOrientation, SpatialOrientationYawPitchRoll
 from .lens_distortion import NoDistortion, LensDistortion, ABCDistortion, BrownLensDistortion
 from . import gps
 from . import ray
@@ -1589,7 +1589,12 @@ class Camera(ClassWithParameterSet):
             variables.pop("lens")
         else:
             lens = None
-        self.__init__(projection=projection, lens=lens, orientation=SpatialOrientation())
+        # the names of the angles tell which orientation was saved
+        if "yaw_deg" in variables.keys():
+            orientation = SpatialOrientationYawPitchRoll()
+        else:
+            orientation = SpatialOrientation()
+        self.__init__(projection=projection, lens=lens, orientation=orientation)
         for key in variables:
             setattr(self, key, variables[key])
 
-- 
2.43.0


From dec8a4f4427b9d0be12d52bfab8e540fabc9fb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:26 +0000
Subject: [PATCH 19/62] fix: saving failed after setting the gps position from
 a pair

---
 cameratransform/camera.py          | 2 +-
 cameratransform/lens_distortion.py | 2 +-
 cameratransform/projection.py      | 2 +-
 cameratransform/spatial.py         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 1ebfa7c..08865c0 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1552,7 +1552,7 @@ class Camera(ClassWithParameterSet):
             export_dict["lens"] = BROWNLENSDISTORTION
 
         # convert before opening the file, to keep an existing file if the conversion fails
-        data = json.dumps(export_dict, indent=4, default=np.generic.item)
+        data = json.dumps(export_dict, indent=4, default=lambda value: np.asarray(value).item())
         with open(filename, "w") as fp:
             fp.write(data)
 
diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index e2d607b..0e68184 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -65,7 +65,7 @@ class LensDistortion(ClassWithParameterSet):  # pragma: no cover
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys}
         # convert before opening the file, to keep an existing file if the conversion fails
-        data = json.dumps(export_dict, default=np.generic.item)
+        data = json.dumps(export_dict, default=lambda value: np.asarray(value).item())
         with open(filename, "w") as fp:
             fp.write(data)
 
diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index e38c8e0..c58d124 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -219,7 +219,7 @@ class CameraProjection(ClassWithParameterSet):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys if key != "focallength_px"}
         # convert before opening the file, to keep an existing file if the conversion fails
-        data = json.dumps(export_dict, default=np.generic.item)
+        data = json.dumps(export_dict, default=lambda value: np.asarray(value).item())
         with open(filename, "w") as fp:
             fp.write(data)
 
diff --git a/cameratransform/spatial.py b/cameratransform/spatial.py
index 74d1ae3..b2a2a25 100644
--- a/cameratransform/spatial.py
+++ b/cameratransform/spatial.py
@@ -206,7 +206,7 @@ class SpatialOrientation(ClassWithParameterSet):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys}
         # convert before opening the file, to keep an existing file if the conversion fails
-        data = json.dumps(export_dict, default=np.generic.item)
+        data = json.dumps(export_dict, default=lambda value: np.asarray(value).item())
         with open(filename, "w") as fp:
             fp.write(data)
 
-- 
2.43.0


From ee94d9dafdb24eb6af767555ac563450946e2025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:16 +0000
Subject: [PATCH 20/62] fix: top view and undistorted images ignored changes of
 the camera, Z and hide_backpoints

---
 cameratransform/camera.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 08865c0..ab2d132 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -434,10 +434,12 @@ class Camera(ClassWithParameterSet):
     map = None
     last_extent = None
     last_scaling = None
+    last_state = None
 
     map_undistort = None
     last_extent_undistort = None
     last_scaling_undistort = None
+    last_state_undistort = None
 
     R_earth = 6371e3
 
@@ -1282,6 +1284,12 @@ class Camera(ClassWithParameterSet):
         # the z difference between these two points
         return np.linalg.norm(point3D_front - point3D_back, axis=-1)
 
+    def _getMapState(self, extent, *args):
+        # everything a map depends on: the arguments and the current parameters of the camera
+        parts = [self.projection, self.orientation, self.lens]
+        parameters = [getattr(part, name) for part in parts for name in part.parameters.parameters]
+        return [list(extent), list(args), parts, parameters]
+
     def _getUndistortMap(self, extent=None, scaling=None):
         # if no extent is given, take the maximum extent from the image border
         if extent is None:
@@ -1292,9 +1300,8 @@ class Camera(ClassWithParameterSet):
             scaling = 1
 
         # if we have cached the map, use the cached map
-        if self.map_undistort is not None and \
-                self.last_extent_undistort == extent and \
-                self.last_scaling_undistort == scaling:
+        state = self._getMapState(extent, scaling)
+        if self.map_undistort is not None and self.last_state_undistort == state:
             return self.map_undistort
 
         # get a mesh grid
@@ -1310,8 +1317,9 @@ class Camera(ClassWithParameterSet):
         # reshape the map and cache it
         self.map_undistort = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
 
-        self.last_extent_undistort = extent
+        self.last_extent_undistort = list(extent)
         self.last_scaling_undistort = scaling
+        self.last_state_undistort = state
 
         # return the calculated map
         return self.map_undistort
@@ -1375,9 +1383,8 @@ class Camera(ClassWithParameterSet):
                       np.nanmin(border[:, 1]), np.nanmax(border[:, 1])]
 
         # if we have cached the map, use the cached map
-        if self.map is not None and \
-                all(self.last_extent == np.array(extent)) and \
-                (self.last_scaling == scaling):
+        state = self._getMapState(extent, scaling, Z, hide_backpoints)
+        if self.map is not None and self.last_state == state:
             return self.map
 
         # if no scaling is given, scale so that the resulting image has an equal amount of pixels as the original image
@@ -1399,8 +1406,9 @@ class Camera(ClassWithParameterSet):
         # reshape the map and cache it
         self.map = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
 
-        self.last_extent = extent
+        self.last_extent = list(extent)
         self.last_scaling = scaling
+        self.last_state = state
 
         # return the calculated map
         return self.map
-- 
2.43.0


From 8d1a190b3ea32d8ec895a0be1f92ee85b80a53ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:05 +0000
Subject: [PATCH 21/62] fix: the number of cameras in a group depended only on
 the last list of components

---
 cameratransform/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index ab2d132..fe6d86b 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -188,7 +188,7 @@ class CameraGroup(ClassWithParameterSet):
                 setattr(self, parameter_name, [parameter])
             else:
                 setattr(self, parameter_name, list(parameter))
-                self.N = len(getattr(self, parameter_name))
+                self.N = max(self.N, len(getattr(self, parameter_name)))
 
         checkCount(projection, CameraProjection, "projection_list", RectilinearProjection)
         checkCount(orientation, SpatialOrientation, "orientation_list", SpatialOrientation)
-- 
2.43.0


From 5b2124868eec396db18d7240574c853dc934df6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:29 +0000
Subject: [PATCH 22/62] fix: scaleSpace scaled a shared orientation once per
 camera

---
 cameratransform/camera.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index fe6d86b..3fe9d21 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -421,7 +421,8 @@ class CameraGroup(ClassWithParameterSet):
             plt.imshow(im2)
 
     def scaleSpace(self, scale):
-        for cam in self:
+        # an orientation that is shared by several cameras should only be scaled once
+        for cam in {id(cam.orientation): cam for cam in self}.values():
             cam.pos_x_m, cam.pos_y_m, cam.elevation_m = np.array([cam.pos_x_m, cam.pos_y_m, cam.elevation_m]) * scale
 
 
-- 
2.43.0


From cf2b5d699b7d20effd5790423013c0c0ffedad2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:52 +0000
Subject: [PATCH 23/62] fix: the baseline of a camera group ignored the
 elevations

---
 cameratransform/camera.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 3fe9d21..49c423a 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -213,7 +213,8 @@ class CameraGroup(ClassWithParameterSet):
                         zip(range(self.N), itertools.cycle(self.projection_list), itertools.cycle(self.orientation_list), itertools.cycle(self.lens_list))]
 
     def getBaseline(self) -> float:
-        return np.sqrt((self[0].pos_x_m-self[1].pos_x_m)**2 + (self[0].pos_y_m-self[1].pos_y_m)**2)
+        return np.sqrt((self[0].pos_x_m-self[1].pos_x_m)**2 + (self[0].pos_y_m-self[1].pos_y_m)**2
+                       + (self[0].elevation_m-self[1].elevation_m)**2)
 
     def spaceFromImages(self, points1: Points2D, points2: Points2D) -> Points3D:
         points1, points2 = ensure_array_format(points1, "...x2", points2)
-- 
2.43.0


From 0ffa257050a483c2f5dd4320655272a3f2eee582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:14 +0000
Subject: [PATCH 24/62] fix: the inverse of the lens distortion was wrong far
 from the image center and imprecise elsewhere

---
 cameratransform/lens_distortion.py | 39 ++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 0e68184..e83fe9d 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -22,18 +22,31 @@ from .parameter_set import ClassWithParameterSet, ParameterSet, Parameter, TYPE_
 import json
 
 def invert_function(x, func):
-    from scipy import interpolate
-    from scipy.interpolate import dfitpack
     y = func(x)
-    dy = np.concatenate(([0], np.diff(y)))
-    y = y[dy>=0]
-    x = x[dy>=0]
-    try:
-        inter = interpolate.InterpolatedUnivariateSpline(y, x)
-    # dfitpack.error
-    except Exception: # pragma: no cover
-        inter = lambda x: x
-    return inter
+    # only use the part where the function is increasing
+    decreasing = np.diff(y) <= 0
+    if np.any(decreasing):
+        count = np.argmax(decreasing) + 1
+        x, y = x[:count], y[:count]
+
+    def inverse(value):
+        # get an estimate from the sampled points
+        estimate = np.interp(value, y, x)
+        difference = func(estimate) - value
+        # and refine it with Newton's method
+        for i in range(20):
+            slope = (func(estimate + 1e-4) - func(estimate - 1e-4)) / 2e-4
+            with np.errstate(divide='ignore', invalid='ignore', over='ignore'):
+                next_estimate = estimate - difference / slope
+                next_difference = func(next_estimate) - value
+            better = np.abs(next_difference) < np.abs(difference)
+            if not np.any(better):
+                break
+            estimate = np.where(better, next_estimate, estimate)
+            difference = np.where(better, next_difference, difference)
+        return estimate
+
+    return inverse
 
 
 class LensDistortion(ClassWithParameterSet):  # pragma: no cover
@@ -141,7 +154,7 @@ class BrownLensDistortion(LensDistortion):
         self._init_inverse()
 
     def _init_inverse(self):
-        r = np.arange(0, 2, 0.1)
+        r = np.concatenate((np.arange(0, 2, 0.01), np.geomspace(2, 100, 100)))
         self._convert_radius_inverse = invert_function(r, self._convert_radius)
         if self.projection is not None:
             self.scale = np.array([self.projection.focallength_x_px, self.projection.focallength_y_px])
@@ -234,7 +247,7 @@ class ABCDistortion(LensDistortion):
 
     def _init_inverse(self):
         self.d = 1 - self.a - self.b - self.c
-        r = np.arange(0, 2, 0.1)
+        r = np.concatenate((np.arange(0, 2, 0.01), np.geomspace(2, 100, 100)))
         self._convert_radius_inverse = invert_function(r, self._convert_radius)
 
         if self.projection is not None:
-- 
2.43.0


From 9c7318a75206b43563336c4072c025aa4ce205b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:54 +0000
Subject: [PATCH 25/62] fix: the lens distortions returned nan for the optical
 center

---
 cameratransform/lens_distortion.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index e83fe9d..80240f6 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -171,7 +171,8 @@ class BrownLensDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius_inverse(r)
+            # the center (r=0) is not moved
+            points = np.where(r == 0, points, points / r * self._convert_radius_inverse(r))
         # rescale back to the image
         return points * self.scale + self.offset
 
@@ -183,7 +184,8 @@ class BrownLensDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius(r)
+            # the center (r=0) is not moved
+            points = np.where(r == 0, points, points / r * self._convert_radius(r))
         # rescale back to the image
         return points * self.scale + self.offset
 
@@ -265,7 +267,8 @@ class ABCDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius_inverse(r)
+            # the center (r=0) is not moved
+            points = np.where(r == 0, points, points / r * self._convert_radius_inverse(r))
         # rescale back to the image
         return points * self.scale + self.offset
 
@@ -277,6 +280,7 @@ class ABCDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius(r)
+            # the center (r=0) is not moved
+            points = np.where(r == 0, points, points / r * self._convert_radius(r))
         # rescale back to the image
         return points * self.scale + self.offset
-- 
2.43.0


From 5be288f77186e06f38fa48e75b4c85d230d47c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:36 +0000
Subject: [PATCH 26/62] fix: lenses which share parameters or projections with
 other cameras used outdated values

---
 cameratransform/camera.py          | 4 ++++
 cameratransform/lens_distortion.py | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 49c423a..7beb247 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -17,6 +17,7 @@
 # You should have received a copy of the license
 # along with cameratransform. If not, see <https://opensource.org/licenses/MIT>
 
+import copy
 import numpy as np
 import os
 import json
@@ -453,6 +454,9 @@ class Camera(ClassWithParameterSet):
         self.orientation = orientation
         if lens is None:
             lens = NoDistortion()
+        # a lens which already belongs to another projection shares its parameters, but needs its own scale and offset
+        if lens.projection is not None and lens.projection is not projection:
+            lens = copy.copy(lens)
         self.lens = lens
         self.lens.setProjection(projection)
 
diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 80240f6..625f5a1 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -52,6 +52,7 @@ def invert_function(x, func):
 class LensDistortion(ClassWithParameterSet):  # pragma: no cover
     offset = np.array([0, 0])
     scale = 1
+    projection = None
 
     def __init__(self):
         self.parameters = ParameterSet()
@@ -164,6 +165,8 @@ class BrownLensDistortion(LensDistortion):
         return r*(1 + self.parameters.k1*r**2 + self.parameters.k2*r**4 + self.parameters.k3*r**6)
 
     def imageFromDistorted(self, points):
+        # always use the current parameters, they might be shared with other lenses
+        self._init_inverse()
         # ensure that the points are provided as an array
         # and rescale the points to that the center is at 0 and the border at 1
         points = (np.array(points)-self.offset)/self.scale
@@ -177,6 +180,8 @@ class BrownLensDistortion(LensDistortion):
         return points * self.scale + self.offset
 
     def distortedFromImage(self, points):
+        # always use the current parameters, they might be shared with other lenses
+        self._init_inverse()
         # ensure that the points are provided as an array
         # and rescale the points to that the center is at 0 and the border at 1
         points = (np.array(points)-self.offset)/self.scale
@@ -260,6 +265,8 @@ class ABCDistortion(LensDistortion):
         return self.d * r + self.c * r**2 + self.b * r**3 + self.a * r**4
 
     def imageFromDistorted(self, points):
+        # always use the current parameters, they might be shared with other lenses
+        self._init_inverse()
         # ensure that the points are provided as an array
         # and rescale the points to that the center is at 0 and the border at 1
         points = (np.array(points)-self.offset)/self.scale
@@ -273,6 +280,8 @@ class ABCDistortion(LensDistortion):
         return points * self.scale + self.offset
 
     def distortedFromImage(self, points):
+        # always use the current parameters, they might be shared with other lenses
+        self._init_inverse()
         # ensure that the points are provided as an array
         # and rescale the points to that the center is at 0 and the border at 1
         points = (np.array(points)-self.offset)/self.scale
-- 
2.43.0


From a76f4f863b99516335ee906b6f17b45218d6fe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:48 +0000
Subject: [PATCH 27/62] fix: metropolis left the ranges of the parameters when
 the step size was adapted

---
 cameratransform/statistic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index 6904ee5..a3134af 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -105,7 +105,8 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
 
             # draw a new position
             # next_pos = last_pos + np.random.normal(0, step*adaptive_scale_factor, N)
-            next_pos = last_pos + adaptive_scale_factor*step*truncnorm((ranges[:,0]-last_pos)/step, (ranges[:,1]-last_pos)/step).rvs()
+            scaled_step = adaptive_scale_factor*step
+            next_pos = last_pos + scaled_step*truncnorm((ranges[:,0]-last_pos)/scaled_step, (ranges[:,1]-last_pos)/scaled_step).rvs()
             # get the probability
             next_prob = getLogProb(list(next_pos) + next_prior_trace)
             # calculate the acceptance ratio
-- 
2.43.0


From ff17341a09a6352af2eeecdc342f72d6711f3b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:14 +0000
Subject: [PATCH 28/62] fix: metropolis failed when an information has an
 unknown variation

---
 cameratransform/parameter_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index ff2e0d3..ce3b5c7 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -297,7 +297,7 @@ class ClassWithParameterSet(object):
             start.append(param.value[()])
             ranges.append([param.parents.get("lower"), param.parents.get("upper")])
         start = np.array(start)
-        step = step*np.array([p.step for p in parameter])
+        step = step*np.array([p.step for p in parameter+self.additional_parameters])
 
         def getLogProb(position):
             self.parameters.set_fit_parameters(parameter_names, position[:len(parameter_names)])
-- 
2.43.0


From 061c80ca303acd891ac3192937b6e1655e6ecd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:42 +0000
Subject: [PATCH 29/62] fix: sample failed for a trace without a consecutive
 index

---
 cameratransform/parameter_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index ce3b5c7..3562cf3 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -180,7 +180,7 @@ class ClassWithParameterSet(object):
 
     def sample(self):
         if self.parameters.trace is not None:
-            parameter_set = dict(self.parameters.trace.loc[np.random.randint(len(self.parameters.trace))])
+            parameter_set = dict(self.parameters.trace.iloc[np.random.randint(len(self.parameters.trace))])
             prob = parameter_set["probability"]
             del parameter_set["probability"]
             self.parameters.set_fit_parameters(parameter_set.keys(), parameter_set.values())
-- 
2.43.0


From 7cd38b0cbd518b6afe39068043d6959a0c2b5474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:07 +0000
Subject: [PATCH 30/62] fix: a FitParameter with a custom distribution could
 not be fitted

---
 cameratransform/statistic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index a3134af..8f48bf4 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -271,6 +271,7 @@ class FitParameter:
 
     def __init__(self, name, distribution=None, lower=None, upper=None, step=1, value=None, mean=None, std=None):
         self.__name__ = name
+        self.parents = dict()
         if distribution is not None:
             self.distribution = distribution
         elif lower is not None and upper is not None:
-- 
2.43.0


From 79b78f558d019f99cfb0e8deb38dd77fb01df697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:32 +0000
Subject: [PATCH 31/62] fix: height and length information failed for the
 documented array of variations

---
 cameratransform/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 7beb247..350bfd5 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -543,7 +543,7 @@ class Camera(ClassWithParameterSet):
             when true, the information will be ignored for fitting and only be used to plot.
         """
         if not only_plot:
-            if not isinstance(variation, (float, int)):
+            if hasattr(variation, "value"):
                 self.additional_parameters += [variation]
                 def heigthInformation(points_feet=points_feet, points_head=points_head, height=height,
                                       variation=variation):
@@ -611,7 +611,7 @@ class Camera(ClassWithParameterSet):
             when true, the information will be ignored for fitting and only be used to plot.
         """
         if not only_plot:
-            if not isinstance(variation, (float, int)):
+            if hasattr(variation, "value"):
                 self.additional_parameters += [variation]
 
                 def lengthInformation(points_front=points_front, points_back=points_back, length=length,
-- 
2.43.0


From f84761f3814bc1940f8fab79d7d26f054ddddc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:57 +0000
Subject: [PATCH 32/62] fix: intersectionOfTwoLines returned a list if some
 lines are parallel

---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index e3954c7..38eae1b 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -138,7 +138,7 @@ def intersectionOfTwoLines(p1, v1, p2, v2):
             res = np.linalg.solve(np.array([[a1, b1], [a2, b2]]).transpose(2, 0, 1), np.array([c1, c2]).T[..., None])
             return np.mean([p1 + res[:, 0, 0, None] * v1, p2 + res[:, 1, 0, None] * v2], axis=0)
         except np.linalg.LinAlgError:
-            return [__intersectionOfTwoLines(p1, v1[i], p2, v2[i]) for i in range(len(v1))]
+            return np.array([__intersectionOfTwoLines(p1, v1[i], p2, v2[i]) for i in range(len(v1))])
     else:  # or just one point
         return __intersectionOfTwoLines(p1, v1, p2, v2)
 
-- 
2.43.0


From b7f23e420b93750168a90a3b21920aebac14a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:38 +0000
Subject: [PATCH 33/62] fix: a failed download left an empty sensor database
 behind

---
 cameratransform/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 350bfd5..5919a79 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -73,9 +73,9 @@ def _getSensorFromDatabase(model: str) -> Optional[Tuple[float, float]]:
     database_filename = "sensor_database_detailed.csv"
     # download the database if it is not there
     if not os.path.exists(database_filename):
+        print("Downloading database from:", url)
+        r = requests.get(url)
         with open(database_filename, "w") as fp:
-            print("Downloading database from:", url)
-            r = requests.get(url)
             fp.write(r.text)
     # load the database
     with open(database_filename, "r") as fp:
-- 
2.43.0


From 6fbf0b673e4afaf23ee166e101faf049903cc8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:05 +0000
Subject: [PATCH 34/62] fix: getCameraParametersFromExif failed without the
 sensor database

---
 cameratransform/camera.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 5919a79..c13b236 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -154,6 +154,7 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
     # get the focal length
     f = exif["FocalLength"][0] / exif["FocalLength"][1]
     # get the sensor size, either from a database
+    sensor_size = None
     if sensor_from_database:
         sensor_size = _getSensorFromDatabase(exif["Model"])
     # or from the exif information
-- 
2.43.0


From 312fcc84254a7f32cc19b065651dea1631f198d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:30 +0000
Subject: [PATCH 35/62] fix: getCameraParametersFromExif failed with the
 rational numbers of current PIL versions

---
 cameratransform/camera.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index c13b236..f61b628 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -149,10 +149,17 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
             ret[decoded] = value
         return ret
 
+    def to_float(rational):
+        # old versions of PIL provide a tuple (numerator, denominator), newer versions a number
+        try:
+            return rational[0] / rational[1]
+        except TypeError:
+            return float(rational)
+
     # read the exif information of the file
     exif = get_exif(filename)
     # get the focal length
-    f = exif["FocalLength"][0] / exif["FocalLength"][1]
+    f = to_float(exif["FocalLength"])
     # get the sensor size, either from a database
     sensor_size = None
     if sensor_from_database:
@@ -160,8 +167,8 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
     # or from the exif information
     if not sensor_size or sensor_size is None:
         sensor_size = (
-            exif["ExifImageWidth"] / (exif["FocalPlaneXResolution"][0] / exif["FocalPlaneXResolution"][1]) * 25.4,
-            exif["ExifImageHeight"] / (exif["FocalPlaneYResolution"][0] / exif["FocalPlaneYResolution"][1]) * 25.4)
+            exif["ExifImageWidth"] / to_float(exif["FocalPlaneXResolution"]) * 25.4,
+            exif["ExifImageHeight"] / to_float(exif["FocalPlaneYResolution"]) * 25.4)
     # get the image size
     image_size = (exif["ExifImageWidth"], exif["ExifImageHeight"])
     # print the output if desired
-- 
2.43.0


From 18780ceb9d1c8c2231c16ae16531107158c876db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:13 +0000
Subject: [PATCH 36/62] fix: spaceFromImage mixed up the distances given as a
 list and points with more than two dimensions

---
 cameratransform/camera.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index f61b628..b2ef63d 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1164,12 +1164,9 @@ class Camera(ClassWithParameterSet):
             # solve the line equation for the factor (how many times the direction vector needs to be added to the origin point)
             factor = (given[index] - offset[..., index]) / direction[..., index]
 
-        if not isinstance(factor, np.ndarray):
-            # if factor is not an array, we don't need to specify the broadcasting
-            points = direction * factor + offset
-        else:
-            # apply the factor to the direction vector plus the offset
-            points = direction * factor[:, None] + offset[None, :]
+        # apply the factor (one for all points or one for each point) to the direction vector plus the offset
+        factor = np.asarray(factor, dtype=float)
+        points = direction * factor[..., None] + offset
         # ignore points that are behind the camera (e.g. trying to project points above the horizon to the ground)
         points[factor < 0] = np.nan
         return points
-- 
2.43.0


From d91a5e0ae2e20fd92d7b72b5bb3d3e81976f3466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:44 +0000
Subject: [PATCH 37/62] fix: the conversions between GPS and space failed for
 lists of points

---
 cameratransform/gps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 01b19dd..3c1da20 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -459,6 +459,7 @@ def moveDistance(start, distance, bearing):
 
 
 def spaceFromGPS(gps, gps0):
+    gps = np.asarray(gps)
     if gps.shape[-1] == 2:
         height = np.zeros_like(gps[..., 0])
     else:
@@ -470,6 +471,7 @@ def spaceFromGPS(gps, gps0):
 
 
 def gpsFromSpace(space, gps0):
+    space = np.asarray(space)
     bearing = np.rad2deg(np.arctan2(space[..., 0], space[..., 1]))
     distance = np.linalg.norm(space[..., :2], axis=-1)
     target = moveDistance(gps0, distance, bearing)
-- 
2.43.0


From d22b3632281f5d45b58c10a75295c78ec9221efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:12 +0000
Subject: [PATCH 38/62] fix: moveDistance went in a wrong direction when
 starting at a pole

---
 cameratransform/gps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 3c1da20..b7b0a48 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -451,8 +451,9 @@ def moveDistance(start, distance, bearing):
     lat2 = np.arcsin(np.sin(lat1) * np.cos(distance / R) +
                      np.cos(lat1) * np.sin(distance / R) * np.cos(bearing))
 
-    lon2 = lon1 + np.arctan2(np.sin(bearing) * np.sin(distance / R) * np.cos(lat1),
-                             np.cos(distance / R) - np.sin(lat1) * np.sin(lat2))
+    # both terms divided by cos(lat1), so that the direction is also defined at the poles
+    lon2 = lon1 + np.arctan2(np.sin(bearing) * np.sin(distance / R),
+                             np.cos(lat1) * np.cos(distance / R) - np.sin(lat1) * np.sin(distance / R) * np.cos(bearing))
     if start.shape[-1] == 3:
         return np.array([np.rad2deg(lat2), np.rad2deg(lon2), np.ones_like(lon2)*start[..., 2]]).T
     return np.array([np.rad2deg(lat2), np.rad2deg(lon2)]).T
-- 
2.43.0


From b754bc5bbf1ed3dd01b4c9820aa5cb018dcfa524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:26 +0000
Subject: [PATCH 39/62] fix: gpsFromSpace of the camera was not the inverse of
 spaceFromGPS for elevated cameras

---
 cameratransform/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index b2ef63d..7163027 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1185,7 +1185,7 @@ class Camera(ClassWithParameterSet):
         points : ndarray
             the points in the **gps** coordinate system, dimensions (3), (Nx3)
         """
-        return gps.gpsFromSpace(points, np.array([self.gps_lat, self.gps_lon, self.elevation_m]))
+        return gps.gpsFromSpace(points, np.array([self.gps_lat, self.gps_lon]))
 
     def spaceFromGPS(self, points: Points3D) -> Points3D:
         """
-- 
2.43.0


From 4b26506d4d7ac491130b956a076870ee3ed93c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:18 +0000
Subject: [PATCH 40/62] fix: formatGPS lost the sign of values between -1 and 0
 in formats without a letter

---
 cameratransform/gps.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index b7b0a48..faa8d05 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -145,8 +145,13 @@ def formatGPS(lat, lon, format=None, asLatex=False):
             # one of the values
             else:
                 fills.append(values.pop(0))
+        # an integer cannot carry the sign of a value between -1 and 0
+        fmt = format
+        if neg and not use_letter and fmt_degs[-1] == "d" and int(degs) == 0:
+            fmt = format.replace(fmt_degs, fmt_degs[:-1] + "s", 1)
+            fills[0] = "-0"
         # format the string
-        string = format % tuple(fills)
+        string = fmt % tuple(fills)
         # replace, if desired the degree sign
         if asLatex:
             string = string.replace("°", "\N{DEGREE SIGN}")
-- 
2.43.0


From 6ce01076c1ab4667a3c31e3d072370a36a94a7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:01 +0000
Subject: [PATCH 41/62] fix: the default extent of the top view was the image
 size in pixels and not the visible ground in metres

---
 cameratransform/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 7163027..53070db 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1389,7 +1389,7 @@ class Camera(ClassWithParameterSet):
     def _getMap(self, extent=None, scaling=None, Z=0, hide_backpoints=True):
         # if no extent is given, take the maximum extent from the image border
         if extent is None:
-            border = self.getImageBorder()
+            border = self.spaceFromImage(self.getImageBorder(), Z=Z)
             extent = [np.nanmin(border[:, 0]), np.nanmax(border[:, 0]),
                       np.nanmin(border[:, 1]), np.nanmax(border[:, 1])]
 
-- 
2.43.0


From b6e69fa5a2714cf22785ed1c2164faa2cdb9ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:18 +0000
Subject: [PATCH 42/62] fix: the wall made by extrudeLine had holes at its
 upper edge

---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 38eae1b..b0a65d8 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -298,7 +298,7 @@ def extrudeLine(points, z0, z1):
         point = list(point)
         if last_point is not None:
             mesh.append([point + [z0], last_point + [z0], point + [z1]])
-            mesh.append([point + [z0], last_point + [z0], last_point + [z1]])
+            mesh.append([point + [z1], last_point + [z0], last_point + [z1]])
         last_point = point
     return np.array(mesh)
 
-- 
2.43.0


From f4aba542244bc3851301661813cdc2ad4c78cd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:08 +0000
Subject: [PATCH 43/62] fix: triangles with three points on a line could be hit
 anywhere because of rounding errors

---
 cameratransform/ray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index b0a65d8..238b991 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -73,7 +73,9 @@ def ray_intersect_triangle(origin, direction, triangle, use_planes=False):
     rI[(b == 0.0)*(a == 0.0)] = 0
 
     # a triangle without an area does not define a plane and cannot be hit
-    rI[np.all(normal == 0.0, axis=-1)] = np.nan
+    # (the normal vector of three points on a line consists only of rounding errors)
+    normal_length, side_lengths = np.linalg.norm(normal, axis=-1), np.linalg.norm(u, axis=-1) * np.linalg.norm(v, axis=-1)
+    rI[normal_length <= 1e-12 * side_lengths] = np.nan
 
     # check whether the intersection is behind the origin of the ray
     rI[rI < 0.0] = np.nan
-- 
2.43.0


From f556a0295433df884fbd5ac1217d0595291691c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:33 +0000
Subject: [PATCH 44/62] fix: setCameraParametersByPointCorrespondence mixed up
 the directions of heading and translation of the second camera

---
 cameratransform/camera.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 53070db..eb8bd89 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -319,18 +319,24 @@ class CameraGroup(ClassWithParameterSet):
         cam1.roll_deg = 0
 
         def rotationToEuler(R):
+            # without tilt, roll and heading turn around the same axis
+            if np.hypot(R[0, 2], R[1, 2]) < 1e-8 and R[2, 2] > 0:
+                return np.array([0, 0, -np.rad2deg(np.arctan2(R[1, 0], R[0, 0]))])
             alpha = np.rad2deg(np.arctan2(R[0, 2], -R[1, 2]))
-            beta = np.rad2deg(np.arccos(R[2, 2]))
+            beta = np.rad2deg(np.arctan2(np.hypot(R[0, 2], R[1, 2]), R[2, 2]))
             gamma = np.rad2deg(np.arctan2(R[2, 0], R[2, 1]))
-            return np.array([180 + alpha, beta, 180 + gamma])
+            return np.array([180 + alpha, beta, 180 - gamma])
 
         roll, tilt, heading = rotationToEuler(rot)
+        # the translation is given in the coordinates of the second camera (with opencv's y and z axes pointing down and
+        # forwards), we need the position of the second camera
+        pos = np.array([1, -1, -1]) * np.dot(-rot.T, t[:, 0])
         data = dict(roll_deg=roll,
                     tilt_deg=tilt,
                     heading_deg=heading,
-                    pos_x_m=cam1.pos_x_m + t[0, 0]*baseline,
-                    pos_y_m=cam1.pos_y_m + t[1, 0]*baseline,
-                    elevation_m=cam1.elevation_m + t[2, 0]*baseline)
+                    pos_x_m=cam1.pos_x_m + pos[0]*baseline,
+                    pos_y_m=cam1.pos_y_m + pos[1]*baseline,
+                    elevation_m=cam1.elevation_m + pos[2]*baseline)
         print(data)
         cam2.parameters.set_fit_parameters(data.keys(), data.values())
 
-- 
2.43.0


From f91f43363e98bca39f778ac29beaa309b68fa255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:47 +0000
Subject: [PATCH 45/62] fix: plotFitInformation failed for object lengths given
 as an array

---
 cameratransform/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index eb8bd89..e7264ff 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -660,7 +660,7 @@ class Camera(ClassWithParameterSet):
             point3D_back = self.spaceFromImage(points_back, Z=Z)
             difference = point3D_back - point3D_front
             difference /= np.linalg.norm(difference, axis=-1)[..., None]
-            predicted_back = point3D_front + difference * length
+            predicted_back = point3D_front + difference * np.asarray(length)[..., None]
             projected_back = self.imageFromSpace(predicted_back)
 
             plt.scatter(projected_back[..., 0], projected_back[..., 1], label="back", facecolors='none',
-- 
2.43.0


From 89dfa8faf7958f98234726f6399e40d3d19aa8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:12 +0000
Subject: [PATCH 46/62] fix: set_to_mean failed for traces with repeated index
 values, e.g. concatenated ones

---
 cameratransform/parameter_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index 3562cf3..92a1383 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -198,8 +198,8 @@ class ClassWithParameterSet(object):
         if self.parameters.trace is not None:
             print(self.parameters.trace["probability"])
             print('self.parameters.trace["probability"]', self.parameters.trace["probability"].dtype)
-            most_probable_index = self.parameters.trace["probability"].idxmax()
-            parameter_set = dict(self.parameters.trace.loc[most_probable_index])
+            most_probable_index = self.parameters.trace["probability"].argmax()
+            parameter_set = dict(self.parameters.trace.iloc[most_probable_index])
             if "probability" in parameter_set:
                 del parameter_set["probability"]
             self.parameters.set_fit_parameters(parameter_set.keys(), parameter_set.values())
-- 
2.43.0


From 0ea898a028e029663cd8db853b7be4ced22263ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:37 +0000
Subject: [PATCH 47/62] fix: printTraceSummary failed for parameters which did
 not vary in the trace

---
 cameratransform/statistic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index 8f48bf4..dc9121d 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -25,6 +25,8 @@ import tqdm
 from scipy.stats import truncnorm
 
 def print_mean_std(x, y):
+    if y == 0:
+        return str(x) + "±" + str(y)
     digits = -int(floor(log10(abs(y))))
     return str(round(x, digits)) + "±" + str(round(y, 1+digits))
 
-- 
2.43.0


From 4fb9e0c2e8ee31ca46f81e2f417ffe04d8644672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:35 +0000
Subject: [PATCH 48/62] fix: a center tuple together with center_x_px=0 or
 center_y_px=0 was not rejected

---
 cameratransform/projection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index c58d124..5ef98c0 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -106,7 +106,7 @@ class CameraProjection(ClassWithParameterSet):
 
         """ if the image center is specified """
         # if the center is specified
-        if center and (center_x_px or center_y_px):
+        if center is not None and (center_x_px is not None or center_y_px is not None):
             raise ValueError("cannot provide center tuple and center_x_px and center_y_px")
         if center is not None:
             center_x_px, center_y_px = center
-- 
2.43.0


From 4f61a6fcb91925b95bb853e24e8a99dfa66ad2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:13 +0000
Subject: [PATCH 49/62] fix: a failed download left an error page or a part of
 the sensor database behind, which was then used as the database

---
 cameratransform/camera.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index e7264ff..9cf42eb 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -75,8 +75,12 @@ def _getSensorFromDatabase(model: str) -> Optional[Tuple[float, float]]:
     if not os.path.exists(database_filename):
         print("Downloading database from:", url)
         r = requests.get(url)
-        with open(database_filename, "w") as fp:
+        # an error page is not the database
+        r.raise_for_status()
+        # only a completely written file becomes the database
+        with open(database_filename + ".part", "w") as fp:
             fp.write(r.text)
+        os.replace(database_filename + ".part", database_filename)
     # load the database
     with open(database_filename, "r") as fp:
         data = fp.readlines()
-- 
2.43.0


From 05d56c254fa62dfcc025f8d6808b9a2b953d6610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:39 +0000
Subject: [PATCH 50/62] fix: the sensor size from the exif information was
 wrong if the resolution was given per centimeter

---
 cameratransform/camera.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 9cf42eb..8ef53c2 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -170,9 +170,11 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
         sensor_size = _getSensorFromDatabase(exif["Model"])
     # or from the exif information
     if not sensor_size or sensor_size is None:
+        # the resolution is given in pixels per inch (default) or per centimeter (3)
+        unit_mm = 10 if exif.get("FocalPlaneResolutionUnit") == 3 else 25.4
         sensor_size = (
-            exif["ExifImageWidth"] / to_float(exif["FocalPlaneXResolution"]) * 25.4,
-            exif["ExifImageHeight"] / to_float(exif["FocalPlaneYResolution"]) * 25.4)
+            exif["ExifImageWidth"] / to_float(exif["FocalPlaneXResolution"]) * unit_mm,
+            exif["ExifImageHeight"] / to_float(exif["FocalPlaneYResolution"]) * unit_mm)
     # get the image size
     image_size = (exif["ExifImageWidth"], exif["ExifImageHeight"])
     # print the output if desired
-- 
2.43.0


From 140346f914e6e3c3c626b34740727b1948caeebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:32 +0000
Subject: [PATCH 51/62] fix: rotateSpace also turns cameras with yaw, pitch and
 roll

---
 cameratransform/camera.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 8ef53c2..7248e9b 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1548,7 +1548,11 @@ class Camera(ClassWithParameterSet):
         delta_heading : number
             the number of degrees to rotate the camera clockwise.
         """
-        self.heading_deg += delta_heading
+        # the yaw is the heading in the yaw-pitch-roll system
+        if "yaw_deg" in self.parameters.parameters:
+            self.yaw_deg += delta_heading
+        else:
+            self.heading_deg += delta_heading
         delta_heading_rad = np.deg2rad(delta_heading)
         pos = np.array([self.pos_x_m, self.pos_y_m])
         s, c = np.sin(delta_heading_rad), np.cos(delta_heading_rad)
-- 
2.43.0


From 039a5176448c1c2481c17506d2cefa646f5b4669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:19 +0000
Subject: [PATCH 52/62] fix: renderImage used the size of an earlier rendered
 image

---
 cameratransform/scene.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cameratransform/scene.py b/cameratransform/scene.py
index 06a66ff..c113014 100644
--- a/cameratransform/scene.py
+++ b/cameratransform/scene.py
@@ -83,8 +83,11 @@ class Scene:  # pragma: no cover
 
     def renderImage(self, filename):
         import matplotlib.pyplot as plt
-        fig = plt.figure(0, (self.camera.projection.parameters.image_width_px / 100,
-                             self.camera.projection.parameters.image_height_px / 100))
+        size = (self.camera.projection.parameters.image_width_px / 100,
+                self.camera.projection.parameters.image_height_px / 100)
+        fig = plt.figure(0, size)
+        # the figure could already exist with a different size
+        fig.set_size_inches(size)
         ax = plt.axes([0, 0, 1, 1])
         im = np.zeros(
             [self.camera.projection.parameters.image_height_px, self.camera.projection.parameters.image_width_px])
-- 
2.43.0


From 72c5a1a87983b56d2502e2a5651abf0cd33e88e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 53/62] fix: plotTrace failed for traces whose index values are
 repeated

---
 cameratransform/statistic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index dc9121d..6185e99 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -190,7 +190,8 @@ def plotTrace(trace, N=None, show_mean_median=True, axes=None, just_distribution
         return trace_ax_dict[name]
 
     try:
-        most_probable_index = trace["probability"].idxmax()
+        # the position of the row, the index values might not be unique
+        most_probable_index = trace["probability"].argmax()
     except KeyError:
         most_probable_index = 0
 
@@ -231,7 +232,7 @@ def plotTrace(trace, N=None, show_mean_median=True, axes=None, just_distribution
         plt.ylabel("frequency")
         plt.xlabel(name)
         if show_mean_median:
-            plt.axvline(data[most_probable_index], color="r")
+            plt.axvline(data.iloc[most_probable_index], color="r")
             plt.axvline(np.mean(data), color="k")
 
         if not just_distributions:
@@ -239,7 +240,7 @@ def plotTrace(trace, N=None, show_mean_median=True, axes=None, just_distribution
             plt.title(name)
             plt.plot(data[::skip])
             if show_mean_median:
-                plt.axhline(data[most_probable_index], color="r")
+                plt.axhline(data.iloc[most_probable_index], color="r")
                 plt.axhline(np.mean(data), color="k")
             plt.ylabel("sampled value")
     #plt.tight_layout()
-- 
2.43.0


From af0c14dcbe4a98fa787ebd3d35624b7d9eaa02d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:55 +0000
Subject: [PATCH 54/62] fix: the height of the origin moved the points of
 gpsFromSpace sideways

---
 cameratransform/gps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index faa8d05..37d7b88 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -480,7 +480,8 @@ def gpsFromSpace(space, gps0):
     space = np.asarray(space)
     bearing = np.rad2deg(np.arctan2(space[..., 0], space[..., 1]))
     distance = np.linalg.norm(space[..., :2], axis=-1)
-    target = moveDistance(gps0, distance, bearing)
+    # the distance is measured on the ground, also if the origin is given with a height
+    target = moveDistance(np.array(gps0)[..., :2], distance, bearing)
     if space.shape[-1] == 3:
         return np.array([target[..., 0], target[..., 1], space[..., 2]]).T
     return target
-- 
2.43.0


From 8390ae8b9fae505971834c86bc3245252e5c1f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:16 +0000
Subject: [PATCH 55/62] fix: focallength_px of a copied camera changed the
 original

---
 cameratransform/projection.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 5ef98c0..1402b73 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -182,19 +182,9 @@ class CameraProjection(ClassWithParameterSet):
         self.__dict__.pop("image_height_px", None)
 
         # add parameter focallength_px that sets x and y simultaneously
-        fx = self.parameters.parameters["focallength_x_px"]
-        fy = self.parameters.parameters["focallength_y_px"]
+        # (a method and not a local function, so that a copy of the projection sets its own focal lengths)
         f = Parameter(focallength_x_px, type=TYPE_INTRINSIC)
-
-        def callback():
-            fx.value = f.value
-            if fx.callback is not None:
-                fx.callback()
-            fy.value = f.value
-            if fy.callback is not None:
-                fy.callback()
-
-        f.callback = callback
+        f.callback = self._setFocalLengths
         self.parameters.parameters["focallength_px"] = f
 
         if view_x_deg is not None or view_y_deg is not None:
@@ -204,6 +194,14 @@ class CameraProjection(ClassWithParameterSet):
                 if focallength_mm is not None and self.focallength_px and sensor_height_mm is not None:
                     self.sensor_height_mm = focallength_mm / self.focallength_y_px * self.image_height_px
 
+    def _setFocalLengths(self):
+        f = self.parameters.parameters["focallength_px"]
+        for name in ["focallength_x_px", "focallength_y_px"]:
+            parameter = self.parameters.parameters[name]
+            parameter.value = f.value
+            if parameter.callback is not None:
+                parameter.callback()
+
     def __str__(self):
         string = ""
         string += "  intrinsic (%s):\n" % type(self).__name__
-- 
2.43.0


From 62e4162b4d9be503eb7e82597665fd1e0ccf5144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:17 +0000
Subject: [PATCH 56/62] fix: an interrupted calculation of a map gave later
 calls a wrong map

---
 cameratransform/camera.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 7248e9b..3230e55 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1337,7 +1337,8 @@ class Camera(ClassWithParameterSet):
         # transform the space points to the image
         mesh_points_shape = self.lens.distortedFromImage(mesh_points)
 
-        # reshape the map and cache it
+        # reshape the map and cache it (while it is replaced, no state belongs to it)
+        self.last_state_undistort = None
         self.map_undistort = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
 
         self.last_extent_undistort = list(extent)
@@ -1426,7 +1427,8 @@ class Camera(ClassWithParameterSet):
         # transform the space points to the image
         mesh_points_shape = self.imageFromSpace(mesh_points, hide_backpoints=hide_backpoints)
 
-        # reshape the map and cache it
+        # reshape the map and cache it (while it is replaced, no state belongs to it)
+        self.last_state = None
         self.map = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
 
         self.last_extent = list(extent)
-- 
2.43.0


From 0e9273d7454e0c2bc192a0d4048c4ceb7088f988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:26 +0000
Subject: [PATCH 57/62] fix: several threads which use the maps of one camera
 got the maps of one another

---
 cameratransform/camera.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 3230e55..4f681bc 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1324,8 +1324,9 @@ class Camera(ClassWithParameterSet):
 
         # if we have cached the map, use the cached map
         state = self._getMapState(extent, scaling)
-        if self.map_undistort is not None and self.last_state_undistort == state:
-            return self.map_undistort
+        cached = self.last_state_undistort
+        if cached is not None and cached[0] == state:
+            return cached[1]
 
         # get a mesh grid
         mesh = np.array(np.meshgrid(np.arange(extent[0], extent[1], scaling),
@@ -1337,16 +1338,17 @@ class Camera(ClassWithParameterSet):
         # transform the space points to the image
         mesh_points_shape = self.lens.distortedFromImage(mesh_points)
 
-        # reshape the map and cache it (while it is replaced, no state belongs to it)
+        # reshape the map and cache it (together with its state, other threads might calculate another map meanwhile)
+        undistort_map = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
         self.last_state_undistort = None
-        self.map_undistort = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
+        self.map_undistort = undistort_map
 
         self.last_extent_undistort = list(extent)
         self.last_scaling_undistort = scaling
-        self.last_state_undistort = state
+        self.last_state_undistort = (state, undistort_map)
 
         # return the calculated map
-        return self.map_undistort
+        return undistort_map
 
     def undistortImage(self, image: Image, extent: List[Number] = None, scaling: Number=None,
                        do_plot: bool = False, alpha: Number = None, skip_size_check: bool = False) -> Image:
@@ -1408,8 +1410,9 @@ class Camera(ClassWithParameterSet):
 
         # if we have cached the map, use the cached map
         state = self._getMapState(extent, scaling, Z, hide_backpoints)
-        if self.map is not None and self.last_state == state:
-            return self.map
+        cached = self.last_state
+        if cached is not None and cached[0] == state:
+            return cached[1]
 
         # if no scaling is given, scale so that the resulting image has an equal amount of pixels as the original image
         if scaling is None:
@@ -1427,16 +1430,17 @@ class Camera(ClassWithParameterSet):
         # transform the space points to the image
         mesh_points_shape = self.imageFromSpace(mesh_points, hide_backpoints=hide_backpoints)
 
-        # reshape the map and cache it (while it is replaced, no state belongs to it)
+        # reshape the map and cache it (together with its state, other threads might calculate another map meanwhile)
+        top_map = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
         self.last_state = None
-        self.map = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
+        self.map = top_map
 
         self.last_extent = list(extent)
         self.last_scaling = scaling
-        self.last_state = state
+        self.last_state = (state, top_map)
 
         # return the calculated map
-        return self.map
+        return top_map
 
     def getTopViewOfImage(self, image: Image, extent: List[Number] = None, scaling: Number = None,
                           do_plot: bool = False, alpha: Number = None, Z: Number = 0., skip_size_check: bool = False,
-- 
2.43.0


From e4196d7bce0424736f9fc47ed596bbbf18561f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:55 +0000
Subject: [PATCH 58/62] fix: moving exactly to a pole gave a latitude of nan

---
 cameratransform/gps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 37d7b88..072e407 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -453,8 +453,9 @@ def moveDistance(start, distance, bearing):
     R = 6371e3
     if start.shape[-1] == 3:
         R += start[..., 2]
-    lat2 = np.arcsin(np.sin(lat1) * np.cos(distance / R) +
-                     np.cos(lat1) * np.sin(distance / R) * np.cos(bearing))
+    # (at the poles the rounding errors could result in a sine slightly greater than 1)
+    lat2 = np.arcsin(np.clip(np.sin(lat1) * np.cos(distance / R) +
+                     np.cos(lat1) * np.sin(distance / R) * np.cos(bearing), -1, 1))
 
     # both terms divided by cos(lat1), so that the direction is also defined at the poles
     lon2 = lon1 + np.arctan2(np.sin(bearing) * np.sin(distance / R),
-- 
2.43.0


From b6f11c7856b4edaca1088edfa5cb5251df9ccd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:21 +0000
Subject: [PATCH 59/62] fix: a flat log probability froze the chain after a
 long burn-in

---
 cameratransform/statistic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index 6185e99..74a4713 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -107,7 +107,8 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
 
             # draw a new position
             # next_pos = last_pos + np.random.normal(0, step*adaptive_scale_factor, N)
-            scaled_step = adaptive_scale_factor*step
+            # (steps far wider than the bounds would be rounded to zero when they are truncated)
+            scaled_step = np.minimum(adaptive_scale_factor*step, 1000*(ranges[:,1]-ranges[:,0]))
             next_pos = last_pos + scaled_step*truncnorm((ranges[:,0]-last_pos)/scaled_step, (ranges[:,1]-last_pos)/scaled_step).rvs()
             # get the probability
             next_prob = getLogProb(list(next_pos) + next_prior_trace)
-- 
2.43.0


From 6e0802840649e098d3794f28a1d666319282bcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:45 +0000
Subject: [PATCH 60/62] fix: samples next to the bounds of a parameter were too
 rare

---
 cameratransform/statistic.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index 74a4713..6e20551 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -22,6 +22,7 @@ from scipy import stats
 from math import log10, floor
 import tqdm
 
+from scipy.special import ndtr
 from scipy.stats import truncnorm
 
 def print_mean_std(x, y):
@@ -86,6 +87,11 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
         ranges[:,1][np.isnan(ranges[:,1])] = np.inf
     step = np.array(step)
 
+    def log_mass(pos, scale):
+        # the part of the normal distribution of the steps which is inside of the bounds
+        pos = np.clip(pos, ranges[:,0], ranges[:,1])
+        return np.sum(np.log(ndtr((ranges[:,1]-pos)/scale) - ndtr((ranges[:,0]-pos)/scale)))
+
     adaptive_scale_factor = 1
     tuning = True
 
@@ -116,6 +122,8 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
             ratio = next_prob - last_prob
             if np.isinf(next_prob) and np.isinf(last_prob):
                 ratio = 0
+            # next to the bounds the steps are truncated and therefore not symmetric
+            ratio += log_mass(last_pos, scaled_step) - log_mass(next_pos, scaled_step)
             # accept depending on the ratio (>1 means accept always, 0 never)
             r = np.random.rand()
             if ratio >= 0 or r < np.exp(ratio):
-- 
2.43.0


From c24fbccb5ecde3f5a0bb621af15704df7b46d49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 61/62] fix: rows of a chain with a prior trace did not belong
 to their probability

---
 cameratransform/statistic.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index 6e20551..b0a3b04 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -96,18 +96,19 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
     tuning = True
 
     if prior_trace is not None:
-        next_prior_trace = list(prior_trace.loc[np.random.randint(len(prior_trace))])[:-1]
+        next_prior_trace = list(prior_trace.iloc[np.random.randint(len(prior_trace))])[:-1]
     else:
         next_prior_trace = []
 
     # initialize the start position
     last_pos = start
+    last_prior_trace = next_prior_trace
     last_prob = getLogProb(list(last_pos) + next_prior_trace)
     # iterate to sample
     with tqdm.trange(int(iterations), disable=disable_bar) as t:
         for i in t:
             if prior_trace is not None:
-                next_prior_trace = list(prior_trace.loc[np.random.randint(len(prior_trace))])[:-1]
+                next_prior_trace = list(prior_trace.iloc[np.random.randint(len(prior_trace))])[:-1]
             else:
                 next_prior_trace = []
 
@@ -130,13 +131,13 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
                 # count accepted values
                 accepted += 1
                 # store position
-                last_pos, last_prob = next_pos, next_prob
+                last_pos, last_prob, last_prior_trace = next_pos, next_prob, next_prior_trace
             else:
                 rejected += 1
 
             # add to trace after skipping the first points
             if i > burn:
-                trace.append(list(last_pos) + next_prior_trace + [last_prob])
+                trace.append(list(last_pos) + last_prior_trace + [last_prob])
             else:
                 if i > 100 and i % 100 == 0 and tuning:
                     acc_rate = accepted / (accepted + rejected)
-- 
2.43.0


From d389f47366551647b3ea38da7c7c7d5d1778eed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:36 +0000
Subject: [PATCH 62/62] fix: fridge evaluated the log probability of other
 parameters than it sampled

---
 cameratransform/parameter_set.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index 92a1383..fb8b366 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -332,7 +332,12 @@ class ClassWithParameterSet(object):
             from bayesianfridge import sample
 
             # we create our own model mimicking a pymc model
-            model = Model(parameter+self.additional_parameters, self.getLogProbability)
+            # (the probability of the current values of the parameters)
+            def getLogProb():
+                self.parameters.set_fit_parameters([p.__name__ for p in parameter], [p.value[()] for p in parameter])
+                return self.getLogProbability()
+
+            model = Model(parameter+self.additional_parameters, getLogProb)
 
         else:
             import pymc
@@ -357,6 +362,8 @@ class ClassWithParameterSet(object):
         import tqdm
         for values in tqdm.tqdm(data):
             self.parameters.set_fit_parameters(columns, values)
+            for param, value in zip(self.additional_parameters, values[len(parameter):]):
+                param.set_value(value)
             logprob = self.getLogProbability()
             probability.append(logprob)
         trace = pd.DataFrame(np.hstack((data, np.array(probability)[:, None])), columns=columns + ["probability"])
-- 
2.43.0

