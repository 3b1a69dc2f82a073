From a06a4004b61ad2c55dd2e942c7fbeaf8a22a163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:21 +0000
Subject: [PATCH 01/45] fix: unit dimensions that cancel raised AttributeError

Popping the cancelled power from the integer new_power instead of the list of
powers made the dimension of, say, km / m or m / s * hr impossible to compute.
---
 celest/units/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/units/display.py b/celest/units/display.py
index c08645f..2872a03 100644
--- a/celest/units/display.py
+++ b/celest/units/display.py
@@ -90,7 +90,7 @@ def get_dimensions_from_unit(unit):
             new_power = dimension_powers[dimension_index] + power
             if new_power == 0:
                 dimensions.pop(dimension_index)
-                new_power.pop(dimension_index)
+                dimension_powers.pop(dimension_index)
             else:
                 dimension_powers[dimension_index] = new_power
         else:
-- 
2.43.0


From fd90613cdc0be44629856c85e9aa95a312a30fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:21 +0000
Subject: [PATCH 02/45] fix: dimension strings depended on the order of the
 factors

Quantities are compatible when their dimension strings match, but m * s gave
'L T' and s * m gave 'T L', so equal dimensions were rejected.
---
 celest/units/display.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/celest/units/display.py b/celest/units/display.py
index 2872a03..776fc0f 100644
--- a/celest/units/display.py
+++ b/celest/units/display.py
@@ -57,13 +57,18 @@ UNIT_TO_DIMENSION_DICTIONARY = {
 }
 
 
+DIMENSION_ORDER = ["L", "T", "D", "A"]
+
+
 def get_dimension_string(unit):
     numerator_strings = []
     denominator_strings = []
 
     dimensions, powers = get_dimensions_from_unit(unit)
 
-    for dimension, power in zip(dimensions, powers):
+    # A fixed order gives equal dimensions equal strings: m s and s m.
+    for dimension, power in sorted(zip(dimensions, powers),
+                                   key=lambda x: DIMENSION_ORDER.index(x[0])):
         unit_string = dimension + ("" if abs(power) == 1 else str(abs(power)))
         if power > 0:
             numerator_strings.append(unit_string)
-- 
2.43.0


From d92f0430d43940dc59d3a82f9ebccd5863a1c1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:40 +0000
Subject: [PATCH 03/45] fix: powers of nested compound units were dropped when
 collecting factors

m / (m * s) gave m2 / s because a repeated base of a nested compound unit was
collected with its own power instead of its power times the outer one. Zero
powers of compound units are now dropped as those of simple units are.
---
 celest/units/core.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/celest/units/core.py b/celest/units/core.py
index 586e3f0..83bbb6f 100644
--- a/celest/units/core.py
+++ b/celest/units/core.py
@@ -271,14 +271,13 @@ class CompoundUnit(BaseUnit):
         for base, power in zip(self._bases, self._powers):
             if isinstance(base, CompoundUnit):
                 for b, p in zip(base.bases, base.powers):
-                    if b not in bases:
-                        if b not in bases:
-                            bases.append(b)
-                            powers.append(p * power)
-                        else:
-                            handle_repeated_units(b, p * power)
+                    if not p * power:
+                        continue
+                    elif b not in bases:
+                        bases.append(b)
+                        powers.append(p * power)
                     else:
-                        handle_repeated_units(b, p)
+                        handle_repeated_units(b, p * power)
             elif base not in bases:
                 bases.append(base)
                 powers.append(power)
-- 
2.43.0


From 6bf1f2f8feca65fdc3adf6055c923c26fca96e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:14 +0000
Subject: [PATCH 04/45] fix: numeric factors of compound units were lost or
 counted twice

Quantity(1, 1000 * u.m).to(u.m) ignored the factor, 2 * (5 * (u.m / u.s)) lost
the inner one, and u.km ** 2 printed as '1000000.0 km2' because the scale of a
single base was folded into the factor.
---
 celest/units/core.py     | 25 +++++++++++++++++++++----
 celest/units/quantity.py | 15 +++------------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/celest/units/core.py b/celest/units/core.py
index 83bbb6f..91cb4b9 100644
--- a/celest/units/core.py
+++ b/celest/units/core.py
@@ -166,7 +166,7 @@ class Unit(NamedUnit, BaseUnit):
         super().__init__(short_name, long_name, namespace)
 
         if base_units is not None:
-            self._scale = base_units.scale
+            self._scale = total_scale(base_units)
             self._bases = base_units.bases
             self._powers = base_units.powers
         else:
@@ -199,6 +199,21 @@ class Unit(NamedUnit, BaseUnit):
         return self._powers
 
 
+def total_scale(unit: BaseUnit) -> float:
+    """Return the factor from a unit to its elementary units.
+
+    The scale of a compound unit is only its numeric factor; it does not include
+    the scales of its bases.
+    """
+
+    scale = unit.scale
+    if isinstance(unit, CompoundUnit):
+        for base, power in zip(unit.bases, unit.powers):
+            scale *= base.scale ** power
+
+    return scale
+
+
 class CompoundUnit(BaseUnit):
     """CompoundUnit(scale, bases, powers)
 
@@ -222,12 +237,12 @@ class CompoundUnit(BaseUnit):
         base = bases[0]
         power = powers[0]
         if not isinstance(base, CompoundUnit) and len(bases) == 1 and power >= 0:
+            self._scale = scale
             if power == 0:
-                self._scale = scale * base.scale
                 self._bases = []
                 self._powers = []
+                self._is_unity = scale == 1
             else:
-                self._scale = scale * base.scale ** power
                 self._bases = bases
                 self._powers = powers
         else:
@@ -270,6 +285,8 @@ class CompoundUnit(BaseUnit):
 
         for base, power in zip(self._bases, self._powers):
             if isinstance(base, CompoundUnit):
+                if base.scale != 1:
+                    self._scale *= base.scale ** power
                 for b, p in zip(base.bases, base.powers):
                     if not p * power:
                         continue
@@ -287,7 +304,7 @@ class CompoundUnit(BaseUnit):
         self._bases = bases
         self._powers = powers
 
-        self._is_unity = True if not len(self._bases) else False
+        self._is_unity = not len(self._bases) and self._scale == 1
 
     def is_unity(self) -> bool:
         return self._is_unity
diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index 942c33a..ff8fe30 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -1,6 +1,6 @@
 
 
-from celest.units.core import CompoundUnit, Unit
+from celest.units.core import CompoundUnit, Unit, total_scale
 from copy import deepcopy
 from typing import Any, Union
 
@@ -278,20 +278,11 @@ class Quantity:
             raise ValueError(
                 "New unit has a different dimension then the current unit.")
 
-        def _get_unit_scale(unit):
-            if isinstance(unit, CompoundUnit):
-                scale = 1.0
-                for base, power in zip(unit.bases, unit.powers):
-                    scale *= base.scale ** power
-                return scale
-            else:
-                return unit.scale
-
         quantity_copy = deepcopy(self)
 
         if repr(quantity_copy._unit) != repr(new_unit):
-            quantity_copy._data *= _get_unit_scale(
-                quantity_copy.unit) / _get_unit_scale(new_unit)
+            quantity_copy._data *= total_scale(
+                quantity_copy.unit) / total_scale(new_unit)
             quantity_copy._unit = new_unit
 
         return quantity_copy
-- 
2.43.0


From 0819a76bf3c2acb1db7819c910028924d57304e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:14 +0000
Subject: [PATCH 05/45] fix: integer arrays could not be converted to another
 unit

The in-place multiplication by a float scale raised a casting error for
quantities of integer arrays.
---
 celest/units/quantity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index ff8fe30..728304d 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -281,8 +281,8 @@ class Quantity:
         quantity_copy = deepcopy(self)
 
         if repr(quantity_copy._unit) != repr(new_unit):
-            quantity_copy._data *= total_scale(
-                quantity_copy.unit) / total_scale(new_unit)
+            quantity_copy._data = quantity_copy._data * (total_scale(
+                quantity_copy.unit) / total_scale(new_unit))
             quantity_copy._unit = new_unit
 
         return quantity_copy
-- 
2.43.0


From 477b28913be94ab4d4eba44111c3f1dd86cccd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:43 +0000
Subject: [PATCH 06/45] fix: !=, <= and >= of quantities failed for arrays and
 non-quantities

They were built with 'not' and 'or' from the other comparisons, which raised
ValueError for array data and called any quantity equal to a non-quantity.
---
 celest/units/quantity.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index 728304d..e13cbba 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -181,7 +181,13 @@ class Quantity:
             return NotImplemented
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        if isinstance(other, Quantity):
+            if self._unit.dimension != other._unit.dimension:
+                raise ArithmeticError(
+                    "Unit dimensions must match for comparison.")
+            return self._data != other.to(self._unit)
+        else:
+            return NotImplemented
 
     def __lt__(self, other):
         if isinstance(other, Quantity):
@@ -193,7 +199,13 @@ class Quantity:
             return NotImplemented
 
     def __le__(self, other):
-        return self.__eq__(other) or self.__lt__(other)
+        if isinstance(other, Quantity):
+            if self._unit.dimension != other._unit.dimension:
+                raise ArithmeticError(
+                    "Unit dimensions must match for comparison.")
+            return self._data <= other.to(self._unit)
+        else:
+            return NotImplemented
 
     def __gt__(self, other):
         if isinstance(other, Quantity):
@@ -205,7 +217,13 @@ class Quantity:
             return NotImplemented
 
     def __ge__(self, other):
-        return self.__eq__(other) or self.__gt__(other)
+        if isinstance(other, Quantity):
+            if self._unit.dimension != other._unit.dimension:
+                raise ArithmeticError(
+                    "Unit dimensions must match for comparison.")
+            return self._data >= other.to(self._unit)
+        else:
+            return NotImplemented
 
     @property
     def data(self) -> Any:
-- 
2.43.0


From edf111f15e99a72ee58c2d5e0fc3d4487b23eba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:19 +0000
Subject: [PATCH 07/45] fix: frames accepted coordinate arrays of mismatched
 lengths

The chained != only rejected inputs where every adjacent pair differed.
---
 celest/coordinates/frames/base_positions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/coordinates/frames/base_positions.py b/celest/coordinates/frames/base_positions.py
index 48fb461..e7c8eee 100644
--- a/celest/coordinates/frames/base_positions.py
+++ b/celest/coordinates/frames/base_positions.py
@@ -23,7 +23,7 @@ class Position2d:
 
         if time.ndim != 1 or x.ndim != 1 or y.ndim != 1:
             raise ValueError("Input arrays should be one dimensional.")
-        if time.size != x.size != y.size:
+        if not time.size == x.size == y.size:
             raise ValueError("Input arrays should have the same length.")
 
         self._x = Quantity(x, x_unit)
@@ -79,7 +79,7 @@ class Position3d:
 
         if time.ndim != 1 or x.ndim != 1 or y.ndim != 1 or z.ndim != 1:
             raise ValueError("Input arrays should be one dimensional.")
-        if time.size != x.size != y.size != z.size:
+        if not time.size == x.size == y.size == z.size:
             raise ValueError("Input arrays should have the same length.")
 
         self._x = Quantity(x, x_unit)
-- 
2.43.0


From bf6510c0ebd37ab4b3d8750db095d9d809b125ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:59 +0000
Subject: [PATCH 08/45] fix: ground location limits were checked in the given
 unit, not in degrees

A latitude of 2 rad was accepted and one of 3000 arcmin rejected.
---
 celest/coordinates/ground_location.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/celest/coordinates/ground_location.py b/celest/coordinates/ground_location.py
index afa628c..10a27ef 100644
--- a/celest/coordinates/ground_location.py
+++ b/celest/coordinates/ground_location.py
@@ -70,13 +70,14 @@ class GroundLocation:
             Unit of the `height` measure.
         """
 
-        if latitude < -90 or latitude > 90:
+        self._latitude = Quantity(latitude, angular_unit)
+        self._longitude = Quantity(longitude, angular_unit)
+
+        if not -90 <= self._latitude.to(u.deg) <= 90:
             raise ValueError("Latitude must be between -90 and 90 degrees.")
-        if longitude < -180 or longitude > 180:
+        if not -180 <= self._longitude.to(u.deg) <= 180:
             raise ValueError("Longitude must be between -180 and 180 degrees.")
 
-        self._latitude = Quantity(latitude, angular_unit)
-        self._longitude = Quantity(longitude, angular_unit)
         self._height = Quantity(height, length_unit)
 
     def __str__(self) -> str:
-- 
2.43.0


From a34498dd94eceb284739b9dec50a52404e4d5c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:18 +0000
Subject: [PATCH 09/45] fix: geodetic latitude and height of Earth-fixed
 positions

The latitude was the geocentric one (up to 0.19 deg off, so converting to WGS84
and back moved a position by up to 21 km). The height iteration was singular at
the poles, and its stopping rule used the mean of signed differences, so it
stopped early and made a sample's height depend on the other samples.
---
 celest/coordinates/transforms.py | 41 ++++++++++++++------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 0e0f45b..57494e9 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -180,11 +180,9 @@ def _itrs_to_wgs84(itrs: ITRS) -> WGS84:
 
     itrs_x = itrs.x.to(u.km)
     itrs_y = itrs.y.to(u.km)
-    itrs_z = itrs.z.to(u.km)
 
-    latitude = np.arctan(itrs_z / np.sqrt(itrs_x ** 2 + itrs_y ** 2))
+    latitude, height = _geodetic_latitude_and_height(itrs)
     longitude = np.arctan2(itrs_y, itrs_x)
-    height = _altitude(itrs)
 
     return WGS84(julian, latitude, longitude, height, u.rad, u.km)
 
@@ -221,34 +219,31 @@ def _altitude(itrs: ITRS) -> np.ndarray:
         raise ValueError(f"Input data is in the {itrs.__class__} frame and not"
                          " the ITRS frame.")
 
-    a, b = WGS84_MAJOR_AXIS_KM, WGS84_MINOR_AXIS_KM
+    return _geodetic_latitude_and_height(itrs)[1]
 
-    tol = 10e-10
 
-    itrs_x = itrs.x.to(u.km)
-    itrs_y = itrs.y.to(u.km)
-    itrs_z = itrs.z.to(u.km)
-
-    e = np.sqrt(1 - b ** 2 / a ** 2)
-    p = np.sqrt(itrs_x ** 2 + itrs_y ** 2)
+def _geodetic_latitude_and_height(itrs: ITRS) -> Tuple[np.ndarray, np.ndarray]:
+    a, b = WGS84_MAJOR_AXIS_KM, WGS84_MINOR_AXIS_KM
 
-    h = np.sqrt(itrs_x ** 2 + itrs_y ** 2 + itrs_z ** 2) - np.sqrt(a * b)
-    phi = np.arctan((itrs_z / p) * (1 - (e ** 2 * a) / (a + h)) ** -1)
+    tol = 1e-12
+    max_iterations = 50
 
-    def new_vals(a, b, e, p, phi, z):
-        N = a / np.sqrt(np.cos(phi) ** 2 + b ** 2 / a ** 2 * np.sin(phi) ** 2)
-        h = p / np.cos(phi) - N
-        phi = np.arctan((z / p) * (1 - (e ** 2 * N) / (N + h)) ** -1)
+    p = np.hypot(itrs.x.to(u.km), itrs.y.to(u.km))
+    z = itrs.z.to(u.km)
 
-        return h, phi
+    e2 = 1 - b ** 2 / a ** 2
+    phi = np.arctan2(z, p * (1 - e2))
 
-    hp, phip = new_vals(a, b, e, p, phi, itrs_z)
+    for _ in range(max_iterations):
+        previous_phi = phi
+        N = a / np.sqrt(1 - e2 * np.sin(phi) ** 2)
+        phi = np.arctan2(z + e2 * N * np.sin(phi), p)
+        if not np.any(np.abs(phi - previous_phi) > tol):
+            break
 
-    while (np.mean(hp - h) > a * tol) or (np.mean(phip - phi) > tol):
-        h, phi = hp, phip
-        hp, phip = new_vals(a, b, e, p, phi, itrs_z)
+    h = p * np.cos(phi) + z * np.sin(phi) - a * np.sqrt(1 - e2 * np.sin(phi) ** 2)
 
-    return h
+    return phi, h
 
 
 def _wgs84_to_itrs(wgs84: WGS84) -> ITRS:
-- 
2.43.0


From a19a123016cff58f32e44b1fae0ddd1835372d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:04 +0000
Subject: [PATCH 10/45] fix: azimuth and elevation were not those of the local
 horizon

Azimuths were 180 deg off south of the equator and NaN on it, and up to 7 deg
off elsewhere; elevations were measured from the geocentric, not the geodetic,
horizon and were NaN overhead. Both now come from east-north-up components.
---
 celest/coordinates/transforms.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 57494e9..2b0a09b 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -350,25 +350,23 @@ def _azimuth(itrs: ITRS, location: GroundLocation) -> np.ndarray:
         location.itrs_z.to(u.km)
     ])
 
-    latitude = location.latitude.to(u.rad)
-    radius = location.radius.to(u.km)
+    east, north, _ = _east_north_up_components(sat_itrs - ground_itrs, location)
 
-    ground_to_satellite = sat_itrs - ground_itrs
+    return np.degrees(np.arctan2(east, north)) % 360
 
-    z_axis_vector = [0, 0, radius / np.sin(latitude)]
-    surface_tangent = z_axis_vector - ground_itrs
 
-    sat_to_ground_on_normal = np.dot(ground_to_satellite, ground_itrs) / radius ** 2
-    sat_to_ground_on_normal = np.array([sat_to_ground_on_normal *
-                                        ground_itrs[i] for i in range(3)]).T
-    ground_to_sat_on_plane = ground_to_satellite - sat_to_ground_on_normal
+def _east_north_up_components(vectors: np.ndarray, location: GroundLocation) -> Tuple:
+    latitude = location.latitude.to(u.rad)
+    longitude = location.longitude.to(u.rad)
 
-    direction = np.cross(surface_tangent, ground_itrs)
-    negative_indices = np.sum(ground_to_sat_on_plane * direction, axis=1) < 0
-    azimuth = _get_ang(surface_tangent, ground_to_sat_on_plane)
-    azimuth = 360 * negative_indices - 1 * (2 * negative_indices - 1) * azimuth
+    s1, c1 = np.sin(latitude), np.cos(latitude)
+    s2, c2 = np.sin(longitude), np.cos(longitude)
 
-    return azimuth
+    return (
+        np.dot(vectors, [-s2, c2, 0]),
+        np.dot(vectors, [-s1 * c2, -s1 * s2, c1]),
+        np.dot(vectors, [c1 * c2, c1 * s2, s1])
+    )
 
 
 def _get_ang(u, v) -> np.ndarray:
@@ -421,7 +419,9 @@ def _elevation(itrs: ITRS, location: GroundLocation) -> np.ndarray:
         location.itrs_z.to(u.km)
     ])
 
-    return 90 - _get_ang(sat_itrs - ground_itrs, ground_itrs)
+    east, north, up = _east_north_up_components(sat_itrs - ground_itrs, location)
+
+    return np.degrees(np.arctan2(up, np.hypot(east, north)))
 
 
 def _gcrs_to_lvlh(gcrs_position: GCRS, gcrs_velocity: GCRS) -> Tuple[LVLH, LVLH]:
-- 
2.43.0


From 05e2ec55578ab3be64f815826af0d1cd852b7e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:04 +0000
Subject: [PATCH 11/45] fix: angle between parallel vectors could be NaN

Rounding can take the cosine just outside [-1, 1], for instance for the
look-angle of a satellite exactly overhead.
---
 celest/coordinates/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 2b0a09b..7fb3f06 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -391,7 +391,7 @@ def _get_ang(u, v) -> np.ndarray:
 
     numerator = np.sum(u * v, axis=(ua or va))
     denominator = np.linalg.norm(u, axis=ua) * np.linalg.norm(v, axis=va)
-    ang = np.degrees(np.arccos(numerator / denominator))
+    ang = np.degrees(np.arccos(np.clip(numerator / denominator, -1, 1)))
 
     return ang
 
-- 
2.43.0


From 3e79d3fa6454506da5f1d6897ea8cf64c3bb784c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:29 +0000
Subject: [PATCH 12/45] fix: nutation was applied about the wrong axis

The nutation in longitude was a rotation about the y axis; it is one about the
pole of the ecliptic, R1(-(eps + deps)) R3(-dpsi) R1(eps). The matrix was up to
26 arcsec from the IAU one and is now within 0.4 arcsec of it.
---
 .../coordinates/nutation_precession_matrices.py  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/celest/coordinates/nutation_precession_matrices.py b/celest/coordinates/nutation_precession_matrices.py
index b020d0e..49352b2 100644
--- a/celest/coordinates/nutation_precession_matrices.py
+++ b/celest/coordinates/nutation_precession_matrices.py
@@ -143,13 +143,13 @@ def nutation_matrix(julian: Quantity) -> np.ndarray:
 
     matrix = np.zeros((julian.data.size, 3, 3))
     matrix[:, 0, 0] = c2
-    matrix[:, 0, 1] = s1 * s2
-    matrix[:, 0, 2] = - c1 * s2
-    matrix[:, 1, 0] = s2 * s3
-    matrix[:, 1, 1] = c1 * c3 - s1 * c2 * s3
-    matrix[:, 1, 2] = s1 * c3 + c1 * c2 * s3
-    matrix[:, 2, 0] = s2 * c3
-    matrix[:, 2, 1] = - c1 * s3 - s1 * c2 * c3
-    matrix[:, 2, 2] = - s1 * s3 + c1 * c2 * c3
+    matrix[:, 0, 1] = c1 * s2
+    matrix[:, 0, 2] = s1 * s2
+    matrix[:, 1, 0] = - s2 * c3
+    matrix[:, 1, 1] = - s1 * s3 + c1 * c2 * c3
+    matrix[:, 1, 2] = c1 * s3 + s1 * c2 * c3
+    matrix[:, 2, 0] = s2 * s3
+    matrix[:, 2, 1] = - s1 * c3 - c1 * c2 * s3
+    matrix[:, 2, 2] = c1 * c3 - s1 * c2 * s3
 
     return matrix
-- 
2.43.0


From eced37346872b3fddb5613f79306504884272084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:19 +0000
Subject: [PATCH 13/45] fix: precession was applied with the wrong sense and
 without sidereal time

The first precession rotation is by -zeta, and the equinox-based precession and
nutation go with the apparent sidereal time, not the Earth rotation angle. The
two errors mostly cancelled, leaving 12 to 47 arcsec between 1900 and 2100; the
GCRS to ITRS rotation is now within 3 arcsec of the IAU 2006/2000A one.
---
 .../coordinates/nutation_precession_matrices.py  |  2 +-
 celest/coordinates/transforms.py                 | 16 +++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/celest/coordinates/nutation_precession_matrices.py b/celest/coordinates/nutation_precession_matrices.py
index 49352b2..e11cc97 100644
--- a/celest/coordinates/nutation_precession_matrices.py
+++ b/celest/coordinates/nutation_precession_matrices.py
@@ -82,7 +82,7 @@ def precession_matrix(julian: Quantity) -> np.ndarray:
 
     zeta, theta, z = conventional_precession_angles(julian)
 
-    a1 = zeta.to(u.rad)
+    a1 = - zeta.to(u.rad)
     a2 = theta.to(u.rad)
     a3 = - z.to(u.rad)
 
diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 7fb3f06..3b9fe46 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -1,6 +1,5 @@
 
 
-from celest.coordinates.astronomical_quantities import earth_rotation_angle
 from celest.coordinates.frames.azel import AzEl
 from celest.coordinates.frames.gcrs import GCRS
 from celest.coordinates.frames.itrs import ITRS
@@ -17,6 +16,7 @@ from celest.constants import (
     WGS84_MAJOR_AXIS_KM,
     WGS83_FIRST_ECCENTRICITY
 )
+from celest.units.quantity import Quantity
 from celest import units as u
 from copy import deepcopy
 from typing import Tuple
@@ -61,7 +61,7 @@ def _gcrs_to_itrs(gcrs: GCRS) -> ITRS:
     gcrs_z = gcrs.z.data.reshape((-1, 1))
     gcrs = np.concatenate((gcrs_x, gcrs_y, gcrs_z), axis=1)
 
-    era = earth_rotation_angle(julian)
+    gast = _greenwich_apparent_sidereal_time(julian)
     bias_mtrx = bias_matrix()
     precession_mtrx = precession_matrix(julian)
     nutation_mtrx = nutation_matrix(julian)
@@ -70,11 +70,17 @@ def _gcrs_to_itrs(gcrs: GCRS) -> ITRS:
     itrs = np.einsum('ijk, ik -> ij', precession_mtrx, itrs)
     itrs = np.einsum('ijk, ik -> ij', nutation_mtrx, itrs)
 
-    itrs = _rotate_by_earth_rotation_angle(itrs, -era)
+    itrs = _rotate_by_earth_rotation_angle(itrs, -gast)
 
     return ITRS(julian.data, itrs[:, 0], itrs[:, 1], itrs[:, 2], unit)
 
 
+def _greenwich_apparent_sidereal_time(julian: Quantity) -> Quantity:
+    from celest.time import Time  # Imported here as celest.time imports this package.
+
+    return Time(julian.to(u.jd2000)).gast()
+
+
 def _rotate_by_earth_rotation_angle(data, degree_era):
     """Rotate vectors about the z-axis by the Earth rotation angle.
 
@@ -140,12 +146,12 @@ def _itrs_to_gcrs(itrs: ITRS) -> GCRS:
     itrs_z = itrs.z.data.reshape((-1, 1))
     itrs = np.concatenate((itrs_x, itrs_y, itrs_z), axis=1)
 
-    era = earth_rotation_angle(julian)
+    gast = _greenwich_apparent_sidereal_time(julian)
     bias_mtrx = bias_matrix()
     precession_mtrx = precession_matrix(julian)
     nutation_mtrx = nutation_matrix(julian)
 
-    gcrs = _rotate_by_earth_rotation_angle(itrs, era)
+    gcrs = _rotate_by_earth_rotation_angle(itrs, gast)
 
     gcrs = np.einsum('ijk, ik -> ij', np.linalg.inv(nutation_mtrx), gcrs)
     gcrs = np.einsum('ijk, ik -> ij', np.linalg.inv(precession_mtrx), gcrs)
-- 
2.43.0


From e4d9ed5da7b7d5f34d85cb49929b6da816e70fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:05 +0000
Subject: [PATCH 14/45] fix: calendar dates were wrong around 1582 and century
 years

The Gregorian calendar starts at JD 2299161, not 2291161, and has 36524.25 days
per century, not 36525, which put the first days of March 1900 and 2100 a day
off. Arrays mixing dates of both calendars raised a broadcasting error.
---
 celest/coordinates/astronomical_quantities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/celest/coordinates/astronomical_quantities.py b/celest/coordinates/astronomical_quantities.py
index a6ac344..2161119 100644
--- a/celest/coordinates/astronomical_quantities.py
+++ b/celest/coordinates/astronomical_quantities.py
@@ -402,9 +402,9 @@ def from_julian(julian: Quantity) -> Tuple:
         jd = np.array(julian.to(u.jd2000)) + 0.5
     a, f = jd.astype(int), jd % 1
 
-    ind = np.where(a >= 2291161)[0]
-    alpha = ((a[ind] - 1867216.25) / DAYS_IN_JULIAN_CENTURY).astype(int)
-    a[ind] = a + 1 + alpha - (alpha / 4).astype(int)
+    ind = np.where(a >= 2299161)[0]
+    alpha = ((a[ind] - 1867216.25) / 36524.25).astype(int)
+    a[ind] = a[ind] + 1 + alpha - (alpha / 4).astype(int)
 
     b = a + 1524
     c = ((b - 122.1) / DAYS_PER_YEAR).astype(int)
-- 
2.43.0


From 6d9504d62dde0afd89bf092cfb0ae4c594229ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:05 +0000
Subject: [PATCH 15/45] fix: day of year counted 1900, 2100 and the like as
 leap years

---
 celest/coordinates/astronomical_quantities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/celest/coordinates/astronomical_quantities.py b/celest/coordinates/astronomical_quantities.py
index 2161119..699a131 100644
--- a/celest/coordinates/astronomical_quantities.py
+++ b/celest/coordinates/astronomical_quantities.py
@@ -461,7 +461,8 @@ def day_of_year(julian: Quantity) -> np.ndarray:
     year, month, day = from_julian(julian)
 
     K = np.full(day.shape, 2)
-    K[np.where(year % 4 == 0)] = 1
+    gregorian_common = (year > 1582) & (year % 100 == 0) & (year % 400 != 0)
+    K[np.where((year % 4 == 0) & ~gregorian_common)] = 1
 
     N = (275 * month / 9).astype(int)
     N = N - K * ((month + 9) / 12).astype(int) + day - 30
-- 
2.43.0


From 8c222a0ca66830decd13195c8f23175389eb3c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:05 +0000
Subject: [PATCH 16/45] fix: apparent sidereal time could fall outside 0 to 24
 hours

---
 celest/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/time.py b/celest/time.py
index 5ebabed..45e58e4 100644
--- a/celest/time.py
+++ b/celest/time.py
@@ -480,7 +480,7 @@ class Time:
         gmst = self.gmst().to(u.hourangle)
         eqn_of_equinoxes = equation_of_equinoxes(self.julian).to(u.deg)
 
-        return Quantity(gmst + eqn_of_equinoxes, u.hourangle)
+        return Quantity((gmst + eqn_of_equinoxes) % 24, u.hourangle)
 
     def last(self, longitude: np.ndarray) -> Quantity:
         """Return Local Apparent Sidereal Time.
-- 
2.43.0


From de04d6c15f3088990948a44265a98dc0486b4f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:50 +0000
Subject: [PATCH 17/45] fix: local sidereal times used the true Sun's right
 ascension

The mean hour angle plus the right ascension of the true Sun is off by the
equation of time, up to 16 minutes. Local sidereal time is now the Greenwich one
plus the longitude, which the mean Sun of the documented formula amounts to.
---
 celest/time.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/celest/time.py b/celest/time.py
index 45e58e4..aacef75 100644
--- a/celest/time.py
+++ b/celest/time.py
@@ -8,7 +8,6 @@ from celest.coordinates.astronomical_quantities import (
     equation_of_time,
     from_julian,
     _calculate_raw_elapsed_jd_century_powers,
-    sun_right_ascension,
     equation_of_equinoxes
 )
 from celest.units.quantity import Quantity
@@ -442,13 +441,12 @@ class Time:
         --------
         >>> julian = [2455368.75, 2459450.85, 2456293.5416666665]
         >>> Time(julian=julian).lmst(longitude=150)
-        Quantity(np.array([9.98419514, 16.62892539, 17.78123885]), Unit("hourangle"))
+        Quantity(np.array([9.95527474, 16.58934993, 17.72317293]), Unit("hourangle"))
         """
 
-        hour_angle = self.mean_hour_angle(longitude).to(u.hourangle)
-        right_ascension = sun_right_ascension(self.julian).to(u.hourangle)
+        gmst = self.gmst().to(u.hourangle)
 
-        return Quantity((hour_angle + right_ascension) % 24, u.hourangle)
+        return Quantity((gmst + np.array(longitude) / 15) % 24, u.hourangle)
 
     def gast(self) -> Quantity:
         """Return Greenwich Apparent Sidereal Time.
@@ -511,16 +509,11 @@ class Time:
         --------
         >>> julian = [2455368.75, 2459450.85, 2456293.5416666665]
         >>> Time(julian=julian).last(longitude=150)
-        np.array([9.98447567,
-                  16.6286799,
-                  17.78148932])
+        np.array([9.95555527,
+                  16.58910444,
+                  17.72342344])
         """
 
-        ut1 = self.ut1().to(u.hourangle)
-        right_ascension_of_sun = sun_right_ascension(self.julian).to(u.hourangle)
-        eqn_of_equinoxes = equation_of_equinoxes(self.julian).to(u.deg)
-
-        last = ut1 - 12 + right_ascension_of_sun + eqn_of_equinoxes +\
-            np.array(longitude) / 15
+        gast = self.gast().to(u.hourangle)
 
-        return Quantity(last % 24, u.hourangle)
+        return Quantity((gast + np.array(longitude) / 15) % 24, u.hourangle)
-- 
2.43.0


From c78267d26716f0a5bc78820f1b0c3e7a69f1bdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:30 +0000
Subject: [PATCH 18/45] fix: visible time windows started before the satellite
 was visible

The rise time was the sample before the first visible one, which wrapped around
to the last sample of the series for a window open at its start.
---
 celest/encounter/window_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/encounter/window_generator.py b/celest/encounter/window_generator.py
index b1d5ae4..4302fe2 100644
--- a/celest/encounter/window_generator.py
+++ b/celest/encounter/window_generator.py
@@ -87,7 +87,7 @@ def generate_vtws(satellite: Satellite, location: GroundLocation,
 
     windows = WindowCollection()
     for window_index_set in window_indices:
-        rise_time = julian[window_index_set[0] - 1]
+        rise_time = julian[window_index_set[0]]
         set_time = julian[window_index_set[-1]]
         windows.add_window(VisibleTimeWindow(rise_time, set_time, attitude))
 
-- 
2.43.0


From 38216a2daf7d2c2b8e91d1cb1b0a9a86dc0bf6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:58 +0000
Subject: [PATCH 19/45] fix: locations that are never visible raised IndexError

---
 celest/encounter/window_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/celest/encounter/window_generator.py b/celest/encounter/window_generator.py
index 4302fe2..a74e36d 100644
--- a/celest/encounter/window_generator.py
+++ b/celest/encounter/window_generator.py
@@ -78,6 +78,8 @@ def generate_vtws(satellite: Satellite, location: GroundLocation,
 
     lighting_indices = _lighting_constraint_indices(julian, location, lighting)
     window_indices = np.intersect1d(window_indices, lighting_indices)
+    if window_indices.size == 0:
+        return WindowCollection()
 
     window_indices = np.split(window_indices,
                               np.where(np.diff(window_indices) != 1)[0] + 1)
-- 
2.43.0


From 7e8a80d9ca85b3b1d8bf36b277c11fe1886f208b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:25 +0000
Subject: [PATCH 20/45] fix: a window collection continued its previous
 iteration

Leaving a loop early, or nesting two loops, made the next loop start part way
through the windows.
---
 celest/encounter/window_handling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/encounter/window_handling.py b/celest/encounter/window_handling.py
index 06fc51c..014a82d 100644
--- a/celest/encounter/window_handling.py
+++ b/celest/encounter/window_handling.py
@@ -163,7 +163,7 @@ class WindowCollection:
         return len(self._window_data)
 
     def __iter__(self) -> Union[VisibleTimeWindow, ObservationWindow]:
-        return self
+        return iter(self._window_data)
 
     def __next__(self) -> Union[VisibleTimeWindow, ObservationWindow]:
         if self._current_window_index < len(self._window_data):
-- 
2.43.0


From 62aabf36bcae1af9eea7825897eda896c9cb0684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:59 +0000
Subject: [PATCH 21/45] fix: iterating over the requests left out the last one

A schedule was reported complete, costed, checked for conflicts and returned
without its last request, and two iterations interfered with each other.
---
 celest/schedule/request_handler.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 0c81693..0af848c 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -40,15 +40,7 @@ class RequestHandler:
         return self.requests[index]
 
     def __iter__(self):
-        self.iteration_index = 0
-        return self
-
-    def __next__(self):
-        current_index = self.iteration_index
-        self.iteration_index += 1
-        if self.iteration_index < self.number_of_requests:
-            return self.requests[current_index]
-        raise StopIteration
+        return iter(self.requests)
 
     def add_request(self, location, deadline, duration, priority, quality, look_ang, vtws):
         self.number_of_requests += 1
-- 
2.43.0


From 6736a81edcdd674d5e7702fbbd490ef5c10321c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:59 +0000
Subject: [PATCH 22/45] fix: random removal never removed the last request

It raised IndexError when only fewer of the others were scheduled.
---
 celest/schedule/removal_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/schedule/removal_operators.py b/celest/schedule/removal_operators.py
index ad22f1c..3e0996d 100644
--- a/celest/schedule/removal_operators.py
+++ b/celest/schedule/removal_operators.py
@@ -21,7 +21,7 @@ def random_removal(request_handler, number_to_remove):
         request_handler.unschedule_all_requests()
         return request_handler
 
-    unchecked_indices = [i for i in range(0, len(request_handler) - 1)]
+    unchecked_indices = [i for i in range(0, len(request_handler))]
     while number_to_remove > 0:
         request_index = random.choice(unchecked_indices)
         if request_handler.is_request_scheduled(request_index):
-- 
2.43.0


From 96ef22f19419306646b275b12473d4d6a7f0a774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:43 +0000
Subject: [PATCH 23/45] fix: count of scheduled requests drifted from the
 requests

Scheduling a scheduled request, or unscheduling an unscheduled one, changed the
count.
---
 celest/schedule/request_handler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 0af848c..9c7138b 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -59,11 +59,12 @@ class RequestHandler:
         ])
 
     def schedule_request(self, request_index, vtw_index, start, duration):
+        if not self.is_request_scheduled(request_index):
+            self.number_of_scheduled_requests += 1
         self.requests[request_index][RequestIndices.is_scheduled] = True
         self.requests[request_index][RequestIndices.vtw_index] = vtw_index
         self.requests[request_index][RequestIndices.scheduled_start_time] = start
         self.requests[request_index][RequestIndices.scheduled_duration] = duration
-        self.number_of_scheduled_requests += 1
 
     def unschedule_all_requests(self):
         for index in range(self.number_of_requests):
@@ -71,11 +72,12 @@ class RequestHandler:
         self.number_of_scheduled_requests = 0
 
     def unschedule_request(self, request_index):
+        if self.is_request_scheduled(request_index):
+            self.number_of_scheduled_requests -= 1
         self.requests[request_index][RequestIndices.is_scheduled] = False
         self.requests[request_index][RequestIndices.vtw_index] = None
         self.requests[request_index][RequestIndices.scheduled_start_time] = None
         self.requests[request_index][RequestIndices.scheduled_duration] = None
-        self.number_of_scheduled_requests -= 1
 
     def is_request_scheduled(self, request_index):
         return self.requests[request_index][RequestIndices.is_scheduled]
-- 
2.43.0


From 1fda1cb749dd8ca380c165bb0f4f542801a2f447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:02 +0000
Subject: [PATCH 24/45] fix: conflict degree of requests

The overlap of two windows was wrong when one contains the other and missing
when they only touch, and it could not be compared with the zero of unscheduled
requests.
---
 celest/schedule/request_handler.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 9c7138b..6a67505 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -1,5 +1,6 @@
 
 
+from celest import units as u
 from enum import IntEnum
 
 
@@ -161,19 +162,9 @@ class RequestHandler:
         return not (vtw1.set_time < vtw2.rise_time) | (vtw2.set_time < vtw1.rise_time)
 
     def _julian_day_overlap_between_vtws(self, vtw1, vtw2) -> float:
-        s1, s2 = vtw1.rise_time, vtw2.rise_time
-        e1, e2 = vtw1.set_time, vtw2.set_time
-
-        if (e1 < s2) | (e2 < s1):
-            return 0
-        elif (s1 < s2) & (e2 < e1):
-            return e2 - s2
-        elif (s2 < s1) & (e1 < e2):
-            return e1 - s1
-        elif s2 < e1:
-            return e1 - s2
-        elif s1 < e2:
-            return e2 - s1
+        start = max(vtw1.rise_time.to(u.jd2000), vtw2.rise_time.to(u.jd2000))
+        end = min(vtw1.set_time.to(u.jd2000), vtw2.set_time.to(u.jd2000))
+        return max(end - start, 0)
 
     def sort_vtws_by_increasing_conflict_degree(self):
         for request_index in range(self.number_of_requests):
-- 
2.43.0


From d1c81f9c0196303fc89dd13489eeee18fdaae85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:32 +0000
Subject: [PATCH 25/45] fix: sorting visible time windows mixed up scheduled
 requests

The index of the window a scheduled request uses was not updated, so its attitude
came from another window; windows of equal conflict degree raised TypeError.
---
 celest/schedule/request_handler.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 6a67505..a1c8623 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -167,20 +167,19 @@ class RequestHandler:
         return max(end - start, 0)
 
     def sort_vtws_by_increasing_conflict_degree(self):
-        for request_index in range(self.number_of_requests):
-            conflict_degree = []
-            vtw_indices = []
-            vtw_list = self.requests[request_index][RequestIndices.vtw_list]
-            for vtw_index, vtw in enumerate(vtw_list):
-                conflict_degree.append(self._conflict_degree(vtw))
-                vtw_indices.append(vtw_index)
-
-            self.requests[request_index][RequestIndices.vtw_list] = \
-                [vtw for _, vtw in sorted(zip(conflict_degree, vtw_list))]
+        for request in self.requests:
+            self._sort_vtws(request, self._conflict_degree)
 
     def sort_vtws_by_increasing_rise_time(self):
         for request in self.requests:
-            request[RequestIndices.vtw_list] = sorted(
-                request[RequestIndices.vtw_list],
-                key=lambda x: x.rise_time.data
-            )
+            self._sort_vtws(request, lambda vtw: vtw.rise_time.data)
+
+    def _sort_vtws(self, request, key):
+        vtw_list = request[RequestIndices.vtw_list]
+        keys = [key(vtw) for vtw in vtw_list]
+        order = sorted(range(len(keys)), key=keys.__getitem__)
+
+        request[RequestIndices.vtw_list] = [vtw_list[index] for index in order]
+        if request[RequestIndices.is_scheduled]:
+            request[RequestIndices.vtw_index] = \
+                order.index(request[RequestIndices.vtw_index])
-- 
2.43.0


From 51fdf9bc932f44700c7b11e39df25e18f49bb16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:59 +0000
Subject: [PATCH 26/45] fix: requests with a look angle could not be scheduled

---
 celest/schedule/scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/schedule/scheduler.py b/celest/schedule/scheduler.py
index f2168c7..89098a5 100644
--- a/celest/schedule/scheduler.py
+++ b/celest/schedule/scheduler.py
@@ -113,7 +113,7 @@ class Scheduler(ALNS):
             Quantity(duration, u.s),
             priority,
             quality,
-            look_ang,
+            None if look_ang is None else Quantity(look_ang, u.deg),
             vtws
         )
 
-- 
2.43.0


From 48529986d0f5d6883ffc438b884368cd77c264e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:42 +0000
Subject: [PATCH 27/45] fix: ALNS divided by zero from an initial solution of
 no cost

A zero temperature or current cost now accepts no worse solution, which is the
limit of the criterion, and the exponent cannot overflow.
---
 celest/schedule/alns.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/celest/schedule/alns.py b/celest/schedule/alns.py
index 0a25bfa..c004d94 100644
--- a/celest/schedule/alns.py
+++ b/celest/schedule/alns.py
@@ -246,11 +246,13 @@ class ALNS:
         current_cost = self.cost_function(current_solution)
         temporary_cost = self.cost_function(temporary_solution)
 
-        if temporary_cost < current_cost:
+        if temporary_cost <= current_cost:
             return True
+        elif T * current_cost == 0:
+            return False
         else:
-            probability = math.exp(100 * (temporary_cost - current_cost) /
-                                   (T * current_cost))
+            probability = math.exp(min(0, 100 * (temporary_cost - current_cost) /
+                                       (T * current_cost)))
             return False if random.random() > probability else True
 
     def _update_destroy_weights(self, l: float, score: int,
-- 
2.43.0


From e40e85aec6a28e1fc260e7855b01a6a851246aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:59 +0000
Subject: [PATCH 28/45] fix: ALNS failed once no operator had any weight left

---
 celest/schedule/alns.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/celest/schedule/alns.py b/celest/schedule/alns.py
index c004d94..6e8d86b 100644
--- a/celest/schedule/alns.py
+++ b/celest/schedule/alns.py
@@ -177,6 +177,8 @@ class ALNS:
             list of probabilities.
         """
 
+        if sum(weights) == 0:
+            return [1 / len(weights) for _ in weights]
         return [weight / sum(weights) for weight in weights]
 
     def _get_repair_index(self) -> int:
-- 
2.43.0


From de17ba7a416b4fc2ee4bb765fff643c80b4e35af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:25 +0000
Subject: [PATCH 29/45] fix: ALNS never rewarded operators for improving the
 current solution

---
 celest/schedule/alns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/schedule/alns.py b/celest/schedule/alns.py
index 6e8d86b..49c28ee 100644
--- a/celest/schedule/alns.py
+++ b/celest/schedule/alns.py
@@ -130,11 +130,11 @@ class ALNS:
             score = _REJECT_SCORE
 
             if self._accept(temporary_solution, current_solution, temperature):
-                current_solution = copy.deepcopy(temporary_solution)
-                if self.cost_function(temporary_solution) > self.cost_function(current_solution):
+                if self.cost_function(temporary_solution) < self.cost_function(current_solution):
                     score = _BETTER_SCORE
                 else:
                     score = _ACCEPT_SCORE
+                current_solution = copy.deepcopy(temporary_solution)
 
             if self.cost_function(temporary_solution) < self.cost_function(best_solution):
                 best_solution = copy.deepcopy(temporary_solution)
-- 
2.43.0


From c44ebd2c43f6e0a9fab967b04509a29ba9397aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:02 +0000
Subject: [PATCH 30/45] fix: observation windows carried no attitude

The start of an observation generally lies between two samples of the attitude,
and the comparison was with a quantity rather than its value. The attitude is now
that of the sample nearest to the start.
---
 celest/schedule/scheduler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/celest/schedule/scheduler.py b/celest/schedule/scheduler.py
index 89098a5..9607c18 100644
--- a/celest/schedule/scheduler.py
+++ b/celest/schedule/scheduler.py
@@ -175,10 +175,10 @@ class Scheduler(ALNS):
 
                 idx = request[RequestIndices.vtw_index]
                 attitude = request[RequestIndices.vtw_list][idx].attitude
-                attitude_idx = np.where(
-                    attitude.time.to(u.jd2000).data ==
-                    request[RequestIndices.scheduled_start_time]
-                )[0]
+                attitude_idx = [np.argmin(np.abs(
+                    attitude.time.to(u.jd2000) -
+                    request[RequestIndices.scheduled_start_time].to(u.jd2000)
+                ))]
                 time = attitude.time.data[attitude_idx]
                 roll = attitude.roll.data[attitude_idx]
                 pitch = attitude.pitch.data[attitude_idx]
-- 
2.43.0


From 9c4711d673b9e55a74b90631775389d987a91804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:06 +0000
Subject: [PATCH 31/45] fix: columns of exported tables were misaligned

The width was that of the largest value, not of the longest one, so columns with
negative values, and columns of numbers outside a quantity, came out ragged.
---
 celest/file_save.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/celest/file_save.py b/celest/file_save.py
index 3032a6b..d034b2d 100644
--- a/celest/file_save.py
+++ b/celest/file_save.py
@@ -211,22 +211,16 @@ def _get_column_information(label: str, value: Any, value_format:
 
 
 def _get_maximum_value_width(value: Any, value_format: str) -> int:
-    if isinstance(value, Quantity):
-        return len(value_format % np.max(value.data))
-    elif isinstance(value, np.ndarray):
-        if isinstance(value.dtype, (int, float)):
-            return len(value_format % np.max(value))
-        else:
-            return len(max(value.astype(str), key=len))
-    else:
-        return NotImplemented
+    column_data = _get_and_reshape_column_data(value)[:, 0]
+    return max((len(_get_data_entry_string(entry, 0, value_format))
+                for entry in column_data), default=0)
 
 
 def _get_and_reshape_column_data(value: Any) -> np.ndarray:
     if isinstance(value, Quantity):
-        return value.data.reshape((-1, 1))
+        return value.data.reshape((-1, 1)).astype(object)
     else:
-        return value.reshape((-1, 1))
+        return value.reshape((-1, 1)).astype(object)
 
 
 def _write_column_data_to_file(file: IO, column_widths: list,
-- 
2.43.0


From 35e8abef4558c8b2d450c612274c1c41ec1476e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:48 +0000
Subject: [PATCH 32/45] fix: a satellite without velocity could not be saved to
 a text file

---
 celest/satellite.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/celest/satellite.py b/celest/satellite.py
index ed273e8..d98457a 100644
--- a/celest/satellite.py
+++ b/celest/satellite.py
@@ -262,7 +262,19 @@ class Satellite:
         """
 
         gcrs_position = _itrs_to_gcrs(self.position)
-        gcrs_velocity = _itrs_to_gcrs(self.velocity)
+        itrs_velocity_data, gcrs_velocity_data = [], []
+        if self.velocity is not None:
+            gcrs_velocity = _itrs_to_gcrs(self.velocity)
+            itrs_velocity_data = [
+                ["Itrs VX", self.velocity.x],
+                ["Itrs VY", self.velocity.y],
+                ["Itrs VZ", self.velocity.z]
+            ]
+            gcrs_velocity_data = [
+                ["Gcrs VX", gcrs_velocity.x],
+                ["Gcrs VY", gcrs_velocity.y],
+                ["Gcrs VZ", gcrs_velocity.z]
+            ]
 
         header = "Satellite Position and Velocity"
         data = [
@@ -270,16 +282,13 @@ class Satellite:
             ["Itrs X", self.position.x],
             ["Itrs Y", self.position.y],
             ["Itrs Z", self.position.z],
-            ["Itrs VX", self.velocity.x],
-            ["Itrs VY", self.velocity.y],
-            ["Itrs VZ", self.velocity.z],
+            *itrs_velocity_data,
             ["Gcrs X", gcrs_position.x],
             ["Gcrs Y", gcrs_position.y],
             ["Gcrs Z", gcrs_position.z],
-            ["Gcrs VX", gcrs_velocity.x],
-            ["Gcrs VY", gcrs_velocity.y],
-            ["Gcrs VZ", gcrs_velocity.z]
+            *gcrs_velocity_data
         ]
+
         writer = TextFileWriter(file_name, header)
         writer.add_layer(data=data)
         writer.save()
-- 
2.43.0


From 09a5dacd5bd5f39c6055a2bd3160404c86b0c8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:16 +0000
Subject: [PATCH 33/45] fix: angle strings near whole minutes could be off by a
 minute

The seconds were rounded after the minutes had been truncated, so that they could
read 60.00, and the fields could disagree by rounding error.
---
 celest/angle_strings.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/celest/angle_strings.py b/celest/angle_strings.py
index c0bb645..0735860 100644
--- a/celest/angle_strings.py
+++ b/celest/angle_strings.py
@@ -55,9 +55,10 @@ def _get_sexagesimal_string(degree_angle: float) -> str:
         Sexagesimal representation string of `degree_angle`.
     """
 
-    degree_string = "%.3s" % str(int(degree_angle)).zfill(2)
-    minute_string = "%.2s" % str(int(degree_angle * 60 % 60)).zfill(2)
-    second_string = str("%.2f" % (degree_angle * 3600 % 60)).zfill(5)
+    minutes, hundredths = divmod(int(round(degree_angle * 360000)), 6000)
+    degree_string = str(minutes // 60).zfill(2)
+    minute_string = str(minutes % 60).zfill(2)
+    second_string = str("%.2f" % (hundredths / 100)).zfill(5)
 
     return degree_string + DEGREE_SYMBOL + minute_string + MINUTE_SYMBOL + \
         second_string + SECOND_SYMBOL
-- 
2.43.0


From b3342222360b8b0573417b0183c270b61db42b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:28 +0000
Subject: [PATCH 34/45] fix: dimensions of fractional powers depended on how
 they were computed

---
 celest/units/display.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/celest/units/display.py b/celest/units/display.py
index 776fc0f..119e787 100644
--- a/celest/units/display.py
+++ b/celest/units/display.py
@@ -69,7 +69,12 @@ def get_dimension_string(unit):
     # A fixed order gives equal dimensions equal strings: m s and s m.
     for dimension, power in sorted(zip(dimensions, powers),
                                    key=lambda x: DIMENSION_ORDER.index(x[0])):
-        unit_string = dimension + ("" if abs(power) == 1 else str(abs(power)))
+        # Equal powers have equal strings, whichever number type they have and
+        # up to the rounding of their sums: 3 and 3.0, 0.3 and 0.1 + 0.2.
+        power_string = "%.12g" % abs(round(power, 12))
+        if power_string == "0":
+            continue
+        unit_string = dimension + ("" if power_string == "1" else power_string)
         if power > 0:
             numerator_strings.append(unit_string)
         else:
-- 
2.43.0


From d186e5e4a915f2e4b273a0c1bf904ea2dfe8215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:37 +0000
Subject: [PATCH 35/45] fix: Earth-fixed positions of integer arrays were
 truncated when rotated

---
 celest/coordinates/transforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 3b9fe46..4ed3f53 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -101,6 +101,9 @@ def _rotate_by_earth_rotation_angle(data, degree_era):
     c, s = np.cos(radian_era), np.sin(radian_era)
     c1, c2, c3 = np.copy(data).T
 
+    # Integer arrays could not hold the rotated coordinates.
+    data = np.empty(data.shape)
+
     data[:, 0] = c * c1 - s * c2
     data[:, 1] = s * c1 + c * c2
     data[:, 2] = c3
-- 
2.43.0


From 0362077469de4441e5e3af3e0f4e766e8bde43bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:49 +0000
Subject: [PATCH 36/45] fix: multiplying a unit by something else than a unit
 or number returned None

---
 celest/units/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/celest/units/core.py b/celest/units/core.py
index 91cb4b9..34137f9 100644
--- a/celest/units/core.py
+++ b/celest/units/core.py
@@ -69,6 +69,8 @@ class BaseUnit:
             return CompoundUnit(1.0, [self, other], [1, 1])
         elif isinstance(other, (float, int)):
             return CompoundUnit(other, [self], [1])
+        else:
+            return NotImplemented
 
     def __rmul__(self, other):
         if isinstance(other, BaseUnit):
@@ -79,6 +81,8 @@ class BaseUnit:
             return CompoundUnit(1.0, [other, self], [1, 1])
         elif isinstance(other, (float, int)):
             return CompoundUnit(other, [self], [1])
+        else:
+            return NotImplemented
 
     def is_unity(self) -> bool:
         """
-- 
2.43.0


From 0119851223114089b91a9431782fab3cd1f0ac72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:00 +0000
Subject: [PATCH 37/45] fix: expressions of named units outside the predefined
 ones had no dimension

---
 celest/units/display.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/celest/units/display.py b/celest/units/display.py
index 119e787..87ab63b 100644
--- a/celest/units/display.py
+++ b/celest/units/display.py
@@ -89,11 +89,26 @@ def get_dimension_string(unit):
         return " ".join([numerator_string, "/", denominator_string])
 
 
+def get_elementary_bases(unit):
+    """Return the bases, and their powers, which are defined by no others."""
+
+    elementary_bases = []
+
+    for base, power in zip(unit.bases, unit.powers):
+        if base is unit:
+            elementary_bases.append((base, power))
+        else:
+            elementary_bases.extend(
+                (b, p * power) for b, p in get_elementary_bases(base))
+
+    return elementary_bases
+
+
 def get_dimensions_from_unit(unit):
     dimensions = []
     dimension_powers = []
 
-    for base, power in zip(unit.bases, unit.powers):
+    for base, power in get_elementary_bases(unit):
         dimension = UNIT_TO_DIMENSION_DICTIONARY[base.short_name]
         if dimension in dimensions:
             dimension_index = dimensions.index(dimension)
-- 
2.43.0


From 8a414e1dbd0388d7f59797ec7385481eed81ed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:20 +0000
Subject: [PATCH 38/45] fix: quantities were not converted between different
 units of the same name

---
 celest/units/quantity.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index e13cbba..b298c89 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -298,9 +298,13 @@ class Quantity:
 
         quantity_copy = deepcopy(self)
 
-        if repr(quantity_copy._unit) != repr(new_unit):
-            quantity_copy._data = quantity_copy._data * (total_scale(
-                quantity_copy.unit) / total_scale(new_unit))
+        old_scale = total_scale(quantity_copy.unit)
+        new_scale = total_scale(new_unit)
+
+        # Different units may have the same name.
+        if (repr(quantity_copy._unit) != repr(new_unit)
+                or old_scale != new_scale):
+            quantity_copy._data = quantity_copy._data * (old_scale / new_scale)
             quantity_copy._unit = new_unit
 
         return quantity_copy
-- 
2.43.0


From 1a04e7c4118a4be99ef94e1e2f6c5c75ebaefcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:28 +0000
Subject: [PATCH 39/45] fix: subtracting a quantity of unsigned integers
 negated them within their type

---
 celest/units/quantity.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index b298c89..fa05eef 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -117,7 +117,17 @@ class Quantity:
         return self.__add__(other)
 
     def __sub__(self, other):
-        return self.__add__(-other)
+        if isinstance(other, (float, int)):
+            data = self._data - other
+            return Quantity(data, self._unit)
+        elif isinstance(other, Quantity):
+            if self._unit.dimension != other._unit.dimension:
+                raise ArithmeticError(
+                    "Unit dimensions must match for addition/subtraction.")
+            data = self._data - other.to(self._unit)
+            return Quantity(data, self._unit)
+        else:
+            return NotImplemented
 
     def __rsub__(self, other):
         return -self.__sub__(other)
-- 
2.43.0


From 0a9ac0a74be9d78ec2e4a9a74bde2e97b124538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:58 +0000
Subject: [PATCH 40/45] fix: solar times and hour angles of unsigned integer
 dates were hours off

---
 celest/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/time.py b/celest/time.py
index aacef75..0efe07b 100644
--- a/celest/time.py
+++ b/celest/time.py
@@ -163,7 +163,7 @@ class Time:
         """
 
         eqn_of_time = equation_of_time(self.julian).to(u.deg).data
-        utc_time = 24 * (self._julian % 1) - 12
+        utc_time = 24.0 * (self._julian % 1) - 12
         true_solar_time = (utc_time + (np.array(longitude) + eqn_of_time) / 15) % 24
 
         return Quantity(true_solar_time, u.hourangle)
@@ -208,7 +208,7 @@ class Time:
         Quantity(np.array([10.830667]), Unit("hourangle"))
         """
 
-        utc_time = 24 * (self._julian % 1) - 12
+        utc_time = 24.0 * (self._julian % 1) - 12
         mean_solar_time = (utc_time + np.array(longitude) / 15) % 24
 
         return Quantity(mean_solar_time, u.hourangle)
-- 
2.43.0


From 033c5ce67a1cfd5a406fc8bc6b334e67a7af035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:42 +0000
Subject: [PATCH 41/45] fix: geodetic coordinates of small integer positions
 lost precision

---
 celest/coordinates/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 4ed3f53..b2650d6 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -191,7 +191,7 @@ def _itrs_to_wgs84(itrs: ITRS) -> WGS84:
     itrs_y = itrs.y.to(u.km)
 
     latitude, height = _geodetic_latitude_and_height(itrs)
-    longitude = np.arctan2(itrs_y, itrs_x)
+    longitude = np.arctan2(itrs_y, itrs_x, dtype=float)
 
     return WGS84(julian, latitude, longitude, height, u.rad, u.km)
 
@@ -237,7 +237,7 @@ def _geodetic_latitude_and_height(itrs: ITRS) -> Tuple[np.ndarray, np.ndarray]:
     tol = 1e-12
     max_iterations = 50
 
-    p = np.hypot(itrs.x.to(u.km), itrs.y.to(u.km))
+    p = np.hypot(itrs.x.to(u.km), itrs.y.to(u.km), dtype=float)
     z = itrs.z.to(u.km)
 
     e2 = 1 - b ** 2 / a ** 2
-- 
2.43.0


From 5d0d4ee5ffb9bd290012042fefe25f2f46f5be5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:14 +0000
Subject: [PATCH 42/45] fix: astronomical quantities of unsigned integer dates
 before 2000 were garbage

---
 celest/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/constants.py b/celest/constants.py
index 53257e7..2edbb95 100644
--- a/celest/constants.py
+++ b/celest/constants.py
@@ -1,7 +1,7 @@
 
 
 # Time constants.
-JD2000_DATE = 2451545
+JD2000_DATE = 2451545.0
 DAYS_IN_JULIAN_CENTURY = 36525
 DAYS_PER_YEAR = 365.25
 
-- 
2.43.0


From 90f84d92c3c2c71f59f77b3886c5abf9459508e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:33 +0000
Subject: [PATCH 43/45] fix: converting to frames which cannot be converted to
 returned NotImplemented

---
 celest/coordinates/coordinate.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/celest/coordinates/coordinate.py b/celest/coordinates/coordinate.py
index f7638e6..d595f7c 100644
--- a/celest/coordinates/coordinate.py
+++ b/celest/coordinates/coordinate.py
@@ -16,6 +16,7 @@ from typing import Literal
 
 
 MISSING_LOCATION_ERROR_MESSAGE = "The location argument is required to convert to the AzEl frame."
+UNSUPPORTED_FRAME_ERROR_MESSAGE = "The output frame must be among ITRS, GCRS, WGS84, AzEl."
 
 
 class Coordinate:
@@ -101,7 +102,7 @@ class Coordinate:
                 raise ValueError(MISSING_LOCATION_ERROR_MESSAGE)
             return _itrs_to_azel(itrs_position, location)
         else:
-            return NotImplemented
+            raise ValueError(UNSUPPORTED_FRAME_ERROR_MESSAGE)
 
     def _convert_from_itrs(self, frame: Literal[GCRS, WGS84, AzEl],
                            location: GroundLocation = None) -> Literal[GCRS, WGS84, AzEl]:
@@ -114,7 +115,7 @@ class Coordinate:
                 raise ValueError(MISSING_LOCATION_ERROR_MESSAGE)
             return _itrs_to_azel(self._base_position, location)
         else:
-            return NotImplemented
+            raise ValueError(UNSUPPORTED_FRAME_ERROR_MESSAGE)
 
     def _convert_from_wgs84(self, frame: Literal[ITRS, GCRS, AzEl],
                             location: GroundLocation = None) -> Literal[ITRS, GCRS, AzEl]:
@@ -128,5 +129,5 @@ class Coordinate:
                 raise ValueError(MISSING_LOCATION_ERROR_MESSAGE)
             return _itrs_to_azel(itrs_position, location)
         else:
-            return NotImplemented
+            raise ValueError(UNSUPPORTED_FRAME_ERROR_MESSAGE)
 
-- 
2.43.0


From d8e2b35ef210f1a4ea56f22d60d921baf756d15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:33 +0000
Subject: [PATCH 44/45] fix: a visibility threshold which is not a number was
 accepted

---
 celest/encounter/window_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/encounter/window_generator.py b/celest/encounter/window_generator.py
index a74e36d..87184ee 100644
--- a/celest/encounter/window_generator.py
+++ b/celest/encounter/window_generator.py
@@ -68,7 +68,7 @@ def generate_vtws(satellite: Satellite, location: GroundLocation,
     if satellite.velocity is None:
         raise Warning("Attitude data cannot be initialized because satellite "
                       "velocity data is unavailable.")
-    if vis_threshold < 0 or 90 < vis_threshold:
+    if not 0 <= vis_threshold <= 90:
         raise ValueError("vis_threshold must be between 0 and 90 degrees.")
 
     satellite_azel = Coordinate(satellite.position).convert_to(AzEl, location)
-- 
2.43.0


From de424db3c85e2c0c60e912cf535cc68aedf18f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:17 +0000
Subject: [PATCH 45/45] fix: calendar dates of single dates of numpy types
 raised IndexError

---
 celest/coordinates/astronomical_quantities.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/celest/coordinates/astronomical_quantities.py b/celest/coordinates/astronomical_quantities.py
index 699a131..d298e7a 100644
--- a/celest/coordinates/astronomical_quantities.py
+++ b/celest/coordinates/astronomical_quantities.py
@@ -396,10 +396,7 @@ def from_julian(julian: Quantity) -> Tuple:
     (1957, 10, 4.81)
     """
 
-    if isinstance(julian.to(u.jd2000), (float, int)):
-        jd = np.array([julian.to(u.jd2000)]) + 0.5
-    else:
-        jd = np.array(julian.to(u.jd2000)) + 0.5
+    jd = np.atleast_1d(julian.to(u.jd2000)) + 0.5
     a, f = jd.astype(int), jd % 1
 
     ind = np.where(a >= 2299161)[0]
-- 
2.43.0

