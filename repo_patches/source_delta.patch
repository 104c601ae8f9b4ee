From 709a0a499b9116f6a2cc44466c43951ccd5821ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 01/32] fix: mirrored subareas and hinge lines of yz-symmetric
 wings

Reflection about the yz-plane swaps leading and trailing edge, so relative
chordwise coordinates have to be counted from the other side.
---
 src/lib/pytornado/objects/aircraft.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 86b5a87..01689e3 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1870,6 +1870,10 @@ class StripSubdivision:
         if mirror:
             xsi_a, xsi_b, xsi_c, xsi_d = order_mirrored_vertex_points((xsi_a, xsi_b, xsi_c, xsi_d), self.symmetry)
 
+            # Mirroring about the yz-plane swaps leading and trailing edge
+            if self.symmetry == 3:
+                xsi_a, xsi_b, xsi_c, xsi_d = 1 - xsi_a, 1 - xsi_b, 1 - xsi_c, 1 - xsi_d
+
         a_abs = a_sd + xsi_a*(d_sd - a_sd)
         b_abs = b_sd + xsi_b*(c_sd - b_sd)
         c_abs = b_sd + xsi_c*(c_sd - b_sd)
@@ -1904,6 +1908,10 @@ class StripSubdivision:
         if mirror and self.symmetry == 2:
             xsi_h1, xsi_h2 = xsi_h2, xsi_h1
 
+        # In case of type 3 symmetry, leading and trailing edge are swapped
+        if mirror and self.symmetry == 3:
+            xsi_h1, xsi_h2 = 1 - xsi_h1, 1 - xsi_h2
+
         p_inner = a_sd + xsi_h1*(d_sd - a_sd)
         p_outer = b_sd + xsi_h2*(c_sd - b_sd)
 
-- 
2.43.0


From bdfef8f62ffcffee4e4d9c4cdabf568fef334d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 02/32] fix: panel area of swept and tapered panels

The product of mean span and mean chord overestimates the area unless the two
are perpendicular; use the magnitude of their cross product.
---
 src/lib/pytornado/aero/c_lattice.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/aero/c_lattice.cpp b/src/lib/pytornado/aero/c_lattice.cpp
index cfe5e28..7920ce5 100644
--- a/src/lib/pytornado/aero/c_lattice.cpp
+++ b/src/lib/pytornado/aero/c_lattice.cpp
@@ -271,7 +271,12 @@ void vlm_lattice(latticestruct* lattice, infostruct* info, statestruct* state,
 
                     // Panel chord through centre
                     double chord = sqrt(chord_x*chord_x + chord_y*chord_y + chord_z*chord_z);
-                    double area = span*chord;
+
+                    // Panel area (span and chord are generally not perpendicular)
+                    double area_x = span_y*chord_z - span_z*chord_y;
+                    double area_y = span_z*chord_x - span_x*chord_z;
+                    double area_z = span_x*chord_y - span_y*chord_x;
+                    double area = sqrt(area_x*area_x + area_y*area_y + area_z*area_z);
                     double aspect = span/chord;
 
                     if (area > info->area_max) { info->area_max = area; }
-- 
2.43.0


From 51f1a68564fdf6cc5907d23f8e88b2af85219c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 03/32] fix: no zero-width strips where division lines coincide
 up to rounding

E.g. a flap edge at eta = 0.2 and 35 spanwise panels produced a strip of
width 3e-17 with undefined normals.
---
 src/lib/pytornado/objects/aircraft.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 01689e3..3d03e67 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -759,6 +759,11 @@ class WingSegment:
             logger.debug(f"Refusing to create new division at existing division (eta_a = {eta_a:.3f})")
             return self.subdivision[idx_prev]
 
+        # Account for numerical inaccuracies
+        if (prev_subdivision.rel_vertices['eta_b'] - eta_a) < MIN_ETA_LIMIT*1e-6:
+            logger.debug(f"Refusing to create new division at existing division (eta_a = {eta_a:.3f})")
+            return self._get_outer_neighbour_subdiv(prev_subdivision.rel_vertices['eta_b'])
+
         if (eta_a - prev_subdivision.rel_vertices['eta_a']) < MIN_ETA_LIMIT:
             logger.debug("Refusing to create a subdivision close to existing division "
                          "(Delta eta_a = {:.3f})".format(eta_a - prev_subdivision.rel_vertices['eta_a']))
-- 
2.43.0


From c12a5b48fc55204da12b8efcb7bfaf5d9a95d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:50 +0000
Subject: [PATCH 04/32] fix: control surfaces narrower than 1 % of the segment
 no longer take over the rest of the strip

---
 src/lib/pytornado/objects/aircraft.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 3d03e67..88704b5 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -723,7 +723,7 @@ class WingSegment:
         # Create a segment airfoil as a "morphable" airfoil
         self.segment_airfoil = MorphAirfoil(airfoil_dict['inner'], airfoil_dict['outer'])
 
-    def add_subdivision(self, eta_a, eta_d, ignore_inval_eta=False):
+    def add_subdivision(self, eta_a, eta_d, ignore_inval_eta=False, allow_narrow=False):
         """
         Add a subdivision for the current segment
 
@@ -738,6 +738,7 @@ class WingSegment:
             :eta_a: (float) upper relative position of the division line
             :eta_d: (float) upper relative position of the division line
             :ignore_inval_eta: (bool) optional parameter to ignore invalid eta values
+            :allow_narrow: (bool) optional parameter to create a division even if it is close to an existing one
 
         Returns:
             :subvivision: (obj) newly created subdivision object
@@ -764,7 +765,7 @@ class WingSegment:
             logger.debug(f"Refusing to create new division at existing division (eta_a = {eta_a:.3f})")
             return self._get_outer_neighbour_subdiv(prev_subdivision.rel_vertices['eta_b'])
 
-        if (eta_a - prev_subdivision.rel_vertices['eta_a']) < MIN_ETA_LIMIT:
+        if not allow_narrow and (eta_a - prev_subdivision.rel_vertices['eta_a']) < MIN_ETA_LIMIT:
             logger.debug("Refusing to create a subdivision close to existing division "
                          "(Delta eta_a = {:.3f})".format(eta_a - prev_subdivision.rel_vertices['eta_a']))
             return self.subdivision[idx_prev]
@@ -901,12 +902,12 @@ class WingSegment:
         sd_list = [[sd1, xsi1, xsi2, xsi_h1, xsi_h2]]
 
         # CASE 1: Newly created subdivisions ends exactly on desired line
-        if eta_b == eta_b_sd1:
+        if abs(eta_b - eta_b_sd1) < MIN_ETA_LIMIT*1e-6:
             pass
 
         # CASE 2: There is no more subdivisions before eta_b
         elif eta_b < eta_b_sd1:
-            self.add_subdivision(eta_b, eta_b)
+            self.add_subdivision(eta_b, eta_b, allow_narrow=True)
 
         # CASE 3: The newly created subdivision ends before desired line
         elif eta_b > eta_b_sd1:
@@ -926,7 +927,7 @@ class WingSegment:
 
             # If the outer neighbour cannot accommodate the control we have to continue
             n = 0
-            while eta_b > eta_b_rn:
+            while eta_b - eta_b_rn > MIN_ETA_LIMIT*1e-6:
                 outer_neighbour = self._get_outer_neighbour_subdiv(eta_b_rn)
                 eta_b_rn = outer_neighbour.rel_vertices['eta_b']
                 eta_b_ln = sd_list[-1][0].rel_vertices['eta_b']
@@ -944,8 +945,8 @@ class WingSegment:
                     raise RuntimeError("Too many loops")
 
             # If the last outer neighbour is larger than required, make a subdivision
-            if eta_b < outer_neighbour.rel_vertices['eta_b']:
-                self.add_subdivision(eta_b, eta_b)
+            if outer_neighbour.rel_vertices['eta_b'] - eta_b > MIN_ETA_LIMIT*1e-6:
+                self.add_subdivision(eta_b, eta_b, allow_narrow=True)
 
         # Add subarea for all subdivisions
         for row in sd_list:
-- 
2.43.0


From 31cdd05ca33b54b76b3bec6c35de546644c1b0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 05/32] fix: camber rotation of twisted or skewed wings is the
 same on both sides of a symmetric wing

---
 src/lib/pytornado/objects/aircraft.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 88704b5..6e25768 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1960,10 +1960,12 @@ class StripSubdivision:
 
         a = subarea_vertices['a']
         b = subarea_vertices['b']
+        c = subarea_vertices['c']
         d = subarea_vertices['d']
 
-        ab = b - a
-        ad = d - a
+        # Mean span and chord directions (same axis on both sides of a symmetric wing)
+        ab = 0.5*((b - a) + (c - d))
+        ad = 0.5*((d - a) + (c - b))
 
         subarea_normal = np.cross(ab, ad)
         rot_axis = np.cross(subarea_normal, ad)
-- 
2.43.0


From 17fcdeff65d8051b14d18fb281ce010137793868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 06/32] fix: division lines through tapered controls on warped
 segments do not depend on the order of division

The chordwise position at a division line was measured along the straight
control edge, which leaves the surface of a warped segment, and with the normal
at the inner leading edge only.
---
 src/lib/pytornado/objects/aircraft.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 6e25768..951d69a 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -2098,13 +2098,18 @@ def xsi_interpol(segment_vertices, rel_inner, rel_outer, eta):
 
     a = segment_vertices['a']
     b = segment_vertices['b']
+    c = segment_vertices['c']
     d = segment_vertices['d']
 
-    segment_normal = np.cross(b-a, d-a)
+    # Mean normal of the (possibly warped) segment, independent of which edge is the inner one
+    segment_normal = np.cross(c-a, b-d)
     intersect_plane_normal = np.cross(segment_normal, p_lower-p_upper)
 
     p_intersect = get_plane_line_intersect(intersect_plane_normal, p_upper, insegment_direction, p_inner)
-    xsi_interpol = np.linalg.norm(p_intersect-p_upper)/np.linalg.norm(p_lower-p_upper)
+    # Position between the leading and trailing edge, as seen in direction of the mean normal
+    # (the line between the inner and outer position leaves the surface of a warped segment)
+    intersect_line_normal = np.cross(intersect_plane_normal, segment_normal)
+    xsi_interpol = np.dot(p_intersect-p_upper, intersect_line_normal)/np.dot(p_lower-p_upper, intersect_line_normal)
 
     return xsi_interpol
 
-- 
2.43.0


From fbe499227728e4646b5255c821fc63d1967f44e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 07/32] fix: flow angles outside of [-90, 90] degrees are
 refused

The range check could never be true.
---
 src/lib/pytornado/objects/state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/objects/state.py b/src/lib/pytornado/objects/state.py
index 7629576..74da64f 100644
--- a/src/lib/pytornado/objects/state.py
+++ b/src/lib/pytornado/objects/state.py
@@ -219,8 +219,8 @@ class FlightState:
 
         # Check that angles are in correct range
         for angle in [ALPHA, BETA]:
-            range_is_not_ok = (self.aero[angle] < -90) & (self.aero[angle] > 90)
-            if any(range_is_not_ok):
+            range_is_ok = (self.aero[angle] >= -90) & (self.aero[angle] <= 90)
+            if not all(range_is_ok):
                 raise ValueError(f"Angle '{angle}' must be in range [-90, 90] degrees")
 
     def iter_states(self):
-- 
2.43.0


From 54c93b975ba1c3b8d89c29219c03658d3eb33859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 08/32] fix: flight state parameters set to null in a list of
 states

Parameters which are not used may be omitted or set to 'null', also when the other
parameters are lists; lists with missing entries are refused.
---
 src/lib/pytornado/objects/state.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/lib/pytornado/objects/state.py b/src/lib/pytornado/objects/state.py
index 74da64f..8d65edf 100644
--- a/src/lib/pytornado/objects/state.py
+++ b/src/lib/pytornado/objects/state.py
@@ -162,10 +162,15 @@ class FlightState:
             if not isinstance(value, list):
                 value = [value]
 
+            # Parameters which are not set ('null') don't need to match the other lists
+            if value and all(entry is None for entry in value):
+                self.aero[key] = None
+                continue
+
             array_lenghts.add(len(value))
             self.aero[key] = value
 
-        if len(array_lenghts) > 1:
+        if len(array_lenghts) != 1:
             raise ValueError("State arrays have different lenghts!")
 
         self.num_apm_entries = int(list(array_lenghts)[0])
@@ -178,11 +183,12 @@ class FlightState:
             {MACH, ALTITUDE},
         ]
 
-        is_input = {prop: False for prop in all_props}
-        for prop in all_props:
+        for prop in STATE_ALL_PARAMS:
             if self.aero[prop] is not None:
-                if all(isinstance(value, (int, float)) for value in self.aero[prop]):
-                    is_input[prop] = True
+                if not all(isinstance(value, (int, float, np.number)) for value in self.aero[prop]):
+                    raise ValueError(f"All values of '{prop}' must be numbers")
+
+        is_input = {prop: self.aero[prop] is not None for prop in all_props}
 
         input_props = set(prop for prop in all_props if is_input[prop] is True)
         if input_props not in valid_prop_pairs:
-- 
2.43.0


From de2508b0ab705e596d96d9d8fa0d132972b1a533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 09/32] fix: 'panels' is an optional entry of a control surface

As documented for the aircraft file.
---
 src/lib/pytornado/fileio/native/aircraft.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/fileio/native/aircraft.py b/src/lib/pytornado/fileio/native/aircraft.py
index 54dbb8e..938e1e7 100644
--- a/src/lib/pytornado/fileio/native/aircraft.py
+++ b/src/lib/pytornado/fileio/native/aircraft.py
@@ -111,7 +111,10 @@ def load(settings):
             for key, value in control_entry['rel_hinge_vertices'].items():
                 control.rel_hinge_vertices[key] = value
 
-            control.panels['num_c'] = control_entry['panels']['num_c']
+            if control_entry.get('panels', None):
+                for key, value in control_entry['panels'].items():
+                    control.panels[key] = value
+
             control.check()
 
     aircraft.generate()
-- 
2.43.0


From d1e4c2eb79cb2b4e0ac36c7f4002092f6eaf4418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 10/32] fix: airfoil files in subdirectories or outside of the
 project keep their path when an aircraft is saved

---
 src/lib/pytornado/fileio/native/aircraft.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/pytornado/fileio/native/aircraft.py b/src/lib/pytornado/fileio/native/aircraft.py
index 938e1e7..fd6a77b 100644
--- a/src/lib/pytornado/fileio/native/aircraft.py
+++ b/src/lib/pytornado/fileio/native/aircraft.py
@@ -161,11 +161,11 @@ def save(aircraft, settings):
 
             segment_entry['airfoils'] = {}
             for key, value in segment.airfoils.items():
-                # If airfoil is "blade" file, make sure to save as relative path
+                # If airfoil is a file in the project directory, make sure to save as relative path
                 # Note: Airfoil definition may also be for instance "NACA1234"
-                if "blade." in value:
-                    # Make path relative!
-                    value = os.path.join(PATHS.DIR.AIRFOILS, os.path.basename(value))
+                path_airfoils = os.path.join(settings.paths('root'), PATHS.DIR.AIRFOILS, '')
+                if value.startswith(path_airfoils):
+                    value = os.path.relpath(value, settings.paths('root'))
                 segment_entry['airfoils'][key] = value
 
             segment_entry['panels'] = {}
-- 
2.43.0


From 4ce2a7b6dbf62c2f28b5d5d57d30ba2ef9f8b292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:43 +0000
Subject: [PATCH 11/32] fix: saved flight state files can be loaded again

The derived density and airspeed were written along with the input values, which is
refused as an invalid combination when the file is read.
---
 src/lib/pytornado/fileio/native/state.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/fileio/native/state.py b/src/lib/pytornado/fileio/native/state.py
index c7ece43..d2ff3b2 100644
--- a/src/lib/pytornado/fileio/native/state.py
+++ b/src/lib/pytornado/fileio/native/state.py
@@ -34,7 +34,7 @@ import json
 from commonlibs.logger import truncate_filepath
 
 from pytornado.fileio.utils import dump_pretty_json
-from pytornado.objects.state import FlightState
+from pytornado.objects.state import FlightState, AIRSPEED, ALTITUDE, DENSITY, MACH
 
 logger = logging.getLogger(__name__)
 
@@ -81,5 +81,11 @@ def save(state, settings):
     for key in ['aero']:
         output[key] = dict(getattr(state, key))
 
+    # Do not save derived values, the combination with the input values would be invalid
+    if output['aero'][ALTITUDE] is not None:
+        output['aero'][DENSITY] = None
+    if output['aero'][MACH] is not None:
+        output['aero'][AIRSPEED] = None
+
     with open(state_file, 'w') as fp:
         dump_pretty_json(output, fp)
-- 
2.43.0


From f62927c32db3f3d28527a1c703c3c62a658a9dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:51 +0000
Subject: [PATCH 12/32] fix: wing segments can be defined by dimensions and
 angles instead of vertices

---
 src/lib/pytornado/objects/aircraft.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 951d69a..03430dc 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1023,16 +1023,16 @@ class WingSegment:
 
         # ----- Check provided geometric properties -----
         # All geometric properties provided
-        if all(v for v in self.geometry.values()):
+        if all(v is not None for v in self.geometry.values()):
             required = ['a', 'b', 'c', 'd', 'ad', 'bc', 'abcd']
         # All geometric properties provided except for inner edge
-        elif all(v for k, v in self.geometry.items() if 'inner_' not in k):
+        elif all(v is not None for k, v in self.geometry.items() if 'inner_' not in k):
             required = ['ad', 'abcd']
         # All geometric properties provided except for outer edge
-        elif all(v for k, v in self.geometry.items() if 'outer_' not in k):
+        elif all(v is not None for k, v in self.geometry.items() if 'outer_' not in k):
             required = ['bc', 'abcd']
         # Some geometric properties provided, but not enough
-        elif any(v for v in self.geometry.values()):
+        elif any(v is not None for v in self.geometry.values()):
             required = ['abcd']
         # No geometric properties provided
         else:
@@ -1106,7 +1106,7 @@ class WingSegment:
             logger.debug(f"--> Inner_beta = {self.geometry['inner_beta']}")
 
         # ----- Generate edge B, C -----
-        if not ('a' in provided and 'b' in provided):
+        if not ('b' in provided and 'c' in provided):
             logger.debug("Computing chord BC...")
 
             tan_ao = tan(radians(self.geometry['outer_alpha']))
@@ -1297,10 +1297,10 @@ class WingSegment:
                 a_y, b_y, c_y, d_y = a_y, c_y, b_y, d_y
                 a_z, b_z, c_z, d_z = a_z, c_z, b_z, d_z
 
-            self.vertices['a'] = [a_x, a_y, a_z]
-            self.vertices['b'] = [b_x, b_y, b_z]
-            self.vertices['c'] = [c_x, c_y, c_z]
-            self.vertices['d'] = [d_x, d_y, d_z]
+            self.vertices['a'] = np.array([a_x, a_y, a_z], dtype=float, order='C')
+            self.vertices['b'] = np.array([b_x, b_y, b_z], dtype=float, order='C')
+            self.vertices['c'] = np.array([c_x, c_y, c_z], dtype=float, order='C')
+            self.vertices['d'] = np.array([d_x, d_y, d_z], dtype=float, order='C')
 
         logger.debug(f"--> Vertex a = {self.vertices['a']}")
         logger.debug(f"--> Vertex b = {self.vertices['b']}")
@@ -1319,7 +1319,8 @@ class WingSegment:
 
         # Convert to NUMPY array
         for key in ['a', 'b', 'c', 'd']:
-            self.vertices[key] = np.array(self.vertices[key], dtype=float, order='C')
+            if self.vertices[key] is not None:
+                self.vertices[key] = np.array(self.vertices[key], dtype=float, order='C')
 
     def check_geometry(self):
         """Check type and value of geometry dictionary"""
-- 
2.43.0


From aa92400d8d82b91d78483ccd4c376ea5e92b3943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 13/32] fix: yaw angle and twist axis of segments defined by
 dimensions have the sense of the generated corner points

---
 src/lib/pytornado/objects/aircraft.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 03430dc..7ecd6fe 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1096,7 +1096,7 @@ class WingSegment:
             sin_bi = +d_y/r_i
 
             # atan2() handles singularity
-            self.geometry['inner_beta'] = -degrees(asin(sin_bi))
+            self.geometry['inner_beta'] = degrees(asin(sin_bi))
             self.geometry['inner_alpha'] = -degrees(atan2(d_z, r_i*cos_bi))
 
             tan_ai = tan(radians(self.geometry['inner_alpha']))
@@ -1144,7 +1144,7 @@ class WingSegment:
             cos_bo = +c_x/r_o
             sin_bo = +c_y/r_o
 
-            self.geometry['outer_beta'] = -degrees(asin(sin_bo))
+            self.geometry['outer_beta'] = degrees(asin(sin_bo))
             self.geometry['outer_alpha'] = -degrees(atan2(c_z, r_o*cos_bo))
 
             tan_ao = tan(radians(self.geometry['outer_alpha']))
@@ -1162,12 +1162,12 @@ class WingSegment:
 
         # axi_x = r_i*self.geometry['inner_axis']*cos_bi
         axi_y = r_i*self.geometry['inner_axis']*sin_bi
-        axi_z = r_i*self.geometry['inner_axis']*cos_bi*tan_ai
+        axi_z = -r_i*self.geometry['inner_axis']*cos_bi*tan_ai
         # Offset of point A wrt axis point (dihedral line) on AD
 
         # axo_x = r_o*self.geometry['outer_axis']*cos_bo
         axo_y = r_o*self.geometry['outer_axis']*sin_bo
-        axo_z = r_o*self.geometry['outer_axis']*cos_bo*tan_ao
+        axo_z = -r_o*self.geometry['outer_axis']*cos_bo*tan_ao
         # Offset of point B wrt axis point (dihedral line) on BC
 
         # Relative y, z-offset between axis on B, C-edge and axis on A, B-edge
-- 
2.43.0


From 8235152b98c64261dcbd8879fabc7b6a99b095b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 14/32] fix: settings instances do not share mutable default
 values

---
 src/lib/pytornado/objects/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/utils.py b/src/lib/pytornado/objects/utils.py
index 18dc8e7..bcbf872 100644
--- a/src/lib/pytornado/objects/utils.py
+++ b/src/lib/pytornado/objects/utils.py
@@ -28,6 +28,7 @@ Developed for Airinnova AB, Stockholm, Sweden.
 """
 
 
+from copy import deepcopy
 from collections import OrderedDict
 from collections.abc import MutableMapping
 
@@ -124,5 +125,6 @@ def get_default_dict(template_dict):
         # Treat non-empty dictionary recursively
         if isinstance(value, dict) and value:
             value = get_default_dict(template_dict=value)
-        default_dict[key] = value
+        # Mutable defaults must not be shared with the template dictionary
+        default_dict[key] = deepcopy(value)
     return default_dict
-- 
2.43.0


From 4e36052c093f382d96d93204f38367a6265d0572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 15/32] fix: options left out in 'plot' and 'save_results' take
 their default, the given dictionary is not modified

---
 src/lib/pytornado/objects/settings.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/objects/settings.py b/src/lib/pytornado/objects/settings.py
index a0075a6..4c6921b 100644
--- a/src/lib/pytornado/objects/settings.py
+++ b/src/lib/pytornado/objects/settings.py
@@ -29,6 +29,7 @@ Developed for Airinnova AB, Stockholm, Sweden.
 
 import os
 import logging
+from copy import deepcopy
 from pathlib import Path
 
 from pytornado.objects.utils import check_dict, get_default_dict
@@ -108,6 +109,22 @@ class PATHS:
             return os.path.join(PATHS.DIR.AIRFOILS, f"blade.{name_airfoil}")
 
 
+def _update_recursively(target, source):
+    """
+    Update a dictionary, entries left out in nested dictionaries are kept
+
+    Args:
+        :target: Dictionary to update
+        :source: Dictionary with new values
+    """
+
+    for key, value in source.items():
+        if isinstance(value, dict) and isinstance(target.get(key), dict):
+            _update_recursively(target[key], value)
+        else:
+            target[key] = value
+
+
 class Settings:
 
     def __init__(self, settings_filename, project_dir, *,
@@ -208,8 +225,8 @@ class Settings:
             :plot: Dictionary with plot settings
         """
 
-        for key, value in settings_dict.items():
-            self.settings[key] = value
+        # The given dictionary belongs to the caller
+        _update_recursively(self.settings, deepcopy(settings_dict))
 
         # If 'results' are not specified, plot 'cp' values
         if not self.settings['plot']['results']['opt']:
-- 
2.43.0


From 85d82790c5daff2fb41e0ad72dcc74a489469361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 16/32] fix: saving settings does not remove hidden settings
 from the settings in use

---
 src/lib/pytornado/fileio/native/settings.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/fileio/native/settings.py b/src/lib/pytornado/fileio/native/settings.py
index 342814b..739154f 100644
--- a/src/lib/pytornado/fileio/native/settings.py
+++ b/src/lib/pytornado/fileio/native/settings.py
@@ -29,6 +29,7 @@ Developed at Airinnova AB, Stockholm, Sweden.
 
 import logging
 import json
+from copy import deepcopy
 from pathlib import Path
 
 from commonlibs.logger import truncate_filepath
@@ -78,10 +79,11 @@ def save(settings):
     set_file = settings.paths('f_settings')
     logger.info(f"Saving settings to file '{truncate_filepath(set_file)}'...")
 
-    clean_dict(settings.settings)
+    # Hidden settings are not written to file, but they remain in use
+    visible_settings = clean_dict(deepcopy(settings.settings))
 
     with open(set_file, 'w') as fp:
-        dump_pretty_json(settings.settings, fp)
+        dump_pretty_json(visible_settings, fp)
 
 
 def clean_dict(dictionary, to_del='_'):
-- 
2.43.0


From a9e1a06a6529c8838a63f0826b57ac33fab9688d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 17/32] fix: plotting does not add a path to the settings

---
 src/lib/pytornado/plot/makeplots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pytornado/plot/makeplots.py b/src/lib/pytornado/plot/makeplots.py
index 6546635..4a8ad4d 100644
--- a/src/lib/pytornado/plot/makeplots.py
+++ b/src/lib/pytornado/plot/makeplots.py
@@ -50,7 +50,7 @@ def make_all(settings, aircraft, cur_state, vlmdata, lattice):
     def get_plot_settings(plot_name):
         """Return a 'plot_settings' dictionary"""
 
-        plot_settings = settings.settings['plot'][plot_name]
+        plot_settings = dict(settings.settings['plot'][plot_name])
         plot_settings['plot_dir'] = settings.paths('d_plots')
         return plot_settings
 
-- 
2.43.0


From 0b2e164deb1e8ae4a11fc3fb5612bf317d7ddc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:30 +0000
Subject: [PATCH 18/32] fix: controls that refer to unknown segments or span
 segments in wrong order are refused

---
 src/lib/pytornado/aero/vlm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/pytornado/aero/vlm.py b/src/lib/pytornado/aero/vlm.py
index 5381fdd..3d31fb1 100644
--- a/src/lib/pytornado/aero/vlm.py
+++ b/src/lib/pytornado/aero/vlm.py
@@ -170,6 +170,12 @@ def pre_panelling(aircraft):
                         list_of_segments[-1][6] = xsi_h2
                         break
 
+            if not outer_set:
+                raise ValueError(
+                    f"Control '{control.uid}': segments '{segment_inner_name}' (inner) and "
+                    f"'{segment_outer_name}' (outer) must exist and be ordered from inner to outer"
+                )
+
             # Potentially, we must readjust the control surface geometry/hinge axis at borders
             if (xsi_inner != xsi_outer) or (xsi_h1 != xsi_h2):
                 # Let's first compute the "length" of the control surface
-- 
2.43.0


From 7bfedb13b8c0df5572d7cc8a69d044a9d561adf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:01 +0000
Subject: [PATCH 19/32] fix: the deformation field is not modified when the
 mesh is generated

---
 src/lib/pytornado/objects/aircraft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 7ecd6fe..1993b4a 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -983,7 +983,8 @@ class WingSegment:
         if def_field is None:
             return point
 
-        def_point = get_deformed_point(point, def_field)
+        # The interpolation function may modify the field that it is given
+        def_point = get_deformed_point(point, def_field.copy())
         return def_point
 
     def generate(self):
-- 
2.43.0


From ff93ac017ecfa57a96ddf60899d5cdd6b85e01d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:01 +0000
Subject: [PATCH 20/32] fix: only the suffix '_m' is removed from the name of a
 mirrored deformation field

---
 src/lib/pytornado/fileio/native/deformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pytornado/fileio/native/deformation.py b/src/lib/pytornado/fileio/native/deformation.py
index 9228737..4f2fbb2 100644
--- a/src/lib/pytornado/fileio/native/deformation.py
+++ b/src/lib/pytornado/fileio/native/deformation.py
@@ -64,7 +64,7 @@ def load(aircraft, settings):
 
         # Convention: Deformation fields ending with '_m' belongs to a 'mirrored' component
         if wing_uid.endswith('_m'):
-            aircraft.wings[wing_uid.replace('_m', '')].def_field_mirror = def_field
+            aircraft.wings[wing_uid[:-len('_m')]].def_field_mirror = def_field
             continue
 
         aircraft.wings[wing_uid].def_field = def_field
-- 
2.43.0


From b1dfd6c1cf5f99d50b6e98fc75ffb58fb32eb62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 21/32] fix: converting a CPACS file creates the airfoil
 directory if it does not exist

---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index c484e3d..1566599 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -371,6 +371,8 @@ def write_airfoil_files(settings, tixi):
     """
 
     logger.debug("Extracting airfoil data...")
+    # The directory may not yet exist (e.g. when a CPACS file is converted)
+    settings.paths('d_airfoils', make_dirs=True, is_dir=True)
     num_airfoils = tixi.getNumberOfChilds(XPATHS.AIRFOILS)
     for i in range(1, num_airfoils + 1):
         node_airfoil = XPATHS.AIRFOILS + f"/wingAirfoil[{i}]"
-- 
2.43.0


From 88653087434787185d4c91ac6d86c7878a0ba5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 22/32] fix: the CPACS file is not saved if writing back
 results fails

---
 src/lib/pytornado/fileio/cpacs/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/fileio/cpacs/utils.py b/src/lib/pytornado/fileio/cpacs/utils.py
index 87ba77b..701b604 100644
--- a/src/lib/pytornado/fileio/cpacs/utils.py
+++ b/src/lib/pytornado/fileio/cpacs/utils.py
@@ -242,5 +242,8 @@ def modify_cpacs(cpacs_file):
     tixi = open_tixi(cpacs_file)
     try:
         yield tixi
-    finally:
-        close_tixi(tixi, cpacs_file)
+    except BaseException:
+        # Never save incomplete modifications
+        tixi.close()
+        raise
+    close_tixi(tixi, cpacs_file)
-- 
2.43.0


From 881e7433f4604e5d387c086bc7e73d2f601372c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 23/32] fix: leading edge devices defined in CPACS are imported

---
 src/lib/pytornado/fileio/cpacs/__patch.py  | 15 ++++---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 52 ++++++++--------------
 2 files changed, 27 insertions(+), 40 deletions(-)

diff --git a/src/lib/pytornado/fileio/cpacs/__patch.py b/src/lib/pytornado/fileio/cpacs/__patch.py
index a6286d6..d9abad7 100644
--- a/src/lib/pytornado/fileio/cpacs/__patch.py
+++ b/src/lib/pytornado/fileio/cpacs/__patch.py
@@ -27,16 +27,17 @@
 ###################################################################################
 
 
-def PATCH_getControlSurfaceCount(tixi, comp_seg_uid):
+def PATCH_getControlSurfaceCount(tixi, comp_seg_uid, device_pos='trailing'):
     """
     Function to get the number of Control Surfaces
 
-    Function 'getControlSurfaceCount' returns the number of control surface
-    (only TED) on a given component segment.
+    Function 'getControlSurfaceCount' returns the number of control surfaces
+    (leading or trailing edge devices) on a given component segment.
 
     Args:
         :tixi (TIXI Handle): TIXI Handle of the CPACS file
         :comp_seg_uid (str): UID of the component segment
+        :device_pos (str): 'leading' or 'trailing'
 
     Returns:
         :contrl_surf_count (integer): Number of control surfaces on the component segment
@@ -52,7 +53,7 @@ def PATCH_getControlSurfaceCount(tixi, comp_seg_uid):
         raise ValueError(f"No UID named '{comp_seg_uid}' has been found!")
 
     comp_sec_xpath = tixi.uIDGetXPath(comp_seg_uid)
-    contrl_surf_xpath = comp_sec_xpath + '/controlSurfaces/trailingEdgeDevices/trailingEdgeDevice'
+    contrl_surf_xpath = comp_sec_xpath + f'/controlSurfaces/{device_pos}EdgeDevices/{device_pos}EdgeDevice'
 
     # tixi.xPathEvaluateNodeNumber() raises an error if the path does not exist
     if tixi.checkElement(contrl_surf_xpath):
@@ -63,7 +64,7 @@ def PATCH_getControlSurfaceCount(tixi, comp_seg_uid):
     return contrl_surf_count
 
 
-def PATCH_getControlSurfaceUID(tixi, comp_seg_uid, index):
+def PATCH_getControlSurfaceUID(tixi, comp_seg_uid, index, device_pos='trailing'):
     """
     Function to get the Control Surface UID
 
@@ -74,6 +75,7 @@ def PATCH_getControlSurfaceUID(tixi, comp_seg_uid, index):
         tixi (TIXI Handle): TIXI Handle of the CPACS file
         comp_seg_uid (str): UID of the component segment
         index (integer): Index of the Control Surface
+        device_pos (str): 'leading' or 'trailing'
 
     Returns:
         contrl_surf_count (integer): Number of Control Surfaces on the component segment
@@ -89,8 +91,7 @@ def PATCH_getControlSurfaceUID(tixi, comp_seg_uid, index):
         raise ValueError(f"No UID named {comp_seg_uid} has been found!")
 
     comp_sec_xpath = tixi.uIDGetXPath(comp_seg_uid)
-    contrl_surf_xpath = comp_sec_xpath + '/controlSurfaces/trailingEdgeDevices \
-                        /trailingEdgeDevice[' + str(index) + ']'
+    contrl_surf_xpath = comp_sec_xpath + f'/controlSurfaces/{device_pos}EdgeDevices/{device_pos}EdgeDevice[{index}]'
 
     if not tixi.checkElement(contrl_surf_xpath):
         raise ValueError('No control surface for this UID at this index')
diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index 1566599..2707d84 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -213,26 +213,28 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
 
         # ---------- Iterate through controls ----------
         # PATCHED # for idx_control in range(1, tigl.getControlSurfaceCount(name_comp_section) + 1):
-        num_controls = PATCH_getControlSurfaceCount(tixi, name_comp_section)
-        for idx_control in range(1, num_controls + 1):
-            for device_pos in ('leading', 'trailing'):
+        for device_pos in ('leading', 'trailing'):
+            num_controls = PATCH_getControlSurfaceCount(tixi, name_comp_section, device_pos)
+            for idx_control in range(1, num_controls + 1):
                 # PATCHED # control_uid = tigl.getControlSurfaceUID(name_comp_section, idx_control)
-                control_uid = PATCH_getControlSurfaceUID(tixi, name_comp_section, idx_control)
+                control_uid = PATCH_getControlSurfaceUID(tixi, name_comp_section, idx_control, device_pos)
                 logger.debug(f"Wing {idx_wing:d} has control '{control_uid:s}'")
                 node_control = XPATHS.CONTROL(idx_wing, idx_comp_section, idx_control, device_pos)
 
+                # Chordwise borders: CPACS defines the rear edge of a leading
+                # edge device and the front edge of a trailing edge device
+                edge = 'TE' if device_pos == 'leading' else 'LE'
+
                 # Try to read the relative coordinates for each control (eta, xsi)
                 # ======================================================
                 # TODO: does tixi.getDoubleElement() raise an error???
                 # ======================================================
                 try:
                     # Control vertices
-                    etaLE_ib = tixi.getDoubleElement(node_control + "/outerShape/innerBorder/etaLE/eta")
-                    etaTE_ib = tixi.getDoubleElement(node_control + "/outerShape/innerBorder/etaTE/eta")
-                    xsiLE_ib = tixi.getDoubleElement(node_control + "/outerShape/innerBorder/xsiLE/xsi")
-                    etaLE_ob = tixi.getDoubleElement(node_control + "/outerShape/outerBorder/etaLE/eta")
-                    etaTE_ob = tixi.getDoubleElement(node_control + "/outerShape/outerBorder/etaTE/eta")
-                    xsiLE_ob = tixi.getDoubleElement(node_control + "/outerShape/outerBorder/xsiLE/xsi")
+                    eta_ib = tixi.getDoubleElement(node_control + f"/outerShape/innerBorder/eta{edge}/eta")
+                    xsi_ib = tixi.getDoubleElement(node_control + f"/outerShape/innerBorder/xsi{edge}/xsi")
+                    eta_ob = tixi.getDoubleElement(node_control + f"/outerShape/outerBorder/eta{edge}/eta")
+                    xsi_ob = tixi.getDoubleElement(node_control + f"/outerShape/outerBorder/xsi{edge}/xsi")
 
                     # Hinge parameters
                     hingeXsi_ib = tixi.getDoubleElement(node_control + "/path/innerHingePoint/hingeXsi")
@@ -242,30 +244,14 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
                     logger.debug(f"No control data found for NODE {node_control:s}")
                     continue
 
-                if device_pos == 'leading':
-                    # Enforcing parallelism between control edges and x-axis
-                    xsiLE_ib = 0.0
-                    xsiLE_ob = 0.0
-
-                    # Relative coordinates of control w.r.t. component segment
-                    _, segment_uid_inner, eta_inner, xsi_inner = tigl.get_eta_xsi(name_comp_section, etaTE_ib, xsiTE_ib)
-                    _, segment_uid_outer, eta_outer, xsi_outer = tigl.get_eta_xsi(name_comp_section, etaTE_ob, xsiTE_ob)
-
-                    # Relative coordinates of control hinge line w.r.t. component segment
-                    _, _, _, xsi_h1 = tigl.get_eta_xsi(name_comp_section, etaTE_ib, hingeXsi_ib)
-                    _, _, _, xsi_h2 = tigl.get_eta_xsi(name_comp_section, etaTE_ob, hingeXsi_ob)
-
-                elif device_pos == 'trailing':
-                    xsiTE_ib = 1.0
-                    xsiTE_ob = 1.0
-
-                    # Relative coordinates of control w.r.t. component segment
-                    _, segment_uid_inner, eta_inner, xsi_inner = tigl.get_eta_xsi(name_comp_section, etaLE_ib, xsiLE_ib)
-                    _, segment_uid_outer, eta_outer, xsi_outer = tigl.get_eta_xsi(name_comp_section, etaLE_ob, xsiLE_ob)
+                # Enforcing parallelism between control edges and x-axis
+                # Relative coordinates of control w.r.t. component segment
+                _, segment_uid_inner, eta_inner, xsi_inner = tigl.get_eta_xsi(name_comp_section, eta_ib, xsi_ib)
+                _, segment_uid_outer, eta_outer, xsi_outer = tigl.get_eta_xsi(name_comp_section, eta_ob, xsi_ob)
 
-                    # Relative coordinates of control hinge line w.r.t. component segment
-                    _, _, _, xsi_h1 = tigl.get_eta_xsi(name_comp_section, etaLE_ib, hingeXsi_ib)
-                    _, _, _, xsi_h2 = tigl.get_eta_xsi(name_comp_section, etaLE_ob, hingeXsi_ob)
+                # Relative coordinates of control hinge line w.r.t. component segment
+                _, _, _, xsi_h1 = tigl.get_eta_xsi(name_comp_section, eta_ib, hingeXsi_ib)
+                _, _, _, xsi_h2 = tigl.get_eta_xsi(name_comp_section, eta_ob, hingeXsi_ob)
 
                 # ADD WING CONTROL AND SET ATTRIBUTES
                 control = aircraft.wings[wing_uid].add_control(control_uid)
-- 
2.43.0


From 69fb4a3d4f5eb26309f7ad833dee472eb50cdb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 24/32] fix: CPACS control deflections are set once all wings
 have been imported

---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index 2707d84..02cebae 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -113,6 +113,9 @@ def get_aircraft_wings(aircraft, settings, tixi, tigl):
         get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl)
         get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl)
 
+    # Deflections may refer to controls on any wing
+    get_control_deflections(aircraft, tixi)
+
 
 def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl):
     """
@@ -271,6 +274,16 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
                 control.segment_uid['inner'] = segment_uid_inner
                 control.segment_uid['outer'] = segment_uid_outer
 
+
+def get_control_deflections(aircraft, tixi):
+    """
+    Extract the control surface deflections
+
+    Args:
+        :aircraft: Aircraft model (with all wings and controls)
+        :tixi: Tixi handle
+    """
+
     # ----- CONTROL SURFACE DEFLECTION -----
     try:
         n_control_dev = tixi.getNamedChildrenCount(XPATHS.TOOLSPEC_CONTROL, 'controlDevice')
-- 
2.43.0


From 14ed2d9679545a744bd601b3217567d8b462ca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 25/32] fix: CPACS controls refer to segments by the name given
 to the imported segments

---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index 02cebae..7e39502 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -271,8 +271,8 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
                 control.rel_hinge_vertices['xsi_inner'] = xsi_h1
                 control.rel_hinge_vertices['xsi_outer'] = xsi_h2
 
-                control.segment_uid['inner'] = segment_uid_inner
-                control.segment_uid['outer'] = segment_uid_outer
+                control.segment_uid['inner'] = parse_str(segment_uid_inner)
+                control.segment_uid['outer'] = parse_str(segment_uid_outer)
 
 
 def get_control_deflections(aircraft, tixi):
-- 
2.43.0


From d4b87322c508bcb549547f5f7b92ea8d3ba9464f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 26/32] fix: airfoils and controls follow when the inner and
 outer edge of a CPACS segment are exchanged

---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 70 +++++++++++++++++++---
 1 file changed, 63 insertions(+), 7 deletions(-)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index 7e39502..45e4774 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -51,6 +51,9 @@ logger = logging.getLogger(__name__)
 
 COORD_FORMAT = '%+.7f'
 
+# Ratio of y- to z-component for which a segment is regarded as vertical
+VERTICAL_TOL = 1e-9
+
 
 # ======================================================================
 # Build the aircraft model
@@ -110,13 +113,37 @@ def get_aircraft_wings(aircraft, settings, tixi, tigl):
         aircraft.wings[wing_uid].symmetry = tigl.wingGetSymmetry(idx_wing)
 
         # For each wing we set segment and control data
-        get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl)
-        get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl)
+        reversed_segments = get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl)
+        get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl, reversed_segments)
 
     # Deflections may refer to controls on any wing
     get_control_deflections(aircraft, tixi)
 
 
+def _is_reversed(p_inner, p_outer):
+    """
+    Check if a CPACS segment edge is defined against the native direction
+
+    In the native model segments extend in positive y-direction, or in positive
+    z-direction if they are vertical.
+
+    Args:
+        :p_inner: Inner point of the edge (as defined in CPACS)
+        :p_outer: Outer point of the edge (as defined in CPACS)
+
+    Returns:
+        :is_reversed: True if the points have to be exchanged
+    """
+
+    delta_y = p_outer[1] - p_inner[1]
+    delta_z = p_outer[2] - p_inner[2]
+
+    # Vertical segments may have a small (numerical) y-component
+    if abs(delta_y) <= VERTICAL_TOL*abs(delta_z):
+        return delta_z < 0.0
+    return delta_y < 0.0
+
+
 def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl):
     """
     Extract a wing segment for a given wing
@@ -128,6 +155,9 @@ def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_win
         :idx_wing: Wing index
         :tixi: Tixi handle
         :tigl: Tigl handle
+
+    Returns:
+        :reversed_segments: Names of segments with exchanged inner and outer edge
     """
 
     xpath_segments = xpath_wing + '/segments'
@@ -138,6 +168,8 @@ def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_win
 
     logger.debug(f"Loading segments of wing '{wing_uid}'...")
 
+    reversed_segments = []
+
     # ---------- Iterate through segments of given wing ----------
     num_segments = tixi.getNamedChildrenCount(xpath_segments, 'segment')
     for idx_segment in range(1, num_segments + 1):
@@ -164,9 +196,10 @@ def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_win
         # Re-order vertices
         # * A, D should be at root and B, C at tip
         # * This is done so that the segments (thus panel normals point in the correct direction)
-        if b[1] - a[1] < 0.0 or (b[1] == a[1] and b[2] - a[2] < 0.0):
+        if _is_reversed(a, b):
+            reversed_segments.append(segment_uid)
             a, b, c, d = b, a, c, d
-        if c[1] - d[1] < 0.0 or (c[1] == d[1] and c[2] - d[2] < 0.0):
+        if _is_reversed(d, c):
             a, b, c, d = a, b, d, c
         if d[0] - a[0] < 0.0:
             a, b, c, d = d, b, c, a
@@ -184,8 +217,20 @@ def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_win
         # ----- Set airfoils -----
         get_aircraft_airfoils(aircraft, settings, tigl, wing_uid, segment_uid, idx_wing, idx_segment)
 
+        if segment_uid in reversed_segments:
+            airfoils = aircraft.wings[wing_uid].segments[segment_uid].airfoils
+            airfoils['inner'], airfoils['outer'] = airfoils['outer'], airfoils['inner']
+
+    # Segments must be ordered from the inner to the outer edge
+    if len(reversed_segments) == num_segments:
+        segments = aircraft.wings[wing_uid].segments
+        for segment_uid in list(segments.keys()):
+            segments.move_to_end(segment_uid, last=False)
 
-def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
+    return reversed_segments
+
+
+def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl, reversed_segments=()):
     """
     Extract the controls surfaces
 
@@ -195,6 +240,7 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
         :idx_wing: Index of the wing
         :tixi: Tixi handle
         :tigl: Tigl handle
+        :reversed_segments: Names of segments with exchanged inner and outer edge
 
     .. warning::
 
@@ -256,6 +302,16 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
                 _, _, _, xsi_h1 = tigl.get_eta_xsi(name_comp_section, eta_ib, hingeXsi_ib)
                 _, _, _, xsi_h2 = tigl.get_eta_xsi(name_comp_section, eta_ob, hingeXsi_ob)
 
+                segment_uid_inner = parse_str(segment_uid_inner)
+                segment_uid_outer = parse_str(segment_uid_outer)
+
+                # The control follows if the edges of its segments have been exchanged
+                if segment_uid_inner in reversed_segments and segment_uid_outer in reversed_segments:
+                    segment_uid_inner, segment_uid_outer = segment_uid_outer, segment_uid_inner
+                    eta_inner, eta_outer = 1.0 - eta_outer, 1.0 - eta_inner
+                    xsi_inner, xsi_outer = xsi_outer, xsi_inner
+                    xsi_h1, xsi_h2 = xsi_h2, xsi_h1
+
                 # ADD WING CONTROL AND SET ATTRIBUTES
                 control = aircraft.wings[wing_uid].add_control(control_uid)
                 control.device_type = 'flap' if device_pos == 'trailing' else 'slat'
@@ -271,8 +327,8 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
                 control.rel_hinge_vertices['xsi_inner'] = xsi_h1
                 control.rel_hinge_vertices['xsi_outer'] = xsi_h2
 
-                control.segment_uid['inner'] = parse_str(segment_uid_inner)
-                control.segment_uid['outer'] = parse_str(segment_uid_outer)
+                control.segment_uid['inner'] = segment_uid_inner
+                control.segment_uid['outer'] = segment_uid_outer
 
 
 def get_control_deflections(aircraft, tixi):
-- 
2.43.0


From 66c8d2d2fab5fc555bb2ad386a5ac13dc3cb1931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 27/32] fix: a control surface may start or end exactly at a
 segment border

---
 src/lib/pytornado/aero/vlm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/pytornado/aero/vlm.py b/src/lib/pytornado/aero/vlm.py
index 3d31fb1..1e46004 100644
--- a/src/lib/pytornado/aero/vlm.py
+++ b/src/lib/pytornado/aero/vlm.py
@@ -176,6 +176,11 @@ def pre_panelling(aircraft):
                     f"'{segment_outer_name}' (outer) must exist and be ordered from inner to outer"
                 )
 
+            # A control may start or end exactly at a segment border
+            list_of_segments = [row for row in list_of_segments if row[1] != row[2]]
+            if not list_of_segments:
+                raise ValueError(f"Control '{control.uid}' has no width")
+
             # Potentially, we must readjust the control surface geometry/hinge axis at borders
             if (xsi_inner != xsi_outer) or (xsi_h1 != xsi_h2):
                 # Let's first compute the "length" of the control surface
-- 
2.43.0


From 5d2d727b52609d79491f6894c62b6ec7d3cf9ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 28/32] fix: segments with 100 or more strips get the number of
 strips asked for

---
 src/lib/pytornado/aero/vlm.py         | 10 +++++++---
 src/lib/pytornado/objects/aircraft.py | 10 +++++-----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/lib/pytornado/aero/vlm.py b/src/lib/pytornado/aero/vlm.py
index 1e46004..3a42c4b 100644
--- a/src/lib/pytornado/aero/vlm.py
+++ b/src/lib/pytornado/aero/vlm.py
@@ -39,7 +39,7 @@ from pytornado.objects.vlm_struct import VLMLattice
 import pytornado.aero.c_vlm as c_vlm
 import pytornado.objects.objecttools as ot
 from pytornado.objects.vlm_struct import BookKeepingEntry
-from pytornado.objects.aircraft import get_abs_segment_point_coords
+from pytornado.objects.aircraft import MIN_ETA_LIMIT, get_abs_segment_point_coords
 
 logger = logging.getLogger(__name__)
 
@@ -231,11 +231,15 @@ def pre_panelling(aircraft):
     #   parts (subareas) of the discretised surface have which functions
     for this_segment, _ in ot.all_segments(aircraft):
         segment = this_segment[2]
+        num_s = segment.panels['num_s']
 
-        for eta in np.linspace(0, 1, segment.panels['num_s']+1):
+        # The requested strips themselves may be narrow
+        min_width = min(MIN_ETA_LIMIT, 0.5/num_s)
+
+        for eta in np.linspace(0, 1, num_s+1):
             if (eta == 0) or (eta == 1):
                 continue
-            segment.add_subdivision(eta, eta, ignore_inval_eta=True)
+            segment.add_subdivision(eta, eta, ignore_inval_eta=True, min_width=min_width)
 
 
 def gen_lattice(aircraft, state, settings, make_new_subareas=True):
diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 1993b4a..af9a8e8 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -723,7 +723,7 @@ class WingSegment:
         # Create a segment airfoil as a "morphable" airfoil
         self.segment_airfoil = MorphAirfoil(airfoil_dict['inner'], airfoil_dict['outer'])
 
-    def add_subdivision(self, eta_a, eta_d, ignore_inval_eta=False, allow_narrow=False):
+    def add_subdivision(self, eta_a, eta_d, ignore_inval_eta=False, min_width=MIN_ETA_LIMIT):
         """
         Add a subdivision for the current segment
 
@@ -738,7 +738,7 @@ class WingSegment:
             :eta_a: (float) upper relative position of the division line
             :eta_d: (float) upper relative position of the division line
             :ignore_inval_eta: (bool) optional parameter to ignore invalid eta values
-            :allow_narrow: (bool) optional parameter to create a division even if it is close to an existing one
+            :min_width: (float) optional parameter, minimum distance to the existing division on the inner side
 
         Returns:
             :subvivision: (obj) newly created subdivision object
@@ -765,7 +765,7 @@ class WingSegment:
             logger.debug(f"Refusing to create new division at existing division (eta_a = {eta_a:.3f})")
             return self._get_outer_neighbour_subdiv(prev_subdivision.rel_vertices['eta_b'])
 
-        if not allow_narrow and (eta_a - prev_subdivision.rel_vertices['eta_a']) < MIN_ETA_LIMIT:
+        if (eta_a - prev_subdivision.rel_vertices['eta_a']) < min_width:
             logger.debug("Refusing to create a subdivision close to existing division "
                          "(Delta eta_a = {:.3f})".format(eta_a - prev_subdivision.rel_vertices['eta_a']))
             return self.subdivision[idx_prev]
@@ -907,7 +907,7 @@ class WingSegment:
 
         # CASE 2: There is no more subdivisions before eta_b
         elif eta_b < eta_b_sd1:
-            self.add_subdivision(eta_b, eta_b, allow_narrow=True)
+            self.add_subdivision(eta_b, eta_b, min_width=0)
 
         # CASE 3: The newly created subdivision ends before desired line
         elif eta_b > eta_b_sd1:
@@ -946,7 +946,7 @@ class WingSegment:
 
             # If the last outer neighbour is larger than required, make a subdivision
             if outer_neighbour.rel_vertices['eta_b'] - eta_b > MIN_ETA_LIMIT*1e-6:
-                self.add_subdivision(eta_b, eta_b, allow_narrow=True)
+                self.add_subdivision(eta_b, eta_b, min_width=0)
 
         # Add subarea for all subdivisions
         for row in sd_list:
-- 
2.43.0


From bcee373e1a98a7cc5abf6382dcf097d7b012b120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:31 +0000
Subject: [PATCH 29/32] fix: control surfaces on small segments are no longer
 rejected

---
 src/lib/pytornado/objects/aircraft.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index af9a8e8..1fd1956 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -2107,6 +2107,10 @@ def xsi_interpol(segment_vertices, rel_inner, rel_outer, eta):
     segment_normal = np.cross(c-a, b-d)
     intersect_plane_normal = np.cross(segment_normal, p_lower-p_upper)
 
+    # Unit vectors since the check for parallelism shall not depend on the size of the segment
+    intersect_plane_normal /= np.linalg.norm(intersect_plane_normal) or 1
+    insegment_direction /= np.linalg.norm(insegment_direction) or 1
+
     p_intersect = get_plane_line_intersect(intersect_plane_normal, p_upper, insegment_direction, p_inner)
     # Position between the leading and trailing edge, as seen in direction of the mean normal
     # (the line between the inner and outer position leaves the surface of a warped segment)
-- 
2.43.0


From bb98bb7c53f6fd4425cac374364e58dd0a6cb1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:19 +0000
Subject: [PATCH 30/32] fix: relative airfoil paths refer to the project
 directory, not to the current directory

---
 src/lib/pytornado/fileio/native/aircraft.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lib/pytornado/fileio/native/aircraft.py b/src/lib/pytornado/fileio/native/aircraft.py
index fd6a77b..6b3ee34 100644
--- a/src/lib/pytornado/fileio/native/aircraft.py
+++ b/src/lib/pytornado/fileio/native/aircraft.py
@@ -28,6 +28,7 @@ Developed at Airinnova AB, Stockholm, Sweden.
 """
 
 import os
+import re
 import logging
 import json
 
@@ -35,7 +36,6 @@ from commonlibs.logger import truncate_filepath
 
 from pytornado.fileio.utils import dump_pretty_json
 from pytornado.objects.aircraft import Aircraft
-from pytornado.objects.settings import PATHS
 
 logger = logging.getLogger(__name__)
 
@@ -86,8 +86,8 @@ def load(settings):
                     segment.geometry[key] = value
 
             for key, value in segment_entry['airfoils'].items():
-                # From now on use the absolute file path
-                if value.startswith(PATHS.DIR.AIRFOILS):
+                # From now on use the absolute file path (a relative path refers to the project directory)
+                if not re.fullmatch(r'NACA\d{4}', value, re.IGNORECASE):
                     value = os.path.join(settings.paths('root'), value)
                 segment.airfoils[key] = value
 
@@ -163,8 +163,7 @@ def save(aircraft, settings):
             for key, value in segment.airfoils.items():
                 # If airfoil is a file in the project directory, make sure to save as relative path
                 # Note: Airfoil definition may also be for instance "NACA1234"
-                path_airfoils = os.path.join(settings.paths('root'), PATHS.DIR.AIRFOILS, '')
-                if value.startswith(path_airfoils):
+                if value.startswith(os.path.join(settings.paths('root'), '')):
                     value = os.path.relpath(value, settings.paths('root'))
                 segment_entry['airfoils'][key] = value
 
-- 
2.43.0


From 4737c35606e9e865f8488f05cac0e77dd40bbb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:19 +0000
Subject: [PATCH 31/32] fix: a NACA definition is not taken for a file of that
 name in the current directory

---
 src/lib/pytornado/objects/aircraft.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 1fd1956..e3292c8 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -48,6 +48,7 @@ from copy import copy
 from math import sqrt, sin, cos, tan, asin, atan2, degrees, radians
 import logging
 import os
+import re
 
 import numpy as np
 from commonlibs.math.vectors import get_plane_line_intersect
@@ -698,7 +699,10 @@ class WingSegment:
             import_from_file = False
             import_from_NACA = False
 
-            if os.path.isfile(airfoil_definition):
+            # A NACA definition does not depend on files in the current directory
+            is_NACA_definition = re.fullmatch(r'NACA\d{4}', airfoil_definition, re.IGNORECASE)
+
+            if os.path.isfile(airfoil_definition) and not is_NACA_definition:
                 logger.info(f"Importing airfoil from file: '{airfoil_definition}'")
                 import_from_file = True
             elif airfoil_definition.upper().startswith('NACA'):
-- 
2.43.0


From c67619707e260dff348ea95f8edcc0dc5d3fa010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:26 +0000
Subject: [PATCH 32/32] fix: properties of a segment edge that is a point or
 vertical are finite, so that the aircraft can be saved and loaded

---
 src/lib/pytornado/objects/aircraft.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index e3292c8..72f68b0 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1097,8 +1097,9 @@ class WingSegment:
 
             self.geometry['inner_chord'] = sqrt(d_x*d_x + d_y*d_y + d_z*d_z)
 
-            cos_bi = +d_x/r_i
-            sin_bi = +d_y/r_i
+            # The edge may be a point, or vertical
+            cos_bi = +d_x/r_i if r_i else 1.0
+            sin_bi = +d_y/r_i if r_i else 0.0
 
             # atan2() handles singularity
             self.geometry['inner_beta'] = degrees(asin(sin_bi))
@@ -1146,8 +1147,9 @@ class WingSegment:
 
             self.geometry['outer_chord'] = sqrt(c_x*c_x + c_y*c_y + c_z*c_z)
 
-            cos_bo = +c_x/r_o
-            sin_bo = +c_y/r_o
+            # The edge may be a point, or vertical
+            cos_bo = +c_x/r_o if r_o else 1.0
+            sin_bo = +c_y/r_o if r_o else 0.0
 
             self.geometry['outer_beta'] = degrees(asin(sin_bo))
             self.geometry['outer_alpha'] = -degrees(atan2(c_z, r_o*cos_bo))
-- 
2.43.0

