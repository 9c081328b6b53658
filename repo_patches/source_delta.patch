From 1b878faf5e91372e0e661bbc274d78f735eadba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 01/48] fix: encode 8-byte reals exactly just below powers of
 16

---
 gdspy/gdsiiformat.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index 3747391..290a31e 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -145,10 +145,8 @@ def _eight_byte_real(value):
         value = -value
     else:
         byte1 = 0x00
-    fexp = numpy.log2(value) / 4
-    exponent = int(numpy.ceil(fexp))
-    if fexp == exponent:
-        exponent += 1
+    # frexp is exact, unlike log2, which rounds up just below powers of 16
+    exponent = (int(numpy.frexp(value)[1]) + 3) // 4
     mantissa = int(value * 16.0 ** (14 - exponent))
     byte1 += exponent + 64
     byte2 = mantissa // 281474976710656
-- 
2.43.0


From 4a2622b0628262b9aabda62cbce98b323af5cac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 02/48] fix: read empty GDSII strings as empty texts instead of
 None

---
 gdspy/gdsiiformat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index 290a31e..db60758 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -98,6 +98,8 @@ def _record_reader(stream):
                         data = data.decode("ascii")
                 elif data[-1] == "\0":
                     data = data[:-1]
+        elif data_type == 0x06:
+            data = ""
         yield [rec_type, data]
 
 
-- 
2.43.0


From 87d5eae1b4b2d6b5c811d4e1f5a568f100d4ea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 03/48] fix: scale the end extensions of a FlexPath in
 transform

---
 gdspy/path.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index 20c02f7..3703103 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1296,6 +1296,10 @@ class FlexPath(object):
             if self.width_transform or not self.gdsii_path:
                 self.widths = self.widths * scale
             self.offsets = self.offsets * scale
+            self.ends = [
+                tuple([e * scale for e in end]) if isinstance(end, tuple) else end
+                for end in self.ends
+            ]
         if x_reflection:
             cos[1] = -cos[1]
             sin[0] = -sin[0]
-- 
2.43.0


From 3d92658a8973eed0b46bac40a1c4ff90be810ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 04/48] fix: scale the bend radius of a FlexPath with its
 points

---
 gdspy/path.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index 3703103..93e1bc1 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1244,6 +1244,7 @@ class FlexPath(object):
         if self.width_transform or not self.gdsii_path:
             self.widths = self.widths * scale
         self.offsets = self.offsets * scale
+        self.bend_radius = [None if r is None else r * scale for r in self.bend_radius]
         for i, end in enumerate(self.ends):
             # CustomPlus created by bgnextn and endextn
             if isinstance(end, tuple):
@@ -1296,6 +1297,9 @@ class FlexPath(object):
             if self.width_transform or not self.gdsii_path:
                 self.widths = self.widths * scale
             self.offsets = self.offsets * scale
+            self.bend_radius = [
+                None if r is None else r * scale for r in self.bend_radius
+            ]
             self.ends = [
                 tuple([e * scale for e in end]) if isinstance(end, tuple) else end
                 for end in self.ends
-- 
2.43.0


From ba3cb96394a53be90ffa6c0333c82b7504843ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 05/48] fix: round instead of truncating the points of
 RobustPath in GDSII

---
 gdspy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 93e1bc1..646644c 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2327,7 +2327,7 @@ class RobustPath(object):
                         points.append(px)
                     start = 0
             points.extend(self.paths[ii][-1].points(start, 1, 0))
-            points = (numpy.array(points) * multiplier).astype(">i4")
+            points = numpy.round(numpy.array(points) * multiplier).astype(">i4")
             if points.shape[0] > 8191:
                 warnings.warn(
                     "[GDSPY] Paths with more than 8191 are not supported "
-- 
2.43.0


From 977b5db7c35762ef4a023e05f244667a8a5b40cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 06/48] fix: keep the sign of the GDSII width for reflected
 RobustPath

---
 gdspy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 646644c..217ccbd 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2240,7 +2240,7 @@ class RobustPath(object):
                     pathtype,
                     8,
                     0x0F03,
-                    sign * int(round(self.widths[ii] * multiplier)),
+                    sign * abs(int(round(self.widths[ii] * multiplier))),
                 )
             )
             if pathtype == 4:
-- 
2.43.0


From 78ad2f15ca62a38f07d8b24b3d99ff7acd80cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 07/48] fix: scale the end extensions of a RobustPath

---
 gdspy/path.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index 217ccbd..1533501 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2496,6 +2496,10 @@ class RobustPath(object):
         if self.width_transform or not self.gdsii_path:
             self.widths = [wid * scale for wid in self.widths]
         self.offsets = [off * scale for off in self.offsets]
+        self.ends = [
+            tuple([e * scale for e in end]) if isinstance(end, tuple) else end
+            for end in self.ends
+        ]
         for path in self.paths:
             for sub in path:
                 sub.scale(scale)
@@ -2548,6 +2552,10 @@ class RobustPath(object):
             if self.width_transform or not self.gdsii_path:
                 self.widths = [wid * scale for wid in self.widths]
             self.offsets = [off * scale for off in self.offsets]
+            self.ends = [
+                tuple([e * scale for e in end]) if isinstance(end, tuple) else end
+                for end in self.ends
+            ]
             for path in self.paths:
                 for sub in path:
                     sub.scale(scale)
-- 
2.43.0


From 7fa76048ad1af5751f6ebeeba0a8885768ce8ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 08/48] fix: do not magnify the array spacing of a RobustPath

---
 gdspy/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index 1533501..3316b1b 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2536,6 +2536,9 @@ class RobustPath(object):
         """
         self._polygon_dict = None
         if array_trans is not None:
+            if scale is not None:
+                # The translation is not magnified
+                array_trans = array_trans / scale
             self.x = self.x + array_trans
             for path in self.paths:
                 for sub in path:
-- 
2.43.0


From ed03ac1c382b7b5b9cfb23414aa0be41fa61c54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 09/48] fix: do not fail on zero padding when reading binary
 GDSII records

---
 gdspy/gdsiiformat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index db60758..33ace71 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -123,7 +123,7 @@ def _raw_record_reader(stream):
             return
         size, rec_type = struct.unpack(">HH", header)
         rec_type = rec_type // 256
-        yield (rec_type, header + stream.read(size - 4))
+        yield (rec_type, header + stream.read(max(size - 4, 0)))
 
 
 def _eight_byte_real(value):
-- 
2.43.0


From f965c186912ef3ab09bc45d66811f62fc2cb9b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:40 +0000
Subject: [PATCH 10/48] fix: compose reflections and rotations of references
 into their labels

---
 gdspy/library.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index ad0b83a..80a5f84 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -1484,8 +1484,10 @@ class CellReference(object):
                         lbl.magnification *= self.magnification
                     else:
                         lbl.magnification = self.magnification
-                if self.x_reflection is not None:
+                if self.x_reflection:
                     lbl.x_reflection = not lbl.x_reflection
+                    if lbl.rotation is not None:
+                        lbl.rotation = -lbl.rotation
                 if self.rotation is not None:
                     if lbl.rotation is not None:
                         lbl.rotation += self.rotation
@@ -2117,8 +2119,10 @@ class CellArray(object):
                                 lbl.magnification *= self.magnification
                             else:
                                 lbl.magnification = self.magnification
-                        if self.x_reflection is not None:
+                        if self.x_reflection:
                             lbl.x_reflection = not lbl.x_reflection
+                            if lbl.rotation is not None:
+                                lbl.rotation = -lbl.rotation
                         if self.rotation is not None:
                             if lbl.rotation is not None:
                                 lbl.rotation += self.rotation
-- 
2.43.0


From 42550cdeb65299014b92406d959a79e3e4b78834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:40 +0000
Subject: [PATCH 11/48] fix: set the texttype of flattened labels exactly when
 it is given

---
 gdspy/library.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 80a5f84..3a136a8 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -821,15 +821,10 @@ class Cell(object):
             This cell.
         """
         self.labels = self.get_labels()
-        if single_layer is not None and single_datatype is not None:
-            for lbl in self.labels:
+        for lbl in self.labels:
+            if single_layer is not None:
                 lbl.layer = single_layer
-                lbl.texttype = single_texttype
-        elif single_layer is not None:
-            for lbl in self.labels:
-                lbl.layer = single_layer
-        elif single_datatype is not None:
-            for lbl in self.labels:
+            if single_texttype is not None:
                 lbl.texttype = single_texttype
         self.polygons = self.get_polygonsets()
         self.paths = self.get_paths()
-- 
2.43.0


From 3cb8a754c184a15dda076c7581e066595f84a9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:52 +0000
Subject: [PATCH 12/48] fix: drop the cached polygons of paths whose layers
 change in flatten

---
 gdspy/library.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index 3a136a8..bc2a118 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -835,16 +835,19 @@ class Cell(object):
             for path in self.paths:
                 path.layers = [single_layer] * path.n
                 path.datatypes = [single_datatype] * path.n
+                path._polygon_dict = None
         elif single_layer is not None:
             for poly in self.polygons:
                 poly.layers = [single_layer] * len(poly.polygons)
             for path in self.paths:
                 path.layers = [single_layer] * path.n
+                path._polygon_dict = None
         elif single_datatype is not None:
             for poly in self.polygons:
                 poly.datatypes = [single_datatype] * len(poly.polygons)
             for path in self.paths:
                 path.datatypes = [single_datatype] * path.n
+                path._polygon_dict = None
         self.references = []
         return self
 
-- 
2.43.0


From 4b9d2eeb50ef8160f01a0414f1208a5e9c7c609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:43 +0000
Subject: [PATCH 13/48] fix: recalculate cached bounding boxes when a
 referenced cell changed meanwhile

---
 gdspy/library.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index bc2a118..32b822d 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -98,6 +98,7 @@ class Cell(object):
         "labels",
         "references",
         "_bb_valid",
+        "_bb_deps",
         "_bounding_box",
     )
 
@@ -108,6 +109,7 @@ class Cell(object):
         self.labels = []
         self.references = []
         self._bb_valid = False
+        self._bb_deps = {}
         self._bounding_box = None
         if use_current_library and not exclude_from_current:
             import gdspy
@@ -558,7 +560,12 @@ class Cell(object):
             Bounding box of this cell [[x_min, y_min], [x_max, y_max]],
             or None if the cell is empty.
         """
-        deps_still_valid = all(ref._bb_valid for ref in self.get_dependencies(True))
+        # The cache is valid only while all dependencies keep the bounding
+        # boxes they had when it was created.
+        deps_still_valid = all(
+            ref._bb_valid and self._bb_deps.get(ref, ref) is ref._bounding_box
+            for ref in self.get_dependencies(True)
+        )
         cached_bbox_still_valid = self._bb_valid and deps_still_valid
         if not cached_bbox_still_valid:
             bb = numpy.array(((1e300, 1e300), (-1e300, -1e300)))
@@ -580,6 +587,9 @@ class Cell(object):
                 self._bounding_box = bb
             else:
                 self._bounding_box = None
+            self._bb_deps = {
+                ref: ref._bounding_box for ref in self.get_dependencies(True)
+            }
             self._bb_valid = True
 
         if self._bounding_box is None:
-- 
2.43.0


From ae7a9ab5940d51027fcd72dd37919020eec8af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:43 +0000
Subject: [PATCH 14/48] fix: discard the cached bounding box of a cell when its
 elements are removed or replaced

---
 gdspy/library.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index 32b822d..16546a9 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -382,6 +382,7 @@ class Cell(object):
                 element.datatypes = dts
                 filtered_polys.append(element)
         self.polygons = filtered_polys
+        self._bb_valid = False
         return self
 
     def remove_paths(self, test):
@@ -409,6 +410,7 @@ class Cell(object):
                 self.paths.pop(ii)
             else:
                 ii += 1
+        self._bb_valid = False
         return self
 
     def remove_labels(self, test):
@@ -859,6 +861,7 @@ class Cell(object):
                 path.datatypes = [single_datatype] * path.n
                 path._polygon_dict = None
         self.references = []
+        self._bb_valid = False
         return self
 
     def to_svg(self, outfile, scaling, precision, attributes):
@@ -2434,6 +2437,7 @@ class GdsLibrary(object):
                     )
                 ]
                 removed -= len(c.references)
+                c._bb_valid = False
         return removed
 
     def write_gds(self, outfile, cells=None, timestamp=None, binary_cells=None):
@@ -2896,9 +2900,11 @@ class GdsLibrary(object):
                 if isinstance(ref.ref_cell, Cell):
                     if ref.ref_cell.name == old_name:
                         ref.ref_cell = new_cell
+                        cell._bb_valid = False
                         replacements += 1
                 elif ref.ref_cell == old_name:
                     ref.ref_cell = new_cell
+                    cell._bb_valid = False
                     replacements += 1
         return replacements
 
-- 
2.43.0


From 58e26b5ec76abf67126fff75e09729eaf7ba6d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 15/48] fix: handle paths without any segment in area, polygon,
 bounding box and GDSII output

---
 gdspy/library.py |  4 +++-
 gdspy/path.py    | 16 +++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 16546a9..aded919 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -575,7 +575,9 @@ class Cell(object):
             for polygon in self.polygons:
                 all_polygons.extend(polygon.polygons)
             for path in self.paths:
-                all_polygons.extend(path.to_polygonset().polygons)
+                polygonset = path.to_polygonset()
+                if polygonset is not None:
+                    all_polygons.extend(polygonset.polygons)
             for reference in self.references:
                 reference_bb = reference.get_bounding_box()
                 if reference_bb is not None:
diff --git a/gdspy/path.py b/gdspy/path.py
index 3316b1b..14be3c2 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -406,6 +406,8 @@ class FlexPath(object):
         """
         if self._polygon_dict is None:
             self._polygon_dict = {}
+            if self.points.shape[0] < 2:
+                return {} if by_spec else []
             if self.points.shape[0] == 2:
                 # Common case: single path with 2 points
                 un = self.points[1] - self.points[0]
@@ -957,7 +959,7 @@ class FlexPath(object):
             A number that multiplies all dimensions written in the GDSII
             elements.
         """
-        if len(self.points) == 0:
+        if len(self.points) < 2:
             return
         if self.gdsii_path:
             sign = 1 if self.width_transform else -1
@@ -1172,7 +1174,10 @@ class FlexPath(object):
         out : number, dictionary
             Area of this object.
         """
-        return self.to_polygonset().area(by_spec)
+        polygonset = self.to_polygonset()
+        if polygonset is None:
+            return {} if by_spec else 0
+        return polygonset.area(by_spec)
 
     def translate(self, dx, dy):
         """
@@ -1991,6 +1996,8 @@ class RobustPath(object):
         """
         if self._polygon_dict is None:
             self._polygon_dict = {}
+            if len(self.paths[0]) == 0:
+                return {} if by_spec else []
             for path, end, layer, datatype in zip(
                 self.paths, self.ends, self.layers, self.datatypes
             ):
@@ -2415,7 +2422,10 @@ class RobustPath(object):
         out : number, dictionary
             Area of this object.
         """
-        return self.to_polygonset().area(by_spec)
+        polygonset = self.to_polygonset()
+        if polygonset is None:
+            return {} if by_spec else 0
+        return polygonset.area(by_spec)
 
     def translate(self, dx, dy):
         """
-- 
2.43.0


From 11509f01b46cb3e4fecf173c23e213142bba784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:19 +0000
Subject: [PATCH 16/48] fix: keep the reflection of labels and references in
 transformed cell copies

---
 gdspy/library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index aded919..2fa70be 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -260,7 +260,7 @@ class Cell(object):
                 path.transform(translation, rotation, scale, x_reflection)
 
             for lbl in new_cell.labels:
-                r0 = -1 if lbl.x_reflection is None else 1
+                r0 = -1 if lbl.x_reflection else 1
                 s0 = 1 if lbl.magnification is None else lbl.magnification
                 t0 = 0 if lbl.rotation is None else (lbl.rotation * numpy.pi / 180)
                 dx0, dy0 = lbl.position
@@ -277,7 +277,7 @@ class Cell(object):
                 lbl.x_reflection = r * r0 < 0
 
             for ref in new_cell.references:
-                r0 = -1 if ref.x_reflection is None else 1
+                r0 = -1 if ref.x_reflection else 1
                 s0 = 1 if ref.magnification is None else ref.magnification
                 t0 = 0 if ref.rotation is None else (ref.rotation * numpy.pi / 180)
                 dx0, dy0 = ref.origin
-- 
2.43.0


From f6f8420a789fafd5cc46ff5d1e9a25c9e0c53df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:19 +0000
Subject: [PATCH 17/48] fix: scale the spacing of arrays in transformed cell
 copies

---
 gdspy/library.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index 2fa70be..4739480 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -292,6 +292,8 @@ class Cell(object):
                 if ref.magnification == 1:
                     ref.magnification = None
                 ref.x_reflection = r * r0 < 0
+                if isinstance(ref, CellArray):
+                    ref.spacing = (s * ref.spacing[0], s * ref.spacing[1])
 
         return new_cell
 
-- 
2.43.0


From 2ecbeed58404c79170cf3914f9b8b983ea403b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 18/48] fix: transform elements present more than once only
 once in cell copies

---
 gdspy/library.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 4739480..477e8ae 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -233,9 +233,10 @@ class Cell(object):
             new_cell.references = list(self.references)
             return new_cell
 
-        new_cell.polygons = libcopy.deepcopy(self.polygons)
-        new_cell.paths = libcopy.deepcopy(self.paths)
-        new_cell.labels = libcopy.deepcopy(self.labels)
+        # Copy one by one: an element added twice must be transformed only once
+        new_cell.polygons = [libcopy.deepcopy(poly) for poly in self.polygons]
+        new_cell.paths = [libcopy.deepcopy(path) for path in self.paths]
+        new_cell.labels = [libcopy.deepcopy(lbl) for lbl in self.labels]
         new_cell.references = [libcopy.copy(ref) for ref in self.references]
 
         if transform:
-- 
2.43.0


From 968c4e05c8fe79e31edbc1b9453c8c140f6d0326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 19/48] fix: add all cells to a library or none, with
 dependencies from any iterable

---
 gdspy/library.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 477e8ae..bdbe31f 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2383,17 +2383,19 @@ class GdsLibrary(object):
         else:
             cell_set = set(cell)
             if include_dependencies:
-                for c in cell:
+                for c in list(cell_set):
                     cell_set.update(c.get_dependencies(True))
+        if not overwrite_duplicate:
+            # Nothing is added unless everything can be added
+            names = {}
+            for c in cell_set:
+                if names.setdefault(c.name, self.cells.get(c.name, c)) is not c:
+                    raise ValueError(
+                        "[GDSPY] Cell named {0} already present in library.".format(
+                            c.name
+                        )
+                    )
         for c in cell_set:
-            if (
-                not overwrite_duplicate
-                and c.name in self.cells
-                and self.cells[c.name] is not c
-            ):
-                raise ValueError(
-                    "[GDSPY] Cell named {0} already present in library.".format(c.name)
-                )
             if (
                 overwrite_duplicate
                 and update_references
-- 
2.43.0


From 7ce8d723b1e9927e7636038a38feae13c40edb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 20/48] fix: always cut polygons inside their extent when
 fracturing

---
 gdspy/path.py    | 32 +++++++++++++++++++++++++-------
 gdspy/polygon.py | 33 +++++++++++++++++++++++++++++++--
 2 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 14be3c2..ad9edad 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -39,7 +39,7 @@ import struct
 
 from gdspy import clipper
 from gdspy.hobby import _hobby
-from gdspy.polygon import PolygonSet
+from gdspy.polygon import PolygonSet, _inner_cuts
 
 _halfpi = 0.5 * numpy.pi
 _angle_dict = {"l": _halfpi, "r": -_halfpi, "ll": numpy.pi, "rr": -numpy.pi}
@@ -558,7 +558,10 @@ class FlexPath(object):
                                         for i in range(1, ncuts + 1)
                                     ]
                                     chopped = clipper._chop(
-                                        polygons[ii], cuts, 0, 1 / self.precision
+                                        polygons[ii],
+                                        _inner_cuts(cuts, pts0),
+                                        0,
+                                        1 / self.precision,
                                     )
                                 else:
                                     # Horizontal cuts
@@ -567,7 +570,10 @@ class FlexPath(object):
                                         for i in range(1, ncuts + 1)
                                     ]
                                     chopped = clipper._chop(
-                                        polygons[ii], cuts, 1, 1 / self.precision
+                                        polygons[ii],
+                                        _inner_cuts(cuts, pts1),
+                                        1,
+                                        1 / self.precision,
                                     )
                                 polygons.pop(ii)
                                 polygons.extend(
@@ -889,7 +895,10 @@ class FlexPath(object):
                                         for i in range(1, ncuts + 1)
                                     ]
                                     chopped = clipper._chop(
-                                        polygons[ii], cuts, 0, 1 / self.precision
+                                        polygons[ii],
+                                        _inner_cuts(cuts, pts0),
+                                        0,
+                                        1 / self.precision,
                                     )
                                 else:
                                     # Horizontal cuts
@@ -898,7 +907,10 @@ class FlexPath(object):
                                         for i in range(1, ncuts + 1)
                                     ]
                                     chopped = clipper._chop(
-                                        polygons[ii], cuts, 1, 1 / self.precision
+                                        polygons[ii],
+                                        _inner_cuts(cuts, pts1),
+                                        1,
+                                        1 / self.precision,
                                     )
                                 polygons.pop(ii)
                                 polygons.extend(
@@ -2152,7 +2164,10 @@ class RobustPath(object):
                                     for i in range(1, ncuts + 1)
                                 ]
                                 chopped = clipper._chop(
-                                    polygons[ii], cuts, 0, 1 / self.precision
+                                    polygons[ii],
+                                    _inner_cuts(cuts, pts0),
+                                    0,
+                                    1 / self.precision,
                                 )
                             else:
                                 # Horizontal cuts
@@ -2161,7 +2176,10 @@ class RobustPath(object):
                                     for i in range(1, ncuts + 1)
                                 ]
                                 chopped = clipper._chop(
-                                    polygons[ii], cuts, 1, 1 / self.precision
+                                    polygons[ii],
+                                    _inner_cuts(cuts, pts1),
+                                    1,
+                                    1 / self.precision,
                                 )
                             polygons.pop(ii)
                             polygons.extend(
diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index ab37ab3..3cd9a3c 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -45,6 +45,29 @@ _halfpi = 0.5 * numpy.pi
 _mpone = numpy.array((-1.0, 1.0))
 
 
+def _inner_cuts(cuts, coords):
+    """
+    Keep only the cuts inside the extent of a polygon.
+
+    Cuts at the border do not divide the polygon, so, without any cuts
+    inside, it is divided in the middle.
+
+    Parameters
+    ----------
+    cuts : list of numbers
+        Cut coordinates.
+    coords : list of numbers
+        Sorted coordinates of the polygon vertices.
+
+    Returns
+    -------
+    out : list of numbers
+        Cuts inside the polygon.
+    """
+    inner = [c for c in cuts if coords[0] < c < coords[-1]]
+    return inner if len(inner) > 0 else [0.5 * (coords[0] + coords[-1])]
+
+
 class PolygonSet(object):
     """
     Set of polygonal objects.
@@ -356,7 +379,10 @@ class PolygonSet(object):
                             for i in range(1, ncuts + 1)
                         ]
                         chopped = clipper._chop(
-                            self.polygons[ii], cuts, 0, 1 / precision
+                            self.polygons[ii],
+                            _inner_cuts(cuts, pts0),
+                            0,
+                            1 / precision,
                         )
                     else:
                         # Horizontal cuts
@@ -365,7 +391,10 @@ class PolygonSet(object):
                             for i in range(1, ncuts + 1)
                         ]
                         chopped = clipper._chop(
-                            self.polygons[ii], cuts, 1, 1 / precision
+                            self.polygons[ii],
+                            _inner_cuts(cuts, pts1),
+                            1,
+                            1 / precision,
                         )
                     self.polygons.pop(ii)
                     layer = self.layers.pop(ii)
-- 
2.43.0


From 5e483bff78e3ec493d97180c8214e4c7ec8d9a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 21/48] fix: accept flexible paths in lists of polygons for
 operations

---
 gdspy/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index ff5d351..f8f38f2 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -72,7 +72,7 @@ def _gather_polys(args):
             polys.extend(p.polygons)
         elif (
             isinstance(p, RobustPath)
-            or isinstance(args, FlexPath)
+            or isinstance(p, FlexPath)
             or isinstance(p, CellReference)
             or isinstance(p, CellArray)
         ):
-- 
2.43.0


From 35fcccd4d7fc8ce7e7518ceb49b93f7cd73f5181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 22/48] fix: boolean operations with empty operands

---
 gdspy/operation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index f8f38f2..955f0b2 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -251,9 +251,9 @@ def boolean(
     poly1 = _gather_polys(operand1)
     poly2 = _gather_polys(operand2)
     if len(poly2) == 0:
+        if len(poly1) == 0 or operation == "and":
+            return None
         if operation in ["not", "xor"]:
-            if len(poly1) == 0:
-                return None
             return PolygonSet(poly1, layer, datatype).fracture(max_points, precision)
         poly2.append(poly1.pop())
     result = clipper.clip(poly1, poly2, operation, 1 / precision)
-- 
2.43.0


From 3c80b7e9591ad31901d66197f5e72840271d594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 23/48] fix: no point is inside an empty set of polygons

---
 gdspy/operation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index 955f0b2..b4d90df 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -290,6 +290,8 @@ def inside(points, polygons, short_circuit="any", precision=0.001):
         groups is inside the set of polygons.
     """
     polys = _gather_polys(polygons)
+    if len(polys) == 0:
+        return (False,) * len(points)
     if numpy.isscalar(points[0][0]):
         pts = (points,)
         sc = 0
-- 
2.43.0


From 6aa6aa4fa30b608380f63e0510f8dc0c8d7d8e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 24/48] fix: widths and offsets of a flexible path started from
 a single point

---
 gdspy/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index ad9edad..0c5ebe6 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -330,8 +330,8 @@ class FlexPath(object):
         self.points = numpy.array(points)
         if self.points.shape == (2,):
             self.points.resize((1, 2))
-        self.widths = numpy.tile(self.widths, (len(points), 1))
-        self.offsets = numpy.tile(self.offsets, (len(points), 1))
+        self.widths = numpy.tile(self.widths, (self.points.shape[0], 1))
+        self.offsets = numpy.tile(self.offsets, (self.points.shape[0], 1))
         if isinstance(ends, list):
             self.ends = [ends[i % len(ends)] for i in range(self.n)]
         else:
-- 
2.43.0


From 5c8e73d28424456621f69bfd5ab96314de640cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 25/48] fix: do not modify the lists of widths and offsets
 given to RobustPath

---
 gdspy/path.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 0c5ebe6..bf94be7 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1849,9 +1849,9 @@ class RobustPath(object):
         self._polygon_dict = None
         if isinstance(width, list):
             self.n = len(width)
-            self.widths = width
+            self.widths = list(width)
             if isinstance(offset, list):
-                self.offsets = offset
+                self.offsets = list(offset)
             else:
                 self.offsets = [
                     (i - 0.5 * (self.n - 1)) * offset for i in range(self.n)
@@ -1859,7 +1859,7 @@ class RobustPath(object):
         else:
             if isinstance(offset, list):
                 self.n = len(offset)
-                self.offsets = offset
+                self.offsets = list(offset)
             else:
                 self.n = 1
                 self.offsets = [offset]
-- 
2.43.0


From f61531b4b227045cb0a4c80cf57fcb04f27fca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 26/48] fix: end caps of reflected robust paths

---
 gdspy/path.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index bf94be7..cf31bc5 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -144,6 +144,12 @@ class _SubPath(object):
         d = self(u, -1) - self(u, 1)
         return (d[0] ** 2 + d[1] ** 2) ** 0.5
 
+    def orientation(self, u):
+        # -1 if the sides of the path are exchanged, 1 otherwise
+        t = self.transform
+        det = t[0, 0] * t[1, 1] - t[0, 1] * t[1, 0]
+        return -1 if det * self.wid(u) < 0 else 1
+
     def points(self, u0, u1, arm):
         u = [u0, u1]
         pts = [numpy.array(self(u[0], arm)), numpy.array(self(u[1], arm))]
@@ -2065,10 +2071,11 @@ class RobustPath(object):
                                     + r
                                     * numpy.vstack((numpy.cos(ang), numpy.sin(ang))).T
                                 )
-                                poly.extend(endpts)
+                                # The arms are exchanged by reflections
+                                poly.extend(endpts[:: path[i].orientation(u)])
                             else:
                                 v /= (v[0] ** 2 + v[1] ** 2) ** 0.5
-                                w = v[::-1] * _pmone
+                                w = v[::-1] * _pmone * path[i].orientation(u)
                                 d = r if end == "extended" else end[u]
                                 poly.append(p + d * v + r * w)
                                 poly.append(p + d * v - r * w)
-- 
2.43.0


From b06618bf7bed9e0f882f93f110ef5abf4c70e51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 27/48] fix: initial direction of turns in robust paths after
 rotation or in the negative x direction

---
 gdspy/path.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index cf31bc5..86c3f23 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2794,11 +2794,17 @@ class RobustPath(object):
                 "empty RobustPath."
             )
         angle = _angle_dict.get(angle, angle)
-        initial_angle = 0
-        for p in self.paths:
-            v = p[i].grad(1, 0, False)
-            initial_angle += numpy.arctan2(v[1], v[0])
-        initial_angle = initial_angle / len(self.paths) + (
+        v = self.paths[0][i].grad(1, 0)
+        initial_angle = numpy.arctan2(v[1], v[0])
+        delta = 0
+        for p in self.paths[1:]:
+            # Angles relative to the first path are not affected by the
+            # discontinuity of arctan2
+            w = p[i].grad(1, 0)
+            delta += numpy.arctan2(
+                v[0] * w[1] - v[1] * w[0], v[0] * w[0] + v[1] * w[1]
+            )
+        initial_angle += delta / len(self.paths) + (
             _halfpi if angle < 0 else -_halfpi
         )
         self.arc(radius, initial_angle, initial_angle + angle, width, offset)
-- 
2.43.0


From 5baeb5227f4ac7731da68ae657096a87f5d262f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 28/48] fix: widths of sections added to a reflected robust
 path

---
 gdspy/path.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 86c3f23..db10c7e 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2631,13 +2631,13 @@ class RobustPath(object):
                     stacklevel=3,
                 )
             return _func_const(self.widths[idx])
-        elif hasattr(arg, "__getitem__"):
-            if callable(arg[idx]):
-                return arg[idx]
-            return _func_linear(self.widths[idx], arg[idx])
-        elif callable(arg):
-            return arg
-        return _func_linear(self.widths[idx], arg)
+        if hasattr(arg, "__getitem__"):
+            arg = arg[idx]
+        # Widths are stored as negative numbers after reflections
+        sign = -1 if self.widths[idx] < 0 else 1
+        if callable(arg):
+            return lambda u: sign * arg(u)
+        return _func_linear(self.widths[idx], sign * arg)
 
     def segment(self, end_point, width=None, offset=None, relative=False):
         """
-- 
2.43.0


From e51379095c11f85b8702e1f6cd01265ca153720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 29/48] fix: end point of L1Path that ends in the -y direction

---
 gdspy/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 3cd9a3c..0970efd 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -2288,7 +2288,7 @@ class L1Path(PolygonSet):
                 d0 = (number_of_paths - 1) * distance * 0.5 - ii * distance
                 paths[ii][0].append((paths[ii][0][-1][0], self.y - length[-1]))
                 paths[ii][1].append((paths[ii][1][-1][0], self.y - length[-1]))
-            self.y -= length[jj]
+            self.y -= length[-1]
         self.direction = ["+x", "+y", "-x", "-y"][direction]
         self.polygons.extend(numpy.array(p[0] + p[1][::-1]) for p in paths)
         self.layers.extend(layer)
-- 
2.43.0


From 7dd9f61e6ffa1a8deb5b1d2e58b4ca2380228bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 30/48] fix: distance and length of scaled paths

---
 gdspy/polygon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 0970efd..dc45454 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -1214,7 +1214,7 @@ class Path(PolygonSet):
         Notes
         -----
         The direction of the path is not modified by this method and
-        its width is scaled only by `scalex`.
+        its width and distance are scaled only by `scalex`.
         """
         c0 = numpy.array(center)
         s = scalex if scaley is None else numpy.array((scalex, scaley))
@@ -1222,6 +1222,9 @@ class Path(PolygonSet):
         self.x = (self.x - c0[0]) * scalex + c0[0]
         self.y = (self.y - c0[1]) * (scalex if scaley is None else scaley) + c0[1]
         self.w *= scalex
+        self.distance *= scalex
+        if scaley is None or scaley == scalex:
+            self.length *= abs(scalex)
         return self
 
     def mirror(self, p1, p2=(0, 0)):
-- 
2.43.0


From 298c234996959dd69cb8b3de5ab2490ae5491b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 31/48] fix: end point and direction of translated, scaled and
 mirrored L1Path

---
 gdspy/polygon.py | 74 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 74 insertions(+)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index dc45454..c5577de 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -2308,6 +2308,80 @@ class L1Path(PolygonSet):
             list(set(self.datatypes)),
         )
 
+    def translate(self, dx, dy):
+        """
+        Translate this object.
+
+        Parameters
+        ----------
+        dx : number
+            Distance to move in the x-direction.
+        dy : number
+            Distance to move in the y-direction.
+
+        Returns
+        -------
+        out : `L1Path`
+            This object.
+        """
+        self.x += dx
+        self.y += dy
+        return super(L1Path, self).translate(dx, dy)
+
+    def scale(self, scalex, scaley=None, center=(0, 0)):
+        """
+        Scale this object.
+
+        Parameters
+        ----------
+        scalex : number
+            Scaling factor along the first axis.
+        scaley : number or None
+            Scaling factor along the second axis.  If None, same as
+            `scalex`.
+        center : array-like[2]
+            Center point for the scaling operation.
+
+        Returns
+        -------
+        out : `L1Path`
+            This object.
+
+        Notes
+        -----
+        The direction of the path is not modified by this method.
+        """
+        sy = scalex if scaley is None else scaley
+        self.x = (self.x - center[0]) * scalex + center[0]
+        self.y = (self.y - center[1]) * sy + center[1]
+        return super(L1Path, self).scale(scalex, scaley, center)
+
+    def mirror(self, p1, p2=(0, 0)):
+        """
+        Mirror the polygons over a line through points 1 and 2
+
+        Parameters
+        ----------
+        p1 : array-like[2]
+            first point defining the reflection line
+        p2 : array-like[2]
+            second point defining the reflection line
+
+        Returns
+        -------
+        out : `L1Path`
+            This object.
+        """
+        vx = p2[0] - p1[0]
+        vy = p2[1] - p1[1]
+        dot = 2 * ((self.x - p1[0]) * vx + (self.y - p1[1]) * vy) / (vx ** 2 + vy ** 2)
+        self.x = dot * vx - self.x + 2 * p1[0]
+        self.y = dot * vy - self.y + 2 * p1[1]
+        if isinstance(self.direction, basestring):
+            self.direction = _directions_dict[self.direction] * numpy.pi
+        self.direction = 2 * numpy.arctan2(vy, vx) - self.direction
+        return super(L1Path, self).mirror(p1, p2)
+
     def rotate(self, angle, center=(0, 0)):
         """
         Rotate this object.
-- 
2.43.0


From 474ad1781461c89be151627737a32f5a3416d95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 32/48] fix: sweep of elliptical arcs that start or end at odd
 multiples of pi

---
 gdspy/polygon.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index c5577de..c8dbad9 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -750,10 +750,8 @@ class Round(PolygonSet):
             radius = max(radius)
 
             def outer_transform(a):
-                r = a - ((a + numpy.pi) % (2 * numpy.pi) - numpy.pi)
-                t = numpy.arctan2(orx * numpy.sin(a), ory * numpy.cos(a)) + r
-                t[a == numpy.pi] = numpy.pi
-                return t
+                t = numpy.arctan2(orx * numpy.sin(a), ory * numpy.cos(a))
+                return t + 2 * numpy.pi * numpy.round((a - t) / (2 * numpy.pi))
 
         else:
             orx = ory = radius
@@ -766,10 +764,8 @@ class Round(PolygonSet):
             inner_radius = max(inner_radius)
 
             def inner_transform(a):
-                r = a - ((a + numpy.pi) % (2 * numpy.pi) - numpy.pi)
-                t = numpy.arctan2(irx * numpy.sin(a), iry * numpy.cos(a)) + r
-                t[a == numpy.pi] = numpy.pi
-                return t
+                t = numpy.arctan2(irx * numpy.sin(a), iry * numpy.cos(a))
+                return t + 2 * numpy.pi * numpy.round((a - t) / (2 * numpy.pi))
 
         else:
             irx = iry = inner_radius
-- 
2.43.0


From 6bc6b819d61fb7118264ffc50e29d4cfe7d5a546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 33/48] fix: layers, datatypes and texttypes of cells with
 references

---
 gdspy/library.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index bdbe31f..8ecabf4 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -493,7 +493,8 @@ class Cell(object):
         for element in itertools.chain(self.polygons, self.paths):
             layers.update(element.layers)
         for reference in self.references:
-            layers.update(reference.ref_cell.get_layers())
+            if isinstance(reference.ref_cell, Cell):
+                layers.update(reference.ref_cell.get_layers())
         for label in self.labels:
             layers.add(label.layer)
         return layers
@@ -511,7 +512,8 @@ class Cell(object):
         for element in itertools.chain(self.polygons, self.paths):
             datatypes.update(element.datatypes)
         for reference in self.references:
-            datatypes.update(reference.ref_cell.get_datatypes())
+            if isinstance(reference.ref_cell, Cell):
+                datatypes.update(reference.ref_cell.get_datatypes())
         return datatypes
 
     def get_texttypes(self):
@@ -525,7 +527,8 @@ class Cell(object):
         """
         texttypes = set()
         for reference in self.references:
-            texttypes.update(reference.ref_cell.get_textypes())
+            if isinstance(reference.ref_cell, Cell):
+                texttypes.update(reference.ref_cell.get_texttypes())
         for label in self.labels:
             texttypes.add(label.texttype)
         return texttypes
-- 
2.43.0


From 762e1730204f2ac2b3443cd9ab9e42d132c5795f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 34/48] fix: polygon sets stay editable after
 Cell.remove_polygons

---
 gdspy/library.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 8ecabf4..3bf89b3 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -380,9 +380,9 @@ class Cell(object):
                 pass  # we don't need no empty polygons!
             else:
                 polys, layers, dts = zip(*pld)
-                element.polygons = polys
-                element.layers = layers
-                element.datatypes = dts
+                element.polygons = list(polys)
+                element.layers = list(layers)
+                element.datatypes = list(dts)
                 filtered_polys.append(element)
         self.polygons = filtered_polys
         self._bb_valid = False
-- 
2.43.0


From beb020c5e06ecc9d515a3034f91017f791b03ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 35/48] fix: escape cell names in SVG output

---
 gdspy/library.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 3bf89b3..2a1ad3d 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -57,6 +57,15 @@ from gdspy.gdsiiformat import (
 
 _mpone = numpy.array((-1.0, 1.0))
 
+
+def _svg_id(name):
+    """
+    Return the cell name as used for the id attributes in SVG files.
+    """
+    name = name.replace("#", "_").replace("&", "&amp;").replace('"', "&quot;")
+    return name.replace("<", "&lt;").replace(">", "&gt;")
+
+
 use_current_library = True
 """
 Globally disable add newly-created cells to the current_library.
@@ -888,7 +897,7 @@ class Cell(object):
             Additional attributes to set for the cell group.
         """
         outfile.write('<g id="')
-        outfile.write(self.name.replace("#", "_"))
+        outfile.write(_svg_id(self.name))
         outfile.write('" ')
         outfile.write(attributes)
         outfile.write(">\n")
@@ -1267,7 +1276,7 @@ class CellReference(object):
         outfile.write('<use transform="')
         outfile.write(transform)
         outfile.write('" xlink:href="#')
-        outfile.write(name.replace("#", "_"))
+        outfile.write(_svg_id(name))
         outfile.write('"/>\n')
 
     def area(self, by_spec=False):
@@ -1863,7 +1872,7 @@ class CellArray(object):
                 )
                 outfile.write(mag)
                 outfile.write('" xlink:href="#')
-                outfile.write(name.replace("#", "_"))
+                outfile.write(_svg_id(name))
                 outfile.write('"/>\n')
 
     def area(self, by_spec=False):
-- 
2.43.0


From 6e819967906f0d164c000d2db8867de068805b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 36/48] fix: rotation and magnification in SVG output are not
 coordinates, precision does not apply

---
 gdspy/label.py   |  8 ++------
 gdspy/library.py | 16 ++++------------
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/gdspy/label.py b/gdspy/label.py
index 3710c6a..6e6069a 100644
--- a/gdspy/label.py
+++ b/gdspy/label.py
@@ -290,17 +290,13 @@ class Label(object):
         )
         if self.rotation is not None:
             transform += " rotate({})".format(
-                numpy.format_float_positional(
-                    -self.rotation, trim="0", precision=precision
-                )
+                numpy.format_float_positional(-self.rotation, trim="0")
             )
         if self.x_reflection:
             transform += " scale(1 -1)"
         if self.magnification is not None:
             transform += " scale({})".format(
-                numpy.format_float_positional(
-                    self.magnification, trim="0", precision=precision
-                )
+                numpy.format_float_positional(self.magnification, trim="0")
             )
         ta = ["start", "middle", "end"][self.anchor % 4]
         da = ["text-before-edge", "central", "text-after-edge"][self.anchor // 4]
diff --git a/gdspy/library.py b/gdspy/library.py
index 2a1ad3d..dd7dacc 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -1261,17 +1261,13 @@ class CellReference(object):
         )
         if self.rotation is not None:
             transform += " rotate({})".format(
-                numpy.format_float_positional(
-                    self.rotation, trim="0", precision=precision
-                )
+                numpy.format_float_positional(self.rotation, trim="0")
             )
         if self.x_reflection:
             transform += " scale(1 -1)"
         if self.magnification is not None:
             transform += " scale({})".format(
-                numpy.format_float_positional(
-                    self.magnification, trim="0", precision=precision
-                )
+                numpy.format_float_positional(self.magnification, trim="0")
             )
         outfile.write('<use transform="')
         outfile.write(transform)
@@ -1839,9 +1835,7 @@ class CellArray(object):
         )
         if self.rotation is not None:
             transform += " rotate({})".format(
-                numpy.format_float_positional(
-                    self.rotation, trim="0", precision=precision
-                )
+                numpy.format_float_positional(self.rotation, trim="0")
             )
         if self.x_reflection:
             transform += " scale(1 -1)"
@@ -1849,9 +1843,7 @@ class CellArray(object):
             ""
             if self.magnification is None
             else " scale({})".format(
-                numpy.format_float_positional(
-                    self.magnification, trim="0", precision=precision
-                )
+                numpy.format_float_positional(self.magnification, trim="0")
             )
         )
         for ii in range(self.columns):
-- 
2.43.0


From 2f22719b87a6d2f16f921494431e6434a459a7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:13 +0000
Subject: [PATCH 37/48] fix: get_polygons of paths returns copies of its
 polygons

---
 gdspy/path.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index db10c7e..9c5cd1b 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -933,7 +933,12 @@ class FlexPath(object):
         if by_spec:
             return libcopy.deepcopy(self._polygon_dict)
         else:
-            return list(itertools.chain.from_iterable(self._polygon_dict.values()))
+            return [
+                numpy.array(polygon)
+                for polygon in itertools.chain.from_iterable(
+                    self._polygon_dict.values()
+                )
+            ]
 
     def to_polygonset(self):
         """
@@ -2203,7 +2208,12 @@ class RobustPath(object):
         if by_spec:
             return libcopy.deepcopy(self._polygon_dict)
         else:
-            return list(itertools.chain.from_iterable(self._polygon_dict.values()))
+            return [
+                numpy.array(polygon)
+                for polygon in itertools.chain.from_iterable(
+                    self._polygon_dict.values()
+                )
+            ]
 
     def to_polygonset(self):
         """
-- 
2.43.0


From c0dbce13092bc33d1bb666b683e29ea52b9a23f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:13 +0000
Subject: [PATCH 38/48] fix: copies of references refer to the same cell

---
 gdspy/operation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index b4d90df..a1bc79a 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -328,7 +328,11 @@ def copy(obj, dx=0, dy=0):
     >>> myCell.add(rectangle2)
     """
 
-    newObj = libcopy.deepcopy(obj)
+    memo = {}
+    if hasattr(obj, "ref_cell"):
+        # Copies of references point to the same cell
+        memo[id(obj.ref_cell)] = obj.ref_cell
+    newObj = libcopy.deepcopy(obj, memo)
     if dx != 0 or dy != 0:
         newObj.translate(dx, dy)
     return newObj
-- 
2.43.0


From 86687690723a81a84afb7a728d70b72a270c6ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 39/48] fix: transform elements added twice to a cell once each

---
 gdspy/library.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index dd7dacc..b109d6f 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -743,7 +743,7 @@ class Cell(object):
             List containing the polygons in this cell and its
             references.
         """
-        polys = libcopy.deepcopy(self.polygons)
+        polys = [libcopy.deepcopy(polyset) for polyset in self.polygons]
         if depth is None or depth > 0:
             for reference in self.references:
                 if depth is None:
@@ -768,7 +768,7 @@ class Cell(object):
         out : list of `FlexPath` or `RobustPath`
             List containing the paths in this cell and its references.
         """
-        paths = libcopy.deepcopy(self.paths)
+        paths = [libcopy.deepcopy(path) for path in self.paths]
         if depth is None or depth > 0:
             for reference in self.references:
                 if depth is None:
@@ -796,7 +796,7 @@ class Cell(object):
         out : list of `Label`
             List containing the labels in this cell and its references.
         """
-        labels = libcopy.deepcopy(self.labels)
+        labels = [libcopy.deepcopy(label) for label in self.labels]
         if depth is None or depth > 0:
             for reference in self.references:
                 if depth is None:
-- 
2.43.0


From 40943f7717f75e8f4ede66978c2e9a45768ab461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 40/48] fix: smooth curve between 2 points without any
 directions

---
 gdspy/hobby.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gdspy/hobby.py b/gdspy/hobby.py
index cb1923e..b33e6f6 100644
--- a/gdspy/hobby.py
+++ b/gdspy/hobby.py
@@ -210,7 +210,11 @@ def _hobby(points, angles=None, curl_start=1, curl_end=1, t_in=1, t_out=1, cycle
                 coef[2 * nn - 1] = phi[j - 1]
                 m[2 * nn - 1, nn - 1] = 0
                 m[2 * nn - 1, 2 * nn - 1] = 1
-            if nn > 1 or angles[i] is None or angles[j] is None:
+            if nn == 1 and angles[i] is None and angles[j] is None:
+                # Single free segment: straight, for any curl
+                theta[i] = 0
+                phi[i] = 0
+            elif nn > 1 or angles[i] is None or angles[j] is None:
                 # print("range:", i, j)
                 # print("A =", m)
                 # print("b =", coef)
-- 
2.43.0


From b80d7b9d8d666f82c731782531e95079061bbcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:34 +0000
Subject: [PATCH 41/48] fix: link holes that touch a horizontal edge of their
 contour

The branch for horizontal edges was nested in a condition that excludes
them, so that the end of the contour was dereferenced and the seam went
through x = 0.
---
 gdspy/clipper.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index f5a599e..19f8dcc 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4782,11 +4782,11 @@ void link_holes(PolyNode *node, Paths &out)
         {
           xnew = x;
           p1 = pnext;
-        } else if ((pnext->Y == p->Y && pprev->Y == p->Y) && ((pnext->X <= p->X && p->X <= pprev->X) || (pprev->X <= p->X && p->X <= pnext->X))) {
-          xnew = p->X;
-          p1 = pnext;
-          break;
         }
+      } else if ((pnext->Y == p->Y && pprev->Y == p->Y) && ((pnext->X <= p->X && p->X <= pprev->X) || (pprev->X <= p->X && p->X <= pnext->X))) {
+        xnew = p->X;
+        p1 = pnext;
+        break;
       }
     }
 
-- 
2.43.0


From 02bcad4bd4ecc09fa107f2ce5b16bf18da44d634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:14 +0000
Subject: [PATCH 42/48] fix: link holes that have no edge of their contour on
 the left

Rounding of intersections can leave a vertex of a hole just outside of
its contour, in which case the end of the contour was dereferenced.
---
 gdspy/clipper.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 19f8dcc..e335e18 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4791,6 +4791,22 @@ void link_holes(PolyNode *node, Paths &out)
     }
 
     IntPoint pnew(xnew, p->Y);
+    if (p1 == result.end())
+    {
+      // rounding can leave the hole with no edge on its left: use the closest vertex
+      double closest = -1;
+      for (pnext = result.begin(); pnext != result.end(); ++pnext)
+      {
+        double dx = (double)pnext->X - (double)p->X;
+        double dy = (double)pnext->Y - (double)p->Y;
+        if (closest < 0 || dx * dx + dy * dy < closest)
+        {
+          closest = dx * dx + dy * dy;
+          p1 = pnext;
+        }
+      }
+      pnew = *p1;
+    }
     if (pnew.X != p1->X || pnew.Y != p1->Y) result.insert(p1, pnew);
     result.insert(p1, h->begin(), p+1);
     result.insert(p1, p, h->end());
-- 
2.43.0


From 4cb4e99f95d35c4e05e6125fc8e6a804240b4b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:05 +0000
Subject: [PATCH 43/48] fix: shrink overlapping polygons one by one

The corners removed from a polygon were also removed from the polygons
overlapping it.
---
 gdspy/clipper.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index e335e18..ac138ab 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -5007,6 +5007,25 @@ static PyObject* offset(PyObject *self, PyObject *args)
     clprof_join.Execute(intermediate, 0);
     clprof.AddPaths(intermediate, jt, etClosedPolygon);
   }
+  else if (distance < 0 && subj.size() > 1)
+  {
+    // shrink polygons one by one: what is removed from one is not removed from those that overlap it
+    Paths pieces;
+    Clipper clpr;
+
+    for (Paths::iterator poly = subj.begin(); poly != subj.end(); ++poly)
+    {
+      clprof.Clear();
+      clprof.AddPath(*poly, jt, etClosedPolygon);
+      clprof.Execute(solution, distance * scaling);
+      tree2paths(solution, pieces);
+    }
+
+    clpr.AddPaths(pieces, ptSubject, true);
+    clpr.Execute(ctUnion, solution, pftNonZero, pftNonZero);
+    tree2paths(solution, result);
+    return build_polygon_tuple(result, scaling);
+  }
   else
   {
     clprof.AddPaths(subj, jt, etClosedPolygon);
-- 
2.43.0


From 205e0a4fc9c50d6b887083cb2f209e9c3c828b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:32 +0000
Subject: [PATCH 44/48] fix: keep the side of offsets and the sign of widths
 when scaling paths by a negative factor

---
 gdspy/path.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 9c5cd1b..d150238 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1270,13 +1270,15 @@ class FlexPath(object):
         c0 = numpy.array(center) * (1 - scale)
         self.points = self.points * scale + c0
         if self.width_transform or not self.gdsii_path:
-            self.widths = self.widths * scale
-        self.offsets = self.offsets * scale
-        self.bend_radius = [None if r is None else r * scale for r in self.bend_radius]
+            self.widths = self.widths * abs(scale)
+        self.offsets = self.offsets * abs(scale)
+        self.bend_radius = [
+            None if r is None else r * abs(scale) for r in self.bend_radius
+        ]
         for i, end in enumerate(self.ends):
             # CustomPlus created by bgnextn and endextn
             if isinstance(end, tuple):
-                self.ends[i] = tuple([e * scale for e in end])
+                self.ends[i] = tuple([e * abs(scale) for e in end])
         return self
 
     def transform(self, translation, rotation, scale, x_reflection, array_trans=None):
@@ -1323,13 +1325,13 @@ class FlexPath(object):
             sin = sin * scale
             array_trans = array_trans / scale
             if self.width_transform or not self.gdsii_path:
-                self.widths = self.widths * scale
-            self.offsets = self.offsets * scale
+                self.widths = self.widths * abs(scale)
+            self.offsets = self.offsets * abs(scale)
             self.bend_radius = [
-                None if r is None else r * scale for r in self.bend_radius
+                None if r is None else r * abs(scale) for r in self.bend_radius
             ]
             self.ends = [
-                tuple([e * scale for e in end]) if isinstance(end, tuple) else end
+                tuple([e * abs(scale) for e in end]) if isinstance(end, tuple) else end
                 for end in self.ends
             ]
         if x_reflection:
@@ -2539,10 +2541,10 @@ class RobustPath(object):
         c0 = numpy.array(center) * (1 - scale)
         self.x = self.x * scale + c0
         if self.width_transform or not self.gdsii_path:
-            self.widths = [wid * scale for wid in self.widths]
-        self.offsets = [off * scale for off in self.offsets]
+            self.widths = [wid * abs(scale) for wid in self.widths]
+        self.offsets = [off * abs(scale) for off in self.offsets]
         self.ends = [
-            tuple([e * scale for e in end]) if isinstance(end, tuple) else end
+            tuple([e * abs(scale) for e in end]) if isinstance(end, tuple) else end
             for end in self.ends
         ]
         for path in self.paths:
@@ -2598,10 +2600,10 @@ class RobustPath(object):
         if scale is not None:
             self.x = self.x * scale
             if self.width_transform or not self.gdsii_path:
-                self.widths = [wid * scale for wid in self.widths]
-            self.offsets = [off * scale for off in self.offsets]
+                self.widths = [wid * abs(scale) for wid in self.widths]
+            self.offsets = [off * abs(scale) for off in self.offsets]
             self.ends = [
-                tuple([e * scale for e in end]) if isinstance(end, tuple) else end
+                tuple([e * abs(scale) for e in end]) if isinstance(end, tuple) else end
                 for end in self.ends
             ]
             for path in self.paths:
-- 
2.43.0


From 86733474ff30862127471432efdbf5dada4fce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:23 +0000
Subject: [PATCH 45/48] fix: discard the properties of unsupported elements
 when reading GDSII files

---
 gdspy/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index b109d6f..e743f5a 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2631,10 +2631,10 @@ class GdsLibrary(object):
                     el = create_element(**kwargs)
                     if len(properties) > 0:
                         el.properties = properties
-                        properties = {}
                     cell.add(el)
                     create_element = None
                 kwargs = {}
+                properties = {}
             # BOUNDARY
             elif record[0] == 0x08:
                 create_element = self._create_polygon
-- 
2.43.0


From 18e594239092f23475e6ec19bf54d215b1c8c973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:23 +0000
Subject: [PATCH 46/48] fix: read GDSII paths without a WIDTH record

---
 gdspy/library.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index e743f5a..7d780f1 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2768,6 +2768,8 @@ class GdsLibrary(object):
         xy = kwargs.pop("xy")
         if "bgnextn" in kwargs or "endextn" in kwargs:
             kwargs["ends"] = (kwargs.pop("bgnextn", 0), kwargs.pop("endextn", 0))
+        # WIDTH records are optional
+        kwargs.setdefault("width", 0)
         kwargs["points"] = xy.reshape((xy.size // 2, 2))
         kwargs["gdsii_path"] = True
         return FlexPath(**kwargs)
-- 
2.43.0


From dc27ba8dfccafa1ee34daebc33fbb0dfe7626daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:34 +0000
Subject: [PATCH 47/48] fix: raise the documented error for wrong lengths of
 fillet radius lists

---
 gdspy/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index c8dbad9..e715e36 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -457,7 +457,7 @@ class PolygonSet(object):
                             raise ValueError(
                                 "[GDSPY] Wrong length in fillet radius list.  "
                                 "Found {} radii for polygon with {} vertices.".format(
-                                    len(r), len(p.shape[0])
+                                    len(r), p.shape[0]
                                 )
                             )
                         radii.append(r)
-- 
2.43.0


From 1c3fd8ded750fadce26b19628027fa4a3bac713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:59 +0000
Subject: [PATCH 48/48] fix: tolerances greater than the diameter of round
 shapes, arcs, ends and bends

---
 gdspy/curve.py   |  8 +++++++-
 gdspy/path.py    | 33 ++++++++++++++++++++++++++-------
 gdspy/polygon.py | 10 ++++++++--
 3 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/gdspy/curve.py b/gdspy/curve.py
index 4559be9..0b1b66e 100644
--- a/gdspy/curve.py
+++ b/gdspy/curve.py
@@ -272,10 +272,16 @@ class Curve(object):
         else:
             rx = ry = radius
         full_angle = abs(final_angle - initial_angle)
+        tolerance = self.tol ** 0.5
         number_of_points = max(
             3,
             1
-            + int(0.5 * full_angle / numpy.arccos(1 - self.tol ** 0.5 / radius) + 0.5),
+            + int(
+                0.5
+                * full_angle
+                / numpy.arccos(1 - tolerance / max(radius, 0.5 * tolerance))
+                + 0.5
+            ),
         )
         angles = numpy.linspace(
             initial_angle - rotation, final_angle - rotation, number_of_points
diff --git a/gdspy/path.py b/gdspy/path.py
index d150238..dcc94e1 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -493,7 +493,11 @@ class FlexPath(object):
                                 5,
                                 1
                                 + int(
-                                    _halfpi / numpy.arccos(1 - self.tolerance / r) + 0.5
+                                    _halfpi
+                                    / numpy.arccos(
+                                        1 - self.tolerance / max(r, 0.5 * self.tolerance)
+                                    )
+                                    + 0.5
                                 ),
                             )
                             ang = numpy.linspace(_halfpi, -_halfpi, np) + numpy.arctan2(
@@ -508,7 +512,11 @@ class FlexPath(object):
                                 5,
                                 1
                                 + int(
-                                    _halfpi / numpy.arccos(1 - self.tolerance / r) + 0.5
+                                    _halfpi
+                                    / numpy.arccos(
+                                        1 - self.tolerance / max(r, 0.5 * self.tolerance)
+                                    )
+                                    + 0.5
                                 ),
                             )
                             ang = numpy.linspace(_halfpi, -_halfpi, np) + numpy.arctan2(
@@ -718,7 +726,10 @@ class FlexPath(object):
                                         2,
                                         1
                                         + int(
-                                            da / numpy.arccos(1 - self.tolerance / r)
+                                            da
+                                            / numpy.arccos(
+                                                1 - self.tolerance / max(r, 0.5 * self.tolerance)
+                                            )
                                             + 0.5
                                         ),
                                     )
@@ -775,7 +786,9 @@ class FlexPath(object):
                                         + int(
                                             0.5
                                             * abs(a1 - a0)
-                                            / numpy.arccos(1 - self.tolerance / half_w)
+                                            / numpy.arccos(
+                                                1 - self.tolerance / max(half_w, 0.5 * self.tolerance)
+                                            )
                                             + 0.5
                                         ),
                                     )
@@ -858,7 +871,10 @@ class FlexPath(object):
                                     5,
                                     1
                                     + int(
-                                        _halfpi / numpy.arccos(1 - self.tolerance / r)
+                                        _halfpi
+                                        / numpy.arccos(
+                                            1 - self.tolerance / max(r, 0.5 * self.tolerance)
+                                        )
                                         + 0.5
                                     ),
                                 )
@@ -1448,7 +1464,7 @@ class FlexPath(object):
             + int(
                 0.5
                 * abs(final_angle - initial_angle)
-                / numpy.arccos(1 - self.tolerance / rmax)
+                / numpy.arccos(1 - self.tolerance / max(rmax, 0.5 * self.tolerance))
                 + 0.5
             ),
         )
@@ -2066,7 +2082,10 @@ class RobustPath(object):
                                     5,
                                     1
                                     + int(
-                                        _halfpi / numpy.arccos(1 - self.tolerance / r)
+                                        _halfpi
+                                        / numpy.arccos(
+                                            1 - self.tolerance / max(r, 0.5 * self.tolerance)
+                                        )
                                         + 0.5
                                     ),
                                 )
diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index e715e36..5a297c2 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -791,7 +791,13 @@ class Round(PolygonSet):
             )
             number_of_points = max(
                 3,
-                1 + int(0.5 * full_angle / numpy.arccos(1 - tolerance / radius) + 0.5),
+                1
+                + int(
+                    0.5
+                    * full_angle
+                    / numpy.arccos(1 - tolerance / max(radius, 0.5 * tolerance))
+                    + 0.5
+                ),
             )
             if inner_radius > 0:
                 number_of_points *= 2
@@ -1459,7 +1465,7 @@ class Path(PolygonSet):
                 * int(
                     0.5
                     * abs(final_angle - initial_angle)
-                    / numpy.arccos(1 - tolerance / r)
+                    / numpy.arccos(1 - tolerance / max(r, 0.5 * tolerance))
                     + 0.5
                 ),
             )
-- 
2.43.0

