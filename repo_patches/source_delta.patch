From 122ac2ca6d379a3a523bdab286105c30e7634ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 01/40] fix: round RobustPath spine points when writing GDSII
 PATH elements

Coordinates were truncated toward zero by astype instead of rounded to the
nearest database unit, unlike every other element writer.
---
 gdspy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 20c02f7..90099b7 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2319,7 +2319,7 @@ class RobustPath(object):
                         points.append(px)
                     start = 0
             points.extend(self.paths[ii][-1].points(start, 1, 0))
-            points = (numpy.array(points) * multiplier).astype(">i4")
+            points = numpy.round(numpy.array(points) * multiplier).astype(">i4")
             if points.shape[0] > 8191:
                 warnings.warn(
                     "[GDSPY] Paths with more than 8191 are not supported "
-- 
2.43.0


From 819db55e31b6574fb5ebe2b0fbf9c7289a577799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 02/40] fix: drop the properties of unsupported GDSII elements

Properties of an element that is not imported (NODE, for example) were
attached to the next imported element.
---
 gdspy/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index ad0b83a..032cfcd 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2604,9 +2604,9 @@ class GdsLibrary(object):
                     el = create_element(**kwargs)
                     if len(properties) > 0:
                         el.properties = properties
-                        properties = {}
                     cell.add(el)
                     create_element = None
+                properties = {}
                 kwargs = {}
             # BOUNDARY
             elif record[0] == 0x08:
-- 
2.43.0


From c5e706c06295aaf03715571987532f5117e530ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 03/40] fix: skip unknown GDSII record types instead of raising
 IndexError

Record types beyond the table of names crashed the warning about them.
---
 gdspy/library.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 032cfcd..eece5ee 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2725,7 +2725,10 @@ class GdsLibrary(object):
             ):
                 warnings.warn(
                     "[GDSPY] Record type {0} ({1:02X}) is not supported.".format(
-                        GdsLibrary._record_name[record[0]], record[0]
+                        GdsLibrary._record_name[record[0]]
+                        if record[0] < len(GdsLibrary._record_name)
+                        else "UNKNOWN",
+                        record[0],
                     ),
                     stacklevel=2,
                 )
-- 
2.43.0


From 747876b4040b36fce66a0ed024755d2149003067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 04/40] fix: read empty GDSII strings as empty strings

Labels and property values written as empty strings came back as None,
which could not be written again.
---
 gdspy/gdsiiformat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index 3747391..30434ee 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -98,6 +98,8 @@ def _record_reader(stream):
                         data = data.decode("ascii")
                 elif data[-1] == "\0":
                     data = data[:-1]
+        elif data_type == 0x06:
+            data = ""
         yield [rec_type, data]
 
 
-- 
2.43.0


From 543062762ca03269c86daa17da4ee1915ebe5c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 05/40] fix: RobustPath.transform magnifies the array spacing

---
 gdspy/path.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 90099b7..5b16277 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2523,6 +2523,14 @@ class RobustPath(object):
         False, the widths are not scaled.
         """
         self._polygon_dict = None
+        if scale is not None:
+            self.x = self.x * scale
+            if self.width_transform or not self.gdsii_path:
+                self.widths = [wid * scale for wid in self.widths]
+            self.offsets = [off * scale for off in self.offsets]
+            for path in self.paths:
+                for sub in path:
+                    sub.scale(scale)
         if array_trans is not None:
             self.x = self.x + array_trans
             for path in self.paths:
@@ -2535,14 +2543,6 @@ class RobustPath(object):
             for path in self.paths:
                 for sub in path:
                     sub.scale(1, -1)
-        if scale is not None:
-            self.x = self.x * scale
-            if self.width_transform or not self.gdsii_path:
-                self.widths = [wid * scale for wid in self.widths]
-            self.offsets = [off * scale for off in self.offsets]
-            for path in self.paths:
-                for sub in path:
-                    sub.scale(scale)
         if rotation is not None:
             ca = numpy.cos(rotation)
             sa = numpy.sin(rotation) * _mpone
-- 
2.43.0


From 1d6eb225f240ee5cdf66fac292f503e05db30cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 06/40] fix: write the magnitude of RobustPath widths

---
 gdspy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 5b16277..7c3e09c 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2232,7 +2232,7 @@ class RobustPath(object):
                     pathtype,
                     8,
                     0x0F03,
-                    sign * int(round(self.widths[ii] * multiplier)),
+                    sign * int(round(abs(self.widths[ii]) * multiplier)),
                 )
             )
             if pathtype == 4:
-- 
2.43.0


From 8d038eae139ee94c4227dff4fcb372bc7236f566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 07/40] fix: scale custom path end extensions in all path
 transformations

---
 gdspy/path.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index 7c3e09c..c1c1acf 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1296,6 +1296,10 @@ class FlexPath(object):
             if self.width_transform or not self.gdsii_path:
                 self.widths = self.widths * scale
             self.offsets = self.offsets * scale
+            self.ends = [
+                tuple([e * scale for e in end]) if isinstance(end, tuple) else end
+                for end in self.ends
+            ]
         if x_reflection:
             cos[1] = -cos[1]
             sin[0] = -sin[0]
@@ -2488,6 +2492,10 @@ class RobustPath(object):
         if self.width_transform or not self.gdsii_path:
             self.widths = [wid * scale for wid in self.widths]
         self.offsets = [off * scale for off in self.offsets]
+        self.ends = [
+            tuple([e * scale for e in end]) if isinstance(end, tuple) else end
+            for end in self.ends
+        ]
         for path in self.paths:
             for sub in path:
                 sub.scale(scale)
@@ -2528,6 +2536,10 @@ class RobustPath(object):
             if self.width_transform or not self.gdsii_path:
                 self.widths = [wid * scale for wid in self.widths]
             self.offsets = [off * scale for off in self.offsets]
+            self.ends = [
+                tuple([e * scale for e in end]) if isinstance(end, tuple) else end
+                for end in self.ends
+            ]
             for path in self.paths:
                 for sub in path:
                     sub.scale(scale)
-- 
2.43.0


From 4028a78d56f31a4f31567d16bde590404e758ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 08/40] fix: scale the bend radius with the rest of a FlexPath

---
 gdspy/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index c1c1acf..18df7d2 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1244,6 +1244,7 @@ class FlexPath(object):
         if self.width_transform or not self.gdsii_path:
             self.widths = self.widths * scale
         self.offsets = self.offsets * scale
+        self.bend_radius = [r if r is None else r * scale for r in self.bend_radius]
         for i, end in enumerate(self.ends):
             # CustomPlus created by bgnextn and endextn
             if isinstance(end, tuple):
@@ -1296,6 +1297,7 @@ class FlexPath(object):
             if self.width_transform or not self.gdsii_path:
                 self.widths = self.widths * scale
             self.offsets = self.offsets * scale
+            self.bend_radius = [r if r is None else r * scale for r in self.bend_radius]
             self.ends = [
                 tuple([e * scale for e in end]) if isinstance(end, tuple) else end
                 for end in self.ends
-- 
2.43.0


From 5983dddb6170fb89828b4496336732a08fb1e586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 09/40] fix: reflect the transform of labels in reflected
 references only

---
 gdspy/library.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index eece5ee..43a0f1c 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -1484,8 +1484,10 @@ class CellReference(object):
                         lbl.magnification *= self.magnification
                     else:
                         lbl.magnification = self.magnification
-                if self.x_reflection is not None:
+                if self.x_reflection:
                     lbl.x_reflection = not lbl.x_reflection
+                    if lbl.rotation is not None:
+                        lbl.rotation = -lbl.rotation
                 if self.rotation is not None:
                     if lbl.rotation is not None:
                         lbl.rotation += self.rotation
@@ -2117,8 +2119,10 @@ class CellArray(object):
                                 lbl.magnification *= self.magnification
                             else:
                                 lbl.magnification = self.magnification
-                        if self.x_reflection is not None:
+                        if self.x_reflection:
                             lbl.x_reflection = not lbl.x_reflection
+                            if lbl.rotation is not None:
+                                lbl.rotation = -lbl.rotation
                         if self.rotation is not None:
                             if lbl.rotation is not None:
                                 lbl.rotation += self.rotation
-- 
2.43.0


From 6562b18cba842fba5f906b28c61fedcf0c44cb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:55 +0000
Subject: [PATCH 10/40] fix: end position of L1Path when the last section
 points down

---
 gdspy/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index ab37ab3..4c93cdf 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -2259,7 +2259,7 @@ class L1Path(PolygonSet):
                 d0 = (number_of_paths - 1) * distance * 0.5 - ii * distance
                 paths[ii][0].append((paths[ii][0][-1][0], self.y - length[-1]))
                 paths[ii][1].append((paths[ii][1][-1][0], self.y - length[-1]))
-            self.y -= length[jj]
+            self.y -= length[-1]
         self.direction = ["+x", "+y", "-x", "-y"][direction]
         self.polygons.extend(numpy.array(p[0] + p[1][::-1]) for p in paths)
         self.layers.extend(layer)
-- 
2.43.0


From 65a599aa4641a757c8e89830c2cbfef53aafb7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:55 +0000
Subject: [PATCH 11/40] fix: FlexPath started from a single point has one row
 of widths and offsets

---
 gdspy/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 18df7d2..c73f9a7 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -330,8 +330,8 @@ class FlexPath(object):
         self.points = numpy.array(points)
         if self.points.shape == (2,):
             self.points.resize((1, 2))
-        self.widths = numpy.tile(self.widths, (len(points), 1))
-        self.offsets = numpy.tile(self.offsets, (len(points), 1))
+        self.widths = numpy.tile(self.widths, (len(self.points), 1))
+        self.offsets = numpy.tile(self.offsets, (len(self.points), 1))
         if isinstance(ends, list):
             self.ends = [ends[i % len(ends)] for i in range(self.n)]
         else:
-- 
2.43.0


From c7a946f786a341a84e55d7b3c0adb0d9ac4aa756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:55 +0000
Subject: [PATCH 12/40] fix: Path.scale also scales the length and the distance
 between paths

---
 gdspy/polygon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 4c93cdf..d5b176f 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -1185,7 +1185,7 @@ class Path(PolygonSet):
         Notes
         -----
         The direction of the path is not modified by this method and
-        its width is scaled only by `scalex`.
+        its width, length and distance are scaled only by `scalex`.
         """
         c0 = numpy.array(center)
         s = scalex if scaley is None else numpy.array((scalex, scaley))
@@ -1193,6 +1193,8 @@ class Path(PolygonSet):
         self.x = (self.x - c0[0]) * scalex + c0[0]
         self.y = (self.y - c0[1]) * (scalex if scaley is None else scaley) + c0[1]
         self.w *= scalex
+        self.distance *= scalex
+        self.length *= scalex
         return self
 
     def mirror(self, p1, p2=(0, 0)):
-- 
2.43.0


From 5d713fea36d4e609784eb41e6704fc3fd6ef8201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:55 +0000
Subject: [PATCH 13/40] fix: L1Path keeps its end position and direction when
 translated, scaled or mirrored

---
 gdspy/polygon.py | 76 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 76 insertions(+)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index d5b176f..4c79a5e 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -2278,6 +2278,82 @@ class L1Path(PolygonSet):
             list(set(self.datatypes)),
         )
 
+    def translate(self, dx, dy):
+        """
+        Translate this object.
+
+        Parameters
+        ----------
+        dx : number
+            Distance to move in the x-direction.
+        dy : number
+            Distance to move in the y-direction.
+
+        Returns
+        -------
+        out : `L1Path`
+            This object.
+        """
+        self.x += dx
+        self.y += dy
+        return super(L1Path, self).translate(dx, dy)
+
+    def scale(self, scalex, scaley=None, center=(0, 0)):
+        """
+        Scale this object.
+
+        Parameters
+        ----------
+        scalex : number
+            Scaling factor along the first axis.
+        scaley : number or None
+            Scaling factor along the second axis.  If None, same as
+            `scalex`.
+        center : array-like[2]
+            Center point for the scaling operation.
+
+        Returns
+        -------
+        out : `L1Path`
+            This object.
+
+        Notes
+        -----
+        The direction of the path is not modified by this method.
+        """
+        self.x = (self.x - center[0]) * scalex + center[0]
+        self.y = (self.y - center[1]) * (
+            scalex if scaley is None else scaley
+        ) + center[1]
+        return super(L1Path, self).scale(scalex, scaley, center)
+
+    def mirror(self, p1, p2=(0, 0)):
+        """
+        Mirror this object over a line through points 1 and 2
+
+        Parameters
+        ----------
+        p1 : array-like[2]
+            first point defining the reflection line
+        p2 : array-like[2]
+            second point defining the reflection line
+
+        Returns
+        -------
+        out : `L1Path`
+            This object.
+        """
+        origin = numpy.array(p1)
+        vec = numpy.array(p2) - origin
+        vec_r = vec * (2 / numpy.inner(vec, vec))
+        dot = (self.x - origin[0]) * vec_r[0] + (self.y - origin[1]) * vec_r[1]
+        self.x = dot * vec[0] - self.x + 2 * origin[0]
+        self.y = dot * vec[1] - self.y + 2 * origin[1]
+        if isinstance(self.direction, basestring):
+            self.direction = _directions_dict[self.direction] * numpy.pi
+        self.direction = 2 * numpy.arctan2(vec[1], vec[0]) - self.direction
+        return super(L1Path, self).mirror(p1, p2)
+
     def rotate(self, angle, center=(0, 0)):
         """
         Rotate this object.
-- 
2.43.0


From 439c0f5079b9d794f1b4784b88b857d2260eaf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:33 +0000
Subject: [PATCH 14/40] fix: Cell.get_texttypes of cells with references

---
 gdspy/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 43a0f1c..e53b00d 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -518,7 +518,7 @@ class Cell(object):
         """
         texttypes = set()
         for reference in self.references:
-            texttypes.update(reference.ref_cell.get_textypes())
+            texttypes.update(reference.ref_cell.get_texttypes())
         for label in self.labels:
             texttypes.add(label.texttype)
         return texttypes
-- 
2.43.0


From 318af94b33ab3ce5e371b3ddff1b15744650fa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:33 +0000
Subject: [PATCH 15/40] fix: skip missing cells in Cell.get_layers,
 get_datatypes and get_texttypes

---
 gdspy/library.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index e53b00d..f1c291a 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -486,7 +486,8 @@ class Cell(object):
         for element in itertools.chain(self.polygons, self.paths):
             layers.update(element.layers)
         for reference in self.references:
-            layers.update(reference.ref_cell.get_layers())
+            if isinstance(reference.ref_cell, Cell):
+                layers.update(reference.ref_cell.get_layers())
         for label in self.labels:
             layers.add(label.layer)
         return layers
@@ -504,7 +505,8 @@ class Cell(object):
         for element in itertools.chain(self.polygons, self.paths):
             datatypes.update(element.datatypes)
         for reference in self.references:
-            datatypes.update(reference.ref_cell.get_datatypes())
+            if isinstance(reference.ref_cell, Cell):
+                datatypes.update(reference.ref_cell.get_datatypes())
         return datatypes
 
     def get_texttypes(self):
@@ -518,7 +520,8 @@ class Cell(object):
         """
         texttypes = set()
         for reference in self.references:
-            texttypes.update(reference.ref_cell.get_texttypes())
+            if isinstance(reference.ref_cell, Cell):
+                texttypes.update(reference.ref_cell.get_texttypes())
         for label in self.labels:
             texttypes.add(label.texttype)
         return texttypes
-- 
2.43.0


From 82717ef5a41d7b09a7ad451fc8b40b96d19f082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 16/40] fix: Cell.remove_polygons keeps polygons, layers and
 datatypes as lists

---
 gdspy/library.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index f1c291a..247c529 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -375,9 +375,9 @@ class Cell(object):
                 pass  # we don't need no empty polygons!
             else:
                 polys, layers, dts = zip(*pld)
-                element.polygons = polys
-                element.layers = layers
-                element.datatypes = dts
+                element.polygons = list(polys)
+                element.layers = list(layers)
+                element.datatypes = list(dts)
                 filtered_polys.append(element)
         self.polygons = filtered_polys
         return self
-- 
2.43.0


From 9528865549c69e8c259ad411bb257a5e6723ec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 17/40] fix: discard cached bounding boxes when contents are
 removed or references replaced

---
 gdspy/library.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index 247c529..0701a6d 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -380,6 +380,7 @@ class Cell(object):
                 element.datatypes = list(dts)
                 filtered_polys.append(element)
         self.polygons = filtered_polys
+        self._bb_valid = False
         return self
 
     def remove_paths(self, test):
@@ -407,6 +408,7 @@ class Cell(object):
                 self.paths.pop(ii)
             else:
                 ii += 1
+        self._bb_valid = False
         return self
 
     def remove_labels(self, test):
@@ -2429,6 +2431,7 @@ class GdsLibrary(object):
                     )
                 ]
                 removed -= len(c.references)
+                c._bb_valid = False
         return removed
 
     def write_gds(self, outfile, cells=None, timestamp=None, binary_cells=None):
@@ -2894,9 +2897,11 @@ class GdsLibrary(object):
                 if isinstance(ref.ref_cell, Cell):
                     if ref.ref_cell.name == old_name:
                         ref.ref_cell = new_cell
+                        cell._bb_valid = False
                         replacements += 1
                 elif ref.ref_cell == old_name:
                     ref.ref_cell = new_cell
+                    cell._bb_valid = False
                     replacements += 1
         return replacements
 
-- 
2.43.0


From 774ca3e174b6d4a6537904b69dda222a3e5fe424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 18/40] fix: cached bounding box outdated after dependencies
 are recalculated

---
 gdspy/library.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 0701a6d..8e7dc80 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -56,6 +56,7 @@ from gdspy.gdsiiformat import (
 )
 
 _mpone = numpy.array((-1.0, 1.0))
+_bb_counter = itertools.count(1)
 
 use_current_library = True
 """
@@ -98,6 +99,7 @@ class Cell(object):
         "labels",
         "references",
         "_bb_valid",
+        "_bb_stamp",
         "_bounding_box",
     )
 
@@ -108,6 +110,7 @@ class Cell(object):
         self.labels = []
         self.references = []
         self._bb_valid = False
+        self._bb_stamp = 0
         self._bounding_box = None
         if use_current_library and not exclude_from_current:
             import gdspy
@@ -563,7 +566,11 @@ class Cell(object):
             Bounding box of this cell [[x_min, y_min], [x_max, y_max]],
             or None if the cell is empty.
         """
-        deps_still_valid = all(ref._bb_valid for ref in self.get_dependencies(True))
+        # dependencies recalculated after this cell invalidate its bounding box
+        deps_still_valid = all(
+            ref._bb_valid and ref._bb_stamp < self._bb_stamp
+            for ref in self.get_dependencies(True)
+        )
         cached_bbox_still_valid = self._bb_valid and deps_still_valid
         if not cached_bbox_still_valid:
             bb = numpy.array(((1e300, 1e300), (-1e300, -1e300)))
@@ -586,6 +593,7 @@ class Cell(object):
             else:
                 self._bounding_box = None
             self._bb_valid = True
+            self._bb_stamp = next(_bb_counter)
 
         if self._bounding_box is None:
             return None
-- 
2.43.0


From 571899dce6fc73058e429968560044ce76043f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 19/40] fix: keep the reflection of labels and references in
 transformed copies of cells

---
 gdspy/library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 8e7dc80..776cb85 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -261,7 +261,7 @@ class Cell(object):
                 path.transform(translation, rotation, scale, x_reflection)
 
             for lbl in new_cell.labels:
-                r0 = -1 if lbl.x_reflection is None else 1
+                r0 = -1 if lbl.x_reflection else 1
                 s0 = 1 if lbl.magnification is None else lbl.magnification
                 t0 = 0 if lbl.rotation is None else (lbl.rotation * numpy.pi / 180)
                 dx0, dy0 = lbl.position
@@ -278,7 +278,7 @@ class Cell(object):
                 lbl.x_reflection = r * r0 < 0
 
             for ref in new_cell.references:
-                r0 = -1 if ref.x_reflection is None else 1
+                r0 = -1 if ref.x_reflection else 1
                 s0 = 1 if ref.magnification is None else ref.magnification
                 t0 = 0 if ref.rotation is None else (ref.rotation * numpy.pi / 180)
                 dx0, dy0 = ref.origin
-- 
2.43.0


From c21557b6337b647f00644b77e7f86ef4a97fd61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 20/40] fix: scale the spacing of arrays in scaled copies of
 cells

---
 gdspy/library.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index 776cb85..b5fb3f8 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -292,6 +292,8 @@ class Cell(object):
                 ref.magnification = s * s0
                 if ref.magnification == 1:
                     ref.magnification = None
+                if isinstance(ref, CellArray):
+                    ref.spacing = (s * ref.spacing[0], s * ref.spacing[1])
                 ref.x_reflection = r * r0 < 0
 
         return new_cell
-- 
2.43.0


From 57bd8074afdc6e21636fd4a755a24c15ffec176c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 21/40] fix: deep copies of cells do not share the properties
 of references

---
 gdspy/library.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index b5fb3f8..983d1e8 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -238,6 +238,8 @@ class Cell(object):
         new_cell.paths = libcopy.deepcopy(self.paths)
         new_cell.labels = libcopy.deepcopy(self.labels)
         new_cell.references = [libcopy.copy(ref) for ref in self.references]
+        for ref in new_cell.references:
+            ref.properties = libcopy.copy(ref.properties)
 
         if transform:
             r = -1 if x_reflection else 1
-- 
2.43.0


From b390ace6aac706cbadf65eb0017394b5b8175dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 22/40] fix: the texttype of labels in Cell.flatten depends on
 single_texttype only

---
 gdspy/library.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 983d1e8..f8a957a 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -838,15 +838,10 @@ class Cell(object):
             This cell.
         """
         self.labels = self.get_labels()
-        if single_layer is not None and single_datatype is not None:
-            for lbl in self.labels:
+        for lbl in self.labels:
+            if single_layer is not None:
                 lbl.layer = single_layer
-                lbl.texttype = single_texttype
-        elif single_layer is not None:
-            for lbl in self.labels:
-                lbl.layer = single_layer
-        elif single_datatype is not None:
-            for lbl in self.labels:
+            if single_texttype is not None:
                 lbl.texttype = single_texttype
         self.polygons = self.get_polygonsets()
         self.paths = self.get_paths()
-- 
2.43.0


From 3cd5f4e81933640241909abbc860e698e28cb9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 23/40] fix: discard cached polygons of paths when Cell.flatten
 changes their layers or datatypes

---
 gdspy/library.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index f8a957a..18f953a 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -862,6 +862,9 @@ class Cell(object):
                 poly.datatypes = [single_datatype] * len(poly.polygons)
             for path in self.paths:
                 path.datatypes = [single_datatype] * path.n
+        for path in self.paths:
+            # polygons cached under the original specification
+            path._polygon_dict = None
         self.references = []
         return self
 
-- 
2.43.0


From 95cef440808f6ff3da045aaafff25ff55ef3f3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 24/40] fix: get_polygons of paths returns copies of the cached
 polygons

---
 gdspy/path.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index c73f9a7..709a68e 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -913,7 +913,9 @@ class FlexPath(object):
         if by_spec:
             return libcopy.deepcopy(self._polygon_dict)
         else:
-            return list(itertools.chain.from_iterable(self._polygon_dict.values()))
+            return libcopy.deepcopy(
+                list(itertools.chain.from_iterable(self._polygon_dict.values()))
+            )
 
     def to_polygonset(self):
         """
@@ -2169,7 +2171,9 @@ class RobustPath(object):
         if by_spec:
             return libcopy.deepcopy(self._polygon_dict)
         else:
-            return list(itertools.chain.from_iterable(self._polygon_dict.values()))
+            return libcopy.deepcopy(
+                list(itertools.chain.from_iterable(self._polygon_dict.values()))
+            )
 
     def to_polygonset(self):
         """
-- 
2.43.0


From 8a3617b85a758171ce0af6100dae7304ab35604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 25/40] fix: cache the polygons of a path only once they are
 complete

---
 gdspy/path.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 709a68e..c724c97 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -405,7 +405,7 @@ class FlexPath(object):
             `by_spec` is True).
         """
         if self._polygon_dict is None:
-            self._polygon_dict = {}
+            polygon_dict = {}
             if self.points.shape[0] == 2:
                 # Common case: single path with 2 points
                 un = self.points[1] - self.points[0]
@@ -575,10 +575,10 @@ class FlexPath(object):
                             else:
                                 ii += 1
                     key = (self.layers[kk], self.datatypes[kk])
-                    if key in self._polygon_dict:
-                        self._polygon_dict[key].extend(polygons)
+                    if key in polygon_dict:
+                        polygon_dict[key].extend(polygons)
                     else:
-                        self._polygon_dict[key] = polygons
+                        polygon_dict[key] = polygons
             else:
                 # More than 1 path or more than 2 points
                 un = self.points[1:] - self.points[:-1]
@@ -906,10 +906,11 @@ class FlexPath(object):
                             else:
                                 ii += 1
                     key = (self.layers[kk], self.datatypes[kk])
-                    if key in self._polygon_dict:
-                        self._polygon_dict[key].extend(polygons)
+                    if key in polygon_dict:
+                        polygon_dict[key].extend(polygons)
                     else:
-                        self._polygon_dict[key] = polygons
+                        polygon_dict[key] = polygons
+            self._polygon_dict = polygon_dict
         if by_spec:
             return libcopy.deepcopy(self._polygon_dict)
         else:
@@ -1990,7 +1991,7 @@ class RobustPath(object):
             `by_spec` is True).
         """
         if self._polygon_dict is None:
-            self._polygon_dict = {}
+            polygon_dict = {}
             for path, end, layer, datatype in zip(
                 self.paths, self.ends, self.layers, self.datatypes
             ):
@@ -2164,10 +2165,11 @@ class RobustPath(object):
                         else:
                             ii += 1
                 key = (layer, datatype)
-                if key in self._polygon_dict:
-                    self._polygon_dict[key].extend(polygons)
+                if key in polygon_dict:
+                    polygon_dict[key].extend(polygons)
                 else:
-                    self._polygon_dict[key] = polygons
+                    polygon_dict[key] = polygons
+            self._polygon_dict = polygon_dict
         if by_spec:
             return libcopy.deepcopy(self._polygon_dict)
         else:
-- 
2.43.0


From ba045eb1b2b2a55246d9fab14052e34d5c3d3be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 26/40] fix: paths without segments have no polygons

---
 gdspy/path.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index c724c97..e04f233 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -406,6 +406,8 @@ class FlexPath(object):
         """
         if self._polygon_dict is None:
             polygon_dict = {}
+            if self.points.shape[0] < 2:
+                return {} if by_spec else []
             if self.points.shape[0] == 2:
                 # Common case: single path with 2 points
                 un = self.points[1] - self.points[0]
@@ -589,6 +591,8 @@ class FlexPath(object):
                     self.points = self.points[nz, :]
                     self.widths = self.widths[nz, :]
                     self.offsets = self.offsets[nz, :]
+                    if len(nz) < 2:
+                        return {} if by_spec else []
                     un = self.points[1:] - self.points[:-1]
                     un2 = un[:, 0] ** 2 + un[:, 1] ** 2
                 un = un[:, ::-1] * _mpone / (un2 ** 0.5).reshape((un.shape[0], 1))
@@ -1992,6 +1996,8 @@ class RobustPath(object):
         """
         if self._polygon_dict is None:
             polygon_dict = {}
+            if len(self.paths[0]) == 0:
+                return {} if by_spec else []
             for path, end, layer, datatype in zip(
                 self.paths, self.ends, self.layers, self.datatypes
             ):
-- 
2.43.0


From a071a1b4effe1f95b7c2aa8464c20750530e5a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 27/40] fix: area of paths without segments

---
 gdspy/path.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index e04f233..30f7176 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1179,7 +1179,10 @@ class FlexPath(object):
         out : number, dictionary
             Area of this object.
         """
-        return self.to_polygonset().area(by_spec)
+        polygonset = self.to_polygonset()
+        if polygonset is None:
+            return {} if by_spec else 0
+        return polygonset.area(by_spec)
 
     def translate(self, dx, dy):
         """
@@ -2425,7 +2428,10 @@ class RobustPath(object):
         out : number, dictionary
             Area of this object.
         """
-        return self.to_polygonset().area(by_spec)
+        polygonset = self.to_polygonset()
+        if polygonset is None:
+            return {} if by_spec else 0
+        return polygonset.area(by_spec)
 
     def translate(self, dx, dy):
         """
-- 
2.43.0


From 2e6fba780b653df272801f1cb54f63f00e37924c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 28/40] fix: FlexPath.to_gds writes nothing for paths without
 segments

---
 gdspy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 30f7176..4b0e523 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -964,7 +964,7 @@ class FlexPath(object):
             A number that multiplies all dimensions written in the GDSII
             elements.
         """
-        if len(self.points) == 0:
+        if len(self.points) < 2:
             return
         if self.gdsii_path:
             sign = 1 if self.width_transform else -1
-- 
2.43.0


From d9a1d02e24a4de1e3b704ae9b8dbc44deceb4ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 29/40] fix: bounding box of cells that contain paths without
 segments

---
 gdspy/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 18f953a..156e27d 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -582,7 +582,7 @@ class Cell(object):
             for polygon in self.polygons:
                 all_polygons.extend(polygon.polygons)
             for path in self.paths:
-                all_polygons.extend(path.to_polygonset().polygons)
+                all_polygons.extend(path.get_polygons())
             for reference in self.references:
                 reference_bb = reference.get_bounding_box()
                 if reference_bb is not None:
-- 
2.43.0


From b04d409fc407be546b4f5f4348e44614464be573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 30/40] fix: RobustPath does not modify the lists of widths and
 offsets it is given

---
 gdspy/path.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 4b0e523..8b26de6 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1840,9 +1840,9 @@ class RobustPath(object):
         self._polygon_dict = None
         if isinstance(width, list):
             self.n = len(width)
-            self.widths = width
+            self.widths = list(width)
             if isinstance(offset, list):
-                self.offsets = offset
+                self.offsets = list(offset)
             else:
                 self.offsets = [
                     (i - 0.5 * (self.n - 1)) * offset for i in range(self.n)
@@ -1850,7 +1850,7 @@ class RobustPath(object):
         else:
             if isinstance(offset, list):
                 self.n = len(offset)
-                self.offsets = offset
+                self.offsets = list(offset)
             else:
                 self.n = 1
                 self.offsets = [offset]
-- 
2.43.0


From 25141da7914b7c666bd1103ce119624de47230a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 31/40] fix: GdsLibrary.add includes the dependencies of cells
 given by an iterator

---
 gdspy/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 156e27d..2aede6f 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2382,7 +2382,7 @@ class GdsLibrary(object):
         else:
             cell_set = set(cell)
             if include_dependencies:
-                for c in cell:
+                for c in tuple(cell_set):
                     cell_set.update(c.get_dependencies(True))
         for c in cell_set:
             if (
-- 
2.43.0


From b4e83f720872a21f28e361743c3bd00f0119e0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:43 +0000
Subject: [PATCH 32/40] fix: clipper does not release polygons it does not own
 when they are invalid

---
 gdspy/clipper.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index f5a599e..f21c56b 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4647,7 +4647,6 @@ short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check
 
   if (!PySequence_Check(py_polygon))
   {
-    Py_DECREF(py_polygon);
     PyErr_SetString(PyExc_TypeError, "Polygon must be a sequence.");
     return -1;
   }
@@ -4657,13 +4656,11 @@ short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check
   {
     if ((py_point = PySequence_ITEM(py_polygon, j)) == NULL)
     {
-      Py_DECREF(py_polygon);
       return -1;
     }
     if ((py_coord = PySequence_GetItem(py_point, 0)) == NULL)
     {
       Py_DECREF(py_point);
-      Py_DECREF(py_polygon);
       return -1;
     }
     double x = PyFloat_AsDouble(py_coord);
@@ -4672,7 +4669,6 @@ short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check
     if ((py_coord = PySequence_GetItem(py_point, 1)) == NULL)
     {
       Py_DECREF(py_point);
-      Py_DECREF(py_polygon);
       return -1;
     }
     double y = PyFloat_AsDouble(py_coord);
-- 
2.43.0


From 9fc40fcb322b803258f107167b995f6d7a08064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:43 +0000
Subject: [PATCH 33/40] fix: clipper reports coordinates that are not numbers

---
 gdspy/clipper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index f21c56b..8f58608 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4674,6 +4674,7 @@ short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check
     double y = PyFloat_AsDouble(py_coord);
     Py_DECREF(py_coord);
     Py_DECREF(py_point);
+    if (PyErr_Occurred() != NULL) return -1;
     path[j].X = Round(scaling * x);
     path[j].Y = Round(scaling * y);
 #ifdef DEBUG
-- 
2.43.0


From e1c096bda48e5cc686bd87feeaf574d7aaf44ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:43 +0000
Subject: [PATCH 34/40] fix: clipper reports sequences without length or items
 instead of crashing

---
 gdspy/clipper.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 8f58608..f30e634 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4651,6 +4651,8 @@ short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check
     return -1;
   }
 
+  if (num_points < 0) return -1;
+
   path.resize(num_points);
   for (long j = 0; j < num_points; ++j)
   {
@@ -4700,6 +4702,8 @@ short parse_polygon_set(PyObject *polyset, Paths &paths, double scaling, bool ch
   PyObject *py_polygon;
   long num = PySequence_Length(polyset);
 
+  if (num < 0) return -1;
+
   paths.resize(num);
   for (long i = 0; i < num; ++i)
   {
@@ -5162,6 +5166,7 @@ static PyObject* chop(PyObject *self, PyObject *args)
     return NULL;
   }
   num_cuts = PySequence_Length(positions);
+  if (num_cuts < 0) return NULL;
 
   if ((returntuple = PyTuple_New(num_cuts + 1)) == NULL) return NULL;
 
@@ -5173,7 +5178,11 @@ static PyObject* chop(PyObject *self, PyObject *args)
       clip[0][0].X = clip[0][3].X = pos;
       if (i < num_cuts)
       {
-        position = PySequence_ITEM(positions, i);
+        if ((position = PySequence_ITEM(positions, i)) == NULL)
+        {
+          Py_DECREF(returntuple);
+          return NULL;
+        }
         pos = Round(scaling * PyFloat_AsDouble(position));
         Py_DECREF(position);
         if (PyErr_Occurred() != NULL)
@@ -5194,7 +5203,11 @@ static PyObject* chop(PyObject *self, PyObject *args)
       clip[0][0].Y = clip[0][1].Y = pos;
       if (i < num_cuts)
       {
-        position = PySequence_ITEM(positions, i);
+        if ((position = PySequence_ITEM(positions, i)) == NULL)
+        {
+          Py_DECREF(returntuple);
+          return NULL;
+        }
         pos = Round(scaling * PyFloat_AsDouble(position));
         Py_DECREF(position);
         if (PyErr_Occurred() != NULL)
-- 
2.43.0


From 7f41e0d584ffab300a8bab9dc6e2787c8703c8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:43 +0000
Subject: [PATCH 35/40] fix: inside and slice accept empty polygons and lists

---
 gdspy/clipper.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index f30e634..2638ef9 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4883,6 +4883,11 @@ PyObject* build_polygon_tuple(Paths &polygons, double scaling)
 
 cInt bounding_box(Path& points, cInt* bb)
 {
+  if (points.empty())
+  {
+    bb[0] = bb[1] = bb[2] = bb[3] = 0;
+    return 0;
+  }
   bb[0] = points[0].X;
   bb[1] = points[0].X;
   bb[2] = points[0].Y;
@@ -5038,13 +5043,16 @@ static PyObject* inside(PyObject *self, PyObject *args)
   if (short_circuit == 0)
   {
     // No short-circuit
-    unsigned long numpoints = groups[0].size();
-    cInt all_bb[4];
+    unsigned long numpoints = numgroups > 0 ? groups[0].size() : 0;
+    cInt all_bb[4] = {0, 0, 0, 0};
 
-    all_bb[0] = polygons_bb[0][0];
-    all_bb[1] = polygons_bb[0][1];
-    all_bb[2] = polygons_bb[0][2];
-    all_bb[3] = polygons_bb[0][3];
+    if (numpolygons > 0)
+    {
+      all_bb[0] = polygons_bb[0][0];
+      all_bb[1] = polygons_bb[0][1];
+      all_bb[2] = polygons_bb[0][2];
+      all_bb[3] = polygons_bb[0][3];
+    }
     for (unsigned long p = 1; p < numpolygons; ++p)
     {
       if (all_bb[0] > polygons_bb[p][0]) all_bb[0] = polygons_bb[p][0];
@@ -5093,12 +5101,15 @@ static PyObject* inside(PyObject *self, PyObject *args)
   else
   {
     // Short-circuit: ALL
-    cInt all_bb[4];
+    cInt all_bb[4] = {0, 0, 0, 0};
 
-    all_bb[0] = polygons_bb[0][0];
-    all_bb[1] = polygons_bb[0][1];
-    all_bb[2] = polygons_bb[0][2];
-    all_bb[3] = polygons_bb[0][3];
+    if (numpolygons > 0)
+    {
+      all_bb[0] = polygons_bb[0][0];
+      all_bb[1] = polygons_bb[0][1];
+      all_bb[2] = polygons_bb[0][2];
+      all_bb[3] = polygons_bb[0][3];
+    }
     for (unsigned long p = 1; p < numpolygons; ++p)
     {
       if (all_bb[0] > polygons_bb[p][0]) all_bb[0] = polygons_bb[p][0];
-- 
2.43.0


From 60b32a35e4689a05924fb7cffc6acc201e60e0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:43 +0000
Subject: [PATCH 36/40] fix: inside frees its bounding boxes when it fails

---
 gdspy/clipper.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 2638ef9..880e7aa 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -5030,13 +5030,14 @@ static PyObject* inside(PyObject *self, PyObject *args)
 
   unsigned long numgroups = groups.size();
   unsigned long numpolygons = polygons.size();
+  std::vector<cInt> bounds(4 * numpolygons);
   std::vector<cInt*> polygons_bb(numpolygons);
   std::vector<double> polygons_bb_areas(numpolygons);
 
   // Pre-calculate the bounding boxes of the polygons
   for (unsigned long p = 0; p < numpolygons; ++p)
   {
-    polygons_bb[p] = (cInt*) malloc(sizeof(cInt) * 4);
+    polygons_bb[p] = &bounds[4 * p];
     polygons_bb_areas[p] = bounding_box(polygons[p], polygons_bb[p]);
   }
 
@@ -5140,8 +5141,6 @@ static PyObject* inside(PyObject *self, PyObject *args)
     }
   }
 
-  for (unsigned long p = 0; p < numpolygons; ++p) free(polygons_bb[p]);
-
   return result;
 }
 
-- 
2.43.0


From 97ad520d2e8f91442e996055bc2354f596341ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:43 +0000
Subject: [PATCH 37/40] fix: coordinates out of the range of clipper raise an
 error instead of ending the program

---
 gdspy/clipper.cpp | 51 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 880e7aa..2ec056e 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4938,9 +4938,17 @@ static PyObject* clip(PyObject *self, PyObject *args)
   if (parse_polygon_set(polyA, subj, scaling, true) != 0) return NULL;
   if (parse_polygon_set(polyB, clip, scaling, true) != 0) return NULL;
 
-  clpr.AddPaths(subj, ptSubject, true);
-  clpr.AddPaths(clip, ptClip, true);
-  clpr.Execute(oper, solution, pftNonZero, pftNonZero);
+  try
+  {
+    clpr.AddPaths(subj, ptSubject, true);
+    clpr.AddPaths(clip, ptClip, true);
+    clpr.Execute(oper, solution, pftNonZero, pftNonZero);
+  }
+  catch (const std::exception &e)
+  {
+    PyErr_SetString(PyExc_ValueError, e.what());
+    return NULL;
+  }
 
   tree2paths(solution, result);
   return build_polygon_tuple(result, scaling);
@@ -4994,7 +5002,15 @@ static PyObject* offset(PyObject *self, PyObject *args)
     ClipperOffset clprof_join;
 
     clprof_join.AddPaths(subj, jtSquare, etClosedPolygon);
-    clprof_join.Execute(intermediate, 0);
+    try
+    {
+      clprof_join.Execute(intermediate, 0);
+    }
+    catch (const std::exception &e)
+    {
+      PyErr_SetString(PyExc_ValueError, e.what());
+      return NULL;
+    }
     clprof.AddPaths(intermediate, jt, etClosedPolygon);
   }
   else
@@ -5002,7 +5018,15 @@ static PyObject* offset(PyObject *self, PyObject *args)
     clprof.AddPaths(subj, jt, etClosedPolygon);
   }
 
-  clprof.Execute(solution, distance * scaling);
+  try
+  {
+    clprof.Execute(solution, distance * scaling);
+  }
+  catch (const std::exception &e)
+  {
+    PyErr_SetString(PyExc_ValueError, e.what());
+    return NULL;
+  }
 
   tree2paths(solution, result);
   return build_polygon_tuple(result, scaling);
@@ -5233,10 +5257,19 @@ static PyObject* chop(PyObject *self, PyObject *args)
       }
       clip[0][2].Y = clip[0][3].Y = pos;
     }
-    clpr.Clear();
-    clpr.AddPaths(subj, ptSubject, true);
-    clpr.AddPaths(clip, ptClip, true);
-    clpr.Execute(ctIntersection, solution, pftNonZero, pftNonZero);
+    try
+    {
+      clpr.Clear();
+      clpr.AddPaths(subj, ptSubject, true);
+      clpr.AddPaths(clip, ptClip, true);
+      clpr.Execute(ctIntersection, solution, pftNonZero, pftNonZero);
+    }
+    catch (const std::exception &e)
+    {
+      PyErr_SetString(PyExc_ValueError, e.what());
+      Py_DECREF(returntuple);
+      return NULL;
+    }
     result.clear();
     tree2paths(solution, result);
     if ((resultitem = build_polygon_tuple(result, scaling)) == NULL)
-- 
2.43.0


From bcd6c6e088ccd22a734de531a301045ccfbf6c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:43 +0000
Subject: [PATCH 38/40] fix: lists of operands may contain FlexPaths

---
 gdspy/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index ff5d351..f8f38f2 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -72,7 +72,7 @@ def _gather_polys(args):
             polys.extend(p.polygons)
         elif (
             isinstance(p, RobustPath)
-            or isinstance(args, FlexPath)
+            or isinstance(p, FlexPath)
             or isinstance(p, CellReference)
             or isinstance(p, CellArray)
         ):
-- 
2.43.0


From dbb69457772af4b7a639fb81487fd452371d1dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:55 +0000
Subject: [PATCH 39/40] fix: boolean 'and' with an empty second operand is
 empty, as is 'or' of empty operands

---
 gdspy/operation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index f8f38f2..955f0b2 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -251,9 +251,9 @@ def boolean(
     poly1 = _gather_polys(operand1)
     poly2 = _gather_polys(operand2)
     if len(poly2) == 0:
+        if len(poly1) == 0 or operation == "and":
+            return None
         if operation in ["not", "xor"]:
-            if len(poly1) == 0:
-                return None
             return PolygonSet(poly1, layer, datatype).fracture(max_points, precision)
         poly2.append(poly1.pop())
     result = clipper.clip(poly1, poly2, operation, 1 / precision)
-- 
2.43.0


From 7d945bdd751cca56e4a696bba68d3310dba3cb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 40/40] fix: length of a Path includes sections without width

---
 gdspy/polygon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 4c79a5e..6252738 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -1300,6 +1300,7 @@ class Path(PolygonSet):
             self.w = final_width * 0.5
         if final_distance is not None:
             self.distance = final_distance
+        self.length += (length ** 2 + axis_offset ** 2) ** 0.5
         if (self.w != 0) or (old_w != 0):
             for ii in range(self.n):
                 d0 = ii * self.distance - (self.n - 1) * self.distance * 0.5
@@ -1324,7 +1325,6 @@ class Path(PolygonSet):
                     self.polygons[-1] = self.polygons[-1][:-1]
                 if old_w == 0:
                     self.polygons[-1] = self.polygons[-1][1:]
-            self.length += (length ** 2 + axis_offset ** 2) ** 0.5
             if isinstance(layer, list):
                 self.layers.extend((layer * (self.n // len(layer) + 1))[: self.n])
             else:
@@ -1446,6 +1446,7 @@ class Path(PolygonSet):
         widths = numpy.linspace(old_w, self.w, pieces + 1)
         distances = numpy.linspace(old_distance, self.distance, pieces + 1)
         angles = numpy.linspace(initial_angle, final_angle, pieces + 1)
+        self.length += abs((final_angle - initial_angle) * radius)
         if (self.w != 0) or (old_w != 0):
             for jj in range(pieces):
                 for ii in range(self.n):
@@ -1483,7 +1484,6 @@ class Path(PolygonSet):
                         )
                     self.polygons[-1][pts1:, 0] = numpy.cos(ang) * rad + cx
                     self.polygons[-1][pts1:, 1] = numpy.sin(ang) * rad + cy
-                self.length += abs((angles[jj + 1] - angles[jj]) * radius)
                 if isinstance(layer, list):
                     self.layers.extend((layer * (self.n // len(layer) + 1))[: self.n])
                 else:
-- 
2.43.0

