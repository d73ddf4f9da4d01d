From a90d4d3d6a0b31511bac55e5ff4524a6d16e863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:13 +0000
Subject: [PATCH 01/13] fix: SheetPlex.limit keeps joints whose both sheets are
 kept

The condition on the second side named the builtin iter instead of the
intersection, so limiting a model raised AttributeError whenever the first
side's sheet was among those kept.
---
 plycutter/sheetplex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plycutter/sheetplex.py b/plycutter/sheetplex.py
index 84c7afb..0060c44 100644
--- a/plycutter/sheetplex.py
+++ b/plycutter/sheetplex.py
@@ -83,7 +83,7 @@ class SheetPlex(pyr.PRecord, Autocompletable):
                 for inter_id, inter
                 in self.intersections.items()
                 if inter.sides[0].sheet in sheet_ids
-                and iter.sides[1].sheet in sheet_ids
+                and inter.sides[1].sheet in sheet_ids
             })
         )
 
-- 
2.43.0


From c25ecca66f588f38871adda1b156ee5e4a4241a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 02/13] fix: refusing to exclude a chosen joint range raises
 AssertionError

The message of the assertion in unchoose_interside called area() on a 1-D
geometry, so the refusal surfaced as an AttributeError.
---
 plycutter/sheetbuild.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plycutter/sheetbuild.py b/plycutter/sheetbuild.py
index 89ddf10..2d88ec0 100644
--- a/plycutter/sheetbuild.py
+++ b/plycutter/sheetbuild.py
@@ -79,7 +79,8 @@ class SheetBuild(pyr.PRecord, Autocompletable):
     def unchoose_interside(self, interside_id, v):
         """State that the range v will never be chosen"""
         assert (self.interside_chosen[interside_id] & v).is_empty(), fastr(
-            interside_id, v, (self.interside_chosen[interside_id] & v).area()
+            interside_id, v,
+            (self.interside_chosen[interside_id] & v).measure1d()
         )
         interside = self.sheetplex.interside(interside_id)
 
-- 
2.43.0


From f6195b80637f6a6273f5c6da8574e8c6ab86bdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 03/13] fix: fstr of a Geom1D no longer raises TypeError

Geom1D.__fstr__ passed its keyword arguments to fastr, which takes none, so
formatting a failed sheetbuild assertion raised TypeError instead.
---
 plycutter/geometry/geom1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plycutter/geometry/geom1d.py b/plycutter/geometry/geom1d.py
index d4bcb04..4fe2f97 100644
--- a/plycutter/geometry/geom1d.py
+++ b/plycutter/geometry/geom1d.py
@@ -19,7 +19,7 @@
 import math
 
 from ..plytypes import FractionFromExact, \
-    FractionFromExactOrInf, fastr
+    FractionFromExactOrInf, fastr, fstr
 
 
 class Geom1D:
@@ -122,7 +122,7 @@ class Geom1D:
                                           for interval in self.intervals]))
 
     def __fstr__(self, **args):
-        return "Geom1D(%s)" % (", ".join([fastr(interval, **args)
+        return "Geom1D(%s)" % (", ".join([fstr(interval, **args)
                                           for interval in self.intervals]))
 
     def get_intervals(self):
-- 
2.43.0


From e24a9b047fd693235e747a5d0768d882beaeb925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:16 +0000
Subject: [PATCH 04/13] fix: random_min_max no longer trips over float rounding
 of its draws

With a width limit such as 4.7 and a range that only fits with every finger
at the limit, the accumulated rounding of the drawn floats made the lower
limit of a remaining finger exceed its upper limit (AssertionError).
---
 plycutter/heuristics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plycutter/heuristics.py b/plycutter/heuristics.py
index fd18b6a..981d188 100644
--- a/plycutter/heuristics.py
+++ b/plycutter/heuristics.py
@@ -417,7 +417,9 @@ def random_min_max(n, mn, mx, total, rng):
         hi = min(at_most, mx)
         # logger.debug(low, hi)
         assert low <= hi
-        cur = rng.uniform(low, hi)
+        # Continue with the exact value of the float drawn, so that rounding
+        # does not break the limits of the remaining fingers
+        cur = min(max(F(rng.uniform(low, hi)), low), hi)
         # logger.debug(cur)
         lengths[i] = cur
         running_total += cur
-- 
2.43.0


From 83df7b0b43652513cca732cd436ae30407033e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:59 +0000
Subject: [PATCH 05/13] fix: buffering keeps pieces that lie in a hole of
 another piece

---
 plycutter/geometry/impl2d/geom2d_simple_holes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plycutter/geometry/impl2d/geom2d_simple_holes.py b/plycutter/geometry/impl2d/geom2d_simple_holes.py
index fe6eff9..91b6bd8 100644
--- a/plycutter/geometry/impl2d/geom2d_simple_holes.py
+++ b/plycutter/geometry/impl2d/geom2d_simple_holes.py
@@ -352,6 +352,11 @@ class Geom2D_Py_Simple_Holes(geom2dbase.Geom2DBase):
             [spwh.transformed_with(f) for spwh in self.spwhs])
 
     def _minkowski_convex_op(self, cpoly, sign):
+        if len(self.spwhs) > 1:
+            # Piece by piece, so that the hole of one piece does not
+            # remove another piece that lies inside the hole
+            return union_tree([piece._minkowski_convex_op(cpoly, sign)
+                               for piece in self.polygons()])
         cpoly = NP(cpoly)
         assert sign != 0
 #        if sign < 0:
-- 
2.43.0


From 91cfe513d483239f220bf974338dc72ad61931e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:30 +0000
Subject: [PATCH 06/13] fix: a plate without material no longer spoils the
 layout of the drawing

---
 plycutter/writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plycutter/writer.py b/plycutter/writer.py
index 3c61c3d..f18266d 100644
--- a/plycutter/writer.py
+++ b/plycutter/writer.py
@@ -32,6 +32,10 @@ def write_dxf(filename, geom2ds):
     for name, geom in geom2ds.items():
         print(name)
 
+        if geom.is_empty():
+            # Nothing to draw; an empty box would spoil the layout
+            continue
+
         aabb = AABB()
 
         for polygon in geom.polygons():
-- 
2.43.0


From f211f06cade6a6deafde32ffca0549db94b738ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:13 +0000
Subject: [PATCH 07/13] fix: a failing process raises its own error when
 return_on_failure is not given

---
 plycutter/canned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plycutter/canned.py b/plycutter/canned.py
index f541bf7..ed88273 100644
--- a/plycutter/canned.py
+++ b/plycutter/canned.py
@@ -79,7 +79,7 @@ def canned_1(sheetplex, params, show=False):
 
     except Exception as e:
         logger.error('Exception in canned_1: %s', e, exc_info=True)
-        if not params['return_on_failure']:
+        if not params.get('return_on_failure'):
             raise
 
     return argparse.Namespace(
-- 
2.43.0


From 8203510207feb8203a43cbca8aa0ebb9dfd68a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:13 +0000
Subject: [PATCH 08/13] fix: a failure before the first joint step can be
 returned too

---
 plycutter/canned.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plycutter/canned.py b/plycutter/canned.py
index ed88273..e94de95 100644
--- a/plycutter/canned.py
+++ b/plycutter/canned.py
@@ -37,6 +37,7 @@ def canned_1(sheetplex, params, show=False):
     global sb_log
     sb_log = []
     ok = False
+    sb = None
     try:
         sp = sheetplex
         logger.info("Create sheetbuild")
@@ -86,7 +87,7 @@ def canned_1(sheetplex, params, show=False):
         ok=ok,
         sheetbuild=sb,
         history=sb_log,
-        sheet_cuts=sb.sheet_chosen,
+        sheet_cuts=None if sb is None else sb.sheet_chosen,
         params=params,
     )
 
-- 
2.43.0


From 9c484ebdf6576e129ffbc23f5cad401e8e685257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:13 +0000
Subject: [PATCH 09/13] fix: showing the joint steps passes on the state to
 show

---
 plycutter/canned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plycutter/canned.py b/plycutter/canned.py
index e94de95..b47bfbc 100644
--- a/plycutter/canned.py
+++ b/plycutter/canned.py
@@ -71,7 +71,7 @@ def canned_1(sheetplex, params, show=False):
             sb_log.append(sb.set('dbg', op))
             sb = op(sb, params)
             if show:
-                do_show(op)
+                do_show(op, sb)
 
         sb_log.append(sb)
         sb.check(force=True)
-- 
2.43.0


From 7222301c4f0acc25afa159d7142d1575cfabe8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 10/13] fix: showing an empty shape on given axes

to_mpatch handed None to add_patch when the shape has no polygons
---
 plycutter/geometry/geom2dbase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plycutter/geometry/geom2dbase.py b/plycutter/geometry/geom2dbase.py
index 3cc2047..6051504 100644
--- a/plycutter/geometry/geom2dbase.py
+++ b/plycutter/geometry/geom2dbase.py
@@ -134,7 +134,8 @@ class Geom2DBase:
             patch = None
 
         if ax is not None:
-            ax.add_patch(patch)
+            if patch is not None:
+                ax.add_patch(patch)
             ax.autoscale_view()
         return patch
 
-- 
2.43.0


From 763310afb4c70e0cde461d440a90d8d42d532632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:58 +0000
Subject: [PATCH 11/13] fix: keep the parity of the number of random fingers

The number of fingers was drawn from the whole range, so that an end finger
could be of the same plate as the material next to it, merging with it into
a finger wider than the maximum.
---
 plycutter/heuristics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plycutter/heuristics.py b/plycutter/heuristics.py
index 981d188..e512b22 100644
--- a/plycutter/heuristics.py
+++ b/plycutter/heuristics.py
@@ -497,6 +497,9 @@ def single_fingers_random(sb, params=None):
                 n_min = min(preferred_min, n_max)
 
             n = rng.randint(n_min, n_max + 1)
+            # Any n in the range can be drawn: keep the parity with which
+            # the fingers at both ends differ from what is next to them
+            n -= int(n_max - n) % 2
 
             locations = random_min_max(
                 n, min_width, max_width, end - start, rng)
-- 
2.43.0


From 088af847d0abd8836072d0f6469a29e90366e0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:58 +0000
Subject: [PATCH 12/13] fix: open joints wherever on the plate they are

The possible positions of a joint were only looked for within 1000 of the
origin of its coordinates.
---
 plycutter/sheetbuild.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/plycutter/sheetbuild.py b/plycutter/sheetbuild.py
index 2d88ec0..149e6ab 100644
--- a/plycutter/sheetbuild.py
+++ b/plycutter/sheetbuild.py
@@ -23,7 +23,7 @@ import pyrsistent as pyr
 import logging
 
 from .misc import Autocompletable
-from .plytypes import fastr, F, Fraction
+from .plytypes import fastr, F
 from .geometry.geom1d import Geom1D
 
 logger = logging.getLogger(__name__)
@@ -257,8 +257,9 @@ def create_sheetbuild(sp, params):
                     interside.project_to_1d(
                         sheet_ok[interside.sheet] &
                         sp.sheets[interside.sheet].slices_max &
-                        interside.make_fingers(
-                            Geom1D([[Fraction(-1000), Fraction(1000)]])))
+                        # Across the whole plate, wherever it is
+                        interside.make_fingers(interside.project_to_1d(
+                            sp.sheets[interside.sheet].slices_max).buffer(1)))
                     for interside in sp.intersides()}
 
     for interside in sp.intersides():
-- 
2.43.0


From 3b2777159e9fca2926f608fe04ce2479b0d3dfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:58 +0000
Subject: [PATCH 13/13] fix: do not depend on the order of hash maps

With the same random seed, results changed from run to run (with
PYTHONHASHSEED) because plates and joints were enumerated in the order of
their hashes.
---
 plycutter/command_line.py     |  2 +-
 plycutter/create_sheetplex.py |  3 ++-
 plycutter/heuristics.py       | 10 +++++-----
 plycutter/sheetplex.py        |  3 ++-
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/plycutter/command_line.py b/plycutter/command_line.py
index fc3a9da..4c5a175 100644
--- a/plycutter/command_line.py
+++ b/plycutter/command_line.py
@@ -96,7 +96,7 @@ def main(arguments=sys.argv[1:]):
 
     to_write_dilated = {
         k: v.buffer(args.final_dilation)
-        for k, v in to_write.items()
+        for k, v in sorted(to_write.items())
     }
     print(to_write_dilated)
 
diff --git a/plycutter/create_sheetplex.py b/plycutter/create_sheetplex.py
index 52d64cf..f86a08e 100644
--- a/plycutter/create_sheetplex.py
+++ b/plycutter/create_sheetplex.py
@@ -297,7 +297,8 @@ def find_all_facets(mesh):
 
 
 def create_intersections(sp):
-    sheets = list(sp.sheets.values())
+    # Sorted, as the order of a PMap changes from run to run
+    sheets = [sheet for _, sheet in sorted(sp.sheets.items())]
     for i, sheet0 in enumerate(sheets):
         for sheet1 in sheets[i+1:]:
             sp = create_intersection(sp, (sheet0, sheet1))
diff --git a/plycutter/heuristics.py b/plycutter/heuristics.py
index e512b22..be1c815 100644
--- a/plycutter/heuristics.py
+++ b/plycutter/heuristics.py
@@ -152,7 +152,7 @@ def _find_interactions(sb):
 
     interactions = collections.defaultdict(lambda: [])
 
-    for sheet in sp.sheets.values():
+    for _, sheet in sorted(sp.sheets.items()):
         intersides = list(sp.intersides(sheet.id))
         for i, i_interside in enumerate(intersides):
             i_fingers = i_interside.make_fingers(
@@ -258,7 +258,7 @@ def heuristic_multi_inter_single_decisions(sb, params=None):  # noqa
     for cluster in clusters.values():
         logger.debug('CLUSTER', cluster)
         intersections = [sp.intersections[intersection_id]
-                         for intersection_id in cluster.keys()]
+                         for intersection_id in sorted(cluster.keys())]
 
         sheet_ids = set()
         intersides_by_sheet = collections.defaultdict(lambda: [])
@@ -268,7 +268,7 @@ def heuristic_multi_inter_single_decisions(sb, params=None):  # noqa
                 sheet_ids.add(interside.sheet)
                 intersides_by_sheet[interside.sheet].append(interside)
 
-        sheets = [sp.sheets[sheet_id] for sheet_id in sheet_ids]
+        sheets = [sp.sheets[sheet_id] for sheet_id in sorted(sheet_ids)]
 
         eps = F(2, 10)
         min_finger = 3
@@ -379,7 +379,7 @@ def choose_the_ok_side(sb, params=None):
     sb.check()
 
     sp = sb.sheetplex
-    for intersection in sp.intersections.values():
+    for _, intersection in sorted(sp.intersections.items()):
         for interside in intersection.sides:
             this_only = sb.interside_ok[interside.id]
             this_only -= sb.interside_chosen[interside.id]
@@ -444,7 +444,7 @@ def single_fingers_random(sb, params=None):
     # XXX Assert that there are no multiple intersections
     # any more
     sp = sb.sheetplex
-    for intersection in sp.intersections.values():
+    for _, intersection in sorted(sp.intersections.items()):
         sides = intersection.sides
         assert len(sides) == 2
         # At this point, everything left should be
diff --git a/plycutter/sheetplex.py b/plycutter/sheetplex.py
index 0060c44..0e59714 100644
--- a/plycutter/sheetplex.py
+++ b/plycutter/sheetplex.py
@@ -65,7 +65,8 @@ class SheetPlex(pyr.PRecord, Autocompletable):
 
     def intersides(self, sheet_id=None):
         """Return an iterator for intersides of a particular sheet or all"""
-        for intersection in self.intersections.values():
+        # Sorted, as the order of a PMap changes from run to run
+        for _, intersection in sorted(self.intersections.items()):
             for side in intersection.sides:
                 if sheet_id is None or side.sheet == sheet_id:
                     yield side
-- 
2.43.0

