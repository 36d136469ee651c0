From 71ecf7077ddc6418e8f478da6b7048bfff4e49cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:02 +0000
Subject: [PATCH 01/20] fix: accept an existing empty buffer directory

The comment promises an error only if the directory exists and is not
empty, but an existing empty one (left, for example, by a run that was
killed before it stored anything) made Simulation() fail with
FileExistsError. Two simulations sharing a new project directory could
fail in the same way.
---
 building3d/sim/rays/simulation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/building3d/sim/rays/simulation.py b/building3d/sim/rays/simulation.py
index 677cbb8..66eda3a 100644
--- a/building3d/sim/rays/simulation.py
+++ b/building3d/sim/rays/simulation.py
@@ -87,14 +87,13 @@ class Simulation:
 
     def make_dirs(self):
         # Create project directory
-        if not os.path.exists(self.project_dir):
-            os.makedirs(self.project_dir)
+        os.makedirs(self.project_dir, exist_ok=True)
         # Create buffer (state) directory, but raise error if it exists and is not empty
         # because that's a commmon source of errors when some states are overwritten
         if os.path.exists(self.buffer_dir) and len(os.listdir(self.buffer_dir)) > 0:
             raise RuntimeError(f"Buffer dir ({self.buffer_dir}) already exists and is non-empty!")
         else:
-            os.makedirs(self.buffer_dir)
+            os.makedirs(self.buffer_dir, exist_ok=True)
 
     @staticmethod
     def get_transparent_polygon_numbers(building):
-- 
2.43.0


From 5998b033e14e38f90cdfe5c60e37f38ff75010b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:02 +0000
Subject: [PATCH 02/20] fix: let concurrent writers create the same parent
 directory

The directory was created only if a preceding check did not find it, so
two processes or threads saving into the same new directory could both
try, and one of them failed with FileExistsError.
---
 building3d/io/b3d.py          | 3 +--
 building3d/io/dotbim.py       | 3 +--
 building3d/io/stl.py          | 3 +--
 building3d/logger/__init__.py | 4 ++--
 4 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/building3d/io/b3d.py b/building3d/io/b3d.py
index c183238..260ac72 100644
--- a/building3d/io/b3d.py
+++ b/building3d/io/b3d.py
@@ -53,8 +53,7 @@ def write_b3d(path: str, bdg: Building, parent_dirs: bool = True) -> None:
     """
     if parent_dirs is True:
         p = Path(path)
-        if not p.parent.exists():
-            p.parent.mkdir(parents=True)
+        p.parent.mkdir(parents=True, exist_ok=True)
 
     # Construct the model dictionary
     # I am keeping only the object names and point coordinates
diff --git a/building3d/io/dotbim.py b/building3d/io/dotbim.py
index cdd80ef..1236eb2 100644
--- a/building3d/io/dotbim.py
+++ b/building3d/io/dotbim.py
@@ -29,8 +29,7 @@ def write_dotbim(path: str, bdg: Building, parent_dirs: bool = True) -> None:
     """
     if parent_dirs is True:
         p = Path(path)
-        if not p.parent.exists():
-            p.parent.mkdir(parents=True)
+        p.parent.mkdir(parents=True, exist_ok=True)
 
     mesh_id = 0
     meshes = []
diff --git a/building3d/io/stl.py b/building3d/io/stl.py
index a74420b..e0f7ae4 100644
--- a/building3d/io/stl.py
+++ b/building3d/io/stl.py
@@ -55,8 +55,7 @@ def write_stl(path: str, bdg: Building, parent_dirs: bool = True) -> None:
 
     if parent_dirs is True:
         p = Path(path)
-        if not p.parent.exists():
-            p.parent.mkdir(parents=True)
+        p.parent.mkdir(parents=True, exist_ok=True)
 
     lines = []
     l1 = " " * 2
diff --git a/building3d/logger/__init__.py b/building3d/logger/__init__.py
index 0602640..37efad7 100644
--- a/building3d/logger/__init__.py
+++ b/building3d/logger/__init__.py
@@ -6,8 +6,8 @@ from building3d.config import LOG_LEVEL
 
 
 def init_logger(logfile: None | str = None):
-    if isinstance(logfile, str) and not Path(logfile).parent.exists():
-        Path(logfile).parent.mkdir(parents=True)
+    if isinstance(logfile, str):
+        Path(logfile).parent.mkdir(parents=True, exist_ok=True)
 
     if logfile is None:
         logfile = LOG_FILE
-- 
2.43.0


From 5dfffad74c3491758154649a844acd49727b08a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:02 +0000
Subject: [PATCH 03/20] fix: report an STL file that ends inside a solid

A file cut short between two facets was read without error and its last
solid was dropped silently.
---
 building3d/io/stl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/building3d/io/stl.py b/building3d/io/stl.py
index e0f7ae4..59b3fa4 100644
--- a/building3d/io/stl.py
+++ b/building3d/io/stl.py
@@ -166,6 +166,7 @@ def read_stl(path: str) -> Building:
 
                 solid = Solid([wall])
                 zone.add_solid(solid)
+                wall = None
             else:
                 raise ValueError("No wall created, so cannot add it to the zone/solid.")
         else:
@@ -173,6 +174,9 @@ def read_stl(path: str) -> Building:
 
         i += 1
 
+    if wall is not None:
+        raise ValueError(f"STL file ends inside a solid: {path}")
+
     logger.debug(f"Zone read from STL: {zone}")
     logger.debug(f"Number of solids in zone {zone.name} = {len(zone.solids.keys())}")
 
-- 
2.43.0


From 1fab5ae91af99a182a7007e239c67246df3045c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:02 +0000
Subject: [PATCH 04/20] fix: replace walls and polygons completely or not at
 all

When a new object's name was already taken (or the call was interrupted)
the old object was gone and only some of the new ones were added.
---
 building3d/geom/solid/__init__.py | 10 ++++++++--
 building3d/geom/wall/__init__.py  | 11 +++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/building3d/geom/solid/__init__.py b/building3d/geom/solid/__init__.py
index 4b6b56e..e534cdf 100644
--- a/building3d/geom/solid/__init__.py
+++ b/building3d/geom/solid/__init__.py
@@ -81,8 +81,14 @@ class Solid:
         self.walls[wall.name] = wall
 
     def replace_wall(self, old_name: str, new_wall: Wall):
-        del self.walls[old_name]
-        self.add_wall(new_wall)
+        walls = dict(self.walls)
+        del walls[old_name]
+        if new_wall.name in walls:
+            raise GeometryError(f"Wall {new_wall.name} already exists in {self.name}")
+        walls[new_wall.name] = new_wall
+
+        new_wall.parent = self
+        self.walls = walls
 
     def get(self, abspath: str):
         """Get object by the absolute path."""
diff --git a/building3d/geom/wall/__init__.py b/building3d/geom/wall/__init__.py
index bdb8985..f69d37d 100644
--- a/building3d/geom/wall/__init__.py
+++ b/building3d/geom/wall/__init__.py
@@ -81,9 +81,16 @@ class Wall:
         self.polygons[poly.name] = poly
 
     def replace_polygon(self, old_name: str, *new_poly: Polygon):
-        del self.polygons[old_name]
+        polygons = dict(self.polygons)
+        del polygons[old_name]
         for np in new_poly:
-            self.add_polygon(np)
+            if np.name in polygons:
+                raise GeometryError(f"Polygon {np.name} already exists in the wall")
+            polygons[np.name] = np
+
+        for np in new_poly:
+            np.parent = self
+        self.polygons = polygons
 
     def get(self, abspath: str):
         """Get object by the absolute path."""
-- 
2.43.0


From 00df5cc92f75585fa30eed8abf572a1514a9cf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:02 +0000
Subject: [PATCH 05/20] fix: stitch solids and polygons whose names are used
 more than once

Solid names are unique only within a zone and polygon names only within
a wall. A second pair of equally named solids was skipped, and slicing a
polygon also replaced equally named polygons of other walls.
---
 building3d/geom/building/__init__.py | 4 ++--
 building3d/geom/solid/stitch.py      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/building3d/geom/building/__init__.py b/building3d/geom/building/__init__.py
index 84ef2e4..78743ec 100644
--- a/building3d/geom/building/__init__.py
+++ b/building3d/geom/building/__init__.py
@@ -201,12 +201,12 @@ class Building:
                 _, z1_name, s_name = s_path.split(PATH_SEP)
                 _, z2_name, adj_s_name = adj_s_path.split(PATH_SEP)
 
-                if set([s_name, adj_s_name]) not in done:
+                if set([s_path, adj_s_path]) not in done:
                     stitch_solids(
                         s1=self.zones[z1_name].solids[s_name],
                         s2=self.zones[z2_name].solids[adj_s_name],
                     )
-                    done.append(set([s_name, adj_s_name]))
+                    done.append(set([s_path, adj_s_path]))
 
     def volume(self) -> float:
         """Calculate building volume as the sum of zone volumes."""
diff --git a/building3d/geom/solid/stitch.py b/building3d/geom/solid/stitch.py
index ea686ee..389fefb 100644
--- a/building3d/geom/solid/stitch.py
+++ b/building3d/geom/solid/stitch.py
@@ -143,7 +143,7 @@ def replace_polygon(s: Solid, old_poly: Polygon, *new_poly: Polygon) -> None:
     """Replaces `old_poly` with an arbitraty number of `new_poly` (in-place)."""
     wpl = get_walls_and_polygons(s)
     for wall, poly in wpl:
-        if poly.name == old_poly.name:
+        if poly is old_poly:
             wall.replace_polygon(poly.name, *new_poly)
 
 
-- 
2.43.0


From a5116bb99cdb99d013b7a5667aa5accd40560e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:38 +0000
Subject: [PATCH 06/20] fix: do not answer a graph request with a graph of
 other relations

Building.get_graph() ignored the requested relations if any graph had
been made before. In particular stitch_solids(), which needs facing and
overlapping polygons of the current geometry, missed solids after a call
of get_graph() with the default arguments. The graphs of all levels are
now also stored together, so an interrupted call cannot leave graphs of
different age behind.
---
 building3d/geom/building/__init__.py | 46 +++++++++++-----------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/building3d/geom/building/__init__.py b/building3d/geom/building/__init__.py
index 78743ec..215abdd 100644
--- a/building3d/geom/building/__init__.py
+++ b/building3d/geom/building/__init__.py
@@ -52,10 +52,8 @@ class Building:
         for zn in zones:
             self.add_zone(zn)
 
-        self.graph = {}
-        self.graph_wall = {}
-        self.graph_solid = {}
-        self.graph_zone = {}
+        # Cached graphs: (relations, {level: graph})
+        self.graphs = (None, {"polygon": {}})
 
         logger.info(f"Building created: {self}")
 
@@ -162,29 +160,21 @@ class Building:
         Returns:
             dict with connections at a specified level
         """
-        if len(self.graph) == 0:
-            new = True
-
-        if new is True:
-            self.graph = graph_polygon(self, facing, overlapping, touching)
-            self.graph_wall = graph_wall(
-                self, facing, overlapping, touching, self.graph
-            )
-            self.graph_solid = graph_solid(
-                self, facing, overlapping, touching, self.graph
-            )
-            self.graph_zone = graph_zone(
-                self, facing, overlapping, touching, self.graph
-            )
-
-        if level == "polygon":
-            return self.graph
-        elif level == "wall":
-            return self.graph_wall
-        elif level == "solid":
-            return self.graph_solid
-        elif level == "zone":
-            return self.graph_zone
+        relations = (facing, overlapping, touching)
+        cached_relations, graphs = self.graphs
+
+        if new is True or len(graphs["polygon"]) == 0 or cached_relations != relations:
+            g = graph_polygon(self, facing, overlapping, touching)
+            graphs = {
+                "polygon": g,
+                "wall": graph_wall(self, facing, overlapping, touching, g),
+                "solid": graph_solid(self, facing, overlapping, touching, g),
+                "zone": graph_zone(self, facing, overlapping, touching, g),
+            }
+            self.graphs = (relations, graphs)
+
+        if level in graphs:
+            return graphs[level]
         else:
             raise ValueError(f"Level not recognized: {level}")
 
@@ -193,7 +183,7 @@ class Building:
         logger.info(f"Stitching solids in building {self}")
 
         # Find adjacent solids
-        adj_solids = self.get_graph(new=False, level="solid", facing=True, overlapping=True)
+        adj_solids = self.get_graph(new=True, level="solid", facing=True, overlapping=True)
         done = []
 
         for s_path in adj_solids.keys():
-- 
2.43.0


From 88bbb4f4c055be18d1a6c911bd8accdb4be3b655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:38 +0000
Subject: [PATCH 07/20] fix: find transparent polygons of the building as it is
 now

The cache was keyed by id(building), so the answer was not updated when
the building was changed (e.g. stitched), a new building could get the
answer of a deleted one, and changing the returned set changed the
cache.
---
 building3d/sim/rays/find_transparent.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/building3d/sim/rays/find_transparent.py b/building3d/sim/rays/find_transparent.py
index 9043416..2484670 100644
--- a/building3d/sim/rays/find_transparent.py
+++ b/building3d/sim/rays/find_transparent.py
@@ -24,13 +24,14 @@ import logging
 
 from building3d.geom.building import Building
 from building3d.geom.building.graph import graph_polygon
+from building3d.geom.building.graph import iter_polygons
 from building3d.geom.paths.split_path import split_path
 
 logger = logging.getLogger(__name__)
 
 
 # Use cache to speed up finding transparent polygons for each ray within a building
-CACHE: dict[int, set[str]] = {}  # {id(building): set(transparent_polygon_paths)}
+CACHE: dict[tuple, set[str]] = {}  # {geometry: set(transparent_polygon_paths)}
 
 
 def find_transparent(building: Building) -> set[str]:
@@ -45,8 +46,9 @@ def find_transparent(building: Building) -> set[str]:
         set of paths to polygons
     """
     logger.debug(f"Finding transparent polygons in {building.name}")
-    if id(building) in CACHE:
-        return CACHE[id(building)]
+    geometry = tuple((p.path, p.pts.tobytes()) for p in iter_polygons(building))
+    if geometry in CACHE:
+        return CACHE[geometry].copy()
 
     else:
         # Find facing polygons (matching exactly)
@@ -78,6 +80,6 @@ def find_transparent(building: Building) -> set[str]:
 
         # Add to CACHE
         set_of_transparent_polygons = set(transparent_polygons)
-        CACHE[id(building)] = set_of_transparent_polygons
+        CACHE[geometry] = set_of_transparent_polygons
 
-        return set_of_transparent_polygons
+        return set_of_transparent_polygons.copy()
-- 
2.43.0


From be758aec8dc78d2cff2f3dbb2880ffaec01bd522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:38 +0000
Subject: [PATCH 08/20] fix: volume of a degenerate tetrahedron is zero, not
 NaN

Rounding can make the expression under the square root negative when the
four points are coplanar. Solid.volume was NaN if a face lay in a plane
through the origin, which is common after stitching.
---
 building3d/geom/tetrahedrons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/tetrahedrons.py b/building3d/geom/tetrahedrons.py
index adaf452..f8f3503 100644
--- a/building3d/geom/tetrahedrons.py
+++ b/building3d/geom/tetrahedrons.py
@@ -29,7 +29,7 @@ def tetrahedron_volume(
     nominator = (
         4 * a**2 * b**2 * c**2 - a**2 * x**2 - b**2 * y**2 - c**2 * z**2 + x * y * z
     )
-    vol = np.sqrt(nominator + EPSILON) / 12.0
+    vol = np.sqrt(max(nominator, 0.0) + EPSILON) / 12.0
 
     return vol
 
-- 
2.43.0


From 41e0f3221b1af1f21890f9f74c0fff22c3527eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:04 +0000
Subject: [PATCH 09/20] fix: use the absorption configured for each surface in
 the simulation

Values assigned with SimulationConfig.set_surface_param() were ignored,
every surface had the default absorption. Surfaces without an assigned
value follow the default, also if it is changed after the configuration
was created.
---
 building3d/sim/rays/simulation.py        |  5 +++--
 building3d/sim/rays/simulation_config.py | 18 +++++++++++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/building3d/sim/rays/simulation.py b/building3d/sim/rays/simulation.py
index 66eda3a..56dfae2 100644
--- a/building3d/sim/rays/simulation.py
+++ b/building3d/sim/rays/simulation.py
@@ -59,8 +59,9 @@ class Simulation:
         self.absorber_radius: float = sim_cfg.rays["absorber_radius"]
 
         # Surface parameters
-        default_absorption = sim_cfg.surfaces["absorption"]["default"]
-        self.surf_absorption: FloatDataType = np.full(len(self.polygons), default_absorption)
+        self.surf_absorption: FloatDataType = sim_cfg.surface_params_to_array(
+            "absorption", building
+        )
 
         # Visualization parameters
         # TODO: Should these parameters be here? Plotting and movie rendering isn't here...
diff --git a/building3d/sim/rays/simulation_config.py b/building3d/sim/rays/simulation_config.py
index cf343b5..3eb0c0f 100644
--- a/building3d/sim/rays/simulation_config.py
+++ b/building3d/sim/rays/simulation_config.py
@@ -50,6 +50,8 @@ class SimulationConfig:
                 # To add custom values to each polygon use self.set_surface_param()
             },
         }
+        self.surfaces_set: dict[str, set[str]] = {}  # Set with self.set_surface_param()
+        self.surfaces_filled: dict[str, float] = {}  # Default when the paths were added
         self.set_default_surface_paths(self.building)
 
         # Visualization parameters (plots, movies)
@@ -78,6 +80,8 @@ class SimulationConfig:
         """Add all polygon paths to surface parameters and fill them with default values."""
         poly_paths = building.get_polygon_paths()
         for key in self.surfaces.keys():
+            self.surfaces_set[key] = set()
+            self.surfaces_filled[key] = self.surfaces[key]["default"]
             for path in poly_paths:
                 self.surfaces[key][path] = self.surfaces[key]["default"]
 
@@ -120,11 +124,13 @@ class SimulationConfig:
 
         if isinstance(obj, Polygon):
             self.surfaces[param_name][surface_path] = value
+            self.surfaces_set.setdefault(param_name, set()).add(surface_path)
         elif isinstance(obj, (Building, Zone, Solid, Wall)):
             # Set the value to all polygons belonging to this object
             polygon_paths = obj.get_polygon_paths()
             for path in polygon_paths:
                 self.surfaces[param_name][path] = value
+                self.surfaces_set.setdefault(param_name, set()).add(path)
         else:
             raise TypeError(f"Incorrect type of object: {type(obj)}")
 
@@ -160,10 +166,12 @@ class SimulationConfig:
                 raise RuntimeError("Polygon not numbered by the array format converter yet.")
             assert 0 <= poly.num < len(poly_paths), "The polygon is numbered incorrectly"
 
-            # Assign values to the return array
-            if pp in self.surfaces[param_name]:
-                values[poly.num] = self.surfaces[param_name][pp]
-            else:
-                values[poly.num] = self.surfaces[param_name]["default"]
+            # Assign values to the return array (the default may have changed since it was filled in)
+            default = self.surfaces[param_name]["default"]
+            value = self.surfaces[param_name].get(pp, default)
+            if pp not in self.surfaces_set.get(param_name, ()):
+                if value == self.surfaces_filled.get(param_name):
+                    value = default
+            values[poly.num] = value
 
         return values
-- 
2.43.0


From 1350804932633ac757cde9d2c74426afe9f20245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:30 +0000
Subject: [PATCH 10/20] fix: find points near an edge of a slanted triangle

is_point_on_same_side() compared two unit vectors component by component with an
absolute tolerance of 1e-13. For points within about a millimetre of an edge the
rounding error of the unit vector is larger than that, so a point inside the
triangle was reported as outside. Rays passed through slanted walls at such
points. Compare the sense of the vectors with a dot product instead.
---
 building3d/geom/triangles.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/building3d/geom/triangles.py b/building3d/geom/triangles.py
index 1ebb13b..81dba87 100644
--- a/building3d/geom/triangles.py
+++ b/building3d/geom/triangles.py
@@ -76,9 +76,8 @@ def is_point_on_same_side(
         # This point lies on the edge connecting p1 and p2
         return False
     else:
-        vtest /= len_vtest
-        vref /= len_vref
-        return bool(np.isclose(vtest, vref, atol=atol).all())
+        # Both vectors are perpendicular to the plane, so only their sense has to be compared
+        return bool(np.dot(vtest, vref) > 0)
 
 
 @njit
-- 
2.43.0


From 035a7666c1320c5862017ee1b3c969efb5650374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:30 +0000
Subject: [PATCH 11/20] fix: treat bounding boxes that meet up to rounding as
 overlapping

Faces of adjacent solids whose coordinates differ in the last bit were not found
to be facing or touching because the bounding boxes were compared exactly. Use
the geometry tolerance, as all other comparisons do.
---
 building3d/geom/bboxes.py           | 2 +-
 building3d/geom/polygon/touching.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/building3d/geom/bboxes.py b/building3d/geom/bboxes.py
index 55d6ecf..daa9ea4 100644
--- a/building3d/geom/bboxes.py
+++ b/building3d/geom/bboxes.py
@@ -49,7 +49,7 @@ def are_bboxes_overlapping(
         bool: True if the bounding boxes overlap, False otherwise.
     """
     # Check if max1 < min2 or min1 > max2
-    if (bbox1[1] < bbox2[0]).any() or (bbox1[0] > bbox2[1]).any():
+    if (bbox1[1] < bbox2[0] - GEOM_ATOL).any() or (bbox1[0] > bbox2[1] + GEOM_ATOL).any():
         return False
     else:
         return True
diff --git a/building3d/geom/polygon/touching.py b/building3d/geom/polygon/touching.py
index 419ddbb..0867ac0 100644
--- a/building3d/geom/polygon/touching.py
+++ b/building3d/geom/polygon/touching.py
@@ -1,6 +1,7 @@
 import numpy as np
 from numba import njit
 
+from building3d.config import GEOM_ATOL
 from building3d.geom.bboxes import bounding_box
 from building3d.geom.points import new_point_between_2_points
 from building3d.geom.points import points_equal
@@ -69,7 +70,7 @@ def are_bboxes_overlapping(bbox1, bbox2):
     Returns:
         bool: True if the bounding boxes overlap, False otherwise.
     """
-    if (bbox1[1] < bbox2[0]).any() or (bbox1[0] > bbox2[1]).any():
+    if (bbox1[1] < bbox2[0] - GEOM_ATOL).any() or (bbox1[0] > bbox2[1] + GEOM_ATOL).any():
         return False
     else:
         return True
-- 
2.43.0


From 335ad98eed63bbd6617714df4036df9bb5bb8485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:29 +0000
Subject: [PATCH 12/20] fix: charge a reflection to the surface of the room the
 ray is in

Adjacent solids of different zones have coincident surfaces. Both are equally far
from a ray, so rounding or set order decided which one was hit and whose
absorption was used. Choose the one whose normal points along the ray, i.e. the
surface of the solid the ray is inside.
---
 building3d/sim/rays/find_target.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/building3d/sim/rays/find_target.py b/building3d/sim/rays/find_target.py
index 4ea851a..4070724 100644
--- a/building3d/sim/rays/find_target.py
+++ b/building3d/sim/rays/find_target.py
@@ -68,7 +68,12 @@ def find_target_surface(
                 min_dist_index = pn
 
             # If it is the closest polygon so far -> remember it
-            if dist < target_candidates[min_dist_index]:
+            # If two polygons coincide (adjacent solids of different zones), the ray hits
+            # the one of the solid it is in, i.e. the one with the normal pointing forward
+            if np.abs(dist - target_candidates[min_dist_index]) < GEOM_ATOL:
+                if np.dot(direction, polygon_normal) > 0:
+                    min_dist_index = pn
+            elif dist < target_candidates[min_dist_index]:
                 min_dist_index = pn
 
     if min_dist_index < 0:
-- 
2.43.0


From 47abab195bcbec4db1e25ec3a110c55171f9578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:49 +0000
Subject: [PATCH 13/20] fix: match wildcard paths literally and from their
 beginning

A pattern was searched for anywhere in the full path, with dots meaning any
character. A leading wildcard lost all but its last digit (10.npy was read as 0),
and copies in subdirectories or files with a prefix (old_position_3.npy) were
taken for buffer files. Match the path relative to the parent directory.
---
 building3d/paths/wildcardpath.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/building3d/paths/wildcardpath.py b/building3d/paths/wildcardpath.py
index 2f8411f..a336ddf 100644
--- a/building3d/paths/wildcardpath.py
+++ b/building3d/paths/wildcardpath.py
@@ -56,8 +56,8 @@ class WildcardPath:
         regex = re.compile(self._regex)
 
         for f in Path(parent).glob("**/*"):
+            match = regex.match(str(f.relative_to(parent)))
             f = str(f)
-            match = regex.match(f)
             if match:
                 paths[f] = {}
                 for gr, val in match.groupdict().items():
@@ -216,7 +216,7 @@ class WildcardPath:
         Regex named groups are used, so that the wildcard values can be
         later retrieved (see `get_matching_paths_and_values()`).
         """
-        re_path = self.path
+        re_path = re.escape(self.path)
         start, stop = WildcardPath.wcard_sep
 
         for wname in self._wildcards:
@@ -225,7 +225,7 @@ class WildcardPath:
 
             for gr in groups:
                 re_path = re_path.replace(wcard, f"(?P{start}{gr}{stop}\\d+)", 1)
-        re_path = ".*" + re_path + "/*$"
+        re_path = re_path + "/*$"
         return re_path
 
     def _to_dict_with_namedtuple_keys(
-- 
2.43.0


From b85e272736b1ec8b83670c06e73c8a9f0067becf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:12 +0000
Subject: [PATCH 14/20] fix: do not take a buffer directory that cannot be
 examined for a missing one

---
 building3d/sim/rays/simulation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/building3d/sim/rays/simulation.py b/building3d/sim/rays/simulation.py
index 56dfae2..9575750 100644
--- a/building3d/sim/rays/simulation.py
+++ b/building3d/sim/rays/simulation.py
@@ -91,10 +91,9 @@ class Simulation:
         os.makedirs(self.project_dir, exist_ok=True)
         # Create buffer (state) directory, but raise error if it exists and is not empty
         # because that's a commmon source of errors when some states are overwritten
-        if os.path.exists(self.buffer_dir) and len(os.listdir(self.buffer_dir)) > 0:
+        os.makedirs(self.buffer_dir, exist_ok=True)
+        if len(os.listdir(self.buffer_dir)) > 0:
             raise RuntimeError(f"Buffer dir ({self.buffer_dir}) already exists and is non-empty!")
-        else:
-            os.makedirs(self.buffer_dir, exist_ok=True)
 
     @staticmethod
     def get_transparent_polygon_numbers(building):
-- 
2.43.0


From 23cd00f48bd207482f1f5f294679894176b2f94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:04 +0000
Subject: [PATCH 15/20] fix: saving pictures concurrently into a new directory
 could fail

The directory was created only after a separate check that it is missing, so of
several callers only the first one succeeded.
---
 building3d/display/plot_objects.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/building3d/display/plot_objects.py b/building3d/display/plot_objects.py
index 27a7418..b4bbc43 100644
--- a/building3d/display/plot_objects.py
+++ b/building3d/display/plot_objects.py
@@ -101,7 +101,6 @@ def plot_objects(objects: tuple, output_file=None, colors=()) -> None:
         logger.info(f"Image displayed")
     else:
         parent_dir = Path(output_file).parent
-        if not parent_dir.exists():
-            parent_dir.mkdir(parents=True)
+        parent_dir.mkdir(parents=True, exist_ok=True)
         pl.show(screenshot=output_file)
         logger.info(f"Image saved to {output_file}")
-- 
2.43.0


From 233edfcea30e4d140fc90cd0f4b6389cf7ec5c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:04 +0000
Subject: [PATCH 16/20] fix: trails in movies were coloured with energies of
 other rays

Trail points are ordered by ray, their energies were ordered by time step.
---
 building3d/sim/rays/movie_from_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/building3d/sim/rays/movie_from_buffer.py b/building3d/sim/rays/movie_from_buffer.py
index a107b42..bdc4c80 100644
--- a/building3d/sim/rays/movie_from_buffer.py
+++ b/building3d/sim/rays/movie_from_buffer.py
@@ -111,7 +111,7 @@ def make_movie_from_buffer(
             # Draw trailing lines
             line_varr, line_index = position_buffer_to_lines(position)
             line_mesh = pv.PolyData(line_varr, lines=line_index)
-            line_mesh["energy"] = energy.flatten()
+            line_mesh["energy"] = energy.T.flatten()
             line_mesh.set_active_scalars("energy")
             plotter.add_mesh(
                 line_mesh,
@@ -132,7 +132,7 @@ def make_movie_from_buffer(
             line_varr, line_index = position_buffer_to_lines(position)
             line_mesh.points = line_varr
             line_mesh.lines = line_index
-            line_mesh["energy"] = energy.flatten()
+            line_mesh["energy"] = energy.T.flatten()
 
             plotter.write_frame()
 
-- 
2.43.0


From bc3276a94fbb0dc44df994981884dd30f98cc74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:04 +0000
Subject: [PATCH 17/20] fix: times of the impulse response did not match the
 simulated steps

With n states the times were stretched by n / (n - 1).
---
 building3d/sim/rays/impulse_response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/sim/rays/impulse_response.py b/building3d/sim/rays/impulse_response.py
index b30e8b6..762790c 100644
--- a/building3d/sim/rays/impulse_response.py
+++ b/building3d/sim/rays/impulse_response.py
@@ -35,7 +35,7 @@ def impulse_response(hit_buf: FloatDataType, sim_cfg: SimulationConfig) -> pd.Da
     hit_inst /= sum_of_hits
 
     # Make time array
-    time_arr = np.linspace(0, num_steps * time_step, num_steps)
+    time_arr = np.arange(num_steps) * time_step
 
     # Convert to DataFrame (index: time, columns: receivers)
     ir = pd.DataFrame(index=pd.Index(time_arr, name="time"))
-- 
2.43.0


From bd823aa19f4c463bb77a3a181a07d6d32663c36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:50:11 +0000
Subject: [PATCH 18/20] fix: a reflection was charged to the neighbouring
 room's surface

Where coincident surfaces of adjacent rooms are divided differently, the
closest surface can be the outer side of the neighbouring room. The absorption
of the surface on the ray's own side is used now.
---
 building3d/sim/rays/find_target.py     | 45 ++++++++++++++++++++++++++
 building3d/sim/rays/simulation_loop.py | 12 ++++++-
 2 files changed, 56 insertions(+), 1 deletion(-)

diff --git a/building3d/sim/rays/find_target.py b/building3d/sim/rays/find_target.py
index 4070724..09fc862 100644
--- a/building3d/sim/rays/find_target.py
+++ b/building3d/sim/rays/find_target.py
@@ -2,6 +2,7 @@ from numba import njit
 import numpy as np
 
 from building3d.config import GEOM_ATOL
+from building3d.geom.polygon.ispointinside import is_point_inside
 from building3d.geom.polygon.ispointinside import is_point_inside_projection
 from building3d.geom.polygon.distance import distance_point_to_polygon
 from building3d.geom.types import IndexType
@@ -80,3 +81,47 @@ def find_target_surface(
         return -1
     else:
         return min_dist_index
+
+
+@njit
+def find_inner_surface(
+    pos: PointType,
+    direction: VectorType,
+    target: int,
+    poly_pts: list[PointType],
+    poly_tri: list[IndexType],
+    transparent_polygons: set[int],
+    atol: float = GEOM_ATOL,
+) -> int:
+    """Find the surface of the solid the ray is in, coinciding with `target` where the ray hits it.
+
+    Coincident surfaces of adjacent solids may be divided differently. The closest one can be
+    the outer side of the neighboring solid.
+
+    Args:
+        pos: The starting position of the ray.
+        direction: The direction vector of the ray.
+        target: The index of the target surface.
+        poly_pts: List of polygon vertices, where each element is an array defining a polygon.
+        poly_tri: List of polygon faces, corresponding to the poly_pts.
+        transparent_polygons: Set of indices for polygons to be considered transparent.
+
+    Returns:
+        int: The index of the surface or `target` if it is not hit from outside or there is no other.
+    """
+    vn = normal(poly_pts[target][-1], poly_pts[target][0], poly_pts[target][1])
+    dot = np.dot(direction, vn)
+    if dot > -atol:
+        return target
+
+    hit = pos + direction * np.dot(poly_pts[target][0] - pos, vn) / dot
+    for pn in range(len(poly_pts)):
+        if pn in transparent_polygons:
+            continue
+        other_vn = normal(poly_pts[pn][-1], poly_pts[pn][0], poly_pts[pn][1])
+        if np.dot(vn, other_vn) < atol - 1.0 and is_point_inside(
+            hit, poly_pts[pn], poly_tri[pn], atol=atol
+        ):
+            return pn
+
+    return target
diff --git a/building3d/sim/rays/simulation_loop.py b/building3d/sim/rays/simulation_loop.py
index fc9fd62..2d124b6 100644
--- a/building3d/sim/rays/simulation_loop.py
+++ b/building3d/sim/rays/simulation_loop.py
@@ -13,6 +13,7 @@ from building3d.geom.vectors import normal
 from building3d.io.arrayformat import get_polygon_points_and_faces
 
 from .find_nearby_polygons import find_nearby_polygons
+from .find_target import find_inner_surface
 from .find_target import find_target_surface
 from .jit_print import jit_print
 
@@ -192,7 +193,16 @@ def simulation_loop(
 
             while target_surfs[rn] >= 0 and dist < reflection_dist and energy[rn] > eps:
                 # Reflect from the target polygon
-                energy[rn] -= surf_absorption[target_surfs[rn]]
+                inner_surf = find_inner_surface(
+                    position[rn],
+                    velocity[rn],
+                    target_surfs[rn],
+                    poly_pts,
+                    poly_tri,
+                    transparent_polygons,
+                    atol=1e-3,
+                )
+                energy[rn] -= surf_absorption[inner_surf]
                 if energy[rn] <= eps:
                     energy[rn] = 0.0
                     break
-- 
2.43.0


From 9f9d57306caeb021366e452f1158b93725196c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:08:10 +0000
Subject: [PATCH 19/20] fix: a ray was mirrored at a surface hidden behind the
 one it hits

The target of a ray was the polygon with the lowest distance to its position.
Next to a room of another zone this could be a surface of that room which the
ray cannot reach. The target is now the first polygon along the ray.
Of coincident ones it is that of the ray's own room, however they are divided.
---
 building3d/sim/rays/find_target.py     | 60 +++++---------------------
 building3d/sim/rays/simulation_loop.py | 12 +-----
 2 files changed, 11 insertions(+), 61 deletions(-)

diff --git a/building3d/sim/rays/find_target.py b/building3d/sim/rays/find_target.py
index 09fc862..28a9a01 100644
--- a/building3d/sim/rays/find_target.py
+++ b/building3d/sim/rays/find_target.py
@@ -2,9 +2,7 @@ from numba import njit
 import numpy as np
 
 from building3d.config import GEOM_ATOL
-from building3d.geom.polygon.ispointinside import is_point_inside
 from building3d.geom.polygon.ispointinside import is_point_inside_projection
-from building3d.geom.polygon.distance import distance_point_to_polygon
 from building3d.geom.types import IndexType
 from building3d.geom.types import PointType
 from building3d.geom.types import VectorType
@@ -45,7 +43,7 @@ def find_target_surface(
         int: The index of the target surface (polygon) hit by the ray, or -1 if no surface is hit.
     """
     # Key -> polygon number
-    # Value -> polygon distance to ray's position (pos)
+    # Value -> distance from ray's position (pos) to the polygon along the ray
     target_candidates = {-1: np.inf}  # Initialize with dummy data for numba to know the types
     min_dist_index = -1
 
@@ -60,8 +58,14 @@ def find_target_surface(
             # the first vector is convex
             polygon_normal = normal(poly_pts[pn][-1], poly_pts[pn][0], poly_pts[pn][1])
 
-            # Calculate how far the ray is from this polygon
-            dist = distance_point_to_polygon(pos, poly_pts[pn], poly_tri[pn], polygon_normal)
+            # Calculate how far the ray must go to hit this polygon
+            # (the distance to the polygon could be lower for one hidden behind another)
+            dot = np.dot(direction, polygon_normal)
+            if np.abs(dot) < atol:
+                dist = 0.0  # The ray goes along the surface
+            else:
+                dist = np.dot(poly_pts[pn][0] - pos, polygon_normal) / dot
+                dist *= np.linalg.norm(direction)
             target_candidates[pn] = dist
 
             if min_dist_index < 0:
@@ -72,7 +76,7 @@ def find_target_surface(
             # If two polygons coincide (adjacent solids of different zones), the ray hits
             # the one of the solid it is in, i.e. the one with the normal pointing forward
             if np.abs(dist - target_candidates[min_dist_index]) < GEOM_ATOL:
-                if np.dot(direction, polygon_normal) > 0:
+                if dot > 0:
                     min_dist_index = pn
             elif dist < target_candidates[min_dist_index]:
                 min_dist_index = pn
@@ -81,47 +85,3 @@ def find_target_surface(
         return -1
     else:
         return min_dist_index
-
-
-@njit
-def find_inner_surface(
-    pos: PointType,
-    direction: VectorType,
-    target: int,
-    poly_pts: list[PointType],
-    poly_tri: list[IndexType],
-    transparent_polygons: set[int],
-    atol: float = GEOM_ATOL,
-) -> int:
-    """Find the surface of the solid the ray is in, coinciding with `target` where the ray hits it.
-
-    Coincident surfaces of adjacent solids may be divided differently. The closest one can be
-    the outer side of the neighboring solid.
-
-    Args:
-        pos: The starting position of the ray.
-        direction: The direction vector of the ray.
-        target: The index of the target surface.
-        poly_pts: List of polygon vertices, where each element is an array defining a polygon.
-        poly_tri: List of polygon faces, corresponding to the poly_pts.
-        transparent_polygons: Set of indices for polygons to be considered transparent.
-
-    Returns:
-        int: The index of the surface or `target` if it is not hit from outside or there is no other.
-    """
-    vn = normal(poly_pts[target][-1], poly_pts[target][0], poly_pts[target][1])
-    dot = np.dot(direction, vn)
-    if dot > -atol:
-        return target
-
-    hit = pos + direction * np.dot(poly_pts[target][0] - pos, vn) / dot
-    for pn in range(len(poly_pts)):
-        if pn in transparent_polygons:
-            continue
-        other_vn = normal(poly_pts[pn][-1], poly_pts[pn][0], poly_pts[pn][1])
-        if np.dot(vn, other_vn) < atol - 1.0 and is_point_inside(
-            hit, poly_pts[pn], poly_tri[pn], atol=atol
-        ):
-            return pn
-
-    return target
diff --git a/building3d/sim/rays/simulation_loop.py b/building3d/sim/rays/simulation_loop.py
index 2d124b6..fc9fd62 100644
--- a/building3d/sim/rays/simulation_loop.py
+++ b/building3d/sim/rays/simulation_loop.py
@@ -13,7 +13,6 @@ from building3d.geom.vectors import normal
 from building3d.io.arrayformat import get_polygon_points_and_faces
 
 from .find_nearby_polygons import find_nearby_polygons
-from .find_target import find_inner_surface
 from .find_target import find_target_surface
 from .jit_print import jit_print
 
@@ -193,16 +192,7 @@ def simulation_loop(
 
             while target_surfs[rn] >= 0 and dist < reflection_dist and energy[rn] > eps:
                 # Reflect from the target polygon
-                inner_surf = find_inner_surface(
-                    position[rn],
-                    velocity[rn],
-                    target_surfs[rn],
-                    poly_pts,
-                    poly_tri,
-                    transparent_polygons,
-                    atol=1e-3,
-                )
-                energy[rn] -= surf_absorption[inner_surf]
+                energy[rn] -= surf_absorption[target_surfs[rn]]
                 if energy[rn] <= eps:
                     energy[rn] = 0.0
                     break
-- 
2.43.0


From cc0b3ee079539bb1d2eca79c714b23e4cbfbb591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:50:24 +0000
Subject: [PATCH 20/20] fix: a surface hidden behind a farther one could still
 reflect a ray

Only polygons near the ray are searched for its target. A large or not convex
one can be near in one part, but hit in another, behind a surface which is not
near. Before a reflection the target is now searched for among all polygons.
---
 building3d/sim/rays/simulation_loop.py | 33 ++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/building3d/sim/rays/simulation_loop.py b/building3d/sim/rays/simulation_loop.py
index fc9fd62..aecfea0 100644
--- a/building3d/sim/rays/simulation_loop.py
+++ b/building3d/sim/rays/simulation_loop.py
@@ -126,6 +126,7 @@ def simulation_loop(
     # If the index of the target is -1, it means that the target surface is unknown.
     # Target surface may be unknown when it is far away, because we only look at nearby polygons.
     target_surfs = np.full(num_rays, -1, dtype=np.int32)
+    all_polygons = set(range(len(poly_pts)))
 
     # Move rays
     jit_print(verbose, "Entering the simulation loop")
@@ -190,6 +191,22 @@ def simulation_loop(
                 vn = np.zeros(3, dtype=FLOAT)
                 dist = np.inf
 
+            if dist < reflection_dist:
+                # Near in one part, but hit in another, the surface can be hidden behind a farther one
+                target_surfs[rn] = find_target_surface(
+                    position[rn],
+                    velocity[rn],
+                    poly_pts,
+                    poly_tri,
+                    transparent_polygons,
+                    all_polygons,
+                    atol=1e-3,
+                )
+                pts = poly_pts[target_surfs[rn]]
+                tri = poly_tri[target_surfs[rn]]
+                vn = normal(pts[-1], pts[0], pts[1])
+                dist = distance_point_to_polygon(position[rn], pts, tri, vn)
+
             while target_surfs[rn] >= 0 and dist < reflection_dist and energy[rn] > eps:
                 # Reflect from the target polygon
                 energy[rn] -= surf_absorption[target_surfs[rn]]
@@ -229,6 +246,22 @@ def simulation_loop(
                     vn = np.zeros(3, dtype=FLOAT)
                     dist = np.inf
 
+                if dist < reflection_dist:
+                    # Near in one part, but hit in another, the surface can be hidden behind a farther one
+                    target_surfs[rn] = find_target_surface(
+                        position[rn],
+                        velocity[rn],
+                        poly_pts,
+                        poly_tri,
+                        transparent_polygons,
+                        all_polygons,
+                        atol=1e-3,
+                    )
+                    pts = poly_pts[target_surfs[rn]]
+                    tri = poly_tri[target_surfs[rn]]
+                    vn = normal(pts[-1], pts[0], pts[1])
+                    dist = distance_point_to_polygon(position[rn], pts, tri, vn)
+
             if energy[rn] > eps and dist > reflection_dist:
                 position[rn] += delta_pos[rn]
             else:
-- 
2.43.0

