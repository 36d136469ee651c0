"""Buildings for the checks of model files, and what must be read back from each format."""
import random

import numpy as np

from . import model
from .runner import Check

NAMES = ["a", "A", "wall 1", "ściana", "壁", "0", "00", "-1", "1e5", "name.with.dots", "back\\slash",
         "quo\"te", "apo'strophe", "tab\there", "zones", "pts", "tri", "name", "uid", "__x__", " lead", "trail ",
         "é", "é", "\U0001f600", "null", "true", "long" * 40, "{}", "[0]", "a,b;c:d", "#", "%s",
         "new\nline", "solid", "endsolid x", "facet", "<n>", "*", ".."]
FORMATS = ("b3d", "bim", "stl")


def pick_names(r, n, odd):
    if odd:
        out = r.sample(NAMES, min(n, len(NAMES)))
        return out + [f"n{i}" for i in range(n - len(out))]
    return [f"n{i}" for i in range(n)]


def build_named(spec, nseed, odd=True):
    """The building of a spec with its polygons regrouped into walls and everything renamed."""
    from building3d.geom.building import Building
    from building3d.geom.polygon import Polygon
    from building3d.geom.solid import Solid
    from building3d.geom.wall import Wall
    from building3d.geom.zone import Zone

    r = random.Random(nseed)
    zones = []
    for zname, z in zip(pick_names(r, len(spec["zones"]), odd), spec["zones"]):
        solids = []
        for sname, s in zip(pick_names(r, len(z["solids"]), odd), z["solids"]):
            polys = [p for w in model.build_solid(s).walls.values() for p in w.polygons.values()]
            if r.random() < 0.5:
                r.shuffle(polys)
            groups = []
            while polys:
                k = r.choice([1, 1, 2, 3])
                groups.append(polys[:k])
                polys = polys[k:]
            walls = []
            for wname, g in zip(pick_names(r, len(groups), odd), groups):
                ps = []
                for pname, p in zip(pick_names(r, len(g), odd), g):
                    kw = {}
                    if r.random() < 0.3 and len(p.pts) == 4:
                        # the other way to divide a rectangle
                        kw["tri"] = np.array([[1, 2, 3], [1, 3, 0]], dtype=p.tri.dtype)
                    if r.random() < 0.2:
                        kw["uid"] = f"uid-{r.randrange(10 ** 9)}"
                    ps.append(Polygon(p.pts.copy(), name=pname, **kw))
                walls.append(Wall(ps, wname))
            solids.append(Solid(walls, sname))
        zones.append(Zone(solids, zname))
    return Building(zones, pick_names(r, 1, odd)[0])


def triangles(polys):
    """Triangles of polygons as a sorted list; each begins with its smallest vertex."""
    out = []
    for p in polys:
        for t in p.tri:
            v = [tuple(float(x) for x in p.pts[i]) for i in t]
            k = v.index(min(v))
            out.append(tuple(v[k:] + v[:k]))
    return sorted(out)


def content(bdg, fmt):
    """What the format must keep of a building, as plain data."""
    if fmt == "stl":
        return [triangles(p for w in s.walls.values() for p in w.polygons.values())
                for z in bdg.zones.values() for s in z.solids.values()]

    def leaf(p):
        return (p.name, p.uid, p.pts.tolist(), p.tri.tolist(), [round(float(x), 9) + 0.0 for x in p.vn])

    if fmt == "b3d":
        return (bdg.name, [(k, z.name, [(k2, s.name, [(k3, w.name, [(k4,) + leaf(p) for k4, p in w.polygons.items()])
                                                       for k3, w in s.walls.items()])
                                        for k2, s in z.solids.items()])
                           for k, z in bdg.zones.items()])
    return (bdg.name, bdg.uid, sorted(
        (z.name, z.uid, s.name, s.uid, w.name, w.uid) + leaf(p)
        for z in bdg.zones.values() for s in z.solids.values() for w in s.walls.values()
        for p in w.polygons.values()))


def write(fmt, path, bdg, parents=True):
    from building3d.io.b3d import write_b3d
    from building3d.io.dotbim import write_dotbim
    from building3d.io.stl import write_stl

    {"b3d": write_b3d, "bim": write_dotbim, "stl": write_stl}[fmt](path, bdg, parents)


def read(fmt, path):
    from building3d.io.b3d import read_b3d
    from building3d.io.dotbim import read_dotbim
    from building3d.io.stl import read_stl

    return {"b3d": read_b3d, "bim": read_dotbim, "stl": read_stl}[fmt](path)


def first_difference(a, b, where="building"):
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return f"{where}: {str(a)[:80]!r} instead of {str(b)[:80]!r}"
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{where}: {len(a)} items instead of {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_difference(x, y, f"{where}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, float):
        return None if abs(a - b) <= 1e-12 * max(1.0, abs(b)) else f"{where}: {a} instead of {b}"
    return None if a == b else f"{where}: {str(a)[:80]!r} instead of {str(b)[:80]!r}"


class IoCheck(Check):
    modules = ("building3d.io.b3d", "building3d.io.dotbim", "building3d.io.stl", "building3d.geom.solid.box",
               "building3d.geom.solid.floor_plan", "building3d.geom.building")
    libs = ("dotbimpy", "jsonpickle")
    mode = "off"
    real_components = ("building3d: building construction, writers and readers of the three formats; json, "
                       "dotbimpy and jsonpickle")
    stub_components = ("disk calls (faults injected, real files in a scratch directory), uuid, clock and "
                       "generators (seeded), default text encoding")


FAMS = ["box", "row", "cells", "plan", "plan", "stack"]


def gen_spec(rng):
    s = model.gen_building(rng, FAMS, 3)
    return dict(spec=s, nseed=rng.randrange(1 << 30), odd=rng.random() < 0.7)
