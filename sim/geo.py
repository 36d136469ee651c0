"""Histories of edits of buildings, shared by the checks of remembered answers."""
import gc

import numpy as np

from . import model


def shape(rng, max_solids=3):
    """Building specs: the general ones and pairs of boxes in all kinds of contact."""
    if rng.random() < 0.6:
        return model.gen_building(rng, None, max_solids)
    a = [rng.choice([1.0, 1.5, 2.0]) for _ in range(3)]
    b = [rng.choice([0.5, 1.0, 1.5]) for _ in range(3)]
    at = [rng.choice([-0.5, 0.0, 0.25, 0.5, 1.0, -1.0]) for _ in range(3)]
    ax = rng.randrange(3)
    at[ax] = a[ax]
    s0 = dict(kind="box", size=a, at=[0.0, 0.0, 0.0], name="s0")
    s1 = dict(kind="box", size=b, at=at, name="s1")
    if rng.random() < 0.5:
        zones = [dict(name="z0", solids=[s0, s1])]
    else:
        zones = [dict(name="z0", solids=[s0]), dict(name="z1", solids=[dict(s1, name=rng.choice(["s0", "s1"]))])]
    return dict(name="b", family="contact", zones=zones)


EDITS = ("shift", "shift", "restore", "add", "add", "addzone", "split", "rename", "mirror")


class Slot:
    """A building together with what is needed to edit it."""

    def __init__(self, spec):
        self.spec = spec
        self.bdg = model.build(spec)
        self.orig = {path[1:]: p.pts.copy() for path, p in model.polygons(self.bdg)}
        self.added = 0

    def walls(self):
        return [(z, s, w) for z in self.bdg.zones.values() for s in z.solids.values() for w in s.walls.values()]

    def edit(self, kind, k):
        """Change the building through its public operations.  Returns False if nothing was done."""
        from building3d.geom.polygon import Polygon
        from building3d.geom.solid.box import box
        from building3d.geom.wall import Wall
        from building3d.geom.zone import Zone

        ws = self.walls()
        z, s, w = ws[k % len(ws)]
        if kind in ("shift", "mirror"):
            # prefer walls that take part in a contact
            fs = model.faces(self.bdg)
            con = sorted({f.path[1:4] for i, j in model.facing_pairs(fs) for f in (fs[i], fs[j])})
            if con and k % 4:
                zn, sn, wn = con[k % len(con)]
                z = self.bdg.zones[zn]
                s = z.solids[sn]
                w = s.walls[wn]
            if kind == "shift":
                d = (0.25, -0.25, 0.5, 0.02, -0.03)[k % 5]
                polys = [Polygon(p.pts + d * p.vn, name=p.name) for p in w.polygons.values()]
            else:
                polys = [Polygon(p.pts[::-1].copy(), name=p.name) for p in w.polygons.values()]
            s.replace_wall(w.name, Wall(polys, w.name))
            return True
        if kind == "restore":
            for z, s, w in ws:
                want = {p: pts for (zn, sn, wn, p), pts in self.orig.items()
                        if (zn, sn, wn) == (z.name, s.name, w.name)}
                have = {n: p.pts for n, p in w.polygons.items()}
                if want and (set(want) != set(have) or any(not np.array_equal(want[n], have[n]) for n in want)):
                    s.replace_wall(w.name, Wall([Polygon(pts.copy(), name=n) for n, pts in want.items()], w.name))
                    return True
            return False
        if kind in ("add", "addzone"):
            boxes = [x for _, x in model.all_solids(self.spec) if x["kind"] == "box"]
            if not boxes or len(ws) > 20:
                return False
            b = boxes[k % len(boxes)]
            d = k % 3
            at = list(b["at"])
            at[d] = at[d] + b["size"][d] if k % 2 else at[d] - b["size"][d]
            free = model.inside_solid
            mid = np.array([[a + q / 2 for a, q in zip(at, b["size"])]])
            if any(free(x, mid)[0] for _, x in model.all_solids(self.spec)):
                return False
            if any(np.allclose(at, a) for a in getattr(self, "extra", [])):
                return False
            self.added += 1
            self.extra = getattr(self, "extra", []) + [at]
            sld = box(*b["size"], tuple(at), f"add{self.added}")
            if kind == "add":
                z.add_solid(sld)
            else:
                self.bdg.add_zone(Zone([sld], f"zadd{self.added}"))
            return True
        if kind == "split":
            for p in list(w.polygons.values()):
                if len(p.pts) == 4:
                    a, b, c, d = p.pts
                    m, n = (a + b) / 2, (c + d) / 2
                    w.replace_polygon(p.name, Polygon(np.array([a, m, n, d]), name=p.name + "-l"),
                                      Polygon(np.array([m, b, c, n]), name=p.name + "-r"))
                    return True
            return False
        if kind == "rename":
            self.bdg.name = f"b{k % 3}"
            return True
        raise ValueError(kind)


def collect():
    gc.collect()


def relation_truth(bdg):
    """{relation: set of unordered pairs of surface paths}, computed independently."""
    fs = model.faces(bdg)
    ps = [p for _, p in model.polygons(bdg)]
    conv = [model.is_convex(f) for f in fs]
    out = {k: set() for k in model.RELATIONS}
    lo = [f.pts.min(axis=0) - 1e-6 for f in fs]
    hi = [f.pts.max(axis=0) + 1e-6 for f in fs]
    paths = ["/".join(f.path) for f in fs]
    for i in range(len(fs)):
        for j in range(i + 1, len(fs)):
            if (hi[i] < lo[j]).any() or (hi[j] < lo[i]).any():
                continue
            pair = frozenset((paths[i], paths[j]))
            if model.facing(fs[i], fs[j]):
                out["facing"].add(pair)
            if conv[i] and conv[j]:
                if model.overlapping(fs[i], fs[j]):
                    out["overlapping"].add(pair)
                if model.touching(fs[i], fs[j]):
                    out["touching"].add(pair)
            else:
                a, b = ps[i], ps[j]
                if a.is_crossing_polygon(b) or b.is_crossing_polygon(a):
                    out["overlapping"].add(pair)
                if a.is_touching_polygon(b) or b.is_touching_polygon(a):
                    out["touching"].add(pair)
    out["all"] = set(paths)
    return out


CUT = {"polygon": 5, "wall": 4, "solid": 3, "zone": 2}


def expected_graph(truth, level, relations):
    """{path: set of paths} at a level."""
    n = CUT[level]

    def cut(p):
        return "/".join(p.split("/")[:n])

    g = {cut(p): set() for p in truth["all"]}
    for rel in relations:
        for pair in truth[rel]:
            a, b = pair
            a, b = cut(a), cut(b)
            if a != b:
                g[a].add(b)
                g[b].add(a)
    return g
