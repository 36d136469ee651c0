"""Generated buildings, and geometry computed independently of the code under test."""
import math

import numpy as np

ADDED = {}


# ------------------------------------------------------------------ specs


def r3(rng, lo, hi):
    return round(rng.uniform(lo, hi), 3)


PLANS = {
    "tri": [(0, 0), (2, 0), (0.7, 1.8)],
    "rect": [(0, 0), (2.2, 0), (2.2, 1.4), (0, 1.4)],
    "penta": [(0, 0), (1.6, -0.3), (2.2, 1.0), (1.0, 2.1), (-0.2, 1.2)],
    "L": [(0, 0), (2.4, 0), (2.4, 1.1), (1.2, 1.1), (1.2, 2.2), (0, 2.2)],
    "U": [(0, 0), (3, 0), (3, 2), (2, 2), (2, 1), (1, 1), (1, 2), (0, 2)],
    "comb": [(0, 0), (3.5, 0), (3.5, 2), (2.8, 2), (2.8, 0.7), (2.1, 0.7), (2.1, 1.7), (1.4, 1.7), (1.4, 0.7), (0.7, 0.7),
             (0.7, 2), (0, 2)],
    "round": [(1.1 * math.cos(a * math.pi / 7), 1.1 * math.sin(a * math.pi / 7)) for a in range(14)],
    "T": [(0, 0), (3, 0), (3, 1), (2, 1), (2, 2.2), (1, 2.2), (1, 1), (0, 1)],
}


def gen_building(rng, families=None, max_solids=4, names="plain"):
    """A random closed building; returns its spec (plain data)."""
    fam = rng.choice(families or ["box", "row", "row", "cells", "cells", "plan", "plan", "stack"])
    at = [r3(rng, -3, 3) if rng.random() < 0.7 else float(rng.randrange(-2, 3)) for _ in range(3)]
    if rng.random() < 0.15:
        at = [0.0, 0.0, 0.0]
    solids = []
    if fam == "box":
        solids.append(dict(kind="box", size=[r3(rng, 0.8, 2.5) for _ in range(3)], at=at))
    elif fam == "row":
        n = rng.randint(2, min(3, max_solids))
        ax = rng.randrange(3)
        size = [r3(rng, 0.8, 1.8) for _ in range(3)]
        p = list(at)
        for _ in range(n):
            s = list(size)
            s[ax] = rng.choice([1.0, 0.8, 1.5, 1.25])
            solids.append(dict(kind="box", size=s, at=list(p)))
            p[ax] = p[ax] + s[ax]
    elif fam == "cells":
        size = [rng.choice([1.0, 1.25, 0.8, 1.5]) for _ in range(3)]
        cells = [(0, 0, 0)]
        n = rng.randint(2, max_solids)
        while len(cells) < n:
            c = rng.choice(cells)
            d = rng.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0)])
            q = tuple(a + b for a, b in zip(c, d))
            if q not in cells:
                cells.append(q)
        at = [float(round(a)) for a in at]
        for c in cells:
            solids.append(dict(kind="box", size=list(size),
                               at=[a + k * s for a, k, s in zip(at, c, size)]))
    elif fam in ("plan", "stack"):
        shape = rng.choice(list(PLANS))
        k = rng.choice([1.0, 1.0, 1.3])
        pts = [[round(x * k, 6), round(y * k, 6)] for x, y in PLANS[shape]]
        if rng.random() < 0.3:
            pts = pts[::-1]
        rot = rng.choice([0.0, 0.0, r3(rng, -3, 3), math.pi / 2, math.pi / 4])
        hgt = rng.choice([1.0, 1.2, 0.9])
        solids.append(dict(kind="plan", pts=pts, h=hgt, at=at, rot=rot))
        if fam == "stack":
            solids.append(dict(kind="plan", pts=pts, h=rng.choice([1.0, 0.9]),
                               at=[at[0], at[1], at[2] + hgt], rot=rot))
    # zones
    nz = 1
    if len(solids) > 1 and rng.random() < 0.45:
        nz = rng.randint(1, min(3, len(solids)))
    zones = [dict(name=f"z{i}", solids=[]) for i in range(nz)]
    for i, s in enumerate(solids):
        s["name"] = f"s{i}"
        z = i if i < nz else rng.randrange(nz)
        zones[z]["solids"].append(s)
    spec = dict(name="b", family=fam, zones=zones)
    if rng.random() < 0.4:
        rename(rng, spec)
    return spec


CONTACTS = ("exact", "slide1", "slide1", "slide2", "slide2", "corner", "corner", "edge", "strip", "inner", "small")


def contact(rng, a, kinds=CONTACTS):
    """Size and position of a second box in contact with a box of size a at the origin."""
    k = rng.choice(kinds)
    ax = rng.randrange(3)
    u, v = [i for i in range(3) if i != ax]
    b, at = list(a), [0.0, 0.0, 0.0]
    at[ax] = a[ax] if rng.random() < 0.7 else None
    b[ax] = rng.choice([0.5, 1.0, 0.8])
    if k in ("slide1", "slide2"):
        at[u] = rng.choice([-0.5, 0.25, 0.5, 0.3, -0.3])
    if k == "slide2":
        at[v] = rng.choice([-0.5, 0.25, 0.5, 0.3])
    if k == "small":
        at[u] = rng.choice([a[u] - 0.1, 0.2 - b[u], a[u] - 0.3])
        at[v] = rng.choice([0.0, a[v] - 0.2, 0.15 - b[v], 0.5])
    if k in ("corner", "edge", "inner"):
        b[u], b[v] = a[u] * 0.5, a[v] * 0.5
    if k == "corner":
        at[u] = rng.choice([0.0, a[u] - b[u]])
        at[v] = rng.choice([0.0, a[v] - b[v]])
    if k == "edge":
        at[u] = a[u] * 0.25
        at[v] = rng.choice([0.0, a[v] - b[v]])
    if k == "inner":
        at[u], at[v] = a[u] * 0.25, a[v] * 0.25
    if k == "strip":
        b[u] = a[u] * 0.5
        at[u] = rng.choice([0.0, 0.25 * a[u], a[u] - b[u]])
    if at[ax] is None:
        at[ax] = -b[ax]
    return k, b, at


def gen_contact(rng):
    """Two boxes of different size or place that share part of a wall, perhaps stitched."""
    a = [rng.choice([1.0, 1.5, 2.0, 1.25]) for _ in range(3)]
    kind, b, at = contact(rng, a, ("slide1", "slide1", "slide2", "slide2", "corner", "small"))
    off = [rng.choice([0.0, 1.0, -2.5, 0.1]) for _ in range(3)]
    s0 = dict(kind="box", size=a, at=off, name="s0")
    s1 = dict(kind="box", size=b, at=[x + y for x, y in zip(off, at)], name="s1")
    zones = [dict(name="z0", solids=[s0, s1])]
    if rng.random() < 0.3:
        zones = [dict(name="z0", solids=[s0]), dict(name="z1", solids=[s1])]
    return dict(name="b", family="contact", zones=zones, stitch=rng.random() < 0.75)


def gen_wedge(rng):
    """A triangular room with one sharp corner; returns its spec and a point in that corner's edge."""
    a = math.radians(rng.uniform(12, 65))
    n = rng.uniform(1.5, 2.5)
    at = [r3(rng, -3, 3) for _ in range(3)]
    rot = rng.choice([0.0, math.pi / 2, r3(rng, -3, 3)])
    pts = [[0.0, 0.0], [round(n, 6), 0.0], [round(n * math.cos(a), 6), round(n * math.sin(a), 6)]]
    k = rng.randrange(3)
    s = dict(kind="plan", pts=pts[k:] + pts[:k], h=rng.choice([1.0, 0.8]), at=at, rot=rot, name="s0")
    tip = [at[0], at[1], at[2] + s["h"] * rng.uniform(0.1, 0.9)]
    return dict(name="b", family="wedge", zones=[dict(name="z0", solids=[s])]), tip


# names that begin with each other, occur at several levels or are awkward
NAMES = [["s", "s1", "s10", "s101", "s11", "s0"], ["1", "10", "0", "01", "100", "2"],
         ["wall_0", "wall_1", "wall", "poly_0", "floor", "ceiling"], ["b", "z", "b1", "B", "bb", "s"],
         ["a b", "a", " a", "a ", "a-b", "ab "]]


def rename(rng, spec):
    """Give other names: prefixes of each other, or the same ones in several zones."""
    ns = rng.choice(NAMES)
    if rng.random() < 0.6:
        for z, n in zip(spec["zones"], rng.sample(ns, len(spec["zones"]))):
            z["name"] = n
    if rng.random() < 0.7:
        for z in spec["zones"]:
            pool = ns if rng.random() < 0.4 else rng.sample(ns, len(ns))
            for s, n in zip(z["solids"], pool):
                s["name"] = n
    if rng.random() < 0.3:
        spec["name"] = rng.choice(ns)


def build_solid(s):
    from building3d.geom.solid.box import box
    from building3d.geom.solid.floor_plan import floor_plan

    if s["kind"] == "box":
        return box(*s["size"], tuple(s["at"]), s["name"])
    return floor_plan([tuple(p) for p in s["pts"]], s["h"], translate=tuple(s["at"]),
                      rot_angle=s["rot"], name=s["name"])


def build(spec):
    from building3d.geom.building import Building
    from building3d.geom.zone import Zone

    bdg = Building([Zone([build_solid(s) for s in z["solids"]], z["name"])
                    for z in spec["zones"]], spec["name"])
    for pick, frac, both in spec.get("splits", ()):
        split(bdg, pick, frac, both)
    if spec.get("stitch"):
        bdg.stitch_solids()
    return bdg


def gen_splits(rng):
    """Which rectangles are made of two surfaces, where they are divided, and whether the surface behind is, too."""
    return [[rng.randrange(1 << 16), rng.choice([0.5, 0.3, r3(rng, 0.1, 0.9)]), rng.random() < 0.6]
            for _ in range(rng.choice([1, 2, 4]))]


def split(bdg, pick, frac, both):
    """Divide a rectangle into two surfaces of the same wall."""
    from building3d.geom.polygon import Polygon

    ps = [(path, p) for path, p in polygons(bdg) if len(p.pts) == 4]
    if not ps:
        return
    path, p = ps[pick % len(ps)]
    todo = [(path, p)]
    if both:
        me = Face(path, p.pts)
        todo += [(q, x) for q, x in ps if q[:3] != path[:3] and facing_pairs([me, Face(q, x.pts)])]
    k = pick % 2
    a, b, c, d = [np.array(p.pts[(i + k) % 4]) for i in range(4)]
    m1, m2 = a + (b - a) * frac, d + (c - d) * frac
    for (_, zn, sn, wn, pn), x in todo:
        pts = [np.array(t) for t in x.pts]
        for i in range(4):
            e = [(pts[(i + j) % 4], pts[(i + j + 1) % 4]) for j in range(4)]
            on = [(m, n) for m, n in ((m1, m2), (m2, m1)) if on_segment(m, *e[0]) and on_segment(n, *e[2])]
            if on:
                m, n = on[0]
                one = Polygon(np.array([e[0][0], m, n, e[3][0]]), name=pn + "-a")
                two = Polygon(np.array([m, e[0][1], e[2][0], n]), name=pn + "-b")
                bdg.zones[zn].solids[sn].walls[wn].replace_polygon(pn, one, two)
                break


def on_segment(p, a, b):
    return abs(np.linalg.norm(p - a) + np.linalg.norm(p - b) - np.linalg.norm(b - a)) < 1e-9


def all_solids(spec):
    return [(z["name"], s) for z in spec["zones"] for s in z["solids"]]


def poly2d_inside(q, poly, margin=0.0):
    """q: (N, 2); poly: (M, 2) simple polygon.  Even-odd test; with margin, at least that far inside."""
    x, y = q[:, 0], q[:, 1]
    ins = np.zeros(len(q), dtype=bool)
    m = len(poly)
    for i in range(m):
        x0, y0 = poly[i]
        x1, y1 = poly[(i + 1) % m]
        if y0 == y1:
            continue
        c = (y0 > y) != (y1 > y)
        xi = x0 + (y - y0) * (x1 - x0) / (y1 - y0)
        ins ^= c & (x < xi)
    if margin:
        d = edges2d_dist(q, poly)
        if margin > 0:
            ins = ins & (d > margin)
        else:
            ins = ins | (d < -margin)
    return ins


def edges2d_dist(q, poly):
    best = np.full(len(q), np.inf)
    m = len(poly)
    for i in range(m):
        a, b = poly[i], poly[(i + 1) % m]
        ab = b - a
        t = np.clip(((q - a) @ ab) / (ab @ ab), 0.0, 1.0)
        d = np.linalg.norm(q - (a + t[:, None] * ab), axis=1)
        best = np.minimum(best, d)
    return best


def inside_solid(s, p, margin=0.0):
    """p: (N, 3).  margin > 0: at least that far inside; < 0: at most that far outside."""
    if s["kind"] == "box":
        lo = np.array(s["at"], float)
        hi = lo + np.array(s["size"], float)
        return ((p > lo + margin) & (p < hi - margin)).all(axis=1)
    q = p - np.array(s["at"], float)
    c, sn = math.cos(-s["rot"]), math.sin(-s["rot"])
    xy = np.stack([q[:, 0] * c - q[:, 1] * sn, q[:, 0] * sn + q[:, 1] * c], axis=1)
    ok = (q[:, 2] > margin) & (q[:, 2] < s["h"] - margin)
    return ok & poly2d_inside(xy, np.array(s["pts"], float), margin)


def solid_bounds(s):
    if s["kind"] == "box":
        lo = np.array(s["at"], float)
        return lo, lo + np.array(s["size"], float)
    pts = np.array(s["pts"], float)
    c, sn = math.cos(s["rot"]), math.sin(s["rot"])
    xy = np.stack([pts[:, 0] * c - pts[:, 1] * sn, pts[:, 0] * sn + pts[:, 1] * c], axis=1)
    lo = np.array([*xy.min(axis=0), 0.0]) + s["at"]
    hi = np.array([*xy.max(axis=0), s["h"]]) + s["at"]
    return lo, hi


def point_in(rng, s, margin):
    lo, hi = solid_bounds(s)
    for _ in range(1000):
        p = np.array([[rng.uniform(a, b) for a, b in zip(lo, hi)]])
        if inside_solid(s, p, margin)[0]:
            return [float(x) for x in p[0]]
    raise RuntimeError("no interior point found")


# ------------------------------------------------------------------ surfaces of a building object


class Face:
    """One polygon: plane, outline in the plane, place in the building."""

    def __init__(self, path, pts):
        self.path = path
        self.pts = np.array(pts, float)
        n = np.zeros(3)
        m = len(self.pts)
        for i in range(m):
            n += np.cross(self.pts[i], self.pts[(i + 1) % m])
        self.area = float(np.linalg.norm(n) / 2)
        self.n = n / np.linalg.norm(n)
        e = self.pts[1] - self.pts[0]
        self.u = e / np.linalg.norm(e)
        self.v = np.cross(self.n, self.u)
        self.o = self.pts[0]
        self.flat = np.stack([(self.pts - self.o) @ self.u, (self.pts - self.o) @ self.v], axis=1)

    def height(self, p):
        return (p - self.o) @ self.n

    def to2d(self, p):
        d = p - self.o
        return np.stack([d @ self.u, d @ self.v], axis=1)

    def dist(self, p):
        h = self.height(p)
        q = self.to2d(p)
        ins = poly2d_inside(q, self.flat)
        e = edges2d_dist(q, self.flat)
        return np.where(ins, np.abs(h), np.sqrt(h * h + e * e))

    def crossed(self, a, b, tol=1e-7):
        """Which of the segments a->b pass through the face (clear of its plane and outline)."""
        ha, hb = self.height(a), self.height(b)
        x = (np.abs(ha) > tol) & (np.abs(hb) > tol) & ((ha > 0) != (hb > 0))
        out = np.zeros(len(a), dtype=bool)
        if x.any():
            t = ha[x] / (ha[x] - hb[x])
            pt = a[x] + t[:, None] * (b[x] - a[x])
            out[x] = poly2d_inside(self.to2d(pt), self.flat, margin=1e-6)
        return out


def polygons(bdg):
    for zn, z in bdg.zones.items():
        for sn, s in z.solids.items():
            for wn, w in s.walls.items():
                for pn, p in w.polygons.items():
                    yield (bdg.name, zn, sn, wn, pn), p


def faces(bdg):
    return [Face(path, p.pts) for path, p in polygons(bdg)]


def same_outline(a, b, tol=1e-9):
    if len(a.pts) != len(b.pts):
        return False
    used = set()
    for p in a.pts:
        for j, q in enumerate(b.pts):
            if j not in used and np.abs(p - q).max() < tol:
                used.add(j)
                break
        else:
            return False
    return True


def facing_pairs(fs):
    """Pairs of faces with the same outline and opposite orientation."""
    out = []
    for i in range(len(fs)):
        for j in range(i + 1, len(fs)):
            a, b = fs[i], fs[j]
            if a.path[:3] == b.path[:3]:
                continue
            if np.abs(a.n + b.n).max() < 1e-6 and abs(a.area - b.area) < 1e-6 and same_outline(a, b):
                out.append((i, j))
    return out


def transparent_paths(bdg):
    """Paths of the surfaces separating adjacent solids of one zone."""
    fs = faces(bdg)
    out = set()
    for i, j in facing_pairs(fs):
        if fs[i].path[1] == fs[j].path[1]:
            out.add("/".join(fs[i].path))
            out.add("/".join(fs[j].path))
    return out


def snapshot(bdg):
    """Everything the user can see of a building, as plain data."""
    return (bdg.name, bdg.uid, tuple(
        (zn, z.name, z.uid, tuple(
            (sn, s.name, s.uid, tuple(
                (wn, w.name, w.uid, tuple(
                    (pn, p.name, p.uid, p.pts.tobytes(), p.pts.shape, p.tri.tobytes(), p.tri.shape,
                     p.vn.tobytes())
                    for pn, p in w.polygons.items()))
                for wn, w in s.walls.items()))
            for sn, s in z.solids.items()))
        for zn, z in bdg.zones.items()))


# ------------------------------------------------------------------ relations of surfaces


def facing(a, b):
    return (np.abs(a.n + b.n).max() < 1e-6 and abs(a.area - b.area) < 1e-6 and same_outline(a, b))


def inside_convex(f, q, margin):
    """Which of the points q (2d, plane of f) are at least margin inside the convex outline."""
    out = np.ones(len(q), dtype=bool)
    m = len(f.flat)
    for i in range(m):
        e = f.flat[(i + 1) % m] - f.flat[i]
        e = e / np.linalg.norm(e)
        d = q - f.flat[i]
        out &= e[0] * d[:, 1] - e[1] * d[:, 0] > margin
    return out


def clip_area(a, b):
    """Area common to two convex coplanar faces."""
    poly = [tuple(x) for x in a.to2d(b.pts)]
    m = len(a.flat)
    for i in range(m):
        p, q = a.flat[i], a.flat[(i + 1) % m]
        e = q - p

        def side(x):
            return e[0] * (x[1] - p[1]) - e[1] * (x[0] - p[0])

        out = []
        for j in range(len(poly)):
            c, d = poly[j], poly[(j + 1) % len(poly)]
            sc, sd = side(c), side(d)
            if sc >= 0:
                out.append(c)
            if (sc > 0 and sd < 0) or (sc < 0 and sd > 0):
                t = sc / (sc - sd)
                out.append((c[0] + t * (d[0] - c[0]), c[1] + t * (d[1] - c[1])))
        poly = out
        if len(poly) < 3:
            return 0.0
    s = 0.0
    for j in range(len(poly)):
        x0, y0 = poly[j]
        x1, y1 = poly[(j + 1) % len(poly)]
        s += x0 * y1 - x1 * y0
    return abs(s) / 2


def coplanar(a, b, tol=1e-9):
    return abs(abs(a.n @ b.n) - 1) < 1e-9 and np.abs(a.height(b.pts)).max() < tol


def overlapping(a, b):
    """Partly covering each other: a common area, neither the same outline nor one strictly inside."""
    if not coplanar(a, b) or clip_area(a, b) < 1e-9 or same_outline(a, b):
        return False
    if inside_convex(a, a.to2d(b.pts), 1e-9).all() or inside_convex(b, b.to2d(a.pts), 1e-9).all():
        return False
    return True


def touching(a, b):
    """A corner of one on the outline of the other, and no edge of one entering the other's inside."""
    if same_outline(a, b):
        return False
    touch = False
    for x, y in ((a, b), (b, a)):
        if (outline_dist(x, y.pts) < 1e-9).any():
            touch = True
        m = len(y.pts)
        mids = np.concatenate([y.pts + t * (np.roll(y.pts, -1, axis=0) - y.pts) for t in (0, 0.25, 0.5, 0.75)])
        flat = mids[np.abs(x.height(mids)) < 1e-9]
        if len(flat) and inside_convex(x, x.to2d(flat), 1e-9).any():
            return False
    return touch


def outline_dist(f, p):
    h = f.height(p)
    e = edges2d_dist(f.to2d(p), f.flat)
    return np.sqrt(h * h + e * e)


def is_convex(f):
    m = len(f.flat)
    for i in range(m):
        a, b, c = f.flat[i], f.flat[(i + 1) % m], f.flat[(i + 2) % m]
        if (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0]) < -1e-12:
            return False
    return True


RELATIONS = {"facing": facing, "overlapping": overlapping, "touching": touching}
