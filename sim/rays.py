"""Ray simulation scenarios and the model their recorded history is judged by."""
import math
import os

import numpy as np

from . import model
from . import sched
from .world import Violation, rmtree, scratch

EPS = 1e-6


def gen_rays(rng, spec, rays=(3, 9), steps=(8, 30), margin=0.1, absorbers=(0, 3)):
    """Random ray configuration for a building spec (plain data)."""
    sols = model.all_solids(spec)
    z, s = rng.choice(sols)
    src = model.point_in(rng, s, margin)
    step_len = rng.choice([0.05, 0.09, 0.13, 0.17, 0.21])
    speed = rng.choice([343.0, 343.0, 1.0, 12.5])
    R = 1.01 * step_len
    lo = np.min([model.solid_bounds(x)[0] for _, x in sols], axis=0)
    hi = np.max([model.solid_bounds(x)[1] for _, x in sols], axis=0)
    ext = hi - lo
    cell = max(R * rng.choice([1.02, 1.2, 2.0, 3.0]), (float(np.prod(ext + 0.3)) / 1500) ** (1 / 3))
    if rng.random() < 0.2:
        cell = rng.choice([0.5, 1.0, 5.0])
    nsteps = rng.randint(*steps)
    divs = [d for d in range(1, nsteps + 1) if nsteps % d == 0]
    ab = []
    for _ in range(rng.randint(*absorbers)):
        ab.append(model.point_in(rng, rng.choice(sols)[1], 0.02))
    if ab and rng.random() < 0.2:  # overlapping absorbers
        p = ab[0]
        ab.append([p[0] + 0.03, p[1], p[2] - 0.02])
    radius = rng.choice([0.05, 0.1, 0.2, 0.35])
    if rng.random() < 0.9:
        # usually the source is not inside an absorber
        ab = [a for a in ab if np.linalg.norm(np.array(a) - src) > radius * 1.05]
    return dict(
        num_rays=rng.randint(*rays), speed=speed, time_step=step_len / speed, num_steps=nsteps,
        batch=rng.choice(divs), voxel=float(round(cell, 4)), source=src, absorbers=ab,
        radius=radius, search=rng.random() < 0.85,
        default=rng.choice([0.0, 0.01, 0.05, 0.2, 0.4, 1.0] if rng.random() < 0.5 else [0.02, 0.1]),
        seed=rng.randrange(1 << 30),
    )


def corners(s):
    """Vertices and edges of a solid of a spec."""
    if s["kind"] == "box":
        flat = [(0, 0), (s["size"][0], 0), (s["size"][0], s["size"][1]), (0, s["size"][1])]
        top, rot = s["size"][2], 0.0
    else:
        flat, top, rot = s["pts"], s["h"], s["rot"]
    cs, sn = math.cos(rot), math.sin(rot)
    ring = [np.array([x * cs - y * sn + s["at"][0], x * sn + y * cs + s["at"][1], s["at"][2]]) for x, y in flat]
    up = [p + np.array([0.0, 0.0, top]) for p in ring]
    n = len(ring)
    edges = [(ring[i], ring[(i + 1) % n]) for i in range(n)] + [(up[i], up[(i + 1) % n]) for i in range(n)]
    return ring + up, edges + list(zip(ring, up))


def gen_aims(rng, spec, c):
    """Directions of some rays: at corners and edges of solids, just beside them, along the axes."""
    sols = [s for _, s in model.all_solids(spec)]
    home = [s for s in sols if model.inside_solid(s, np.array([c["source"]]), 0.0)[0]]
    if home and rng.random() < 0.4:  # from the middle of a solid
        lo, hi = model.solid_bounds(home[0])
        mid = [float(x) for x in (lo + hi) / 2]
        if model.inside_solid(home[0], np.array([mid]), 0.1)[0]:
            c["source"] = mid
    src = np.array(c["source"])
    out = []
    for _ in range(rng.randint(1, c["num_rays"])):
        s = rng.choice(home if home and rng.random() < 0.7 else sols)
        pts, edges = corners(s)
        k = rng.random()
        if k < 0.15:
            d = np.zeros(3)
            d[rng.randrange(3)] = rng.choice([-1.0, 1.0])
        elif k < 0.3:
            d = np.array([rng.choice([-1.0, 1.0]) for _ in range(3)])
            d[rng.randrange(3)] = 0.0
        else:
            if k < 0.45:
                t = rng.choice(pts).copy()
            else:
                a, b = rng.choice(edges)
                t = a + rng.choice([0.5, rng.random()]) * (b - a)
            t[rng.randrange(3)] += rng.choice([0.0, 0.0, 1e-9, -1e-9, 1e-6, -1e-6, 1e-4, -1e-4, 9e-4, -9e-4, 2e-3])
            d = t - src
        if np.linalg.norm(d) > 1e-6:
            out.append([float(x) for x in d / np.linalg.norm(d)])
    return out


class aimed:
    """NumPy's generator gives the chosen directions for the first rays."""

    names = ("rand", "random", "random_sample", "ranf", "sample", "uniform")

    def __init__(self, c):
        self.c = c

    def __enter__(self):
        aims = np.array(self.c.get("aims") or [], float).reshape(-1, 3)[: self.c["num_rays"]]
        self.real = {}
        if not len(aims):
            return
        want = (self.c["num_rays"], 3)

        def wrap(name, f):
            def g(*a, **kw):
                r = f(*a, **kw)
                if np.shape(r) == want:
                    u = (0.98 * aims / np.abs(aims).max(axis=1)[:, None] + 1) / 2
                    if name == "uniform":
                        lo, hi = (list(a) + [kw.get("low", 0.0), kw.get("high", 1.0)])[:2] if len(a) != 1 else (
                            a[0], kw.get("high", 1.0))
                        u = lo + (hi - lo) * u
                    r = r.copy()
                    r[: len(aims)] = u
                return r
            return g

        for n in self.names:
            f = getattr(np.random, n, None)
            if f is not None:
                self.real[n] = f
                setattr(np.random, n, wrap(n, f))

    def __exit__(self, *a):
        for n, f in self.real.items():
            setattr(np.random, n, f)


def gen_params(rng, spec, n):
    """Random surface parameter assignments: [level, pick, value]."""
    return [[rng.randrange(5), rng.randrange(1000), rng.choice([0.0, 0.03, 0.15, 0.3, 0.7, 1.0])]
            for _ in range(n)]


def target_path(bdg, level, pick):
    """A path of the given level (0 building .. 4 polygon)."""
    cur, parts = bdg, [bdg.name]
    for lv in range(level):
        kids = list(cur.children.keys())
        k = kids[pick % len(kids)]
        pick //= max(1, len(kids))
        cur = cur.children[k]
        parts.append(k)
    return "/".join(parts)


def configure(bdg, c, root, params=()):
    """SimulationConfig for a ray configuration.  Returns (config, {path: absorption})."""
    from building3d.sim.rays.simulation_config import SimulationConfig

    cfg = SimulationConfig(bdg)
    cfg.verbose = False
    cfg.engine["time_step"] = c["time_step"]
    cfg.engine["num_steps"] = c["num_steps"]
    cfg.engine["batch_size"] = c["batch"]
    cfg.engine["voxel_size"] = c["voxel"]
    cfg.engine["search_transparent"] = c["search"]
    cfg.rays["num_rays"] = c["num_rays"]
    cfg.rays["ray_speed"] = c["speed"]
    cfg.rays["source"] = tuple(c["source"])
    cfg.rays["absorbers"] = [tuple(a) for a in c["absorbers"]]
    cfg.rays["absorber_radius"] = c["radius"]
    cfg.paths["project_dir"] = os.path.join(root, "out")
    cfg.paths["buffer_dir"] = os.path.join(root, "out", "states")
    cfg.surfaces["absorption"]["default"] = c["default"]
    alpha = {"/".join(p): c["default"] for p, _ in model.polygons(bdg)}
    for level, pick, value in params:
        path = target_path(bdg, level, pick)
        cfg.set_surface_param("absorption", path, value, bdg)
        for k in alpha:
            if k == path or k.startswith(path + "/"):
                alpha[k] = value
    return cfg, alpha


class History:
    pass


def simulate(bdg, c, params=(), par=None, root=None, keep=False):
    """Run the real simulation; returns its recorded history."""
    from building3d.sim.rays.dump_buffers import read_buffers
    from building3d.sim.rays.simulation import Simulation

    own = root is None
    root = root or scratch()
    try:
        cfg, alpha = configure(bdg, c, root, params)
        np.random.seed(c["seed"] & 0x7FFFFFFF)
        sched.PAR[0] = par
        try:
            sim = Simulation(bdg, cfg)
            with aimed(c):
                last = sim.run()
        finally:
            sched.PAR[0] = None
        pos, enr, hit = read_buffers(cfg.paths["buffer_dir"], cfg)
    finally:
        if own and not keep:
            rmtree(root)
    h = History()
    h.pos, h.enr, h.hit, h.last, h.alpha = pos, enr, hit, last, alpha
    return h


def shape_check(h, c):
    n, r, a = c["num_steps"] + 1, c["num_rays"], len(c["absorbers"])
    if h.pos.shape != (n, r, 3) or h.enr.shape != (n, r) or h.hit.shape != (n, a):
        raise Violation("shape", f"history has shapes {h.pos.shape} {h.enr.shape} {h.hit.shape}, "
                                 f"expected {n} states of {r} rays and {a} absorbers")
    if not (np.isfinite(h.pos).all() and np.isfinite(h.enr).all() and np.isfinite(h.hit).all()):
        raise Violation("not-finite", "history contains values that are not numbers")


def differ(a, b, tol, what):
    """First difference between two histories, as text, or None."""
    for name, x, y in (("position", a.pos, b.pos), ("energy", a.enr, b.enr), ("hit", a.hit, b.hit)):
        if x.shape != y.shape:
            return f"{what}: {name} shapes differ: {x.shape} {y.shape}"
        bad = ~np.isclose(x, y, rtol=0, atol=tol)
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            return f"{what}: {name}{list(i)} is {x[i]!r}, expected {y[i]!r}"
    return None


def check_energy(h, c):
    """C04: every unit of ray energy is accounted for once."""
    pos, enr, hit = h.pos, h.enr, h.hit
    if not (enr[0] == 1.0).all():
        raise Violation("start-energy", f"initial energies are {enr[0]}")
    if len(c["absorbers"]) and hit[0].any():
        raise Violation("start-hits", f"hits before the first step: {hit[0]}")
    if (enr < 0).any():
        i = np.argwhere(enr < 0)[0]
        raise Violation("negative-energy", f"energy of ray {i[1]} at step {i[0]} is {enr[tuple(i)]}")
    up = enr[1:] > enr[:-1] + 1e-12
    if up.any():
        i = np.argwhere(up)[0]
        raise Violation("energy-grew", f"energy of ray {i[1]} grew from {enr[i[0], i[1]]} to "
                                       f"{enr[i[0] + 1, i[1]]} at step {i[0] + 1}")
    dead = enr[:-1] <= EPS
    moved = (np.abs(pos[1:] - pos[:-1]).max(axis=2) > 0) & dead
    if moved.any():
        i = np.argwhere(moved)[0]
        raise Violation("dead-moves", f"ray {i[1]} moved at step {i[0] + 1} without energy")
    ab = np.array(c["absorbers"], float).reshape(-1, 3)
    r2 = c["radius"] ** 2
    absorbed = 0
    for i in range(len(pos) - 1):
        alive = enr[i] > EPS
        if len(ab):
            d2 = ((pos[i][None, :, :] - ab[:, None, :]) ** 2).sum(axis=2)
            sure = (d2 < r2 - 1e-9) & alive
            maybe = (d2 < r2 + 1e-9) & alive
        else:
            sure = maybe = np.zeros((0, enr.shape[1]), dtype=bool)
        inside, poss = sure.any(axis=0), maybe.any(axis=0)
        left = inside & (enr[i + 1] > 0)
        if left.any():
            k = int(np.argwhere(left)[0][0])
            raise Violation("not-absorbed", f"ray {k} inside an absorber at step {i} still has energy "
                                            f"{enr[i + 1, k]} at step {i + 1}")
        absorbed += int(inside.sum())
        for s in range(len(ab)):
            hi = enr[i][maybe[s]].sum()
            lo = enr[i][sure[s] & (maybe.sum(axis=0) == 1)].sum()
            if not lo - 1e-9 <= hit[i + 1, s] <= hi + 1e-9:
                raise Violation("wrong-hit", f"absorber {s} at step {i + 1} recorded {hit[i + 1, s]}, "
                                             f"rays brought between {lo} and {hi}")
        if len(ab):
            tot = hit[i + 1].sum()
            lo, hi = enr[i][inside].sum(), enr[i][poss].sum()
            if not lo - 1e-9 <= tot <= hi + 1e-9:
                raise Violation("hit-total", f"all absorbers at step {i + 1} recorded {tot}, rays "
                                             f"brought {lo}")
    return absorbed


def opaque_faces(bdg, search):
    fs = model.faces(bdg)
    tr = model.transparent_paths(bdg) if search else set()
    return [f for f in fs if "/".join(f.path) not in tr], len(tr)


def connected(spec, bdg, search, src):
    """Solids that can be reached from the source."""
    sols = model.all_solids(spec)
    key = {(z, s["name"]): i for i, (z, s) in enumerate(sols)}
    start = [i for i, (z, s) in enumerate(sols)
             if model.inside_solid(s, np.array([src]), 0.0)[0]]
    link = {i: set() for i in range(len(sols))}
    if search:
        fs = model.faces(bdg)
        for i, j in model.facing_pairs(fs):
            if fs[i].path[1] == fs[j].path[1]:
                a, b = key[fs[i].path[1:3]], key[fs[j].path[1:3]]
                link[a].add(b)
                link[b].add(a)
    seen, todo = set(start), list(start)
    while todo:
        for k in link[todo.pop()]:
            if k not in seen:
                seen.add(k)
                todo.append(k)
    return [sols[i][1] for i in sorted(seen)]


def check_inside(h, c, spec, bdg):
    """C05: no live ray passes an opaque surface or leaves its room."""
    pos, enr = h.pos, h.enr
    blocked, ntr = opaque_faces(bdg, c["search"])
    a = pos[:-1].reshape(-1, 3)
    b = pos[1:].reshape(-1, 3)
    nr = pos.shape[1]
    for f in blocked:
        x = f.crossed(a, b)
        if x.any():
            i = int(np.argwhere(x)[0][0])
            raise Violation("crossed", f"ray {i % nr} passed through {'/'.join(f.path)} at step "
                                       f"{i // nr + 1}, from {a[i]} to {b[i]}")
    room = connected(spec, bdg, c["search"], c["source"])
    p = pos.reshape(-1, 3)
    ok = np.zeros(len(p), dtype=bool)
    for s in room:
        ok |= model.inside_solid(s, p, -1e-6)
    if not ok.all():
        i = int(np.argwhere(~ok)[0][0])
        raise Violation("outside", f"ray {i % nr} is outside its room at step {i // nr}: {p[i]}")
    # rays lose energy only at blocking surfaces or absorbers, see check_motion for the amounts
    crossed_open = 0
    if c["search"]:
        names = {"/".join(f.path) for f in blocked}
        for f in model.faces(bdg):
            if "/".join(f.path) not in names:
                crossed_open += int(f.crossed(a, b).sum())
    return crossed_open


def check_motion(h, c, bdg, wedge=False):
    """C06: constant speed, mirror reflection at near blocking surfaces, each at its cost.
    wedge: a room with a sharp corner, in which a ray is mirrored often in one step."""
    depth = 20 if wedge else 6
    pos, enr = h.pos, h.enr
    blocked, _ = opaque_faces(bdg, c["search"])
    step = c["speed"] * c["time_step"]
    R = 1.01 * step
    n, nr = enr.shape
    ab = np.array(c["absorbers"], float).reshape(-1, 3)
    flat = pos.reshape(-1, 3)
    near = np.stack([f.dist(flat).reshape(n, nr) < R + 1e-9 for f in blocked], axis=2)
    alpha = [h.alpha["/".join(f.path)] for f in blocked]
    refl = 0
    for k in range(nr):
        v = None
        for i in range(n - 1):
            e0, e1 = enr[i, k], enr[i + 1, k]
            if e0 <= EPS:
                break
            d = pos[i + 1, k] - pos[i, k]
            cand = [j for j in range(len(blocked)) if near[i, k, j]]
            if e1 <= EPS:
                # died: absorbed (see check_energy) or used up at surfaces
                inab = len(ab) and (((pos[i, k] - ab) ** 2).sum(axis=1) < c["radius"] ** 2 + 1e-9).any()
                if not inab:
                    top = sorted((alpha[j] for j in cand), reverse=True)[:2]
                    most = (depth if wedge else 4) * sum(top) if len(top) == 2 else sum(top)
                    if most < e0 - 2 * EPS:
                        raise Violation("lost-energy", f"ray {k} lost its energy {e0} at step {i + 1} at "
                                        f"{pos[i, k]} with no absorber and surfaces {[('/'.join(blocked[j].path), alpha[j]) for j in cand]} near")
                if np.abs(d).max() > 0:
                    raise Violation("dead-moves", f"ray {k} moved in step {i + 1} while losing its energy")
                break
            ln = float(np.linalg.norm(d))
            if abs(ln - step) > 1e-7 * max(1.0, step):
                raise Violation("speed", f"ray {k} moved by {ln} in step {i + 1}, expected {step}")
            w = d / ln
            if v is None:
                # direction before the first step is unknown, but the cost must fit
                if not cost_fits(e0 - e1, sorted({alpha[j] for j in cand}), depth):
                    raise Violation("cost", f"ray {k} lost {e0 - e1} in step 1 near surfaces with "
                                            f"absorption {[alpha[j] for j in cand]}")
                refl += e0 != e1
            elif np.abs(v - w).max() < 1e-6 and abs(e0 - e1) < 1e-9:
                pass
            else:
                if not explain(v, w, e0 - e1, [(blocked[j].n, alpha[j]) for j in cand],
                               wedge or not c.get("aims"), depth):
                    raise Violation("reflection", f"ray {k} step {i + 1} at {pos[i, k]}: direction {v} -> "
                                    f"{w}, energy {e0} -> {e1}, surfaces within {R}: "
                                    f"{[('/'.join(blocked[j].path), alpha[j]) for j in cand]}")
                refl += 1
            v = w
    return refl


def cost_fits(x, al, depth):
    """Is x a sum of at most depth of the values?"""
    if abs(x) < 1e-9:
        return True
    if depth == 0 or x < 0:
        return False
    return any(cost_fits(x - a, al[j:], depth - 1) for j, a in enumerate(al) if a > 0)


def explain(v, w, cost, surf, inner=True, depth=6, last=None):
    """Is w what v becomes by mirroring at some of the surfaces, at that cost?  inner: a ray meets
    the surfaces of its own solid, seen from inside (one aimed at an edge may meet both sides)."""
    if np.abs(v - w).max() < 1e-6 and abs(cost) < 1e-9:
        return True
    if depth == 0:
        return False
    for j, (n, a) in enumerate(surf):
        if j == last or cost - a < -1e-9:
            continue
        if inner and v @ n < 1e-9:
            continue
        if explain(v - 2 * (v @ n) * n, w, cost - a, surf, inner, depth - 1, j):
            return True
    return False
