"""What the checks of the ray simulation share."""
import hashlib
import json
import math
import os

from . import model, rays, sched, world
from .runner import Check

MODULES = ("building3d.sim.rays.simulation", "building3d.sim.rays.simulation_config",
           "building3d.sim.rays.dump_buffers", "building3d.sim.rays.find_transparent",
           "building3d.geom.solid.box", "building3d.geom.solid.floor_plan",
           "building3d.geom.building", "building3d.io.arrayformat", "building3d.io.b3d")
REAL = ("building3d: building construction, array conversion, transparency search, grid, simulation loop, "
        "buffer files (all real code, run as plain Python)")
STUB = ("numba's thread pool (simulated workers), NumPy's global generator, uuid, clock and os.urandom "
        "(seeded); machine code generation (not used)")


def digest(*a):
    return hashlib.sha256(json.dumps(a, default=str).encode()).hexdigest()


def gen_par(rng, c, p=0.5):
    """A schedule for the loop over rays, or None (one after another)."""
    if rng.random() > p:
        return None
    div = rng.choice([["static"], ["perm", rng.randrange(1 << 20)], ["chunks", rng.randrange(1 << 20)]])
    # in mode "prange" workers are interleaved at iterations only, "full" mode is C01's
    return dict(workers=rng.randint(2, 8), division=div,
                policy=["walk", rng.randrange(1 << 30), rng.choice([1, 2, 5]), 0.0])


def par_of(d):
    return None if d is None else sched.ParPlan(d["workers"], tuple(d["division"]), d["policy"])


def fix(c):
    """A configuration that minimisation may have made inconsistent."""
    c = dict(c)
    if c["num_steps"] % c["batch"]:
        c["batch"] = 1
    return c


HISTORY_OPS = ("graph", "find_transparent", "stitch", "save", "arrays", "volume", "other_run",
               "clear", "replace")


def gen_history(rng, p=0.4):
    if rng.random() > p:
        return []
    return [[rng.choice(HISTORY_OPS), rng.randrange(1000)] for _ in range(rng.randint(1, 4))]


def play_history(bdg, ops, spec, c):
    """Things done with the building before the run under test; none changes its geometry."""
    from building3d.geom.polygon import Polygon
    from building3d.geom.wall import Wall
    from building3d.io.arrayformat import to_array_format
    from building3d.io.b3d import write_b3d
    from building3d.sim.rays.find_transparent import find_transparent

    for op, k in ops:
        if op == "graph":
            bdg.get_graph(new=k % 2 == 0, facing=k % 3 != 0, overlapping=k % 5 < 2,
                          touching=k % 3 == 0, level=("polygon", "wall", "solid", "zone")[k % 4])
        elif op == "find_transparent":
            r = find_transparent(bdg)
            if k % 2:
                r.clear()
        elif op == "save":
            root = world.scratch()
            try:
                write_b3d(os.path.join(root, "a.b3d"), bdg)
            finally:
                world.rmtree(root)
        elif op == "arrays":
            to_array_format(bdg)
            if k % 2:
                to_array_format(model.build(spec))
        elif op == "volume":
            for z in bdg.children.values():
                for s in z.children.values():
                    s.volume  # noqa: B018
        elif op == "other_run":
            # a run of a geometrically different building with the same names
            other = json.loads(json.dumps(spec))
            for z in other["zones"]:
                for i, s in enumerate(z["solids"]):
                    s["at"] = [s["at"][0] + 5 * i, s["at"][1], s["at"][2] + 7 * i]
            cc = dict(c, num_steps=2, batch=1, num_rays=2, absorbers=c["absorbers"][:1])
            rays.simulate(model.build(other), cc)
        elif op == "replace":
            # every polygon of one wall is replaced by an equal one, so objects are new
            zs = list(bdg.children.values())
            ss = [s for z in zs for s in z.children.values()]
            s = ss[k % len(ss)]
            ws = list(s.children.values())
            w = ws[k % len(ws)]
            new = Wall([Polygon(p.pts.copy(), name=p.name) for p in w.children.values()], w.name)
            s.replace_wall(w.name, new)


class RayCheck(Check):
    modules = MODULES
    mode = "prange"
    real_components = REAL
    stub_components = STUB
    lists = ("params", "history", "c.absorbers")
    numbers = (("c.num_steps", 1), ("c.num_rays", 1))
    history_p = 0.35
    rays_n = (3, 10)
    steps_n = (8, 40)
    absorbers_n = (0, 3)
    aims_p = 0.0
    wedge_p = 0.0
    contact_p = 0.15

    def gen(self, rng, tier):
        spec = model.gen_building(rng)
        if rng.random() < self.contact_p:
            spec = model.gen_contact(rng)
        elif rng.random() < 0.3:
            spec["splits"] = model.gen_splits(rng)
        tip = None
        if rng.random() < self.wedge_p:
            spec, tip = model.gen_wedge(rng)
        k = 2 if tier == "thorough" and rng.random() < 0.25 else 1
        c = rays.gen_rays(rng, spec, rays=(self.rays_n[0], k * self.rays_n[1]),
                          steps=(self.steps_n[0], k * self.steps_n[1]), absorbers=self.absorbers_n)
        self.tune(rng, spec, c)
        if rng.random() < self.aims_p:
            c["aims"] = rays.gen_aims(rng, spec, c)
        if tip is not None:  # into the sharp corner, where walls are met again and again
            c["aims"] = []
            for _ in range(c["num_rays"]):
                d = [t + rng.uniform(-0.15, 0.15) - x for t, x in zip(tip, c["source"])]
                n = math.sqrt(sum(x * x for x in d))
                if n > 1e-6:
                    c["aims"].append([x / n for x in d])
        return dict(building=spec, c=c, params=rays.gen_params(rng, spec, rng.choice([0, 1, 3, 6])),
                    history=gen_history(rng, self.history_p), par=gen_par(rng, c),
                    world=rng.randrange(1 << 30))

    def tune(self, rng, spec, c):
        pass

    def start(self, plan):
        world.seed_world(plan["world"])
        bdg = model.build(plan["building"])
        c = fix(plan["c"])
        play_history(bdg, plan.get("history", []), plan["building"], c)
        return bdg, c

    def stats(self, c, runs=1, **kw):
        d = dict(simulated_ray_steps=c["num_rays"] * c["num_steps"] * runs,
                 simulated_seconds=c["time_step"] * c["num_steps"] * runs)
        d.update(kw)
        return d

    def simplify(self, plan):
        if plan["building"].get("splits"):
            yield dict(plan, building={k: v for k, v in plan["building"].items() if k != "splits"})
        if plan["building"].get("stitch"):
            yield dict(plan, building=dict(plan["building"], stitch=False))
        if plan.get("par"):
            yield dict(plan, par=None)
        zs = plan["building"]["zones"]
        n = sum(len(z["solids"]) for z in zs)
        if n > 1:
            for zi, z in enumerate(zs):
                for si in range(len(z["solids"])):
                    q = json.loads(json.dumps(plan))
                    del q["building"]["zones"][zi]["solids"][si]
                    q["building"]["zones"] = [x for x in q["building"]["zones"] if x["solids"]]
                    yield q
