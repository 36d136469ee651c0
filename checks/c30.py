"""C30: a building read back from its file behaves like the original."""
import os

import numpy as np

from sim import diskcheck, fs, geo, iocheck, model, rays, world
from sim.iocheck import IoCheck
from sim.raycheck import MODULES, RayCheck, digest, fix
from sim.world import Violation

LEVELS = ("polygon", "wall", "solid", "zone")


class C30(IoCheck):
    id = "C30"
    modules = tuple(dict.fromkeys(MODULES + IoCheck.modules))
    quick, thorough = 400, 6000
    note = ("Seeded search over histories of edits, queries and stitching in which one of two equal buildings is saved "
            "and read back again and again on a disk with short and interrupted calls; both must answer and simulate "
            "alike.")
    rule = ("a run counts when the building was read back at least once with an operation before or after it; distinct "
            "by building, operations, faults and ray configuration")
    lists = ("ops", "params", "c.absorbers")
    numbers = (("c.num_steps", 1), ("c.num_rays", 1))
    real_components = IoCheck.real_components + "; graphs, stitching, transparency search, simulation"

    def gen(self, rng, tier):
        spec = geo.shape(rng, 3) if rng.random() < 0.7 else model.gen_contact(rng)
        spec.pop("stitch", None)
        c = rays.gen_rays(rng, spec, rays=(2, 6), steps=(4, 16), absorbers=(0, 2))
        c["voxel"] = max(c["voxel"], 0.4)
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            k = rng.random()
            if k < 0.35:
                ops.append(["reload", "b3d", rng.randrange(1 << 20)])
            elif k < 0.65:
                ops.append(["edit", rng.choice(geo.EDITS), rng.randrange(1 << 20)])
            elif k < 0.8:
                ops.append(["graph", rng.randrange(1 << 20), 0])
            elif k < 0.87:
                ops.append(["transparent", 0, 0])
            elif k < 0.94:
                ops.append(["ask", 0, 0])
            else:
                ops.append(["stitch", 0, 0])
        ops.append(["reload", rng.choice(["b3d", "b3d", "bim"]), rng.randrange(1 << 20)])
        if rng.random() < 0.4:
            ops.append(["reload", rng.choice(["b3d", "bim"]), rng.randrange(1 << 20)])
        return dict(building=spec, c=c, params=rays.gen_params(rng, spec, rng.choice([0, 1, 3])), ops=ops,
                    world=rng.randrange(1 << 30))

    def execute(self, plan):
        root = world.scratch()
        try:
            return self.inner(plan, root)
        finally:
            world.rmtree(root)

    def inner(self, plan, root):
        from building3d.sim.rays.find_transparent import find_transparent

        world.seed_world(plan["world"])
        c = fix(plan["c"])
        slots = []
        for _ in range(2):  # the same random names in both
            world.seed_world(plan["world"])
            slots.append(geo.Slot(plan["building"]))
        one, two = slots
        inj = {}
        reloads = other = 0
        for i, (op, a, k) in enumerate(plan["ops"]):
            if op == "reload":
                reloads += 1
                path = os.path.join(root, f"f{k % 3}.{a}")
                faults = {n: diskcheck.gen_fault(_rng(k, n), ("short", "intr")) for n in range(1, 30)
                          if _rng(k, -n).random() < 0.3} if k % 2 else {}
                for fn in (lambda: iocheck.write(a, path, two.bdg), lambda: iocheck.read(a, path)):
                    d = fs.Disk(root, faults)
                    with fs.active(d):
                        new = fn()
                    diskcheck.count(d.injected, inj)
                two.bdg = new
                continue
            other += 1
            for s in (one, two):
                world.seed_world(plan["world"] + i + 1)
                if op == "edit":
                    s.edit(a, k)
                elif op == "graph":
                    s.bdg.get_graph(new=a % 2 == 0, level=LEVELS[a % 4], facing=a % 3 != 0, overlapping=a % 5 < 2)
                elif op == "transparent":
                    find_transparent(s.bdg)
                elif op == "ask":
                    self.measures(s.bdg)
                else:
                    self.stitch(s)
        x, y = one.bdg, two.bdg
        same = [("name", lambda b: b.name), ("surfaces", lambda b: sorted((p, q.pts.tolist(), q.tri.tolist())
                                                                         for p, q in model.polygons(b))),
                ("surface paths", lambda b: sorted(b.get_polygon_paths())),
                ("paths", lambda b: sorted(q.path for _, q in model.polygons(b))),
                ("transparent surfaces", lambda b: sorted(find_transparent(b))),
                ("measures", self.measures)]
        for lv in LEVELS:
            same.append((f"graph of the {lv}s", lambda b, lv=lv: sorted(
                (p, sorted(q)) for p, q in b.get_graph(new=True, level=lv, facing=True, overlapping=True).items())))
        for what, fn in same:
            u, v = self.answer(fn, x), self.answer(fn, y)
            diff = iocheck.first_difference(v, u, what)
            if diff:
                raise Violation("differs", f"after {self.short(plan)} the building read back has another {what}: {diff}")
        for path, p in model.polygons(y):
            if y.get("/".join(path)) is not p:
                raise Violation("lost", f"{'/'.join(path)} is not found in the building read back")
        h = self.answer(lambda b: rays.simulate(b, c, plan["params"]), x)
        g = self.answer(lambda b: rays.simulate(b, c, plan["params"]), y)
        if isinstance(h, str) or isinstance(g, str):
            if h != g:
                raise Violation("simulation", f"after {self.short(plan)} the simulation gave {str(g)[:200]}, with the "
                                              f"original {str(h)[:200]}")
        else:
            for name in ("pos", "enr", "hit"):
                u, v = getattr(h, name), getattr(g, name)
                if u.shape != v.shape or not np.allclose(u, v, rtol=0, atol=1e-6):
                    raise Violation("simulation", f"after {self.short(plan)} the {name} of the simulation differ from "
                                                  "those with the original")
        return dict(key=digest(plan), nontrivial=reloads > 0 and (reloads > 1 or other > 0),
                    stats=RayCheck.stats(None, c, 2, reads=reloads, other_operations=other, faults=inj))

    def measures(self, b):
        """Volumes, boxes and meshes of the building and its solids."""
        v, f = (np.array(x) for x in b.get_mesh())
        out = [round(float(b.volume()), 9), np.array(b.bbox()).ravel().tolist(), sorted(v[f].round(9).tolist())]
        for zn, z in sorted(b.zones.items()):
            for sn, s in sorted(z.solids.items()):
                out += [zn, sn, round(float(z.volume()), 9), round(float(s.volume), 9), np.array(s.bbox()).ravel().tolist(),
                        bool(s.is_point_inside(np.array(s.bbox()).mean(axis=0)))]
        return out

    def short(self, plan):
        return " ".join(f"{op}:{a}" for op, a, _ in plan["ops"])

    def answer(self, fn, b):
        """The answer, or the kind of error, which must be the same for both."""
        try:
            return fn(b)
        except (Violation, MemoryError):
            raise
        except Exception as e:
            return f"{type(e).__name__}"

    def stitch(self, s):
        """Arrangements that cannot be stitched are left alone, alike for both."""
        snap = s.bdg
        try:
            snap.stitch_solids()
        except (RecursionError, AssertionError, ValueError, RuntimeError):
            pass


def _rng(k, n):
    import random

    return random.Random(k * 1009 + n)


CHECK = C30()
