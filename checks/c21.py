"""C21: asking, converting and saving never change the building."""
import os

import numpy as np

from sim import fs, geo, iocheck, model, rays, sched, world
from sim.raycheck import MODULES, digest
from sim.runner import ThreadCheck
from sim.world import Violation

OPS = ("graph", "graph", "transparent", "volume", "mesh", "bbox", "inside", "relations", "solids", "slice", "flip",
       "arrays", "arrays", "params", "b3d", "bim", "stl", "simulate", "paths", "roundtrip", "rotate")


class Interrupt(KeyboardInterrupt):
    pass


class C21(ThreadCheck):
    id = "C21"
    modules = MODULES + ("building3d.io.dotbim", "building3d.io.stl", "building3d.geom.polygon.slice",
                         "building3d.geom.rotation")
    libs = ("dotbimpy", "jsonpickle")
    quick, thorough = 500, 8000
    note = ("Seeded search over sequences and interleavings of queries, conversions, saves and simulations on one "
            "building, with interruptions and edits in between; the building is compared with itself and every answer "
            "with that of the operation alone in a process of its own.")
    rule = ("a run counts when at least two operations of different kinds were done on one building; distinct by the "
            "operations, schedules and interruptions")
    lists = ("steps",)
    real_components = ("building3d: buildings, graphs, transparency search, array conversion, surface parameters, "
                       "simulation, writers of the three formats")
    stub_components = ("thread switches, locks, interrupts, disk calls (real files in a scratch directory), uuid, clock, "
                       "generators (seeded)")
    assumptions = ["the paths followed by simulated rays are random and are not compared here (see C01)",
                   "the serial numbers of surfaces, set by the conversion to arrays, are not part of the building"]

    def gen(self, rng, tier):
        def op():
            return [rng.choice(OPS), rng.randrange(1 << 20)]

        steps = []
        for _ in range(rng.randint(2, 6)):
            x = rng.random()
            if x < 0.4:
                steps.append(["one", [op()], []])
            elif x < 0.85:
                n = rng.choice([2, 2, 3, 4])
                steps.append(["threads", [op() for _ in range(n)],
                              [rng.choice([rng.randrange(1, 500), rng.randrange(1, 20000)])
                               for _ in range(rng.choice([0, 0, 1, 2]))]])
            else:
                steps.append(["edit", [[rng.choice(geo.EDITS), rng.randrange(1 << 20)]], []])
        return dict(spec=geo.shape(rng, 2), steps=steps, world=rng.randrange(1 << 30),
                    policies=[sched.random_policy(rng, 20000) for _ in range(3)])

    # ---- the operations; each returns plain data

    def do(self, op, k, bdg, root):
        polys = [p for _, p in model.polygons(bdg)]
        solids = [s for z in bdg.zones.values() for s in z.solids.values()]
        p = polys[k % len(polys)]
        s = solids[k % len(solids)]
        if op == "graph":
            lev = ("polygon", "wall", "solid", "zone")[k % 4]
            g = bdg.get_graph(new=k % 3 == 0, level=lev, facing=k % 5 != 0, overlapping=k % 7 < 2, touching=k % 11 < 2)
            return {a: sorted(b) for a, b in g.items()}
        if op == "transparent":
            from building3d.sim.rays.find_transparent import find_transparent

            return sorted(find_transparent(bdg))
        if op == "volume":
            z = next(iter(bdg.zones.values()))
            return [round(float(x), 9) for x in (s.volume, z.volume(), bdg.volume())]
        if op == "mesh":
            out = []
            for o in (bdg, s, p, next(iter(s.walls.values()))):
                v, f = o.get_mesh()
                out.append([np.array(v).tolist(), np.array(f).tolist()])
            return out
        if op == "bbox":
            return [[np.array(x).tolist() for x in o.bbox()] for o in (bdg, s, p)]
        if op == "inside":
            r = np.random.RandomState(k & 0xFFFF)
            lo, hi = (np.array(x) for x in bdg.bbox())
            pts = lo + (hi - lo) * r.rand(4, 3)
            return [bool(s.is_point_inside(q)) for q in pts] + [bool(p.is_point_inside(q)) for q in p.pts]
        if op == "relations":
            o = polys[(k // 64) % len(polys)]
            return [bool(x) for x in (p.is_facing_polygon(o), p.is_crossing_polygon(o), p.is_touching_polygon(o),
                                      p.contains_polygon(o), np.allclose(p.get_some_interior_point(),
                                                                         p.get_some_interior_point()))]
        if op == "solids":
            o = solids[(k // 64) % len(solids)]
            return [bool(s.is_adjacent_to_solid(o)), bool(s.has_correct_interface(o)),
                    bool(s.is_point_at_boundary(p.pts[0]))]
        if op == "slice":
            from building3d.geom.exceptions import GeometryError
            from building3d.geom.polygon.slice import slice_polygon

            if len(p.pts) != 4:
                return None
            a, b, c, d = p.pts
            f = (0.25, 0.5, 0.75)[k % 3]
            try:
                parts = slice_polygon(p, np.array([a + f * (b - a), d + f * (c - d)]))
            except GeometryError as e:
                return repr(e)
            return sorted(round(float(q.area), 9) for q in parts)
        if op == "flip":
            q = p.flip("flipped")
            return [q.pts.tolist(), q.vn.tolist()]
        if op == "rotate":
            from building3d.geom.rotation import rotate_points_around_vector, rotate_points_to_plane

            a = rotate_points_around_vector(p.pts, np.array([0.0, 0.0, 1.0]), float(k % 7))[0]
            b = rotate_points_to_plane(p.pts, p.pts[k % len(p.pts)], np.array([1.0, 0.0, 0.0]), float(k % 3))[0]
            return [np.array(a).round(9).tolist(), np.array(b).round(9).tolist()]
        if op == "arrays":
            from building3d.io.arrayformat import to_array_format

            return [np.array(x).tolist() for x in to_array_format(bdg)]
        if op == "roundtrip":
            from building3d.io.arrayformat import from_array_format, to_array_format

            b = from_array_format(*to_array_format(bdg))
            return [q.pts.tolist() for _, q in model.polygons(b)]
        if op == "params":
            from building3d.sim.rays.simulation_config import SimulationConfig

            cfg = SimulationConfig(bdg)
            for j in range(1 + k % 3):
                cfg.set_surface_param("absorption", rays.target_path(bdg, (k + j) % 5, k // 8), 0.1 * (1 + (k + j) % 9), bdg)
            from building3d.io.arrayformat import to_array_format

            to_array_format(bdg)
            a = cfg.surface_params_to_array("absorption", bdg)
            by = {"/".join(path): q for path, q in model.polygons(bdg)}
            return {n: round(float(a[q.num]), 12) for n, q in by.items()}
        if op in iocheck.FORMATS:
            path = os.path.join(root, f"{k}-{os.urandom(4).hex()}.{op}")
            iocheck.write(op, path, bdg)
            return ["saved", op, path]
        if op == "simulate":
            c = dict(num_rays=1 + k % 2, speed=343.0, time_step=0.1 / 343.0, num_steps=2, batch=1 + k % 2, voxel=1.0,
                     source=[float(x) for x in s.get_mesh()[0].mean(axis=0)], absorbers=[[0.0, 0.0, 0.0]], radius=0.1,
                     search=bool(k % 3), default=0.1, seed=k)
            h = rays.simulate(bdg, c, root=os.path.join(root, f"sim-{k}-{os.urandom(4).hex()}"))
            return [list(h.pos.shape), list(h.enr.shape), list(h.hit.shape), [float(x) for x in h.enr[0]]]
        if op == "paths":
            return [bdg.get_polygon_paths(), [bdg.get(x).name for x in bdg.get_polygon_paths()], p.path, s.path]
        raise ValueError(op)

    def execute(self, plan):
        root = world.scratch()
        try:
            return self.inner(plan, root)
        finally:
            world.rmtree(root)

    def alone(self, plan, edits, op, k, root):
        """The answer of an operation as the only one, in a process of its own."""
        key = (tuple(map(tuple, edits)), op, k)
        if key not in self.memo:
            def body():
                world.seed_world(plan["world"])
                slot = geo.Slot(plan["spec"])
                for kind, n in edits:
                    slot.edit(kind, n)
                return self.do(op, k, slot.bdg, os.path.join(root, f"alone{len(self.memo)}"))

            st, v = world.in_child(body, 90)
            if st == "violation":
                raise Violation(*v)
            self.memo[key] = (st, v)
        return self.memo[key]

    def inner(self, plan, root):
        self.memo = {}
        world.seed_world(plan["world"])
        slot = geo.Slot(plan["spec"])
        bdg = slot.bdg
        disk = fs.Disk(root)
        edits = []
        done = interrupted = groups = 0
        kinds = set()
        before = model.snapshot(bdg)

        def same(what):
            now = model.snapshot(bdg)
            if now != before:
                raise Violation("changed", f"the building was changed by {what}: {self.diff(before, now)}")

        def judge(op, k, got):
            st, want = self.alone(plan, edits, op, k, root)
            if op in iocheck.FORMATS:
                fmt, path = got[1], got[2]
                c = iocheck.content(bdg, fmt)
                st, v = world.in_child(lambda: iocheck.content(iocheck.read(fmt, path), fmt), 60)
                if st != "ok":
                    raise Violation("answer", f"{op} wrote a file that cannot be read: {v}")
                d = iocheck.first_difference(v, c)
                if d:
                    raise Violation("answer", f"{op} saved {d}")
                return
            if st != "ok":
                raise Violation("answer", f"{op} {k} answered {str(got)[:200]}, alone it fails: {str(want)[-300:]}")
            if got != want:
                raise Violation("answer", f"{op} {k} answered {str(got)[:300]}, alone {str(want)[:300]}")

        with fs.active(disk):
            for kind, ops, inter in plan["steps"]:
                if kind == "edit":
                    ed, k = ops[0]
                    slot.edit(ed, k)
                    edits.append([ed, k])
                    before = model.snapshot(bdg)
                    continue
                if kind == "one":
                    op, k = ops[0]
                    got = self.do(op, k, bdg, root)
                    same(op)
                    judge(op, k, got)
                    done += 1
                    kinds.add(op)
                    continue
                groups += 1
                exc = [(n, Interrupt if n % 2 else MemoryError) for n in inter]
                run = self.threads(plan, [lambda o=o, k=k: self.do(o, k, bdg, root) for o, k in ops], interrupts=exc)
                same("concurrent " + ", ".join(o for o, _ in ops))
                for t, (op, k) in zip(run.tasks, ops):
                    if isinstance(t.error, (Interrupt, MemoryError)):
                        interrupted += 1
                    elif t.error is not None:
                        st, want = self.alone(plan, edits, op, k, root)
                        if st == "ok":
                            import traceback

                            tb = "".join(traceback.format_exception(t.error))
                            raise Violation("failed", f"{op} {k} failed among others, but not alone: {tb[-1200:]}")
                    else:
                        judge(op, k, t.result)
                        done += 1
                        kinds.add(op)
        if disk.outside:
            raise Violation("outside", f"changed {disk.outside[0]}")
        return dict(key=digest(plan["spec"], plan["steps"], plan["policies"]), nontrivial=len(kinds) > 1,
                    stats=dict(operations=done, interrupted=interrupted, groups=groups))

    def diff(self, a, b, where="building"):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    return self.diff(x, y, f"{where}/{x[0]}" if isinstance(x, tuple) and x else where)
        if isinstance(a, bytes):
            return f"{where}: numbers differ"
        return f"{where}: {str(a)[:120]} became {str(b)[:120]}"


CHECK = C21()
