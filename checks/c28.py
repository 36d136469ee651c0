"""C28: simulations running at the same time give what they give alone."""
import os
import random

import numpy as np

from sim import fs, iocheck, model, rays, sched, world
from sim.raycheck import MODULES, digest, fix
from sim.runner import ThreadCheck
from sim.world import Violation


class Interrupt(KeyboardInterrupt):
    pass


def get_state():
    return np.random.get_state(), random.getstate()


def set_state(s):
    np.random.set_state(s[0])
    random.setstate(s[1])


class C28(ThreadCheck):
    id = "C28"
    modules = tuple(dict.fromkeys(MODULES + ("building3d.io.dotbim", "building3d.io.stl")))
    libs = iocheck.IoCheck.libs
    quick, thorough = 320, 5000
    note = ("Seeded search over interleavings, statement by statement, of two or three simulations on the same or other "
            "buildings, with queries and saves beside them and interruptions; each history is compared with that of the "
            "simulation alone in a process of its own.")
    rule = ("a run counts when at least two simulations were completed and were switched between at least ten times; "
            "distinct by scenes, schedules and interruptions")
    lists = ("runs", "extras", "interrupts")
    real_components = ("building3d: set-up and loop of the simulation, transparency search, grid, buffer files, array "
                       "conversion, surface parameters, writers and graphs beside them")
    stub_components = ("thread switches, locks and interrupts (simulated), parallel loops (one worker in each simulation), "
                       "disk calls (real files in a scratch directory), uuid and clock (seeded), NumPy's generator "
                       "(seeded, one state for each simulated thread)")
    assumptions = ["each simulation has its own buffer directory and draws from its own seeded generator",
                   "the building is not edited while it is simulated"]

    def gen(self, rng, tier):
        specs = [model.gen_building(rng, None if rng.random() < 0.5 else ["box", "row"], 3)
                 for _ in range(rng.choice([1, 1, 2]))]
        runs = []
        for _ in range(rng.choice([2, 2, 3])):
            b = rng.randrange(len(specs))
            c = rays.gen_rays(rng, specs[b], rays=(1, 4), steps=(2, 8), absorbers=(0, 2))
            c["voxel"] = max(c["voxel"], 0.4)
            runs.append(dict(b=b, c=c, params=rays.gen_params(rng, specs[b], rng.choice([0, 1, 3])),
                             before=rng.random() < 0.3))
        if rng.random() < 0.3:  # the same simulation twice
            runs[1] = dict(runs[0], before=rng.random() < 0.3)
        return dict(specs=specs, runs=runs,
                    extras=[[rng.choice(["graph", "save", "arrays"]), rng.randrange(1000)]
                            for _ in range(rng.choice([0, 0, 1]))],
                    interrupts=[rng.randrange(1, 60000) for _ in range(rng.choice([0, 0, 0, 1]))],
                    policies=[sched.random_policy(rng, 30000)], world=rng.randrange(1 << 30))

    def extra(self, op, k, bdg, root):
        from building3d.io.arrayformat import to_array_format

        if op == "graph":
            return lambda: bdg.get_graph(new=k % 2 == 0, level=("polygon", "wall", "solid", "zone")[k % 4])
        if op == "arrays":
            return lambda: to_array_format(bdg)
        fmt = iocheck.FORMATS[k % 3]
        return lambda: iocheck.write(fmt, os.path.join(root, f"saved.{fmt}"), bdg)

    def execute(self, plan):
        root = world.scratch()
        try:
            return self.inner(plan, root)
        finally:
            world.rmtree(root)

    def inner(self, plan, root):
        from building3d.sim.rays.dump_buffers import read_buffers
        from building3d.sim.rays.simulation import Simulation

        want = []
        for i, r in enumerate(plan["runs"]):
            def body(r=r, i=i):
                world.seed_world(plan["world"])
                h = rays.simulate(model.build(plan["specs"][r["b"]]), fix(r["c"]), r["params"],
                                  root=os.path.join(root, f"alone{i}"))
                return h.pos, h.enr, h.hit

            st, v = self.judge(*world.in_child(body, 90))
            if st == "violation":
                raise Violation(*v)
            if st != "ok":
                raise RuntimeError(v)
            want.append(v)
        world.seed_world(plan["world"])
        blds = [model.build(s) for s in plan["specs"]]
        shots = [model.snapshot(b) for b in blds]
        disk = fs.Disk(root)

        def setup(i, r):
            cfg, _ = rays.configure(blds[r["b"]], fix(r["c"]), os.path.join(root, f"r{i}"), r["params"])
            return cfg, Simulation(blds[r["b"]], cfg)

        def job(i, r, ready):
            def f():
                np.random.seed(r["c"]["seed"] & 0x7FFFFFFF)
                cfg, sim = ready or setup(i, r)
                sim.run()
                return cfg
            return f

        with fs.active(disk):
            fns = []
            for i, r in enumerate(plan["runs"]):
                fns.append(job(i, r, setup(i, r) if r["before"] else None))
            for op, k in plan["extras"]:
                fns.append(self.extra(op, k, blds[k % len(blds)], root))
            run = self.threads(plan, fns, interrupts=[(n, Interrupt) for n in plan["interrupts"]],
                               own=(get_state, set_state))
        done = stopped = 0
        for i, (t, r) in enumerate(zip(run.tasks, plan["runs"])):
            if isinstance(t.error, Interrupt):
                stopped += 1
                continue
            if t.error is not None:
                import traceback

                tb = "".join(traceback.format_exception(t.error))
                raise Violation("failed", f"simulation {i} failed beside others, but not alone: {tb[-1200:]}")
            got = rays.History()
            got.pos, got.enr, got.hit = read_buffers(t.result.paths["buffer_dir"], t.result)
            ref = rays.History()
            ref.pos, ref.enr, ref.hit = want[i]
            d = rays.differ(got, ref, 1e-9, f"simulation {i} beside others")
            if d:
                raise Violation("disturbed", d)
            done += 1
        for b, s in zip(blds, shots):
            if model.snapshot(b) != s:
                raise Violation("changed", "the building was changed")
        n = len(plan["runs"])
        sw = sum(1 for a, b in zip(run.switches, run.switches[1:]) if a[1] < n and b[1] < n)
        return dict(key=digest(plan["specs"], plan["runs"], plan["policies"], plan["interrupts"]),
                    nontrivial=done > 1 and sw >= 10 - 8 * (plan["policies"][0][0] in ("pct", "stall", "explicit")),
                    stats=dict(simulations=done, interrupted=stopped, switches=len(run.switches),
                               scheduling_points=run.n,
                               simulated_ray_steps=sum(r["c"]["num_rays"] * r["c"]["num_steps"] for r in plan["runs"])))


CHECK = C28()
