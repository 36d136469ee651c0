"""C29: reading the results of a running simulation gives their exact beginning or an error."""
import os

import numpy as np

from sim import diskcheck, fs, model, rays, sched, world
from sim.raycheck import MODULES, digest, fix
from sim.runner import ThreadCheck
from sim.world import Violation


class C29(ThreadCheck):
    id = "C29"
    modules = MODULES
    mode = "prange"  # threads are switched at file operations only
    quick, thorough = 900, 14000
    note = ("Seeded search over interleavings of the file operations of one simulation and up to three "
            "readers of its buffer directory, with partial writes, partial reads and shuffled listings.")
    rule = ("a run counts when some reader read or failed while the simulation was writing; distinct by the order of the "
            "file operations of all threads")
    lists = ("readers", "faults", "c.absorbers")
    numbers = (("c.num_steps", 1), ("c.num_rays", 1))
    real_components = ("building3d: simulation set-up and loop, writing and reading of buffer files, wildcard paths; "
                       "NumPy's file format")
    stub_components = ("thread switches (simulated), disk calls (numbered, real files in a scratch directory, partial and "
                       "interrupted transfers, shuffled listings), uuid, clock and generators (seeded)")
    assumptions = ["readers are simulated as threads: they share the disk, and in addition memory",
                   "one running simulation for each buffer directory"]

    def gen(self, rng, tier):
        spec, c = diskcheck.small_scene(rng)
        ops = 14 * (c["num_steps"] + c["num_steps"] // c["batch"])
        return dict(building=spec, c=c,
                    readers=[[rng.choice([0, 3, 10, 30, 100]) for _ in range(rng.randint(1, 5))]
                             for _ in range(rng.choice([1, 1, 2, 3]))],
                    faults=[[rng.randrange(1, 2 * ops), diskcheck.gen_fault(rng, ["short", "short", "intr"])]
                            for _ in range(rng.choice([0, 3, ops // 3]))],
                    listing=rng.randrange(1 << 30), world=rng.randrange(1 << 30),
                    policies=[sched.random_policy(rng, rng.choice([100, 500, 2000]))])

    def execute(self, plan):
        from building3d.sim.rays.dump_buffers import read_buffers
        from building3d.sim.rays.simulation import Simulation

        world.seed_world(plan["world"])
        c = fix(plan["c"])
        bdg = model.build(plan["building"])
        top = world.scratch()
        try:
            want = rays.simulate(bdg, c, root=os.path.join(top, "alone"))
            root = os.path.join(top, "w")
            os.mkdir(root)
            cfg, _ = rays.configure(bdg, c, root)
            where = cfg.paths["buffer_dir"]
            sim = Simulation(bdg, cfg)
            disk = fs.Disk(root, {int(k): v for k, v in plan["faults"]}, plan["listing"])
            order = []
            real_op = disk.op

            def op(name, path, writes=None):
                r = real_op(name, path, writes)
                if sched.CUR is not None:
                    order.append((sched.CUR.cur, name))
                return r

            disk.op = op

            def writer():
                np.random.seed(c["seed"] & 0x7FFFFFFF)
                sim.run()

            seen = []

            def reader(gaps):
                def f():
                    for g in gaps:
                        for _ in range(g):
                            sched.vy()
                        k = len(order)
                        try:
                            got = read_buffers(where, cfg)
                        except Exception as e:
                            got = f"{type(e).__name__}: {e}"
                        # in the middle of the run if the simulation writes after this
                        seen.append((sched.CUR.cur, got, k, len(order)))
                return f

            with fs.active(disk):
                run = self.threads(plan, [writer] + [reader(g) for g in plan["readers"]])
            for t in run.tasks:
                if t.error is not None:
                    raise t.error
            with fs.active(fs.Disk(root, {}, plan["listing"])):
                pos, enr, hit = read_buffers(where, cfg)
            full = rays.History()
            full.pos, full.enr, full.hit = pos, enr, hit
            d = rays.differ(full, want, 1e-9, "history after being read while written")
            if d:
                raise Violation("disturbed", d)
            rays.shape_check(full, c)
            writes = [i for i, (t, _) in enumerate(order) if t == 0]
            first, last = (writes[0], writes[-1]) if writes else (0, 0)
            longest = {}
            during = exact = errors = 0
            for t, got, a, b in seen:
                if b > first and a < last:
                    during += 1
                if isinstance(got, str):
                    errors += 1
                    if a > last:
                        raise Violation("refused", f"reader {t} after the end of the simulation: {got}")
                    continue
                n = len(got[0])
                if n < longest.get(t, 0):
                    raise Violation("shrank", f"reader {t} got {n} states after {longest[t]}")
                longest[t] = n
                if a > last and n != c["num_steps"] + 1:
                    raise Violation("short", f"reader {t} got {n} states after the end")
                for name, x, y in zip(("positions", "energies", "hits"), got, (pos, enr, hit)):
                    if len(x) != n or x.shape[1:] != y.shape[1:] or len(x) > len(y):
                        raise Violation("shape", f"reader {t} got {name} of shape {x.shape}, {n} states")
                    bad = np.argwhere(~(np.abs(x - y[:n]) <= 1e-12).reshape(n, -1).all(axis=1))
                    if len(bad):
                        raise Violation("wrong-history", f"reader {t} got wrong {name} of state {int(bad[0][0])}, "
                                                         f"{n} states in all")
                exact += 1
        finally:
            world.rmtree(top)
        return dict(key=digest(order), nontrivial=during > 0,
                    stats=dict(reads=len(seen), reads_during_the_run=during, exact_beginnings=exact, errors=errors,
                               switches=len(run.switches), disk_operations=disk.k,
                               faults=diskcheck.count(disk.injected),
                               simulated_ray_steps=c["num_rays"] * c["num_steps"]))


CHECK = C29()
