"""C09: a run that dies never leaves a history that reads back wrong."""
import os

from sim import diskcheck, model, rays, world
from sim.diskcheck import in_process, plain
from sim.raycheck import RayCheck, digest, fix
from sim.world import Violation


class C09(RayCheck):
    id = "C09"
    quick, thorough = 600, 9000
    note = ("Seeded search over crash points, power losses and disk errors of a run on the simulated disk; a "
            "fresh process then reads: an error or an exact beginning of the history.")
    rule = ("a run counts when a crash, power loss or disk error was injected; distinct by scene, fault kind, "
            "operation number and the files left behind")
    lists = ("faults", "c.absorbers")
    real_components = RayCheck.real_components + ", wildcard paths, NumPy's file format"
    stub_components = RayCheck.stub_components + "; disk calls (faults injected, real files in a scratch directory)"
    assumptions = ["a crash keeps what was written; a power loss may cut unsynced files back and lose one unsynced "
                   "new file, not more"]

    def gen(self, rng, tier):
        spec, c = diskcheck.small_scene(rng)
        # about 5 operations per file, 3 files per step and one more state per batch
        ops = 10 + 13 * (c["num_steps"] + c["num_steps"] // c["batch"])
        faults = []
        kind = rng.choice(["crash", "crash", "power", "power", "error", "error", "errors"])
        if kind == "errors":
            a = rng.randrange(1, ops)
            for k in range(a, a + rng.choice([2, 5, 100])):
                faults.append([k, ["error", "ENOSPC", 0]])
        else:
            faults.append([rng.randrange(1, ops), diskcheck.gen_fault(rng, (kind,))])
        if rng.random() < 0.3:
            faults = [[k, diskcheck.gen_fault(rng, ("short",))] for k in range(1, faults[0][0])
                      if rng.random() < 0.1] + faults
        return dict(building=spec, c=c, faults=faults, listing=rng.randrange(1 << 30),
                    world=rng.randrange(1 << 30))

    def execute(self, plan):
        from building3d.sim.rays.dump_buffers import read_buffers
        from building3d.sim.rays.simulation import Simulation
        import numpy as np

        world.seed_world(plan["world"])
        c = fix(plan["c"])
        bdg = model.build(plan["building"])
        root = world.scratch()
        try:
            def sim(c, base):
                cfg, _ = rays.configure(bdg, c, base)
                s = Simulation(bdg, cfg)
                np.random.seed(c["seed"] & 0x7FFFFFFF)
                return s.run()

            truth = plain(lambda: sim(dict(c, batch=c["num_steps"]), os.path.join(root, "ref")))[1]
            work = os.path.join(root, "work")
            os.mkdir(work)
            o, val, d = in_process(lambda: sim(c, work), work, plan["faults"], plan["listing"])
            hard = [i for i in d["injected"] if i[2] in ("error", "crash", "power")]

            def read():
                cfg, _ = rays.configure(bdg, c, work)
                return read_buffers(cfg.paths["buffer_dir"], cfg)

            o2, got, _ = in_process(read, work, [], plan["listing"] + 1)
            n = c["num_steps"] + 1
            if o == "returned":
                # an error that did no harm, or the operation was never reached
                if o2 != "returned":
                    raise Violation("false-success", f"the run reported success after {hard}, but its history "
                                                     f"cannot be read: {got}")
            elif o == "raised" and not hard:
                raise Violation("run-failed", f"the run failed although no disk call did: {val}")
            m = None
            if o2 == "returned":
                m = len(got[0])
                if o == "returned" and m != n:
                    raise Violation("false-success", f"the run reported success after {hard} but left {m} of {n} "
                                                     "states")
                if m > n or not len(got[1]) == len(got[2]) == m:
                    raise Violation("wrong-length", f"{m} positions, {len(got[1])} energies, {len(got[2])} hits "
                                                    f"read after {hard}; the run has {n} states")
                for name, x, y in zip(("positions", "energies", "hits"), got, truth):
                    if x.shape[1:] != y.shape[1:] or not np.allclose(x, y[:m], rtol=0, atol=1e-9):
                        bad = [i for i in range(m) if x[i].shape != y[i].shape
                               or not np.allclose(x[i], y[i], rtol=0, atol=1e-9)]
                        raise Violation("wrong-history", f"after {hard}, the {name} read back for steps {bad[:5]} are "
                                                         "not those simulated")
        finally:
            world.rmtree(root)
        return dict(key=digest(plan["building"], c, hard, o, m), nontrivial=bool(hard),
                    stats=self.stats(c, 1, faults=diskcheck.count(d["injected"]), outcomes={o: 1},
                                     readable_prefixes=int(o != "returned" and o2 == "returned"),
                                     read_errors=int(o2 != "returned"), disk_operations=d["ops"]))


CHECK = C09()
