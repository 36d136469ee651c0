"""C10: old results are never overwritten, and an empty buffer directory is usable."""
import os

from sim import diskcheck, model, rays, world
from sim.diskcheck import in_process, plain
from sim.raycheck import RayCheck, digest, fix
from sim.world import Violation


class C10(RayCheck):
    id = "C10"
    quick, thorough = 500, 8000
    note = ("Seeded search over histories of start attempts and user actions in one project directory with crashes "
            "and disk errors; the buffer directory is compared byte by byte.")
    rule = ("a run counts when at least two attempts were made and at least one met existing files or followed a "
            "crash or error; distinct by the sequence of operations, faults and outcomes")
    lists = ("ops",)
    real_components = RayCheck.real_components
    stub_components = RayCheck.stub_components + "; disk calls (faults injected, real files in a scratch directory)"

    def gen(self, rng, tier):
        spec, c = diskcheck.small_scene(rng)
        c["num_steps"] = rng.choice([1, 2])
        c["batch"] = 1
        c["num_rays"] = 1
        ops = []
        for _ in range(rng.randint(2, 8)):
            k = rng.random()
            if k < 0.5:
                faults = []
                if rng.random() < 0.55:
                    kind = rng.choice(["crash", "error", "power"])
                    faults = [[rng.choice([rng.randrange(1, 10), rng.randrange(1, 60)]),
                               diskcheck.gen_fault(rng, (kind,))]]
                ops.append(["create" if rng.random() < 0.5 else "run", faults, rng.randrange(1 << 20)])
            else:
                ops.append([rng.choice(["mkdir", "empty", "file", "hidden", "subdir", "remove", "states",
                                        "link", "project"]), [], rng.randrange(1 << 20)])
        return dict(building=spec, c=c, ops=ops, where=rng.choice(["inside", "inside", "outside", "deep"]),
                    world=rng.randrange(1 << 30))

    def execute(self, plan):
        from building3d.sim.rays.simulation import Simulation
        import numpy as np

        world.seed_world(plan["world"])
        c = fix(plan["c"])
        bdg = model.build(plan["building"])
        root = world.scratch()
        proj = os.path.join(root, "w", "out")
        buf = {"inside": os.path.join(proj, "states"), "outside": os.path.join(root, "w", "else", "buf"),
               "deep": os.path.join(proj, "a", "b", "states")}[plan["where"]]
        os.mkdir(os.path.join(root, "w"))
        attempts = refused = accepted = after_fault = 0
        inj = {}
        trace = []
        had_fault = False
        try:
            def attempt(run):
                cfg, _ = rays.configure(bdg, c, os.path.join(root, "w"))
                cfg.paths["buffer_dir"] = buf
                s = Simulation(bdg, cfg)
                if run:
                    np.random.seed(c["seed"] & 0x7FFFFFFF)
                    s.run()
                return True

            for op, faults, k in plan["ops"]:
                if op in ("create", "run"):
                    before = diskcheck.tree(buf)
                    o, val, d = in_process(lambda: attempt(op == "run"), os.path.join(root, "w"), faults, k)
                    after = diskcheck.tree(buf)
                    diskcheck.count(d["injected"], inj)
                    attempts += 1
                    trace.append([op, o, bool(before)])
                    hard = bool(d["injected"])
                    if before:
                        refused += 1
                        if o == "returned":
                            raise Violation("not-refused", f"a simulation was created on a buffer directory that "
                                            f"contains {sorted(before)[:5]}")
                        if before != after:
                            raise Violation("overwritten", "a refused simulation changed the buffer directory: "
                                            f"{sorted(set(before.items()) ^ set((after or {}).items()), key=str)[:3]}")
                    elif not hard:
                        after_fault += had_fault
                        if o != "returned":
                            raise Violation("refused-empty", "a simulation was refused although its buffer directory "
                                            f"{'is empty' if before is not None else 'does not exist'}: {val}")
                        accepted += 1
                    if not before and op == "create" and after:
                        raise Violation("left-behind", f"a simulation that was not run left {sorted(after)[:5]} in its "
                                        "buffer directory, so that the next attempt is refused")
                    if hard:
                        had_fault = True
                else:
                    self.user(op, proj, buf, k)
                    trace.append([op])
        finally:
            world.rmtree(root)
        return dict(key=digest(plan["where"], trace, plan["ops"]),
                    nontrivial=attempts >= 2 and (refused + after_fault) > 0,
                    stats=dict(attempts=attempts, refused=refused, accepted=accepted,
                               attempts_after_faults=after_fault, faults=inj))

    def user(self, op, proj, buf, k):
        """Something the user does between attempts."""
        import shutil

        if op == "mkdir":
            os.makedirs(buf, exist_ok=True)
        elif op == "project":
            os.makedirs(proj, exist_ok=True)
        elif op == "empty":
            if os.path.isdir(buf):
                shutil.rmtree(buf)
            os.makedirs(buf)
        elif op == "remove":
            if os.path.isdir(buf):
                shutil.rmtree(buf)
        else:
            os.makedirs(buf, exist_ok=True)
            if op == "link":
                if not os.path.lexists(os.path.join(buf, "dangling")):
                    with open(os.path.join(buf, "zero"), "w"):
                        pass
            elif op == "subdir":
                os.makedirs(os.path.join(buf, "sub"), exist_ok=True)
            else:
                name = {"file": "notes.txt", "hidden": ".keep", "states": f"position_{k % 3}.npy"}[op]
                with open(os.path.join(buf, name), "w") as f:
                    f.write(str(k))


CHECK = C10()
