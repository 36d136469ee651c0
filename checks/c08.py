"""C08: a finished run leaves its complete history on disk."""
import os

from sim import diskcheck, model, rays, world
from sim.diskcheck import in_process, plain
from sim.raycheck import RayCheck, digest, fix
from sim.world import Violation

FOREIGN = ["notes.txt", "position_.npy", "position_x.npy", "position_3.npy.bak", "energy.npy",
           "old_position_3.npy", "hits_99.npy~", "backup/position_0.npy", "backup/energy_77.npy",
           "position_2_npy", ".hidden", "sub/deep/hits_5.npy", "position_1.npz", "xenergy_500.npy"]


class C08(RayCheck):
    id = "C08"
    quick, thorough = 400, 6000
    note = ("Seeded search over runs on a disk with short and interrupted calls, shuffled listings and foreign "
            "files; what is read back must be every simulated state.")
    rule = ("a run counts when at least one short or interrupted call was injected or a listing was shuffled "
            "and the history has at least two states; distinct by scene, faults and foreign files")
    lists = ("faults", "foreign", "c.absorbers")
    real_components = RayCheck.real_components + ", wildcard paths, NumPy's file format"
    stub_components = RayCheck.stub_components + "; disk calls (faults injected, real files in a scratch directory)"

    def gen(self, rng, tier):
        spec, c = diskcheck.small_scene(rng)
        ops = 12 * (c["num_steps"] + 2)
        dense = rng.choice([0.02, 0.1, 0.4])
        faults = [[k, diskcheck.gen_fault(rng, ("short", "intr"))]
                  for k in range(1, ops) if rng.random() < dense]
        read_ops = 12 * (c["num_steps"] + 2)
        read_faults = [[k, diskcheck.gen_fault(rng, ("short", "intr"))]
                       for k in range(1, read_ops) if rng.random() < dense]
        return dict(building=spec, c=c, faults=faults, read_faults=read_faults,
                    foreign=rng.sample(FOREIGN, rng.choice([0, 0, 1, 3, 6])),
                    when=rng.choice(["before", "after"]), read_before=rng.random() < 0.3,
                    early=rng.choice([0, 0, 1, 2, 3]), relative=rng.random() < 0.2, pathlib=False, files=self.file_names(rng),
                    listing=rng.randrange(1 << 30), world=rng.randrange(1 << 30))

    def file_names(self, rng):
        """Sometimes other names for the state files than the default ones."""
        return rng.choice([None, None, None, ["p<step>.npy", "e<step>.npy", "h<step>.npy"],
                           ["<step>.pos.npy", "<step>.enr.npy", "<step>.hit.npy"],
                           ["state_<step>_a.npy", "state_<step>_b.npy", "state_<step>_c.npy"]])

    def execute(self, plan):
        from building3d.sim.rays.dump_buffers import read_buffers
        from building3d.sim.rays.simulation import Simulation
        import numpy as np

        world.seed_world(plan["world"])
        c = fix(plan["c"])
        bdg = model.build(plan["building"])
        n = c["num_steps"]
        root = world.scratch()
        try:
            # what is simulated, taken from memory and not from disk
            truth = plain(lambda: self.sim(Simulation, bdg, dict(c, batch=n), os.path.join(root, "ref"),
                                           None))[1]
            work = os.path.join(root, "work")
            os.mkdir(work)
            if plan["relative"]:
                os.chdir(work)
            base = "." if plan["relative"] else work
            buf = os.path.join(base, "out", "states")

            def foreign():
                for name in plan["foreign"]:
                    p = os.path.join(buf, name)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "w") as f:
                        f.write("something else")

            def read():
                cfg, _ = rays.configure(bdg, c, base)
                self.names(cfg, plan["files"])
                return read_buffers(cfg.paths["buffer_dir"], cfg)

            def run():
                """The run and what the same process did before; with "early" it also reads at the end."""
                cfg, _ = rays.configure(bdg, c, base)
                self.names(cfg, plan["files"])
                if plan["early"] & 2:  # an earlier run in the same place, whose results were then removed
                    cc = dict(c, num_steps=1, batch=1, num_rays=1 + c["num_rays"] % 2)
                    cf, _ = rays.configure(bdg, cc, base)
                    self.names(cf, plan["files"])
                    Simulation(bdg, cf).run()
                    read_buffers(cf.paths["buffer_dir"], cf)
                    assert os.path.realpath(buf).startswith(os.path.realpath(root) + "/")
                    for name in os.listdir(buf):
                        os.unlink(os.path.join(buf, name))
                s = Simulation(bdg, cfg)
                if plan["early"] & 1:  # somebody looks for results too early
                    try:
                        read()
                    except Exception:
                        pass
                    else:
                        raise Violation("too-early", "a history was read although nothing has been simulated")
                if plan["when"] == "before":
                    foreign()
                np.random.seed(c["seed"] & 0x7FFFFFFF)
                last = s.run()
                return last, (read() if plan["early"] else None)

            o, last, d1 = in_process(run, work, plan["faults"], plan["listing"])
            if o != "returned":
                raise Violation("run-failed", f"the run failed although all disk calls succeeded: {last}")
            last, seen = last
            if plan["when"] == "after":
                foreign()

            o, got, d2 = in_process(read, work, plan["read_faults"], plan["listing"] + 1)
            if o != "returned":
                raise Violation("read-failed", f"reading a complete history failed: {got}")
            for name, x, y, z in zip(("positions", "energies", "hits"), got, truth, last):
                if x.shape != y.shape:
                    raise Violation("incomplete", f"{name} read back have shape {x.shape}, simulated {y.shape}")
                if not np.allclose(x, y, rtol=0, atol=1e-9):
                    i = np.argwhere(~np.isclose(x, y, rtol=0, atol=1e-9))[0]
                    raise Violation("different", f"{name} read back differ from those simulated at {tuple(i)}: "
                                                 f"{x[tuple(i)]} instead of {y[tuple(i)]}")
                k = min(len(z), c["batch"])
                if not np.array_equal(x[-k:], z[-k:]):
                    raise Violation("not-exact", f"the last {name} read back are not exactly the returned ones")
            if seen is not None and not all(np.array_equal(a, b) for a, b in zip(seen, got)):
                raise Violation("stale", "the process of the run read something else than another process")
            # reading changes nothing and can be repeated
            if plan["read_before"]:
                o, again, _ = in_process(read, work, [], plan["listing"] + 2)
                if o != "returned" or not all(np.array_equal(a, b) for a, b in zip(again, got)):
                    raise Violation("second-read", "reading again gave something else")
        finally:
            os.chdir("/")
            world.rmtree(root)
        f = {}
        diskcheck.count(d1["injected"], f)
        diskcheck.count(d2["injected"], f)
        sh = d1["shuffled"] + d2["shuffled"]
        return dict(key=digest(plan["building"], c, plan["faults"], plan["read_faults"], plan["foreign"],
                               plan["listing"]),
                    nontrivial=bool(f) or sh > 0,
                    stats=self.stats(c, 1, faults=f, shuffled_listings=sh, disk_operations=d1["ops"] + d2["ops"],
                                     foreign_files=len(plan["foreign"])))

    def names(self, cfg, files):
        if files:
            cfg.paths["position_file"], cfg.paths["energy_file"], cfg.paths["hits_file"] = files

    def sim(self, Simulation, bdg, c, base, files):
        import numpy as np

        cfg, _ = rays.configure(bdg, c, base)
        s = Simulation(bdg, cfg)
        np.random.seed(c["seed"] & 0x7FFFFFFF)
        return s.run()

    def simplify(self, plan):
        if plan["read_faults"]:
            yield dict(plan, read_faults=[])
        if plan["files"]:
            yield dict(plan, files=None)
        if plan["early"]:
            yield dict(plan, early=0)
            yield dict(plan, early=1)


CHECK = C08()
