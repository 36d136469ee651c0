"""C13: concurrent saves into a new directory all succeed."""
import logging
import os

from sim import fs, iocheck, model, sched, screen, world
from sim.raycheck import MODULES, digest
from sim.runner import ThreadCheck
from sim.world import Violation


class C13(ThreadCheck):
    id = "C13"
    modules = tuple(dict.fromkeys(MODULES + ("building3d.io.dotbim", "building3d.io.stl", "building3d.logger",
                                             "building3d.display.plot_objects",
                                             "building3d.sim.rays.simulation")))
    libs = iocheck.IoCheck.libs + ("pyvista", "pyvista.core.pointset")
    quick, thorough = 2500, 40000
    note = ("Seeded search over interleavings of the file operations and statements of up to four writers that "
            "share a directory not yet existing.")
    rule = ("a run counts when the writers were switched at least once while more than one of them was running; "
            "distinct by writers and the order of their file operations")
    lists = ("writers",)
    real_components = ("building3d: writers of the three formats, pictures, simulation set-up, logger set-up; json, dotbimpy, "
                       "logging")
    stub_components = ("renderer, thread switches and locks (simulated), disk calls (numbered, real files in a scratch "
                       "directory), uuid, clock and generators (seeded)")
    assumptions = ["separate processes are simulated as threads: they share the disk, and in addition memory"]

    def prepare(self):
        import pyvista  # noqa: F401

        screen.install()
        super().prepare()

    def gen(self, rng, tier):
        n = rng.randint(2, 4)
        base = rng.choice(["new", "new/deep", "new/a/b/c", "."])
        writers = []
        log = False
        kinds = ["b3d", "bim", "stl", "sim", "run", "log", "b3d", "bim", "stl", "pic"]
        if rng.random() < 0.6:
            kinds = rng.sample(sorted(set(kinds)), rng.choice([1, 2]))
        stem = rng.random() < 0.2  # one name with different endings in one directory
        if stem:
            kinds = [k for k in iocheck.FORMATS] + ["pic", "log"]
            rng.shuffle(kinds)
        for i in range(n):
            k = kinds[i] if stem else rng.choice(kinds)
            if k == "log":
                if log:
                    k = "b3d"
                log = True
            up = base if stem or rng.random() < 0.8 else base + "/" + rng.choice(["x", "y"])
            name = f"f{i}"
            if k not in ("sim", "run") and (stem or rng.random() < 0.4):  # same name, other ending
                name = "f"
                if any((w["kind"], w["dir"], w["name"]) == (k, up, name) for w in writers):
                    name = f"f{i}"
            writers.append(dict(kind=k, dir=up, name=name, building=model.gen_building(rng, ["box", "plan"], 1),
                                same=rng.random() < 0.3))
        return dict(writers=writers, shared=model.gen_building(rng, ["box", "row"], 2),
                    policies=[sched.random_policy(rng, rng.choice([50, 400, 3000]))],
                    relative=rng.random() < 0.3, world=rng.randrange(1 << 30))

    def job(self, w, bdg, root):
        from building3d.logger import init_logger
        from building3d.sim.rays.simulation import Simulation

        d = os.path.join(root, w["dir"])
        k = w["kind"]
        if k in iocheck.FORMATS:
            return lambda: iocheck.write(k, os.path.join(d, f"{w['name']}.{k}"), bdg)
        if k == "pic":
            from building3d.display.plot_objects import plot_objects

            return lambda: plot_objects((bdg,), os.path.join(d, w["name"] + ".png"))
        if k == "log":
            def f():
                init_logger(os.path.join(d, w["name"] + ".log"))
                logging.getLogger("building3d.x").warning("written once")
            return f
        s = w["building"]["zones"][0]["solids"][0]
        lo, hi = model.solid_bounds(s)
        c = dict(num_steps=2, batch=1, num_rays=1, time_step=1e-3, voxel=1.0, speed=100.0, absorbers=[],
                 radius=0.1, source=[float(x) for x in bdg_center(w["building"])], seed=1, search=True)

        def f():
            cfg = self.config(bdg, c)
            cfg.paths["project_dir"] = d
            cfg.paths["buffer_dir"] = os.path.join(d, w["name"])
            sim = Simulation(bdg, cfg)
            if k == "run":
                sim.run()
        return f

    def config(self, bdg, c):
        from building3d.sim.rays.simulation_config import SimulationConfig

        cfg = SimulationConfig(bdg)
        cfg.verbose = False
        cfg.engine.update(time_step=c["time_step"], num_steps=2, batch_size=1, voxel_size=1.0)
        cfg.rays.update(num_rays=1, ray_speed=100.0, source=c["source"])
        return cfg

    def execute(self, plan):
        world.seed_world(plan["world"])
        logging.getLogger().handlers[:] = []
        logging.getLogger().setLevel(logging.CRITICAL)
        shared = model.build(plan["shared"])
        blds = []
        for w in plan["writers"]:
            if w["same"] and w["kind"] in iocheck.FORMATS:
                blds.append(shared)
            else:
                blds.append(model.build(w["building"]))
        top = world.scratch()
        root = os.path.join(top, "w")
        os.mkdir(root)
        want = [iocheck.content(b, w["kind"]) if w["kind"] in iocheck.FORMATS else None
                for b, w in zip(blds, plan["writers"])]
        order = []
        try:
            disk = fs.Disk(root)
            real_op = disk.op

            def op(name, path, writes=None):
                r = real_op(name, path, writes)
                if sched.CUR is not None:
                    order.append(sched.CUR.cur)
                return r

            disk.op = op
            if plan["relative"]:
                os.chdir(root)
            fns = [self.job(w, b, "" if plan["relative"] else root) for w, b in zip(plan["writers"], blds)]
            with fs.active(disk):
                run = self.threads(plan, fns)
                for h in logging.getLogger().handlers:
                    h.close()
            for t, w in zip(run.tasks, plan["writers"]):
                if t.error is not None:
                    e = t.error
                    raise Violation("writer-failed", f"writer {w['kind']} into {w['dir']} failed: "
                                                     f"{type(e).__name__}: {str(e).replace(root, '')}")
            for w, x in zip(plan["writers"], want):
                d = os.path.join(root, w["dir"])
                if w["kind"] in iocheck.FORMATS:
                    got = iocheck.read(w["kind"], os.path.join(d, f"{w['name']}.{w['kind']}"))
                    diff = iocheck.first_difference(iocheck.content(got, w["kind"]), x)
                    if diff:
                        raise Violation("mixed-up", f"file of writer {w['name']} reads back wrong: {diff}")
                elif w["kind"] == "pic":
                    if not os.path.isfile(os.path.join(d, w["name"] + ".png")):
                        raise Violation("picture", "there is no picture")
                elif w["kind"] == "log":
                    p = os.path.join(d, w["name"] + ".log")
                    text = open(p).read() if os.path.exists(p) else ""
                    if text.count("written once") != 1:
                        raise Violation("log-record", f"record found {text.count('written once')} times")
                else:
                    b = os.path.join(d, w["name"])
                    n = len(os.listdir(b)) if os.path.isdir(b) else -1
                    if n != (9 if w["kind"] == "run" else 0):
                        raise Violation("buffer", f"buffer directory of {w['kind']} holds {n} files")
        finally:
            os.chdir("/")
            world.rmtree(top)
        sw = sum(1 for a, b in zip(order, order[1:]) if a != b)
        return dict(key=digest([w["kind"] for w in plan["writers"]], order), nontrivial=sw >= len(fns),
                    stats=dict(switches=len(run.switches), scheduling_points=run.n, disk_operations=disk.k,
                               switches_between_disk_operations=sw))


def bdg_center(spec):
    import random

    return model.point_in(random.Random(1), spec["zones"][0]["solids"][0], 0.2)


CHECK = C13()
