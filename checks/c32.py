"""C32: a prepared simulation runs with the building and the settings it was created with."""
import json
import os

import numpy as np

from sim import fs, geo, model, rays, sched, world
from sim.raycheck import MODULES, RayCheck, digest, fix
from sim.runner import Check
from sim.world import Violation

SETTINGS = ("steps", "time_step", "cells", "search", "rays", "speed", "source", "absorber", "no_absorbers", "radius",
            "absorption", "default", "directory", "verbose")


class Interrupt(KeyboardInterrupt):
    pass


class C32(Check):
    id = "C32"
    mode = "full"
    modules = MODULES
    quick, thorough = 400, 6000
    note = ("Seeded search over histories in which simulations are created, their buildings edited, their settings changed, "
            "and run at any later time, repeatedly and interrupted; each history is compared with that of the simulation "
            "created and run at once in a process of its own.")
    rule = ("a run counts when some simulation was run after a change, another simulation or an interruption; distinct by "
            "buildings, operations and ray configurations")
    lists = ("ops",)
    real_components = RayCheck.real_components
    stub_components = RayCheck.stub_components + "; interrupts (KeyboardInterrupt and MemoryError at chosen points)"
    assumptions = ["the buffer directory is cleared by the user before a simulation is run again"]

    def gen(self, rng, tier):
        specs = [geo.shape(rng, 3) for _ in range(rng.choice([1, 1, 2]))]
        sims, ops, made = [], [], []
        for _ in range(rng.choice([1, 2, 2, 3])):
            b = rng.randrange(len(specs))
            c = rays.gen_rays(rng, specs[b], rays=(1, 4), steps=(2, 8), absorbers=(0, 2))
            c["voxel"] = max(c["voxel"], 0.4)
            sims.append(dict(b=b, c=c, params=rays.gen_params(rng, specs[b], rng.choice([0, 1, 2]))))
        todo = list(range(len(sims)))
        for _ in range(rng.randint(3, 10)):
            k = rng.random()
            if todo and (not made or k < 0.3):
                made.append(todo.pop(0))
                ops.append(["new", made[-1], "", 0])
            elif k < 0.5:
                ops.append(["edit", rng.randrange(len(specs)), rng.choice(geo.EDITS), rng.randrange(1 << 20)])
            elif k < 0.7:
                ops.append(["set", rng.choice(made), rng.choice(SETTINGS), rng.randrange(1 << 20)])
            elif k < 0.75:
                ops.append(["drop", rng.randrange(len(specs)), "", 0])
            elif k < 0.8:
                ops.append(["convert", rng.randrange(len(specs)), rng.choice(["arrays", "graph", "transparent"]),
                            rng.randrange(1 << 20)])
            elif k < 0.92:
                ops.append(["run", rng.choice(made), "", 0])
            else:
                ops.append(["interrupt", rng.choice(made), rng.choice("ab"), rng.randrange(1, 40000)])
        for i in made:
            if rng.random() < 0.8:
                ops.append(["run", i, "", 0])
        return dict(specs=specs, sims=sims, ops=ops, world=rng.randrange(1 << 30))

    def reference(self, plan, i, edits):
        """History of simulation i created and run at once after the edits of its building."""
        s = plan["sims"][i]

        def body():
            world.seed_world(plan["world"])
            slot = geo.Slot(json.loads(json.dumps(plan["specs"][s["b"]])))
            for kind, k in edits:
                slot.edit(kind, k)
            h = rays.simulate(slot.bdg, fix(s["c"]), s["params"])
            return h.pos, h.enr, h.hit

        st, v = self.judge(*world.in_child(body, 60))
        if st == "violation":
            raise Violation(*v)
        if st != "ok":
            raise RuntimeError(v)
        h = rays.History()
        h.pos, h.enr, h.hit = v
        return h

    def change(self, cfg, what, k, bdg):
        """Change a setting of a configuration whose simulation has been created."""
        if what == "steps":
            cfg.engine["num_steps"] = 2 * cfg.engine["num_steps"]
            cfg.engine["batch_size"] = cfg.engine["num_steps"] // 2
        elif what == "time_step":
            cfg.engine["time_step"] *= 0.5
        elif what == "cells":
            cfg.engine["voxel_size"] = cfg.engine["voxel_size"] * 2
        elif what == "search":
            cfg.engine["search_transparent"] = not cfg.engine["search_transparent"]
        elif what == "rays":
            cfg.rays["num_rays"] += 1 + k % 3
        elif what == "speed":
            cfg.rays["ray_speed"] *= 0.9
        elif what == "source":
            cfg.rays["source"] = tuple(x + 0.05 for x in cfg.rays["source"])
        elif what == "absorber":
            cfg.rays["absorbers"].append(cfg.rays["source"])
        elif what == "no_absorbers":
            cfg.rays["absorbers"].clear()
        elif what == "radius":
            cfg.rays["absorber_radius"] *= 2
        elif what == "absorption" and bdg is not None:
            cfg.set_surface_param("absorption", rays.target_path(bdg, k % 5, k // 5), 0.9, bdg)
        elif what == "default":
            cfg.surfaces["absorption"]["default"] = 0.77
        elif what == "directory":
            cfg.paths["project_dir"] += "-other"
            cfg.paths["buffer_dir"] += "-other"
        elif what == "verbose":
            cfg.verbose = False

    def execute(self, plan):
        root = world.scratch()
        try:
            return self.inner(plan, root)
        finally:
            world.rmtree(root)

    def inner(self, plan, root):
        from building3d.io.arrayformat import to_array_format
        from building3d.sim.rays.dump_buffers import read_buffers
        from building3d.sim.rays.find_transparent import find_transparent
        from building3d.sim.rays.simulation import Simulation

        edits = {i: [] for i in range(len(plan["specs"]))}
        want = {}
        for op, i, a, k in plan["ops"]:
            if op == "edit":
                edits[i].append((a, k))
            elif op == "drop":
                edits[i] = []
            elif op == "new":
                want[i] = self.reference(plan, i, list(edits[plan["sims"][i]["b"]]))
        sched.ADDR[0] = addr = sched.Addresses()

        def slot(b):
            world.seed_world(plan["world"])
            return geo.Slot(json.loads(json.dumps(plan["specs"][b])))

        slots = {b: slot(b) for b in edits}
        sims, cfgs, dirs, ran = {}, {}, {}, set()
        changed = runs = again = inter = 0
        late = False

        def clear(i):
            if not os.path.isdir(dirs[i]):
                return
            for n in os.listdir(dirs[i]):
                assert os.path.realpath(dirs[i]).startswith(os.path.realpath(root))
                os.unlink(os.path.join(dirs[i], n))

        def start(i):
            clear(i)
            np.random.seed(plan["sims"][i]["c"]["seed"] & 0x7FFFFFFF)
            sims[i].run()

        with fs.active(fs.Disk(root)):
            for op, i, a, k in plan["ops"]:
                if op == "new" and i not in sims:
                    s = plan["sims"][i]
                    bdg = slots[s["b"]].bdg
                    cfgs[i], _ = rays.configure(bdg, fix(s["c"]), os.path.join(root, f"r{i}"), s["params"])
                    dirs[i] = cfgs[i].paths["buffer_dir"]
                    sims[i] = Simulation(bdg, cfgs[i])
                    changed += len(sims) > 1
                elif op == "edit":
                    slots[i].edit(a, k)
                    changed += 1
                elif op == "drop":
                    slots[i] = None
                    geo.collect()
                    slots[i] = slot(i)
                    changed += 1
                elif op == "convert":
                    b = slots[i].bdg
                    if a == "arrays":
                        to_array_format(b)
                    elif a == "graph":
                        b.get_graph(new=k % 2 == 0)
                    else:
                        find_transparent(b)
                elif op == "set" and i in sims:
                    self.change(cfgs[i], a, k, slots[plan["sims"][i]["b"]].bdg)
                    changed += 1
                elif op == "interrupt" and i in sims:
                    n = world.interrupt_point(lambda: start(i), k)
                    clear(i)
                    sched.COUNT[0] = 0
                    sched.INTERRUPT[:] = [n, Interrupt if a == "a" else MemoryError]
                    try:
                        start(i)
                    except (Interrupt, MemoryError):
                        inter += 1
                        changed += 1
                    finally:
                        sched.INTERRUPT[0] = None
                elif op == "run" and i in sims:
                    start(i)
                    runs += 1
                    again += i in ran
                    ran.add(i)
                    late |= changed > 0 or i in ran
                    got = rays.History()
                    got.pos, got.enr, got.hit = read_buffers(dirs[i], cfgs[i])
                    d = rays.differ(got, want[i], 1e-9, f"simulation {i}, run later than created")
                    if d:
                        raise Violation("other-history", d)
        return dict(key=digest(plan["specs"], plan["sims"], plan["ops"]), nontrivial=runs > 0 and changed > 0,
                    stats=dict(simulations=runs, repeated_runs=again, interrupted_runs=inter, changes_in_between=changed,
                               addresses_reused=addr.reused))


CHECK = C32()
