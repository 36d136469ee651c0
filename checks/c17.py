"""C17: surface parameters: the last assignment covering a surface wins, and is used."""
import os

from sim import geo, model, world
from sim.raycheck import MODULES, REAL, digest
from sim.runner import Check
from sim.world import Violation


class C17(Check):
    id = "C17"
    mode = "off"
    modules = MODULES
    quick, thorough = 1500, 25000
    note = ("Seeded search over histories of assignments on paths of all levels, rejected assignments, changed "
            "defaults, edits of the building and conversions of it and others; arrays are compared with a "
            "last-writer model.")
    rule = ("a run counts when at least two assignments covering a common surface, or an assignment and an edit, a "
            "conversion or a changed default preceded a comparison; distinct by operations")
    lists = ("ops",)
    real_components = REAL
    stub_components = "uuid, clock and generators (seeded)"

    def gen(self, rng, tier):
        spec = model.gen_building(rng, ["box", "row", "cells", "plan"], 3)
        ops = []
        for _ in range(rng.randint(2, 12)):
            op = rng.choice(["set", "set", "set", "set", "bad", "default", "edit", "convert", "other", "compare",
                             "newconfig"])
            ops.append([op, rng.randrange(1 << 20), rng.choice([0.0, 0.05, 0.2, 0.3, 0.5, 0.77, 1.0]),
                        rng.choice(["shift", "restore", "add", "split", "addzone"])])
        ops.append(["compare", rng.randrange(1 << 20), 0.0, ""])
        return dict(spec=spec, ops=ops, world=rng.randrange(1 << 30))

    def execute(self, plan):
        from building3d.sim.rays.simulation_config import SimulationConfig
        from building3d.sim.rays.simulation import Simulation
        from building3d.io.arrayformat import to_array_format
        import numpy as np

        world.seed_world(plan["world"])
        slot = geo.Slot(plan["spec"])
        bdg = slot.bdg
        cfg = SimulationConfig(bdg)
        cfg.verbose = False
        want = {}
        default = cfg.surfaces["absorption"]["default"]
        sets = events = compared = 0
        root = None
        kept = []  # values given so far

        def paths(level):
            return sorted({"/".join(p[:level]) for p, _ in model.polygons(bdg)})

        try:
            for op, k, v, ed in plan["ops"]:
                if op == "set":
                    lev = (5, 5, 4, 3, 2, 1)[k % 6]
                    ps = paths(lev)
                    path = ps[k % len(ps)]
                    cfg.set_surface_param("absorption", path, v, bdg)
                    for q in paths(5):
                        if q == path or q.startswith(path + "/"):
                            want[q] = v
                    sets += 1
                elif op == "bad":
                    ps = paths((2, 3, 4, 5)[k % 4])
                    path = ps[k % len(ps)] + ("x", "/nothing", "", "-main")[k % 4]
                    if path in [q for n in range(1, 6) for q in paths(n)]:
                        path += "?"
                    before = dict(cfg.surfaces["absorption"])
                    try:
                        cfg.set_surface_param("absorption", path, 0.99, bdg)
                    except Exception:
                        events += 1
                        if dict(cfg.surfaces["absorption"]) != before:
                            raise Violation("rejected-assignment", f"the rejected assignment to {path} changed the "
                                                                   "configuration")
                    else:
                        raise Violation("accepted", f"an assignment to {path}, which does not exist, was accepted")
                elif op == "default":
                    default = v
                    cfg.surfaces["absorption"]["default"] = v
                    events += 1
                elif op == "edit":
                    events += bool(slot.edit(ed, k))
                elif op == "convert":
                    to_array_format(bdg)
                    events += 1
                elif op == "other":
                    # another building with the same names, converted and configured differently
                    o = model.build(plan["spec"])
                    oc = SimulationConfig(o)
                    oc.verbose = False
                    oc.set_surface_param("absorption", o.name, 0.123, o)
                    to_array_format(o)
                    oc.surface_params_to_array("absorption", o)
                    events += 1
                elif op == "newconfig":
                    if k % 3 == 0:
                        cfg = SimulationConfig(bdg)
                        cfg.verbose = False
                        want = {}
                        default = cfg.surfaces["absorption"]["default"]
                elif op == "compare":
                    if k % 2:
                        to_array_format(bdg)
                        arr = cfg.surface_params_to_array("absorption", bdg)
                    else:
                        root = world.scratch()
                        cfg.paths["project_dir"] = root
                        cfg.paths["buffer_dir"] = os.path.join(root, "states")
                        cfg.engine["search_transparent"] = False
                        s = Simulation(bdg, cfg)
                        arr = getattr(s, "surf_absorption", None)
                        world.rmtree(root)
                        root = None
                        if arr is None:
                            to_array_format(bdg)
                            arr = cfg.surface_params_to_array("absorption", bdg)
                    arr = np.asarray(arr)
                    for a, b in kept:
                        if not np.array_equal(a, b):
                            raise Violation("changed-later", "the values given for an earlier simulation were changed by "
                                                             "those of a later one")
                    kept.append((arr, arr.copy()))
                    compared += 1
                    ps = [("/".join(p), x) for p, x in model.polygons(bdg)]
                    if len(arr) != len(ps):
                        raise Violation("length", f"{len(arr)} values for {len(ps)} surfaces")
                    for path, x in ps:
                        w = want.get(path, default)
                        if arr[x.num] != w:
                            raise Violation("wrong-value", f"{path} has {arr[x.num]}, should have {w}")
        finally:
            if root:
                world.rmtree(root)
        return dict(key=digest(plan["spec"], plan["ops"]), nontrivial=compared > 0 and (sets >= 2 or (sets and events)),
                    stats=dict(assignments=sets, events_in_between=events, comparisons=compared))


CHECK = C17()
