"""C14: transparent surfaces always follow the building's current geometry."""
import random

from sim import geo, model, sched, world
from sim.raycheck import MODULES, REAL, digest
from sim.runner import ThreadCheck
from sim.world import Violation


class Interrupt(KeyboardInterrupt):
    pass


class C14(ThreadCheck):
    id = "C14"
    modules = MODULES
    quick, thorough = 1200, 18000
    note = ("Seeded search over histories of queries, edits, deleted buildings with reused addresses, callers that "
            "change answers, interrupted and concurrent queries; every answer is compared with geometry.")
    rule = ("a run counts when at least two queries were answered with an edit, deletion, interruption or concurrent "
            "query in between; distinct by the operations and the answers")
    lists = ("ops",)
    real_components = REAL
    stub_components = ("thread switches, locks, interrupts (KeyboardInterrupt and MemoryError at chosen points), "
                       "addresses returned by id(), uuid, clock (all simulated)")

    def gen(self, rng, tier):
        specs = [geo.shape(rng) for _ in range(rng.randint(1, 3))]
        ops = []
        for _ in range(rng.randint(3, 11)):
            op = rng.choice(["query", "query", "query", "edit", "edit", "edit", "new", "swap", "interrupt",
                             "threads", "spoil", "graph", "simulate", "save"])
            ops.append([op, rng.randrange(1 << 20), rng.choice(geo.EDITS), rng.randrange(1, 4000)])
        ops.append(["query", rng.randrange(1 << 20), "", 0])
        return dict(specs=specs, ops=ops, policies=[sched.random_policy(rng, 20000) for _ in range(3)],
                    world=rng.randrange(1 << 30))

    def execute(self, plan):
        from building3d.sim.rays.find_transparent import find_transparent

        world.seed_world(plan["world"])
        sched.ADDR[0] = addr = sched.Addresses()
        specs = plan["specs"]
        slots = [geo.Slot(s) for s in specs[:1]]
        queries = changes = inter = conc = 0
        answers = []

        def check(slot, got, how):
            nonlocal queries
            queries += 1
            want = model.transparent_paths(slot.bdg)
            got = set(got)
            answers.append(len(got))
            if got != want:
                raise Violation("wrong-answer", f"{how}: transparent surfaces missing: {sorted(want - got)[:4]}, "
                                                f"wrongly reported: {sorted(got - want)[:4]}")

        for op, k, ed, n in plan["ops"]:
            slot = slots[k % len(slots)]
            if op == "query":
                check(slot, find_transparent(slot.bdg), "query")
            elif op == "spoil":
                a = find_transparent(slot.bdg)
                check(slot, a, "query")
                if k % 3 == 0:
                    a.clear()
                elif k % 3 == 1:
                    a.add("b/z0/s0/floor/floor")
                else:
                    a.discard(next(iter(a), None))
                changes += 1
            elif op == "edit":
                changes += bool(slot.edit(ed, k))
            elif op == "new":
                if len(slots) < 3:
                    slots.append(geo.Slot(specs[k % len(specs)]))
            elif op == "swap":
                # the building is dropped, and another one built, perhaps at the same address
                i = k % len(slots)
                check(slot, find_transparent(slot.bdg), "query")
                slots[i] = slot = None
                geo.collect()
                slots[i] = geo.Slot(specs[(k // 7) % len(specs)])
                changes += 1
                check(slots[i], find_transparent(slots[i].bdg), "query of a new building")
            elif op == "interrupt":
                n = world.interrupt_point(lambda: find_transparent(slot.bdg), n)
                sched.COUNT[0] = 0
                sched.INTERRUPT[:] = [n, Interrupt if k % 2 else MemoryError]
                try:
                    got = find_transparent(slot.bdg)
                except (Interrupt, MemoryError):
                    inter += 1
                    changes += 1
                else:
                    check(slot, got, "query")
                finally:
                    sched.INTERRUPT[0] = None
            elif op == "threads":
                who = [slots[(k + j) % len(slots)] if k % 2 else slot for j in range(2 + k % 3)]
                run = self.threads(plan, [lambda s=s: find_transparent(s.bdg) for s in who])
                for t, s in zip(run.tasks, who):
                    if t.error is not None:
                        raise Violation("query-failed", f"a concurrent query failed: {t.error!r}")
                    check(s, t.result, "concurrent query")
                conc += 1
                changes += 1
            elif op == "graph":
                slot.bdg.get_graph(new=k % 2 == 0, facing=k % 3 != 0, overlapping=k % 5 < 2, touching=k % 7 == 0)
            elif op == "save":
                # another building with the same names is asked in between
                find_transparent(model.build(specs[k % len(specs)]))
                geo.collect()
            elif op == "simulate":
                nums = self.in_simulation(slot.bdg)
                if nums is not None:
                    by = {p.num: "/".join(path) for path, p in model.polygons(slot.bdg)}
                    check(slot, [by[i] for i in nums], "set-up of a simulation")
        return dict(key=digest(plan["specs"], plan["ops"], answers), nontrivial=queries >= 2 and changes > 0,
                    stats=dict(queries=queries, changes_in_between=changes, interrupted_queries=inter,
                               concurrent_groups=conc, addresses_reused=addr.reused,
                               nonempty_answers=sum(1 for a in answers if a),
                               switches=sum(len(x) for x in sched.RECORDED)))

    def in_simulation(self, bdg):
        """Numbers of the surfaces a simulation takes for transparent, if it tells."""
        import os

        from building3d.sim.rays.simulation import Simulation
        from building3d.sim.rays.simulation_config import SimulationConfig

        root = world.scratch()
        try:
            cfg = SimulationConfig(bdg)
            cfg.verbose = False
            cfg.paths["project_dir"] = root
            cfg.paths["buffer_dir"] = os.path.join(root, "states")
            nums = getattr(Simulation(bdg, cfg), "trans_poly_nums", None)
        finally:
            world.rmtree(root)
        return {int(x) for x in nums} - {-1} if isinstance(nums, (set, frozenset)) else None


CHECK = C14()
