"""C15: adjacency graph answers match the question asked."""
from sim import geo, model, sched, world
from sim.raycheck import MODULES, digest
from sim.runner import ThreadCheck
from sim.world import Violation

LEVELS = ("polygon", "wall", "solid", "zone")
RELS = ("facing", "overlapping", "touching")


class Interrupt(KeyboardInterrupt):
    pass


class C15(ThreadCheck):
    id = "C15"
    modules = MODULES
    quick, thorough = 240, 2600
    note = ("Seeded search over histories of graph requests of different levels and relations, edits, stitching, "
            "interrupted and concurrent requests; every answer is compared with relations computed independently.")
    rule = ("a run counts when at least two requests were answered with a different request, an edit, an interruption "
            "or a concurrent request in between; distinct by operations and answers")
    lists = ("ops",)
    real_components = ("building3d: building construction and editing, graph construction, predicates of polygons, "
                       "transparency search")
    stub_components = ("thread switches, locks, interrupts (KeyboardInterrupt and MemoryError at chosen points), "
                       "uuid, clock (all simulated)")
    assumptions = ["for non-convex surfaces, overlapping and touching are taken from the pairwise predicates"]

    def gen(self, rng, tier):
        ops = []
        few = rng.random() < 0.5
        masks = [rng.randrange(1, 8) for _ in range(2)]
        for _ in range(rng.randint(3, 11)):
            op = rng.choice(["ask", "ask", "ask", "ask", "edit", "edit", "interrupt", "threads", "transparent",
                             "other", "badlevel", "empty"])
            mask = rng.choice(masks) if few else rng.randrange(1, 8)
            ops.append([op, rng.randrange(1 << 20), rng.choice(geo.EDITS), rng.randrange(1, 1 << 20),
                        mask, rng.choice(LEVELS), rng.random() < 0.35])
            if op == "interrupt" and rng.random() < 0.7:  # asked again, perhaps for another level
                ops.append(["ask", ops[-1][1], "", 1, mask, rng.choice(LEVELS), False])
        return dict(specs=[geo.shape(rng, rng.choice([2, 2, 3])), geo.shape(rng, 2)], ops=ops, second=rng.random() < 0.3,
                    policies=[self.policy(rng) for _ in range(3)], world=rng.randrange(1 << 30))

    def policy(self, rng):
        p = sched.random_policy(rng, 20000)
        if p[0] == "walk" and rng.random() < 0.9:
            p[2] = max(p[2], 60)
            p[3] = min(p[3], 0.05)
        return p

    def execute(self, plan):
        world.seed_world(plan["world"])
        slots = [geo.Slot(s) for s in plan["specs"][: 2 if plan["second"] else 1]]
        versions = {id(s): [geo.relation_truth(s.bdg)] for s in slots}
        low = {}  # (slot, relations) -> oldest version an answer may reflect
        asked = events = 0
        trace = []

        def request(slot, mask, level, new):
            kw = {r: bool(mask >> i & 1) for i, r in enumerate(RELS)}
            if mask == 1 and len(slot.spec["zones"]) == 1:
                kw = {}  # the default question
            return lambda: slot.bdg.get_graph(new=new, level=level, **kw)

        def check(slot, mask, level, new, got, how):
            nonlocal asked
            asked += 1
            vs = versions[id(slot)]
            key = (id(slot), mask)
            first = len(vs) - 1 if new else low.get(key, len(vs) - 1)
            rels = [r for i, r in enumerate(RELS) if mask >> i & 1]
            g = {k: set(v) for k, v in got.items()}
            for k, v in got.items():
                if len(v) != len(set(v)):
                    raise Violation("duplicates", f"{how}: neighbours of {k} repeated: {sorted(v)[:4]}")
            ok = [i for i in range(first, len(vs))
                  if {k: v for k, v in geo.expected_graph(vs[i], level, rels).items() if v or k in g} ==
                  {k: v for k, v in g.items() if v or k in geo.expected_graph(vs[i], level, rels)}]
            trace.append([mask, level, new, len(ok)])
            if not ok:
                want = geo.expected_graph(vs[-1], level, rels)
                miss = sorted((a, b) for a in want for b in want[a] if b not in g.get(a, ()))
                extra = sorted((a, b) for a in g for b in g[a] if b not in want.get(a, ()))
                raise Violation("wrong-graph", f"{how}: graph of {'+'.join(rels)} at level {level} (new={new}), compared "
                                               f"with the current geometry, lacks {miss[:3]} and has {extra[:3]}")
            low[key] = min(ok)

        for op, k, ed, n, mask, level, new in plan["ops"]:
            slot = slots[k % len(slots)]
            if op == "ask":
                check(slot, mask, level, new, request(slot, mask, level, new)(), "request")
            elif op == "edit":
                if slot.edit(ed, k):
                    versions[id(slot)].append(geo.relation_truth(slot.bdg))
                    events += 1
            elif op == "interrupt":
                n = world.interrupt_point(request(slot, mask, level, new), n)
                sched.COUNT[0] = 0
                sched.INTERRUPT[:] = [n, Interrupt if k % 2 else MemoryError]
                try:
                    got = request(slot, mask, level, new)()
                except (Interrupt, MemoryError):
                    events += 1
                    got = None
                    low.setdefault((id(slot), mask), len(versions[id(slot)]) - 1)  # it may have been calculated
                finally:
                    sched.INTERRUPT[0] = None
                if got is not None:
                    check(slot, mask, level, new, got, "request")
            elif op == "threads":
                reqs = []
                for j in range(2 + k % 2):
                    m = mask if j == 0 else 1 + (k >> (3 * j)) % 7
                    reqs.append((slots[(k + j) % len(slots)] if k % 3 == 0 else slot, m, LEVELS[(k >> j) % 4],
                                 (k >> (j + 5)) % 2 == 0))
                # what a request may answer depends on what was known before all of them
                before = dict(low)
                run = self.threads(plan, [request(*r) for r in reqs])
                after = {}
                for t, r in zip(run.tasks, reqs):
                    if t.error is not None:
                        raise Violation("request-failed", f"a concurrent request failed: {t.error!r}")
                    low.clear()
                    low.update(before)
                    check(*r, t.result, "concurrent request")
                    key = (id(r[0]), r[1])
                    after[key] = min(after.get(key, 10 ** 9), low[key])
                low.clear()
                low.update(before)
                low.update(after)
                events += 1
            elif op == "transparent":
                from building3d.sim.rays.find_transparent import find_transparent

                find_transparent(slot.bdg)
            elif op == "other":
                b = model.build(plan["specs"][-1])
                b.get_graph(new=True, level=level)
                events += 1
            elif op == "badlevel":
                low.setdefault((id(slot), 1), len(versions[id(slot)]) - 1)
                try:
                    slot.bdg.get_graph(level="roof")
                except Exception:
                    pass
            elif op == "empty":
                # a question about no relation has only empty answers
                g = slot.bdg.get_graph(new=new, level=level, facing=False)
                if any(g.values()):
                    raise Violation("wrong-graph", f"graph of no relation at level {level} is not empty: {g}")
                events += 1
        return dict(key=digest(plan["specs"], plan["ops"], trace), nontrivial=asked >= 2 and events > 0,
                    stats=dict(requests=asked, events_in_between=events, versions=sum(map(len, versions.values())),
                               switches=sum(len(x) for x in sched.RECORDED)))


CHECK = C15()
