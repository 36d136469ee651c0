"""C31: volumes, boxes, meshes and locations follow the current geometry."""
import numpy as np

from sim import geo, model, sched, world
from sim.raycheck import MODULES, digest
from sim.runner import ThreadCheck
from sim.world import Violation

KINDS = ("volume", "volume", "bbox", "bbox", "mesh", "inside", "inside", "location", "location", "surface", "adjacent")


class Interrupt(KeyboardInterrupt):
    pass


def newell(pts):
    n = np.zeros(3)
    for a, b in zip(pts, np.roll(pts, -1, axis=0)):
        n += np.cross(a, b)
    return n / 2


class C31(ThreadCheck):
    id = "C31"
    modules = tuple(dict.fromkeys(MODULES + ("building3d.geom.building.find_location", "building3d.geom.bboxes",
                                             "building3d.geom.mesh", "building3d.geom.building.get_mesh",
                                             "building3d.geom.zone.get_mesh", "building3d.geom.solid.get_mesh",
                                             "building3d.geom.wall.get_mesh")))
    quick, thorough = 900, 14000
    note = ("Seeded search over histories of questions about volumes, boxes, meshes, points and neighbours of objects at all "
            "levels, with edits, resized rooms, twins with equal names and identifiers, deleted buildings with reused "
            "addresses, interruptions and concurrent questions; every answer is computed independently from the vertices.")
    rule = ("a run counts when at least two questions were answered with an edit, another building, an interruption or a "
            "concurrent question in between; distinct by the operations and the answers")
    lists = ("ops",)
    real_components = "building3d: buildings, their parts, meshes, boxes, volumes, point location, solid adjacency"
    stub_components = ("thread switches, locks, interrupts (KeyboardInterrupt and MemoryError at chosen points), "
                       "addresses returned by id(), uuid, clock (all simulated)")
    assumptions = ["points asked for keep a distance of 0.02 from all surfaces",
                   "points are asked for in closed solids only"]

    def gen(self, rng, tier):
        specs = [geo.shape(rng) for _ in range(rng.randint(1, 2))]
        ops = []
        few = rng.sample(KINDS, 3) if rng.random() < 0.5 else KINDS
        for _ in range(rng.randint(4, 14)):
            op = rng.choice(["ask"] * 6 + ["edit", "resize", "resize", "resize", "twin", "swap", "interrupt", "threads"])
            ops.append([op, rng.randrange(1 << 20), rng.choice(few), rng.choice(geo.EDITS), rng.randrange(1, 4000)])
        ops.append(["ask", rng.randrange(1 << 20), rng.choice(few), "", 1])
        return dict(specs=specs, ops=ops, policies=[sched.random_policy(rng, 5000) for _ in range(3)],
                    world=rng.randrange(1 << 30))

    # ---- edits

    def resize(self, slot, k):
        """Give a box-shaped solid another size, wall by wall."""
        from building3d.geom.polygon import Polygon
        from building3d.geom.solid.box import box
        from building3d.geom.wall import Wall

        bs = [(z["name"], s) for z in slot.spec["zones"] for s in z["solids"] if s["kind"] == "box"]
        bs = [(z, s) for z, s in bs if (z, s["name"]) not in slot.open]
        if not bs:
            return False
        zn, s = bs[k % len(bs)]
        sld = slot.bdg.zones[zn].solids[s["name"]]
        new = dict(s, size=[q * (0.5, 0.75, 1.25, 2.0)[(k // 8 + i) % 4] for i, q in enumerate(s["size"])])
        ref = box(*new["size"], tuple(new["at"]), "ref")
        if sorted(ref.walls) != sorted(sld.walls):
            return False
        for wn in list(sld.walls):
            w = ref.walls[wn]
            if k % 2 or len(sld.walls[wn].polygons) != 1 or len(w.polygons) != 1:
                sld.replace_wall(wn, Wall([Polygon(p.pts.copy(), name=n) for n, p in w.polygons.items()], wn))
            else:  # only the surface is replaced
                old = next(iter(sld.walls[wn].polygons))
                p = next(iter(w.polygons.values()))
                sld.walls[wn].replace_polygon(old, Polygon(p.pts.copy(), name=old + "'"))
        s.update(new)
        return True

    def slot(self, spec):
        import json

        s = geo.Slot(json.loads(json.dumps(spec)))
        s.open = set()  # solids which may have been opened by an edit
        s.seen = {(path[1], path[2]) for path, _ in model.polygons(s.bdg)}
        return s

    def edit(self, slot, kind, k):
        before = {(path[1], path[2], path[3]): 0 for path, _ in model.polygons(slot.bdg)}
        for path, p in model.polygons(slot.bdg):
            before[path[1:4]] += float(np.abs(p.pts).sum()) + float(newell(p.pts).sum())
        done = slot.edit(kind, k)
        after = {}
        for path, p in model.polygons(slot.bdg):
            after[path[1:4]] = after.get(path[1:4], 0) + float(np.abs(p.pts).sum()) + float(newell(p.pts).sum())
        for w, v in after.items():
            if w not in before or abs(before[w] - v) > 1e-12:
                slot.open.add(w[:2])
        return done

    # ---- questions: (the call, judge of its answer)

    def question(self, slot, kind, k):
        from building3d.geom.building.find_location import find_location

        bdg = slot.bdg
        zones = list(bdg.zones.values())
        z = zones[k % len(zones)]
        sols = list(z.solids.values())
        s = sols[(k // 4) % len(sols)]
        walls = list(s.walls.values())
        w = walls[(k // 16) % len(walls)]
        polys = list(w.polygons.values())
        p = polys[(k // 64) % len(polys)]
        obj = (bdg, z, s, w, p)[(k // 7) % 5]

        def below(o):
            """Surfaces of an object."""
            if o is p:
                return [p]
            out = []
            for _, q in model.polygons(bdg):
                chain = [q.parent, q.parent.parent, q.parent.parent.parent, q.parent.parent.parent.parent]
                if any(x is o for x in chain):
                    out.append(q)
            return out

        if kind == "volume":
            obj = (bdg, z, s)[(k // 7) % 3]
            want = 0.0
            per = {}
            for q in below(obj):
                per.setdefault(id(q.parent.parent), []).append(float(q.pts[0] @ newell(q.pts)) / 3)
            want = sum(abs(sum(v)) for v in per.values())

            def judge(v):
                if abs(v - want) > 1e-3 * max(1.0, abs(want)):  # the library is no more precise
                    return f"volume of {obj.path} given as {v}, it is {want}"
            return (lambda: float(obj.volume if obj is s else obj.volume())), judge
        if kind == "bbox":
            if not hasattr(obj, "bbox"):
                obj = s
            pts = np.vstack([q.pts for q in below(obj)])
            want = np.array([pts.min(axis=0), pts.max(axis=0)])

            def judge(v):
                if not np.allclose(v, want, rtol=0, atol=1e-12):
                    return f"box around {obj.path} given as {v.tolist()}, it is {want.tolist()}"
            return (lambda: np.array(obj.bbox(), float)), judge
        if kind == "mesh":
            def triangles(v, f):
                t = np.asarray(v)[np.asarray(f)]
                return sorted(tuple(map(tuple, np.round(x, 9).tolist())) for x in t)

            want = []
            area = 0.0
            for q in below(obj):
                want += triangles(q.pts, q.tri)
                area += float(np.linalg.norm(newell(q.pts)))
            want.sort()

            def judge(m):
                v, f = m
                got = triangles(v, f)
                if obj is p:
                    t = np.asarray(v)[np.asarray(f)]
                    a = float(np.linalg.norm(np.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0]), axis=1).sum() / 2)
                    if abs(a - area) > 1e-9 * max(1.0, area):
                        return f"the mesh of {obj.path} covers {a}, the surface has {area}"
                elif got != want:
                    return (f"the mesh of {obj.path} has {len(got)} triangles, "
                            f"{len(set(got) ^ set(want))} of them not those of its {len(want)}")
            return (lambda: obj.get_mesh()), judge
        if kind == "surface":
            n = newell(p.pts)
            area = float(np.linalg.norm(n))
            n = n / area

            def judge(v):
                if abs(v[0] - area) > 1e-9 * max(1.0, area) or not np.allclose(v[1], n, rtol=0, atol=1e-9):
                    return f"{p.path} has area {v[0]} and normal {v[1]}, right are {area} and {n}"
            return (lambda: (float(p.area), np.array(p.vn))), judge
        if kind == "adjacent":
            zo = zones[(k // 3) % len(zones)]
            o = list(zo.solids.values())[(k // 5) % len(zo.solids)]
            fa = [model.Face((), q.pts) for q in below(s)]
            fb = [model.Face((), q.pts) for q in below(o)]
            if o is s or not all(map(model.is_convex, fa + fb)):
                return None
            fac = any(model.facing(x, y) for x in fa for y in fb)
            want = fac or any(model.overlapping(x, y) for x in fa for y in fb)

            def judge(v):
                if v != (want, fac):
                    return f"{s.path} and {o.path}: adjacent and matching given as {v}, right is {(want, fac)}"
            return (lambda: (bool(s.is_adjacent_to_solid(o)), bool(s.has_correct_interface(o)))), judge
        # points
        specs = {(zz["name"], x["name"]): x for zz in slot.spec["zones"] for x in zz["solids"]}
        closed = {key: x for key, x in specs.items() if key not in slot.open}
        if len(closed) != sum(len(x.solids) for x in zones):
            return None
        r = np.random.RandomState(k & 0xFFFF)
        key = sorted(closed)[k % len(closed)]
        lo, hi = model.solid_bounds(closed[key])
        for _ in range(50):
            pt = lo - 0.2 + (hi - lo + 0.4) * r.rand(3)
            if all(f.dist(pt[None, :])[0] > 0.02 for f in model.faces(bdg)):
                break
        else:
            return None
        holders = {"/".join((bdg.name,) + a) for a, x in closed.items() if model.inside_solid(x, pt[None, :], 0.0)[0]}
        if kind == "inside":
            sld = bdg.zones[key[0]].solids[key[1]]
            want = "/".join((bdg.name,) + key) in holders

            def judge(v):
                if v != want:
                    return f"point {pt.tolist()} is {'' if want else 'not '}inside {sld.path}, given as {v}"
            return (lambda: bool(sld.is_point_inside(pt))), judge
        first = ["/".join((bdg.name,) + a) for a in sorted(closed)][: k % 3]
        if k % 5 == 0:
            first = first[::-1]

        def ask():
            try:
                return find_location(pt, bdg, *first)
            except RuntimeError:
                return None

        def judge(v):
            if (v is None) != (not holders) or (v is not None and v not in holders):
                return f"point {pt.tolist()} is in {sorted(holders)}, given as {v}"
            pref = [x for x in first if x in holders]
            if pref and v != pref[0]:
                return f"point {pt.tolist()} was to be looked for in {first} first, given as {v}"
        return ask, judge

    def execute(self, plan):
        world.seed_world(plan["world"])
        sched.ADDR[0] = addr = sched.Addresses()
        specs = plan["specs"]
        slots = [self.slot(specs[0])]
        asked = changes = inter = conc = 0
        answers = []

        def check(q, v, how):
            nonlocal asked
            asked += 1
            d = q[1](v)
            answers.append(repr(v)[:60])
            if d:
                raise Violation("wrong-answer", f"{how}: {d}")

        for op, k, kind, ed, n in plan["ops"]:
            slot = slots[k % len(slots)]
            if op == "ask":
                q = self.question(slot, kind, k)
                if q:
                    check(q, q[0](), "question")
            elif op == "edit":
                changes += bool(self.edit(slot, ed, k))
            elif op == "resize":
                q = self.question(slot, kind, k)  # asked before and after
                if q:
                    check(q, q[0](), "question")
                changes += self.resize(slot, k)
                q = self.question(slot, kind, k)
                if q:
                    check(q, q[0](), "question after a change")
            elif op == "twin":
                if len(slots) < 3:
                    world.seed_world(plan["world"])  # the same names and identifiers
                    slots.append(self.slot(specs[0]))
                    changes += 1
                    self.resize(slots[-1], k)
            elif op == "swap":
                i = k % len(slots)
                slots[i] = slot = None
                geo.collect()
                slots[i] = self.slot(specs[(k // 7) % len(specs)])
                changes += 1
            elif op == "interrupt":
                q = self.question(slot, kind, k)
                if not q:
                    continue
                n = world.interrupt_point(q[0], n)
                sched.COUNT[0] = 0
                sched.INTERRUPT[:] = [n, Interrupt if k % 2 else MemoryError]
                try:
                    v = q[0]()
                except (Interrupt, MemoryError):
                    sched.INTERRUPT[0] = None
                    inter += 1
                    changes += 1
                    v = q[0]()
                finally:
                    sched.INTERRUPT[0] = None
                check(q, v, "question asked again after an interruption")
            elif op == "threads":
                qs = [self.question(slots[(k + j) % len(slots)] if k % 2 else slot, KINDS[(k + j * n) % len(KINDS)]
                                    if n % 2 else kind, k + 5 * j) for j in range(2 + k % 3)]
                qs = [q for q in qs if q]
                if len(qs) < 2:
                    continue
                run = self.threads(plan, [q[0] for q in qs])
                for t, q in zip(run.tasks, qs):
                    if t.error is not None:
                        raise Violation("question-failed", f"a concurrent question failed: {t.error!r}")
                    check(q, t.result, "concurrent question")
                conc += 1
                changes += 1
        return dict(key=digest(specs, plan["ops"], answers), nontrivial=asked >= 2 and changes > 0,
                    stats=dict(questions=asked, changes_in_between=changes, interrupted_questions=inter,
                               concurrent_groups=conc, addresses_reused=addr.reused,
                               switches=sum(len(x) for x in sched.RECORDED)))


CHECK = C31()
