"""C18: stitching keeps every wall whole, whatever the names, order or interruptions."""
from collections import defaultdict

import numpy as np

from sim import geo, model, sched, world
from sim.raycheck import digest
from sim.runner import Check
from sim.world import Violation


class Interrupt(KeyboardInterrupt):
    pass


class C18(Check):
    id = "C18"
    mode = "full"
    modules = ("building3d.geom.building", "building3d.geom.solid.box", "building3d.geom.solid.stitch",
               "building3d.sim.rays.find_transparent")
    quick, thorough = 500, 7000
    note = ("Seeded search over arrangements of boxes, names, earlier requests and interruption points of stitching; "
            "areas, planes and matching surfaces are computed independently.")
    rule = ("a run counts when stitching changed the building or was interrupted; distinct by arrangement, names, "
            "history and interruption points")
    lists = ("history", "interrupts")
    real_components = "building3d: building construction, graphs, stitching, slicing of polygons"
    stub_components = "interrupts (KeyboardInterrupt and MemoryError at chosen points), uuid (seeded)"
    assumptions = ["arrangements in which one surface lies inside another without sharing a corner may be refused by "
                   "stitching or left unmatched (a limit of the library); walls must stay whole there, too"]

    def gen(self, rng, tier):
        a = [rng.choice([1.0, 1.5, 2.0, 1.25]) for _ in range(3)]
        kind, b, at = model.contact(rng, a)
        off = [rng.choice([0.0, 1.0, -2.5, 0.1]) for _ in range(3)]
        solids = [dict(size=a, at=off), dict(size=b, at=[x + y for x, y in zip(off, at)])]
        grow = rng.choice([0, 0, 1, 2, 3])
        if rng.random() < (0.7 if grow else 0.25):
            # another pair far away, perhaps with the same names
            k2, b2, at2 = model.contact(rng, a)
            far = [x + y for x, y in zip(off, (20.0, 0.0, 0.0))]
            solids += [dict(size=a, at=far), dict(size=b2, at=[x + y for x, y in zip(far, at2)])]
            kinds = [kind, k2]
        else:
            kinds = [kind]
        if rng.random() < 0.5:
            for i in range(0, len(solids), 2):
                if rng.random() < 0.5:
                    solids[i], solids[i + 1] = solids[i + 1], solids[i]
        nz = rng.randint(1, min(3, len(solids)))
        zone = [i if i < nz else rng.randrange(nz) for i in range(len(solids))]
        rng.shuffle(zone)
        return dict(solids=solids, kinds=kinds, zone=zone, names=rng.choice(["unique", "reused", "reused"]),
                    walls=rng.choice(["box", "box", "one", "same"]),
                    history=[[rng.choice(["graph", "transparent", "other", "stitch"]), rng.randrange(1 << 16)]
                             for _ in range(rng.choice([0, 0, 1, 3]))],
                    interrupts=[rng.choice([rng.randrange(1, 300), rng.randrange(1, 30000),
                                            rng.randrange(1, 150000), ["near", rng.randrange(20), rng.randrange(-9, 4)],
                                            ["near", rng.randrange(20), rng.randrange(-3, 2)]])
                                for _ in range(rng.choice([0, 1, 1, 2, 4]))],
                    grow=grow, world=rng.randrange(1 << 30))

    def build(self, plan):
        from building3d.geom.building import Building
        from building3d.geom.polygon import Polygon
        from building3d.geom.solid import Solid
        from building3d.geom.solid.box import box
        from building3d.geom.wall import Wall
        from building3d.geom.zone import Zone

        zones = defaultdict(list)
        for i, (s, z) in enumerate(zip(plan["solids"], plan["zone"])):
            name = f"s{i}" if plan["names"] == "unique" else f"s{len(zones[z])}"
            b = box(*s["size"], tuple(s["at"]), name)
            polys = [(w.name, p) for w in b.walls.values() for p in w.polygons.values()]
            if plan["walls"] == "one":
                b = Solid([Wall([Polygon(p.pts.copy(), name=f"p{j}") for j, (_, p) in enumerate(polys)], "w")], name)
            elif plan["walls"] == "same":
                b = Solid([Wall([Polygon(p.pts.copy(), name="p")], f"w{j}") for j, (_, p) in enumerate(polys)], name)
            zones[z].append(b)
        if not plan.get("grow"):
            return Building([Zone(ss, f"z{k}") for k, ss in sorted(zones.items())], "b")
        # the building was looked at before its last solid was added
        last = plan["zone"][-1]
        late = zones[last].pop()
        bdg = Building([Zone(ss, f"z{k}") for k, ss in sorted(zones.items()) if ss], "b")
        for facing, overlapping in ((False, True), (True, False), (True, True))[:plan["grow"]]:
            bdg.get_graph(level="solid", facing=facing, overlapping=overlapping, touching=False)
        if zones[last]:
            bdg.zones[f"z{last}"].add_solid(late)
        else:
            bdg.add_zone(Zone([late], f"z{last}"))
        return bdg

    def sums(self, bdg):
        """{(wall, plane): area}, the plane with its orientation."""
        out = defaultdict(float)
        for f in model.faces(bdg):
            key = (f.path[1:4], tuple(np.round(f.n, 6) + 0.0), round(float(f.n @ f.o), 6) + 0.0)
            out[key] += f.area
        return out

    def whole(self, bdg, before, when):
        now = self.sums(bdg)
        for k in set(now) | set(before):
            if abs(now.get(k, 0.0) - before.get(k, 0.0)) > 1e-7:
                raise Violation("not-whole", f"{when}: wall {'/'.join(k[0])} with normal {k[1]} has area "
                                             f"{now.get(k, 0.0):.6f}, had {before.get(k, 0.0):.6f}")
        # the pieces of a surface do not overlap one another
        fs = defaultdict(list)
        for f in model.faces(bdg):
            fs[f.path[:4]].append(f)
        for g in fs.values():
            for i in range(len(g)):
                for j in range(i + 1, len(g)):
                    if np.abs(g[i].n - g[j].n).max() < 1e-6 and model.coplanar(g[i], g[j], 1e-7) \
                            and model.is_convex(g[i]) and model.is_convex(g[j]) \
                            and model.clip_area(g[i], g[j]) > 1e-7:
                        raise Violation("pieces-overlap", f"{when}: {g[i].path} and {g[j].path} overlap")

    def changes(self, plan, strict):
        """Points at which stitching an equal building changes it (a rehearsal without faults)."""
        if self.rehearsed is not None:
            return self.rehearsed
        bdg = self.build(plan)
        walls = [w for z in bdg.zones.values() for s in z.solids.values() for w in s.walls.values()]
        at = []
        last = None

        def look():
            nonlocal last
            now = [len(w.polygons) for w in walls]
            if now != last:
                if last is not None:
                    at.append(sched.COUNT[0])
                last = now

        sched.COUNT[0] = 0
        sched.LIMIT[0] = 20_000_000 if strict else 400_000
        sched.HOOK[0] = look
        try:
            bdg.stitch_solids()
        except Exception:
            pass
        finally:
            sched.HOOK[0] = sched.LIMIT[0] = None
        self.rehearsed = at
        return at

    rehearsed = None

    def execute(self, plan):
        from building3d.sim.rays.find_transparent import find_transparent

        world.seed_world(plan["world"])
        bdg = self.build(plan)
        fs = model.faces(bdg)
        before = self.sums(bdg)
        # which surfaces are in contact with another solid, and the common area of each pair of solids
        common = defaultdict(float)
        touched = set()
        for i in range(len(fs)):
            for j in range(len(fs)):
                x, y = fs[i], fs[j]
                if x.path[:3] < y.path[:3] and np.abs(x.n + y.n).max() < 1e-9 and model.coplanar(x, y):
                    area = model.clip_area(x, y)
                    if area > 1e-9:
                        common[x.path[:3], y.path[:3]] += area
                        touched |= {x.path, y.path}
        alone = {path: (p, p.pts.copy()) for path, p in model.polygons(bdg) if path not in touched}
        strict = all(k not in ("edge", "strip", "inner") for k in plan["kinds"])
        inter = raised = 0

        def check(when):
            self.whole(bdg, before, when)
            now = dict(model.polygons(bdg))
            for path, (p, pts) in alone.items():
                if path not in now or now[path].pts.shape != pts.shape or not np.array_equal(now[path].pts, pts):
                    raise Violation("touched", f"{when}: surface {'/'.join(path)}, which meets no other, was changed")

        def stitch():
            nonlocal raised
            sched.COUNT[0] = 0
            # arrangements the library cannot stitch may recurse without end
            sched.LIMIT[0] = 20_000_000 if strict else 400_000
            try:
                bdg.stitch_solids()
                return True
            except sched.Starved as e:
                if strict:
                    raise Violation("no-progress", str(e))
                raised += 1
                return False
            except Exception as e:
                raised += 1
                if strict:
                    raise Violation("refused", f"stitching an arrangement {plan['kinds']} failed: {e!r}")
                return False
            finally:
                sched.LIMIT[0] = None

        for op, k in plan["history"]:
            if op == "graph":
                bdg.get_graph(new=k % 2 == 0, level=("polygon", "wall", "solid", "zone")[k % 4], facing=k % 3 != 0,
                              overlapping=k % 5 < 2)
            elif op == "transparent":
                find_transparent(bdg)
            elif op == "other":
                sched.COUNT[0] = 0
                sched.LIMIT[0] = 400_000
                try:
                    self.build(dict(plan, names="unique")).stitch_solids()
                except Exception:
                    pass
                finally:
                    sched.LIMIT[0] = None
            elif op == "stitch":
                stitch()
                check("after stitching once")
        for n in plan["interrupts"]:
            if isinstance(n, list):
                at = self.changes(plan, strict)
                if not at:
                    continue
                n = max(1, at[n[1] % len(at)] + n[2])
            sched.COUNT[0] = 0
            sched.INTERRUPT[:] = [n, Interrupt if n % 2 else MemoryError]
            sched.LIMIT[0] = 20_000_000 if strict else 400_000
            try:
                bdg.stitch_solids()
            except (Interrupt, MemoryError):
                inter += 1
            except Exception:
                if strict:
                    raise
            finally:
                sched.INTERRUPT[0] = sched.LIMIT[0] = None
            check(f"after an interruption at point {n}")
        done = stitch()
        check("after stitching")
        if done and strict:
            now = model.faces(bdg)
            match = defaultdict(float)
            for i, j in model.facing_pairs(now):
                match[tuple(sorted((now[i].path[:3], now[j].path[:3])))] += now[i].area
            for pair in set(common) | set(match):
                if abs(common.get(pair, 0.0) - match.get(pair, 0.0)) > 1e-7:
                    raise Violation("unmatched", f"{pair[0]} and {pair[1]} have {common.get(pair, 0.0):.6f} in common, "
                                                 f"matching surfaces of {match.get(pair, 0.0):.6f} after stitching")
            # nothing is left to do
            snap = model.snapshot(bdg)
            bdg.stitch_solids()
            if model.snapshot(bdg) != snap:
                raise Violation("not-final", "stitching again changed the building")
        changed = len(list(model.polygons(bdg))) != len(fs)
        return dict(key=digest(plan), nontrivial=changed or inter > 0,
                    stats=dict(interrupted=inter, refused=raised, changed=int(changed), strict=int(strict)))


CHECK = C18()
