"""C11: a saved building reads back as the same building."""
import os

from sim import diskcheck, iocheck, world
from sim.iocheck import IoCheck
from sim.raycheck import digest
from sim.world import Violation


class C11(IoCheck):
    id = "C11"
    quick, thorough = 1600, 25000
    note = ("Seeded search over histories of saves, edits, copies and reads of several files in all three formats "
            "on a disk with short and interrupted calls; each read is compared with the last save.")
    rule = ("a run counts when at least one file was overwritten or re-saved after reading and compared again, or a "
            "short or interrupted call was injected; distinct by buildings, operations and injected faults")
    lists = ("ops",)

    def gen(self, rng, tier):
        blds = [iocheck.gen_spec(rng) for _ in range(rng.randint(1, 3))]
        paths = []
        for i in range(rng.randint(1, 3)):
            fmt = rng.choice(["b3d", "b3d", "bim", "bim", "stl"])
            paths.append([fmt, rng.choice(["f", "dir/f", "a/b/c/f", "with space/f", "f.x", "üml/f"]) + f"{i}.{fmt}"])
        ops = []
        for _ in range(rng.randint(2, 9)):
            k = rng.choice(["save", "save", "save", "read", "edit", "resave", "foreign"])
            ops.append([k, rng.randrange(len(paths)), rng.randrange(len(blds)), rng.randrange(1 << 20),
                        self.faults(rng)])
        ops.append(["read", rng.randrange(len(paths)), 0, 0, self.faults(rng)])
        return dict(buildings=blds, paths=paths, ops=ops, relative=rng.random() < 0.3,
                    encoding=rng.choice(["utf-8", "utf-8", "cp1252", "ascii"]), world=rng.randrange(1 << 30))

    def faults(self, rng):
        if rng.random() < 0.4:
            return []
        return [[k, diskcheck.gen_fault(rng, ("short", "intr"))] for k in range(1, 25) if rng.random() < 0.35]

    def execute(self, plan):
        world.seed_world(plan["world"])
        from sim import fs

        blds = [iocheck.build_named(b["spec"], b["nseed"], b["odd"]) for b in plan["buildings"]]
        root = os.path.join(world.scratch(), "w")
        os.mkdir(root)
        saved = {}  # path number -> (format, content)
        inj = {}
        again = reads = saves = 0
        try:
            os.chdir(root)

            def disk(faults, fn):
                d = fs.Disk(root, {int(k): f for k, f in faults})
                d.encoding = plan["encoding"]
                try:
                    with fs.active(d):
                        return fn()
                finally:
                    diskcheck.count(d.injected, inj)

            def check(i, faults):
                nonlocal reads
                fmt, name, p = full(i)
                got = disk(faults, lambda: iocheck.read(fmt, p))
                reads += 1
                diff = iocheck.first_difference(iocheck.content(got, fmt), saved[i])
                if diff:
                    raise Violation("different", f"{fmt} file read back: {diff}")
                return got

            def full(i):
                fmt, name = plan["paths"][i % len(plan["paths"])]
                return fmt, name, name if plan["relative"] else os.path.join(root, name)

            for op, i, b, k, faults in plan["ops"]:
                i %= len(plan["paths"])
                fmt, name, p = full(i)
                b %= len(blds)
                if op == "save":
                    parents = True
                    if os.path.isdir(os.path.dirname(os.path.join(root, name))) and k % 3 == 0:
                        parents = False
                    disk(faults, lambda: iocheck.write(fmt, p, blds[b], parents))
                    again += i in saved
                    saved[i] = iocheck.content(blds[b], fmt)
                    saves += 1
                    check(i, [])
                elif op == "read" and i in saved:
                    check(i, faults)
                elif op == "resave" and i in saved:
                    # what was read is saved elsewhere and must read the same
                    got = check(i, [])
                    j = k % len(plan["paths"])
                    f2, _, p2 = full(j)
                    disk(faults, lambda: iocheck.write(f2, p2, got))
                    saved[j] = iocheck.content(got, f2)
                    again += 1
                    check(j, [])
                elif op == "edit":
                    self.edit(blds[b], k)
                elif op == "foreign":
                    os.makedirs(os.path.dirname(os.path.join(root, name)), exist_ok=True)
                    with open(os.path.join(root, name + ".bak"), "w") as f:
                        f.write("x" * (k % 100))
            # in the end every file still reads as it was saved last
            for i in sorted(saved):
                check(i, [])
        finally:
            os.chdir("/")
            world.rmtree(os.path.dirname(root))
        return dict(key=digest(plan["buildings"], plan["ops"], plan["paths"]), nontrivial=bool(inj) or again > 0,
                    stats=dict(saves=saves, reads=reads, saves_over_existing=again, faults=inj))

    def edit(self, bdg, k):
        """Change the building between saves: move a solid, rename or drop something."""
        from building3d.geom.polygon import Polygon
        from building3d.geom.wall import Wall

        zs = list(bdg.zones.values())
        z = zs[k % len(zs)]
        s = list(z.solids.values())[k % len(z.solids)]
        w = list(s.walls.values())[k % len(s.walls)]
        kind = k % 4
        if kind == 0:
            new = Wall([Polygon(p.pts.copy(), name="r" + p.name)
                        for p in w.polygons.values()], w.name)
            s.replace_wall(w.name, new)
        elif kind == 1 and len(s.walls) > 1:
            s.replace_wall(w.name, Wall([Polygon(p.pts + 0.125, name=p.name) for p in w.polygons.values()],
                                        f"moved{k}"))
        elif kind == 2:
            p = list(w.polygons.values())[k % len(w.polygons)]
            w.replace_polygon(p.name, Polygon(p.pts * 0.5, name=p.name + "h"))
        else:
            p = list(w.polygons.values())[0]
            if f"extra{k}" not in w.polygons:
                w.add_polygon(Polygon(p.pts + 1.0, name=f"extra{k}"))


CHECK = C11()
