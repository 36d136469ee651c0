"""C16: names, paths and ownership in the building tree stay consistent."""
from sim import sched, world
from sim.raycheck import digest
from sim.runner import Check
from sim.world import Violation

LEVELS = ("building", "zone", "solid", "wall", "polygon")
NAMES = ["a", "b", "c", "A", "0", "1", "", " ", "é", "a b", "a.b", "..", "-main", "a\\b"]
BAD = ["a/b", "/", "/a", "a/"]


class Interrupt(KeyboardInterrupt):
    pass


class C16(Check):
    id = "C16"
    mode = "full"
    modules = ("building3d.geom.building", "building3d.geom.zone", "building3d.geom.solid", "building3d.geom.wall",
               "building3d.geom.polygon")
    quick, thorough = 2500, 40000
    note = ("Seeded search over sequences of additions and replacements at all levels and renamings of the building, "
            "with colliding, unknown and invalid names and interruptions; the tree is compared with a reference tree after each.")
    rule = ("a run counts when at least one operation was rejected or interrupted and one accepted; distinct by the "
            "sequence of operations and outcomes")
    lists = ("ops",)
    real_components = "building3d: buildings, zones, solids, walls, polygons"
    stub_components = "interrupts (KeyboardInterrupt and MemoryError at chosen points), uuid (seeded)"

    def gen(self, rng, tier):
        few = rng.sample(NAMES, rng.choice([3, 4, 6]))
        ops = []
        for _ in range(rng.randint(4, 24)):
            op = rng.choice(["add", "add", "add", "add", "replace_wall", "replace_polygon", "replace_polygon",
                             "construct", "bad_name", "lookup", "rename", "paths"])
            ops.append([op, rng.randrange(1 << 20), [rng.choice(few) for _ in range(4)],
                        rng.choice([0, 0, 0, rng.randrange(1, 40), rng.randrange(1, 250)]), rng.randrange(1 << 20)])
        return dict(ops=ops, name=rng.choice(NAMES), world=rng.randrange(1 << 30))

    # ---- objects

    def make(self, level, names, k, deep):
        """A new object of a level with children of its own, not yet in the tree."""
        from building3d.geom.polygon import Polygon
        from building3d.geom.solid import Solid
        from building3d.geom.wall import Wall
        from building3d.geom.zone import Zone
        import numpy as np

        if level == "polygon":
            z = float(k % 7)
            return Polygon(np.array([[0.0, 0, z], [1, 0, z], [1, 1, z], [0, 1, z]]), name=names[0])
        cls = {"wall": Wall, "solid": Solid, "zone": Zone}[level]
        n = k % 3 if deep else 0
        low = LEVELS[LEVELS.index(level) + 1]
        kids = [self.make(low, [x] + names[1:], k // 3 + i, deep) for i, x in enumerate(dict.fromkeys(names[1:1 + n]))]
        obj = cls(kids, names[0])
        if k % 2:  # paths asked for while the object is not yet in the tree
            self.paths(obj, names[0])
        return obj

    def paths(self, obj, path):
        if obj.path != path:
            raise Violation("path", f"path of the object at {path} is {obj.path}")
        if isinstance(obj.children, dict):
            for n, c in obj.children.items():
                self.paths(c, path + "/" + n)

    def tree(self, obj):
        """The tree below an object as (object, {name: subtree}) in order."""
        kids = obj.children
        if not isinstance(kids, dict):
            return (obj, None)
        return (obj, {n: self.tree(c) for n, c in kids.items()})

    def same(self, a, b, ordered=True):
        if a[0] is not b[0]:
            return False
        if a[1] is None or b[1] is None:
            return a[1] is b[1]
        if set(a[1]) != set(b[1]) or (ordered and list(a[1]) != list(b[1])):
            return False
        return all(self.same(a[1][n], b[1][n], ordered) for n in a[1])

    def nodes(self, t, level):
        """All objects at a level of a tree, with their reference subtrees."""
        if level == 0:
            return [t]
        return [x for c in t[1].values() for x in self.nodes(c, level - 1)]

    # ---- invariants

    def consistent(self, bdg, ref):
        """Everything in the tree is found where it is and knows where it is."""
        if not self.same(self.tree(bdg), ref, ordered=False):
            raise Violation("tree", f"tree is {self.show(self.tree(bdg))}, should be {self.show(ref)}")
        polys = []

        def walk(t, parent, path, level):
            obj, kids = t
            if level and obj.parent is not parent:
                raise Violation("parent", f"parent of {path} is {obj.parent!r}")
            if obj.path != path:
                raise Violation("path", f"path of the object at {path} is {obj.path}")
            if bdg.get(path) is not obj:
                raise Violation("lookup", f"looking up {path} finds {bdg.get(path)!r}")
            if obj.get(path) is not obj:
                raise Violation("lookup", f"looking up {path} from the object itself finds something else")
            if kids is None:
                polys.append(path)
                return [path]
            out = []
            for n, c in kids.items():
                if c[0].name != n:
                    raise Violation("name", f"object {c[0].name} is stored as {n} in {path}")
                if obj[n] is not c[0]:
                    raise Violation("lookup", f"{path} gives another object for {n}")
                out += walk(c, obj, path + "/" + n, level + 1)
            got = obj.get_polygon_paths()
            if sorted(got) != sorted(out):
                raise Violation("polygon-paths", f"surfaces of {path}: {got}, should be {out}")
            return out

        walk(self.tree(bdg), None, bdg.name, 0)

    def show(self, t):
        if t[1] is None:
            return t[0].name
        return t[0].name + "{" + ", ".join(self.show(c) for c in t[1].values()) + "}"

    # ---- one run

    def execute(self, plan):
        from building3d.geom.building import Building

        world.seed_world(plan["world"])
        bdg = Building((), plan["name"])
        ref = (bdg, {})
        done = rejected = interrupted = 0
        trace = []
        for op, k, names, at, seed in plan["ops"]:
            ref = self.tree(bdg)
            if op == "lookup":
                self.lookup(bdg, names, k)
                continue
            if op == "bad_name":
                self.bad(k)
                continue
            if op == "rename":  # only the building: nothing is stored under its name
                bdg.name = names[0]
                self.consistent(bdg, ref)
                continue
            if op == "paths":
                self.consistent(bdg, ref)
                continue
            if op == "construct":
                r = self.construct(k, names)
                rejected += r
                continue
            self.fresh = []
            want_error, call, after = self.prepare_op(bdg, ref, op, k, names, seed)
            if call is None:
                continue
            sched.COUNT[0] = 0
            sched.INTERRUPT[:] = [at or None, Interrupt if k % 2 else MemoryError]
            out = None
            try:
                call()
                out = "done"
            except (Interrupt, MemoryError):
                out = "interrupted"
            except Exception as e:
                out = "rejected"
                err = e
            finally:
                sched.INTERRUPT[0] = None
            trace.append([op, out])
            now = self.tree(bdg)
            if out == "done":
                done += 1
                if want_error:
                    raise Violation("accepted", f"{op} {names} was accepted, but should have been rejected: {want_error}")
                self.consistent(bdg, after)
            elif out == "rejected":
                rejected += 1
                if not want_error:
                    raise Violation("refused", f"{op} {names} was rejected: {err!r}")
                if not self.same(now, ref):
                    raise Violation("changed-by-rejected", f"rejected {op} {names} changed {self.show(ref)} to "
                                                           f"{self.show(now)}")
                self.consistent(bdg, ref)
                for o in self.fresh:  # a rejected object belongs to nothing
                    if o.parent is not None or o.path != o.name:
                        raise Violation("rejected-object", f"{o.name!r}, rejected by {op}, has the path {o.path!r}")
            else:
                interrupted += 1
                if self.same(now, ref, ordered=False):
                    self.consistent(bdg, ref)
                elif not want_error and self.same(now, after, ordered=False):
                    self.consistent(bdg, after)
                else:
                    raise Violation("half-done", f"interrupted {op} {names} changed {self.show(ref)} to "
                                                 f"{self.show(now)}")
        self.consistent(bdg, self.tree(bdg))
        self.rehome(bdg, plan["world"])
        return dict(key=digest(plan["name"], plan["ops"], trace), nontrivial=done > 0 and rejected + interrupted > 0,
                    stats=dict(accepted=done, rejected=rejected, interrupted=interrupted))

    def prepare_op(self, bdg, ref, op, k, names, seed):
        """(reason for rejection or None, the call, the tree expected afterwards)."""
        if op == "add":
            level = k % 4
            ps = self.nodes(ref, level)
            if not ps:
                return None, None, None
            pobj, kids = ps[seed % len(ps)]
            low = LEVELS[level + 1]
            obj = self.make(low, names, seed, deep=k % 5 < 3)
            self.fresh.append(obj)
            err = f"{names[0]!r} exists" if names[0] in kids else None
            if err:
                # the rejected object may be at home elsewhere in the tree
                homes = [t[0] for p in ps if p[0] is not pobj for n, t in p[1].items() if n == names[0]]
                if homes and k % 3:
                    obj = homes[k % len(homes)]
            new = None
            if err is None:
                new = self.replaced(ref, pobj, {**kids, obj.name: self.tree(obj)})
            return err, lambda: getattr(pobj, "add_" + low)(obj), new
        if op == "replace_wall":
            ps = self.nodes(ref, 2)
            if not ps:
                return None, None, None
            pobj, kids = ps[seed % len(ps)]
            old = names[0] if k % 4 == 0 or not kids else list(kids)[k % len(kids)]
            name = old if k % 3 == 0 else names[1]
            obj = self.make("wall", [name] + names[2:], seed, deep=True)
            self.fresh.append(obj)
            rest = {n: t for n, t in kids.items() if n != old}
            err = "unknown name" if old not in kids else f"{name!r} exists" if name in rest else None
            new = None if err else self.replaced(ref, pobj, {**rest, name: self.tree(obj)})
            return err, lambda: pobj.replace_wall(old, obj), new
        ps = self.nodes(ref, 3)
        if not ps:
            return None, None, None
        pobj, kids = ps[seed % len(ps)]
        old = names[0] if k % 4 == 0 or not kids else list(kids)[k % len(kids)]
        objs = [self.make("polygon", [n], seed + i, False) for i, n in enumerate(names[1:1 + 1 + k % 3])]
        if k % 3 == 0:
            objs[0] = self.make("polygon", [old], seed, False)
        self.fresh += objs
        rest = {n: t for n, t in kids.items() if n != old}
        err = "unknown name" if old not in kids else None
        for o in objs:
            if o.name in rest and err is None:
                err = f"{o.name!r} exists"
            rest[o.name] = (o, None)
        new = None if err else self.replaced(ref, pobj, rest)
        return err, lambda: pobj.replace_polygon(old, *objs), new

    def rehome(self, bdg, k):
        """An object that was replaced can be added elsewhere, where it is at home from then on."""
        from building3d.geom.solid import Solid
        from building3d.geom.wall import Wall

        level = 2 + k % 2
        ps = [p for p in self.nodes(self.tree(bdg), level) if p[1]]
        if not ps:
            return
        pobj, kids = ps[k // 2 % len(ps)]
        old = list(kids)[k // 7 % len(kids)]
        obj = kids[old][0]
        if level == 2:
            pobj.replace_wall(old, self.make("wall", [old, "x"], k, True))
            home = Solid((), "home")
            home.add_wall(obj)
        else:
            pobj.replace_polygon(old, self.make("polygon", [old], k, False))
            home = Wall((), "home")
            home.add_polygon(obj)
        if obj.parent is not home or obj.path != f"home/{old}":
            raise Violation("rehomed", f"{old!r}, replaced and added to another object, has the path {obj.path!r}")
        self.consistent(bdg, self.tree(bdg))

    def replaced(self, t, obj, kids):
        if t[0] is obj:
            return (obj, kids)
        if t[1] is None:
            return t
        return (t[0], {n: self.replaced(c, obj, kids) for n, c in t[1].items()})

    def bad(self, k):
        """Names that would break paths are rejected at construction."""
        from building3d.geom.building import Building
        from building3d.geom.solid import Solid
        from building3d.geom.wall import Wall
        from building3d.geom.zone import Zone

        name = BAD[k % len(BAD)]
        cls = (Building, Zone, Solid, Wall, None)[(k // 4) % 5]
        try:
            if cls is None:
                self.make("polygon", [name], 0, False)
            else:
                cls((), name)
        except ValueError:
            return
        raise Violation("bad-name", f"the name {name!r} was accepted")

    def construct(self, k, names):
        """Children given to a constructor obey the same rules."""
        from building3d.geom.exceptions import GeometryError

        level = ("wall", "solid", "zone", "building")[k % 4]
        low = LEVELS[LEVELS.index(level) + 1]
        kids = [self.make(low, [n] + names[1:], k, False) for n in names[:2 + k % 3]]
        dup = len({c.name for c in kids}) < len(kids)
        from building3d.geom.building import Building
        from building3d.geom.solid import Solid
        from building3d.geom.wall import Wall
        from building3d.geom.zone import Zone

        cls = {"wall": Wall, "solid": Solid, "zone": Zone, "building": Building}[level]
        try:
            obj = cls(kids, "top")
        except GeometryError:
            if not dup:
                raise Violation("refused", f"{level} of {[c.name for c in kids]} was rejected")
            return 1
        if dup:
            raise Violation("accepted", f"{level} with children {[c.name for c in kids]} was accepted")
        for c in kids:
            if obj[c.name] is not c or c.parent is not obj:
                raise Violation("parent", f"child {c.name} of a new {level} is not in it")
        return 0

    def lookup(self, bdg, names, k):
        """A path that names nothing finds nothing."""
        n = 1 + k % 4
        t = self.tree(bdg)
        path = bdg.name
        found = t
        for name in names[:n]:
            path += "/" + name
            found = found[1].get(name) if found is not None and found[1] is not None else None
        try:
            got = bdg.get(path)
        except (KeyError, ValueError, IndexError):
            got = None
        if (found is None) != (got is None) or (found is not None and got is not found[0]):
            raise Violation("lookup", f"looking up {path} gives {got!r}")


CHECK = C16()
