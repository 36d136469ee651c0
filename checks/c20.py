"""C20: wildcard paths find exactly the files they name."""
import os

from sim import fs, world
from sim.raycheck import digest
from sim.runner import ThreadCheck
from sim.sched import random_policy
from sim.world import Violation

LITS = ["pos_", "a.b", "x+", "(", "[0-9]", "run", "^", "$", "-", "_", "é", " ", "*", "v2_", "{}", "|", "\\d", "?", "d",
        "job=", ".", "#", "~"]
ENDS = ["", ".npy", ".csv", "_end", ".tar.gz", "0", "+", ")", "$", ".n"]
WNAMES = ["i", "n", "job", "step", "num_step", "a_1", "Case", "x9"]
NUMBERS = [0, 1, 2, 3, 7, 9, 10, 11, 12, 19, 20, 99, 100, 101, 1000, 12345678901234567890]


class C20(ThreadCheck):
    id = "C20"
    modules = ("building3d.paths.wildcardpath",)
    quick, thorough = 3000, 50000
    note = ("Seeded search over patterns, directory contents, listing orders and entries created during the search, also "
            "by concurrent threads; compared with an independent matcher that does not use regular expressions.")
    rule = ("a run counts when at least two entries were to be found and one not; distinct by pattern, contents, listing "
            "order and schedule")
    lists = ("exist", "decoys", "later", "threads")
    real_components = "building3d.paths.wildcardpath; pathlib, re"
    stub_components = "disk (listing orders, entries appearing during a listing), thread switches"
    assumptions = ["numbers are written without leading zeros, names contain no line breaks, wildcards of a pattern are "
                   "separated by something that is not a digit; entries that give one wildcard two values may make a search "
                   "fail, but are never found"]

    def gen(self, rng, tier):
        nw = rng.choice([1, 1, 2, 2, 3])
        names = rng.sample(WNAMES, nw)
        comps = rng.choice([1, 1, 2, 2, 3])
        toks = []  # per component: list of ["l", text] / ["w", name]
        left = list(names)
        for c in range(comps):
            comp = []
            if rng.random() < 0.7:
                comp.append(["l", rng.choice(LITS)])
            k = rng.choice([0, 1, 1, 2]) if c < comps - 1 else max(len(left), rng.choice([0, 1]))
            for j in range(k):
                if not left:
                    if rng.random() < 0.6:
                        break
                    w = rng.choice(names)  # used again
                else:
                    w = left.pop(0)
                if j:
                    comp.append(["l", rng.choice([x for x in LITS if not x.isdigit()])])
                comp.append(["w", w])
            if rng.random() < 0.7:
                e = rng.choice(ENDS)
                if e:
                    comp.append(["l", e])
            if not comp:
                comp.append(["l", rng.choice(["dir", "d0"])])
            toks.append(comp)
        if all(t[0] == "l" and set(t[1]) == {"."} for t in toks[0]) or any(
                "".join(t[1] for t in c if t[0] == "l") in (".", "..") and len(c) == 1 for c in toks):
            toks = [[["l", "d"], ["w", n]] for n in names]
        exist = [[rng.choice(NUMBERS) for _ in names] for _ in range(rng.choice([0, 1, 2, 4, 8]))]
        decoys = [[rng.randrange(12), [rng.choice(NUMBERS) for _ in names], rng.randrange(1 << 20)]
                  for _ in range(rng.choice([0, 2, 4, 8]))]
        later = [[rng.randrange(6), [rng.choice(NUMBERS) for _ in names], rng.choice(["other", "wanted"]),
                  rng.randrange(1 << 20)] for _ in range(rng.choice([0, 0, 1, 3]))]
        threads = [[rng.choice(["dict", "tuple", "list", "filter", "mkdir", "fill"]),
                    [rng.choice(NUMBERS) for _ in names], rng.randrange(1 << 20)] for _ in range(rng.choice([1, 2, 3, 4]))]
        odd = [[rng.choice(NUMBERS) for _ in names] for _ in range(2)] if rng.random() < 0.5 else []
        return dict(names=names, toks=toks, exist=exist, decoys=decoys, later=later, threads=threads, odd=odd,
                    parent=rng.choice(["p", "p q", "p.d", "p+", "pé", "p/q", "p_1"]), rel=rng.choice([0, 0, 1]),
                    slash=rng.choice([0, 0, 1]), listing=rng.choice([None, rng.randrange(1 << 30)]),
                    setter=rng.choice([0, 0, 1]), together=rng.choice([0, 1]), world=rng.randrange(1 << 30),
                    policies=[random_policy(rng, 200)])

    # ---- the reference

    def fill(self, toks, vals):
        return "/".join("".join(t[1] if t[0] == "l" else str(vals[t[1]]) for t in c) for c in toks)

    def match(self, toks, path):
        """All ways to read a path as the pattern filled with numbers (a list of dicts)."""
        parts = path.split("/")
        if len(parts) != len(toks):
            return []
        out = [{}]
        for comp, s in zip(toks, parts):
            out = [v for vals in out for v in self.comp(comp, s, vals)]
        return out

    def comp(self, comp, s, vals):
        if not comp:
            return [vals] if s == "" else []
        k, x = comp[0]
        if k == "l":
            return self.comp(comp[1:], s[len(x):], vals) if s.startswith(x) else []
        res = []
        n = 0
        while n < len(s) and s[n] in "0123456789":
            n += 1
            t = s[:n]
            if len(t) > 1 and t[0] == "0":
                continue
            v = int(t)
            if vals.get(x, v) != v:
                continue
            res += self.comp(comp[1:], s[n:], {**vals, x: v})
        return res

    def clear(self, toks, path):
        """True if a name is one the property speaks about: it has no leading zeros where numbers are read, is read
        in one way at most and gives no wildcard two values."""
        ways = self.ways(toks, path)
        return ways is not None and ways < 2 and len(self.match(toks, path)) == ways

    def ways(self, toks, path):
        """Number of ways to read a name if every wildcard may have several values; None with leading zeros."""
        import re

        parts = path.split("/")
        if any(re.search(r"(?<!\d)0\d", p) for p in parts):
            return None
        loose = []
        k = 0
        for comp in toks:
            new = []
            for t in comp:
                if t[0] == "w":
                    k += 1
                    new.append(["w", f"{t[1]}#{k}"])
                else:
                    new.append(t)
            loose.append(new)
        return len(self.match(loose, path))

    def contradictory(self, plan):
        """A name that gives a wildcard used twice two values, or None."""
        if not plan["odd"]:
            return None
        one, two = [dict(zip(plan["names"], x)) for x in plan["odd"]]
        seen = set()
        out = []
        for comp in plan["toks"]:
            t = ""
            for k, x in comp:
                t += x if k == "l" else str((two if x in seen else one)[x])
                if k == "w":
                    seen.add(x)
            out.append(t)
        rel = "/".join(out)
        if any(p in (".", "..") for p in out) or self.ways(plan["toks"], rel) != 1 or self.match(plan["toks"], rel):
            return None
        if not all(self.clear(plan["toks"], "/".join(out[:i])) for i in range(1, len(out))):
            return None
        return rel

    def decoy(self, plan, kind, vals, k):
        """A name near the pattern that it does not name."""
        toks = plan["toks"]
        good = self.fill(toks, dict(zip(plan["names"], vals)))
        head, _, last = good.rpartition("/")
        pre = head + "/" if head else ""
        if kind == 0:
            return pre + "x" + last
        if kind == 1:
            return pre + last + "x"
        if kind == 2:
            return good + "/" + last
        if kind == 3:
            return "up/" + good
        if kind == 4:
            return pre + (last.replace(".", "x", 1) if "." in last else last + ".bak")
        if kind == 5:
            return last if head else "sub/" + last
        if kind == 6:
            return pre + last[:-1] if len(last) > 1 else pre + "q"
        if kind == 7:
            j = k % (len(last) + 1)
            return pre + last[:j] + "y" + last[j:]
        if kind == 8:
            j = k % len(last)
            return pre + last[:j] + last[j + 1:] + ("" if len(last) > 1 else "r")
        if kind == 9:
            return pre + "".join("a" if c.isdigit() else c for c in last)
        if kind == 10:
            return pre + last.swapcase()
        return pre + last + "~"

    # ---- one run

    def execute(self, plan):
        root = world.scratch()
        try:
            os.chdir(root)
            return self.inner(plan, root)
        finally:
            os.chdir("/")
            world.rmtree(root)

    def make(self, path, k):
        """Create a file or directory with its parents, unless something is in the way."""
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if not os.path.lexists(path):
            if k % 3:
                with open(path, "w"):
                    pass
            else:
                os.mkdir(path)

    def inner(self, plan, root):
        from building3d.paths.wildcardpath import WildcardPath

        world.seed_world(plan["world"])
        names, toks = plan["names"], plan["toks"]
        used = [n for n in names if any(t == ["w", n] for c in toks for t in c)]
        pattern = "/".join("".join(t[1] if t[0] == "l" else f"<{t[1]}>" for t in c) for c in toks)
        parent = os.path.join(root, plan["parent"])
        os.makedirs(parent)
        arg = (plan["parent"] if plan["rel"] else parent) + ("/" if plan["slash"] else "")

        def vals(nums):
            return {n: v for n, v in zip(names, nums) if n in used}

        def ok(rel):
            parts = rel.split("/")
            return all(p and p not in (".", "..") for p in parts) and all(
                self.clear(toks, "/".join(parts[:i])) for i in range(1, len(parts) + 1))

        def add(rel, k):
            if not ok(rel):
                return False
            try:
                self.make(os.path.join(parent, rel), k)
            except (FileExistsError, NotADirectoryError):
                return False
            return True

        for nums in plan["exist"]:
            add(self.fill(toks, vals(nums)) if used else self.fill(toks, {}), nums[0])
        for kind, nums, k in plan["decoys"]:
            add(self.decoy(plan, kind, nums, k), k)

        odd = self.contradictory(plan)
        if odd:
            try:
                self.make(os.path.join(parent, odd), plan["odd"][0][0])
            except (FileExistsError, NotADirectoryError):
                odd = None

        def there():
            out = set()
            for base, dirs, files in os.walk(parent):
                for x in dirs + files:
                    out.add(os.path.relpath(os.path.join(base, x), parent))
            return out

        if plan["setter"]:
            wp = WildcardPath("other_<q>/x<r>")
            wp.path = pattern
        else:
            wp = WildcardPath(pattern)

        def found():
            return {p: m[0] for p in there() for m in [self.match(toks, p)] if m}

        before = found()
        decoys = len(there()) - len(before)
        disk = fs.Disk(root, {}, plan["listing"])
        pending = [list(x) for x in plan["later"]]
        lists = [0]

        def during(p):
            lists[0] += 1
            for x in list(pending):
                if lists[0] > x[0]:
                    pending.remove(x)
                    a = fs.ACTIVE[0]
                    fs.ACTIVE[0] = None
                    try:
                        rel = self.fill(toks, vals(x[1])) if x[2] == "wanted" else self.decoy(plan, x[3] % 12, x[1], x[3])
                        add(rel, x[3])
                    finally:
                        fs.ACTIVE[0] = a

        disk.during_listing = during
        got = []

        def blocked(rel):
            return any(fs.real["os.path.isfile"](os.path.join(parent, *rel.split("/")[:i + 1]))
                       for i in range(len(toks)))

        def now():
            a = fs.ACTIVE[0]
            fs.ACTIVE[0] = None
            try:
                return found()
            finally:
                fs.ACTIVE[0] = a

        refused = [0]

        def one(kind, nums, k):
            try:
                look(kind, nums, k)
            except Exception as e:
                if not odd or isinstance(e, Violation) or kind in ("mkdir", "fill"):
                    raise
                refused[0] += 1

        def look(kind, nums, k):
            v = vals(nums)
            first = now()
            if kind == "mkdir":
                rel = self.fill(toks, v)
                if not ok(rel) or blocked(rel):
                    return
                try:
                    p = wp.mkdir(arg, **v)
                except (FileExistsError, NotADirectoryError):
                    if blocked(rel):  # a file appeared in the meantime
                        return
                    raise
                if not os.path.isdir(os.path.join(parent, rel)):
                    raise Violation("mkdir", f"{rel!r} was not made by mkdir of {pattern!r}")
                if os.path.realpath(p) != os.path.realpath(os.path.join(parent, rel)):
                    raise Violation("mkdir", f"mkdir of {pattern!r} with {v} returned {p!r}")
                return
            if kind == "fill":
                for par in ("", arg):
                    p = wp.fill(parent=par, **v) if par else wp.fill(**v)
                    want = os.path.join(par, self.fill(toks, v)) if par else self.fill(toks, v)
                    if os.path.normpath(p) != os.path.normpath(want):
                        raise Violation("fill", f"{pattern!r} filled with {v} is {p!r}, should be {want!r}")
                return
            if kind == "dict":
                got.append(({self.rel(p, parent): x for p, x in wp.get_matching_paths_dict_values(arg).items()}, None, first, now()))
            elif kind == "tuple":
                d = {}
                for x, p in wp.get_matching_paths_namedtuple_keys(arg).items():
                    d[self.rel(p, parent)] = x._asdict()
                got.append((d, None, first, now()))
            elif kind == "list" or not used:
                lst = [self.rel(p, parent) for p in wp.get_matching_paths(arg)]
                if len(set(lst)) < len(lst):
                    raise Violation("repeated", f"{pattern!r} found {sorted(lst)}")
                got.append(({p: None for p in lst}, None, first, now()))
            else:
                flt = {n: v[n] for i, n in enumerate(used) if (k >> i) & 1 or len(used) == 1}
                if before and k % 4:
                    src = sorted(before.items())[k % len(before)][1]
                    flt = {n: src[n] for n in flt}
                lst = [self.rel(p, parent) for p in wp.get_matching_paths(arg, **flt)]
                if len(set(lst)) < len(lst):
                    raise Violation("repeated", f"{pattern!r} found {sorted(lst)}")
                got.append(({p: None for p in lst}, flt, first, now()))

        with fs.active(disk):
            if plan["together"] and len(plan["threads"]) > 1:
                run = self.threads(plan, [lambda x=x: one(*x) for x in plan["threads"]])
                for x in run.tasks:
                    if x.error is not None:
                        raise x.error
            else:
                for x in plan["threads"]:
                    one(*x)
        after = found()
        for res, flt, first, last in got:
            lo = {p: m for p, m in first.items() if not flt or all(m[n] == x for n, x in flt.items())}
            hi = {p: m for p, m in last.items() if not flt or all(m[n] == x for n, x in flt.items())}
            for p in lo:
                if p not in res:
                    raise Violation("not-found", f"{pattern!r} {flt or ''} did not find {p!r}; found {sorted(res)}")
            for p, x in res.items():
                if p not in hi:
                    raise Violation("wrong", f"{pattern!r} {flt or ''} found {p!r}; "
                                             f"to be found were {sorted(hi)} at most")
                if x is not None:
                    if {k: v for k, v in x.items()} != hi[p]:
                        raise Violation("numbers", f"{pattern!r} found {p!r} with {dict(x)}, should be {hi[p]}")
                    back = wp.fill(**x)
                    if back != p:
                        raise Violation("fill", f"{pattern!r} filled with {dict(x)} is {back!r}, should be {p!r}")
        if disk.outside:
            raise Violation("outside", f"changed {disk.outside[0]}")
        return dict(key=digest(pattern, sorted(before), plan["listing"], plan["threads"], plan["policies"][0]),
                    nontrivial=len(before) > 1 and decoys > 0,
                    stats=dict(found=len(before), others=decoys, lookups=len(got), refused=refused[0], shuffled=disk.shuffled,
                               appeared=len(after) - len(before)))

    def rel(self, p, parent):
        return os.path.relpath(os.path.realpath(p), os.path.realpath(parent))


CHECK = C20()
