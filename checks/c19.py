"""C19: each log record is written exactly once, to the current log file."""
import logging
import os

from sim import diskcheck, fs, sched, world
from sim.raycheck import digest
from sim.runner import ThreadCheck
from sim.sched import random_policy
from sim.world import Violation

FILES = ["a.log", "b.log", "sub/a.log", "sub/x/b.log", "c d.log", "é/ü.log", "a", "x.y/z.log"]
NAMES = ["", "building3d", "building3d.sim.rays.simulation", "user", "building3d.x", "user.mod"]
LEVELS = [("debug", "DEBUG"), ("info", "INFO"), ("warning", "WARNING"), ("error", "ERROR"), ("critical", "CRITICAL")]
TEXT = ["", "x", "two words", "zażółć gęślą", "日本", "100 %d", "a\nb", "[INFO|x|y|z] no", "ü" * 3000, "q" * 20000]


class C19(ThreadCheck):
    id = "C19"
    modules = ("building3d.logger",)
    quick, thorough = 2500, 40000
    note = ("Seeded search over histories of set-ups and log calls, one after another and in concurrent threads, with "
            "short and interrupted writes, failing set-ups and process deaths; the files are compared with the records.")
    rule = ("a run counts when logging was set up at least twice and at least three records were made; distinct by the "
            "operations, the schedules and the faults")
    lists = ("phases", "faults")
    real_components = "building3d.logger; logging of Python"
    stub_components = "disk (faults), thread switches (at file operations and lock waits), clock"
    assumptions = ["threads are switched at disk operations, lock waits and the statements of building3d.logger, not "
                   "inside the logging package",
                   "records made while a set-up is in progress may go to either file or be dropped"]

    def gen(self, rng, tier):
        files = rng.sample(FILES, rng.choice([1, 2, 2, 3]))

        def op(threaded):
            x = rng.random()
            if x < (0.15 if threaded else 0.25):
                how = rng.choice(["str", "str", "rel", "path", "none"])
                return ["setup", rng.choice(files), how]
            if x < 0.3 and not threaded:
                return ["low", rng.choice(NAMES)]
            return ["log", rng.choice(NAMES), rng.randrange(5), rng.randrange(len(TEXT)), rng.choice([0, 1, 2])]

        phases = [[[["setup", files[0], rng.choice(["str", "str", "path"])]]]]
        for _ in range(rng.randint(1, 5)):
            if rng.random() < 0.5:
                phases.append([[op(False) for _ in range(rng.randint(1, 6))]])
            else:
                phases.append([[op(True) for _ in range(rng.randint(1, 5))] for _ in range(rng.choice([2, 2, 3, 4]))])
        faults = []
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 3, 6])):
                faults.append([rng.randrange(1, 80), rng.choice([["short", rng.choice([0.01, 0.5, 0.9])], ["intr"],
                                                                 ["set-up"], ["set-up"]])])
        if rng.random() < 0.2:
            faults.append([rng.randrange(1, 60), ["crash", rng.choice([0, 0.5, 1.0])]])
        return dict(phases=phases, faults=faults, encoding=rng.choice([None, None, "ascii", "cp1252", "utf-16"]),
                    world=rng.randrange(1 << 30), policies=[random_policy(rng, 40) for _ in range(3)])

    def execute(self, plan):
        root = world.scratch()
        try:
            return self.inner(plan, root)
        finally:
            world.rmtree(root)

    def inner(self, plan, root):
        work = os.path.join(root, "w")
        os.mkdir(work)
        note = os.path.join(root, "note")

        def go():
            return self.story(plan, work, note)

        st, v = world.in_child(go, 90)
        crashed = 0
        if st == "died" and v == 77:
            # the process died; records made before must be in the files, complete
            crashed = 1
            with fs.real["open"](note) as f:
                import ast

                rec, sets, injected = ast.literal_eval(f.read())
            self.judge_files(work, rec, sets, dead=True)
        elif st == "violation":
            raise Violation(*v)
        elif st == "timeout":
            raise Violation("no-progress", "logging did not end")
        elif st != "ok":
            raise RuntimeError(f"{st}: {v}")
        else:
            rec, sets, injected = v
        return dict(key=digest(plan["phases"], plan["faults"], plan["policies"]),
                    nontrivial=len(sets) > 1 and len(rec) > 2,
                    stats=dict(records=len(rec), setups=len(sets), failed_setups=sum(not s[3] for s in sets),
                               crashes=crashed, faults=diskcheck.count(injected)))

    def story(self, plan, work, note):
        from pathlib import Path

        from building3d.config import LOG_FILE
        from building3d.logger import init_logger

        world.seed_world(plan["world"])
        faults = {}
        setup_faults = set()
        for k, f in plan["faults"]:
            if f[0] == "set-up":
                setup_faults.add(k)
            else:
                faults[int(k)] = f
        disk = fs.Disk(work, faults)
        disk.encoding = plan["encoding"]
        t = [0]
        rec = []  # id, t0, t1, level name, logger name, message, thread
        sets = []  # t0, t1, file, ok
        os.chdir(work)

        def crash():
            done = [r[:] for r in rec]
            with fs.real["open"](note, "w") as f:
                f.write(repr((done, [list(s) for s in sets], disk.injected)))
            os._exit(77)

        disk.on_crash = crash

        def tick():
            t[0] += 1
            return t[0]

        def do(op, th):
            if op[0] == "setup":
                name, how = op[1], op[2]
                if how == "none":
                    name = LOG_FILE
                arg = {"str": os.path.join(work, name), "rel": name, "path": Path(work) / name, "none": None}[how]
                if how == "path":
                    fs.ACTIVE[0] = None
                    os.makedirs(os.path.dirname(os.path.join(work, name)), exist_ok=True)
                    fs.ACTIVE[0] = disk
                s = [tick(), None, name, False, None]
                sets.append(s)
                k0 = disk.k
                for j in setup_faults:  # a set-up fails at its first or second operation
                    if j % 10 == len(sets) % 10 and sched.CUR is None:
                        disk.faults[k0 + 1 + j % 2] = ["error", "EIO", 0]
                n = len(disk.injected)
                try:
                    init_logger() if arg is None else init_logger(arg)
                    s[3] = True
                except OSError as e:
                    s[4] = repr(e)
                finally:
                    s[1] = tick()
                    for j in (1, 2):
                        if disk.faults.get(k0 + j) == ["error", "EIO", 0]:
                            del disk.faults[k0 + j]
                if not s[3] and len(disk.injected) == n:
                    raise Violation("setup-failed", f"setting up {name} failed: {s[4]}")
                return
            if op[0] == "low":
                i = len(rec)
                r = [i, tick(), None, None, op[1], f"<{i}>low</{i}>", th]
                rec.append(r)
                logging.getLogger(op[1]).log(5, r[5])
                r[2] = tick()
                return
            _, name, lev, txt, form = op
            i = len(rec)
            text = f"<{i}>{TEXT[txt]}</{i}>"
            r = [i, tick(), None, LEVELS[lev][1], name or "root", text, th]
            rec.append(r)
            lg = logging.getLogger(name)
            f = getattr(lg, LEVELS[lev][0])
            if form == 0:
                f(text)
            elif form == 1:
                f("<%d>%s</%d>", i, TEXT[txt], i)
            else:
                lg.log(getattr(logging, LEVELS[lev][1]), "%s", text)
            r[2] = tick()

        with fs.active(disk):
            for ph in plan["phases"]:
                if len(ph) == 1:
                    for op in ph[0]:
                        do(op, 0)
                        self.judge_files(work, rec, sets)
                else:
                    run = self.threads(plan, [lambda ops=ops, i=i: [do(o, i) for o in ops] for i, ops in enumerate(ph)])
                    for x in run.tasks:
                        if x.error is not None:
                            raise x.error
                    self.judge_files(work, rec, sets)
        if disk.outside:
            raise Violation("outside", f"changed {disk.outside[0]}")
        return rec, [list(s) for s in sets], disk.injected

    def judge_files(self, work, rec, sets, dead=False):
        inf = float("inf")
        files = {s[2] for s in sets}
        content = {}
        for name in files:
            p = os.path.join(work, name)
            if fs.real["os.path.isfile"](p):
                with fs.real["open"](p, "rb") as f:
                    raw = f.read()
                try:
                    content[name] = raw.decode("utf-8")
                except UnicodeDecodeError as e:
                    if not dead:
                        raise Violation("unreadable", f"{name} is not UTF-8: {e}")
                    content[name] = raw.decode("utf-8", "replace")
            else:
                content[name] = ""
        where = {}
        order = {name: [] for name in files}
        for r in rec:
            open_ = f"<{r[0]}>"
            for name in files:
                n = content[name].count(open_)
                if n:
                    where.setdefault(r[0], []).append((name, n))
        groups = {}
        for r in rec:
            i, t0, t1, level, logger, text, th = r
            unfinished = t1 is None
            t1 = inf if t1 is None else t1
            poss = [s for s in sets if s[0] < t1 and not any(
                q[3] and q[0] > (s[1] or inf) and (q[1] or inf) < t0 for q in sets)]
            at = where.get(i, [])
            total = sum(n for _, n in at)
            if level is None:
                if total:
                    raise Violation("below-level", f"a record below the level was written to {at[0][0]}")
                continue
            overlap = any((s[1] or inf) > t0 for s in poss)
            failed = any(not s[3] for s in poss)
            names = {s[2] for s in poss}
            if total > 1:
                raise Violation("repeated", f"record {i} was written {total} times: {at}")
            if total:
                f = at[0][0]
                if f not in names:
                    raise Violation("wrong-file", f"record {i} is in {f}, logging was set up for {sorted(names)}")
                again = [s for s in sets if s[2] == f and s[3] and s[0] > t1]
                if again:
                    raise Violation("not-fresh", f"record {i} is in {f}, which was set up again since")
                order[f].append((content[f].index(f"<{i}>"), r))
                if text not in content[f] and not unfinished:
                    raise Violation("incomplete", f"record {i} is not complete in {f}")
                if not overlap and not failed:
                    groups.setdefault(tuple(s[0] for s in poss), set()).add(f)
            elif not (unfinished or overlap or failed):
                # may be gone if its file was set up again
                if not any((s[1] or inf) > t0 and s[2] in names for s in sets):
                    raise Violation("lost", f"record {i} is in no file; logging was set up for {sorted(names)}")
        for g, fnames in groups.items():
            if len(fnames) > 1:
                raise Violation("wrong-file", f"records made after the same set-ups are in {sorted(fnames)}")
        for name, lst in order.items():
            lst.sort(key=lambda x: x[0])
            pos = 0
            text = content[name]
            last = None
            for at, r in lst:
                head = text[pos:at]
                if not head.endswith("] ") or r[3] not in head or r[4] not in head or "\n" in head:
                    raise Violation("format", f"record {r[0]} in {name} is headed {head[-200:]!r}")
                if last is not None and r[2] is not None and r[2] < last[1]:
                    raise Violation("order", f"record {r[0]} is after {last[0]} in {name}, but was made before it")
                pos = at + len(r[5]) + 1
                if text[pos - 1:pos] != "\n" and r[2] is not None:
                    raise Violation("incomplete", f"record {r[0]} in {name} does not end its line")
                last = r
            if text[pos:] and not dead and all(r[2] is not None for r in rec):
                raise Violation("foreign", f"{name} has {text[pos:pos + 200]!r} after the last record")


CHECK = C19()
