"""Seeded search over plans, minimisation, replay, evidence."""
import copy
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import random
import sys
import time

from . import world

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_now = time.time


def h(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:6], "big")


class Check:
    """Base class of all checks."""

    id = ""
    title = ""
    mode = "prange"  # instrumentation of building3d
    quick = 100  # number of runs
    thorough = 1000
    quick_cap = 240  # seconds after which no new run is started (safety only)
    thorough_cap = 780
    timeout = 120  # seconds for one run: a bound on progress, far above the usual time
    rule = ""
    level = "exploration"
    assumptions = []
    real_components = ""
    stub_components = ""

    modules = ()
    libs = ()  # further libraries, imported as they are

    def prepare(self):
        """Imports etc., once in the parent process."""
        from . import fs, instrument

        instrument.install(self.mode)
        import threading

        from . import sched

        # locks made while the code under test is imported are simulated ones
        for m in ("numpy", "numba", "networkx", "logging", "json", "multiprocessing.queues") + tuple(self.libs):
            try:
                importlib.import_module(m)
            except ImportError:
                pass
        keep = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = sched.SimLock, lambda: sched.SimLock(True)
        try:
            for m in self.modules:
                importlib.import_module(m)
        finally:
            threading.Lock, threading.RLock = keep
        fs.install()

    def gen(self, rng, tier):
        raise NotImplementedError

    def execute(self, plan):
        """Run one plan in this process (a fresh child).  Raise Violation or return
        {"key":..., "nontrivial": bool, "stats": {...}}"""
        raise NotImplementedError

    def once(self, plan):
        """Run one plan in a child; returns (status, value) of world.in_child, violations
        and unexpected endings of the code under test included."""
        return self.judge(*world.in_child(lambda: self.execute(plan), self.timeout))

    def judge(self, st, v):
        if st == "timeout":
            return "violation", ("no-progress", f"run did not end within {self.timeout} s")
        if st == "error" and "/repo/building3d/" in v:
            last = [x for x in v.strip().splitlines() if x and not x.startswith(" ")][-1]
            return "violation", ("exception:" + last.split(":")[0], v.strip()[-1500:])
        if st == "died":
            return "violation", ("died", f"the process under test died (status {v})")
        return st, v

    # ---- minimisation
    lists = ()  # keys of the plan (dotted) holding lists whose elements can be dropped
    numbers = ()  # keys (dotted) of integers that can be reduced, with their minimum

    def simplify(self, plan):
        """Further candidate plans, simplest first."""
        return []


class ThreadCheck(Check):
    """Checks whose plans contain simulated threads; plan["policies"] has a policy for each group."""

    mode = "full"

    def threads(self, plan, fns, limit=20_000_000, interrupts=(), own=None):
        from . import sched

        k = len(sched.RECORDED)
        ps = plan["policies"]
        run = sched.Run(fns, sched.policy(ps[k % len(ps)], len(fns)), limit, interrupts, own)
        sched.RECORDED.append(run.switches)
        try:
            run.go()
        except sched.Deadlock as e:
            raise world.Violation("deadlock", str(e))
        except sched.Starved as e:
            raise world.Violation("no-progress", str(e))
        return run

    def explicit(self, plan):
        """The plan with the schedules of the failing execution written out."""
        from . import sched

        def rec():
            try:
                self.execute(plan)
            except BaseException:  # noqa: BLE001 - the violation is known already
                pass
            return sched.RECORDED

        st, v = world.in_child(rec, self.timeout)
        if st != "ok" or not v:
            return plan
        return dict(plan, policies=[["explicit", x] for x in v])


def get(plan, key):
    o = plan
    for k in key.split("."):
        if isinstance(o, list) and k.isdigit() and int(k) < len(o):
            o = o[int(k)]
        elif isinstance(o, dict) and k in o:
            o = o[k]
        else:
            return None
    return o


def put(plan, key, val):
    ks = key.split(".")
    o = plan
    for k in ks[:-1]:
        o = o[int(k)] if isinstance(o, list) else o[k]
    if isinstance(o, list):
        o[int(ks[-1])] = val
    else:
        o[ks[-1]] = val


def minimise(check, plan, kind, budget):
    """Delta debugging on the lists and numbers of a plan, keeping the same kind of violation."""
    end = _now() + budget
    tries = 0

    def fails(p):
        nonlocal tries
        tries += 1
        st, v = check.once(p)
        return st == "violation" and v[0] == kind

    changed = True
    rounds = 0
    while changed and _now() < end and rounds < 4:
        changed = False
        rounds += 1
        keys = [f"policies.{i}.1" for i, p in enumerate(plan.get("policies", ())) if p[0] == "explicit"]
        for key in list(check.lists) + keys:
            lst = get(plan, key)
            if not isinstance(lst, list) or not lst:
                continue
            size = len(lst)
            while size >= 1 and _now() < end:
                i = 0
                while i < len(lst) and _now() < end:
                    cand = copy.deepcopy(plan)
                    new = lst[:i] + lst[i + size:]
                    put(cand, key, new)
                    if fails(cand):
                        plan, lst, changed = cand, new, True
                    else:
                        i += size
                size = size // 2 if size > 1 else 0
        for key, low in check.numbers:
            v = get(plan, key)
            while isinstance(v, int) and v > low and _now() < end:
                done = True
                for nv in (low, (v + low) // 2, v - 1):
                    if nv >= v:
                        continue
                    cand = copy.deepcopy(plan)
                    put(cand, key, nv)
                    if fails(cand):
                        plan, v, changed, done = cand, nv, True, False
                        break
                if done:
                    break
        again = True
        while again and _now() < end:
            again = False
            for cand in check.simplify(copy.deepcopy(plan)):
                if _now() >= end:
                    break
                if fails(cand):
                    plan, changed, again = cand, True, True
                    break
    return plan, tries


def worker(check, tier, seed, idxs, stop, out, known):
    try:
        for i in idxs:
            if stop.is_set():
                break
            t0 = _now()
            plan = check.gen(random.Random(h(seed, check.id, i)), tier)
            plan["index"] = i
            st, v = check.once(plan)
            if st == "violation" and is_known(known, check.id, *v):
                st = "known"
            out.put((i, st, v, plan if st != "ok" or i < 3 else None, _now() - t0))
            if st not in ("ok", "known"):
                break
    except BaseException as e:  # an error of the check itself
        import traceback

        out.put((-1, "error", traceback.format_exc(), None, 0.0))
    out.put((None, None, None, None, None))


def merge(total, stats):
    for k, v in stats.items():
        if isinstance(v, dict):
            merge(total.setdefault(k, {}), v)
        elif isinstance(v, (int, float)):
            total[k] = total.get(k, 0) + v


def load_known():
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known:"):
                    # known: property=C01 kind=<kind> match=<text>
                    parts = dict(p.split("=", 1) for p in line[6:].strip().split(" ", 2))
                    known.append(parts)
    return known


def is_known(known, cid, kind, message):
    for k in known:
        if k.get("property") == cid and k.get("kind") == kind and k.get("match", "") in message:
            return k
    return None


def run(check, tier, seed, nproc):
    t0 = _now()
    check.prepare()
    n = check.thorough if tier == "thorough" else check.quick
    n = int(os.environ.get("VERIF_RUNS", n))
    cap = check.thorough_cap if tier == "thorough" else check.quick_cap
    known = load_known()
    known_hits = {}
    ctx = mp.get_context("fork")
    out = ctx.Queue()
    stop = ctx.Event()
    procs = []
    nproc = min(nproc, n)
    for w in range(nproc):
        idxs = range(w, n, nproc)
        p = ctx.Process(target=worker, args=(check, tier, seed, idxs, stop, out, known), daemon=False)
        p.start()
        procs.append(p)
    done = 0
    evals = 0
    keys = set()
    nontrivial = 0
    stats = {}
    samples = []
    bad = []
    errors = []
    live = nproc
    while live:
        try:
            i, st, v, plan, dt = out.get(timeout=5)
        except queue.Empty:
            if _now() - t0 > cap:
                stop.set()
            if not any(p.is_alive() for p in procs):
                break
            continue
        if i is None:
            live -= 1
            continue
        evals += 1
        if st == "ok":
            if v.get("nontrivial"):
                nontrivial += 1
                keys.add(v["key"])
            merge(stats, v.get("stats", {}))
            if plan is not None and len(samples) < 3:
                samples.append(json.loads(json.dumps(plan, default=str)))
        elif st == "known":
            known_hits.setdefault(v[0], v[1])
        elif st == "violation":
            bad.append((i, v, plan))
            stop.set()
        else:
            errors.append((i, v))
            stop.set()
        if _now() - t0 > cap:
            stop.set()
    for p in procs:
        p.join()
    code = 0
    lines = []
    search_s = _now() - t0
    if errors:
        print(f"check error in run {errors[0][0]}:\n{errors[0][1]}", file=sys.stderr)
        code = 2
    elif bad:
        i, (kind, msg), plan = min(bad, key=lambda b: b[0])
        code = 1
        if True:
            orig = copy.deepcopy(plan)
            st, v = check.once(plan)
            again = st == "violation" and v[0] == kind
            plan = check.explicit(plan) if hasattr(check, "explicit") else plan
            st, v = check.once(plan)
            if not (st == "violation" and v[0] == kind):
                plan = copy.deepcopy(orig)
            small, tries = minimise(check, plan, kind, 60 if tier == "quick" else 120)
            st, v = check.once(small)
            st2, v2 = check.once(small)
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            rp = os.path.join(VERIF, "replays", f"{check.id}-{seed}-{i}.json")
            with open(rp, "w") as f:
                json.dump({"property": check.id, "seed": seed, "run": i, "kind": kind,
                           "message": v[1] if st == "violation" else msg,
                           "reproduced_twice": (st, v) == (st2, v2) and st == "violation",
                           "first_replay_reproduced": again,
                           "minimisation_runs": tries, "plan": small, "original_plan": orig},
                          f, indent=1, default=str)
            print(f"{kind}: {v[1] if st == 'violation' else msg}")
            print(f"replay: /opt/venv/bin/python {VERIF}/run_check.py replay {rp}")
            print(f"VIOLATION property={check.id} replay={rp}")
    for kind, msg in sorted(known_hits.items()):
        print(f"KNOWN-FINDING: property={check.id} {kind}: {msg.splitlines()[-1][:300]}")
    world.clean()
    wall = _now() - t0
    ev = {
        "property": check.id,
        "tier": tier,
        "seed": seed,
        "level": check.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(keys),
            "rule": check.rule,
            "samples": samples[:2],
            "nontrivial_runs": nontrivial,
            "seeds": f"sha256(VERIF_SEED={seed}, {check.id}, run index) for run indices below {n}",
            "runs_per_hour": round(evals / max(search_s, 1e-6) * 3600),
            "measured": stats,
            "real_code": check.real_components,
            "stubs": check.stub_components,
        },
        "assumptions": list(check.assumptions),
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{check.id}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    if code == 0:
        print(f"{check.id}: held on {evals} runs, {len(keys)} distinct non-trivial, {wall:.0f} s")
        if evals < n:
            print(f"note: {n - evals} of {n} runs not started within {cap} s")
    return code


def replay(path):
    with open(path) as f:
        r = json.load(f)
    check = load(r["property"])
    check.prepare()
    st, v = check.once(r["plan"])
    print(st, v if st != "ok" else "")
    if st == "violation":
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    return 0 if st == "ok" else 2


def load(cid):
    m = importlib.import_module("checks." + cid.lower())
    return m.CHECK
