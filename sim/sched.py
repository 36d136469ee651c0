"""Simulated threads: real threads of which exactly one runs, switched only at scheduling points.

A schedule is a list of [n, t]: when the n-th scheduling point of the run is passed, thread t
gets the processor (if it can run).  When a thread ends or blocks, the next entry for the event
decides, otherwise the runnable thread with the lowest number continues.  The list is part of
the run's plan, or is produced by a seeded policy and recorded, so a run can be repeated exactly.
"""
import _thread
import random
import weakref


class Deadlock(Exception):
    pass


class Starved(Exception):
    """The run exceeded its bound on scheduling points: no progress."""


class _Kill(BaseException):
    pass


RECORDED = []  # schedules of the groups of threads run by this process
CUR = None  # the active Run, or None
COUNT = [0]  # scheduling points passed when no Run is active
LIMIT = [None]
HOOK = [None]  # called at each point when no Run is active
INTERRUPT = [None, None]  # (n, exception class) when no Run is active


def vy(kind=0):
    """Scheduling point; called by instrumented code."""
    r = CUR
    if r is None:
        COUNT[0] += 1
        if HOOK[0] is not None:
            HOOK[0]()
        if COUNT[0] == INTERRUPT[0]:
            INTERRUPT[0] = None
            raise INTERRUPT[1](f"injected at point {COUNT[0]}")
        if LIMIT[0] is not None and COUNT[0] > LIMIT[0]:
            raise Starved(f"more than {LIMIT[0]} steps")
        return
    r.n += 1
    if kind:
        r.hot += 1
    if r.n >= r.next or (kind and r.on_hot):
        r.point(kind)


# ------------------------------------------------------------------ policies


class Explicit:
    """Replay of a recorded schedule."""

    on_hot = False

    def __init__(self, switches):
        self.sw = {}
        for n, t in switches:
            self.sw.setdefault(n, t)
        self.ns = sorted(self.sw)
        self.i = 0

    def first(self):
        return self.ns[0] if self.ns else float("inf")

    def pick(self, n, runnable, cur, forced, kind):
        t = self.sw.get(n)
        while self.i < len(self.ns) and self.ns[self.i] <= n:
            self.i += 1
        nxt = self.ns[self.i] if self.i < len(self.ns) else float("inf")
        if t in runnable:
            return t, nxt
        if forced or cur not in runnable:
            return runnable[0], nxt
        return cur, nxt


class RandomWalk:
    """Switch after geometrically distributed numbers of points, or (p_hot) between load and store."""

    def __init__(self, seed, mean, p_hot=0.0):
        self.r = random.Random(seed)
        self.mean = mean
        self.p_hot = p_hot
        self.on_hot = p_hot > 0

    def gap(self):
        return 1 + int(self.r.expovariate(1.0 / self.mean))

    def first(self):
        self.nxt = self.gap()
        return self.nxt

    def pick(self, n, runnable, cur, forced, kind):
        if not forced and n < self.nxt:  # a hot point before its time
            if self.r.random() >= self.p_hot:
                return cur, self.nxt
        else:
            self.nxt = n + self.gap()
        others = [t for t in runnable if t != cur]
        if not others:
            return cur, self.nxt
        return self.r.choice(others), self.nxt


class PCT:
    """Random priorities with d priority changes at random points of an expected length."""

    on_hot = False

    def __init__(self, seed, ntasks, d, length):
        self.r = random.Random(seed)
        self.prio = {t: self.r.random() + d for t in range(ntasks)}
        self.change = sorted(self.r.randrange(1, max(2, length)) for _ in range(d))
        self.low = 0.0

    def first(self):
        return self.change[0] if self.change else float("inf")

    def pick(self, n, runnable, cur, forced, kind):
        while self.change and self.change[0] <= n:
            self.change.pop(0)
            if cur in self.prio and not forced:
                self.low -= 1.0
                self.prio[cur] = self.low
        nxt = self.change[0] if self.change else float("inf")
        return max(runnable, key=lambda t: self.prio.get(t, 0.0)), nxt


class Stall:
    """One thread is held at a random point until all others are done."""

    on_hot = False

    def __init__(self, seed, ntasks, length):
        self.r = random.Random(seed)
        self.victim = self.r.randrange(ntasks)
        self.at = self.r.randrange(1, max(2, length))
        self.held = False

    def first(self):
        return self.at

    def pick(self, n, runnable, cur, forced, kind):
        nxt = float("inf")
        if n >= self.at and not self.held:
            if cur == self.victim or forced:
                self.held = True
            else:
                nxt = n + 1 + self.r.randrange(50)
        ok = [t for t in runnable if not (self.held and t == self.victim)] or runnable
        if cur in ok and not forced:
            return cur, nxt
        return self.r.choice(ok), nxt


def policy(spec, ntasks):
    k = spec[0]
    if k == "explicit":
        return Explicit(spec[1])
    if k == "walk":
        return RandomWalk(spec[1], spec[2], spec[3])
    if k == "pct":
        return PCT(spec[1], ntasks, spec[2], spec[3])
    if k == "stall":
        return Stall(spec[1], ntasks, spec[2])
    raise ValueError(k)


def random_policy(rng, length):
    """A policy spec drawn from a mix; length is the expected number of points."""
    x = rng.random()
    s = rng.randrange(1 << 30)
    if x < 0.35:
        return ["walk", s, rng.choice([2, 5, 20, 100, 500, 3000]), 0.0]
    if x < 0.65:
        return ["walk", s, rng.choice([50, 1000, 10**6]), rng.choice([0.05, 0.3, 0.7])]
    if x < 0.85:
        return ["pct", s, rng.choice([1, 2, 3, 5]), max(10, length)]
    return ["stall", s, max(10, length)]


# ------------------------------------------------------------------ threads


class Task:
    __slots__ = ("num", "fn", "lock", "done", "result", "error", "blocked_on")

    def __init__(self, num, fn):
        self.num = num
        self.fn = fn
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.done = False
        self.result = None
        self.error = None
        self.blocked_on = None


class Run:
    """Runs functions as simulated threads under a policy."""

    def __init__(self, fns, pol, limit=50_000_000, interrupts=(), own=None):
        self.own = own  # (get, set) of state each thread has its own copy of
        self.states = {}
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        self.pol = pol
        self.on_hot = pol.on_hot
        self.n = 0
        self.hot = 0
        self.next = pol.first()
        self.limit = limit
        self.switches = []
        self.cur = None
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.fatal = None
        self.killing = False
        self.interrupts = sorted(interrupts)  # [(n, exception class)]
        self._arm()

    def _arm(self):
        lim = self.limit
        if self.interrupts:
            lim = min(lim, self.interrupts[0][0])
        self.next_pol = self.next
        self.next = min(self.next, lim)

    def runnable(self):
        return [t.num for t in self.tasks if not t.done and (
            t.blocked_on is None or t.blocked_on.free_for(t.num))]

    def point(self, kind):
        if self.killing:
            raise _Kill()
        if self.n >= self.limit:
            self.fatal = Starved(f"no end after {self.n} steps")
            self.finish_all()
            raise _Kill()
        if self.interrupts and self.n >= self.interrupts[0][0]:
            _, exc = self.interrupts.pop(0)
            self.next = self.next_pol
            self._arm()
            raise exc("injected")
        self.choose(False, kind)

    def choose(self, forced, kind=0):
        """Pick the next thread to run; called by the running thread."""
        if forced:
            self.n += 1  # every decision has its own number
        run = self.runnable()
        me = self.cur
        if not run:
            if all(t.done for t in self.tasks):
                self.main.release()
                return
            self.fatal = Deadlock(
                "all threads wait: " + ", ".join(
                    f"thread {t.num}" for t in self.tasks if not t.done)
            )
            self.finish_all()
            if forced == "block":
                raise _Kill()
            return
        t, self.next = self.pol.pick(self.n, run, me, bool(forced), kind)
        self._arm()
        if t != me:
            self.switches.append([self.n, t])
            if self.own is not None:
                self.states[me] = self.own[0]()
                if t in self.states:
                    self.own[1](self.states[t])
            self.cur = t
            self.tasks[t].lock.release()
            if forced != "end":
                self.tasks[me].lock.acquire()
                if self.killing:
                    raise _Kill()

    def finish_all(self):
        """Stop every thread (after a fatal condition)."""
        self.killing = True
        for t in self.tasks:
            if not t.done and t.num != self.cur:
                t.lock.release()
        # the running thread releases main when it ends; parked ones just die
        self.main_owner = self.cur

    def block_on(self, lock):
        """The running thread waits for a simulated lock."""
        me = self.tasks[self.cur]
        me.blocked_on = lock
        while not lock.free_for(me.num):
            self.choose("block")
        me.blocked_on = None

    def body(self, t):
        t.lock.acquire()
        try:
            if not self.killing:
                t.result = t.fn()
        except _Kill:
            pass
        except BaseException as e:  # noqa: BLE001 - recorded, judged by the check
            t.error = e
        t.done = True
        if self.killing:
            if self.cur == t.num:
                self.main.release()
            return
        self.choose("end")

    def go(self, first=0):
        global CUR
        assert CUR is None
        for t in self.tasks:
            _thread.start_new_thread(self.body, (t,))
        CUR = self
        self.cur = None
        try:
            run = self.runnable()
            f, self.next = self.pol.pick(0, run, None, True, 0)
            self._arm()
            self.switches.append([0, f])
            self.cur = f
            self.tasks[f].lock.release()
            self.main.acquire()
        finally:
            CUR = None
        COUNT[0] += self.n
        if self.fatal is not None:
            raise self.fatal
        return self


class SimLock:
    """Replacement for threading.Lock/RLock that waits under the simulator's control."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def free_for(self, t):
        return self.owner is None or (self.reentrant and self.owner == t)

    def _me(self):
        return CUR.cur if CUR is not None else "main"

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if CUR is None and self.owner not in (None, "main"):
            self.owner, self.depth = None, 0  # owner's run is over
        if not self.free_for(me):
            if not blocking or timeout == 0:
                return False
            if CUR is None:
                raise Deadlock("main thread waits for its own lock")
            if timeout is not None and timeout > 0:
                vy(1)
                if not self.free_for(me):
                    return False
            else:
                CUR.block_on(self)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.owner, self.depth = None, 0

    # used by threading.Condition
    def _is_owned(self):
        return self.owner == self._me()

    def _release_save(self):
        s = (self.owner, self.depth)
        self.owner, self.depth = None, 0
        return s

    def _acquire_restore(self, s):
        self.acquire()
        self.owner, self.depth = s


# ------------------------------------------------------------------ parallel loops


class ParPlan:
    """How parallel loops are executed: workers, division of indices, schedule."""

    def __init__(self, workers=1, division=("static",), pol=None, first_loops=None):
        self.workers = workers
        self.division = division
        self.pol = pol  # None: workers run one after another without switches
        self.loops = 0
        self.switches = []
        self.points = 0
        self.hot = 0


PAR = [None]  # active ParPlan


def _ident(op, v):
    if op in ("Add", "Sub"):
        return v * 0
    if op in ("Mult", "Div"):
        return v * 0 + 1
    if op == "BitOr" or op == "BitXor":
        return 0
    return v


def _combine(op, a, b, start):
    if op in ("Add", "Sub"):
        return a + b
    if op in ("Mult",):
        return a * b
    if op == "Div":
        return a * b
    if op == "BitOr":
        return a | b
    if op == "BitXor":
        return a ^ b
    if op == "min":
        return min(a, b)
    if op == "max":
        return max(a, b)
    return b


def divide(idx, workers, division):
    """Assign the indices of a loop to workers."""
    kind = division[0]
    n = len(idx)
    if kind == "static":  # contiguous chunks, as numba's default
        out = []
        for w in range(workers):
            out.append(idx[n * w // workers: n * (w + 1) // workers])
        return out
    r = random.Random(division[1])
    if kind == "perm":
        order = list(idx)
        r.shuffle(order)
        return [order[w::workers] for w in range(workers)]
    if kind == "chunks":  # uneven contiguous chunks in random order
        cuts = sorted(r.randrange(n + 1) for _ in range(workers - 1))
        cuts = [0] + cuts + [n]
        out = [idx[cuts[i]:cuts[i + 1]] for i in range(workers)]
        r.shuffle(out)
        return out
    raise ValueError(kind)


def prange(body, args, reds):
    """One parallel loop.  reds: {name: (operation, value before the loop)}."""
    p = PAR[0]
    idx = list(range(*[int(a) for a in args]))
    if p is None or CUR is not None or len(idx) < 2:
        red = {k: v for k, (op, v) in reds.items()}
        for i in idx:
            body(i, red)
        return red
    p.loops += 1
    division = p.division if p.division[0] == "static" else (
        p.division[0], p.division[1] * 1000003 + p.loops)
    parts = [x for x in divide(idx, max(1, min(p.workers, len(idx))), division) if x]
    accs = [{k: _ident(op, v) for k, (op, v) in reds.items()} for _ in parts]

    def worker(part, acc):
        for i in part:
            body(i, acc)

    if p.pol is None:
        for part, acc in zip(parts, accs):
            worker(part, acc)
    else:
        spec = p.pol
        if spec[0] == "explicit":
            pol = Explicit(spec[1].get(str(p.loops), []))
        else:
            spec = list(spec)
            spec[1] = spec[1] * 1000003 + p.loops
            pol = policy(spec, len(parts))
        run = Run([lambda part=part, acc=acc: worker(part, acc) for part, acc in zip(parts, accs)], pol)
        run.go()
        p.points += run.n
        p.hot += run.hot
        if len(run.switches) > 1 or (run.switches and run.switches[0][1] != 0):
            p.switches.append([p.loops, run.switches])
        for t in run.tasks:
            if t.error is not None:
                raise t.error
    red = {}
    for k, (op, v) in reds.items():
        r = v
        for acc in accs:
            r = _combine(op, r, acc[k], v)
        red[k] = r
    return red


# ------------------------------------------------------------------ addresses


class Addresses:
    """Simulated memory addresses: the address of a dead object is given to the next new one."""

    def __init__(self, rng=None):
        self.live = {}
        self.free = []
        self.top = 0x7F0000000000
        self.rng = rng
        self.reused = 0

    def of(self, obj):
        key = _real_id(obj)
        if key in self.live:
            return self.live[key]
        try:
            ref = weakref.finalize(obj, self.drop, key)
            ref.atexit = False
        except TypeError:
            return key
        if self.free:
            a = self.free.pop()
            self.reused += 1
        else:
            a = self.top
            self.top += 64
        self.live[key] = a
        return a

    def drop(self, key):
        a = self.live.pop(key, None)
        if a is not None:
            self.free.append(a)


_real_id = id
ADDR = [None]


def sim_id(obj):
    a = ADDR[0]
    return _real_id(obj) if a is None else a.of(obj)
