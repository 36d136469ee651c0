"""The simulated world of one run: a forked copy of a clean process in which randomness,
identifiers, clock, disk, addresses and thread switches are all decided by the plan."""
import gc
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
import uuid

from . import sched

SCRATCH_BASE = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
real_time = time.time
real_perf = time.perf_counter


class Violation(Exception):
    """The property is broken; kind identifies the way it is, for minimisation."""

    def __init__(self, kind, message):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message


class SimClock:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.t = 1.0e9 + self.r.random() * 1e9

    def tick(self):
        self.t += self.r.choice([0.0, 1e-6, 1e-3, 1.0, 3600.0]) * self.r.random()
        return self.t


def seed_world(seed, clock=None):
    """All sources of randomness of the process follow from one number."""
    import numpy as np

    random.seed(seed)
    np.random.seed(seed & 0x7FFFFFFF)
    r = random.Random(seed ^ 0x5EED)
    uuid.uuid4 = lambda: uuid.UUID(int=r.getrandbits(128), version=4)
    uuid.uuid1 = lambda *a, **k: uuid.UUID(int=r.getrandbits(128), version=1)
    os.urandom = lambda n: r.randbytes(n)
    c = SimClock(seed if clock is None else clock)
    time.time = c.tick
    time.perf_counter = c.tick
    time.monotonic = c.tick
    time.time_ns = lambda: int(c.tick() * 1e9)
    time.sleep = lambda s: None


RUN = [os.getpid()]


def scratch():
    return tempfile.mkdtemp(prefix=f"b3dsim-{RUN[0]}-", dir=SCRATCH_BASE)


def clean():
    """Remove the scratch directories of runs that were killed."""
    base = SCRATCH_BASE or tempfile.gettempdir()
    for n in os.listdir(base):
        if n.startswith(f"b3dsim-{RUN[0]}-"):
            rmtree(os.path.join(base, n))


def sim_locks():
    """From here on (in a child), locks are simulated ones, those of logging included."""
    import logging
    import threading

    threading.Lock = sched.SimLock
    threading.RLock = lambda: sched.SimLock(True)
    if not isinstance(logging._lock, sched.SimLock):
        logging._lock = sched.SimLock(True)
        for ref in list(logging._handlerList):
            hd = ref()
            if hd is not None:
                hd.lock = sched.SimLock(True)


def inline_threads():
    """From here on (in a child), a thread or pool job started by the code under test runs where it
    is started: one of the orders it can run in, and a repeatable one."""
    import threading
    from concurrent import futures

    start = threading.Thread.start

    def run_here(self):
        mod = getattr(getattr(self, "_target", None), "__module__", "") or ""
        dummy = isinstance(threading.current_thread(), threading._DummyThread)  # passes on its daemon
        if (self.daemon and not dummy) or mod.split(".")[0] in ("multiprocessing", "concurrent", "logging"):
            return start(self)
        if self._started.is_set():
            raise RuntimeError("threads can only be started once")
        self._started.set()
        try:
            self.run()
        except Exception:
            traceback.print_exc()
        finally:
            self._is_stopped = True

    def submit(self, fn, /, *args, **kw):
        if self._shutdown:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = futures.Future()
        f.set_running_or_notify_cancel()
        try:
            f.set_result(fn(*args, **kw))
        except Exception as e:
            f.set_exception(e)
        return f

    threading.Thread.start = run_here
    futures.ThreadPoolExecutor.submit = submit


def in_child(fn, timeout):
    """Run fn() in a forked child.  Returns (status, value):
    ("ok", result), ("violation", (kind, message)), ("error", traceback), ("died", code),
    ("timeout", None)."""
    from . import fs

    osw = fs.real.get("os.write", os.write)
    osc = fs.real.get("os.close", os.close)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            osc(r)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            dn = fs.real.get("os.open", os.open)(os.devnull, os.O_RDWR)
            os.dup2(dn, 1)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(dn, 2)
            gc.disable()
            sim_locks()
            inline_threads()
            try:
                out = ("ok", fn())
            except Violation as v:
                out = ("violation", (v.kind, v.message))
            except BaseException:
                out = ("error", traceback.format_exc())
            data = pickle.dumps(out)
            data = struct.pack("<Q", len(data)) + data
            while data:
                n = osw(w, data)
                data = data[n:]
        except BaseException:
            code = 70
        finally:
            os._exit(code)
    osc(w)
    buf = b""
    deadline = real_time() + timeout
    status = None
    try:
        while True:
            left = deadline - real_time()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                status = ("timeout", None)
                break
            ready, _, _ = select.select([r], [], [], min(left, 5.0))
            if ready:
                b = os.read(r, 1 << 20)
                if not b:
                    break
                buf += b
    finally:
        osc(r)
    _, st = os.waitpid(pid, 0)
    if status:
        return status
    if len(buf) >= 8:
        n = struct.unpack("<Q", buf[:8])[0]
        if len(buf) >= 8 + n:
            return pickle.loads(buf[8: 8 + n])
    return ("died", os.waitstatus_to_exitcode(st))


def interrupt_point(fn, n):
    """Where to interrupt fn: n chooses among its scheduling points, counted by a rehearsal in
    another process, often close to the end or the beginning."""

    def body():
        sched.COUNT[0] = 0
        try:
            fn()
        except Exception:
            pass
        return sched.COUNT[0]

    st, total = in_child(body, 60)
    if st != "ok" or total < 1:
        return n
    k, n = n % 4, n // 4
    if k == 0:
        return max(1, total - n % 80)
    if k == 1:
        return 1 + n % 80
    return 1 + n % total


def rmtree(path):
    path = os.path.realpath(path)
    base = os.path.realpath(SCRATCH_BASE or tempfile.gettempdir())
    assert os.path.basename(path).startswith("b3dsim-") and os.path.dirname(path) == base, path
    shutil.rmtree(path, ignore_errors=True)
