"""Simulated disk: file operations of the code under test go through here.

The files live in a scratch directory created for the run.  Every operation on a path below it is
numbered; the run's plan says which of them fail, are done in pieces, or are the last thing the
process does.  Operations outside the scratch directory are passed on unchanged, except that
writes outside it are refused, so that nothing can leak into the real file system.

Faults, by operation number:
  ["error", errno-name]      the operation fails (a write may have written part: with
                             ["error", name, frac] a write is short and the next one fails)
  ["short", frac]            a write writes only part and reports that (legal; callers must go on)
  ["intr"]                   the call is interrupted by a signal and must be repeated
  ["crash", frac]            the process dies; a write first stores the given part
  ["power", frac, seed]      as crash, but data written and not synced may be cut back, and one
                             file created and not synced may be missing
"""
import builtins
import errno
import io
import os
import random
import stat as stat_mod

from . import sched

real = {}
ACTIVE = [None]
WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


class SimCrash(BaseException):
    pass


class Refused(Exception):
    """The code under test tried to change something outside its scratch directory."""


class Disk:
    def __init__(self, root, faults=None, listing_seed=None, on_crash=None, log=True, allow=()):
        self.root = os.path.realpath(root)
        self.roots = {self.root, os.path.abspath(root)}
        self.faults = dict(faults or {})
        self.k = 0
        self.log = []
        self.listing = None if listing_seed is None else random.Random(listing_seed)
        self.on_crash = on_crash
        self.dead = False
        self.fds = {}  # real fd -> path
        self.synced = {}  # path -> length known durable
        self.touched = {}  # path -> True if created in this run
        self.injected = []
        self.outside = []
        self.shuffled = 0
        self.allow = [os.path.realpath(a) for a in allow]
        self.during_listing = None
        self.encoding = None  # of text files opened without one, as the locale would give

    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        for root in self.roots:
            if p == root or p.startswith(root + "/"):
                return self.root + p[len(root):]
        return None

    def rel(self, p):
        return os.path.relpath(p, self.root)

    def op(self, name, path, writes=None):
        """Count an operation and apply its fault.  Returns the fault for writes."""
        if self.dead:
            raise SimCrash()
        sched.vy(1)
        self.k += 1
        self.log.append((self.k, name, self.rel(path)))
        f = self.faults.get(self.k)
        if f is None:
            return None
        if f[0] == "error":
            if writes is not None and len(f) > 2 and f[2] > 0:
                return f
            self.injected.append((self.k, name, f[0]))
            raise OSError(getattr(errno, f[1]), os.strerror(getattr(errno, f[1])), str(path))
        if f[0] in ("crash", "power"):
            if writes is not None and f[1] > 0:
                return f
            self.crash(f, name)
        if f[0] in ("short", "intr"):
            return f if writes is not None else None
        return None

    def crash(self, f, name):
        self.injected.append((self.k, name, f[0]))
        self.dead = True
        if f[0] == "power":
            r = random.Random(f[2])
            cuts, loss = r.choice([(0.5, 0.5), (0.5, 0.0), (0.0, 1.0), (0.1, 1.0)])
            for p, created in sorted(self.touched.items()):
                if not real["os.path.exists"](p) or real["os.path.isdir"](p):
                    continue
                size = os.stat_result(real["os.stat"](p)).st_size
                durable = self.synced.get(p, 0)
                if size > durable and r.random() < cuts:
                    cut = r.choice([durable, r.randrange(durable, size + 1), (size // 512) * 512])
                    real["os.truncate"](p, max(durable, min(cut, size)))
            fresh = [p for p, c in sorted(self.touched.items())
                     if c and p not in self.synced and real["os.path.isfile"](p)]
            if fresh and r.random() < loss:
                real["os.unlink"](r.choice(fresh))
        if self.on_crash is not None:
            self.on_crash()
        raise SimCrash()

    def wrote(self, path, created=False):
        self.touched[path] = self.touched.get(path, False) or created

    def order(self, names):
        if self.listing is not None:
            names = sorted(names, key=lambda e: getattr(e, "name", e))
            self.listing.shuffle(names)
            self.shuffled += 1
        return names


class Raw(io.RawIOBase):
    """Unbuffered file whose reads and writes go through the simulated disk."""

    def __init__(self, disk, fd, path, mode):
        self._disk, self._fd, self._path = disk, fd, path
        self._fail = None
        self.mode = mode
        self.name = path
        self._r = "r" in mode or "+" in mode
        self._w = any(c in mode for c in "wax+")
        disk.fds[fd] = path

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def readinto(self, b):
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        f = self._disk.op("read", self._path, writes=True)
        n = len(b)
        if f is not None:
            if f[0] == "intr":
                self._disk.injected.append((self._disk.k, "read", "intr"))
                raise InterruptedError(errno.EINTR, "interrupted")
            if f[0] == "short" and n > 1:
                self._disk.injected.append((self._disk.k, "read", "short"))
                n = max(1, int(n * f[1]))
            elif f[0] == "error":
                self._disk.injected.append((self._disk.k, "read", "error"))
                raise OSError(getattr(errno, f[1]), os.strerror(getattr(errno, f[1])), self._path)
            elif f[0] in ("crash", "power"):
                self._disk.crash(f, "read")
        data = real["os.read"](self._fd, n)
        b[: len(data)] = data
        return len(data)

    def write(self, b):
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        data = bytes(b)
        d = self._disk
        f = d.op("write", self._path, writes=True)
        d.wrote(self._path)
        if self._fail and data:
            f, self._fail = ["error", self._fail, 0], None
        if f is not None and data:
            part = data[: int(len(data) * f[1])] if f[0] in ("short", "crash", "power") else data
            if f[0] == "intr":
                d.injected.append((d.k, "write", "intr"))
                raise InterruptedError(errno.EINTR, "interrupted")
            if f[0] == "short":
                part = part or data[:1]
                if len(part) < len(data):
                    d.injected.append((d.k, "write", "short"))
                return real["os.write"](self._fd, part)
            if f[0] == "error":
                part = data[: int(len(data) * f[2])]
                if part and len(part) < len(data):
                    # what fits is written and reported, the next write fails
                    self._fail = f[1]
                    return real["os.write"](self._fd, part)
                d.injected.append((d.k, "write", "error"))
                raise OSError(getattr(errno, f[1]), os.strerror(getattr(errno, f[1])), self._path)
            if part:
                real["os.write"](self._fd, part)
            d.crash(f, "write")
        n = 0
        while n < len(data):
            n += real["os.write"](self._fd, data[n:])
        return len(data)

    def seek(self, pos, whence=0):
        return os.lseek(self._fd, pos, whence)

    def tell(self):
        return os.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self._disk.op("truncate", self._path)
        self._disk.wrote(self._path)
        real["os.ftruncate"](self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
            if not self._disk.dead:
                self._disk.op("close", self._path)
        finally:
            self._disk.fds.pop(self._fd, None)
            real["os.close"](self._fd)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    d = ACTIVE[0]
    if d is None:
        return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        path = d.fds.get(file)
        if path is None:
            return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        fd = file
    else:
        path = d.inside(file)
        writing = any(c in mode for c in "wax+")
        if path is None:
            if writing:
                refuse(d, "open", file)
            return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        d.op("open-" + mode.replace("b", "").replace("t", ""), path)
        existed = real["os.path.exists"](path)
        flags = os.O_CLOEXEC
        if "+" in mode:
            flags |= os.O_RDWR
        elif writing:
            flags |= os.O_WRONLY
        else:
            flags |= os.O_RDONLY
        if "w" in mode:
            flags |= os.O_CREAT | os.O_TRUNC
        if "a" in mode:
            flags |= os.O_CREAT | os.O_APPEND
        if "x" in mode:
            flags |= os.O_CREAT | os.O_EXCL
        if opener is not None:
            fd = opener(file, flags)
        else:
            fd = real["os.open"](path, flags, 0o666)
            if stat_mod.S_ISDIR(os.fstat(fd).st_mode):
                real["os.close"](fd)
                raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), str(file))
        if writing:
            d.wrote(path, created=not existed)
            if "w" in mode:
                d.synced.pop(path, None)
    raw = Raw(d, fd, path, mode)
    if "b" in mode:
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if "+" in mode:
            return io.BufferedRandom(raw, size)
        return io.BufferedWriter(raw, size) if raw._w else io.BufferedReader(raw, size)
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    else:
        buf = io.BufferedWriter(raw, size) if raw._w else io.BufferedReader(raw, size)
    if encoding in (None, "locale"):
        encoding = d.encoding
    t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
    t.mode = mode
    return t


def refuse(d, what, path):
    for a in d.allow:
        p = os.path.abspath(os.fspath(path)) if not isinstance(path, int) else ""
        if p == a or p.startswith(a + "/"):
            return
    d.outside.append((what, str(path)))
    raise Refused(f"{what} outside the scratch directory: {path}")


def _wrap_path(name, write, two=False):
    base = name.split(".")[-1]

    def f(path, *a, **kw):
        d = ACTIVE[0]
        if d is None or isinstance(path, int) or kw.get("dir_fd") is not None:
            return real[name](path, *a, **kw)
        p = d.inside(path)
        if p is None:
            if write:
                refuse(d, base, path)
            return real[name](path, *a, **kw)
        if two and d.inside(a[0] if a else kw.get("dst")) is None:
            refuse(d, base, a[0] if a else kw.get("dst"))
        d.op(base, p)
        existed = real["os.path.exists"](p) if write else None
        r = real[name](path, *a, **kw)
        if write:
            if base == "mkdir":
                d.wrote(p, created=not existed)
            elif two:
                q = d.inside(a[0] if a else kw.get("dst"))
                d.touched[q] = d.touched.get(p, False) or not existed
                if p in d.synced:
                    d.synced[q] = d.synced[p]
                else:
                    d.synced.pop(q, None)
            elif base == "truncate":
                d.wrote(p)
        return r

    f.__name__ = base
    return f


class _Scan:
    def __init__(self, entries):
        self.e = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.e)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def sim_scandir(path="."):
    d = ACTIVE[0]
    p = None if d is None or isinstance(path, int) else d.inside(path)
    if p is None:
        return real["os.scandir"](path)
    d.op("scandir", p)
    with real["os.scandir"](path) as it:
        ents = list(it)
    if d.during_listing is not None:
        d.during_listing(p)
    return _Scan(d.order(ents))


def sim_listdir(path="."):
    d = ACTIVE[0]
    p = None if d is None or isinstance(path, int) else d.inside(path)
    if p is None:
        return real["os.listdir"](path)
    d.op("listdir", p)
    names = real["os.listdir"](path)
    if d.during_listing is not None:
        d.during_listing(p)
    return d.order(names)


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    d = ACTIVE[0]
    if d is None or dir_fd is not None:
        return real["os.open"](path, flags, mode, dir_fd=dir_fd)
    p = d.inside(path)
    if p is None:
        if flags & WRITE_FLAGS:
            refuse(d, "os.open", path)
        return real["os.open"](path, flags, mode)
    d.op("os.open", p)
    existed = real["os.path.exists"](p)
    fd = real["os.open"](path, flags, mode)
    d.fds[fd] = p
    if flags & WRITE_FLAGS:
        d.wrote(p, created=not existed)
    return fd


def sim_os_write(fd, data):
    d = ACTIVE[0]
    if d is None or fd not in d.fds:
        return real["os.write"](fd, data)
    p = d.fds[fd]
    f = d.op("write", p, writes=True)
    d.wrote(p)
    data = bytes(data)
    if f is not None and f[0] in ("short", "crash", "power"):
        part = data[: int(len(data) * f[1])]
        if f[0] == "short":
            d.injected.append((d.k, "write", "short"))
            return real["os.write"](fd, part or data[:1])
        if part:
            real["os.write"](fd, part)
        d.crash(f, "write")
    if f is not None and f[0] == "error":
        d.injected.append((d.k, "write", "error"))
        raise OSError(getattr(errno, f[1]), os.strerror(getattr(errno, f[1])), p)
    return real["os.write"](fd, data)


def sim_close(fd):
    d = ACTIVE[0]
    if d is not None:
        d.fds.pop(fd, None)
    return real["os.close"](fd)


def _sync(name):
    def f(fd):
        d = ACTIVE[0]
        n = fd if isinstance(fd, int) else fd.fileno()
        if d is None or n not in d.fds:
            return real[name](fd)
        p = d.fds[n]
        d.op("fsync", p)
        if real["os.path.isfile"](p):
            d.synced[p] = os.fstat(n).st_size

    return f


def install():
    """Patch the operations once per process; they are inactive until ACTIVE is set."""
    if real:
        return
    real["open"] = builtins.open
    for n in ("mkdir", "rmdir", "unlink", "remove", "rename", "replace", "stat", "lstat", "scandir",
              "listdir", "open", "write", "read", "close", "fsync", "fdatasync", "truncate",
              "ftruncate", "link", "symlink", "chmod", "utime"):
        real["os." + n] = getattr(os, n)
    real_stat = os.stat

    def exists(p):
        try:
            real_stat(p)
            return True
        except OSError:
            return False

    def isdir(p):
        try:
            return stat_mod.S_ISDIR(real_stat(p).st_mode)
        except OSError:
            return False

    def isfile(p):
        try:
            return stat_mod.S_ISREG(real_stat(p).st_mode)
        except OSError:
            return False

    real["os.path.exists"], real["os.path.isdir"], real["os.path.isfile"] = exists, isdir, isfile
    builtins.open = sim_open
    io.open = sim_open
    for n, w, two in (("mkdir", 1, 0), ("rmdir", 1, 0), ("unlink", 1, 0), ("remove", 1, 0),
                      ("rename", 1, 1), ("replace", 1, 1), ("stat", 0, 0), ("lstat", 0, 0),
                      ("truncate", 1, 0), ("link", 1, 1), ("chmod", 1, 0), ("utime", 1, 0)):
        setattr(os, n, _wrap_path("os." + n, bool(w), bool(two)))
    os.scandir = sim_scandir
    os.listdir = sim_listdir
    os.open = sim_os_open
    os.write = sim_os_write
    os.close = sim_close
    os.fsync = _sync("os.fsync")
    os.fdatasync = _sync("os.fdatasync")
    import numpy.lib._format_impl as fmt

    orig = fmt.isfileobj

    def isfileobj(f):
        if isinstance(getattr(f, "raw", None), Raw):
            return False  # so that numpy writes through the file object
        return orig(f)

    fmt.isfileobj = isfileobj
    try:
        import numpy.lib.format as pub

        pub.isfileobj = isfileobj
    except Exception:
        pass


class active:
    def __init__(self, disk):
        self.d = disk

    def __enter__(self):
        ACTIVE[0] = self.d
        return self.d

    def __exit__(self, *a):
        ACTIVE[0] = None
        return False
