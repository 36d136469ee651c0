"""Helpers for checks with a simulated disk."""
import os
import random

from . import fs, world

ERRNOS = ("ENOSPC", "EIO", "EACCES", "EDQUOT", "EROFS", "EMFILE")


def in_process(fn, root, faults, listing=None, timeout=90, encoding=None):
    """Run fn in a process of its own on the simulated disk.  A crash ends the process.
    Returns (outcome, value, disk record); outcome: "returned", "raised", "crashed"."""

    rec = os.path.join(os.path.dirname(root), os.path.basename(root) + ".rec")

    def body():
        disk = fs.Disk(root, {int(k): v for k, v in faults}, listing)

        disk.encoding = encoding

        def crash():
            with fs.real["open"](rec, "w") as f:
                f.write(repr((disk.k, disk.injected, len(disk.log))))
            os._exit(77)

        disk.on_crash = crash
        with fs.active(disk):
            try:
                out = ("returned", fn())
            except Exception as e:
                out = ("raised", f"{type(e).__name__}: {e}")
        return out, dict(ops=disk.k, injected=disk.injected, shuffled=disk.shuffled,
                         outside=disk.outside, log=disk.log)

    st, v = world.in_child(body, timeout)
    if st == "ok":
        (o, val), d = v
        return o, val, d
    if st == "died" and v == 77:
        with fs.real["open"](rec) as f:
            import ast

            k, inj, n = ast.literal_eval(f.read())
        fs.real["os.unlink"](rec)
        return "crashed", None, dict(ops=k, injected=inj, shuffled=0, outside=[], log=[])
    if st == "violation":
        raise world.Violation(*v)
    if st == "timeout":
        raise world.Violation("no-progress", "an operation did not end")
    raise RuntimeError(f"{st}: {v}")


def plain(fn, timeout=90):
    """Run fn in a process of its own without faults; ("returned", value) or ("raised", text)."""

    def body():
        try:
            return "returned", fn()
        except Exception as e:
            return "raised", f"{type(e).__name__}: {e}"

    st, v = world.in_child(body, timeout)
    if st == "ok":
        return v
    if st == "violation":
        raise world.Violation(*v)
    if st == "timeout":
        raise world.Violation("no-progress", "an operation did not end")
    if st == "died":
        raise world.Violation("died", f"process died: {v}")
    raise RuntimeError(f"{st}: {v}")


def gen_fault(rng, kinds):
    k = rng.choice(kinds)
    if k == "error":
        return ["error", rng.choice(ERRNOS), rng.choice([0, 0, 0.3, 0.9])]
    if k == "short":
        return ["short", rng.choice([0.01, 0.3, 0.5, 0.97])]
    if k == "intr":
        return ["intr"]
    if k == "crash":
        return ["crash", rng.choice([0, 0.0, 0.2, 0.5, 0.99, 1.0])]
    return ["power", rng.choice([0, 0.5, 1.0]), rng.randrange(1 << 30)]


def tree(path):
    """{relative path: content or None for directories} of a directory, or None."""
    if not os.path.isdir(path):
        return None
    out = {}
    for base, dirs, files in os.walk(path):
        for d in dirs:
            out[os.path.relpath(os.path.join(base, d), path)] = None
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, path)] = fh.read()
    return out


def count(inj, total=None):
    total = {} if total is None else total
    for _, op, kind in inj:
        k = f"{kind}@{op}"
        total[k] = total.get(k, 0) + 1
    return total


def small_scene(rng):
    """A tiny scene for checks about files."""
    from . import model, rays

    spec = model.gen_building(rng, ["box", "row"], 2)
    c = rays.gen_rays(rng, spec, rays=(1, 4), steps=(1, 14), absorbers=(0, 2))
    c["num_steps"] = rng.choice([1, 2, 3, 5, 6, 10, 11, 12, 14])
    c["batch"] = rng.choice([d for d in range(1, c["num_steps"] + 1) if c["num_steps"] % d == 0])
    c["voxel"] = max(c["voxel"], 0.6)
    if rng.random() < 0.6:
        # absorbers all around the source, so that there are hits at many steps
        c["num_rays"] = rng.choice([8, 16, 24])
        c["radius"] = rng.choice([0.2, 0.35])
        reach = c["speed"] * c["time_step"] * c["num_steps"]
        c["absorbers"] = []
        for _ in range(rng.randint(3, 9)):
            d = [rng.gauss(0, 1) for _ in range(3)]
            n = sum(x * x for x in d) ** 0.5
            r = c["radius"] * 1.1 + rng.random() * reach
            c["absorbers"].append([float(x + r * y / n) for x, y in zip(c["source"], d)])
    return spec, c
