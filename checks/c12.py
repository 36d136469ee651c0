"""C12: a failed or interrupted save is noticed, never read as a smaller building."""
import os

from sim import diskcheck, fs, iocheck, world
from sim.diskcheck import in_process, plain
from sim.iocheck import IoCheck
from sim.raycheck import digest
from sim.world import Violation


class C12(IoCheck):
    id = "C12"
    quick, thorough = 1600, 25000
    note = ("Seeded search over crash points, power losses, disk errors and cuts of saves in all formats; a fresh "
            "process then reads: an error, the complete new building or the complete old one.")
    rule = ("a run counts when an error, crash or power loss was injected or a file was cut; distinct by building, "
            "format, fault, operation number, cut positions and outcome")
    lists = ("faults", "cuts")
    assumptions = ["a crash keeps what was written; a power loss may cut unsynced files back and lose one unsynced "
                   "new file, not more"]

    def gen(self, rng, tier):
        fmt = rng.choice(iocheck.FORMATS)
        kind = rng.choice(["crash", "power", "error", "errors", "none"])
        n = rng.choice([6, 12, 30])
        if kind == "none":
            faults = []
        elif kind == "errors":
            a = rng.randrange(1, n)
            faults = [[k, ["error", "ENOSPC", 0]] for k in range(a, a + rng.choice([2, 50]))]
        else:
            faults = [[rng.randrange(1, n), diskcheck.gen_fault(rng, (kind,))]]
        return dict(new=iocheck.gen_spec(rng), old=iocheck.gen_spec(rng) if rng.random() < 0.6 else None,
                    fmt=fmt, faults=faults, where=rng.choice(["f", "d/f", "a/b/f"]),
                    cuts=[rng.choice([rng.random(), -rng.randrange(1, 60), rng.randrange(0, 200)])
                          for _ in range(8)],
                    neighbours=rng.sample(["f.bak", "other.b3d", "f.bim~", "notes", "f.tmp", "tmp"], 3),
                    world=rng.randrange(1 << 30))

    def execute(self, plan):
        world.seed_world(plan["world"])
        fmt = plan["fmt"]
        new, old = [None if b is None else iocheck.build_named(b["spec"], b["nseed"], b["odd"])
                    for b in (plan["new"], plan["old"])]
        want = iocheck.content(new, fmt)
        before = None if old is None else iocheck.content(old, fmt)
        top = world.scratch()
        root = os.path.join(top, "w")
        os.mkdir(root)
        try:
            path = os.path.join(root, plan["where"] + "." + fmt)
            if old is not None:
                iocheck.write(fmt, path, old)
            others = {}
            if os.path.isdir(os.path.dirname(path)):
                for n in plan["neighbours"]:
                    q = os.path.join(os.path.dirname(path), n)
                    with open(q, "w") as f:
                        f.write("keep " + n)
                    others[q] = "keep " + n
            o, val, d = in_process(lambda: iocheck.write(fmt, path, new), root, plan["faults"])
            hard = [i for i in d["injected"] if i[2] in ("error", "crash", "power")]
            if o == "raised" and not hard:
                raise Violation("save-failed", f"saving failed although no disk call did: {val}")
            for q, text in others.items():
                if not os.path.isfile(q) or open(q).read() != text:
                    raise Violation("neighbour", f"saving {os.path.basename(path)} changed {os.path.basename(q)}")

            def look():
                return iocheck.content(iocheck.read(fmt, path), fmt)

            o2, got = plain(look)
            if o == "returned":
                if o2 != "returned":
                    raise Violation("false-success", f"saving reported success after {hard}, but the file cannot be "
                                                     f"read: {got}")
                diff = iocheck.first_difference(got, want)
                if diff:
                    raise Violation("false-success", f"saving reported success after {hard}, but what is read "
                                                     f"differs: {diff}")
            elif o2 == "returned":
                self.judge_read(fmt, got, want, before, f"after {hard}", path)
            cut_ok = cut_err = 0
            if o == "returned":
                size = os.path.getsize(path)
                with open(path, "rb") as f:
                    data = f.read()
                for c in plan["cuts"]:
                    n = int(c * size) if isinstance(c, float) else (size + c if c < 0 else c)
                    n = max(0, min(size, n))
                    with open(path, "wb") as f:
                        f.write(data[:n])
                    o3, got = plain(look)
                    if o3 == "returned":
                        cut_ok += 1
                        self.judge_read(fmt, got, want, None, f"of which {n} of {size} bytes are left", path)
                    else:
                        cut_err += 1
        finally:
            world.rmtree(top)
        return dict(key=digest(plan["new"], fmt, hard, plan["cuts"], o, o2),
                    nontrivial=bool(hard) or (cut_ok + cut_err) > 0,
                    stats=dict(faults=diskcheck.count(d["injected"]), outcomes={o: 1}, cut_files_rejected=cut_err,
                               cut_files_read=cut_ok, reads_after_failure={o2: 1} if o != "returned" else {}))

    def begun(self, path):
        """True if the text of an STL file ends inside a solid."""
        with open(path, errors="replace") as f:
            words = [x.split()[0] if x.split() else "" for x in f.read().splitlines()]
        last = max([i for i, x in enumerate(words) if x == "endsolid"], default=-1)
        return "solid" in words[last + 1:]

    def judge_read(self, fmt, got, want, before, when, path):
        """A file whose saving failed was readable: it must be whole."""
        ok = [want] if before is None else [want, before]
        for w in ok:
            if iocheck.first_difference(got, w) is None:
                return
            if fmt == "stl" and len(got) < len(w) and iocheck.first_difference(got, w[:len(got)]) is None:
                if self.begun(path):
                    raise Violation("dropped", f"a stl file {when} ends inside a solid, but was read without it")
                return
        raise Violation("torn", f"a {fmt} file {when} reads as another building: "
                                f"{iocheck.first_difference(got, want)}")


CHECK = C12()
