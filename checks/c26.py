"""C26: movies, pictures and impulse responses show the stored states."""
import os

from sim import fs, model, sched, screen, world
from sim.diskcheck import gen_fault
from sim.raycheck import MODULES, digest
from sim.runner import ThreadCheck
from sim.world import Violation


class Interrupt(KeyboardInterrupt):
    pass


class C26(ThreadCheck):
    id = "C26"
    mode = "full"
    modules = tuple(dict.fromkeys(MODULES + ("building3d.sim.rays.movie_from_buffer", "building3d.display.plot_objects",
                                             "building3d.sim.rays.ray_buff_plotter",
                                             "building3d.sim.rays.impulse_response")))
    libs = ("pandas", "pyvista", "pyvista.core.pointset")
    quick, thorough = 1200, 20000
    note = ("Seeded search over histories, trail lengths, disk errors while frames are written, interruptions and "
            "concurrently made movies and pictures; what the simulated renderer was given for each frame is compared "
            "with the states.")
    rule = ("a run counts when at least two frames were compared or a fault hit; distinct by jobs, shape of the "
            "history, faults and schedule")
    lists = ("jobs", "faults")
    real_components = ("building3d: movie maker, picture maker, plot of ray buffers, impulse response; "
                       "pyvista's data sets, pandas")
    stub_components = ("renderer and video encoder (record what they are given and write a line per frame), disk, "
                       "thread switches, uuid, clock and generators (seeded)")
    assumptions = ["the first and the last state need not be shown; positions of one history are all different"]

    def prepare(self):
        import pyvista  # noqa: F401

        screen.install()
        super().prepare()

    def gen(self, rng, tier):
        n = rng.choice([1, 2, 3, 4, 5, 8, 13, 30])
        jobs = [dict(kind=rng.choice(["movie", "movie", "movie", "picture", "ir"]),
                     trail=rng.choice([1, 2, 3, 5, 16, 100]), fps=rng.choice([1, 10, 30]),
                     ext=rng.choice([".gif", ".mp4", ".GIF", ".mp4", ".avi", ""]),
                     dir=rng.choice([".", "new", "new/deep"]), at=rng.choice([0, 0, 0, rng.randrange(1, 300)]))
                for _ in range(rng.choice([1, 1, 2, 3]))]
        faults = []
        if rng.random() < 0.3:
            faults = [[rng.randrange(1, 2 * n + 6), gen_fault(rng, ("error", "error", "short"))]
                      for _ in range(rng.choice([1, 1, 3]))]
        return dict(building=model.gen_building(rng, ["box", "row", "plan"], 2), n=n, rays=rng.choice([1, 2, 3, 7]),
                    absorbers=rng.choice([1, 1, 2, 4]), data=rng.randrange(1 << 30), dt=rng.choice([2.5e-5, 1e-3, 0.1]),
                    jobs=jobs, faults=faults, together=rng.random() < 0.5, world=rng.randrange(1 << 30),
                    policies=[sched.random_policy(rng, 2000)])

    # ---- one run

    def execute(self, plan):
        root = world.scratch()
        try:
            return self.inner(plan, root)
        finally:
            world.rmtree(root)

    def inner(self, plan, root):
        from building3d.sim.rays.simulation_config import SimulationConfig
        import numpy as np

        world.seed_world(plan["world"])
        bdg = model.build(plan["building"])
        r = np.random.RandomState(plan["data"] & 0x7FFFFFFF)
        n, m = plan["n"], plan["rays"]
        pos = r.uniform(-3, 3, (n, m, 3))
        enr = r.uniform(0, 1, (n, m))
        if plan["data"] % 3 == 0:
            enr[r.uniform(0, 1, (n, m)) < 0.3] = 0.0
        hit = r.uniform(0, 1, (n, plan["absorbers"])) * (r.uniform(0, 1, (n, plan["absorbers"])) < 0.6)
        before = (pos.copy(), enr.copy(), hit.copy())
        mesh = [x.copy() for x in bdg.get_mesh()]
        screen.SHOWN[:] = []
        disk = fs.Disk(root, {int(k): v for k, v in plan["faults"]})
        results = [None] * len(plan["jobs"])
        cfgs = []
        for i, j in enumerate(plan["jobs"]):
            c = SimulationConfig(bdg)
            c.engine["time_step"] = plan["dt"]
            c.visualization["ray_trail_length"] = j["trail"]
            c.visualization["movie_fps"] = j["fps"]
            cfgs.append(c)
            if j["kind"] == "movie":  # the movie maker does not make directories
                os.makedirs(os.path.join(root, j["dir"]), exist_ok=True)

        def job(i):
            j = plan["jobs"][i]
            try:
                results[i] = ("done", self.call(j, i, bdg, pos, enr, hit, cfgs[i], root))
            except (Interrupt, sched.Starved, sched.Deadlock):
                raise
            except Exception as e:
                results[i] = ("raised", e)

        interrupted = 0
        with fs.active(disk):
            if plan["together"] and len(plan["jobs"]) > 1:
                run = self.threads(plan, [lambda i=i: job(i) for i in range(len(plan["jobs"]))])
                for t in run.tasks:
                    if t.error is not None:
                        raise t.error
            else:
                for i, j in enumerate(plan["jobs"]):
                    sched.COUNT[0] = 0
                    sched.INTERRUPT[:] = [j["at"] or None, Interrupt]
                    try:
                        job(i)
                    except Interrupt:
                        results[i] = ("interrupted", None)
                        interrupted += 1
                    finally:
                        sched.INTERRUPT[0] = None
        for a, b, name in zip((pos, enr, hit), before, ("positions", "energies", "hits")):
            if not np.array_equal(a, b):
                raise Violation("changed", f"the {name} of the history were changed")
        for a, b in zip(bdg.get_mesh(), mesh):
            if not np.array_equal(a, b):
                raise Violation("changed", "the building was changed")
        if disk.outside:
            raise Violation("outside", f"changed {disk.outside[0]}")
        hard = [x for x in disk.injected if x[2] == "error"]
        frames = 0
        for i, (j, (out, val)) in enumerate(zip(plan["jobs"], results)):
            bad_ext = j["kind"] == "movie" and j["ext"].lower() not in (".gif", ".mp4")
            if out == "raised":
                known = (bad_ext and isinstance(val, ValueError)) or (hard and isinstance(val, OSError))
                if j["kind"] == "ir" and before[2].sum(axis=0).max() == 0:
                    known = True
                if not known:
                    raise Violation("failed", f"{j['kind']} failed: {type(val).__name__}: {val}")
                continue
            if out == "interrupted":
                continue
            if bad_ext:
                raise Violation("accepted", f"a movie with the ending {j['ext']!r} was accepted")
            if j["kind"] == "ir":
                self.ir(val, before[2], plan["dt"])
                continue
            path = self.path(j, i, root)
            ps = [p for p in screen.SHOWN if p.path == path]
            if len(ps) != 1:
                raise Violation("no-file", f"{len(ps)} plotters wrote {os.path.basename(path)}")
            if j["kind"] == "movie":
                frames += self.movie(ps[0], j, before, mesh)
                with open(path, "rb") as f:
                    k = len(f.read().splitlines())
                if k != len(ps[0].frames):
                    raise Violation("false-success", f"the movie has {k} of {len(ps[0].frames)} frames after {hard}, "
                                                     "but no error was reported")
            else:
                frames += self.picture(ps[0], before, mesh)
                if not os.path.isfile(path):
                    raise Violation("no-file", f"{j['kind']} reported success, but there is no file")
        return dict(key=digest([(j["kind"], j["trail"], j["ext"], j["dir"]) for j in plan["jobs"]], n, m, disk.injected,
                               [r[0] for r in results], plan["policies"][0] if plan["together"] else 0,
                               [j["at"] for j in plan["jobs"]]),
                    nontrivial=frames > 1 or bool(disk.injected) or interrupted > 0,
                    stats=dict(frames=frames, interrupted=interrupted, disk_operations=disk.k,
                               faults={f"{f}@{o}": 1 for _, o, f in disk.injected}))

    def path(self, j, i, root):
        return os.path.join(root, j["dir"], f"f{i}" + (j["ext"] if j["kind"] == "movie" else ".png"))

    def call(self, j, i, bdg, pos, enr, hit, cfg, root):
        from building3d.display.plot_objects import plot_objects
        from building3d.sim.rays.impulse_response import impulse_response
        from building3d.sim.rays.movie_from_buffer import make_movie_from_buffer
        from building3d.sim.rays.ray_buff_plotter import RayBuffPlotter

        path = self.path(j, i, root)
        if j["kind"] == "movie":
            return make_movie_from_buffer(path, bdg, pos, enr, cfg, verbose=False)
        if j["kind"] == "picture":
            return plot_objects((bdg, RayBuffPlotter(bdg, pos, enr)), path, colors=[(1, 1, 1), (1, 0, 0)])
        return impulse_response(hit, cfg)

    # ---- what is shown

    def building(self, frame, mesh, what):
        import numpy as np

        want = sorted(tuple(np.round(mesh[0][t], 9).ravel()) for t in mesh[1])
        for s in frame:
            if s.faces and sorted(tuple(np.round(s.points[f], 9).ravel()) for f in s.faces if len(f) == 3) == want:
                return
        raise Violation("building", f"{what} does not show the building")

    def trails(self, s, pos, enr, k, length, what):
        """Each line joins the last positions of one ray up to state k, with its energies there."""
        import numpy as np

        rays = set()
        for line in s.lines:
            pts = s.points[line]
            a = k - len(line) + 1
            if len(line) != length or a < 0:
                raise Violation("trail", f"{what}: a trail of {len(line)} points, should have {length}")
            for r in range(pos.shape[1]):
                if np.array_equal(pts, pos[a:k + 1, r]):
                    break
            else:
                raise Violation("trail", f"{what}: a trail does not follow one ray through states {a} to {k}")
            if r in rays:
                raise Violation("trail", f"{what}: ray {r} has two trails")
            rays.add(r)
            if enr is not None and not np.array_equal(s.scalars[line], enr[a:k + 1, r]):
                raise Violation("trail-energy", f"{what}: the trail of ray {r} has energies {s.scalars[line]}, should "
                                                f"have {enr[a:k + 1, r]}")
        if len(rays) != pos.shape[1]:
            raise Violation("trail", f"{what}: trails of {len(rays)} of {pos.shape[1]} rays")

    def movie(self, p, j, hist, mesh):
        import numpy as np

        pos, enr, _ = hist
        n = len(pos)
        if not p.closed:
            raise Violation("open", "the movie was not closed")
        if p.rate != j["fps"]:
            raise Violation("rate", f"the movie has {p.rate} frames per second instead of {j['fps']}")
        if len(p.frames) < n - 2:
            raise Violation("frames", f"{len(p.frames)} frames for {n} states")
        last = None
        for f, frame in enumerate(p.frames):
            what = f"frame {f}"
            self.building(frame, mesh, what)
            pts = [s for s in frame if not s.lines and s.points.shape == pos[0].shape and s.scalars is not None]
            ks = [(k, s) for s in pts for k in range(n) if np.array_equal(s.points, pos[k])]
            if len(ks) != 1:
                raise Violation("points", f"{what} shows the rays of {len(ks)} states")
            k, s = ks[0]
            if not np.array_equal(s.scalars, enr[k]):
                raise Violation("energy", f"{what} shows state {k} with energies {s.scalars} instead of {enr[k]}")
            if last is None and k > 1 or last is not None and k != last + 1:
                raise Violation("order", f"{what} shows state {k} after state {last}")
            last = k
            ls = [s for s in frame if s.lines]
            if len(ls) != 1:
                raise Violation("trail", f"{what} has {len(ls)} sets of trails")
            self.trails(ls[0], pos, enr, k, min(j["trail"], k + 1), what)
        if last is not None and last < n - 2:
            raise Violation("frames", f"the movie ends with state {last} of {n}")
        return len(p.frames)

    def picture(self, p, hist, mesh):
        import numpy as np

        pos = hist[0]
        if len(p.frames) != 1:
            raise Violation("frames", f"{len(p.frames)} pictures instead of one")
        frame = p.frames[0]
        self.building(frame, mesh, "the picture")
        if not any(np.array_equal(s.points, pos[-1]) and not s.lines for s in frame):
            raise Violation("points", "the picture does not show the rays of the last state")
        ls = [s for s in frame if s.lines]
        if len(ls) != 1:
            raise Violation("trail", f"the picture has {len(ls)} sets of paths")
        self.trails(ls[0], pos, None, len(pos) - 1, len(pos), "the picture")
        return 1

    def ir(self, df, hit, dt):
        import numpy as np

        n, m = hit.shape
        t = df.index.to_numpy()
        if len(t) != n or not np.allclose(t, np.arange(n) * dt, rtol=1e-9, atol=0):
            raise Violation("times", f"times of the impulse response are {t[:4]}..., steps are {dt} apart")
        if df.shape[1] != m:
            raise Violation("columns", f"{df.shape[1]} responses for {m} absorbers")
        want = hit / hit.sum(axis=0).max()
        if not np.allclose(df.to_numpy(), want, rtol=1e-9, atol=1e-12):
            raise Violation("response", "the impulse response is not the recorded hits, scaled")


CHECK = C26()
