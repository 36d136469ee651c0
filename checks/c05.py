"""C05: opaque surfaces are never crossed, interior ones are open."""
from sim import rays
from sim.raycheck import RayCheck, digest, par_of
from sim.world import Violation


class C05(RayCheck):
    id = "C05"
    quick, thorough = 480, 7200
    note = ("Seeded search over closed buildings, earlier activity, batches and schedules; every recorded step is "
            "checked for crossings with independent geometry.")
    rule = ("a run counts when some ray changed direction at a surface or passed an open interface; distinct by "
            "scene, configuration, history and schedule")
    rays_n = (4, 10)
    steps_n = (15, 45)
    absorbers_n = (0, 1)
    aims_p = 0.3
    wedge_p = 0.12

    def tune(self, rng, spec, c):
        c["default"] = rng.choice([0.0, 0.0, 0.01, 0.03])

    def execute(self, plan):
        import numpy as np

        bdg, c = self.start(plan)
        h = rays.simulate(bdg, c, [], par=par_of(plan["par"]))
        rays.shape_check(h, c)
        opened = rays.check_inside(h, c, plan["building"], bdg)
        bend = int((np.abs(np.diff(h.pos, n=2, axis=0)).max(axis=2) > 1e-9).sum())
        self.open_interfaces(h, c, bdg)
        return dict(key=digest(plan["building"], c, plan["history"], plan["par"]),
                    nontrivial=bend + opened > 0,
                    stats=self.stats(c, 1, direction_changes=bend, interface_passages=opened,
                                     earlier_operations=len(plan["history"])))

    def open_interfaces(self, h, c, bdg):
        """A ray with no blocking surface in reach keeps direction and energy."""
        import numpy as np

        blocked, ntr = rays.opaque_faces(bdg, c["search"])
        if not ntr:
            return
        n, nr = h.enr.shape
        R = 1.01 * c["speed"] * c["time_step"]
        near = np.zeros((n, nr), dtype=bool)
        for f in blocked:
            near |= f.dist(h.pos.reshape(-1, 3)).reshape(n, nr) < R + 1e-9
        ab = np.array(c["absorbers"], float).reshape(-1, 3)
        for a in ab:
            near |= ((h.pos - a) ** 2).sum(axis=2) < c["radius"] ** 2 + 1e-9
        live = h.enr > rays.EPS
        d = np.diff(h.pos, axis=0)
        for i in range(1, n - 1):
            free = live[i] & live[i - 1] & ~near[i]
            bad = free & ((np.abs(d[i] - d[i - 1]).max(axis=1) > 1e-6 * max(1, R))
                          | (h.enr[i + 1] != h.enr[i]))
            if bad.any():
                k = int(np.argwhere(bad)[0][0])
                raise Violation("deflected", f"ray {k} was deflected or weakened in step {i + 1} at "
                                f"{h.pos[i, k]} with no blocking surface in reach: {d[i - 1, k]} -> "
                                f"{d[i, k]}, energy {h.enr[i, k]} -> {h.enr[i + 1, k]}")


CHECK = C05()
