"""C02: splitting a run into batches does not change its recorded history."""
from sim import rays
from sim.raycheck import RayCheck, digest, gen_par, par_of
from sim.world import Violation


class C02(RayCheck):
    id = "C02"
    quick, thorough = 240, 3600
    note = ("Seeded search: same scene and seed with one batch and with other batch sizes (some with "
            "simulated workers) must give the same history; tolerance 1e-7.")
    rule = ("a run counts when at least one batch boundary falls on a step in which some ray reflects, is "
            "absorbed, dies or is already dead; distinct by scene and batch sizes")
    lists = ("params", "batches", "c.absorbers")
    history_p = 0.0

    def tune(self, rng, spec, c):
        c["num_steps"] = rng.choice([4, 6, 8, 9, 10, 12, 15, 16, 18, 20, 24, 30])
        c["batch"] = c["num_steps"]
        if rng.random() < 0.2:  # little energy is left after the first reflection
            c["default"] = rng.choice([0.9995, 0.99997, 0.993, 0.4975])

    def gen(self, rng, tier):
        plan = super().gen(rng, tier)
        n = plan["c"]["num_steps"]
        divs = [d for d in range(1, n) if n % d == 0]
        plan["batches"] = [[d, gen_par(rng, plan["c"], 0.25)]
                           for d in rng.sample(divs, min(len(divs), rng.choice([1, 2, 2, 3])))]
        return plan

    def execute(self, plan):
        bdg, c = self.start(plan)
        n = c["num_steps"]
        c["batch"] = n
        ref = rays.simulate(bdg, c, plan["params"])
        rays.shape_check(ref, c)
        self.last_is_end(ref, "one batch")
        import numpy as np

        dirs = np.diff(ref.pos, axis=0)
        bend = np.abs(np.diff(dirs, axis=0)).max(axis=2) > 1e-9
        event = (np.diff(ref.enr, axis=0) != 0).any(axis=1)
        event[1:] |= bend.any(axis=1)
        event |= (ref.enr[:-1] == 0).any(axis=1)
        hit = 0
        for b, par in plan["batches"]:
            if n % b:
                continue
            h = rays.simulate(bdg, dict(c, batch=b), plan["params"], par=par_of(par))
            d = rays.differ(h, ref, 1e-7, f"batches of {b} steps instead of {n}")
            if d:
                raise Violation("batch-dependent", d)
            self.last_is_end(h, f"batches of {b}")
            hit += sum(int(event[i]) + int(event[i - 1]) > 0 for i in range(b, n, b))
        return dict(key=digest(plan["building"], c, plan["batches"]), nontrivial=hit > 0,
                    stats=self.stats(c, 1 + len(plan["batches"]), boundaries_on_events=hit))

    def last_is_end(self, h, what):
        for name, x, y in zip(("positions", "energies", "hits"), h.last, (h.pos, h.enr, h.hit)):
            if x.shape[1:] != y.shape[1:] or abs(x[-1] - y[-1]).max(initial=0) > 1e-12:
                raise Violation("returned-state", f"{what}: the returned final {name} are not the stored ones")


CHECK = C02()
