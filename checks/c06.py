"""C06: constant speed, mirror reflection, at the surface's cost."""
from sim import rays
from sim.raycheck import RayCheck, digest, par_of


class C06(RayCheck):
    id = "C06"
    quick, thorough = 400, 6000
    note = ("Seeded search over buildings, per-surface absorption, batches and schedules; every recorded step "
            "must be explained by mirrorings at surfaces in reach at their configured cost.")
    rule = ("a run counts when at least one reflection was observed; distinct by scene, configuration, "
            "assignments, history and schedule")
    history_p = 0.2
    aims_p = 0.3
    wedge_p = 0.12
    contact_p = 0.35

    def tune(self, rng, spec, c):
        c["default"] = rng.choice([0.0, 0.01, 0.04, 0.11])

    def gen(self, rng, tier):
        plan = super().gen(rng, tier)
        if plan["building"]["family"] == "contact" and rng.random() < 0.7:
            # long ways of many rays in rooms that absorb differently
            plan["c"].pop("aims", None)
            plan["c"].update(num_rays=rng.randint(10, 16), num_steps=40, batch=rng.choice([5, 20, 40]), absorbers=[])
            plan["params"] = [[2, i, a] for i, a in enumerate(rng.sample([0.002, 0.005, 0.013, 0.031], 2))]
        return plan

    def execute(self, plan):
        bdg, c = self.start(plan)
        h = rays.simulate(bdg, c, plan["params"], par=par_of(plan["par"]))
        rays.shape_check(h, c)
        n = int(rays.check_motion(h, c, bdg, plan["building"]["family"] == "wedge"))
        return dict(key=digest(plan["building"], c, plan["params"], plan["history"], plan["par"]),
                    nontrivial=n > 0, stats=self.stats(c, 1, reflections=n,
                                                       assignments=len(plan["params"])))


CHECK = C06()
