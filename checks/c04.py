"""C04: ray energy is accounted for exactly once."""
from sim import model, rays
from sim.raycheck import RayCheck, digest, par_of
from sim.world import Violation


class C04(RayCheck):
    id = "C04"
    quick, thorough = 400, 6000
    note = ("Seeded search over scenes, batches and worker schedules; the whole recorded history is replayed "
            "by a reference account of energies and absorber hits.")
    rule = ("a run counts when at least one ray was absorbed by an absorber; distinct by scene, configuration "
            "and schedule")
    rays_n = (3, 14)
    absorbers_n = (1, 4)
    history_p = 0.1
    aims_p = 0.15

    def tune(self, rng, spec, c):
        c["radius"] = rng.choice([0.1, 0.2, 0.35, 0.6])
        if rng.random() < 0.35:  # reflections leave little but not nothing
            c["default"] = rng.choice([0.9995, 0.99997, 0.993, 0.9, 0.4975, 0.333])
            c["num_steps"] = 10 * rng.randint(3, 5)
            c["batch"] = rng.choice([1, 2, 5, 10, c["num_steps"]])
            c["radius"] = rng.choice([0.35, 0.6])
        if rng.random() < 0.2:
            c["absorbers"].append([x + rng.uniform(-0.05, 0.05) for x in c["source"]])
        if rng.random() < 0.3 and c["absorbers"]:
            p = rng.choice(c["absorbers"])
            c["absorbers"].append([x + rng.uniform(-0.2, 0.2) for x in p])

    def execute(self, plan):
        bdg, c = self.start(plan)
        h = rays.simulate(bdg, c, plan["params"], par=par_of(plan["par"]))
        rays.shape_check(h, c)
        n = rays.check_energy(h, c)
        rows = h.last[2].shape[0]
        if abs(h.last[2] - h.hit[-rows:])[1:].max(initial=0) > 1e-12:
            raise Violation("returned-hits", "returned hits are not the stored ones")
        return dict(key=digest(plan["building"], c, plan["params"], plan["par"]), nontrivial=n > 0,
                    stats=self.stats(c, 1, absorbed=n, absorbers=len(c["absorbers"]),
                                     ended_rays=int((h.enr[-1] == 0).sum())))


CHECK = C04()
