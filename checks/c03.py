"""C03: the spatial lookup grid never changes where rays go."""
import json

from sim import rays, model
from sim.raycheck import RayCheck, digest
from sim.world import Violation


class C03(RayCheck):
    id = "C03"
    quick, thorough = 200, 3000
    note = ("Seeded search, metamorphic: other cell sizes and offsets of the same scene must give the same "
            "history within 1e-6 (rays crossing a decision threshold by rounding would show as a difference; "
            "their probability is about 1e-9 per step).")
    rule = ("a run counts when at least two cell sizes or offsets were compared and some ray reflected; "
            "distinct by scene and variants")
    lists = ("variants", "params", "c.absorbers")
    history_p = 0.0

    def gen(self, rng, tier):
        plan = super().gen(rng, tier)
        c = plan["c"]
        R = 1.01 * c["speed"] * c["time_step"]
        var = []
        sols = model.all_solids(plan["building"])
        vol = 1.0
        for ax in range(3):
            lo = min(model.solid_bounds(s)[0][ax] for _, s in sols)
            hi = max(model.solid_bounds(s)[1][ax] for _, s in sols)
            vol *= hi - lo + 0.3
        floor = max(R * 1.001, (vol / 2500) ** (1 / 3))
        c["voxel"] = rng.choice([20.0, 7.3, floor])
        for _ in range(rng.choice([2, 3, 3])):
            cell = rng.choice([floor, floor * rng.uniform(1, 2), max(floor, 0.5), max(floor, 0.25),
                               max(floor, 1.0), rng.uniform(floor, 3), 40.0])
            off = [0.0, 0.0, 0.0]
            if rng.random() < 0.5:
                off = [rng.choice([0.0, 1.0, -7.0, rng.uniform(-8, 8), rng.uniform(-1, 1), cell, -cell])
                       for _ in range(3)]
            var.append([float(cell), [float(o) for o in off]])
        plan["variants"] = var
        plan["par"] = None
        return plan

    def execute(self, plan):
        import numpy as np

        bdg, c = self.start(plan)
        ref = rays.simulate(bdg, c, plan["params"])
        rays.shape_check(ref, c)
        for cell, off in plan["variants"]:
            spec = json.loads(json.dumps(plan["building"]))
            for z in spec["zones"]:
                for s in z["solids"]:
                    s["at"] = [a + o for a, o in zip(s["at"], off)]
            cc = dict(c, voxel=cell, source=[a + o for a, o in zip(c["source"], off)],
                      absorbers=[[a + o for a, o in zip(p, off)] for p in c["absorbers"]])
            h = rays.simulate(model.build(spec), cc, plan["params"])
            h.pos = h.pos - np.array(off)
            d = rays.differ(h, ref, 1e-6, f"cells of {cell} (instead of {c['voxel']}), scene moved by {off}")
            if d:
                raise Violation("grid-dependent" if not any(off) else "offset-dependent", d)
        bend = int((np.abs(np.diff(ref.pos, n=2, axis=0)).max(axis=2) > 1e-9).sum())
        return dict(key=digest(plan["building"], c, plan["variants"]),
                    nontrivial=bend > 0 and len(plan["variants"]) > 1,
                    stats=self.stats(c, 1 + len(plan["variants"]), direction_changes=bend,
                                     variants=len(plan["variants"])))


CHECK = C03()
