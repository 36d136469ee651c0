"""C01: results do not depend on how parallel workers are scheduled."""
import hashlib
import json

from sim import model, rays, sched, world
from sim.runner import Check
from sim.world import Violation

RAY_MODULES = ("building3d.sim.rays.simulation", "building3d.sim.rays.simulation_config",
               "building3d.sim.rays.dump_buffers", "building3d.geom.solid.box",
               "building3d.geom.solid.floor_plan")
RAY_REAL = ("building3d: building construction, array conversion, transparency search, grid, "
            "simulation loop, buffer files (all real code, run as plain Python)")
RAY_STUB = ("numba's thread pool (simulated workers), NumPy's global generator, uuid, clock and "
            "os.urandom (seeded), machine code generation (not used)")


class C01(Check):
    id = "C01"
    mode = "full"
    modules = RAY_MODULES
    quick, thorough = 160, 2400
    rule = ("a run counts when the loop over rays was executed by at least two simulated workers with at "
            "least one switch between them in the middle of their work; distinct by building, "
            "configuration and the hash of the sequence of switches")
    real_components = RAY_REAL
    stub_components = RAY_STUB
    assumptions = ["the parallel loop has numba's semantics: names assigned in the body are private, arrays "
                   "are shared, scalar += is a reduction; single loads and stores are atomic"]
    note = ("Seeded search over worker schedules of the real simulation loop against its sequential "
            "execution; samples schedules, does not enumerate them; compiled machine code not covered.")
    lists = ("params", "pars", "c.absorbers")
    numbers = (("c.num_steps", 1), ("c.num_rays", 2))

    def gen(self, rng, tier):
        spec = model.gen_building(rng, max_solids=3)
        big = tier == "thorough" and rng.random() < 0.3
        c = rays.gen_rays(rng, spec, rays=(2, 12 if big else 8), steps=(4, 24 if big else 12),
                          absorbers=(0, 3))
        if rng.random() < 0.5 and c["absorbers"]:
            c["radius"] = 0.35
        pars = []
        for _ in range(rng.choice([2, 2, 3])):
            div = rng.choice([["static"], ["static"], ["perm", rng.randrange(1 << 20)],
                              ["chunks", rng.randrange(1 << 20)]])
            pars.append(dict(workers=rng.randint(2, 8), division=div,
                             policy=sched.random_policy(rng, 400 * c["num_rays"])))
        return dict(building=spec, c=c, params=rays.gen_params(rng, spec, rng.randint(0, 4)),
                    pars=pars, world=rng.randrange(1 << 30))

    def execute(self, plan):
        return self.run(plan)[0]

    def run(self, plan):
        world.seed_world(plan["world"])
        bdg = model.build(plan["building"])
        c = dict(plan["c"])
        if c["num_steps"] % c["batch"]:
            c["batch"] = 1
        ref = rays.simulate(bdg, c, plan["params"])
        rays.shape_check(ref, c)
        pts = 0
        st = dict(simulated_ray_steps=c["num_rays"] * c["num_steps"] * (1 + len(plan["pars"])),
                  simulated_seconds=c["time_step"] * c["num_steps"] * (1 + len(plan["pars"])),
                  scheduling_points=0, switches=0, load_store_points=0,
                  policies={}, loops=0, switched_loops=0)
        sw, recorded = [], []
        for par in plan["pars"]:
            p = sched.ParPlan(par["workers"], tuple(par["division"]), par["policy"])
            h = rays.simulate(bdg, c, plan["params"], par=p)
            recorded.append({str(k): v for k, v in p.switches})
            d = rays.differ(h, ref, 1e-9, f"{par['workers']} workers")
            if d:
                v = Violation("schedule-dependent", d)
                v.recorded = recorded
                raise v
            for x, y in zip(h.last, ref.last):
                if x.shape != y.shape or not (abs(x - y) <= 1e-9).all():
                    raise Violation("schedule-dependent-result", "returned state differs")
            sw.append(p.switches)
            st["scheduling_points"] += p.points
            st["load_store_points"] += p.hot
            st["loops"] += p.loops
            st["switched_loops"] += len(p.switches)
            st["switches"] += sum(len(s) for _, s in p.switches)
            k = par["policy"][0]
            st["policies"][k] = st["policies"].get(k, 0) + 1
        key = hashlib.sha256(json.dumps([plan["building"], c, sw]).encode()).hexdigest()
        return dict(key=key, nontrivial=st["switches"] > 0, stats=st), recorded

    def explicit(self, plan):
        """The plan with the schedule of the failing execution written out."""
        def rec():
            try:
                self.run(plan)
            except Violation as v:
                return getattr(v, "recorded", None)
        st, v = world.in_child(rec, self.timeout)
        if st != "ok" or not v:
            return plan
        k = len(v) - 1
        par = dict(plan["pars"][k])
        par["policy"] = ["explicit", v[k]]
        return dict(plan, pars=[par])

    def simplify(self, plan):
        """Drop switches of the written-out schedule, loop by loop."""
        if len(plan["pars"]) == 1 and plan["pars"][0]["policy"][0] == "explicit":
            sw = plan["pars"][0]["policy"][1]
            for k in sorted(sw, key=int):
                yield self.with_switches(plan, {a: b for a, b in sw.items() if a != k})
            for k in sw:
                for i in range(len(sw[k])):
                    yield self.with_switches(plan, {a: (b if a != k else b[:i] + b[i + 1:])
                                                    for a, b in sw.items()})

    def with_switches(self, plan, sw):
        par = dict(plan["pars"][0], policy=["explicit", sw])
        return dict(plan, pars=[par])


CHECK = C01()
