"""C07: a seeded run is reproducible in any process."""
import os
import random

from sim import fs, hosts, model, rays, sched, world
from sim.raycheck import RayCheck, digest, fix, gen_history, gen_par, par_of, play_history

HASHSEEDS = (0, 1, 12345)


class C07(RayCheck):
    id = "C07"
    quick, thorough = 160, 2400
    note = ("Seeded search: the same seeded run in fresh interpreters with other hash seeds, identifiers, "
            "addresses, listing orders, clocks, worker schedules and earlier activity; histories must be "
            "bit-identical.")
    rule = ("a run counts when at least two variants with different hash seeds were compared and some ray "
            "reflected; distinct by scene and variants")
    lists = ("variants", "params", "c.absorbers")
    stub_components = RayCheck.stub_components + "; addresses given by id()"
    rays_n = (3, 6)
    steps_n = (8, 25)
    hosts = {}

    def gen(self, rng, tier):
        plan = super().gen(rng, tier)
        if rng.random() < 0.6:  # automatically generated names
            plan["anonymous"] = rng.choice(["solids", "all"])
        plan["variants"] = [self.variant(rng, plan) for _ in range(rng.choice([2, 3, 3]))]
        plan["base"] = dict(hash=0, world=rng.randrange(1 << 30), listing=None, history=[], par=None,
                            addr=False)
        return plan

    def variant(self, rng, plan):
        return dict(hash=rng.choice(HASHSEEDS), world=rng.randrange(1 << 30),
                    listing=rng.randrange(1 << 30), history=gen_history(rng, 0.6),
                    par=gen_par(rng, plan["c"], 0.3), addr=rng.random() < 0.5,
                    burn=rng.randrange(5))

    def host(self, seed):
        k = (os.getpid(), seed)
        if k not in self.hosts:
            self.hosts[k] = hosts.Host(self.id, seed)
        return self.hosts[k]

    def once(self, plan):
        ref = None
        out = []
        for v in [plan["base"]] + plan["variants"]:
            st, r = self.judge(*self.host(v["hash"]).call((plan, v)))
            if st != "ok":
                return st, r
            if ref is None:
                ref = r
            for name in ("position", "energy", "hits", "returned"):
                if r[name] != ref[name]:
                    return "violation", ("not-reproducible", f"{name} of the run differ from the base run's in "
                                         f"variant {v}")
            out.append(v)
        return "ok", dict(key=digest(plan["building"], plan["c"], plan["variants"]),
                          nontrivial=ref["bend"] > 0 and len({v["hash"] for v in out}) > 1,
                          stats=self.stats(fix(plan["c"]), len(out), variants=len(out) - 1,
                                           shuffled_listings=sum(v["listing"] is not None for v in out),
                                           address_reuse_variants=sum(bool(v["addr"]) for v in out),
                                           earlier_operations=sum(len(v["history"]) for v in out)))

    def hosted(self, arg):
        import hashlib

        import numpy as np

        plan, v = arg
        world.seed_world(v["world"])
        if v["addr"]:
            sched.ADDR[0] = sched.Addresses()
        spec, c = plan["building"], fix(plan["c"])
        np.random.rand(v.get("burn", 0))
        other = model.build(spec)
        play_history(other, v["history"], spec, c)
        del other
        import gc

        gc.collect()
        bdg = self.named(spec, plan.get("anonymous"))
        play_history(bdg, [o for o in v["history"] if o[0] != "replace"], spec, c)
        root = world.scratch()
        try:
            d = fs.Disk(root, {}, v["listing"])
            with fs.active(d):
                h = rays.simulate(bdg, c, plan["params"], par=par_of(v["par"]), root=root)
        finally:
            world.rmtree(root)
        rays.shape_check(h, c)
        f = lambda a: hashlib.sha256(np.ascontiguousarray(a).tobytes()).hexdigest()  # noqa: E731
        return dict(position=f(h.pos), energy=f(h.enr), hits=f(h.hit),
                    returned=[f(a) for a in h.last],
                    bend=int((np.abs(np.diff(h.pos, n=2, axis=0)).max(axis=2) > 1e-9).sum()))

    def named(self, spec, anon):
        if not anon:
            return model.build(spec)
        import json

        spec = json.loads(json.dumps(spec))
        for z in spec["zones"]:
            for s in z["solids"]:
                s["name"] = None
            if anon == "all":
                z["name"] = None
        if anon == "all":
            spec["name"] = None
        return model.build(spec)


CHECK = C07()
