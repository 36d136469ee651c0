"""C27: the cyclic buffer keeps the latest elements in order."""
from sim import sched, world
from sim.raycheck import digest
from sim.runner import Check
from sim.world import Violation


class Interrupt(KeyboardInterrupt):
    pass


class C27(Check):
    id = "C27"
    mode = "full"
    modules = ("building3d.types.cyclic_buffer",)
    quick, thorough = 4000, 60000
    note = ("Seeded search over sequences of insertions and reads of several buffers, with insertions that are "
            "interrupted and repeated; each read is compared with a queue.")
    rule = "a run counts when a buffer wrapped around at least once and was read; distinct by sizes and operations"
    lists = ("ops",)
    real_components = "building3d.types.cyclic_buffer (as plain Python)"
    stub_components = "interrupts at chosen points"
    assumptions = ["a buffer for n elements keeps n - 1, because equal ends mean empty; size 1 keeps none"]

    def gen(self, rng, tier):
        bufs = [[rng.choice([1, 2, 2, 3, 4, 5, 8, 20]), rng.choice([1, 1, 3, 6])] for _ in range(rng.choice([1, 1, 2, 3]))]
        n = rng.choice([1, 3, 8, 20, 60])
        p = rng.choice([0.1, 0.3, 0.7])
        ops = []
        for _ in range(n):
            b = rng.randrange(len(bufs))
            if rng.random() < p:
                ops.append(["read", b, 0])
            else:
                ops.append(["put", b, rng.choice([0, 0, 0, 1, 2, 3, 4, 5])])
        return dict(bufs=bufs, ops=ops, dtype=rng.choice(["float32", "float64", "int64"]), reuse=rng.random() < 0.5)

    def execute(self, plan):
        from building3d.types.cyclic_buffer import convert_to_contiguous, cyclic_buf
        import numpy as np

        world.seed_world(0)
        state = [[np.zeros(tuple(b), dtype=plan["dtype"]), 0, 0] for b in plan["bufs"]]
        want = [[] for _ in plan["bufs"]]
        val = interrupted = wraps = reads = 0
        scratch = [np.zeros(b[1], dtype=plan["dtype"]) for b in plan["bufs"]]
        for op, b, at in plan["ops"] + [["read", b, 0] for b in range(len(plan["bufs"]))]:
            size, width = plan["bufs"][b]
            if op == "put":
                val += 1
                x = np.arange(val * 10, val * 10 + width).astype(plan["dtype"])
                want[b].append(x.copy())
                if plan["reuse"]:  # the caller reuses its array
                    scratch[b][:] = x
                    x = scratch[b]
                for k in (at, 0):
                    sched.COUNT[0] = 0
                    sched.INTERRUPT[:] = [k or None, Interrupt]
                    try:
                        state[b][:] = cyclic_buf(*state[b], x, size)
                    except Interrupt:
                        interrupted += 1
                        continue  # and the insertion is repeated
                    finally:
                        sched.INTERRUPT[0] = None
                    break
                if plan["reuse"]:
                    scratch[b][:] = -1
                wraps += len(want[b]) % size == 0
                if state[b][0].shape != (size, width):
                    raise Violation("shape", f"the buffer now has the shape {state[b][0].shape}")
                continue
            reads += 1
            got = np.asarray(convert_to_contiguous(*state[b]))
            exp = want[b][max(0, len(want[b]) - (size - 1)):] if size > 1 else []
            exp = np.array(exp, dtype=plan["dtype"]).reshape(len(exp), width)
            if got.shape != exp.shape or not np.array_equal(got, exp):
                raise Violation("content", f"a buffer for {size} elements gives {got.tolist()} after {len(want[b])} "
                                           f"insertions, should give {exp.tolist()}")
            if got.dtype != exp.dtype:
                raise Violation("dtype", f"a buffer of {exp.dtype} gives {got.dtype}")
        return dict(key=digest(plan["bufs"], plan["ops"], plan["dtype"]), nontrivial=wraps > 0 and reads > 0,
                    stats=dict(insertions=val, reads=reads, wraps=wraps, interrupted=interrupted))


CHECK = C27()
