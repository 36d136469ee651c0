"""Quick test of the simulator itself (setup command)."""
import os
import random

from . import fs, sched, world


def race(seed):
    box = {"n": 0}

    def add():
        for _ in range(5):
            sched.vy(0)
            v = box["n"]
            sched.vy(1)
            box["n"] = v + 1

    pol = sched.random_policy(random.Random(seed), 60)
    r = sched.Run([add, add, add], sched.policy(pol, 3)).go()
    return box["n"], r.switches, r.n


def main():
    lost = 0
    for seed in range(200):
        a, b = race(seed), race(seed)
        assert a == b, "same seed, different execution"
        lost += a[0] != 15
        box = {"n": 0}
    assert lost > 50, "the scheduler does not find a lost update"

    # replay of a recorded schedule
    def go(pol):
        box = {"n": 0, "log": []}

        def add(k):
            for _ in range(5):
                sched.vy(0)
                v = box["n"]
                sched.vy(1)
                box["n"] = v + 1
                box["log"].append(k)

        r = sched.Run([lambda k=k: add(k) for k in range(3)], pol).go()
        return box, r.switches

    for seed in range(200):
        pol = sched.random_policy(random.Random(seed), 60)
        x, sw = go(sched.policy(pol, 3))
        y, sw2 = go(sched.Explicit(sw))
        assert x == y and sw == sw2, (seed, sw, sw2)

    # deadlock
    def dead():
        l1, l2 = sched.SimLock(), sched.SimLock()

        def a():
            with l1:
                sched.vy(0)
                with l2:
                    pass

        def b():
            with l2:
                sched.vy(0)
                with l1:
                    pass

        try:
            sched.Run([a, b], sched.Explicit([[0, 0], [1, 1]])).go()
        except sched.Deadlock:
            return True
        return False

    assert world.in_child(dead, 20) == ("ok", True), "deadlock not found"

    # disk: a crash half way through a write
    def disk():
        fs.install()
        root = world.scratch()
        try:
            d = fs.Disk(root, {2: ["crash", 0.5]})
            with fs.active(d):
                try:
                    with open(os.path.join(root, "x"), "wb") as f:
                        f.write(b"0123456789")
                        f.flush()
                except fs.SimCrash:
                    pass
            with open(os.path.join(root, "x"), "rb") as f:
                return f.read(), d.log
        finally:
            world.rmtree(root)

    st, v = world.in_child(disk, 20)
    assert st == "ok" and v[0] == b"01234", (st, v)
    print("simulator self-test passed")
    return 0
