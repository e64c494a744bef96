"""Vehicles driving freely while desired speeds are randomised."""
from .common import rng
from .roads import Net

SPREADS = (0.0, 0.02, 0.05, 0.1, 0.15, 0.2, 0.3, 0.5, 1.0, 3.0)
LIMITS = (5.0, 8.0, 13.9, 22.2, 27.8)


def adjusted(seed, i):
    r = rng(seed, "adjusted", i)
    net, first = Net(), []
    n = r.randint(12, 16)
    for k in range(n):
        y, vs = 20.0 * k, [r.choice(LIMITS) for _ in range(2)]
        a = net.link((0.0, y), (2500.0, y), vs[0])
        b = net.link((2500.0, y), (6500.0, y), vs[1])
        net.conn(a, b)
        first.append((a, b))
    ops, late = [], r.randint(0, 2)

    def add(k):
        ops.append({"op": "add", "v": k + 1, "link": first[k][0], "attr": [2.0, 4.5, 1.5, r.choice([2.0, 2.5, 3.0]), 2.0, 2.0]})
        ops.append({"op": "dest", "v": k + 1, "link": first[k][1]})

    run = lambda s: ops.append({"op": "run", "dt": 0.1, "n": int(10 * s)})
    for k in range(n - late):
        add(k)
    if r.random() < 0.3:
        run(r.choice([2, 45]))
    for j in range(r.randint(1, 3)):
        # some stand while speeds are drawn and drive on afterwards
        held = r.sample(range(1, n - late + 1), r.randint(1, 3)) if i % 3 == 1 else []
        for v in held:
            ops.append({"op": "freeze", "v": v, "on": True})
        if held:
            run(r.choice([0.5, 4, 20]))
        ops.append({"op": "adjust", "stddev": SPREADS[(i + 3 * j) % len(SPREADS)]})
        if j == 0:
            for k in range(n - late, n):
                add(k)
        for v in held:
            ops.append({"op": "freeze", "v": v, "on": False})
        run(45)
        run(r.choice([5, 30]))
        if r.random() < 0.2:
            ops.append({"op": "remove", "v": r.randint(1, n)})
    return net.scenario("adjusted%d" % i, ops)


def adjusteds(seed, n):
    return [adjusted(seed, i) for i in range(n)]
