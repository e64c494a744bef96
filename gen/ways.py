"""Networks to find a way through: graphs with loops and detours, roads with lanes."""
import math
from .common import rng, line, mm
from .roads import attrs


def cost_clear(d, v):
    """The cost is not at the edge of a whole tenth of a second."""
    x = 10.0 * d / v
    return 0.02 < x - math.floor(x) < 0.98


class Ways:
    def __init__(self):
        self.ops, self.L, self.out, self.groups = [], [], [], []

    def link(self, a, b, speed):
        self.ops.append(line(a, b, speed))
        self.L.append([mm(math.dist(a, b)), mm(speed)])
        self.out.append([])
        return len(self.L)

    def conn(self, a, b):
        if b not in self.out[a - 1]:
            self.ops.append({"op": "conn", "a": a, "b": b})
            self.out[a - 1].append(b)

    def group(self, links, bits):
        self.ops.append({"op": "group", "links": links, "mask": sum(b << i for i, b in enumerate(bits))})
        self.groups.append({"links": links, "mask": bits})

    def scenario(self, sid, ops, **hdr):
        return dict({"id": sid, "L": self.L, "out": self.out, "groups": self.groups,
                     "ops": self.ops + ops}, **hdr)


def graph(seed, i):
    """A random graph of one-lane roads; one vehicle at a time, or a few."""
    r = rng(seed, "graph", i)
    net = Ways()
    n = r.randint(4, 10)
    long = i % 4 == 3
    for k in range(n):
        while True:
            d, v = r.choice([30.0, 45.0, 60.0, 80.0]) + r.randint(0, 20), r.choice([8.0, 10.0, 12.5, 16.0])
            if i % 4 == 1 and r.random() < 0.6:
                # takes less than a second
                d, v = r.randint(4, 14) + 0.3, r.choice([12.5, 16.0])
            if long and r.random() < 0.5:
                # takes half a minute to a few minutes
                d, v = r.choice([200.0, 300.0, 600.0]) + r.randint(0, 99), r.choice([4.0, 8.0, 12.5])
            if cost_clear(d, v):
                break
        net.link([0.0, 20.0 * k], [d, 20.0 * k], v)
    # a ring through some links, and random connections
    ring = r.sample(range(1, n + 1), r.randint(2, n))
    if r.random() < 0.6:
        pairs = list(zip(ring, ring[1:] + ring[:1]))
    else:
        pairs = list(zip(ring, ring[1:]))
    pairs += [(a, b) for a in range(1, n + 1) for b in range(1, n + 1) if r.random() < 1.2 / n]
    r.shuffle(pairs)
    for a, b in pairs:
        net.conn(a, b)
    ops = []
    dt = 0.2 if long else r.choice([0.1, 0.2])
    lone = r.random() < 0.75
    v = 0
    for _ in range(r.randint(2, 4)):
        for _ in range(1 if lone else 3):
            v += 1
            ops.append({"op": "add", "v": v, "link": r.randint(1, n), "attr": attrs(r), "clear": 3.0})
            ops.append({"op": "dest", "v": v, "link": r.randint(1, n)})
        if r.random() < 0.5:
            ops.append({"op": "step", "dt": dt, "n": r.randint(1, int(20 / dt))})
            ops.append({"op": "dest", "v": v, "link": r.randint(1, n)})
        ops.append({"op": "step", "dt": dt, "n": int((200 if long else 60) / dt)})
        if lone:
            ops.append({"op": "drain", "dt": 0.2, "max": 1500})
        for k in range(1, v + 1):
            ops.append({"op": "remove", "v": k})
    return net.scenario("graph%d" % i, ops, lone=int(lone))


def told(seed, i):
    """Lanes side by side, without leave to change, that lead to the destinations by
    different ways; one vehicle at a time is told to change to another lane."""
    r = rng(seed, "told", i)
    net = Ways()
    m, d, v = r.randint(2, 4), r.choice([203.0, 251.0]), r.choice([8.0, 12.5])
    lanes = [net.link([0.0, -3.5 * j], [d, -3.5 * j], v) for j in range(m)]

    def way(k):
        while True:
            e, v = r.choice([30.0, 60.0, 150.0]) + r.randint(0, 20), r.choice([8.0, 10.0, 12.5, 16.0])
            if cost_clear(e, v):
                return net.link([0.0, 20.0 * k], [e, 20.0 * k], v)
    ends = [way(100 + k) for k in range(2)]
    for j, a in enumerate(lanes):
        for q in range(r.randint(1, 2)):
            b = way(10 * j + q + 1)
            net.conn(a, b)
            for e in ends:
                if r.random() < 0.8:
                    net.conn(b, e)
    ops, dt = [], r.choice([0.1, 0.2])
    for v in range(1, r.randint(3, 5)):
        ops.append({"op": "add", "v": v, "link": r.choice(lanes), "attr": attrs(r), "clear": 3.0})
        ops.append({"op": "dest", "v": v, "link": r.choice(ends)})
        for _ in range(r.randint(1, 2)):
            ops.append({"op": "step", "dt": dt, "n": int(r.uniform(2.0, 6.0) / dt)})
            ops.append({"op": "lane", "v": v, "link": r.choice(lanes), "dist": r.choice([15.0, 30.0])})
        ops.append({"op": "step", "dt": dt, "n": int(70 / dt)})
        ops.append({"op": "drain", "dt": 0.2, "max": 1500})
        ops.append({"op": "remove", "v": v})
    return net.scenario("told%d" % i, ops, lone=1)


def motorway(r, segs=None):
    """Segments of parallel lanes, some of them ending, with exits from some lanes."""
    net = Ways()
    segs = segs or r.randint(1, 3)
    m = r.choice([2, 3, 4, 4, 5, 7])
    x, prev, exits, speed = 0.0, None, [], r.choice([10.0, 13.9, 16.667])
    for k in range(segs):
        d = r.choice([120.0, 160.0, 200.0]) + 60.0 * (m - 2)
        lanes = [net.link([x, -3.5 * j], [x + d, -3.5 * j], speed) for j in range(m)]
        if r.random() < 0.85:
            bits = [r.randint(0, 3) > 0 for _ in range(2 * m)]
            net.group(lanes, [int(b) for b in bits])
        if prev:
            for j in range(m):
                if r.random() < 0.75:
                    net.conn(prev[j], lanes[j])
                if j and r.random() < 0.15:
                    net.conn(*r.choice([(prev[j - 1], lanes[j]), (prev[j], lanes[j - 1])]))
        if r.random() < 0.5:
            # a turning off from one of the lanes
            j = r.randrange(m)
            e = net.link([x + d, -3.5 * j], [x + d + 40.0, -3.5 * j - 30.0], 10.0)
            net.conn(lanes[j], e)
            if j and r.random() < 0.4:
                net.conn(lanes[j - 1], e)
            exits.append(e)
        x += d
        prev = lanes
    return net, prev, exits


def lanes(seed, i):
    """One vehicle at a time on a road with lanes."""
    r = rng(seed, "lanes", i)
    net, last, exits = motorway(r)
    n = len(net.L)
    ops, dt = [], r.choice([0.1, 0.2])
    for v in range(1, r.randint(2, 5)):
        ops.append({"op": "add", "v": v, "link": r.randint(1, n), "attr": attrs(r), "clear": 3.0})
        ops.append({"op": "dest", "v": v, "link": r.choice(last + exits + exits + [r.randint(1, n)])})
        ops.append({"op": "step", "dt": dt, "n": int(80 / dt)})
        ops.append({"op": "drain", "dt": 0.2, "max": 1500})
        ops.append({"op": "remove", "v": v})
    return net.scenario("lanes%d" % i, ops, lone=1)


def graphs(seed, n):
    return [graph(seed, i) for i in range(n)]


def tolds(seed, n):
    return [told(seed, i) for i in range(n)]


def laned(seed, n):
    return [lanes(seed, i) for i in range(n)]
