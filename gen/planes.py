"""Scenarios for what happens in the plane: bends, lane changes, crossings."""
import math
from .common import rng, mm
from .roads import attrs
from . import junctions, ways


def bend(seed, i):
    """A road of straight and curved links, each continuing where the last one ended."""
    r = rng(seed, "bend", i)
    ops, straight = [], []
    x, y, th = 0.0, 0.0, r.uniform(-3, 3)
    n = r.randint(3, 6)
    far = i % 7 == 4
    if far:
        n = 2
    for k in range(n):
        kind = r.choice(["line", "arc", "quad", "cubic"])
        sp = r.choice([8.0, 10.0, 13.9, 16.667]) if i % 3 else r.choice([1.5, 3.0, 5.0])
        c, s = math.cos(th), math.sin(th)
        big = 1.0
        if far:
            sp, big = r.choice([20.0, 25.0, 33.3]), 6.0
        if kind == "line":
            d = big * r.choice([40.0, 70.0, 100.0]) if i % 3 else r.uniform(8.0, 24.0)
            p, q = [x, y], [x + d * c, y + d * s]
            pts, end, th2 = [p, q], q, th
        elif kind == "arc":
            R, turn = big * r.choice([15.0, 25.0, 60.0]), r.choice([-1, 1]) * r.uniform(0.5, 1.6)
            sg = 1 if turn > 0 else -1
            cx, cy = x - sg * R * s, y + sg * R * c
            a0 = math.atan2(y - cy, x - cx)
            pts, th2 = [[cx, cy], R, a0, a0 + turn], th + turn
            end = [cx + R * math.cos(a0 + turn), cy + R * math.sin(a0 + turn)]
        else:
            d, turn = big * r.choice([30.0, 50.0, 80.0]), r.uniform(-1.0, 1.0)
            th2 = th + turn
            if kind == "quad":
                mid = [x + 0.5 * d * c, y + 0.5 * d * s]
                end = [mid[0] + 0.5 * d * math.cos(th2), mid[1] + 0.5 * d * math.sin(th2)]
                pts = [[x, y], mid, end]
            else:
                end = [x + d * math.cos(th + turn / 2), y + d * math.sin(th + turn / 2)]
                pts = [[x, y], [x + d * c / 3, y + d * s / 3],
                       [end[0] - d * math.cos(th2) / 3, end[1] - d * math.sin(th2) / 3], end]
        ops.append({"op": "link", "kind": kind, "pts": pts, "speed": sp})
        straight.append(int(kind == "line"))
        (x, y), th = end, th2
    for k in range(1, n):
        ops.append({"op": "conn", "a": k, "b": k + 1})
    dt = r.choice([0.05, 0.1, 0.2])
    for v in range(1, r.randint(2, 4)):
        ops.append({"op": "add", "v": v, "link": r.choice([1, 1, r.randint(1, n)]), "attr": attrs(r), "clear": 3.0})
        ops.append({"op": "dest", "v": v, "link": n})
        ops.append({"op": "step", "dt": dt, "n": int(r.choice([6.0, 12.0]) / dt)})
    ops.append({"op": "step", "dt": dt, "n": int((45.0 if far else 20.0) / dt)})
    return {"id": "bend%d" % i, "geom": True, "straight": straight, "out": [[k + 2] if k + 1 < n else [] for k in range(n)], "ops": ops}


def lanes(r, m, n, ds, wide):
    """Segments of parallel lanes, each a group; m lanes, n segments, straight or bending.
    Lanes lie to the right of the first one."""
    net = ways.Ways()
    x, y, th, prev, straight, segs = 0.0, 0.0, r.uniform(-3, 3), [], [], []
    speed = r.choice([10.0, 13.9, 16.667])
    bent = r.random() < 0.4
    for k in range(n):
        d = r.choice(ds)
        turn = r.choice([-1, 1]) * r.uniform(0.3, 1.2) if bent and r.random() < 0.6 else 0.0
        c, s = math.cos(th), math.sin(th)
        cur = []
        for j in range(m):
            o = -wide * j
            px, py = x - o * s, y + o * c
            if turn:
                R, sg = d / abs(turn), (1 if turn > 0 else -1)
                cx, cy = x - sg * R * s, y + sg * R * c
                a0 = math.atan2(y - cy, x - cx)
                net.ops.append({"op": "link", "kind": "arc", "pts": [[cx, cy], R - sg * o, a0, a0 + turn], "speed": speed})
                net.L.append([mm((R - sg * o) * abs(turn)), mm(speed)])
                net.out.append([])
                cur.append(len(net.L))
            else:
                cur.append(net.link([px, py], [px + d * c, py + d * s], speed))
            straight.append(int(not turn))
        if turn:
            x, y, th = cx + R * math.cos(a0 + turn), cy + R * math.sin(a0 + turn), th + turn
        else:
            x, y = x + d * c, y + d * s
        net.group(cur, [1] * (2 * m))
        for a, b in zip(prev, cur):
            net.conn(a, b)
        prev = cur
        segs.append(cur)
    return net, segs, straight


def change(seed, i):
    """One vehicle at a time changing lanes, by itself or when told to."""
    r = rng(seed, "change", i)
    m = r.randint(2, 4)
    net, segs, straight = lanes(r, m, 3, [60.0, 120.0, 180.0], r.choice([3.0, 3.5, 4.0]))
    ops, dt = [], r.choice([0.05, 0.1, 0.2])
    told = r.random() < 0.7
    for v in range(1, 4):
        a = r.randrange(m)
        ops.append({"op": "add", "v": v, "link": segs[0][a], "attr": attrs(r), "clear": 3.0})
        if told:
            ops.append({"op": "dest", "v": v, "link": segs[2][a]})
            ops.append({"op": "step", "dt": dt, "n": int(r.uniform(3.0, 12.0) / dt)})
            b = r.choice([j for j in (a - 1, a + 1) if 0 <= j < m])
            ops.append({"op": "lane", "v": v, "to": b - a, "dist": r.choice([6.0, 10.0, 20.0, 30.0, 45.0]), "dest": segs[2][b]})
            if r.random() < 0.25:
                ops.append({"op": "step", "dt": dt, "n": int(1.0 / dt)})
                ops.append({"op": "freeze", "v": v, "on": True})
                ops.append({"op": "step", "dt": dt, "n": int(4.0 / dt)})
                ops.append({"op": "freeze", "v": v, "on": False})
        else:
            ops.append({"op": "dest", "v": v, "link": segs[r.choice([0, 1, 2])][r.randrange(m)]})
        ops.append({"op": "step", "dt": dt, "n": int(40.0 / dt)})
        ops.append({"op": "remove", "v": v})
    return net.scenario("change%d" % i, ops, geom=True, straight=straight, lane=[j for s in segs for j in range(len(s))])


def astride(seed, i):
    """One vehicle changes lanes, perhaps stopping half way, with others behind on both lanes."""
    r = rng(seed, "astride", i)
    m = 2 if i % 2 else r.randint(3, 4)
    net, segs, straight = lanes(r, m, 2, [140.0, 200.0], 3.5)
    ops, dt = [], r.choice([0.05, 0.1, 0.2])
    a, b = r.choice([(x, y) for x in range(m) for y in range(m) if abs(x - y) == 1])
    att = lambda: [r.choice([1.8, 2.0, 2.4])] + attrs(r)[1:]
    ops.append({"op": "add", "v": 1, "link": 1 + a, "attr": att(), "clear": 3.0})
    ops.append({"op": "dest", "v": 1, "link": m + 1 + a})
    v, t = 1, 0.0
    when, thaw = r.uniform(6.0, 14.0), 999.0
    while t < 30.0:
        w = r.choice([2.0, 3.0, 4.0])
        if t < when <= t + w:
            ops.append({"op": "step", "dt": dt, "n": int((when - t) / dt)})
            ops.append({"op": "lane", "v": 1, "to": b - a, "dist": r.choice([10.0, 20.0, 30.0, 45.0]), "gap": 40.0,
                        "dest": m + 1 + b})
            w -= when - t
            t = when
            freeze = r.choice([None, 0.3, 1.0, 1.5, 2.5, 6.0])
            if freeze is not None:
                ops.append({"op": "step", "dt": dt, "n": max(1, int(freeze / dt))})
                ops.append({"op": "freeze", "v": 1, "on": True})
                thaw = t + r.choice([5.0, 9.0, 14.0, 99.0])
        else:
            t += w
            ops.append({"op": "step", "dt": dt, "n": int(w / dt)})
        if t >= thaw:
            ops.append({"op": "freeze", "v": 1, "on": False})
            thaw = 999.0
        if v < 7:
            for j in (a, b):
                if r.random() < 0.6:
                    v += 1
                    ops.append({"op": "add", "v": v, "link": 1 + j, "attr": att(), "clear": 6.0})
                    ops.append({"op": "dest", "v": v, "link": m + 1 + j})
    ops.append({"op": "step", "dt": dt, "n": int(10.0 / dt)})
    ops.append({"op": "drain", "dt": 0.1, "max": 3000})
    return net.scenario("astride%d" % i, ops, geom=True, straight=straight, lane=[j for s in segs for j in range(len(s))])


def bends(seed, n):
    return [bend(seed, i) for i in range(n)]


def changes(seed, n):
    return [change(seed, i) for i in range(n)]


def astrides(seed, n):
    return [astride(seed, i) for i in range(n)]


def meeting(scs):
    """Crossings and merges with what is needed to see them in the plane."""
    return [dict(s, geom=True, straight=[1] * len(s["L"])) for s in scs]
