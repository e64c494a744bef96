"""Junctions: roads that cross at right angles or merge, with open, give-way,
stop, prioritised and closed entries, and signals."""
import math
from .common import rng, DTS, mm
from .roads import Net, attrs as narrow

RADIUS, STEP = 1.8, 0.25


def attrs(r):
    """Now and then a wide vehicle."""
    a = narrow(r)
    return [2.5] + a[1:] if r.random() < 0.2 else a


def crossing_zone(at):
    """Positions on a link whose centre line crosses another at right angles at `at`."""
    return [mm(at - RADIUS), mm(at + RADIUS)]


class Road:
    """approach -> conflict link -> exit along a straight line."""

    def __init__(self, net, start, direction, approach, mid, leave, speeds):
        self.links = []
        x, y = start
        dx, dy = direction
        prev = None
        for d, s in zip((approach, mid, leave), speeds):
            a = net.link([x, y], [x + d * dx, y + d * dy], s)
            if prev:
                net.conn(prev, a)
            prev = a
            x, y = x + d * dx, y + d * dy
            self.links.append(a)
        self.entry, self.mid, self.exit = self.links


def limits(r, sp):
    """Limits of approach, conflict link and exit; mostly the same."""
    s = r.choice(sp)
    if r.random() < 0.7:
        return [s, s, s]
    return [r.choice([4.0, 6.0] + sp), s, r.choice([s] + sp)]


def crossing(net, r, crossers=1):
    """A main road along x crossed by one or two roads along y."""
    sp = [8.0, 10.0, 12.5, 13.9, 16.667]
    mid = r.choice([12.0, 16.0, 24.0, 36.0]) if crossers == 1 else 30.0
    ap = r.choice([60.0, 80.0, 110.0])
    main = Road(net, (0.0, 0.0), (1.0, 0.0), ap, mid, 60.0, limits(r, sp))
    roads = [main]
    ats = [r.choice([0.3, 0.5, 0.7]) * mid] if crossers == 1 else [8.0, 20.0]
    for at in ats:
        up = r.choice([1.0, -1.0])
        ap2 = r.choice([60.0, 80.0, 110.0])
        mid2 = r.choice([10.0, 16.0, 30.0])
        at2 = r.choice([0.35, 0.5, 0.65]) * mid2
        roads.append(Road(net, (ap + at, -up * (ap2 + at2)), (0.0, up), ap2, mid2, 60.0, limits(r, sp)))
        net.ops.append({"op": "conv", "a": main.mid, "b": roads[-1].mid})
        net.K.append([main.mid, roads[-1].mid] + crossing_zone(at) + crossing_zone(at2))
    return roads


def oblique_zone(at, angle):
    """Positions on a link that crosses another at `at` under some angle."""
    s = RADIUS * (1 + abs(math.cos(angle))) / math.sin(angle)
    return [mm(at - s), mm(at + s)]


def oblique(net, r):
    """Two roads that cross at an acute or obtuse angle."""
    sp = [8.0, 10.0, 12.5, 13.9]
    angle = math.radians(r.choice([35.0, 50.0, 70.0, 110.0, 130.0, 145.0]) + r.uniform(-5.0, 5.0))
    roads, ats = [], []
    for th in (0.0, r.choice([-1.0, 1.0]) * angle):
        d = (math.cos(th), math.sin(th))
        ap, mid = r.choice([60.0, 80.0, 110.0]), r.choice([24.0, 32.0, 40.0])
        at = r.choice([0.4, 0.5, 0.6]) * mid
        roads.append(Road(net, (-(ap + at) * d[0], -(ap + at) * d[1]), d, ap, mid, 60.0, limits(r, sp)))
        ats.append(at)
    net.ops.append({"op": "conv", "a": roads[0].mid, "b": roads[1].mid})
    net.K.append([x.mid for x in roads] + oblique_zone(ats[0], angle) + oblique_zone(ats[1], angle))
    return roads


def square(net, r):
    """Four one-way roads crossing pairwise around a square."""
    w, mid = r.choice([8.0, 10.0, 12.0]), 30.0
    roads, at = [], []
    for k, (o, d) in enumerate((((0.0, 0.0), (1.0, 0.0)), ((9.0 + w, -9.0), (0.0, 1.0)),
                                ((30.0, w), (-1.0, 0.0)), ((9.0, 21.0), (0.0, -1.0)))):
        ap, s = r.choice([60.0, 80.0, 110.0]), r.choice([8.0, 10.0, 13.9])
        roads.append(Road(net, (o[0] - ap * d[0], o[1] - ap * d[1]), d, ap, mid, 60.0, [s, s, s]))
    east, north, west, south = roads
    for a, b, p, q in ((east, south, 9.0, 21.0), (east, north, 9.0 + w, 9.0),
                       (west, north, 21.0 - w, 9.0 + w), (west, south, 21.0, 21.0 - w)):
        net.ops.append({"op": "conv", "a": a.mid, "b": b.mid})
        net.K.append([a.mid, b.mid] + crossing_zone(p) + crossing_zone(q))
    return roads


def merge_zone(length, angle):
    """Positions from which two links ending in one point at `angle` overlap."""
    s = RADIUS * (1 + math.cos(angle)) / math.sin(angle)
    return [mm(max(0.0, length - s)), mm(length)]


def merge(net, r):
    """Two roads whose middle links end in one point and share an exit."""
    angle = math.radians(r.choice([25.0, 40.0, 60.0, 70.0, 90.0]))
    s = r.choice([10.0, 12.5, 13.9])
    out = net.link([0.0, 0.0], [80.0, 0.0], s)
    roads = []
    for th in (0.0, angle):
        d = (math.cos(th), math.sin(th))
        mid, ap = r.choice([16.0, 24.0, 36.0]), r.choice([60.0, 80.0, 110.0])
        b = net.link([-mid * d[0], -mid * d[1]], [0.0, 0.0], s)
        a = net.link([-(mid + ap) * d[0], -(mid + ap) * d[1]], [-mid * d[0], -mid * d[1]], s)
        net.conn(a, b)
        net.conn(b, out)
        road = Road.__new__(Road)
        road.entry, road.mid, road.exit, road.links = a, b, out, [a, b, out]
        road.length = mid
        roads.append(road)
    net.ops.append({"op": "conv", "a": roads[0].mid, "b": roads[1].mid})
    net.K.append([roads[0].mid, roads[1].mid] + merge_zone(roads[0].length, angle) + merge_zone(roads[1].length, angle))
    return roads


def give_way(r, stop=None, priority=0):
    return {"distance": r.choice([2.0, 5.0, 10.0]), "must_stop": r.random() < 0.5 if stop is None else stop,
            "priority": priority}


REGIMES = ("minor_gives_way", "minor_stops", "equal", "all_stop", "priorities", "closed_road", "shuffle", "open")


def control_ops(r, regime, roads):
    """Initial controls at the middle links, and a function for later changes."""
    mids = [x.mid for x in roads]
    later = lambda: []
    if regime == "minor_gives_way":
        cs = ["open"] + [give_way(r, False) for _ in mids[1:]]
    elif regime == "open":
        cs = ["open"] * len(mids)
    elif regime == "minor_stops":
        cs = ["open"] + [give_way(r, True) for _ in mids[1:]]
    elif regime == "equal":
        cs = [give_way(r, False) for _ in mids]
    elif regime == "all_stop":
        cs = [give_way(r, True) for _ in mids]
    elif regime == "priorities":
        low = r.choice([0, 0, -2, -1, 40, -128, 125])
        cs = [give_way(r, None, low + r.choice([1, 2]))] + [give_way(r, None, low + r.choice([0, 1])) for _ in mids[1:]]
        if r.random() < 0.5:
            cs = cs[::-1]
    elif regime == "closed_road":
        cs = ["open"] + [give_way(r) for _ in mids[1:]]
        later = lambda: [{"op": "control", "link": mids[0], "c": r.choice(["closed", "open"])}]
    else:
        pick = lambda: r.choice(["open", "closed", give_way(r), give_way(r, None, 1)])
        # two open entries would leave the crossing to luck
        cs = [give_way(r) for _ in mids]
        def later():
            k = r.randrange(len(mids))
            return [{"op": "control", "link": mids[k], "c": pick() if k == 0 else r.choice(["closed", give_way(r)])}]
    return [{"op": "control", "link": m, "c": c} for m, c in zip(mids, cs)], later


def traffic(r, roads, dt, adds, drain, later, gap=3.0, busy=0.35, fixed=None):
    """Vehicles arriving on every road, with control changes in between."""
    ops, nv, time = [], 0, 0.0
    last = [-99.0] * len(roads)
    end = adds
    while time < end + drain:
        if time < end:
            for k, road in enumerate(roads):
                if time - last[k] > gap and r.random() < busy:
                    nv += 1
                    ops.append({"op": "add", "v": nv, "link": road.entry, "attr": attrs(r), "clear": 3.0})
                    ops.append({"op": "dest", "v": nv, "link": road.exit})
                    last[k] = time
            if r.random() < 0.06:
                ops += later()
        m = max(1, int(r.choice([5, 10, 15, 20]) * 0.1 / dt))
        ops.append({"op": "step", "dt": dt, "n": m})
        time += m * dt
    return ops


SHAPES = {"merge": merge, "square": square, "oblique": oblique}


def junction(seed, i, kind, regime=None, adds=None, drain=None):
    r = rng(seed, kind, i)
    net = Net()
    regime = regime or REGIMES[i % len(REGIMES)]
    roads = crossing(net, r, 1 + (r.random() < 0.35)) if kind == "crossing" else SHAPES[kind](net, r)
    cops, later = control_ops(r, regime, roads)
    dt = r.choice([d for d in DTS if d >= 0.05])
    ops = cops + traffic(r, roads, dt, adds or r.choice([15.0, 30.0]), drain or 35.0, later,
                         gap=r.choice([2.5, 4.0, 7.0]), busy=r.choice([0.2, 0.5, 0.9]))
    return net.scenario("%s_%s%d" % (kind, regime, i), ops)


def blocked(seed, i):
    """A vehicle stands in the conflict while others come up; later it may drive on."""
    r = rng(seed, "blocked", i)
    net = Net()
    roads = (crossing, merge, square, oblique)[i % 4](net, r)
    cops, _ = control_ops(r, r.choice(["minor_gives_way", "minor_stops", "equal", "all_stop", "priorities"]), roads)
    if r.random() < 0.3:
        cops = []
    dt = r.choice([0.05, 0.1, 0.2])
    k = r.choice(net.K)
    # the conflict area on the one road or the other
    a, zone = r.choice([(k[0], k[2:4]), (k[1], k[4:6])])
    road = next(x for x in roads if x.mid == a)
    at = attrs(r)
    at[1] = r.choice([4.5, 8.0, 12.0])
    togo = (net.L[a - 1][0] - r.uniform(zone[0], zone[1] + 1000.0 * at[1])) / 1000.0
    ops = [{"op": "add", "v": 1, "link": road.entry, "attr": at, "clear": 3.0},
           {"op": "dest", "v": 1, "link": road.exit},
           {"op": "approach", "v": 1, "on": a, "togo": max(togo, 0.3), "dt": dt, "n": int(40 / dt)},
           {"op": "freeze", "v": 1, "on": True},
           {"op": "step", "dt": dt, "n": int(3.0 / dt)}]
    v = 1
    for _ in range(r.randint(1, 2)):
        for x in roads:
            if r.random() < 0.8:
                v += 1
                ops += [{"op": "add", "v": v, "link": x.entry, "attr": attrs(r), "clear": 3.0},
                        {"op": "dest", "v": v, "link": x.exit}]
        ops.append({"op": "step", "dt": dt, "n": int(r.choice([6.0, 9.0]) / dt)})
    ops.append({"op": "step", "dt": dt, "n": int(8.0 / dt)})
    if cops and r.random() < 0.6:
        ops += [{"op": "freeze", "v": 1, "on": False}, {"op": "step", "dt": dt, "n": int(25.0 / dt)}]
    return net.scenario("blocked%d" % i, cops + ops, stands=1)


def blockeds(seed, n):
    return [blocked(seed, i) for i in range(n)]


def crossings(seed, n, **kw):
    return [junction(seed, i, "crossing", **kw) for i in range(n)]


def merges(seed, n, **kw):
    return [junction(seed, i, "merge", **kw) for i in range(n)]


def obliques(seed, n, **kw):
    return [junction(seed, i, "oblique", **kw) for i in range(n)]


def squares(seed, n, **kw):
    return [junction(seed, i, "square", **kw) for i in range(n)]


def cleared(seed, n):
    """Junctions that are left to themselves after some traffic; nothing but the outcome is recorded."""
    out = []
    for i in range(n):
        r = rng(seed, "cleared", i)
        net = Net()
        kind = r.choice(["merge", "crossing", "square", "oblique"])
        # with all four entries of a square open they can lock each other up
        regime = r.choice([x for x in REGIMES if (kind, x) != ("square", "open")])
        roads = crossing(net, r, r.choice([1, 2])) if kind == "crossing" else SHAPES[kind](net, r)
        cops, later = control_ops(r, regime, roads)
        dt = r.choice([d for d in DTS if d >= 0.05])
        if r.random() < 0.4:
            # everybody at the same moment, in platoons
            ops, nv = [], 0
            like = attrs(r) if r.random() < 0.5 else None
            for _ in range(r.randint(1, 6)):
                for road in roads:
                    nv += 1
                    ops.append({"op": "add", "v": nv, "link": road.entry, "attr": like or attrs(r), "clear": 3.0})
                    ops.append({"op": "dest", "v": nv, "link": road.exit})
                ops.append({"op": "run", "dt": dt, "n": int(r.choice([1.0, 2.5, 4.0]) / dt)})
        else:
            ops = traffic(r, roads, dt, r.choice([15.0, 30.0, 60.0]), 0.0, later,
                          gap=r.choice([2.5, 4.0, 7.0]), busy=r.choice([0.2, 0.5, 0.9]))
            ops = [dict(o, op="run") if o["op"] == "step" else o for o in ops]
        # entries closed in the meantime are opened, nobody is frozen
        if regime in ("closed_road", "shuffle", "open"):
            ops.append({"op": "control", "link": roads[0].mid, "c": "open"})
            ops += [{"op": "control", "link": x.mid, "c": give_way(r)} for x in roads[1:]]
        ops.append({"op": "drain", "dt": dt, "max": int(900.0 / dt)})
        # vehicles stop two metres short of a line and could not come closer
        for o in cops + ops:
            if o["op"] == "control" and type(o["c"]) is dict:
                o["c"]["distance"] = max(o["c"]["distance"], 2.5)
        out.append(net.scenario("%s_%s%d" % (kind, regime, i), cops + ops))
    return out
