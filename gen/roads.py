"""Single-lane roads: chains of links with controls that open and close, mixed
limits, freezes, removals and changing destinations."""
import math
from .common import rng, line, mm, DTS, exact_timers


def attrs(r):
    return [2.0, r.choice([3.0, 4.5, 5.0, 8.0, 12.0]), 1.5, r.choice([1.0, 1.5, 2.0]),
            r.choice([1.0, 1.5, 2.0, 3.0]), r.choice([1.5, 2.0, 3.0])]


class Net:
    """Builds the ops and the header of a network of straight links."""

    def __init__(self):
        self.ops, self.L, self.out, self.K = [], [], [], []

    def link(self, a, b, speed):
        self.ops.append(line(a, b, speed))
        self.L.append([mm(((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** 0.5), mm(speed)])
        self.out.append([])
        return len(self.L)

    def conn(self, a, b):
        self.ops.append({"op": "conn", "a": a, "b": b})
        self.out[a - 1].append(b)

    def scenario(self, sid, ops, **hdr):
        return dict({"id": sid, "L": self.L, "out": self.out, "K": self.K, "ops": self.ops + ops}, **hdr)


def chain(seed, i):
    """A chain of 3 to 6 links, or 5 to 8 with very short ones among them, or 8 of which
    all but the first and last are short, with random closures, freezes and removals."""
    r = rng(seed, "chain", i)
    net = Net()
    short = i % 3 == 2
    row = i % 6 == 5
    n = 8 if row else r.randint(5, 8) if short else r.randint(3, 6)
    x = 0.0
    sp = [r.choice([8.0, 10.0, 12.5, 13.9, 16.667]) for _ in range(n)]
    if row:
        sp = [r.choice([13.9, 16.667])] * n
    for k in range(n):
        d = r.choice([10.0, 12.0, 15.0]) if row and 0 < k < n - 1 else \
            r.choice([6.0, 8.5, 12.0, 17.0]) if short and 0 < k < n - 1 and r.random() < 0.7 else \
            r.choice([25.0, 40.0, 60.0, 90.0, 120.0, 230.0] if i % 4 == 1 or short else [25.0, 40.0, 60.0, 90.0, 120.0])
        net.link([x, 0.0], [x + d, 0.0], sp[k])
        x += d
    for k in range(1, n):
        net.conn(k, k + 1)
    dt = r.choice(DTS)
    ops, nv, time, lastadd = [], 0, 0.0, -99.0
    frozen = set()
    while time < 60.0:
        x = r.random()
        if x < 0.45 and time - lastadd > 4.0 and nv < 8 and time < 45:
            nv += 1
            ops.append({"op": "add", "v": nv, "link": 1, "attr": attrs(r), "clear": 3.0})
            if r.random() < 0.93:
                ops.append({"op": "dest", "v": nv, "link": r.randint(1, n) if r.random() < 0.15 else n})
            lastadd = time
        elif x < 0.65:
            ops.append({"op": "control", "link": r.randint(2, n), "c": r.choice(["closed", "open", "open"])})
        elif x < 0.72 and nv:
            v = r.randint(1, nv)
            on = v not in frozen
            (frozen.add if on else frozen.discard)(v)
            ops.append({"op": "freeze", "v": v, "on": on})
        elif x < 0.74 and nv:
            ops.append({"op": "remove", "v": r.randint(1, nv)})
        elif x < 0.78 and nv:
            ops.append({"op": "dest", "v": r.randint(1, nv), "link": r.randint(2, n)})
        m = r.randint(1, 30)
        m = max(1, int(m * 0.1 / dt))
        ops.append({"op": "step", "dt": dt, "n": m})
        if r.random() < 0.04:
            ops.append({"op": "step", "dt": 0.0, "n": 1})
        time += m * dt
    return net.scenario("chain%d" % i, ops)


def parallel(seed, i):
    """Lanes side by side between which changes are permitted but never needed."""
    r = rng(seed, "parallel", i)
    net = Net()
    m, n, wide = r.randint(2, 4), r.choice([1, 1, 2, 3]), r.choice([2.7, 3.0, 3.5])
    lim, x, lanes = r.choice([8.0, 10.0, 13.9, 16.667]), 0.0, []
    for k in range(n):
        d = r.choice([60.0, 90.0, 150.0, 220.0])
        lanes.append([net.link([x, -wide * j], [x + d, -wide * j], lim) for j in range(m)])
        if k:
            for a, b in zip(lanes[-2], lanes[-1]):
                net.conn(a, b)
        x += d
    for ls in lanes:
        net.ops.append({"op": "group", "links": ls, "mask": r.choice([(1 << 2 * m) - 1, r.getrandbits(2 * m)])})
    dt = r.choice([x for x in DTS if x >= 0.05])
    ops, nv, time, last, frozen = [], 0, 0.0, [-99.0] * m, set()
    while time < 45.0:
        for j in range(m):
            if time - last[j] > 4.0 and nv < 9 and r.random() < 0.35:
                nv += 1
                ops.append({"op": "add", "v": nv, "link": lanes[0][j], "attr": attrs(r), "clear": 3.0})
                if r.random() < 0.9:
                    ops.append({"op": "dest", "v": nv, "link": lanes[-1][j]})
                last[j] = time
        if n > 1 and r.random() < 0.15:
            ops.append({"op": "control", "link": r.choice(lanes[r.randint(1, n - 1)]), "c": r.choice(["closed", "open"])})
        if nv and r.random() < 0.12:
            v = r.randint(1, nv)
            on = v not in frozen
            (frozen.add if on else frozen.discard)(v)
            ops.append({"op": "freeze", "v": v, "on": on})
        k = max(1, int(r.randint(5, 25) * 0.1 / dt))
        ops.append({"op": "step", "dt": dt, "n": k})
        time += k * dt
    return net.scenario("parallel%d" % i, ops)


def swarm(seed, i):
    """Many equal roads, each with an equal vehicle, so that all do the same in the same step."""
    r = rng(seed, "swarm", i)
    net, ops = Net(), []
    n, d, sp, a, dt = r.randint(9, 24), r.choice([20.0, 35.0]), r.choice([8.0, 13.9]), attrs(r), r.choice([0.1, 0.2])
    m = r.choice([1, 2])
    for k in range(n):
        ls = [net.link([d * j, 12.0 * k], [d * (j + 1), 12.0 * k], sp) for j in range(m)]
        for p, q in zip(ls, ls[1:]):
            net.conn(p, q)
        ops.append({"op": "add", "v": k + 1, "link": ls[0], "attr": a})
        ops.append({"op": "dest", "v": k + 1, "link": ls[-1]})
    ops.append({"op": "step", "dt": dt, "n": int(15 / dt)})
    ops += [{"op": "remove", "v": r.randint(1, n)} for _ in range(2)]
    ops.append({"op": "step", "dt": dt, "n": int(5 / dt)})
    return net.scenario("swarm%d" % i, ops)


def tiny(seed, i):
    """Links so short that a vehicle can pass more than one of them in a step."""
    r = rng(seed, "tiny", i)
    net, x = Net(), 0.0
    n = r.randint(5, 8)
    for k in range(n):
        d = r.choice([40.0, 60.0]) if k in (0, n - 1) or r.random() < 0.2 else r.choice([1.1, 1.7, 2.6, 4.0])
        net.link([x, 0.0], [x + d, 0.0], r.choice([13.9, 16.667]))
        x += d
        if k:
            net.conn(k, k + 1)
    ops, dt = [], r.choice([0.1, 0.2])
    for v in range(1, 5):
        ops.append({"op": "add", "v": v, "link": 1, "attr": attrs(r), "clear": 3.0})
        ops.append({"op": "dest", "v": v, "link": n})
        ops.append({"op": "step", "dt": dt, "n": int(r.choice([6.0, 14.0]) / dt)})
    ops.append({"op": "step", "dt": dt, "n": int(15.0 / dt)})
    return net.scenario("tiny%d" % i, ops)


def tree(seed, i):
    """A road that branches; destinations all over the tree, changed on the way."""
    r = rng(seed, "tree", i)
    net = Net()
    sp = lambda: r.choice([8.0, 10.0, 12.5, 13.9, 16.667])
    ends, nodes = {}, []

    def grow(parent, x, y, heading, depth):
        d = r.choice([25.0, 40.0, 60.0, 90.0, 120.0])
        x2, y2 = x + d * math.cos(heading), y + d * math.sin(heading)
        a = net.link([x, y], [x2, y2], sp())
        nodes.append(a)
        if parent:
            net.conn(parent, a)
        if depth:
            k = r.choice([1, 2, 2, 3])
            for turn in r.sample([-0.5, 0.0, 0.5], k):
                grow(a, x2, y2, heading + turn, depth - 1)

    grow(None, 0.0, 0.0, 0.0, r.choice([2, 2, 3]))
    n = len(nodes)
    dt = r.choice(DTS)
    ops, nv, time, lastadd = [], 0, 0.0, -99.0
    while time < 60.0:
        x = r.random()
        if x < 0.5 and time - lastadd > 3.0 and nv < 10 and time < 45:
            nv += 1
            ops.append({"op": "add", "v": nv, "link": 1, "attr": attrs(r), "clear": 3.0})
            if r.random() < 0.9:
                ops.append({"op": "dest", "v": nv, "link": r.choice(nodes)})
            lastadd = time
        elif x < 0.62:
            ops.append({"op": "control", "link": r.choice(nodes), "c": r.choice(["closed", "open", "open"])})
        elif x < 0.66:
            ops.append({"op": "control", "link": r.choice(nodes), "c": {
                "distance": r.choice([2.0, 5.0]), "must_stop": r.random() < 0.6, "priority": 0}})
        elif x < 0.86 and nv:
            ops.append({"op": "dest", "v": r.randint(1, nv), "link": r.choice(nodes)})
        m = max(1, int(r.randint(1, 30) * 0.1 / dt))
        ops.append({"op": "step", "dt": dt, "n": m})
        time += m * dt
    # in the end everything is open and every vehicle can reach its destination or stays
    for a in nodes:
        ops.append({"op": "control", "link": a, "c": "open"})
    return net.scenario("tree%d" % i, ops)


def fork(seed, i):
    """A road that forks; something changes just as a vehicle comes up to the fork."""
    r = rng(seed, "fork", i)
    net = Net()
    lim = r.choice([10.0, 13.9, 16.667])
    d = r.choice([90.0, 120.0, 150.0])
    trunk = net.link([0.0, 0.0], [d, 0.0], lim)
    arms = []
    for th in r.sample([-0.6, -0.2, 0.2, 0.6], r.choice([2, 2, 3])):
        c, s = math.cos(th), math.sin(th)
        e = r.choice([15.0, 30.0, 60.0])
        a = net.link([d, 0.0], [d + e * c, e * s], lim)
        b = net.link([d + e * c, e * s], [d + (e + 60) * c, (e + 60) * s], lim)
        net.conn(trunk, a)
        net.conn(a, b)
        arms.append((a, b))
    stop = lambda: {"distance": r.choice([2.0, 4.0, 6.0]), "must_stop": r.random() < 0.7, "priority": 0}
    dt = r.choice([x for x in DTS if x >= 0.05])
    state, ops = {}, []
    step = lambda sec: ops.append({"op": "step", "dt": dt, "n": max(1, int(sec / dt))})

    def ctl(a, c):
        state[a] = c
        ops.append({"op": "control", "link": a, "c": c})

    for v in range(1, r.choice([2, 3, 4])):
        for arm in arms:
            ctl(arm[0], r.choice(["open", "open", "closed", stop()]))
            if r.random() < 0.3:
                ctl(arm[1], r.choice(["open", "closed", stop()]))
        arm, other = r.sample(arms, 2)
        if r.random() < 0.7:
            ctl(arm[0], "open")
        ops.append({"op": "add", "v": v, "link": trunk, "attr": attrs(r), "clear": 3.0})
        ops.append({"op": "dest", "v": v, "link": r.choice(arm)})
        if r.random() < 0.2:
            # it stops with its nose at the line, already on its way, and turns to the other arm
            ctl(arm[0], "closed")
            step(25.0)
            ctl(arm[0], "open")
            step(r.choice([0.4, 0.7, 1.0, 1.3]))
            ops.append({"op": "freeze", "v": v, "on": True})
            step(1.5)
            ctl(other[0], r.choice(["closed", stop()]))
            ops.append({"op": "dest", "v": v, "link": r.choice(other)})
            ops.append({"op": "freeze", "v": v, "on": False})
            step(6.0)
            arm, other = other, arm
        for _ in range(r.choice([1, 1, 2, 3])):
            togo = r.choice([0.5, 3.0, 8.0, 12.0, 16.0, 20.0, 25.0, 30.0, 40.0])
            ops.append({"op": "approach", "v": v, "on": trunk, "togo": togo, "dt": dt, "n": int(25 / dt)})
            x = r.random()
            if x < 0.5:
                if r.random() < 0.7:
                    ctl(other[0], r.choice(["closed", stop()]))
                ops.append({"op": "dest", "v": v, "link": r.choice(other)})
                arm, other = other, arm
            elif x < 0.75:
                ctl(arm[0], r.choice(["closed", "open", stop()]))
            elif x < 0.85:
                ops.append({"op": "dest", "v": v, "link": trunk})
            else:
                ctl(arm[1], r.choice(["closed", stop()]))
            step(r.choice([0.05, 0.3, 1.0]))
        step(r.choice([5.0, 10.0]))
        if r.random() < 0.5:
            ctl(arm[0], "open")
            step(6.0)
        if r.random() < 0.4:
            for a in list(state):
                ctl(a, "open")
            step(20.0)
        # a vehicle turned aside at the last moment may run into one standing there
        ops.append({"op": "remove", "v": v})
    return net.scenario("fork%d" % i, ops)


def signal_op(links, r):
    """A signal with one movement per set of links and one phase per movement."""
    n = len(links)
    full = (1 << n) - 1
    mv = [{"links": ls, "conflict": full & ~(1 << k), "amber": r.choice([1.0, 2.0, 3.0]), "red": r.choice([0.5, 1.0])}
          for k, ls in enumerate(links)]
    ph = [{"mask": 1 << k, "dur": r.choice([3.0, 6.0, 10.0])} for k in range(n)]
    return {"op": "light", "movements": mv, "phases": ph}


def signalled(seed, i):
    """A branching road with signals at some entries."""
    r = rng(seed, "signalled", i)
    net = Net()
    many = i % 6 == 5
    n = 7 if many else r.randint(3, 5)
    x = 0.0
    for k in range(n):
        d = r.choice([40.0, 60.0] if many else [40.0, 60.0, 90.0, 120.0])
        net.link([x, 0.0], [x + d, 0.0], r.choice([10.0, 12.5, 13.9, 16.667]))
        x += d
        if k:
            net.conn(k, k + 1)
    side = None
    if r.random() < 0.6:
        # a turning lane off the main road, before link 3
        x2 = sum(l[0] for l in net.L[:2]) / 1000.0
        side = net.link([x2, 0.0], [x2 + 40.0, 40.0], 10.0)
        net.conn(2, side)
    ops, lights = [], []
    cands = list(range(2, n + 1))
    for a in r.sample(cands, 6 if many else r.randint(1, min(2, len(cands)))):
        sets = [[a]]
        if side and a == 3:
            sets = [[a, side]] if r.random() < 0.4 else [[a], [side]]
        sets.append([])            # a movement elsewhere takes its turn
        if i % 5 == 4 and not lights:
            # with plenty of links
            for k in range(r.choice([5, 18])):
                sets[-1].append(net.link([0.0, 50.0 + k], [12.0, 50.0 + k], 10.0))
            if r.random() < 0.6:
                sets.reverse()
        ops.append(signal_op(sets, r))
        lights.append(sets)
    # an entry without a signal keeps its own control
    taken = {a for l in lights for m in l for a in m}
    free = [a for a in cands if a not in taken]
    dt = r.choice([d for d in DTS if d >= 0.05])
    nv, time, lastadd = 0, 0.0, -99.0
    while time < 70.0:
        if time - lastadd > 3.0 and nv < 10 and time < 50 and r.random() < 0.5:
            nv += 1
            ops.append({"op": "add", "v": nv, "link": 1, "attr": attrs(r), "clear": 3.0})
            ops.append({"op": "dest", "v": nv, "link": r.choice([n, n, side or n])})
            lastadd = time
        if free and r.random() < 0.1:
            ops.append({"op": "control", "link": r.choice(free), "c": r.choice(["closed", "open", "open"])})
        m = max(1, int(r.randint(1, 20) * 0.1 / dt))
        ops.append({"op": "step", "dt": dt, "n": m})
        time += m * dt
    return net.scenario("signalled%d" % i, ops, lights=lights)


def chains(seed, n):
    return [chain(seed, i) for i in range(n)]


def trees(seed, n):
    return [tree(seed, i) for i in range(n)]


def signalleds(seed, n):
    return [signalled(seed, i) for i in range(n)]


def parallels(seed, n):
    return [parallel(seed, i) for i in range(n)]


def tinies(seed, n):
    return [tiny(seed, i) for i in range(n)]


def swarms(seed, n):
    return [swarm(seed, i) for i in range(n)]


def forks(seed, n):
    return [fork(seed, i) for i in range(n)]
