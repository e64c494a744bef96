"""Networks built call by call, with queries in between."""
import itertools, math
from .common import rng, line, mm


def link_op(pts, speed, kind="line"):
    op = {"op": "link", "kind": kind, "pts": pts, "speed": speed}
    op["len"] = mm(curve_length(kind, pts))
    # Straight lengths are exact, the arc length of curves is computed by sampling
    op["tol"] = 2 if kind == "line" else 2 + op["len"] // 100
    return op


def curve_length(kind, p):
    if kind == "line":
        return math.dist(p[0], p[1])
    if kind == "arc":
        return abs(p[1] * (p[3] - p[2]))
    n, total, prev = 1000, 0.0, None
    for i in range(n + 1):
        t = i / n
        if kind == "quad":
            w = [(1 - t) ** 2, 2 * t * (1 - t), t * t]
        else:
            w = [(1 - t) ** 3, 3 * t * (1 - t) ** 2, 3 * t * t * (1 - t), t ** 3]
        q = (sum(a * b[0] for a, b in zip(w, p)), sum(a * b[1] for a, b in zip(w, p)))
        if prev:
            total += math.dist(prev, q)
        prev = q
    return total


def conn_op(a, b):
    return {"op": "conn", "a": a, "b": b, "log": True}


def group_op(links, bits):
    return {"op": "group", "links": links, "bits": bits, "mask": sum(b << i for i, b in enumerate(bits))}


def lane(k, n=60.0, x=0.0, speed=10.0):
    return link_op([[x, -3.5 * k], [x + n, -3.5 * k]], speed)


NET = {"op": "net"}


def digraphs(n):
    """Every set of connections among n links."""
    out = []
    pairs = list(itertools.product(range(1, n + 1), repeat=2))
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        ops = [lane(k) for k in range(n)]
        ops += [conn_op(a, b) for (a, b), x in zip(pairs, bits) if x] + [NET]
        out.append({"id": "digraph%d_%s" % (n, "".join(map(str, bits))), "ops": ops})
    return out


def lane_groups(seed, n):
    """Every permission mask of n lanes, with random roads before and after."""
    out = []
    for bits in itertools.product((0, 1), repeat=2 * n):
        r = rng(seed, "lanes%d" % n, bits)
        ops = [lane(k) for k in range(n)]
        total = n
        for k in range(r.randint(0, 3)):
            ops.append(lane(k, 30.0, 60.0))
            total += 1
            for a in r.sample(range(1, n + 1), r.randint(1, n)):
                ops.append(conn_op(a, total))
        if r.random() < 0.5:
            ops.append(lane(0, 30.0, -30.0))
            total += 1
            ops.append(conn_op(total, r.randint(1, n)))
        ops.append(NET)
        ops += [group_op(list(range(1, n + 1)), list(bits)), NET]
        out.append({"id": "lanes%d_%s" % (n, "".join(map(str, bits))), "ops": ops})
    return out


def random_curve(r):
    x, y = r.uniform(-200, 200), r.uniform(-200, 200)
    k = r.random()
    q = lambda s: [x + r.uniform(-s, s), y + r.uniform(-s, s)]
    if k < 0.4:
        d, th = r.uniform(5, 300), r.uniform(0, 6.28)
        return "line", [[x, y], [x + d * math.cos(th), y + d * math.sin(th)]]
    if k < 0.6:
        return "arc", [[x, y], r.uniform(10, 80), 0.3, 0.3 + r.choice([-1, 1]) * r.uniform(0.5, 3.0)]
    d, th = r.uniform(30, 120), r.uniform(0, 6.28)
    c, s = math.cos(th), math.sin(th)
    pt = lambda u, v: [x + d * (u * c - v * s), y + d * (u * s + v * c)]
    if k < 0.8:
        return "quad", [pt(0, 0), pt(r.uniform(0.4, 0.9), r.uniform(-0.4, 0.4)), pt(1, r.uniform(-0.3, 0.5))]
    return "cubic", [pt(0, 0), pt(0.35, r.uniform(-0.3, 0.3)), pt(0.7, r.uniform(-0.3, 0.3)), pt(1, 0)]


def build(seed, i):
    """A random construction with queries at random moments."""
    r = rng(seed, "build", i)
    ops, n, grouped = [], 0, 0
    for _ in range(r.randint(4, 26)):
        x = r.random()
        if x < 0.35 or n < 2:
            kind, pts = random_curve(r)
            ops.append(link_op(pts, r.choice([0.5, 3.0, 8.0, 13.9, 16.667, 27.5, round(r.uniform(1, 40), 3), round(r.uniform(0.1, 120), 3)]), kind))
            n += 1
        elif x < 0.8:
            a, b = r.randint(1, n), r.randint(1, n)
            ops.append(conn_op(a, b))
            if r.random() < 0.1:
                ops.append(conn_op(a, b))
        elif x < 0.9:
            m = r.randint(2, 5) if r.random() < 0.7 else r.randint(6, 16)
            sp = r.choice([8.0, 13.9])
            for k in range(m):
                ops.append(lane(k, 60.0, 500.0 * (grouped + 1), sp))
            ops.append(group_op(list(range(n + 1, n + m + 1)), [r.randint(0, 1) for _ in range(2 * m)]))
            n += m
            grouped += 1
        else:
            ops.append(NET)
    ops.append(NET)
    return {"id": "build%d" % i, "ops": ops}


def builds(seed, n):
    return [build(seed, i) for i in range(n)]
