"""Sequences of calls: those generated by TLC from module ApiGen, and random ones on random networks."""
import json, math, re
from . import junctions, planes, roads, ways
from .common import rng

BUILDING = ("link", "conn", "conv", "group", "control", "light")
BASES = (junctions.crossings, junctions.merges, junctions.squares, planes.changes, planes.bends, roads.signalleds,
         roads.forks, ways.laned, ways.graphs)

CURVES = {
    1: {"kind": "line", "pts": [[0.0, 0.0], [120.0, 0.0]], "speed": 13.9},
    2: {"kind": "line", "pts": [[0.0, -3.5], [120.0, -3.5]], "speed": 13.9},
    3: {"kind": "line", "pts": [[120.0, 0.0], [200.0, 0.0]], "speed": 10.0},
    4: {"kind": "line", "pts": [[120.0, -3.5], [200.0, -3.5]], "speed": 16.667},
    5: {"kind": "line", "pts": [[60.0, -50.0], [60.0, 40.0]], "speed": 12.5},
    6: {"kind": "quad", "pts": [[200.0, 0.0], [240.0, 0.0], [240.0, 40.0]], "speed": 8.0},
    7: {"kind": "cubic", "pts": [[240.0, 40.0], [240.0, 100.0], [-40.0, 100.0], [0.0, 0.0]], "speed": 13.9},
    8: {"kind": "line", "pts": [[200.0, -3.5], [202.0, -3.5]], "speed": 5.0},
}
CONTROLS = ("open", "closed", {"distance": 5.0, "must_stop": True, "priority": 0},
            {"distance": 3.0, "must_stop": False, "priority": 1})
SIZES = ([2.0, 4.5, 1.5, 1.5, 2.0, 2.0], [2.4, 12.0, 3.0, 1.0, 1.0, 1.5], [1.8, 3.0, 1.0, 2.0, 3.0, 3.0])


def behaviours(text):
    """The sequences printed by TLC; of those that differ only in the last call, the first."""
    out, seen = [], set()
    for m in re.finditer(r'<<\s*"BEH",(.*?>>)\s*>>(?=\s*(?:<<\s*"BEH"|[A-Z@]|$))', text, re.S):
        h = json.loads(m.group(1).replace("<<", "[").replace(">>", "]").replace("\n", " "))
        if len(h) < 10 or repr(h[:-1]) not in seen:
            out.append(h)
        seen.add(repr(h[:-1]))
    return out


def light(links, kind):
    if kind == 0:
        return {"op": "light", "movements": [], "phases": []}
    mv = [{"links": links, "conflict": 0, "amber": 1.0, "red": 1.0}]
    return {"op": "light", "movements": mv, "phases": [] if kind == 1 else [{"mask": 1, "dur": 3.0}, {"mask": 0, "dur": 2.0}]}


def scenario(sid, calls, built):
    """One sequence of calls of ApiGen as a scenario for the harness."""
    num, ops, lane = {}, [], {}

    def link(k):
        ops.append(dict(CURVES[k], op="link"))
        num[k] = len(num) + 1

    def group(k, mask):
        ops.append({"op": "group", "links": [num[k], num[k + 1]], "mask": mask})
        lane[num[k]], lane[num[k + 1]] = num[k + 1], num[k]

    if built:
        for k in sorted(CURVES):
            link(k)
        for k, m in ((1, 3), (2, 4), (3, 6), (6, 7), (4, 8), (7, 1)):
            ops.append({"op": "conn", "a": num[k], "b": num[m]})
        group(1, 15)
        group(3, 15)
    for c in calls:
        k = c[0]
        if k == "link":
            link(c[1])
        elif k in ("conn", "conv"):
            ops.append({"op": k, "a": num[c[1]], "b": num[c[2]]})
        elif k == "group":
            group(c[1], c[2])
        elif k == "control":
            ops.append({"op": "control", "link": num[c[1]], "c": CONTROLS[c[2]]})
        elif k == "light":
            ops.append(light([num[c[1]]], c[2]))
        elif k == "add":
            ops.append({"op": "add", "v": c[1], "link": num[c[2]], "attr": SIZES[c[1] % 3]})
        elif k == "dest":
            ops.append({"op": "dest", "v": c[1], "link": num[c[2]]})
        elif k == "freeze":
            ops.append({"op": "freeze", "v": c[1], "on": c[2] == 1})
        elif k == "remove":
            ops.append({"op": "remove", "v": c[1]})
        elif k == "lane":
            ops.append({"op": "beside", "v": c[1], "dist": 25.0, "lanes": sorted(lane.items())})
        elif k == "adjust":
            ops.append({"op": "adjust", "stddev": 0.1})
        elif k == "step":
            ops.append({"op": "run", "dt": 0.15, "n": c[1]})
    ops.append({"op": "run", "dt": 0.2, "n": 150})
    return {"id": sid, "links": len(num), "ops": ops}


def scenarios(text, label, built):
    return [scenario("%s%d" % (label, i), c, built) for i, c in enumerate(behaviours(text))]


REACH = 700.0  # metres the simulation may look back along the network


def size(op):
    """About the length of a link."""
    q = op["pts"]
    return q[1] * abs(q[3] - q[2]) if op["kind"] == "arc" else sum(math.dist(a, b) for a, b in zip(q, q[1:]))


def walks(into, length, limit=2000):
    """Whether there are few ways of walking back from each link: the simulation follows them all."""
    for k in range(1, len(length) + 1):
        todo, seen = [(k, 0.0)], 0
        while todo:
            a, d = todo.pop()
            seen += 1
            if seen > limit:
                return False
            todo += [(b, d + length[b - 1]) for b in into.get(a, ()) if d + length[b - 1] < REACH]
    return True


def wild(seed, i):
    """Random networks of all kinds of links and a lot of calls."""
    r = rng(seed, "wild", i)
    ops, n, lane, into, length, rows = [], 0, {}, {}, [], []

    def curve():
        x, y, th = r.uniform(-100, 100), r.uniform(-100, 100), r.uniform(-3.1, 3.1)
        d = r.choice([0.6, 1.0, 2.0, 5.0, 20.0, 60.0, 150.0])
        p = lambda f, o: [x + f * d * math.cos(th + o), y + f * d * math.sin(th + o)]
        k = r.choice(["line", "line", "arc", "quad", "cubic"])
        if k == "line":
            pts = [[x, y], p(1, 0)]
        elif k == "arc":
            pts = [[x, y], max(2.0, d / 2), th, th + r.choice([-1, 1]) * r.uniform(0.3, 3.0)]
        elif k == "quad":
            pts = [[x, y], p(0.5, 0), p(1, r.uniform(-0.8, 0.8))]
        else:
            pts = [[x, y], p(0.35, 0), p(0.7, r.uniform(-0.6, 0.6)), p(1, r.uniform(-0.8, 0.8))]
        return {"op": "link", "kind": k, "pts": pts, "speed": r.choice([1.0, 5.0, 8.0, 13.9, 27.8])}

    def link(op):
        nonlocal n
        ops.append(op)
        length.append(size(op))
        n += 1
        return n

    def lanes():
        m, d, x, y = r.randint(2, 4), r.choice([10.0, 60.0, 150.0]), r.uniform(-50, 50), r.uniform(-50, 50)
        th, sp = r.uniform(-3.1, 3.1), r.choice([8.0, 13.9])
        ls = []
        for j in range(m):
            px, py = x + 3.5 * j * math.sin(th), y - 3.5 * j * math.cos(th)
            e = d if j == 0 or r.random() < 0.7 else 0.8 * d
            ls.append(link({"op": "link", "kind": "line", "pts": [[px, py], [px + e * math.cos(th), py + e * math.sin(th)]], "speed": sp}))
        ops.append({"op": "group", "links": ls, "mask": r.getrandbits(2 * m)})
        for a, b in zip(ls, ls[1:]):
            lane[a], lane[b] = b, a

    def row():
        m, d, y = r.randint(9, 20), r.choice([3.0, 8.0, 15.0]), r.uniform(-50, 50)
        sp = r.choice([8.0, 13.9, 27.8])
        for j in range(m):
            link({"op": "link", "kind": "line", "pts": [[d * j, y], [d * (j + 1), y]], "speed": sp})
            if j:
                into.setdefault(n, []).append(n - 1)
                ops.append({"op": "conn", "a": n - 1, "b": n})
        rows.append((n - m + 1, n))

    def build():
        k = r.random()
        if k < 0.45 or n < 2:
            link(curve())
        elif k < 0.6:
            lanes()
        elif k < 0.9:
            a, b = r.randint(1, n), r.randint(1, n)
            into.setdefault(b, []).append(a)
            if walks(into, length):
                ops.append({"op": "conn", "a": a, "b": b})
            else:
                into[b].pop()
        else:
            ops.append({"op": "conv", "a": r.randint(1, n), "b": r.randint(1, n)})

    if i % 2:
        # Start from a network of another family
        for o in BASES[i // 2 % len(BASES)](seed + 1000 * i, 7)[r.randrange(7)]["ops"]:
            if o["op"] not in BUILDING:
                break
            if o["op"] == "link":
                link(o)
                continue
            ops.append(o)
            if o["op"] == "conn":
                into.setdefault(o["b"], []).append(o["a"])
            if o["op"] == "group":
                for a, b in zip(o["links"], o["links"][1:]):
                    lane[a], lane[b] = b, a
    for _ in range(r.randint(0, 4 if i % 2 else 20)):
        build()
    if i % 3 == 2:
        row()
    v = 0
    for _ in range(r.randint(10, 60)):
        k = r.random()
        if n == 0 or k < 0.08:
            build()
        elif k < 0.25:
            v += 1
            a = [r.choice([0.5, 2.0, 3.0]), r.choice([0.5, 4.0, 18.0]), r.choice([0.3, 1.5, 6.0]), r.choice([0.1, 1.5, 3.0]),
                 r.choice([0.2, 2.0, 5.0]), r.choice([0.5, 2.0, 6.0])]
            if rows and r.random() < 0.4:
                ops.append({"op": "add", "v": v, "link": rows[0][0], "attr": a})
                ops.append({"op": "dest", "v": v, "link": rows[0][1]})
                continue
            ops.append({"op": "add", "v": v, "link": r.randint(1, n), "attr": a})
            if r.random() < 0.8:
                ops.append({"op": "dest", "v": v, "link": r.randint(1, n)})
        elif k < 0.32 and v:
            ops.append({"op": "dest", "v": r.randint(1, v), "link": r.randint(1, n)})
        elif k < 0.4 and v:
            ops.append({"op": "freeze", "v": r.randint(1, v), "on": r.random() < 0.6})
        elif k < 0.46 and v:
            ops.append({"op": "remove", "v": r.randint(1, v)})
        elif k < 0.52 and v:
            ops.append({"op": "beside", "v": r.randint(1, v), "dist": r.choice([1.0, 10.0, 40.0]), "lanes": sorted(lane.items())})
        elif k < 0.6:
            c = r.choice(["open", "closed", {"distance": r.choice([0.0, 3.0, 50.0]), "must_stop": r.random() < 0.5,
                                             "priority": r.choice([-128, -1, 0, 1, 127])}])
            ops.append({"op": "control", "link": r.randint(1, n), "c": c})
        elif k < 0.64:
            op = light(r.sample(range(1, n + 1), r.randint(0, min(n, 3))), r.randint(0, 2))
            if r.random() < 0.3:
                # as many movements as there can be
                for k in range(1, r.choice([8, 33, 64])):
                    op["movements"].append({"links": [], "conflict": r.getrandbits(64), "amber": 1.0, "red": 0.0})
                op["phases"].append({"mask": r.getrandbits(64), "dur": 1.0})
            ops.append(op)
        elif k < 0.66:
            ops.append({"op": "adjust", "stddev": r.choice([0.0, 0.1, 1.0])})
        elif k < 0.68:
            ops.append({"op": "net"})
        else:
            ops.append({"op": "run", "dt": r.choice([0.001, 0.02, 0.1, 0.15, 0.2]), "n": r.choice([1, 5, 30, 100])})
    ops.append({"op": "run", "dt": 0.2, "n": 300})
    return {"id": "wild%d" % i, "links": n, "ops": ops}


def wilds(seed, n):
    return [wild(seed, i) for i in range(n)]
