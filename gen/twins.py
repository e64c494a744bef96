"""Pairs of runs: the same calls again, and the same calls with unrelated ones in between."""
import copy
from .common import rng
from . import junctions, planes, roads, ways

BUILD = ("link", "conn", "conv", "group", "light")
LINKS = ("link", "a", "b", "on", "dest")


def moved(op, links, vehicles):
    """The operation on links and vehicles renumbered."""
    op = copy.deepcopy(op)
    for k in LINKS:
        if type(op.get(k)) is int:
            op[k] += links
    if op["op"] == "group":
        op["links"] = [a + links for a in op["links"]]
    if op["op"] == "light":
        for m in op["movements"]:
            m["links"] = [a + links for a in m["links"]]
    if "v" in op:
        op["v"] += vehicles
    return op


def count(ops, kind):
    return sum(o["op"] == kind for o in ops)


def crowd(r):
    """Many vehicles, each on a road of its own, all there from the beginning."""
    n = r.choice([20, 40, 80])
    ops = [{"op": "link", "kind": "line", "pts": [[0.0, 5000.0 + 20 * k], [300.0, 5000.0 + 20 * k]],
            "speed": r.choice([3.0, 10.0])} for k in range(n)]
    return {"now": True, "ops": ops + [{"op": "add", "v": k, "link": k, "attr": roads.attrs(r)} for k in range(1, n + 1)]}


def shift(r):
    """Many vehicles that all have to change lanes, each on a road of its own."""
    n, d = r.choice([10, 30]), r.choice([80.0, 250.0])
    ops, late = [], []
    for k in range(n):
        y = 9000.0 + 30 * k
        for a, b in (([0.0, y], [d, y]), ([0.0, y - 3.5], [d, y - 3.5]), ([d, y - 3.5], [d + 50.0, y - 3.5])):
            ops.append({"op": "link", "kind": "line", "pts": [a, b], "speed": r.choice([3.0, 10.0]) if a[0] else 10.0})
    for k in range(n):
        ops += [{"op": "group", "links": [3 * k + 1, 3 * k + 2], "mask": 15}, {"op": "conn", "a": 3 * k + 2, "b": 3 * k + 3}]
        late += [{"op": "add", "v": k + 1, "link": 3 * k + 1, "attr": roads.attrs(r)}, {"op": "dest", "v": k + 1, "link": 3 * k + 3}]
    return {"now": True, "ops": ops + late}


def lanes(seed, i):
    """A road with lanes, whose vehicles come one after another."""
    s = ways.lanes(seed, i)
    ops = [dict(o, n=min(o["n"], 120)) if o["op"] == "step" else o for o in s["ops"] if o["op"] not in ("drain", "remove")]
    return dict(s, ops=ops)


def weave(r, base, other, first):
    """Base with the calls of another scenario in between; its links are created before or
    after those of base, its signals before."""
    nb, no = count(base["ops"], "link"), count(other["ops"], "link")
    mine = [moved(o, no if first else 0, 0) for o in base["ops"]]
    theirs = [dict(moved(o, 0 if first else nb, 100), mute=True) for o in other["ops"] if o["op"] not in ("step", "approach", "drain")]
    theirs = [o for o in theirs if o["op"] != "net"]
    built = [o for o in theirs if o["op"] in BUILD]
    rest = [o for o in theirs if o["op"] not in BUILD]
    if "now" in other:
        built, rest = built + rest, []
    ops = list(built) if first else []
    later = [] if first else list(built)
    run = False
    for o in mine:
        if o["op"] != "link" and later and not run and count(ops, "link") == nb:
            ops += later
            later = []
        if o["op"] == "step":
            run = True
            n = o.get("n", 1)
            while n > 0:
                k = min(n, r.randint(1, 12))
                ops.append(dict(o, n=k))
                n -= k
                for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
                    if rest:
                        ops.append(rest.pop(0))
        else:
            ops.append(o)
            if run and rest and r.random() < 0.5:
                ops.append(rest.pop(0))
    return dict(base, ops=ops, k=no if first else 0, n=nb, lk=count(built, "light"))


one = lambda family: lambda seed, i: family(seed, 7)[i % 7]
FAMILIES = (roads.chain, roads.tree, roads.fork, roads.signalled, one(junctions.crossings), one(junctions.merges), planes.change,
            lanes)


def group(seed, i):
    r = rng(seed, "twin", i)
    pick = lambda family: family(seed + 7 * i, r.randint(0, 1000))
    base = pick(FAMILIES[i % len(FAMILIES)])
    base = {"id": "twin%d" % i, "ops": base["ops"], "bits": True}
    zero = dict(k=0, lk=0, n=count(base["ops"], "link"))
    out = [dict(base, **zero), dict(base, id=base["id"] + "r", base=base["id"], **zero)]
    for j, first in enumerate((True, False)):
        other = pick(r.choice(FAMILIES))
        # a second copy of the same traffic interferes most if it does at all
        if first and i % len(FAMILIES) == 7:
            other = shift(r)
        elif r.random() < 0.3:
            other = base
        elif r.random() < 0.4:
            other = r.choice([crowd, shift])(r)
        out.append(dict(weave(r, base, other, first), id="%sx%d" % (base["id"], j), base=base["id"]))
    return out


def groups(seed, n):
    return [s for i in range(n) for s in group(seed, i)]


def brief(e):
    """Rows as number, link, destination, stopped and the check sum of all the rest."""
    cut = lambda r: [r[0], r[1], r[16], r[15], r[-1]]
    e = dict(e)
    if "V" in e:
        e["V"] = [cut(r) for r in e["V"]]
    if "row" in e:
        e["row"] = cut(e["row"])
    return e


def pair(traces):
    """Each run next to the one it is compared with."""
    by = {t["id"]: t for t in traces}
    out = []
    for t in traces:
        if "base" not in t:
            continue
        a, b = [[brief(e) for e in x["ev"]] for x in (by[t["base"]], t)]
        n = max(len(a), len(b))
        gone = {"e": "gone"}
        ev = [{"a": a[i] if i < len(a) else gone, "b": b[i] if i < len(b) else gone} for i in range(n)]
        out.append({"id": t["base"], "twin": t["id"], "k": t["k"], "lk": t["lk"], "n": t["n"], "ev": ev})
    return out
