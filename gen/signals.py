"""Signal plans: enumerated small plans and random larger ones."""
import itertools
from .common import rng

U = 100000  # 10 us per second


def scenario(sid, plan, steps):
    """plan: {"mv": [{c:[1-based], am, rd}], "ph": [{m:[...], d}]} in seconds."""
    mv = [{"conflict": sum(1 << (o - 1) for o in m["c"]), "amber": m["am"], "red": m["rd"], "links": []}
          for m in plan["mv"]]
    ph = [{"mask": sum(1 << (o - 1) for o in p["m"]), "dur": p["d"]} for p in plan["ph"]]
    hdr = {"mv": [{"c": m["c"], "am": int(round(m["am"] * U)), "rd": int(round(m["rd"] * U))} for m in plan["mv"]],
           "ph": [{"m": p["m"], "d": int(round(p["d"] * U))} for p in plan["ph"]]}
    ops = [{"op": "xlight", "movements": mv, "phases": ph}]
    ops += [{"op": "xlstep", "dt": dt, "n": n} for dt, n in steps]
    return {"id": sid, "plans": [hdr], "ops": ops}


def subsets(n):
    return [[i + 1 for i in range(n) if b >> i & 1] for b in range(1 << n)]


def enumerated(seed, count, full=False):
    """Every plan with two movements, up to two phases, over a small grid of
    times in units of one step of 0.25 s; a seeded slice of the same with three."""
    out = []
    q = 0.25
    conf2 = list(itertools.product([[], [2], [1, 2]], [[], [1]]))
    ams, rds, ds = [0, 2], [0, 1], [0, 2]
    times = list(itertools.product(ams, rds))
    masks = subsets(2)
    phs = [[]] + [[(m, d)] for m in masks for d in ds] + \
          [[(m, d), (n, e)] for m in masks for d in ds for n in masks for e in ds]
    combos = list(itertools.product(conf2, times, times, phs))
    r = rng(seed, "signals-enum", 0)
    r.shuffle(combos)
    if not full:
        combos = combos[:count]
    for i, (cf, t1, t2, ph) in enumerate(combos):
        plan = {"mv": [{"c": cf[0], "am": t1[0] * q, "rd": t1[1] * q}, {"c": cf[1], "am": t2[0] * q, "rd": t2[1] * q}],
                "ph": [{"m": m, "d": d * q} for m, d in ph]}
        out.append(scenario("enum%d" % i, plan, [(q, 30)]))
    return out


def off_grid(r, dt, hi):
    """A duration that no sum of steps dt comes close to."""
    k = r.randint(0, int(hi / dt))
    return round((k + r.choice([0.3, 0.5, 0.7])) * dt, 6)


def random_plan(seed, i):
    r = rng(seed, "signals", i)
    n = r.choice([1, 2, 3, 3, 4, 4, 5, 6, 8, 8, 12, 20, 40, 60])
    dyadic = r.random() < 0.6
    dt = r.choice([0.125, 0.25, 0.0625] if dyadic else [0.1, 0.05, 0.3, 0.02])
    dur = (lambda hi: r.randint(0, int(hi / dt)) * dt) if dyadic else (lambda hi: off_grid(r, dt, hi))
    big = 4.0 if n <= 8 else 2.0
    kind = r.choice(["safe", "safe", "safe", "asym", "any"])
    col = [r.randint(0, 3) for _ in range(n)]  # movements of the same colour go together
    conf = [set() for _ in range(n)]
    for a in range(n):
        for b in range(a + 1, n):
            if col[a] != col[b] and r.random() < 0.8:
                conf[a].add(b + 1)
                if kind == "safe" or r.random() < 0.6:
                    conf[b].add(a + 1)
    if kind == "any":
        for a in range(n):
            for b in range(n):
                if r.random() < 0.15:
                    conf[a].add(b + 1)
    many = i % 8 == 7
    if many:
        big = 0.3
    mv = [{"c": sorted(c), "am": dur(big), "rd": dur(big / 2)} for c in conf]
    ph = []
    for _ in range(r.randint(9, 20) if many else r.choice([0, 1, 2, 2, 3, 3, 4, 5])):
        c = r.randint(0, 3)
        if kind == "any" and r.random() < 0.5:
            m = [k + 1 for k in range(n) if r.random() < 0.4]
        else:
            m = [k + 1 for k in range(n) if col[k] == c and r.random() < 0.9]
            for k in range(n):  # overlaps: movements that conflict with none of these
                if k + 1 not in m and r.random() < 0.4 and all(
                        k + 1 not in conf[o - 1] and o not in conf[k] for o in m):
                    m.append(k + 1)
        ph.append({"m": sorted(m), "d": dur(big)})
    if dyadic and r.random() < 0.4:
        steps = [(r.choice([0.0625, 0.125, 0.25, 0.5]), r.randint(1, 30)) for _ in range(25)]
    else:
        steps = [(dt, int(60 / dt) if n <= 8 else int(30 / dt))]
    return scenario("rand%d" % i, {"mv": mv, "ph": ph}, steps)


def family(seed, n):
    return [random_plan(seed, i) for i in range(n)]
