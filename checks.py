"""What each check does: which specification, which scenarios, which invariants."""
from check import stage_mc, stage_trace
from gen import calls, junctions, networks, planes, roads, signals, speeds, twins, ways

CHECKS, POST = {}, {}


def check(prop, required=()):
    def deco(f):
        f.required = required
        CHECKS[prop] = f
        return f
    return deco


# --- signals ---------------------------------------------------------------

SIGNAL_MC = """SPECIFICATION Spec
CONSTANTS NM = %d  Ambers = %s  Reds = %s  Durs = %s  MaxPhases = %d  Steps = %s  OnlySafe = %s
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK NoConflictReleased NoPhasesStaysRed
PROPERTIES %s
"""


def signal_counters(traces):
    c = {"released": 0, "amber_started": 0, "amber_ended": 0, "back_to_green": 0, "blocked_red_steps": 0}
    names = {(0, 2): "released", (2, 1): "amber_started", (1, 0): "amber_ended", (1, 2): "back_to_green"}
    for t in traces:
        prev = None
        for e in t["ev"]:
            for k, s in enumerate(e.get("S", [])):
                for m, x in enumerate(s):
                    if prev and (prev[k][m], x) in names:
                        c[names[prev[k][m], x]] += 1
            prev = e.get("S", prev)
    del c["blocked_red_steps"]
    return c


def signal_check(prop, step):
    def f(ctx):
        stage_mc(ctx, "SignalMC", SIGNAL_MC % (2, "{0, 2}", "{0, 1}", "{0, 2}", 2, "{1}", "FALSE", step))
        if prop == "C03":
            stage_mc(ctx, "SignalMC", SIGNAL_MC % (2, "{0, 1}", "{0, 1}", "{1}", 2, "{1}", "TRUE", "Progress Served"))
        if not ctx.quick:
            stage_mc(ctx, "SignalMC", SIGNAL_MC % (3, "{1}", "{1}", "{1}", 2, "{1, 2}", "TRUE", step))
        stage_trace(ctx, "signals_enumerated", "SignalTrace", [prop],
                    signals.enumerated(ctx.seed, 1500, full=not ctx.quick), signal_counters)
        stage_trace(ctx, "signals_random", "SignalTrace", [prop], signals.family(ctx.seed, ctx.n(120, 1500)),
                    signal_counters, batch=400)
    check(prop, ("released", "amber_started", "amber_ended", "back_to_green"))(f)


signal_check("C01", "C01Step")
signal_check("C02", "C02Step")
signal_check("C03", "C03Step")


# --- traffic on single lanes -------------------------------------------------

TRAFFIC = """CONSTANTS TolPos = 5 TolVel = 2 TolAcc = 40 TolZone = 300 TolTime = 25
VIEW Key
ALIAS Shown
"""

FAMILIES = {
    "chain": roads.chains,
    "tree": roads.trees,
    "fork": roads.forks,
    "signalled": roads.signalleds,
    "crossing": junctions.crossings,
    "merge": junctions.merges,
    "square": junctions.squares,
    "blocked": junctions.blockeds,
    "oblique": junctions.obliques,
    "parallel": roads.parallels,
    "swarm": roads.swarms,
    "tiny": roads.tinies,
}


def traffic_counters(traces):
    """What the runs exercised, so that an idle run is noticed."""
    c = dict.fromkeys(("link_changes", "departures", "standing", "full_braking", "frozen_calls", "removals",
                       "entries_closed", "entries_opened", "destination_changes", "stop_entries", "give_way_entries"), 0)
    for t in traces:
        prev, ctl = {}, {}
        for e in t["ev"]:
            k = e["e"]
            if k == "step":
                now = {r[0]: r for r in e["V"]}
                for v, r in now.items():
                    p = prev.get(v)
                    if p and p[1] != r[1]:
                        c["link_changes"] += 1
                        x = ctl.get(r[1], [0, 0, 0, 0])
                        c["stop_entries"] += x[0] == 1 and x[2] == 1
                        c["give_way_entries"] += x[0] == 1
                    c["standing"] += r[3] == 0
                    c["full_braking"] += -7000 < r[4] <= -5999
                c["departures"] += len(set(prev) - set(now))
                prev = now
            elif k == "control":
                c["entries_closed" if e["c"][0] == 2 else "entries_opened"] += 1
                ctl[e["link"]] = e["c"]
            elif k == "freeze":
                c["frozen_calls"] += 1
            elif k == "remove":
                c["removals"] += 1
                prev = {r[0]: r for r in e["V"]}
            elif k == "dest":
                c["destination_changes"] += 1
            elif k == "panic":
                c["panics"] = c.get("panics", 0) + 1
    return c


def traffic_check(prop, families, required, also=None):
    """families: name -> scenarios in the quick tier (ten times as many otherwise)."""
    def f(ctx):
        for name, n in families.items():
            stage_trace(ctx, name, "TrafficTrace", [prop], FAMILIES[name](ctx.seed, ctx.n(n, 10 * n)), traffic_counters,
                        consts=TRAFFIC, batch=150)
        if also:
            also(ctx)
    check(prop, required)(f)


FOLLOW_MC = """SPECIFICATION Spec
CONSTANTS Drivers = {1, 2, 3, 4} Gaps = {2000, 5000, 60000} Every = 150000 Horizon = 2000000
          Changes = %d Limits = %s Steps = %s
CHECK_DEADLOCK FALSE
INVARIANTS Apart Bounded Settles
"""

traffic_check("C04", {"chain": 60, "tree": 30, "signalled": 40, "crossing": 21, "fork": 160}, ("entries_closed", "link_changes", "standing"))
traffic_check("C05", {"signalled": 90}, ("link_changes", "standing"))
traffic_check("C06", {"tree": 60, "crossing": 49, "merge": 28, "fork": 200}, ("stop_entries", "standing"))
traffic_check("C07", {"crossing": 72, "oblique": 16, "merge": 48, "square": 24, "blocked": 60}, ("give_way_entries", "standing"))
traffic_check("C08", {"crossing": 63, "oblique": 16, "merge": 49, "square": 28}, ("give_way_entries", "standing"))
traffic_check("C10", {"chain": 90, "tree": 60, "parallel": 24, "tiny": 30}, ("link_changes", "full_braking", "frozen_calls", "removals"),
              also=lambda ctx: stage_mc(ctx, "FollowMC", FOLLOW_MC % (
                  (3, "{5000, 14000, 30000}", "{10000, 20000}") if ctx.quick
                  else (4, "{5000, 9000, 14000, 22000, 30000}", "{2500, 10000, 20000}"))))
traffic_check("C12", {"chain": 60, "tree": 30, "crossing": 21, "merge": 14, "tiny": 30}, ("link_changes", "full_braking", "standing"))
traffic_check("C13", {"chain": 90, "tree": 60}, ("link_changes",))
traffic_check("C14", {"chain": 60, "tree": 60, "parallel": 40}, ("link_changes",))
traffic_check("C15", {"chain": 60, "tree": 60, "merge": 21, "fork": 120, "tiny": 40},
              ("link_changes", "departures", "destination_changes", "lane_changes"),
              also=lambda ctx: stage_trace(ctx, "laned", "RouteTrace", ["C15"], ways.laned(ctx.seed, ctx.n(80, 1000)),
                                           route_counters, consts=ROUTE, batch=300))
traffic_check("C16", {"chain": 60, "tree": 60, "fork": 160, "parallel": 40, "swarm": 6}, ("departures", "destination_changes"))
traffic_check("C18", {"chain": 90, "tree": 30, "swarm": 12}, ("departures", "removals", "frozen_calls", "generated_sequences"),
              also=lambda ctx: call_stages(ctx, "C18", 2))
traffic_check("C19", {"chain": 120}, ("frozen_calls", "full_braking", "generated_sequences"),
              also=lambda ctx: call_stages(ctx, "C19", 2))
traffic_check("C30", {"chain": 70, "tree": 50, "merge": 21, "fork": 60, "parallel": 24, "tiny": 30}, ("link_changes", "full_braking"))


# --- networks as declared ----------------------------------------------------

TOPOLOGY_MC = """SPECIFICATION Spec
CONSTANTS MaxLinks = %d MaxConns = %d MaxLanes = %d
CHECK_DEADLOCK FALSE
INVARIANTS Lanes Isolated Both
PROPERTY Monotone
"""


def topology_counters(traces):
    c = dict.fromkeys(("connections", "loops", "lane_changes", "routes", "queries"), 0)
    for t in traces:
        for e in t["ev"]:
            if e["e"] == "conn":
                c["connections"] += 1
                c["loops"] += e["a"] == e["b"]
            elif e["e"] == "net":
                c["queries"] += 1
                c["routes"] += len(e["net"]["routes"])
                c["lane_changes"] += sum(len(x["lc"]) for x in e["net"]["links"])
    return c


def topology_check(prop, required):
    def f(ctx):
        stage_mc(ctx, "TopologyMC", TOPOLOGY_MC % ((3, 2, 3) if ctx.quick else (4, 3, 4)))
        for label, scs in (("digraph", networks.digraphs(2) + networks.digraphs(3)),
                           ("lanes", [s for n in ctx.n((2, 3, 4), (2, 3, 4, 5)) for s in networks.lane_groups(ctx.seed, n)]),
                           ("build", networks.builds(ctx.seed, ctx.n(600, 6000)))):
            stage_trace(ctx, label, "TopologyTrace", [prop], scs, topology_counters, consts="VIEW Key\n")
    check(prop, required)(f)


topology_check("C20", ("routes", "loops"))
topology_check("C21", ("lane_changes",))
topology_check("C28", ("connections", "queries"))


# --- finding the way ---------------------------------------------------------

ROUTE = "CONSTANT PlanTime = 50000\nVIEW Key\nALIAS Shown\n"


def route_counters(traces):
    c = dict.fromkeys(("moves", "lane_changes", "departures", "destinations"), 0)
    for t in traces:
        prev = {}
        for e in t["ev"]:
            if e["e"] == "step":
                now = {r[0]: r[1] for r in e["V"]}
                for v, a in now.items():
                    b = prev.get(v, a)
                    c["moves"] += b != a and a in t["out"][b - 1]
                    c["lane_changes"] += b != a and a not in t["out"][b - 1]
                c["departures"] += len(set(prev) - set(now))
                prev = now
            elif e["e"] == "add":
                prev[e["v"]] = e["row"][1]
            elif e["e"] == "remove":
                prev = {r[0]: r[1] for r in e["V"]}
            c["destinations"] += e["e"] == "dest"
    return c


@check("C17", ("moves", "departures", "destinations"))
def c17(ctx):
    stage_trace(ctx, "graph", "RouteTrace", ["C17"], ways.graphs(ctx.seed, ctx.n(240, 3000)), route_counters,
                consts=ROUTE, batch=300)
    stage_trace(ctx, "told", "RouteTrace", ["C17"], ways.tolds(ctx.seed, ctx.n(60, 600)), route_counters,
                consts=ROUTE, batch=300)


@check("C24", ("moves", "departures", "lane_changes"))
def c24(ctx):
    stage_trace(ctx, "graph", "RouteTrace", ["C24"], ways.graphs(ctx.seed, ctx.n(60, 600)), route_counters,
                consts=ROUTE, batch=300)
    stage_trace(ctx, "laned", "RouteTrace", ["C24"], ways.laned(ctx.seed, ctx.n(240, 3000)), route_counters,
                consts=ROUTE, batch=300)


# --- in the plane ------------------------------------------------------------

GEOM = "CONSTANTS TolAt = 30 TolCurve = 60 TolBent = 250 TolJump = 60 Margin = 2\nVIEW Key\n"


def geom_counters(traces):
    c = dict.fromkeys(("moves", "lane_changes", "told_changes", "stopped_between", "bent_rows", "standing"), 0)
    for t in traces:
        prev = {}
        for e in t["ev"]:
            if e["e"] == "step":
                now = {r[0]: r[1] for r in e["V"]}
                for r in e["V"]:
                    b = prev.get(r[0], r[1])
                    c["moves"] += b != r[1] and r[1] in t["out"][b - 1]
                    c["lane_changes"] += b != r[1] and r[1] not in t["out"][b - 1]
                    c["stopped_between"] += r[3] == 0 and abs(r[17]) > 300
                    c["bent_rows"] += not t["straight"][r[1] - 1]
                    c["standing"] += r[3] == 0
                prev = now
            elif e["e"] in ("add", "lane"):
                prev[e["v"]] = e["row"][1]
                c["told_changes"] += e["e"] == "lane"
            elif e["e"] == "remove":
                prev = {r[0]: r[1] for r in e["V"]}
    return c


PLANES = {
    "bend": planes.bends,
    "change": planes.changes,
    "astride": planes.astrides,
    "crossing": lambda seed, n: planes.meeting(junctions.crossings(seed, n)),
    "merge": lambda seed, n: planes.meeting(junctions.merges(seed, n)),
    "square": lambda seed, n: planes.meeting(junctions.squares(seed, n)),
    "blocked": lambda seed, n: planes.meeting(junctions.blockeds(seed, n)),
    "oblique": lambda seed, n: planes.meeting(junctions.obliques(seed, n)),
}


def geom_check(prop, families, required):
    def f(ctx):
        for name, n in families.items():
            stage_trace(ctx, name, "GeomTrace", [prop], PLANES[name](ctx.seed, ctx.n(n, 10 * n)), geom_counters,
                        consts=GEOM, batch=200)
    check(prop, required)(f)


geom_check("C11", {"crossing": 96, "oblique": 96, "merge": 80, "square": 40, "blocked": 240}, ("moves", "standing"))
geom_check("C22", {"change": 200, "astride": 60}, ("lane_changes", "told_changes", "bent_rows", "moves"))
geom_check("C23", {"bend": 200, "change": 40, "crossing": 14}, ("bent_rows", "moves"))
geom_check("C26", {"astride": 240}, ("told_changes", "stopped_between", "bent_rows", "standing"))


# --- clearing a junction -----------------------------------------------------

JUNCTION_MC = """SPECIFICATION Spec
CONSTANTS Approaches = %s Conflicts = %s Vehicles = %d Priorities = %s
CHECK_DEADLOCK FALSE
INVARIANTS Exclusive NoLockUp
PROPERTIES Passes InOrder
"""
ROUND, ALL_PAIRS = "{{1, 2}, {2, 3}, {3, 4}, {4, 1}}", "{{1, 2}, {1, 3}, {1, 4}, {2, 3}, {2, 4}, {3, 4}}"
CLEAR = "CONSTANTS Base = 6000000 PerVehicle = 1200000\nVIEW Key\n"


def clear_counters(traces):
    c = dict.fromkeys(("cleared", "vehicles", "four_approaches"), 0)
    for t in traces:
        c["cleared"] += any(e["e"] == "drain" for e in t["ev"])
        c["vehicles"] += sum(e["e"] == "add" for e in t["ev"])
        c["four_approaches"] += "square" in t["id"]
    return c


@check("C09", ("cleared", "vehicles", "four_approaches"))
def c09(ctx):
    stage_mc(ctx, "JunctionMC", JUNCTION_MC % ("{1, 2}", "{{1, 2}}", 3, "{0, 1}"))
    stage_mc(ctx, "JunctionMC", JUNCTION_MC % ("{1, 2, 3, 4}", ROUND, 1, "{0, 1, 2}"))
    if not ctx.quick:
        stage_mc(ctx, "JunctionMC", JUNCTION_MC % ("{1, 2, 3, 4}", ROUND, 2, "{0, 1, 2}"))
        stage_mc(ctx, "JunctionMC", JUNCTION_MC % ("{1, 2, 3, 4}", ALL_PAIRS, 2, "{0, 1, 2}"))
    stage_trace(ctx, "cleared", "ClearTrace", ["C09"], junctions.cleared(ctx.seed, ctx.n(2400, 20000)), clear_counters,
                consts=CLEAR)


# --- repeated and unrelated runs ---------------------------------------------

POST["TwinTrace"] = twins.pair


def twin_counters(traces):
    return {"repeated": sum(t["twin"].endswith("r") for t in traces), "unrelated": sum("x" in t["twin"] for t in traces)}


@check("C25", ("repeated", "unrelated"))
def c25(ctx):
    stage_trace(ctx, "twins", "TwinTrace", ["C25"], twins.groups(ctx.seed, ctx.n(48, 400)), twin_counters,
                consts="VIEW Key\nALIAS Shown\n", batch=160, post=twins.pair)


# --- sequences of calls ------------------------------------------------------

API_GEN = """SPECIFICATION Spec
CONSTANTS Length = %d Built = %s Vehicles = %s Catalogue = {1, 2, 3, 4, 5, 6, 7, 8} Targets = %s
CHECK_DEADLOCK FALSE
INVARIANTS Valid Emit
"""


def call_counters(traces):
    c = dict.fromkeys(("vehicles_added", "vehicles_removed", "vehicles_frozen", "lane_changes_told", "signals_made"), 0)
    names = {"add": "vehicles_added", "remove": "vehicles_removed", "freeze": "vehicles_frozen", "lane": "lane_changes_told",
             "light": "signals_made"}
    for t in traces:
        for e in t["ev"]:
            if e["e"] in names:
                c[names[e["e"]]] += 1
    return c


def call_stages(ctx, prop, length):
    """Every short sequence of calls and some long random ones, all generated from the specification."""
    text = stage_mc(ctx, "ApiGen", API_GEN % (length, "TRUE", "{1, 2}", "{2, 3, 7}"), extra=("-workers", "1"))
    every = calls.scenarios(text, "every", True)
    text = stage_mc(ctx, "ApiGen", API_GEN % (60, "FALSE", "{1, 2, 3, 4}", "{1, 2, 3, 4, 5, 6, 7, 8}"),
                    extra=("-simulate", "num=%d" % ctx.n(400, 4000), "-depth", "61", "-seed", str(ctx.seed), "-workers", "1"))
    long = calls.scenarios(text, "long", False)
    for label, scs in (("every", every), ("long", long), ("wild", calls.wilds(ctx.seed, ctx.n(1500, 20000)))):
        stage_trace(ctx, label, "ApiTrace", [prop], scs, call_counters, consts="VIEW Key\n", batch=40000)
        if label != "wild":
            ctx.count("generated_sequences", len(scs))


@check("C27", ("generated_sequences", "vehicles_added", "vehicles_removed", "vehicles_frozen", "lane_changes_told", "signals_made"))
def c27(ctx):
    call_stages(ctx, "C27", 3)


# --- desired speeds ----------------------------------------------------------

ADJUST = """CONSTANTS Low = 750 High = 1250 Tol = 12 Settling = 4000000 Start = 1500000 Finish = 400000
CONSTANTS Wide = 150 TooWide = 200 Many = 9
VIEW Key
"""


def adjust_counters(traces):
    c = dict.fromkeys(("draws", "settled_rows"), 0)
    for t in traces:
        for e in t["ev"]:
            c["draws"] += e["e"] == "adjust"
            c["settled_rows"] += len(e["V"]) if e["e"] == "run" and e["n"] >= 400 else 0
    return c


@check("C29", ("draws", "settled_rows"))
def c29(ctx):
    stage_trace(ctx, "adjusted", "AdjustTrace", ["C29"], speeds.adjusteds(ctx.seed, ctx.n(600, 6000)), adjust_counters,
                consts=ADJUST)
