#!/usr/bin/env python3
"""Decides one property of the traffic simulation.

    check.py C01 [--tier quick|thorough]
    check.py --setup            build the harness and parse the specifications
    check.py --replay FILE      run one recorded scenario again and validate it

Every stage of a check either model checks a specification on its own ("mc") or
generates scenarios, runs them in the real crate through the harness and has TLC
validate the recorded traces ("trace").  Exit 0: held, 1: violated (a line
VIOLATION property=.. replay=..), 2: the check itself failed.
"""
import argparse, fcntl, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
HARNESS = os.path.join(ROOT, "harness", "target", "release", "traffic-harness")


class CheckError(Exception):
    pass


def build():
    with open(__file__) as lock:
        # checks that run side by side build one after another
        fcntl.flock(lock, fcntl.LOCK_EX)
        # cargo judges staleness by mtime only: forget what was built from /repo before
        for prof in ("release",):
            fp = os.path.join(ROOT, "harness", "target", prof, ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("traffic-"):
                        shutil.rmtree(os.path.join(fp, d))
        p = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(ROOT, "harness"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("harness build failed:\n" + p.stdout[-4000:])


def run_harness(scenarios, tmp, name, watchdog=30):
    src, dst = os.path.join(tmp, name + ".scn"), os.path.join(tmp, name + ".ndjson")
    with open(src, "w") as f:
        for s in scenarios:
            f.write(json.dumps(s) + "\n")
    p = subprocess.run([HARNESS, src, dst, str(watchdog)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("harness failed:\n" + p.stdout[-2000:])
    with open(dst) as f:
        return [json.loads(x) for x in f]


def write_traces(traces, tmp, name):
    dst = os.path.join(tmp, name + ".ndjson")
    with open(dst, "w") as f:
        for t in traces:
            f.write(json.dumps(t) + "\n")
    return dst


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")


def run_tlc(module, cfg, tmp, env=None, extra=(), timeout=840, heap="6g"):
    """Runs TLC; returns (outcome, text, generated, distinct), outcome "ok", "violation" or "undefined"."""
    name = "%s_%d" % (module, run_tlc.n)
    run_tlc.n += 1
    cpath = os.path.join(tmp, name + ".cfg")
    with open(cpath, "w") as f:
        f.write(cfg)
    out = os.path.join(tmp, name + ".out")
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + tmp,
           "-cp", JARS, "tlc2.TLC", "-workers", "auto",
           "-noGenerateSpecTE", "-nowarning", "-metadir", os.path.join(tmp, name + ".meta"), "-config", cpath]
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    with open(out, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
    with open(out) as f:
        text = f.read()
    m = STATS.findall(text)
    gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if rc == 0 and "No error has been found" in text:
        return "ok", text, gen, dis
    if rc == 0 and "-simulate" in extra and "Error:" not in text:
        m = re.findall(r"The number of states generated: (\d+)", text)
        return "ok", text, int(m[-1]), int(m[-1])
    if rc in (12, 13) and re.search(r"Invariant \S+ is violated|Action property .* is violated|[Tt]emporal properties were violated|property .* violated", text):
        return "violation", text, gen, dis
    if "TRACE" in (env or {}) and "The behavior up to this point is" in text and "OutOfMemory" not in text:
        # A recorded value for which the specification has no meaning at all
        return "undefined", text, gen, dis
    raise CheckError("TLC failed on %s (exit %d):\n%s" % (module, rc, tail_error(text)))


run_tlc.n = 0


def tail_error(text):
    i = text.find("Error:")
    return text[i:i + 3000] if i >= 0 else text[-3000:]


class Context:
    def __init__(self, prop, tier, seed, tmp):
        self.prop, self.tier, self.seed, self.tmp = prop, tier, seed, tmp
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.extra = {}
        self.quick = tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def count(self, key, k=1):
        self.extra[key] = self.extra.get(key, 0) + k

    def violation(self, what, payload):
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.tier, self.seed))
        payload = dict(payload, property=self.prop, what=what)
        with open(path, "w") as f:
            json.dump(payload, f)
        raise Violated(what, path)


class Violated(Exception):
    def __init__(self, what, path):
        self.what, self.path = what, path


def last_state(text):
    """The assignments of the last state of a TLC error trace, as text by variable."""
    parts = re.split(r"\nState \d+: [^\n]*\n", text)
    st = parts[-1].split("\n\n")[0]
    out = {}
    for m in re.finditer(r"^/\\ (\w+) = (.*?)(?=^/\\ |\Z)", st, re.S | re.M):
        out[m.group(1)] = m.group(2).strip()
    return out


def stage_mc(ctx, module, cfg, timeout=840, extra=(), env=None):
    """Model check a specification on its own; it must hold."""
    outcome, text, gen, dis = run_tlc(module, cfg, ctx.tmp, timeout=timeout, extra=extra, env=env)
    ctx.cov["states"] += dis
    ctx.cov["transitions"] += gen
    ctx.count("model_states_" + module, dis)
    if outcome != "ok":
        raise CheckError("specification %s does not satisfy its own properties:\n%s" % (module, text[-3000:]))
    if dis < 2:
        raise CheckError("specification %s: vacuous" % module)
    return text


def stage_trace(ctx, label, module, invariants, scenarios, counters=None, timeout=840, consts="", watchdog=30,
                post=None, batch=4000):
    """Run scenarios in the crate and validate the traces with TLC."""
    for b in range(0, len(scenarios), batch):
        scs = scenarios[b:b + batch]
        traces = run_harness(scs, ctx.tmp, label, watchdog)
        if post:
            traces = post(traces)
        path = write_traces(traces, ctx.tmp, label) if post else os.path.join(ctx.tmp, label + ".ndjson")
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + consts + "".join("INVARIANT %s\n" % i for i in invariants)
        outcome, text, gen, dis = run_tlc(module, cfg, ctx.tmp, env={"TRACE": path}, timeout=timeout)
        ctx.cov["states"] += dis
        ctx.cov["transitions"] += max(gen - len(traces), 0)
        if outcome != "ok":
            st = last_state(text)
            t, l = int(st["t"]), int(st["l"])
            inv = re.search(r"Invariant (\S+) is violated", text)
            what = inv.group(1) if inv else "the domain of the specification: " + tail_error(text)[:600]
            tr = traces[t - 1]
            ev = tr["ev"]
            scen = scs[t - 1] if len(traces) == len(scs) else [s for s in scs if s["id"] in (tr["id"], tr.get("twin"))]
            ctx.violation("%s: trace %s event %d breaks %s" % (label, tr["id"], l, what), {
                "stage": label, "module": module, "invariants": invariants, "consts": consts, "scenario": scen,
                "event": l, "events": ev[max(0, l - 3):l], "state": st})
        expect = sum(len(t["ev"]) + 1 for t in traces)
        if dis != expect:
            raise CheckError("%s: only %d of %d trace states were reached" % (label, dis, expect))
        for line in re.findall(r'<<"COV", "(\w+)", (\d+)>>', text):
            ctx.count(line[0], int(line[1]))
        ctx.cov["traces_validated_against_impl"] += len(traces)
        ctx.count("events_" + label, sum(len(t["ev"]) for t in traces))
        if counters:
            for k, v in counters(traces).items():
                ctx.count(k, v)
        if len(ctx.cov["samples"]) < 4 and traces:
            t = traces[min(len(traces) - 1, 3)]
            ctx.cov["samples"].append({"family": label, "scenario": t["id"], "ops": scs[min(len(scs) - 1, 3)]["ops"][:12],
                                       "last_event": t["ev"][-1] if t["ev"] else None})


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tmp = tempfile.mkdtemp(prefix="traffic-check-")
    try:
        build()
        if a.setup:
            return 0
        if a.replay:
            return replay(a.replay, tmp)
        import checks
        return run(checks.CHECKS[a.prop], Context(a.prop, a.tier, seed, tmp))
    except CheckError as e:
        print("ERROR: %s" % e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path, tmp):
    with open(path) as f:
        r = json.load(f)
    scs = r["scenario"] if isinstance(r["scenario"], list) else [r["scenario"]]
    ctx = Context(r["property"], "quick", 1, tmp)
    import checks
    try:
        stage_trace(ctx, r["stage"], r["module"], r["invariants"], scs, consts=r["consts"],
                    post=checks.POST.get(r["module"]))
    except Violated as v:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        print(v.what)
        return 1
    print("no violation")
    return 0


def known_findings(prop):
    try:
        with open(os.path.join(ROOT, "known_findings.txt")) as f:
            return [x.strip() for x in f if x.startswith("open: property=%s " % prop)]
    except FileNotFoundError:
        return []


def run(check, ctx):
    t0 = time.time()
    bad = None
    try:
        check(ctx)
    except Violated as v:
        bad = v
    for k in getattr(check, "required", ()):
        if not bad and not ctx.extra.get(k):
            raise CheckError("vacuous: %s never happened" % k)
    cov = dict(ctx.cov)
    cov.update(ctx.extra)
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level="model_checking", coverage=cov,
              wall_s=round(time.time() - t0, 2), violations=1 if bad else 0, assumptions=ASSUME)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in known_findings(ctx.prop):
        print("KNOWN-FINDING: " + k[len("open: "):])
    if bad:
        print("VIOLATION property=%s replay=%s" % (ctx.prop, bad.path))
        print(bad.what)
        return 1
    print("%s held: %s" % (ctx.prop, json.dumps({k: v for k, v in cov.items() if k != "samples"})))
    return 0


ASSUME = ["only executions of the generated scenarios were observed",
          "fixed-point traces (1 mm, 1 mm/s, 10 us) with the tolerances named in the specification",
          "TLC and the JSON reader of the community modules are trusted"]

if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
