#!/usr/bin/env python3
"""Shows that the specifications are bound to what is recorded: runs a check with a
few values in every recorded trace changed and reports whether the traces are still accepted.

usage: tools_binding.py [property ...]      (uses the quick tier; writes nothing)
"""
import random
import sys
import tempfile

import check
import checks

ROWS = {"link": 1, "position": 2, "speed": 3, "x": 5, "y": 6, "heading": 7, "front": 10, "rear corner": 12}


def rows(trace):
    """Recorded states with vehicles, without the first few steps."""
    return [e for e in trace["ev"] if e.get("e") == "step" and e.get("V")][3:] or \
        [e for e in trace["ev"] if e.get("e") == "run" and e.get("V")]


def change(field):
    def f(r, trace):
        es = rows(trace)
        if not es:
            return
        row = r.choice(r.choice(es)["V"])
        if field == "link":
            row[1] += 1
        else:
            row[ROWS[field]] += r.choice([-1, 1]) * (3000 if field == "heading" else 4000)
    return f


def missing(r, trace):
    es = rows(trace)
    if es:
        vs = r.choice(es)["V"]
        vs.pop(r.randrange(len(vs)))


def event(r, trace):
    """Any number anywhere in any event."""
    e = r.choice(trace["ev"])
    spots = []

    def walk(x):
        for k, y in (x.items() if isinstance(x, dict) else enumerate(x) if isinstance(x, list) else ()):
            if isinstance(y, bool) or isinstance(y, int):
                spots.append((x, k))
            else:
                walk(y)
    walk(e)
    if spots:
        x, k = r.choice(spots)
        x[k] = (not x[k]) if isinstance(x[k], bool) else x[k] + r.choice([-1, 1]) * r.choice([1, 1500, 20000])


CHANGES = dict({k: change(k) for k in ROWS}, missing=missing, any=event)


def main():
    props = sys.argv[1:] or sorted(checks.CHECKS)
    check.build()
    real = check.run_harness
    model = checks.stage_mc
    # models alone are not run, except the one that generates sequences of calls
    checks.stage_mc = lambda ctx, spec, *a, **k: model(ctx, spec, *a, **k) if spec == "ApiGen" else None
    for p in props:
        out = []
        for name, f in CHANGES.items():
            r = random.Random(p + name)

            def corrupted(scenarios, tmp, label, watchdog=30):
                traces = real(scenarios[:20], tmp, label, watchdog)
                for t in traces:
                    for _ in range(4):
                        f(r, t)
                check.write_traces(traces, tmp, label)
                return traces
            check.run_harness = corrupted
            with tempfile.TemporaryDirectory() as tmp:
                ctx = check.Context(p, "quick", 1, tmp)
                ctx.violation = reject
                try:
                    checks.CHECKS[p](ctx)
                    out.append("-")
                except Rejected:
                    out.append(name)
                except Exception as e:
                    out.append("(%s: %s)" % (name, str(e)[:60].replace("\n", " ")))
        print(p, " ".join(x for x in out if x != "-"), flush=True)
    check.run_harness = real


class Rejected(Exception):
    pass


def reject(what, payload):
    raise Rejected(what)


if __name__ == "__main__":
    main()
