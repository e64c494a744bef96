"""Shared pieces of the scenario generators.

A scenario is {"id", header fields..., "ops": [...]}.  The harness copies every
field except "ops" into the trace, so the header is what the specification sees
besides the recorded events.  Header units are those of the traces: mm, mm/s,
10 us.
"""
import random

CAR = [2.0, 5.0, 1.5, 1.5, 2.0, 2.0]  # width, length, wheel base, headway, max acc, comf dec


def rng(seed, family, i):
    return random.Random("%s/%s/%s" % (seed, family, i))


def line(a, b, speed):
    return {"op": "link", "kind": "line", "pts": [a, b], "speed": speed}


def mm(x):
    return int(round(x * 1000))


def exact_timers(dts):
    """True if adding these steps in floating point crosses the 0.1 s and 0.3 s
    update intervals at the same steps as exact arithmetic does."""
    for limit, ilimit in ((0.1, 10000), (0.3, 30000)):
        f, n = 0.0, 0
        for dt in dts:
            if (f >= limit) != (n >= ilimit):
                return False
            if n >= ilimit:
                f, n = 0.0, 0
            f += dt
            n += int(round(dt * 1e5))
    return True


DTS = [dt for dt in (0.1, 0.05, 0.0625, 0.125, 0.2, 0.03125, 0.15625, 0.025)
       if exact_timers([dt] * 2000)]
