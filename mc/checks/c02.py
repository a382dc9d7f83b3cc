"""C02 Greenwich hour angle"""
import itertools
import math

import alpha
import ref
from engine import TWO_PI, Group, close, close_angle, in_range
from openspace.time import Epoch

TOL = 2e-8
OFF = ref.TT_OFFSET
RATE = math.radians(360.98564724)


def check(mjd, ctx, what="hour angle"):
    got = Epoch(mjd).greenwich_hour_angle()
    ctx.step()
    in_range(got, 0, TWO_PI, f"{what} at MJD {mjd!r}")
    close_angle(got, ref.gmst(mjd), TOL, f"{what} at MJD {mjd!r}")
    return got


def run_days(case, ctx):
    lo, hi = case
    for d in range(lo, hi):
        for off in (0.0, OFF - 1e-8, OFF + 1e-8, 0.25, 0.5, 0.75, 0.999999):
            g = check(d + off, ctx)
    ctx.state(lo)
    ctx.outcome(g)


def day_cases(tier):
    lo, hi = (-20000, 120000) if tier == "quick" else (-200000, 400000)
    return [[a, min(a + 200, hi)] for a in range(lo, hi, 200)]


def run_cross(case, ctx):
    g = check(case, ctx)
    ctx.state(case)
    ctx.outcome(g)


def run_far(case, ctx):
    lo, hi, step = case
    for d in range(lo, hi, step):
        for off in (0.0, OFF + 1e-8, 0.371, 0.999999):
            g = check(d + off, ctx)
            ctx.step()
    ctx.state(lo)
    ctx.outcome(g)


def far_cases(tier):
    """years 1 to 9999"""
    step = 31 if tier == "quick" else 3
    return [[a, a + 10000, step] for a in range(-678575, 2973484, 10000)]


def run_rate(case, ctx):
    start, step, n = case
    prev = None
    for k in range(n):
        mjd = start + k * step
        got = check(mjd, ctx)
        if prev is not None:
            close_angle(got - prev[1], RATE * (mjd - prev[0]), 1e-8, f"advance of the hour angle over {step} d at MJD {mjd!r}")
        prev = (mjd, got)
    ctx.state(start, step)
    ctx.outcome(got)


def rate_cases(tier):
    starts = [51544.0, 51544.5 - 0.25, 0.0, 15019.9, 33281.5, 53735.99, 60309.5, 88068.9, -3.5]
    starts += [40000.0 + 137.3 * k for k in range(60 if tier == "quick" else 400)]
    cases = []
    for s in starts:
        cases.append([s, 1 / 1440, 1500])
        cases.append([s, 1.0, 400])
        cases.append([s, 0.1, 400])
        cases.append([math.floor(s) + 1 - 20 / 86400, 1 / 86400, 120])  # seconds over the two midnights
        cases.append([math.floor(s) + 1 - 20 / 86400, -1 / 86400, 120])
    return cases


def run_history(case, ctx):
    """queries of one epoch object interleaved with others give what a fresh one gives"""
    eps = [Epoch(m) for m in case]
    for _ in range(2):
        for e, m in zip(eps, case):
            close_angle(e.greenwich_hour_angle(), ref.gmst(m), TOL, f"hour angle in the history {case}")
            ctx.step()
    # the same object with a changed value
    e = eps[0]
    for m in reversed(case):
        e.value = m
        close_angle(e.greenwich_hour_angle(), ref.gmst(m), TOL, "hour angle after setting the value")
        close_angle(e.plus_days(0.3).greenwich_hour_angle(), ref.gmst(m + 0.3), TOL, "hour angle of a shifted epoch")
        ctx.step(2)
    close(e.value, case[0], 0, "epoch changed by the query")
    ctx.state(*case)
    ctx.outcome(e.greenwich_hour_angle())


def history_cases(tier):
    base = alpha.EPOCHS + [60000.25 + 1e-6, 60000.25 + 1e-4, 60000.75, 59946.0 + 1 / 86400, 51544.5000001, 60000.25 + 2e-8, 51544.5 + 1e-8, 60000.25 + 4.2e-9, 60000.25 - 4.2e-9]
    base = base + alpha.EPOCHS_MORE
    return [list(p) for p in itertools.product(base, repeat=2)] + [list(p) for p in itertools.permutations(base[:8], 3)]


GROUPS = [
    Group("days", day_cases, run_days, doc="every day of 1804-2187 (thorough 1311-2954) at 7 offsets incl. both sides of the universal time midnight"),
    Group("crossings", lambda t: alpha.hour_angle_crossings(), run_cross, doc="176 epochs at and within 1e-9 to 1e-4 d of hour angles of 0, 90, 180 and 270 degrees"),
    Group("far", far_cases, run_far, doc="every 31st (3rd) day of the years 1-9999 at 4 offsets"),
    Group("advance", rate_cases, run_rate, doc="consecutive epochs at steps of a second, a minute, 0.1 day and a day from listed starts; the difference is checked"),
    Group("history", history_cases, run_history, doc="all ordered pairs and triples of epochs, queried twice, and through one object"),
]  # fmt: skip
ASSUMPTIONS = ["the Curtis formula is the definition of Greenwich mean sidereal time", "2e-8 rad covers floating-point error of any evaluation order"]
