"""C01 calendar dates and epochs"""
import calendar
import itertools
import math

import ref
from engine import Group, close, grid, require
from openspace.bodies.celestial import Earth, Sun
from openspace.math.functions import Conversions
from openspace.time import Epoch

TODS = [(0, 0, 0), (6, 0, 0), (12, 0, 0), (23, 59, 59.999), (11, 59, 60 - 1e-6), (18, 30, 15.25), (0, 0, 1e-3), (1, 2, 3)]


def frac(h, m, s):
    return (h * 3600 + m * 60 + s) / 86400.0


def run_year(case, ctx):
    y = case
    prev = None
    for m in range(1, 13):
        for d in range(1, calendar.monthrange(y, m)[1] + 1):
            want = ref.mjd_of_date(y, m, d)
            got = Epoch.from_gregorian(y, m, d, 0, 0, 0).value
            ctx.step()
            if not abs(got - want) <= 2e-9:
                close(got, want, 2e-9, f"MJD of {y}-{m}-{d}")
            tod = TODS[want % len(TODS)]
            got2 = Epoch.from_gregorian(y, m, d, *tod).value
            ctx.step()
            if not abs(got2 - want - frac(*tod)) <= 2e-9:
                close(got2, want + frac(*tod), 2e-9, f"MJD of {y}-{m}-{d} {tod}")
            require(prev is None or abs(got - prev - 1) <= 2e-9, f"{y}-{m}-{d} is not one day after the day before")
            prev = got
    ctx.state("year", y % 400, calendar.isleap(y))
    ctx.outcome(got)


def run_tod(case, ctx):
    (y, m, d), h = case
    base = ref.mjd_of_date(y, m, d)
    prev = float("-inf")
    for mi in range(60):
        for s in (0, 0.5, 1, 7, 29.999, 30, 59, 59.999):
            got = Epoch.from_gregorian(y, m, d, h, mi, s).value
            ctx.step()
            close(got, base + frac(h, mi, s), 3e-11 + 3e-16 * abs(base), f"MJD of {case} {mi} {s}")
            require(got > prev, f"clock not increasing at {case} {mi} {s}")
            prev = got
            close(Conversions.hms_to_decimal_day(h, mi, s), frac(h, mi, s), 1e-14, f"decimal day of {h}:{mi}:{s}")
        ctx.state("tod", h, mi)
    ctx.outcome(prev)


def tod_cases(tier):
    dates = [(1858, 11, 17), (1900, 2, 28), (2000, 1, 1), (2000, 2, 29), (2023, 12, 31), (2100, 3, 1)]
    years = (1950, 1999, 2001, 2024, 2099) if tier == "quick" else (1, 400, 1582, 1858, 1900, 1950, 1999, 2001, 2024, 2099, 5000, 9999)
    dates += [(y, mo, d) for y in years for mo in range(1, 13) for d in ((1, 15) if tier == "quick" else (1, 2, 15, 27, 28))]
    return [[list(d), h] for d in dates for h in range(24)]


DELTAS = [0, 1, -1, 0.5, -0.25, 36525, -400.125, 1e-6, 1 / 86400, 1234567.25, -2000000.125, 3e-10, -1.5e-10]


def run_arith(case, ctx):
    start, path = case
    ep = Epoch(start)
    chain = [(ep, start)]
    for k in path:
        new = chain[-1][0].plus_days(DELTAS[k])
        want = chain[-1][1] + DELTAS[k]
        chain.append((new, want))
        ctx.step()
        for e, w in chain:
            close(e.value, w, 2e-11 + 1e-15 * abs(w), f"epoch value after {case}")
            close(e.julian_value(), w + 2400000.5, 2e-9, "julian date")
            close(e.julian_centuries_past_j2000(), (w - 51544.5) / 36525, 1e-13, "julian centuries past J2000")
            close(e.copy().value, w, 2e-11 + 1e-15 * abs(w), "copy")
        ctx.state(start, round(want, 9))
    cp, twin = chain[-1][0].copy(), chain[-1][0].copy()
    cp.value += 5
    close(twin.value, chain[-1][1], 2e-11 + 1e-15 * abs(chain[-1][1]), "a copy after changing another copy")
    third = chain[-1][0].copy()
    close(third.value, chain[-1][1], 2e-11 + 1e-15 * abs(chain[-1][1]), "a copy made after changing another copy")
    close(chain[-1][0].value, chain[-1][1], 2e-11 + 1e-15 * abs(chain[-1][1]), "epoch after changing its copy")
    # no epoch of the chain is tied to another
    for i, (e, w) in enumerate(chain):
        old = e.copy()
        e.value = w + 1000.0
        close(old.value, w, 2e-11 + 1e-15 * abs(w), f"copy after changing the epoch of {case}")
        close(e.copy().value, w + 1000.0, 2e-11 + 1e-15 * abs(w), f"copy of the changed epoch of {case}")
        close(old.value, w, 2e-11 + 1e-15 * abs(w), f"copy after copying the changed epoch of {case}")
        for f, u in chain[i + 1 :]:
            close(f.value, u, 2e-11 + 1e-15 * abs(u), f"epoch after changing an earlier one of {case}")
        for f, u in chain[:i]:
            close(f.value, u + 1000.0, 2e-11 + 1e-15 * abs(u + 1000.0), f"epoch after changing a later one of {case}")
    ctx.outcome(chain[-1][0].value)


def arith_cases(tier):
    depth = 4 if tier == "quick" else 5
    paths = [list(p) for n in range(1, depth + 1) for p in itertools.product(range(len(DELTAS)), repeat=n)]
    starts = [51544.5, 60000.123, 0.0, -5000.75, 2451545.0]
    return [[s, p] for s in starts for p in paths]


def run_dms(case, ctx):
    d, m, s = case
    ctx.step()
    close(Conversions.dms_to_radians(d, m, s), (d + m / 60 + s / 3600) * math.pi / 180, 1e-14, f"angle of {case}")
    ctx.state(*case)
    ctx.outcome(Conversions.dms_to_radians(d, m, s))


def run_hms(case, ctx):
    h, m, s = case
    ctx.step()
    close(Conversions.hms_to_decimal_day(h, m, s), frac(h, m, s), 1e-13, f"fraction of a day of {case}")
    close(Epoch.from_gregorian(2016, 12, 31, h, m, s).value, ref.mjd_of_date(2016, 12, 31) + frac(h, m, s), 5e-11, f"epoch of {case}")
    ctx.state(*case)
    ctx.outcome(Conversions.hms_to_decimal_day(h, m, s))


CHANGES = [("value", 51544.5), ("value", 60000.25), ("value", 0.0), ("value", 51544.5 + 36525)]


def run_attr(case, ctx):
    """an epoch's value is public: derived quantities follow it"""
    ep = Epoch(58000.5)
    for k in case:
        val = CHANGES[k][1]
        ep.julian_centuries_past_j2000(), ep.julian_value(), ep.greenwich_hour_angle(), ep.plus_days(1)
        ep.value = val
        ctx.step()
        close(ep.julian_value(), val + 2400000.5, 2e-9, "julian date after setting the value")
        close(ep.julian_centuries_past_j2000(), (val - 51544.5) / 36525, 1e-13, "centuries after setting the value")
        close(ep.plus_days(1.5).value, val + 1.5, 1e-9, "plus_days after setting the value")
        ctx.state(*case)
    ctx.outcome(ep.value)


GROUPS = [
    Group("calendar", lambda t: list(range(1, 10000)), run_year, doc="all 3,652,059 dates of years 1 to 9999, at midnight and at one of 8 times of day"),
    Group("clock", tod_cases, run_tod, doc="every minute of the day x 8 seconds values, on 126 (726) dates"),
    Group("arithmetic", arith_cases, run_arith, doc="all sequences of 13 day offsets up to depth 4 (thorough 5) from 5 starts, all epochs re-read after each"),
    Group("angles", lambda t: grid([-360, -23, 0, 1, 23, 89, 359], [-59, 0, 1, 26, 59], [-59.9, 0, 0.001, 21.448, 59.999, 22640.0]), run_dms, doc="product of degrees, minutes, seconds"),
    Group("durations", lambda t: grid([-1, 0, 0.5, 5, 23, 24, 48], [-30, 0, 0.25, 59, 60, 90, 1440], [-0.5, 0, 1e-6, 59.9, 60, 60.5, 3600, 86400]), run_hms, doc="hours, minutes and seconds beyond their usual ranges (leap seconds, durations, negative)"),
    Group("attribute", lambda t: grid(range(4), range(4), range(4)), run_attr, doc="all sequences of 3 assignments to the value"),
]  # fmt: skip
assert Earth and Sun
ASSUMPTIONS = ["datetime.date is the proleptic Gregorian calendar"]
