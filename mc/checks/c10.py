"""C10 sun and moon"""
import itertools
from math import asin, atan2, cos, pi, sin

import alpha
import ref
from engine import Group, close, close_vec, in_range, require
from openspace.bodies.artificial import Spacecraft
from openspace.bodies.celestial import Earth, Moon, Sun

AU = 149597870.691


def ecl(v):
    return ref.matvec(ref.rx(ref.OBLIQUITY), v)


def one(mjd, ctx):
    ep = alpha.E(mjd)
    s, m = alpha.t3(Sun.get_position(ep)), alpha.t3(Moon.get_position(ep))
    ctx.step(2)
    # 1e-9 relative; the argument of the series is reduced from up to 1e4 rad
    far = max(1.0, abs(ref.centuries(mjd)) / 5)
    close_vec(s, ref.sun(mjd), 1e-9 * far * AU, f"Sun at MJD {mjd!r}")
    close_vec(m, ref.moon(mjd), (1e-9 * 385000 + 1e-4) * far, f"Moon at MJD {mjd!r}")
    in_range(ref.norm(s), 0.98 * AU, 1.02 * AU, f"distance of the Sun at MJD {mjd!r}")
    close(asin(ecl(s)[2] / ref.norm(s)), 0, 1e-9, f"ecliptic latitude of the Sun at MJD {mjd!r}")
    in_range(ref.norm(m), 354000, 409000, f"distance of the Moon at MJD {mjd!r}")
    in_range(abs(asin(ecl(m)[2] / ref.norm(m))), 0, 5.4 * pi / 180, f"ecliptic latitude of the Moon at MJD {mjd!r}")
    close(ep.value, mjd, 0, "epoch changed")
    return s, m


def run_span(case, ctx):
    start, step, n = case
    prev = None
    for k in range(n):
        mjd = start + k * step
        s, m = one(mjd, ctx)
        if prev is not None and abs(step) <= 0.5:
            dt = abs(step)
            ds = ref.angle(s, prev[0]) / dt
            dm = ref.angle(m, prev[1]) / dt
            in_range(ds, 0.0165, 0.0180, f"angular rate of the Sun per day at MJD {mjd!r}")
            in_range(dm, 0.195, 0.275, f"angular rate of the Moon per day at MJD {mjd!r}")
            a, b = ecl(prev[0]), ecl(s)
            require(sin(atan2(b[1], b[0]) - atan2(a[1], a[0])) * step > 0, f"Sun moves backwards at MJD {mjd!r}")
            a, b = ecl(prev[1]), ecl(m)
            require(sin(atan2(b[1], b[0]) - atan2(a[1], a[0])) * step > 0, f"Moon moves backwards at MJD {mjd!r}")
        prev = (s, m)
    ctx.state(start, step)
    ctx.outcome(s, m)


def span_cases(tier):
    out = []
    lo, hi = 15020, 106000
    chunk = 200
    step = 0.5 if tier == "quick" else 0.1
    d = float(lo)
    while d < hi:
        out.append([d + 0.371, step, int(chunk / step) + 1])
        d += chunk
    far = 7.77 if tier == "quick" else 1.37
    d = -678575.0
    while d < 2973484:
        out.append([d, far, 400])
        d += far * 400
    for s in (51544.5, 60000.25, 33282.0, 88000.0, 0.0, -400000.0, 1000000.5):
        out.append([s, 0.25, 240])
        out.append([s, -0.25, 240])
        out.append([s, 1 / 288, 100])
    return out


def run_year(case, ctx):
    mjd = case
    s0 = ecl(alpha.t3(Sun.get_position(alpha.E(mjd))))
    s1 = ecl(alpha.t3(Sun.get_position(alpha.E(mjd + 365.2596))))
    close(ref.angle(s0, s1), 0, 1e-3, f"Sun after a year from MJD {mjd}")
    h = ecl(alpha.t3(Sun.get_position(alpha.E(mjd + 365.2596 / 2))))
    require(ref.angle(s0, h) > 3.05, f"Sun after half a year from MJD {mjd}")
    ctx.step(3)
    ctx.state(mjd)
    ctx.outcome(s0)


def run_history(case, ctx):
    """positions depend on the epoch alone; returned vectors are the caller's"""
    eps = [alpha.E(m) for m in case]
    for rnd in range(2):
        for m, e in list(zip(case, eps))[:: 1 if rnd == 0 else -1]:
            s, q = Sun.get_position(e), Moon.get_position(e)
            close_vec(alpha.t3(s), ref.sun(m), 1e-9 * AU, f"Sun in the history {case}")
            close_vec(alpha.t3(q), ref.moon(m), 1e-4 + 4e-4, f"Moon in the history {case}")
            s.x, s.y, s.z = 1.0, 2.0, 3.0
            q.x, q.y, q.z = 1.0, 2.0, 3.0
            ctx.step(2)
    # positions handed out stay what they were
    kept = [(m, Sun.get_position(e), Moon.get_position(e)) for m, e in zip(case, eps)]
    for m, s, q in kept:
        close_vec(alpha.t3(s), ref.sun(m), 1e-9 * AU, f"Sun handed out earlier in the history {case}")
        close_vec(alpha.t3(q), ref.moon(m), 5e-4, f"Moon handed out earlier in the history {case}")
    e = eps[0]
    for m in case:
        e.value = m
        close_vec(alpha.t3(Sun.get_position(e)), ref.sun(m), 1e-9 * AU, f"Sun after setting the epoch in {case}")
        close_vec(alpha.t3(Moon.get_position(e)), ref.moon(m), 5e-4, f"Moon after setting the epoch in {case}")
        ctx.step(2)
    ctx.state(*case)
    ctx.outcome(alpha.t3(Moon.get_position(e)))


def history_cases(tier):
    base = alpha.EPOCHS + [60000.25 + 1e-5, 60000.2500001, 60000.25 - 1.5e-8, 60000.3, 60001.25, 59946.4]
    out = [list(p) for p in itertools.product(base, repeat=2)]
    out += [list(p) for p in itertools.permutations(base if tier == "quick" else base + alpha.EPOCHS_MORE, 3)]
    return out


# beyond the Moon and between the Earth and the Moon
FAR = {"far-x": (310000.0, 120000.0, -9000.0), "far-y": (-4.0e5, 4.1e5, 1.5e5), "far-z": (1.0e4, 2.0e3, -1.6e6)}


def run_vectors(case, ctx):
    name, mjd = case
    r, v = (FAR[name], (0.3, -0.2, 0.1)) if name in FAR else alpha.orbit(name)
    st = alpha.gcrf(mjd, r, v)
    sc = Spacecraft(st)
    ws, wm = ref.sub(ref.sun(mjd), r), ref.sub(ref.moon(mjd), r)
    for who, o in (("state", st), ("spacecraft", sc)):
        close_vec(alpha.t3(o.sun_vector()), ws, 1e-9 * AU, f"vector to the Sun from the {who} {case}")
        close_vec(alpha.t3(o.moon_vector()), wm, 5e-4, f"vector to the Moon from the {who} {case}")
        ctx.step(2)
    close_vec(alpha.t3(sc.earth_vector()), ref.mul(r, -1), 0, f"vector to the Earth {case}")
    for dt in (1 / 86400, 60 / 86400, 300 / 86400, 0.02, -0.01, 0.3):
        after(sc, dt, case, ctx)
    ctx.state(*case)
    ctx.outcome(alpha.t3(sc.moon_vector()))


def after(sc, dt, case, ctx):
    sc.step_to_epoch(alpha.E(case[1] + dt))
    m2, r2 = sc.current_epoch().value, alpha.t3(sc.position())
    close(m2, case[1] + dt, 1e-9, f"epoch after propagation {case}")
    close_vec(alpha.t3(sc.sun_vector()), ref.sub(ref.sun(m2), r2), 1e-9 * AU, f"vector to the Sun after propagation {case}")
    close_vec(alpha.t3(sc.moon_vector()), ref.sub(ref.moon(m2), r2), 5e-4, f"vector to the Moon after propagation {case}")
    close_vec(alpha.t3(sc.earth_vector()), ref.mul(r2, -1), 0, f"vector to the Earth after propagation {case}")
    ctx.step(3)


def run_edits(case, ctx):
    """the vectors follow the position and the epoch a state has now, changed in place or replaced"""
    seq = case
    st = alpha.gcrf(60000.25, *alpha.orbit("geo"))
    sc = Spacecraft(alpha.gcrf(60000.25, *alpha.orbit("meo")))
    for op in (None, *seq):
        for o in (st, sc.propagator.state):
            if op == "move":
                o.position.x, o.position.z = o.position.z + 999.0, -o.position.x
            elif op == "newpos":
                o.position = alpha.V((-o.position.y, o.position.x + 50.0, o.position.z))
            elif op == "nudge":
                o.position.y += 0.5
            elif op == "date":
                o.epoch.value += 101.25
            elif op == "newdate":
                o.epoch = alpha.E(o.epoch.value - 20.1)
            elif op == "minute":
                o.epoch.value += 1 / 1440
            elif op == "twin":
                o.epoch = o.epoch.copy()
        for who, o, s in (("state", st, st), ("spacecraft", sc, sc.propagator.state)):
            r, mjd = alpha.t3(s.position), s.epoch.value
            a, b = o.sun_vector(), o.moon_vector()
            close_vec(alpha.t3(a), ref.sub(ref.sun(mjd), r), 1e-9 * AU, f"vector to the Sun from the {who} after {seq}")
            close_vec(alpha.t3(b), ref.sub(ref.moon(mjd), r), 5e-4, f"vector to the Moon from the {who} after {seq}")
            c = alpha.V((0, 0, 0)) if o is st else sc.earth_vector()
            if o is sc:
                close_vec(alpha.t3(c), ref.mul(r, -1), 0, f"vector to the Earth from the {who} after {seq}")
            for x in (a, b, c):
                x.x, x.y, x.z = 1.0, 2.0, 3.0
            ctx.step(3)
    ctx.state(*case)
    ctx.outcome(alpha.t3(sc.moon_vector()))


EDITS = ["move", "newpos", "nudge", "date", "newdate", "minute", "twin"]


def run_obl(case, ctx):
    for k in range(100):
        m = case + k * 9.13
        close(Earth.obliquity_of_ecliptic_at_epoch(alpha.E(m)), ref.obliquity(m), 1e-12, f"obliquity at MJD {m}")
        ctx.step()
    ctx.state(case)


GROUPS = [
    Group("span", span_cases, run_span, doc="1900-2149 every 0.5 (0.1) days and years 1-9999 every 7.77 (1.37) days, plus quarter-day and 5-minute spans in both directions"),
    Group("year", lambda t: [15020.3 + 61.7 * k for k in range(1400)], run_year, doc="1400 starts, position after half and one anomalistic year"),
    Group("history", history_cases, run_history, doc="all ordered pairs and triples of epochs, returned vectors overwritten in between"),
    Group("vectors", lambda t: [[n, m] for n in sorted(alpha.ORBITS) + sorted(FAR) for m in alpha.epochs("thorough")], run_vectors, doc="9 orbits and 3 places up to 1.6 million km away x 33 epochs, before and after propagation to 6 later and earlier epochs"),
    Group("edits", lambda t: [list(p) for n in range(1, 4 if t == "quick" else 5) for p in itertools.product(EDITS, repeat=n)], run_edits, doc="all sequences up to length 3 (4) of 7 changes of a state's position and epoch, in place and replaced, vectors asked and overwritten after each"),
    Group("obliquity", lambda t: [15020.0 + 913.0 * k for k in range(100)] + [-678575.0 + 36521.0 * k for k in range(100)], run_obl, doc="20,000 epochs"),
]
ASSUMPTIONS = ["the series of Montenbruck and Gill (Satellite Orbits, 3.3.2) is the definition"]
assert cos
