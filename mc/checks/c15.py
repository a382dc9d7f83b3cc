"""C15 relative Kalman filter"""
import itertools
from math import atan2, cos, sin, sqrt

import alpha
import envrandom
import ref
from engine import Group, Violation, close, close_mat, close_vec, require
from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import HCW
from openspace.estimation.filtering import RelativeKalman
from openspace.estimation.obs import SpaceObservation
from openspace.math.linalg import Matrix6D
from openspace.propagators.relative import Hill

MJD = 60000.25
H = [[1.0 if i == j else 0.0 for j in range(6)] for i in range(3)]
HT = ref.transpose(H)
P0 = [[(0.5 if i < 3 else 5e-5) if i == j else 0.0 for j in range(6)] for i in range(6)]
Q = [[1e-16 if i == j else 0.0 for j in range(6)] for i in range(6)]


def spherical(r, ra, dec):
    return (r * cos(dec) * cos(ra), r * cos(dec) * sin(ra), r * sin(dec))


class Ref:
    """the textbook recursion on lists"""

    def __init__(self, mjd, x, sma):
        self.mjd, self.x, self.p, self.n = mjd, list(x), P0, sqrt(ref.MU / sma**3)
        self.slack = [1e-9] * 3 + [1e-12] * 3
        self.rel = 1e-12
        self.q = Q

    def process(self, mjd, ro, vo, direction, r_err, a_err):
        dt = (mjd - self.mjd) * 86400
        self.mjd = mjd
        z = ref.to_hcw(ro, vo, ref.add(ro, direction), vo)[0]
        rng = ref.norm(direction)
        off = ref.sub(
            spherical(rng + r_err, atan2(direction[1], direction[0]) + a_err, atan2(direction[2], ref.norm(direction[:2])) + a_err), direction
        )
        e = ref.to_hcw(ro, vo, ref.add(ro, off), vo)[0]
        r = [[e[i] ** 2 if i == j else 0.0 for j in range(3)] for i in range(3)]
        f = ref.hill_matrix(self.n, dt)
        xp = ref.matvec(f, self.x)
        pp = ref.madd(ref.matmul(f, ref.matmul(self.p, ref.transpose(f))), self.q)
        s = ref.madd(ref.matmul(H, ref.matmul(pp, HT)), r)
        k = ref.matmul(ref.matmul(pp, HT), ref.inverse(s))
        inn = ref.sub(z, ref.matvec(H, xp))
        self.x = list(ref.add(xp, ref.matvec(k, inn)))
        m1 = ref.msub(ref.eye(6), ref.matmul(k, H))
        self.p = ref.madd(ref.matmul(m1, ref.matmul(pp, ref.transpose(m1))), ref.matmul(k, ref.matmul(r, ref.transpose(k))))
        # the error offsets carry a rounding error of about 1e-11 km; it acts on the gain times the innovation
        rel = 1e-9 + 4 * 5e-15 * ref.norm(ro) / max(min(abs(c) for c in e), 1e-6)
        # large predicted variances against a small measurement variance cost digits of the update
        cond = sum(pp[i][i] for i in range(3)) / max(min(abs(c) for c in e), 1e-6) ** 2
        self.rel = max(1e-7, 10 * rel) + 4e-15 * cond + self.rel
        self.slack = [1e-8 + self.rel * (ref.norm(inn) + ref.norm(self.x[:3]))] * 3
        self.slack += [self.slack[0] * max(self.n, 1 / max(abs(dt), 60.0))] * 3


def psd(p, slack, what):
    d = [p[i][i] for i in range(6)]
    require(all(v > 0 for v in d), f"variance not positive {what}: {d}")
    c = [[p[i][j] / sqrt(d[i] * d[j]) for j in range(6)] for i in range(6)]
    for i in range(6):
        for j in range(i):
            require(abs(c[i][j] - c[j][i]) <= slack, lambda: f"covariance not symmetric {what}: {p[i][j]!r} and {p[j][i]!r}")
        c[i][i] += 6 * slack
    low = [[0.0] * 6 for _ in range(6)]
    for i in range(6):
        for j in range(i + 1):
            s = c[i][j] - sum(low[i][k] * low[j][k] for k in range(j))
            if i == j:
                if s <= 0:
                    raise Violation(f"covariance not positive semi-definite {what}: {p}")
                low[i][i] = sqrt(s)
            else:
                low[i][j] = s / low[j][j]


def compare(kal, m, what):
    got = alpha.t6(kal.x00)
    for i in range(6):
        close(got[i], m.x[i], m.slack[i], f"estimate component {i + 1} {what}")
    p = alpha.m6(kal.p00)
    psd(p, max(1e-8, m.rel), what)
    for i in range(6):
        for j in range(6):
            close(p[i][j], m.p[i][j], m.rel * sqrt(m.p[i][i] * m.p[j][j]), f"covariance element ({i + 1}, {j + 1}) {what}")
    close(kal.epoch.value, m.mjd, 1e-10, "filter epoch " + what)
    st = kal.propagator.state
    close_vec(alpha.t3(st.position) + alpha.t3(st.velocity), got, 0, "propagator state " + what)
    close_vec(alpha.t6(st.vector), got, 0, "propagator state vector " + what)
    close(st.epoch.value, m.mjd, 1e-10, "propagator epoch " + what)


def defaults(what):
    close_mat(alpha.m6(RelativeKalman.DEFAULT_COVARIANCE), P0, 0, "shared initial covariance " + what)
    close_mat(alpha.m6(RelativeKalman.DEFAULT_NOISE), Q, 0, "shared process noise " + what)
    close_mat(alpha.m36(RelativeKalman.H), H, 0, "shared measurement matrix " + what)


OBSERVER = {}


def observer(name, t):
    if (name, t) not in OBSERVER:
        r, v = alpha.orbit(name)
        OBSERVER[name, t] = ref.kepler_propagate(r, v, t) if t else (r, v)
    return OBSERVER[name, t]


def sma_of(name):
    return alpha.ORBITS[name][0]


GAPS = {"s": 0.0, "m": 60.0, "n": 600.0, "h": 7200.0, "d": 90000.0, "b": -300.0, "t": 0.5, "w": 604800.0, "y": -90000.0}
OFFS = {"A": (-11.0, 0.5, 0.2), "B": (4.0, -35.0, 12.0), "C": (-0.3, 2.0, -5.0), "D": (0.02, -0.05, 0.01), "E": (-300.0, 2500.0, 400.0)}
ERRS = {"1": (0.05, 1e-4), "2": (2.0, 3e-3), "3": (0.3, 5e-2), "4": (0.0, 2e-2), "5": (0.7, 0.0), "6": (150.0, 1e-3), "7": (3000.0, 0.3), "8": (3e-5, 1e-5), "9": (4e-4, 2e-6), "0": (0.0, 0.0)}
# directions given by right ascension and declination: on both sides of the zero meridian, opposite, near both poles
ANGLES = {"W": (-5e-5, 0.3), "X": (5e-5, -0.2), "Y": (3.1415, -1.2), "N": (1.0, 1.5), "S": (-2.0, -1.53), "P": (1.0, 1.57075), "Q": (2.5, -1.57075)}
INIT = (-10.5, 0.1, 0.0, 1e-4, 1e-3, -2e-4)


def observation(name, t, letter):
    """an observation, and the plain numbers it was made from"""
    ro, vo = observer(name, t)
    if letter[1] in ANGLES:
        ra, dec = ANGLES[letter[1]]
        d = spherical(20.0 + 1e-3 * t if abs(t) < 3e4 else 20.0, ra, dec)
        return observation_of(ro, vo, t, d, letter)
    off = OFFS[letter[1]]
    # the object drifts, so that observations differ in time
    off = (off[0] + 1e-4 * t, off[1] - 2e-4 * t, off[2] + 5e-5 * t) if abs(t) < 3e4 else off
    rt, _ = ref.from_hcw(off, (0.0, 0.0, 0.0), ro, vo)
    return observation_of(ro, vo, t, ref.sub(rt, ro), letter)


def observation_of(ro, vo, t, d, letter):
    r_err, a_err = ERRS[letter[2]]
    ob = SpaceObservation(alpha.gcrf(MJD + t / 86400, ro, vo), alpha.V(d), r_err, a_err)
    return ob, (MJD + t / 86400, ro, vo, d, r_err, a_err)


def new_filter(name, init, lag=0.0):
    hill = Hill(HCW(alpha.E(MJD + lag), alpha.V(init[:3]), alpha.V(init[3:])), sma_of(name))
    return RelativeKalman(alpha.E(MJD), hill), Ref(MJD, init, sma_of(name))


def run_history(case, ctx):
    name, seq = case
    kal, m = new_filter(name, INIT)
    compare(kal, m, f"of a new filter on {name}")
    t = 0.0
    for k, letter in enumerate(seq):
        t += GAPS[letter[0]]
        what = f"after {' '.join(seq[: k + 1])} on {name}"
        ob, args = observation(name, t, letter)
        kal.process(ob)
        m.process(*args)
        compare(kal, m, what)
        # the observation has not been touched
        close_vec(alpha.t3(ob.observer_state.position) + alpha.t3(ob.observer_state.velocity), args[1] + args[2], 0, "observer state " + what)
        close_vec(alpha.t3(ob.observed_direction), args[3], 0, "observed direction " + what)
        close(ob.epoch().value, args[0], 0, "observation epoch " + what)
        ctx.step()
        ctx.state(name, t, letter, m.x)
    # later changes of the observation do not reach the filter
    ob.observer_state.epoch.value = 1.0
    ob.observed_direction.x = 1.0
    compare(kal, m, f"after changing the last observation of {seq} on {name}")
    defaults(f"after {seq}")
    ctx.outcome(m.x)


def run_exact(case, ctx):
    """an observation without error settles the relative position; ordinary ones follow"""
    name, first, rest = case
    kal, m = new_filter(name, INIT)
    t = GAPS[first[0]]
    ob, args = observation(name, t, first)
    kal.process(ob)
    m.process(*args)
    what = f"after the exact observation {first} on {name}"
    z = ref.to_hcw(args[1], args[2], ref.add(args[1], args[3]), args[2])[0]
    got = alpha.t6(kal.x00)
    close_vec(got[:3], z, 1e-6, "position " + what)
    for i in range(3):
        close(got[3 + i], m.x[3 + i], 1e-9 + 1e-6 * ref.norm(m.x[3:]) + 1e-6 * m.n, f"velocity component {i + 1} {what}")
    p = alpha.m6(kal.p00)
    for i in range(3):
        close(p[i][i], 0.0, 1e-9, f"variance of position component {i + 1} {what}")
        close(p[3 + i][3 + i], m.p[3 + i][3 + i], 1e-5 * m.p[3 + i][3 + i], f"variance of velocity component {i + 1} {what}")
    close(kal.epoch.value, args[0], 1e-10, "filter epoch " + what)
    close_vec(alpha.t3(kal.propagator.state.position) + alpha.t3(kal.propagator.state.velocity), got, 0, "propagator state " + what)
    close(kal.propagator.state.epoch.value, args[0], 1e-10, "propagator epoch " + what)
    ctx.step()
    for letter in rest:
        t += GAPS[letter[0]]
        ob, args = observation(name, t, letter)
        kal.process(ob)
        m.process(*args)
        compare(kal, m, f"after {first} {rest} on {name}")
        ctx.step()
    ctx.state(*case)
    ctx.outcome(m.x)


def exact_cases(tier):
    return [[n, x, s] for n in ("geo", "leo", "heo", "retro") for x in letters("smnhb", "ABC", "0") for s in [[], ["nA1"], ["hB2"], ["nC3", "mA1"], ["mB2", "nA1", "hA3"]]]


def letters(g, o, e):
    return ["".join(x) for x in itertools.product(g, o, e)]


def history_cases(tier):
    full = letters("smnhdb", "ABC", "123") + letters("snd", "AB", "45")  # 66
    few = letters("snb", "AB", "12") + ["hC3", "dB1"]  # 14
    rough = letters("snd", "AC", "67") + ["nA1", "sB2"]
    wide = letters("tnwy", "DE", "12") + ["nA1"]
    fine = letters("smnb", "AD", "89") + ["nA1"]
    tiny = ["sA1", "nB2", "mA3", "hC1", "bA1"]
    out = [["geo", list(s)] for s in itertools.product(full, repeat=2)]
    out += [[n, list(s)] for n in ("geo", "leo") for s in itertools.product(letters("sn", "WXYNSPQ", "12"), repeat=2)]
    out += [[n, list(s)] for n in ("leo", "heo", "retro") for s in itertools.product(few, repeat=2)]
    out += [["geo", list(s)] for s in itertools.product(few, repeat=3)]
    out += [[n, list(s)] for n in ("geo", "leo") for s in itertools.product(tiny, repeat=4)]
    out += [[n, list(s)] for n in ("geo", "leo") for s in itertools.product(rough, repeat=2)]
    out += [[n, list(s)] for n in ("geo", "leo") for s in itertools.product(wide, repeat=2)]
    out += [[n, list(s)] for n in ("geo", "leo") for s in itertools.product(fine, repeat=3)]
    out += [["meo", ["mA1"] * 40], ["geo", ["nA1", "mB2"] * 20], ["leo", ["mA1", "sA2", "bB1", "mC3"] * 10]]
    if tier == "thorough":
        out += [[n, list(s)] for n in ("leo", "sso", "heo", "xgeo") for s in itertools.product(full, repeat=2)]
        out += [[n, list(s)] for n in ("leo", "polar") for s in itertools.product(few, repeat=3)]
        out += [["geo", list(s)] for s in itertools.product(few[:9], repeat=4)]
        out += [[n, list(s)] for n in ("geo", "meo") for s in itertools.product(tiny, repeat=6)]
    return out


def run_ahead(case, ctx):
    """using the propagator of the filter to look ahead or back between observations, which follows only the last one"""
    name, seq = case
    # the epoch of the estimate is the one given, whatever that of the propagator
    kal, m = new_filter(name, INIT, {"later": 0.01, "earlier": -0.5}.get(seq[0], 0.0))
    t = 0.0
    for k, op in enumerate(seq):
        what = f"after {' '.join(seq[: k + 1])} on {name}"
        if op == "ahead":
            kal.propagator.step()
        elif op == "back":
            kal.propagator.step_by_seconds(-77.0)
        elif op in ("later", "earlier"):
            pass
        elif op == "matrix":
            kal.propagator.system_matrix(500.0)
        else:
            t += GAPS[op[0]]
            ob, args = observation(name, t, op)
            kal.process(ob)
            m.process(*args)
            compare(kal, m, what)
        close_vec(alpha.t6(kal.x00)[:3], m.x[:3], m.slack[0], "estimate " + what)
        close(kal.epoch.value, m.mjd, 1e-10, "filter epoch " + what)
        ctx.step()
        ctx.state(name, t, op, m.x)
    ctx.outcome(m.x)


def run_inter(case, ctx):
    """three filters on two orbits, and one made on the way, fed in every order"""
    names = ["geo", "leo", "geo"]
    inits = [INIT, (3.0, -30.0, 10.0, 0.0, 1e-3, 2e-3), (4.0, -33.0, 12.0, -1e-3, 0.0, 0.0)]
    pairs = [new_filter(n, i) for n, i in zip(names, inits)]
    t = 0.0
    for k, op in enumerate(case):
        what = f"after {' '.join(case[: k + 1])}"
        t += 300.0
        if op == "new":
            pairs.append(new_filter("meo", INIT))
            names.append("meo")
        elif op == "0p":  # the covariance of one filter is inflated in place
            kal, m = pairs[0]
            kal.p00.row1.x *= 3.0
            kal.p00.row5.vy *= 2.0
            m.p = [[c * (3.0 if i == j == 0 else 2.0 if i == j == 4 else 1.0) for j, c in enumerate(row)] for i, row in enumerate(m.p)]
        elif op == "1q":
            kal, m = pairs[1]
            kal.q.row2.y += 1e-4
            kal.q.row6.vz += 1e-9
            m.q = [[c + (1e-4 if i == j == 1 else 1e-9 if i == j == 5 else 0.0) for j, c in enumerate(row)] for i, row in enumerate(m.q)]
        else:
            i = int(op[0])
            ob, args = observation(names[i], t, "m" + op[1:])
            pairs[i][0].process(ob)
            pairs[i][1].process(*args)
        for j, (kal, m) in enumerate(pairs):
            compare(kal, m, f"of filter {j} {what}")
        defaults(what)
        ctx.step()
        ctx.state(*[m.mjd for _, m in pairs])
    ctx.outcome([m.x for _, m in pairs])


def inter_cases(tier):
    ops = ["0A1", "1B2", "2B1", "new", "0B2", "0p", "1q"]
    return [list(s) for s in itertools.product(ops, repeat=4 if tier == "quick" else 5)]


def run_craft(case, ctx):
    """spacecraft acquiring and observing; the observations are free of noise here (see C21)"""
    name, size, ops = case
    r, v = alpha.orbit(name)
    a = Spacecraft(alpha.gcrf(MJD, r, v))
    ra, va = ref.from_hcw((-11.0, 5.0, 3.0), (0.0, 0.0, 0.001), r, v)
    tgt = Spacecraft(alpha.gcrf(MJD, ra, va))
    rb, vb = ref.from_hcw((-11.5, 5.5, 2.5), (0.0, 0.0, 0.0), r, v)
    lag = 900.0 / 86400  # the seed is given at a later epoch
    sb = ref.kepler_propagate(rb, vb, 900.0)
    seed = Spacecraft(alpha.gcrf(MJD + lag, *sb))
    tgt.body_radius = size
    third = Spacecraft(alpha.gcrf(MJD, *alpha.orbit("meo")))
    m = None
    envrandom.script([], [])

    def acquire():
        a.acquire(seed)
        ro, vo = alpha.t3(a.position()), alpha.t3(a.velocity())
        close(seed.current_epoch().value, a.current_epoch().value, 1e-10, "epoch of the acquired target")
        x, xd = ref.to_hcw(ro, vo, alpha.t3(seed.position()), alpha.t3(seed.velocity()))
        sma = 1 / (2 / ref.norm(ro) - ref.dot(vo, vo) / ref.MU)
        f = ref.hill_matrix(sqrt(ref.MU / sma**3), 3000.0)
        got = alpha.m6(a.filter.propagator.system_matrix(3000.0))
        for i in range(6):
            for j in range(6):
                close(got[i][j], f[i][j], 1e-9 * max(abs(f[i][j]), 1e-9), f"relative transition ({i + 1}, {j + 1}) of the acquired target on {name}")
        return Ref(a.current_epoch().value, x + xd, sma)

    m = acquire()
    compare(a.filter, m, "after acquiring the target")
    for k, op in enumerate(ops):
        what = f"after {' '.join(ops[: k + 1])} with a target of {size} km on {name}"
        if op == "step":
            a.step()
        elif op == "burn":
            a.impulsive_maneuver(alpha.V((0.0, 0.001, 0.0)))
        elif op == "link":
            seed.track_state(third)
        elif op == "seedsun":
            seed.track_sun()
        elif op == "acquire":
            m = acquire()
        else:
            tgt.step_to_epoch(a.current_epoch())
            a.track_state(tgt)
            cam = a.wfov if op == "wfov" else a.nfov
            (a.process_wfov if op == "wfov" else a.process_nfov)(tgt)
            ro, vo = alpha.t3(a.position()), alpha.t3(a.velocity())
            d = ref.sub(alpha.t3(tgt.position()), ro)
            rng = ref.norm(d)
            from math import tan

            fov = 5.0 * alpha.D2R if op == "wfov" else 0.125 * alpha.D2R
            close(cam.fov, fov, 1e-15, "field of view")
            err = tan(fov) * rng * 0.5 / 3072 * rng / (2 * size)
            m.process(a.current_epoch().value, ro, vo, d, err, 1e-5)
        compare(a.filter, m, what)
        ctx.step()
        ctx.state(name, size, m.x)
    defaults(f"after {ops}")
    ctx.outcome(m.x)


def dense(scale_r, scale_v, k):
    """a symmetric positive definite matrix without zeros"""
    b = [[1.0 + 0.3 * ((3 * i + 5 * j + k) % 7) if i == j else 0.1 * ((2 * i + 3 * j + k) % 5 - 2) for j in range(6)] for i in range(6)]
    m = ref.matmul(b, ref.transpose(b))
    s = [scale_r] * 3 + [scale_v] * 3
    return [[0.5 * (m[i][j] + m[j][i]) * s[i] * s[j] for j in range(6)] for i in range(6)]


TUNED = {"q": (None, dense(1e-2, 1e-5, 1)), "p": (dense(3.0, 1e-3, 2), None), "pq": (dense(0.5, 1e-2, 4), dense(1e-1, 1e-3, 3))}


def run_tuned(case, ctx):
    """filters with other initial covariances and process noises"""
    name, which, seq = case
    kal, m = new_filter(name, INIT)
    p, q = TUNED[which]
    if p:
        kal.p00 = Matrix6D(*[alpha.V6(r) for r in p])
        m.p = p
    if q:
        kal.q = Matrix6D(*[alpha.V6(r) for r in q])
        m.q = q
    t = 0.0
    for k, letter in enumerate(seq):
        t += GAPS[letter[0]]
        ob, args = observation(name, t, letter)
        kal.process(ob)
        m.process(*args)
        compare(kal, m, f"after {' '.join(seq[: k + 1])} on {name} with other covariances ({which})")
        ctx.step()
        ctx.state(name, which, t, letter, m.x)
    defaults(f"after {seq}")
    ctx.outcome(m.x)


def tuned_cases(tier):
    few = letters("snb", "AB", "12") + ["hC3", "mC1"]
    d = 2 if tier == "quick" else 3
    return [[n, w, list(s)] for n in ("geo", "leo") for w in sorted(TUNED) for s in itertools.product(few, repeat=d)]


def craft_cases(tier):
    ops = ["step", "wfov", "nfov", "acquire", "burn"]
    d = 3 if tier == "quick" else 5
    out = [["geo", 0.005, list(s)] for s in itertools.product(ops, repeat=d)]
    out += [["geo", 0.005, list(s)] for s in itertools.product(["step", "wfov", "acquire", "link", "seedsun"], repeat=3)]
    return out + [[n, z, list(s)] for n in ("leo", "geo") for z in (0.001, 0.05) for s in itertools.product(["step", "wfov", "nfov"], repeat=3)]


GROUPS = [
    Group("history", history_cases, run_history, doc="all observation sequences: 66 letters (6 gaps x 3 offsets x 3 error levels, and without range or angular error; and 28 with directions at the zero meridian and across the poles; and 14 with range errors of 150 and 3000 km; and 17 at 60 m and 2500 km, 0.5 s, a week and a day back; and 17 with errors of 3 cm and 1e-5 rad, 40 cm and 2e-6 rad) of length 2, 14 of length 3, 5 of length 4 on up to 4 (thorough 7) orbits; chains of 40"),
    Group("tuned", tuned_cases, run_tuned, doc="3 other initial covariances and process noises x all sequences of 14 letters of length 2 (3) on 2 orbits"),
    Group("exact", exact_cases, run_exact, doc="4 orbits x 15 first observations without error x 5 histories of ordinary ones after it"),
    Group("ahead", lambda t: [[n, f + list(s)] for n in ("geo", "leo") for f in ([], ["later"], ["earlier"]) for s in itertools.product(["ahead", "back", "matrix", "mA1", "sB2", "nA1", "bC3"], repeat=3 if t == "quick" else 5)], run_ahead, doc="propagators of the epoch of the filter, later and earlier: all sequences of 7 operations of length 3 (5): observations, and the propagator of the filter used in between"),
    Group("interleaved", inter_cases, run_inter, doc="all sequences of 7 operations of length 4 (5) on three filters and new ones, incl. changes in place of the covariance or process noise of one"),
    Group("spacecraft", craft_cases, run_craft, doc="all sequences of 5 operations of length 3 (5) of a spacecraft acquiring, stepping, burning and observing, and of 5 where the target is itself commanded"),
]
ASSUMPTIONS = ["the reference recursion is evaluated in double precision; rounding of the error offsets is bounded by 5e-15 of the orbital radius"]
