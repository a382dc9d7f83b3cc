"""C09 force model"""
import itertools
from math import pi

import alpha
import ref
from engine import Group, close, close_vec, grid, require
from openspace.bodies.celestial import Earth
from openspace.math.functions import LegendrePolynomial

DIRS = [
    (1.0, 0.0, 0.001), (0.0, 1.0, 0.001), (0.01, 0.02, 1.0), (0.01, -0.02, -1.0), (1.0, 1.0, 1.0), (-1.0, 1.0, 1.0), (1.0, -1.0, 1.0),
    (1.0, 1.0, -1.0), (-1.0, -1.0, 1.0), (-1.0, 1.0, -1.0), (1.0, -1.0, -1.0), (-1.0, -1.0, -1.0), (-0.9, 0.1, 0.0), (0.3, -0.7, 0.0),
    (0.2, 0.5, 0.9), (-0.8, 0.3, -0.2), (0.0, 0.0, 1.0), (0.0, 0.0, -1.0), (1e-4, -2e-4, 1.0), (1.0, 0.0, 0.0), (0.0, -1.0, 0.0),
]  # fmt: skip
LINES = [(b, a) for b in ("sun", "moon") for a in (0.0, 0.3, 5.0, 60.0, 90.0, 120.0, 165.0, 171.0, 176.0, 179.0, 180.0)]
RADII = [6378.5, 6478.0, 6778.0, 8000.0, 12000.0, 26560.0, 42164.17, 120000.0, 450000.0, 1.5e6]
TOL = 1e-7


def rel(got, want, what, tol=TOL, floor=0.0):
    w = ref.norm(want)
    close_vec(got, want, tol * w + floor, what)


def direction(d, mjd):
    """a vector, or a name and an angle in degrees from the line to the Sun or the Moon (180: opposite)"""
    if not isinstance(d[0], str):
        return d
    u = ref.unit((ref.sun if d[0] == "sun" else ref.moon)(mjd))
    return ref.rodrigues(u, ref.cross(u, (0.3, -0.2, 0.9)), d[1] * pi / 180)


def run_terms(case, ctx):
    d, rm, mjd = case
    d = direction(d, mjd)
    r = ref.mul(ref.unit(d), rm)
    v = (1.0, 2.0, -3.0)
    st = alpha.gcrf(mjd, r, v)
    w = f"at {r}, MJD {mjd}"
    eps = 4e-16 * ref.MU / rm**2
    rel(alpha.t3(st.acceleration_from_earth()), ref.twobody(r), "central gravity " + w, 1e-12)
    # the code may measure the latitude from the first-order nutation: 1e-8 relative
    rel(alpha.t3(st.acceleration_from_gravity()), ref.geopotential(mjd, r), "geopotential " + w, 1.5e-7, eps)
    rel(alpha.t3(st.acceleration_from_moon()), ref.third_body(ref.moon(mjd), ref.MU_MOON, r), "lunar gravity " + w, 1e-8, 1e-16)
    rel(alpha.t3(st.acceleration_from_sun()), ref.third_body(ref.sun(mjd), ref.MU_SUN, r), "solar gravity " + w, 1e-8, 1e-16)
    close_vec(alpha.t3(st.acceleration_from_srp()), (0, 0, 0), 0, "radiation pressure without coefficient " + w)
    for k in (-0.5, 0.005, 0.1276, 20.0, 900.0):
        st.srp_scalar = k
        rel(alpha.t3(st.acceleration_from_srp()), ref.srp(mjd, r, k), f"radiation pressure with {k} " + w, 1e-8)
    close_vec(alpha.t3(st.acceleration_from_thrust()), (0, 0, 0), 0, "thrust " + w)
    # each contribution is what it is whether or not the perturbations are taken into account by the derivative
    st.use_perturbations = False
    rel(alpha.t3(st.acceleration_from_earth()), ref.twobody(r), "central gravity, switched off " + w, 1e-12)
    rel(alpha.t3(st.acceleration_from_moon()), ref.third_body(ref.moon(mjd), ref.MU_MOON, r), "lunar gravity, switched off " + w, 1e-8, 1e-16)
    rel(alpha.t3(st.acceleration_from_sun()), ref.third_body(ref.sun(mjd), ref.MU_SUN, r), "solar gravity, switched off " + w, 1e-8, 1e-16)
    rel(alpha.t3(st.acceleration_from_srp()), ref.srp(mjd, r, k), "radiation pressure, switched off " + w, 1e-8)
    ctx.step(14)
    ctx.state(*case)
    ctx.outcome(alpha.t3(st.acceleration_from_gravity()))


def run_lunar(case, ctx):
    """in the neighbourhood of the Moon, where its gravity is strong"""
    d, dist, mjd = case
    m = ref.moon(mjd)
    r = ref.add(m, ref.mul(ref.unit(d), dist))
    st = alpha.gcrf(mjd, r, (0.5, -0.3, 0.2))
    w = f"at {dist} km from the Moon towards {d}, MJD {mjd}"
    # the Moon itself is known to 5e-4 km (C10)
    tol = 1e-8 + 4e-3 / dist
    want = ref.third_body(m, ref.MU_MOON, r)
    rel(alpha.t3(st.acceleration_from_moon()), want, "lunar gravity " + w, tol)
    rel(alpha.t3(st.acceleration_from_sun()), ref.third_body(ref.sun(mjd), ref.MU_SUN, r), "solar gravity " + w, 1e-8, 1e-16)
    rel(alpha.t3(st.acceleration_from_earth()), ref.twobody(r), "central gravity " + w, 1e-12)
    for up in (True, False):
        st.use_perturbations = up
        total = ref.accel(mjd, r, up, 0.0, (0.0, 0.0, 0.0))
        close_vec(alpha.t3(st.derivative()[1]), total, tol * ref.norm(want) + 1e-12 * ref.norm(total) + 1e-15, f"acceleration, perturbations {up}, " + w)
    ctx.step(5)
    ctx.state(*case)
    ctx.outcome(want)


VELOCITIES = [(0.0, 0.0, 0.0), (0.02, -0.01, 0.03), (1.0, 0.0, 0.0), (0.0, 7.7, 0.0), (0.0, 0.0, -3.1), (20.0, -15.0, 9.0), (-300.0, 10.0, 250.0)]


def run_velocity(case, ctx):
    """the forces do not depend on the velocity"""
    v, d, rm, mjd = case
    r = ref.mul(ref.unit(d), rm)
    st = alpha.gcrf(mjd, r, v)
    w = f"at {r}, velocity {v}, MJD {mjd}"
    st.srp_scalar = 0.5
    rel(alpha.t3(st.acceleration_from_earth()), ref.twobody(r), "central gravity " + w, 1e-12)
    rel(alpha.t3(st.acceleration_from_gravity()), ref.geopotential(mjd, r), "geopotential " + w, 1.5e-7, 4e-16 * ref.MU / rm**2)
    rel(alpha.t3(st.acceleration_from_moon()), ref.third_body(ref.moon(mjd), ref.MU_MOON, r), "lunar gravity " + w, 1e-8, 1e-16)
    rel(alpha.t3(st.acceleration_from_sun()), ref.third_body(ref.sun(mjd), ref.MU_SUN, r), "solar gravity " + w, 1e-8, 1e-16)
    rel(alpha.t3(st.acceleration_from_srp()), ref.srp(mjd, r, 0.5), "radiation pressure " + w, 1e-8)
    for up in (True, False):
        st.use_perturbations = up
        got = st.derivative()
        close_vec(alpha.t3(got[0]), v, 0, "derivative of position " + w)
        want = ref.accel(mjd, r, up, 0.5, (0.0, 0.0, 0.0))
        close_vec(alpha.t3(got[1]), want, 1.5e-7 * ref.norm(ref.sub(want, ref.twobody(r))) + 2e-15 * ref.norm(want) + 1e-16, f"acceleration, perturbations {up}, " + w)
    ctx.step(7)
    ctx.state(*case)
    ctx.outcome(v)


def velocity_cases(tier):
    return [[list(v), list(d), r, m] for v in VELOCITIES for d in DIRS for r in (6778.0, 42164.17, 300000.0) for m in alpha.EPOCHS[:: 4 if tier == "quick" else 1]]


def lunar_cases(tier):
    return [[list(d), x, m] for d in DIRS for x in (1750.0, 1850.0, 2500.0, 5000.0, 12000.0, 30000.0, 66000.0) for m in (alpha.EPOCHS if tier == "quick" else alpha.epochs("thorough"))]


def term_cases(tier):
    eps = alpha.epochs("thorough") + alpha.EPOCHS_FAR + ([] if tier == "quick" else [40000.0 + 97.31 * k for k in range(400)])
    return [[list(d), r, m] for d in DIRS + LINES for r in RADII for m in eps]


THRUST = [(0.0, 0.0, 0.0), (1e-5, 0.0, 0.0), (-2e-6, 3e-6, 5e-6), (0.0, -4e-6, 0.0), (0.0, 0.0, 7e-6), (0.3, -0.5, 0.2), (2e-10, -5e-11, 3e-11)]


def run_total(case, ctx):
    """sum of the terms in every configuration; the configuration is changed on one state in the listed order"""
    d, rm, mjd, order = case
    d = direction(d, mjd)
    r = ref.mul(ref.unit(d), rm)
    v = (3.0, -4.0, 5.0)
    st = alpha.gcrf(mjd, r, v)
    require(st.use_perturbations is True or st.use_perturbations == 1, "perturbations are not enabled on a new state")
    for th, sc, up in order:
        st.thrust = alpha.V(THRUST[th])
        st.srp_scalar = sc
        st.use_perturbations = bool(up)
        w = f"at {r}, MJD {mjd}, thrust {THRUST[th]}, coefficient {sc}, perturbations {bool(up)}"
        for _ in range(2):
            close_vec(alpha.t3(st.acceleration_from_thrust()), THRUST[th], 0, "acceleration from thrust " + w)
            got = st.derivative()
            require(len(got) == 2, "derivative has not two vectors")
            close_vec(alpha.t3(got[0]), v, 0, "derivative of position " + w)
            want = ref.accel(mjd, r, bool(up), sc, THRUST[th])
            # tolerance from the perturbations, not from the central term they would hide in
            pert = ref.norm(ref.sub(want, ref.twobody(r)))
            tol = 1.5e-7 * pert + 2e-15 * ref.norm(want) + 1e-16
            close_vec(alpha.t3(got[1]), want, tol, "acceleration " + w)
            ctx.step()
        got[0].x += 1.0
        got[1].x += 1.0
        close_vec(alpha.t3(st.position), r, 0, "position changed " + w)
        close_vec(alpha.t3(st.velocity), v, 0, "velocity changed " + w)
        close_vec(alpha.t3(st.thrust), THRUST[th], 0, "thrust changed " + w)
        close(st.epoch.value, mjd, 0, "epoch changed " + w)
        ctx.state(d, rm, mjd, th, sc, up)
    ctx.outcome(alpha.t3(got[1]))


CONF = [list(c) for c in itertools.product(range(len(THRUST)), (0.0, 0.02, -0.01), (0, 1))]


def total_cases(tier):
    eps = alpha.EPOCHS if tier == "quick" else alpha.epochs("thorough")
    out = []
    for d in DIRS + LINES:
        for rm in (6778.0, 42164.17, 200000.0):
            for m in eps:
                out.append([list(d), rm, m, CONF])
                out.append([list(d), rm, m, CONF[::-1]])
    out += [[[0.2, 0.5, -0.9], 7000.0, m, CONF] for m in alpha.EPOCHS_FAR]
    # all ordered pairs of configurations
    out += [[[0.2, 0.5, 0.9], 7000.0, 60000.25, [a, b]] for a in CONF for b in CONF]
    return out


def run_legendre(case, ctx):
    phi = case
    from math import cos, sin

    p = LegendrePolynomial(phi).p
    s, c = sin(phi), cos(phi)
    # recursion
    P = {(0, 0): 1.0}
    for m in range(0, 5):
        if m > 0:
            P[(m, m)] = (2 * m - 1) * c * P[(m - 1, m - 1)]
        if m < 4:
            P[(m + 1, m)] = (2 * m + 1) * s * P[(m, m)]
        for n in range(m + 2, 5):
            P[(n, m)] = ((2 * n - 1) * s * P[(n - 1, m)] - (n + m - 1) * P[(n - 2, m)]) / (n - m)
    for (n, m), want in P.items():
        close(p[n][m], want, 1e-12 * max(1, abs(want)) * 10, f"Legendre function ({n}, {m}) at {phi}")
        ctx.step()
    ctx.state(phi)
    ctx.outcome(p[4][1])


def run_coeff(case, ctx):
    for (n, m), c in ref.C_NM.items():
        close(Earth.C[n][m], c, 1e-12 * abs(c), f"coefficient C({n}, {m})")
        close(Earth.S[n][m], ref.S_NM.get((n, m), 0.0), 1e-12 * abs(ref.S_NM.get((n, m), 0.0)), f"coefficient S({n}, {m})")
        ctx.step(2)
    ctx.state("coefficients")


def run_sequence(case, ctx):
    """states of different places, epochs and settings evaluated in every order, and one state moved along"""
    pool = POOL
    objs = {}
    for k in case + case[::-1]:
        mjd, r, sc, up = pool[k]
        if k not in objs:
            st = alpha.gcrf(mjd, r, (1.0, 0.0, 0.0))
            st.srp_scalar, st.use_perturbations = sc, up
            objs[k] = st
        got = alpha.t3(objs[k].derivative()[1])
        want = ref.accel(mjd, r, up, sc)
        pert = ref.norm(ref.sub(want, ref.twobody(r)))
        close_vec(got, want, 1.5e-7 * pert + 2e-15 * ref.norm(want) + 1e-16, f"acceleration in the history {case}, state {pool[k]}")
        ctx.step()
    # the same state moved in place
    st = objs[case[0]]
    for k in case:
        mjd, r, sc, up = pool[k]
        st.position = alpha.V(r)
        st.epoch = alpha.E(mjd)
        st.srp_scalar, st.use_perturbations = sc, up
        got = alpha.t3(st.derivative()[1])
        want = ref.accel(mjd, r, up, sc)
        pert = ref.norm(ref.sub(want, ref.twobody(r)))
        close_vec(got, want, 1.5e-7 * pert + 2e-15 * ref.norm(want) + 1e-16, f"acceleration after moving the state, {case}, {pool[k]}")
        ctx.step()
    ctx.state(*case)
    ctx.outcome(got)


EDITS = ["position.x", "position.y", "position.z", "velocity.x", "velocity.y", "velocity.z", "thrust.x", "thrust.y", "thrust.z", "epoch.value", "srp_scalar", "use_perturbations"]
SIZE = {"position": (400.0, 1e-3), "velocity": (1.0, 1e-6), "thrust": (1e-5, 1e-7), "epoch": (3.0, 1e-4), "srp_scalar": (0.5, 1e-3)}


def run_edits(case, ctx):
    """attributes of one state changed in place, one at a time"""
    edits, fine, at = case
    mjd, r, v, th, sc, up = 60000.25, [7000.0, 900.0, -3000.0], [1.0, -2.0, 3.0], [0.0, 0.0, 0.0], 0.02, True
    if at:
        mjd, r = 51544.5, [-30000.0, 28000.0, 5000.0]
    st = alpha.gcrf(mjd, tuple(r), tuple(v))
    st.thrust = alpha.V(th)
    st.srp_scalar = sc
    for k in [None] + list(edits):
        if k is not None:
            name, _, part = EDITS[k].partition(".")
            if name == "use_perturbations":
                up = not up
                st.use_perturbations = up
            else:
                d = SIZE[name][fine]
                if name == "srp_scalar":
                    sc += d
                    st.srp_scalar = sc
                elif name == "epoch":
                    mjd += d
                    st.epoch.value = mjd
                else:
                    {"position": r, "velocity": v, "thrust": th}[name]["xyz".index(part)] += d
                    setattr(getattr(st, name), part, {"position": r, "velocity": v, "thrust": th}[name]["xyz".index(part)])
        got = st.derivative()
        want = ref.accel(mjd, tuple(r), up, sc, tuple(th))
        pert = ref.norm(ref.sub(want, ref.twobody(r)))
        w = f"after changing {[EDITS[e] for e in edits]} one after another"
        close_vec(alpha.t3(got[0]), tuple(v), 0, "derivative of position " + w)
        close_vec(alpha.t3(got[1]), want, 1.5e-7 * pert + 2e-15 * ref.norm(want) + 1e-16, "acceleration " + w)
        ctx.step()
    ctx.state(*case)
    ctx.outcome(alpha.t3(got[1]))


def edit_cases(tier):
    return [[list(p), f, a] for n in (1, 2) + ((3,) if tier == "thorough" else ()) for p in itertools.product(range(len(EDITS)), repeat=n) for f in (0, 1) for a in (0, 1)]


POOL = [
    (60000.25, (7000.0, 100.0, -300.0), 0.0, True),
    (60000.25 + 150 / 86400, (7000.0, 100.0, -300.0), 0.0, True),
    (60000.25 + 1.0, (7000.0, 100.0, -300.0), 0.0, True),
    (60000.25, (7000.0, 100.0, -300.0), 0.05, True),
    (60000.25, (7000.0, 100.0, -300.0), 0.05, False),
    (60000.25, (-7000.0, -100.0, 300.0), 0.0, True),
    (51544.5, (20000.0, 30000.0, -10000.0), 0.0, True),
    (51550.5, (0.0, 42164.0, 5.0), 1.0, True),
]


GROUPS = [
    Group("velocity", velocity_cases, run_velocity, doc="7 velocities of 0 to 390 km/s x 21 directions x 3 radii x every fourth (every) usual epoch"),
    Group("lunar", lunar_cases, run_lunar, doc="21 directions x 7 distances of 1750-66000 km from the Moon x 12 (33) epochs"),
    Group("terms", term_cases, run_terms, doc="21 directions and 22 along and off the lines to Sun and Moon x 10 radii x 33 (433) epochs, each acceleration alone, 5 radiation coefficients"),
    Group("total", total_cases, run_total, doc="all 28 settings of thrust, coefficient and switch in both orders at 43x3x13 (43x3x33) states, all ordered pairs of settings at one"),
    Group("edits", edit_cases, run_edits, doc="all sequences of 2 (3) changes in place of one of the 12 components of a state, large and small, at 2 places"),
    Group("legendre", lambda t: [k * pi / 360 for k in range(-180, 181)], run_legendre, doc="latitudes every half degree, all 15 functions"),
    Group("coefficients", lambda t: [0], run_coeff, doc="all 24 coefficients"),
    Group("sequence", lambda t: [list(p) for p in itertools.product(range(len(POOL)), repeat=2)] + [list(p) for p in itertools.permutations(range(len(POOL)), 3)], run_sequence, doc="all ordered pairs and triples of 8 states, forward and back, and one state moved through them"),
]  # fmt: skip
ASSUMPTIONS = ["EGM-96 coefficients to degree and order 4 as published", "Sun and Moon as in C10, frames as in C03", "positions exactly on the polar axis are outside of the domain (longitude undefined)"]
assert grid
