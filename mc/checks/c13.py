"""C13 relative coordinates"""
import itertools
from math import cos, pi

import alpha
import ref
from engine import Group, close, close_mat, close_vec, grid
from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import HCW, StateConvert

X = [-500.0, -1.0, 0.0, 1e-3, 200.0]
Y = [-10000.0, -200.0, -1e-3, 0.0, 50.0, 3000.0]
Z = [-3000.0, -2.0, 0.0, 1e-3, 700.0]
VEL = [(0.0, 0.0, 0.0), (0.01, 0.0, 0.0), (0.0, -0.02, 0.0), (0.0, 0.0, 0.03), (-0.5, 0.3, 1.0)]
ORIGINS = sorted(alpha.ORBITS)


def hcw(mjd, x, xd):
    return HCW(alpha.E(mjd), alpha.V(x), alpha.V(xd))


# nearly circular: (radius, eccentricity, mean anomaly in degrees)
NEAR = {f"{a:.0f} e={e:g} m={m:.0f}": (a, e, m) for a in (6900.0, 42164.17) for e in (0.0, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4) for m in (90.0, 200.0, 270.0)}


# slow, far out: (semi-major axis, eccentricity, mean anomaly in degrees)
SLOW = {f"{a:.0f} e={e:g} m={m:.0f}": (a, e, m) for a, e in ((200000.0, 0.9), (42164.17, 0.85), (1e6, 0.2)) for m in (100.0, 150.0, 179.0, 180.0, 200.0, 260.0)}


def origin_of(name):
    if name in SLOW:
        a, e, m = SLOW[name]
        return ref.elements_to_state(a, e, 1.1, 2.0, 0.3, m * alpha.D2R)
    if name in NEAR:
        a, e, m = NEAR[name]
        return ref.elements_to_state(a, e, 0.9, 2.0, 0.3, m * alpha.D2R)
    return alpha.orbit(name)


def near_cases(tier):
    return grid(list(NEAR), [0.0, 3.0], [-200.0, 0.0], [0.0, 5.0])


def slow_cases(tier):
    return grid(list(SLOW), [-500.0, 0.0, 3.0], [-200.0, 0.0, 9000.0], [-40.0, 0.0, 5000.0])


def run_offset(case, ctx):
    name, x, y, z = case
    mjd = 60000.25
    r0, v0 = origin_of(name)
    origin = alpha.gcrf(mjd, r0, v0)
    R0, s0 = ref.norm(r0), ref.norm(v0)
    for xd in VEL:
        what = f"of the offset {(x, y, z)}, {xd} about {name}"
        rel = hcw(mjd + 3.0, (x, y, z), xd)
        g = StateConvert.hcw.to_gcrf(rel, origin)
        wr, wv = ref.from_hcw((x, y, z), xd, r0, v0)
        close_vec(alpha.t3(g.position), wr, 1e-12 * max(R0, abs(x)), "inertial position " + what)
        close_vec(alpha.t3(g.velocity), wv, 1e-12 * (s0 + 1) * max(1.0, abs(x) / R0), "inertial velocity " + what)
        close(g.epoch.value, mjd, 0, "epoch " + what)
        st = alpha.gcrf(mjd + 7.0, wr, wv)
        back = StateConvert.gcrf.to_hcw(origin, st)
        k = 1 / cos(z / R0) ** 2  # conditioning near the pole of the curvilinear coordinates
        far = max(1.0, ref.norm(wr) / R0)
        ptol = 1e-11 * R0 * k * far
        vtol = 1e-11 * (s0 + 1) * k * k * far * far
        close_vec(alpha.t3(back.position), (x, y, z), ptol, "relative position recovered " + what)
        close_vec(alpha.t3(back.velocity), xd, vtol, "relative velocity recovered " + what)
        close(back.epoch.value, mjd, 0, "epoch recovered " + what)
        close_vec(
            alpha.t6(back.vector), alpha.t3(back.position) + alpha.t3(back.velocity), 0, "state vector and components " + what
        )
        w2 = ref.to_hcw(r0, v0, wr, wv)
        close_vec(alpha.t3(back.velocity), w2[1], vtol, "relative velocity " + what)
        again = StateConvert.hcw.to_gcrf(back, origin)
        close_vec(alpha.t3(again.position), wr, ptol, "round trip position " + what)
        close_vec(alpha.t3(again.velocity), wv, vtol, "round trip velocity " + what)
        # nothing passed in has changed
        close_vec(alpha.t3(origin.position) + alpha.t3(origin.velocity), r0 + v0, 0, "origin changed")
        close_vec(alpha.t3(rel.position) + alpha.t3(rel.velocity), (x, y, z) + tuple(xd), 0, "relative state changed")
        ctx.step(3)
    ctx.state(*case)
    ctx.outcome(alpha.t3(g.position))


def offset_cases(tier):
    o = ORIGINS
    return grid(o, X, Y, Z)


def high_cases(tier):
    """far above and below the plane of the origin, all around it, and at other distances"""
    out = []
    for n in ORIGINS if tier == "thorough" else ("leo", "geo", "heo", "retro"):
        R0 = ref.norm(alpha.orbit(n)[0])
        for phi in (-1.56, -1.55, -1.5, -1.45, -1.2, -0.8, 0.3, 0.8, 1.2, 1.45, 1.5, 1.55, 1.56):
            for lam in (-3.1, -2.0, -pi / 2, -1.0, 0.0, 0.5, pi / 2, 2.5, 3.1):
                for x in (-0.9 * R0, -0.5 * R0, 0.0, 700.0, 9 * R0):
                    out.append([n, x, lam * R0, phi * R0])
    return out


def run_pair(case, ctx):
    """two real orbits as origin and target, both ways"""
    a, b, da, db = case
    r0, v0 = alpha.orbit(a, da)
    r1, v1 = alpha.orbit(b, db)
    mjd = 51544.5
    o, s = alpha.gcrf(mjd, r0, v0), alpha.gcrf(mjd, r1, v1)
    what = f"of {case}"
    h = StateConvert.gcrf.to_hcw(o, s)
    wr, wv = ref.to_hcw(r0, v0, r1, v1)
    sc = max(ref.norm(r0), ref.norm(r1))
    # conditioning near the pole of the curvilinear coordinates
    m = ref.matvec(ref.ric(r0, v0), r1)
    k = max(1.0, ref.norm(m) / max(1e-9, ref.norm(m[:2]))) ** 2
    if k > 1e4:
        return
    close_vec(alpha.t3(h.position), wr, 3e-12 * sc * k, "relative position " + what)
    close_vec(alpha.t3(h.velocity), wv, 3e-11 * k, "relative velocity " + what)
    back = StateConvert.hcw.to_gcrf(h, o)
    close_vec(alpha.t3(back.position), r1, 3e-12 * sc * k, "position after the round trip " + what)
    close_vec(alpha.t3(back.velocity), v1, 3e-11 * k, "velocity after the round trip " + what)
    A, B = Spacecraft(o), Spacecraft(s)
    close_vec(alpha.t3(A.hill_position(B)), wr, 3e-12 * sc * k, "Hill position of one spacecraft from another " + what)
    if a == b and da == db:
        close_vec(alpha.t3(h.position), (0, 0, 0), 1e-8, "origin about itself " + what)
        close_vec(alpha.t3(h.velocity), (0, 0, 0), 1e-11, "origin about itself " + what)
    fm = alpha.m3(HCW.frame_matrix(o))
    close_mat(fm, ref.ric(r0, v0), 1e-12, "radial, in-track, cross-track axes " + what)
    ctx.step(5)
    ctx.state(*case)
    ctx.outcome(wr)


def pair_cases(tier):
    an = [30.0 * k for k in range(12)] if tier == "quick" else [10.0 * k for k in range(36)]
    return grid(ORIGINS, ORIGINS, an, an)


def run_rate(case, ctx):
    """relative velocity is the derivative of relative position about a circular origin"""
    a, inc, off, vel = case
    r0, v0 = ref.elements_to_state(a, 0.0, inc * alpha.D2R, 0.4, 0.0, 1.1)
    r1, v1 = ref.from_hcw(off, vel, r0, v0)
    h = StateConvert.gcrf.to_hcw(alpha.gcrf(0, r0, v0), alpha.gcrf(0, r1, v1))
    d = 5.0
    ps = []
    for t in (-2 * d, -d, d, 2 * d):
        o, s = ref.kepler_propagate(r0, v0, t), ref.kepler_propagate(r1, v1, t)
        ps.append(alpha.t3(StateConvert.gcrf.to_hcw(alpha.gcrf(0, *o), alpha.gcrf(0, *s)).position))
    der = tuple((ps[0][j] - 8 * ps[1][j] + 8 * ps[2][j] - ps[3][j]) / (12 * d) for j in range(3))
    close_vec(der, alpha.t3(h.velocity), 3e-8, f"derivative of relative position of {case}")
    ctx.step(5)
    ctx.state(*case)
    ctx.outcome(der)


def rate_cases(tier):
    offs = [(0.0, 0.0, 0.0), (10.0, 0.0, 0.0), (0.0, -300.0, 0.0), (0.0, 0.0, 40.0), (-50.0, 1000.0, 200.0)]
    vels = [(0.0, 0.0, 0.0), (0.01, -0.02, 0.03), (0.0, 0.1, 0.0)]
    return [[a, i, list(o), list(v)] for a in (6900.0, 42164.0) for i in (0.0, 60.0, 130.0, 180.0) for o in offs for v in vels]


def run_axes(case, ctx):
    """small displacements along the axes, in closed form"""
    name, ax = case
    r0, v0 = alpha.orbit(name)
    m = ref.ric(r0, v0)
    for eps in (1e-4, 0.1, 1.0, -1e-4, -1.0):
        d = ref.mul(m[ax], eps)
        h = StateConvert.gcrf.to_hcw(alpha.gcrf(0, r0, v0), alpha.gcrf(0, ref.add(r0, d), v0))
        want = [0.0, 0.0, 0.0]
        want[ax] = eps
        close_vec(alpha.t3(h.position), want, eps * eps / 6000.0 + 1e-8, f"displacement {eps} along axis {ax} of {name}")
        dv = ref.mul(m[ax], eps * 1e-3)
        h = StateConvert.gcrf.to_hcw(alpha.gcrf(0, r0, v0), alpha.gcrf(0, r0, ref.add(v0, dv)))
        want[ax] = eps * 1e-3
        close_vec(alpha.t3(h.velocity), want, 1e-11, f"velocity {eps * 1e-3} along axis {ax} of {name}")
        close_vec(alpha.t3(h.position), (0, 0, 0), 1e-8, f"position with a velocity along axis {ax} of {name}")
        ctx.step(2)
    close(ref.dot(m[1], v0) > 0, True, 0, "in-track along the velocity")
    ctx.state(*case)
    ctx.outcome(want)


def run_history(case, ctx):
    """conversions about alternating origins"""
    orbs = [alpha.orbit(n, 5.0) for n in ("leo", "leo", "geo", "heo")]
    orbs[1] = (orbs[0][0], ref.mul(orbs[0][1], -1.0))  # same place, opposite motion
    objs = [alpha.gcrf(60000.0 + k, *o) for k, o in enumerate(orbs)]
    off, vel = (3.0, -40.0, 5.0), (0.001, 0.002, -0.003)
    for k in case:
        g = StateConvert.hcw.to_gcrf(hcw(1.0, off, vel), objs[k])
        want = ref.from_hcw(off, vel, *orbs[k])
        close_vec(alpha.t3(g.position), want[0], 1e-7, f"inertial position in the history {case}")
        close_vec(alpha.t3(g.velocity), want[1], 1e-10, f"inertial velocity in the history {case}")
        h = StateConvert.gcrf.to_hcw(objs[k], g)
        close_vec(alpha.t3(h.position), off, 1e-6, f"relative position in the history {case}")
        close_vec(alpha.t3(h.velocity), vel, 1e-9, f"relative velocity in the history {case}")
        close(g.epoch.value, 60000.0 + k, 0, "epoch")
        ctx.step(2)
    # an origin moved in place
    o = objs[0]
    for k in case:
        o.position, o.velocity = alpha.V(orbs[k][0]), alpha.V(orbs[k][1])
        g = StateConvert.hcw.to_gcrf(hcw(1.0, off, vel), o)
        close_vec(alpha.t3(g.position), ref.from_hcw(off, vel, *orbs[k])[0], 1e-7, f"inertial position about a moved origin in {case}")
        ctx.step()
    ctx.state(*case)
    ctx.outcome(alpha.t3(g.position))


GROUPS = [
    Group("offsets", offset_cases, run_offset, doc="9 origins x 5 x 6 x 5 offsets x 5 relative velocities, both conversions"),
    Group("nearly circular", near_cases, run_offset, doc="42 origins of eccentricity 0 to 1e-4 x 8 offsets x 5 relative velocities"),
    Group("slow", slow_cases, run_offset, doc="18 origins on large and eccentric orbits, speeds down to 0.1 km/s, x 27 offsets x 5 relative velocities"),
    Group("high", high_cases, run_offset, doc="4 (9) origins x 13 latitudes up to 89 degrees x 9 longitudes x 5 distances x 5 relative velocities"),
    Group("pairs", pair_cases, run_pair, doc="all ordered pairs of 9 orbits x 12x12 (36x36) anomalies"),
    Group("rate", rate_cases, run_rate, doc="2 radii x 4 inclinations x 5 offsets x 3 velocities, numerical derivative"),
    Group("axes", lambda t: grid(ORIGINS, [0, 1, 2]), run_axes, doc="9 origins x 3 axes x 5 displacements"),
    Group("history", lambda t: [list(s) for s in itertools.product(range(4), repeat=3)], run_history, doc="all sequences of 3 of 4 origins"),
]
ASSUMPTIONS = ["targets within 0.6 degrees of the origin's orbit pole are outside of the domain (longitude undefined)"]
