"""C18 Gauss orbit determination"""
import itertools
from math import atan2, cos, pi, sin, sqrt

import alpha
import ref
from engine import Group, Violation, close, close_vec, grid, in_range
from openspace.coordinates.states import ITRF
from openspace.estimation.iod import Gauss
from openspace.estimation.obs import GroundObservation, Observation, SpaceObservation

D = pi / 180
TWO_PI = 2 * pi


class Exact(Observation):
    """an observation with a given IJK position"""

    def __init__(self, mjd, r):
        self._mjd, self._r = mjd, r

    def ijk_position(self):
        return alpha.V(self._r)

    def epoch(self):
        return alpha.E(self._mjd)


def mean_of_true(nu, e):
    ea = 2 * atan2(sqrt(1 - e) * sin(nu / 2), sqrt(1 + e) * cos(nu / 2))
    return ea - e * sin(ea)


def arc(a, e, i, raan, aop, nu, sep, mjd):
    """two exact positions, sep degrees of true anomaly apart, at epochs which are floating point numbers"""
    m1, m2 = mean_of_true(nu * D, e), mean_of_true((nu + sep) * D, e)
    while m2 < m1:
        m2 += TWO_PI
    n = sqrt(ref.MU / a**3)
    mjd2 = mjd + (m2 - m1) / n / 86400
    dt = (mjd2 - mjd) * 86400
    r1, v1 = ref.elements_to_state(a, e, i * D, raan * D, aop * D, m1)
    r2, _ = ref.elements_to_state(a, e, i * D, raan * D, aop * D, m1 + n * dt)
    return mjd, r1, v1, mjd2, r2, dt


def state_of(coes, dt=0.0):
    for name in ("semimajor_axis", "eccentricity", "inclination", "raan", "argument_of_perigee", "mean_anomaly"):
        val = getattr(coes, name)
        if isinstance(val, complex) or val != val:
            raise Violation(f"{name} is {val!r}")
    if not (coes.semimajor_axis > 0 and 0 <= coes.eccentricity < 1):
        raise Violation(f"not an ellipse: semi-major axis {coes.semimajor_axis!r}, eccentricity {coes.eccentricity!r}")
    n = sqrt(ref.MU / coes.semimajor_axis**3)
    return ref.elements_to_state(
        coes.semimajor_axis, coes.eccentricity, coes.inclination, coes.raan, coes.argument_of_perigee, coes.mean_anomaly + n * dt
    )


def run_orbit(case, ctx):
    a, e, i, sep = case
    for raan, aop in NODES:
        for nu in ANOMALIES:
            mjd, r1, v1, mjd2, r2, dt = arc(a, e, i, raan, aop, nu, sep, 60000.25)
            what = f"for a={a}, e={e}, i={i}, raan={raan}, aop={aop}, nu={nu} and {sep} degrees later"
            coes = Gauss.coes_from_positions(Exact(mjd, r1), Exact(mjd2, r2))
            # sensitivity to rounding: short arcs, nearly opposite positions and eccentric orbits
            sens = 1e-11 * (1 + 10 / sep) * (1 + 10 / (180 - sep)) ** 2 / (1 - e) ** 3
            close(coes.epoch.value, mjd, 0, "epoch " + what)
            close(coes.semimajor_axis, a, sens * a, "semi-major axis " + what)
            close(coes.eccentricity, e, sens, "eccentricity " + what)
            close(coes.inclination, i * D, 1e-7 if i in (0.0, 180.0) else 1e-8 * (1 + 1 / sep), "inclination " + what)
            in_range(coes.inclination, 0, pi, "inclination " + what)
            in_range(coes.raan, 0, TWO_PI, "raan " + what)
            in_range(coes.argument_of_perigee, 0, TWO_PI, "argument of perigee " + what)
            got1, vel1 = state_of(coes)
            close_vec(got1, r1, sens * a + 3e-9 * ref.norm(r1), "first position " + what)
            close_vec(vel1, v1, (sens * 10 + 1e-8) * ref.norm(v1) / (1 - e), "velocity at the first position " + what)
            got2, _ = state_of(coes, dt)
            close_vec(got2, r2, (sens * 10 + 1e-8) * ref.norm(r2) / (1 - e), "second position " + what)
            ctx.step(4)
            ctx.state(*case, raan, aop, nu)
    ctx.outcome(coes.semimajor_axis, coes.mean_anomaly)


NODES = [(0.0, 0.0), (200.0, 30.0), (75.0, 310.0), (330.0, 180.0)]
ANOMALIES = [0.0, 0.04, 30.0, 60.0, 90.0, 125.0, 150.0, 180.0, 212.0, 255.0, 270.0, 300.0, 345.0, 359.95, 359.999]
INCS = [0.0, 0.05, 30.0, 63.4, 90.0, 144.0, 179.0, 180.0]
SEPS = [0.5, 2.0, 10.0, 30.0, 60.0, 90.0, 120.0, 150.0, 170.0]


def orbit_cases(tier):
    if tier == "quick":
        return grid([6600.0, 26560.0, 42164.17, 200000.0, 1e6], [0.0, 0.0005, 0.05, 0.15, 0.3, 0.5, 0.7, 0.8, 0.9, 0.95], INCS, SEPS + [0.1, 5.0, 135.0, 175.0, 178.0])
    return grid([6600.0, 7000.0, 26560.0, 42164.17, 200000.0], [0.0, 1e-6, 0.0005, 0.01, 0.05, 0.15, 0.3, 0.5, 0.7, 0.8, 0.9, 0.95], INCS + [10.0, 89.999, 120.0], SEPS + [1.0, 5.0, 45.0, 75.0, 105.0, 135.0, 175.0])


SITES = [(38.8, -104.5, 1.9), (-35.0, 149.0, 0.7), (60.0, 10.0, 0.1)]


def gcrf_of_ijk(mjd, r):
    itrf = ref.matvec(ref.rz(ref.gmst(mjd)), r)
    return ref.matvec(ref.transpose(ref.gcrf_to_itrf_matrix(mjd)), itrf), itrf


def ground(mjd, r, k):
    lat, lon, alt = SITES[k][0] * D, SITES[k][1] * D, SITES[k][2]
    spos = ref.lla_to_itrf(lat, lon, alt)
    _, itrf = gcrf_of_ijk(mjd, r)
    d = ref.matvec(ref.enz_axes(lat, lon), ref.sub(itrf, spos))
    st = ITRF.from_fixed(alpha.E(mjd), alpha.V(spos))
    rng = ref.norm(d)
    if k == 0:
        return GroundObservation(st, alpha.V(d), 0.0, 0.0)
    return GroundObservation.from_angles_and_range(st, atan2(d[0], d[1]), atan2(d[2], sqrt(d[0] ** 2 + d[1] ** 2)), rng, 0.0, 0.0)


def space(mjd, r, k):
    g, _ = gcrf_of_ijk(mjd, r)
    ro, vo = alpha.orbit(["leo", "geo", "heo"][k], 20.0)
    return SpaceObservation(alpha.gcrf(mjd, ro, vo), alpha.V(ref.sub(g, ro)), 0.0, 0.0)


def run_observed(case, ctx):
    """ground and space observations, and mixtures"""
    a, e, i, nu, sep, mjd = case
    mjd, r1, v1, mjd2, r2, dt = arc(a, e, i, 75.0, 310.0, nu, sep, mjd)
    first = None
    for k1, k2 in ((0, 0), (1, 2), (2, 1)):
        for m1, m2 in ((ground, ground), (space, space), (ground, space), (space, ground)):
            o1, o2 = m1(mjd, r1, k1), m2(mjd2, r2, k2)
            what = f"from {m1.__name__} {k1} and {m2.__name__} {k2} of {case}"
            p1, p2 = alpha.t3(o1.ijk_position()), alpha.t3(o2.ijk_position())
            close_vec(p1, r1, 3e-8 * ref.norm(r1) + 1e-3, "position of the first observation " + what)
            close_vec(p2, r2, 3e-8 * ref.norm(r2) + 1e-3, "position of the second observation " + what)
            coes = Gauss.coes_from_positions(o1, o2)
            close(coes.epoch.value, mjd, 0, "epoch " + what)
            sens = 1e-11 * (1 + 10 / sep) * (1 + 10 / (180 - sep)) ** 2 / (1 - e) ** 3
            got1, vel1 = state_of(coes)
            close_vec(got1, p1, sens * a + 3e-9 * ref.norm(r1), "first position " + what)
            got2, _ = state_of(coes, dt)
            close_vec(got2, p2, (sens * 10 + 1e-8) * ref.norm(r2) / (1 - e), "second position " + what)
            first = first or vel1
            # the frame conversions are good to a few 1e-8
            vt = 1e-6 * (1 + 10 / sep) * (1 + 10 / (180 - sep)) / (1 - e) ** 2 * ref.norm(v1)
            close_vec(vel1, first, vt, "velocity compared with other observations " + what)
            close_vec(vel1, v1, vt, "velocity " + what)
            ctx.step(3)
    ctx.state(*case)
    ctx.outcome(first)


def observed_cases(tier):
    if tier == "quick":
        return grid([9000.0, 42164.17], [0.001, 0.4], [0.0, 28.5, 98.0, 180.0], [10.0, 90.0, 200.0], [15.0, 100.0], [60000.25, 51179.31, 53736.0008, -1000.3])
    return grid([9000.0, 26560.0, 42164.17], [0.0, 0.001, 0.1, 0.4, 0.7], [0.0, 0.05, 28.5, 90.0, 98.0, 180.0], [10.0, 90.0, 200.0, 300.0], [15.0, 60.0, 100.0, 150.0], [60000.25, 51179.31, 53736.0008, 44238.7312, -1000.3, 88069.6])


def run_edits(case, ctx):
    """observations corrected between determinations, and roles exchanged"""
    a, e, i, kinds, seq = case
    mjd, r1, v1, mjd2, r2, dt = arc(a, e, i, 75.0, 310.0, 40.0, 50.0, 60000.25)
    obs = [{"g": ground, "s": space}[kinds[0]](mjd, r1, 0), {"g": ground, "s": space}[kinds[1]](mjd2, r2, 1)]
    for op in (None, *seq):
        if op in ("corr1", "corr2"):
            o = obs[op == "corr2"]
            o.observed_direction.x += 0.02 * o.range
            o.observed_direction.z -= 0.013 * o.range
        elif op == "newdir":
            o = obs[0]
            d = alpha.t3(o.observed_direction)
            o.observed_direction = alpha.V(ref.add(d, ref.mul((d[2], d[0], d[1]), 0.03)))
        elif op == "late":
            obs[1].observer_state.epoch.value += 90.0 / 86400
        elif op == "early":
            obs[0].observer_state.epoch.value -= 60.0 / 86400
        what = f"after {seq} of observations {kinds} for a={a}, e={e}, i={i}"
        p1, p2 = alpha.t3(obs[0].ijk_position()), alpha.t3(obs[1].ijk_position())
        t = (obs[1].epoch().value - obs[0].epoch().value) * 86400
        coes = Gauss.coes_from_positions(*obs)
        fresh = Gauss.coes_from_positions(Exact(obs[0].epoch().value, p1), Exact(obs[1].epoch().value, p2))
        close(coes.epoch.value, obs[0].epoch().value, 0, "epoch " + what)
        close(coes.semimajor_axis, fresh.semimajor_axis, 1e-9 * a, "semi-major axis against that of the same positions " + what)
        close(coes.eccentricity, fresh.eccentricity, 1e-9, "eccentricity against that of the same positions " + what)
        got1, _ = state_of(coes)
        close_vec(got1, p1, 1e-7 * a, "first position " + what)
        got2, _ = state_of(coes, t)
        close_vec(got2, p2, 1e-6 * a, "second position " + what)
        coes.epoch.value += 3.0
        ctx.step(4)
    ctx.state(*case)
    ctx.outcome(got2)


EDITS = ["corr1", "corr2", "newdir", "late", "early"]


def edit_cases(tier):
    seqs = [list(p) for n in range(1, 4 if tier == "quick" else 5) for p in itertools.product(EDITS, repeat=n)]
    return [[a, e, i, k, s] for a, e, i in ((42164.17, 0.1, 28.5), (26560.0, 0.2, 98.0)) for k in ("gg", "ss", "gs") for s in seqs]


GROUPS = [
    Group("orbits", orbit_cases, run_orbit, timeout=20.0, doc="sizes x eccentricities 0-0.95 x inclinations incl. 0 and 180 x separations 0.5-170 (175) degrees x 4 orientations x 15 true anomalies, exact positions"),
    Group("observed", observed_cases, run_observed, timeout=20.0, doc="orbits x separations x epochs seen by 3 ground sites, 3 spacecraft and mixtures"),
    Group("edits", edit_cases, run_edits, timeout=20.0, doc="2 orbits x 3 pairs of observations, all sequences up to length 3 (4) of 5 corrections of direction and epoch, the orbit determined again after each"),
]
ASSUMPTIONS = ["tolerances grow with the conditioning of the arc: short, nearly opposite, or very eccentric"]
