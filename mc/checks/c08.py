"""C08 orbit relations and transfers"""
from math import atan2, cos, pi, sin, sqrt

import alpha
import ref
from engine import Group, close, close_angle, close_vec, grid
from openspace.bodies.artificial import Spacecraft
from openspace.bodies.celestial import Earth
from openspace.math.functions import EquationsOfMotion as EQ
from openspace.math.functions import Radius
from openspace.planning.maneuvers import Hohmann, VisViva


def rel(got, want, what, tol=1e-11):
    close(got, want, tol * abs(want) + 1e-300, what)


def run_ellipse(case, ctx):
    a, e, mu = case
    w = f"for a={a}, e={e}, mu={mu}"
    b = a * sqrt((1 - e) * (1 + e))
    p = a * (1 - e) * (1 + e)
    c = a * e
    n = sqrt(mu / a) / a
    tau = 2 * pi / n
    rel(EQ.B.from_a_e(a, e), b, "semi-minor axis " + w)
    rel(EQ.P.from_a_e(a, e), p, "semi-parameter from a, e " + w)
    rel(EQ.P.from_a_b(a, b), p, "semi-parameter from a, b " + w)
    rel(EQ.P.from_mu_h(mu, sqrt(mu * p)), p, "semi-parameter from h " + w)
    etol = 7e-8 if e < 1e-4 else 1e-13 / e + 1e-12
    close(EQ.E.from_a_c(a, c), e, 1e-12, "eccentricity from a, c " + w)
    if e > 0:
        close(EQ.E.from_a_b(a, b), e, etol, "eccentricity from a, b " + w)
        close(EQ.E.from_a_p(a, p), e, etol, "eccentricity from a, p " + w)
    else:
        close(EQ.E.from_a_b(a, a), 0, 0, "eccentricity of a circle")
        close(EQ.E.from_a_p(a, a), 0, 0, "eccentricity of a circle")
    close(EQ.F.from_a_b(a, b), 1 - b / a, 1e-12, "flattening " + w)
    rel(EQ.H.from_mu_p(mu, p), sqrt(mu * p), "angular momentum from p " + w)
    rel(EQ.TAU.from_a_mu(a, mu), tau, "period " + w)
    rel(EQ.N.from_a_mu(a, mu), n, "mean motion from a " + w)
    rel(EQ.N.from_tau(tau), n, "mean motion from the period " + w)
    rel(EQ.A.from_mu_n(mu, n), a, "semi-major axis from the mean motion " + w)
    rel(EQ.A.from_mu_tau(mu, tau), a, "semi-major axis from the period " + w)
    xi = -mu / (2 * a)
    rel(EQ.XI.from_mu_a(mu, a), xi, "energy " + w)
    ctx.step(16)
    for j in range(24):
        nu = j * pi / 12 + 0.01 * (j % 3)
        rmag = p / (1 + e * cos(nu))
        pos = (rmag * cos(nu), rmag * sin(nu), 0.0)
        k = sqrt(mu / p)
        vel = (-k * sin(nu), k * (e + cos(nu)), 0.0)
        v = ref.norm(vel)
        ww = w + f", nu={nu}"
        t = 1e-10 / (1 - e)
        rel(Radius.from_p_e_nu(p, e, nu), rmag, "radius " + ww)
        rel(EQ.V.from_a_mu_r(a, mu, rmag), v, "speed from a " + ww, t)
        rel(EQ.V.from_mu_r_xi(mu, rmag, xi), v, "speed from the energy " + ww, t)
        rel(EQ.V.from_mu_r_e_nu(mu, rmag, e, nu), v, "speed from e, nu " + ww, t)
        close(EQ.XI.from_mu_r_v(mu, rmag, v), xi, 1e-12 * mu / rmag, "energy from r, v " + ww)
        rel(EQ.A.from_mu_r_v(mu, rmag, v), a, "semi-major axis from r, v " + ww, t)
        phi = atan2(ref.dot(pos, vel), ref.cross(pos, vel)[2])
        rel(EQ.H.from_r_v_phi(rmag, v, phi), sqrt(mu * p), "angular momentum from the flight path angle " + ww, t)
        hv = EQ.H.from_r_v(alpha.V(pos), alpha.V(vel))
        close_vec(alpha.t3(hv), (0, 0, sqrt(mu * p)), 1e-11 * sqrt(mu * p), "angular momentum vector " + ww)
        if mu == ref.MU:
            rel(VisViva.eccentric_velocity(rmag, a), v, "vis-viva speed " + ww, t)
        ctx.step(9)
    if mu == ref.MU:
        rel(VisViva.circular_velocity(a), sqrt(mu / a), "circular speed " + w)
        rel(VisViva.eccentric_velocity(a, a), sqrt(mu / a), "speed of a circular orbit " + w)
    ctx.state(*case)
    ctx.outcome(EQ.TAU.from_a_mu(a, mu), EQ.B.from_a_e(a, e))


AS = [6578.0, 6978.137, 7500.0, 9000.0, 12000.0, 20000.0, 26560.0, 42164.17, 60000.0, 100000.0, 384400.0, 1.5e8]
ES = [0.0, 1e-8, 1e-4, 0.001, 0.01, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.74, 0.8, 0.9, 0.95, 0.98, 0.99, 0.999]
MUS = [ref.MU, ref.MU_MOON, ref.MU_SUN, 1.0]


def run_hohmann(case, ctx):
    r1, r2 = case
    # and its neighbours, one after another
    for d1, d2 in ((0.0, 0.0), (3e-4, 0.0), (0.0, -2e-5), (-0.03, 0.4)):
        one_hohmann(r1 + d1, r2 + d2, ctx)
    ctx.state(*case)


def one_hohmann(r1, r2, ctx):
    h = Hohmann(r1, r2)
    w = f"of the transfer {r1} to {r2}"
    v1, v2 = sqrt(ref.MU / r1), sqrt(ref.MU / r2)
    # energy and momentum of the transfer ellipse
    hh = sqrt(2 * ref.MU * r1 * r2 / (r1 + r2))
    t1, t2 = hh / r1, hh / r2
    rel(h.initial_velocity, v1, "initial speed " + w)
    rel(h.final_velocity, v2, "final speed " + w)
    rel(h.transfer_velocity_1, t1, "transfer departure speed " + w)
    rel(h.transfer_velocity_2, t2, "transfer arrival speed " + w)
    close(h.delta_v_1, t1 - v1, 1e-11, "first velocity change " + w)
    close(h.delta_v_2, v2 - t2, 1e-11, "second velocity change " + w)
    ctx.step()
    ctx.outcome(h.delta_v_1, h.delta_v_2)


def radii(tier):
    base = [100.0, 1000.0, 5000.0] + [6478.0 + 250.0 * k for k in range(24)] + [20000.0, 26560.0, 42164.17, 42166.0, 65000.0, 120000.0, 250000.0, 384400.0, 1e6, 1e6 + 1.0]
    base += [6400.0 + 37.7 * k for k in range(100 if tier == "quick" else 1000)]
    return base


def run_vectors(case, ctx):
    """angles from vectors: inclination, node, argument of latitude in every octant of the normal"""
    i, raan = case
    for ud in [0.0, 1.0, 45.0, 90.0, 135.0, 180.0, 225.0, 270.0, 300.0, 359.0, 359.99999, 360 - 1e-7]:
        u = ud * alpha.D2R
        rot = ref.transpose(ref.matmul(ref.rx(i * alpha.D2R), ref.rz(raan * alpha.D2R)))
        wv = ref.matvec(rot, (0, 0, 1.0)) if i not in (0.0, 180.0) else ((0.0, 0.0, 1.0) if i == 0 else (0.0, 0.0, -1.0))
        r = ref.matvec(rot, (9000.0 * cos(u), 9000.0 * sin(u), 0.0))
        what = f"for i={i}, raan={raan}, u={ud}"
        gi = EQ.I.from_w(alpha.V(wv))
        go = EQ.RAAN.from_w(alpha.V(wv))
        gu = EQ.U.from_r_w(alpha.V(r), alpha.V(wv))
        close(gi, i * alpha.D2R, 1e-12, "inclination " + what)
        if i not in (0.0, 180.0):
            s = sin(i * alpha.D2R)
            close_angle(go, raan * alpha.D2R, 1e-13 / s, "raan " + what)
            close_angle(gu, u, 1e-12 / s, "argument of latitude " + what)
        # node and argument of latitude together locate the position
        rot2 = ref.transpose(ref.matmul(ref.rx(gi), ref.rz(go)))
        close_vec(ref.matvec(rot2, (9000.0 * cos(gu), 9000.0 * sin(gu), 0.0)), r, 1e-5, "position rebuilt " + what)
        for nm, x in (("raan", go), ("argument of latitude", gu)):
            close(min(max(x, 0), 2 * pi), x, 1e-12, nm + " in [0, 2 pi] " + what)
        ctx.step(3)
    ctx.state(*case)
    ctx.outcome(gi, go, gu)


def run_sma(case, ctx):
    name, dma = case
    r, v = alpha.orbit(name, dma)
    sc = Spacecraft(alpha.gcrf(60000.25, r, v))
    close(sc.sma(), alpha.ORBITS[name][0], 1e-9 * alpha.ORBITS[name][0], f"semi-major axis of the spacecraft on {case}")
    ctx.step()
    ctx.state(*case)
    ctx.outcome(sc.sma())
    sc.step()
    rr, vv = ref.norm(alpha.t3(sc.position())), ref.norm(alpha.t3(sc.velocity()))
    close(sc.sma(), 1 / (2 / rr - vv * vv / ref.MU), 1e-6, f"semi-major axis after a step on {case}")
    ctx.step()


def run_const(case, ctx):
    rel(Earth.geo_radius(), (ref.MU * (ref.SIDEREAL_DAY / (2 * pi)) ** 2) ** (1 / 3), "geosynchronous radius", 1e-12)
    close(EQ.TAU.from_a_mu(Earth.geo_radius(), Earth.MU), 86164.090518, 1e-6, "period at the geosynchronous radius")
    ctx.step(2)
    ctx.state("geo")


GROUPS = [
    Group("ellipse", lambda t: grid(AS, sorted(set(ES + [k / 100 for k in range(100)] if t == "quick" else ES + [k / 2000 for k in range(2000)])), MUS), run_ellipse, doc="12 sizes x 105 (2003) eccentricities x 4 gravitational parameters x 24 true anomalies, all formulas"),
    Group("hohmann", lambda t: grid(radii(t), radii(t)), run_hohmann, doc="all ordered pairs of 137 (1037) radii, each with 3 neighbours"),
    Group("vectors", lambda t: grid([0.0, 0.01, 1.0, 30.0, 63.4, 89.9, 90.0, 90.1, 120.0, 179.0, 180.0], [0.0, 1e-3, 45.0, 90.0, 135.0, 180.0, 200.0, 270.0, 315.0, 359.999]), run_vectors, doc="11 inclinations x 10 nodes x 12 arguments of latitude"),
    Group("spacecraft", lambda t: grid(sorted(alpha.ORBITS), [0.0, 77.0, 180.0, 300.0]), run_sma, doc="9 orbits x 4 anomalies"),
    Group("constants", lambda t: [0], run_const, doc="geosynchronous radius"),
]  # fmt: skip
ASSUMPTIONS = []
