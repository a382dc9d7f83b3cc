"""C03 reference frames"""
import itertools

import alpha
import ref
from engine import Group, close, close_mat, close_vec
from openspace.bodies.celestial import Earth
from openspace.coordinates.positions import PositionConvert

VECS = [(7000.0, 0, 0), (0, 7000.0, 0), (0, 0, 7000.0), (-7000.0, 0, 0), (0, -7000.0, 0), (0, 0, -7000.0), (-4000.0, 3000.0, 5000.0), (42164.0, -1.0, 20.0), (1.0, -2.0, -384400.0), (-6378.0, -6378.0, 0.5), (-2e5, -9e4, 3e5), (0.0, 5.0, 0.0), (2e-4, 1e-4, 3e-4)]
TOL = 2e-8
G, I = PositionConvert.gcrf, PositionConvert.itrf


def run_epoch(case, ctx):
    mjd = case
    ep = alpha.E(mjd)
    P, N, R = ref.precession(mjd), ref.nutation(mjd), ref.earth_rotation(mjd)
    NP = ref.matmul(N, P)
    RNP = ref.matmul(R, NP)
    gm = ref.gmst(mjd)
    RT, NT = ref.transpose(R), ref.transpose(ref.matmul(R, N))
    RNPT = ref.transpose(RNP)
    close_mat(alpha.m3(Earth.precession(ep)), P, 1e-11, f"precession at {mjd}")
    close_mat(alpha.m3(Earth.nutation(ep)), N, TOL, f"nutation at {mjd}")
    close_mat(alpha.m3(Earth.rotation(ep)), R, TOL, f"earth rotation at {mjd}")
    close(Earth.obliquity_of_ecliptic_at_epoch(ep), ref.obliquity(mjd), 1e-12, f"obliquity at {mjd}")
    prev = None
    for v in VECS:
        n = ref.norm(v)
        tol = TOL * n
        p = alpha.V(v)
        mod, tod, itrf, ijk = G.to_mod(p, ep), G.to_tod(p, ep), G.to_itrf(p, ep), G.to_ijk(p, ep)
        close_vec(alpha.t3(mod), ref.matvec(P, v), 1e-11 * n, f"GCRF to MOD of {v} at {mjd}")
        close_vec(alpha.t3(tod), ref.matvec(NP, v), tol, f"GCRF to TOD of {v} at {mjd}")
        close_vec(alpha.t3(itrf), ref.matvec(RNP, v), tol, f"GCRF to ITRF of {v} at {mjd}")
        close_vec(alpha.t3(ijk), ref.matvec(ref.rz(-gm), ref.matvec(RNP, v)), tol, f"GCRF to IJK of {v} at {mjd}")
        # backwards, from a vector which is not the image of the first conversion too
        close_vec(alpha.t3(I.to_tod(p, ep)), ref.matvec(RT, v), tol, f"ITRF to TOD of {v} at {mjd}")
        close_vec(alpha.t3(I.to_mod(p, ep)), ref.matvec(NT, v), tol, f"ITRF to MOD of {v} at {mjd}")
        close_vec(alpha.t3(I.to_gcrf(p, ep)), ref.matvec(RNPT, v), tol, f"ITRF to GCRF of {v} at {mjd}")
        close_vec(alpha.t3(I.to_ijk(p, ep)), ref.matvec(ref.rz(-gm), v), tol, f"ITRF to IJK of {v} at {mjd}")
        # routes and round trips, implementation against implementation
        close_vec(alpha.t3(I.to_gcrf(itrf, ep)), v, tol, f"GCRF-ITRF-GCRF of {v} at {mjd}")
        close_vec(alpha.t3(G.to_itrf(I.to_gcrf(p, ep), ep)), v, tol, f"ITRF-GCRF-ITRF of {v} at {mjd}")
        close_vec(alpha.t3(I.to_mod(itrf, ep)), alpha.t3(mod), tol, f"MOD by two routes of {v} at {mjd}")
        close_vec(alpha.t3(I.to_tod(itrf, ep)), alpha.t3(tod), tol, f"TOD by two routes of {v} at {mjd}")
        close_vec(alpha.t3(I.to_ijk(itrf, ep)), alpha.t3(ijk), tol, f"IJK by two routes of {v} at {mjd}")
        for name, w in (("MOD", mod), ("TOD", tod), ("ITRF", itrf), ("IJK", ijk)):
            close(w.magnitude(), n, tol, f"length in {name} of {v} at {mjd}")
        if prev is not None:
            close(itrf.dot(prev[1]), ref.dot(v, prev[0]), 2 * TOL * n * ref.norm(prev[0]), f"dot product after conversion at {mjd}")
        prev = (v, itrf)
        close_vec(alpha.t3(p), v, 0, "converted vector changed")
        ctx.step(14)
    close(ep.value, mjd, 0, "epoch changed")
    ctx.state(mjd)
    ctx.outcome(alpha.t3(itrf))


def epoch_cases(tier):
    n = 12000 if tier == "quick" else 120000
    sweep = [15020.0 + (93000.0 / n) * k + 0.61803 * (k % 7) for k in range(n)]
    far = [-678575.0 + (3652058.0 / (n // 4)) * k + 0.61803 * (k % 7) for k in range(n // 4)]
    return alpha.EPOCHS + alpha.EPOCHS_MORE + alpha.hour_angle_crossings() + sweep + far


def run_pair(case, ctx):
    """conversions at nearby and distant epochs, interleaved"""
    eps = [(m, alpha.E(m)) for m in case]
    v = (5000.0, -4000.0, 3000.0)
    for rnd in range(2):
        for m, e in eps if rnd == 0 else reversed(eps):
            M = ref.gcrf_to_itrf_matrix(m)
            close_vec(alpha.t3(G.to_itrf(alpha.V(v), e)), ref.matvec(M, v), TOL * 7100, f"GCRF to ITRF in the history {case}")
            close_vec(alpha.t3(I.to_gcrf(alpha.V(v), e)), ref.matvec(ref.transpose(M), v), TOL * 7100, f"ITRF to GCRF in the history {case}")
            ctx.step(2)
    e = eps[0][1]
    for m in case:
        e.value = m
        close_vec(alpha.t3(G.to_itrf(alpha.V(v), e)), ref.matvec(ref.gcrf_to_itrf_matrix(m), v), TOL * 7100, "GCRF to ITRF after setting the epoch")
        ctx.step()
    ctx.state(*case)
    ctx.outcome(alpha.t3(G.to_itrf(alpha.V(v), e)))


def pair_cases(tier):
    base = [60000.25, 60000.25 + 1e-6, 60000.25 + 8e-9, 60000.25 + 1e-4, 60000.26, 60000.75, 60001.25, 60000.0, 51544.5, 59999.9999, 62500.5, 44000.3, 0.0]
    out = [list(p) for p in itertools.product(base, repeat=2)]
    out += [list(p) for p in itertools.permutations(base, 3)]
    if tier == "thorough":
        out += [list(p) for p in itertools.permutations(base, 4)]
    return out


GROUPS = [
    Group("epochs", epoch_cases, run_epoch, doc="12209 (thorough 120209) epochs 1858-2160 incl. those around hour angles of 0, 90, 180, 270 degrees and 3000 (30000) of the years 1-9999 x 13 vectors x 14 conversions and routes"),
    Group("history", pair_cases, run_pair, doc="all ordered pairs and triples (quadruples) of nearby and distant epochs, forward and backward"),
]
ASSUMPTIONS = ["IAU-1976 precession and the two-term nutation are the definition; the code's first-order nutation differs from the rotation by less than 1.2e-8"]
