"""C21 simulated noise"""
import itertools
from math import atan2, cos, pi, sin, sqrt, tan

import alpha
import envrandom
import ref
import traj
from engine import TWO_PI, Group, close, close_angle, close_vec, grid
from openspace.bodies.artificial import Spacecraft
from openspace.hardware.payloads import Camera

DIRS = [ref.unit(d) for d in itertools.product((-1.0, 0.0, 1.0), repeat=3) if any(d)]
DIRS += [ref.unit(d) for d in ((1e-9, 0.0, 1.0), (0.0, -1e-5, -1.0), (1.0, 1e-7, 0.0), (0.2, -0.5, 0.7), (-0.9, 0.05, 0.3))]
KR = [-2.0, 0.0, 0.5, 3.0, 6.0]
KA = [-1.5, 0.0, 1.0, 2.5, -5.5]
CLOCK = [0.0, 0.125, 0.25, 0.5, 0.8]


def clock_angle(v, d):
    """angle of v about the direction d, from an arbitrary fixed reference"""
    x = ref.unit(ref.cross(d, (0.31, -0.52, 0.23)))
    y = ref.cross(d, x)
    return atan2(ref.dot(v, y), ref.dot(v, x))


def noisy(fn, kr, ka, u, sr, sa):
    envrandom.script([kr, ka] if sr else [ka], [u], [(s, k) for s, k in ((sr, kr), (sa, ka)) if s])
    return alpha.t3(fn())


def check(got, truth, kr, ka, sr, sa, what):
    n = ref.norm(truth)
    close(ref.norm(got), n + kr * sr, 1e-12 * n, "length " + what)
    close(ref.angle(got, truth), abs(ka * sa), 1e-9 * abs(ka * sa) + 1e-13, "angle from the truth " + what)


def run_vector(case, ctx):
    d, length, rel, sa = case
    truth = ref.mul(DIRS[d], length)
    sr = rel * length
    vec = alpha.V(truth)
    for kr, ka in itertools.product(KR, KA):
        first = None
        for u in CLOCK:
            what = f"of {truth} with draws {kr}, {ka}, {u} and sigmas {sr}, {sa}"
            got = noisy(lambda: vec.with_noise(sr, sa), kr, ka, u, sr, sa)
            check(got, truth, kr, ka, sr, sa, what)
            if abs(ka * sa) > 1e-8:
                c = clock_angle(got, DIRS[d])
                first = (c, u) if first is None else first
                turn = c - first[0]
                want = (u - first[1]) * TWO_PI
                # either sense of rotation
                diff = min(abs((turn - want + pi) % TWO_PI - pi), abs((turn + want + pi) % TWO_PI - pi))
                close(diff, 0.0, 1e-6, f"turn about the truth from a clock angle of {first[1]} to {u} revolutions {what}")
            ctx.step()
            ctx.outcome(d, kr, ka, u)
        close_vec(alpha.t3(vec), truth, 0, "the truth itself " + what)
    # sigmas beyond the length: the drawn length may be negative
    for k in (-3.0, -0.5, 2.0):
        envrandom.script([k], [0.3])
        got = alpha.t3(vec.with_magnitude_noise(2 * length))
        close_vec(got, ref.mul(DIRS[d], length * (1 + 2 * k)), 1e-12 * length * 10, f"{truth} with magnitude noise {k} x {2 * length}")
        ctx.step()
    for k in KR:
        envrandom.script([k], [0.3])
        got = alpha.t3(vec.with_magnitude_noise(sr))
        close_vec(got, ref.mul(DIRS[d], length + k * sr), 1e-12 * length, f"{truth} with magnitude noise {k} x {sr}")
        for u in (0.0, 0.3):
            got = noisy(lambda: vec.with_angular_noise(sa), 0.0, k, u, 0.0, sa)
            check(got, truth, 0.0, k, 0.0, sa, f"of {truth} with angular noise {k} x {sa} at {u}")
        ctx.step(3)
    close_vec(alpha.t3(vec), truth, 0, "the truth itself")
    ctx.state(*case)


def vector_cases(tier):
    ln = [1e-6, 1e-3, 1.0, 250.0, 42164.0, 1.5e8] if tier == "quick" else [10.0**k for k in range(-9, 10)]
    return grid(list(range(len(DIRS))), ln, [0.0, 1.3e-4, 0.13], [0.0, 1e-5, 0.01, 0.3])  # no two sigmas alike, so that the draws can be told apart


CAMS = {"default": None, "coarse": ((500, 0.2), (900, 0.01)), "swapped": ((3072, 0.125 * pi / 180), (2048, 5 * pi / 180))}


OFFSETS = [(-9.0, 4.0, 30.0), (0.2, 0.5, -0.1), (1.5, -4.0, 0.0), (150.0, 900.0, -40.0), (0.004, -0.01, 0.003), (-300.0, 30000.0, 2000.0)]


def run_observe(case, ctx):
    """every history of the two spacecraft before an observation by either camera"""
    name, cams, radius, acc, ops, offset = case
    r, v = alpha.orbit(name)
    st = alpha.gcrf(60000.25, r, v)
    st.use_perturbations = False
    sc = Spacecraft(st)
    rt, vt = ref.from_hcw(OFFSETS[offset], (0.0, 0.001, 0.0), r, v)
    ts = alpha.gcrf(60000.25, rt, vt)
    ts.use_perturbations = False
    tgt = Spacecraft(ts)
    sc.body_radius = 0.07
    tgt.body_radius = radius
    sc.pointing_accuracy = acc
    tgt.pointing_accuracy = 0.5
    par = {"wfov": (3072, 5 * pi / 180), "nfov": (3072, 0.125 * pi / 180)}
    if CAMS[cams]:
        par = dict(zip(("wfov", "nfov"), CAMS[cams]))
        sc.wfov, sc.nfov = Camera(*par["wfov"]), Camera(*par["nfov"])
    tgt.wfov = Camera(10, 1.0)
    for k, op in enumerate(ops):
        what = f"after {' '.join(ops[: k + 1])} on {name}, cameras {cams}, target of {radius} km"
        if op == "step":
            sc.step()
        elif op == "tstep":
            tgt.step()
        elif op == "burn":
            sc.impulsive_maneuver(alpha.V((0.01, 0.0, -0.02)))
        elif op == "track":
            sc.track_state(tgt)
        elif op == "sun":
            sc.track_sun()
        else:
            before = traj.snap(sc.propagator.state), traj.snap(tgt.propagator.state)
            truth = ref.sub(alpha.t3(tgt.position()), alpha.t3(sc.position()))
            rng = ref.norm(truth)
            pixels, fov = par[op]
            err = tan(fov) * rng / (2 * pixels) * rng / (2 * radius)
            for kr, ka, u in ((0.0, 0.0, 0.0), (1.0, 0.0, 0.4), (-0.25, 2.0, 0.9), (0.5, -3.0, 0.25)):
                if kr * err < -0.9 * rng:
                    continue
                envrandom.script([kr, ka], [u], [(err, kr), (acc, ka)])
                ob = (sc.observe_wfov if op == "wfov" else sc.observe_nfov)(tgt)
                close(ob.range_error, err, 1e-9 * err, f"range error of {op} {what}")
                close(ob.angular_error, acc, 0, f"angular error of {op} {what}")
                d = alpha.t3(ob.observed_direction)
                close(ref.norm(d), rng + kr * err, 1e-9 * (rng + err), f"observed range of {op} {what}, draws {kr}, {ka}, {u}")
                close(ref.angle(d, truth), abs(ka * acc), 1e-6 * abs(ka * acc) + 1e-10, f"direction error of {op} {what}, draws {kr}, {ka}, {u}")
                close(ob.range, ref.norm(d), 1e-12 * ref.norm(d), f"range of the observation by {op} {what}")
                close_angle(ob.right_ascension, atan2(d[1], d[0]), 1e-12 / max(1e-3, ref.norm(d[:2]) / ref.norm(d)), f"right ascension of the observation by {op} {what}")
                close(ob.declination, atan2(d[2], sqrt(d[0] ** 2 + d[1] ** 2)), 1e-12, f"declination of the observation by {op} {what}")
                os = ob.observer_state
                close_vec(alpha.t3(os.position) + alpha.t3(os.velocity), before[0][1] + before[0][2], 0, f"observer of {op} {what}")
                close(ob.epoch().value, before[0][0], 0, f"epoch of {op} {what}")
                ctx.step()
            if (traj.snap(sc.propagator.state), traj.snap(tgt.propagator.state)) != before:
                close(1, 0, 0, f"observing moved a spacecraft {what}")
            ctx.state(name, cams, radius, acc, rng)
            ctx.outcome(err)


def observe_cases(tier):
    ops = ["step", "tstep", "burn", "track", "sun", "wfov", "nfov"]
    d = 5 if tier == "quick" else 6
    tails = [list(s) + [c] for s in itertools.product(ops, repeat=d) for c in ("wfov", "nfov")]
    out = [["geo", "default", 0.005, 1e-5, t, 0] for t in tails]
    two = [list(s) + [c] for s in itertools.product(ops, repeat=1) for c in ("wfov", "nfov")]
    return out + [[n, c, z, a, t, o] for o in range(len(OFFSETS)) for n in sorted(alpha.ORBITS) for c in sorted(CAMS) for z in (0.001, 0.005, 0.1) for a in (0.0, 1e-5, 3e-3) for t in two]


assert cos and sin
GROUPS = [
    Group("vector", vector_cases, run_vector, doc="31 directions x 6 (19) lengths x 3 range sigmas x 4 angular sigmas x all combinations of 5 x 5 gaussian and 5 uniform draws"),
    Group("observe", observe_cases, run_observe, doc="all sequences of 7 operations of length 5 (6) before an observation by either camera; 9 orbits x 3 camera pairs x 3 sizes x 3 accuracies x 6 ranges of 0.01-30000 km"),
]
ASSUMPTIONS = ["gaussian draws answer mu + k sigma and uniform draws a + u (b - a) for the enumerated k and u (seam in mc/envrandom.py)"]
