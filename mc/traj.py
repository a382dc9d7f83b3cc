"""Reference propagation: does a propagated state lie where the force model takes it?"""
import math

import alpha
import ref
from engine import Violation

MAXH = 300.0


def schedule_equal(dt):
    n = math.ceil(abs(dt / MAXH))
    return [dt / n] * n if n else []


def schedule_max_first(dt):
    s = math.copysign(MAXH, dt)
    n = int(abs(dt) // MAXH)
    rest = dt - n * s
    return [s] * n + ([rest] if rest else [])


def run_schedule(mjd, r, v, hs, perturb, srp, thrust):
    t = 0.0
    for h in hs:
        th = None if thrust is None else (lambda s, t0=t: thrust(t0 + s))
        r, v = ref.rk4(mjd + t / ref.DAY, r, v, h, 1, perturb, srp, th)
        t += h
    return r, v


def same(got, want, tr, tv, tt=0.0):
    """equal but for a shift of at most tt seconds along the trajectory (the rounding of dates)"""
    dr, dv = ref.sub(got[0], want[0]), ref.sub(got[1], want[1])
    if tt:
        r, v = want
        shift = max(-tt, min(tt, ref.dot(dr, v) / ref.dot(v, v)))
        dr = ref.sub(dr, ref.mul(v, shift))
        dv = ref.sub(dv, ref.mul(r, -ref.MU * shift / ref.norm(r) ** 3))
    return all(abs(a) <= tr for a in dr) and all(abs(a) <= tv for a in dv)


def check_leg(before, after, dt, perturb, srp, what, thrust=None, hs=None, extra=0.0):
    """before: (mjd, r, v), after: (r, v) reached by the code after dt seconds

    Accepted: a fourth-order Runge-Kutta solution with substeps of at most 300 s in one of the usual schedules, or
    anything that is clearly more accurate than that.
    """
    mjd, r, v = before
    fixed = hs is not None
    hs = schedule_equal(dt) if hs is None else hs
    tr = 1e-6 + 2e-13 * dt * dt + extra
    tv = 1e-9 + 4e-13 * abs(dt) + 3e-16 * dt * dt + extra / 300
    tt = (4 + 0.5 * len(hs)) * math.ulp(abs(mjd) + 1.0) * ref.DAY
    want = run_schedule(mjd, r, v, hs, perturb, srp, thrust)
    if same(after, want, tr, tv, tt):
        return want
    if not fixed:
        for alt in (schedule_max_first(dt), schedule_max_first(dt)[::-1]):
            if same(after, run_schedule(mjd, r, v, alt, perturb, srp, thrust), tr, tv, tt):
                return want
    truth = run_schedule(mjd, r, v, [h / 8 for h in hs for _ in range(8)], perturb, srp, thrust)
    er = max(abs(a - b) for a, b in zip(want[0], truth[0]))
    ev = max(abs(a - b) for a, b in zip(want[1], truth[1]))
    if same(after, truth, 0.25 * er + tr, 0.25 * ev + tv, tt):
        return want
    dr = ref.sub(after[0], want[0])
    dv = ref.sub(after[1], want[1])
    raise Violation(
        f"{what}: trajectory over {dt!r} s (perturbations {perturb}, coefficient {srp}) is off by {dr} km, {dv} km/s "
        f"(tolerance {tr:g}; truncation error of the method {er:g} km)"
    )


def snap(st):
    return (st.epoch.value, alpha.t3(st.position), alpha.t3(st.velocity))
