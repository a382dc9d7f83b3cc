"""C07 Kepler's equation and anomalies"""
import sys
from math import atan2, cos, pi, sin, sqrt

import alpha
import ref
from engine import TWO_PI, Group, close, close_angle, in_range, require, Violation
from openspace.coordinates.elements import ClassicalElements
from openspace.math.functions import EquationsOfMotion as EQ

ECC = [0.0, 1e-12, 1e-6, 1e-3, 0.01, 0.02, 0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.5, 0.55, 0.6, 0.65, 0.7, 0.75, 0.8, 0.85, 0.88, 0.9, 0.92, 0.94, 0.95, 0.96, 0.97, 0.98, 0.985, 0.99, 0.995, 0.998, 0.999]


def nu_of(e, ea):
    return 2 * atan2(sqrt(1 + e) * sin(ea / 2), sqrt(1 - e) * cos(ea / 2))


def run_e(case, ctx):
    e, k, nm = case
    # k-th revolution, -3 to 2
    for j in range(nm):
        m = (k + j / nm) * TWO_PI
        for mm in (m, m + 1e-9, m - 1e-9) if j % (nm // 8) == 0 else (m,):
            ea = EQ.EA.from_ma_e(mm, e)
            what = f"for e={e}, M={mm!r}"
            # satisfied modulo full turns
            d = (ea - e * sin(ea) - mm + pi) % TWO_PI - pi
            require(abs(d) <= 1e-9, lambda: f"Kepler's equation not satisfied {what}: E={ea!r}, residual {d:g}")
            close_angle(ea, ref.kepler(mm, e), 1e-10 + 4e-15 * (1 + abs(mm)) / max(1 - e, 1e-3) ** 1.5 * 10, "eccentric anomaly " + what)
            if 0 <= mm < TWO_PI:
                in_range(ea, 0, TWO_PI, "eccentric anomaly " + what, 1e-9)
            nu = EQ.NU.from_e_ea(e, ea)
            in_range(nu, 0, TWO_PI, "true anomaly " + what)
            close_angle(nu, nu_of(e, ea), 1e-11, "true anomaly " + what)
            back = EQ.MA.from_ea_e(ea, e)
            close_angle(back, mm, 1e-9, "mean anomaly " + what)
            if -1e-12 <= ea <= TWO_PI:
                in_range(back, 0, TWO_PI, "mean anomaly " + what, 1e-9)
            ctx.step(3)
    ctx.state(e, k)
    ctx.outcome(ea, nu)


def cases(tier):
    nm = 360 if tier == "quick" else 1440
    ecc = ECC if tier == "quick" else sorted(set(ECC + [0.005 * j for j in range(200)]))
    return [[e, k, nm] for e in ecc for k in range(-3, 3)]


LIMIT = 400


def iterations(fn):
    """result of fn and how often its most executed line ran; broken off beyond the limit"""
    count = {}

    def local(frame, event, arg):
        if event == "line":
            k = (frame.f_code, frame.f_lineno)
            count[k] = count.get(k, 0) + 1
            if count[k] > LIMIT:
                raise Violation("no solution")
        return local

    old = sys.gettrace()
    sys.settrace(lambda frame, event, arg: local)
    try:
        res = fn()
    finally:
        sys.settrace(old)
    return res, max(count.values(), default=1)


def run_steps(case, ctx):
    """every solution takes a bounded number of iterations"""
    e, k, nm = case
    worst = 0
    for j in range(nm):
        m = (k + j / nm) * TWO_PI
        try:
            ea, n = iterations(lambda: EQ.EA.from_ma_e(m, e))
        except Violation:
            raise Violation(f"eccentric anomaly for e={e}, M={m!r} is not found within {LIMIT} iterations") from None
        worst = max(worst, n)
        d = (ea - e * sin(ea) - m + pi) % TWO_PI - pi
        require(abs(d) <= 1e-9, lambda: f"Kepler's equation not satisfied for e={e}, M={m!r}: E={ea!r}, residual {d:g}")
        ctx.step()
    ctx.state(e, k)
    ctx.outcome(worst)


def step_cases(tier):
    ecc = [0.5, 0.8, 0.9, 0.95, 0.97, 0.98, 0.985, 0.99, 0.992, 0.994, 0.995, 0.996, 0.997, 0.998, 0.999]
    if tier == "thorough":
        ecc = [j / 1000 for j in range(0, 1000, 3)] + [0.9985, 0.997, 0.998]
    return [[e, k, 500 if tier == "quick" else 2000] for e in ecc for k in range(-3, 3)]


def run_far(case, ctx):
    """mean anomalies many revolutions away, around the whole orbit and finely about perigee and apogee"""
    e, k, n = case
    pts = [j * pi / n for j in range(-n, n + 1)]
    pts += [b + j * s * (1 - e) for b in (0.0, pi, -pi) for s in (1e-5, 1e-3, 0.1) for j in range(-n, n + 1)]
    for m in pts:
        m += k * TWO_PI
        try:
            ea, _ = iterations(lambda: EQ.EA.from_ma_e(m, e))
        except Violation:
            raise Violation(f"eccentric anomaly for e={e}, M={m!r} is not found within {LIMIT} iterations") from None
        size = 1e-15 * abs(m)
        d = (ea - e * sin(ea) - m + pi) % TWO_PI - pi
        require(abs(d) <= 1e-9 + size, lambda: f"Kepler's equation not satisfied for e={e}, M={m!r}: E={ea!r}, residual {d:g}")
        if 0 <= m < TWO_PI:
            in_range(ea, 0, TWO_PI, f"eccentric anomaly for e={e}, M={m!r}", 1e-9)
        close_angle(EQ.NU.from_e_ea(e, ea), nu_of(e, ea), 1e-11 + size, f"true anomaly for e={e}, M={m!r}")
        close_angle(EQ.MA.from_ea_e(ea, e), m, 1e-9 + size, f"mean anomaly for e={e}, M={m!r}")
        ctx.step(3)
    ctx.state(e, k)
    ctx.outcome(ea)


REVS = [20, 100, 325, 1000, 1304, 1305, 1500, 2000, 10000, 100000]


def far_cases(tier):
    ecc = [0.0, 1e-6, 0.01, 0.1, 0.3, 0.5, 0.7, 0.8, 0.9, 0.95, 0.98, 0.99, 0.995, 0.999]
    revs = REVS + [5, 10, 50, 200, 500]
    if tier == "thorough":
        ecc = [j / 100 for j in range(100)] + [0.985, 0.995, 0.998, 0.999]
        revs = [int(1.15**j) for j in range(90)]
    return [[e, k * s, 40 if tier == "quick" else 30] for e in ecc for k in sorted(set(revs + [0, 1, 3])) for s in ((1, -1) if k else (1,))]


def run_ea(case, ctx):
    """anomalies starting from the eccentric anomaly"""
    e, a = case
    n = sqrt(ref.MU / a**3)
    for j in range(-24, 49):
        ea = j * pi / 12
        ma = EQ.MA.from_ea_e(ea, e)
        what = f"for e={e}, E={ea!r}"
        close_angle(ma, ea - e * sin(ea), 1e-12, "mean anomaly " + what)
        close_angle(EQ.NU.from_e_ea(e, ea), nu_of(e, ea), 1e-11, "true anomaly " + what)
        r = a * (1 - e * cos(ea))
        rdv = a * a * n * e * sin(ea)
        if e > 1e-6:
            got = EQ.EA.from_rdv_r_a_n(rdv, r, a, n)
            in_range(got, 0, TWO_PI, "eccentric anomaly from r.v " + what)
            close_angle(got, ea, 1e-13 / e + 1e-12, "eccentric anomaly from r.v " + what)
        # half planes agree: all three are on the same side of the line of apsides
        s = sin(ea)
        if abs(s) > 1e-9:
            require((sin(ma) > 0) == (s > 0) or e > 0.999, f"mean and eccentric anomaly in different half planes {what}")
            require((sin(EQ.NU.from_e_ea(e, ea)) > 0) == (s > 0), f"true and eccentric anomaly in different half planes {what}")
        ctx.step(3)
    for j in range(0, 25):
        u = j * pi / 12
        for i in range(0, 25):
            nu = i * pi / 12
            w = EQ.W.from_u_nu(u, nu)
            in_range(w, 0, TWO_PI, f"argument of perigee from u={u}, nu={nu}")
            close_angle(w, u - nu, 1e-12, f"argument of perigee from u={u}, nu={nu}")
            ctx.step()
    ctx.state(e, a)
    ctx.outcome(ma)


def run_el(case, ctx):
    e, m = case
    el = ClassicalElements(alpha.E(51544.5), 20000.0, e, 0.5, 1.0, 2.0, m)
    for _ in range(2):
        close_angle(el.eccentric_anomaly(), ref.kepler(m, e), 1e-9, f"eccentric anomaly of elements with e={e}, M={m}")
        st = el.to_ijk()
        close(st.position.magnitude(), 20000.0 * (1 - e * cos(ref.kepler(m, e))), 1e-4, f"radius for e={e}, M={m}")
        ctx.step(2)
    # the same elements moved along the orbit
    el.mean_anomaly = m + 1.0
    close_angle(el.eccentric_anomaly(), ref.kepler(m + 1.0, e), 1e-9, f"eccentric anomaly after changing M to {m + 1}")
    ctx.state(e, m)
    ctx.outcome(el.eccentric_anomaly())


GROUPS = [
    Group("kepler", cases, run_e, timeout=20, doc="36 (220) eccentricities 0-0.999 x mean anomalies from -6 pi to 6 pi every 1 (0.25) degree"),
    Group("iterations", step_cases, run_steps, timeout=120, doc="15 (336) eccentricities 0.5 (0) to 0.999 x mean anomalies from -6 pi to 6 pi in 3000 (12000) steps: every solution within 400 iterations"),
    Group("revolutions", far_cases, run_far, timeout=120, doc="14 (104) eccentricities x mean anomalies 0 to +-100000 (+-250000) revolutions away in 37 (150) steps, around the orbit and finely about perigee and apogee: every solution within 400 iterations"),
    Group("anomalies", lambda t: [[e, a] for e in ECC for a in (6600.0, 42164.0)], run_ea, doc="36 eccentricities x 73 eccentric anomalies from -2 pi to 4 pi, and all pairs of 25 arguments of latitude and true anomalies"),
    Group("elements", lambda t: [[e, m * 0.5] for e in (0.0, 0.1, 0.74, 0.99) for m in range(-26, 27)], run_el, doc="4 eccentricities x 53 mean anomalies through an element set, before and after moving it"),
]  # fmt: skip
ASSUMPTIONS = ["termination is decided by a horizon of 400 iterations per solution (no line executed more often) and of 20 s per block of 360 solutions"]
