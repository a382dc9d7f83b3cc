"""C06 classical elements"""
import itertools
from math import pi, sqrt

import alpha
import ref
from engine import TWO_PI, Group, close, close_angle, close_vec, grid, in_range
from openspace.coordinates.elements import ClassicalElements
from openspace.coordinates.states import IJK

D = pi / 180
A = [6578.0, 12000.0, 42164.17, 380000.0, 2e6]
EC = [0.0, 1e-6, 1e-3, 0.05, 0.3, 0.74, 0.95, 0.99]
INC = [0.0, 0.01, 28.5, 63.4, 90.0, 116.0, 179.9, 180.0]
ANG = [0.0, 47.0, 90.0, 180.0, 222.0, 270.0, 359.5]
MA = [0.0, 1e-4, 15.0, 90.0, 179.999, 180.0, 181.0, 271.3, 345.0, 359.9, -15.0, 400.0]


def tols(a, e, i):
    """numerical conditioning: e is the square root of a difference, angles degrade with 1/e and 1/sin(i)"""
    s = abs(ref.sin(i * D)) if i not in (0.0, 180.0) else 1.0
    rel = 3e-13 / (1 - e) ** 2 / s
    de = 1e-7 if e < 1e-5 else min(1e-7, 4e-15 / (1 - e) / e + 1e-14)
    return rel, de


def ecc_vector(r, v):
    h = ref.cross(r, v)
    return ref.sub(ref.mul(ref.cross(v, h), 1 / ref.MU), ref.unit(r))


def run_case(case, ctx):
    a, e, i, raan, aop, mjd = case
    for md in MA:
        want = (a, e, i * D, raan * D, aop * D, md * D)
        what = f"of a={a} e={e} i={i} raan={raan} aop={aop} M={md}"
        rel, de = tols(a, e, i)
        el = ClassicalElements(alpha.E(mjd), *want)
        st = el.to_ijk()
        r, v = ref.elements_to_state(*want)
        vc = sqrt(ref.MU / (a * (1 - e)))
        ktol = 1e-11 / (1 - e) ** 1.5
        close_vec(alpha.t3(st.position), r, ktol * a, "position " + what)
        close_vec(alpha.t3(st.velocity), v, ktol * vc, "velocity " + what)
        close(st.epoch.value, mjd, 0, "epoch of the state " + what)
        close_angle(el.eccentric_anomaly(), ref.kepler(md * D, e), 1e-9, "eccentric anomaly " + what)
        rot = ref.transpose(ref.matmul(ref.rz(aop * D), ref.matmul(ref.rx(i * D), ref.rz(raan * D))))
        close_vec(alpha.t3(el.perigee_vector()), ref.matvec(rot, (1, 0, 0)), 1e-12, "perigee direction " + what)
        close_vec(alpha.t3(el.semilatus_rectum_vector()), ref.matvec(rot, (0, 1, 0)), 1e-12, "semilatus rectum direction " + what)
        # state -> elements, from the reference state
        back = ClassicalElements.from_ijk(IJK(alpha.E(mjd), alpha.V(r), alpha.V(v)))
        close(back.epoch.value, mjd, 0, "epoch of the elements " + what)
        close(back.semimajor_axis, a, a * 3e-14 / (1 - e) ** 2 + 1e-9 * a * (e > 0.98), "semi-major axis " + what)
        close(back.eccentricity, e, de, "eccentricity " + what)
        close(back.inclination, i * D, 1e-11 + 1e-15 / (1 - e), "inclination " + what)
        in_range(back.inclination, 0, pi, "inclination " + what)
        for nm, x in (("raan", back.raan), ("argument of perigee", back.argument_of_perigee), ("mean anomaly", back.mean_anomaly)):
            in_range(x, 0, TWO_PI, f"{nm} {what}")
        eq = i in (0.0, 180.0)
        if not eq:
            close_angle(back.raan, raan * D, rel + 1e-11, "raan " + what)
        if e >= 1e-3:
            atol = 1e-10 / e + 10 * rel + 4 * de / (1 - e)
            close_angle(back.mean_anomaly, md * D, atol * 10, "mean anomaly " + what)
            if not eq:
                close_angle(back.argument_of_perigee, aop * D, atol * 30, "argument of perigee " + what)
        # and back to the state, which has to be reproduced in all of the degenerate cases
        again = back.to_ijk()
        stol = 1e-7 if e < 1e-3 else 1e-10 / (1 - e) ** 2
        stol += 10 * rel
        close_vec(alpha.t3(again.position), r, stol * a, "state to elements to position " + what)
        close_vec(alpha.t3(again.velocity), v, stol * vc / (1 - e), "state to elements to velocity " + what)
        close(again.epoch.value, mjd, 0, "epoch after the round trip")
        ctx.step(4)
    ctx.state(*case)
    ctx.outcome(alpha.t3(st.position), alpha.t3(st.velocity))


def cases(tier):
    ang = ANG if tier == "quick" else sorted(set(ANG + [30.0 * k for k in range(12)]))
    ee = EC + [1e-5, 0.01, 0.2, 0.5, 0.6, 0.85, 0.9, 0.98]
    ii = INC + [1.0, 5.0, 45.0, 75.0, 89.99, 90.01, 135.0, 170.0]
    out = [-725.0, -30.0, 400.0]
    return grid(A, ee, ii, ang, ang, [60123.45678912346]) + grid(A, ee, [0.0, 28.5, 116.0, 180.0], out, out, [60123.45678912346])


AXV = [-1.0, 0.0, 1.0]


def run_cart(case, ctx):
    """states given as cartesian vectors on the axes, where the node or perigee is degenerate"""
    rd, vd, rm, vf = case
    r = ref.mul(ref.unit(rd), rm)
    v = ref.mul(ref.unit(vd), vf * sqrt(ref.MU / rm))
    h = ref.cross(r, v)
    el = ClassicalElements.from_ijk(IJK(alpha.E(51544.123456789), alpha.V(r), alpha.V(v)))
    what = f"of r={r} v={v}"
    ev = ecc_vector(r, v)
    a = 1 / (2 / ref.norm(r) - ref.dot(v, v) / ref.MU)
    close(el.semimajor_axis, a, 1e-11 * a, "semi-major axis " + what)
    close(el.eccentricity, ref.norm(ev), 1e-7, "eccentricity " + what)
    close(el.inclination, ref.angle(h, (0, 0, 1)), 1e-10, "inclination " + what)
    close(el.epoch.value, 51544.123456789, 0, "epoch of the elements " + what)
    st = el.to_ijk()
    close(st.epoch.value, 51544.123456789, 0, "epoch after the round trip " + what)
    close_vec(alpha.t3(st.position), r, 3e-7 * ref.norm(r), "state to elements to position " + what)
    close_vec(alpha.t3(st.velocity), v, 3e-7 * ref.norm(v), "state to elements to velocity " + what)
    if ref.norm(ev) > 1e-3:
        close(ref.angle(alpha.t3(el.perigee_vector()), ev), 0, 1e-6, "perigee direction " + what)
    ctx.step(2)
    ctx.state(*case)
    ctx.outcome(el.raan, el.argument_of_perigee, el.mean_anomaly)


def cart_cases(tier):
    dirs = [d for d in grid(AXV, AXV, AXV) if any(d)]
    out = []
    for rd in dirs:
        for vd in dirs:
            s = ref.norm(ref.cross(ref.unit(rd), ref.unit(vd)))
            if s < 0.3:
                continue
            hxy = ref.cross(ref.unit(rd), ref.unit(vd))
            if 0 < ref.norm(hxy[:2]) < 1e-6:
                continue
            for rm in (7000.0, 42164.0):
                for vf in (0.8, 1.0, 1.2):
                    out.append([rd, vd, rm, vf])
    return out


def run_edits(case, ctx):
    """elements and states changed in place convert by their current values"""
    seq = case
    el = ClassicalElements(alpha.E(60123.4), 26553.0, 0.3, 0.9, 1.0, 2.0, 0.5)
    st = IJK(alpha.E(60123.4), *(alpha.V(x) for x in ref.elements_to_state(9000.0, 0.1, 0.7, 2.0, 1.0, 4.0)))
    for op in (None, *seq):
        if op is not None:
            EDITS[op](el, st)
        what = f"after the edits {seq}"
        now = (el.semimajor_axis, el.eccentricity, el.inclination, el.raan, el.argument_of_perigee, el.mean_anomaly)
        close_angle(el.eccentric_anomaly(), ref.kepler(now[5], now[1]), 1e-9, f"eccentric anomaly {what}")
        rot = ref.transpose(ref.matmul(ref.rz(now[4]), ref.matmul(ref.rx(now[2]), ref.rz(now[3]))))
        p, q = el.perigee_vector(), el.semilatus_rectum_vector()
        close_vec(alpha.t3(p), ref.matvec(rot, (1, 0, 0)), 1e-12, f"perigee direction {what}")
        close_vec(alpha.t3(q), ref.matvec(rot, (0, 1, 0)), 1e-12, f"semilatus rectum direction {what}")
        p.x, p.y, p.z = q.x, q.y, q.z = 1.0, 2.0, 3.0
        s = el.to_ijk()
        r, v = ref.elements_to_state(*now)
        close_vec(alpha.t3(s.position), r, 1e-9 * now[0], f"position {what}")
        close_vec(alpha.t3(s.velocity), v, 1e-9 * ref.norm(v), f"velocity {what}")
        close(s.epoch.value, el.epoch.value, 0, f"epoch of the state {what}")
        s.position.x, s.velocity.y = 1.0, 2.0
        s.epoch.value += 4.0
        r, v = alpha.rv(st)
        e = ClassicalElements.from_ijk(st)
        back = ref.elements_to_state(e.semimajor_axis, e.eccentricity, e.inclination, e.raan, e.argument_of_perigee, e.mean_anomaly)
        close_vec(back[0], r, 1e-8 * ref.norm(r), f"position of the elements of the state {what}")
        close_vec(back[1], v, 1e-8 * ref.norm(v), f"velocity of the elements of the state {what}")
        close(e.epoch.value, st.epoch.value, 0, f"epoch of the elements {what}")
        e.epoch.value += 4.0
        ctx.step(5)
    ctx.state(*case)
    ctx.outcome(r, now)


def edit(path, d):
    who, *path, last = path.split(".")

    def go(el, st):
        o = {"el": el, "st": st}[who]
        for nm in path:
            o = getattr(o, nm)
        setattr(o, last, getattr(o, last) + d)

    return go


def turn(el, st):
    st.position, st.velocity = (alpha.V(x) for x in ref.elements_to_state(20000.0, 0.4, 1.7, 5.0, 3.0, 1.0))


EDITS = [
    edit("el.semimajor_axis", 4000.0), edit("el.eccentricity", 0.16), edit("el.inclination", 0.6), edit("el.raan", 1.7), edit("el.argument_of_perigee", -2.3), edit("el.mean_anomaly", 1.3),
    edit("el.mean_anomaly", 1e-4), edit("el.epoch.value", 0.5), edit("st.position.x", 200.0), edit("st.velocity.z", -0.2), edit("st.epoch.value", -3.0), turn,
]  # fmt: skip

GROUPS = [
    Group("elements", cases, run_case, doc="5 sizes x 16 eccentricities 0-0.99 x 16 inclinations incl. 0 and 180 x 7 (15) nodes x 7 (15) perigees x 12 anomalies, both directions; nodes, perigees and anomalies given outside of one turn"),
    Group("cartesian", cart_cases, run_cart, doc="all position and velocity directions with components -1, 0, 1 (not parallel) x 2 radii x 3 speeds"),
    Group("edits", lambda t: [list(p) for n in range(1, 4 if t == "quick" else 5) for p in itertools.product(range(len(EDITS)), repeat=n)], run_edits, doc="all sequences up to length 3 (4) of 12 in-place changes of elements and of a state, all conversions asked again after each"),
]  # fmt: skip
ASSUMPTIONS = ["inclinations between 0 and 1e-4 rad exclusive are outside of the domain (the node is numerically undefined)"]
