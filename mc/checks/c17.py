"""C17 detection and cameras"""
import itertools
from math import cos, log10, pi, sin, tan

import alpha
import ref
from engine import Group, close, close_vec, grid, require
from openspace.bodies.artificial import Spacecraft
from openspace.hardware.constraints import OpticalConstraints
from openspace.hardware.payloads import Camera

D2R = pi / 180
DIRS = [ref.unit(d) for d in itertools.product((-1.0, 0.0, 1.0), repeat=3) if any(d)]
TILT = [ref.unit((0.9, 0.2, -0.1)), ref.unit((-0.3, 0.8, 0.5)), ref.unit((0.1, -0.2, -0.97))]
NAMES = ["sun", "earth", "moon", "magnitude", "boresight"]
DELTA = 1e-6


def craft(mjd, r, v):
    st = alpha.gcrf(mjd, r, v)
    st.use_perturbations = False
    return Spacecraft(st)


def magnitude(rng, phase, radius, albedo):
    """diffuse sphere lit by a sun of magnitude -26.74"""
    f = 2 / 3 * albedo * radius**2 / (pi * rng**2) * (sin(phase) + (pi - phase) * cos(phase))
    return -26.74 - 2.5 * log10(f)


def geometry(mjd, ro, rt, bore, radius, albedo):
    """the five quantities that are limited"""
    d = ref.sub(rt, ro)
    sun = ref.angle(ref.sub(ref.sun(mjd), ro), d)
    return [
        sun,
        ref.angle(ref.mul(ro, -1.0), d),
        ref.angle(ref.sub(ref.moon(mjd), ro), d),
        magnitude(ref.norm(d), pi - sun, radius, albedo),
        ref.angle(bore, d),
    ]


def toward(mjd, r, body, off):
    """a direction close to a body, or to the point opposite of it"""
    b = {"sun": ref.sub(ref.sun(mjd), r), "moon": ref.sub(ref.moon(mjd), r), "earth": ref.mul(r, -1.0)}[body.strip("-")]
    b = ref.mul(ref.unit(b), -1.0 if body[0] == "-" else 1.0)
    return ref.unit(ref.add(b, ref.mul(ref.unit(ref.cross(b, (0.2, 0.9, 0.4))), off)))


def build(case):
    name, mjd, direction, rng, mode = case
    r, v = alpha.orbit(name)
    sc = craft(mjd, r, v)
    d = (DIRS + TILT)[direction] if isinstance(direction, int) else toward(mjd, r, *direction)
    rt = ref.add(r, ref.mul(d, rng))
    # the velocity of the target is irrelevant here; the states have the same epoch
    tgt = craft(mjd, rt, v)
    tgt.body_radius, tgt.albedo = 0.002, 0.45
    sc.body_radius, sc.albedo = 0.02, 0.1
    bore = ref.mul(r, -1.0)
    if mode == "sun":
        sc.track_sun()
        bore = ref.sub(r, ref.sun(mjd))
    elif mode == "target":
        sc.track_state(tgt)
        bore = ref.sub(rt, r)
    elif mode == "other":
        o = ref.add(r, (30.0, -10.0, 80.0))
        sc.track_state(craft(mjd, o, v))
        bore = ref.sub(o, r)
    return sc, tgt, r, rt, bore


def expected(q, lim):
    return [q[0] >= lim.sun_soft, q[1] >= lim.earth, q[2] >= lim.moon, q[3] <= lim.vismag, q[4] <= lim.bore]


def queries(sc, tgt, r, rt, q, what):
    rng = ref.norm(ref.sub(rt, r))
    close(sc.sun_angle(tgt), q[0], 1e-7, "angle to the sun " + what)
    close(sc.earth_angle(tgt), q[1], 1e-7, "angle to the earth " + what)
    close(sc.moon_angle(tgt), q[2], 1e-7, "angle to the moon " + what)
    close(sc.range(tgt), rng, 1e-12 * ref.norm(r) + 1e-12 * rng, "range " + what)
    close_vec(alpha.t3(sc.target_vector(tgt)), ref.sub(rt, r), 1e-12 * (ref.norm(r) + rng), "target vector " + what)
    mag_tol = 1e-6 if pi - q[0] < pi - 0.05 else 2e-3  # steep near the new phase
    close(sc.visual_magnitude(tgt), q[3], mag_tol, "visual magnitude " + what)


def run_limits(case, ctx):
    name, mjd, direction, rng, mode = case
    sc, tgt, r, rt, bore = build(case)
    q = geometry(mjd, r, rt, bore, 0.002, 0.45)
    what = f"for {case}"
    queries(sc, tgt, r, rt, q, what)
    lim = sc.wfov.limits
    # the default limits
    require(
        [lim.sun_soft, lim.earth, lim.moon, lim.vismag] == [90 * D2R, 20 * D2R, 10 * D2R, 15] or
        max(abs(lim.sun_soft - pi / 2), abs(lim.earth - pi / 9), abs(lim.moon - pi / 18), abs(lim.vismag - 15)) < 1e-12,
        "default limits " + what,
    )  # fmt: skip
    close(lim.bore, 5 * D2R, 1e-12, "default boresight limit")
    margin = [abs(a - b) for a, b in zip(q, (pi / 2, pi / 9, pi / 18, 15, 5 * D2R))]
    if min(margin) > 1e-5:
        want = all(expected(q, lim))
        got = sc.detect(tgt)
        require(bool(got) == want, f"default limits: detected is {got}, angles and magnitude {q} {what}")
        ctx.outcome("default", want)
    dmag = DELTA if q[0] > 0.05 else 4e-3
    for combo in itertools.product((True, False), repeat=5):
        s = [1 if ok else -1 for ok in combo]
        lim.sun_soft = q[0] - s[0] * DELTA
        lim.earth = q[1] - s[1] * DELTA
        lim.moon = q[2] - s[2] * DELTA
        lim.vismag = q[3] + s[3] * dmag
        lim.bore = q[4] + s[4] * DELTA
        got = sc.detect(tgt)
        bad = [n for n, ok in zip(NAMES, combo) if not ok]
        require(bool(got) == all(combo), f"detected is {got} with violated limits {bad} {what}")
        ctx.step()
        ctx.outcome(combo)
    # limits that do not take part: the hard sun limit, the narrow camera, the cameras of the target
    lim.sun_soft, lim.earth, lim.moon, lim.vismag, lim.bore = q[0] - DELTA, q[1] - DELTA, q[2] - DELTA, q[3] + dmag, q[4] + DELTA
    for cam in (sc.nfov, tgt.wfov, tgt.nfov):
        cl = cam.limits
        cl.sun_soft = cl.earth = cl.moon = cl.sun_hard = 4.0
        cl.vismag, cl.bore = -100.0, -1.0
    for hard in (0.0, 4.0):
        lim.sun_hard = hard
        require(bool(sc.detect(tgt)), f"not detected because of a limit of another camera or the hard sun limit {hard} {what}")
    # nothing moved
    close_vec(alpha.t3(sc.position()) + alpha.t3(tgt.position()), r + rt, 0, "positions " + what)
    close(sc.current_epoch().value, mjd, 0, "epoch " + what)
    close(tgt.current_epoch().value, mjd, 0, "epoch of the target " + what)
    close_vec(ref.unit(alpha.t3(sc.body_z)), ref.unit(bore), 1e-9, "boresight " + what)
    ctx.state(*case)


def limit_cases(tier):
    n = len(DIRS + TILT)
    modes = ["lvlh", "sun", "target", "other"]
    out = grid(["geo", "leo"], [60000.25, 51544.5], list(range(n)), [3.0, 500.0], modes)
    out += grid(sorted(alpha.ORBITS), [58849.9999, 62502.123456789], [0, 5, 13, 20, 27], [0.05, 40000.0], modes)
    out += grid(sorted(alpha.ORBITS), alpha.EPOCHS if tier == "quick" else alpha.epochs(tier), list(range(n)), [0.01, 0.2, 80.0, 9000.0], modes)
    near = [[b, o] for b in ("sun", "moon", "earth", "-sun", "-moon", "-earth") for o in (0.002, 0.03)]
    out += grid(["geo", "leo", "heo"], [60000.25, 51544.5, 58849.9999], near, [5.0, 700000.0], modes)
    return out


def run_magnitude(case, ctx):
    """phase angles from full to new, sizes, albedos and ranges"""
    mjd, k, rng = case
    r, v = alpha.orbit("geo")
    s = ref.unit(ref.sub(ref.sun(mjd), r))
    perp = ref.unit(ref.cross(s, (0.3, 0.5, 0.8)))
    a = k * pi / 36
    d = ref.add(ref.mul(s, cos(a)), ref.mul(perp, sin(a)))
    sc = craft(mjd, r, v)
    rt = ref.add(r, ref.mul(d, rng))
    tgt = craft(mjd, rt, v)
    for own, radius, albedo in itertools.product([(0.005, 0.3), (0.1, 0.9)], [1e-8, 1e-6, 0.0005, 0.005, 0.3, 50.0], [1e-3, 0.05, 0.3, 1.0]):
        sc.body_radius, sc.albedo = own
        tgt.body_radius, tgt.albedo = radius, albedo
        q = geometry(mjd, r, rt, ref.mul(r, -1.0), radius, albedo)
        lim = sc.wfov.limits
        lim.sun_soft = lim.earth = lim.moon = 0.0
        lim.bore = 4.0
        for s in (1, -1):
            lim.vismag = q[3] + s * 1e-3
            if q[0] > 0.02:
                require(bool(sc.detect(tgt)) == (s > 0), f"limiting magnitude {lim.vismag}, magnitude {q[3]}: detected is {s < 0} for {case}")
        if q[0] > 0.02:
            queries(sc, tgt, r, rt, q, f"for {case} with radius {radius}, albedo {albedo}")
        ctx.step()
        ctx.outcome(radius, albedo, rng, k)
    ctx.state(*case)


def run_square(case, ctx):
    """a target exactly at a limit of 90 degrees is detected"""
    axis, sign, rng, lim_kind = case
    ro, d = [0.0] * 3, [0.0] * 3
    ro[axis] = 42164.0
    d[(axis + 1) % 3] = sign * rng
    v = [0.0] * 3
    v[(axis + 2) % 3] = 3.0
    sc = craft(60000.25, ro, v)
    tgt = craft(60000.25, ref.add(ro, d), v)
    lim = sc.wfov.limits
    lim.sun_soft = lim.moon = 0.0
    lim.vismag = 1000.0
    lim.earth, lim.bore = 0.0, 4.0
    for delta, want in ((0.0, True), (1e-9, True), (-1e-9, False)):
        if lim_kind == "earth":
            lim.earth = pi / 2 - delta
        else:
            lim.bore = pi / 2 + delta
        require(bool(sc.detect(tgt)) == want, f"{lim_kind} limit {delta} from the angle: detected is {not want} ({case})")
        ctx.step()
    ctx.state(*case)
    ctx.outcome(lim_kind)


def run_camera(case, ctx):
    pixels, deg = case
    fov = deg * D2R
    what = f"of a camera of {pixels} pixels and {deg} degrees"
    cams = [Camera(pixels, fov)]
    if pixels == 3072 and deg == 5.0:
        cams += [Camera.wfov(), Spacecraft(alpha.gcrf(60000.0, *alpha.orbit("geo"))).wfov]
    if pixels == 3072 and deg == 0.125:
        cams += [Camera.nfov(), Spacecraft(alpha.gcrf(60000.0, *alpha.orbit("geo"))).nfov]
    Camera(7, 1.0)  # another camera does not matter
    for c in cams:
        close(c.pixels, pixels, 0, "pixels " + what)
        close(c.fov, fov, 1e-15, "field of view " + what)
        for r in (0.0, 0.1, 1.0, 37.5, 1000.0, 42164.0, 400000.0):
            res = tan(fov) * r / (2 * pixels)
            close(c.resolution(r), res, 1e-12 * res, f"resolution at {r} km " + what)
            for d in (1e-4, 0.01, 1.0, 30.0):
                close(c.range_error(r, d), res * r / d, 1e-12 * res * r / d, f"range error at {r} km of {d} km " + what)
                ctx.step()
        for b in (1e-3, 0.005, 6378.137):
            close(c.tracking_minimum(b), b / tan(fov), 1e-12 * b / tan(fov), f"tracking minimum of {b} km " + what)
        for lim in (c.limits, OpticalConstraints(pixels, fov)):
            ch = 1e-5 * 2 * pixels / tan(fov)
            close(lim.characterization, ch, 1e-12 * ch, "characterization range " + what)
            close(lim.bore, fov, 1e-15, "boresight limit " + what)
            close(lim.sun_hard, pi / 3, 1e-12, "hard sun limit " + what)
            close(lim.sun_soft, pi / 2, 1e-12, "soft sun limit " + what)
            close(lim.moon, pi / 18, 1e-12, "moon limit " + what)
            close(lim.earth, pi / 9, 1e-12, "earth limit " + what)
            close(lim.vismag, 15, 0, "limiting magnitude " + what)
            ctx.step(7)
        # neighbouring ranges, sizes and fields of view asked one after the other
        for r in (900.0, 900.004, 900.00001, 899.9999999):
            res = tan(fov) * r / (2 * pixels)
            close(c.resolution(r), res, 1e-13 * res, f"resolution at {r} km " + what)
            for d in (0.01, 0.010004, 0.01000000001):
                close(c.range_error(r, d), res * r / d, 1e-13 * res * r / d, f"range error at {r} km of {d} km " + what)
                close(c.tracking_minimum(d), d / tan(fov), 1e-13 * d / tan(fov), f"tracking minimum of {d} km " + what)
                ctx.step(2)
        for df in (3e-5, 1e-7, 1e-10):
            c2 = Camera(pixels, fov + df)
            c.fov = fov + df
            for k in (c, c2):
                res = tan(fov + df) * 900.0 / (2 * pixels)
                close(k.resolution(900.0), res, 1e-13 * res, f"resolution with {df} rad more " + what)
                close(k.tracking_minimum(0.01), 0.01 / tan(fov + df), 1e-13 / tan(fov + df), f"tracking minimum with {df} rad more " + what)
            ch = 1e-5 * 2 * pixels / tan(fov + df)
            close(c2.limits.characterization, ch, 1e-12 * ch, f"characterization range with {df} rad more " + what)
            c.fov = fov
            ctx.step(5)
        ctx.outcome(c.resolution(1.0))
    ctx.state(*case)


def run_edits(case, ctx):
    """queries follow the geometry, the bodies and the cameras as they are now"""
    mjd = 60000.25
    r, v = alpha.orbit("geo")
    sc = craft(mjd, r, v)
    offs = [(300.0, -200.0, 50.0), (-20.0, 900.0, 4.0)]
    tg = [craft(mjd, ref.add(r, o), v) for o in offs]
    for t in tg:
        t.body_radius, t.albedo = 0.002, 0.45
    bore = ref.mul(r, -1.0)
    px, fov = 3072, 5 * D2R
    for op in (None, *case):
        t = tg[0]
        st, own = t.propagator.state, sc.propagator.state
        what = f"after {case}"
        if op == "move":
            st.position.x, st.position.y = st.position.x - 250.0, st.position.y + 500.0
        elif op == "newpos":
            st.position = alpha.V(ref.add(alpha.t3(st.position), (7.0, 100.0, -900.0)))
        elif op == "newstate":
            t.propagator.state = alpha.gcrf(mjd, ref.add(alpha.t3(own.position), (-100.0, 20.0, 300.0)), v)
        elif op == "swap":
            tg.reverse()
            t = tg[0]
        elif op == "radius":
            t.body_radius *= 2.5
        elif op == "albedo":
            t.albedo *= 0.4
        elif op == "own":
            own.position.z += 150.0
        elif op == "date":
            for c in (sc, *tg):
                c.propagator.state.epoch.value += 33.3
            mjd += 33.3
        elif op == "fov":
            sc.wfov.fov = fov = fov * 0.7
        elif op == "limits":
            sc.wfov.limits.sun_soft, sc.wfov.limits.earth, sc.wfov.limits.bore = 0.2, 1.2, 2.0
        ro, rt = alpha.t3(sc.propagator.state.position), alpha.t3(t.propagator.state.position)
        q = geometry(mjd, ro, rt, bore, t.body_radius, t.albedo)
        queries(sc, t, ro, rt, q, what)
        sc.target_vector(t).x += 5.0
        sc.position().x += 5.0
        lim = sc.wfov.limits
        if min(abs(a - b) for a, b in zip(q, (lim.sun_soft, lim.earth, lim.moon, lim.vismag, lim.bore))) > 1e-4:
            want = all(expected(q, lim))
            require(bool(sc.detect(t)) == want, f"detected is {not want}, angles and magnitude {q} {what}")
        res = tan(fov) * 500.0 / (2 * px)
        close(sc.wfov.resolution(500.0), res, 1e-12 * res, "resolution " + what)
        close(sc.wfov.range_error(500.0, 0.01), res * 500.0 / 0.01, 1e-12 * res * 5e4, "range error " + what)
        close(sc.wfov.tracking_minimum(0.01), 0.01 / tan(fov), 1e-12, "tracking minimum " + what)
        ctx.step(8)
    ctx.state(*case)
    ctx.outcome(q)


EDITS = ["move", "newpos", "newstate", "swap", "radius", "albedo", "own", "date", "fov", "limits"]


def run_shared(case, ctx):
    """limits of one spacecraft are its own, whatever happens to others"""
    r, v = alpha.orbit("geo")
    a, b = craft(60000.25, r, v), craft(60000.25, ref.add(r, (1.0, 2.0, 3.0)), v)
    own = {0: 5 * D2R, 1: 5 * D2R}
    for op in case:
        if op == "a":
            a.wfov.limits.bore = own[0] = 0.3
        elif op == "b":
            b.wfov.limits.bore = own[1] = 0.4
        elif op == "swap":
            a.wfov = Camera(1000, 0.2)
            own[0] = 0.2
        elif op == "new":
            close(craft(60000.0, r, v).wfov.limits.bore, 5 * D2R, 1e-15, f"limit of a new spacecraft after {case}")
        else:
            a.detect(b)
            b.detect(a)
        close(a.wfov.limits.bore, own[0], 1e-15, f"limit of the first spacecraft after {case}")
        close(b.wfov.limits.bore, own[1], 1e-15, f"limit of the second spacecraft after {case}")
        close(a.nfov.limits.bore, 0.125 * D2R, 1e-15, f"narrow limit after {case}")
        ctx.step()
        ctx.state(*own.values())
    ctx.outcome(*own.values())


GROUPS = [
    Group("limits", limit_cases, run_limits, doc="all 2^5 combinations of met and violated limits (1e-6 off) at 9 orbits, up to 29 directions, ranges, epochs, 4 pointings; targets 0.002 and 0.03 rad from the Sun, Moon and Earth and from the points opposite; default limits; limits that must not matter"),
    Group("magnitude", lambda t: grid([51544.5, 60000.25, 44238.7312], list(range(37)), [0.5, 200.0, 30000.0, 400000.0]), run_magnitude, doc="3 epochs x 37 phase angles x 4 ranges x sizes and albedos of both spacecraft"),
    Group("square", lambda t: grid([0, 1, 2], [-1, 1], [1.0, 64.0], ["earth", "boresight"]), run_square, doc="targets exactly at a limit of 90 degrees"),
    Group("camera", lambda t: grid([1, 64, 1024, 3072, 10000], [0.01, 0.125, 1.0, 5.0, 30.0, 60.0, 89.0]), run_camera, doc="5 pixel counts x 7 fields of view x ranges and sizes, and neighbours of each"),
    Group("edits", lambda t: [list(p) for n in range(1, 4 if t == "quick" else 5) for p in itertools.product(EDITS, repeat=n)], run_edits, doc="all sequences up to length 3 (4) of 10 changes of target, observer, date, sizes, camera and limits, every query asked again after each"),
    Group("shared", lambda t: [list(s) for s in itertools.product(["a", "b", "swap", "new", "detect"], repeat=4)], run_shared, doc="all sequences of 5 changes of limits of length 4"),
]
ASSUMPTIONS = ["limits are placed 1e-6 rad (1e-6 magnitudes) from the value, or exactly at it for right angles"]
