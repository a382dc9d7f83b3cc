"""C05 observations"""
import itertools
from math import cos, pi, sin

import alpha
import ref
from engine import TWO_PI, Group, close, close_angle, close_vec, grid, in_range
from openspace.bodies.artificial import Spacecraft
from openspace.bodies.terrestrial import GroundSite
from openspace.coordinates.positions import LLA
from openspace.coordinates.states import ITRF
from openspace.estimation.obs import GroundObservation, SpaceObservation

D = pi / 180
SITES = [(-90.0, 0.0, 2.8), (-45.5, 170.2, 0.3), (-20.0, -70.0, 5.0), (0.0, 0.0, 0.0), (20.7, 203.7, 3.05), (38.8, -104.5, 1.9), (52.0, 359.9, 0.1), (69.3, 16.0, 0.0), (90.0, 45.0, 0.0)]
AZ = [-30.0, 0.0, 1e-6, 30.0, 45.0, 90.0, 120.0, 180.0, 200.0, 270.0, 315.0, 359.999, 360.0, 400.0]
EL = [-89.99, -89.0, -30.0, -1e-6, 0.0, 5.0, 45.0, 85.0, 89.999, 90.0]
RNG = [0.01, 1.0, 500.0, 38000.0, 390000.0, 2e6]


def enz_of(az, el, r):
    return (r * cos(el) * sin(az), r * cos(el) * cos(az), r * sin(el))


def check_angles(ob, az, el, r, tol, what):
    close(ob.range, r, tol * r, "range " + what)
    close(ob.elevation, el, tol, "elevation " + what)
    in_range(ob.azimuth, 0, TWO_PI, "azimuth " + what)
    if cos(el) > 1e-5:
        close_angle(ob.azimuth, az, tol / cos(el), "azimuth " + what)


def run_ground(case, ctx):
    site, azd, eld, r = case
    lat, lon, alt = site[0] * D, site[1] * D, site[2]
    az, el = azd * D, eld * D
    spos = ref.lla_to_itrf(lat, lon, alt)
    axes = ref.enz_axes(lat, lon)
    d = enz_of(az, el, r)
    target = ref.add(spos, ref.matvec(ref.transpose(axes), d))
    for mjd in EPS:
        what = f"from {site} at az {azd}, el {eld}, range {r}, MJD {mjd}"
        st = ITRF.from_fixed(alpha.E(mjd), alpha.V(spos))
        ob = GroundObservation.from_angles_and_range(st, az, el, r, 0.25, 1e-4)
        ob2 = GroundObservation(st, alpha.V(d), 0.25, 1e-4)
        n = ref.norm(target)
        gtol = 2e-8 * n + (1e-8 * r if abs(site[0]) < 89.99 else 1.0) + 1e-6
        M = ref.gcrf_to_itrf_matrix(mjd)
        want_g = ref.matvec(ref.transpose(M), target)
        want_i = ref.matvec(ref.rz(-ref.gmst(mjd)), target)
        for o in (ob, ob2):
            close_vec(alpha.t3(o.observed_direction), d, 1e-11 * r, "direction " + what)
            check_angles(o, az, el, r, 1e-10, what)
            close(o.range_error, 0.25, 0, "range error " + what)
            close(o.angular_error, 1e-4, 0, "angular error " + what)
            close(o.epoch().value, mjd, 0, "epoch " + what)
            if abs(site[0]) < 89.99:  # the longitude of a pole is not kept by its position
                close_vec(alpha.t3(o.gcrf_position()), want_g, gtol, "GCRF position " + what)
                close_vec(alpha.t3(o.ijk_position()), want_i, gtol, "IJK position " + what)
        ctx.step(6)
        ctx.outcome(ob.azimuth, ob.elevation)
    ctx.state(*case)


EPS = [51544.5, 60000.25, 53736.0008, 44238.7312]


def run_site(case, ctx):
    """a spacecraft placed at the given direction is observed there, and the observation gives its position back"""
    site, azd, eld, r, mjd = case
    lat, lon, alt = site[0] * D, site[1] * D, site[2]
    az, el = azd * D, eld * D
    spos = ref.lla_to_itrf(lat, lon, alt)
    target = ref.add(spos, ref.matvec(ref.transpose(ref.enz_axes(lat, lon)), enz_of(az, el, r)))
    M = ref.gcrf_to_itrf_matrix(mjd)
    g = ref.matvec(ref.transpose(M), target)
    v = ref.mul(ref.unit(ref.cross((0.3, -0.5, 0.8), g)), (ref.MU / ref.norm(g)) ** 0.5)
    sat = Spacecraft(alpha.gcrf(mjd, g, v))
    what = f"of a spacecraft from {site} at az {azd}, el {eld}, range {r}, MJD {mjd}"
    n = ref.norm(target)
    for gs in (GroundSite(LLA(lat, lon, alt)), GroundSite.from_itrf_position(alpha.V(spos))):
        if abs(site[0]) > 89.99:
            gs = GroundSite(LLA(lat, lon, alt))
        ob = gs.angles_and_range(sat)
        tol = 2e-8 * n / r + 1e-8 + 3e-4 / r
        check_angles(ob, az, el, r, tol, what)
        close(ob.epoch().value, mjd, 0, "epoch " + what)
        close(ob.range_error, 0, 0, "range error " + what)
        close(ob.angular_error, 0, 0, "angular error " + what)
        if abs(site[0]) < 89.99:
            close_vec(alpha.t3(ob.gcrf_position()), g, 2e-8 * (n + r) + 3e-4, "position recovered " + what)
        ctx.step(2)
    # after the spacecraft moved, a new observation follows it
    sat.step_to_epoch(alpha.E(mjd + 600 / 86400))
    rr, mm = alpha.t3(sat.position()), sat.current_epoch().value
    m2 = ref.matvec(ref.gcrf_to_itrf_matrix(mm), rr)
    e2 = ref.matvec(ref.enz_axes(lat, lon), ref.sub(m2, spos))
    ob2 = gs.angles_and_range(sat)
    close_vec(alpha.t3(ob2.observed_direction), e2, 2e-8 * (ref.norm(m2) + ref.norm(e2)) + 3e-4, "direction after a step " + what)
    close(ob2.epoch().value, mm, 0, "epoch after a step " + what)
    ctx.step()
    ctx.state(*case)
    ctx.outcome(ob.azimuth, ob.elevation, ob.range)


def run_creep(case, ctx):
    """one site asked for a sequence of nearby positions, given as new vectors or as one vector moved in place"""
    site, steps, moved = case
    gs = GroundSite(LLA(site[0] * D, site[1] * D, site[2]))
    own = ref.enz_axes(gs.latitude, gs.longitude)
    spos = alpha.t3(gs.itrf_position)
    p = (7000.0, -300.0, 2000.0)
    vec = alpha.V(p)
    for k in steps:
        p = ref.add(p, CREEP[k])
        if moved:
            vec.x, vec.y, vec.z = p
        got = gs.enz_position(vec if moved else alpha.V(p))
        close_vec(alpha.t3(got), ref.matvec(own, ref.sub(p, spos)), 2e-11, f"east-north-zenith position of {p} from {site} after {steps}")
        got.x += 1.0
        ctx.step()
    ctx.state(*case)
    ctx.outcome(alpha.t3(got))


CREEP = [(0.0, 0.0, 0.0), (1e-8, 0.0, 0.0), (0.0, -1e-6, 0.0), (0.0, 0.0, 5e-4), (0.5, 0.0, 0.0), (-3000.0, 9000.0, 100.0)]
DIRS = [c for c in grid([-1.0, -1e-3, 0.0, 1e-3, 1.0], [-1.0, 0.0, 0.5], [-2.0, -1e-3, 0.0, 1.0]) if any(c)]


def run_space(case, ctx):
    d, scale, name, mjd = case
    d = ref.mul(d, scale)
    r, v = alpha.orbit(name)
    ob = SpaceObservation(alpha.gcrf(mjd, r, v), alpha.V(d), 0.3, 2e-5)
    n = ref.norm(d)
    what = f"of a space observation {case}"
    close(ob.range, n, 1e-12 * n, "range " + what)
    close(pi / 2 - ob.declination, ref.angle(d, (0, 0, 1)), 1e-11, "declination " + what)
    in_range(ob.right_ascension, 0, TWO_PI, "right ascension " + what)
    if ref.norm(d[:2]) > 0:
        close_vec((cos(ob.right_ascension), sin(ob.right_ascension), 0), ref.unit((d[0], d[1], 0)), 1e-11, "right ascension " + what)
    close(ob.range_error, 0.3, 0, "range error " + what)
    close(ob.angular_error, 2e-5, 0, "angular error " + what)
    close(ob.epoch().value, mjd, 0, "epoch " + what)
    close_vec(alpha.t3(ob.observed_direction), d, 0, "direction " + what)
    tot = ref.add(r, d)
    want = ref.matvec(ref.rz(-ref.gmst(mjd)), ref.matvec(ref.gcrf_to_itrf_matrix(mjd), tot))
    close_vec(alpha.t3(ob.ijk_position()), want, 2e-8 * (ref.norm(tot) + 1), "IJK position " + what)
    close_vec(alpha.t3(ob.observer_state.position), r, 0, "observer " + what)
    ctx.step(4)
    ctx.state(*case)
    ctx.outcome(ob.right_ascension, ob.declination)


def run_edits(case, ctx):
    """an observation whose observer, direction or epoch is changed in place gives positions by the current values"""
    kind, seq = case
    lat, lon, alt = 20.7 * D, 203.7 * D, 3.05
    d, mjd = (300.0, -500.0, 800.0), 60000.25
    if kind == "ground":
        ob = GroundObservation(ITRF.from_fixed(alpha.E(mjd), alpha.V(ref.lla_to_itrf(lat, lon, alt))), alpha.V(d), 0.25, 1e-4)
    else:
        ob = SpaceObservation(alpha.gcrf(mjd, *alpha.orbit("meo")), alpha.V(d), 0.25, 1e-4)
    k = 0
    for op in (None, *seq):
        what = f"of a {kind} observation after the edits {seq}"
        if op == "site":
            k += 1
            if kind == "ground":
                lat, lon, alt = lat - 0.31, lon + 0.9, alt + 1.2
                p = ref.lla_to_itrf(lat, lon, alt)
            else:
                p = alpha.orbit("meo", 31.0 * k)[0]
            ob.observer_state.position.x, ob.observer_state.position.y, ob.observer_state.position.z = p
        elif op == "newsite":
            if kind == "ground":
                lat, lon, alt = lat - 0.21, lon - 1.3, alt + 0.1
                p = ref.lla_to_itrf(lat, lon, alt)
            else:
                p = alpha.orbit("heo", 17.0 * k)[0]
            ob.observer_state.position = alpha.V(p)
        elif op == "dir":
            ob.observed_direction.x += 55.0
            ob.observed_direction.z -= 7.0
        elif op == "newdir":
            ob.observed_direction = alpha.V(ref.add(alpha.t3(ob.observed_direction), (-10.0, 0.5, 2.0)))
        elif op == "epoch":
            ob.observer_state.epoch.value += 0.137
        elif op == "newepoch":
            ob.observer_state.epoch = alpha.E(ob.observer_state.epoch.value - 33.003)
        mjd = ob.epoch().value
        close(mjd, ob.observer_state.epoch.value, 0, "epoch " + what)
        d, o = alpha.t3(ob.observed_direction), alpha.t3(ob.observer_state.position)
        M, Z = ref.gcrf_to_itrf_matrix(mjd), ref.rz(-ref.gmst(mjd))
        if kind == "ground":
            tot = ref.add(o, ref.matvec(ref.transpose(ref.enz_axes(lat, lon)), d))
            tol = 2e-8 * ref.norm(tot) + 1e-4
            got = ob.gcrf_position()
            close_vec(alpha.t3(got), ref.matvec(ref.transpose(M), tot), tol, "GCRF position " + what)
            got.x, got.y, got.z = 1.0, 2.0, 3.0
        else:
            tot = ref.matvec(M, ref.add(o, d))
            tol = 2e-8 * (ref.norm(tot) + 1)
        got = ob.ijk_position()
        close_vec(alpha.t3(got), ref.matvec(Z, tot), tol, "IJK position " + what)
        got.x, got.y, got.z = 1.0, 2.0, 3.0
        ctx.step(2)
    ctx.state(*case)
    ctx.outcome(tot)


def run_moved(case, ctx):
    """one ground site, with spacecraft that move, are moved and are exchanged between its observations"""
    seq = case
    lat, lon, alt = 20.7 * D, 203.7 * D, 3.05
    gs = GroundSite(LLA(lat, lon, alt))
    spos = ref.lla_to_itrf(lat, lon, alt)
    sats = [Spacecraft(alpha.gcrf(60000.25, *alpha.orbit(n))) for n in ("leo", "geo")]
    places = {id(sats[0]): "retro", id(sats[1]): "polar"}
    for op in seq:
        sat = sats[0]
        if op == "swap":
            sats.reverse()
            sat = sats[0]
        elif op == "step":
            sat.step()
        elif op == "epoch":
            sat.propagator.state.epoch.value += 0.021
        elif op == "move":
            sat.propagator.state.position.y += 412.0
        elif op == "site":
            spos = ref.add(spos, (0.5, 1.5, -2.5))
            gs.itrf_position = alpha.V(spos)
        elif op == "jump":
            st = sat.current_state()
            sat.propagator.state = alpha.gcrf(st.epoch.value, *alpha.orbit(places[id(sat)]))
        elif op == "sun":
            sat.track_sun()
        elif op == "track":
            sat.track_state(sats[1])
        elif op == "burn":
            sat.finite_maneuver(alpha.V((0.0, 2e-4, 1e-4)))
        ob = gs.angles_and_range(sat)
        mjd = sat.current_epoch().value
        m = ref.matvec(ref.gcrf_to_itrf_matrix(mjd), alpha.t3(sat.position()))
        e = ref.matvec(ref.enz_axes(lat, lon), ref.sub(m, spos))
        what = f"after {seq}"
        close_vec(alpha.t3(ob.observed_direction), e, 2e-8 * (ref.norm(m) + ref.norm(e)) + 3e-4, "direction " + what)
        close(ob.range, ref.norm(e), 1e-6 * ref.norm(e), "range " + what)
        close(ob.elevation, pi / 2 - ref.angle(e, (0, 0, 1)), 1e-6, "elevation " + what)
        close(ob.epoch().value, mjd, 0, "epoch " + what)
        close_vec(alpha.t3(ob.observer_state.position), spos, 1e-6, "site " + what)
        ob.observer_state.position.x += 77.0
        ob.observed_direction.x += 9.0
        ob.observer_state.epoch.value += 1.0
        close_vec(alpha.t3(gs.itrf_position), spos, 1e-9, "the site, changed through an observation " + what)
        close(sat.current_epoch().value, mjd, 0, "the epoch of the spacecraft, changed through an observation " + what)
        ctx.step()
    ctx.state(*case)
    ctx.outcome(e)


EDITS = ["site", "newsite", "dir", "newdir", "epoch", "newepoch"]
MOVES = ["look", "swap", "step", "epoch", "move", "site", "jump", "sun", "track", "burn"]


def seqs(alphabet, n):
    return [list(p) for k in range(1, n + 1) for p in itertools.product(alphabet, repeat=k)]


def site_cases(tier):
    eps = alpha.EPOCHS if tier == "quick" else alpha.epochs("thorough")
    return grid([list(s) for s in SITES], AZ, EL, [500.0, 38000.0], eps) + grid([list(s) for s in SITES], AZ, EL, [2e6, 0.3], [60000.25]) + grid([list(s) for s in SITES], AZ[::3], EL[::2], [900.0], alpha.EPOCHS_FAR)


def world_cases(tier):
    sites = [[float(la), float(lo), 0.7] for la in (-89.9, *range(-80, 90, 10), 89.9) for lo in range(-180, 361, 24 if tier == "quick" else 9)]
    return grid(sites, [77.0, 251.0], [-40.0, 15.0], [1500.0], [60000.25])


GROUPS = [
    Group("ground", lambda t: grid([list(s) for s in SITES], AZ, EL, RNG), run_ground, doc="9 sites x 14 azimuths x 9 elevations x 6 ranges x 4 epochs, both constructions"),
    Group("site", site_cases, run_site, doc="9 sites x 14 azimuths x 9 elevations x 2 ranges x 13 (33) epochs, spacecraft observed before and after a step"),
    Group("worldwide", world_cases, run_site, doc="sites every 10 degrees of latitude and 24 degrees of longitude from -180 to 360 x 2 azimuths x 2 elevations"),
    Group("creep", lambda t: [[list(s), list(p), m] for s in SITES for m in (0, 1) for n in range(1, 4 if t == "quick" else 6) for p in itertools.product(range(len(CREEP)), repeat=n)], run_creep, doc="9 sites, all sequences of 6 displacements from 0 and 1e-8 km to 9500 km up to length 3 (5), as new vectors and as one vector moved in place"),
    Group("space", lambda t: grid([list(d) for d in DIRS], [1.0, 1000.0], ["leo", "geo", "heo"], [51544.5, 60000.25, 88069.375]), run_space, doc="59 directions x 2 lengths x 3 observers x 3 epochs"),
    Group("edits", lambda t: grid(["ground", "space"], seqs(EDITS, 3 if t == "quick" else 4)), run_edits, doc="ground and space observation, all sequences up to length 3 (4) of 6 changes of observer, direction and epoch, in place and replaced"),
    Group("moved", lambda t: [[*s] for s in seqs(MOVES, 3 if t == "quick" else 4)], run_moved, doc="one site, all sequences up to length 3 (4) of 10 events: look again, exchange, step, re-date, move, jump, turn to the Sun or the other spacecraft, burn of the spacecraft, move of the site"),
]  # fmt: skip
ASSUMPTIONS = ["frames as in C03"]
