"""C04 geodetic and spherical coordinates"""
import itertools
from math import pi

import alpha
import ref
from engine import TWO_PI, Group, close, close_angle, close_mat, close_vec, grid, in_range
from openspace.bodies.terrestrial import GroundSite
from openspace.coordinates.positions import ENZ, LLA, PositionConvert, SphericalPosition

D = pi / 180
ALTS = [-10.0, -0.4, 0.0, 0.5, 8.8, 400.0, 1000.0, 20200.0, 35786.0, 384400.0, 400000.0]
SPECIAL = [90.0, 89.99999999, 89.9999999, 89.999999, 89.99999, 89.9999, 89.999, 89.9, 89.0, 1.0, 0.001, 1e-6, 1e-9, 0.0]


def lats(tier):
    step = 0.25 if tier == "quick" else 0.1
    base = sorted(set([-90 + step * k for k in range(int(180 / step) + 1)] + SPECIAL + [-x for x in SPECIAL] + [45.0, -45.0]))
    return base


def lons(tier):
    return [float(x) for x in range(-180, 361, 2 if tier == "quick" else 1)] + [-270.0, -200.5, 400.0, 720.0, 1e-9, -1e-9, 359.999999, 179.999999, 180.000001, 137.3]


def run_lat(case, ctx):
    latd, alt, tier = case
    lat = latd * D
    for lond in lons(tier):
        lon = lond * D
        lla = LLA(lat, lon, alt)
        pos = PositionConvert.lla.to_itrf(lla)
        want = ref.lla_to_itrf(lat, lon, alt)
        scale = ref.norm(want)
        close_vec(alpha.t3(pos), want, 1e-12 * scale + 1e-9, f"position of {latd}, {lond}, {alt}")
        back = PositionConvert.itrf.to_lla(alpha.V(want))
        what = f"of the position of lat {latd}, lon {lond}, alt {alt}"
        ltol = 3e-8 if abs(latd) < 1.5 else 1e-9  # the closed form loses half of the digits near the equator
        close(back.latitude, lat, ltol, "latitude " + what)
        close(back.altitude, alt, 1e-6, "altitude " + what)
        in_range(back.longitude, 0, TWO_PI, "longitude " + what)
        rho = ref.norm(want[:2])
        if rho > 1e-8:
            close_angle(back.longitude, lon, 1e-9, "longitude " + what)
        again = PositionConvert.lla.to_itrf(back)
        close_vec(alpha.t3(again), want, 1e-6 + ltol * scale, "position to geodetic to position " + what)
        # on the ellipsoid normal
        foot = ref.lla_to_itrf(back.latitude, back.longitude, 0.0)
        a, b = ref.RE, ref.RE * (1 - ref.FLAT)
        close((foot[0] ** 2 + foot[1] ** 2) / a**2 + foot[2] ** 2 / b**2, 1.0, 1e-12, "foot point on the ellipsoid " + what)
        ctx.step(3)
    cp = lla.copy()
    cp.latitude, cp.longitude, cp.altitude = 0.1, 0.2, 0.3
    close_vec((lla.latitude, lla.longitude, lla.altitude), (lat, lon, alt), 0, "coordinates changed through a copy")
    ctx.state(latd, alt)
    ctx.outcome(alpha.t3(pos))


def run_axes(case, ctx):
    """positions given directly, on the axes and near the polar axis"""
    x, y, z = case
    lla = PositionConvert.itrf.to_lla(alpha.V(case))
    pos = PositionConvert.lla.to_itrf(lla)
    n = ref.norm(case)
    close_vec(alpha.t3(pos), case, 1e-6 + 3e-8 * n, f"position to geodetic to position of {case}")
    in_range(lla.latitude, -pi / 2, pi / 2, "latitude")
    in_range(lla.longitude, 0, TWO_PI, "longitude")
    ctx.step()
    ctx.state(*case)
    ctx.outcome(lla.latitude, lla.longitude, lla.altitude)


AX = [-400000.0, -42164.0, -6400.0, -300.0, -1.0, -1e-6, 0.0, 1e-6, 1.0, 300.0, 6400.0, 42164.0, 400000.0]


def axis_cases(tier):
    return [c for c in grid(AX, AX, AX) if ref.norm(c) > 6340]


def run_sphere(case, ctx):
    x, y, z = case
    sp = SphericalPosition.from_cartesian(alpha.V(case))
    n = ref.norm(case)
    close(sp.radius, n, 1e-12 * n, f"radius of {case}")
    in_range(sp.right_ascension, 0, TWO_PI, f"right ascension of {case}")
    in_range(sp.declination, -pi / 2, pi / 2, f"declination of {case}")
    close(ref.angle(case, (0, 0, 1)), pi / 2 - sp.declination, 1e-12, f"declination of {case}")
    if ref.norm(case[:2]) > 0:
        close_vec(
            alpha.t3(SphericalPosition(1.0, sp.right_ascension, 0.0).to_cartesian()),
            ref.unit((x, y, 0)),
            1e-12,
            f"right ascension of {case}",
        )
    close_vec(alpha.t3(sp.to_cartesian()), case, 1e-12 * n, f"cartesian to spherical to cartesian of {case}")
    ctx.step(2)
    ctx.state(*case)
    ctx.outcome(sp.right_ascension, sp.declination)


SV = [-1.5e8, -384400.0, -7000.0, -3.0, -1.0, -1e-3, -1e-9, 0.0, 1e-9, 1e-3, 1.0, 2.0, 7000.0, 42164.0, 250000.0, 1.5e8]


def run_angles(case, ctx):
    r, ra, dec = case
    got = alpha.t3(SphericalPosition(r, ra, dec).to_cartesian())
    want = ref.matvec(ref.rz(-ra), ref.matvec(ref.ry(dec), (r, 0.0, 0.0)))
    close_vec(got, want, 1e-12 * r, f"position of {case}")
    if abs(dec) < pi / 2 - 1e-9:
        sp = SphericalPosition.from_cartesian(alpha.V(got))
        close_angle(sp.right_ascension, ra, 1e-12, f"right ascension of {case}")
        close(sp.declination, dec, 1e-12, f"declination of {case}")
        close(sp.radius, r, 1e-12 * r, f"radius of {case}")
    ctx.step(2)
    ctx.state(*case)
    ctx.outcome(got)


def run_site(case, ctx):
    latd, lond, alt = case
    lat, lon = latd * D, lond * D
    pos = ref.lla_to_itrf(lat, lon, alt)
    m = ref.enz_axes(lat, lon)
    src = LLA(lat, lon, alt)
    sites = [("geodetic", GroundSite(src)), ("position", GroundSite.from_itrf_position(alpha.V(pos)))]
    src.latitude = src.longitude = src.altitude = 0.77
    for name, s in sites:
        close_vec(alpha.t3(s.itrf_position), pos, 3e-4, f"location of the site from {name} {case}")
        close(s.latitude, lat, 3e-8 if abs(latd) < 1.5 else 1e-9, f"latitude of the site from {name} {case}")
        if abs(latd) < 89.9999:
            close_angle(s.longitude, lon, 1e-9, f"longitude of the site from {name} {case}")
            close_mat(alpha.m3(s.enz_matrix), m, 4e-8, f"axes of the site from {name} {case}")
        own = ref.enz_axes(s.latitude, s.longitude)
        close_mat(alpha.m3(s.enz_matrix), own, 1e-12, f"axes of the site from {name} {case}")
        for d in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (-300.0, 200.0, 900.0)):
            target = ref.add(pos, ref.matvec(ref.transpose(own), d))
            close_vec(alpha.t3(s.enz_position(alpha.V(target))), d, 3e-4 if abs(latd) < 1.5 else 2e-6, f"east-north-zenith offset {d} at {name} {case}")
            back = PositionConvert.enz.to_itrf(LLA(lat, lon, alt), alpha.V(d))
            close_vec(alpha.t3(back), ref.matvec(ref.transpose(m), d), 1e-9, f"offset {d} rotated to the earth fixed frame at {case}")
            ctx.step(2)
    em = alpha.m3(ENZ.matrix(lon, lat))
    close_mat(em, m, 1e-12, f"east-north-zenith axes at {case}")
    ctx.state(*case)
    ctx.outcome(alpha.t3(sites[1][1].itrf_position))


def site_cases(tier):
    la = [-90, -89.999999, 89.9999999, -89.99, -60, -33.3, -1e-6, 0, 1e-6, 20.7, 45, 71, 89.99, 90]
    lo = [-720, -270, -200.5, 400, 630, -180, -156.3, -90, -1e-6, 0, 1e-6, 33, 90, 135, 180, 203.7, 270, 359.9]
    al = [-0.4, 0, 3.0, 8.8, 500.0]
    return grid(la, lo, al)


def run_edits(case, ctx):
    """coordinates changed in place are converted by their current values; results belong to the caller"""
    seq = case
    sp, lla, vec = SphericalPosition(7000.0, 1.1, 0.4), LLA(0.6, 1.9, 0.5), alpha.V((4000.0, -3000.0, 5000.0))
    gs = GroundSite(LLA(0.6, 1.9, 0.5))
    shift = (0.0, 0.0, 0.0)
    home = alpha.t3(gs.itrf_position)
    for op in (None, *seq):
        if op is not None:
            EDITS[op](sp, lla, vec)
        if op == 8:
            shift = ref.add(shift, (3.0, -40.0, 0.5))
            gs.itrf_position.x, gs.itrf_position.y, gs.itrf_position.z = ref.add(home, shift)
        what = f"after the edits {seq}"
        got = sp.to_cartesian()
        want = ref.matvec(ref.rz(-sp.right_ascension), ref.matvec(ref.ry(sp.declination), (sp.radius, 0.0, 0.0)))
        close_vec(alpha.t3(got), want, 1e-12 * sp.radius, f"cartesian position {what}")
        pos = PositionConvert.lla.to_itrf(lla)
        close_vec(alpha.t3(pos), ref.lla_to_itrf(lla.latitude, lla.longitude, lla.altitude), 1e-7, f"position of the geodetic coordinates {what}")
        p = alpha.t3(vec)
        back = PositionConvert.itrf.to_lla(vec)
        close_vec(ref.lla_to_itrf(back.latitude, back.longitude, back.altitude), p, 1e-6 + (1e-9 if abs(p[2]) > 0.05 * ref.norm(p) else 3e-8) * ref.norm(p), f"geodetic coordinates of the position {what}")
        sv = SphericalPosition.from_cartesian(vec)
        close(sv.radius, ref.norm(p), 1e-12 * ref.norm(p), f"radius {what}")
        close(pi / 2 - sv.declination, ref.angle(p, (0, 0, 1)), 1e-12, f"declination {what}")
        close_vec(alpha.t3(sv.to_cartesian()), p, 1e-12 * ref.norm(p), f"cartesian to spherical to cartesian {what}")
        off = PositionConvert.enz.to_itrf(lla, vec)
        close_vec(alpha.t3(off), ref.matvec(ref.transpose(ref.enz_axes(lla.latitude, lla.longitude)), p), 1e-9 * ref.norm(p), f"offset rotated to the earth fixed frame {what}")
        enz = gs.enz_position(vec)
        want = ref.matvec(ref.enz_axes(0.6, 1.9), ref.sub(p, ref.add(home, shift)))
        close_vec(alpha.t3(enz), want, 1e-9 * ref.norm(p), f"east-north-zenith position {what}")
        for o in (got, pos, off, enz):
            o.x, o.y, o.z = 1.0, 2.0, 3.0
        back.latitude, back.longitude, back.altitude = 0.1, 0.2, 0.3
        sv.radius, sv.right_ascension, sv.declination = 0.1, 0.2, 0.3
        ctx.step(6)
    ctx.state(*case)
    ctx.outcome(want)


def edit(who, attr, d):
    def go(*objs):
        setattr(objs[who], attr, getattr(objs[who], attr) + d)

    return go


EDITS = [
    edit(0, "radius", 300.0), edit(0, "right_ascension", 2.2), edit(0, "declination", -0.7), edit(1, "latitude", -0.35), edit(1, "longitude", 2.4),
    edit(1, "altitude", 700.0), edit(2, "x", -9000.0), edit(2, "z", -12000.0), lambda *a: None, edit(0, "declination", 1e-5), edit(1, "latitude", 1e-7), edit(2, "y", 0.01), edit(2, "y", 4e-4),
]  # fmt: skip

ANG = [0.0, 1e-9, 0.3, pi / 2, 2.0, pi, 3.5, 3 * pi / 2, 5.5, 2 * pi - 1e-9]
DEC = [-pi / 2, -1.2, -1e-9, 0.0, 1e-9, 0.7, pi / 2]
GROUPS = [
    Group("geodetic", lambda t: [[a, h, t] for a in lats(t) for h in ALTS], run_lat, doc="latitudes every 0.25 (0.1) degrees plus near-pole and near-equator values x 11 altitudes x all longitudes every 2 (1) degrees"),
    Group("axes", axis_cases, run_axes, doc="all positions with components from 13 values incl. 0 and +-1e-6, above the surface"),
    Group("spherical", lambda t: [c for c in grid(SV, SV, SV) if any(c)], run_sphere, doc="all vectors with components from 16 values of both signs incl. 0"),
    Group("angles", lambda t: grid([1e-3, 1.0, 42164.0], ANG, DEC), run_angles, doc="product of radii, right ascensions and declinations"),
    Group("sites", site_cases, run_site, doc="14 latitudes x 18 longitudes x 5 altitudes, both constructions, 4 offsets"),
    Group("edits", lambda t: [list(p) for n in range(1, 4 if t == "quick" else 5) for p in itertools.product(range(len(EDITS)), repeat=n)], run_edits, doc="all sequences up to length 3 (4) of 13 in-place changes of the coordinates, the position and the site, all conversions asked again after each"),
]  # fmt: skip
ASSUMPTIONS = ["ellipsoid: radius 6378.137 km, flattening 1/298.2572235"]
