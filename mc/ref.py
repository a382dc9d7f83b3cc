"""Reference models: plain tuples and lists, written from the published definitions and not from the code.

Formulations differ from the code under test wherever there is a choice (geopotential by the Cunningham recursion,
Hill dynamics by the matrix exponential of the differential equations, Kepler's equation by bisection, frames by
products of elementary rotations, geodetic coordinates by the ellipsoid normal, calendar by datetime.date).
"""
import datetime
import math
from fractions import Fraction
from math import asin, atan2, cos, factorial, pi, radians, sin, sqrt

TWO_PI = 2 * pi
ARCSEC = pi / 648000.0

MU = 398600.4418
RE = 6378.137
FLAT = 1 / 298.2572235
MU_SUN = 132712440041.9
MU_MOON = 4902.800305555
G0 = 0.00981
DAY = 86400.0
J2000 = 51544.5  # MJD
TT_OFFSET = 69.184 / DAY
OBLIQUITY = radians(23.43929111)
P_SUN = 4.56e-6
SIDEREAL_DAY = 86164.090518


# ------------------------------------------------------------------ vectors
def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def mul(a, k):
    return tuple(x * k for x in a)


def dot(a, b):
    return math.fsum(x * y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def norm(a):
    return math.hypot(*a)


def unit(a):
    n = norm(a)
    return tuple(x / n for x in a)


def angle(a, b):
    """angle between two vectors, well conditioned everywhere"""
    a, b = unit(a), unit(b)
    return 2 * atan2(norm(sub(a, b)), norm(add(a, b)))


def rodrigues(v, axis, th):
    u = unit(axis)
    return add(add(mul(v, cos(th)), mul(cross(u, v), sin(th))), mul(u, dot(u, v) * (1 - cos(th))))


def matvec(m, v):
    return tuple(math.fsum(r[j] * v[j] for j in range(len(v))) for r in m)


def matmul(a, b):
    n = len(b[0])
    return [[math.fsum(r[k] * b[k][j] for k in range(len(b))) for j in range(n)] for r in a]


def transpose(m):
    return [list(c) for c in zip(*m)]


def madd(a, b):
    return [[x + y for x, y in zip(r, s)] for r, s in zip(a, b)]


def msub(a, b):
    return [[x - y for x, y in zip(r, s)] for r, s in zip(a, b)]


def mscale(a, k):
    return [[x * k for x in r] for r in a]


def eye(n):
    return [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]


def solve(a, b):
    """Gauss-Jordan with partial pivoting: inverse(a) * b"""
    n = len(a)
    w = [list(map(float, a[i])) + list(map(float, b[i])) for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(w[r][c]))
        w[c], w[p] = w[p], w[c]
        pv = w[c][c]
        w[c] = [x / pv for x in w[c]]
        for r in range(n):
            if r != c and w[r][c] != 0.0:
                k = w[r][c]
                w[r] = [x - k * y for x, y in zip(w[r], w[c])]
    return [row[n:] for row in w]


def inverse(a):
    return solve(a, eye(len(a)))


def rx(t):
    """frame rotation"""
    return [[1, 0, 0], [0, cos(t), sin(t)], [0, -sin(t), cos(t)]]


def ry(t):
    return [[cos(t), 0, -sin(t)], [0, 1, 0], [sin(t), 0, cos(t)]]


def rz(t):
    return [[cos(t), sin(t), 0], [-sin(t), cos(t), 0], [0, 0, 1]]


# ------------------------------------------------------------------ time
def mjd_of_date(y, m, d):
    return datetime.date(y, m, d).toordinal() - 678576


def centuries(mjd):
    return (mjd - J2000) / 36525.0


def gmst(mjd):
    """Curtis 2.6 to 2.8 in exact rational arithmetic, radians in [0, 2 pi)"""
    ut = Fraction(mjd) - Fraction(69184, 86400000)
    day = math.floor(ut)
    t0 = (Fraction(day) - Fraction(103089, 2)) / 36525
    deg = (
        Fraction("100.4606184")
        + Fraction("36000.77004") * t0
        + Fraction("0.000387933") * t0 * t0
        + Fraction("360.98564724") * (ut - day)
    )
    return radians(float(deg % 360))


def obliquity(mjd):
    t = centuries(mjd)
    return OBLIQUITY + ARCSEC * (-46.815 * t - 0.00059 * t * t + 0.001813 * t**3)


# ------------------------------------------------------------------ frames
def nutation_angles(mjd):
    d = mjd - J2000
    n1 = radians(125.0 - 0.05295 * d)
    n2 = radians(200.9 + 1.97129 * d)
    return (
        radians(-0.0048) * sin(n1) - radians(0.0004) * sin(n2),
        radians(0.0026) * cos(n1) + radians(0.0002) * cos(n2),
    )


def precession(mjd):
    t = centuries(mjd)
    zeta = ARCSEC * (2306.2181 * t + 0.30188 * t * t + 0.017998 * t**3)
    theta = ARCSEC * (2004.3109 * t - 0.42665 * t * t - 0.041833 * t**3)
    z = zeta + ARCSEC * (0.7928 * t * t + 0.000205 * t**3)
    return matmul(rz(-z), matmul(ry(theta), rz(-zeta)))


def nutation(mjd):
    """full rotation; the code uses the first-order matrix, which differs by less than 1.2e-8"""
    dpsi, deps = nutation_angles(mjd)
    eps = obliquity(mjd)
    return matmul(rx(-eps - deps), matmul(rz(-dpsi), rx(eps)))


def gast(mjd):
    return gmst(mjd) + nutation_angles(mjd)[0] * cos(obliquity(mjd))


def earth_rotation(mjd):
    return rz(gast(mjd))


def gcrf_to_itrf_matrix(mjd):
    return matmul(earth_rotation(mjd), matmul(nutation(mjd), precession(mjd)))


def nutation1(mjd):
    """first-order nutation, as used by low precision models"""
    dpsi, deps = nutation_angles(mjd)
    ce, se = cos(obliquity(mjd)), sin(obliquity(mjd))
    return [[1.0, -dpsi * ce, -dpsi * se], [dpsi * ce, 1.0, -deps], [dpsi * se, deps, 1.0]]


# ------------------------------------------------------------------ sun and moon
def sun(mjd):
    t = centuries(mjd)
    m = radians(357.5256 + 35999.049 * t)
    lam = radians(282.94) + m + ARCSEC * (6892 * sin(m) + 72 * sin(2 * m))
    r = (149.619 - 2.499 * cos(m) - 0.021 * cos(2 * m)) * 1e6
    return matvec(rx(-OBLIQUITY), (r * cos(lam), r * sin(lam), 0.0))


# (coefficient, l, l', F, D)
_LON = [
    (22640, 1, 0, 0, 0), (769, 2, 0, 0, 0), (-4586, 1, 0, 0, -2), (2370, 0, 0, 0, 2), (-668, 0, 1, 0, 0),
    (-412, 0, 0, 2, 0), (-212, 2, 0, 0, -2), (-206, 1, 1, 0, -2), (192, 1, 0, 0, 2), (-165, 0, 1, 0, -2),
    (148, 1, -1, 0, 0), (-125, 0, 0, 0, 1), (-110, 1, 1, 0, 0), (-55, 0, 0, 2, -2),
]  # fmt: skip
_LAT = [
    (-526, 0, 0, 1, -2), (44, 1, 0, 1, -2), (-31, -1, 0, 1, -2), (-25, -2, 0, 1, 0), (-23, 0, 1, 1, -2),
    (21, -1, 0, 1, 0), (11, 0, -1, 1, -2),
]  # fmt: skip
_RAD = [
    (-20905, 1, 0, 0, 0), (-3699, -1, 0, 0, 2), (-2956, 0, 0, 0, 2), (-570, 2, 0, 0, 0), (246, 2, 0, 0, -2),
    (-205, 0, 1, 0, -2), (-171, 1, 0, 0, 2), (-152, 1, 1, 0, -2),
]  # fmt: skip


def moon(mjd):
    t = centuries(mjd)
    l0 = radians(218.31617 + 481267.88088 * t - 1.3972 * t)
    fund = (
        radians(134.96292 + 477198.86753 * t),
        radians(357.52543 + 35999.04944 * t),
        radians(93.27283 + 483202.01873 * t),
        radians(297.85027 + 445267.11135 * t),
    )

    def arg(row):
        return sum(k * f for k, f in zip(row[1:], fund))

    dlam = ARCSEC * sum(row[0] * sin(arg(row)) for row in _LON)
    lam = l0 + dlam
    lp, f = fund[1], fund[2]
    beta = ARCSEC * 18520 * sin(f + dlam + ARCSEC * (412 * sin(2 * f) + 541 * sin(lp)))
    beta += ARCSEC * sum(row[0] * sin(arg(row)) for row in _LAT)
    r = 385000 + sum(row[0] * cos(arg(row)) for row in _RAD)
    return matvec(rx(-OBLIQUITY), (r * cos(lam) * cos(beta), r * sin(lam) * cos(beta), r * sin(beta)))


# ------------------------------------------------------------------ forces
_CBAR = {
    (2, 0): -0.484165143790815e-03, (2, 1): -0.206615509074176e-09, (2, 2): 0.243938357328313e-05,
    (3, 0): 0.957161207093473e-06, (3, 1): 0.203046201047864e-05, (3, 2): 0.904787894809528e-06,
    (3, 3): 0.721321757121568e-06, (4, 0): 0.539965866638991e-06, (4, 1): -0.536157389388867e-06,
    (4, 2): 0.350501623962649e-06, (4, 3): 0.990856766672321e-06, (4, 4): -0.188519633023033e-06,
}  # fmt: skip
_SBAR = {
    (2, 1): 0.138441389137979e-08, (2, 2): -0.140027370385934e-05, (3, 1): 0.248200415856872e-06,
    (3, 2): -0.619005475177618e-06, (3, 3): 0.141434926192941e-05, (4, 1): -0.473567346518086e-06,
    (4, 2): 0.662480026275829e-06, (4, 3): -0.200956723567452e-06, (4, 4): 0.308803882149194e-06,
}  # fmt: skip


def _unnorm(n, m):
    return sqrt(factorial(n - m) * (2 * n + 1) * (1 if m == 0 else 2) / factorial(n + m))


C_NM = {k: v * _unnorm(*k) for k, v in _CBAR.items()}
S_NM = {k: v * _unnorm(*k) for k, v in _SBAR.items()}


def geopotential_itrf(pos):
    """acceleration of the degree 2 to 4 harmonics in the earth fixed frame (Cunningham's V and W)"""
    x, y, z = pos
    r2 = x * x + y * y + z * z
    rho = RE * RE / r2
    x0, y0, z0 = RE * x / r2, RE * y / r2, RE * z / r2
    nmax = 5
    v = [[0.0] * (nmax + 2) for _ in range(nmax + 2)]
    w = [[0.0] * (nmax + 2) for _ in range(nmax + 2)]
    v[0][0] = RE / sqrt(r2)
    for m in range(0, nmax + 1):
        if m > 0:
            v[m][m] = (2 * m - 1) * (x0 * v[m - 1][m - 1] - y0 * w[m - 1][m - 1])
            w[m][m] = (2 * m - 1) * (x0 * w[m - 1][m - 1] + y0 * v[m - 1][m - 1])
        for n in range(m + 1, nmax + 1):
            v[n][m] = ((2 * n - 1) * z0 * v[n - 1][m] - (n + m - 1) * rho * (v[n - 2][m] if n >= 2 else 0)) / (n - m)
            w[n][m] = ((2 * n - 1) * z0 * w[n - 1][m] - (n + m - 1) * rho * (w[n - 2][m] if n >= 2 else 0)) / (n - m)
    ax = ay = az = 0.0
    for n in range(2, 5):
        for m in range(0, n + 1):
            c, s = C_NM[(n, m)], S_NM.get((n, m), 0.0)
            if m == 0:
                ax -= c * v[n + 1][1]
                ay -= c * w[n + 1][1]
            else:
                f = 0.5 * (n - m + 1) * (n - m + 2)
                ax += 0.5 * (-c * v[n + 1][m + 1] - s * w[n + 1][m + 1])
                ax += f * (c * v[n + 1][m - 1] + s * w[n + 1][m - 1])
                ay += 0.5 * (-c * w[n + 1][m + 1] + s * v[n + 1][m + 1])
                ay += f * (-c * w[n + 1][m - 1] + s * v[n + 1][m - 1])
            az += (n - m + 1) * (-c * v[n + 1][m] - s * w[n + 1][m])
    k = MU / (RE * RE)
    return (k * ax, k * ay, k * az)


def geopotential(mjd, pos):
    m = matmul(earth_rotation(mjd), matmul(nutation1(mjd), precession(mjd)))
    return matvec(transpose(m), geopotential_itrf(matvec(m, pos)))


def twobody(pos):
    return mul(pos, -MU / norm(pos) ** 3)


def third_body(body, mu, pos):
    """direct minus indirect, in Battin's form, which does not cancel"""
    q = dot(pos, sub(pos, mul(body, 2.0))) / dot(body, body)
    fq = q * (3 + 3 * q + q * q) / (1 + (1 + q) ** 1.5)
    d = norm(sub(pos, body))
    return mul(add(pos, mul(body, fq)), -mu / d**3)


def srp(mjd, pos, scalar):
    u = unit(sub(sun(mjd), pos))
    return mul(u, -P_SUN * scalar / 1000.0)


def accel(mjd, pos, perturb=True, srp_scalar=0.0, thrust=(0.0, 0.0, 0.0)):
    a = add(thrust, twobody(pos))
    if perturb:
        a = add(a, third_body(moon(mjd), MU_MOON, pos))
        a = add(a, third_body(sun(mjd), MU_SUN, pos))
        a = add(a, srp(mjd, pos, srp_scalar))
        a = add(a, geopotential(mjd, pos))
    return a


def rk4(mjd, r, v, dt, nsteps, perturb=True, srp_scalar=0.0, thrust=None):
    """classical Runge-Kutta 4, nsteps steps over dt seconds; thrust is a function of the seconds since the start"""
    h = dt / nsteps
    th = thrust or (lambda _t: (0.0, 0.0, 0.0))
    t = 0.0

    def f(s, rr, vv):
        return vv, accel(mjd + s / DAY, rr, perturb, srp_scalar, th(s))

    for i in range(nsteps):
        t = i * h
        k1r, k1v = f(t, r, v)
        k2r, k2v = f(t + h / 2, add(r, mul(k1r, h / 2)), add(v, mul(k1v, h / 2)))
        k3r, k3v = f(t + h / 2, add(r, mul(k2r, h / 2)), add(v, mul(k2v, h / 2)))
        k4r, k4v = f(t + h, add(r, mul(k3r, h)), add(v, mul(k3v, h)))
        r = tuple(r[j] + h / 6 * (k1r[j] + 2 * k2r[j] + 2 * k3r[j] + k4r[j]) for j in range(3))
        v = tuple(v[j] + h / 6 * (k1v[j] + 2 * k2v[j] + 2 * k3v[j] + k4v[j]) for j in range(3))
    return r, v


# ------------------------------------------------------------------ two-body orbits
def kepler(m, e):
    """eccentric anomaly by bisection, same revolution as m"""
    k = math.floor(m / TWO_PI)
    mm = m - k * TWO_PI
    lo, hi = 0.0, TWO_PI
    for _ in range(80):
        mid = 0.5 * (lo + hi)
        if mid - e * sin(mid) < mm:
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi) + k * TWO_PI


def elements_to_state(a, e, i, raan, aop, m, mu=MU):
    ea = kepler(m, e)
    nu = 2 * atan2(sqrt(1 + e) * sin(ea / 2), sqrt(1 - e) * cos(ea / 2))
    p = a * (1 - e * e)
    r = p / (1 + e * cos(nu))
    k = sqrt(mu / p)
    rot = transpose(matmul(rz(aop), matmul(rx(i), rz(raan))))
    return (
        matvec(rot, (r * cos(nu), r * sin(nu), 0.0)),
        matvec(rot, (-k * sin(nu), k * (e + cos(nu)), 0.0)),
    )


def kepler_propagate(r, v, dt, mu=MU):
    """two-body propagation with the f and g functions and universal variables (elliptic)"""
    r0 = norm(r)
    a = 1 / (2 / r0 - dot(v, v) / mu)
    n = sqrt(mu / a**3)
    ecos = 1 - r0 / a
    esin = dot(r, v) / sqrt(mu * a)
    m = n * dt
    m -= TWO_PI * math.floor(m / TWO_PI)
    lo, hi = -TWO_PI, 2 * TWO_PI
    for _ in range(90):
        x = 0.5 * (lo + hi)
        if x - ecos * sin(x) + esin * (1 - cos(x)) < m:
            lo = x
        else:
            hi = x
    x = 0.5 * (lo + hi)
    f = 1 - a / r0 * (1 - cos(x))
    g = m / n - (x - sin(x)) / n
    rn = add(mul(r, f), mul(v, g))
    rm = norm(rn)
    fd = -sqrt(mu * a) / (rm * r0) * sin(x)
    gd = 1 - a / rm * (1 - cos(x))
    return rn, add(mul(r, fd), mul(v, gd))


# ------------------------------------------------------------------ earth ellipsoid
def lla_to_itrf(lat, lon, alt):
    e2 = FLAT * (2 - FLAT)
    n = RE / sqrt(1 - e2 * sin(lat) ** 2)
    return ((n + alt) * cos(lat) * cos(lon), (n + alt) * cos(lat) * sin(lon), (n * (1 - e2) + alt) * sin(lat))


def enz_axes(lat, lon):
    return [
        [-sin(lon), cos(lon), 0.0],
        [-sin(lat) * cos(lon), -sin(lat) * sin(lon), cos(lat)],
        [cos(lat) * cos(lon), cos(lat) * sin(lon), sin(lat)],
    ]


# ------------------------------------------------------------------ relative motion
def ric(r, v):
    rr = unit(r)
    c = unit(cross(r, v))
    return [list(rr), list(cross(c, rr)), list(c)]


def to_hcw(r0, v0, r, v):
    """curvilinear relative state: radial difference and arcs along and across the track of the origin"""
    m = ric(r0, v0)
    R0 = norm(r0)
    p = matvec(m, r)
    q = matvec(m, v)
    w0 = matvec(m, v0)
    rho2 = p[0] ** 2 + p[1] ** 2
    R = norm(p)
    rdot = dot(p, q) / R
    lam = atan2(p[1], p[0])
    lamdot = (p[0] * q[1] - p[1] * q[0]) / rho2
    phi = atan2(p[2], sqrt(rho2))
    phidot = (q[2] - p[2] * rdot / R) / sqrt(rho2)
    return (R - R0, R0 * lam, R0 * phi), (rdot - w0[0], R0 * (lamdot - w0[1] / R0), R0 * phidot)


def from_hcw(x, xd, r0, v0):
    m = ric(r0, v0)
    R0 = norm(r0)
    w0 = matvec(m, v0)
    R, lam, phi = R0 + x[0], x[1] / R0, x[2] / R0
    rd, ld, pd = xd[0] + w0[0], xd[1] / R0 + w0[1] / R0, xd[2] / R0
    er = (cos(phi) * cos(lam), cos(phi) * sin(lam), sin(phi))
    el = (-sin(lam), cos(lam), 0.0)
    ep = (-sin(phi) * cos(lam), -sin(phi) * sin(lam), cos(phi))
    p = mul(er, R)
    q = add(add(mul(er, rd), mul(el, R * ld * cos(phi))), mul(ep, R * pd))
    mt = transpose(m)
    return matvec(mt, p), matvec(mt, q)


def hill_matrix(n, t):
    """exp(A t) of the Hill-Clohessy-Wiltshire equations in scaled units (n = 1)"""
    tau = n * t
    k = max(0, math.ceil(math.log2(max(abs(tau), 1e-300) / 0.1))) if tau else 0
    s = tau / 2**k
    a = [[0.0] * 6 for _ in range(6)]
    a[0][3] = a[1][4] = a[2][5] = 1.0
    a[3][0], a[3][4], a[4][3], a[5][2] = 3.0, 2.0, -2.0, -1.0
    a = mscale(a, s)
    out, term = eye(6), eye(6)
    for j in range(1, 16):
        term = mscale(matmul(term, a), 1 / j)
        out = madd(out, term)
    for _ in range(k):
        out = matmul(out, out)
    for i in range(3):
        for j in range(3):
            out[i][j + 3] /= n
            out[i + 3][j] *= n
    return out


__all__ = [n for n in dir() if not n.startswith("__")]
assert asin and atan2
