"""Shared alphabets: the finite argument domains that the checks enumerate, and conversions of the real objects"""
import math

import ref

D2R = math.pi / 180

# modified julian dates: J2000, midnights, just around the offset midnight of universal time, both sides of the
# millennium, MJD zero, the ends of the range used for ephemerides
EPOCHS = [
    51544.5,  # J2000
    60000.25,
    59946.0,
    58849.9999,
    53736.0008,  # 69.12 s after midnight: universal time still on the day before
    53736.0009,
    44238.7312,
    33282.4235,  # B1950
    15020.0,  # 1900
    66154.625,
    88069.375,  # 2100
    62502.123456789,
    60116.4,  # June: Sun north of the equator
    59842.77,  # September
    57472.9,  # March
    44801.15,  # July
    0.0,
]
EPOCHS_MORE = [
    51544.0, 51544.999999, 51545.0, 51179.31, 55562.0, 57023.77, 60676.5, 61041.96875, 65835.1, 47892.55,
    36934.2, 25000.6, 40587.0, 73050.4, 80000.9, 106331.7, -1000.3, 53736.00080074074, 56109.0, 60310.08333333,
]  # fmt: skip


EPOCHS_FAR = [-678575.3, -101000.7, 161000.2, 416000.9]


def hour_angle_crossings(offsets=(0.0, 1e-9, 1e-7, 1e-6, 5e-6, 1e-4)):
    """epochs at and just around Greenwich hour angles of 0, 90, 180 and 270 degrees"""
    rate = 2 * math.pi * 1.00273790935
    out = []
    for day in (59000.3, 60000.0, 51544.5, 40000.1):
        for quarter in range(4):
            t = day
            for _ in range(6):
                g = ref.gmst(t) - quarter * math.pi / 2
                t -= ((g + math.pi) % (2 * math.pi) - math.pi) / rate
            out += [t + s * o for o in offsets for s in ((1, -1) if o else (1,))]
    return out


def epochs(tier):
    return EPOCHS + (EPOCHS_MORE if tier == "thorough" else [])


def V(t):
    from openspace.math.linalg import Vector3D

    return Vector3D(t[0], t[1], t[2])


def V6(t):
    from openspace.math.linalg import Vector6D

    return Vector6D(*t)


def E(mjd):
    from openspace.time import Epoch

    return Epoch(mjd)


def gcrf(mjd, r, v):
    from openspace.coordinates.states import GCRF

    return GCRF(E(mjd), V(r), V(v))


def t3(v):
    return (v.x, v.y, v.z)


def t6(v):
    return (v.x, v.y, v.z, v.vx, v.vy, v.vz)


def m3(m):
    return [list(t3(m.row1)), list(t3(m.row2)), list(t3(m.row3))]


def m36(m):
    return [list(t6(r)) for r in (m.row1, m.row2, m.row3)]


def m63(m):
    return [list(t3(r)) for r in (m.row1, m.row2, m.row3, m.row4, m.row5, m.row6)]


def m6(m):
    return [list(t6(r)) for r in (m.row1, m.row2, m.row3, m.row4, m.row5, m.row6)]


def rv(state):
    return t3(state.position), t3(state.velocity)


# named orbits: a, e, i, raan, aop, mean anomaly (degrees)
ORBITS = {
    "leo": (6778.0, 0.001, 51.6, 30.0, 40.0, 10.0),
    "sso": (7178.137, 0.0005, 98.7, 250.0, 90.0, 200.0),
    "meo": (26560.0, 0.01, 55.0, 120.0, 300.0, 77.0),
    "geo": (42164.17, 0.0002, 0.05, 80.0, 10.0, 200.0),
    "heo": (26553.0, 0.72, 63.4, 330.0, 270.0, 15.0),
    "gto": (24500.0, 0.73, 7.0, 5.0, 178.0, 100.0),
    "retro": (9000.0, 0.05, 144.0, 200.0, 10.0, 345.0),
    "polar": (8000.0, 0.1, 90.0, 0.0, 0.0, 60.0),
    "xgeo": (90000.0, 0.3, 20.0, 290.0, 130.0, 181.0),
}


EXTRA = {"far": (720000.0, 0.1, 25.0, 10.0, 60.0, 90.0), "lunar": (384400.0, 0.05, 28.0, 10.0, 60.0, 300.0)}


def orbit(name, dma=0.0):
    a, e, i, ra, w, m = ORBITS.get(name) or EXTRA[name]
    return ref.elements_to_state(a, e, i * D2R, ra * D2R, w * D2R, (m + dma) * D2R)
