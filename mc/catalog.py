"""Catalog of the public operations, over a world of fresh objects, and snapshots of public state"""
import importlib
import math
import os
import pickle
import pkgutil

import alpha
import envrandom
import ref

import openspace
from openspace.bodies.artificial import Spacecraft
from openspace.bodies.celestial import Earth, Moon, Sun
from openspace.bodies.terrestrial import GroundSite
from openspace.coordinates.elements import ClassicalElements
from openspace.coordinates.positions import ENZ, LLA, PositionConvert, SphericalPosition
from openspace.coordinates.states import GCRF, HCW, IJK, ITRF, StateConvert
from openspace.estimation.filtering import RelativeKalman
from openspace.estimation.iod import Gauss
from openspace.estimation.obs import GroundObservation, SpaceObservation
from openspace.hardware.payloads import Camera
from openspace.math.functions import Conversions, EquationsOfMotion, LegendrePolynomial
from openspace.math.linalg import Matrix3by6, Matrix3D, Matrix6by3, Matrix6D, Vector3D, Vector6D
from openspace.planning.maneuvers import Hohmann, VisViva
from openspace.propagators.inertial import RK4
from openspace.propagators.relative import Hill
from openspace.time import Epoch

PKG = "openspace"


def is_obj(x):
    return type(x).__module__.split(".")[0] == PKG


def attrs(x):
    """attributes of an object, with or without __slots__"""
    d = dict(getattr(x, "__dict__", {}))
    for c in type(x).__mro__:
        names = c.__dict__.get("__slots__", ())
        for k in (names,) if isinstance(names, str) else names:
            if k not in ("__dict__", "__weakref__") and hasattr(x, k):
                d[k] = getattr(x, k)
    return d


def snap(x, seen=None):
    """nested structure of the public attributes; cycles become references"""
    seen = {} if seen is None else seen
    if x is None or isinstance(x, (bool, int, float, str, complex)):
        return x
    if isinstance(x, (list, tuple)):
        return [snap(y, seen) for y in x]
    if isinstance(x, dict):
        return {str(k): snap(y, seen) for k, y in x.items()}
    if is_obj(x):
        if id(x) in seen:
            return ("ref", seen[id(x)])
        seen[id(x)] = len(seen)
        return {"#": type(x).__name__, **{k: snap(y, seen) for k, y in sorted(attrs(x).items()) if not k.startswith("_")}}
    return ("other", type(x).__name__)


def diff(a, b, path=""):
    """first difference between snapshots; attributes that appear only in b are ignored"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return f"{path}.{k} disappeared"
            d = diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: length {len(a)} became {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        return None  # cross references are renumbered when attributes appear
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return None
    if a != b:
        return f"{path}: {a!r} became {b!r}"
    return None


def near(a, b, rel, path=""):
    """as diff, with a relative tolerance for floats"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            d = f"{path}.{k} disappeared" if k not in b else near(a[k], b[k], rel, f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = near(x, y, rel, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return None if abs(a - b) <= rel * max(abs(a), abs(b)) or (a != a and b != b) else f"{path}: {a!r} became {b!r}"
    return None if a == b else f"{path}: {a!r} became {b!r}"


# ------------------------------------------------------------------ shared constants
def _modules():
    mods = [openspace]
    for m in pkgutil.walk_packages(openspace.__path__, PKG + "."):
        mods.append(importlib.import_module(m.name))
    return mods


MODULES = _modules()


def _plain(v):
    return isinstance(v, (bool, int, float, str, list, tuple, dict)) or is_obj(v)


def constants():
    """every public constant of every module and class"""
    out = {}
    for mod in MODULES:
        for k, v in sorted(vars(mod).items()):
            if k.startswith("_"):
                continue
            if isinstance(v, type) and v.__module__ == mod.__name__:
                out[f"{mod.__name__}.{k}"] = {
                    a: snap(w) for a, w in sorted(vars(v).items()) if not a.startswith("_") and _plain(w)
                }
            elif _plain(v):
                out[f"{mod.__name__}.{k}"] = snap(v)
    return out


def _shared_ids():
    ids = set()

    def walk(x):
        if id(x) in ids:
            return
        if isinstance(x, (list, tuple)):
            ids.add(id(x))
            for y in x:
                walk(y)
        elif is_obj(x):
            ids.add(id(x))
            for y in attrs(x).values():
                walk(y)

    for mod in MODULES:
        for v in vars(mod).values():
            if isinstance(v, type):
                for w in vars(v).values():
                    walk(w)
            else:
                walk(v)
    return ids


SHARED = _shared_ids()


def scramble(x, seen=None):
    """change every number reachable through public attributes, except in shared constants"""
    seen = set() if seen is None else seen
    if id(x) in seen or id(x) in SHARED:
        return
    seen.add(id(x))
    if isinstance(x, list):
        for i, y in enumerate(x):
            if isinstance(y, (int, float)) and not isinstance(y, bool):
                x[i] = y * 1.5 + 7
            else:
                scramble(y, seen)
    elif isinstance(x, (tuple, dict)):
        for y in x.values() if isinstance(x, dict) else x:
            scramble(y, seen)
    elif is_obj(x):
        for k, y in attrs(x).items():
            if k.startswith("_"):
                continue
            if isinstance(y, bool) or y is None or isinstance(y, str):
                continue
            if isinstance(y, (int, float)):
                setattr(x, k, y * 1.5 + 7)
            else:
                scramble(y, seen)


def fresh(fn):
    """snapshot of fn() taken in a child process, in which nothing else has run"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                out = (True, fn())
            except Exception as ex:  # noqa: BLE001
                out = (False, f"{type(ex).__name__}: {ex}")
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else (False, "the process ended")


# ------------------------------------------------------------------ the world
def world(v=0, built=None):
    """fresh objects; variants differ in every value; built(w) is called when the plain ones are there"""
    envrandom.script([0.5] * 50, [0.3] * 50)
    mjd = [60000.25, 53906.9, 51179.31][v]
    w = {}
    w["e"] = Epoch(mjd)
    w["e2"] = Epoch(mjd + 0.0625)
    w["e1"] = Epoch(mjd + 2e-6)
    w["e0"] = Epoch(mjd - 0.01)
    w["a"] = Vector3D(1.5 + v, -2.25, 4.0)
    w["b"] = Vector3D(0.5, 3.0 - v, -1.0)
    w["c"] = Vector3D(-2.0, 0.25, 7.0 + v)
    w["s"] = Vector6D(1.0 + v, 2.0, -3.0, 0.25, -0.5, 0.75)
    w["t"] = Vector6D(-1.0, 0.5, 2.0, -0.25 - v, 1.5, 1.0)
    w["m3"] = Matrix3D(Vector3D(2.0, 1.0, 0.5), Vector3D(-1.0, 3.0 + v, 0.25), Vector3D(0.0, 1.0, 4.0))
    w["m36"] = Matrix3by6(w["s"], w["t"], Vector6D(3.0, 1.0, 0.0, -1.0, 2.0, 0.5))
    w["m63"] = Matrix6by3(*[Vector3D(i + 1.0, i * v - 2.0, 0.5 * i) for i in range(6)])
    w["m6"] = Matrix6D(*[Vector6D(*[float((i * 3 + j * 5 + v) % 7) for j in range(6)]) for i in range(6)])
    r, vel = alpha.orbit(["geo", "meo", "xgeo"][v])
    w["g"] = alpha.gcrf(mjd, r, vel)
    w["g"].thrust = Vector3D(1e-6, -2e-6, 3e-7)
    w["g"].srp_scalar = 0.02 + v
    r2, v2 = ref.from_hcw((-11.0, 5.0 + v, 3.0), (0.0, 0.001, 0.002), r, vel)
    w["g2"] = alpha.gcrf(mjd, r2, v2)
    w["h"] = HCW(Epoch(mjd), Vector3D([10.0, 12.5, 0.0][v], -50.0 + v, 4.0), Vector3D(0.002, -0.01, 0.005))
    lat, lon = [(0.6, 1.9), (-0.7, -1.1), (0.05, 4.2)][v]
    w["lla"] = LLA(lat, lon, 0.3)
    w["itrf"] = ITRF.from_fixed(Epoch(mjd), Vector3D(*ref.lla_to_itrf(lat, lon, 0.3)))
    w["ijk"] = IJK(Epoch(mjd), Vector3D(*r), Vector3D(*vel))
    w["sph"] = SphericalPosition(7000.0 + v, 1.2, -0.4)
    w["coes"] = ClassicalElements(Epoch(mjd), 12000.0 + v, 0.1, 0.5, 1.0, 2.0, 3.0)
    if built:
        built(w)
    w["h2"] = HCW(Epoch(mjd - 0.02), Vector3D(-7.0, 20.0 + v, -3.0), Vector3D(0.001, 0.02, -0.003))
    w["site"] = GroundSite(w["lla"])
    w["gob"] = GroundObservation(w["itrf"], Vector3D(8000.0, 12000.0, 20000.0 + v), 0.1, 1e-4)
    w["sob"] = SpaceObservation(w["g"], Vector3D(-3.0, 40.0, 12.0 + v), 0.1, 1e-4)
    w["sob2"] = SpaceObservation(alpha.gcrf(mjd + 0.01 + 0.003 * v, *ref.kepler_propagate(r, vel, 864.0 + 259.2 * v)), Vector3D(-4.0, 35.0, 10.0), 0.1, 1e-4)
    w["sc"] = Spacecraft(w["g"])
    w["sd"] = Spacecraft(w["g2"])
    w["sf"] = Spacecraft(w["sob2"].observer_state)
    w["rk"] = RK4(w["g"])
    w["hill"] = Hill(w["h"], 42164.0 + v)
    w["rk"].step_size = w["sc"].propagator.step_size = w["hill"].step_size = [300, 120.0, 45.0][v]
    w["hill2"] = Hill(w["h2"], 42164.375 + v)
    w["kal"] = RelativeKalman(w["e"], Hill(w["h"], 42164.0 + v))
    w["cam"] = Camera(2048 + v, 0.05)
    return w


F = EquationsOfMotion
P = PositionConvert
QUERIES = {
    # time
    "epoch.copy": lambda w: w["e"].copy(),
    "epoch.plus": lambda w: w["e"].plus_days(0.5),
    "epoch.julian": lambda w: [w["e"].julian_value(), w["e"].julian_centuries_past_j2000()],
    "epoch.gha": lambda w: w["e"].greenwich_hour_angle(),
    "epoch.gregorian": lambda w: Epoch.from_gregorian(2023, 2, 27, 6, 30, 15.5),
    # linear algebra
    "v3.sum": lambda w: [w["a"].plus(w["b"]), w["a"].minus(w["c"])],
    "v3.products": lambda w: [w["a"].dot(w["b"]), w["a"].cross(w["b"]), w["a"].magnitude(), w["a"].angle(w["c"])],
    "v3.scaled": lambda w: [w["a"].scaled(2.0), w["a"].scaled(1.0), w["a"].scaled(1), w["a"].normalized(), w["a"].copy()],
    "v3.rotation": lambda w: [Vector3D.rotation_matrix(w["b"], 0.7), w["a"].rotation_about_axis(w["b"], 0.7), w["a"].rotation_about_axis(w["c"], 0.0)],
    "v6": lambda w: [w["s"].plus(w["t"]), w["s"].minus(w["t"]), w["s"].dot(w["t"]), w["s"].copy(), Vector6D.from_position_and_velocity(w["a"], w["b"])],
    "m3": lambda w: [w["m3"].diagonal(), w["m3"].column_2(), w["m3"].multiply_vector(w["a"]), w["m3"].scaled(3.0), w["m3"].scaled(1.0), w["m3"].transpose(), w["m3"].plus(w["m3"])],
    "m3.inverse": lambda w: [w["m3"].determinant(), w["m3"].cofactor(), w["m3"].adjugate(), w["m3"].inverse()],
    "m3.build": lambda w: [Matrix3D(w["a"], w["b"], w["c"]), Matrix3by6(w["s"], w["t"], w["s"]), Matrix6by3(w["a"], w["b"], w["c"], w["a"], w["b"], w["c"]), Matrix6D(w["s"], w["t"], w["s"], w["t"], w["s"], w["t"])],
    "m.products": lambda w: [w["m3"].multiply_matrix3by6(w["m36"]), w["m36"].multiply_matrix_6by3(w["m63"]), w["m63"].multiply(w["m3"]), w["m63"].multiply_matrix3by6(w["m36"]), w["m6"].multiply_matrix_6by3(w["m63"]), w["m6"].multiply_matrix(w["m6"])],
    "m.vectors": lambda w: [w["m36"].multiply_vector(w["s"]), w["m63"].multiply_vector(w["a"]), w["m6"].multiply_vector(w["t"])],
    "m6": lambda w: [Matrix6D.identity(), w["m6"].diagonal(), w["m6"].column_5(), w["m6"].transpose(), w["m6"].plus(w["m6"]), w["m6"].minus(w["m6"]), w["m36"].transpose(), w["m63"].transpose()],
    # functions
    "conversions": lambda w: [Conversions.hms_to_decimal_day(1, 2, 3.0), Conversions.dms_to_radians(-1, 2, 3.0)],
    "legendre": lambda w: LegendrePolynomial(0.3).p,
    "legendre.other": lambda w: LegendrePolynomial(-0.8).p,
    "anomalies": lambda w: [F.EA.from_ma_e(2.0, 0.3), F.NU.from_e_ea(0.3, 2.0), F.MA.from_ea_e(2.0, 0.3)],
    "shapes": lambda w: [F.A.from_mu_r_v(Earth.MU, 7000.0, 7.7), F.P.from_a_e(7000.0, 0.1), F.XI.from_mu_a(Earth.MU, 7000.0), F.TAU.from_a_mu(7000.0, Earth.MU), F.H.from_r_v(w["a"], w["b"]), F.RAAN.from_w(w["a"]), F.I.from_w(w["a"]), F.U.from_r_w(w["b"], w["a"])],
    "planning": lambda w: [VisViva.circular_velocity(7000.0), VisViva.eccentric_velocity(7000.0, 8000.0), Hohmann(7000.0, 42164.0)],
    # celestial
    "sun": lambda w: Sun.get_position(w["e"]),
    "sun.other": lambda w: Sun.get_position(w["e2"]),
    "moon": lambda w: Moon.get_position(w["e"]),
    "moon.other": lambda w: Moon.get_position(w["e2"]),
    "earth.frames": lambda w: [Earth.rotation(w["e"]), Earth.precession(w["e"]), Earth.nutation(w["e"]), Earth.obliquity_of_ecliptic_at_epoch(w["e"])],
    "earth.frames.other": lambda w: [Earth.rotation(w["e2"]), Earth.precession(w["e2"]), Earth.nutation(w["e2"]), Earth.geo_radius()],
    "near": lambda w: [Sun.get_position(w["e1"]), Moon.get_position(w["e1"]), Earth.rotation(w["e1"]), Earth.precession(w["e1"]), Earth.nutation(w["e1"]), w["e1"].greenwich_hour_angle(), LegendrePolynomial(0.3 + 1e-7).p, F.EA.from_ma_e(2.0, 0.3 + 1e-7), F.EA.from_ma_e(2.0 + 1e-7, 0.3)],
    # positions
    "gcrf.to": lambda w: [P.gcrf.to_itrf(w["a"], w["e"]), P.gcrf.to_tod(w["a"], w["e"]), P.gcrf.to_mod(w["a"], w["e"]), P.gcrf.to_ijk(w["a"], w["e"])],
    "itrf.to": lambda w: [P.itrf.to_gcrf(w["a"], w["e2"]), P.itrf.to_tod(w["a"], w["e2"]), P.itrf.to_mod(w["a"], w["e2"]), P.itrf.to_ijk(w["a"], w["e2"])],
    "itrf.lla": lambda w: [P.itrf.to_lla(w["itrf"].position), P.lla.to_itrf(w["lla"]), P.enz.to_itrf(w["lla"], w["a"]), ENZ.matrix(0.4, 0.5), w["lla"].copy()],
    "spherical": lambda w: [SphericalPosition.from_cartesian(w["a"]), w["sph"].to_cartesian()],
    # states
    "state.copies": lambda w: [w["g"].copy(), w["h"].copy(), w["ijk"].copy(), w["itrf"].copy()],
    "state.build": lambda w: [GCRF(w["e"], w["a"], w["b"]), HCW(w["e"], w["a"], w["b"]), IJK(w["e"], w["a"], w["b"]), ITRF(w["e"], w["a"], w["b"]), ITRF.from_fixed(w["e"], w["a"]), HCW.from_state_vector(w["s"])],
    "gcrf.derivative": lambda w: w["g"].derivative(),
    "gcrf.accelerations": lambda w: [w["g"].acceleration_from_gravity(), w["g"].acceleration_from_earth(), w["g"].acceleration_from_moon(), w["g"].acceleration_from_sun(), w["g"].acceleration_from_srp(), w["g"].acceleration_from_thrust()],
    "gcrf.vectors": lambda w: [w["g"].sun_vector(), w["g"].moon_vector(), HCW.frame_matrix(w["g"])],
    "to_hcw": lambda w: StateConvert.gcrf.to_hcw(w["g"], w["g2"]),
    "to_gcrf": lambda w: StateConvert.hcw.to_gcrf(w["h"], w["g"]),
    "to.dates": lambda w: [StateConvert.gcrf.to_hcw(w["g"], w["sob2"].observer_state), StateConvert.hcw.to_gcrf(w["h2"], w["g"])],
    # elements
    "coes.from": lambda w: ClassicalElements.from_ijk(w["ijk"]),
    "coes.build": lambda w: ClassicalElements(w["e"], 8000.0, 0.1, 0.2, 0.3, 0.4, 0.5),
    "coes.to": lambda w: [w["coes"].to_ijk(), w["coes"].perigee_vector(), w["coes"].semilatus_rectum_vector(), w["coes"].eccentric_anomaly()],
    # observations
    "site.build": lambda w: [GroundSite(w["lla"]), GroundSite.from_itrf_position(w["itrf"].position)],
    "site.enz": lambda w: w["site"].enz_position(w["a"].scaled(9000.0)),
    "site.observe": lambda w: w["site"].angles_and_range(w["sc"]),
    "gob.build": lambda w: [GroundObservation(w["itrf"], w["a"], 0.1, 0.2), GroundObservation.from_angles_and_range(w["itrf"], 1.0, 0.5, 900.0, 0.1, 0.2)],
    "gob.positions": lambda w: [w["gob"].ijk_position(), w["gob"].gcrf_position()],
    "sob.build": lambda w: SpaceObservation(w["g"], w["a"], 0.1, 0.2),
    "sob.positions": lambda w: [w["sob"].ijk_position(), w["sob"].epoch().value],
    "gauss": lambda w: Gauss.coes_from_positions(w["sob"], w["sob2"]),
    "camera": lambda w: [Camera.wfov(), Camera.nfov(), Camera(100, 0.1), w["cam"].resolution(10.0), w["cam"].range_error(10.0, 0.1), w["cam"].tracking_minimum(0.01)],
    # propagators and filters
    "rk4.build": lambda w: RK4(w["g"]),
    "hill.build": lambda w: Hill(w["h"], 7000.0),
    "hill.matrix": lambda w: w["hill"].system_matrix(500.0),
    "hill.near": lambda w: w["hill2"].system_matrix(500.0),
    "kalman.build": lambda w: _kalman(w),
    # spacecraft
    "craft.build": lambda w: Spacecraft(w["g"]),
    "craft.queries": lambda w: [w["sc"].position(), w["sc"].velocity(), w["sc"].current_state(), w["sc"].current_epoch(), w["sc"].sma(), w["sc"].area(), w["sc"].srp_scalar(), w["sc"].total_mass()],
    "craft.vectors": lambda w: [w["sc"].sun_vector(), w["sc"].moon_vector(), w["sc"].earth_vector(), w["sc"].target_vector(w["sd"]), w["sc"].hill_position(w["sd"])],
    "craft.angles": lambda w: [w["sc"].sun_angle(w["sd"]), w["sc"].moon_angle(w["sd"]), w["sc"].earth_angle(w["sd"]), w["sc"].range(w["sd"]), w["sc"].visual_magnitude(w["sd"]), w["sc"].detect(w["sd"])],
    "craft.dates": lambda w: [w["sc"].target_vector(w["sf"]), w["sc"].hill_position(w["sf"]), w["sc"].sun_angle(w["sf"]), w["sc"].range(w["sf"]), w["sc"].visual_magnitude(w["sf"]), w["sc"].detect(w["sf"]), w["site"].angles_and_range(w["sf"])],
    "craft.wfov.dates": lambda w: _scripted(lambda: w["sc"].observe_wfov(w["sf"])),
    "craft.nfov.dates": lambda w: _scripted(lambda: w["sc"].observe_nfov(w["sf"])),
    "craft.wfov": lambda w: _scripted(lambda: w["sc"].observe_wfov(w["sd"])),
    "craft.nfov": lambda w: _scripted(lambda: w["sd"].observe_nfov(w["sc"])),
}  # fmt: skip


def _scripted(fn):
    envrandom.script([0.5, -1.0], [0.3])
    return fn()


def _kalman(w):
    k = RelativeKalman(w["e"], Hill(w["h"], 9000.0))
    k2 = RelativeKalman(w["e"], w["hill"])
    return [k.epoch, k.x00, k2.epoch, k2.x00]


# name: (function, objects of the world that the operation is meant to change)
COMMANDS = {
    "rk4.step": (lambda w: w["rk"].step(), ["rk"]),
    "rk4.to": (lambda w: w["rk"].step_to_epoch(w["e2"]), ["rk"]),
    "rk4.maneuver": (lambda w: w["rk"].maneuver(Vector3D(1e-4, 2e-4, 0.0), 0.003, 800.0, 350.0), ["rk"]),
    "hill.step": (lambda w: w["hill"].step(), ["hill"]),
    "hill.seconds": (lambda w: w["hill"].step_by_seconds(-350.0), ["hill"]),
    "kal.process": (lambda w: w["kal"].process(w["sob2"]), ["kal"]),
    "kal.rough": (lambda w: w["kal"].process(SpaceObservation(w["g2"], w["a"].scaled(50.0), 400.0, 0.2)), ["kal"]),
    "craft.step": (lambda w: w["sc"].step(), ["sc"]),
    "craft.to": (lambda w: w["sc"].step_to_epoch(w["e2"]), ["sc"]),
    "rk4.back": (lambda w: w["rk"].step_to_epoch(w["e0"]), ["rk"]),
    "craft.back": (lambda w: w["sc"].step_to_epoch(w["e0"]), ["sc"]),
    "craft.impulse": (lambda w: w["sc"].impulsive_maneuver(w["b"].scaled(1e-3)), ["sc"]),
    "craft.burn": (lambda w: w["sc"].finite_maneuver(w["b"].scaled(1e-5)), ["sc"]),
    "craft.sun": (lambda w: w["sc"].track_sun(), ["sc"]),
    "craft.target": (lambda w: w["sc"].track_state(w["sd"]), ["sc", "sd"]),
    "craft.lvlh": (lambda w: w["sc"].track_lvlh(), ["sc"]),
    "craft.acquire": (lambda w: _scripted(lambda: (w["sc"].acquire(w["sd"]), w["sc"].process_wfov(w["sd"]))) and None, ["sc", "sd"]),
    "craft.process": (lambda w: _scripted(lambda: (w["sc"].acquire(w["sd"]), w["sc"].process_wfov(w["sf"]), w["sc"].process_nfov(w["sf"]))) and None, ["sc", "sd"]),
    "gcrf.edit": (lambda w: setattr(w["g"].position, "x", 1.0), ["g"]),
    "camera.edit": (lambda w: setattr(w["cam"].limits, "bore", 0.9), ["cam"]),
    "constraint.edit": (lambda w: setattr(w["sc"].wfov.limits, "sun_soft", 0.1), ["sc"]),
}
