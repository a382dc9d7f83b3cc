"""C20 purity, independence of arguments and of history"""
import itertools

import catalog
from catalog import COMMANDS, QUERIES, constants, diff, fresh, scramble, snap, world
from engine import Group, Violation
from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import GCRF, HCW, IJK, ITRF
from openspace.estimation.obs import GroundObservation, SpaceObservation
from openspace.math.linalg import Vector3D
from openspace.propagators.inertial import RK4
from openspace.propagators.relative import Hill

CONST = constants()
BASE = {}


def effect(v, name):
    w = world(v)
    COMMANDS[name][0](w)
    return {k: snap(x) for k, x in w.items()}


for _v in range(3):
    for _n in QUERIES:
        BASE[_v, _n] = fresh(lambda: snap(QUERIES[_n](world(_v))))
    for _n in COMMANDS:
        BASE[_v, _n] = fresh(lambda: effect(_v, _n))


def baseline(v, name):
    """result of a query, or effect of a command, in a fresh world of a fresh process"""
    ok, res = BASE[v, name]
    if not ok:
        raise Violation(f"{name} in a fresh process: {res}")
    return res


def same(a, b, what):
    d = diff(a, b)
    if d:
        raise Violation(f"{what}: {d[1:] if d.startswith('.') else d}")


def constants_kept(what):
    same(CONST, constants(), f"shared constant changed by {what}")


def world_kept(w, before, what, but=()):
    for k in before:
        if k not in but:
            same(before[k], snap(w[k]), f"object {k} changed by {what}")


def run_pure(case, ctx):
    """arguments are not changed, results are new objects"""
    name, v = case
    op = QUERIES[name]
    w = world(v)
    before = {k: snap(x) for k, x in w.items()}
    res = op(w)
    r1 = snap(res)
    same(baseline(v, name), r1, f"{name} after earlier histories")
    world_kept(w, before, name)
    same(r1, snap(op(w)), f"{name} repeated")
    world_kept(w, before, name + " repeated")
    ctx.step(2)
    # the arguments change: the result stays
    scramble(w)
    same(r1, snap(res), f"result of {name} changed with its arguments")
    # the result changes: the arguments stay
    w = world(v)
    before = {k: snap(x) for k, x in w.items()}
    res = op(w)
    scramble(res)
    world_kept(w, before, f"changing the result of {name}")
    same(r1, snap(op(w)), f"{name} after changing its earlier result")
    constants_kept(name)
    ctx.step(2)
    ctx.state(*case)
    ctx.outcome(str(r1))


def run_built(case, ctx):
    """building objects from others leaves those alone"""
    before = {}
    w = world(case, lambda w: before.update({k: snap(x) for k, x in w.items()}))
    world_kept(w, before, "building the other objects")
    ctx.step()
    ctx.state(case)


def run_command(case, ctx):
    """commands change what they are meant to change and nothing else, whatever ran before"""
    names, v = case
    w = world(v)
    linked = False  # sc follows sd, and takes it along
    for k, name in enumerate(names):
        fn, target = COMMANDS[name]
        linked = (linked or name in ("craft.target", "craft.acquire", "craft.process")) and name not in ("craft.sun", "craft.lvlh")
        target = target + ["sd"] if linked and "sc" in target else target
        before = {k: snap(x) for k, x in w.items()}
        fn(w)
        world_kept(w, before, " ".join(names[: k + 1]), target)
        ctx.step()
    constants_kept(" ".join(names))
    # results of queries on other objects are those of a fresh process
    w2 = world(v)
    for q in QUERIES:
        same(baseline(v, q), snap(QUERIES[q](w2)), f"{q} after {' '.join(names)} on other objects")
        ctx.step()
    ctx.state(*case)
    ctx.outcome(str(snap(w["sc"])))


def run_pair(case, ctx):
    """a query after other queries, in other worlds or the same one, gives what it gives alone"""
    names, v, u = case
    shared = world(v)
    for name in names:
        QUERIES[name](world(u))
        QUERIES[name](shared)
        ctx.step(2)
    for q in QUERIES:
        same(baseline(v, q), snap(QUERIES[q](shared)), f"{q} after {' '.join(names)}")
        ctx.step()
    constants_kept(" ".join(names))
    ctx.state(*case)
    ctx.outcome(*names)


def run_held(case, ctx):
    """a result that the caller still holds does not change when anything else is asked or done"""
    name, v = case
    w = world(v)
    res = QUERIES[name](w)
    want = snap(res)
    for u in range(3):
        for other in QUERIES:
            QUERIES[other](w if u == v else world(u))
            same(want, snap(res), f"earlier result of {name} changed by {other}")
            ctx.step()
        for other in COMMANDS:
            COMMANDS[other][0](world(u))
            same(want, snap(res), f"earlier result of {name} changed by {other} on other objects")
            ctx.step()
    ctx.state(*case)
    ctx.outcome(name)


def run_replay(case, ctx):
    """a command sequence has the same effect on fresh objects whatever ran before it"""
    first, second, v, u = case

    want = baseline(v, second)
    same(want, effect(v, second), f"effect of {second} after earlier histories")
    w = world(u)
    if first in COMMANDS:
        COMMANDS[first][0](w)
    else:
        QUERIES[first](w)
    same(want, effect(v, second), f"effect of {second} after {first}")
    ctx.step(3)
    ctx.state(*case)
    ctx.outcome(second, v)


def run_detached(case, ctx):
    """an object keeps its state when all the objects it was made from, or that were used with it, are changed"""
    name, v = case
    fn, target = COMMANDS[name]
    w = world(v)
    fn(w)
    keep = [k for k in target if k != "sd"]
    before = {k: snap(w[k]) for k in keep}
    # what a target tracks stays linked on purpose; everything else is changed
    linked = {"sd"} if "sd" in target else set()
    for k, x in w.items():
        if k not in keep and k not in linked:
            scramble(x)
    world_kept(w, before, f"changing all other objects after {name}")
    # and the other way round
    w = world(v)
    before = {k: snap(x) for k, x in w.items() if k not in target}
    fn(w)
    for k in keep:
        x = w[k]
        for attr, y in catalog.attrs(x).items():
            if attr not in ("tracked_target",) and not attr.startswith("_"):
                scramble(y)
    world_kept(w, before, f"changing {keep} after {name}")
    constants_kept(name)
    ctx.step(2)
    ctx.state(*case)
    ctx.outcome(name)


def run_copies(case, ctx):
    """a copy, and the part of a new object that is taken from another, equals its original"""
    kind, v, thrust, pert = case
    w = world(v)
    g = w["g"]
    g.thrust = Vector3D(*thrust)
    g.use_perturbations = pert
    g.epoch = w["e2"]
    made = COPIES[kind](w)
    for k, (orig, new) in enumerate(made):
        a, b = snap(orig), snap(new)
        for x in (a, b):
            if isinstance(x, dict):
                x.pop("srp_scalar", None)  # known finding of C11
        same(a, b, f"{kind}[{k}] differs from its original")
        ctx.step()
    ctx.state(*case)
    ctx.outcome(kind, v)


def parts(orig, new):
    return [(orig.epoch, new.epoch), (orig.position, new.position), (orig.velocity, new.velocity), (orig.use_perturbations, new.use_perturbations)]


COPIES = {
    "copy": lambda w: [(x, x.copy()) for x in (w["e"], w["a"], w["s"], w["h"], w["lla"], w["itrf"], w["ijk"], w["g"], w["g2"])],
    "copy of copy": lambda w: [(x, x.copy().copy()) for x in (w["e"], w["a"], w["s"], w["h"], w["lla"], w["itrf"], w["ijk"], w["g"])],
    "state": lambda w: [(w["e"], c(w["e"], w["a"], w["b"]).epoch) for c in (GCRF, ITRF, IJK, HCW)]
    + [(w["a"], c(w["e"], w["a"], w["b"]).position) for c in (GCRF, ITRF, IJK, HCW)]
    + [(w["b"], c(w["e"], w["a"], w["b"]).velocity) for c in (GCRF, ITRF, IJK, HCW)],
    "propagator": lambda w: parts(w["g"], RK4(w["g"]).state),
    "spacecraft": lambda w: parts(w["g"], Spacecraft(w["g"]).initial_state) + parts(w["g"], Spacecraft(w["g"]).current_state()),
    "observation": lambda w: [(w["sob"].observer_state, SpaceObservation(w["sob"].observer_state, w["a"], 0.1, 1e-4).observer_state)]
    + parts(w["g"], SpaceObservation(w["g"], w["a"], 0.1, 1e-4).observer_state)
    + [(w["a"], SpaceObservation(w["g"], w["a"], 0.1, 1e-4).observed_direction), (w["itrf"], GroundObservation(w["itrf"], w["a"], 0.1, 1e-4).observer_state)],
    "matrix": lambda w: [(w["m6"], w["m6"].copy()), (w["m6"], w["m6"].copy().copy())],
    "hill": lambda w: [(w["h"], Hill(w["h"], 42164.0).state)],
}


NOT_DETACHED = {"gcrf.edit", "camera.edit", "constraint.edit"}
CORE = ["sun", "moon", "gcrf.derivative", "craft.build", "gcrf.to", "coes.to", "kalman.build", "to_gcrf"]


def pure_cases(tier):
    return [[n, v] for n in QUERIES for v in range(3)]


def copies_cases(tier):
    thrusts = [(0.0, 0.0, 0.0), (1e-6, 0.0, 0.0), (0.0, -1e-6, 0.0), (0.0, 0.0, 2e-6), (1e-6, -2e-6, 3e-7)]
    return [[k, v, t, p] for k in COPIES for v in range(3) for t in thrusts for p in (True, False)]


def pair_cases(tier):
    out = [[[n], v, (v + 1) % 3] for n in QUERIES for v in range(3)]
    out += [[list(s), 0, 1] for s in itertools.product(CORE, repeat=2)]
    out += [[list(s), 0, 2] for s in itertools.product(QUERIES, repeat=2)]
    if tier == "thorough":
        out += [[list(s), v, u] for s in itertools.product(QUERIES, repeat=2) for v, u in ((1, 2), (2, 0))]
    return out


def command_cases(tier):
    d = 2 if tier == "quick" else 3
    return [[[n], v] for n in COMMANDS for v in range(3)] + [[list(s), 0] for s in itertools.product(COMMANDS, repeat=d)]


def replay_cases(tier):
    firsts = list(COMMANDS) + list(QUERIES)
    return [[a, b, v, u] for a in firsts for b in COMMANDS for v, u in itertools.product(range(3), repeat=2)]


GROUPS = [
    Group("pure", pure_cases, run_pure, doc=f"{len(QUERIES)} queries and constructions in 3 worlds: arguments kept, results detached both ways"),
    Group("held", pure_cases, run_held, doc="every result kept while every other query and command runs in 3 worlds"),
    Group("built", lambda t: [0, 1, 2], run_built, doc="sites, observations, propagators, filters and spacecraft built from the plain objects of 3 worlds"),
    Group("pairs", pair_cases, run_pair, doc="every query after every query (every ordered pair), after every pair of queries"),
    Group("commands", command_cases, run_command, doc=f"every sequence of 2 (3) of {len(COMMANDS)} commands, followed by every query on other objects"),
    Group("replay", replay_cases, run_replay, doc="effect of every command after every other operation"),
    Group("detached", lambda t: [[n, v] for n in COMMANDS if n not in NOT_DETACHED for v in range(3)], run_detached, doc="change of all other objects after every command"),
]
GROUPS.append(Group("copies", copies_cases, run_copies, doc=f"{len(COPIES)} kinds of copy in 3 worlds, with and without thrust (per axis) and perturbations"))
ASSUMPTIONS = ["public attributes are compared; attributes that an operation adds are not"]
