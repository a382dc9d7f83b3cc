"""C22 interleaved and interrupted operations"""
import itertools

import interleave
from catalog import COMMANDS, QUERIES, constants, diff, snap, world
from engine import Group, Violation, require
from openspace.time import Epoch

CONST = constants()
LONG = {"rk4.to", "craft.to", "rk4.back", "craft.back"}  # the same code as their .short forms, 20 substeps
DRAWS = {"craft.wfov", "craft.wfov.dates", "craft.nfov.dates", "craft.nfov", "craft.acquire", "craft.process"}  # the random number generator is shared on purpose
OPS = {k: (f, None) for k, f in QUERIES.items()}
OPS.update({k: v for k, v in COMMANDS.items() if k not in LONG})
OPS["rk4.short"] = (lambda w: w["rk"].step_to_epoch(Epoch(w["e"].value + 350.0 / 86400)), ["rk"])
OPS["craft.short"] = (lambda w: w["sc"].step_to_epoch(Epoch(w["e"].value - 350.0 / 86400)), ["sc"])
OPS["craft.follow"] = (lambda w: (w["sc"].track_state(w["sd"]), w["sc"].step()) and None, ["sc", "sd"])
EDITS = {"gcrf.edit", "camera.edit", "constraint.edit"}
NAMES = [n for n in OPS if n not in EDITS]
# one operation of every part of the library, all short
MIX = ["epoch.gha", "v3.rotation", "m3.inverse", "legendre", "anomalies", "shapes", "planning", "sun", "moon", "earth.frames",
       "itrf.to", "itrf.lla", "gcrf.derivative", "to_hcw", "to_gcrf", "coes.from", "coes.to", "sob.positions", "gauss",
       "hill.seconds", "craft.sun", "craft.impulse", "craft.angles"]  # fmt: skip
OPS["mix"] = (lambda w: [OPS[n][0](w) for n in MIX], ["sc", "hill"])
BASE = {}
POINTS = {}


def effect(w, res):
    return {"result": snap(res), **{k: snap(x) for k, x in w.items()}}


def alone(name, v):
    """result of an operation, and the objects after it, in a fresh world"""
    if (name, v) not in BASE:
        w = world(v)
        BASE[name, v] = effect(w, OPS[name][0](w))
    return BASE[name, v]


def points(name, v, tier="quick"):
    """indices of the steps at which every source line is executed for the first and for the last time"""
    if (name, v) not in POINTS:
        w = world(v)
        steps, _ = interleave.trace(lambda: OPS[name][0](w))
        first, last = {}, {}
        for i, s in enumerate(steps):
            first.setdefault(s, i)
            last[s] = i
        POINTS[name, v] = sorted(set(first.values()) | set(last.values())), sorted(first.values()), len(steps)
    return POINTS[name, v]


def outer(name, v, depth):
    if (name, v, depth) not in POINTS:
        w = world(v)
        POINTS[name, v, depth] = interleave.outer(lambda: OPS[name][0](w), depth)
    return POINTS[name, v, depth]


def same(a, b, what):
    d = diff(a, b)
    if d:
        raise Violation(f"{what}: {d[1:] if d.startswith('.') else d}")


def run_nested(case, ctx):
    """another operation runs completely at one point of an operation"""
    name, other, v, u, part = case
    for k in points(name, v)[0][part[0] :: part[1]]:
        x = world(u)
        w = world(v)  # last: rewinds the scripted draws
        got = []
        res, ran = interleave.nested(lambda: OPS[name][0](w), k, lambda: got.append(OPS[other][0](x)))
        if not ran:  # fewer steps than the first time (a cache)
            got.append(OPS[other][0](x))
        same(alone(name, v), effect(w, res), f"{name} interrupted at step {k} by {other}")
        same(alone(other, u), effect(x, got[0]), f"{other} in the middle (step {k}) of {name}")
        ctx.step(2)
        ctx.state(name, other, v, u, k)
    same(CONST, constants(), f"shared constants after {name} interrupted by {other}")
    ctx.outcome(name, other)


def run_shared(case, ctx):
    """queries of the very same objects"""
    name, other, v, part = case
    for k in points(name, v)[0][part[0] :: part[1]]:
        w = world(v)
        before = {n: snap(x) for n, x in w.items()}
        got = []
        res, ran = interleave.nested(lambda: OPS[name][0](w), k, lambda: got.append(OPS[other][0](w)))
        if not ran:
            got.append(OPS[other][0](w))
        same(alone(name, v)["result"], snap(res), f"{name} interrupted at step {k} by {other} on the same objects")
        same(alone(other, v)["result"], snap(got[0]), f"{other} in the middle (step {k}) of {name} on the same objects")
        same(before, {n: snap(x) for n, x in w.items()}, f"objects after {name} and {other}")
        ctx.step(2)
        ctx.state(name, other, v, k, "shared")
    ctx.outcome(name, other)


def run_crash(case, ctx):
    """an exception at one point of an operation"""
    name, v, part = case
    target = OPS[name][1] or []
    if name in DRAWS:
        target = target + ["sc", "sd"]
    for k in points(name, v)[0][part[0] :: part[1]]:
        w = world(v)
        before = {n: snap(x) for n, x in w.items() if n not in target}
        interleave.crash(lambda: OPS[name][0](w), k)
        same(before, {n: snap(w[n]) for n in before}, f"objects after {name} was interrupted at step {k}")
        w = world(v)
        same(alone(name, v), effect(w, OPS[name][0](w)), f"{name} after it was interrupted at step {k}")
        x = world(1)
        same(alone("mix", 1), effect(x, OPS["mix"][0](x)), f"a mix of operations after {name} was interrupted at step {k}")
        ctx.step(3)
        ctx.state(name, v, k, "crash")
    same(CONST, constants(), f"shared constants after {name} was interrupted")
    ctx.outcome(name)


def run_threads(case, ctx):
    """two threads, two preemptions"""
    a, b, v, u, part, depth = case
    pa, pb = (outer(a, v, depth), outer(b, u, depth)) if depth else (points(a, v)[1], points(b, u)[1])
    for ka in pa[part[0] :: part[1]]:
        for kb in pb:
            wa, wb = world(v), world(u)
            out = interleave.threads(lambda: OPS[a][0](wa), lambda: OPS[b][0](wb), ka, kb)
            for n, w, x, o in ((a, v, wa, out[0]), (b, u, wb, out[1])):
                require(o[0] == "ok", f"{n} {o[1]} in the schedule {a}:{ka} {b}:{kb}")
                same(alone(n, w), effect(x, o[1]), f"{n} in the schedule {a}:{ka} {b}:{kb}")
            ctx.step(4)
            ctx.state(a, b, v, u, ka, kb)
    ctx.outcome(a, b)


def parts(name, v, size):
    n = max(1, -(-len(points(name, v)[0]) // size))
    return [[i, n] for i in range(n)]


def nested_cases(tier):
    out = []
    for n in NAMES:
        worlds = [(0, 1), (1, 2), (2, 2)] if tier == "thorough" else [(0, 1)]
        for v, u in worlds:
            for p in parts(n, v, 60):
                if n not in DRAWS:
                    out.append([n, n, v, u, p])
                out.append([n, "mix", v, u, p])
    if tier == "thorough":
        short = [n for n in NAMES if points(n, 0)[2] < 400 and n not in DRAWS]
        out += [[a, b, 0, 1, [0, 1]] for a in short for b in short if a != b]
    return out


PURE = [n for n in QUERIES if n not in DRAWS]


def shared_cases(tier):
    out = [[n, n, v, p] for n in PURE for v in range(3 if tier == "thorough" else 1) for p in parts(n, v, 60)]
    core = ["sun", "gcrf.derivative", "craft.vectors", "to_hcw", "coes.to", "hill.matrix", "site.observe", "m3.inverse"]
    if tier == "thorough":
        out += [[a, b, 0, p] for a in PURE for b in core if a != b for p in parts(a, 0, 60)]
    else:
        out += [[a, b, 0, p] for a, b in itertools.permutations(core, 2) for p in parts(a, 0, 60)]
    return out


def crash_cases(tier):
    return [[n, v, p] for n in NAMES for v in ((0, 1, 2) if tier == "thorough" else (1,)) for p in parts(n, v, 60)]


def thread_cases(tier):
    lim = 25 if tier == "quick" else 80
    small = [n for n in NAMES if len(points(n, 0)[1]) <= lim and n not in DRAWS]
    out = []
    for n in small:
        k = max(1, len(points(n, 0)[1]) // 8)
        out += [[n, n, 0, 1, [i, k], 0] for i in range(k)]
    # longer operations: switches in the outer frames only
    depth = 1 if tier == "quick" else 2
    for n in NAMES:
        if n not in small and n not in DRAWS and (tier == "thorough" or len(outer(n, 0, depth)) <= 45):
            k = max(1, len(outer(n, 0, depth)) // 3)
            out += [[n, n, v, u, [i, k], depth] for i in range(k) for v, u in ([(0, 1)] if tier == "quick" else [(0, 1), (1, 2)])]
    core = ["sun", "legendre", "epoch.gha", "anomalies", "v3.rotation"] + (["m3.inverse", "hill.matrix", "coes.build", "camera"] if tier == "thorough" else [])
    out += [[a, b, 0, 2, [0, 1], 0] for a, b in itertools.permutations(core, 2)]
    return out


GROUPS = [
    Group("nested", nested_cases, run_nested, timeout=120, doc=f"at every source line (first and last execution) of {len(NAMES)} operations, the same operation on other objects, and a mix of {len(MIX)} operations, run completely (thorough: every ordered pair of the operations shorter than 400 steps)"),
    Group("shared", shared_cases, run_shared, timeout=120, doc="as nested, for queries of the very same objects"),
    Group("crash", crash_cases, run_crash, timeout=120, doc="an exception at every source line (first and last execution) of every operation, then the operation again, and other operations"),
    Group("threads", thread_cases, run_threads, timeout=120, doc="two threads, all schedules with two preemptions at source lines (first execution) of every operation of up to 25 (80) distinct lines with itself, at the lines of the outermost (two outermost) frames of every longer one (of up to 45 such lines; thorough: all) with itself, and of all pairs of a core"),
]
ASSUMPTIONS = ["switches happen between source lines", "the random number generator and a tracked target are shared on purpose"]
