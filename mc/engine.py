"""Bounded exhaustive explorer: runs every case of every group of a check against the real code.

A check module (mc/checks/cNN.py) defines GROUPS, a list of Group objects.  A group enumerates a finite
list of cases (JSON-able; a case is an input of the alphabet, or an operation history) and has a run
function which executes one case on the code in /repo/src, and compares every step with the reference
model.  Nothing is sampled: each case of the list is executed, in a fixed order, in a fixed partition over
the worker processes.
"""
import hashlib
import itertools
import json
import math
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/src"
MAX_REPORT = 5  # violations kept per group and worker
TWO_PI = 2 * math.pi


class Violation(Exception):
    """The property does not hold on the case being executed."""


class CaseTimeout(BaseException):
    """The code under test did not return within the horizon of the group."""


class Group:
    def __init__(self, name, cases, run, timeout=30.0, doc=""):
        self.name = name
        self.cases = cases  # function(tier) -> list of cases
        self.run = run  # function(case, ctx)
        self.timeout = timeout
        self.doc = doc


class Ctx:
    """Counters of one worker."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()

    def state(self, *key):
        """record an abstract state (floats rounded to 9 significant digits)"""
        self.states.add(digest(key))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, *key):
        self.outcomes.add(digest(key))


def _canon(k):
    if isinstance(k, float):
        return f"{k:.9g}"
    if isinstance(k, (list, tuple)):
        return "(" + ",".join(_canon(x) for x in k) + ")"
    return str(k)


def digest(key):
    return hashlib.blake2b(_canon(key).encode(), digest_size=8).digest()


# ---------------------------------------------------------------- oracles
def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def close(got, want, tol, what):
    """|got - want| <= tol; NaN, complex and non-numbers are violations"""
    try:
        ok = abs(got - want) <= tol
    except Exception as ex:  # noqa: BLE001
        raise Violation(f"{what}: got {got!r}, wanted {want!r} ({ex})")
    if not ok:
        raise Violation(f"{what}: got {got!r}, wanted {want!r} (tolerance {tol:g})")


def close_angle(got, want, tol, what):
    """equality of angles modulo a full turn"""
    d = (got - want + math.pi) % TWO_PI - math.pi
    if not abs(d) <= tol:
        raise Violation(f"{what}: got angle {got!r}, wanted {want!r} (mod 2 pi, tolerance {tol:g})")


def close_vec(got, want, tol, what):
    """componentwise; got may be an object with x, y, z or a tuple"""
    g = vec(got)
    w = vec(want)
    for a, b in zip(g, w):
        if not abs(a - b) <= tol:
            raise Violation(f"{what}: got {g}, wanted {w} (tolerance {tol:g})")


def close_mat(got, want, tol, what):
    """got and want are lists of rows"""
    for i, (rg, rw) in enumerate(zip(got, want)):
        for j, (a, b) in enumerate(zip(rg, rw)):
            if not abs(a - b) <= tol:
                raise Violation(f"{what}: element ({i + 1}, {j + 1}) is {a!r}, wanted {b!r} (tolerance {tol:g})")


def grid(*axes):
    return [list(p) for p in itertools.product(*axes)]


def in_range(val, lo, hi, what, slack=1e-12):
    if not (lo - slack <= val <= hi + slack):
        raise Violation(f"{what}: {val!r} outside of [{lo!r}, {hi!r}]")


def vec(v):
    if isinstance(v, (tuple, list)):
        return tuple(v)
    if hasattr(v, "vx"):
        return (v.x, v.y, v.z, v.vx, v.vy, v.vz)
    return (v.x, v.y, v.z)


# ---------------------------------------------------------------- execution
def _alarm(_sig, _frm):
    raise CaseTimeout()


def _run_case(group, case, ctx):
    """returns None, or a description of the violation"""
    signal.setitimer(signal.ITIMER_REAL, group.timeout)
    try:
        group.run(case, ctx)
        ctx.traces += 1
        return None
    except Violation as ex:
        return str(ex)
    except CaseTimeout:
        return f"no answer within {group.timeout:g} s (does not terminate)"
    except MemoryError:
        return "memory exhausted"
    except Exception as ex:  # noqa: BLE001  an exception of the code under test on a valid input
        tb = traceback.extract_tb(ex.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
        return f"raised {type(ex).__name__}: {ex} [{where}]"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(groups, tier, wid, nworkers, known, wfd):
    signal.signal(signal.SIGALRM, _alarm)
    ctx = Ctx()
    res = {"violations": [], "known": [], "cases": {}, "samples": {}}
    for gi, g in enumerate(groups):
        n = bad = timeouts = 0
        for i, case in enumerate(g.cases(tier)):
            if i % nworkers != wid:
                continue
            n += 1
            if wid == i % nworkers and g.name not in res["samples"]:
                res["samples"][g.name] = case
            msg = _run_case(g, case, ctx)
            if msg is not None:
                key = [g.name, case]
                if any(k["group"] == g.name and k["case"] == case and msg.startswith(k["message"]) for k in known):
                    res["known"].append(key)
                    continue
                bad += 1
                res["violations"].append({"group": g.name, "index": i, "case": case, "message": msg})
                if "does not terminate" in msg:
                    timeouts += 1
                if bad >= MAX_REPORT or timeouts >= 2:
                    res.setdefault("capped", []).append(g.name)
                    break
        res["cases"][g.name] = n
    res["states"] = [s.hex() for s in ctx.states]
    res["outcomes"] = [s.hex() for s in ctx.outcomes]
    res["transitions"] = ctx.transitions
    res["traces"] = ctx.traces
    with os.fdopen(wfd, "w") as fh:
        json.dump(res, fh)


def run_check(prop, groups, tier, seed, meta, only=None):
    t0 = time.time()
    groups = [g for g in groups if only is None or g.name in only]
    known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["known"] if k["property"] == prop]
    nworkers = max(1, min(8, os.cpu_count() or 1))
    kids = []
    sys.stdout.flush()
    for wid in range(nworkers):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            code = 1
            try:
                _worker(groups, tier, wid, nworkers, known, wfd)
                code = 0
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(wfd)
        kids.append((pid, rfd))
    results = []
    failed = 0
    for pid, rfd in kids:
        with os.fdopen(rfd) as fh:
            data = fh.read()
        _, status = os.waitpid(pid, 0)
        if status != 0 or not data:
            failed += 1
            continue
        results.append(json.loads(data))
    if failed:
        print(f"{failed} worker(s) of {prop} failed", file=sys.stderr)
        return 2
    states, outcomes = set(), set()
    transitions = traces = 0
    violations, known_hit, cases, samples, capped = [], [], {}, {}, set()
    for r in results:
        states.update(r["states"])
        outcomes.update(r["outcomes"])
        transitions += r["transitions"]
        traces += r["traces"]
        violations += r["violations"]
        known_hit += r["known"]
        capped.update(r.get("capped", []))
        for k, v in r["cases"].items():
            cases[k] = cases.get(k, 0) + v
        for k, v in r["samples"].items():
            samples.setdefault(k, v)
    order = {g.name: i for i, g in enumerate(groups)}
    violations.sort(key=lambda v: (order[v["group"]], v["index"]))
    total = sum(cases.values())
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "distinct_outcomes": len(outcomes),
            "exhaustive": not violations,
            "bounds": {g.name: {"cases": cases.get(g.name, 0), "enumerated": g.doc} for g in groups},
            "rule": "every case of every group is executed on the code in /repo/src and compared, step by step, with "
            "the reference model; a state is a distinct abstract state of the model, a transition one operation "
            "executed on the implementation and compared, a trace one complete case",
            "samples": [{"group": k, "case": v} for k, v in sorted(samples.items(), key=lambda kv: order[kv[0]])],
            "known_findings_hit": len(known_hit),
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(violations),
    }
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, f"{prop}.json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
        fh.write("\n")
    print(
        f"{prop} {tier}: {total} executions, {len(states)} states, {transitions} transitions, {traces} traces, "
        f"{len(outcomes)} outcomes in {time.time() - t0:.1f} s"
    )
    for key in sorted(known_hit, key=str):
        what = next(k["what"] for k in known if [k["group"], k["case"]] == key)
        print(f"KNOWN-FINDING: property={prop} {what}")
    if violations:
        rdir = os.path.join(edir, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "tier": tier, "violations": violations[:20]}, fh, indent=1)
            fh.write("\n")
        for v in violations[:5]:
            print(f"  {v['group']} case {json.dumps(v['case'])}: {v['message']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


def replay(groups, path):
    """execute the recorded cases alone, without the explorer, twice"""
    signal.signal(signal.SIGALRM, _alarm)
    data = json.load(open(path))
    by = {g.name: g for g in groups}
    bad = 0
    for v in data["violations"]:
        msgs = [_run_case(by[v["group"]], v["case"], Ctx()) for _ in range(2)]
        print(f"{v['group']} {json.dumps(v['case'])}\n   recorded: {v['message']}\n   replayed: {msgs[0]}")
        bad += msgs[0] is not None
    return 1 if bad else 0
