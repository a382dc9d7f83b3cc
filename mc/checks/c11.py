"""C11 propagation"""
import itertools
from math import pi

import alpha
import ref
import traj
from engine import Group, Violation, close, close_vec, grid, require
from openspace.bodies.artificial import Spacecraft
from openspace.propagators.inertial import RK4

EPS_D = 1e-9  # days: the epoch is reached by summation of substeps
DTS = [0.0, 3e-4, 1.0, 60.0, 299.9, 300.0, 300.1, 600.0, 900.5, 3600.0, 10000.0]
DTS = sorted(set(DTS + [-x for x in DTS]), key=lambda x: (abs(x), x))


class Probe(RK4):
    """records the step sizes of the substeps, where these are taken by the public method"""

    def step(self):
        self.taken = max(getattr(self, "taken", 0.0), abs(self.step_size))
        super().step()


def build(name, mjd, perturb, srp, dma=0.0, cls=RK4):
    r, v = alpha.orbit(name, dma)
    p = cls(alpha.gcrf(mjd, r, v))
    p.state.use_perturbations = perturb
    p.state.srp_scalar = srp
    return p, r, v


def settings(p, size, perturb, srp, what):
    close(p.step_size, size, 0, "step size " + what)
    require(bool(p.state.use_perturbations) == perturb, f"perturbation switch {what} is {p.state.use_perturbations}")
    close(p.state.srp_scalar, srp, 0, "radiation pressure coefficient " + what)
    close_vec(alpha.t3(p.state.thrust), (0, 0, 0), 0, "thrust " + what)
    close_vec(
        alpha.t6(p.state.vector), alpha.t3(p.state.position) + alpha.t3(p.state.velocity), 0, "state vector and components " + what
    )


def run_single(case, ctx):
    name, mjd, dt, perturb, srp = case
    p, r, v = build(name, mjd, perturb, srp, cls=Probe)
    target = mjd + dt / 86400
    dt = (target - mjd) * 86400
    ep = alpha.E(target)
    p.step_to_epoch(ep)
    what = f"of {case}"
    close(p.state.epoch.value, target, EPS_D + 1.5e-11 * abs(dt) / 300, "epoch " + what)
    close(ep.value, target, 0, "requested epoch " + what)
    traj.check_leg((mjd, r, v), alpha.rv(p.state), dt, perturb, srp, what)
    settings(p, 300, perturb, srp, what)
    require(getattr(p, "taken", 0.0) <= 300.001, f"a substep of {getattr(p, 'taken', 0)} s {what}")
    ctx.step()
    ctx.state(*case)
    ctx.outcome(alpha.t3(p.state.position))
    # and back
    p.step_to_epoch(alpha.E(mjd))
    close(p.state.epoch.value, mjd, EPS_D + 1.5e-11 * abs(dt) / 300, "epoch after returning " + what)
    settings(p, 300, perturb, srp, "after returning " + what)
    ctx.step()


def single_cases(tier):
    eps = [60000.25, 60116.4] if tier == "quick" else [60000.25, 51544.5, 44238.7312, 53736.0008, 88069.375, 15020.0]
    out = []
    for name in sorted(alpha.ORBITS) + sorted(alpha.EXTRA):
        for m in eps:
            for dt in DTS + ([86400.0, -86400.0, 43210.9] if tier == "thorough" else []):
                for up, sc in ((True, 0.0), (True, 5.0), (False, 5.0)) if abs(dt) < 1e4 else ((True, 5.0),):
                    out.append([name, m, dt, up, sc])
    out += [[n, m, dt, True, 5.0] for n in ("leo", "geo") for m in alpha.EPOCHS_FAR for dt in (1000.0, -299.9)]
    out += [["geo", 60000.25, 260000.0, True, 2.0], ["geo", 60000.25, -300000.0, False, 0.0], ["xgeo", 51544.5, 1000000.0, False, 0.0], ["meo", 60000.25, -200000.5, True, 0.0]]
    out += [["xgeo", 60000.25, 40 * 86400.0, False, 0.0], ["leo", 60000.25, 16 * 86400.0, False, 0.0], ["meo", 60000.25, 35 * 86400.0, False, 0.0], ["meo", 51544.5, -20 * 86400.0 - 7.5, False, 0.0], ["geo", 60000.25, 16 * 86400.0, True, 1.0]]
    return out


# operations of one propagator
OPS = ["step", "+100", "+700", "-450", "0", "+300", "+675", "size=120", "size=675", "size=-60", "size=-675", "pert", "srp", "replace", "rewind"]


def model_init(p):
    return {"size": 300.0, "pert": True, "srp": 0.0}


def apply(p, op, m, what, ctx):
    """one operation on the real propagator, compared with the model"""
    before = traj.snap(p.state)
    if op in ("step", "0") or op[0] in "+-":
        m["old"] = p.state
    if op == "step":
        p.step()
        h = m["size"]
        close(p.state.epoch.value, before[0] + h / 86400, EPS_D, f"epoch after {what}")
        traj.check_leg(before, alpha.rv(p.state), h, m["pert"], m["srp"], what, hs=[h])
    elif op[0] in "+-0":
        target = before[0] + float(op) / 86400
        p.step_to_epoch(alpha.E(target))
        close(p.state.epoch.value, target, EPS_D, f"epoch after {what}")
        traj.check_leg(before, alpha.rv(p.state), (target - before[0]) * 86400, m["pert"], m["srp"], what)
    elif op.startswith("size="):
        m["size"] = float(op[5:])
        p.step_size = m["size"]
    elif op == "pert":
        m["pert"] = not m["pert"]
        p.state.use_perturbations = m["pert"]
    elif op == "srp":
        m["srp"] = 8.0 if m["srp"] == 0 else 0.0
        p.state.srp_scalar = m["srp"]
    elif op == "replace":  # a state assigned by the user is propagated with its own settings
        r, v = alpha.orbit("meo", 33.0)
        st = alpha.gcrf(before[0] + 0.5, r, v)
        st.srp_scalar = 3.0
        m["pert"], m["srp"] = True, 3.0
        p.state = st
    elif op == "rewind":  # the state object of before the last step is taken up again, with other settings
        st = m.pop("old", p.state)
        m["pert"], m["srp"] = not m["pert"], 4.0
        st.use_perturbations, st.srp_scalar = m["pert"], 4.0
        p.state = st
    settings(p, m["size"], m["pert"], m["srp"], f"after {what}")
    ctx.step()


def run_history(case, ctx):
    name, ops = case
    p, r, v = build(name, 60000.25, True, 0.0)
    m = model_init(p)
    for k, op in enumerate(ops):
        apply(p, op, m, f"{name}: {' '.join(ops[: k + 1])}", ctx)
        ctx.state(name, m["size"], m["pert"], m["srp"], round(p.state.epoch.value, 8))
    ctx.outcome(alpha.t3(p.state.position))


def history_cases(tier):
    n = 3 if tier == "quick" else 4
    out = [["leo", list(s)] for s in itertools.product(OPS, repeat=n)]
    out += [["heo", list(s)] for s in itertools.product(OPS, repeat=2)]
    out += [["leo", list(s)] for s in itertools.product(["step", "+700", "-450", "pert"], repeat=4)]
    return out


def run_inter(case, ctx):
    """two propagators (and the spacecraft they belong to) interleaved: each goes where it goes alone"""
    seq, kinds = case
    objs = {}
    for k in (0, 1):
        r, v = alpha.orbit(("leo", "gto")[k], 10.0 * k)
        st = alpha.gcrf((60000.25, 51544.5)[k], r, v)
        if k == 1:
            st.use_perturbations = kinds == "pert"
        objs[k] = RK4(st)
        objs[k].state.srp_scalar = (0.0, 6.0)[k]
    done = {0: 0, 1: 0}
    plan = (["+400", "step", "-900"], ["step", "+1000", "size=50"])
    models = {0: {"size": 300.0, "pert": True, "srp": 0.0}, 1: {"size": 300.0, "pert": kinds == "pert", "srp": 6.0}}
    for k in seq:
        op = plan[k][done[k]]
        done[k] += 1
        other = traj.snap(objs[1 - k].state)
        apply(objs[k], op, models[k], f"propagator {k} in the interleaving {seq}: {op}", ctx)
        require(traj.snap(objs[1 - k].state) == other, f"propagator {1 - k} moved by an operation of the other in {seq}")
        ctx.state(seq[: sum(done.values())], kinds)
    ctx.outcome(alpha.t3(objs[0].state.position))


def inter_cases(tier):
    return [[list(s), k] for s in sorted(set(itertools.permutations([0, 0, 0, 1, 1, 1]))) for k in ("pert", "kepler")]


def run_split(case, ctx):
    """path independence: the whole interval, and all ways of splitting it, against the fine reference"""
    name, mjd, total, cuts, perturb = case
    r, v = alpha.orbit(name)
    p, _, _ = build(name, mjd, perturb, 0.0)
    times = [total * c for c in cuts] + [total]
    trunc = 0.0
    cur = 0.0
    rr, vv = r, v
    for t in times:
        p.step_to_epoch(alpha.E(mjd + t / 86400))
        if t != cur:
            hs = traj.schedule_equal(t - cur)
            rr, vv = traj.run_schedule(mjd + cur / 86400, rr, vv, hs, perturb, 0.0, None)
        cur = t
        ctx.step()
    n = max(1, int(abs(total) // 25))
    tr, tv = traj.run_schedule(mjd, r, v, [total / n] * n, perturb, 0.0, None)
    trunc = ref.norm(ref.sub(rr, tr))
    d = ref.norm(ref.sub(alpha.t3(p.state.position), tr))
    require(d <= 3 * trunc + 2e-5, f"{case}: {d:g} km from the true trajectory, the method's truncation error is {trunc:g} km")
    if not perturb:
        kr, kv = ref.kepler_propagate(r, v, total)
        d = ref.norm(ref.sub(alpha.t3(p.state.position), kr))
        require(d <= 3 * trunc + 2e-5, f"{case}: {d:g} km from the Kepler orbit, the method's truncation error is {trunc:g} km")
    ctx.state(*case)
    ctx.outcome(alpha.t3(p.state.position))


def split_cases(tier):
    cuts = [[], [0.5], [0.1], [0.9], [1.0], [0.0], [0.25, 0.75], [0.75, 0.25], [1.5], [-0.5], [1.0, 0.0]]
    out = []
    for name, total in (("leo", 2700.0), ("leo", -2700.0), ("geo", 7200.0), ("heo", 3000.0), ("xgeo", -9000.0)):
        for c in cuts:
            for up in (True, False):
                out.append([name, 60000.25, total, c, up])
    return out


def run_order(case, ctx):
    """halving the step divides the error by about 16"""
    name, up = case
    r, v = alpha.orbit(name)
    T = 2400.0
    truth = traj.run_schedule(60000.25, r, v, [T / 240] * 240, up, 0.0, None)
    errs = []
    for h in (200.0, 100.0, 50.0):
        p, _, _ = build(name, 60000.25, up, 0.0)
        p.step_size = h
        for _ in range(int(T / h)):
            p.step()
            ctx.step()
        errs.append(ref.norm(ref.sub(alpha.t3(p.state.position), truth[0])))
    for a, b in zip(errs, errs[1:]):
        require(b <= a / 9 + 1e-5, f"{case}: error {a:g} km becomes {b:g} km at half of the step: not of fourth order")
    ctx.state(*case)
    ctx.outcome(*errs)


def run_long(case, ctx):
    """long linear histories: every leg compared"""
    name, n, pattern = case
    p, r, v = build(name, 60000.25, True, 0.0)
    m = model_init(p)
    for k in range(n):
        op = pattern[k % len(pattern)]
        apply(p, op, m, f"{name}: operation {k + 1} of the cycle {pattern}", ctx)
        ctx.state(name, k, pattern)
    ctx.outcome(alpha.t3(p.state.position))


def run_spacecraft(case, ctx):
    name, ops = case
    r, v = alpha.orbit(name)
    src = alpha.gcrf(60000.25, r, v)
    sc = Spacecraft(src)
    mjd = 60000.25
    for k, op in enumerate(ops):
        before = traj.snap(sc.propagator.state)
        srp = sc.propagator.state.srp_scalar
        what = f"spacecraft {name}: {' '.join(ops[: k + 1])}"
        up = sc.propagator.state.use_perturbations
        if op == "step":
            sc.step()
            mjd = before[0] + 300 / 86400
            traj.check_leg(before, alpha.rv(sc.propagator.state), 300.0, up, srp, what, hs=[300.0])
        elif op == "twobody":
            sc.propagator.state.use_perturbations = False
            up = False
        elif op == "query":
            sc.current_state().position.x += 1
            sc.position(), sc.velocity(), sc.sma(), sc.sun_vector(), sc.update_attitude(), sc.track_sun(), sc.track_lvlh()
            require(traj.snap(sc.propagator.state) == before, f"{what}: a query moved the spacecraft")
        else:
            mjd = before[0] + float(op) / 86400
            sc.step_to_epoch(alpha.E(mjd))
            traj.check_leg(before, alpha.rv(sc.propagator.state), (mjd - before[0]) * 86400, up, srp, what)
        close(sc.current_epoch().value, mjd, EPS_D, "epoch " + what)
        close(sc.propagator.state.srp_scalar, srp, 0, "radiation pressure coefficient " + what)
        require(bool(sc.propagator.state.use_perturbations) == bool(up), f"perturbation switch {what}")
        cs = sc.current_state()
        close_vec(alpha.t3(cs.position), alpha.t3(sc.propagator.state.position), 0, "current position " + what)
        close_vec(alpha.t3(sc.velocity()), alpha.t3(sc.propagator.state.velocity), 0, "current velocity " + what)
        close_vec(alpha.t3(sc.initial_state.position), r, 0, "initial state " + what)
        close(sc.initial_state.epoch.value, 60000.25, 0, "initial epoch " + what)
        ctx.step()
        ctx.state(name, ops[: k + 1])
    close_vec(alpha.t3(src.position), r, 0, "state the spacecraft was built from")
    ctx.outcome(alpha.t3(sc.position()))


def spacecraft_cases(tier):
    ops = ["step", "+100", "-700", "0", "twobody", "query"]
    return [[n, list(s)] for n in ("leo", "geo") for s in itertools.product(ops, repeat=3 if tier == "quick" else 4)]


def run_srp(case, ctx):
    """the spacecraft is propagated with its own radiation pressure coefficient"""
    name = case
    r, v = alpha.orbit(name)
    sc = Spacecraft(alpha.gcrf(60000.25, r, v))
    want = (0.3 + 1) * pi * 0.005**2 * 1e6 / 800
    close(sc.srp_scalar(), want, 1e-12, f"coefficient of the spacecraft on {name}")
    ctx.step()
    ctx.state(name)
    if sc.propagator.state.srp_scalar == 0:
        raise Violation(f"spacecraft on {name} has the coefficient {want} but is propagated with 0")
    close(sc.propagator.state.srp_scalar, want, 1e-12, f"coefficient in the propagation of the spacecraft on {name}")


def run_source(case, ctx):
    """the settings of the state a propagator is built from are those it uses; the source stays untouched"""
    up, th = case
    r, v = alpha.orbit("leo")
    st = alpha.gcrf(60000.25, r, v)
    st.use_perturbations = up
    p = RK4(st)
    before = traj.snap(st)
    m = {"size": 300.0, "pert": up, "srp": p.state.srp_scalar}
    for op in ("step", "+700", "-450"):
        apply(p, op, m, f"propagator built with perturbations {up}: {op}", ctx)
    require(traj.snap(st) == before, "the state a propagator was built from has moved")
    st.position.x += 100.0
    st.epoch.value += 1
    apply(p, "+100", m, "after moving the source state", ctx)
    ctx.state(*case)
    ctx.outcome(alpha.t3(p.state.position))


LONG = [
    ["geo", 20, ["size=0", "step", "+100", "step", "size=3600", "step", "0", "size=-2700", "step", "+50"]],
    ["xgeo", 20, ["size=7200", "step", "-450", "size=0", "step", "size=-7200", "step", "+700"]],
    ["leo", 60, ["step"]],
    ["geo", 60, ["+700", "-450"]],
    ["heo", 60, ["+100", "step", "0", "+700"]],
    ["leo", 80, ["+100"]],
    ["retro", 60, ["size=120", "step", "-450", "pert", "step", "+300"]],
    ["polar", 40, ["-450", "-450", "srp", "step", "pert"]],
]
GROUPS = [
    Group("single", single_cases, run_single, timeout=300, doc="9 orbits x 2 (6) epochs x 21 (24) durations of both signs x force settings, and 8 legs of 2-40 days, there and back"),
    Group("history", history_cases, run_history, doc="all sequences of 14 operations of length 3 (4), plus length 4 of a core and length 2 on a second orbit"),
    Group("interleaving", inter_cases, run_inter, doc="all 20 interleavings of two 3-operation programs x 2 force settings"),
    Group("split", split_cases, run_split, doc="5 intervals x 11 ways to split or overshoot x 2 force settings against the fine trajectory"),
    Group("order", lambda t: grid(["leo", "polar", "retro", "heo"], [True, False]), run_order, doc="4 orbits x 2 settings, error at steps 200, 100, 50 s"),
    Group("long", lambda t: LONG if t == "quick" else [[n, 5 * k, p] for n, k, p in LONG], run_long, timeout=120, doc="8 cyclic histories of 40-80 (200-400) operations"),
    Group("spacecraft", spacecraft_cases, run_spacecraft, doc="all sequences of 6 operations of length 3 (4) on 2 orbits"),
    Group("source", lambda t: [[True, 0], [False, 0]], run_source, doc="perturbation switch of the source state"),
    Group("spacecraft-srp", lambda t: ["leo"], run_srp, doc="radiation pressure coefficient of a new spacecraft"),
]  # fmt: skip
ASSUMPTIONS = ["force model as decided by C09", "the epoch may be off by the rounding of modified julian dates (1e-9 day)"]
