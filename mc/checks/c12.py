"""C12 maneuvers"""
import itertools
from math import exp, log

import alpha
import ref
import traj
from engine import Group, close, close_vec, grid, require
from openspace.bodies.artificial import Spacecraft
from openspace.propagators.inertial import RK4

G0 = 0.00981


class Model:
    """reference spacecraft: masses, thruster and settings (the trajectory is compared leg by leg)"""

    def __init__(self):
        self.dry, self.prop, self.mdot, self.isp = 600.0, 200.0, 0.003, 350.0
        self.pert, self.srp, self.size = True, None, 300.0
        self.tol = 1e-9  # of the propellant: the time of a burn is known to the rounding of dates (1e-6 s)


def build(name, mjd=None, dma=0.0):
    mjd = mjd or {"geo": 60116.4, "heo": 59842.77}.get(name, 60000.25)
    r, v = alpha.orbit(name, dma)
    sc = Spacecraft(alpha.gcrf(mjd, r, v))
    m = Model()
    m.srp = sc.propagator.state.srp_scalar
    return sc, m


def invariants(sc, m, what):
    close(sc.dry_mass, m.dry, 0, "dry mass " + what)
    close(sc.propellant_mass, m.prop, m.tol, "propellant " + what)
    close(sc.total_mass(), m.dry + m.prop, m.tol, "total mass " + what)
    close(sc.m_dot, m.mdot, 0, "mass flow " + what)
    close(sc.isp, m.isp, 0, "specific impulse " + what)
    st = sc.propagator.state
    require(bool(st.use_perturbations) == m.pert, f"perturbation switch {what}")
    close(st.srp_scalar, m.srp, 0, "radiation pressure coefficient " + what)
    close(sc.propagator.step_size, m.size, 0, "step size " + what)
    close_vec(alpha.t3(st.thrust), (0, 0, 0), 0, "thrust " + what)
    close_vec(alpha.t3(sc.propagator.thrust_vector(0)), (0, 0, 0), 0, "thrust at the next instant " + what)
    close_vec(alpha.t3(sc.propagator.thrust_vector(10.0)), (0, 0, 0), 0, "thrust 10 s later " + what)
    close_vec(alpha.t6(st.vector), alpha.t3(st.position) + alpha.t3(st.velocity), 0, "state vector and components " + what)


def impulsive(sc, m, dv, what):
    mjd, r, v = traj.snap(sc.propagator.state)
    burn = alpha.V(dv)
    sc.impulsive_maneuver(burn)
    want = ref.add(v, ref.matvec(ref.transpose(ref.ric(r, v)), dv))
    close_vec(alpha.t3(sc.velocity()), want, 1e-11, f"velocity after the impulse {dv} {what}")
    close_vec(alpha.t3(sc.position()), r, 1e-11 * ref.norm(r), f"position after the impulse {dv} {what}")
    close(sc.current_epoch().value, mjd, 0, f"epoch after the impulse {dv} {what}")
    close_vec(alpha.t3(burn), dv, 0, "requested burn")


def finite(sc, m, dv, what):
    mjd, r, v = traj.snap(sc.propagator.state)
    mag = ref.norm(dv)
    m0 = m.dry + m.prop
    dt = m0 / m.mdot * (1 - exp(-mag / (m.isp * G0)))
    burn = alpha.V(dv)
    sc.finite_maneuver(burn)
    close_vec(alpha.t3(burn), dv, 0, "requested burn")
    end = sc.current_epoch().value
    close(end, mjd + dt / 86400, 2e-9 + 1.5e-11 * dt / 300, f"end of the burn {dv} {what}")
    m.prop -= m.mdot * dt
    m.tol += m.mdot * (2e-6 + 1.5e-6 * dt / 300)
    if mag > 0:
        u = ref.unit(ref.matvec(ref.transpose(ref.ric(r, v)), dv))
        f = m.mdot * m.isp * G0
        tgt = (mjd + dt / 86400 - mjd) * 86400
        traj.check_leg(
            (mjd, r, v), alpha.rv(sc.propagator.state), tgt, m.pert, m.srp, f"burn {dv} {what}",
            thrust=lambda t: ref.mul(u, f / (m0 - m.mdot * t)), extra=1e-6,
        )  # fmt: skip
        # thrust alone: difference to the coasting trajectory, for burns short against the orbit
        if dt < 2 or dt < 800 and mag > 1e-4:
            hs = traj.schedule_equal(tgt)
            cr, cv = traj.run_schedule(mjd, r, v, hs, m.pert, m.srp, None)
            got = ref.sub(alpha.t3(sc.velocity()), cv)
            w = (ref.MU / ref.norm(r) ** 3) ** 0.5 * dt
            close_vec(got, ref.mul(u, mag), mag * (w * w + 1e-4 + 2e-6 / dt) + (8e-9 if dt < 2 else 1e-7), f"velocity change delivered by the burn {dv} {what}")
    else:
        close_vec(alpha.t3(sc.velocity()), v, 1e-12, f"velocity after an empty burn {what}")
        close_vec(alpha.t3(sc.position()), r, 1e-9, f"position after an empty burn {what}")


def leg(sc, m, op, what):
    b = traj.snap(sc.propagator.state)
    if op == "step":
        sc.step()
        close(sc.current_epoch().value, b[0] + m.size / 86400, 1e-9, "epoch " + what)
        traj.check_leg(b, alpha.rv(sc.propagator.state), m.size, m.pert, m.srp, what, hs=[m.size])
    else:
        t = b[0] + float(op) / 86400
        sc.step_to_epoch(alpha.E(t))
        close(sc.current_epoch().value, t, 1e-9, "epoch " + what)
        traj.check_leg(b, alpha.rv(sc.propagator.state), (t - b[0]) * 86400, m.pert, m.srp, what)


BURNS = {
    "I+": (0.001, 0.0, 0.0), "I-": (-0.002, 0.05, -0.3), "Iv": (0.0, -0.01, 0.02), "I3": (0.5, -0.5, 2.5), "I5": (-4.0, 6.0, 9.0), "I7": (0.0, 0.0, -60.0),
    "F1": (0.0, 0.005, 0.0), "F2": (-0.001, -0.002, 0.003), "F3": (0.0, 0.0, -0.02), "F9": (0.3, -0.9, 0.1), "F0": (0.0, 0.0, 0.0), "I0": (0.0, 0.0, 0.0), "F5": (0.01, -0.03, 0.002),
    "Fa": (6e-8, 0.0, 0.0), "Fb": (0.0, -8e-8, 3e-8), "Fc": (0.0, 0.0, -1e-6),
}  # fmt: skip
OPS = ["I+", "I-", "F1", "F2", "F3", "F0", "step", "+500", "-350", "thruster", "twobody", "size", "size-", "mass", "srp"]


def apply(sc, m, op, what, ctx):
    if op[0] == "I":
        impulsive(sc, m, BURNS[op], what)
    elif op[0] == "F":
        finite(sc, m, BURNS[op], what)
    elif op == "thruster":
        m.mdot, m.isp = (0.01, 220.0) if m.mdot == 0.003 else (0.003, 350.0)
        sc.m_dot, sc.isp = m.mdot, m.isp
    elif op == "trim":  # small corrections of the thruster and the mass
        m.mdot, m.isp, m.prop = m.mdot * 1.002, m.isp + 0.5, m.prop - 0.25
        sc.m_dot, sc.isp, sc.propellant_mass = m.mdot, m.isp, m.prop
    elif op == "fast":
        m.mdot, m.isp = 1.5, 380.0
        sc.m_dot, sc.isp = m.mdot, m.isp
    elif op == "twobody":
        m.pert = not m.pert
        sc.propagator.state.use_perturbations = m.pert
    elif op == "srp":
        m.srp = 4.0 if m.srp != 4.0 else 0.5
        sc.propagator.state.srp_scalar = m.srp
    elif op == "size":
        m.size = 90.0
        sc.propagator.step_size = 90.0
    elif op == "size-":
        m.size = sc.propagator.step_size = -60.0
    elif op == "light":
        m.dry, m.prop = 90.0, 35.0
        sc.dry_mass, sc.propellant_mass = 90.0, 35.0
    elif op == "cubesat":
        m.dry, m.prop = 8.0, 4.0
        sc.dry_mass, sc.propellant_mass = 8.0, 4.0
    elif op == "station":
        m.dry, m.prop, m.mdot, m.isp = 400000.0, 9000.0, 25.0, 310.0
        sc.dry_mass, sc.propellant_mass, sc.m_dot, sc.isp = 400000.0, 9000.0, 25.0, 310.0
    elif op == "mass":
        m.dry, m.prop = 1000.0, 50.0
        sc.dry_mass, sc.propellant_mass = 1000.0, 50.0
    else:
        leg(sc, m, op, what)
    invariants(sc, m, what)
    ctx.step()


def run_history(case, ctx):
    name, ops = case
    sc, m = build(name)
    for k, op in enumerate(ops):
        apply(sc, m, op, f"({name}: {' '.join(ops[: k + 1])})", ctx)
        ctx.state(name, round(m.prop, 6), m.mdot, m.dry, m.pert, m.size, round(sc.current_epoch().value, 6))
    ctx.outcome(alpha.t3(sc.velocity()))


def history_cases(tier):
    n = 3 if tier == "quick" else 4
    out = [["leo", list(s)] for s in itertools.product(OPS, repeat=n) if any(o[0] in "IF" for o in s)]
    big = ["I3", "F9", "fast", "step", "+500", "F1", "srp"]
    out += [["leo", list(s)] for s in itertools.product(big, repeat=4) if ("I3" in s or "F9" in s) and s.count("F9") <= 1 and (s.index("fast") < s.index("F9") if "F9" in s and "fast" in s else "F9" not in s)]
    rare = ["light", "F5", "F2", "I0", "F0", "twobody", "thruster", "srp", "size", "trim"]
    out += [["heo", list(s)] for s in itertools.product(rare, repeat=3) if any(o[0] in "IF" for o in s)]
    out += [["leo", list(s)] for s in itertools.product(["Fa", "Fb", "Fc", "F1", "I+", "twobody"], repeat=3)]
    out += [["leo", list(s)] for s in itertools.product(["cubesat", "station", "F1", "F5", "I5", "I7", "fast"], repeat=3) if any(o[0] in "IF" for o in s) and not ("station" in s and "fast" in s)]
    core = ["I-", "F2", "F3", "+500", "step"]
    out += [["geo", list(s)] for s in itertools.product(core, repeat=4) if any(o[0] in "IF" for o in s)]
    return out


def run_burn(case, ctx):
    name, kind, d, mag, thr = case
    sc, m = build(name)
    m.mdot, m.isp = thr
    sc.m_dot, sc.isp = thr
    dv = ref.mul(ref.unit(d), mag)
    what = f"of {case}"
    if kind == "I":
        impulsive(sc, m, dv, what)
    else:
        finite(sc, m, dv, what)
        close(
            m.isp * G0 * log(800.0 / sc.total_mass()), mag, 1e-9 + m.isp * G0 * m.tol / 600, "velocity change by the rocket equation from the mass left " + what
        )
    invariants(sc, m, what)
    leg(sc, m, "+200", "after " + what)
    ctx.step(2)
    ctx.state(*case)
    ctx.outcome(alpha.t3(sc.velocity()))


DIRS = [d for d in grid([-1.0, 0.0, 1.0], [-1.0, 0.0, 1.0], [-1.0, 0.0, 1.0]) if any(d)]
THR = [[0.003, 350.0], [0.2, 300.0], [0.0001, 2000.0], [2.0, 450.0]]


def burn_cases(tier):
    out = []
    for n in ("leo", "geo", "heo") if tier == "quick" else sorted(alpha.ORBITS):
        for d in DIRS:
            for mag in (1e-6, 0.001, 0.5, 3.0):
                out.append([n, "I", d, mag, THR[0]])
            for mag in (1e-5, 0.002, 0.05, 0.4, 0.8):
                for t in THR:
                    if 800 / t[0] * (mag / (t[1] * G0)) < 20000:
                        out.append([n, "F", d, mag, t])
    # burns of most of a day
    out += [[n, "F", d, mag, t] for n in ("geo", "leo") for d in DIRS[::5] for mag, t in ((0.7, THR[0]), (0.25, THR[2]))]
    return out


def run_long(case, ctx):
    name, n, pattern = case
    sc, m = build(name)
    for k in range(n):
        apply(sc, m, pattern[k % len(pattern)], f"({name}: operation {k + 1} of the cycle {pattern})", ctx)
        ctx.state(name, k, pattern)
    ctx.outcome(sc.propellant_mass)


LONG = [["leo", 40, ["F1", "step"]], ["geo", 36, ["F2", "I-", "+500"]], ["meo", 30, ["F3", "thruster", "-350"]], ["leo", 30, ["I+", "I-", "step"]]]


def run_two(case, ctx):
    """two spacecraft maneuvering in turn do not share masses or thrusters"""
    a, ma = build("leo")
    b, mb = build("geo", 60001.5)
    pair = {"a": (a, ma), "b": (b, mb)}
    for k, (who, op) in enumerate(case):
        other = pair["b" if who == "a" else "a"]
        ob = traj.snap(other[0].propagator.state)
        apply(*pair[who], op, f"({who} in {case[: k + 1]})", ctx)
        require(traj.snap(other[0].propagator.state) == ob, f"the other spacecraft moved in {case}")
        invariants(*other, f"of the other spacecraft in {case}")
    ctx.state(case)
    ctx.outcome(alpha.t3(a.velocity()), alpha.t3(b.velocity()))


def two_cases(tier):
    al = [[w, o] for w in "ab" for o in ("F2", "I-", "thruster", "mass", "step")]
    return [list(s) for s in itertools.product(al, repeat=3)]


def run_prop(case, ctx):
    """maneuver of a bare propagator"""
    name, d, mag, mdot, m0, isp = case
    r, v = alpha.orbit(name)
    p = RK4(alpha.gcrf(60000.25, r, v))
    dv = ref.mul(ref.unit(d), mag)
    th = alpha.V(dv)
    p.maneuver(th, mdot, m0, isp)
    dt = m0 / mdot * (1 - exp(-mag / (isp * G0)))
    tgt = (60000.25 + dt / 86400 - 60000.25) * 86400
    what = f"of {case}"
    close(p.state.epoch.value, 60000.25 + dt / 86400, 2e-9, "end of the burn " + what)
    u = ref.unit(dv)
    f = mdot * isp * G0
    traj.check_leg((60000.25, r, v), alpha.rv(p.state), tgt, True, 0.0, what, thrust=lambda t: ref.mul(u, f / (m0 - mdot * t)), extra=1e-6)
    close_vec(alpha.t3(p.state.thrust), (0, 0, 0), 0, "thrust " + what)
    close_vec(alpha.t3(th), dv, 0, "requested burn")
    close(p.step_size, 300, 0, "step size " + what)
    b = traj.snap(p.state)
    p.step()
    traj.check_leg(b, alpha.rv(p.state), 300.0, True, 0.0, "coast after " + what, hs=[300.0])
    ctx.step(2)
    ctx.state(*case)
    ctx.outcome(alpha.t3(p.state.velocity))


# most of the mass burned, within one substep or over several
HEAVY = grid(["xgeo"], DIRS[::3], [2.0, 4.0, 6.0], [3.0, 2.0, 0.4], [1000.0], [350.0]) + grid(["leo"], DIRS[::3], [1.0, 2.0], [3.0], [1000.0], [350.0])


GROUPS = [
    Group("burns", burn_cases, run_burn, doc="3 (9) orbits x 26 directions x impulses of 4 sizes and finite burns of 5 sizes (to 94 % of the propellant) x 4 thrusters, then a coast"),
    Group("history", history_cases, run_history, doc="all sequences of 14 operations of length 3 (4) with a maneuver, of 5 operations of length 4, of 10 with a light vehicle and empty burns of length 3, of 6 with burns down to 6e-8 km/s of length 3, of 7 with vehicles of 12 kg and 409 t and impulses up to 60 km/s of length 3, and of 7 with burns over 1 km/s of length 4"),
    Group("long", lambda t: LONG if t == "quick" else [[n, 2 * k, p] for n, k, p in LONG], run_long, timeout=120, doc="4 cyclic histories of 30-40 (60-80) operations"),
    Group("two", two_cases, run_two, doc="all sequences of 3 operations on two spacecraft"),
    Group("propagator", lambda t: HEAVY + (grid(["leo", "xgeo"], DIRS, [1e-4, 0.02], [0.003, 1.0], [150.0, 5000.0], [220.0, 3000.0]) if t == "thorough" else grid(["leo"], DIRS[::3], [1e-4, 0.02], [0.05, 1.0], [150.0, 1000.0], [220.0, 3000.0])), run_prop, doc="burns of a bare propagator, up to 85 % of the mass"),
]  # fmt: skip
ASSUMPTIONS = ["rocket equation with g0 = 9.81 m/s2", "trajectories as in C11"]
