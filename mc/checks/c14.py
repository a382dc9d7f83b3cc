"""C14 relative propagation"""
import itertools
from math import pi, sqrt

import alpha
import ref
from engine import Group, close, close_mat, close_vec, grid, require
from openspace.coordinates.states import HCW
from openspace.propagators.relative import Hill

SMAS = [500.0, 6578.0, 6900.0, 8000.0, 12000.0, 26560.0, 42164.17, 120000.0, 384400.0, 1.5e6, 2e7]


def hcw(mjd, x):
    return HCW(alpha.E(mjd), alpha.V(x[:3]), alpha.V(x[3:]))


def scaled(m, n):
    """dimensionless transition matrix"""
    out = [list(r) for r in m]
    for i in range(3):
        for j in range(3):
            out[i][j + 3] *= n
            out[i + 3][j] /= n
    return out


def run_matrix(case, ctx):
    a, f = case
    n = sqrt(ref.MU / a**3)
    t = f * 2 * pi / n
    hill = Hill(hcw(60000.0, (1, 2, 3, 0.001, 0.002, 0.003)), a)
    m = alpha.m6(hill.system_matrix(t))
    tol = 1e-11 * (1 + 40 * abs(f)) ** 1.5
    close_mat(scaled(m, n), scaled(ref.hill_matrix(n, t), n), tol, f"transition matrix for sma {a}, {f} revolutions")
    if f == 0:
        close_mat(m, ref.eye(6), 0, "transition over zero time")
    inv = alpha.m6(hill.system_matrix(-t))
    close_mat(scaled(ref.matmul(m, inv), n), ref.eye(6), tol * (1 + 40 * abs(f)), f"transition there and back for sma {a}, {f} revolutions")
    for g in (0.1, -0.35, 1.0):
        s = g * 2 * pi / n
        both = alpha.m6(hill.system_matrix(t + s))
        prod = ref.matmul(alpha.m6(hill.system_matrix(s)), m)
        close_mat(scaled(prod, n), scaled(both, n), 1e-11 * (1 + 40 * abs(f)) * (1 + 40 * abs(g)), f"composition for sma {a}, {f} and {g} revolutions")
        ctx.step()
    close_vec(alpha.t6(hill.state.vector), (1, 2, 3, 0.001, 0.002, 0.003), 0, "state changed by asking for the matrix")
    close(hill.n, n, 1e-13 * n * 10, "mean motion")
    ctx.step(2)
    # orbits that hardly differ
    for da in (0.03, -0.004, 3e-6):
        h2, n2 = Hill(hcw(60000.0, INIT), a + da), sqrt(ref.MU / (a + da) ** 3)
        close_mat(scaled(alpha.m6(h2.system_matrix(t)), n2), scaled(ref.hill_matrix(n2, t), n2), tol, f"transition matrix for sma {a} + {da} after {a}, {f} revolutions")
        close(h2.n, n2, 1e-12 * n2, f"mean motion for sma {a} + {da} after {a}")
        ctx.step()
    ctx.state(*case)
    ctx.outcome(m[1])


def matrix_cases(tier):
    fr = [0.0, 1e-6, 1e-3, 0.05, 0.1, 0.25, 0.333, 0.5, 0.625, 0.75, 0.9, 1.0, 1.5, 2.0, 3.3, 10.0]
    if tier == "thorough":
        fr += [0.01 * k for k in range(1, 300)]
    fr = sorted(set(fr + [-x for x in fr]))
    return grid(SMAS, fr)


OPS = ["step", "0", "60", "-600", "5400", "123456.7", "size=100", "size=-40", "replace", "query"]
RARE = ["step", "size=100000", "size=-0.5", "-0.5", "0.25", "-2000000", "2e-4", "replace"]
INIT = (10.0, -50.0, 4.0, 0.002, -0.01, 0.005)
OTHER = (-1.0, 3.0, -2.0, 0.0, 0.001, -0.002)


def run_history(case, ctx):
    a, ops = case
    n = sqrt(ref.MU / a**3)
    src = hcw(60000.0, INIT)
    hill = Hill(src, a)
    init, total, t0, size = INIT, 0.0, 60000.0, 600.0
    for k, op in enumerate(ops):
        what = f"after {' '.join(ops[: k + 1])} with sma {a}"
        if op == "step":
            hill.step()
            total += size
        elif op.startswith("size="):
            size = float(op[5:])
            hill.step_size = size
        elif op == "replace":
            hill.state = hcw(60010.0, OTHER)
            init, total, t0 = OTHER, 0.0, 60010.0
        elif op == "query":
            for t in (600.0, 60.0, 1234.5, size):
                for row in (mat := hill.system_matrix(t)).row1, mat.row2, mat.row5, mat.row6:
                    row.x += 1.0
                    row.vy -= 7.0
            hill.state.vector.copy()
        else:
            hill.step_by_seconds(float(op))
            total += float(op)
        want = ref.matvec(ref.hill_matrix(n, total), init)
        long = max([abs(float(o.split("=")[-1])) for o in ops[: k + 1] if o[-1].isdigit()] + [1800.0])
        rev = 1 + n * max(abs(total), long * len(ops))
        # a float error of 1e-16 in the state grows with the drift of the intermediate state
        sc = ref.norm(init[:3]) + ref.norm(init[3:]) / n
        tol = 1e-13 * sc * rev * rev * 10
        close_vec(alpha.t3(hill.state.position), want[:3], tol, "relative position " + what)
        close_vec(alpha.t3(hill.state.velocity), want[3:], tol * n, "relative velocity " + what)
        close_vec(alpha.t6(hill.state.vector), alpha.t3(hill.state.position) + alpha.t3(hill.state.velocity), 0, "vector and components " + what)
        close(hill.state.epoch.value, t0 + total / 86400, 1e-9, "epoch " + what)
        close(hill.step_size, size, 0, "step size " + what)
        close(hill.sma, a, 0, "semi-major axis " + what)
        require(isinstance(hill.state, HCW), "state is not a relative state " + what)
        ctx.step()
        ctx.state(a, round(total, 3), size, init[0])
    close_vec(alpha.t3(src.position) + alpha.t3(src.velocity), INIT, 0, "source state changed")
    close(src.epoch.value, 60000.0, 0, "source epoch changed")
    ctx.outcome(alpha.t6(hill.state.vector))


def history_cases(tier):
    d = 4 if tier == "quick" else 5
    rare = [[a, list(s)] for a in (42164.17, 8000.0) for s in itertools.product(RARE, repeat=3 if tier == "quick" else 4)]
    return rare + [[42164.17, list(s)] for s in itertools.product(OPS, repeat=d)] + [[6900.0, list(s)] for s in itertools.product(OPS, repeat=3)]


def run_long(case, ctx):
    a, dt, n_steps = case
    n = sqrt(ref.MU / a**3)
    hill = Hill(hcw(60000.0, INIT), a)
    hill.step_size = dt
    for k in range(1, n_steps + 1):
        hill.step()
        if k % 10 == 0 or k < 5:
            want = ref.matvec(ref.hill_matrix(n, k * dt), INIT)
            rev = 1 + n * abs(k * dt)
            sc = ref.norm(INIT[:3]) + ref.norm(INIT[3:]) / n
            close_vec(alpha.t3(hill.state.position), want[:3], 1e-12 * sc * rev * rev * 10, f"position after {k} steps of {dt} s, sma {a}")
            close(hill.state.epoch.value, 60000.0 + k * dt / 86400, 1e-8, f"epoch after {k} steps of {dt} s")
        ctx.step()
    ctx.state(*case)
    ctx.outcome(alpha.t6(hill.state.vector))


def run_inter(case, ctx):
    """propagators of different orbits interleaved"""
    smas = (6900.0, 42164.17, 6900.0)
    inits = (INIT, INIT, OTHER)
    hs = [Hill(hcw(60000.0 + k, inits[k]), smas[k]) for k in range(3)]
    tot = [0.0, 0.0, 0.0]
    for k in case:
        hs[k].step_by_seconds(700.0 + 100 * k)
        tot[k] += 700.0 + 100 * k
        for j in range(3):
            n = sqrt(ref.MU / smas[j] ** 3)
            want = ref.matvec(ref.hill_matrix(n, tot[j]), inits[j])
            close_vec(alpha.t3(hs[j].state.position), want[:3], 1e-8, f"position of propagator {j} in {case}")
            close(hs[j].state.epoch.value, 60000.0 + j + tot[j] / 86400, 1e-9, f"epoch of propagator {j} in {case}")
        ctx.step()
        ctx.state(*tot)
    ctx.outcome(alpha.t6(hs[0].state.vector))


GROUPS = [
    Group("matrix", matrix_cases, run_matrix, doc="11 semi-major axes x 31 (600) times of both signs, inverse and composition; 3 neighbouring orbits after each"),
    Group("history", history_cases, run_history, doc="all sequences of 10 operations of length 4 (5), length 3 on a second orbit; of 8 with very short and very long steps of length 3 (4) on 2 orbits"),
    Group("long", lambda t: grid(SMAS, [600.0, -60.0, 97.0], [200]), run_long, doc="200 steps"),
    Group("interleaving", lambda t: [list(s) for s in itertools.product(range(3), repeat=5)], run_inter, doc="all sequences of 5 steps of 3 propagators"),
]
ASSUMPTIONS = ["exp(A t) computed by scaling and squaring in double precision"]
