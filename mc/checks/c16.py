"""C16 steering and attitude"""
import itertools
from math import inf, pi

import alpha
import ref
import traj
from engine import Group, close, close_vec, require
from openspace.bodies.artificial import Spacecraft

MJD = 60000.25
RATE = 0.5 * pi / 180  # rad per second
BURN = {"imp": (0.0, 0.1, 0.6), "imp2": (-0.3, 0.0, -0.2), "fin": (2e-4, 0.0, 1e-4), "tiny": (0.0, 3e-6, 1e-6), "none": (0.0, 0.0, 0.0)}
SECONDS = {"+30": 30.0, "+400": 400.0, "-200": -200.0, "+7000": 7000.0, "+2d": 172800.0, "-2d": -172800.0}


STOPS = {"stop-8": -1e-8, "stop+8": 1e-8, "stop-6": -3e-7, "stop+6": 3e-7}


class Model:
    """what a spacecraft is told to do, and until when it slews"""

    def __init__(self):
        self.mode, self.target, self.slewing, self.stop = "lvlh", None, False, None
        self.rate = RATE


class World:
    def __init__(self, states, perturb):
        self.craft = []
        for mjd, r, v in states:
            st = alpha.gcrf(mjd, r, v)
            st.use_perturbations = perturb
            self.craft.append(Spacecraft(st))
        self.model = [Model() for _ in states]
        self.perturb = perturb
        for i in range(len(states)):
            self.check_attitude(i, "of a new spacecraft")

    def epoch(self, i):
        return self.craft[i].current_epoch().value

    def pos(self, i):
        return alpha.t3(self.craft[i].position())

    def bore(self, i, mode, target):
        """direction commanded, from the geometry now"""
        r = self.pos(i)
        if mode == "lvlh":
            return ref.mul(r, -1.0)
        if mode == "solar":
            return ref.sub(r, ref.sun(self.epoch(i)))
        return ref.sub(self.pos(target), r)

    def axes(self, i):
        m = self.model[i]
        z = self.bore(i, m.mode, m.target)
        if m.mode == "lvlh":
            y = ref.cross(self.pos(i), alpha.t3(self.craft[i].velocity()))
            x = ref.cross(y, z)
        elif m.mode == "solar":
            x = ref.cross(z, (0.0, 0.0, 1.0))
            y = ref.cross(z, x)
        else:
            y = ref.cross(z, ref.sub(ref.sun(self.epoch(i)), self.pos(i)))
            x = ref.cross(y, z)
        return ref.unit(x), ref.unit(y), ref.unit(z)

    def check_attitude(self, i, what):
        sc, m = self.craft[i], self.model[i]
        x, y, z = self.axes(i)
        close_vec(ref.unit(alpha.t3(sc.body_z)), z, 5e-8, f"boresight of spacecraft {i} in {m.mode} mode {what}")
        close_vec(ref.unit(alpha.t3(sc.body_y)), y, 5e-8, f"y axis of spacecraft {i} in {m.mode} mode {what}")
        close_vec(ref.unit(alpha.t3(sc.body_x)), x, 5e-8, f"x axis of spacecraft {i} in {m.mode} mode {what}")
        if m.slewing and m.rate != inf and abs(self.epoch(i) - m.stop) < 1e-9:
            m.slewing = bool(sc.slewing)  # end of the slew within the resolution of the epoch
        require(bool(sc.slewing) == m.slewing, lambda: f"slewing flag of spacecraft {i} is {sc.slewing} {what}, slew ends {(m.stop - self.epoch(i)) * 86400 if m.stop else None} s from now")
        if m.slewing:
            close(sc.slew_stop.value, m.stop, 2e-9, f"end of the slew of spacecraft {i} {what}")

    def moved(self, j, before, seen):
        """whether spacecraft j, or one that follows it as target, was propagated (maybe by a rounding error of the epoch)"""
        if traj.snap(self.craft[j].propagator.state) != before[j]:
            return True
        k = self.model[j].target
        return k is not None and k not in seen and self.moved(k, before, seen + (j,))

    def updated(self, i, before, what, seen=()):
        """spacecraft i has been brought to its epoch: its target follows"""
        m = self.model[i]
        if m.mode == "target":
            j = m.target
            slack = 1e-10 + 5e-9 * abs(self.epoch(j) - before[j][0])  # rounding of the dates of many substeps
            close(self.epoch(j), self.epoch(i), slack, f"epoch of the target {j} of spacecraft {i} {what}")
            if j not in seen and self.moved(j, before, seen + (i,)):
                mjd, r, v = before[j]
                traj.check_leg((mjd, r, v), alpha.rv(self.craft[j].propagator.state), (self.epoch(j) - mjd) * 86400, self.perturb, 0.0, f"target {j} of spacecraft {i} {what}", extra=1e-4)
                self.updated(j, before, what, seen + (i,))
        if m.slewing and self.epoch(i) > m.stop:
            m.slewing = False
        self.fresh.add(i)

    def apply(self, i, op, what):
        sc, m = self.craft[i], self.model[i]
        before = [traj.snap(c.propagator.state) for c in self.craft]
        old = alpha.t3(sc.body_z)
        new = None
        if op == "lvlh":
            sc.track_lvlh()
            new = ("lvlh", None)
        elif op == "sun":
            sc.track_sun()
            new = ("solar", None)
        elif op[:3] == "acq":
            sc.acquire(self.craft[int(op[3:])])
            new = ("target", int(op[3:]))
        elif op[0] == "@":
            sc.track_state(self.craft[int(op[1:])])
            new = ("target", int(op[1:]))
        elif op == "step":
            sc.step()
            close(self.epoch(i), before[i][0] + 300.0 / 86400, 2e-10, "epoch " + what)
        elif op in SECONDS:
            to = before[i][0] + SECONDS[op] / 86400
            sc.step_to_epoch(alpha.E(to))
            close(self.epoch(i), to, 2e-10 if abs(SECONDS[op]) < 80000 else 1e-8, "epoch " + what)
        elif op in STOPS:
            # just before and just after the end of the slew
            to = (m.stop if m.slewing else before[i][0] + 1e-4) + STOPS[op]
            sc.step_to_epoch(alpha.E(to))
            close(self.epoch(i), to, 2e-10, "epoch " + what)
        elif op in ("slow", "fast", "instant"):
            m.rate = {"slow": RATE / 3, "fast": RATE * 8, "instant": inf}[op]
            sc.slew_scalar = 0.0 if op == "instant" else 1 / (m.rate * 86400)
            return
        elif op in ("fin", "tiny"):
            sc.finite_maneuver(alpha.V(BURN[op]))
        else:
            sc.impulsive_maneuver(alpha.V(BURN[op]))
        if new and new != (m.mode, m.target):
            m.mode, m.target = new
            m.slewing = True
            # the target has been brought to the epoch of the spacecraft, so the geometry now is the one at the command
            m.stop = self.epoch(i) + ref.angle(old, self.bore(i, *new)) / m.rate / 86400
        if new:
            close(self.epoch(i), before[i][0], 1e-9, "epoch after a command " + what)
            close_vec(self.pos(i), before[i][1], 1e-4, "position after a command " + what)
        self.fresh = set()
        self.updated(i, before, what)
        for j in sorted(self.fresh):
            self.check_attitude(j, what)
        for j, c in enumerate(self.craft):
            if j not in self.fresh:
                now = traj.snap(c.propagator.state)
                close(now[0], before[j][0], 1e-9, f"epoch of spacecraft {j} {what}")
                close_vec(now[1], before[j][1], 1e-4, f"position of spacecraft {j} {what}")


def key(w):
    return [(m.mode, m.target, m.slewing, w.epoch(i)) for i, m in enumerate(w.model)]


def build(scene, perturb):
    if scene == "geo":
        r, v = alpha.orbit("geo")
        a = ref.from_hcw((-40.0, 300.0, 20.0), (0.0, 0.0, 0.001), r, v)
        b = alpha.orbit("meo", 40.0)
        ra, va = ref.kepler_propagate(*a, 500.0)
        return World([(MJD, r, v), (MJD + 500.0 / 86400, ra, va), (MJD, *b)], perturb)
    if scene == "leo":
        r, v = alpha.orbit("leo")
        t = 60116.4  # Sun north of the equator
        return World([(t, r, v), (t - 250.0 / 86400, *alpha.orbit("sso")), (t + 100.0 / 86400, *alpha.orbit("heo", 90.0))], perturb)
    if scene == "twin":  # two targets start at the same place
        r, v = alpha.orbit("geo")
        a = ref.from_hcw((-40.0, 300.0, 20.0), (0.0, 0.0, 0.001), r, v)
        b = ref.from_hcw((-40.0, 300.0, 20.0), (0.01, 0.02, 0.0), r, v)
        return World([(MJD, r, v), (MJD, *a), (MJD, *b)], perturb)
    # a formation, whose members may track each other
    r, v = alpha.orbit("retro")
    a = ref.from_hcw((1.0, 30.0, -2.0), (0.0, 0.002, 0.0), r, v)
    b = ref.from_hcw((0.0, -60.0, 9.0), (0.001, 0.0, 0.0), r, v)
    return World([(53916.9999, r, v), (53916.9999, *a), (53917.0, *b)], perturb)


def run_history(case, ctx):
    scene, perturb, seq = case
    w = build(scene, perturb)
    for k, op in enumerate(seq):
        what = f"after {' '.join(seq[: k + 1])} ({scene})"
        if ":" in op:
            i, o = op.split(":")
            w.apply(int(i), o, what)
        else:
            w.apply(0, op, what)
        ctx.step()
        ctx.state(scene, *key(w))
    ctx.outcome(*[alpha.t3(c.body_z) for c in w.craft])


CORE = ["lvlh", "sun", "@1", "@2", "step", "+30"]
FULL = CORE + ["+400", "-200", "imp", "imp2", "fin", "acq1", "1:step", "2:-200", "slow"]
RARE = ["tiny", "none", "instant", "step", "@1", "@2", "sun", "lvlh", "+30"]
MUTUAL = ["0:@1", "1:@0", "0:@2", "2:@1", "1:sun", "0:lvlh", "0:step", "1:+400", "2:-200", "2:@0"]


def seqs(scene, perturb, ops, d):
    return [[scene, perturb, list(s)] for s in itertools.product(ops, repeat=d)]


def history_cases(tier):
    out = seqs("geo", False, FULL, 4) + seqs("leo", False, FULL, 2) + seqs("leo", True, FULL, 2)
    out += seqs("geo", False, CORE, 5) + seqs("leo", False, CORE, 4)
    out += seqs("leo", False, RARE, 4) + seqs("geo", True, RARE, 2)
    out += [["geo", False, ["fast", a, b, c, d]] for a, b, c, d in itertools.product(CORE, repeat=4)]
    out += [["geo", True, ["sun"] + ["+30"] * 14], ["geo", False, ["@2"] + ["+30"] * 14 + ["@1"] + ["+30"] * 14], ["leo", False, (["@1"] + ["+30"] * 4 + ["@2"] + ["+30"] * 13 + ["lvlh"]) * 2]]
    out += seqs("twin", False, CORE + ["1:imp", "2:imp", "acq2"], 4)
    out += [["geo", False, [a, s, b, t]] for a in CORE[:4] for b in CORE for s in STOPS for t in STOPS]
    out += [["geo", False, [a, s, t, b]] for a in CORE[:4] for b in CORE for s in STOPS for t in STOPS]
    # the slew rate is changed between slews to the same directions
    out += [["geo", False, [a, s, b, t, a, c]] for a in CORE[:4] for b in CORE[:4] for c in CORE for s in ("slow", "fast", "instant") for t in ("slow", "fast") if s != t]
    # longer than a day, also back, with a slew under way or not
    out += [["geo", False, [a, *m, b, c]] for a in CORE[:4] for m in ([], ["step"]) for b in ("+2d", "-2d") for c in ("+30", "@1", "sun")]
    if tier == "thorough":
        out += seqs("leo", False, FULL, 4) + seqs("leo", True, FULL, 3) + seqs("geo", False, CORE, 7)
    return out


def mutual_cases(tier):
    out = seqs("formation", False, MUTUAL, 3) + seqs("formation", True, MUTUAL[:8], 2)
    out += seqs("formation", False, MUTUAL[:4] + ["0:step", "1:+400"], 4)
    if tier == "thorough":
        out += seqs("formation", False, MUTUAL, 5) + seqs("formation", True, MUTUAL, 3)
    return out


def run_everywhere(case, ctx):
    """each mode at every orbit and epoch, and every change of mode"""
    name, mjd, dma = case
    r, v = alpha.orbit(name, dma)
    other = alpha.orbit("xgeo" if name != "xgeo" else "geo", 3 * dma)
    w = World([(mjd, r, v), (mjd + 0.001, *other), (mjd, *alpha.orbit("polar", 100.0 - dma))], False)
    for k, op in enumerate(["lvlh", "sun", "sun", "@1", "@2", "@2", "sun", "lvlh", "@2", "@1", "lvlh"]):
        w.apply(0, op, f"at command {k} on {name} {dma} at {mjd}")
        ctx.step()
        ctx.state(*case, k)
    ctx.outcome(alpha.t3(w.craft[0].body_x))


def everywhere_cases(tier):
    return [[n, e, d] for n in sorted(alpha.ORBITS) for e in alpha.epochs(tier) for d in (0.0, 55.0, 110.0, 165.0, 220.0, 275.0, 330.0)] + [[n, 60000.25 + 9.13 * k, d] for n in ("geo", "sso") for k in range(40 if tier == "quick" else 200) for d in (20.0, 190.0)]


GROUPS = [
    Group("history", history_cases, run_history, doc="all sequences of 15 operations (3 modes, 2 targets, steps forward and back, burns, targets stepping by themselves) of length 4, of 6 core operations of length 5 (7), on 2 scenes, with and without perturbations; all of 9 of length 4 with two targets at the same place; steps to 1e-8 and 3e-7 d before and after the end of a slew; steps of 2 days, forward and back"),
    Group("mutual", mutual_cases, run_history, doc="all sequences of 10 commands and steps of three spacecraft tracking each other, of length 3 (5)"),
    Group("everywhere", everywhere_cases, run_everywhere, doc="11 commands at 9 orbits x 17 (37) epochs x 7 anomalies, and at 2 orbits every 9 days for one (five) years"),
]
ASSUMPTIONS = ["the slewing flag is not compared when the end of the slew is within 1e-9 day of the epoch, except for instantaneous slews (zero slew scalar), which end when the epoch passes that of the command"]
