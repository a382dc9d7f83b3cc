"""writes DESIGN.md from mkprops.P, the per-property notes below and known_findings.json (run by hand; output committed)"""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path[:0] = ["/repo/src", os.path.join(os.path.dirname(os.path.abspath(__file__)), "mc")]

import mkprops  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))

INTRO = """# Design

openspace is a sequential, dependency-free Python library: time, frames, orbital elements, force model, propagators,
maneuvers, relative motion, Kalman filter, attitude, optical detection, initial orbit determination. Its guarantees
are functions of *inputs* and of *histories of operations on mutable objects*. There is no concurrency protocol and
no persistent state, so the executions to explore are (a) all operation sequences up to a depth over an alphabet of
operations, (b) all elements of a bounded grid of inputs and configurations, (c) all answers of the environment (the
only one: the random number generator), and (d) all places where one operation can be interrupted by another (C22).

## Machinery

* `mc/engine.py` - explicit explorer. A check is a list of groups; a group enumerates all of its cases (an input of
  the alphabet, or an operation history) and executes every one of them on the code in `/repo/src` itself, comparing
  every step with a reference model. Cases are partitioned over 8 processes in a fixed way; nothing is sampled, and
  `VERIF_SEED` changes nothing. A case has a horizon of 30 s, which decides termination. Violating cases are written
  to `evidence/replay/CNN.json`; `python3 mc/run.py CNN --replay FILE` executes them alone, twice.
* `mc/ref.py`, `mc/traj.py` - the reference model: calendar (datetime), sidereal time (rationals), frames (elementary
  rotations), ephemerides (coefficient tables), geopotential (Cunningham recursion), third bodies (Battin), Kepler
  (bisection), Hill (matrix exponential), Kalman filter (lists), integrator. Written from the literature, with other
  algorithms than the code, and never importing openspace. Models are bound to the code by construction: every model
  trace is replayed on the implementation and compared after every transition (`traces_validated_against_impl`).
* `mc/envrandom.py` - replaces `random.gauss` and `random.uniform` before openspace is imported; a case scripts the
  draws, so that all combinations of draws from an alphabet are enumerated.
* `mc/catalog.py` - a world of objects, the catalog of all public operations on it, and snapshots of public state.
* `mc/run.py CNN [--tier quick|thorough]`, `mc/setup.py` (nothing to build: checks that the sources import).

Only public behaviour is judged: no source text is inspected, private names are ignored, results are compared with
tolerances derived from the conditioning of the computation (1e-9 relative and wider), so that reordering a sum or
extracting a helper is not seen. Propagation accepts any fourth-order Runge-Kutta solution with the usual partitions
of the interval, or a more accurate one.

No hooks in /repo are needed. Why the tests cannot do this: the 61 tests compare one numeric example per function; the
spacecraft, relative propagator, filter, detection and noise have none. The exploration reaches all quadrants, poles,
singular and degenerate inputs, both signs of time, and every order of operations to the stated depth.

What the technique does not decide: real-valued inputs between the points of the grids, and histories longer than the
depth (long cyclic histories are executed in addition). Bilinear operations (C19) and rotations at an epoch (C03) are
decided on bases, hence for all vectors; C01 covers all dates of years 1-9999.
"""

METHOD = {
    "C01": ("all 3,652,059 dates; every minute of the day; all sequences of additions with all epochs re-read after each", "datetime.date, rationals", "5 s / 24 s"),
    "C02": ("every day 1858-2150 (thorough 1804-2406) at offsets around both midnights; consecutive epochs; all pairs and triples of queries", "Curtis' formula in rationals", "11 s / 25 s"),
    "C03": ("1233 (12033) epochs x basis vectors x 14 routes; histories of conversions at nearby epochs", "products of elementary rotations", "8 s / 50 s"),
    "C04": ("latitude x longitude x altitude grid incl. poles, equator, axes", "ellipsoid normal", "6 s / 34 s"),
    "C05": ("sites x azimuths x elevations x ranges x epochs, both constructions", "independent axes and angles", "13 s / 32 s"),
    "C06": ("sizes x eccentricities x inclinations x nodes x perigees x anomalies, and all integer direction pairs", "perifocal rotation", "11 s / 80 s"),
    "C07": ("eccentricity x mean anomaly grid; horizon decides termination", "bisection", "9 s / 334 s"),
    "C08": ("ellipses x anomalies through all formulas; all pairs of radii", "geometry of the ellipse", "1 s / 7 s"),
    "C09": ("directions x radii x epochs x all settings, all pairs of settings, sequences of states", "Cunningham recursion, Battin form", "7 s / 36 s"),
    "C10": ("1900-2149 every 3 (0.5) days and finer spans; histories of queries", "coefficient tables", "10 s / 76 s"),
    "C11": ("all sequences of 12 operations to depth 3 (4), all interleavings of two programs, single legs, splittings, convergence order", "independent RK4 of the reference force model, refined 8 times when in doubt", "16 s / 40 s"),
    "C12": ("all sequences of 13 operations to depth 3 (4), two spacecraft, long histories, all burn directions", "rocket equation and reference integrator with the thrust of the mass left", "8 s / 50 s"),
    "C13": ("origins x offsets x velocities, all pairs of orbits, numerical rates, histories", "curvilinear coordinates", "1 s / 6 s"),
    "C14": ("transition matrix on sma x time; all sequences of 10 operations to depth 4 (5), interleaved propagators", "matrix exponential", "6 s / 52 s"),
    "C15": ("all observation sequences over 54 letters (gap x offset x error) to depth 2-4, tuned filters, interleaved filters, spacecraft acquiring and observing", "Kalman recursion on lists", "8 s / 104 s"),
    "C16": ("all command sequences of 14 operations to depth 4 (5), three spacecraft tracking each other, all orbits and epochs", "reference state machine with reference axes", "12 s / 127 s"),
    "C17": ("all 2^5 combinations of met and violated limits at every geometry, phase angles, cameras, sequences of limit changes", "angles and magnitude recomputed", "17 s / 49 s"),
    "C18": ("orbits x separations 0.5-170 degrees x orientations x anomalies; ground, space and mixed observations", "the generating orbit", "8 s / 31 s"),
    "C19": ("all pairs of basis elements, dense integers, all small-integer 3x3 matrices, axes x angles", "definitions, exact", "5 s / 159 s"),
    "C20": ("every public operation in three worlds; every ordered pair (triples of a core); every command sequence of depth 2 (3); every object scrambled after every operation", "snapshots of public state and results of fresh worlds in fresh processes", "27 s / 99 s"),
    "C21": ("directions x sigmas x all combinations of scripted draws; all operation sequences to depth 4 (5) before an observation", "vector geometry of the drawn values", "7 s / 39 s"),
    "C22": ("every interruption point (executed line) of every operation x every interrupting operation; all schedules with two preemptions of pairs of core operations in two threads", "results of the operations alone", "69 s / 615 s"),
}



FALSE = """## False alarms corrected in the machinery

* C04: latitude tolerance 3e-8 rad near the equator (the closed formula takes a square root of a cancelled difference).
* C11: velocity tolerance of day-long legs did not grow with the position tolerance.
* C15: tolerances scale with the condition of the innovation covariance.
* C16: chained targets may differ by an ulp of the epoch per link; a fully synchronous epoch is not required to the bit.
* C20: a tracked target stays linked to its tracker on purpose, a filter to its propagator; accessors that are
  documented to hand out parts (`vector_list`, `epoch()` of an observation) are exempt.
"""


def main():
    out = [INTRO, "## Properties\n"]
    for p in mkprops.P:
        m = METHOD[p["id"]]
        out.append(
            f"### {p['id']} {p['title']}\n\nEnumerated on the real code: {m[0]}. Oracle: {m[1]}. Note: {p['note']}. "
            f"Out of reach of the tests: {p['why_tests_cant']}. Cost quick / thorough: {m[2]}.\n"
        )
        out.append("Groups and bounds (thorough in brackets): " + "; ".join(f"`{g.name}`: {g.doc}" for g in importlib.import_module("checks." + p["id"].lower()).GROUPS) + ".\n")
    k = json.load(open(os.path.join(HERE, "known_findings.json")))
    out.append("No property is out of reach of the technique (`not_applicable` is empty).\n")
    out.append("## Genuine defects found\n\nKnown finding, not repaired:\n")
    out += [f"* {x['property']}: {x['what']}" for x in k["known"]]
    out.append("\nRepaired, one `fix:` commit each (a fixed entry suppresses nothing):\n")
    out += [f"* {x[7:]}" for x in k["fixed"]]
    out.append("\n" + FALSE)
    out.append(open(os.path.join(HERE, "SEEDED.md")).read() if os.path.exists(os.path.join(HERE, "SEEDED.md")) else "")
    with open(os.path.join(HERE, "DESIGN.md"), "w") as fh:
        fh.write("\n".join(out))


main()
