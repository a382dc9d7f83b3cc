"""writes properties.jsonl and MANIFEST.json (run by hand after editing; both outputs are committed)"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
S = "src/openspace/"
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, note, observe=None):
    P.append(
        dict(
            id=pid,
            title=title,
            statement=statement,
            quantifier={"over": over, "text": qtext},
            why_tests_cant=why,
            anchors={
                "files": [S + f for f in files],
                "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                "observe_at": observe or [],
                "hook_needed": None,
            },
            note=note,
        )
    )


prop(
    "C01",
    "Calendar dates map to the right day count and epoch arithmetic is exact",
    "For every valid Gregorian date of years 1 to 9999 and every time of day, building an epoch gives the modified julian date of the proleptic Gregorian calendar, and its julian date and julian centuries past J2000 follow from that value. Adding days gives an epoch that many days away (also negative and fractional) and neither adding nor copying ever changes, or stays tied to, the epoch it started from.",
    ["inputs", "histories"],
    "all dates of years 1-9999, times of day, sequences of additions and reads of several epochs",
    "tests/test_time.py converts two dates; leap rules, month lengths and century boundaries are not reached",
    ["time.py", "math/functions.py", "math/constants.py"],
    [("Epoch.from_gregorian / julian_value / plus_days", "time.py"), ("Conversions.hms_to_decimal_day", "math/functions.py")],
    "exhaustive over all 3.65 million dates; times of day on a per-minute grid; trusts datetime.date",
)
prop(
    "C02",
    "Greenwich hour angle advances uniformly with time",
    "At every epoch the Greenwich hour angle lies in [0, 2 pi] and equals Greenwich mean sidereal time (Curtis 2.6-2.8) of the universal time that trails the epoch by 69.184 s, to 2e-8 rad. It advances by 360.9856 degrees per day without a jump at midnight, at the J2000 epoch or at any other instant, and does not depend on what was computed before.",
    ["inputs", "histories"],
    "epochs from 1858 to 2150 including midnights and offset midnights, and sequences of queries",
    "one hour angle is compared in the tests, on one date",
    ["time.py"],
    [("Epoch.greenwich_hour_angle", "time.py")],
    "exact rational reference at every enumerated epoch; uniformity checked on a grid finer than a minute around midnights",
)
prop(
    "C03",
    "Reference frame conversions are mutually inverse rotations",
    "At every epoch, converting a position from the celestial (GCRF) to the earth fixed (ITRF) frame and back returns it, lengths and angles are preserved, and the routes through the mean-of-date and true-of-date frames agree with the direct conversions, all to 2e-8 relative. The rotations are IAU-1976 precession, two-term nutation and apparent sidereal rotation of the epoch, and the earth fixed to IJK conversion is the rotation by the Greenwich hour angle.",
    ["inputs"],
    "all enumerated epochs and positions in all octants and on the axes",
    "tests convert single vectors at single epochs; most conversions are only reached through one observation example",
    ["coordinates/positions.py", "bodies/celestial.py"],
    [("PositionConvert.gcrf / itrf", "coordinates/positions.py"), ("Earth.precession / nutation / rotation", "bodies/celestial.py")],
    "independent products of elementary rotations at every enumerated epoch and vector (linear maps: the basis vectors decide the map at an epoch)",
)
prop(
    "C04",
    "Geodetic and spherical coordinates round-trip everywhere on and above the Earth",
    "For every latitude including both poles and the equator, every longitude and every altitude from -10 km to 400,000 km, converting geodetic coordinates to an earth fixed position and back returns the same latitude, longitude in [0, 2 pi] and altitude (to 3e-8 rad and 1e-6 km), and the position is on the WGS-84 ellipsoid normal. Spherical positions (radius, right ascension in [0, 2 pi], declination) round-trip likewise, and a ground site has the same location, latitude, longitude and local axes whether built from geodetic coordinates or from its position.",
    ["inputs"],
    "product of latitudes, longitudes and altitudes incl. poles, equator, date line and axes",
    "the tests use one northern site at sea level",
    ["coordinates/positions.py", "bodies/terrestrial.py"],
    [("PositionConvert.itrf.to_lla, lla.to_itrf, enz.to_itrf", "coordinates/positions.py"), ("SphericalPosition", "coordinates/positions.py"), ("GroundSite", "bodies/terrestrial.py")],
    "ellipsoid reference on a dense latitude/longitude/altitude grid",
)
prop(
    "C05",
    "Ground and space observations describe the observed position",
    "For every site, epoch and object position, azimuth (clockwise from north, in [0, 2 pi]), elevation and range of a ground observation are those of the object in the site's east-north-zenith axes, and an observation built from these angles gives back the object's direction and its GCRF and IJK positions; so does an observation taken of a spacecraft. A space observation's range, right ascension and declination are those of the observed direction and its IJK position is that of observer plus direction.",
    ["inputs"],
    "sites in both hemispheres and at poles, objects in every direction, several epochs",
    "three examples of observations in one quadrant",
    ["estimation/obs.py", "bodies/terrestrial.py", "coordinates/positions.py"],
    [("GroundObservation / SpaceObservation", "estimation/obs.py"), ("GroundSite.angles_and_range / enz_position", "bodies/terrestrial.py")],
    "independent reference of axes, angles and frames for every (site, direction, epoch)",
)
prop(
    "C06",
    "Classical elements and Cartesian states are inverse conversions",
    "For every elliptic orbit (eccentricity 0 to 0.99, any size), including circular, exactly equatorial and retrograde ones, converting a state to classical elements and back reproduces position, velocity and epoch, and converting elements to a state and back reproduces the elements wherever they are defined. The elements of a state are those of its angular momentum, eccentricity vector and energy, with inclination in [0, pi] and raan, argument of perigee and mean anomaly in [0, 2 pi].",
    ["inputs"],
    "product of sizes, eccentricities, inclinations, nodes, perigees and anomalies",
    "one state is converted one way in the tests",
    ["coordinates/elements.py", "math/functions.py"],
    [("ClassicalElements.from_ijk / to_ijk / perigee_vector / semilatus_rectum_vector", "coordinates/elements.py"), ("EquationsOfMotion", "math/functions.py")],
    "reference states by elementary rotations; tolerance scales with the conditioning of e and i",
)
prop(
    "C07",
    "Kepler's equation is always solved and anomalies are mutually inverse",
    "For every eccentricity from 0 to 0.999 and every mean anomaly, also negative or many (up to 100,000) revolutions away, the eccentric anomaly is found (within 400 iterations) and satisfies Kepler's equation to 1e-9 rad. Mean, eccentric and true anomaly conversions are mutually consistent modulo full turns, agree in half-plane, and true anomaly lies in [0, 2 pi].",
    ["inputs"],
    "eccentricities 0 to 0.999, mean anomalies from -6 pi to 6 pi",
    "the tests solve the equation for one pair of values",
    ["math/functions.py", "coordinates/elements.py"],
    [("EquationsOfMotion.EA / NU / MA", "math/functions.py")],
    "dense grid of (e, M) against bisection; a per-case horizon decides termination",
)
prop(
    "C08",
    "Every route to an orbit quantity gives the same value",
    "For every ellipse, the semi-major and semi-minor axes, semi-parameter, eccentricity, flattening, period, mean motion, energy, speed, radius and angular momentum obtained by any of the offered formulas agree with each other and with the geometry of the orbit. Transfer planning obeys vis-viva: a Hohmann transfer between any two radii (raising, lowering or equal) has the two velocity changes that turn one circular orbit into the other.",
    ["inputs"],
    "product of sizes, eccentricities, anomalies and gravitational parameters, and all pairs of radii",
    "each formula is tested at one numeric example, where an error can cancel",
    ["math/functions.py", "planning/maneuvers.py", "bodies/celestial.py"],
    [("EquationsOfMotion", "math/functions.py"), ("VisViva, Hohmann", "planning/maneuvers.py"), ("Earth.geo_radius", "bodies/celestial.py")],
    "reference ellipse for every enumerated shape",
)
prop(
    "C09",
    "The force model sums the right accelerations for every state",
    "For every state above the surface and every epoch, the acceleration equals thrust plus central gravity, and with perturbations enabled also the Earth's degree 2-4 geopotential in the earth fixed frame of the epoch, the third-body terms of Sun and Moon, and solar radiation pressure directed away from the Sun with 4.56e-6 N/m2 times the state's coefficient; with perturbations disabled nothing else is added. Each contribution matches its physical definition to 1e-7 relative, depends only on the state and its settings, and evaluating it changes nothing.",
    ["inputs", "configurations"],
    "positions in all octants from 100 km altitude to beyond the Moon, epochs, coefficients, thrusts and the perturbation switch",
    "accelerations are tested at one state and one epoch",
    ["coordinates/states.py", "math/functions.py", "bodies/celestial.py"],
    [("GCRF.acceleration_from_*, GCRF.derivative", "coordinates/states.py"), ("LegendrePolynomial", "math/functions.py"), ("Earth.C / Earth.S", "bodies/celestial.py")],
    "independent geopotential (Cunningham recursion) and Battin third-body form for every (position, epoch, setting)",
)
prop(
    "C10",
    "Sun and Moon positions follow their ephemerides at every epoch",
    "At every epoch the Sun and Moon positions equal the Montenbruck low-precision series (to 1e-9 relative), so the Sun stays within 0.98-1.02 AU in the ecliptic and completes one revolution a year, and the Moon stays between 354,000 and 409,000 km, within 5.4 degrees of the ecliptic, and moves continuously. A position depends on the epoch alone, not on earlier queries, and vectors from a state or spacecraft to Sun and Moon are these positions minus its own.",
    ["inputs", "histories"],
    "epochs from 1900 to 2150 at steps shorter than every period in the series, and sequences of queries",
    "one epoch per body is compared",
    ["bodies/celestial.py", "coordinates/states.py", "bodies/artificial.py"],
    [("Sun.get_position / Moon.get_position", "bodies/celestial.py"), ("sun_vector / moon_vector", "coordinates/states.py"), ("Earth.obliquity_of_ecliptic_at_epoch", "bodies/celestial.py")],
    "coefficient-table reference at several thousand epochs",
)
prop(
    "C11",
    "Propagation reaches the requested epoch accurately, whatever the path",
    "Propagating a state forward or backward to any epoch (also zero, very short and exact multiples of the step) ends at that epoch, in substeps of at most 300 s, within the truncation error of fourth-order Runge-Kutta of the true trajectory under the force model in effect. Splitting the interval, reversing it or interleaving other propagators gives the same trajectory to that accuracy, and the step size, perturbation switch and radiation pressure coefficient in effect before are in effect throughout and afterwards.",
    ["inputs", "histories", "configurations"],
    "orbits, epochs, durations of both signs, all sequences of propagation requests to bounded depth, all force settings",
    "one propagation of one state is tested",
    ["propagators/inertial.py", "coordinates/states.py", "bodies/artificial.py"],
    [("RK4.step / step_to_epoch", "propagators/inertial.py"), ("Spacecraft.step / step_to_epoch", "bodies/artificial.py")],
    "every operation sequence over the step alphabet compared with an independent integrator run with much finer steps",
)
prop(
    "C12",
    "Maneuvers deliver the requested velocity change and consume its propellant",
    "An impulsive maneuver adds exactly the requested radial/in-track/cross-track velocity to the spacecraft, leaving position, epoch, masses and propagation settings as they were. A finite maneuver thrusts along the requested direction fixed at ignition, lasts and consumes propellant according to the rocket equation for the vehicle's mass at that time, ends with thrust off, and its thrust alone delivers the requested velocity change; all of this for every order and number of maneuvers and steps.",
    ["inputs", "histories"],
    "burn vectors in all octants, thruster settings, all sequences of burns and steps to bounded depth",
    "no test covers maneuvers of a spacecraft",
    ["bodies/artificial.py", "propagators/inertial.py", "coordinates/states.py"],
    [("Spacecraft.impulsive_maneuver / finite_maneuver", "bodies/artificial.py"), ("RK4.maneuver / thrust_vector", "propagators/inertial.py")],
    "reference spacecraft (rocket equation plus independent integrator) stepped along every sequence",
)
prop(
    "C13",
    "Relative (Hill) coordinates convert both ways and keep their axes",
    "For every pair of states, converting one to curvilinear relative coordinates about the other and back returns it in position and velocity, with the origin's epoch; the origin itself maps to zero. Radial is along the origin's position, cross-track along its angular momentum and in-track completes the right-handed set, and relative velocity is the time derivative of relative position about a circular origin.",
    ["inputs"],
    "origin orbits x relative offsets in all directions and from metres to thousands of kilometres",
    "one pair is converted in the tests",
    ["coordinates/states.py", "bodies/artificial.py"],
    [("StateConvert.gcrf.to_hcw / hcw.to_gcrf, HCW.frame_matrix", "coordinates/states.py"), ("Spacecraft.hill_position", "bodies/artificial.py")],
    "independent curvilinear reference for every (origin, offset)",
)
prop(
    "C14",
    "Relative propagation solves the Hill equations for any step sequence",
    "The relative transition over t seconds, for any sign of t and any reference semi-major axis, is that of the Clohessy-Wiltshire equations: identity for zero, composing over successive steps, inverted by negative time. A relative propagator's state after any sequence of steps is the transition over the total elapsed time applied to the initial state, its epoch advances by the same time, and the state it was built from is not changed.",
    ["inputs", "histories"],
    "semi-major axes, times of both signs and all step sequences to bounded depth",
    "the relative propagator has no test",
    ["propagators/relative.py"],
    [("Hill.system_matrix / step_by_seconds / step", "propagators/relative.py")],
    "matrix exponential of the differential equations for every (sma, t), every step sequence",
)
prop(
    "C15",
    "The relative filter is the standard Kalman filter for any observation history",
    "After any history of observations with any spacing, the filter's state and covariance equal those of the standard Kalman recursion: Hill prediction to the observation's epoch plus process noise, gain, then Joseph-form update with the observation's relative position and error, the measurement noise being diagonal in the relative axes with the squares of the relative-frame components of the one-sigma offset of the observation in range and both angles. Acquiring a target seeds the filter with the target's relative state at the spacecraft's own epoch and the spacecraft's own semi-major axis. The covariance stays symmetric and positive semi-definite, the filter's epoch and its propagator follow the last observation; looking ahead with a propagator between observations changes nothing later; and filters do not influence each other or the shared default matrices.",
    ["histories", "inputs"],
    "all observation sequences over an alphabet of time gaps, offsets and error levels to bounded depth, and interleaved filters",
    "filtering has no test",
    ["estimation/filtering.py", "propagators/relative.py", "bodies/artificial.py", "math/linalg.py"],
    [("RelativeKalman.process / predict / update", "estimation/filtering.py"), ("Spacecraft.acquire / process_wfov / process_nfov", "bodies/artificial.py")],
    "list-based reference filter replayed along every history",
)
prop(
    "C16",
    "Attitude always follows the commanded steering mode",
    "After every sequence of commands, steps and maneuvers, a spacecraft's boresight points at the Earth in lvlh mode, away from the Sun in solar mode and at its current target in target mode, with mutually perpendicular body axes: in lvlh mode z is along -r, y along r x v and x = y x z; in solar mode z is away from the Sun, x along z x (0,0,1) and y = z x x; in target mode z is along the target, y along z x sun and x = y x z. Commanding a target switches to it and brings the target to the spacecraft's epoch. A command that changes mode or target starts a slew lasting the angle between old and new boresight at the spacecraft's slew rate (0.5 deg/s unless changed), repeating the current command does not restart it, and the slewing flag clears exactly when the epoch passes its end.",
    ["histories"],
    "all command sequences over modes, two targets, steps of several lengths and maneuvers, to bounded depth",
    "steering has no test",
    ["bodies/artificial.py"],
    [("Spacecraft.track_lvlh / track_sun / track_state / update_attitude", "bodies/artificial.py")],
    "explicit-state exploration of command sequences against a reference state machine",
)
prop(
    "C17",
    "A target is detected exactly when every optical constraint is met",
    "A spacecraft detects a target if and only if the target is at least the Sun, Earth and Moon exclusion angles away from those bodies, no fainter than the limiting magnitude and within the boresight limit, whichever constraints are active. The angles, range and visual magnitude are those of the geometry and of the observed object's size and albedo, and camera resolution, range error, tracking and characterization ranges follow from its own field of view and pixel count.",
    ["inputs", "configurations"],
    "all 2^5 combinations of violated limits for observer/target geometries in all directions, cameras and targets of different size",
    "detection has no test",
    ["bodies/artificial.py", "hardware/payloads.py", "hardware/constraints.py"],
    [("Spacecraft.detect / visual_magnitude / *_angle", "bodies/artificial.py"), ("Camera, OpticalConstraints", "hardware/payloads.py")],
    "all limit combinations at every geometry against recomputed angles and magnitude",
)
prop(
    "C18",
    "Gauss orbit determination recovers the orbit from two observations",
    "For every two-body elliptic orbit of any inclination (including equatorial and retrograde), and two observations of it in time order and less than half a revolution apart, the elements returned reproduce the first observed position and, propagated, the second. It terminates, and gives the same answer from ground and from space observations.",
    ["inputs"],
    "orbits x separations of true anomaly up to 170 degrees x observation types",
    "two numeric examples are tested",
    ["estimation/iod.py", "estimation/obs.py"],
    [("Gauss.coes_from_positions / solve_nu / w_of_omega", "estimation/iod.py")],
    "exact two-body observations on an orbit grid, oracle is the generating orbit",
)
prop(
    "C19",
    "Vector and matrix operations obey linear algebra exactly",
    "For all arguments, sums, differences, scalings, dot and cross products, transposes, columns, diagonals and products of 3- and 6-dimensional vectors and all offered matrix shapes equal their definitions in every element. Determinant, adjugate and inverse satisfy A * inverse(A) = I, angles between vectors are in [0, pi] and defined also for parallel and opposite vectors, and rotations are proper rotations by the right-hand rule that compose by adding angles.",
    ["inputs"],
    "all pairs of basis elements (which decide bilinear operations), small-integer matrices, axes and angles",
    "one numeric example per operation, and several products have none",
    ["math/linalg.py"],
    [("Vector3D, Vector6D, Matrix3D, Matrix3by6, Matrix6by3, Matrix6D", "math/linalg.py")],
    "bilinear operations decided exactly on all pairs of basis elements plus dense integer operands",
)
prop(
    "C20",
    "Operations do not change or stay tied to their arguments or shared state",
    "No conversion, observation, query or propagation changes the objects passed to it or any shared constant, and objects built from others (copies, states, spacecraft, propagators, observations, matrices, and the estimate and epoch of a filter) equal the originals (a state with its thrust and perturbation switch) and stay unchanged when these are changed or used later, and vice versa; only the deliberate link of a spacecraft to the target it tracks, and of a filter to its propagator, remains. The result of any operation depends only on its arguments: it is the same whatever other operations, on whatever objects, ran before it.",
    ["histories"],
    "all ordered pairs (and triples of a core) of a catalog of public operations, and mutation of every input after every construction",
    "tests run one operation on fresh objects",
    ["coordinates/states.py", "math/linalg.py", "bodies/artificial.py", "bodies/celestial.py", "estimation/filtering.py", "propagators/inertial.py"],
    [("copy-on-construction", "coordinates/states.py"), ("class-level constants", "bodies/celestial.py")],
    "snapshots of public attributes around every operation of the catalog in every pairwise order",
)
prop(
    "C21",
    "Simulated observations carry exactly the stated noise",
    "A noisy vector differs from the truth by the drawn gaussian multiple of the stated range sigma in length and by the absolute drawn multiple of the stated angular sigma in direction, at a uniformly drawn clock angle, for every direction including the axes. Wide and narrow field observations of a target use the truth from the observer's current position, the observing camera's own range error for the target's diameter and the spacecraft's pointing accuracy, and report those as their errors.",
    ["inputs", "histories"],
    "directions, all combinations of drawn random values from a small alphabet, cameras, targets",
    "noise is random and untested",
    ["math/linalg.py", "bodies/artificial.py", "estimation/obs.py"],
    [("Vector3D.with_noise / with_angular_noise / with_magnitude_noise", "math/linalg.py"), ("Spacecraft.observe_wfov / observe_nfov / process_*", "bodies/artificial.py")],
    "random draws are replaced by a scripted environment whose answers are enumerated",
)
prop(
    "C22",
    "Operations may be interleaved or interrupted at any point",
    "Operations on separate objects do not disturb each other when one runs in the middle of another (from threads, callbacks or signal handlers), wherever the switch happens: each has exactly the result and effect it has alone, and read-only queries may even share the same objects. An operation that is broken off by an exception at any point leaves shared constants, the objects it only reads and every later operation on other objects unaffected. The random number generator, and the link of a spacecraft to its tracked target, are shared on purpose.",
    ["schedules", "crash_points"],
    "every source line of every operation as a switching or interruption point, two threads with up to two preemptions",
    "tests run operations one after the other; a scratch variable shared between objects is invisible to them",
    ["propagators/inertial.py", "coordinates/states.py", "math/functions.py", "math/linalg.py", "estimation/filtering.py", "bodies/artificial.py", "bodies/celestial.py"],
    [("no scratch state outside of the objects", "coordinates/states.py"), ("RK4.step stages", "propagators/inertial.py")],
    "controlled scheduler over source lines; switches inside of a line are not explored",
)


def main():
    built = [p for p in P if os.path.exists(os.path.join(HERE, "mc", "checks", p["id"].lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            q = {k: v for k, v in p.items() if k != "note"}
            fh.write(json.dumps(q) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 mc/setup.py",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"python3 mc/run.py {p['id']}",
                "thorough_cmd": f"python3 mc/run.py {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": "bounded exhaustive model checking of the real code: every case/operation sequence of the alphabet is executed and compared step by step with a reference model",
                "level": "model_checking",
                "level_note": p["note"] + ". Complete within the stated alphabet and depth (see evidence bounds); values outside of the alphabet are not decided.",
            }
            for p in built
        ],
        "not_applicable": [
            {"property": p["id"], "reason": "check not built yet"} for p in P if p not in built
        ],
        "notes": "No hooks: the checks import /repo/src directly (pure Python, nothing to build). The tier is --tier, else VERIF_TIER, else quick. Replay of a violation: python3 mc/run.py CNN --replay FILE.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
