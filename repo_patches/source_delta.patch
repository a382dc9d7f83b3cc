From 5092788b5ee9b4eb2adbefb25e0323c6cb398ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:56 +0000
Subject: [PATCH 01/22] fix: rotate finite maneuvers from RIC to GCRF with the
 transposed frame matrix

HCW.frame_matrix has the RIC axes as rows, so multiplying by it maps GCRF
components to RIC. The burn was applied along the wrong inertial direction
whenever the RIC axes were not aligned with the GCRF axes.
---
 src/openspace/bodies/artificial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index ab06592..6d01842 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -147,7 +147,7 @@ class Spacecraft:
         :param dt: duration of the maneuver in days
         :type dt: float
         """
-        gcrf_thrust: Vector3D = HCW.frame_matrix(self.current_state()).multiply_vector(ric_dv)
+        gcrf_thrust: Vector3D = HCW.frame_matrix(self.current_state()).transpose().multiply_vector(ric_dv)
         self.propagator.maneuver(
             gcrf_thrust,
             self.m_dot,
-- 
2.43.0


From 89bdf979833af52eb221249c69abb8783d5f7539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:57 +0000
Subject: [PATCH 02/22] fix: finite maneuvers consume propellant instead of
 producing it

The burn duration was computed with the wrong sign, so every finite maneuver
increased the propellant mass.
---
 src/openspace/bodies/artificial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 6d01842..51823fc 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -155,7 +155,7 @@ class Spacecraft:
             self.isp,
         )
         m_spec: float = self.m_dot / self.total_mass()
-        dt: float = (-1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
+        dt: float = (1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
         self.propellant_mass -= self.m_dot * dt
 
     def sma(self) -> float:
-- 
2.43.0


From 666d587d328fdec6f0f7dd5f4a38ba82beb72901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:59 +0000
Subject: [PATCH 03/22] fix: deplete the vehicle mass between the steps of a
 finite maneuver

thrust_vector measures elapsed burn time from the start of the current step,
but the mass was reset to the pre-burn value at every step, so burns longer
than one integration step delivered less than the requested delta-v.
---
 src/openspace/propagators/inertial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/openspace/propagators/inertial.py b/src/openspace/propagators/inertial.py
index 82e660a..7d76bab 100644
--- a/src/openspace/propagators/inertial.py
+++ b/src/openspace/propagators/inertial.py
@@ -73,6 +73,9 @@ class RK4:
             self.state.velocity.plus(da.scaled(h)),
         )
 
+        # Carry the propellant burned during this step into the next one
+        self.m0 -= self.m_dot * h
+
     def maneuver(self, gcrf_thrust: Vector3D, m_dot: float, m0: float, isp: float) -> None:
         """propagate the state using continuous thrust principles
 
-- 
2.43.0


From fa0406ebe05d9951c2d5270b78aae6fe25fac4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:01 +0000
Subject: [PATCH 04/22] fix: track_state switches to a new target and slews to
 its current position

A spacecraft already in target-tracking mode ignored the argument and kept
pointing at the previous target, and the slew time was computed from the
target's position at a stale epoch.
---
 src/openspace/bodies/artificial.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 51823fc..c65c1b6 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -303,11 +303,16 @@ class Spacecraft:
         :param target: spacecraft to be tracked
         :type target: Spacecraft
         """
-        # Include slew duration if not already target-pointing
-        if self.steering != Spacecraft.STEERING_MODES[2]:
+        # Include slew duration if not already pointing at this target
+        if self.steering != Spacecraft.STEERING_MODES[2] or self.tracked_target is not target:
             self.steering = Spacecraft.STEERING_MODES[2]
             self.tracked_target = target
             self.slewing = True
+
+            # Step the tracked spacecraft if epochs are not in sync
+            if target.current_epoch().value != self.current_epoch().value:
+                target.step_to_epoch(self.current_epoch())
+
             t: float = self.body_z.angle(self.target_vector(target)) * self.slew_scalar
             self.slew_stop = self.current_epoch().plus_days(t)
 
-- 
2.43.0


From e1599c78b17cd5de4c8192ebda6107bcd24aca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:03 +0000
Subject: [PATCH 05/22] fix: visual magnitude uses the size and albedo of the
 observed spacecraft

The observer's own body radius and albedo were used.
---
 src/openspace/bodies/artificial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index c65c1b6..63da1e6 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -356,7 +356,7 @@ class Spacecraft:
         :rtype: float
         """
         # Store the target's body radius
-        r: float = self.body_radius
+        r: float = target.body_radius
 
         # Calculate the range to the target
         dist: float = self.range(target)
@@ -365,7 +365,7 @@ class Spacecraft:
         phi: float = pi - self.sun_angle(target)
 
         # Calculate the flux and vismag
-        fdiff: float = (2 / 3) * self.albedo * r * r / (pi * dist * dist) * ((sin(phi) + (pi - phi) * cos(phi)))
+        fdiff: float = (2 / 3) * target.albedo * r * r / (pi * dist * dist) * ((sin(phi) + (pi - phi) * cos(phi)))
         return -26.74 - 2.5 * log10(fdiff)
 
     def sun_angle(self, target: "Spacecraft") -> float:
-- 
2.43.0


From 63a9afc427dc9707954cc57b313c8a07a3e118a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:04 +0000
Subject: [PATCH 06/22] fix: misplaced parenthesis in the lunar latitude series

Equation 3.49 adds 412" sin(2F) and 541" sin(l') to the argument; the second
term had ended up inside the first sine.
---
 src/openspace/bodies/celestial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/celestial.py b/src/openspace/bodies/celestial.py
index 7838e72..4749e71 100644
--- a/src/openspace/bodies/celestial.py
+++ b/src/openspace/bodies/celestial.py
@@ -313,7 +313,7 @@ class Moon:
 
         # Equation 3.49
         beta = (
-            a0 * sin(f + lam - l0 + a1 * sin(2.0 * f + a2 * sin(lp)))
+            a0 * sin(f + lam - l0 + a1 * sin(2.0 * f) + a2 * sin(lp))
             - a3 * sin(f - 2.0 * d)
             + a4 * sin(l + f - 2.0 * d)
             - a5 * sin(-l + f - 2.0 * d)
-- 
2.43.0


From 4cf4042827b33e3ab1fa87810e8fc90d75225a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:06 +0000
Subject: [PATCH 07/22] fix: angular noise on a vector along the z-axis

with_angular_noise raised ZeroDivisionError for vectors parallel to z.
---
 src/openspace/math/linalg.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/openspace/math/linalg.py b/src/openspace/math/linalg.py
index 4df3fe1..bd0e245 100644
--- a/src/openspace/math/linalg.py
+++ b/src/openspace/math/linalg.py
@@ -168,9 +168,11 @@ class Vector3D:
         :return: new vector offset using gaussian distribution for the angle
         :rtype: Vector3D
         """
-        return self.rotation_about_axis(self.cross(Vector3D(0, 0, 1)), gauss(0, ang_err)).rotation_about_axis(
-            self, uniform(0, 2 * pi)
-        )
+        # Any axis normal to the vector will do, the z-axis can't be used to find it when the vector lies along it
+        axis: Vector3D = self.cross(Vector3D(0, 0, 1))
+        if axis.magnitude() == 0:
+            axis = self.cross(Vector3D(1, 0, 0))
+        return self.rotation_about_axis(axis, gauss(0, ang_err)).rotation_about_axis(self, uniform(0, 2 * pi))
 
     def __str__(self) -> str:
         """overrides the string method so the elements can be viewed
-- 
2.43.0


From c2d7698acf79a213a12c54ca324bcedd99ac6276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:08 +0000
Subject: [PATCH 08/22] fix: geodetic latitude near the poles

asin of an argument that rounds to more than 1 raised a ValueError for polar
positions, and lost about half of the digits close to them. Use the equivalent
tan(lat) = (z + eps^2 d) / rho.
---
 src/openspace/coordinates/positions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/openspace/coordinates/positions.py b/src/openspace/coordinates/positions.py
index 026b5cf..0d304aa 100644
--- a/src/openspace/coordinates/positions.py
+++ b/src/openspace/coordinates/positions.py
@@ -1,4 +1,4 @@
-from math import asin, atan2, cos, pi, sin, sqrt
+from math import atan2, cos, pi, sin, sqrt
 
 from openspace.bodies.celestial import Earth
 from openspace.math.functions import sign
@@ -252,8 +252,7 @@ class _PositionConvertITRF:
 
         # Equation 2.77f
         n: float = a * sqrt(1.0 + eps2 * d * d / b2)
-        arg = (eps2 + 1.0) * (d / n)
-        lamb: float = asin(arg)
+        lamb: float = atan2(z + eps2 * d, rho)
 
         # Equation 2.77g
         h: float = rho * cos(lamb) + z * sin(lamb) - a2 / n
-- 
2.43.0


From 8be94707f5c1aaa748ab32a921f17f5e56ddc773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:09 +0000
Subject: [PATCH 09/22] fix: starting guess of Kepler's equation for mean
 anomalies beyond one revolution

The guess was on the wrong side of the mean anomaly outside of [-2pi, 2pi],
from where the iteration can diverge for very eccentric orbits.
---
 src/openspace/math/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openspace/math/functions.py b/src/openspace/math/functions.py
index c6dcfde..7cad9a2 100644
--- a/src/openspace/math/functions.py
+++ b/src/openspace/math/functions.py
@@ -705,7 +705,7 @@ class EccentricAnomaly:
 
         .. note::
 
-           :math:`E_0 = M - e` for :math:`-\pi<M<0` or :math:`M>\pi`
+           :math:`E_0 = M - e` for :math:`-\pi<M<0` or :math:`\pi<M<2\pi` (and their multiples)
            otherwise :math:`E_0 = M + e`
 
            looping continues until :math:`\vert E_{n+1} - E_n\vert < tolerance`
@@ -722,7 +722,7 @@ class EccentricAnomaly:
         num: float
         den: float
 
-        if (ma > -pi and ma < 0) or ma > pi:
+        if ma % (2 * pi) > pi:
             ea0 -= e
         else:
             ea0 += e
-- 
2.43.0


From 6cafa7e30b19f03f088eeb6f480f0e6051a23d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:11 +0000
Subject: [PATCH 10/22] fix: classical elements of circular orbits

The semi-parameter of a circular orbit can round to more than the semi-major
axis, which raised a ValueError.
---
 src/openspace/coordinates/elements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/openspace/coordinates/elements.py b/src/openspace/coordinates/elements.py
index 183a6b0..6a35281 100644
--- a/src/openspace/coordinates/elements.py
+++ b/src/openspace/coordinates/elements.py
@@ -58,7 +58,8 @@ class ClassicalElements:
         i: float = EquationsOfMotion.I.from_w(w)
         raan: float = EquationsOfMotion.RAAN.from_w(w)
         a: float = EquationsOfMotion.A.from_mu_r_v(Earth.MU, r, v)
-        p: float = EquationsOfMotion.P.from_mu_h(Earth.MU, h.magnitude())
+        # p can exceed a by a rounding error when the orbit is circular
+        p: float = min(EquationsOfMotion.P.from_mu_h(Earth.MU, h.magnitude()), a)
         e: float = EquationsOfMotion.E.from_a_p(a, p)
         n: float = EquationsOfMotion.N.from_a_mu(a, Earth.MU)
         ea: float = EquationsOfMotion.EA.from_rdv_r_a_n(rdv, r, a, n)
-- 
2.43.0


From ceb6b40f0e396572d6aedef511f887f0d06b31bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:12 +0000
Subject: [PATCH 11/22] fix: argument of latitude of equatorial orbits

For an exactly equatorial orbit both arguments of atan2 are zero, so the
position along the orbit was lost in the classical elements and in the Gauss
orbit determination.
---
 src/openspace/estimation/iod.py | 3 ++-
 src/openspace/math/functions.py | 9 ++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/openspace/estimation/iod.py b/src/openspace/estimation/iod.py
index 91dd2d0..8c9df7f 100644
--- a/src/openspace/estimation/iod.py
+++ b/src/openspace/estimation/iod.py
@@ -4,6 +4,7 @@ from openspace.bodies.celestial import Earth
 from openspace.coordinates.elements import ClassicalElements
 from openspace.estimation.obs import Observation
 from openspace.math.constants import SECONDS_IN_DAY
+from openspace.math.functions import EquationsOfMotion
 from openspace.math.linalg import Vector3D
 
 
@@ -39,7 +40,7 @@ class Gauss:
 
         # equation 2.111
         w: Vector3D = ea.cross(e0)
-        ua: float = atan2(ra.z, -ra.x * w.y + ra.y * w.x)
+        ua: float = EquationsOfMotion.U.from_r_w(ra, w)
         inc: float = atan2(sqrt(w.x * w.x + w.y * w.y), w.z)
         raan: float = atan2(w.x, -w.y)
         if inc < 0:
diff --git a/src/openspace/math/functions.py b/src/openspace/math/functions.py
index 7cad9a2..1d1563b 100644
--- a/src/openspace/math/functions.py
+++ b/src/openspace/math/functions.py
@@ -844,7 +844,14 @@ class ArgumentOfLatitude:
 
            find equation reference
         """
-        u: float = atan2(r.z, -r.x * w.y + r.y * w.x)
+        u: float
+        if w.x == 0 and w.y == 0:
+            # the node of an equatorial orbit is undefined, so measure from the direction reported as its raan
+            raan: float = RightAscensionNode.from_w(w)
+            node: Vector3D = Vector3D(cos(raan), sin(raan), 0)
+            u = atan2(r.dot(w.cross(node)), r.dot(node))
+        else:
+            u = atan2(r.z, -r.x * w.y + r.y * w.x)
         if u < 0:
             u += 2 * pi
         return u
-- 
2.43.0


From fe91fabd024676912cf9aba5d79ce98bbad052b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:14 +0000
Subject: [PATCH 12/22] fix: w function of the Gauss method for non-positive
 arguments

The secant iteration passes through negative arguments for short arcs of
eccentric orbits, which raised a ValueError.
---
 src/openspace/estimation/iod.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/openspace/estimation/iod.py b/src/openspace/estimation/iod.py
index 8c9df7f..219cc8b 100644
--- a/src/openspace/estimation/iod.py
+++ b/src/openspace/estimation/iod.py
@@ -1,4 +1,4 @@
-from math import asin, atan2, cos, pi, sin, sqrt
+from math import asin, asinh, atan2, cos, pi, sin, sinh, sqrt
 
 from openspace.bodies.celestial import Earth
 from openspace.coordinates.elements import ClassicalElements
@@ -144,6 +144,14 @@ class Gauss:
         :return: w(omega)
         :rtype: float
         """
-        g: float = 2 * asin(sqrt(w))
-        sg: float = sin(g)
-        return (2 * g - sin(2 * g)) / (sg * sg * sg)
+        g: float
+        sg: float
+        if w > 0:
+            g = 2 * asin(sqrt(w))
+            sg = sin(g)
+            return (2 * g - sin(2 * g)) / (sg * sg * sg)
+        elif w < 0:
+            g = 2 * asinh(sqrt(-w))
+            sg = sinh(g)
+            return (sinh(2 * g) - 2 * g) / (sg * sg * sg)
+        return 4 / 3
-- 
2.43.0


From 70177e3cb11cd6fa9373531fe3a9fa8c88eafbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:48 +0000
Subject: [PATCH 13/22] fix: copies of a GCRF state keep its thrust and
 use_perturbations

Disabling the perturbations of a state had no effect on a propagator built
from it, because the copy was reset to the defaults.
---
 src/openspace/coordinates/states.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/openspace/coordinates/states.py b/src/openspace/coordinates/states.py
index 94c7602..0b52d35 100644
--- a/src/openspace/coordinates/states.py
+++ b/src/openspace/coordinates/states.py
@@ -137,6 +137,17 @@ class GCRF(State):
         #: boolean to determine if perturbations are modeled during propagation
         self.use_perturbations: bool = True
 
+    def copy(self) -> "GCRF":
+        """create a duplicate of the calling state that keeps its thrust and its choice of perturbations
+
+        :return: state with properties that match that of the calling state
+        :rtype: GCRF
+        """
+        state: GCRF = super().copy()
+        state.thrust = self.thrust.copy()
+        state.use_perturbations = self.use_perturbations
+        return state
+
     def acceleration_from_gravity(self) -> Vector3D:
         """calculates the gravity due to a nonspherical earth
 
-- 
2.43.0


From 816c700705a7179f9dadb17fc91c2c6611f78aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:50 +0000
Subject: [PATCH 14/22] fix: keep the force model and step size settings
 throughout a propagation

use_perturbations and srp_scalar only applied to the first stage of the first
step, and an impulsive maneuver reset them together with the step size.
---
 src/openspace/bodies/artificial.py    |  7 +++++--
 src/openspace/propagators/inertial.py | 15 +++++++++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 63da1e6..bebf2cb 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -135,9 +135,12 @@ class Spacecraft:
         :param ric_burn: burn vector with components of radial, in-track, and cross-track (km/s)
         :type ric_burn: Vector3D
         """
-        self.propagator = RK4(
-            StateConvert.hcw.to_gcrf(HCW(self.current_epoch(), Vector3D(0, 0, 0), ric_burn), self.current_state())
+        state: GCRF = StateConvert.hcw.to_gcrf(
+            HCW(self.current_epoch(), Vector3D(0, 0, 0), ric_burn), self.current_state()
         )
+        state.use_perturbations = self.propagator.state.use_perturbations
+        state.srp_scalar = self.propagator.state.srp_scalar
+        self.propagator.state = state
 
     def finite_maneuver(self, ric_dv: Vector3D) -> None:
         """perform a maneuver using ric acceleration accross a specified time
diff --git a/src/openspace/propagators/inertial.py b/src/openspace/propagators/inertial.py
index 7d76bab..7983981 100644
--- a/src/openspace/propagators/inertial.py
+++ b/src/openspace/propagators/inertial.py
@@ -36,6 +36,13 @@ class RK4:
         #: specific impulse used to apply thrusts
         self.isp: float = 0
 
+    def _state_at(self, epoch: Epoch, r: Vector3D, v: Vector3D) -> GCRF:
+        """create a state that is subject to the same force model as the current state"""
+        state: GCRF = GCRF(epoch, r, v)
+        state.use_perturbations = self.state.use_perturbations
+        state.srp_scalar = self.state.srp_scalar
+        return state
+
     def step(self) -> None:
         """advance the propagator state by the stored time step"""
         h = self.step_size
@@ -50,16 +57,16 @@ class RK4:
         dsecs: float = h / 2
         ddays: float = dsecs / SECONDS_IN_DAY
         epoch_1 = epoch_0.plus_days(ddays)
-        y1: GCRF = GCRF(epoch_1, y[0].plus(k1[0].scaled(dsecs)), y[1].plus(k1[1].scaled(dsecs)))
+        y1: GCRF = self._state_at(epoch_1, y[0].plus(k1[0].scaled(dsecs)), y[1].plus(k1[1].scaled(dsecs)))
         y1.thrust = self.thrust_vector(dsecs)
         k2: List[Vector3D] = y1.derivative()
 
-        y2: GCRF = GCRF(epoch_1, y[0].plus(k2[0].scaled(dsecs)), y[1].plus(k2[1].scaled(dsecs)))
+        y2: GCRF = self._state_at(epoch_1, y[0].plus(k2[0].scaled(dsecs)), y[1].plus(k2[1].scaled(dsecs)))
         y2.thrust = self.thrust_vector(dsecs)
         k3: List[Vector3D] = y2.derivative()
 
         epoch_2 = epoch_1.plus_days(ddays)
-        y3: GCRF = GCRF(epoch_2, y[0].plus(k3[0].scaled(h)), y[1].plus(k3[1].scaled(h)))
+        y3: GCRF = self._state_at(epoch_2, y[0].plus(k3[0].scaled(h)), y[1].plus(k3[1].scaled(h)))
         y3.thrust = self.thrust_vector(dsecs * 2)
         k4: List[Vector3D] = y3.derivative()
 
@@ -67,7 +74,7 @@ class RK4:
         dv: Vector3D = k1[0].plus(k2[0].scaled(2).plus(k3[0].scaled(2).plus(k4[0]))).scaled(coeff)
         da: Vector3D = k1[1].plus(k2[1].scaled(2).plus(k3[1].scaled(2).plus(k4[1]))).scaled(coeff)
 
-        self.state = GCRF(
+        self.state = self._state_at(
             epoch_2,
             self.state.position.plus(dv.scaled(h)),
             self.state.velocity.plus(da.scaled(h)),
-- 
2.43.0


From 1a1fc7e1ace95c8ce362e6f61915adfe75946bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:52 +0000
Subject: [PATCH 15/22] fix: update the attitude after a maneuver

The body axes, the slew status and the epoch of the tracked target were left
at their values from before the maneuver until the next step.
---
 src/openspace/bodies/artificial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index bebf2cb..d1ea981 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -141,6 +141,7 @@ class Spacecraft:
         state.use_perturbations = self.propagator.state.use_perturbations
         state.srp_scalar = self.propagator.state.srp_scalar
         self.propagator.state = state
+        self.update_attitude()
 
     def finite_maneuver(self, ric_dv: Vector3D) -> None:
         """perform a maneuver using ric acceleration accross a specified time
@@ -160,6 +161,7 @@ class Spacecraft:
         m_spec: float = self.m_dot / self.total_mass()
         dt: float = (1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
         self.propellant_mass -= self.m_dot * dt
+        self.update_attitude()
 
     def sma(self) -> float:
         """calculate the semi-major axis of the calling spacecraft
-- 
2.43.0


From f2d526eb9067f74248a7ce9c0be2d87a21d0b6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:53 +0000
Subject: [PATCH 16/22] fix: relative states keep track of time

The epoch of a Hill propagator's state was reset to 0 by every step and by
every filter update.
---
 src/openspace/estimation/filtering.py | 1 +
 src/openspace/propagators/relative.py | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/openspace/estimation/filtering.py b/src/openspace/estimation/filtering.py
index 04c7deb..a2ff52d 100644
--- a/src/openspace/estimation/filtering.py
+++ b/src/openspace/estimation/filtering.py
@@ -111,6 +111,7 @@ class RelativeKalman:
         """correct predicted state and store as current state"""
         self.x00 = self.x10.plus(self.k.multiply_vector(self.z.minus(self.H.multiply_vector(self.x10))))
         self.propagator.state = HCW.from_state_vector(self.x00)
+        self.propagator.state.epoch = self.epoch.copy()
 
     def update_covariance(self) -> None:
         """correct predicted covariance and store as current covariance"""
diff --git a/src/openspace/propagators/relative.py b/src/openspace/propagators/relative.py
index 759d356..ad6227b 100644
--- a/src/openspace/propagators/relative.py
+++ b/src/openspace/propagators/relative.py
@@ -2,7 +2,9 @@ from math import cos, sin, sqrt
 
 from openspace.bodies.celestial import Earth
 from openspace.coordinates.states import HCW
+from openspace.math.constants import SECONDS_IN_DAY
 from openspace.math.linalg import Matrix6D, Vector6D
+from openspace.time import Epoch
 
 
 class Hill:
@@ -68,7 +70,9 @@ class Hill:
         :param t: number of seconds to advance the propagator
         :type t: float
         """
+        epoch: Epoch = self.state.epoch.plus_days(t / SECONDS_IN_DAY)
         self.state = HCW.from_state_vector(self.system_matrix(t).multiply_vector(self.state.vector))
+        self.state.epoch = epoch
 
     def step(self) -> None:
         """advance the propagator by one time step"""
-- 
2.43.0


From f1f4cd9c4f1725262a205dc1dd45f2f69d818d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:17 +0000
Subject: [PATCH 17/22] fix: acquire seeds the filter with the target at the
 spacecraft's own epoch

---
 src/openspace/bodies/artificial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index d1ea981..e73f998 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -178,10 +178,10 @@ class Spacecraft:
         :type seed: Spacecraft
         """
 
+        self.track_state(seed)
         self.filter = RelativeKalman(
             self.current_epoch(), Hill(StateConvert.gcrf.to_hcw(self.current_state(), seed.current_state()), self.sma())
         )
-        self.track_state(seed)
 
     def observe_wfov(self, target: "Spacecraft") -> SpaceObservation:
         """produce a simulated observation from the wfov
-- 
2.43.0


From 961fb6d0beef1b340565c7bf47f8c3f4bdb3bbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:06 +0000
Subject: [PATCH 18/22] fix: synchronize a new target before the slew towards
 it starts

---
 src/openspace/bodies/artificial.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index e73f998..03a973b 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -310,14 +310,13 @@ class Spacecraft:
         """
         # Include slew duration if not already pointing at this target
         if self.steering != Spacecraft.STEERING_MODES[2] or self.tracked_target is not target:
-            self.steering = Spacecraft.STEERING_MODES[2]
-            self.tracked_target = target
-            self.slewing = True
-
             # Step the tracked spacecraft if epochs are not in sync
             if target.current_epoch().value != self.current_epoch().value:
                 target.step_to_epoch(self.current_epoch())
 
+            self.steering = Spacecraft.STEERING_MODES[2]
+            self.tracked_target = target
+            self.slewing = True
             t: float = self.body_z.angle(self.target_vector(target)) * self.slew_scalar
             self.slew_stop = self.current_epoch().plus_days(t)
 
-- 
2.43.0


From 89e4505e6f2d117b3b9d2f60cd9d026218757aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:35 +0000
Subject: [PATCH 19/22] fix: eccentricity of the Gauss method when the first
 true anomaly is near 90 degrees

---
 src/openspace/estimation/iod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/estimation/iod.py b/src/openspace/estimation/iod.py
index 219cc8b..7f3bda9 100644
--- a/src/openspace/estimation/iod.py
+++ b/src/openspace/estimation/iod.py
@@ -77,7 +77,7 @@ class Gauss:
         if ta < 0:
             ta += 2 * pi
 
-        e: float = ecosva / cos(ta)
+        e: float = sqrt(ecosva * ecosva + esinva * esinva)
 
         aop: float = ua - ta
         if aop < 0:
-- 
2.43.0


From 333fabaceab343de100ff4507e074af5a05bfa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:10 +0000
Subject: [PATCH 20/22] fix: keep the secant iteration of the Gauss method in
 its domain for long arcs

---
 src/openspace/estimation/iod.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/openspace/estimation/iod.py b/src/openspace/estimation/iod.py
index 7f3bda9..0dbb078 100644
--- a/src/openspace/estimation/iod.py
+++ b/src/openspace/estimation/iod.py
@@ -108,9 +108,15 @@ class Gauss:
         converged: bool = False
         f_of_nu_1: float
         n2: float
+        n_min: float = sqrt(m / (l + 1))
         while not converged:
             f_of_nu_1 = Gauss.f_of_nu(n1, m, l)
             n2 = n1 - f_of_nu_1 * (n1 - n0) / (f_of_nu_1 - Gauss.f_of_nu(n0, m, l))
+
+            # stay where omega is less than one
+            if n2 <= n_min:
+                n2 = (n1 + n_min) / 2
+
             if abs(n2 - n1) < Gauss.NU_TOLERANCE:
                 converged = True
             else:
-- 
2.43.0


From ed6c6c7e38a88ab5d23181f9ea1d3437dfa1001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:32 +0000
Subject: [PATCH 21/22] fix: eccentric anomaly of mean anomalies many
 revolutions away from zero

The Newton iteration could not meet its absolute tolerance once the spacing
of floating point numbers at the mean anomaly exceeded it, and never ended.
Whole revolutions are now set aside before iterating.
---
 src/openspace/math/functions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/openspace/math/functions.py b/src/openspace/math/functions.py
index 1d1563b..43343e4 100644
--- a/src/openspace/math/functions.py
+++ b/src/openspace/math/functions.py
@@ -718,11 +718,15 @@ class EccentricAnomaly:
         :rtype: float
         """
         converged: bool = False
-        ea0: float = ma
         num: float
         den: float
 
-        if ma % (2 * pi) > pi:
+        # full revolutions are set aside, because the tolerance can not be met at their magnitude
+        revs: float = 2 * pi * round(ma / (2 * pi))
+        ma -= revs
+        ea0: float = ma
+
+        if ma < 0:
             ea0 -= e
         else:
             ea0 += e
@@ -734,6 +738,7 @@ class EccentricAnomaly:
             else:
                 ea0 = ean
 
+        ean += revs
         if ean < 0:
             ean += 2 * pi
         return ean
-- 
2.43.0


From cf107aafa28379804db5f40fde2e4325586d6774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:24 +0000
Subject: [PATCH 22/22] fix: give every filter its own initial covariance and
 process noise

---
 src/openspace/estimation/filtering.py | 4 ++--
 src/openspace/math/linalg.py          | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/openspace/estimation/filtering.py b/src/openspace/estimation/filtering.py
index a2ff52d..2be8023 100644
--- a/src/openspace/estimation/filtering.py
+++ b/src/openspace/estimation/filtering.py
@@ -63,13 +63,13 @@ class RelativeKalman:
         self.x10: Vector6D
 
         #: current covariance of the state
-        self.p00: Matrix6D = RelativeKalman.DEFAULT_COVARIANCE
+        self.p00: Matrix6D = RelativeKalman.DEFAULT_COVARIANCE.copy()
 
         #: predicted covariance of the state
         self.p10: Matrix6D
 
         #: processing noise of the filter
-        self.q: Matrix6D = RelativeKalman.DEFAULT_NOISE
+        self.q: Matrix6D = RelativeKalman.DEFAULT_NOISE.copy()
 
         #: state transition matrix for the filter state
         self.f: Matrix6D = self.propagator.system_matrix(0)
diff --git a/src/openspace/math/linalg.py b/src/openspace/math/linalg.py
index bd0e245..17d7c3e 100644
--- a/src/openspace/math/linalg.py
+++ b/src/openspace/math/linalg.py
@@ -879,6 +879,14 @@ class Matrix6D:
             Vector6D(0, 0, 0, 0, 0, 1),
         )
 
+    def copy(self) -> "Matrix6D":
+        """create a replica of the matrix
+
+        :return: 6x6 matrix with elements that match the calling matrix
+        :rtype: Matrix6D
+        """
+        return Matrix6D(self.row1, self.row2, self.row3, self.row4, self.row5, self.row6)
+
     def diagonal(self) -> Vector6D:
         """create a vector whose elements are equal to the diagonal of the matrix
 
-- 
2.43.0

