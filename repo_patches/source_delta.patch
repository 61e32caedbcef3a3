From 05d4bef191ea90c189187fba283b0788479a6bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 01/27] fix: total eclipse by an equal-size body at zero impact
 parameter returns -1

At b == 0 and r == 1 both arguments of the arctan2 defining kappa1 vanish, so
the linear Green's basis term kept its unocculted value and the limb-darkened
light curve was not -1 although the disk is fully covered.
---
 src/jaxoplanet/core/limb_dark.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/core/limb_dark.py b/src/jaxoplanet/core/limb_dark.py
index f6bb92b..5410dbe 100644
--- a/src/jaxoplanet/core/limb_dark.py
+++ b/src/jaxoplanet/core/limb_dark.py
@@ -74,7 +74,9 @@ def solution_vector(l_max: int, order: int = 10) -> Callable[[Array, Array], Arr
         if l_max >= 1:
             P: Array = p_integral(order, l_max, b_, r, b2, r2, kappa0)
             P = jnp.where(cond, jnp.zeros_like(P), P)
-            s.append(-P[:1] - 2 * (kappa1 - jnp.pi) / 3)
+            s1: Array = -P[0] - 2 * (kappa1 - jnp.pi) / 3
+            s1 = jnp.where(full_occ, jnp.zeros_like(s1), s1)
+            s.append(s1[None])
             if l_max >= 2:
                 s.append(s2[None])  # type: ignore
             if l_max >= 3:
-- 
2.43.0


From 2e43d245a75a2145fec8061cec7469960797e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 02/27] fix: time of transit for an argument of periastron of
 exactly -90 degrees

With sin_omega_peri=-1 and cos_omega_peri=0 the half-angle formula evaluates
arctan2(0, 0) = 0, which placed the orbit at periastron, behind the star, at the
requested time of transit.
---
 src/jaxoplanet/orbits/keplerian.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/jaxoplanet/orbits/keplerian.py b/src/jaxoplanet/orbits/keplerian.py
index 77fc96a..abb6065 100644
--- a/src/jaxoplanet/orbits/keplerian.py
+++ b/src/jaxoplanet/orbits/keplerian.py
@@ -321,10 +321,9 @@ class OrbitalBody(eqx.Module):
         else:
             assert self.sin_omega_peri is not None
             assert self.cos_omega_peri is not None
-            opsw = 1 + self.sin_omega_peri
-            E0 = 2 * jnpu.arctan2(
-                jnpu.sqrt(1 - self.eccentricity) * self.cos_omega_peri,
-                jnpu.sqrt(1 + self.eccentricity) * opsw,
+            E0 = jnpu.arctan2(
+                jnpu.sqrt(1 - self.eccentricity**2) * self.cos_omega_peri,
+                self.eccentricity + self.sin_omega_peri,
             )
             M0 = E0 - self.eccentricity * jnpu.sin(E0)
 
-- 
2.43.0


From 366ce10be33c12b04c62c40588e840748a3660b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 03/27] fix: body and relative velocity with a given radial
 velocity semi-amplitude

The body's velocity and the relative velocity were both returned equal to the
central's velocity when the body was created with radial_velocity_semiamplitude.
---
 src/jaxoplanet/orbits/keplerian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jaxoplanet/orbits/keplerian.py b/src/jaxoplanet/orbits/keplerian.py
index abb6065..94df5da 100644
--- a/src/jaxoplanet/orbits/keplerian.py
+++ b/src/jaxoplanet/orbits/keplerian.py
@@ -471,6 +471,8 @@ class OrbitalBody(eqx.Module):
             The components of the velocity vector at ``t`` in units of
             ``R_sun/day``.
         """
+        if semiamplitude is None:
+            semiamplitude = self.radial_velocity_semiamplitude
         if semiamplitude is None:
             mass: Quantity = -self.central.mass  # type: ignore
             return self._get_position_and_velocity(t, mass=mass)[1]
@@ -514,6 +516,8 @@ class OrbitalBody(eqx.Module):
             The components of the velocity vector at ``t`` in units of
             ``M_sun/day``.
         """
+        if semiamplitude is None:
+            semiamplitude = self.radial_velocity_semiamplitude
         if semiamplitude is None:
             mass: Quantity = -self.total_mass  # type: ignore
             return self._get_position_and_velocity(t, mass=mass)[1]
-- 
2.43.0


From 9deaa5ce0a2a26b744356c0c0dae590d051293d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 04/27] fix: the central does not move for a body without a
 mass

central_velocity assumed one solar mass for a body created without a mass, and
central_position raised a TypeError, while total_mass treats it as massless.
---
 src/jaxoplanet/orbits/keplerian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/orbits/keplerian.py b/src/jaxoplanet/orbits/keplerian.py
index 94df5da..d93fa24 100644
--- a/src/jaxoplanet/orbits/keplerian.py
+++ b/src/jaxoplanet/orbits/keplerian.py
@@ -414,7 +414,8 @@ class OrbitalBody(eqx.Module):
             The components of the position vector at ``t`` in units of
             ``R_sun``.
         """
-        semimajor = self.semimajor * self.mass / self.total_mass
+        mass = 0.0 * ureg.M_sun if self.mass is None else self.mass
+        semimajor = self.semimajor * mass / self.total_mass
         return self._get_position_and_velocity(
             t, semimajor=semimajor, parallax=parallax
         )[0]
@@ -496,7 +497,8 @@ class OrbitalBody(eqx.Module):
             ``M_sun/day``.
         """
         if semiamplitude is None:
-            return self._get_position_and_velocity(t, mass=self.mass)[1]
+            mass = 0.0 * ureg.M_sun if self.mass is None else self.mass
+            return self._get_position_and_velocity(t, mass=mass)[1]
         _, v = self._get_position_and_velocity(t, semiamplitude=semiamplitude)
         return v
 
-- 
2.43.0


From 7b3e49f6d1be8d67ce84d4e8909c362208c7d55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 05/27] fix: negative in_axes when mapping over objects with
 different structure

---
 src/jaxoplanet/object_stack.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jaxoplanet/object_stack.py b/src/jaxoplanet/object_stack.py
index 6668edf..2d6cd7e 100644
--- a/src/jaxoplanet/object_stack.py
+++ b/src/jaxoplanet/object_stack.py
@@ -130,6 +130,8 @@ def index_helper(n, arg, axis):
     if axis is None:
         return arg
     else:
+        if axis < 0:
+            axis += jnp.ndim(arg)
         idx = (slice(None),) * axis + (n,)
         return arg[idx]
 
-- 
2.43.0


From a88961bb1b793cdfb909280327335d5ca6294266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 06/27] fix: transit timing residuals for several planets with
 shared reference time or period, and under jit

---
 src/jaxoplanet/orbits/ttv.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/jaxoplanet/orbits/ttv.py b/src/jaxoplanet/orbits/ttv.py
index c4f9864..d6d11c0 100644
--- a/src/jaxoplanet/orbits/ttv.py
+++ b/src/jaxoplanet/orbits/ttv.py
@@ -193,23 +193,15 @@ class TTVOrbit(TransitOrbit):
                 self.transit_inds = tuple(jnp.arange(ttv.shape[0]) for ttv in self.ttvs)
             else:
                 self.transit_inds = tuple(transit_inds)
-            self.t0 = jnp.atleast_1d(time_transit.magnitude)
+            # One reference time and period per planet
+            self.t0 = jnp.broadcast_to(time_transit.magnitude, (len(self.ttvs),))
             # For ttvs mode, period is required and used directly:
-            self.ttv_period = jnp.atleast_1d(period.magnitude)
+            self.ttv_period = jnp.broadcast_to(period.magnitude, (len(self.ttvs),))
             # Reconstruct transit_times: t0 + period * inds + ttvs
             transit_times_list = []
-            for ttv, inds in zip(self.ttvs, self.transit_inds, strict=False):
-                # Handle single-planet t0 and period versus multi-planet cases.
-                if self.t0.ndim > 0 and self.t0.shape[0] > 1:
-                    t0_i = self.t0[len(transit_times_list)]
-                    period_i = self.ttv_period[len(transit_times_list)]
-                else:
-                    t0_i = self.t0.item() if hasattr(self.t0, "item") else self.t0
-                    period_i = (
-                        self.ttv_period.item()
-                        if hasattr(self.ttv_period, "item")
-                        else self.ttv_period
-                    )
+            for t0_i, period_i, ttv, inds in zip(
+                self.t0, self.ttv_period, self.ttvs, self.transit_inds, strict=False
+            ):
                 transit_times_list.append(t0_i + period_i * inds + ttv)
             self.transit_times = tuple(transit_times_list)
 
-- 
2.43.0


From 39bfb93e320dbc85405d94cb377391ac513d66dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 07/27] fix: transits at the listed times when a reference time
 is given as well

---
 src/jaxoplanet/orbits/ttv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/orbits/ttv.py b/src/jaxoplanet/orbits/ttv.py
index d6d11c0..3eba162 100644
--- a/src/jaxoplanet/orbits/ttv.py
+++ b/src/jaxoplanet/orbits/ttv.py
@@ -247,8 +247,9 @@ class TTVOrbit(TransitOrbit):
     def _warp_times(self, t: Quantity) -> Quantity:
         """Warp times based on transit timing variations."""
         dt = self._get_model_dt(t)
-        t0_days = self.t0.to(ureg.d) if hasattr(self.t0, "to") else self.t0 * ureg.d
-        return t - (dt - t0_days)
+        # The reference time of the base orbit, which differs from the fitted `t0` if
+        # both `transit_times` and `time_transit` are given
+        return t - (dt - self.time_transit)
 
     @units.quantity_input(t=ureg.d, parallax=ureg.arcsec)
     def relative_position(
-- 
2.43.0


From d2c589cadc0ac0a1cf4a0c50a90fd7e4c7c15c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 08/27] fix: keyword arguments of a light curve integrated over
 the exposure time

---
 src/jaxoplanet/light_curves/transforms.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index 6c2a0e9..b6903ae 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -3,7 +3,7 @@
 
 __all__ = ["integrate", "interpolate"]
 
-from functools import wraps
+from functools import partial, wraps
 from typing import Any
 
 import jax
@@ -106,9 +106,12 @@ def integrate(
                 "on GitHub demonstrating the problem"
             )
 
-        f = lu.wrap_init(jax.vmap(func, in_axes=(0,) + (None,) * len(args)))
+        # The keyword arguments are bound here since 'vmap' would map over them
+        f = lu.wrap_init(
+            jax.vmap(partial(func, **kwargs), in_axes=(0,) + (None,) * len(args))
+        )
         f = apply_exposure_time_integration(f, stencil, dt)  # type: ignore
-        return f.call_wrapped(time, args, kwargs)  # type: ignore
+        return f.call_wrapped(time, args, {})  # type: ignore
 
     return wrapped
 
-- 
2.43.0


From d1d6fba01e14bc812f0077ec1563bfe9d784aef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 09/27] fix: exposure time integration of order 1 or 2 with one
 sample was off centre

---
 src/jaxoplanet/light_curves/transforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index b6903ae..b570223 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -73,6 +73,9 @@ def integrate(
     # Ensure 'num_samples' is an odd number
     num_samples = int(num_samples)
     num_samples += 1 - num_samples % 2
+    if order > 0:
+        # The end points of the exposure are always included for these orders
+        num_samples = max(num_samples, 3)
     stencil = jnp.ones(num_samples)
 
     # Construct exposure time integration stencil
-- 
2.43.0


From 49baa88c9875b6e5d644861f147ee558c8a5a2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:15 +0000
Subject: [PATCH 10/27] fix: exposure time integration of light curves with
 units or with several axes

---
 src/jaxoplanet/light_curves/transforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index b570223..bf5c7f2 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -122,7 +122,9 @@ def integrate(
 @lu.transformation  # type: ignore
 def apply_exposure_time_integration(stencil, dt, time, args, kwargs):
     result = yield (time + dt,) + args, kwargs
-    yield jnpu.dot(stencil, result)
+    # The samples are along the first axis, whatever the shape of each light curve value
+    weights = stencil.reshape((-1,) + (1,) * (jnpu.ndim(result) - 1))
+    yield jnpu.sum(weights * result, axis=0)
 
 
 @units.quantity_input(period=ureg.day, time_transit=ureg.day, duration=ureg.day)
-- 
2.43.0


From a634a01041c4bbcc1d934b76fd843bdb73da1ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:31 +0000
Subject: [PATCH 11/27] fix: transit times and timing residuals given in other
 units than days

---
 src/jaxoplanet/orbits/ttv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/orbits/ttv.py b/src/jaxoplanet/orbits/ttv.py
index 3eba162..ca0fd71 100644
--- a/src/jaxoplanet/orbits/ttv.py
+++ b/src/jaxoplanet/orbits/ttv.py
@@ -8,9 +8,9 @@ from jaxoplanet.units import unit_registry as ureg
 
 
 def ensure_quantity(x, unit):
-    """Convert x to a JAX array with the given unit if it isn’t already a quantity."""
+    """Convert x to a quantity with the given unit."""
     if hasattr(x, "to"):
-        return x
+        return x.to(unit)
     else:
         return jnp.asarray(x) * unit
 
-- 
2.43.0


From 4b7bf870ea9f45cf8e884c1b137363535deeef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 12/27] fix: amplitude of a uniform or limb-darkened surface
 with an occultor

surface_light_curve multiplied the flux by the amplitude only without an occultor
or for maps with spherical harmonics.
---
 src/jaxoplanet/starry/light_curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/light_curves.py b/src/jaxoplanet/starry/light_curves.py
index c8ac0b8..3bf514c 100644
--- a/src/jaxoplanet/starry/light_curves.py
+++ b/src/jaxoplanet/starry/light_curves.py
@@ -91,7 +91,7 @@ def surface_light_curve(
 
             lc_func = partial(_limb_dark_light_curve, ld_u, order=order)
             lc = lc_func(b, r)
-            return 1.0 + jnp.where(b_occ, lc, 0)
+            return surface.amplitude * (1.0 + jnp.where(b_occ, lc, 0))
 
         else:
             theta_z = jnp.arctan2(x, y)
-- 
2.43.0


From 08e304a64283d4d70000335975f302109b3a1e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 13/27] fix: amplitude of the central surface in emission light
 curves

The amplitudes of the bodies were used, that of the central object ignored.
---
 src/jaxoplanet/light_curves/emission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/light_curves/emission.py b/src/jaxoplanet/light_curves/emission.py
index f97da38..1a0856c 100644
--- a/src/jaxoplanet/light_curves/emission.py
+++ b/src/jaxoplanet/light_curves/emission.py
@@ -40,7 +40,7 @@ def light_curve(system: SurfaceSystem, order: int = 10) -> Callable[[Quantity],
 
         lc_func = partial(_limb_dark_light_curve, system.central_surface.u, order=order)
         lc = lc_func(b.magnitude, r.magnitude)
-        lc = jnp.where(z > 0, lc, 0.0).sum(0) + 1
+        lc = system.central_surface.amplitude * (jnp.where(z > 0, lc, 0.0).sum(0) + 1)
 
         bodies_lc = []
         for body, surface in zip(system.bodies, system.body_surfaces, strict=False):
-- 
2.43.0


From 92358813288c68cc7d560f94aab315b6f5c3bcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 14/27] fix: emission light curve of systems with dark bodies

Bodies without a surface raised an AttributeError; they emit nothing.
---
 src/jaxoplanet/light_curves/emission.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jaxoplanet/light_curves/emission.py b/src/jaxoplanet/light_curves/emission.py
index 1a0856c..34c38f0 100644
--- a/src/jaxoplanet/light_curves/emission.py
+++ b/src/jaxoplanet/light_curves/emission.py
@@ -44,6 +44,10 @@ def light_curve(system: SurfaceSystem, order: int = 10) -> Callable[[Quantity],
 
         bodies_lc = []
         for body, surface in zip(system.bodies, system.body_surfaces, strict=False):
+            if surface is None:
+                bodies_lc.append(0.0)
+                continue
+
             x, y, z = body.relative_position(time)
             b = jnpu.sqrt(x**2 + y**2) / body.radius
             r = r_star / body.radius
-- 
2.43.0


From b4bf36fc773f4bf888279e5b18d3d66aec3ee7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 15/27] fix: radial velocity anomaly independent of the
 amplitude of the surface

The flux-weighted mean velocity does not scale with the luminosity.
---
 src/jaxoplanet/starry/doppler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 7a9ab36..8c1a221 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -165,7 +165,7 @@ def surface_radial_velocity(
 
     intensity = (p_yu.tosparse() @ design_matrix_p[0:n_deg]) * norm
 
-    return surface.amplitude * rv * norm / intensity
+    return rv * norm / intensity
 
 
 def radial_velocity(system, order=20):
-- 
2.43.0


From 60fe09028138a11ca24303cb1c8bb80d9c36c633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 16/27] fix: radial velocity of systems with several bodies,
 and at a scalar time

Only the reflex motion due to the first body was added.
---
 src/jaxoplanet/starry/doppler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 8c1a221..29353e5 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -173,7 +173,7 @@ def radial_velocity(system, order=20):
 
     def impl(time):
         rvs = bodies_rv(time)
-        rvs = rvs.at[:, 0].set(rvs[:, 0] + system.radial_velocity(time)[0].magnitude)
-        return rvs
+        # The first entry is the central object, moved by all the bodies
+        return rvs.at[..., 0].add(system.radial_velocity(time).magnitude.sum(0))
 
     return impl
-- 
2.43.0


From 9fb4c2d0484a078d8340a81cd5b101d9c7304791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:35 +0000
Subject: [PATCH 17/27] fix: degree of the polynomial in
 polynomial_product_matrix

---
 src/jaxoplanet/starry/core/polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/polynomials.py b/src/jaxoplanet/starry/core/polynomials.py
index 26acbad..336aeab 100644
--- a/src/jaxoplanet/starry/core/polynomials.py
+++ b/src/jaxoplanet/starry/core/polynomials.py
@@ -180,7 +180,7 @@ def polynomial_product_matrix(p, degree):
         Array: The polynomial product matrix.
     """
     p = jnp.array(p)
-    deg_p = int(np.floor(np.sqrt(len(p))))
+    deg_p = int(np.floor(np.sqrt(len(p)))) - 1
     M = jnp.zeros(
         ((deg_p + degree + 1) * (deg_p + degree + 1), (degree + 1) * (degree + 1))
     )
-- 
2.43.0


From 16cd23088a406cb6c655c62dcde3f1a260bed970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:35 +0000
Subject: [PATCH 18/27] fix: equatorial velocity of a surface that does not
 rotate

---
 src/jaxoplanet/starry/surface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index 6a93648..07a1a19 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -137,6 +137,8 @@ class Surface(eqx.Module):
     @property
     def veq(self):
         """Equatorial velocity of the map in Rsun/day."""
+        if self.period is None:
+            return 0.0
         return 2 * jnp.pi * self.radius / self.period
 
     def _poly_basis(self, rv=False):
-- 
2.43.0


From a33b43df4be59c4969fab0f5fef82bc98af0f19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:35 +0000
Subject: [PATCH 19/27] fix: radial velocity of differentially rotating
 surfaces

---
 src/jaxoplanet/starry/doppler.py | 2 +-
 src/jaxoplanet/starry/surface.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 29353e5..0d73fc1 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -147,7 +147,7 @@ def surface_radial_velocity(
 
     # the radial velocity map
     y_rv = rv_map_expansion(
-        inc=surface._inc, obl=surface._obl, veq=surface.veq, alpha=None
+        inc=surface._inc, obl=surface._obl, veq=surface.veq, alpha=surface.shear
     )
 
     # rotated to account for the occultor
diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index 07a1a19..e3329ae 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -159,7 +159,7 @@ class Surface(eqx.Module):
     @property
     def vdeg(self) -> int:
         if self.shear is not None:
-            return
+            return 3
         else:
             return 1
 
@@ -179,7 +179,7 @@ class Surface(eqx.Module):
 
         if rv:
             y_rv = starry.doppler.rv_map_expansion(
-                inc=self._inc, obl=self._obl, veq=self.veq, alpha=None
+                inc=self._inc, obl=self._obl, veq=self.veq, alpha=self.shear
             )
             p_rv = Pijk.from_dense(
                 jax.experimental.sparse.BCOO.from_scipy_sparse(A1(self.vdeg)).todense()
-- 
2.43.0


From e825e2d9935d4d78b52ad95cd8f18b42dd9e9efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:35 +0000
Subject: [PATCH 20/27] fix: radial velocity map of a surface seen from the
 pole

---
 src/jaxoplanet/starry/doppler.py | 2 +-
 src/jaxoplanet/starry/surface.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 0d73fc1..4772f57 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -147,7 +147,7 @@ def surface_radial_velocity(
 
     # the radial velocity map
     y_rv = rv_map_expansion(
-        inc=surface._inc, obl=surface._obl, veq=surface.veq, alpha=surface.shear
+        inc=surface.inc, obl=surface.obl, veq=surface.veq, alpha=surface.shear
     )
 
     # rotated to account for the occultor
diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index e3329ae..826a777 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -179,7 +179,7 @@ class Surface(eqx.Module):
 
         if rv:
             y_rv = starry.doppler.rv_map_expansion(
-                inc=self._inc, obl=self._obl, veq=self.veq, alpha=self.shear
+                inc=self.inc, obl=self.obl, veq=self.veq, alpha=self.shear
             )
             p_rv = Pijk.from_dense(
                 jax.experimental.sparse.BCOO.from_scipy_sparse(A1(self.vdeg)).todense()
-- 
2.43.0


From c0d6d7a1998301ace1569159d723876af9d14b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:21 +0000
Subject: [PATCH 21/27] fix: product of spherical harmonic expansions

---
 src/jaxoplanet/starry/ylm.py | 52 ++++++------------------------------
 1 file changed, 8 insertions(+), 44 deletions(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index b85cdb2..1e7cedd 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -36,7 +36,6 @@ harmonic :math:`Y_{l, m}` is located at the index
 """
 
 import math
-from collections import defaultdict
 from collections.abc import Mapping
 from typing import Any
 
@@ -50,7 +49,6 @@ from scipy.special import legendre as LegendreP
 from jaxoplanet.starry.core import basis, solution
 from jaxoplanet.starry.core.polynomials import Pijk
 from jaxoplanet.starry.core.rotation import dot_rotation_matrix
-from jaxoplanet.starry.core.wigner3j import Wigner3jCalculator
 from jaxoplanet.types import Array
 
 
@@ -174,49 +172,15 @@ class Ylm(eqx.Module):
 
 
 def _mul(f: Ylm, g: Ylm) -> Ylm:
+    """Product of two functions expanded in the (orthonormal) real spherical harmonics,
+    computed in the polynomial basis.
     """
-    Based closely on the implementation from the MIT-licensed spherical package:
-
-    https://github.com/moble/spherical/blob/0aa81c309cac70b90f8dfb743ce35d2cc9ae6dee/
-    spherical/multiplication.py
-    """
-    ellmax_f = f.deg
-    ellmax_g = g.deg
-    ellmax_fg = ellmax_f + ellmax_g
-    fg = defaultdict(lambda *_: 0.0)
-    m_calculator = Wigner3jCalculator(ellmax_f, ellmax_g)
-    for ell1 in range(ellmax_f + 1):
-        sqrt1 = math.sqrt((2 * ell1 + 1) / (4 * math.pi))
-        for m1 in range(-ell1, ell1 + 1):
-            idx1 = (ell1, m1)
-            if idx1 not in f.data:
-                continue
-            sum1 = sqrt1 * f.data[idx1]
-            for ell2 in range(ellmax_g + 1):
-                sqrt2 = math.sqrt(2 * ell2 + 1)
-                # w3j_s = s_calculator.calculate(ell1, ell2, s_f, s_g)
-                for m2 in range(-ell2, ell2 + 1):
-                    idx2 = (ell2, m2)
-                    if idx2 not in g.data:
-                        continue
-                    w3j_m = m_calculator.calculate(ell1, ell2, m1, m2)
-                    sum2 = sqrt2 * g.data[idx2]
-                    m3 = m1 + m2
-                    for ell3 in range(
-                        max(abs(m3), abs(ell1 - ell2)), min(ell1 + ell2, ellmax_fg) + 1
-                    ):
-                        # Could loop over same (ell3, m3) more than once, so add all
-                        # contributions together
-                        fg[(ell3, m3)] += (
-                            (
-                                math.pow(-1, ell1 + ell2 + ell3 + m3)
-                                * math.sqrt(2 * ell3 + 1)
-                                * w3j_m[ell3]  # Wigner3j(ell1, ell2, ell3, m1, m2, -m3)
-                            )
-                            * sum1
-                            * sum2
-                        )
-    return Ylm(fg)
+    a1_f, a1_g = (np.asarray(basis.A1(y.deg).todense()) for y in (f, g))
+    fg = Pijk.from_dense(a1_f @ f.todense()) * Pijk.from_dense(a1_g @ g.todense())
+    a1_fg = np.asarray(basis.A1(f.deg + g.deg).todense())
+    # A1 includes a factor 2 / sqrt(pi) on top of the orthonormal harmonics
+    y = 0.5 * math.sqrt(math.pi) * np.linalg.inv(a1_fg) @ fg.todense()
+    return Ylm.from_dense(y, normalize=False)
 
 
 def Bp(ydeg, npts: int = 1000, eps: float = 1e-9, smoothing=None):
-- 
2.43.0


From 4c2ce2f70459ac88f91112bb5dfcc6cb262e272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 22/27] fix: constant coefficient of a uniform map with an
 occultor

---
 src/jaxoplanet/starry/light_curves.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/light_curves.py b/src/jaxoplanet/starry/light_curves.py
index 3bf514c..1c932d2 100644
--- a/src/jaxoplanet/starry/light_curves.py
+++ b/src/jaxoplanet/starry/light_curves.py
@@ -91,7 +91,8 @@ def surface_light_curve(
 
             lc_func = partial(_limb_dark_light_curve, ld_u, order=order)
             lc = lc_func(b, r)
-            return surface.amplitude * (1.0 + jnp.where(b_occ, lc, 0))
+            y00 = surface.y[(0, 0)]
+            return surface.amplitude * y00 * (1.0 + jnp.where(b_occ, lc, 0))
 
         else:
             theta_z = jnp.arctan2(x, y)
-- 
2.43.0


From 61c7f883084be07725a333d9f0ab10a087b70af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:55 +0000
Subject: [PATCH 23/27] fix: rotations by small angles

---
 src/jaxoplanet/starry/core/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index c819e8d..9bdac79 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -123,7 +123,7 @@ def full_rotation_axis_angle(
     denominator = jnp.sqrt(1 - 0.5 * arg**2)
 
     farg = f * arg
-    zero_angle = jnp.allclose(farg, 1.0, atol=get_dtype_eps(farg))
+    zero_angle = jnp.allclose(farg, 1.0, rtol=0.0, atol=get_dtype_eps(farg))
     angle = jnp.where(zero_angle, 0.0, 2 * jnp.arccos(farg))
 
     non_zero_angle = jnp.logical_not(zero_angle)
-- 
2.43.0


From 8d3ec90ba627177b60b1987f2c31d5725b71291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:55 +0000
Subject: [PATCH 24/27] fix: obliquity of a surface without inclination

---
 src/jaxoplanet/starry/core/rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index 9bdac79..506b0da 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -40,7 +40,7 @@ def dot_rotation_matrix(ydeg, x, y, z, theta):
         if z is None:
             raise ValueError("Either x, y, or z must be specified")
 
-        return dot_rz(ydeg, theta)
+        return dot_rz(ydeg, jnp.sign(z) * theta)
 
     x = 0.0 if x is None else x
     y = 0.0 if y is None else y
@@ -157,7 +157,7 @@ def sky_projection_axis_angle(inc: float | None, obl: float | None):
         return 1.0, None, None, inc
 
     elif inc is None:
-        return None, None, 1.0, obl
+        return None, None, -1.0, obl
 
     else:
         co = jnp.cos(obl / 2)
-- 
2.43.0


From cad418123e378d82d3e89d174d55efe4e95cb359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:55 +0000
Subject: [PATCH 25/27] fix: latitude and longitude in Surface.intensity

---
 src/jaxoplanet/starry/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index 826a777..adb2153 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -215,13 +215,13 @@ class Surface(eqx.Module):
         Returns:
             float: intensity of the map at the given latitude and longitude
         """
-        lon = lon + jnp.pi / 2  # convention, 0 lon faces the observer
+        lon = lon - jnp.pi / 2  # convention, 0 lon faces the observer
         lat = jnp.pi / 2 - lat  # convention, latitude 0 is equator
         x = jnp.sin(lat) * jnp.cos(lon)
         y = jnp.sin(lat) * jnp.sin(lon)
         z = jnp.cos(lat) * jnp.ones_like(x)
 
-        axis = full_rotation_axis_angle(self.inc - jnp.pi / 2, self.obl, 0.0, 0.0)
+        axis = full_rotation_axis_angle(self.inc + jnp.pi / 2, self.obl, 0.0, 0.0)
         axis = jnp.array(axis[0:3]) * axis[-1]
         rotation = Rotation.from_rotvec(axis)
         x, y, z = rotation.apply(jnp.array([x, y, z]).T).T
-- 
2.43.0


From bcda0a6df6113dea4217783672fd267c3fddbd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:48 +0000
Subject: [PATCH 26/27] fix: occulted flux of a map concentric with an occultor
 of its own size

---
 src/jaxoplanet/starry/core/solution.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/solution.py b/src/jaxoplanet/starry/core/solution.py
index 8536bac..4ea9cb7 100644
--- a/src/jaxoplanet/starry/core/solution.py
+++ b/src/jaxoplanet/starry/core/solution.py
@@ -33,7 +33,13 @@ def kappas(b: Array, r: Array) -> tuple[Array, Array]:
     b_cond = jnp.logical_and(jnp.greater(b, jnp.abs(1 - r)), jnp.less(b, 1 + r))
     b_ = jnp.where(b_cond, b, 1)
     area = jnp.where(b_cond, kite_area(r, b_, 1), 0)
-    return jnp.arctan2(area, b2 + factor), jnp.arctan2(area, b2 - factor)
+
+    # When the occulted body is completely covered, ``kappa0 = 0`` and ``kappa1 = pi``;
+    # for concentric bodies of the same size both arguments of arctan2 are zero
+    full_occ = jnp.less_equal(1 + b, r)
+    kappa0 = jnp.arctan2(area, jnp.where(full_occ, 1.0, b2 + factor))
+    kappa1 = jnp.arctan2(area, jnp.where(full_occ, -1.0, b2 - factor))
+    return kappa0, kappa1
 
 
 def q_integral(l_max: int, lam: Array) -> Array:
-- 
2.43.0


From 52c146ddeb8e3ae500135d99bfa4f476f440a1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:15 +0000
Subject: [PATCH 27/27] fix: left_project of the multiprecision code with a
 rotation in the sky plane

---
 src/jaxoplanet/starry/multiprecision/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/multiprecision/rotation.py b/src/jaxoplanet/starry/multiprecision/rotation.py
index 54637a0..bacef70 100644
--- a/src/jaxoplanet/starry/multiprecision/rotation.py
+++ b/src/jaxoplanet/starry/multiprecision/rotation.py
@@ -211,7 +211,7 @@ def left_project(deg, inc, obl, theta, theta_z, x):
     )(x)
 
     if theta_z != 0:
-        x = dot_rotation_matrix(deg, 0, 0, 1.0, -theta_z)(x)
+        x = dot_rotation_matrix(deg, (0.0, 0.0, 1.0), -theta_z)(x)
     return x.T
 
 
-- 
2.43.0

