From 6ca5a2fef4eda30938f1ad5f20be59b0a1813fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 01/44] fix: complete occultation when b = 0 and r = 1 exactly

Both arguments of the arctan2 calls in kappas vanish there, so the linear limb
darkening term (and the whole starry solution vector) was evaluated as if the source
were unocculted, and its gradient was NaN.
---
 src/jaxoplanet/core/limb_dark.py       | 7 ++++++-
 src/jaxoplanet/starry/core/solution.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/core/limb_dark.py b/src/jaxoplanet/core/limb_dark.py
index f6bb92b..4e63cb0 100644
--- a/src/jaxoplanet/core/limb_dark.py
+++ b/src/jaxoplanet/core/limb_dark.py
@@ -105,7 +105,12 @@ def kappas(b: Array, r: Array) -> tuple[Array, Array, Array]:
     cond = jnp.logical_and(jnp.greater(b, jnp.abs(1 - r)), jnp.less(b, 1 + r))
     b_ = jnp.where(cond, b, jnp.ones_like(b))
     area: Array = jnp.where(cond, kite_area(r, b_, jnp.ones_like(r)), jnp.zeros_like(r))
-    return area, jnp.arctan2(area, b2 + factor), jnp.arctan2(area, b2 - factor)
+    # The whole limb is hidden for a complete occultation, including at b = 0 and r = 1
+    # where both arguments of these arctan2s would otherwise be zero
+    full_occ = jnp.less_equal(1 + b, r)
+    kappa0 = jnp.arctan2(area, jnp.where(full_occ, 1, b2 + factor))
+    kappa1 = jnp.arctan2(area, jnp.where(full_occ, -1, b2 - factor))
+    return area, kappa0, kappa1
 
 
 def s0s2(
diff --git a/src/jaxoplanet/starry/core/solution.py b/src/jaxoplanet/starry/core/solution.py
index 8536bac..caa0b10 100644
--- a/src/jaxoplanet/starry/core/solution.py
+++ b/src/jaxoplanet/starry/core/solution.py
@@ -33,7 +33,12 @@ def kappas(b: Array, r: Array) -> tuple[Array, Array]:
     b_cond = jnp.logical_and(jnp.greater(b, jnp.abs(1 - r)), jnp.less(b, 1 + r))
     b_ = jnp.where(b_cond, b, 1)
     area = jnp.where(b_cond, kite_area(r, b_, 1), 0)
-    return jnp.arctan2(area, b2 + factor), jnp.arctan2(area, b2 - factor)
+    # The whole limb is hidden for a complete occultation, including at b = 0 and r = 1
+    # where both arguments of these arctan2s would otherwise be zero
+    full_occ = jnp.less_equal(1 + b, r)
+    kappa0 = jnp.arctan2(area, jnp.where(full_occ, 1, b2 + factor))
+    kappa1 = jnp.arctan2(area, jnp.where(full_occ, -1, b2 - factor))
+    return kappa0, kappa1
 
 
 def q_integral(l_max: int, lam: Array) -> Array:
-- 
2.43.0


From 054200f8426791978539f091c8537576f2ea7794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 02/44] fix: integrand of the limb-darkened flux on the limb of
 the star

---
 src/jaxoplanet/core/limb_dark.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/core/limb_dark.py b/src/jaxoplanet/core/limb_dark.py
index 4e63cb0..cf2d4c6 100644
--- a/src/jaxoplanet/core/limb_dark.py
+++ b/src/jaxoplanet/core/limb_dark.py
@@ -172,7 +172,8 @@ def p_integral(
         z2 = 1 - omz2
         m = jnp.less(z2, 10 * jnp.finfo(omz2.dtype).eps)
         z2 = jnp.where(m, jnp.ones_like(z2), z2)
-        z3 = z2 * zero_safe_sqrt(z2)
+        # z2 = 0 on the limb of the star, so z3 vanishes there too
+        z3 = jnp.where(m, jnp.zeros_like(z2), z2 * zero_safe_sqrt(z2))
         cond = jnp.less(omz2, 10 * jnp.finfo(omz2.dtype).eps)
         omz2 = jnp.where(cond, jnp.ones_like(z2), omz2)
         result = 2 * r * (r - b * c) * (1 - z3) / (3 * omz2)
-- 
2.43.0


From de4b42df1fc2b309286ab39e89636b198f7a763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 03/44] fix: reference time when the argument of periastron is
 exactly -pi/2

---
 src/jaxoplanet/orbits/keplerian.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/jaxoplanet/orbits/keplerian.py b/src/jaxoplanet/orbits/keplerian.py
index 77fc96a..abb6065 100644
--- a/src/jaxoplanet/orbits/keplerian.py
+++ b/src/jaxoplanet/orbits/keplerian.py
@@ -321,10 +321,9 @@ class OrbitalBody(eqx.Module):
         else:
             assert self.sin_omega_peri is not None
             assert self.cos_omega_peri is not None
-            opsw = 1 + self.sin_omega_peri
-            E0 = 2 * jnpu.arctan2(
-                jnpu.sqrt(1 - self.eccentricity) * self.cos_omega_peri,
-                jnpu.sqrt(1 + self.eccentricity) * opsw,
+            E0 = jnpu.arctan2(
+                jnpu.sqrt(1 - self.eccentricity**2) * self.cos_omega_peri,
+                self.eccentricity + self.sin_omega_peri,
             )
             M0 = E0 - self.eccentricity * jnpu.sin(E0)
 
-- 
2.43.0


From d2f5e19d991b64d8c5db82f6c61a3fc46e1f1efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 04/44] fix: body and relative velocities for a given radial
 velocity semi-amplitude

---
 src/jaxoplanet/orbits/keplerian.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/orbits/keplerian.py b/src/jaxoplanet/orbits/keplerian.py
index abb6065..951b2c6 100644
--- a/src/jaxoplanet/orbits/keplerian.py
+++ b/src/jaxoplanet/orbits/keplerian.py
@@ -471,10 +471,12 @@ class OrbitalBody(eqx.Module):
             The components of the velocity vector at ``t`` in units of
             ``R_sun/day``.
         """
+        if semiamplitude is None:
+            semiamplitude = self.radial_velocity_semiamplitude
         if semiamplitude is None:
             mass: Quantity = -self.central.mass  # type: ignore
             return self._get_position_and_velocity(t, mass=mass)[1]
-        k = -semiamplitude * self.central.mass / self.mass
+        k = -semiamplitude * (self.central.mass / self.mass).magnitude
         return self._get_position_and_velocity(t, semiamplitude=k)[1]
 
     def central_velocity(
@@ -514,10 +516,12 @@ class OrbitalBody(eqx.Module):
             The components of the velocity vector at ``t`` in units of
             ``M_sun/day``.
         """
+        if semiamplitude is None:
+            semiamplitude = self.radial_velocity_semiamplitude
         if semiamplitude is None:
             mass: Quantity = -self.total_mass  # type: ignore
             return self._get_position_and_velocity(t, mass=mass)[1]
-        k = -semiamplitude * self.total_mass / self.mass
+        k = -semiamplitude * (self.total_mass / self.mass).magnitude
         _, v = self._get_position_and_velocity(t, semiamplitude=k)
         return v
 
-- 
2.43.0


From 9ac1f2fe81dd11b23fd476688aa1a5aa3f296040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 05/44] fix: axis handling when mapping over heterogeneous
 objects

---
 src/jaxoplanet/object_stack.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/jaxoplanet/object_stack.py b/src/jaxoplanet/object_stack.py
index 6668edf..4fd6767 100644
--- a/src/jaxoplanet/object_stack.py
+++ b/src/jaxoplanet/object_stack.py
@@ -98,6 +98,10 @@ class ObjectStack(eqx.Module, Generic[Obj]):
             in_axes_flat = jax.api_util.flatten_axes(  # type: ignore
                 "body_vmap in_axes", in_tree, in_axes_
             )
+            in_axes_flat = [
+                check_axis(len(self.objects), arg, axis)
+                for arg, axis in zip(args_flat, in_axes_flat, strict=True)
+            ]
 
             # Then loop over the bodies and accumulate the function results
             results = []
@@ -126,6 +130,23 @@ class ObjectStack(eqx.Module, Generic[Obj]):
         return impl
 
 
+def check_axis(size, arg, axis):
+    # Match the semantics of vmap: negative axes count from the end, and the size of
+    # the mapped axis must be equal to the number of objects
+    if axis is None:
+        return None
+    ndim = jnp.ndim(arg)
+    if not -ndim <= axis < ndim:
+        raise ValueError(f"Axis {axis} is out of bounds for an input with {ndim} axes")
+    axis %= ndim
+    if jnp.shape(arg)[axis] != size:
+        raise ValueError(
+            f"Inconsistent size for a mapped axis: expected {size}, got an input with "
+            f"shape {jnp.shape(arg)} mapped over axis {axis}"
+        )
+    return axis
+
+
 def index_helper(n, arg, axis):
     if axis is None:
         return arg
-- 
2.43.0


From e187eaba099f524e55f0b78499b629b381520771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 06/44] fix: convert the units of transit times and TTVs given
 as quantities

---
 src/jaxoplanet/orbits/ttv.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/jaxoplanet/orbits/ttv.py b/src/jaxoplanet/orbits/ttv.py
index c4f9864..f2bfe52 100644
--- a/src/jaxoplanet/orbits/ttv.py
+++ b/src/jaxoplanet/orbits/ttv.py
@@ -133,7 +133,7 @@ class TTVOrbit(TransitOrbit):
         # CASE 1: transit_times are provided
         if transit_times is not None:
             self.transit_times = tuple(
-                jnp.atleast_1d(ensure_quantity(tt, ureg.d).magnitude)
+                jnp.atleast_1d(ensure_quantity(tt, ureg.d).to(ureg.d).magnitude)
                 for tt in transit_times
             )
             if transit_inds is None:
@@ -179,13 +179,8 @@ class TTVOrbit(TransitOrbit):
             time_transit = ensure_quantity(time_transit, ureg.d)
 
             # In the TTVs branch of __init__
-            self.ttvs = tuple(
-                jnp.atleast_1d(
-                    ensure_quantity(ttv, ureg.d).magnitude
-                    - jnp.mean(ensure_quantity(ttv, ureg.d).magnitude)
-                )
-                for ttv in ttvs
-            )
+            ttvs_mag = [ensure_quantity(ttv, ureg.d).to(ureg.d).magnitude for ttv in ttvs]
+            self.ttvs = tuple(jnp.atleast_1d(ttv - jnp.mean(ttv)) for ttv in ttvs_mag)
 
             # For each planet, define transit_inds based on the shape of ttvs if not
             # provided.
-- 
2.43.0


From fa6d03d41f3aa63434031c39070a4430766bb97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 07/44] fix: TTVOrbit from TTVs under jit and with a period or
 epoch shared by several planets

---
 src/jaxoplanet/orbits/ttv.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/jaxoplanet/orbits/ttv.py b/src/jaxoplanet/orbits/ttv.py
index f2bfe52..214b33a 100644
--- a/src/jaxoplanet/orbits/ttv.py
+++ b/src/jaxoplanet/orbits/ttv.py
@@ -188,23 +188,20 @@ class TTVOrbit(TransitOrbit):
                 self.transit_inds = tuple(jnp.arange(ttv.shape[0]) for ttv in self.ttvs)
             else:
                 self.transit_inds = tuple(transit_inds)
-            self.t0 = jnp.atleast_1d(time_transit.magnitude)
+            # The period and reference time of each planet; either can be shared
+            n_planets = (len(self.ttvs),)
+            self.t0 = jnp.broadcast_to(jnp.atleast_1d(time_transit.magnitude), n_planets)
             # For ttvs mode, period is required and used directly:
-            self.ttv_period = jnp.atleast_1d(period.magnitude)
+            self.ttv_period = jnp.broadcast_to(
+                jnp.atleast_1d(period.magnitude), n_planets
+            )
+            if len(self.ttvs) > 1:
+                period = self.ttv_period * ureg.d
             # Reconstruct transit_times: t0 + period * inds + ttvs
             transit_times_list = []
-            for ttv, inds in zip(self.ttvs, self.transit_inds, strict=False):
-                # Handle single-planet t0 and period versus multi-planet cases.
-                if self.t0.ndim > 0 and self.t0.shape[0] > 1:
-                    t0_i = self.t0[len(transit_times_list)]
-                    period_i = self.ttv_period[len(transit_times_list)]
-                else:
-                    t0_i = self.t0.item() if hasattr(self.t0, "item") else self.t0
-                    period_i = (
-                        self.ttv_period.item()
-                        if hasattr(self.ttv_period, "item")
-                        else self.ttv_period
-                    )
+            for t0_i, period_i, ttv, inds in zip(
+                self.t0, self.ttv_period, self.ttvs, self.transit_inds, strict=False
+            ):
                 transit_times_list.append(t0_i + period_i * inds + ttv)
             self.transit_times = tuple(transit_times_list)
 
-- 
2.43.0


From 468abf968e5e9ae0fd6d440eebc4880a3db13a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 08/44] fix: expected transit times when the period or epoch is
 shared by several planets

---
 src/jaxoplanet/orbits/ttv.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/jaxoplanet/orbits/ttv.py b/src/jaxoplanet/orbits/ttv.py
index 214b33a..604031b 100644
--- a/src/jaxoplanet/orbits/ttv.py
+++ b/src/jaxoplanet/orbits/ttv.py
@@ -296,11 +296,10 @@ def compute_expected_transit_times(min_time, max_time, period, t0):
     Returns:
         transit_times: tuple of JAX arrays, one per planet.
     """
-    period = jnp.atleast_1d(period)
-    t0 = jnp.atleast_1d(t0)
+    period, t0 = jnp.broadcast_arrays(jnp.atleast_1d(period), jnp.atleast_1d(t0))
 
     transit_times_list = []
-    for p, t0_val in zip(period, t0, strict=False):
+    for p, t0_val in zip(period, t0, strict=True):
         i_min = int(jnp.ceil((min_time - t0_val) / p))
         i_max = int(jnp.floor((max_time - t0_val) / p))
         indices = jnp.arange(i_min, i_max + 1)
-- 
2.43.0


From cce4fdfa2b07042cd78f85c2aa2aeeeb5a41bf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 09/44] fix: exposure time integration with a single sample is
 centered

---
 src/jaxoplanet/light_curves/transforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index 6c2a0e9..13a42a8 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -91,6 +91,9 @@ def integrate(
         raise ValueError(
             "The parameter 'order' in 'integrate_exposure_time' must be 0, 1, or 2"
         )
+    if num_samples == 1:
+        # All the schemes reduce to the midpoint rule
+        dt = jnp.zeros(1)
     dt = dt * exposure_time
     stencil /= jnp.sum(stencil)
 
-- 
2.43.0


From 536c6f16702cd9fa22ad3661ac233fa9dd80a015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 10/44] fix: keyword arguments and outputs of any shape in
 exposure time integration

---
 src/jaxoplanet/light_curves/transforms.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index 13a42a8..e4a962f 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -17,12 +17,6 @@ from jaxoplanet.light_curves.utils import vectorize
 from jaxoplanet.types import Array, Quantity
 from jaxoplanet.units import unit_registry as ureg
 
-try:
-    from jax.extend import linear_util as lu
-except ImportError:
-    from jax import linear_util as lu  # type: ignore
-
-
 @units.quantity_input(exposure_time=ureg.d)
 def integrate(
     func: LightCurveFunc,
@@ -109,19 +103,14 @@ def integrate(
                 "on GitHub demonstrating the problem"
             )
 
-        f = lu.wrap_init(jax.vmap(func, in_axes=(0,) + (None,) * len(args)))
-        f = apply_exposure_time_integration(f, stencil, dt)  # type: ignore
-        return f.call_wrapped(time, args, kwargs)  # type: ignore
+        result = jax.vmap(lambda t: func(t, *args, **kwargs))(time + dt)
+        if is_quantity(result):
+            return jnp.tensordot(stencil, result.magnitude, axes=1) * result.units
+        return jnp.tensordot(stencil, result, axes=1)
 
     return wrapped
 
 
-@lu.transformation  # type: ignore
-def apply_exposure_time_integration(stencil, dt, time, args, kwargs):
-    result = yield (time + dt,) + args, kwargs
-    yield jnpu.dot(stencil, result)
-
-
 @units.quantity_input(period=ureg.day, time_transit=ureg.day, duration=ureg.day)
 def interpolate(
     func: LightCurveFunc,
-- 
2.43.0


From 9ef068eedec7a39c918858d42bce9c98c0f40976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 11/44] fix: interpolated light curves with several outputs

---
 src/jaxoplanet/light_curves/transforms.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index e4a962f..0aa7ecd 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -175,14 +175,19 @@ def interpolate(
             + 0.5 * period
             + time_transit
         )
-        flux = jnp.interp(
-            time_wrapped.magnitude,
-            time_grid.magnitude,
-            flux_magnitude,
-            left=flux_magnitude[0],
-            right=flux_magnitude[-1],
-            period=period.magnitude,
-        )
+        # Each output of the function is interpolated independently
+        flux = jax.vmap(
+            lambda f: jnp.interp(
+                time_wrapped.magnitude,
+                time_grid.magnitude,
+                f,
+                left=f[0],
+                right=f[-1],
+                period=period.magnitude,
+            ),
+            in_axes=1,
+        )(flux_magnitude.reshape(num_samples, -1))
+        flux = flux.reshape(flux_magnitude.shape[1:])
         if flux_units is None:
             return flux
         else:
-- 
2.43.0


From f2f0bbff495af8bcee9d8247061aff9ad6fa034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 12/44] fix: amplitude of the central surface in emission light
 curves

---
 src/jaxoplanet/light_curves/emission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/light_curves/emission.py b/src/jaxoplanet/light_curves/emission.py
index f97da38..6cd096b 100644
--- a/src/jaxoplanet/light_curves/emission.py
+++ b/src/jaxoplanet/light_curves/emission.py
@@ -40,7 +40,7 @@ def light_curve(system: SurfaceSystem, order: int = 10) -> Callable[[Quantity],
 
         lc_func = partial(_limb_dark_light_curve, system.central_surface.u, order=order)
         lc = lc_func(b.magnitude, r.magnitude)
-        lc = jnp.where(z > 0, lc, 0.0).sum(0) + 1
+        lc = system.central_surface.amplitude * (1 + jnp.where(z > 0, lc, 0.0).sum(0))
 
         bodies_lc = []
         for body, surface in zip(system.bodies, system.body_surfaces, strict=False):
-- 
2.43.0


From 7c4977f34201bad414e9858cf2d0e108fe275d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 13/44] fix: amplitude of an occulted uniform surface

---
 src/jaxoplanet/starry/light_curves.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/light_curves.py b/src/jaxoplanet/starry/light_curves.py
index c8ac0b8..233aed7 100644
--- a/src/jaxoplanet/starry/light_curves.py
+++ b/src/jaxoplanet/starry/light_curves.py
@@ -91,7 +91,8 @@ def surface_light_curve(
 
             lc_func = partial(_limb_dark_light_curve, ld_u, order=order)
             lc = lc_func(b, r)
-            return 1.0 + jnp.where(b_occ, lc, 0)
+            amplitude = surface.amplitude * surface.y[(0, 0)]
+            return amplitude * (1.0 + jnp.where(b_occ, lc, 0))
 
         else:
             theta_z = jnp.arctan2(x, y)
-- 
2.43.0


From bf4720e3a423b184c593270adff50253bfc04665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 14/44] fix: product of two spherical harmonic expansions

---
 src/jaxoplanet/starry/ylm.py | 47 ++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index b85cdb2..d50ad01 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -173,8 +173,35 @@ class Ylm(eqx.Module):
         return yu * norm
 
 
+def _real_to_complex(data: Mapping[tuple[int, int], Array]) -> dict:
+    """Coefficients of the complex harmonics from the ones of the real harmonics."""
+    res = {}
+    for ell, m in {(ell, abs(m)) for ell, m in data}:
+        if m == 0:
+            res[(ell, 0)] = data[(ell, 0)]
+        else:
+            a = data.get((ell, m), 0.0) / math.sqrt(2)
+            b = data.get((ell, -m), 0.0) / math.sqrt(2)
+            res[(ell, m)] = (-1) ** m * (a - 1j * b)
+            res[(ell, -m)] = a + 1j * b
+    return res
+
+
+def _complex_to_real(data: Mapping[tuple[int, int], Array]) -> dict:
+    """Inverse of `_real_to_complex`, for a real function."""
+    res = {}
+    for (ell, m), value in data.items():
+        if m == 0:
+            res[(ell, 0)] = jnp.real(value)
+        elif m < 0:
+            res[(ell, -m)] = math.sqrt(2) * jnp.real(value)
+            res[(ell, m)] = math.sqrt(2) * jnp.imag(value)
+    return res
+
+
 def _mul(f: Ylm, g: Ylm) -> Ylm:
-    """
+    """Product of two functions on the sphere, in the orthonormal real harmonics.
+
     Based closely on the implementation from the MIT-licensed spherical package:
 
     https://github.com/moble/spherical/blob/0aa81c309cac70b90f8dfb743ce35d2cc9ae6dee/
@@ -183,24 +210,27 @@ def _mul(f: Ylm, g: Ylm) -> Ylm:
     ellmax_f = f.deg
     ellmax_g = g.deg
     ellmax_fg = ellmax_f + ellmax_g
+    f_data = _real_to_complex(f.data)
+    g_data = _real_to_complex(g.data)
     fg = defaultdict(lambda *_: 0.0)
+    s_calculator = Wigner3jCalculator(ellmax_f, ellmax_g)
     m_calculator = Wigner3jCalculator(ellmax_f, ellmax_g)
     for ell1 in range(ellmax_f + 1):
         sqrt1 = math.sqrt((2 * ell1 + 1) / (4 * math.pi))
         for m1 in range(-ell1, ell1 + 1):
             idx1 = (ell1, m1)
-            if idx1 not in f.data:
+            if idx1 not in f_data:
                 continue
-            sum1 = sqrt1 * f.data[idx1]
+            sum1 = sqrt1 * f_data[idx1]
             for ell2 in range(ellmax_g + 1):
                 sqrt2 = math.sqrt(2 * ell2 + 1)
-                # w3j_s = s_calculator.calculate(ell1, ell2, s_f, s_g)
+                w3j_s = s_calculator.calculate(ell1, ell2, 0, 0)
                 for m2 in range(-ell2, ell2 + 1):
                     idx2 = (ell2, m2)
-                    if idx2 not in g.data:
+                    if idx2 not in g_data:
                         continue
                     w3j_m = m_calculator.calculate(ell1, ell2, m1, m2)
-                    sum2 = sqrt2 * g.data[idx2]
+                    sum2 = sqrt2 * g_data[idx2]
                     m3 = m1 + m2
                     for ell3 in range(
                         max(abs(m3), abs(ell1 - ell2)), min(ell1 + ell2, ellmax_fg) + 1
@@ -209,14 +239,15 @@ def _mul(f: Ylm, g: Ylm) -> Ylm:
                         # contributions together
                         fg[(ell3, m3)] += (
                             (
-                                math.pow(-1, ell1 + ell2 + ell3 + m3)
+                                math.pow(-1, m3)
                                 * math.sqrt(2 * ell3 + 1)
+                                * w3j_s[ell3]  # Wigner3j(ell1, ell2, ell3, 0, 0, 0)
                                 * w3j_m[ell3]  # Wigner3j(ell1, ell2, ell3, m1, m2, -m3)
                             )
                             * sum1
                             * sum2
                         )
-    return Ylm(fg)
+    return Ylm(_complex_to_real(fg))
 
 
 def Bp(ydeg, npts: int = 1000, eps: float = 1e-9, smoothing=None):
-- 
2.43.0


From aaa820cfca8e40892a0300a12a86f3f03d77b302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:33 +0000
Subject: [PATCH 15/44] fix: degree of the first factor in the polynomial
 product matrix

---
 src/jaxoplanet/starry/core/polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/polynomials.py b/src/jaxoplanet/starry/core/polynomials.py
index 26acbad..336aeab 100644
--- a/src/jaxoplanet/starry/core/polynomials.py
+++ b/src/jaxoplanet/starry/core/polynomials.py
@@ -180,7 +180,7 @@ def polynomial_product_matrix(p, degree):
         Array: The polynomial product matrix.
     """
     p = jnp.array(p)
-    deg_p = int(np.floor(np.sqrt(len(p))))
+    deg_p = int(np.floor(np.sqrt(len(p)))) - 1
     M = jnp.zeros(
         ((deg_p + degree + 1) * (deg_p + degree + 1), (degree + 1) * (degree + 1))
     )
-- 
2.43.0


From 28d9c612443bf9411752e53d3d995a8238399dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 16/44] fix: sense of the obliquity when no inclination is
 given

---
 src/jaxoplanet/starry/core/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index c819e8d..f6ee54b 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -157,7 +157,7 @@ def sky_projection_axis_angle(inc: float | None, obl: float | None):
         return 1.0, None, None, inc
 
     elif inc is None:
-        return None, None, 1.0, obl
+        return None, None, 1.0, -obl
 
     else:
         co = jnp.cos(obl / 2)
-- 
2.43.0


From 198fbbce36c90505184023e940089099eee2cba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 17/44] fix: radial velocity map of a surface seen from the
 pole (inclination None)

---
 src/jaxoplanet/starry/doppler.py | 2 +-
 src/jaxoplanet/starry/surface.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 7a9ab36..56bee99 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -147,7 +147,7 @@ def surface_radial_velocity(
 
     # the radial velocity map
     y_rv = rv_map_expansion(
-        inc=surface._inc, obl=surface._obl, veq=surface.veq, alpha=None
+        inc=surface.inc, obl=surface.obl, veq=surface.veq, alpha=None
     )
 
     # rotated to account for the occultor
diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index 6a93648..b6e7b33 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -177,7 +177,7 @@ class Surface(eqx.Module):
 
         if rv:
             y_rv = starry.doppler.rv_map_expansion(
-                inc=self._inc, obl=self._obl, veq=self.veq, alpha=None
+                inc=self.inc, obl=self.obl, veq=self.veq, alpha=None
             )
             p_rv = Pijk.from_dense(
                 jax.experimental.sparse.BCOO.from_scipy_sparse(A1(self.vdeg)).todense()
-- 
2.43.0


From 61f45cbffddb2ec6a47cdf23e7f04e1ce669f209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 18/44] fix: the radial velocity of a surface does not depend
 on its amplitude

---
 src/jaxoplanet/starry/doppler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 56bee99..1d39a08 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -165,7 +165,7 @@ def surface_radial_velocity(
 
     intensity = (p_yu.tosparse() @ design_matrix_p[0:n_deg]) * norm
 
-    return surface.amplitude * rv * norm / intensity
+    return rv * norm / intensity
 
 
 def radial_velocity(system, order=20):
-- 
2.43.0


From fb32fc926fef413bf3bf868db76a0494d3859979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:09 +0000
Subject: [PATCH 19/44] fix: Doppler observables of a surface with differential
 rotation

---
 src/jaxoplanet/starry/doppler.py | 2 +-
 src/jaxoplanet/starry/surface.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 1d39a08..6975f5d 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -147,7 +147,7 @@ def surface_radial_velocity(
 
     # the radial velocity map
     y_rv = rv_map_expansion(
-        inc=surface.inc, obl=surface.obl, veq=surface.veq, alpha=None
+        inc=surface.inc, obl=surface.obl, veq=surface.veq, alpha=surface.shear
     )
 
     # rotated to account for the occultor
diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index b6e7b33..f36c829 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -157,7 +157,7 @@ class Surface(eqx.Module):
     @property
     def vdeg(self) -> int:
         if self.shear is not None:
-            return
+            return 3
         else:
             return 1
 
@@ -177,7 +177,7 @@ class Surface(eqx.Module):
 
         if rv:
             y_rv = starry.doppler.rv_map_expansion(
-                inc=self.inc, obl=self.obl, veq=self.veq, alpha=None
+                inc=self.inc, obl=self.obl, veq=self.veq, alpha=self.shear
             )
             p_rv = Pijk.from_dense(
                 jax.experimental.sparse.BCOO.from_scipy_sparse(A1(self.vdeg)).todense()
-- 
2.43.0


From 79c067b3135f6f8638108c4d5328f03875a0a65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 20/44] fix: Doppler observables of a surface that does not
 rotate

---
 src/jaxoplanet/starry/surface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index f36c829..6814eb0 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -136,7 +136,9 @@ class Surface(eqx.Module):
 
     @property
     def veq(self):
-        """Equatorial velocity of the map in Rsun/day."""
+        """Equatorial velocity of the map in Rsun/day. None if not rotating."""
+        if self.period is None:
+            return None
         return 2 * jnp.pi * self.radius / self.period
 
     def _poly_basis(self, rv=False):
-- 
2.43.0


From 915838ea666736b08c9f143d365d0cff766860a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 21/44] fix: sign of the axis of a rotation about z only

---
 src/jaxoplanet/starry/core/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index f6ee54b..96b3527 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -40,7 +40,7 @@ def dot_rotation_matrix(ydeg, x, y, z, theta):
         if z is None:
             raise ValueError("Either x, y, or z must be specified")
 
-        return dot_rz(ydeg, theta)
+        return dot_rz(ydeg, jnp.sign(z) * theta)
 
     x = 0.0 if x is None else x
     y = 0.0 if y is None else y
-- 
2.43.0


From c5abbd11d1532209e102da7f2c0b7640be810246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:23 +0000
Subject: [PATCH 22/44] fix: solution vector of degree zero

---
 src/jaxoplanet/starry/core/solution.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/jaxoplanet/starry/core/solution.py b/src/jaxoplanet/starry/core/solution.py
index caa0b10..1f1cb98 100644
--- a/src/jaxoplanet/starry/core/solution.py
+++ b/src/jaxoplanet/starry/core/solution.py
@@ -206,14 +206,16 @@ def p_integral(order: int, l_max: int, b: Array, r: Array, kappa0: Array) -> Arr
             n += 1
 
     low_indices = np.stack(low_indices)
-    high_indices = np.stack(high_indices)
-
     low_P0 = rng * jnp.sum(jnp.stack(low_integrand) * low_weights, axis=1)
-    high_P0 = rng * jnp.sum(jnp.stack(high_integrand) * high_weights, axis=1)
 
     P = jnp.zeros(l_max**2 + 2 * l_max + 1)
     P = P.at[low_indices].set(low_P0)
-    P = P.at[high_indices].set(high_P0)
+
+    # There are no such terms when l_max is zero
+    if high_indices:
+        high_indices = np.stack(high_indices)
+        high_P0 = rng * jnp.sum(jnp.stack(high_integrand) * high_weights, axis=1)
+        P = P.at[high_indices].set(high_P0)
 
     return P
 
-- 
2.43.0


From b5689498ca1382600a3f9e73b733db22a5d61e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 23/44] fix: sense of the latitude and longitude in
 Surface.intensity

---
 src/jaxoplanet/starry/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index 6814eb0..126e82a 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -215,8 +215,8 @@ class Surface(eqx.Module):
         Returns:
             float: intensity of the map at the given latitude and longitude
         """
-        lon = lon + jnp.pi / 2  # convention, 0 lon faces the observer
-        lat = jnp.pi / 2 - lat  # convention, latitude 0 is equator
+        lon = jnp.pi / 2 - lon  # convention, 0 lon faces the observer
+        lat = jnp.pi / 2 + lat  # convention, latitude 0 is equator
         x = jnp.sin(lat) * jnp.cos(lon)
         y = jnp.sin(lat) * jnp.sin(lon)
         z = jnp.cos(lat) * jnp.ones_like(x)
-- 
2.43.0


From 236113a1a7cf4566e588323203cb0c00c49f6365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 24/44] fix: velocity map of a surface with shear and no
 rotation period

---
 src/jaxoplanet/starry/doppler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 6975f5d..4325765 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -26,7 +26,7 @@ def rv_map_expansion(veq=None, inc=None, obl=None, alpha=None):
     sq3 = jnp.sqrt(3)
 
     if veq is None:
-        return jnp.array([0.0, 0.0, 0.0, 0.0])
+        return jnp.zeros(4 if alpha is None else 16)
 
     if alpha is None:
         return jnp.array([0.0, veq * sq3 * B / 3, 0, veq * sq3 * A / 3]) * jnp.pi
-- 
2.43.0


From 048d58237482e05a8ee1a6a67890b2a73d97cfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 25/44] fix: gradient of the spot profile with respect to the
 radius

---
 src/jaxoplanet/starry/ylm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index d50ad01..afb39be 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -284,7 +284,7 @@ def spot_profile(theta, radius, spot_fac=300):
 
     """
     z = spot_fac * (theta - radius)
-    return 1 / (1 + jnp.exp(-z)) - 1
+    return jax.nn.sigmoid(z) - 1
 
 
 def ylm_spot(ydeg: int, npts=300, spot_fac=300) -> callable:
-- 
2.43.0


From 4e253d3befa017f72de0668d53877808c91d794a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:16 +0000
Subject: [PATCH 26/44] fix: spot expansion inside a jitted function

---
 src/jaxoplanet/starry/ylm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index afb39be..e4c11c6 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -263,8 +263,8 @@ def Bp(ydeg, npts: int = 1000, eps: float = 1e-9, smoothing=None):
         else:
             smoothing = 2.0 / ydeg
 
-    theta = jnp.linspace(0, jnp.pi, npts)
-    cost = jnp.cos(theta)
+    theta = np.linspace(0, np.pi, npts)
+    cost = np.cos(theta)
     B = jnp.hstack(
         [
             jnp.sqrt(2 * l + 1) * LegendreP(l)(cost).reshape(-1, 1)
-- 
2.43.0


From f9a2a1889d9eb172812d91313d0f5bafa3b02714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:49 +0000
Subject: [PATCH 27/44] fix: multiprecision rotation of the constant term

---
 src/jaxoplanet/starry/multiprecision/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/multiprecision/rotation.py b/src/jaxoplanet/starry/multiprecision/rotation.py
index 54637a0..fb22080 100644
--- a/src/jaxoplanet/starry/multiprecision/rotation.py
+++ b/src/jaxoplanet/starry/multiprecision/rotation.py
@@ -182,7 +182,7 @@ def dot_rotation_matrix(ydeg, u, theta, rotation_matrices=None):
         result = []
         for l in range(ydeg + 1):
             if l == 0:
-                result.append(mp.matrix([1]))
+                result.append(mp.matrix([M[0]]))
             else:
                 result.append(
                     mp.matrix(M[l * l : l * l + 2 * l + 1]).T @ rotation_matrices[l]
-- 
2.43.0


From 167f4c92159b7fc2e37c3dfa92b444f8e70d6fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:49 +0000
Subject: [PATCH 28/44] fix: multiprecision projection in the frame of the
 occultor

---
 src/jaxoplanet/starry/multiprecision/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/multiprecision/rotation.py b/src/jaxoplanet/starry/multiprecision/rotation.py
index fb22080..be439b2 100644
--- a/src/jaxoplanet/starry/multiprecision/rotation.py
+++ b/src/jaxoplanet/starry/multiprecision/rotation.py
@@ -211,7 +211,7 @@ def left_project(deg, inc, obl, theta, theta_z, x):
     )(x)
 
     if theta_z != 0:
-        x = dot_rotation_matrix(deg, 0, 0, 1.0, -theta_z)(x)
+        x = dot_rotation_matrix(deg, (0.0, 0.0, 1.0), -theta_z)(x)
     return x.T
 
 
-- 
2.43.0


From e83e714a552d8c3c5c0bb8c1b7ca3f0e706ce479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 29/44] fix: multiprecision flux without rotation of the map

---
 src/jaxoplanet/starry/multiprecision/flux.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jaxoplanet/starry/multiprecision/flux.py b/src/jaxoplanet/starry/multiprecision/flux.py
index d03c3e4..78df968 100644
--- a/src/jaxoplanet/starry/multiprecision/flux.py
+++ b/src/jaxoplanet/starry/multiprecision/flux.py
@@ -66,6 +66,8 @@ def flux(ydeg=0, udeg=0, inc=mp.pi / 2, obl=0.0, cache=None):
             if rotate:
                 y_rotated = rotate_y(y, phi)
                 y_rotated = dot_rz(ydeg, theta_z)(y_rotated)
+            else:
+                y_rotated = y
         else:
             y_rotated = mp.matrix([1])
 
-- 
2.43.0


From 74f1ccdc5c34b44304e1b49c63d2fd1526e4e8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:37 +0000
Subject: [PATCH 30/44] fix: limb darkening in the multiprecision flux of an
 unocculted surface

---
 src/jaxoplanet/starry/multiprecision/flux.py | 42 +++++++++++---------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/jaxoplanet/starry/multiprecision/flux.py b/src/jaxoplanet/starry/multiprecision/flux.py
index 78df968..b5865cd 100644
--- a/src/jaxoplanet/starry/multiprecision/flux.py
+++ b/src/jaxoplanet/starry/multiprecision/flux.py
@@ -49,10 +49,28 @@ def flux(ydeg=0, udeg=0, inc=mp.pi / 2, obl=0.0, cache=None):
         y_rotated = dot_rotation_matrix(ydeg, None, None, R_inc)(y_rotated)
         return y_rotated
 
-    def rot_flux(y, phi):
-        y = mp.matrix(y.tolist())
-        y_rotated = rotate_y(y, phi)
-        return ((_A1 @ y_rotated).T @ _rT)[0]
+    def limb_darken(py, u):
+        """Product with the limb darkening law, and its normalization."""
+        if udeg == 0:
+            return py, 1
+        u = mp.matrix([1, *u])
+        pu = u.T @ utils.to_mp(U(udeg))
+        norm = mp.pi / (pu @ rT_udeg)[0]
+        py = Pijk.from_dense(pu.tolist()[0]) * Pijk.from_dense(py)
+        py = mp.matrix(
+            [py.data.get(Pijk.n2ijk(i), 0.0) for i in range((py.degree + 1) ** 2)]
+        ).T
+        return py, norm
+
+    def rot_flux(y, phi, u=None, rotate=True):
+        if ydeg > 0:
+            y_rotated = mp.matrix(y.tolist())
+            if rotate:
+                y_rotated = rotate_y(y_rotated, phi)
+        else:
+            y_rotated = mp.matrix([1])
+        py, norm = limb_darken((_A1 @ y_rotated).T, u)
+        return norm * (py @ _rT)[0]
 
     def occ_flux(y, b, r, phi=0.0, u=None, rotate=True):
         xo = 0.0
@@ -71,19 +89,7 @@ def flux(ydeg=0, udeg=0, inc=mp.pi / 2, obl=0.0, cache=None):
         else:
             y_rotated = mp.matrix([1])
 
-        py = (_A1 @ y_rotated).T
-
-        if udeg > 0:
-            _U = utils.to_mp(U(udeg))
-            u = mp.matrix([1, *u])
-            pu = u.T @ _U
-            norm = mp.pi / (pu @ rT_udeg)[0]
-            py = Pijk.from_dense(pu.tolist()[0]) * Pijk.from_dense(py)
-            py = mp.matrix(
-                [py.data.get(Pijk.n2ijk(i), 0.0) for i in range((py.degree + 1) ** 2)]
-            ).T
-        else:
-            norm = 1
+        py, norm = limb_darken((_A1 @ y_rotated).T, u)
         return norm * py @ x.T
 
     def impl(b, r, y=(), phi=0.0, u=(), rotate=True):
@@ -92,7 +98,7 @@ def flux(ydeg=0, udeg=0, inc=mp.pi / 2, obl=0.0, cache=None):
             assert len(y) == (ydeg + 1) ** 2, "y must have length (ydeg + 1) ** 2"
 
         if abs(b) >= (r + 1):
-            return rot_flux(y, phi)
+            return rot_flux(y, phi, u=u, rotate=rotate)
         elif r > 1 and abs(b) <= (r - 1):
             return mp.mpf(0.0)
         else:
-- 
2.43.0


From 898895e9662f6741a7ae0a79faf692f0bb840720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 31/44] fix: multiprecision occultation integrals when b = 0

---
 .../starry/multiprecision/solution.py         | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/jaxoplanet/starry/multiprecision/solution.py b/src/jaxoplanet/starry/multiprecision/solution.py
index a8a97fe..5965ed3 100644
--- a/src/jaxoplanet/starry/multiprecision/solution.py
+++ b/src/jaxoplanet/starry/multiprecision/solution.py
@@ -60,7 +60,8 @@ def P(l, m, b, r):
 
     kappa = phi + mp.pi / 2
     delta = (b - r) / (2 * r)
-    k2 = (1 - r**2 - b**2 + 2 * b * r) / (4 * b * r)
+    # 4 * b * r * k2, which unlike k2 is finite when b = 0
+    fbrk2 = 1 - r**2 - b**2 + 2 * b * r
 
     if (mu / 2) % 2 == 0:
 
@@ -79,9 +80,8 @@ def P(l, m, b, r):
             s = mp.sin(x)
             return (
                 (2 * r) ** (l - 1)
-                * (4 * b * r) ** (3.0 / 2.0)
                 * (s**2 - s**4) ** (0.5 * (l - 2))
-                * (k2 - s**2) ** (3.0 / 2.0)
+                * (fbrk2 - 4 * b * r * s**2) ** (3.0 / 2.0)
                 * (1 - 2 * s**2)
             )
 
@@ -91,10 +91,9 @@ def P(l, m, b, r):
             s = mp.sin(x)
             return (
                 (2 * r) ** (l - 1)
-                * (4 * b * r) ** (3.0 / 2.0)
                 * (s**2 - s**4) ** (0.5 * (l - 3))
                 * (delta + s**2)
-                * (k2 - s**2) ** (3.0 / 2.0)
+                * (fbrk2 - 4 * b * r * s**2) ** (3.0 / 2.0)
                 * (1 - 2 * s**2)
             )
 
@@ -105,10 +104,9 @@ def P(l, m, b, r):
             return (
                 2
                 * (2 * r) ** (l - 1)
-                * (4 * b * r) ** (3.0 / 2.0)
                 * (s**2 - s**4) ** (0.25 * (mu - 1))
                 * (delta + s**2) ** (0.5 * (nu - 1))
-                * (k2 - s**2) ** (3.0 / 2.0)
+                * (fbrk2 - 4 * b * r * s**2) ** (3.0 / 2.0)
             )
 
     elif (mu == 1) and (l == 1):
@@ -257,13 +255,14 @@ def solution_limb_dark(degree, b, r):
         s.append(s1.real)
 
     if degree >= 2:
-        k2 = (1 - r2 - b2 + 2 * b * r) / (4 * b * r)
+        # 4 * b * r * k2, which unlike k2 is finite when b = 0
+        fbrk2 = 1 - r2 - b2 + 2 * b * r
 
-        if k2 <= 1:
+        if fbrk2 <= 4 * b * r:
             eta = (1 / (2 * mp.pi)) * (
                 k1 + r2 * (r2 + 2 * b2) * k0 - 0.25 * (1 + 5 * r2 + b2) * area
             )
-        elif k2 > 1:
+        else:
             eta = 0.5 * r2 * (r2 + 2 * b2)
 
         s2 = 2 * s0 + 4 * mp.pi * eta - 2 * mp.pi
@@ -275,9 +274,9 @@ def solution_limb_dark(degree, b, r):
 
             def func(x):
                 s2 = mp.sin(x) ** 2
-                return (k2 - s2) ** (0.5 * n) * (r - b + 2 * b * s2)
+                return (fbrk2 - 4 * b * r * s2) ** (0.5 * n) * (r - b + 2 * b * s2)
 
-            sn = 2 * r * (4 * b * r) ** (0.5 * n) * mp.quad(func, [-k0 / 2, k0 / 2])
+            sn = 2 * r * mp.quad(func, [-k0 / 2, k0 / 2])
             sn = sn.real
 
             s.append(-sn)
-- 
2.43.0


From ed73a43650b41e267edea6e19f18203ff1ff231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:47 +0000
Subject: [PATCH 32/44] fix: reverse-mode derivative of the intensity of a
 surface

---
 src/jaxoplanet/starry/core/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/basis.py b/src/jaxoplanet/starry/core/basis.py
index 3d8e323..20bfcb6 100644
--- a/src/jaxoplanet/starry/core/basis.py
+++ b/src/jaxoplanet/starry/core/basis.py
@@ -369,7 +369,7 @@ def poly_basis(deg):
 
         p = jnp.array(xarr) * jnp.array(yarr)
         if len(inds):
-            return p.at[np.array(inds)].multiply(z)
+            return p.at[np.array(inds)].multiply(z, unique_indices=True)
         else:
             return p
 
-- 
2.43.0


From f0727729045d1c17113f702e95cc850b0f37b091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:01 +0000
Subject: [PATCH 33/44] fix: second derivatives of the occultation integrals
 when nothing or everything is hidden

---
 src/jaxoplanet/starry/core/solution.py | 10 ++++++----
 src/jaxoplanet/utils.py                |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/jaxoplanet/starry/core/solution.py b/src/jaxoplanet/starry/core/solution.py
index 1f1cb98..3956af7 100644
--- a/src/jaxoplanet/starry/core/solution.py
+++ b/src/jaxoplanet/starry/core/solution.py
@@ -137,7 +137,9 @@ def p_integral(order: int, l_max: int, b: Array, r: Array, kappa0: Array) -> Arr
     high_roots, high_weights = roots_legendre(high_order)
     phi = rng * (high_roots + 1)
     high_s2 = jnp.square(jnp.sin(phi))
-    high_f0 = jnp.maximum(0, jnp.where(k2_cond, 1 - r2, factor * (k2 - high_s2))) ** 1.5
+    high_z2 = jnp.where(k2_cond, 1 - r2, factor * (k2 - high_s2))
+    high_f0_cond = jnp.greater(high_z2, 0)
+    high_f0 = jnp.where(high_f0_cond, jnp.where(high_f0_cond, high_z2, 1) ** 1.5, 0)
     high_a1 = high_s2 - jnp.square(high_s2)
     high_a2 = jnp.where(r_cond, 0, delta + high_s2)
     high_a4 = 1 - 2 * high_s2
@@ -173,8 +175,8 @@ def p_integral(order: int, l_max: int, b: Array, r: Array, kappa0: Array) -> Arr
                 f = (
                     2
                     * (2 * r) ** (l + 2)
-                    * low_a1 ** (0.25 * (mu + 4))
-                    * low_a2 ** (0.5 * nu)
+                    * low_a1 ** ((mu + 4) // 4)
+                    * low_a2 ** (nu // 2)
                 )
                 low_integrand.append(2 * f)
                 low_indices.append(n)
@@ -194,7 +196,7 @@ def p_integral(order: int, l_max: int, b: Array, r: Array, kappa0: Array) -> Arr
                     2
                     * high_fa3
                     * high_a1 ** ((mu - 1) // 4)
-                    * high_a2 ** (0.5 * (nu - 1))
+                    * high_a2 ** ((nu - 1) // 2)
                 )
                 high_integrand.append(2 * f)
                 high_indices.append(n)
diff --git a/src/jaxoplanet/utils.py b/src/jaxoplanet/utils.py
index 66c8a42..959bd90 100644
--- a/src/jaxoplanet/utils.py
+++ b/src/jaxoplanet/utils.py
@@ -17,7 +17,7 @@ def zero_safe_sqrt(x):
 def zero_safe_sqrt_jvp(primals, tangents):
     (x,) = primals
     (x_dot,) = tangents
-    primal_out = jnp.sqrt(x)
+    primal_out = zero_safe_sqrt(x)
     cond = jnp.less(x, 10 * get_dtype_eps(x))
     denom = jnp.where(cond, jnp.ones_like(x), x)
     tangent_out = 0.5 * x_dot * primal_out / denom
-- 
2.43.0


From 2b983bcd0802ad967eca3703e72d61bb830b48fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:55 +0000
Subject: [PATCH 34/44] fix: radial velocity of a system with surfaces at a
 single time

---
 src/jaxoplanet/starry/doppler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 4325765..d1da4e6 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -173,7 +173,6 @@ def radial_velocity(system, order=20):
 
     def impl(time):
         rvs = bodies_rv(time)
-        rvs = rvs.at[:, 0].set(rvs[:, 0] + system.radial_velocity(time)[0].magnitude)
-        return rvs
+        return rvs.at[..., 0].add(system.radial_velocity(time)[0].magnitude)
 
     return impl
-- 
2.43.0


From 84c55bcd5730ff93020b02bd447b2b5acef684b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:07 +0000
Subject: [PATCH 35/44] fix: expansion of a limb darkening law with traced
 coefficients

---
 src/jaxoplanet/starry/ylm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index e4c11c6..760f2db 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -165,9 +165,9 @@ class Ylm(eqx.Module):
         Spherical harmonics coefficients from limb darkening coefficients.
         """
         deg = len(u)
-        _u = np.array([1, *u])
+        _u = jnp.array([1, *u])
         pu = _u @ basis.U(deg)
-        yu = np.array(np.linalg.inv(basis.A1(deg).todense()) @ pu)
+        yu = jnp.linalg.inv(basis.A1(deg).todense()) @ pu
         yu = Ylm.from_dense(yu.flatten(), normalize=False)
         norm = 1 / (Pijk.from_dense(pu, degree=deg).tosparse() @ solution.rT(deg))
         return yu * norm
-- 
2.43.0


From dd69b81ff8127711d700503a1ac0843bc0336703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:21 +0000
Subject: [PATCH 36/44] fix: show_surface drew the graticule on the current
 axes instead of the given ones

---
 src/jaxoplanet/starry/utils.py         | 12 ++++++++----
 src/jaxoplanet/starry/visualization.py |  1 +
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/jaxoplanet/starry/utils.py b/src/jaxoplanet/starry/utils.py
index 4c636d4..8415ab0 100644
--- a/src/jaxoplanet/starry/utils.py
+++ b/src/jaxoplanet/starry/utils.py
@@ -113,10 +113,14 @@ def graticule(
     white_contour=True,
     radius: float = 1.0,
     n=6,
+    ax=None,
     **kwargs,
 ):
     import matplotlib.pyplot as plt
 
+    if ax is None:
+        ax = plt.gca()
+
     kwargs.setdefault("c", kwargs.pop("color", "k"))
     kwargs.setdefault("lw", kwargs.pop("linewidth", 1))
     kwargs.setdefault("alpha", 0.3)
@@ -124,16 +128,16 @@ def graticule(
     # plot lines
     lat, lon = lon_lat_lines(pts=pts, radius=radius, n=n)
     lat = rotate_lines(lat, inc, obl, theta)
-    plot_lines(lat, **kwargs)
+    plot_lines(lat, ax=ax, **kwargs)
     lon = rotate_lines(lon, inc, obl, theta)
-    plot_lines(lon, **kwargs)
+    plot_lines(lon, ax=ax, **kwargs)
     theta = np.linspace(0, 2 * np.pi, 2 * pts)
 
     # contour
     sqrt_radius = radius
-    plt.plot(sqrt_radius * np.cos(theta), sqrt_radius * np.sin(theta), **kwargs)
+    ax.plot(sqrt_radius * np.cos(theta), sqrt_radius * np.sin(theta), **kwargs)
     if white_contour:
-        plt.plot(sqrt_radius * np.cos(theta), sqrt_radius * np.sin(theta), c="w", lw=3)
+        ax.plot(sqrt_radius * np.cos(theta), sqrt_radius * np.sin(theta), c="w", lw=3)
 
 
 # s2fft have the same but this one is jitabel
diff --git a/src/jaxoplanet/starry/visualization.py b/src/jaxoplanet/starry/visualization.py
index 9b2832d..0c079a9 100644
--- a/src/jaxoplanet/starry/visualization.py
+++ b/src/jaxoplanet/starry/visualization.py
@@ -93,6 +93,7 @@ def show_surface(
             radius=radius,
             n=n,
             white_contour=white_contour,
+            ax=ax,
         )
     ax.set_xlim(-1.02, 1.02)
     ax.set_ylim(-1.02, 1.02)
-- 
2.43.0


From c9093414ba346600011caf7c33362602a4ee0392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:21 +0000
Subject: [PATCH 37/44] fix: show_surface drew the image of a body with another
 size than its graticule

---
 src/jaxoplanet/starry/visualization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jaxoplanet/starry/visualization.py b/src/jaxoplanet/starry/visualization.py
index 0c079a9..afaa768 100644
--- a/src/jaxoplanet/starry/visualization.py
+++ b/src/jaxoplanet/starry/visualization.py
@@ -77,7 +77,7 @@ def show_surface(
         radius = 1.0 if radius is None else radius
 
     phase = theta + (surface.phase if include_phase else 0.0)
-    extent = np.array([-1, 1, -1, 1])
+    extent = radius * np.array([-1, 1, -1, 1])
 
     im = ax.imshow(
         surface.render(phase, res, rv=rv),
@@ -95,8 +95,8 @@ def show_surface(
             white_contour=white_contour,
             ax=ax,
         )
-    ax.set_xlim(-1.02, 1.02)
-    ax.set_ylim(-1.02, 1.02)
+    ax.set_xlim(-1.02 * radius, 1.02 * radius)
+    ax.set_ylim(-1.02 * radius, 1.02 * radius)
     ax.axis(False)
 
     if return_im:
-- 
2.43.0


From bbe98916adaa79aed5d304c94be16434f07c52e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:06 +0000
Subject: [PATCH 38/44] fix: show_surface of a body without graticule (n=None)
 raised

---
 src/jaxoplanet/starry/visualization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/visualization.py b/src/jaxoplanet/starry/visualization.py
index afaa768..7c34e6a 100644
--- a/src/jaxoplanet/starry/visualization.py
+++ b/src/jaxoplanet/starry/visualization.py
@@ -60,7 +60,8 @@ def show_surface(
             radius = ylm_pijk_surface_body.radius.magnitude
         else:
             radius = 1.0 if radius is None else radius
-        n = int(np.ceil(n * np.cbrt(radius)))
+        if n is not None:
+            n = int(np.ceil(n * np.cbrt(radius)))
     # import Ylm leads to circular import
     elif isinstance(ylm_pijk_surface_body, Ylm):
         surface = Surface(y=ylm_pijk_surface_body)
-- 
2.43.0


From 90d585c8eab0e27f8ef2dbf1876540bc6fbfb65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:03 +0000
Subject: [PATCH 39/44] fix: radial_velocity of a surface system counted the
 first body only and failed without bodies

---
 src/jaxoplanet/starry/doppler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index d1da4e6..1df78ed 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -173,6 +173,9 @@ def radial_velocity(system, order=20):
 
     def impl(time):
         rvs = bodies_rv(time)
-        return rvs.at[..., 0].add(system.radial_velocity(time)[0].magnitude)
+        if len(system.bodies) == 0:
+            return rvs
+        # The central moves in response to all the bodies
+        return rvs.at[..., 0].add(system.radial_velocity(time).magnitude.sum(0))
 
     return impl
-- 
2.43.0


From 408065dc4782266ccc31e2a8486f073c0afc56b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:40 +0000
Subject: [PATCH 40/44] fix: gradients of the limb darkened flux for tiny
 occultors and nearly equal disks

The square root in kite_area was not differentiated where the squared area is close to
zero, which also holds for triangles that are small but not degenerate: occultors with
r < 5e-4 in single precision (r < 2e-8 in double), or r = 1 and b close to zero.
---
 src/jaxoplanet/core/limb_dark.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/core/limb_dark.py b/src/jaxoplanet/core/limb_dark.py
index cf2d4c6..9dd7f56 100644
--- a/src/jaxoplanet/core/limb_dark.py
+++ b/src/jaxoplanet/core/limb_dark.py
@@ -198,5 +198,9 @@ def kite_area(a: Array, b: Array, c: Array) -> Array:
     b, c = sort2(b, c)
     a, b = sort2(a, b)
 
-    square_area = (a + (b + c)) * (c - (a - b)) * (c + (a - b)) * (a + (b - c))
-    return zero_safe_sqrt(jnp.maximum(0, square_area))
+    # The shortest side is factored out, so that the square root is only taken close to
+    # zero, where its derivative is cut off, when the triangle is degenerate
+    a_ = jnp.where(a > 0, a, jnp.ones_like(a))
+    square_area = (a + (b + c)) * (c - (a - b))
+    square_area *= ((c + (a - b)) / a_) * ((a + (b - c)) / a_)
+    return a * zero_safe_sqrt(jnp.maximum(0, square_area))
-- 
2.43.0


From 2724418da4d1522a3a6ef54e1dd061fbf0dddfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:53 +0000
Subject: [PATCH 41/44] fix: limb darkened flux and gradients where the limb of
 a small occultor passes close to the center

---
 src/jaxoplanet/core/limb_dark.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jaxoplanet/core/limb_dark.py b/src/jaxoplanet/core/limb_dark.py
index 9dd7f56..3dc81a9 100644
--- a/src/jaxoplanet/core/limb_dark.py
+++ b/src/jaxoplanet/core/limb_dark.py
@@ -174,10 +174,11 @@ def p_integral(
         z2 = jnp.where(m, jnp.ones_like(z2), z2)
         # z2 = 0 on the limb of the star, so z3 vanishes there too
         z3 = jnp.where(m, jnp.zeros_like(z2), z2 * zero_safe_sqrt(z2))
-        cond = jnp.less(omz2, 10 * jnp.finfo(omz2.dtype).eps)
-        omz2 = jnp.where(cond, jnp.ones_like(z2), omz2)
-        result = 2 * r * (r - b * c) * (1 - z3) / (3 * omz2)
-        arg.append(jnp.where(cond, jnp.zeros_like(result[None, :]), result[None, :]))
+        # (1 - z3) / omz2 without the cancellation for small omz2, where the limb of the
+        # occultor passes close to the center of the star
+        omz2 = jnp.where(m, jnp.ones_like(z2), omz2)
+        result = 2 * r * (r - b * c) * (3 - omz2 * (3 - omz2)) / (3 * (1 + z3))
+        arg.append(result[None, :])
     if l_max >= 3:
         f0 = jnp.maximum(
             jnp.zeros_like(r2), jnp.where(k2_cond, 1 - r2, factor * (k2 - s2))
-- 
2.43.0


From bcddacb217e50ac8197d3fb69330fd31b52d931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:06 +0000
Subject: [PATCH 42/44] fix: rotations by less than half a degree were dropped
 from the axis-angle representation

---
 src/jaxoplanet/starry/core/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index 96b3527..697b2a2 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -123,7 +123,7 @@ def full_rotation_axis_angle(
     denominator = jnp.sqrt(1 - 0.5 * arg**2)
 
     farg = f * arg
-    zero_angle = jnp.allclose(farg, 1.0, atol=get_dtype_eps(farg))
+    zero_angle = jnp.allclose(farg, 1.0, rtol=0.0, atol=get_dtype_eps(farg))
     angle = jnp.where(zero_angle, 0.0, 2 * jnp.arccos(farg))
 
     non_zero_angle = jnp.logical_not(zero_angle)
-- 
2.43.0


From d013152ac9a47236e693a8a6406816b95e656053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:22 +0000
Subject: [PATCH 43/44] fix: axis and angle of the full rotation inaccurate or
 NaN close to the identity

---
 src/jaxoplanet/starry/core/rotation.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index 697b2a2..e523e70 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -120,20 +120,15 @@ def full_rotation_axis_angle(
     numerator2 = f * (-si * sm + sp * ci)
     numerator3 = f * (si * sm + sp * ci)
     arg = si * cm + ci * cp
-    denominator = jnp.sqrt(1 - 0.5 * arg**2)
-
-    farg = f * arg
-    zero_angle = jnp.allclose(farg, 1.0, rtol=0.0, atol=get_dtype_eps(farg))
-    angle = jnp.where(zero_angle, 0.0, 2 * jnp.arccos(farg))
-
-    non_zero_angle = jnp.logical_not(zero_angle)
-
-    # this is mostly useful for the float32 case, where
-    # (1 - 0.5 * arg**2) in denominator can be negative due to numerical error
-    positive_arg = arg**2 < 2.0
-    axis_x = jnp.where(positive_arg & non_zero_angle, numerator1 / denominator, 1.0)
-    axis_y = jnp.where(positive_arg & non_zero_angle, numerator2 / denominator, 0.0)
-    axis_z = jnp.where(positive_arg & non_zero_angle, numerator3 / denominator, 0.0)
+    # the numerators are the axis times the sine of half the angle
+    norm2 = numerator1**2 + numerator2**2 + numerator3**2
+    zero_angle = norm2 < get_dtype_eps(norm2) ** 2
+    norm = jnp.sqrt(jnp.where(zero_angle, 1.0, norm2))
+
+    angle = jnp.where(zero_angle, 0.0, 2 * jnp.arctan2(norm, f * arg))
+    axis_x = jnp.where(zero_angle, 1.0, numerator1 / norm)
+    axis_y = jnp.where(zero_angle, 0.0, numerator2 / norm)
+    axis_z = jnp.where(zero_angle, 0.0, numerator3 / norm)
 
     return axis_x, axis_y, axis_z, angle
 
-- 
2.43.0


From 15f75de6789d671a71d71a8797cb34aac7c67ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:55 +0000
Subject: [PATCH 44/44] fix: light curve gradients were nan with the occultor
 exactly centred

---
 src/jaxoplanet/light_curves/emission.py  | 13 ++++++++-----
 src/jaxoplanet/light_curves/limb_dark.py |  8 +++++---
 src/jaxoplanet/starry/doppler.py         |  7 +++++--
 src/jaxoplanet/starry/light_curves.py    |  5 ++++-
 src/jaxoplanet/utils.py                  |  9 ++++++++-
 5 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/jaxoplanet/light_curves/emission.py b/src/jaxoplanet/light_curves/emission.py
index 6cd096b..8e50a5b 100644
--- a/src/jaxoplanet/light_curves/emission.py
+++ b/src/jaxoplanet/light_curves/emission.py
@@ -10,6 +10,7 @@ from jaxoplanet.light_curves.utils import vectorize
 from jaxoplanet.starry.orbit import SurfaceSystem
 from jaxoplanet.types import Array, Quantity
 from jaxoplanet.units import unit_registry as ureg
+from jaxoplanet.utils import zero_safe_hypot
 
 
 def light_curve(system: SurfaceSystem, order: int = 10) -> Callable[[Quantity], Array]:
@@ -33,23 +34,25 @@ def light_curve(system: SurfaceSystem, order: int = 10) -> Callable[[Quantity],
         r_star = system.central.radius
         x, y, z = system.relative_position(time)
 
-        b = jnpu.sqrt(x**2 + y**2) / r_star
-        assert b.units == ureg.dimensionless
+        x, y = x / r_star, y / r_star
+        assert x.units == y.units == ureg.dimensionless
+        b = zero_safe_hypot(x.magnitude, y.magnitude)
         r = system.radius / r_star
         assert r.units == ureg.dimensionless
 
         lc_func = partial(_limb_dark_light_curve, system.central_surface.u, order=order)
-        lc = lc_func(b.magnitude, r.magnitude)
+        lc = lc_func(b, r.magnitude)
         lc = system.central_surface.amplitude * (1 + jnp.where(z > 0, lc, 0.0).sum(0))
 
         bodies_lc = []
         for body, surface in zip(system.bodies, system.body_surfaces, strict=False):
             x, y, z = body.relative_position(time)
-            b = jnpu.sqrt(x**2 + y**2) / body.radius
+            x, y = x / body.radius, y / body.radius
+            b = zero_safe_hypot(x.magnitude, y.magnitude)
             r = r_star / body.radius
 
             lc_func = partial(_limb_dark_light_curve, surface.u, order=order)
-            lc_body = lc_func(b.magnitude, r.magnitude)
+            lc_body = lc_func(b, r.magnitude)
             lc_body = surface.amplitude * (1 + jnp.where(z < 0, lc_body, 0))
 
             bodies_lc.append(lc_body)
diff --git a/src/jaxoplanet/light_curves/limb_dark.py b/src/jaxoplanet/light_curves/limb_dark.py
index 018b662..6e1e26b 100644
--- a/src/jaxoplanet/light_curves/limb_dark.py
+++ b/src/jaxoplanet/light_curves/limb_dark.py
@@ -12,6 +12,7 @@ from jaxoplanet.light_curves.utils import vectorize
 from jaxoplanet.proto import LightCurveOrbit
 from jaxoplanet.types import Array, Quantity
 from jaxoplanet.units import unit_registry as ureg
+from jaxoplanet.utils import zero_safe_hypot
 
 
 def light_curve(
@@ -53,13 +54,14 @@ def light_curve(
         r_star = orbit.central_radius
         x, y, z = orbit.relative_position(time)
 
-        b = jnpu.sqrt(x**2 + y**2) / r_star
-        assert b.units == ureg.dimensionless
+        x, y = x / r_star, y / r_star
+        assert x.units == y.units == ureg.dimensionless
+        b = zero_safe_hypot(x.magnitude, y.magnitude)
         r = orbit.radius / r_star
         assert r.units == ureg.dimensionless
 
         lc_func = partial(_limb_dark_light_curve, ld_u, order=order)
-        lc = lc_func(b.magnitude, r.magnitude)
+        lc = lc_func(b, r.magnitude)
         lc = jnp.where(z > 0, lc, 0)
 
         return lc
diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 1df78ed..8dc8fe8 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -10,6 +10,7 @@ from jaxoplanet.starry.core.rotation import dot_rz, left_project
 from jaxoplanet.starry.core.solution import rT, solution_vector
 from jaxoplanet.starry.surface import Surface
 from jaxoplanet.starry.system_observable import system_observable
+from jaxoplanet.utils import zero_safe_hypot
 
 
 def rv_map_expansion(veq=None, inc=None, obl=None, alpha=None):
@@ -94,14 +95,16 @@ def surface_radial_velocity(
 
     # occulting body
     else:
-        b = jnp.sqrt(jnp.square(x) + jnp.square(y))
+        b = zero_safe_hypot(x, y)
         b_rot = jnp.logical_or(jnp.greater_equal(b, 1.0 + r), jnp.less_equal(z, 0.0))
         b_occ = jnp.logical_not(b_rot)
-        theta_z = jnp.arctan2(x, y)
 
         # trick to avoid nan `x=jnp.where...` grad caused by nan sT
         r = jnp.where(b_rot, 1.0, r)
         b = jnp.where(b_rot, 1.0, b)
+        x = jnp.where(b_rot, 0.0, x)
+        y = jnp.where(b_rot, 1.0, y)
+        theta_z = jnp.arctan2(x, y)
 
         sT = solution_vector(total_deg, order=order)(b, r)
 
diff --git a/src/jaxoplanet/starry/light_curves.py b/src/jaxoplanet/starry/light_curves.py
index 233aed7..20c8bae 100644
--- a/src/jaxoplanet/starry/light_curves.py
+++ b/src/jaxoplanet/starry/light_curves.py
@@ -12,6 +12,7 @@ from jaxoplanet.starry.core.rotation import left_project
 from jaxoplanet.starry.core.solution import rT, solution_vector
 from jaxoplanet.starry.surface import Surface
 from jaxoplanet.starry.system_observable import system_observable
+from jaxoplanet.utils import zero_safe_hypot
 
 
 def surface_light_curve(
@@ -73,13 +74,15 @@ def surface_light_curve(
 
     # occulting body
     else:
-        b = jnp.sqrt(jnp.square(x) + jnp.square(y))
+        b = zero_safe_hypot(x, y)
         b_rot = jnp.logical_or(jnp.greater_equal(b, 1.0 + r), jnp.less_equal(z, 0.0))
         b_occ = jnp.logical_not(b_rot)
 
         # trick to avoid nan `x=jnp.where...` grad caused by nan sT
         r = jnp.where(b_rot, 1.0, r)
         b = jnp.where(b_rot, 1.0, b)
+        x = jnp.where(b_rot, 0.0, x)
+        y = jnp.where(b_rot, 1.0, y)
 
         if surface.ydeg == 0:
             if surface.udeg == 0:
diff --git a/src/jaxoplanet/utils.py b/src/jaxoplanet/utils.py
index 959bd90..196e9a4 100644
--- a/src/jaxoplanet/utils.py
+++ b/src/jaxoplanet/utils.py
@@ -1,4 +1,4 @@
-__all__ = ["get_dtype_eps", "zero_safe_sqrt"]
+__all__ = ["get_dtype_eps", "zero_safe_sqrt", "zero_safe_hypot"]
 
 import jax
 import jax.numpy as jnp
@@ -22,3 +22,10 @@ def zero_safe_sqrt_jvp(primals, tangents):
     denom = jnp.where(cond, jnp.ones_like(x), x)
     tangent_out = 0.5 * x_dot * primal_out / denom
     return primal_out, tangent_out
+
+
+def zero_safe_hypot(x, y):
+    """The length of (x, y), with a derivative of zero (instead of nan) where it vanishes"""
+    norm2 = jnp.square(x) + jnp.square(y)
+    is_zero = jnp.equal(norm2, 0)
+    return jnp.where(is_zero, 0.0, jnp.sqrt(jnp.where(is_zero, 1.0, norm2)))
-- 
2.43.0

