From 402acfa9155eacc4e9f5df3b462c63fcb6352336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 01/48] fix: Spergel Gamma function keeps its sign for negative
 arguments

exp(lgamma(x)) is |Gamma(x)|; the small-radius series of the profile needs
Gamma(-nu), which is negative for 0 < nu < 1, so values at r < 1e-10 r0 were
wrong by up to a few percent.
---
 jax_galsim/spergel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/spergel.py b/jax_galsim/spergel.py
index 200d197..c21dcf1 100644
--- a/jax_galsim/spergel.py
+++ b/jax_galsim/spergel.py
@@ -15,7 +15,7 @@ from jax_galsim.random import UniformDeviate
 def gamma(x):
     """Gamma(x)"""
     x = x * 1.0
-    return jnp.exp(jax.lax.lgamma(x))
+    return jax.scipy.special.gamma(x)
 
 
 @jax.jit
-- 
2.43.0


From a046a9ab136a742280ccff31a44a4ea46b2d2eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 02/48] fix: _Image sets the const flag

Images built through _Image (transpose, flip_*, rot_*) had no const flag, so
isconst, ==, repr, fill etc. raised AttributeError on them.
---
 jax_galsim/image.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index 63e4da7..4ac7a9a 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -1351,6 +1351,7 @@ def _Image(array, bounds, wcs):
         array = _safe_cast(array, jnp.issubdtype(ret._dtype, jnp.integer), ret._dtype)
     ret._array = array
     ret._bounds = bounds
+    ret._is_const = False
     return ret
 
 
-- 
2.43.0


From fc57ef3a0cd54e974498399cdf04625221240e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 03/48] fix: copying an undefined Bounds keeps it undefined

BoundsD(BoundsD()) came out as a defined bounds at the origin.
---
 jax_galsim/bounds.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/jax_galsim/bounds.py b/jax_galsim/bounds.py
index 69ab874..87b6d11 100644
--- a/jax_galsim/bounds.py
+++ b/jax_galsim/bounds.py
@@ -78,7 +78,6 @@ class Bounds:
                         "Single argument to %s must be either a Bounds or a Position"
                         % (self.__class__.__name__)
                     )
-                self._isdefined = True
             elif len(args) == 2:
                 if isinstance(args[0], Position) and isinstance(args[1], Position):
                     self._isdefined = True
-- 
2.43.0


From b5f3e952999834d24167b9a9aecff30d657228c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 04/48] fix: DeviateNoise can be unflattened

Its constructor takes the deviate positionally; there is no rng keyword.
---
 jax_galsim/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index 3956cf6..2b53f3b 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -501,7 +501,7 @@ class DeviateNoise(BaseNoise):
     @classmethod
     def tree_unflatten(cls, aux_data, children):
         """Recreates an instance of the class from flatten representation"""
-        return cls(rng=children[0])
+        return cls(children[0])
 
 
 @implements(_galsim.noise.VariableGaussianNoise)
-- 
2.43.0


From e35633cd4b9fc00cf9294471d8bcd4d219613050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 05/48] fix: ShearWCS and OffsetShearWCS can be read back from
 a header

_writeHeader wrote the GS_WCS keywords but there was no _readHeader, so
readFromFitsHeader raised AttributeError on them.
---
 jax_galsim/wcs.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/jax_galsim/wcs.py b/jax_galsim/wcs.py
index ea3a9db..b8f8506 100644
--- a/jax_galsim/wcs.py
+++ b/jax_galsim/wcs.py
@@ -1070,6 +1070,13 @@ class ShearWCS(LocalWCS):
         )
         return self.affine()._writeLinearWCS(header, bounds)
 
+    @staticmethod
+    def _readHeader(header):
+        scale = header["GS_SCALE"]
+        g1 = header["GS_G1"]
+        g2 = header["GS_G2"]
+        return ShearWCS(scale, Shear(g1=g1, g2=g2))
+
     @implements(_galsim.wcs.ShearWCS.copy)
     def copy(self):
         return ShearWCS(self._scale, self._shear)
@@ -1470,6 +1477,19 @@ class OffsetShearWCS(UniformWCS):
         )
         return self.affine()._writeLinearWCS(header, bounds)
 
+    @staticmethod
+    def _readHeader(header):
+        scale = header["GS_SCALE"]
+        g1 = header["GS_G1"]
+        g2 = header["GS_G2"]
+        x0 = header["GS_X0"]
+        y0 = header["GS_Y0"]
+        u0 = header["GS_U0"]
+        v0 = header["GS_V0"]
+        return OffsetShearWCS(
+            scale, Shear(g1=g1, g2=g2), PositionD(x0, y0), PositionD(u0, v0)
+        )
+
     @implements(_galsim.wcs.OffsetShearWCS.copy)
     def copy(self):
         return OffsetShearWCS(self.scale, self.shear, self.origin, self.world_origin)
-- 
2.43.0


From 616af607d859f351bb83f4e85edb172d3f3a2db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:29 +0000
Subject: [PATCH 06/48] fix: Nearest interpolation reaches the pixel above the
 point

Nearest has ixrange 1, so only the pixel below the point was looked at and
values at fractional offsets above one half came out as zero.
---
 jax_galsim/interpolatedimage.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index 9564bd3..b634d50 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -1017,7 +1017,8 @@ def _draw_with_interpolant_xval(x, y, xmin, ymin, zp, interp):
     yp = yi + ymin
     ny = zp.shape[0]
 
-    irange = interp.ixrange // 2
+    # round up so that kernels with an odd range also reach the pixel above
+    irange = (interp.ixrange + 1) // 2
     iinds = jnp.arange(-irange, irange + 1)
 
     wx, xind = _interp_weight_1d_xval(
@@ -1124,7 +1125,8 @@ def _draw_with_interpolant_kval(kx, ky, kxmin, kymin, zp, interp):
     kyp = kyi + kymin
     nky = zp.shape[0]
 
-    irange = interp.ixrange // 2
+    # round up so that kernels with an odd range also reach the pixel above
+    irange = (interp.ixrange + 1) // 2
     iinds = jnp.arange(-irange, irange + 1)
 
     wkx, kxind = _interp_weight_1d_kval(
-- 
2.43.0


From d829700daab6f5b46bebdbd7ddf2c93d8ce98e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 07/48] fix: photon count of a negative-flux object is positive
 without Poisson flux

With poisson_flux=False the count kept the sign of the flux, and shooting a
negative number of photons raised TypeError.
---
 jax_galsim/core/draw.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/core/draw.py b/jax_galsim/core/draw.py
index 181bf46..67869f0 100644
--- a/jax_galsim/core/draw.py
+++ b/jax_galsim/core/draw.py
@@ -453,7 +453,11 @@ def _calculate_n_photons_flux_nonzero(
         lambda poisson_flux, flux, mod_flux, eta_factor, rng, g: _adjust_flux_g_poisson(
             poisson_flux, flux, mod_flux, eta_factor, rng, g
         ),
-        lambda poisson_flux, flux, mod_flux, eta_factor, rng, g: (mod_flux, g, rng),
+        lambda poisson_flux, flux, mod_flux, eta_factor, rng, g: (
+            jnp.abs(mod_flux),
+            g,
+            rng,
+        ),
         poisson_flux,
         flux,
         mod_flux,
-- 
2.43.0


From 9eb9000e41528c3c678ae87463541473d7e9265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 08/48] fix: drawReal keeps the dtype of the image it draws on

---
 jax_galsim/gsobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index a5cf51b..e5bde55 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -838,7 +838,7 @@ The JAX-GalSim version of ``drawImage``
         if add_to_image:
             image._array = image._array.at[...].add(temp._array)
         else:
-            image._array = temp._array
+            image._array = temp._array.astype(image._array.dtype)
 
         return temp.array.sum(dtype=float)
 
-- 
2.43.0


From e29fc7df0e554131eea72cb6435ad28628a5cc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 09/48] fix: a sum drawn on an integer image is rounded once,
 not per component

---
 jax_galsim/core/draw.py         | 7 -------
 jax_galsim/interpolatedimage.py | 7 -------
 2 files changed, 14 deletions(-)

diff --git a/jax_galsim/core/draw.py b/jax_galsim/core/draw.py
index 67869f0..4631113 100644
--- a/jax_galsim/core/draw.py
+++ b/jax_galsim/core/draw.py
@@ -36,13 +36,6 @@ def draw_by_xValue(
     # Apply the flux scaling
     im *= flux_scaling
 
-    # jax-galsim's rounding of float-to-int is platform dependent
-    # so we explicitly round to ints if needed
-    if jnp.issubdtype(im.dtype, jnp.floating) and jnp.issubdtype(
-        image.dtype, jnp.integer
-    ):
-        im = jnp.around(im)
-
     # Return an image
     return Image(array=im, bounds=image.bounds, wcs=image.wcs, _check_bounds=False)
 
diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index b634d50..7cd9ba3 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -811,13 +811,6 @@ class _InterpolatedImageImpl(GSObject):
         # Apply the flux scaling
         im *= flux_scaling
 
-        # jax-galsim's rounding of float-to-int is platform dependent
-        # so we explicitly round to ints if needed
-        if jnp.issubdtype(im.dtype, jnp.floating) and jnp.issubdtype(
-            image.dtype, jnp.integer
-        ):
-            im = jnp.around(im)
-
         # Return an image
         return Image(array=im, bounds=image.bounds, wcs=image.wcs, _check_bounds=False)
 
-- 
2.43.0


From b7272a7b1e3ae33b60092ae8e747169597b62d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 10/48] fix: drawKImage keeps the dtype of the image it draws
 on

---
 jax_galsim/gsobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index e5bde55..d31905c 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -1076,7 +1076,7 @@ The JAX-GalSim version of ``drawImage``
         im2 = self._drawKImage(im2)
 
         if not add_to_image:
-            image._array = im2._array
+            image._array = im2._array.astype(image._array.dtype)
         else:
             image._array = image._array.at[...].add(im2._array)
 
-- 
2.43.0


From ac25d638168ca9a79d17b1ddd32392a79af911b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 11/48] fix: wrapping an integer image onto many blocks keeps
 its dtype

---
 jax_galsim/core/wrap_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/core/wrap_image.py b/jax_galsim/core/wrap_image.py
index de41040..6218eb1 100644
--- a/jax_galsim/core/wrap_image.py
+++ b/jax_galsim/core/wrap_image.py
@@ -29,7 +29,7 @@ def _block_reduce_index(sim, nxwrap, nywrap):
     y = jnp.moveaxis(y, -1, -2)
     # now the array shape is (ny * nx, nywrap, nxwrap)
     # then we sum on axis 0 to get the final shape (nywrap, nxwrap)
-    return y.sum(axis=0)
+    return y.sum(axis=0, dtype=sim.dtype)
 
 
 @partial(jax.jit, static_argnames=("nx", "ny", "nxwrap", "nywrap"))
-- 
2.43.0


From 22949f8a7d5bf35c147fd14bfd1ce157eeb647c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 12/48] Revert: copying an undefined Bounds (GalSim defines it
 as a point)

---
 jax_galsim/bounds.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jax_galsim/bounds.py b/jax_galsim/bounds.py
index 87b6d11..69ab874 100644
--- a/jax_galsim/bounds.py
+++ b/jax_galsim/bounds.py
@@ -78,6 +78,7 @@ class Bounds:
                         "Single argument to %s must be either a Bounds or a Position"
                         % (self.__class__.__name__)
                     )
+                self._isdefined = True
             elif len(args) == 2:
                 if isinstance(args[0], Position) and isinstance(args[1], Position):
                     self._isdefined = True
-- 
2.43.0


From 2bc504d6cd10e80d57bacceda63f92899a37ebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 13/48] fix: a BoundsI that is empty in one direction only is
 undefined

---
 jax_galsim/bounds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/bounds.py b/jax_galsim/bounds.py
index 69ab874..b7b4c6d 100644
--- a/jax_galsim/bounds.py
+++ b/jax_galsim/bounds.py
@@ -526,7 +526,7 @@ class BoundsI(Bounds):
             self._ymin, "BoundsI must be initialized with integer values"
         )
 
-        if self.deltax < 1 and self.deltay < 1:
+        if self.deltax < 1 or self.deltay < 1:
             self._isdefined = False
 
     def _check_scalar(self, x, name):
@@ -654,7 +654,7 @@ class BoundsI(Bounds):
                 ret._ymin = children[1]
             ret.deltax = aux_data["deltax"]
             ret.deltay = aux_data["deltay"]
-            if ret.deltax < 1 and ret.deltay < 1:
+            if ret.deltax < 1 or ret.deltay < 1:
                 ret._isdefined = False
             else:
                 ret._isdefined = True
-- 
2.43.0


From 3fd7eed8c95d200475bd29b28765f5eb840d4762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 14/48] fix: PoissonNoise and CCDNoise repr survive a JAX
 boundary (equality is by repr)

---
 jax_galsim/noise.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index 2b53f3b..d8ae0cf 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -260,10 +260,13 @@ class PoissonNoise(BaseNoise):
         return PoissonNoise(rng=rng, sky_level=self.sky_level)
 
     def __repr__(self):
-        return "galsim.PoissonNoise(rng=%r, sky_level=%r)" % (self.rng, self.sky_level)
+        return "galsim.PoissonNoise(rng=%r, sky_level=%r)" % (
+            self.rng,
+            ensure_hashable(self.sky_level),
+        )
 
     def __str__(self):
-        return "galsim.PoissonNoise(sky_level=%s)" % (self.sky_level)
+        return "galsim.PoissonNoise(sky_level=%s)" % (ensure_hashable(self.sky_level),)
 
     def tree_flatten(self):
         """This function flattens the PoissonNoise into a list of children
@@ -417,16 +420,16 @@ class CCDNoise(BaseNoise):
     def __repr__(self):
         return "galsim.CCDNoise(rng=%r, sky_level=%r, gain=%r, read_noise=%r)" % (
             self.rng,
-            self.sky_level,
-            self.gain,
-            self.read_noise,
+            ensure_hashable(self.sky_level),
+            ensure_hashable(self.gain),
+            ensure_hashable(self.read_noise),
         )
 
     def __str__(self):
         return "galsim.CCDNoise(sky_level=%r, gain=%r, read_noise=%r)" % (
-            self.sky_level,
-            self.gain,
-            self.read_noise,
+            ensure_hashable(self.sky_level),
+            ensure_hashable(self.gain),
+            ensure_hashable(self.read_noise),
         )
 
     def tree_flatten(self):
-- 
2.43.0


From 9288fced91e92fc6cc95039780e2957d4c3e485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 15/48] fix: noise objects keep their deviate when unflattened
 (vmap over them)

---
 jax_galsim/noise.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index d8ae0cf..233cb64 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -185,7 +185,10 @@ class GaussianNoise(BaseNoise):
     @classmethod
     def tree_unflatten(cls, aux_data, children):
         """Recreates an instance of the class from flatten representation"""
-        return cls(sigma=children[0], rng=children[1])
+        obj = cls(sigma=children[0], rng=children[1])
+        # keep the deviate as it came, the constructor makes new parameters for it
+        obj._rng = children[1]
+        return obj
 
 
 @implements(_galsim.noise.PoissonNoise)
@@ -280,7 +283,10 @@ class PoissonNoise(BaseNoise):
     @classmethod
     def tree_unflatten(cls, aux_data, children):
         """Recreates an instance of the class from flatten representation"""
-        return cls(sky_level=children[0], rng=children[1])
+        obj = cls(sky_level=children[0], rng=children[1])
+        # keep the deviate as it came, the constructor makes new parameters for it
+        obj._rng = children[1]
+        return obj
 
 
 @implements(_galsim.noise.CCDNoise)
@@ -585,4 +591,7 @@ class VariableGaussianNoise(BaseNoise):
     @classmethod
     def tree_unflatten(cls, aux_data, children):
         """Recreates an instance of the class from flatten representation"""
-        return cls(children[0], children[1])
+        obj = cls(children[0], children[1])
+        # keep the deviate as it came, the constructor makes new parameters for it
+        obj._rng = children[0]
+        return obj
-- 
2.43.0


From 7c903cbd8e673cc6f443ee32692d25d46629238b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 16/48] fix: BinomialDeviate works after a JAX boundary (N is
 static)

---
 jax_galsim/random.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/jax_galsim/random.py b/jax_galsim/random.py
index 2cf2db2..211e65b 100644
--- a/jax_galsim/random.py
+++ b/jax_galsim/random.py
@@ -448,6 +448,19 @@ class BinomialDeviate(BaseDeviate):
         # argument order is scale, concentration
         return (_key, p), jnp.sum(jrandom.bernoulli(subkey, p))
 
+    def tree_flatten(self):
+        """This function flattens the PRNG into a list of children
+        nodes that will be traced by JAX and auxiliary static data."""
+        # N sets the shapes of the arrays used to make the values so it is static
+        children = (self._state, {"p": self.p})
+        aux_data = {"N": self.n}
+        return (children, aux_data)
+
+    @classmethod
+    def tree_unflatten(cls, aux_data, children):
+        """Recreates an instance of the class from flatten representation"""
+        return cls(children[0], **(children[1]), **aux_data)
+
     def __repr__(self):
         return "galsim.BinomialDeviate(seed=%r, N=%r, p=%r)" % (
             ensure_hashable(jrandom.key_data(self._key)),
-- 
2.43.0


From 971df64b059ad0b2daef084de25df14a9adef115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 17/48] fix: CCDNoise advances its random number generator

---
 jax_galsim/noise.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index 233cb64..af79916 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -344,22 +344,25 @@ class CCDNoise(BaseNoise):
         )
 
         # First add the poisson noise from the signal + sky:
-        noise_array = jax.lax.cond(
+        # The deviates in the branches are copies, so their state has to be
+        # brought back for the next draw to be a new one.
+        noise_array, self.rng._key = jax.lax.cond(
             self.gain > 0.0,
             lambda pd, na, gain: (
-                pd.generate_from_expectation(jnp.clip(na * gain, 0.0)) / gain
+                pd.generate_from_expectation(jnp.clip(na * gain, 0.0)) / gain,
+                pd._key,
             ),
-            lambda pd, na, gain: na,
+            lambda pd, na, gain: (na, pd._key),
             self._pd,
             noise_array,
             self.gain,
         )
 
         # Now add the read noise:
-        noise_array = jax.lax.cond(
+        noise_array, self.rng._key = jax.lax.cond(
             self.read_noise > 0.0,
-            lambda na, gd: na + gd.generate(na),
-            lambda na, gd: na,
+            lambda na, gd: (na + gd.generate(na), gd._key),
+            lambda na, gd: (na, gd._key),
             noise_array,
             self._gd,
         )
-- 
2.43.0


From a54123d7633d8df52ada19e990c22a2dfb622f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 18/48] fix: CCDNoise.withVariance keeps the random number
 generator linked

---
 jax_galsim/noise.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index af79916..f5001d4 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -399,14 +399,16 @@ class CCDNoise(BaseNoise):
 
     def _withVariance(self, variance):
         current_var = self._getVariance()
-        return jax.lax.cond(
-            current_var > 0.0,
-            lambda variance, current_var: self._withScaledVariance(
-                variance / current_var
-            ),
-            lambda variance, current_var: CCDNoise(self.rng, sky_level=variance),
-            variance,
-            current_var,
+        has_var = current_var > 0.0
+        # The noise is made outside of a branch so that it shares the RNG state.
+        scaled = self._withScaledVariance(
+            variance / jnp.where(has_var, current_var, 1.0)
+        )
+        return CCDNoise(
+            self.rng,
+            sky_level=jnp.where(has_var, scaled.sky_level, variance),
+            gain=jnp.where(has_var, scaled.gain, 1.0),
+            read_noise=jnp.where(has_var, scaled.read_noise, 0.0),
         )
 
     def _withScaledVariance(self, variance_ratio):
-- 
2.43.0


From 9525ecb6a53326f5232e7d3d622c28fa90a7f5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:26 +0000
Subject: [PATCH 19/48] fix: gradients of Shear eta conversions at zero and of
 Spergel at its center

---
 jax_galsim/shear.py   | 8 ++++++--
 jax_galsim/spergel.py | 9 +++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/jax_galsim/shear.py b/jax_galsim/shear.py
index b066389..cbc0397 100644
--- a/jax_galsim/shear.py
+++ b/jax_galsim/shear.py
@@ -251,9 +251,11 @@ class Shear(object):
 
     def _g2eta(self, absg):
         absgsq = absg * absg
+        # masked so that the branch not taken has no nan derivative at zero
+        absg_msk = jnp.where(absg > 1.0e-4, absg, 0.5)
         return jnp.where(
             absg > 1.0e-4,
-            2.0 * jnp.arctanh(absg) / absg,
+            2.0 * jnp.arctanh(absg_msk) / absg_msk,
             # This doesn't have as much trouble with accuracy, but have to avoid absg=0,
             # so might as well Taylor expand for small values.
             2.0 + absgsq * ((2.0 / 3.0) + absgsq * 0.4),
@@ -261,9 +263,11 @@ class Shear(object):
 
     def _eta2g(self, abseta):
         absetasq = abseta * abseta
+        # masked so that the branch not taken has no nan derivative at zero
+        abseta_msk = jnp.where(abseta > 1.0e-4, abseta, 0.5)
         return jnp.where(
             abseta > 1.0e-4,
-            jnp.tanh(0.5 * abseta) / abseta,
+            jnp.tanh(0.5 * abseta_msk) / abseta_msk,
             0.5 + absetasq * ((-1.0 / 24.0) + absetasq * (1.0 / 240.0)),
         )
 
diff --git a/jax_galsim/spergel.py b/jax_galsim/spergel.py
index c21dcf1..e3a435d 100644
--- a/jax_galsim/spergel.py
+++ b/jax_galsim/spergel.py
@@ -6,6 +6,7 @@ from jax.tree_util import register_pytree_node_class
 
 from jax_galsim.bessel import kv
 from jax_galsim.core.draw import draw_by_kValue, draw_by_xValue
+from jax_galsim.core.math import safe_sqrt
 from jax_galsim.core.utils import bisect_for_root, ensure_hashable, implements
 from jax_galsim.gsobject import GSObject
 from jax_galsim.random import UniformDeviate
@@ -412,8 +413,12 @@ class Spergel(GSObject):
 
     @jax.jit
     def _xValue(self, pos):
-        r = jnp.sqrt(pos.x**2 + pos.y**2) * self._inv_r0
-        res = jnp.where(r == 0, self._xnorm0, fz_nu(r, jax.lax.stop_gradient(self.nu)))
+        r = safe_sqrt(pos.x**2 + pos.y**2) * self._inv_r0
+        # masked so that the branch not taken has no nan derivative at the center
+        r_msk = jnp.where(r == 0, 1.0, r)
+        res = jnp.where(
+            r == 0, self._xnorm0, fz_nu(r_msk, jax.lax.stop_gradient(self.nu))
+        )
         return self._xnorm * res
 
     @jax.jit
-- 
2.43.0


From 29f2b97c395ce4ea97a8e8654c54ba9538cebd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 20/48] fix: in-place arithmetic refuses to modify an immutable
 Image

---
 jax_galsim/image.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index 4ac7a9a..86f4b21 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -367,6 +367,7 @@ class Image(object):
 
     @array.setter
     def array(self, other):
+        _check_mutable(self)
         # jax-galsim's rounding of float-to-int is platform dependent
         # so we explicitly round to ints if needed
         self._array = self._array.at[...].set(
@@ -1455,6 +1456,12 @@ def _safe_cast(array, target_isinteger, target_dtype):
     return array.astype(target_dtype)
 
 
+# In-place operations are not allowed on immutable images
+def _check_mutable(image):
+    if image.isconst:
+        raise GalSimImmutableError("Cannot modify an immutable Image", image)
+
+
 # Define a utility function to be used by the arithmetic functions below
 def check_image_consistency(im1, im2, integer=False):
     if integer and not im1.isinteger:
@@ -1478,6 +1485,7 @@ def Image_add(self, other):
 
 
 def Image_iadd(self, other):
+    _check_mutable(self)
     check_image_consistency(self, other)
     try:
         a = other.array
@@ -1510,6 +1518,7 @@ def Image_rsub(self, other):
 
 
 def Image_isub(self, other):
+    _check_mutable(self)
     check_image_consistency(self, other)
     try:
         a = other.array
@@ -1538,6 +1547,7 @@ def Image_mul(self, other):
 
 
 def Image_imul(self, other):
+    _check_mutable(self)
     check_image_consistency(self, other)
     try:
         a = other.array
@@ -1570,6 +1580,7 @@ def Image_rdiv(self, other):
 
 
 def Image_idiv(self, other):
+    _check_mutable(self)
     check_image_consistency(self, other)
     try:
         a = other.array
@@ -1605,6 +1616,7 @@ def Image_rfloordiv(self, other):
 
 
 def Image_ifloordiv(self, other):
+    _check_mutable(self)
     check_image_consistency(self, other, integer=True)
     try:
         a = other.array
@@ -1638,6 +1650,7 @@ def Image_rmod(self, other):
 
 
 def Image_imod(self, other):
+    _check_mutable(self)
     check_image_consistency(self, other, integer=True)
     try:
         a = other.array
@@ -1661,6 +1674,7 @@ def Image_pow(self, other):
 
 
 def Image_ipow(self, other):
+    _check_mutable(self)
     if not isinstance(other, int) and not isinstance(other, float):
         raise TypeError("Can only raise an image to a float or int power!")
 
@@ -1692,6 +1706,7 @@ def Image_and(self, other):
 
 
 def Image_iand(self, other):
+    _check_mutable(self)
     check_image_consistency(self, other, integer=True)
     try:
         a = other.array
@@ -1711,6 +1726,7 @@ def Image_xor(self, other):
 
 
 def Image_ixor(self, other):
+    _check_mutable(self)
     check_image_consistency(self, other, integer=True)
     try:
         a = other.array
@@ -1730,6 +1746,7 @@ def Image_or(self, other):
 
 
 def Image_ior(self, other):
+    _check_mutable(self)
     check_image_consistency(self, other, integer=True)
     try:
         a = other.array
-- 
2.43.0


From 4d01ac22be35cec70a1ba108eede74515e780c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:28 +0000
Subject: [PATCH 21/48] fix: Image power keeps the image's dtype

---
 jax_galsim/image.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index 86f4b21..15c9bff 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -1670,7 +1670,9 @@ def Image_imod(self, other):
 
 
 def Image_pow(self, other):
-    return Image(self.array**other, bounds=self.bounds, wcs=self.wcs)
+    result = self.copy()
+    result **= other
+    return result
 
 
 def Image_ipow(self, other):
-- 
2.43.0


From 4f7e1f5e86e5be1917810b2deeef2f1b8f078f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 22/48] fix: Postel projection of its own center is not NaN

---
 jax_galsim/celestial.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/celestial.py b/jax_galsim/celestial.py
index 5645eda..e6a4c2b 100644
--- a/jax_galsim/celestial.py
+++ b/jax_galsim/celestial.py
@@ -488,7 +488,12 @@ class CelestialCoord(object):
         elif projection[0] == "l":
             k = jnp.sqrt(2.0 / (1.0 + cosc))
         else:
-            c = jnp.arccos(cosc)
+            # At the projection center, rounding can put cosc at (or slightly above) 1,
+            # where arccos or its derivative is not finite.
+            at_center = cosc >= 1.0
+            c = jnp.where(
+                at_center, 0.0, jnp.arccos(jnp.where(at_center, 0.0, cosc))
+            )
             # k = c / np.sin(c)
             # np.sinc is defined as sin(pi x) / (pi x)
             # So need to divide by pi first.
-- 
2.43.0


From 5f1d4d83db15210fd3220135712ff27abccf44bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 23/48] fix: images whose origin is not (1,1) can be written to
 FITS with their wcs

---
 jax_galsim/wcs.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/jax_galsim/wcs.py b/jax_galsim/wcs.py
index b8f8506..a8f3b7a 100644
--- a/jax_galsim/wcs.py
+++ b/jax_galsim/wcs.py
@@ -211,6 +211,33 @@ class BaseWCS(_galsim.BaseWCS):
                 raise TypeError("world_origin must be a PositionD argument")
             self._world_origin = world_origin
 
+    @implements(_galsim.BaseWCS.writeToFitsHeader)
+    def writeToFitsHeader(self, header, bounds):
+        # Same as the reference code, except that the shift has to be a jax_galsim
+        # position, since that is what our bounds and WCS classes accept.
+        xmin, ymin = int(bounds.xmin), int(bounds.ymin)
+        header["GS_XMIN"] = (xmin, "GalSim image minimum x coordinate")
+        header["GS_YMIN"] = (ymin, "GalSim image minimum y coordinate")
+
+        if xmin != 1 or ymin != 1:
+            # ds9 always assumes the image has an origin at (1,1), so we always write the
+            # WCS to the file with this convention.  We'll convert back when we read it
+            # in if necessary.
+            delta = PositionI(1 - xmin, 1 - ymin)
+            bounds = bounds.shift(delta)
+            wcs = self.shiftOrigin(delta)
+        else:
+            wcs = self
+
+        wcs._writeHeader(header, bounds)
+
+        if hasattr(self, "header"):
+            # Store the items that are in self.header in the header if they weren't already put
+            # there by the call to wcs._writeHeader() call.  (We don't want to overwrite the WCS.)
+            for key in self.header:
+                if key not in header and key.strip() not in ("", "COMMENT", "HISTORY"):
+                    header[key] = self.header[key]
+
     def tree_flatten(self):
         """This function flattens the WCS into a list of children
         nodes that will be traced by JAX and auxiliary static data."""
-- 
2.43.0


From 1d1e2cd6cb27fccf9e74cc6b3502e4dc0717cb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 24/48] fix: PoissonNoise and CCDNoise can be applied inside
 jit

---
 jax_galsim/noise.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index f5001d4..905fe33 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -33,6 +33,11 @@ def addNoiseSNR(self, noise, snr, preserve_flux=False):
         return noise_var
 
 
+def _cast_via(value, dtype):
+    """The (possibly traced) float value after a cast to dtype and back."""
+    return jnp.asarray(value).astype(dtype).astype(float)
+
+
 Image.addNoise = addNoise
 Image.addNoiseSNR = addNoiseSNR
 
@@ -211,7 +216,7 @@ class PoissonNoise(BaseNoise):
         # right if the sky has a fractional part.  So only subtract off the integer part of the
         # sky at the end.  For float images, you get the same answer either way, so it doesn't
         # matter.
-        frac_sky = self.sky_level - image.dtype(self.sky_level)
+        frac_sky = self.sky_level - _cast_via(self.sky_level, image.dtype)
         int_sky = self.sky_level - frac_sky
 
         noise_array = jax.lax.cond(
@@ -332,7 +337,8 @@ class CCDNoise(BaseNoise):
         noise_array = image.array.copy().astype(float)
 
         # cf. PoissonNoise._applyTo function
-        frac_sky = self.sky_level - image.dtype(self.sky_level)  # 0 if dtype = float
+        # (0 if dtype = float)
+        frac_sky = self.sky_level - _cast_via(self.sky_level, image.dtype)
         int_sky = self.sky_level - frac_sky
 
         noise_array = jax.lax.cond(
-- 
2.43.0


From a7ab814c677c475c0cb7025d9ca826ba699a9115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 25/48] fix: noise models only take a BaseDeviate as rng

---
 jax_galsim/noise.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index 905fe33..22a1656 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -138,7 +138,8 @@ class BaseNoise:
 @register_pytree_node_class
 class GaussianNoise(BaseNoise):
     def __init__(self, rng=None, sigma=1.0):
-        super().__init__(GaussianDeviate(rng, sigma=sigma))
+        super().__init__(rng)
+        self._rng = GaussianDeviate(self._rng, sigma=sigma)
         self._sigma = cast_to_float(sigma)
 
     @property
@@ -200,7 +201,8 @@ class GaussianNoise(BaseNoise):
 @register_pytree_node_class
 class PoissonNoise(BaseNoise):
     def __init__(self, rng=None, sky_level=0.0):
-        super().__init__(PoissonDeviate(rng))
+        super().__init__(rng)
+        self._rng = PoissonDeviate(self._rng)
         self._sky_level = cast_to_float(sky_level)
 
     @property
@@ -528,7 +530,8 @@ class DeviateNoise(BaseNoise):
 @register_pytree_node_class
 class VariableGaussianNoise(BaseNoise):
     def __init__(self, rng, var_image):
-        super().__init__(GaussianDeviate(rng))
+        super().__init__(rng)
+        self._rng = GaussianDeviate(self._rng)
 
         # Make sure var_image is an ImageD, converting dtype if necessary
         self._var_image = ImageD(var_image)
-- 
2.43.0


From d35bd259798b7e9353acee2a9086a2cdb51ca227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 26/48] fix: noise cannot be added to an immutable Image

---
 jax_galsim/noise.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index 22a1656..59e3a1e 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -4,7 +4,11 @@ import jax.numpy as jnp
 from jax.tree_util import register_pytree_node_class
 
 from jax_galsim.core.utils import cast_to_float, ensure_hashable, implements
-from jax_galsim.errors import GalSimError, GalSimIncompatibleValuesError
+from jax_galsim.errors import (
+    GalSimError,
+    GalSimImmutableError,
+    GalSimIncompatibleValuesError,
+)
 from jax_galsim.image import Image, ImageD
 from jax_galsim.random import BaseDeviate, GaussianDeviate, PoissonDeviate
 
@@ -105,6 +109,8 @@ class BaseNoise:
     def applyTo(self, image):
         if not isinstance(image, Image):
             raise TypeError("Provided image must be a galsim.Image")
+        if image.isconst:
+            raise GalSimImmutableError("Cannot add noise to an immutable Image", image)
         return self._applyTo(image)
 
     def _applyTo(self, image):
@@ -547,6 +553,8 @@ class VariableGaussianNoise(BaseNoise):
     def applyTo(self, image):
         if not isinstance(image, Image):
             raise TypeError("Provided image must be a galsim.Image")
+        if image.isconst:
+            raise GalSimImmutableError("Cannot add noise to an immutable Image", image)
         if image.array.shape != self.var_image.array.shape:
             raise GalSimIncompatibleValuesError(
                 "Provided image shape does not match the shape of var_image",
-- 
2.43.0


From d6390d2723d3db2fa5d8e0527f100bbcfa7b8ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 27/48] fix: PhotonArray.fromArrays of numpy arrays gives an
 array whose photons can be set

---
 jax_galsim/photon_array.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/jax_galsim/photon_array.py b/jax_galsim/photon_array.py
index e97ee2b..630d688 100644
--- a/jax_galsim/photon_array.py
+++ b/jax_galsim/photon_array.py
@@ -188,37 +188,37 @@ class PhotonArray:
 
         ret = cls.__new__(cls)
         ret._Ntot = _JAX_GALSIM_PHOTON_ARRAY_SIZE or x.shape[0]
-        ret._x = x.copy()
-        ret._y = y.copy()
-        ret._flux = flux.copy()
+        ret._x = jnp.array(x, dtype=float)
+        ret._y = jnp.array(y, dtype=float)
+        ret._flux = jnp.array(flux, dtype=float)
         ret._nokeep = jnp.arange(ret._Ntot) >= x.shape[0]
         ret._dxdz = (
-            dxdz.copy()
+            jnp.array(dxdz, dtype=float)
             if dxdz is not None
             else jnp.full(ret._Ntot, jnp.nan, dtype=float)
         )
         ret._dydz = (
-            dydz.copy()
+            jnp.array(dydz, dtype=float)
             if dydz is not None
             else jnp.full(ret._Ntot, jnp.nan, dtype=float)
         )
         ret._wave = (
-            wavelength.copy()
+            jnp.array(wavelength, dtype=float)
             if wavelength is not None
             else jnp.full(ret._Ntot, jnp.nan, dtype=float)
         )
         ret._pupil_u = (
-            pupil_u.copy()
+            jnp.array(pupil_u, dtype=float)
             if pupil_u is not None
             else jnp.full(ret._Ntot, jnp.nan, dtype=float)
         )
         ret._pupil_v = (
-            pupil_v.copy()
+            jnp.array(pupil_v, dtype=float)
             if pupil_v is not None
             else jnp.full(ret._Ntot, jnp.nan, dtype=float)
         )
         ret._time = (
-            time.copy()
+            jnp.array(time, dtype=float)
             if time is not None
             else jnp.full(ret._Ntot, jnp.nan, dtype=float)
         )
-- 
2.43.0


From 5e5679439c3de5eb023fac69457b04d8d6a513f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 28/48] fix: PhotonArray.read keeps the flux of padded arrays
 and reads files of GalSim

---
 jax_galsim/photon_array.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jax_galsim/photon_array.py b/jax_galsim/photon_array.py
index 630d688..ab41f20 100644
--- a/jax_galsim/photon_array.py
+++ b/jax_galsim/photon_array.py
@@ -976,9 +976,13 @@ class PhotonArray:
             x=jnp.array(cast_numpy_array_to_native_byte_order(data["x"])),
             y=jnp.array(cast_numpy_array_to_native_byte_order(data["y"])),
             flux=jnp.array(cast_numpy_array_to_native_byte_order(data["flux"])),
-        )
-        photons._nokeep = jnp.array(
-            cast_numpy_array_to_native_byte_order(data["_nokeep"])
+            # the flux is scaled by the fraction of photons kept when it is set, so the
+            # mask has to be given here; files written by GalSim do not have one
+            _nokeep=(
+                jnp.array(cast_numpy_array_to_native_byte_order(data["_nokeep"]))
+                if "_nokeep" in names
+                else None
+            ),
         )
         if "dxdz" in names:
             photons.dxdz = jnp.array(
-- 
2.43.0


From 4eea140078993ac4f0f96e22a795348e9faded0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 29/48] fix: PhotonArray.copyFrom refuses selections of
 different sizes

---
 jax_galsim/photon_array.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/jax_galsim/photon_array.py b/jax_galsim/photon_array.py
index ab41f20..a5ce908 100644
--- a/jax_galsim/photon_array.py
+++ b/jax_galsim/photon_array.py
@@ -577,6 +577,25 @@ class PhotonArray:
                 f"source_indices is invalid for the source PhotonArray. Got {source_indices!r}"
             )
 
+        n_target = self._x.at[target_indices].get().size
+        n_source = rhs._x.at[source_indices].get().size
+        if n_target == 0:
+            raise GalSimValueError(
+                "target_indices is invalid for the target PhotonArray", target_indices
+            )
+        if n_source == 0:
+            raise GalSimValueError(
+                "source_indices is invalid for the source PhotonArray", source_indices
+            )
+        if n_target != n_source:
+            raise GalSimIncompatibleValuesError(
+                "target_indices and source_indices do not reference the same number of "
+                "elements in their respective PhotonArrays (%d and %d respectively)"
+                % (n_target, n_source),
+                target_indices=target_indices,
+                source_indices=source_indices,
+            )
+
         return self._copyFrom(
             rhs, target_indices, source_indices, do_xy, do_flux, do_other
         )
-- 
2.43.0


From d1cc98c01776bf4a785ad13420fa64910effbdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 30/48] fix: calculate_n_photons rounds the photon number as
 GalSim does

It used ceil, so a flux of 30.3 shot 31 photons (GalSim: 30) and the floating
point noise of the Poisson-fluctuated flux could add a photon.
---
 jax_galsim/core/draw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/core/draw.py b/jax_galsim/core/draw.py
index 4631113..e042d53 100644
--- a/jax_galsim/core/draw.py
+++ b/jax_galsim/core/draw.py
@@ -473,4 +473,4 @@ def _calculate_n_photons_flux_nonzero(
         max_sb,
     )
 
-    return jnp.ceil(mod_flux).astype(int), g, rng
+    return jnp.int_(mod_flux + 0.5), g, rng
-- 
2.43.0


From c7309a5ead88421826f57b24140b80303f3722e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 31/48] fix: Spergel photon shooting for nu <= 0 integrates its
 inner part correctly

Inside the first radius the profile is a + b*r, whose enclosed flux is
a/2 z^2 + b/3 z^3; the coefficients were exchanged, which gave a
non-monotonic cumulative distribution and wrong radii.
---
 jax_galsim/spergel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/spergel.py b/jax_galsim/spergel.py
index e3a435d..9ba878a 100644
--- a/jax_galsim/spergel.py
+++ b/jax_galsim/spergel.py
@@ -491,11 +491,11 @@ class Spergel(GSObject):
         a = knur - shoot_rmin * b
 
         def cumulflux(z, a, b, zmin, nu, norm=1.0):
-            flux_min = a / 3.0 * zmin * zmin * zmin + b / 2.0 * zmin * zmin
+            flux_min = a / 2.0 * zmin * zmin + b / 3.0 * zmin * zmin * zmin
             c1 = fz_nup1(zmin, nu)
             res = jnp.where(
                 z <= zmin,
-                a / 3.0 * z * z * z + b / 2.0 * z * z,
+                a / 2.0 * z * z + b / 3.0 * z * z * z,
                 flux_min + c1 - fz_nup1(z, nu),
             )
             return res / norm
-- 
2.43.0


From 159db64e38c0182ac2fcac6d7e36723e2caf42db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 32/48] fix: GSObject.shoot keeps the flux when the photon
 array is padded

With fixed_photon_array_size larger than n_photons, each photon got
flux/size instead of flux/n_photons (and a Sum kept all padding photons).
---
 jax_galsim/gsobject.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index d31905c..b848551 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -1330,7 +1330,12 @@ The JAX-GalSim version of ``drawPhot``
 
         if photons.x.shape[0] > 0:
             _rng = BaseDeviate(rng)
+            # profiles always shoot the full array, so any padding of a fixed-size
+            # array is only marked after the photons have been shot
+            nokeep = photons._nokeep
+            photons._nokeep = jnp.zeros_like(nokeep)
             self._shoot(photons, _rng)
+            photons._nokeep = nokeep
             if rng is not None:
                 rng._state = _rng._state
 
-- 
2.43.0


From 92db8d4256f8ea0faa2679090ad8ee85b1711fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 33/48] fix: a padded photon array that keeps no photons has
 zero flux, not NaN

---
 jax_galsim/photon_array.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/photon_array.py b/jax_galsim/photon_array.py
index a5ce908..5052918 100644
--- a/jax_galsim/photon_array.py
+++ b/jax_galsim/photon_array.py
@@ -316,7 +316,8 @@ class PhotonArray:
             lambda flux, ratio: flux,
             lambda flux, ratio: flux * ratio,
             jnp.where(self._nokeep, 0.0, self._flux),
-            self._Ntot / self._num_keep,
+            # a padded array that keeps no photons has zero flux, not NaN
+            self._Ntot / jnp.maximum(self._num_keep, 1),
         )
 
     @flux.setter
@@ -898,7 +899,9 @@ class PhotonArray:
             self._y,
             # this computation is the same as self.flux, but we've left it duplicated here
             # so that we don't change this line to self._flux only by accident in the future
-            jnp.where(self._nokeep, 0.0, self._flux) * self._Ntot / self._num_keep,
+            jnp.where(self._nokeep, 0.0, self._flux)
+            * self._Ntot
+            / jnp.maximum(self._num_keep, 1),
             image.bounds.xmin,
             image.bounds.ymin,
             image._array,
-- 
2.43.0


From 206ad2a530cae20d77abb129abc825489c7a5da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 34/48] fix: Interpolant.unit_integrals returns at most max_len
 integrals

---
 jax_galsim/interpolant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/interpolant.py b/jax_galsim/interpolant.py
index 1b48939..2a72087 100644
--- a/jax_galsim/interpolant.py
+++ b/jax_galsim/interpolant.py
@@ -164,7 +164,7 @@ class Interpolant:
 
     @implements(_galsim.interpolant.Interpolant.unit_integrals)
     def unit_integrals(self, max_len=None):
-        return self._unit_integrals
+        return self._unit_integrals[:max_len]
 
     def tree_flatten(self):
         """This function flattens the Interpolant into a list of children
-- 
2.43.0


From 5f2431b5395347d85d7aae1b175463e687168ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 35/48] fix: InterpolatedImage.centroid accounts for the offset

---
 jax_galsim/interpolatedimage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index 7cd9ba3..3af0393 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -581,7 +581,9 @@ class _InterpolatedImageImpl(GSObject):
         tot = jnp.sum(self._pad_image.array)
         xpos = jnp.sum(x * self._pad_image.array) / tot
         ypos = jnp.sum(y * self._pad_image.array) / tot
-        return PositionD(xpos, ypos)
+        # the profile is the image moved by minus the offset
+        offset = self._offset
+        return PositionD(xpos - offset.x, ypos - offset.y)
 
     @property
     def _max_sb(self):
-- 
2.43.0


From 55ef94c1631fa1f46ff1c88be8b64331b971cb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 36/48] fix: stepk of interpolated images whose flux lies
 outside the largest central box

---
 jax_galsim/interpolatedimage.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index 3af0393..3c4b40e 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -1197,21 +1197,14 @@ def _calculate_size_containing_flux(image, thresh):
     cenx, ceny = image.center.x, image.center.y
     x, y = image.get_pixel_centers()
     fluxes = _flux_frac(image.array, x, y, cenx, ceny)
-    # we add 1 since the flux fraction computation above starts at
-    # one pixel and jnp.arange starts at zero
-    d = jnp.arange(min(image.array.shape[0], image.array.shape[1])) + 1.0
+    # like galsim, start with the pixels next to the central one and stop at the
+    # largest box that fits into the image
+    nmin = min(image.array.shape)
+    dmax = (nmin - 1) // 2
+    d = jnp.arange(nmin)
     p = jnp.sign(thresh)
-    msk = (p * fluxes) >= (p * thresh)
-    return (
-        jnp.argmin(
-            jnp.where(
-                msk,
-                d,
-                jnp.inf,
-            )
-        )
-        + 0.5
-    )
+    msk = ((p * fluxes) >= (p * thresh)) & (d >= 1) & (d <= dmax)
+    return jnp.where(jnp.any(msk), jnp.argmax(msk), dmax + 1) + 0.5
 
 
 # this version doe snot match galsim's maxk operation exactly,
-- 
2.43.0


From 746d2750114998cacad08e4ef70a7865cf771488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:24 +0000
Subject: [PATCH 37/48] fix: Akima interpolation had the wrong slope at its
 last but one points

---
 jax_galsim/core/interpolate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jax_galsim/core/interpolate.py b/jax_galsim/core/interpolate.py
index 34e2339..bc9e265 100644
--- a/jax_galsim/core/interpolate.py
+++ b/jax_galsim/core/interpolate.py
@@ -44,8 +44,8 @@ def _akima_interp_coeffs_nojax(x, y):
     # at the ends
     s0 = mi[0:1]
     s1 = (mi[0:1] + mi[1:2]) / 2.0
-    snm2 = (mi[-3:-2] + mi[-2:-1]) / 2.0
-    snm1 = mi[-2:-1]
+    snm2 = (mi[-2:-1] + mi[-1:]) / 2.0
+    snm1 = mi[-1:]
 
     wim1 = np.abs(mi[3:] - mi[2:-1])
     wi = np.abs(mi[1:-2] - mi[0:-3])
@@ -78,8 +78,8 @@ def _akima_interp_coeffs_jax(x, y):
     # at the ends
     s0 = mi[0:1]
     s1 = (mi[0:1] + mi[1:2]) / 2.0
-    snm2 = (mi[-3:-2] + mi[-2:-1]) / 2.0
-    snm1 = mi[-2:-1]
+    snm2 = (mi[-2:-1] + mi[-1:]) / 2.0
+    snm1 = mi[-1:]
 
     wim1 = jnp.abs(mi[3:] - mi[2:-1])
     wi = jnp.abs(mi[1:-2] - mi[0:-3])
-- 
2.43.0


From 95f4a3c1d554cafb68f24e00fbe956b95a5e4a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:24 +0000
Subject: [PATCH 38/48] fix: bisect_for_root walked away from a root it had hit
 exactly

---
 jax_galsim/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/core/utils.py b/jax_galsim/core/utils.py
index 839d065..722aa2f 100644
--- a/jax_galsim/core/utils.py
+++ b/jax_galsim/core/utils.py
@@ -169,7 +169,7 @@ def bisect_for_root(func, low, high, niter=75):
         mid = (low + high) / 2.0
         fmid = func(mid)
         return jax.lax.cond(
-            fmid * fhigh < 0,
+            fmid * fhigh <= 0,
             lambda func, low, flow, mid, fmid, high, fhigh: (
                 func,
                 mid,
-- 
2.43.0


From 9a79855ed90e88843756a954262dce1f1df2a9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:24 +0000
Subject: [PATCH 39/48] fix: equal WCS objects had different hashes

---
 jax_galsim/celestial.py |  2 +-
 jax_galsim/fitswcs.py   | 13 +++++++++++-
 jax_galsim/wcs.py       | 45 +++++++++++++++++++++++++++++++++++------
 3 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/jax_galsim/celestial.py b/jax_galsim/celestial.py
index e6a4c2b..174c221 100644
--- a/jax_galsim/celestial.py
+++ b/jax_galsim/celestial.py
@@ -841,7 +841,7 @@ class CelestialCoord(object):
         )
 
     def __hash__(self):
-        return hash(repr(self))
+        return hash(("galsim.CelestialCoord", self._ra, self._dec))
 
     def __eq__(self, other):
         return (
diff --git a/jax_galsim/fitswcs.py b/jax_galsim/fitswcs.py
index 0165486..4543a37 100644
--- a/jax_galsim/fitswcs.py
+++ b/jax_galsim/fitswcs.py
@@ -873,7 +873,18 @@ class GSFitsWCS(CelestialWCS):
             return "galsim.GSFitsWCS(%s)" % (self._tag)
 
     def __hash__(self):
-        return hash(repr(self))
+        return hash(
+            (
+                "galsim.GSFitsWCS",
+                self.wcs_type,
+                ensure_hashable(self.crpix),
+                ensure_hashable(self.cd),
+                self.center,
+                ensure_hashable(self.pv),
+                ensure_hashable(self.ab),
+                ensure_hashable(self.abp),
+            )
+        )
 
 
 @implements(_galsim.fitswcs.TanWCS)
diff --git a/jax_galsim/wcs.py b/jax_galsim/wcs.py
index a8f3b7a..121aa63 100644
--- a/jax_galsim/wcs.py
+++ b/jax_galsim/wcs.py
@@ -987,7 +987,7 @@ class PixelScale(LocalWCS):
         return "galsim.PixelScale(%r)" % (ensure_hashable(self.scale),)
 
     def __hash__(self):
-        return hash(repr(self))
+        return hash(("galsim.PixelScale", ensure_hashable(self.scale)))
 
 
 @implements(_galsim.ShearWCS)
@@ -1119,7 +1119,7 @@ class ShearWCS(LocalWCS):
         return "galsim.ShearWCS(%r, %r)" % (ensure_hashable(self.scale), self.shear)
 
     def __hash__(self):
-        return hash(repr(self))
+        return hash(("galsim.ShearWCS", ensure_hashable(self.scale), self.shear))
 
     def tree_flatten(self):
         children = (self.scale, self.shear)
@@ -1332,7 +1332,15 @@ class JacobianWCS(LocalWCS):
         )
 
     def __hash__(self):
-        return hash(repr(self))
+        return hash(
+            (
+                "galsim.JacobianWCS",
+                ensure_hashable(self.dudx),
+                ensure_hashable(self.dudy),
+                ensure_hashable(self.dvdx),
+                ensure_hashable(self.dvdy),
+            )
+        )
 
 
 #########################################################################################
@@ -1435,7 +1443,14 @@ class OffsetWCS(UniformWCS):
         )
 
     def __hash__(self):
-        return hash(repr(self))
+        return hash(
+            (
+                "galsim.OffsetWCS",
+                ensure_hashable(self.scale),
+                self.origin,
+                self.world_origin,
+            )
+        )
 
 
 @implements(_galsim.OffsetShearWCS)
@@ -1530,7 +1545,15 @@ class OffsetShearWCS(UniformWCS):
         )
 
     def __hash__(self):
-        return hash(repr(self))
+        return hash(
+            (
+                "galsim.OffsetShearWCS",
+                ensure_hashable(self.scale),
+                self.shear,
+                self.origin,
+                self.world_origin,
+            )
+        )
 
     def tree_flatten(self):
         children = (self.scale, self.shear, self.origin, self.world_origin)
@@ -1665,7 +1688,17 @@ class AffineTransform(UniformWCS):
         )
 
     def __hash__(self):
-        return hash(repr(self))
+        return hash(
+            (
+                "galsim.AffineTransform",
+                ensure_hashable(self.dudx),
+                ensure_hashable(self.dudy),
+                ensure_hashable(self.dvdx),
+                ensure_hashable(self.dvdy),
+                self.origin,
+                self.world_origin,
+            )
+        )
 
 
 @implements(_galsim.wcs.compatible)
-- 
2.43.0


From 4c258a1392668936eb50b1e53c9e36522cefe8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:24 +0000
Subject: [PATCH 40/48] fix: noise objects were compared and hashed by their
 repr

---
 jax_galsim/noise.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index 59e3a1e..411377f 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -3,7 +3,12 @@ import jax
 import jax.numpy as jnp
 from jax.tree_util import register_pytree_node_class
 
-from jax_galsim.core.utils import cast_to_float, ensure_hashable, implements
+from jax_galsim.core.utils import (
+    cast_to_float,
+    ensure_hashable,
+    implements,
+    is_equal_with_arrays,
+)
 from jax_galsim.errors import (
     GalSimError,
     GalSimImmutableError,
@@ -117,8 +122,10 @@ class BaseNoise:
         raise NotImplementedError("Cannot call applyTo on a pure BaseNoise object")
 
     def __eq__(self, other):
-        # Quick and dirty.  Just check reprs are equal.
-        return self is other or repr(self) == repr(other)
+        return self is other or (
+            type(other) is self.__class__
+            and is_equal_with_arrays(self.tree_flatten(), other.tree_flatten())
+        )
 
     def __ne__(self, other):
         return not self.__eq__(other)
-- 
2.43.0


From d15d4e81fcb9384bc796fa776119b0711c0adbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:24 +0000
Subject: [PATCH 41/48] fix: equal GSParams and interpolants had different
 hashes

---
 jax_galsim/gsparams.py    | 2 +-
 jax_galsim/interpolant.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/gsparams.py b/jax_galsim/gsparams.py
index 7025c37..8dbf932 100644
--- a/jax_galsim/gsparams.py
+++ b/jax_galsim/gsparams.py
@@ -153,7 +153,7 @@ class GSParams:
         return not self.__eq__(other)
 
     def __hash__(self):
-        return hash(repr(self))
+        return hash(("galsim.GSParams", self._getinitargs()))
 
 
 # We use the default a lot, so make it a class attribute.
diff --git a/jax_galsim/interpolant.py b/jax_galsim/interpolant.py
index 2a72087..1ef0fc5 100644
--- a/jax_galsim/interpolant.py
+++ b/jax_galsim/interpolant.py
@@ -140,7 +140,9 @@ class Interpolant:
         return not self.__eq__(other)
 
     def __hash__(self):
-        return hash(repr(self))
+        # hash the values that __eq__ compares
+        aux_data = self.tree_flatten()[1]
+        return hash((self.__class__, tuple(sorted(aux_data.items()))))
 
     @implements(_galsim.interpolant.Interpolant.xval)
     def xval(self, x):
-- 
2.43.0


From 2917590b9f38cd27d67bca8971d6788eb2586b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:24 +0000
Subject: [PATCH 42/48] fix: InterpolatedImage shared its caller's image,
 refused constant ones, and compared and hashed inconsistently

---
 jax_galsim/interpolatedimage.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index 3c4b40e..1a4db30 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -126,6 +126,11 @@ class InterpolatedImage(Transformation, metaclass=DirMeta):
                 "Interpolated images must use a float-type image.", image.dtype
             )
 
+        # keep our own copy so that later changes to the input image do not
+        # change this object
+        if _obj is None:
+            image = image.copy()
+
         self._jax_children = (
             image,
             dict(
@@ -264,7 +269,6 @@ class InterpolatedImage(Transformation, metaclass=DirMeta):
                     ensure_hashable(self.flux),
                     ensure_hashable(self._stepk),
                     ensure_hashable(self._maxk),
-                    ensure_hashable(self._original._jax_aux_data["pad_factor"]),
                 )
             )
             self._hash ^= hash(
@@ -308,8 +312,8 @@ class InterpolatedImage(Transformation, metaclass=DirMeta):
         # Most things we keep even if not required, but the pad_image is large, so skip it
         # if it's really just the same as the main image.
         if self._original._pad_image.bounds != self._original.image.bounds:
-            s += ", pad_image=%r" % (self._pad_image)
-        s += ", pad_factor=%f, flux=%r, offset=%r" % (
+            s += ", pad_image=%r" % (self._original._pad_image)
+        s += ", pad_factor=%r, flux=%r, offset=%r" % (
             ensure_hashable(self._original._jax_aux_data["pad_factor"]),
             ensure_hashable(self.flux),
             self._original._offset,
@@ -331,6 +335,7 @@ class InterpolatedImage(Transformation, metaclass=DirMeta):
         return self is other or (
             isinstance(other, InterpolatedImage)
             and self._xim == other._xim
+            and self._original._wcs == other._original._wcs
             and self.x_interpolant == other.x_interpolant
             and self.k_interpolant == other.k_interpolant
             and self.flux == other.flux
@@ -515,13 +520,15 @@ class _InterpolatedImageImpl(GSObject):
                 )
 
         if calculate_stepk or calculate_maxk or flux is not None:
-            image.array = jnp.array(image.array)
+            # do not write to the input image, which may be shared or const
+            image = image.copy()
             image.array = equinox.error_if(
                 image.array,
                 jnp.any(image.array.sum() == 0.0),
                 "This input image has zero total flux. It does not define a "
                 "valid surface brightness profile.",
             )
+            self._jax_children = (image, self._jax_children[1])
 
     @doc_inherit
     def withGSParams(self, gsparams=None, **kwargs):
-- 
2.43.0


From 7d395f01391ef7c5d086ab062b8eb26a00242ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:24 +0000
Subject: [PATCH 43/48] fix: a drawImage call that failed had changed the wcs
 and the centre of the given image

---
 jax_galsim/gsobject.py | 49 ++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index b848551..977e3dc 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -12,6 +12,7 @@ from jax_galsim.core.draw import calculate_n_photons
 from jax_galsim.core.utils import implements, is_equal_with_arrays
 from jax_galsim.errors import (
     GalSimError,
+    GalSimImmutableError,
     GalSimIncompatibleValuesError,
     GalSimNotImplementedError,
     GalSimValueError,
@@ -616,7 +617,7 @@ The JAX-GalSim version of ``drawImage``
     ):
         from jax_galsim.box import Pixel
         from jax_galsim.convolve import Convolution, Convolve
-        from jax_galsim.image import Image
+        from jax_galsim.image import Image, _Image
         from jax_galsim.wcs import PixelScale
 
         if surface_ops is not None:
@@ -709,6 +710,11 @@ The JAX-GalSim version of ``drawImage``
                     save_photons=save_photons,
                 )
 
+        if method != "phot" and not setup_only and (sensor is not None or photon_ops):
+            raise NotImplementedError(
+                "Sensor/photon_ops not yet implemented in drawImage for method != 'phot'."
+            )
+
         # Figure out what wcs we are going to use.
         wcs = self._determine_wcs(scale, wcs, image)
 
@@ -759,19 +765,21 @@ The JAX-GalSim version of ``drawImage``
             )
 
         # Make sure image is setup correctly
-        image = prof._setup_image(image, nx, ny, bounds, add_to_image, dtype, center)
-        image_in = (
-            image  # For compatibility with normal galsim, we update image_in below.
+        image_in = prof._setup_image(
+            image, nx, ny, bounds, add_to_image, dtype, center
         )
-        image.wcs = wcs
+        if image_in.isconst:
+            raise GalSimImmutableError("Cannot modify an immutable Image", image_in)
+        image_in.wcs = wcs
 
         if setup_only:
-            image.added_flux = 0.0
-            return image
+            image_in.added_flux = 0.0
+            return image_in
 
-        # Making a view of the image lets us change the center without messing up the original.
-        original_center = image.center
-        wcs = image.wcs
+        # Drawing into a separate Image lets us change the center without messing up the
+        # original, which is only updated below, once the drawing has succeeded.
+        original_center = image_in.center
+        image = _Image(image_in._array, image_in._bounds, None)
         image.setCenter(0, 0)
         image.wcs = PixelScale(1.0)
 
@@ -791,33 +799,18 @@ The JAX-GalSim version of ``drawImage``
                 local_wcs,
             )
         else:
-            if sensor is not None or photon_ops:
-                raise NotImplementedError(
-                    "Sensor/photon_ops not yet implemented in drawImage for method != 'phot'."
-                )
-
             if prof.is_analytic_x:
                 added_photons = prof.drawReal(image, add_to_image)
             else:
                 added_photons = prof.drawFFT(image, add_to_image)
 
-        image.added_flux = added_photons / flux_scale
-        # Restore the original center and wcs
-        image.shift(original_center)
-        image.wcs = wcs
-        if save_photons:
-            image.photons = photons
-
-        # Update image_in to satisfy GalSim API
+        # Update image_in to satisfy GalSim API.  It has kept its own center and wcs.
         image_in._array = image._array
-        image_in.added_flux = image.added_flux
-        image_in._bounds = image._bounds
-        image_in.wcs = image.wcs
-        image_in._dtype = image._dtype
+        image_in.added_flux = added_photons / flux_scale
         if save_photons:
             image_in.photons = photons
 
-        return image
+        return image_in
 
     @implements(_galsim.GSObject.drawReal)
     def drawReal(self, image, add_to_image=False):
-- 
2.43.0


From da3f9ad8e1cdc40c58a578984f2bf6b267f5d1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:24 +0000
Subject: [PATCH 44/48] fix: Image.wrap wrote to the image before refusing the
 bounds

---
 jax_galsim/image.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index 15c9bff..60c3775 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -757,6 +757,7 @@ class Image(object):
 
         # Get this at the start to check for invalid bounds and raise the exception before
         # possibly writing data past the edge of the image.
+        self.subImage(bounds)
         if not hermitian:
             return self._wrap(bounds, False, False, None)
         elif hermitian == "x":
-- 
2.43.0


From 7d04c49c5f36e2d6d4f5decd46746f8ccae583e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:24 +0000
Subject: [PATCH 45/48] fix: Spergel accepted nu outside the range where it is
 defined

---
 jax_galsim/spergel.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/jax_galsim/spergel.py b/jax_galsim/spergel.py
index 9ba878a..8f4b1b2 100644
--- a/jax_galsim/spergel.py
+++ b/jax_galsim/spergel.py
@@ -278,6 +278,22 @@ class Spergel(GSObject):
         flux=1.0,
         gsparams=None,
     ):
+        if isinstance(nu, (float, int)):
+            if nu < self._minimum_nu:
+                raise _galsim.GalSimRangeError(
+                    "Requested Spergel index is too small",
+                    nu,
+                    self._minimum_nu,
+                    self._maximum_nu,
+                )
+            if nu > self._maximum_nu:
+                raise _galsim.GalSimRangeError(
+                    "Requested Spergel index is too large",
+                    nu,
+                    self._minimum_nu,
+                    self._maximum_nu,
+                )
+
         # Parse the radius options
         if half_light_radius is not None:
             if scale_radius is not None:
-- 
2.43.0


From 714070a1c6fdf8ebb9bd51342d5cd5e7027ff010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:24 +0000
Subject: [PATCH 46/48] fix: PhotonArray.flux could not be set from a list

---
 jax_galsim/photon_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/photon_array.py b/jax_galsim/photon_array.py
index 5052918..25a384b 100644
--- a/jax_galsim/photon_array.py
+++ b/jax_galsim/photon_array.py
@@ -323,7 +323,7 @@ class PhotonArray:
     @flux.setter
     def flux(self, value):
         self._flux = self._flux.at[:].set(
-            value
+            jnp.asarray(value)
             # scale it down to account for scaling in flux getter above
             # this factor has to be computed after _nokeep is set above
             # so that _num_keep is the right value
-- 
2.43.0


From 98b698b10071b59d513f2ffff752f8a18d11afb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:01 +0000
Subject: [PATCH 47/48] fix: drawing with photons and makePhot disconnected the
 deviates sharing the generator given

---
 jax_galsim/gsobject.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index 977e3dc..e5bcef1 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -1102,7 +1102,7 @@ The JAX-GalSim version of ``drawImage``
             poisson_flux=poisson_flux,
         )
         if rng is not None:
-            rng._state = _rng._state
+            rng._key = _rng._key
         return n_photons, g
 
     @implements(
@@ -1300,7 +1300,7 @@ The JAX-GalSim version of ``drawPhot``
                 orig_center=orig_center,
             )
         if rng is not None:
-            rng._state = _dfret.rng._state
+            rng._key = _dfret.rng._key
         else:
             rng = _dfret.rng
         for i in range(len(photon_ops)):
-- 
2.43.0


From 717bc2758fa5b09b4211401b20d314897019eb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:16 +0000
Subject: [PATCH 48/48] fix: interpolated images could not be passed through
 vmap (regression of 2917590)

---
 jax_galsim/interpolatedimage.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index 1a4db30..9bd3a08 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -520,10 +520,12 @@ class _InterpolatedImageImpl(GSObject):
                 )
 
         if calculate_stepk or calculate_maxk or flux is not None:
-            # do not write to the input image, which may be shared or const
-            image = image.copy()
-            image.array = equinox.error_if(
-                image.array,
+            # do not write to the input image, which may be shared
+            # (image.copy() is of no use here: JAX transformations also build this class
+            # from images whose array carries a batch dimension)
+            image = copy.copy(image)
+            image._array = equinox.error_if(
+                jnp.array(image.array),
                 jnp.any(image.array.sum() == 0.0),
                 "This input image has zero total flux. It does not define a "
                 "valid surface brightness profile.",
-- 
2.43.0

