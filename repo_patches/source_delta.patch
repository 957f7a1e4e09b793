From 8abe11d57102c1ebd8576eca793375b7306f3e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:17 +0000
Subject: [PATCH 01/18] fix: rebuild a Cosmology that carries gamma from its
 flattened form

---
 jax_cosmo/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/core.py b/jax_cosmo/core.py
index 4ff49d6..2f8e742 100644
--- a/jax_cosmo/core.py
+++ b/jax_cosmo/core.py
@@ -120,7 +120,7 @@ class Cosmology:
     def tree_unflatten(cls, aux_data, children):
         # Retrieve base parameters
         Omega_c, Omega_b, h, n_s, sigma8, Omega_k, w0, wa = children[:8]
-        children = list(children[8:]).reverse()
+        children = list(children[8:])[::-1]
 
         # We extract the remaining parameters in reverse order from how they
         # were inserted
-- 
2.43.0


From 9fd65f354b6bce5f9370b12693cdb6835d6849fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:17 +0000
Subject: [PATCH 02/18] fix: keep the multiplicative bias of WeakLensing
 through flattening

---
 jax_cosmo/probes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jax_cosmo/probes.py b/jax_cosmo/probes.py
index fab6880..d5757f5 100644
--- a/jax_cosmo/probes.py
+++ b/jax_cosmo/probes.py
@@ -169,6 +169,14 @@ class WeakLensing(container):
             kwargs["ia_enabled"] = ia_enabled
         super(WeakLensing, self).__init__(*args, sigma_e=sigma_e, **kwargs)
 
+    @classmethod
+    def tree_unflatten(cls, aux_data, children):
+        # The traced parameters are not stored in the order of the init arguments
+        redshift_bins, multiplicative_bias, *ia_bias = children
+        return cls(
+            redshift_bins, *ia_bias, multiplicative_bias=multiplicative_bias, **aux_data
+        )
+
     @property
     def n_tracers(self):
         """
-- 
2.43.0


From 206a35e05c0b9a90b2a6af3a5de51ddfd1f190da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:17 +0000
Subject: [PATCH 03/18] fix: evaluate delta_nz at a redshift

---
 jax_cosmo/redshift.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index c7fb4b2..a79d292 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -92,7 +92,7 @@ class delta_nz(redshift_distribution):
         self._norm = 1.0
 
     def pz_fn(self, z):
-        z0 = self.params
+        z0 = self.params[0]
         return np.where(z == z0, 1.0, 0)
 
 
-- 
2.43.0


From dc9d01dcb4a6c4389c8435f2ae1e934238316035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:17 +0000
Subject: [PATCH 04/18] fix: sign of the log determinant in
 gaussian_log_likelihood

---
 jax_cosmo/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/likelihood.py b/jax_cosmo/likelihood.py
index 25ae649..d8fd02f 100644
--- a/jax_cosmo/likelihood.py
+++ b/jax_cosmo/likelihood.py
@@ -58,4 +58,4 @@ def gaussian_log_likelihood(data, mu, C, include_logdet=True, inverse_method="in
             _, logdet = sparse.slogdet(C)
         else:
             _, logdet = np.linalg.slogdet(C)
-        return -0.5 * (rT_Cinv_r - logdet)
+        return -0.5 * (rT_Cinv_r + logdet)
-- 
2.43.0


From 9a31faf3307c3990ff80c7499e688f8801f285b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:17 +0000
Subject: [PATCH 05/18] fix: interp in the first interval and on decreasing
 abscissae

---
 jax_cosmo/scipy/interpolate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index 585fabc..c7e7641 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -31,8 +31,9 @@ def interp(x, xp, fp):
     ind = np.clip(ind, 1, len(xp) - 2)
 
     xi = xp[ind]
-    # Figure out if we are on the right or the left of nearest
-    s = np.sign(np.clip(x, xp[1], xp[-2]) - xi).astype(np.int64)
+    # Figure out if we are on the right or the left of nearest, whether xp is
+    # increasing or decreasing
+    s = np.sign((x - xi) * (xp[-1] - xp[0])).astype(np.int64)
     a = (fp[ind + np.copysign(1, s).astype(np.int64)] - fp[ind]) / (
         xp[ind + np.copysign(1, s).astype(np.int64)] - xp[ind]
     )
-- 
2.43.0


From 9241ea2a2a618a7084964bcdaaec94f715733592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:17 +0000
Subject: [PATCH 06/18] fix: vanishing second derivative at the right end of a
 natural spline

---
 jax_cosmo/scipy/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index c7e7641..4dd2912 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -207,7 +207,7 @@ class InterpolatedUnivariateSpline(object):
                 A02 = zero if endpoints == "natural" else array([h[0]])
                 ANN = one if endpoints == "natural" else array([h[-2]])
                 AN1 = (
-                    -one if endpoints == "natural" else array([-(h[-2] + h[-1])])
+                    zero if endpoints == "natural" else array([-(h[-2] + h[-1])])
                 )  # A[N, N-1]
                 AN2 = zero if endpoints == "natural" else array([h[-1]])  # A[N, N-2]
 
-- 
2.43.0


From 1873e17da3f960b0787bf7382e625b37473a67cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:17 +0000
Subject: [PATCH 07/18] fix: integer overflow of the lensing ell factor

---
 jax_cosmo/probes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jax_cosmo/probes.py b/jax_cosmo/probes.py
index d5757f5..c276dc2 100644
--- a/jax_cosmo/probes.py
+++ b/jax_cosmo/probes.py
@@ -72,7 +72,10 @@ def weak_lensing_kernel(cosmo, pzs, z, ell):
     # Constant term
     constant_factor = 3.0 * const.H0**2 * cosmo.Omega_m / 2.0 / const.c
     # Ell dependent factor
-    ell_factor = np.sqrt((ell - 1) * (ell) * (ell + 1) * (ell + 2)) / (ell + 0.5) ** 2
+    # (floating point, as the product overflows for integer ell)
+    ell_factor = (
+        np.sqrt((ell - 1.0) * (ell) * (ell + 1.0) * (ell + 2.0)) / (ell + 0.5) ** 2
+    )
     return constant_factor * ell_factor * radial_kernel
 
 
@@ -127,7 +130,10 @@ def nla_kernel(cosmo, pzs, bias, z, ell):
     # Constant factor
     constant_factor = 1.0
     # Ell dependent factor
-    ell_factor = np.sqrt((ell - 1) * (ell) * (ell + 1) * (ell + 2)) / (ell + 0.5) ** 2
+    # (floating point, as the product overflows for integer ell)
+    ell_factor = (
+        np.sqrt((ell - 1.0) * (ell) * (ell + 1.0) * (ell + 2.0)) / (ell + 0.5) ** 2
+    )
     return constant_factor * ell_factor * radial_kernel
 
 
-- 
2.43.0


From f9ef756791ba22c373b95d4fef6f68a68eeebdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:46 +0000
Subject: [PATCH 08/18] fix: honour the tabulation arguments of
 radial_comoving_distance after a first call

---
 jax_cosmo/background.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index ba7566c..1292f50 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -219,8 +219,18 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
 
         \chi(a) =  R_H \int_a^1 \frac{da^\prime}{{a^\prime}^2 E(a^\prime)}
     """
+    cache = _radial_comoving_distance_table(cosmo, log10_amin, steps)
+    a = np.atleast_1d(a)
+    # Return the results as an interpolation of the table
+    return np.clip(interp(a, cache["a"], cache["chi"]), 0.0)
+
+
+def _radial_comoving_distance_table(cosmo, log10_amin=-3, steps=256):
+    """Tabulated scale factors and radial comoving distances, stored in the
+    workspace of the cosmology for each choice of the tabulation."""
+    key = ("background.radial_comoving_distance", float(log10_amin), steps)
     # Check if distances have already been computed
-    if not "background.radial_comoving_distance" in cosmo._workspace.keys():
+    if not key in cosmo._workspace.keys():
         # Compute tabulated array
         atab = np.logspace(log10_amin, 0.0, steps)
 
@@ -233,13 +243,11 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
         chitab = chitab[-1] - chitab
 
         cache = {"a": atab, "chi": chitab}
-        cosmo._workspace["background.radial_comoving_distance"] = cache
+        cosmo._workspace[key] = cache
     else:
-        cache = cosmo._workspace["background.radial_comoving_distance"]
+        cache = cosmo._workspace[key]
 
-    a = np.atleast_1d(a)
-    # Return the results as an interpolation of the table
-    return np.clip(interp(a, cache["a"], cache["chi"]), 0.0)
+    return cache
 
 
 def a_of_chi(cosmo, chi):
@@ -259,10 +267,7 @@ def a_of_chi(cosmo, chi):
     a : array-like
       Scale factors corresponding to requested distances
     """
-    # Check if distances have already been computed, force computation otherwise
-    if not "background.radial_comoving_distance" in cosmo._workspace.keys():
-        radial_comoving_distance(cosmo, 1.0)
-    cache = cosmo._workspace["background.radial_comoving_distance"]
+    cache = _radial_comoving_distance_table(cosmo)
     chi = np.atleast_1d(chi)
     return interp(chi, cache["chi"], cache["a"])
 
-- 
2.43.0


From 20b564bd3adf6213d0097fb161e5c05882cfab6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:46 +0000
Subject: [PATCH 09/18] fix: accept a scalar scale factor in growth_factor and
 growth_rate

---
 jax_cosmo/background.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index 1292f50..3935781 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -490,6 +490,7 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
         cosmo._workspace["background.growth_factor"] = cache
     else:
         cache = cosmo._workspace["background.growth_factor"]
+    a = np.atleast_1d(a)
     return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
 
 
@@ -514,6 +515,7 @@ def _growth_rate_ODE(cosmo, a):
     if not "background.growth_factor" in cosmo._workspace.keys():
         _growth_factor_ODE(cosmo, np.atleast_1d(1.0))
     cache = cosmo._workspace["background.growth_factor"]
+    a = np.atleast_1d(a)
     return interp(a, cache["a"], cache["f"])
 
 
@@ -550,6 +552,7 @@ def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
         cosmo._workspace["background.growth_factor"] = cache
     else:
         cache = cosmo._workspace["background.growth_factor"]
+    a = np.atleast_1d(a)
     return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
 
 
-- 
2.43.0


From 8348f2f534a2980700f48a3e70029c89040c3e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:29 +0000
Subject: [PATCH 10/18] fix: keep values cached while tracing usable after the
 trace

The tables of the background module and the normalisation of a redshift
distribution were computed as tracers when a function closing over a concrete
cosmology (or distribution) was jitted, and kept, so that the next use of that
object raised an UnexpectedTracerError.
---
 jax_cosmo/background.py | 10 ++++++++++
 jax_cosmo/redshift.py   |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index 3935781..80d32c1 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -1,4 +1,5 @@
 # This module implements various functions for the background COSMOLOGY
+import jax
 import jax.numpy as np
 from jax import lax
 
@@ -225,6 +226,9 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
     return np.clip(interp(a, cache["a"], cache["chi"]), 0.0)
 
 
+# Evaluated outside of any ongoing trace when its inputs are concrete, so that
+# what is kept for later calls remains valid once that trace is over
+@jax.ensure_compile_time_eval()
 def _radial_comoving_distance_table(cosmo, log10_amin=-3, steps=256):
     """Tabulated scale factors and radial comoving distances, stored in the
     workspace of the cosmology for each choice of the tabulation."""
@@ -445,6 +449,9 @@ def growth_rate(cosmo, a):
         return _growth_rate_ODE(cosmo, a)
 
 
+# Evaluated outside of any ongoing trace when its inputs are concrete, so that
+# what is kept for later calls remains valid once that trace is over
+@jax.ensure_compile_time_eval()
 def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
     """Compute linear growth factor D(a) at a given scale factor,
     normalised such that D(a=1) = 1.
@@ -519,6 +526,9 @@ def _growth_rate_ODE(cosmo, a):
     return interp(a, cache["a"], cache["f"])
 
 
+# Evaluated outside of any ongoing trace when its inputs are concrete, so that
+# what is kept for later calls remains valid once that trace is over
+@jax.ensure_compile_time_eval()
 def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
     r"""Computes growth factor by integrating the growth rate provided by the
     \gamma parametrization. Normalized such that D( a=1) =1
diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index a79d292..6806cc2 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -2,6 +2,7 @@
 from abc import ABC
 from abc import abstractmethod
 
+import jax
 import jax.numpy as np
 from jax.tree_util import register_pytree_node_class
 
@@ -25,6 +26,9 @@ class redshift_distribution(container):
         """Un-normalized n(z) function provided by sub classes"""
         pass
 
+    # Evaluated outside of any ongoing trace when its inputs are concrete, so that
+    # what is kept for later calls remains valid once that trace is over
+    @jax.ensure_compile_time_eval()
     def __call__(self, z):
         """Computes the normalized n(z)"""
         if self._norm is None:
-- 
2.43.0


From ad2023532215a028463fa53e2e83b4297fce0ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:13 +0000
Subject: [PATCH 11/18] fix: derivatives of the transverse distance in a flat
 universe

The flat branch did not depend on Omega_k, so that derivatives with respect to
Omega_k were missing a term at Omega_k = 0, and they were nan under vmap, where
the derivatives of all three branches are evaluated.
---
 jax_cosmo/background.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index 80d32c1..459bd5b 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -336,15 +336,21 @@ def transverse_comoving_distance(cosmo, a):
         \right.
     """
     index = cosmo.k + 1
+    # Kept away from zero in the branches which are not used when flat, where
+    # the derivative of the square root is not finite
+    flat = cosmo.Omega_k == 0
+    sqrtk = np.sqrt(np.abs(np.where(flat, 1.0, cosmo.Omega_k)))
 
     def open_universe(chi):
-        return const.rh / cosmo.sqrtk * np.sinh(cosmo.sqrtk * chi / const.rh)
+        return const.rh / sqrtk * np.sinh(sqrtk * chi / const.rh)
 
     def flat_universe(chi):
-        return chi
+        # Expansion of the two other branches in Omega_k, for the derivatives
+        x = cosmo.Omega_k * (chi / const.rh) ** 2
+        return chi * (1.0 + x / 6.0 + x**2 / 120.0)
 
     def close_universe(chi):
-        return const.rh / cosmo.sqrtk * np.sin(cosmo.sqrtk * chi / const.rh)
+        return const.rh / sqrtk * np.sin(sqrtk * chi / const.rh)
 
     branches = (open_universe, flat_universe, close_universe)
 
-- 
2.43.0


From eb46d8e6cd0c5e8079ed4652f1108cc48766a103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 12/18] fix: determinant of sparse matrices whose trailing
 blocks are singular

---
 jax_cosmo/sparse.py | 42 +++++-------------------------------------
 1 file changed, 5 insertions(+), 37 deletions(-)

diff --git a/jax_cosmo/sparse.py b/jax_cosmo/sparse.py
index 23139df..d54457a 100644
--- a/jax_cosmo/sparse.py
+++ b/jax_cosmo/sparse.py
@@ -27,8 +27,6 @@ You can also use the lower-level algorithms (with no input validation) directly:
  - :fun:`sparse_dot_sparse`
  - :fun:`dense_dot_sparse_dot_dense`
 """
-import functools
-
 import jax.numpy as np
 from jax import jit
 from jax import vmap
@@ -315,31 +313,13 @@ def inv(sparse):
     return np.transpose(np.linalg.inv(np.transpose(sparse, (2, 0, 1))), (1, 2, 0))
 
 
-# We split the determinant calculation for a matrix with N x N blocks
-# into n pieces that can be evaluated in parallel, following eqn (2.2)
-# of https://arxiv.org/abs/1112.4379.  First build a helper function
-# to calculate one piece indexed by 0 <= k < N:
-@functools.partial(jit, static_argnums=(1, 2, 3))
-def _block_det(sparse, k, N, P):
-    u = sparse[k : k + 1, k + 1 : N, 0:P]
-    S = sparse[k + 1 : N, k + 1 : N, 0:P]
-    v = sparse[k + 1 : N, k : k + 1, 0:P]
-    Sinv_v = sparse_dot_sparse(inv(S), v)
-    M = sparse[k, k] - sparse_dot_sparse(u, Sinv_v)
-    sign = np.prod(np.sign(M))
-    logdet = np.sum(np.log(np.abs(M)))
-    return sign, logdet
-
-
 @jit
 def slogdet(sparse):
     """Calculate the log(determinant) of a sparse matrix.
 
-    Based on equation (2.2) of https://arxiv.org/abs/1112.4379
-
-    For a zero sparse matrix, the result of this computation is
-    currently undefined and will return nan.
-    TODO: support null matrix as input.
+    The blocks are diagonal, so that the determinant is the product of those
+    of the ndiag matrices formed by the elements at one position of each block.
+    Each is calculated with pivoting: no block has to be invertible by itself.
 
     Parameters
     ----------
@@ -353,17 +333,8 @@ def slogdet(sparse):
         determinant.
     """
     sparse = check_sparse(sparse, square=True)
-    N, _, P = sparse.shape
-    sign = np.prod(np.sign(sparse[-1, -1]))
-    logdet = np.sum(np.log(np.abs(sparse[-1, -1])))
-    # The individual blocks can be calculated in any order so there
-    # should be a better way to express this using lax.map but I
-    # can't get it to work without "concretization" errors.
-    for i in range(N - 1):
-        s, ld = _block_det(sparse, i, N, P)
-        sign *= s
-        logdet += ld
-    return sign, logdet
+    sign, logdet = np.linalg.slogdet(np.transpose(sparse, (2, 0, 1)))
+    return np.prod(sign), np.sum(logdet)
 
 
 @jit
@@ -372,9 +343,6 @@ def det(sparse):
 
     Uses :func:`slogdet`.
 
-    For a zero sparse matrix, the result of this computation is
-    currently undefined and will return nan.
-
     Parameters
     ----------
     sparse : array
-- 
2.43.0


From 5361364928a7edc6a6a43c19c9f65b8425b9bea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:57 +0000
Subject: [PATCH 13/18] fix: coefficient of the halo term of the Smith et al.
 (2003) halofit

---
 jax_cosmo/power.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/power.py b/jax_cosmo/power.py
index 62dcfb7..3c2b06a 100644
--- a/jax_cosmo/power.py
+++ b/jax_cosmo/power.py
@@ -196,7 +196,7 @@ def halofit(cosmo, k, a, transfer_fn, prescription="takahashi2012"):
         alpha_n = 1.3884 + 0.3700 * n - 0.1452 * n**2
         beta_n = 0.8291 + 0.9854 * n + 0.3401 * n**2
         mu_n = 10 ** (-3.5442 + 0.1908 * n)
-        nu_n = 10 ** (0.9585 + 1.2857 * n)
+        nu_n = 10 ** (0.9589 + 1.2857 * n)
     elif prescription == "takahashi2012":
         a_n = 10 ** (
             1.5222
-- 
2.43.0


From eecb2fdbc0288dfa4a2a21c02012847a4ff5c00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:22 +0000
Subject: [PATCH 14/18] fix: reject sparse products of different block sizes
 instead of broadcasting

---
 jax_cosmo/sparse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jax_cosmo/sparse.py b/jax_cosmo/sparse.py
index d54457a..c4426f0 100644
--- a/jax_cosmo/sparse.py
+++ b/jax_cosmo/sparse.py
@@ -108,7 +108,12 @@ def dot(*args):
             if B.ndim < 1 or B.ndim > 2:
                 raise ValueError(f"B has invalid dimension {B.ndim} (expected 1 or 2).")
             Brows = B.shape[0]
-        if Acols != Brows:
+        if Acols != Brows or (
+            # The product of different block sizes is not sparse
+            is_sparse(A)
+            and is_sparse(B)
+            and A.shape[2] != B.shape[2]
+        ):
             raise ValueError(
                 f"Shapes of A {A.shape} and B {B.shape} not compatible for dot product."
             )
-- 
2.43.0


From 3451ec5d558c4eaa1da5a1b30510c8338ae95747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:44 +0000
Subject: [PATCH 15/18] fix: rebuild a spline from leaves of any type

---
 jax_cosmo/scipy/interpolate.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index 4dd2912..d4d66f5 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -240,8 +240,13 @@ class InterpolatedUnivariateSpline(object):
 
     @classmethod
     def tree_unflatten(cls, aux_data, children):
-        x, y, coefficients = children
-        return cls(x, y, coefficients=coefficients, **aux_data)
+        # The leaves can be anything: the constructor, which computes with its
+        # arguments, is not called again
+        spline = object.__new__(cls)
+        spline._x, spline._y, spline._coefficients = children
+        spline.k = aux_data["k"]
+        spline._endpoints = aux_data["endpoints"]
+        return spline
 
     def __call__(self, x):
         """Evaluation of the spline.
-- 
2.43.0


From 31e10feebe5676ac9c46040b528893960e32c1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:00 +0000
Subject: [PATCH 16/18] fix: keep the structure of a Cosmology with gamma
 whatever its leaves are replaced by

---
 jax_cosmo/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jax_cosmo/core.py b/jax_cosmo/core.py
index 2f8e742..30d831b 100644
--- a/jax_cosmo/core.py
+++ b/jax_cosmo/core.py
@@ -129,7 +129,7 @@ class Cosmology:
         else:
             gamma = None
 
-        return cls(
+        cosmo = cls(
             Omega_c=Omega_c,
             Omega_b=Omega_b,
             h=h,
@@ -140,6 +140,9 @@ class Cosmology:
             wa=wa,
             gamma=gamma,
         )
+        # The leaves may have been replaced by anything, including None
+        cosmo._flags["gamma_growth"] = aux_data["gamma_growth"]
+        return cosmo
 
     # Cosmological parameters, base and derived
     @property
-- 
2.43.0


From 12b14eeb3a4a66a31c39f2ed73e47142c5c420d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:37 +0000
Subject: [PATCH 17/18] fix: do not keep tables computed in a trace that ends
 before the object

---
 jax_cosmo/background.py | 33 +++++++++++++++++++++------------
 jax_cosmo/jax_utils.py  | 17 +++++++++++++++++
 jax_cosmo/redshift.py   | 10 +++++++---
 3 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index 459bd5b..305111a 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -4,6 +4,7 @@ import jax.numpy as np
 from jax import lax
 
 import jax_cosmo.constants as const
+from jax_cosmo.jax_utils import can_be_kept
 from jax_cosmo.scipy.interpolate import interp
 from jax_cosmo.scipy.ode import odeint
 
@@ -247,7 +248,8 @@ def _radial_comoving_distance_table(cosmo, log10_amin=-3, steps=256):
         chitab = chitab[-1] - chitab
 
         cache = {"a": atab, "chi": chitab}
-        cosmo._workspace[key] = cache
+        if can_be_kept(cosmo, cache):
+            cosmo._workspace[key] = cache
     else:
         cache = cosmo._workspace[key]
 
@@ -455,9 +457,6 @@ def growth_rate(cosmo, a):
         return _growth_rate_ODE(cosmo, a)
 
 
-# Evaluated outside of any ongoing trace when its inputs are concrete, so that
-# what is kept for later calls remains valid once that trace is over
-@jax.ensure_compile_time_eval()
 def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
     """Compute linear growth factor D(a) at a given scale factor,
     normalised such that D(a=1) = 1.
@@ -475,6 +474,17 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
     D:  ndarray, or float if input scalar
         Growth factor computed at requested scale factor
     """
+    cache = _growth_table_ODE(cosmo, log10_amin, steps, eps)
+    a = np.atleast_1d(a)
+    return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
+
+
+# Evaluated outside of any ongoing trace when its inputs are concrete, so that
+# what is kept for later calls remains valid once that trace is over
+@jax.ensure_compile_time_eval()
+def _growth_table_ODE(cosmo, log10_amin=-3, steps=128, eps=1e-4):
+    """Tabulated scale factors, growth factors and growth rates, stored in the
+    workspace of the cosmology."""
     # Check if growth has already been computed
     if not "background.growth_factor" in cosmo._workspace.keys():
         # Compute tabulated array
@@ -500,11 +510,12 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
         ftab = y[:, 1] / y1[-1] * atab / gtab
 
         cache = {"a": atab, "g": gtab, "f": ftab}
-        cosmo._workspace["background.growth_factor"] = cache
+        if can_be_kept(cosmo, cache):
+            cosmo._workspace["background.growth_factor"] = cache
     else:
         cache = cosmo._workspace["background.growth_factor"]
-    a = np.atleast_1d(a)
-    return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
+
+    return cache
 
 
 def _growth_rate_ODE(cosmo, a):
@@ -524,10 +535,7 @@ def _growth_rate_ODE(cosmo, a):
     f:  ndarray, or float if input scalar
         Growth rate computed at requested scale factor
     """
-    # Check if growth has already been computed, if not, compute it
-    if not "background.growth_factor" in cosmo._workspace.keys():
-        _growth_factor_ODE(cosmo, np.atleast_1d(1.0))
-    cache = cosmo._workspace["background.growth_factor"]
+    cache = _growth_table_ODE(cosmo)
     a = np.atleast_1d(a)
     return interp(a, cache["a"], cache["f"])
 
@@ -565,7 +573,8 @@ def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
         gtab = np.exp(odeint(integrand, np.log(atab[0]), np.log(atab)))
         gtab = gtab / gtab[-1]  # Normalize to a=1.
         cache = {"a": atab, "g": gtab}
-        cosmo._workspace["background.growth_factor"] = cache
+        if can_be_kept(cosmo, cache):
+            cosmo._workspace["background.growth_factor"] = cache
     else:
         cache = cosmo._workspace["background.growth_factor"]
     a = np.atleast_1d(a)
diff --git a/jax_cosmo/jax_utils.py b/jax_cosmo/jax_utils.py
index 63a240c..ec9925f 100644
--- a/jax_cosmo/jax_utils.py
+++ b/jax_cosmo/jax_utils.py
@@ -1,6 +1,23 @@
+import jax
 import jax.numpy as np
 
 
+def can_be_kept(obj, values):
+    """
+    Tests if values computed from the leaves of obj can be kept with it.
+
+    Values computed within a function that is being traced, from leaves that are
+    not part of that trace, are not valid any longer when this function returns,
+    although obj still is.
+    """
+
+    def traces(tree):
+        leaves = jax.tree_util.tree_leaves(tree)
+        return {id(x._trace) for x in leaves if isinstance(x, jax.core.Tracer)}
+
+    return traces(values) <= traces(obj)
+
+
 class container(object):
     """
     Generic structure to trace a parameterized  function
diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index 6806cc2..3ad5f12 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -6,6 +6,7 @@ import jax
 import jax.numpy as np
 from jax.tree_util import register_pytree_node_class
 
+from jax_cosmo.jax_utils import can_be_kept
 from jax_cosmo.jax_utils import container
 from jax_cosmo.scipy.integrate import simps
 
@@ -31,9 +32,12 @@ class redshift_distribution(container):
     @jax.ensure_compile_time_eval()
     def __call__(self, z):
         """Computes the normalized n(z)"""
-        if self._norm is None:
-            self._norm = simps(lambda t: self.pz_fn(t), 0.0, self.config["zmax"], 256)
-        return self.pz_fn(z) / self._norm
+        norm = self._norm
+        if norm is None:
+            norm = simps(lambda t: self.pz_fn(t), 0.0, self.config["zmax"], 256)
+            if can_be_kept(self, norm):
+                self._norm = norm
+        return self.pz_fn(z) / norm
 
     @property
     def zmax(self):
-- 
2.43.0


From 643a7a97aa49c453fb8d28ab58f66dda8b9fe1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:15 +0000
Subject: [PATCH 18/18] fix: derivatives of smail_nz for an exponent b below
 one

The Simpson nodes of the normalisation include z = 0, where the derivative of
(z / z0) ** b is infinite for b < 1, so that every derivative was nan.
---
 jax_cosmo/redshift.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index 3ad5f12..50048c9 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -83,7 +83,11 @@ class smail_nz(redshift_distribution):
 
     def pz_fn(self, z):
         a, b, z0 = self.params
-        return z**a * np.exp(-((z / z0) ** b))
+        # The exponential is one at z = 0, where its derivatives are not finite
+        # for b < 1, although those of the product are zero
+        zero = z == 0
+        x = np.where(zero, 1.0, z)
+        return z**a * np.where(zero, 1.0, np.exp(-((x / z0) ** b)))
 
 
 @register_pytree_node_class
-- 
2.43.0

