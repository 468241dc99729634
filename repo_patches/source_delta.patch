From a87864515d3250bd1ce549e4bf342bbd70256c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:25 +0000
Subject: [PATCH 01/13] fix: rebuild cosmologies that define gamma from their
 pytree leaves

list.reverse() returns None, so unflattening any cosmology with a growth
index (jit, grad, vmap, tree_map) raised AttributeError.
---
 jax_cosmo/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/core.py b/jax_cosmo/core.py
index 4ff49d6..2f8e742 100644
--- a/jax_cosmo/core.py
+++ b/jax_cosmo/core.py
@@ -120,7 +120,7 @@ class Cosmology:
     def tree_unflatten(cls, aux_data, children):
         # Retrieve base parameters
         Omega_c, Omega_b, h, n_s, sigma8, Omega_k, w0, wa = children[:8]
-        children = list(children[8:]).reverse()
+        children = list(children[8:])[::-1]
 
         # We extract the remaining parameters in reverse order from how they
         # were inserted
-- 
2.43.0


From b357017696b96431a623e8b2f0ba5166fa97d459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:25 +0000
Subject: [PATCH 02/13] fix: sign of the log-determinant in the Gaussian log
 likelihood

---
 jax_cosmo/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/likelihood.py b/jax_cosmo/likelihood.py
index 25ae649..d8fd02f 100644
--- a/jax_cosmo/likelihood.py
+++ b/jax_cosmo/likelihood.py
@@ -58,4 +58,4 @@ def gaussian_log_likelihood(data, mu, C, include_logdet=True, inverse_method="in
             _, logdet = sparse.slogdet(C)
         else:
             _, logdet = np.linalg.slogdet(C)
-        return -0.5 * (rT_Cinv_r - logdet)
+        return -0.5 * (rT_Cinv_r + logdet)
-- 
2.43.0


From eff0aeb834fd54d34e0c06ea1042561b48031bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:25 +0000
Subject: [PATCH 03/13] fix: evaluate delta redshift distributions against
 their redshift

The whole parameter tuple was compared with z, which raises TypeError.
---
 jax_cosmo/redshift.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index c7fb4b2..a79d292 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -92,7 +92,7 @@ class delta_nz(redshift_distribution):
         self._norm = 1.0
 
     def pz_fn(self, z):
-        z0 = self.params
+        z0 = self.params[0]
         return np.where(z == z0, 1.0, 0)
 
 
-- 
2.43.0


From ccf8db048b518540ed22aec8971634da9cb1cb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:13 +0000
Subject: [PATCH 04/13] fix: keep multiplicative bias and IA of WeakLensing
 through jax transforms

The leaves of the probe were handed back to __init__ in the wrong order, so
any jit/grad/vmap over it dropped the multiplicative bias, or crashed when
an intrinsic alignment bias was set.
---
 jax_cosmo/probes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jax_cosmo/probes.py b/jax_cosmo/probes.py
index fab6880..cd056bb 100644
--- a/jax_cosmo/probes.py
+++ b/jax_cosmo/probes.py
@@ -169,6 +169,13 @@ class WeakLensing(container):
             kwargs["ia_enabled"] = ia_enabled
         super(WeakLensing, self).__init__(*args, sigma_e=sigma_e, **kwargs)
 
+    @classmethod
+    def tree_unflatten(cls, aux_data, children):
+        # The children follow the order of self.params, not the signature of __init__
+        probe = cls.__new__(cls)
+        container.__init__(probe, *children, **aux_data)
+        return probe
+
     @property
     def n_tracers(self):
         """
-- 
2.43.0


From 9ca6a5919c21824b53097c12f49babe2ef43d2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:13 +0000
Subject: [PATCH 05/13] fix: interpolate in the right interval at the first one
 and on decreasing grids

Queries in the first interval were extrapolated from the second one, and on a
decreasing grid (a_of_chi, halofit non linear scale) queries past their nearest
node were extrapolated from the neighbouring interval.
---
 jax_cosmo/scipy/interpolate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index 585fabc..7f67ec9 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -32,7 +32,8 @@ def interp(x, xp, fp):
 
     xi = xp[ind]
     # Figure out if we are on the right or the left of nearest
-    s = np.sign(np.clip(x, xp[1], xp[-2]) - xi).astype(np.int64)
+    # (xp can be either increasing or decreasing)
+    s = np.sign((x - xi) * (xp[-1] - xp[0])).astype(np.int64)
     a = (fp[ind + np.copysign(1, s).astype(np.int64)] - fp[ind]) / (
         xp[ind + np.copysign(1, s).astype(np.int64)] - xp[ind]
     )
-- 
2.43.0


From d6432099794a83343cacbe3b5931544067d0e1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:13 +0000
Subject: [PATCH 06/13] fix: vanishing second derivative at the right end of
 natural splines

---
 jax_cosmo/scipy/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index 7f67ec9..fbb38c5 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -207,7 +207,7 @@ class InterpolatedUnivariateSpline(object):
                 A02 = zero if endpoints == "natural" else array([h[0]])
                 ANN = one if endpoints == "natural" else array([h[-2]])
                 AN1 = (
-                    -one if endpoints == "natural" else array([-(h[-2] + h[-1])])
+                    zero if endpoints == "natural" else array([-(h[-2] + h[-1])])
                 )  # A[N, N-1]
                 AN2 = zero if endpoints == "natural" else array([h[-1]])  # A[N, N-2]
 
-- 
2.43.0


From faca8a6b6b1079387289466a502c74099b005f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:13 +0000
Subject: [PATCH 07/13] fix: determinant of sparse matrices with singular
 trailing blocks

The recursion inverted trailing sub-blocks, and returned nan for invertible
matrices where one of them is singular.
---
 jax_cosmo/sparse.py | 41 ++++-------------------------------------
 1 file changed, 4 insertions(+), 37 deletions(-)

diff --git a/jax_cosmo/sparse.py b/jax_cosmo/sparse.py
index 23139df..0fa6525 100644
--- a/jax_cosmo/sparse.py
+++ b/jax_cosmo/sparse.py
@@ -27,8 +27,6 @@ You can also use the lower-level algorithms (with no input validation) directly:
  - :fun:`sparse_dot_sparse`
  - :fun:`dense_dot_sparse_dot_dense`
 """
-import functools
-
 import jax.numpy as np
 from jax import jit
 from jax import vmap
@@ -315,31 +313,12 @@ def inv(sparse):
     return np.transpose(np.linalg.inv(np.transpose(sparse, (2, 0, 1))), (1, 2, 0))
 
 
-# We split the determinant calculation for a matrix with N x N blocks
-# into n pieces that can be evaluated in parallel, following eqn (2.2)
-# of https://arxiv.org/abs/1112.4379.  First build a helper function
-# to calculate one piece indexed by 0 <= k < N:
-@functools.partial(jit, static_argnums=(1, 2, 3))
-def _block_det(sparse, k, N, P):
-    u = sparse[k : k + 1, k + 1 : N, 0:P]
-    S = sparse[k + 1 : N, k + 1 : N, 0:P]
-    v = sparse[k + 1 : N, k : k + 1, 0:P]
-    Sinv_v = sparse_dot_sparse(inv(S), v)
-    M = sparse[k, k] - sparse_dot_sparse(u, Sinv_v)
-    sign = np.prod(np.sign(M))
-    logdet = np.sum(np.log(np.abs(M)))
-    return sign, logdet
-
-
 @jit
 def slogdet(sparse):
     """Calculate the log(determinant) of a sparse matrix.
 
-    Based on equation (2.2) of https://arxiv.org/abs/1112.4379
-
-    For a zero sparse matrix, the result of this computation is
-    currently undefined and will return nan.
-    TODO: support null matrix as input.
+    Up to a symmetric permutation of its rows and columns, the matrix is block
+    diagonal with ndiag dense blocks, whose determinants can be multiplied.
 
     Parameters
     ----------
@@ -353,17 +332,8 @@ def slogdet(sparse):
         determinant.
     """
     sparse = check_sparse(sparse, square=True)
-    N, _, P = sparse.shape
-    sign = np.prod(np.sign(sparse[-1, -1]))
-    logdet = np.sum(np.log(np.abs(sparse[-1, -1])))
-    # The individual blocks can be calculated in any order so there
-    # should be a better way to express this using lax.map but I
-    # can't get it to work without "concretization" errors.
-    for i in range(N - 1):
-        s, ld = _block_det(sparse, i, N, P)
-        sign *= s
-        logdet += ld
-    return sign, logdet
+    sign, logdet = np.linalg.slogdet(np.transpose(sparse, (2, 0, 1)))
+    return np.prod(sign), np.sum(logdet)
 
 
 @jit
@@ -372,9 +342,6 @@ def det(sparse):
 
     Uses :func:`slogdet`.
 
-    For a zero sparse matrix, the result of this computation is
-    currently undefined and will return nan.
-
     Parameters
     ----------
     sparse : array
-- 
2.43.0


From 453df4e4b18eb7313ed2b28c477a69b4450e2530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:56 +0000
Subject: [PATCH 08/13] fix: accept a scalar scale factor in growth_factor and
 growth_rate

---
 jax_cosmo/background.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index ba7566c..f86fbc8 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -485,7 +485,7 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
         cosmo._workspace["background.growth_factor"] = cache
     else:
         cache = cosmo._workspace["background.growth_factor"]
-    return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
+    return np.clip(interp(np.atleast_1d(a), cache["a"], cache["g"]), 0.0, 1.0)
 
 
 def _growth_rate_ODE(cosmo, a):
@@ -509,7 +509,7 @@ def _growth_rate_ODE(cosmo, a):
     if not "background.growth_factor" in cosmo._workspace.keys():
         _growth_factor_ODE(cosmo, np.atleast_1d(1.0))
     cache = cosmo._workspace["background.growth_factor"]
-    return interp(a, cache["a"], cache["f"])
+    return interp(np.atleast_1d(a), cache["a"], cache["f"])
 
 
 def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
@@ -545,7 +545,7 @@ def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
         cosmo._workspace["background.growth_factor"] = cache
     else:
         cache = cosmo._workspace["background.growth_factor"]
-    return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
+    return np.clip(interp(np.atleast_1d(a), cache["a"], cache["g"]), 0.0, 1.0)
 
 
 def _growth_rate_gamma(cosmo, a):
-- 
2.43.0


From e4aa48c7509b10dbd2ba3c6682851d602f86548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:56 +0000
Subject: [PATCH 09/13] fix: derivatives of the transverse distance with
 respect to curvature when flat

The flat branch ignored Omega_k, so jax.grad missed the chi^3 term there.
---
 jax_cosmo/background.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index f86fbc8..c1c96f1 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -332,7 +332,10 @@ def transverse_comoving_distance(cosmo, a):
         return const.rh / cosmo.sqrtk * np.sinh(cosmo.sqrtk * chi / const.rh)
 
     def flat_universe(chi):
-        return chi
+        # Expansion around Omega_k = 0, which leaves the distance unchanged but lets
+        # its first two derivatives with respect to the curvature be correct
+        x = cosmo.Omega_k * (chi / const.rh) ** 2
+        return chi * (1.0 + x / 6.0 + x**2 / 120.0)
 
     def close_universe(chi):
         return const.rh / cosmo.sqrtk * np.sin(cosmo.sqrtk * chi / const.rh)
-- 
2.43.0


From 780d8dfb5c1895040ca498437bd26e6baf8d2925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:27 +0000
Subject: [PATCH 10/13] fix: do not reuse distance tables computed with other
 settings

Once a cosmology had tabulated its distances, log10_amin and steps were ignored
and the answer depended on which call came first.
---
 jax_cosmo/background.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index c1c96f1..e27b6ce 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -219,8 +219,19 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
 
         \chi(a) =  R_H \int_a^1 \frac{da^\prime}{{a^\prime}^2 E(a^\prime)}
     """
-    # Check if distances have already been computed
-    if not "background.radial_comoving_distance" in cosmo._workspace.keys():
+    cache = _radial_comoving_distance_table(cosmo, log10_amin, steps)
+    a = np.atleast_1d(a)
+    # Return the results as an interpolation of the table
+    return np.clip(interp(a, cache["a"], cache["chi"]), 0.0)
+
+
+def _radial_comoving_distance_table(cosmo, log10_amin=-3, steps=256):
+    """Tabulated radial comoving distance, from the workspace of the cosmology if
+    it has already been computed.
+    """
+    # Check if distances have already been computed, on the same table
+    key = ("background.radial_comoving_distance", log10_amin, steps)
+    if not key in cosmo._workspace.keys():
         # Compute tabulated array
         atab = np.logspace(log10_amin, 0.0, steps)
 
@@ -233,13 +244,10 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
         chitab = chitab[-1] - chitab
 
         cache = {"a": atab, "chi": chitab}
-        cosmo._workspace["background.radial_comoving_distance"] = cache
+        cosmo._workspace[key] = cache
     else:
-        cache = cosmo._workspace["background.radial_comoving_distance"]
-
-    a = np.atleast_1d(a)
-    # Return the results as an interpolation of the table
-    return np.clip(interp(a, cache["a"], cache["chi"]), 0.0)
+        cache = cosmo._workspace[key]
+    return cache
 
 
 def a_of_chi(cosmo, chi):
@@ -259,10 +267,7 @@ def a_of_chi(cosmo, chi):
     a : array-like
       Scale factors corresponding to requested distances
     """
-    # Check if distances have already been computed, force computation otherwise
-    if not "background.radial_comoving_distance" in cosmo._workspace.keys():
-        radial_comoving_distance(cosmo, 1.0)
-    cache = cosmo._workspace["background.radial_comoving_distance"]
+    cache = _radial_comoving_distance_table(cosmo)
     chi = np.atleast_1d(chi)
     return interp(chi, cache["chi"], cache["a"])
 
-- 
2.43.0


From 02e05d573204f10293cda069f7ecf66961aa29fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:12 +0000
Subject: [PATCH 11/13] fix: do not keep values traced by a transformation on
 objects that outlive it

---
 jax_cosmo/background.py | 25 +++++++++++++++++--------
 jax_cosmo/jax_utils.py  | 18 ++++++++++++++++++
 jax_cosmo/redshift.py   | 10 +++++++---
 3 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index e27b6ce..51667c7 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -3,6 +3,7 @@ import jax.numpy as np
 from jax import lax
 
 import jax_cosmo.constants as const
+from jax_cosmo.jax_utils import is_cacheable
 from jax_cosmo.scipy.interpolate import interp
 from jax_cosmo.scipy.ode import odeint
 
@@ -244,7 +245,8 @@ def _radial_comoving_distance_table(cosmo, log10_amin=-3, steps=256):
         chitab = chitab[-1] - chitab
 
         cache = {"a": atab, "chi": chitab}
-        cosmo._workspace[key] = cache
+        if is_cacheable(cache, cosmo):
+            cosmo._workspace[key] = cache
     else:
         cache = cosmo._workspace[key]
     return cache
@@ -465,6 +467,14 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
     D:  ndarray, or float if input scalar
         Growth factor computed at requested scale factor
     """
+    cache = _growth_table_ODE(cosmo, log10_amin, steps)
+    return np.clip(interp(np.atleast_1d(a), cache["a"], cache["g"]), 0.0, 1.0)
+
+
+def _growth_table_ODE(cosmo, log10_amin=-3, steps=128):
+    """Tabulated growth factor and growth rate, from the workspace of the cosmology
+    if they have already been computed.
+    """
     # Check if growth has already been computed
     if not "background.growth_factor" in cosmo._workspace.keys():
         # Compute tabulated array
@@ -490,10 +500,11 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
         ftab = y[:, 1] / y1[-1] * atab / gtab
 
         cache = {"a": atab, "g": gtab, "f": ftab}
-        cosmo._workspace["background.growth_factor"] = cache
+        if is_cacheable(cache, cosmo):
+            cosmo._workspace["background.growth_factor"] = cache
     else:
         cache = cosmo._workspace["background.growth_factor"]
-    return np.clip(interp(np.atleast_1d(a), cache["a"], cache["g"]), 0.0, 1.0)
+    return cache
 
 
 def _growth_rate_ODE(cosmo, a):
@@ -513,10 +524,7 @@ def _growth_rate_ODE(cosmo, a):
     f:  ndarray, or float if input scalar
         Growth rate computed at requested scale factor
     """
-    # Check if growth has already been computed, if not, compute it
-    if not "background.growth_factor" in cosmo._workspace.keys():
-        _growth_factor_ODE(cosmo, np.atleast_1d(1.0))
-    cache = cosmo._workspace["background.growth_factor"]
+    cache = _growth_table_ODE(cosmo)
     return interp(np.atleast_1d(a), cache["a"], cache["f"])
 
 
@@ -550,7 +558,8 @@ def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
         gtab = np.exp(odeint(integrand, np.log(atab[0]), np.log(atab)))
         gtab = gtab / gtab[-1]  # Normalize to a=1.
         cache = {"a": atab, "g": gtab}
-        cosmo._workspace["background.growth_factor"] = cache
+        if is_cacheable(cache, cosmo):
+            cosmo._workspace["background.growth_factor"] = cache
     else:
         cache = cosmo._workspace["background.growth_factor"]
     return np.clip(interp(np.atleast_1d(a), cache["a"], cache["g"]), 0.0, 1.0)
diff --git a/jax_cosmo/jax_utils.py b/jax_cosmo/jax_utils.py
index 63a240c..7538177 100644
--- a/jax_cosmo/jax_utils.py
+++ b/jax_cosmo/jax_utils.py
@@ -1,4 +1,22 @@
 import jax.numpy as np
+from jax.core import Tracer
+from jax.tree_util import tree_leaves
+
+
+def is_cacheable(value, owner):
+    """
+    Whether a value computed from the parameters of a pytree object can be stored on
+    that object.
+
+    This is not the case for values traced by a JAX transformation which the object
+    may outlive, i.e. one that does not trace any of the object's own parameters.
+    """
+    traces = [p._trace for p in tree_leaves(owner) if isinstance(p, Tracer)]
+    return all(
+        any(v._trace is t for t in traces)
+        for v in tree_leaves(value)
+        if isinstance(v, Tracer)
+    )
 
 
 class container(object):
diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index a79d292..9556435 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -6,6 +6,7 @@ import jax.numpy as np
 from jax.tree_util import register_pytree_node_class
 
 from jax_cosmo.jax_utils import container
+from jax_cosmo.jax_utils import is_cacheable
 from jax_cosmo.scipy.integrate import simps
 
 steradian_to_arcmin2 = 11818102.86004228
@@ -27,9 +28,12 @@ class redshift_distribution(container):
 
     def __call__(self, z):
         """Computes the normalized n(z)"""
-        if self._norm is None:
-            self._norm = simps(lambda t: self.pz_fn(t), 0.0, self.config["zmax"], 256)
-        return self.pz_fn(z) / self._norm
+        norm = self._norm
+        if norm is None:
+            norm = simps(lambda t: self.pz_fn(t), 0.0, self.config["zmax"], 256)
+            if is_cacheable(norm, self):
+                self._norm = norm
+        return self.pz_fn(z) / norm
 
     @property
     def zmax(self):
-- 
2.43.0


From 3bac023e2688090f5466011e94a1a5178e65f133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:32 +0000
Subject: [PATCH 12/13] fix: finite gradient of smail_nz with respect to z0
 when b < 1

---
 jax_cosmo/redshift.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index 9556435..25b2759 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -79,7 +79,8 @@ class smail_nz(redshift_distribution):
 
     def pz_fn(self, z):
         a, b, z0 = self.params
-        return z**a * np.exp(-((z / z0) ** b))
+        # z**b / z0**b, as the derivative of (z / z0)**b is not finite at z = 0 if b < 1
+        return z**a * np.exp(-(z**b / z0**b))
 
 
 @register_pytree_node_class
-- 
2.43.0


From 601d3d99fc04f8b16942fa848c68db759b3882f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:18 +0000
Subject: [PATCH 13/13] fix: integer scale factors in the background functions

jax refuses negative integer powers of integers, so that Esqr, H, Omega_m_a, and with them halofit,
raised a TypeError at a = 1 (but not at a = 1.0)
---
 jax_cosmo/background.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index 51667c7..52e5da8 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -121,8 +121,8 @@ def Esqr(cosmo, a):
     by :py:meth:`.f_de`.
     """
     return (
-        cosmo.Omega_m * np.power(a, -3)
-        + cosmo.Omega_k * np.power(a, -2)
+        cosmo.Omega_m * np.power(a, -3.0)
+        + cosmo.Omega_k * np.power(a, -2.0)
         + cosmo.Omega_de * np.exp(f_de(cosmo, a))
     )
 
@@ -166,7 +166,7 @@ def Omega_m_a(cosmo, a):
 
     see :cite:`2005:Percival` Eq. (6)
     """
-    return cosmo.Omega_m * np.power(a, -3) / Esqr(cosmo, a)
+    return cosmo.Omega_m * np.power(a, -3.0) / Esqr(cosmo, a)
 
 
 def Omega_de_a(cosmo, a):
-- 
2.43.0

