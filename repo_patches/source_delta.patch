From 20f06b85b12adb5de3e40d8e00c88905b0ecec7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:49 +0000
Subject: [PATCH 01/14] fix: map_entries visits entries in C order whatever the
 memory layout

---
 runlmc/util/numpy_convenience.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/util/numpy_convenience.py b/runlmc/util/numpy_convenience.py
index b22445c..b2c9ae8 100644
--- a/runlmc/util/numpy_convenience.py
+++ b/runlmc/util/numpy_convenience.py
@@ -22,7 +22,7 @@ def map_entries(f, nparr):
     """
     if nparr.size == 0:
         return nparr
-    it = np.nditer(nparr)
+    it = np.nditer(nparr, order='C')
     shape = nparr.shape
     dtype = nparr.dtype
     return np.fromiter(map(f, it), dtype).reshape(shape)
-- 
2.43.0


From dc86d53bbb4af0940741486ed4c01f93a93a2f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:49 +0000
Subject: [PATCH 02/14] fix: autogrid no longer modifies the caller's grid
 sizes in place

---
 runlmc/approx/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/approx/interpolation.py b/runlmc/approx/interpolation.py
index 59e3897..25cbc42 100644
--- a/runlmc/approx/interpolation.py
+++ b/runlmc/approx/interpolation.py
@@ -209,7 +209,7 @@ def autogrid(Xs, lo, hi, m):
     delta = (hi - lo) / m
     lo -= 2 * delta
     hi += 2 * delta
-    m += 4
+    m = m + 4
 
     grids = [np.linspace(l, h, int(mm)) for l, h, mm in zip(lo, hi, m)]
     return grids
-- 
2.43.0


From e8f3e0802bbbd916450bb3dc6d30fddd2c36b5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:49 +0000
Subject: [PATCH 03/14] fix: SLFM grid representation adds no identity for an
 absent term

A kernel without coregionalized (or without diagonal) terms has no
corresponding summand; an identity matrix there adds spurious unit
covariance at the inducing points.
---
 runlmc/lmc/grid_kernel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runlmc/lmc/grid_kernel.py b/runlmc/lmc/grid_kernel.py
index 82ed108..70b8929 100644
--- a/runlmc/lmc/grid_kernel.py
+++ b/runlmc/lmc/grid_kernel.py
@@ -77,7 +77,7 @@ def gen_grid_kernel(fk, grid_dists, interpolants, lens_per_output):
 def _gen_slfm_grid(functional_kernel, grid_k, m, active_dim):
     coreg_Ks = _gen_coreg_Ks(functional_kernel, grid_k, m, active_dim)
     diag_Ks = _gen_diag_Ks(functional_kernel, grid_k, m, active_dim)
-    return SumMatrix([coreg_Ks, diag_Ks])
+    return SumMatrix([K for K in (coreg_Ks, diag_Ks) if K is not None])
 
 
 def _gen_coreg_Ks(fk, grid_k, m, active_dim):
@@ -85,7 +85,7 @@ def _gen_coreg_Ks(fk, grid_k, m, active_dim):
     non_indep = fk.filter_non_indep_idxs(kidxs)
     all_coreg = [fk.coreg_vecs[idx] for idx in non_indep]
     if not all_coreg:
-        return Identity(m)
+        return None
     ranks = np.array([len(coreg) for coreg in all_coreg])
     A_star = np.vstack(all_coreg).T
     I_m = Identity(np.prod(grid_k.shape[1:]))
@@ -102,7 +102,7 @@ def _gen_coreg_Ks(fk, grid_k, m, active_dim):
 
 def _gen_diag_Ks(fk, grid_k, m, active_dim):
     if fk.num_lmc[active_dim] == 0 and fk.num_indep[active_dim] == 0:
-        return Identity(m)
+        return None
     kidxs = fk.active_dims[active_dim]
     diags = np.column_stack([fk.coreg_diags[kidx] for kidx in kidxs])
     Q = grid_k.shape[0]
-- 
2.43.0


From e96344be3c53e50a08e4a4dd09a4e0e927e89214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:49 +0000
Subject: [PATCH 04/14] fix: FunctionalKernel accepts its default of no LMC
 kernels

---
 runlmc/lmc/functional_kernel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runlmc/lmc/functional_kernel.py b/runlmc/lmc/functional_kernel.py
index d1bb0eb..61fdfce 100644
--- a/runlmc/lmc/functional_kernel.py
+++ b/runlmc/lmc/functional_kernel.py
@@ -95,13 +95,15 @@ class FunctionalKernel(Parameterized):
         if not lmc_kernels and not slfm_kernels and not indep_gp:
             raise ValueError('Number of kernels should be >0')
 
+        lmc_kernels = lmc_kernels or []
+        lmc_ranks = lmc_ranks or []
+
         if len(lmc_kernels) != len(lmc_ranks):
             raise ValueError('# LMC kernels should equal # LMC ranks')
 
         if not all(map(lambda rank: rank > 0, lmc_ranks)):
             raise ValueError('LMC ranks not positive')
 
-        lmc_kernels = lmc_kernels or []
         slfm_kernels = slfm_kernels or []
         indep_gp = indep_gp or []
         indep_gp_index = indep_gp_index or range(len(indep_gp))
-- 
2.43.0


From a8eb409079166f3d082759ae9b014711f35f52e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:49 +0000
Subject: [PATCH 05/14] fix: prior gradient includes the Jacobian of every
 parameter with a prior

---
 runlmc/parameterization/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/parameterization/model.py b/runlmc/parameterization/model.py
index c2082fa..3979a4f 100644
--- a/runlmc/parameterization/model.py
+++ b/runlmc/parameterization/model.py
@@ -113,7 +113,7 @@ class Model(paramz.Model, _PriorizableNode):
 
         # Incorporate Jacobian for transformations again
         indices_with_prior = {
-            idx for idx in indices for _, indices in self.priors.items()}
+            idx for _, indices in self.priors.items() for idx in indices}
         for constraint, indices in self.constraints.items():
             if not isinstance(constraint, Transformation):
                 continue
-- 
2.43.0


From df8f58b9e4008356e66efebd5317f8a642168d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:49 +0000
Subject: [PATCH 06/14] fix: prediction works with the identity kernel

---
 runlmc/models/interpolated_llgp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index d867c28..37dca4b 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -307,7 +307,8 @@ class InterpolatedLLGP(MultiGP):
                                  for per_output
                                  in self._functional_kernel.coreg_vecs)
         coregs += np.column_stack(self._functional_kernel.coreg_diags)
-        zero_dist = {v: 0 for v in self._functional_kernel.active_dims}
+        zero_dist = {v: np.zeros(1)
+                     for v in self._functional_kernel.active_dims}
         kernels = self._functional_kernel.eval_kernels(zero_dist)
         native_output_var = coregs.dot(kernels).reshape(-1)
         native_var = native_output_var + self._functional_kernel.noise
-- 
2.43.0


From d76d1b36afe41fc38d5e24c7668bc3aaaca7045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:49 +0000
Subject: [PATCH 07/14] fix: precompute prediction with a single non-full set
 of active dimensions

---
 runlmc/models/interpolated_llgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index 37dca4b..2618c02 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -370,7 +370,7 @@ class InterpolatedLLGP(MultiGP):
         if len(self.interpolants) != 1:
             raise ValueError(
                 'precompute prediction mode unavailable for split kernels')
-        W, WT = self.interpolants[tuple(range(self.input_dim))]
+        (W, WT), = self.interpolants.values()
         K_UU = self.kernel.K.Ks[0].grid_K
         # SKI should have a half_matrix() method returning these two,
         # in which case we'd just ask self.kernel.K.ski for them.
-- 
2.43.0


From 3827bc9b2e851b897574e8fcd4667228b96d168e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:49 +0000
Subject: [PATCH 08/14] fix: on-the-fly prediction at no points at all

---
 runlmc/models/interpolated_llgp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index 2618c02..5eff2d6 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -392,7 +392,8 @@ class InterpolatedLLGP(MultiGP):
         K_test_X = ExactLMCLikelihood.kernel_from_indices(
             Xs, self.Xs, self._functional_kernel)
         ls = [(self.kernel.K, k_star) for k_star in K_test_X]
-        inverted = np.array(self._pool.starmap(Iterative.solve, ls)).T
+        inverted = np.array(self._pool.starmap(Iterative.solve, ls)).reshape(
+            K_test_X.shape).T
 
         full_mat = K_test_X.dot(inverted)
         return np.diag(full_mat)
-- 
2.43.0


From e17dadfae17fe059b63c94069c57a1c402779e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:49 +0000
Subject: [PATCH 09/14] fix: Scaled links its scale parameter

---
 runlmc/kern/scaled.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runlmc/kern/scaled.py b/runlmc/kern/scaled.py
index 6f17e51..59731f9 100644
--- a/runlmc/kern/scaled.py
+++ b/runlmc/kern/scaled.py
@@ -18,6 +18,7 @@ class Scaled(StationaryKern):
         self.k = k
         self.link_parameter(k)
         self.scale = Param('scale', 1, Logexp())
+        self.link_parameter(self.scale)
 
     def from_dist(self, dists):
         return self.scale * self.k.from_dist(dists)
-- 
2.43.0


From f865a2991540c3a0134faa6f3129e1d5f88fa643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:04 +0000
Subject: [PATCH 10/14] fix: interpolation rejects grids that are not
 equispaced, as documented

---
 runlmc/approx/interpolation.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runlmc/approx/interpolation.py b/runlmc/approx/interpolation.py
index 25cbc42..9ae318c 100644
--- a/runlmc/approx/interpolation.py
+++ b/runlmc/approx/interpolation.py
@@ -53,6 +53,13 @@ def cubic_kernel(x):
     return y
 
 
+def _check_equispaced(grid):
+    gaps = np.diff(grid)
+    delta = (grid[-1] - grid[0]) / (len(grid) - 1)
+    if np.any(np.abs(gaps - delta) > 1e-3 * np.abs(delta)):
+        raise ValueError('grid is not equispaced')
+
+
 def interp_cubic(grid, samples):
     """
     Given a one dimensional grid `grid` of size `m` (that's sorted) and
@@ -91,6 +98,8 @@ def interp_cubic(grid, samples):
     if grid_size < 4:
         raise ValueError('grid size {} must be >=4'.format(grid_size))
 
+    _check_equispaced(grid)
+
     if samples.min() <= grid[0] or samples.max() >= grid[-1]:
         _LOG.warning('range of samples [%f, %f] outside grid range [%f, %f]',
                      samples.min(), samples.max(), grid[0], grid[-1])
@@ -247,6 +256,7 @@ def interp_bicubic(gridx, gridy, samples):  # pylint: disable=too-many-locals
             raise ValueError('{} dim {} should be 1'.format(s, grid.ndim))
         if grid.size < 4:
             raise ValueError('grid size {} must be >=4'.format(grid.size))
+        _check_equispaced(grid)
 
     if samples.ndim != 2 or samples.shape[1] != 2:
         raise ValueError(
-- 
2.43.0


From 65f5db1b0fa26b0940954feae0eac1c860f5ca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:56 +0000
Subject: [PATCH 11/14] fix: inherit_doc follows the documentation of
 properties through several levels

---
 runlmc/util/docs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runlmc/util/docs.py b/runlmc/util/docs.py
index c5003dc..2d258c0 100644
--- a/runlmc/util/docs.py
+++ b/runlmc/util/docs.py
@@ -25,14 +25,14 @@ def inherit_doc(cls):
                 if parfunc and getattr(parfunc, '__doc__', None):
                     func.__doc__ = parfunc.__doc__
                     break
-        elif isinstance(func, property) and not func.fget.__doc__:
+        elif isinstance(func, property) and not func.__doc__:
             for parent in cls.__bases__:
                 parprop = getattr(parent, name, None)
-                if parprop and getattr(parprop.fget, '__doc__', None):
+                if parprop and getattr(parprop, '__doc__', None):
                     newprop = property(fget=func.fget,
                                        fset=func.fset,
                                        fdel=func.fdel,
-                                       doc=parprop.fget.__doc__)
+                                       doc=parprop.__doc__)
                     setattr(cls, name, newprop)
                     break
 
-- 
2.43.0


From 337873e1d2fb05928ddad5946f867bf4dfc0c9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:05 +0000
Subject: [PATCH 12/14] fix: HalfLaplace gradient is vectorized like the other
 priors'

---
 runlmc/parameterization/priors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runlmc/parameterization/priors.py b/runlmc/parameterization/priors.py
index 155d701..51978c2 100644
--- a/runlmc/parameterization/priors.py
+++ b/runlmc/parameterization/priors.py
@@ -160,5 +160,5 @@ class HalfLaplace:
     def lnpdf(self, x):
         return self.constant - x / self.b
 
-    def lnpdf_grad(self, _):
-        return -1 / self.b
+    def lnpdf_grad(self, x):
+        return -np.ones_like(x) / self.b
-- 
2.43.0


From 1dcef77005c79abfd3e557d900bc5c9247a4532b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:10 +0000
Subject: [PATCH 13/14] fix: constant outputs are rejected whatever their value

---
 runlmc/models/multigp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runlmc/models/multigp.py b/runlmc/models/multigp.py
index c27a512..064d990 100644
--- a/runlmc/models/multigp.py
+++ b/runlmc/models/multigp.py
@@ -221,7 +221,8 @@ class MultiGP(Model):
                 'Found inputs of varying dimensions {}'.format(dims))
 
         for i, Y in enumerate(Ys):
-            if np.std(Y) == 0:
+            # the mean is rounded, so constant values may have std dev > 0
+            if np.std(Y) == 0 or (len(Y) and np.ptp(Y) == 0):
                 raise ValueError('Output {} has std dev 0'.format(i))
 
         return dims.pop(), len(Xs)
-- 
2.43.0


From 240a6e891eea4802f31c864a6b224676230be5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:10 +0000
Subject: [PATCH 14/14] fix: independent GP indices beyond the outputs raise
 ValueError

---
 runlmc/lmc/functional_kernel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runlmc/lmc/functional_kernel.py b/runlmc/lmc/functional_kernel.py
index 61fdfce..31f9850 100644
--- a/runlmc/lmc/functional_kernel.py
+++ b/runlmc/lmc/functional_kernel.py
@@ -111,6 +111,9 @@ class FunctionalKernel(Parameterized):
         if len(indep_gp) != len(indep_gp_index):
             raise ValueError('indep GP number of kernels should match indices')
 
+        if any(i >= D for i in indep_gp_index):
+            raise ValueError('indep GP indices should be below D')
+
         self._kernels = lmc_kernels + slfm_kernels + indep_gp
         for k in self._kernels:
             self.link_parameter(k)
-- 
2.43.0

