From 36dd985ffb46d2ba33cca3552a046645d15a6073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 01/95] fix: AsymTightBindingModel.supercell lost hoppings for
 skewed cells and dropped S

The neighbor list of the supercell was only the scaled old list, so hoppings to
other supercells were silently lost, left handed supercell matrices failed and
the overlap was replaced by identity.
---
 .../tight_binding_asym.py                     | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 7815886..3d69946 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -844,11 +844,9 @@ class AsymTightBindingModel:
         matrix = np.linalg.inv(A_original) @ A_new
         assert np.all(np.abs(np.round(matrix) - matrix) < 1e-7), "The supercell matrix must be integer valued"
         matrix = np.round(matrix).astype(np.int64)
-        det = round(np.linalg.det(matrix))
-        new_neighbors = self.H.neighbors @ matrix.T
+        det = abs(round(np.linalg.det(matrix)))
         n = len(self.H.H_r[0])
         new_band_count = n * det
-        H_r = self.params_complex()
         # now get all integer positions in the cell defined by matrix
         # for that, compute the (half open) bounding box of matrix * [0,1[^3
         box = np.stack(np.meshgrid(*[[0, 1]]*dim), axis=-1).reshape(-1, dim)
@@ -861,16 +859,25 @@ class AsymTightBindingModel:
         # internal positions + origin (0)
         internal_positions = list(p_box[np.all((p_box >= 0-1e-7) & (p_box < 1-1e-7), axis=1)] @ A_new.T)
         assert len(internal_positions) == det
-        # now build the new hamiltonian
-        H_r2 = np.zeros((len(H_r), new_band_count, new_band_count), dtype=np.complex128)
-        neighbor_func = try_neighbor_function(self.H.neighbors)
-        for k, nk in enumerate(new_neighbors):
-            for i, pi in enumerate(internal_positions):
-                for j, pj in enumerate(internal_positions):
-                    m, mirror = neighbor_func(nk + pj - pi)
-                    if m is not None:
-                        H_r2[k, i*n:(i+1)*n, j*n:(j+1)*n] = H_r[m] if not mirror else np.conj(H_r[m].T)
-        model = AsymTightBindingModel(HermitianFourierSeries(new_neighbors, H_r2))
+        # now build the new hamiltonian (and overlap)
+        def fold(series: HermitianFourierSeries) -> HermitianFourierSeries:
+            # find all supercells, which are reached by the neighbors from inside of the original supercell
+            cells = np.concatenate([pi + sign * series.neighbors for pi in internal_positions for sign in (1, -1)])
+            cells = np.unique(np.floor(cells @ np.linalg.inv(A_new).T + 1e-6), axis=0)
+            # only keep one of each pair ±r and keep 0 as the first one
+            cells = [np.zeros(dim)] + [c for c in cells if tuple(c) > tuple(-c)]
+            new_neighbors = np.array(cells) @ A_new.T
+            new_neighbors = new_neighbors[np.argsort(np.linalg.norm(new_neighbors, axis=-1), kind="stable")]
+            H_r2 = np.zeros((len(new_neighbors), new_band_count, new_band_count), dtype=np.complex128)
+            neighbor_func = try_neighbor_function(series.neighbors)
+            for k, nk in enumerate(new_neighbors):
+                for i, pi in enumerate(internal_positions):
+                    for j, pj in enumerate(internal_positions):
+                        m, mirror = neighbor_func(nk + pj - pi)
+                        if m is not None:
+                            H_r2[k, i*n:(i+1)*n, j*n:(j+1)*n] = series.H_r[m] if not mirror else np.conj(series.H_r[m].T)
+            return HermitianFourierSeries(new_neighbors, H_r2)
+        model = AsymTightBindingModel(fold(self.H), fold(self.S))
         return model
 
     def __add__(self, other) -> 'AsymTightBindingModel':
-- 
2.43.0


From 7797a53dfde235edad2f46def898f668a6ebf317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 02/95] fix: BandStructureModel.supercell always failed its
 integer assertion

Also use the complete list of supercell neighbors, as in AsymTightBindingModel,
and the symmetry dimension of the model.
---
 src/tight_binding_redweasel/bandstructure.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index ee2ccf2..df62233 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -845,11 +845,10 @@ class BandStructureModel:
         matrix = np.linalg.inv(A_original) @ A_new
         assert np.all(np.abs(np.round(matrix) - matrix) <
                       1e-7), "The supercell matrix must be integer valued"
-        matrix = np.round(matrix)
-        det = round(np.linalg.det(matrix))
+        matrix = np.round(matrix).astype(np.int64)
+        det = abs(round(np.linalg.det(matrix)))
         assert self.sym is None or len(
             self.sym) == 1, "No symmetries of the coefficients are allowed for this operation"
-        new_neighbors = self.neighbors @ matrix.T
         n = len(self.params[0])
         new_band_count = n * det
         params = self.params_complex()
@@ -867,8 +866,15 @@ class BandStructureModel:
         internal_positions = list(
             p_box[np.all((p_box >= 0 - 1e-7) & (p_box < 1 - 1e-7), axis=1)] @ A_new.T)
         assert len(internal_positions) == det
+        # find all supercells, which are reached by the neighbors from inside of the original supercell
+        cells = np.concatenate([pi + sign * self.neighbors for pi in internal_positions for sign in (1, -1)])
+        cells = np.unique(np.floor(cells @ np.linalg.inv(A_new).T + 1e-6), axis=0)
+        # only keep one of each pair ±r and keep 0 as the first one
+        cells = [np.zeros(dim)] + [c for c in cells if tuple(c) > tuple(-c)]
+        new_neighbors = np.array(cells) @ A_new.T
+        new_neighbors = new_neighbors[np.argsort(np.linalg.norm(new_neighbors, axis=-1), kind="stable")]
         # now build the new hamiltonian
-        H_r = np.zeros((len(params), new_band_count,
+        H_r = np.zeros((len(new_neighbors), new_band_count,
                        new_band_count), dtype=np.complex128)
         neighbor_func = try_neighbor_function(self.neighbors)
         for k, nk in enumerate(new_neighbors):
@@ -879,7 +885,7 @@ class BandStructureModel:
                         H_r[k, i * n:(i + 1) * n, j * n:(j + 1) *
                             n] = params[m] if not mirror else np.conj(params[m].T)
         model = BandStructureModel.init_tight_binding(
-            Symmetry.none(), new_neighbors, new_band_count, cos_reduced=cos_reduced, exp=exp)
+            Symmetry.none(dim), new_neighbors, new_band_count, cos_reduced=cos_reduced, exp=exp)
         model.set_params_complex(H_r)
         return model
 
-- 
2.43.0


From 3b75808eec4c9fc8dd609f2d58ba2bae0cae71c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 03/95] fix: BandStructureModel.load failed for json models
 which are not 3 dimensional

---
 src/tight_binding_redweasel/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index df62233..646d703 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -748,7 +748,7 @@ class BandStructureModel:
         elif format == "json":
             neighbors, H_r = json_tb_format.load(filename)
             model = BandStructureModel.init_tight_binding(
-                Symmetry.none(), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
+                Symmetry.none(len(neighbors[0])), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
             model.set_params_complex(H_r)
         return model
 
-- 
2.43.0


From df045ebc21f85d497b3fcad6e31adac9f1b47966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 04/95] fix: params_complex ignored the symmetry order for
 cos_reduced models

The coefficient functions are sums over all symmetry operations, so the constant
term of cos_reduced models has to be corrected once per operation.
---
 src/tight_binding_redweasel/bandstructure.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 646d703..3a7af34 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -604,22 +604,24 @@ class BandStructureModel:
         if self.neighbors is None:
             raise ValueError(
                 "This function can only be used on default tight binding models")
+        # each coefficient function is a sum over all symmetry operations
+        sym_count = len(self.sym.S) if self.sym is not None else 1
         if self.exp:
             H_r = np.array(self.params)
             if self.cos_reduced:
-                H_r[0] -= np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
+                H_r[0] -= sym_count * np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
             return H_r
         H_r = np.array(self.params)
         if self.sym is not None and not self.sym.inversion:
             n = (len(self.params) + 1) // 2
             if self.cos_reduced:
                 # H_r[1:n] += H_r[0]
-                H_r[0] -= np.sum(H_r[1:n] + np.conj(np.swapaxes(H_r[1:n], -1, -2)), axis=0)
+                H_r[0] -= sym_count * np.sum(H_r[1:n] + np.conj(np.swapaxes(H_r[1:n], -1, -2)), axis=0)
                 pass
             H_r[1:n] += H_r[n:] * -1j
             H_r = H_r[:n]
         elif self.cos_reduced:
-            H_r[0] -= np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
+            H_r[0] -= sym_count * np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
         return H_r
 
     def set_params_complex(self, H_r):
@@ -634,11 +636,13 @@ class BandStructureModel:
             raise ValueError("This function can only be used on default tight binding models")
         if len(H_r) != len(self.neighbors):
             raise ValueError(f"The parameters {np.shape(H_r)} must match the neighbor count {len(self.neighbors)}")
+        # each coefficient function is a sum over all symmetry operations
+        sym_count = len(self.sym.S) if self.sym is not None else 1
         if self.exp:
             self.params = np.array(H_r)
             if self.cos_reduced:
-                self.params[0] += np.sum(self.params[1:] +
-                                         np.conj(np.swapaxes(self.params[1:], -1, -2)), axis=0)
+                self.params[0] += sym_count * np.sum(self.params[1:] +
+                                                     np.conj(np.swapaxes(self.params[1:], -1, -2)), axis=0)
         else:
             self.params = np.array(H_r)
             n = len(H_r)
@@ -650,7 +654,7 @@ class BandStructureModel:
                 self.params += np.conj(np.swapaxes(self.params, -1, -2))
             self.params /= 2
             if self.cos_reduced:
-                self.params[0] += np.sum(self.params[1:n], axis=0) * 2
+                self.params[0] += np.sum(self.params[1:n], axis=0) * 2 * sym_count
 
     def save(self, filename: str, format=None):
         """Save the model to a file format, which can be read with the correspoding `BandStructureModel.load` function.
-- 
2.43.0


From 283679e3a7de224a48f509e02dc3088f54ab13dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:19 +0000
Subject: [PATCH 05/95] fix: Wannier90 hopping matrices were not divided by
 their degeneracy

H(k) = sum_R exp(ikR) H_R / ndegen(R) is the definition in Wannier90.
---
 src/tight_binding_redweasel/wannier90_tb_format.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/wannier90_tb_format.py b/src/tight_binding_redweasel/wannier90_tb_format.py
index b5e3b9d..4155dce 100644
--- a/src/tight_binding_redweasel/wannier90_tb_format.py
+++ b/src/tight_binding_redweasel/wannier90_tb_format.py
@@ -28,6 +28,7 @@ def load_tb(filename):
         # now read the hamiltonian matrices
         neighbors = []
         neighbors_set = set()
+        blocks = dict() # position -> index in the degeneracy list
         params = []
         r_params = []
         index = -1
@@ -39,6 +40,7 @@ def load_tb(filename):
                 # start new matrix or return to existing one
                 pos = tuple([int(x) for x in parts])
                 neg_pos = tuple([-x for x in pos])
+                weight = 1 / degeneracy[blocks.setdefault(pos, len(blocks))]
                 if pos not in neighbors_set:
                     if pos != neg_pos and neg_pos in neighbors_set:
                         # skip the entry if the adjungated matrix is already in neighbors
@@ -57,7 +59,7 @@ def load_tb(filename):
                 # new matrix entry (i,j) x+iy
                 i,j = int(parts[0]), int(parts[1])
                 x,y = float(parts[2]), float(parts[3])
-                params[index][i-1,j-1] = x + y*1j
+                params[index][i-1,j-1] = (x + y*1j) * weight
             elif len(parts) == 8:
                 if index < 0:
                     continue # skip this entry
@@ -66,9 +68,9 @@ def load_tb(filename):
                 x = float(parts[2]) + 1j*float(parts[3])
                 y = float(parts[4]) + 1j*float(parts[5])
                 z = float(parts[6]) + 1j*float(parts[7])
-                r_params[index][i-1,j-1,0] = x
-                r_params[index][i-1,j-1,1] = y
-                r_params[index][i-1,j-1,2] = z
+                r_params[index][i-1,j-1,0] = x * weight
+                r_params[index][i-1,j-1,1] = y * weight
+                r_params[index][i-1,j-1,2] = z * weight
             else:
                 raise ValueError(f"File has a format error in the tight bindng matrices in line \"{line.strip()}\"")
     # sort the neighbors by length
@@ -98,6 +100,7 @@ def load_hr(filename):
         # now read the hamiltonian matrices
         neighbors = []
         neighbors_set = set()
+        blocks = dict() # position -> index in the degeneracy list
         params = []
         index = -1
         for line in file:
@@ -108,6 +111,7 @@ def load_hr(filename):
                 # start new matrix or return to existing one
                 pos = tuple([int(x) for x in parts[:3]])
                 neg_pos = tuple([-x for x in pos])
+                weight = 1 / degeneracy[blocks.setdefault(pos, len(blocks))]
                 if pos not in neighbors_set:
                     if pos != neg_pos and neg_pos in neighbors_set:
                         # skip the entry if the adjungated matrix is already in neighbors
@@ -121,7 +125,7 @@ def load_hr(filename):
                 # new matrix entry (i,j) x+iy
                 i,j = int(parts[3]), int(parts[4])
                 x,y = float(parts[5]), float(parts[6])
-                params[index][i-1,j-1] = x + y*1j
+                params[index][i-1,j-1] = (x + y*1j) * weight
             else:
                 raise ValueError(f"File has a format error in the tight bindng matrices in line \"{line.strip()}\"")
     # sort the neighbors by length
-- 
2.43.0


From 320ba49d9499c972eea4445b1a0a92beacda4d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:19 +0000
Subject: [PATCH 06/95] fix: saving a model with more than 100000 coefficients
 truncated the repr file

---
 src/tight_binding_redweasel/bandstructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 3a7af34..7e5a8e4 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -1,3 +1,4 @@
+import sys
 import numpy as np
 from matplotlib import pyplot as plt
 from collections.abc import Callable
@@ -684,7 +685,7 @@ class BandStructureModel:
             raise ValueError(
                 'supported formats are "python", "json" and "wannier90"')
         opt = np.get_printoptions()
-        np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21')
+        np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=sys.maxsize, legacy='1.21')
         if format == "python":
             with open(filename, "w") as file:
                 assert self.sym is not None, "BandStructureModel needs a symmetry to save in this format."
-- 
2.43.0


From 101b76e97091f1bd3b6b03e6a61cd4f69131123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 07/95] fix: hessians at k-points with degenerate bands mixed
 different eigenbases

The rotation inside of a degenerate subspace is different for each variable, but
it was used for the product of two variables.
---
 src/tight_binding_redweasel/linalg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index ae7894d..c644ec7 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -159,6 +159,7 @@ def eigh_grad_hess(H: np.ndarray, dH: np.ndarray, ddH: np.ndarray, epsilon=1e-6)
     path = ['einsum_path', (0, 2), (0, 1)]  # precomputed path for best speed
     hess1 = np.real(np.einsum("...ji,...nmjk,...ki->...nmi", np.conj(ev), ddH, ev, optimize=path))
     # second order perturbation theory terms
+    dH_ev1 = dH_ev # without the rotations in the degenerate subspaces, as those are different for each variable
     diff = eigvals[..., :, None] - eigvals[..., None, :]
     mask = np.abs(diff) < epsilon
     select = np.sum(np.triu(mask, k=1), axis=(-1, -2)) > 0
@@ -172,6 +173,7 @@ def eigh_grad_hess(H: np.ndarray, dH: np.ndarray, ddH: np.ndarray, epsilon=1e-6)
         sorting = np.argsort(np.argmin(np.abs(ev_dH) < 1e-7, axis=-2, keepdims=True), axis=-1)
         ev_dH = np.take_along_axis(ev_dH, sorting, axis=-1)
         # apply basis transformation to the selected dH_ev
+        dH_ev = dH_ev.copy()
         dH_ev[select] = np.einsum("...ji,...jk,...kl->...il", np.conj(ev_dH), dH_ev[select], ev_dH)
         # hess1[select] = np.einsum("...ji,...jk,...kl->...il", np.conj(ev_dH), hess1[select], ev_dH)
     # first order eigenvalue change (gradient, actually needs the basis change!)
@@ -179,10 +181,10 @@ def eigh_grad_hess(H: np.ndarray, dH: np.ndarray, ddH: np.ndarray, epsilon=1e-6)
     # assume that the perturbation term commutes with the hamiltonian.
     # otherwise it can cause non linear sqrt terms in the series development.
     inv_mask = ~mask
-    dH_ev2 = dH_ev * inv_mask[..., None, :, :]  # implicit copy
+    dH_ev2 = dH_ev1 * inv_mask[..., None, :, :]  # implicit copy
     dH_ev2 /= (diff + 1e-40)[..., None, :, :]
     # hessian contribution from first derivative, second order perturbation theory
-    hess2 = np.real(np.einsum("...pik,...qki->...pqi", dH_ev, dH_ev2))
+    hess2 = np.real(np.einsum("...pik,...qki->...pqi", dH_ev1, dH_ev2))
     return eigvals, grads, hess1 - 2 * hess2
 
 
-- 
2.43.0


From 0e80a9da5ef642d42b99d3d3667c6eb0a269d7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 08/95] fix: AsymTightBindingModel gradients and hessians
 ignored S and diverged for degenerate bands

bands_grad_hess used neither dS nor ddS and divided by the band distance without
a threshold; geigh_grad only handled k-points of the shape (N_k, dim).
---
 src/tight_binding_redweasel/linalg.py         | 23 ++++++++++++++++++-
 .../tight_binding_asym.py                     | 19 +--------------
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index c644ec7..f535911 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -103,7 +103,7 @@ def geigh_grad(H: np.ndarray, S: np.ndarray, dH: np.ndarray, dS: np.ndarray):
     path = ['einsum_path', (0, 1), (0, 1)]  # precomputed path for best speed
     grads = np.real(np.einsum("...ji,...njk,...ki->...ni", np.conj(ev), dH, ev, optimize=path))
     # TODO check!
-    grads -= np.real(np.einsum("...ji,...njk,...ki->...ni", np.conj(ev), dS, ev, optimize=path)) * bands[:, None, :]
+    grads -= np.real(np.einsum("...ji,...njk,...ki->...ni", np.conj(ev), dS, ev, optimize=path)) * bands[..., None, :]
     return bands, grads, ev
 
 
@@ -188,6 +188,27 @@ def eigh_grad_hess(H: np.ndarray, dH: np.ndarray, ddH: np.ndarray, epsilon=1e-6)
     return eigvals, grads, hess1 - 2 * hess2
 
 
+def geigh_grad_hess(H: np.ndarray, S: np.ndarray, dH: np.ndarray, dS: np.ndarray, ddH: np.ndarray, ddS: np.ndarray, epsilon=1e-6):
+    """Generalized version of `eigh_grad_hess` for the problem `Hv = ESv` with H, S being of the shape (N_k, N, N)."""
+    if np.linalg.norm(S - np.eye(S.shape[-1])) < 1e-8 and np.linalg.norm(dS) < 1e-8 and np.linalg.norm(ddS) < 1e-8:
+        # fast path
+        return eigh_grad_hess(H, dH, ddH, epsilon)
+    bands, ev = geigh(H, S)
+    dH, dS, ddH, ddS = (np.conj(np.swapaxes(ev, -1, -2))[(slice(None),) + (None,) * (x.ndim - 3)] @ x @ ev[(slice(None),) + (None,) * (x.ndim - 3)] for x in (dH, dS, ddH, ddS))
+    # first order perturbation theory, the matrices dH - E_n dS are stored for each n in the last axis
+    dS_n = np.real(np.diagonal(dS, axis1=-2, axis2=-1))
+    grads = np.real(np.diagonal(dH, axis1=-2, axis2=-1)) - dS_n * bands[:, None, :]
+    hess = np.real(np.diagonal(ddH, axis1=-2, axis2=-1) - np.diagonal(ddS, axis1=-2, axis2=-1) * bands[:, None, None, :])
+    hess = hess - grads[:, :, None, :] * dS_n[:, None, :, :] - grads[:, None, :, :] * dS_n[:, :, None, :]
+    # second order perturbation theory with all bands which are not degenerate with n
+    d = dH - dS * bands[:, None, None, :]
+    diff = bands[:, None, :] - bands[:, :, None]
+    mask = np.abs(diff) < epsilon
+    weights = np.where(mask, 0.0, 1.0 / np.where(mask, 1.0, diff))
+    hess = hess + 2 * np.real(np.einsum("apkn,aqkn,akn->apqn", np.conj(d), d, weights))
+    return bands, grads, hess
+
+
 def pointcloud_distance(pointcloud1, pointcloud2):
     # TODO try using scipy.optimize.linear_sum_assignment
     pointcloud1 = np.asarray(pointcloud1)
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 3d69946..ed30f88 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -804,24 +804,7 @@ class AsymTightBindingModel:
         Returns:
             (arraylike(N_k, N_b), arraylike(N_k, dim, N_b), arraylike(N_k, dim, dim, N_b)): (bands, grads, hessians)
         """
-        # TODO add dS and ddS!!
-        bands, ev = geigh(self.H.f(k_smpl), self.S.f(k_smpl))
-        df = self.H.df(k_smpl)
-        ddf = self.H.ddf(k_smpl)
-        # first order perturbation theory terms
-        df_ev = np.einsum("mji, mnjk, mkl -> mnil", np.conj(ev), df, ev)
-        grads = np.real(np.diagonal(df_ev, axis1=2, axis2=3))
-        hess1 = np.real(np.einsum("mji, mpqjk, mki -> mpqi", np.conj(ev), ddf, ev))
-        # second order perturbation theory terms
-        no_diag = np.array(df_ev)  # copy before modification (grads is a view)
-        for i in range(len(grads[0, 0])):
-            no_diag[:, :, i, i] = 0  # zero out diagonal terms
-        # dev = ev[:,None,:,:] @ (no_diag / (bands[:,None,:,None] - bands[:,None,None,:] + 1e-40))
-        # hess2 = np.real(np.einsum("mji, mpjk, mqki -> mpqi", 2*np.conj(ev), df, dev))
-        db = no_diag / (bands[:, None, :, None] -
-                        bands[:, None, None, :] + 1e-40)
-        hess2 = np.real(np.einsum("mpik, mqki -> mpqi", df_ev, db))
-        return bands, grads, hess1 - 2*hess2
+        return tuple(geigh_grad_hess(self.H.f(k_smpl), self.S.f(k_smpl), self.H.df(k_smpl), self.S.df(k_smpl), self.H.ddf(k_smpl), self.S.ddf(k_smpl)))
 
     def supercell(self, A_original, A_new) -> 'AsymTightBindingModel':
         """
-- 
2.43.0


From 41070d1d63a872bf1e945e9777b9596aca6b4126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 09/95] fix: shifting a model with k-dependent overlap deformed
 its bands

---
 src/tight_binding_redweasel/tight_binding_asym.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index ed30f88..4c9ce8d 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -868,10 +868,18 @@ class AsymTightBindingModel:
             # direct sum of the models -> combine the bandstructures
             return AsymTightBindingModel(self.H + other.H, S=self.S + other.S)
         else:
-            # shift the whole bandstructure
-            # TODO figure out how this actually works wih S(k)
+            # shift the whole bandstructure, (H + c S) v = (E + c) S v
             H = self.H.copy()
-            H.H_r[0] += self.S.H_r[0] * float(other)
+            for r, S_r in zip(self.S.neighbors, self.S.H_r):
+                if not np.any(S_r):
+                    continue
+                i, mirror = try_neighbor_function(H.neighbors)(r)
+                if i is None:
+                    H.add_neighbors([r])
+                    i, mirror = len(H.neighbors) - 1, False
+                dtype = np.promote_types(H.H_r.dtype, S_r.dtype)
+                H.H_r = H.H_r.astype(dtype)
+                H.H_r[i] += (S_r.T.conj() if mirror else S_r) * float(other)
             return AsymTightBindingModel(H, S=self.S.copy())
 
     def __mul__(self, fac: float) -> 'AsymTightBindingModel':
-- 
2.43.0


From 443bb7b5255c91b1bb235449905735b439abdbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 10/95] fix: supercell lost cell positions for negative or
 skewed supercell matrices

---
 src/tight_binding_redweasel/bandstructure.py      | 4 ++--
 src/tight_binding_redweasel/tight_binding_asym.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 7e5a8e4..750e051 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -858,13 +858,13 @@ class BandStructureModel:
         new_band_count = n * det
         params = self.params_complex()
         # now get all integer positions in the cell defined by matrix
-        # for that, compute the (half open) bounding box of matrix * [0,1[^3
+        # for that, compute the bounding box of matrix * [0,1[^3
         box = np.stack(np.meshgrid(*[[0, 1]] * dim), axis=-1).reshape(-1, dim)
         box = box @ matrix.T
         bounding_box = np.min(box, axis=0), np.max(box, axis=0)
         assert np.array(bounding_box).dtype == np.int64
         # now create a meshgrid inside the bounding box and select the points with inv(matrix) in [0, 1[
-        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d])
+        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d] + 1)
                        for d in range(dim)]), axis=-1).reshape(-1, dim)
         p_box = box @ np.linalg.inv(matrix).T
         # internal positions + origin (0)
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 4c9ce8d..72da552 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -831,13 +831,13 @@ class AsymTightBindingModel:
         n = len(self.H.H_r[0])
         new_band_count = n * det
         # now get all integer positions in the cell defined by matrix
-        # for that, compute the (half open) bounding box of matrix * [0,1[^3
+        # for that, compute the bounding box of matrix * [0,1[^3
         box = np.stack(np.meshgrid(*[[0, 1]]*dim), axis=-1).reshape(-1, dim)
         box = box @ matrix.T
         bounding_box = np.min(box, axis=0), np.max(box, axis=0)
         assert np.array(bounding_box).dtype == np.int64
         # now create a meshgrid inside the bounding box and select the points with inv(matrix) in [0, 1[
-        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d]) for d in range(dim)]), axis=-1).reshape(-1, dim)
+        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d] + 1) for d in range(dim)]), axis=-1).reshape(-1, dim)
         p_box = box @ np.linalg.inv(matrix).T
         # internal positions + origin (0)
         internal_positions = list(p_box[np.all((p_box >= 0-1e-7) & (p_box < 1-1e-7), axis=1)] @ A_new.T)
-- 
2.43.0


From 0d167aed09c5f6ba4fb8249fe6e08935e76fafc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:17 +0000
Subject: [PATCH 11/95] fix: a failed save left the global numpy print options
 changed

---
 src/tight_binding_redweasel/bandstructure.py  | 30 ++++++++-----------
 .../tight_binding_asym.py                     | 11 +++----
 2 files changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 750e051..ee7fcc9 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -684,23 +684,19 @@ class BandStructureModel:
         if format not in {"python", "json", "wannier90"}:
             raise ValueError(
                 'supported formats are "python", "json" and "wannier90"')
-        opt = np.get_printoptions()
-        np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=sys.maxsize, legacy='1.21')
-        if format == "python":
-            with open(filename, "w") as file:
-                assert self.sym is not None, "BandStructureModel needs a symmetry to save in this format."
-                file.write(repr(self.params_complex()) + ",\\\n")
-                file.write(repr(self.neighbors) + ",\\\n")
-                file.write(repr(self.sym.S) + ",\\\n")
-                file.write(repr(self.sym.inversion) + "\n")
-        elif format == "wannier90":
-            tb_fmt.save_hr(filename, self.neighbors, self.params_complex())
-        elif format == "json":
-            json_tb_format.save(filename, self.neighbors,
-                                self.params_complex())
-
-        # reset printoptions to what they were before
-        np.set_printoptions(**opt)
+        with np.printoptions(precision=None, suppress=False, floatmode="unique", threshold=sys.maxsize, legacy='1.21'):
+            if format == "python":
+                with open(filename, "w") as file:
+                    assert self.sym is not None, "BandStructureModel needs a symmetry to save in this format."
+                    file.write(repr(self.params_complex()) + ",\\\n")
+                    file.write(repr(self.neighbors) + ",\\\n")
+                    file.write(repr(self.sym.S) + ",\\\n")
+                    file.write(repr(self.sym.inversion) + "\n")
+            elif format == "wannier90":
+                tb_fmt.save_hr(filename, self.neighbors, self.params_complex())
+            elif format == "json":
+                json_tb_format.save(filename, self.neighbors,
+                                    self.params_complex())
 
     @staticmethod
     def load(filename: str, format=None, cos_reduced=False, exp=True) -> 'BandStructureModel':
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 72da552..ba21379 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -256,13 +256,10 @@ class AsymTightBindingModel:
                 raise ValueError("unrecognised format for file " + filename)
         if format not in {"json"}:
             raise ValueError('only supported format is "json"')
-        opt = np.get_printoptions()
-        np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21')
-        if format == "json":
-            json_tb_format.save(filename, self.H.neighbors, self.H.H_r)
-            # TODO save the S matrix part as well, maybe in a separate file? Or extend the format...
-
-        np.set_printoptions(**opt)  # reset printoptions
+        with np.printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21'):
+            if format == "json":
+                json_tb_format.save(filename, self.H.neighbors, self.H.H_r)
+                # TODO save the S matrix part as well, maybe in a separate file? Or extend the format...
 
     @staticmethod
     def load(filename: str, format=None) -> Self:
-- 
2.43.0


From 139d16288b4314617951d5fe7097387f82588928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 12/95] fix: windowed loss and error histogram never tried the
 last band alignment

---
 src/tight_binding_redweasel/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/loss.py b/src/tight_binding_redweasel/loss.py
index 733fdec..ff849f3 100644
--- a/src/tight_binding_redweasel/loss.py
+++ b/src/tight_binding_redweasel/loss.py
@@ -57,7 +57,7 @@ def model_windowed_loss(bands, ref_bands, min_energy, max_energy, allow_skipped_
         select = (min_energy <= ref_bands) & (ref_bands <= max_energy)
         cost = float("inf")
         # find out bandoffset by checking all bandoffsets and finding the one with the lowest error
-        for i in range(max_offset):
+        for i in range(max_offset + 1):
             if len(bands[0]) < len(ref_bands[0]):
                 diff = (ref_bands[:,i:i+compare_bands] - bands) * select[:,i:i+compare_bands]
             else:
@@ -98,7 +98,7 @@ def model_error_hist(bands, ref_bands, N=50, allow_skipped_bands=False):
         error = None
         ref_bands2 = ref_bands
         cost = float("inf")
-        for i in range(max_offset):
+        for i in range(max_offset + 1):
             if len(bands[0]) < len(ref_bands[0]):
                 diff = (ref_bands[:,i:i+compare_bands] - bands)
             else:
-- 
2.43.0


From 3b67214a181a77f9563984edfc0ceba7dc35a1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 13/95] fix: dividing by a symmetry group with inversion always
 failed

---
 src/tight_binding_redweasel/symmetry.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 5b9a707..ba94dd6 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -981,10 +981,12 @@ class Symmetry:
             rhs.S) == 0, "The righthand side needs to be a subgroup"
         # TODO check subgroup
 
+        rhs_S = rhs.get_symmetry_operations()
+
         def left(a, b):
             # to check a*rhs1=b*rhs2, check a^{-1}*b in rhs
             c = np.linalg.inv(a) @ b
-            for r in rhs.S:
+            for r in rhs_S:
                 if np.linalg.norm(r - c) < 1e-7:
                     return True
             return False
@@ -1036,7 +1038,8 @@ class Symmetry:
         # element to permute the identity to the first element
         id_inv = np.linalg.inv(classes[0][0])
         classes = np.array([c[0] @ id_inv for c in classes])
-        sym = Symmetry(classes, inversion=self.inversion and rhs.inversion)
+        # the classes contain the inversion explicitly if it's not part of rhs
+        sym = Symmetry(classes)
         if not sym.check():
             raise ValueError("The righthand side is no normal subgroup")
         return sym
-- 
2.43.0


From 05abae7b254974ad05813407349e2690bc23d066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 14/95] fix: groups in even dimensions counted their elements
 twice if inversion was requested again

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index ba94dd6..4b09c8c 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -96,7 +96,7 @@ class Symmetry:
                 # self.S = np.array([s for s in self.S if next((x for x in np.ravel(s) if abs(x) > 1e-4), 1) > 0])
                 # here inversion can be a problem, as it may be in the center, but it's not always a normal subgroup!
                 # for now, disable the inversion symmetry reduction in even dimensions.
-                pass
+                self.inversion = False  # S already contains the inverted elements
         elif inversion and len(self.S[0]) % 2 == 0:
             # realize inversion in even dimensions
             self.S = np.concatenate([self.S, -self.S], axis=0)
-- 
2.43.0


From 1f4182e1218fa66f3b2ba1902bc86b44c404c5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 15/95] fix: comparing symmetry groups ignored their inverted
 elements

---
 src/tight_binding_redweasel/symmetry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 4b09c8c..4ffeb92 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -138,7 +138,8 @@ class Symmetry:
             return False
         if len(self) != len(other):
             return False
-        return pointcloud_distance(self.S, other.S) < len(self.S) * 1e-7
+        S = self.get_symmetry_operations()
+        return pointcloud_distance(S, other.get_symmetry_operations()) < len(S) * 1e-7
 
     def __len__(self) -> int:
         """Cardinality of the group (including inversion symmetry if present!)"""
@@ -963,8 +964,9 @@ class Symmetry:
         if other.inversion and not self.inversion:
             return False
         # now check if all matrices of other are contained in self
+        S = self.get_symmetry_operations()
         for s in other.S:
-            if not np.any(np.linalg.norm(s[None] - self.S, axis=(1, 2)) < 1e-7):
+            if not np.any(np.linalg.norm(s[None] - S, axis=(1, 2)) < 1e-7):
                 return False
         return True
 
-- 
2.43.0


From 7ad8f2dac087fc6f6c5e0a710145ad248a679a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 16/95] fix: symmetrize ignored the inversion symmetry

---
 src/tight_binding_redweasel/symmetry.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 4ffeb92..4b35bb7 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -852,6 +852,12 @@ class Symmetry:
                 sign = np.sign(np.linalg.det(s))  # what happens with unitary groups where this can be from U(1)?
             res += np.einsum(einsum_str, *rank[0] * (inv_s,), *rank[1] * (s,), orig * sign, optimize="optimal")
         res /= len(self.S)
+        if self.inversion:
+            # add the inverted operations to the mean. They only differ by a sign.
+            sign = (-1)**(rank[0] + rank[1])
+            if pseudo_tensor:
+                sign *= (-1)**self.dim()
+            res = (res + sign * res) / 2
         return res
 
     def equivalence_classes(self, equiv_relation: Callable[[np.ndarray, np.ndarray], bool]) -> list:
-- 
2.43.0


From 638b40897313506725060f249c1c95ef47c21a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 17/95] fix: find_classes and check_symmetry ignored the
 inversion symmetry

---
 src/tight_binding_redweasel/symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 4b35bb7..3bd9136 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -515,7 +515,7 @@ class Symmetry:
         r_smpl = np.random.random((50, len(self.S[0])))
         for r in r_smpl:
             values = []
-            for s in self.S:
+            for s in self.get_symmetry_operations():
                 values.append(foo(s @ r))
             if np.linalg.norm(np.std(values, axis=0)) > tolerance:
                 if verbose:
@@ -814,7 +814,7 @@ class Symmetry:
         # build the symmetry graph for the neighbor list
         for i, r in enumerate(points):
             rep_class = set()
-            for s in self.S:
+            for s in self.get_symmetry_operations():
                 r_ = s @ r
                 dist = np.linalg.norm(points - r_[None, :], axis=-1)
                 j = np.argmin(dist)
-- 
2.43.0


From 74690688b9e8686e501b41069565500f129ba272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 18/95] fix: check_neighbors always failed

---
 src/tight_binding_redweasel/symmetry.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 3bd9136..a005d0f 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -741,22 +741,11 @@ class Symmetry:
         assert self.dim() == 3
         # only half of the neighbor terms are present, but the symmetry is important
         neighbors = np.asarray(neighbors)
-        neighbors = neighbors[np.argsort(np.linalg.norm(neighbors, axis=-1))]
-        count = [0] * len(neighbors)
-        for i, r in enumerate(neighbors):
-            for s in zip(self.S):
+        find = neighbor_function(neighbors)
+        for r in neighbors:
+            for s in self.S:
                 # using transposed symmetry operations, as the whole symmetry is meant to be in k-space
-                r_ = np.transpose(s) @ r
-                # here only the neighbors with an index similar to i need to be checked
-                # TODO replace this search by the KD-Trees
-                start = max(i - len(self.S) * 3, 0)
-                end = min(i + len(self.S) * 3, len(neighbors))
-                j = start + np.argmin(np.minimum(np.linalg.norm(neighbors[start:end] - r_[None, :], axis=-1),
-                                                 np.linalg.norm(neighbors[start:end] + r_[None, :], axis=-1)))
-                count[j] += 1
-        for c in count:
-            if c != len(self.S):
-                raise ValueError(f"neighbors need to be choosen to fit the symmetry, however counting occurences has found the numbers {count}")
+                find(np.transpose(s) @ r)
 
     def k_weight(self, k_smpl) -> np.ndarray:
         """Calculate the weight of a k-point in a 1-periodic lattice with this symmetry.
-- 
2.43.0


From 20ed5f2fa1afdd6190834183054d056760dfa12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 19/95] fix: complete_neighbors lost neighbors of groups
 without inversion

---
 src/tight_binding_redweasel/symmetry.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index a005d0f..10efbc8 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -722,6 +722,11 @@ class Symmetry:
         # remove negative versions
         neighbors = [(n, orig_index) for n, orig_index in new_neighbors if next(
             (x for x in n if abs(x) > 1e-7), 1) > 0]
+        # mirror the ones for which only the negative version exists
+        for n, orig_index in new_neighbors:
+            if next((x for x in n if abs(x) > 1e-7), 1) < 0:
+                if not neighbors or np.min(np.linalg.norm([n + m for m, _ in neighbors], axis=-1)) > 1e-6:
+                    neighbors.append((-n, orig_index))
         neighbors = sorted(neighbors, key=lambda ni: np.linalg.norm(ni[0]))
         order = [orig_index for _, orig_index in neighbors]
         neighbors = [n for n, _ in neighbors]
-- 
2.43.0


From 79c80f819a7daf5a5a8c77fccb5d7583e3e8450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 20/95] fix: reduce_symmetric_data kept equivalent points of
 dense grids

---
 src/tight_binding_redweasel/symmetry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 10efbc8..bd3b527 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -666,8 +666,9 @@ class Symmetry:
         # sort by length of k, since all symmetry operations keep length equal
         assert self.is_orthogonal(), "The algorithm here only works for orthogonal symmetry operations"
         # this stable works really well
-        order = np.argsort(np.round(np.linalg.norm(
-            reduced_k, axis=-1)**2, 2), kind='stable')
+        # (rounded relative to the longest k, coarser rounding would mix points of different length)
+        norms = np.linalg.norm(reduced_k, axis=-1)
+        order = np.argsort(np.round(norms / (np.max(norms) or 1.0), 6), kind='stable')
         reduced_k = list(reduced_k[order])
         reduced = list(reduced[order])
         i = 0
-- 
2.43.0


From c9774fb053578b53d288b7ceb2abc397af4b08d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 21/95] fix: projective symmetries could only be transformed in
 3 dimensions

---
 src/tight_binding_redweasel/symmetry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index bd3b527..ff435f7 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -226,7 +226,8 @@ class Symmetry:
         if self.projective:
             assert np.shape(basis_transform) == (self.dim() - 1,) * 2, "basis_transform needs to be a square matrix with matching dimension"
             # TODO test!
-            basis_transform = np.block([[basis_transform, np.zeros((3, 1))], [np.zeros((1, 3)), np.eye(1)]])
+            d = self.dim() - 1
+            basis_transform = np.block([[basis_transform, np.zeros((d, 1))], [np.zeros((1, d)), np.eye(1)]])
         else:
             assert np.shape(basis_transform) == (self.dim(),) * 2, "basis_transform needs to be a square matrix with matching dimension"
         S = np.einsum("nij,mi,jk->nmk", self.S,
-- 
2.43.0


From 933f811dc1b931fd8571d5b701c8a107a6f14648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 22/95] fix: remove_translation rejected symmetries without
 translations

---
 src/tight_binding_redweasel/symmetry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index ff435f7..ddb60d3 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -940,7 +940,8 @@ class Symmetry:
         Returns:
             Self: A cut down symmetry if it was projective, or self (by reference)
         """
-        assert self.projective, "no translational symmetries included"
+        if not self.projective:
+            return self
         sym = self.subgroup(lambda s: np.linalg.norm(s[:-1, -1]) + np.linalg.norm(s[-1, :-1]))
         sym.S = np.array(sym.S[:, :-1, :-1])
         return sym
-- 
2.43.0


From 2bbb779e69f01dc20784f540562314f94b4e1d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 23/95] fix: pointcloud_distance matched the same point several
 times

---
 src/tight_binding_redweasel/linalg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index f535911..2ea3d22 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -215,13 +215,15 @@ def pointcloud_distance(pointcloud1, pointcloud2):
     pointcloud1 = pointcloud1.reshape(pointcloud1.shape[0], -1)
     pointcloud2 = np.asarray(pointcloud2)
     pointcloud2 = pointcloud2.reshape(pointcloud2.shape[0], -1)
+    if len(pointcloud1) != len(pointcloud2):
+        return np.inf
     # for each point in pointcloud1 find the closest in pointcloud2, add the distance, then remove that
     dist = 0.0
     for i, p1 in enumerate(pointcloud1):
         d = np.linalg.norm(p1 - pointcloud2, axis=-1)
         min_index = np.argmin(d.flat)
         dist += d.flat[min_index]
-        d = np.delete(d.flat, min_index)
+        pointcloud2 = np.delete(pointcloud2, min_index, axis=0)
     return dist
 
 
-- 
2.43.0


From fbd07d32e92a8d6cd5a88f41160a9fec53c96090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 24/95] fix: conjugate_gradient_solve overwrote its starting
 guess

---
 src/tight_binding_redweasel/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index 2ea3d22..12b2631 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -272,7 +272,7 @@ def conjugate_gradient_solve(A: Callable[[np.ndarray], np.ndarray], b: np.ndarra
         x = np.zeros_like(b)
         r = -b
     else:
-        x = x0
+        x = np.array(x0)  # don't modify the argument
         r = A(x) - b
     d = r.copy()
     r_sqr = np.sum(r.conj() * r)
-- 
2.43.0


From 6a5fce24f971a82e505aecd4b0e433f7c1b2b405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 25/95] fix: subgroup lost improper elements of groups with
 inversion

---
 src/tight_binding_redweasel/symmetry.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index ddb60d3..fda8553 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -909,11 +909,9 @@ class Symmetry:
             Self: The subgroup that keeps the value constant.
         """
         value = invariant_func(self.S[0])
-        S = [np.array(self.S[0])]
-        for s in self.S[1:]:
-            if np.linalg.norm(invariant_func(s) - value) < 1e-8:
-                S.append(s)
-        sym = Symmetry(S, abs(invariant_func(-self.S[0]) - value) < 1e-8 if self.inversion else False)
+        # the inversion is only a symmetry of the subgroup if the subgroup contains it explicitly
+        S = [s for s in self.get_symmetry_operations() if np.linalg.norm(invariant_func(s) - value) < 1e-8]
+        sym = Symmetry(S)
         assert sym.check(), "The subgroup is not closed, therefore the function was not a class function or the original group was not closed"
         return sym
 
-- 
2.43.0


From fca7d42916c8df79af633b2e176f4ec440babe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 26/95] fix: factor groups of subgroups which are not normal
 were not rejected

---
 src/tight_binding_redweasel/symmetry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index fda8553..f548573 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -985,6 +985,10 @@ class Symmetry:
         # TODO check subgroup
 
         rhs_S = rhs.get_symmetry_operations()
+        for s in self.S:
+            for c in s @ rhs_S @ np.linalg.inv(s):
+                if not np.any(np.linalg.norm(rhs_S - c, axis=(1, 2)) < 1e-7):
+                    raise ValueError("The righthand side is no normal subgroup")
 
         def left(a, b):
             # to check a*rhs1=b*rhs2, check a^{-1}*b in rhs
-- 
2.43.0


From 9f6a1c10cb960659e7c39066d92fd0bbfe54e183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 27/95] fix: factor groups of groups with inversion missed
 elements of high order

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index f548573..44609d2 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -1011,7 +1011,7 @@ class Symmetry:
                 # if more than one element reaches the identity at the same time, keep all of them in this step.
                 base = np.array(classes[i])
                 powers = np.zeros_like(base) + np.eye(d)[None, :, :]
-                for _ in range(len(self.S) + 1):  # no order bigger than the group size
+                for _ in range(len(self) + 1):  # no order bigger than the group size
                     powers = powers @ base
                     classes[i] = np.array([a for j, a in enumerate(
                         base) if np.linalg.norm(powers[j] - np.eye(d)) < 1e-7])
-- 
2.43.0


From 5605b91f9cc4592ec130d341575f8cf9d85614be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 28/95] fix: symmetrize failed for scalars

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 44609d2..de8be1b 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -839,7 +839,7 @@ class Symmetry:
         # hacky but simple...
         letters = "abcdefghijklmnopqrstuvwxyz"
         in_letters = letters[:rank[0] + rank[1]]
-        out_letters = letters[-rank[0] - rank[1]:]
+        out_letters = letters[len(letters) - rank[0] - rank[1]:]
         einsum_str = ",".join([b + a if i < rank[0] else a + b for i, (a, b) in enumerate(zip(in_letters, out_letters))] + [in_letters]) + "->" + out_letters
         for s in self.S:
             inv_s = np.linalg.inv(s)
-- 
2.43.0


From 6402c021ec7e752bebe630d66e639c7fe70788f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 29/95] fix: UnitaryRepresentation.from_generator required the
 identity and exact matrices

---
 src/tight_binding_redweasel/unitary_representations.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index eca4cbb..3887cba 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -52,8 +52,9 @@ class UnitaryRepresentation:
         """
         Nk = len(S_G[0])
         N = len(U_G[0])
-        S = S_G.copy()
-        U = U_G.copy()
+        # start with the identity, which doesn't need to be a generator
+        S = [np.eye(Nk), *S_G]
+        U = [np.eye(N), *U_G]
         # exponentiate the group n times to form the full group
         for _ in range(1000):
             S_new = np.array(S)
@@ -65,14 +66,14 @@ class UnitaryRepresentation:
             prev_len = len(S)
             S = {}
             for s, u in zip(S_new, U_new):
-                s_key = tuple([tuple(s_) for s_ in s])
+                s_key = tuple([tuple(s_) for s_ in np.round(s, 6) + 0.0]) # rounding errors must not create new elements
                 if s_key in S:
                     # the symmetry already exists
                     # check if the U_new symmetry matches
                     u_existing = S[s_key][1]
                     assert np.sum((u_existing - u)**2) < 1e-14
                 else:
-                    S[s_key] = (s_key, u)
+                    S[s_key] = (s, u)
             pairs = list(S.values())
             S = []
             U = []
-- 
2.43.0


From 06895cc7f30498c56504f7e17d95baa0b26286fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 30/95] fix: products of unitary representations always failed

---
 src/tight_binding_redweasel/unitary_representations.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 3887cba..47883ef 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -503,8 +503,7 @@ class UnitaryRepresentation:
             # this is only supported if one of the representations has inv_split at 0 or dim.
             if rhs.inv_split == 0 or rhs.inv_split == rhs.dim():
                 # case 1: kron is ordered correctly
-                for i in range(len(res)):
-                    res.U[i] = np.kron(self.U[i], res.U[i])
+                res.U = np.array([np.kron(u1, u2) for u1, u2 in zip(self.U, res.U)])
                 res.inv_split = self.inv_split * rhs.dim()
                 if rhs.inv_split == 0:
                     # flip inversion symmetry if self has it
@@ -513,8 +512,7 @@ class UnitaryRepresentation:
             elif self.inv_split == 0 or self.inv_split == self.dim():
                 # case 2: kron is flipped
                 # TODO make the kron in linalg do this loop correctly and generally
-                for i in range(len(res)):
-                    res.U[i] = np.kron(res.U[i], self.U[i])
+                res.U = np.array([np.kron(u2, u1) for u1, u2 in zip(self.U, res.U)])
                 res.inv_split *= self.dim()
                 if self.inv_split == 0:
                     # flip inversion symmetry if self has it
-- 
2.43.0


From db81102f5b9256ea4d0284a0bdac57cc9e487a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 31/95] fix: realize_symmetric_matrices used the inverse
 operations and ignored the inversion

---
 src/tight_binding_redweasel/unitary_representations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 47883ef..f7b1a3a 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -391,14 +391,17 @@ class UnitaryRepresentation:
             for inv in [1, -1] if self.sym.inversion else [1]:
                 for s, u in zip(self.sym.S, self.U):
                     k_ = s @ k * inv
+                    if inv < 0:
+                        # U_I is diagonal with 1 on the first inv_split diagonal elements and -1 on the rest
+                        u = u * np.where(np.arange(len(u)) < self.inv_split, 1, -1)
                     # * this is why this algorithm is asymtotically slow for large symmetry groups
                     if np.min(np.linalg.norm(used_k - k_.reshape(1, -1), axis=-1)) < scale * 1e-6:
                         continue
                     used_k.append(k_)
                     if inverse:
-                        full.append(u @ data @ np.conj(u.T))
-                    else:
                         full.append(np.conj(u.T) @ data @ u)
+                    else:
+                        full.append(u @ data @ np.conj(u.T))
                     full_k.append(k_)
         # sort by x, y, z compatible with reshape to meshgrid
         full_k = np.array(full_k)
-- 
2.43.0


From 82c774e83504275b5bad903444a70831963d00c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 32/95] fix: UnitaryRepresentation.check_symmetry only looked
 at one k-point and ignored the inversion

---
 src/tight_binding_redweasel/unitary_representations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index f7b1a3a..e586d86 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -427,17 +427,19 @@ class UnitaryRepresentation:
         """
         # random sample points
         k_smpl = np.random.random((50, len(self.sym.S[0])))
-        k_smpl = ((0.0, 0.5, 0.0),)
+        inv_U = np.where(np.arange(self.dim()) < self.inv_split, 1, -1)
         for k in k_smpl:
             values = []
             for s, u in zip(self.sym.S, self.U):
                 values.append(np.conj(u.T) @ hamilton([s @ k])[0] @ u)
+                if self.sym.inversion:
+                    u = u * inv_U
+                    values.append(np.conj(u.T) @ hamilton([-(s @ k)])[0] @ u)
             if np.linalg.norm(np.std(values, axis=0)) > 1e-7:
                 print("symmetry error")
                 #print(np.std(values, axis=0))
                 print((np.std(values, axis=0) > 1e-7).astype(np.int8)) # patterns more clear
                 return False
-        # TODO check inversion symmetry
         return True
     
     def subspaces(self):
-- 
2.43.0


From 78ced4ac025ce47771e2fa6c28e57620830b7c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 33/95] fix: HamiltonianSymmetry.copy always failed

---
 src/tight_binding_redweasel/hamiltonian_symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index cbb4012..8dc428f 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -58,11 +58,11 @@ class HamiltonianSymmetry:
         return sum((u.dim() for u in self.U))
     
     def copy(self) -> Self:
-        u_repr = HamiltonianSymmetry(self.sym.copy(), 1)
-        u_repr.inv = np.array(self.inv)
+        u_repr = HamiltonianSymmetry(self.sym.copy())
         u_repr.U = [u.copy() for u in self.U]
         u_repr.pos = [x.copy() for x in self.pos]
         u_repr.names = self.names.copy()
+        u_repr.translation = np.array(self.translation)
         return u_repr
     
     def __len__(self):
-- 
2.43.0


From fb5dee444cbd772dfd7b9934e683fa77b418f19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 34/95] fix: HamiltonianSymmetry.apply and realize_symmetric
 used a wrong phase and always inverted

---
 .../hamiltonian_symmetry.py                   | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index 8dc428f..47eb9dd 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -24,7 +24,7 @@ class HamiltonianSymmetry:
     There is an additional phase added to each individual unitary representation.
     The total symmetry can be expressed as:
 
-    `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(1+S)(r_1-r_2))`
+    `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(S^{-1}-1)(r_1-r_2))`
 
     In solid state physics, the most important example for this
     is the **system hamiltonian**, which gives the class its name.
@@ -241,7 +241,7 @@ class HamiltonianSymmetry:
         """Apply the unitary transformation for one symmetry operation
         at the given k-point to the hermitian operator to get
 
-        `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(1+S)(r_1-r_2))`
+        `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(S^{-1}-1)(r_1-r_2))`
 
         Args:
             k (arraylike): The spacial point
@@ -251,7 +251,7 @@ class HamiltonianSymmetry:
                                         (not covered by the index alone). Defaults to False.
 
         Returns:
-            arraylike(dim, dim): the resulting hermitian operator `U_S H(k) U^+_S exp(ik(1+S)(r_1-r_2))`
+            arraylike(dim, dim): the resulting hermitian operator `U_S H(k) U^+_S exp(2πik(S^{-1}-1)(r_1-r_2))`
         """
         # apply inversion first, as that is the simple part
         hamiltonian_inv = np.array(hamiltonian)
@@ -259,13 +259,15 @@ class HamiltonianSymmetry:
         for u1, r1 in zip(self.U, self.pos):
             d1 = u1.dim()
             u1 = 1 if u1.inv_split > 0 else -1
-            if u1 < 0:
-                # TODO use r1 !?!
+            if u1 < 0 and inversion:
                 hamiltonian_inv[n1:n1+d1,:] *= -1
                 hamiltonian_inv[:,n1:n1+d1] *= -1
         # now apply the symmetry operation
-        result = np.zeros_like(hamiltonian)
+        result = np.zeros(np.shape(hamiltonian), dtype=np.complex128)
         s = self.sym.S[s_index]
+        # phase of the orbital positions, from the new k-point (S^T)^{-1} k and the old k-point
+        k = np.asarray(k)
+        dk = np.linalg.inv(s).T @ k * (-1 if inversion else 1) - k
         n1 = 0
         for u1, r1 in zip(self.U, self.pos):
             d1 = u1.dim()
@@ -274,8 +276,7 @@ class HamiltonianSymmetry:
                 d2 = u2.dim()
                 u1_ = u1.U[s_index]
                 u2_ = u2.U[s_index]
-                fac = np.exp(2j*np.pi * k @ (r1 - s @ r2)) # TODO check again!
-                fac *= np.exp(-2j*np.pi * k @ (r2 - s @ r1))
+                fac = np.exp(2j*np.pi * dk @ (r1 - r2))
                 result[n1:n1+d1,n2:n2+d2] += fac * u1_ @ hamiltonian_inv[n1:n1+d1,n2:n2+d2] @ np.conj(u2_.T)
                 n2 += d2
             n1 += d1
@@ -541,7 +542,7 @@ class HamiltonianSymmetry:
             used_k = [k]
             for inv in [1, -1] if self.sym.inversion else [1]:
                 for s_index, s in enumerate(self.sym.S):
-                    k_ = s @ k * inv
+                    k_ = np.linalg.inv(s).T @ k * inv
                     # * this is why this algorithm is asymtotically slow
                     if np.min(np.linalg.norm(used_k - k_.reshape(1, -1), axis=-1)) < scale * 1e-6:
                         continue
-- 
2.43.0


From 1f0dfc91d17eec47416a8b4dbc737e1f11fec073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:30 +0000
Subject: [PATCH 35/95] fix: contradicting complex generators of unitary
 representations were accepted

---
 src/tight_binding_redweasel/unitary_representations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index e586d86..39acdd4 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -71,7 +71,7 @@ class UnitaryRepresentation:
                     # the symmetry already exists
                     # check if the U_new symmetry matches
                     u_existing = S[s_key][1]
-                    assert np.sum((u_existing - u)**2) < 1e-14
+                    assert np.sum(np.abs(u_existing - u)**2) < 1e-14
                 else:
                     S[s_key] = (s, u)
             pairs = list(S.values())
-- 
2.43.0


From 4abb64f316ce7dbab635fc73ea42c1391983e7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:30 +0000
Subject: [PATCH 36/95] fix: UnitaryRepresentation.from_generator lost track of
 inversions in the generated group

---
 .../unitary_representations.py                   | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 39acdd4..d0f4a9c 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -83,9 +83,21 @@ class UnitaryRepresentation:
             assert len(S) < 1000 # limitation to avoid endless loops
             if len(S) <= prev_len:
                 break
-        u_repr = UnitaryRepresentation(_sym.Symmetry(np.array(S), inversion), N)
+        U = np.array(U)
+        sym = _sym.Symmetry(np.array(S), inversion)
+        u_repr = UnitaryRepresentation(sym, N)
         u_repr.inv_split = 0 if negate_inversion else N
-        u_repr.U = np.array(U)
+        if len(sym.S) > len(S):
+            # the symmetry doesn't handle inversion separately in even dimensions
+            U = np.concatenate([U, -U if negate_inversion else U])
+        elif len(sym.S) < len(S):
+            # the generated inversion is handled separately
+            U_I = next(u for s, u in zip(S, U) if np.linalg.norm(s + np.eye(Nk)) < 1e-7)
+            u_repr.inv_split = k = int(np.sum(np.diag(U_I).real > 0))
+            if np.linalg.norm(U_I - np.diag([1] * k + [-1] * (N - k))) > 1e-7:
+                raise ValueError("The unitary operation of the inversion needs to be diagonal with all the 1 entries first")
+            U = U[[np.linalg.det(s) > 0 for s in S]]
+        u_repr.U = U
         return u_repr
     
     def match_sym(self, sym: _sym.Symmetry):
-- 
2.43.0


From 405563014615537e7e6dc8da970cfe7117d7743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 37/95] fix: UnitaryRepresentation.from_generator stopped too
 early for repeated generators

---
 src/tight_binding_redweasel/unitary_representations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index d0f4a9c..2ff400a 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -56,6 +56,7 @@ class UnitaryRepresentation:
         S = [np.eye(Nk), *S_G]
         U = [np.eye(N), *U_G]
         # exponentiate the group n times to form the full group
+        prev_len = 0
         for _ in range(1000):
             S_new = np.array(S)
             S_new = np.reshape(S_new.reshape(-1, 1, Nk, Nk) @ S_new.reshape(1, -1, Nk, Nk), (-1, Nk, Nk))
@@ -63,7 +64,6 @@ class UnitaryRepresentation:
             U_new = np.reshape(U_new.reshape(-1, 1, N, N) @ U_new.reshape(1, -1, N, N), (-1, N, N))
             # TODO why does the above not work?
             # convert back to tuples and reduce
-            prev_len = len(S)
             S = {}
             for s, u in zip(S_new, U_new):
                 s_key = tuple([tuple(s_) for s_ in np.round(s, 6) + 0.0]) # rounding errors must not create new elements
@@ -83,6 +83,7 @@ class UnitaryRepresentation:
             assert len(S) < 1000 # limitation to avoid endless loops
             if len(S) <= prev_len:
                 break
+            prev_len = len(S)
         U = np.array(U)
         sym = _sym.Symmetry(np.array(S), inversion)
         u_repr = UnitaryRepresentation(sym, N)
-- 
2.43.0


From 3bbc1f74f00456fadb256dfe62079bbc11d1475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 38/95] fix: UnitaryRepresentation.symmetrizer failed if no
 neighbor needs mirroring

---
 src/tight_binding_redweasel/unitary_representations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 2ff400a..9787092 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -306,10 +306,10 @@ class UnitaryRepresentation:
         assert np.all(task_list_r0[0] == task_list_r0[1]) and np.all(task_list_r0[0][0] == task_list_r0[0])
         r0_index = task_list_r0[0][0] if len(task_list_r0) else None
         # the rest can stay as is, just numpyify them
-        task_list_rinv = np.reshape(task_list_rinv, (-1, 3))
-        task_list_rinv = tuple(task_list_rinv[np.array([i in classes for i in task_list_rinv[:,0]])].T)
-        task_list_r = np.reshape(task_list_r, (-1, 3))
-        task_list_r = tuple(task_list_r[np.array([i in classes for i in task_list_r[:,0]])].T)
+        task_list_rinv = np.reshape(np.array(task_list_rinv, dtype=int), (-1, 3))
+        task_list_rinv = tuple(task_list_rinv[np.array([i in classes for i in task_list_rinv[:,0]], dtype=bool)].T)
+        task_list_r = np.reshape(np.array(task_list_r, dtype=int), (-1, 3))
+        task_list_r = tuple(task_list_r[np.array([i in classes for i in task_list_r[:,0]], dtype=bool)].T)
         class_copy = []
         class_invcopy = []
         for i, class_other in classes.items():
-- 
2.43.0


From f6ba0bdbb70da785f05fb6e9418665796ced3fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:52 +0000
Subject: [PATCH 39/95] fix: HamiltonianSymmetry.apply inverted the wrong
 orbitals

---
 src/tight_binding_redweasel/hamiltonian_symmetry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index 47eb9dd..6e0e939 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -262,6 +262,7 @@ class HamiltonianSymmetry:
             if u1 < 0 and inversion:
                 hamiltonian_inv[n1:n1+d1,:] *= -1
                 hamiltonian_inv[:,n1:n1+d1] *= -1
+            n1 += d1
         # now apply the symmetry operation
         result = np.zeros(np.shape(hamiltonian), dtype=np.complex128)
         s = self.sym.S[s_index]
-- 
2.43.0


From b0c155ffd247608c1b25df0e8ad3aa98d1a19ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 40/95] fix: symmetrized hamiltonians lost inversion symmetry
 if only some neighbors have an inverted partner

---
 src/tight_binding_redweasel/hamiltonian_symmetry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index 6e0e939..9b8b430 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -374,6 +374,8 @@ class HamiltonianSymmetry:
                         u1_ = u1.U[k]
                         u2_ = u2.U[k]
                         j, mirror = neighbor_func(s @ (r + r2 - r1) - r2 + r1)
+                        if self.sym.inversion and neighbor_func(-(s @ (r + r2 - r1)) - r2 + r1)[0] is None:
+                            j = None # the inverted neighbor is needed as well
                         if j is not None:
                             h = H_r3[j]
                             if mirror:
@@ -444,6 +446,8 @@ class HamiltonianSymmetry:
                     s_table = {}
                     for k, s in enumerate(self.sym.S):
                         j, mirror = neighbor_func(s @ (r - r1 + r2) + r1 - r2)
+                        if self.sym.inversion and neighbor_func(-(s @ (r - r1 + r2)) + r1 - r2)[0] is None:
+                            j = None # the inverted neighbor is needed as well
                         if j is not None:
                             # reduce total_table by merging entries which have the same effect (based on the given self.U)
                             # doing this makes it go from 8448 to 8019 entries in my testcase
-- 
2.43.0


From b59613e644a892013341495c53c12ece1451c24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 41/95] fix: SphereSmearing with gradients returned nan for
 left-handed lattices

---
 src/tight_binding_redweasel/smearing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/smearing.py b/src/tight_binding_redweasel/smearing.py
index 8e5bcbd..f316bff 100644
--- a/src/tight_binding_redweasel/smearing.py
+++ b/src/tight_binding_redweasel/smearing.py
@@ -490,7 +490,7 @@ class SphereSmearing(SmearingMethod):
             # gradients are in k_space, we want them to remain there,
             # as the lattice is assumed to be well spaced in reciprocal space.
             # that means the total volume is not 1, but np.linalg.det(B).
-            volume = np.linalg.det(B)
+            volume = np.abs(np.linalg.det(B))
             cell_volume = volume / len(positions[...,0].flat)
             # to counteract that, one can scale the gradients
             self.grads = np.moveaxis(grads, -1, 0) * cell_volume**(1/3)
-- 
2.43.0


From a920b3f1bfa7a4dcf838cceaf7691915ee99b4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:11 +0000
Subject: [PATCH 42/95] fix: refined band ranges of DensityOfStates could
 exclude sampled energies

---
 src/tight_binding_redweasel/density_of_states.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 9c2eb21..1228797 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -275,7 +275,7 @@ class DensityOfStates:
                     if np.any(eigvals < 0):
                         break
                     step = np.linalg.pinv(hess[0, :, :, i]) @ grad[0, :, i]
-                    if np.max(np.abs(step / self.step_sizes)) > 0.55:
+                    if np.max(np.abs(step @ self.A / self.step_sizes)) > 0.55:
                         break  # don't follow too big steps (e.g. at band crossings)
                     min_k -= step
                 # find maximum
@@ -286,11 +286,12 @@ class DensityOfStates:
                     if np.any(eigvals > 0):
                         break
                     step = np.linalg.pinv(hess[0, :, :, i]) @ grad[0, :, i]
-                    if np.max(np.abs(step / self.step_sizes)) > 0.55:
+                    if np.max(np.abs(step @ self.A / self.step_sizes)) > 0.55:
                         break  # don't follow too big steps (e.g. at band crossings)
                     max_k -= step
-                # compute min/max values and store them
-                self.bands_range.append(tuple(model(np.array([min_k, max_k]))[:, i]))
+                # compute min/max values and store them (unless the Newton steps lead away from the extrema)
+                min_e, max_e = model(np.array([min_k, max_k]))[:, i]
+                self.bands_range.append((min(min_e, np.min(self.bands[..., i])), max(max_e, np.max(self.bands[..., i]))))
         else:
             self.bands_range = [(np.min(self.bands[..., i]), np.max(self.bands[..., i])) for i in range(self.bands.shape[-1])]
         # TODO add bands_range_k_points, because that is useful information in some contexts
-- 
2.43.0


From 19b39ff871383a301d6c34027d9ce94793a49c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 43/95] fix: the energy of bands which are completely below mu
 was too large

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 1228797..f913cdd 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -611,7 +611,7 @@ class DensityOfStates:
                 # Romberg extrapolation with just one more step -> ~ Simpson rule.
                 # this assumes that the density is continuous, which is the case for 3D bandstructures.
                 int2 = np.sum((states[:-2:2] + states[2::2])/2 * (e_smpl[2::2] - e_smpl[:-2:2]))
-                energy += mu * states[-1] - (int1 + (int1 - int2)/(4 - 1))
+                energy += e_smpl[-1] * states[-1] - (int1 + (int1 - int2)/(4 - 1))
         # TODO allow more than one T to be used!
         if T <= 0.0:
             # this part is pretty well convergent
-- 
2.43.0


From d15b7c55e9cb61ba54f4ac1b5352f026d10be8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 44/95] fix: the search for the fermi energy failed where the
 density of states vanishes

---
 .../density_of_states.py                      | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index f913cdd..f014b3c 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -487,14 +487,23 @@ class DensityOfStates:
         e_smpl, states_smpl, _ = self.full_curve(N=2)
         e_index = list(states_smpl > electrons).index(True) - 1
         fermi_energy = (electrons - states_smpl[e_index]) / (states_smpl[e_index + 1] - states_smpl[e_index]) * (e_smpl[e_index + 1] - e_smpl[e_index]) + e_smpl[e_index]
-        # now do a couple newton steps to find the exact value
+        # now do a couple newton steps to find the exact value (and bisect where they leave the known interval)
+        lower, upper = e_smpl[e_index], e_smpl[e_index + 1]
         for _ in range(maxsteps):
             states, density = self.states_density(fermi_energy)
-            # TODO handle density = 0 in metals
-            fermi_energy -= (states - electrons) / density
-            if abs((states - electrons) / density) <= tol:
+            if states == electrons:
                 return fermi_energy
-        raise ValueError(f"root search didn't converge in {maxsteps} steps. {abs((states - electrons) / density)} > {tol}.")
+            step = (states - electrons) / density if density > 0 else np.inf
+            if abs(step) <= tol:
+                return fermi_energy - step
+            if states > electrons:
+                upper = fermi_energy
+            else:
+                lower = fermi_energy
+            fermi_energy -= step
+            if not lower < fermi_energy < upper:
+                fermi_energy = (lower + upper) / 2
+        raise ValueError(f"root search didn't converge in {maxsteps} steps. {abs(step)} > {tol}.")
 
     def bandgap(self, electrons: float) -> float:
         """Return the (already precomputed) bandgap.
-- 
2.43.0


From 12c9b4606bb73951c8f432b619de06dee602e141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:14 +0000
Subject: [PATCH 45/95] fix: the energy at high temperatures ignored the tail
 of the Fermi function above the bands

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index f014b3c..6fef42b 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -654,7 +654,7 @@ class DensityOfStates:
                 return -simple_term + a / 2 * int_poly((e0 - mu) * beta, (e1 - mu) * beta, 1/beta**2, 2*mu/beta, mu*mu)
             s = np.sum(segment(e_smpl[:-1], e_smpl[1:], states[:-1], states[1:]))
             # add segments/other functions as extrapolation on both side here to get correct high temperature behavior
-            s += segment(e_smpl[-1], e_smpl[-1] + 8. / beta, self.model_bandcount(), self.model_bandcount()) # flat N(e) above the energy range
+            s += segment(e_smpl[-1], max(e_smpl[-1], mu) + 40. / beta, self.model_bandcount(), self.model_bandcount()) # flat N(e) above the energy range
             return s
         # calculate custom distribution for precision/cost balance
         e_smpl = _samples(e0, e1, mu, beta, N)
-- 
2.43.0


From 1da441bc0f331b0c4d1eb998f4c18b6ef5539a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:14 +0000
Subject: [PATCH 46/95] fix: convolve_ddf had the wrong sign beyond the last
 sample

---
 src/tight_binding_redweasel/density_of_states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 6fef42b..1584ccd 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -112,10 +112,10 @@ def convolve_ddf(x, energy_smpl: np.ndarray, states: np.ndarray, beta: float, ex
     if extrapolation == 'flat':
         if extrapolation_point is None:
             s += df(x - energy_smpl[0]) * states[..., 0]
-            s += df(energy_smpl[-1] - x) * states[..., -1]
+            s -= df(energy_smpl[-1] - x) * states[..., -1]
         else:
             # assume N(mu) starts at 0 and ends at N(extrapolation_point[0]) = extrapolation_point[1]
-            s += df(extrapolation_point[0] - x) * extrapolation_point[1]
+            s -= df(extrapolation_point[0] - x) * extrapolation_point[1]
     return s
 
 
-- 
2.43.0


From 47c068b6df1f1976d3a556d22b441e9d07995934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 47/95] fix: the energy at finite temperatures was wrong if the
 sampled states have a step close to mu

---
 src/tight_binding_redweasel/density_of_states.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 1584ccd..bb9475b 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -637,7 +637,7 @@ class DensityOfStates:
         # = -integral (a e + b) (f-f0) + (a e^2 + b e) df/de de {- (a mu^2 + b mu) if e0<mu<=e1}  | next: integration by parts
         # = -[(a e^2/2 + b e) (f-f0)] - integral -(a e^2/2 + b e) (df/de + delta(e-mu)) + (a e^2 + b e) df/de de {- (a mu^2 + b mu) if e0<mu<=e1}
         # = -[(a e^2/2 + b e) (f-f0)] + integral a e^2/2 (-df/de) de {- a mu^2/2 if e0<mu<=e1}
-        # the additional term with mu appears only once in the entire integration, so it is added at the end using the exact a=rho(mu).
+        # the additional term with mu appears only once in the entire integration. It needs to use the same a as the other terms, as they cancel.
         # A substitution is necessary, as the integrals are defined for f at beta=1 and mu=0, so substitute e->x/beta+mu, x=(e-mu)*beta
         # = -[(a e^2/2 + b e) (f-f0)] + integral a/2 (x/beta + mu)^2 (-df/dx(x) * beta) dx/beta {- a mu^2/2 if e0<mu<=e1}
 
@@ -651,7 +651,8 @@ class DensityOfStates:
                 def f(e):
                     return (a * e / 2 + b) * e * (scipy.special.expit(-(e - mu) * beta) - np.where(e < mu, 1, 0))
                 simple_term = f(e1) - f(e0)
-                return -simple_term + a / 2 * int_poly((e0 - mu) * beta, (e1 - mu) * beta, 1/beta**2, 2*mu/beta, mu*mu)
+                delta_term = np.where((e0 < mu) & (mu <= e1), a * mu*mu/2, 0)
+                return -simple_term + a / 2 * int_poly((e0 - mu) * beta, (e1 - mu) * beta, 1/beta**2, 2*mu/beta, mu*mu) - delta_term
             s = np.sum(segment(e_smpl[:-1], e_smpl[1:], states[:-1], states[1:]))
             # add segments/other functions as extrapolation on both side here to get correct high temperature behavior
             s += segment(e_smpl[-1], max(e_smpl[-1], mu) + 40. / beta, self.model_bandcount(), self.model_bandcount()) # flat N(e) above the energy range
@@ -659,7 +660,7 @@ class DensityOfStates:
         # calculate custom distribution for precision/cost balance
         e_smpl = _samples(e0, e1, mu, beta, N)
         states = np.array([self.states_below(energy) for energy in e_smpl])
-        return (energy + accumulate(e_smpl, states) - self.density(mu) * mu*mu/2) * spin_factor
+        return (energy + accumulate(e_smpl, states)) * spin_factor
 
     def seebeck(self, electrons: float, T_smpl: Iterable[float], N=30, h=1e-4) -> np.ndarray:
         """The derivative of the chemical potential w.r.t. temperature.
-- 
2.43.0


From 2b196bcc5fd4724c44fd33e62b7db533beb90364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 48/95] fix: chemical_potential kept its energy samples over
 arbitrarily large temperature ranges

---
 src/tight_binding_redweasel/density_of_states.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index bb9475b..c409b1b 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -565,7 +565,7 @@ class DensityOfStates:
         T_smpl = np.asarray(T_smpl).reshape(-1)
         if np.max(T_smpl) >= T_lin:
             states_lin = np.array([self.states_below(energy) for energy in energy_smpl_lin])
-        beta = -10000.0  # invalid value
+        smpl_beta = -10000.0  # invalid value (beta of the current distribution)
         res = []
         for T in T_smpl:
             if T <= 0:
@@ -575,11 +575,11 @@ class DensityOfStates:
                 res.append(secant(electrons, lambda x: convolve_df(x, energy_smpl_lin, states_lin, beta, extrapolation='flat'), fermi_energy, fermi_energy + 0.1, tol, maxsteps))
             else:
                 new_beta = 1 / (k_B * T)  # 1/eV
-                if abs(beta - new_beta) / new_beta > 5e-2:
+                if abs(smpl_beta - new_beta) / new_beta > 5e-2:
                     # recalculate distribution for precision
                     beta = 0.25 / (k_B * T)  # 1/eV
                     energy_smpl = _samples(e0, e1, fermi_energy, beta, N)
-                    beta = new_beta
+                    smpl_beta = new_beta
                     states = np.array([self.states_below(energy) for energy in energy_smpl])
                 # keep distribution if it doesn't cause too big errors (performance)
                 beta = new_beta
-- 
2.43.0


From 7a6341f70eaf6c65e99866f28e29d2e8d7f6f3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 49/95] fix: naive_fermi_energy was one state too high

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index c409b1b..868a812 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -180,7 +180,7 @@ def int_poly(x0, x1, a, b, c):
 
 def naive_fermi_energy(bands, electrons):
     i = round(np.prod(np.shape(bands)[:-1]) * electrons)
-    return np.mean(np.sort(np.ravel(bands))[i:i + 2])
+    return np.mean(np.sort(np.ravel(bands))[max(i - 1, 0):i + 1])
 
 
 def naive_energy(bands, mu, T, spin_factor=2):
-- 
2.43.0


From de4a5e457d844af00e3df9d29bd24f70ec3dab20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 50/95] fix: the chemical potential of insulators at low
 temperatures was nan

---
 src/tight_binding_redweasel/density_of_states.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 868a812..50c983e 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -128,6 +128,8 @@ def secant(y, f, a, b, tol=1e-16, max_i=100):
     """
     fa = f(a) - y
     fb = f(b) - y
+    if fa == fb:
+        return a  # flat (e.g. inside of a band gap), so there is no direction to go
     for i in range(max_i):
         x = (a * fb - b * fa) / (fb - fa)
         if a == x or b == x:
-- 
2.43.0


From 5b73c810d9f9fc1547fafa7dbb71c2d6cb7bc51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 51/95] fix: seebeck failed if all temperatures are zero

---
 src/tight_binding_redweasel/density_of_states.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 50c983e..e21bdda 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -683,6 +683,8 @@ class DensityOfStates:
         T_ = T_smpl[subset]
         inv_order = np.zeros(len(T_smpl), dtype=int)
         inv_order[subset] = np.arange(len(T_))
+        if len(T_) == 0:
+            return np.zeros(len(T_smpl))
         assert h < np.min(T_), "h needs to be bigger than the smallest positive temperature"
         T_h = [T + s * h for T in T_ for s in [-1, 1]]
         # numerical derivative of the chemical potential
-- 
2.43.0


From 0bdde0e814ad0d33c1c1c5083d3be6c7d54ca184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 52/95] fix: fermi surface weights were negative for
 left-handed lattices

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index e21bdda..6cb0106 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -786,7 +786,7 @@ class DensityOfStates:
             # HACK: scale up the weights to fill the entire briloun zone.
             # The assumption here is, that if the k_range is anything but [-0.5,0.5]^3,
             # then that is, because the other parts are equal and can be reproduced by symmetry
-            w *= np.linalg.det(self.A) / self.crystal_volume
+            w *= np.abs(np.linalg.det(self.A)) / self.crystal_volume
             if improved_points:
                 if "bands_grad" in dir(self.model):
                     # if available, evaluate the model with bands and exact gradients (way more precise!)
-- 
2.43.0


From 61effef7f8dbc06a64db6b8f7cc13c68a2109406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 53/95] fix: transport coefficients were negative for
 left-handed lattices

---
 src/tight_binding_redweasel/bulk_properties.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 3751b84..c72438c 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -374,7 +374,7 @@ class KIntegral:
         Returns:
             (ndarray[max_a+1, N_T, N_d, N_d]): (L^(0), L^(1), L^(2)). Results L^(0) in 1/(Ohm*m)/s, L^(1) in J/C/(Ohm*m)/s, L^(2) in (J/C)^2/(Ohm*m)/s.
         """
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = np.abs(np.linalg.det(A * 1e-10))
         if isinstance(tau, float):
             tau_v = tau
             tau = lambda _: tau_v
@@ -386,7 +386,7 @@ class KIntegral:
 
     # conductivity divided by the electron scattering time tau. Assuming constant tau. Result in 1/(Ohm*m*s)
     def drude_factor(self, A: np.ndarray, spin_factor=2):
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = np.abs(np.linalg.det(A * 1e-10))
         I = self.integrate_df_A(A, lambda _e, v, _k: v[:, None, :] * v[:, :, None], hessians=False)[0]
         D = spin_factor * elementary_charge**2 * I / eV / V_EZ
         return D  # result is in 1/(Ohm*m)/s
@@ -407,7 +407,7 @@ class KIntegral:
         # In reality the relaxation times are different over k-space or even just for different spins in the same band. (PhysRev.97.647)
         # Somehow their units don't match the expected result unit, so I removed the division by the speed of light to make it work.
         # I canceled one e from sigma_xx with e^2 from sigma_xyz
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = np.abs(np.linalg.det(A * 1e-10))
         # sigma_xyz = elementary_charge/c/eV * self.integrate_df_A(A, lambda _e, v, h, _k: (v[:,0]**2*h[:,1,1] - v[:,0]*v[:,1]*h[:,1,0]), hessians=True)
         I = self.integrate_df_A(A, lambda _e, v, h, _k: (v[:, 0]**2 * h[:, 1, 1] - v[:, 0] * v[:, 1] * h[:, 1, 0]), hessians=True)[0]
         I2 = self.integrate_df_A(A, lambda _e, v, _k: v[:, 0]**2, hessians=False)[0]
@@ -421,7 +421,7 @@ class KIntegral:
         # PhysRevB.45.10886 Hall effect formula with constant relaxation time over k.
         # In reality the relaxation times are different over k-space or even just for different spins in the same band. (PhysRev.97.647)
         # I canceled one e from sigma_0 with e^2 from sigma_H
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = np.abs(np.linalg.det(A * 1e-10))
         I = self.integrate_df_A(A, lambda _e, v, h, _k: np.einsum("ni,nij,nj->n", v, h, v) - np.einsum("nj,nj,nii->n", v, v, h), hessians=True)[0]
         I2 = self.integrate_df_A(A, lambda _e, v, _k: (v**2).sum(-1), hessians=False)[0]
         sigma_H = elementary_charge / eV * spin_factor / 6 * I
@@ -450,7 +450,7 @@ class KIntegral:
         """
         # From the book "C. Hurd, The Hall Coeffcient of Metals and Alloys (Plenum, New York, 1972)"
         # Assuming constant relaxation time for now -> independent of it
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = np.abs(np.linalg.det(A * 1e-10))
         if isinstance(tau, float):
             tau_v = tau
             tau = lambda _: tau_v
-- 
2.43.0


From 2939167d007b9c380184a603a79097b19c050840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 54/95] fix: conductivity_hall_tensor failed for a k-dependent
 relaxation time

---
 src/tight_binding_redweasel/bulk_properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index c72438c..1128160 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -454,8 +454,8 @@ class KIntegral:
         if isinstance(tau, float):
             tau_v = tau
             tau = lambda _: tau_v
-        tau_1 = (lambda v, _: v) if tau is None else (lambda v, k: v * tau(k))
-        tau_2 = (lambda v, _: v) if tau is None else (lambda v, k: v * tau(k)**2)
+        tau_1 = (lambda v, _: v) if tau is None else (lambda v, k: v * np.reshape(tau(k), (-1, 1, 1)))
+        tau_2 = (lambda v, _: v) if tau is None else (lambda v, k: v * np.reshape(tau(k), (-1, 1, 1, 1))**2)
         I = self.integrate_df_A(A, lambda _e, v, h, k: tau_2(np.einsum("yds,na,ns,nbd->naby", antisym_tensor, v, v, h), k), hessians=True)[0]
         I2 = self.integrate_df_A(A, lambda _e, v, k: tau_1(v[:, None, :] * v[:, :, None], k), hessians=False)[0]
         sigma3 = 1 / V_EZ * elementary_charge**3 / eV * spin_factor * I
-- 
2.43.0


From 58c2a78c92e2b86924617f392ebadd310a4d5c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 55/95] fix: FreeElectrons hessians did not have the shape of
 the bands

---
 src/tight_binding_redweasel/bulk_properties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 1128160..f53aad1 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -504,4 +504,5 @@ class FreeElectrons:
             order = order[:, :self.limit_count]
         bands = np.take_along_axis(bands, order, axis=-1)
         grad = np.take_along_axis(grad, order[:, None, :], axis=-1)
-        return self.fac * bands, self.fac * grad, self.fac * hess[None, ...]
+        hess = np.broadcast_to(hess[None, ..., :order.shape[-1]], (len(order), 3, 3, order.shape[-1]))
+        return self.fac * bands, self.fac * grad, self.fac * hess
-- 
2.43.0


From 737127e766a9aa626d459dcf686ab3b836c74a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:42 +0000
Subject: [PATCH 56/95] fix: energy was nan for a chemical potential outside of
 the energy range

---
 src/tight_binding_redweasel/density_of_states.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 6cb0106..16badcd 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -72,7 +72,7 @@ def convolve_df(x, energy_smpl: np.ndarray, states: np.ndarray, beta: float, ext
         # return np.log(scipy.special.expit(beta*e1) + np.exp(-beta*e0)/(1 + np.exp(-beta*e1))) / beta
 
     def segment(x, x0, x1, y0, y1):
-        return y1 * f(x - x1) - y0 * f(x - x0) + (y1 - y0) / (x1 - x0) * F_diff(x - x0, x - x1)
+        return y1 * f(x - x1) - y0 * f(x - x0) + (y1 - y0) / np.where(x1 == x0, 1, x1 - x0) * F_diff(x - x0, x - x1)
     s = np.sum(segment(x, energy_smpl[..., :-1], energy_smpl[..., 1:], states[..., :-1], states[..., 1:]), axis=-1)
     # add segments/other functions as extrapolation on both side to get correct high temperature behavior
     if extrapolation == 'flat':
@@ -106,7 +106,7 @@ def convolve_ddf(x, energy_smpl: np.ndarray, states: np.ndarray, beta: float, ex
         return f(e1) - f(e0)
 
     def dsegment(x, x0, x1, y0, y1):
-        return y1 * df(x - x1) - y0 * df(x - x0) + (y1 - y0) / (x1 - x0) * f_diff(x - x0, x - x1)
+        return y1 * df(x - x1) - y0 * df(x - x0) + (y1 - y0) / np.where(x1 == x0, 1, x1 - x0) * f_diff(x - x0, x - x1)
     s = np.sum(dsegment(x, energy_smpl[..., :-1], energy_smpl[..., 1:], states[..., :-1], states[..., 1:]), axis=-1)
     # add segments/other functions as extrapolation on both side to get correct high temperature behavior
     if extrapolation == 'flat':
@@ -196,8 +196,8 @@ def naive_energy(bands, mu, T, spin_factor=2):
 def _samples(e0, e1, mu, beta, N):
     # sample a range e0 to e1 in such a way, that an integral over -df/de has equal weights for each point. (importance sampling)
     # for numerical stability, it is required to limit e0 and e1 here
-    e0 = np.maximum(mu - 30 / beta, e0)
-    e1 = np.minimum(mu + 30 / beta, e1)
+    e0 = np.clip(e0, mu - 30 / beta, mu + 30 / beta)
+    e1 = np.clip(e1, mu - 30 / beta, mu + 30 / beta)
     #return np.log(1 / (1e-16 + np.linspace(scipy.special.expit(-beta * (e0 - mu)), scipy.special.expit(-beta * (e1 - mu)), N)) - 1 + 1e-16) / beta + mu
     return -scipy.special.logit(np.concatenate([np.linspace(scipy.special.expit(-beta * (e0 - mu)), 0.5, N//2, endpoint=False), np.linspace(0.5, scipy.special.expit(-beta * (e1 - mu)), (N+1)//2)])) / beta + mu
 
@@ -648,7 +648,7 @@ class DensityOfStates:
             def segment(e0, e1, y0, y1):
                 dx = e1 - e0
                 dy = y1 - y0
-                a = dy / dx
+                a = dy / np.where(dx == 0, 1, dx)  # there are empty segments if mu is at the border of the energy range
                 b = y0 - e0 * a
                 def f(e):
                     return (a * e / 2 + b) * e * (scipy.special.expit(-(e - mu) * beta) - np.where(e < mu, 1, 0))
-- 
2.43.0


From a088c07cb9ae009c62cb395d8b86826ca06652a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 57/95] fix: 3D Fermi surface plot was scaled by (N-1)/N

---
 src/tight_binding_redweasel/fermi_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/fermi_surface.py b/src/tight_binding_redweasel/fermi_surface.py
index 1848c83..dfd02cd 100644
--- a/src/tight_binding_redweasel/fermi_surface.py
+++ b/src/tight_binding_redweasel/fermi_surface.py
@@ -66,7 +66,7 @@ def plot_3D_fermi_surface_to_ax(ax, model, fermi_energy, N=32, k_range=[-0.5, 0.
         all_verts += 3e-2 * (all_verts - np.mean(all_verts, axis=1, keepdims=True))
         # Display resulting triangular mesh using Matplotlib. This can also be done
         # with mayavi (see skimage.measure.marching_cubes docstring).
-        mesh = Poly3DCollection(all_verts / N * (k_range[1] - k_range[0]) + k_range[0], antialiased=False, linewidth=0, linestyle='None')
+        mesh = Poly3DCollection(all_verts / (N - 1) * (k_range[1] - k_range[0]) + k_range[0], antialiased=False, linewidth=0, linestyle='None')
         mesh.set_edgecolor(None)
         mesh.set_facecolor(np.mean(all_rgb, axis=1))
         # TODO RendererBase.draw_gouraud_triangles exists
-- 
2.43.0


From 9a7c55822317cd27a6777fc77e49a258175e4524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 58/95] fix: 3D Fermi surface plot dropped bands beyond the
 number of default colors

---
 src/tight_binding_redweasel/fermi_surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/fermi_surface.py b/src/tight_binding_redweasel/fermi_surface.py
index dfd02cd..91b61ea 100644
--- a/src/tight_binding_redweasel/fermi_surface.py
+++ b/src/tight_binding_redweasel/fermi_surface.py
@@ -50,7 +50,8 @@ def plot_3D_fermi_surface_to_ax(ax, model, fermi_energy, N=32, k_range=[-0.5, 0.
     all_verts = []
     all_rgb = []
     volumes, band_indices = fermi_surface(model, fermi_energy, xyz)
-    for volume, band, color in zip(volumes, band_indices, colors):
+    for index, (volume, band) in enumerate(zip(volumes, band_indices)):
+        color = colors[index % len(colors)]
         verts, faces, normals, _ = measure.marching_cubes(volume, 0)
 
         rgb = ls.shade_normals(normals, 1.0)[..., None] * mcolors.to_rgb(color)
-- 
2.43.0


From 8ddda913c25f0cee45b26196a7aaa0eb4931b6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 59/95] fix: Fermi surface export used undefined materials for
 many bands

---
 src/tight_binding_redweasel/fermi_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/fermi_surface.py b/src/tight_binding_redweasel/fermi_surface.py
index 91b61ea..0b46893 100644
--- a/src/tight_binding_redweasel/fermi_surface.py
+++ b/src/tight_binding_redweasel/fermi_surface.py
@@ -139,7 +139,7 @@ illum 2
             f.write(f"g Band{band}\n")
             for v in verts:
                 f.write("v %.4f %.4f %.4f\n" % tuple(v))
-            f.write(f"usemtl color{index}\n")
+            f.write(f"usemtl color{index % len(colors)}\n")
             for face in faces:
                 f.write("f")
                 for i in face:
-- 
2.43.0


From 71a7bfdc1e54df3a166afb88cf5ad4e55fa8d70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 60/95] fix: Fermi surface export into another directory did
 not find its material file

---
 src/tight_binding_redweasel/fermi_surface.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/fermi_surface.py b/src/tight_binding_redweasel/fermi_surface.py
index 0b46893..601490c 100644
--- a/src/tight_binding_redweasel/fermi_surface.py
+++ b/src/tight_binding_redweasel/fermi_surface.py
@@ -2,6 +2,7 @@
 # TODO the plot functions are not be stabilized yet
 
 # plot the fermi surface
+import os
 import numpy as np
 from matplotlib import pyplot as plt
 from collections.abc import Callable
@@ -127,8 +128,9 @@ illum 2
     # now create the obj file with the data
     with open(f"{file}.obj", 'w') as f:
         f.write("# OBJ file from tight_binding_redweasel.fermi_surface\n")
-        f.write(f"mtllib {file}.mtl\n")
-        f.write(f"o {file}\n")
+        name = os.path.basename(file)  # relative to the obj file
+        f.write(f"mtllib {name}.mtl\n")
+        f.write(f"o {name}\n")
         f.write("s 1\n")
 
         volumes, band_indices = fermi_surface(model, fermi_energy, xyz)
-- 
2.43.0


From 00f335a12741e4190e0704c9e81c7ca4b26c0188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 61/95] fix: fermi_surface_samples with improved_weights moved
 the points to the zero energy surface

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 16badcd..a361bd5 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -841,7 +841,7 @@ class DensityOfStates:
                 bands = np.take_along_axis(bands, band_indices[:, None], axis=-1)[..., 0]
                 grads = np.take_along_axis(grads, band_indices[:, None, None], axis=-1)[..., 0]
                 # do another newton step here for free! (Assume the gradient is constant)
-                points -= grads * (bands / (1e-20 + np.linalg.norm(grads, axis=-1)**2))[..., None]
+                points -= grads * ((bands - energy) / (1e-20 + np.linalg.norm(grads, axis=-1)**2))[..., None]
             else:
                 raise NotImplementedError("No implementation to get gradients from the lattice.")
             # TODO WRONG for A != 1I
-- 
2.43.0


From 5df009746b8d6d2d9440ae025541177141468f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 62/95] fix: k-integrals of insulators at zero temperature
 crashed

---
 src/tight_binding_redweasel/bulk_properties.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index f53aad1..d5758dd 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -212,7 +212,7 @@ class KIntegral:
                 self.integration_weights = np.array([[1]])
             else:
                 # no e_smpl, all integrals are empty for T=0
-                pass
+                self.e_smpl = []
         self.e_smpl = np.array(self.e_smpl)
         for e in self.e_smpl:
             k_smpl, band_indices, weights, _ = dos_model.fermi_surface_samples(e, improved_points=improved_points, improved_weights=False, normalize=None)
@@ -300,10 +300,10 @@ class KIntegral:
                 # no fermi surface!
                 # to get the output shape right, evaluate g at one point
                 if hessians:
-                    I = 0.0 * np.asanyarray(g(self.mu, np.zeros((1, 3)), np.eye(3)[None], np.zeros((1, 3))))
+                    I = 0.0 * np.asanyarray(g(self.mu[0], np.zeros((1, 3)), np.eye(3)[None], np.zeros((1, 3))))[0]
                 else:
-                    I = 0.0 * np.asanyarray(g(self.mu, np.zeros((1, 3)), np.zeros((1, 3))))
-                return np.array([[I]])
+                    I = 0.0 * np.asanyarray(g(self.mu[0], np.zeros((1, 3)), np.zeros((1, 3))))[0]
+                return np.array([[I]] * (moments + 1))
             # TODO see comment in __init__
             raise NotImplementedError("integrals for isolators (semiconductors) are currently not implemented")
 
-- 
2.43.0


From 876b2c1d9159ad54ce8b463ab224f50bbc8ff76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 63/95] fix: geigh of matrix lists lost the imaginary part or
 decimals of the eigenvectors

---
 src/tight_binding_redweasel/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index 12b2631..fbe4a58 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -72,7 +72,7 @@ def geigh(H: np.ndarray, S: np.ndarray) -> tuple[np.ndarray, np.ndarray]:
         else:
             # TODO check if using np.linalg.cholesky to factor S and then np.linalg.eigh is faster
             res_la = np.zeros(H.shape[:-1], dtype=np.float64)
-            res_ev = np.zeros(H.shape, dtype=H.dtype)
+            res_ev = np.zeros(H.shape, dtype=np.result_type(H, S, np.float64))
             for i in range(len(H)):
                 la, ev = scipy.linalg.eigh(H[i], S[i])
                 res_la[i] = la
-- 
2.43.0


From a804763319561e2d0c2b5defc2ed57096e11b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 64/95] fix: conjugate_gradient_solve crashed on integer arrays

---
 src/tight_binding_redweasel/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index fbe4a58..0712773 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -268,11 +268,12 @@ def conjugate_gradient_solve(A: Callable[[np.ndarray], np.ndarray], b: np.ndarra
     Returns:
         np.ndarray: The best approximation for the result `x` from `Ax=b`.
     """
+    b = np.asarray(b, dtype=np.result_type(b, np.float32))  # integers can't hold the result
     if x0 is None:
         x = np.zeros_like(b)
         r = -b
     else:
-        x = np.array(x0)  # don't modify the argument
+        x = np.array(x0, dtype=np.result_type(x0, b))  # don't modify the argument
         r = A(x) - b
     d = r.copy()
     r_sqr = np.sum(r.conj() * r)
-- 
2.43.0


From 895fd462e98fa6ec1cc5ac028e14e2a280e6e643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 65/95] fix: lattice_in_sphere sheared skew lattices further
 instead of reducing them

---
 src/tight_binding_redweasel/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index 0712773..5ff64da 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -234,7 +234,7 @@ def lattice_in_sphere(A, dist) -> np.ndarray:
         R /= np.diag(R)[:, None]
         R_inv = np.linalg.inv(R)
         assert abs(abs(np.linalg.det(R_inv)) - 1.0) < 1e-7
-        R_inv = np.round(R)
+        R_inv = np.round(R_inv)
         assert abs(abs(np.linalg.det(R_inv)) - 1.0) < 1e-7
         A = A @ R_inv
     # TODO use a supercell like fcc or bcc to make the following more efficient
-- 
2.43.0


From f154c57afbd18607ad4c44b344d73dbcd9a97f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 66/95] fix: KPath raised for an explicit start point given as
 a tuple or list

---
 src/tight_binding_redweasel/kpaths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index 378fda8..4ffaacd 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -43,7 +43,7 @@ class KPath(Sequence):
         self.points = points  # no copy, be careful!
         self.indices = [0]  # symmetry point indices
         additional = []
-        if isinstance(start, list) or isinstance(start, tuple):
+        if isinstance(start, (list, tuple)) and (isinstance(start[0], str) or np.ndim(start[0]) > 0):
             # accept a list of points instead of start
             additional = start[1:]
             start = start[0]
-- 
2.43.0


From 27df795a3955995ca656a97be9526a66de7fcb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 67/95] fix: periodic interpolation without symmetry failed for
 k-points outside of the unit cell

---
 src/tight_binding_redweasel/kpaths.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index 4ffaacd..4ebe98e 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -274,6 +274,9 @@ def interpolate(k_smpl, bands, sym: _sym.Symmetry = None, method="cubic", period
         k_smpl_orig = k_smpl
         k_smpl, bands = sym.realize_symmetric_data(
             k_smpl, bands, unit_cell=periodic, average_bad_duplicates=True)
+    elif periodic:
+        # wrap to the unit cell [-0.5, 0.5[ (with tolerance for rounding errors)
+        k_smpl = k_smpl - np.floor(k_smpl + (0.5 + 1e-6))
     if grid is None:
         grid = (round(len(k_smpl)**(1 / kdim)),)*kdim
     else:
-- 
2.43.0


From 75966696e62f4af38434111b844e13b1da45b04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 68/95] fix: periodic interpolation failed for grids with a
 single point along an axis

---
 src/tight_binding_redweasel/kpaths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index 4ebe98e..75b4af5 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -304,8 +304,9 @@ def interpolate(k_smpl, bands, sym: _sym.Symmetry = None, method="cubic", period
             vec = np.zeros(gdim)
             vec[i] = 1.0
             vec = vec.reshape((gdim,) + (1,) * gdim)
+            next_k_smpl = np.concatenate([used_k_smpl + vec, used_k_smpl + 2 * vec], axis=i + 1)
             used_k_smpl = np.concatenate([used_k_smpl.take([-1], axis=i + 1, mode="wrap") - vec,
-                                          used_k_smpl, used_k_smpl.take([0, 1], axis=i + 1, mode="wrap") + vec], axis=i + 1)
+                                          used_k_smpl, next_k_smpl.take([0, 1], axis=i + 1)], axis=i + 1)
             used_bands = np.concatenate([used_bands.take([-1], axis=i, mode="wrap"), used_bands,
                                          used_bands.take([0, 1], axis=i, mode="wrap")], axis=i)
 
-- 
2.43.0


From 6efcc15f536ad01eaad5fd384b671abdf5f52146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 69/95] fix: tetragonal_bc_points replaced the global
 dictionary of points

---
 src/tight_binding_redweasel/kpaths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index 75b4af5..6d5508a 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -28,6 +28,7 @@ points['M2d'] = (0.5 * np.array([1, 1]), 'M')  # Sigma line
 # 1D points
 points['G1d'] = (0.5 * np.array([0]), 'Γ')
 points['X1d'] = (0.5 * np.array([1]), 'X')
+cubic_points = points
 
 
 class KPath(Sequence):
@@ -410,8 +411,7 @@ def tetragonal_bc_points(c: float) -> dict:
         dict: _description_
     """
     if c == 1:
-        global points
-        return points  # cubic, is contained in the global points dict
+        return cubic_points  # cubic, is contained in the global points dict
     points = {}
     points['G'] = (np.zeros(3), 'Γ')
     points['X'] = (np.array([0.5, 0.5, 0]), 'X')
-- 
2.43.0


From 6d2e0afdbb728e4e70e72cf49c7162a3b830e385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 70/95] fix: from_disk mixed bohr and angstrom in the atom
 positions

---
 src/tight_binding_redweasel/qespresso_interface.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index f157566..574c976 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -1396,15 +1396,13 @@ def from_disk(name: str, read_output=True, prepare_pseudopotentials=False) -> QE
         a1 = [float(x) for x in section.getElementsByTagName("a1")[0].firstChild.nodeValue.strip().split()]
         a2 = [float(x) for x in section.getElementsByTagName("a2")[0].firstChild.nodeValue.strip().split()]
         a3 = [float(x) for x in section.getElementsByTagName("a3")[0].firstChild.nodeValue.strip().split()]
-        A = np.array([a1, a2, a3]).T
-        if crystal.unit == "angstrom":
-            A *= bohr_to_angstrom
-        crystal.A = A
+        A_bohr = np.array([a1, a2, a3]).T
+        crystal.A = A_bohr * bohr_to_angstrom if crystal.unit == "angstrom" else A_bohr
         for atom in positions.getElementsByTagName("atom"):
             atom_type = atom.getAttribute("name")
             atom_pos = [float(x) for x in atom.firstChild.nodeValue.strip().split()]
             # convert atom_pos to crystal coordinates, as those are used by the class
-            atom_pos = np.linalg.inv(A) @ atom_pos
+            atom_pos = np.linalg.inv(A_bohr) @ atom_pos
             basis.append(atom_pos)
             types.append(atom_type)
         crystal.basis = np.array(basis)
-- 
2.43.0


From 0b13f6ecb583cad6ca9af3befb175d843a81f656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 71/95] fix: from_disk read energies in Hartree as if they were
 Rydberg

---
 src/tight_binding_redweasel/qespresso_interface.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 574c976..550f4a5 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -1407,13 +1407,13 @@ def from_disk(name: str, read_output=True, prepare_pseudopotentials=False) -> QE
             types.append(atom_type)
         crystal.basis = np.array(basis)
         crystal.types = np.array(types)
-        crystal.kinetic_energy_cutoff = float(section.getElementsByTagName("ecutwfc")[0].firstChild.nodeValue)
+        # the xml is in Hartree, while the input files (and therefore this class) use Rydberg
+        crystal.kinetic_energy_cutoff = 2 * float(section.getElementsByTagName("ecutwfc")[0].firstChild.nodeValue)
         #ecutrho = float(section.getElementsByTagName("ecutrho")[0].firstChild.nodeValue)
         smearing = section.getElementsByTagName("smearing")
         if smearing:
             if smearing[0].firstChild.nodeValue.strip() == "fd": # TODO check the shorthand...
-                # TODO check unit!
-                crystal.T = float(smearing[0].getAttribute("degauss")) / 6.3336231269e-6
+                crystal.T = 2 * float(smearing[0].getAttribute("degauss")) / 6.3336231269e-6
     if prepare_pseudopotentials:
         qe_prepare()
     return crystal
-- 
2.43.0


From 0d4f9b0ac08d1ac8605cc43052e2cceaa90542c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 72/95] fix: read_bands_crystal returned lattice symmetries
 that are broken by the atoms

---
 src/tight_binding_redweasel/qespresso_interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 550f4a5..8c07a9c 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -532,6 +532,9 @@ class QECrystal:
             # now find all the data in the xml file
             symmetry_list = output.getElementsByTagName("symmetry")
             for sym in symmetry_list:
+                info = sym.getElementsByTagName("info")
+                if len(info) and info[0].firstChild is not None and "lattice_symmetry" in info[0].firstChild.nodeValue:
+                    continue  # symmetry of the lattice, which is broken by the atoms
                 rot = sym.getElementsByTagName("rotation")[0]
                 # read content and convert to matrix
                 content = rot.firstChild.nodeValue
-- 
2.43.0


From aa8d330217a71fee82c4bfdcc1ec3d5884a7a58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 73/95] fix: read_projections_order_spilling raised for more
 than one atom

---
 src/tight_binding_redweasel/qespresso_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 8c07a9c..0d177a5 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -599,7 +599,7 @@ class QECrystal:
                     key, _value = key_value.split("=")
                     key = key.strip()
                     if "charge" not in key and key not in ["p", "d", "f"]:
-                        if self.types:
+                        if len(self.types):
                             order.append(f"{index}{self.types[index-1]}_{key}")
                         else:
                             order.append(f"{index}_{key}")
-- 
2.43.0


From 13f7217f8a2fef06c675aa4d5a3fb218663fef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 74/95] fix: read_charge_density dropped the imaginary part

---
 src/tight_binding_redweasel/qespresso_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 0d177a5..e23cc78 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -821,7 +821,7 @@ class QECrystal:
             # k+G = xk + h*b1 + k*b2 + l*b3
             g_smpl = b1[None,:] * mill[:, 0:1] + b2[None,:] * mill[:, 1:2] + b3[None,:] * mill[:, 2:3]
 
-            rho_g = np.zeros((nspin, ngm_g))
+            rho_g = np.zeros((nspin, ngm_g), dtype=np.complex128)
             for i in range(nspin):
                 rho_g[i,:] = np.fromfile(f, dtype='complex128', count=ngm_g)
                 f.seek(8, 1)
-- 
2.43.0


From 9cc02b923bc2bd4ef8dd34394d7439524b2184cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 75/95] fix: read_charge_density returned cartesian instead of
 the documented crystal coordinates

---
 src/tight_binding_redweasel/qespresso_interface.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index e23cc78..0d40307 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -818,14 +818,13 @@ class QECrystal:
             
             mill = np.fromfile(f, dtype='int32', count=3*ngm_g)
             mill = mill.reshape((ngm_g, 3))
-            # k+G = xk + h*b1 + k*b2 + l*b3
-            g_smpl = b1[None,:] * mill[:, 0:1] + b2[None,:] * mill[:, 1:2] + b3[None,:] * mill[:, 2:3]
+            # k+G = xk + h*b1 + k*b2 + l*b3, mill is in crystal coordinates
 
             rho_g = np.zeros((nspin, ngm_g), dtype=np.complex128)
             for i in range(nspin):
                 rho_g[i,:] = np.fromfile(f, dtype='complex128', count=ngm_g)
                 f.seek(8, 1)
-        return g_smpl, rho_g
+        return mill, rho_g
 
     def read_dos(self):
         """Read the data from the last dos.x run.
-- 
2.43.0


From cbbc384716e596dd0191af94574ed0dd3faf1ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 76/95] fix: read_wavefunctions mixed up the spinor components

---
 src/tight_binding_redweasel/qespresso_interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 0d40307..af02ca6 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -782,8 +782,8 @@ class QECrystal:
                     evc[i,:] = np.fromfile(f, dtype='complex128', count=npol*igwx)
                     f.seek(8, 1)
                 
-                # TODO is this order correct???
-                evc_list.append(evc.reshape(nbnd, igwx, npol))
+                # Quantum Espresso stores all coefficients of the first spinor component before the second
+                evc_list.append(np.swapaxes(evc.reshape(nbnd, npol, igwx), 1, 2))
                 g_smpl_list.append(mill)
         inv_order = np.zeros(len(order), dtype=np.int64)
         inv_order[np.array(order)-1] = np.arange(len(order))
-- 
2.43.0


From 7ed613696eee3e32dfa18cb9cba42a9e547d30fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 77/95] fix: mass density of left-handed lattices was negative

---
 src/tight_binding_redweasel/qespresso_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index af02ca6..1bcf7cf 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -401,7 +401,7 @@ class QECrystal:
         Returns:
             float: mass density in kg/m^3
         """
-        return self._mass_per_cell() / np.linalg.det(self.lattice_vectors_in_m())
+        return self._mass_per_cell() / abs(np.linalg.det(self.lattice_vectors_in_m()))
 
     def scale_to_density(self, density: float):
         """Scale the basis to match a given density.
-- 
2.43.0


From f9022c5303596678b54c58a74024f0d4d07e5339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 78/95] fix: scale_to_density changed the array of the caller
 and failed for integer lattices

---
 src/tight_binding_redweasel/qespresso_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 1bcf7cf..b688ad2 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -409,7 +409,7 @@ class QECrystal:
         Args:
             density (float): The target density in kg/m^3
         """
-        self.A *= (self.mass_density() / density)**(1/3)
+        self.A = self.A * (self.mass_density() / density)**(1/3)
 
     def lattice_vectors_in_m(self) -> np.ndarray:
         """
-- 
2.43.0


From 76c182e9c7c35981bb61cbe17f69db9973513342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 79/95] fix: stray comma in the input of vc-relax

---
 src/tight_binding_redweasel/qespresso_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index b688ad2..085a3e3 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -929,7 +929,7 @@ class QECrystal:
     outdir='./qe-data/',
     prefix='{self.name}',
     tstress = .true.,
-    tprnfor = .true.,,
+    tprnfor = .true.,
     disk_io='low',
 /
 &system
-- 
2.43.0


From fe9b7e43f2dfaebff1eeb972f6a20be29f7ea974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 80/95] fix: read_charge_density read the record markers as
 data

---
 src/tight_binding_redweasel/qespresso_interface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 085a3e3..77f5602 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -822,8 +822,9 @@ class QECrystal:
 
             rho_g = np.zeros((nspin, ngm_g), dtype=np.complex128)
             for i in range(nspin):
-                rho_g[i,:] = np.fromfile(f, dtype='complex128', count=ngm_g)
+                # Move the cursor 8 byte to the right
                 f.seek(8, 1)
+                rho_g[i,:] = np.fromfile(f, dtype='complex128', count=ngm_g)
         return mill, rho_g
 
     def read_dos(self):
-- 
2.43.0


From 52b431fae7b8e83143bfc9f23e2343db30e4d618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 81/95] fix: randomize failed for real matrices, like the
 default overlap

---
 src/tight_binding_redweasel/tight_binding_asym.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index ba21379..0774106 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -312,12 +312,12 @@ class AsymTightBindingModel:
         dparams = sigma * np.random.standard_normal(self.H.H_r.shape) + sigma * 1j*np.random.standard_normal(self.H.H_r.shape)
         if keep_zeros:
             dparams *= np.where(np.abs(self.H.H_r) < 1e-8, 0, 1)
-        self.H.H_r += dparams
+        self.H.H_r = self.H.H_r + dparams
         if randomize_S:
             dparams = sigma * np.random.standard_normal(self.S.H_r.shape) + sigma * 1j*np.random.standard_normal(self.S.H_r.shape)
             if keep_zeros:
                 dparams *= np.where(np.abs(self.S.H_r) < 1e-8, 0, 1)
-            self.S.H_r += dparams
+            self.S.H_r = self.S.H_r + dparams
 
     def error(self, k_smpl, ref_bands, band_weights, band_offset):
         """
-- 
2.43.0


From 98f7cd78ae95a4c27548f892f910008f3db1f1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 82/95] fix: sphere smearing with gradients used the wrong cell
 size on reduced ranges

---
 src/tight_binding_redweasel/smearing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tight_binding_redweasel/smearing.py b/src/tight_binding_redweasel/smearing.py
index f316bff..0a1c78c 100644
--- a/src/tight_binding_redweasel/smearing.py
+++ b/src/tight_binding_redweasel/smearing.py
@@ -492,6 +492,10 @@ class SphereSmearing(SmearingMethod):
             # that means the total volume is not 1, but np.linalg.det(B).
             volume = np.abs(np.linalg.det(B))
             cell_volume = volume / len(positions[...,0].flat)
+            if min(positions.shape[:3]) > 1:
+                # the positions might only cover a part of the cell, so use the grid spacing
+                steps = [positions[1,0,0], positions[0,1,0], positions[0,0,1]] - positions[0,0,0]
+                cell_volume = np.abs(np.linalg.det(steps))
             # to counteract that, one can scale the gradients
             self.grads = np.moveaxis(grads, -1, 0) * cell_volume**(1/3)
             self.values = values
-- 
2.43.0


From fc5060221a06f44901479d1103478385d801623b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 83/95] fix: U of o3 and so3 was shared with the operations of
 the symmetry

---
 src/tight_binding_redweasel/unitary_representations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 9787092..6f1b292 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -548,7 +548,7 @@ class UnitaryRepresentation:
         """O(3) with inversion -1 for cubic symmetry O_h."""
         sym = _sym.Symmetry.cubic(True)
         u_repr = UnitaryRepresentation(sym, 3)
-        u_repr.U = np.asarray(sym.S)
+        u_repr.U = np.array(sym.S) # copy, such that U can be changed independently
         u_repr.inv_split = 0 # no 1 eigenvalues in inversion
         return u_repr
     
@@ -557,7 +557,7 @@ class UnitaryRepresentation:
         """SO(3) with 1 on inversion for cubic symmetry O_h."""
         sym = _sym.Symmetry.cubic(True)
         u_repr = UnitaryRepresentation(sym, 3)
-        u_repr.U = np.asarray(sym.S)
+        u_repr.U = np.array(sym.S) # copy, such that U can be changed independently
         u_repr.inv_split = 3 # all 1 eigenvalues in inversion
         return u_repr
     
-- 
2.43.0


From d626d83298c05325a6b169cb08332658096a9132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 84/95] fix: symmetrizing real or integer matrices failed for
 some representations

---
 src/tight_binding_redweasel/hamiltonian_symmetry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index 9b8b430..30dd900 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -315,7 +315,7 @@ class HamiltonianSymmetry:
         neighbors = np.asarray(neighbors)
         neighbor_func = _sym.try_neighbor_function(neighbors)
         
-        H_r = np.array(H_r)
+        H_r = np.array(H_r, dtype=np.result_type(np.asarray(H_r), np.float32, *[u.U for u in self.U]))
         for i, r in enumerate(neighbors):
             if np.linalg.norm(r) == 0:
                 H_r[i] = (H_r[i] + np.conj(H_r[i].T)) / 2
@@ -358,7 +358,7 @@ class HamiltonianSymmetry:
         #    H_r3[shift] += self.translation[i][None,:] * H_r2 * self.translation[i][:,None]
         #H_r3 /= self.sym.dim()
         H_r3 = H_r2
-        result = np.zeros_like(H_r3) # all U_S are real, so no worries about type here
+        result = np.zeros_like(H_r3)
         # symmetrise with the subgroup sym/inversion (inversion is always a normal subgroup)
         for i, r in enumerate(neighbors):
             # the neighbors are reduced by inversion symmetry
@@ -485,8 +485,8 @@ class HamiltonianSymmetry:
         #print("checksum: ", np.prod(reduced_table + 1, axis=-1).sum()) # checksum
         def symmetrizer_func(H_r):
             assert len(neighbors) == len(H_r)
+            H_r = np.array(H_r, dtype=np.result_type(np.asarray(H_r), np.float32, *[u.U for u in self.U]))
             if origin is not None:
-                H_r = np.array(H_r)
                 # this is the only matrix which is allowed to have its inverse in the parameterset
                 H_r[origin] = (H_r[origin] + np.conj(H_r[origin].T)) / 2
             # symmetrize just inversion
@@ -508,7 +508,7 @@ class HamiltonianSymmetry:
             #H_r3 /= self.sym.dim()
             H_r3 = H_r2
             H_r3_mirror = np.conj(np.swapaxes(H_r3, -1, -2))
-            result = np.zeros_like(H_r) # all U_S are real, so no worries about type here
+            result = np.zeros_like(H_r)
             # symmetrise with the subgroup sym/inversion (inversion is always a normal subgroup)
             # TODO find a way to sort these operations to make it more efficient
             # e.g. sort by u2 so the last matrix multiplication needs to be performed less often.
-- 
2.43.0


From f82ccd47103983acb1a03fe4422d2e434e744e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 85/95] fix: TightBindingModel couldn't be created with
 inversion symmetry

---
 src/tight_binding_redweasel/tight_binding.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 021a397..34d1411 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -27,21 +27,21 @@ class TightBindingModel:
         param_count = len(neighbors)
         if not self.sym.inversion:
             param_count = param_count * 2 - 1 # add separate sin Terms
-        else:
-            # make the onsite matrix blockdiagonal
-            n = unitary_repr.inv_split
-            self.params[0][:n,n:] = 0
-            self.params[0][n:,:n] = 0
         # check params
         if params is not None:
             assert np.shape(unitary_repr.U)[1] == np.shape(params)[1]
-            self.params = np.asarray(params)
+            self.params = np.array(params)
             pshape = np.shape(self.params)
             assert len(pshape) == 3
             assert pshape[1] == pshape[2]
             assert pshape[0] == param_count
         else:
             self.params = np.zeros((param_count,) + (np.shape(unitary_repr.U)[1],)*2, dtype=np.complex128)
+        if self.sym.inversion:
+            # make the onsite matrix blockdiagonal
+            n = unitary_repr.inv_split
+            self.params[0][:n,n:] = 0
+            self.params[0][n:,:n] = 0
         # TODO sanity checks for symmetrically equivalent neighbors (those are not allowed)
     
     def band_count(self):
-- 
2.43.0


From 1f1cd423e8f55cc4078b9a8ba6befc051e5dabc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 86/95] fix: optimize of TightBindingModel failed without
 inversion symmetry

---
 src/tight_binding_redweasel/tight_binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 34d1411..18178cc 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -343,7 +343,7 @@ class TightBindingModel:
             def mul_cs(c, _s, matrix):
                 return c[..., None, None] * matrix[None, ..., :, :]
             def einsum_cs(c, _s, diff):
-                return np.einsum("bij,bn->nij", diff, c * sc[:,None])
+                return np.einsum("bij,bn->nij", diff, c)
         self.params = self.symmetrizer(self.params)
         # reshape k_smpl_weights
         k_smpl_weights = np.broadcast_to(np.reshape([k_smpl_weights], (-1, 1)), (len(k_smpl), 1))
-- 
2.43.0


From b86ba342555a5a6999830c28d9f2a28e3650c358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:51 +0000
Subject: [PATCH 87/95] fix: fermi_energy raised an error where the newton
 steps jump back and forth

---
 src/tight_binding_redweasel/density_of_states.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index a361bd5..a1afa13 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -491,6 +491,7 @@ class DensityOfStates:
         fermi_energy = (electrons - states_smpl[e_index]) / (states_smpl[e_index + 1] - states_smpl[e_index]) * (e_smpl[e_index + 1] - e_smpl[e_index]) + e_smpl[e_index]
         # now do a couple newton steps to find the exact value (and bisect where they leave the known interval)
         lower, upper = e_smpl[e_index], e_smpl[e_index + 1]
+        last_step = np.inf
         for _ in range(maxsteps):
             states, density = self.states_density(fermi_energy)
             if states == electrons:
@@ -502,9 +503,12 @@ class DensityOfStates:
                 upper = fermi_energy
             else:
                 lower = fermi_energy
+            last_energy = fermi_energy
             fermi_energy -= step
-            if not lower < fermi_energy < upper:
+            # steps which don't shrink jump back and forth, so bisect there as well
+            if not lower < fermi_energy < upper or abs(step) > abs(last_step) / 2:
                 fermi_energy = (lower + upper) / 2
+            last_step = fermi_energy - last_energy
         raise ValueError(f"root search didn't converge in {maxsteps} steps. {abs(step)} > {tol}.")
 
     def bandgap(self, electrons: float) -> float:
-- 
2.43.0


From a113bb8c80ddecdaa9ea41f94e545e5c4b269726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:34 +0000
Subject: [PATCH 88/95] fix: printing the log of a perfect fit failed

---
 src/tight_binding_redweasel/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/logger.py b/src/tight_binding_redweasel/logger.py
index 8e6dfde..bc55a9f 100644
--- a/src/tight_binding_redweasel/logger.py
+++ b/src/tight_binding_redweasel/logger.py
@@ -42,7 +42,7 @@ class OptimisationLogger:
             # U+2581 = ▁ ... U+2588 = █
             scale = np.max(max_err)
             error_vis = "".join(
-                [" " if err/scale <= 1/16 else chr(0x2581 + round(err/scale * 8 - 1)) for err in max_err])
+                [" " if err <= scale/16 else chr(0x2581 + round(err/scale * 8 - 1)) for err in max_err])
             print(f"{iteration:3}: loss{loss:9.2e}{scale:8.1e}×[{error_vis}]", end="")
             if not self.update_line:
                 print()
-- 
2.43.0


From 442ab90c48cf0a989c6185d873db8f3c719fa22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:32 +0000
Subject: [PATCH 89/95] fix: conjugate gradient solver returned NaN for complex
 systems when the residual underflows

---
 src/tight_binding_redweasel/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index 5ff64da..b6ec4a0 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -276,7 +276,7 @@ def conjugate_gradient_solve(A: Callable[[np.ndarray], np.ndarray], b: np.ndarra
         x = np.array(x0, dtype=np.result_type(x0, b))  # don't modify the argument
         r = A(x) - b
     d = r.copy()
-    r_sqr = np.sum(r.conj() * r)
+    r_sqr = np.real(np.sum(r.conj() * r))
     if max_i is None:
         max_i = int(np.prod(np.shape(x)) * 2.5) + 1
     i = 0
@@ -299,6 +299,6 @@ def conjugate_gradient_solve(A: Callable[[np.ndarray], np.ndarray], b: np.ndarra
         A_d *= alpha
         r -= A_d
         r_sqr_last = r_sqr
-        r_sqr = np.sum(r.conj() * r)
+        r_sqr = np.real(np.sum(r.conj() * r))
         d *= r_sqr / r_sqr_last
         d += r
-- 
2.43.0


From cec8dc1249a0201db24a06df99f397eea437d362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:10 +0000
Subject: [PATCH 90/95] fix: optimize_cg failed with fewer k-points than
 neighbors (singular preconditioner)

---
 src/tight_binding_redweasel/bandstructure.py      | 6 ++++--
 src/tight_binding_redweasel/tight_binding_asym.py | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index ee7fcc9..d161b51 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -469,8 +469,10 @@ class BandStructureModel:
             # TODO add k_weights in here as well!
             # TODO it seems that preconditioning like this does not always result in an improvement... why?
             # E_mat = np.linalg.pinv(np.linalg.cholesky(np.einsum("nk,nl->kl", c_i, f_i))) * len(k_smpl)**.5
-            E_mat = np.linalg.cholesky(np.linalg.pinv(
-                np.einsum("nk,nl->kl", c_i, f_i))) * len(k_smpl)**.5
+            # E_mat @ E_mat^+ is the pseudo inverse, which exists also with less k-points than neighbors
+            la, ev = np.linalg.eigh(np.einsum("nk,nl->kl", c_i, f_i))
+            nonzero = la > la[-1] * 1e-13
+            E_mat = ev * np.where(nonzero, np.where(nonzero, la, 1)**-.5, 0) * len(k_smpl)**.5
             E_mat_c = np.conj(E_mat)
             # precompute a contraction that comes up often
             c_i_E_mat_c = np.einsum("nk,kl->nl", c_i, E_mat_c)
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 0774106..4d5d349 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -593,7 +593,10 @@ class AsymTightBindingModel:
             # TODO add k_weights in here as well!
             # TODO it seems that preconditioning like this does not always result in an improvement... why?
             #E_mat = np.linalg.pinv(np.linalg.cholesky(np.einsum("nk,nl->kl", c_i, f_i))) * len(k_smpl)**.5
-            E_mat = np.linalg.cholesky(np.linalg.pinv(np.einsum("nk,nl->kl", c_i, f_i))) * len(k_smpl)**.5
+            # E_mat @ E_mat^+ is the pseudo inverse, which exists also with less k-points than neighbors
+            la, ev = np.linalg.eigh(np.einsum("nk,nl->kl", c_i, f_i))
+            nonzero = la > la[-1] * 1e-13
+            E_mat = ev * np.where(nonzero, np.where(nonzero, la, 1)**-.5, 0) * len(k_smpl)**.5
             E_mat_c = np.conj(E_mat)
             # precompute a contraction that comes up often
             c_i_E_mat_c = np.einsum("nk,kl->nl", c_i, E_mat_c)
-- 
2.43.0


From 59362fe2e2677645acdf8c5073e89b14b1012d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:45 +0000
Subject: [PATCH 91/95] fix: fermi_energy didn't converge where the density of
 states vanishes at the Fermi energy

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index a1afa13..e49a8fa 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -494,7 +494,7 @@ class DensityOfStates:
         last_step = np.inf
         for _ in range(maxsteps):
             states, density = self.states_density(fermi_energy)
-            if states == electrons:
+            if abs(states - electrons) <= 1e-12 * max(electrons, 1e-3):  # rounding errors only
                 return fermi_energy
             step = (states - electrons) / density if density > 0 else np.inf
             if abs(step) <= tol:
-- 
2.43.0


From 616c33a9c495460c81845784f4ea5eccf990e60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:08 +0000
Subject: [PATCH 92/95] fix: TightBindingModel.copy passed the coefficient
 functions instead of the representation and neighbors

---
 src/tight_binding_redweasel/tight_binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 18178cc..4e239f7 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -486,7 +486,7 @@ class TightBindingModel:
         return bands, grads, hess1 - 2*hess2
 
     def copy(self):
-        return TightBindingModel(self.f_i, self.df_i, self.params.copy())
+        return TightBindingModel(self.unitary_repr, self.neighbors, self.params.copy())
     
     # make a tight binding model for a supercell with [nx, ny, nz] = repeats
     def copy_transformed(self, transform):
-- 
2.43.0


From 74aa3c8d64548d8a66115dfcdc791356dee95d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:18 +0000
Subject: [PATCH 93/95] fix: TightBindingModel.optimize failed for more than
 one reference band

---
 src/tight_binding_redweasel/tight_binding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 4e239f7..9fc74c8 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -387,12 +387,12 @@ class TightBindingModel:
 
                 if iteration % 100 == 0:
                     #print(f"loss: {new_loss:.2e} alpha: {alpha:.1e}")
-                    l = self.loss(k_smpl, ref_bands, weights, band_offset)
+                    l = self.loss(k_smpl, ref_bands, weights[0], band_offset)
                     print(f"\rloss: {l:.2e}", end="")
         except KeyboardInterrupt:
             print("\naborted")
         self.normalize()
-        l = self.loss(k_smpl, ref_bands, weights, band_offset)
+        l = self.loss(k_smpl, ref_bands, weights[0], band_offset)
         print(f"\rfinal loss: {l:.2e}")
 
     def normalize(self):
-- 
2.43.0


From 34ca7d9cb3c4eb520656a5e6e35fe2cf383a4ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:03 +0000
Subject: [PATCH 94/95] fix: read band data of runs that list no symmetry
 operation

---
 src/tight_binding_redweasel/qespresso_interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 77f5602..8d91962 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -561,6 +561,7 @@ class QECrystal:
             if len(S) == 0:
                 # there is always one symmetry, the trivial symmetry
                 S = np.eye(3)[None,...]
+                S_trans = [np.zeros(3)]
             # assert np.linalg.norm(np.einsum("nij,nik->njk", S, S) - np.eye(len(S[0]))) < 1e-5, "symmetries in crystal space are not orthogonal"
             assert np.linalg.norm(np.round(S) - S) < 1e-8, "symmetries in crystal space should be integers, but are not"
             assert len(S_trans) == len(S), "every symmetry needs an associated translational part if one of them has one."
-- 
2.43.0


From 3afc01ab806d252c90eb0cfe3ca451a80008e076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:03 +0000
Subject: [PATCH 95/95] fix: complex parameters of TightBindingModel are the
 Fourier coefficients of its hamiltonian

---
 src/tight_binding_redweasel/tight_binding.py | 28 +++++++++++++++-----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 9fc74c8..3e4981f 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -426,14 +426,20 @@ class TightBindingModel:
 
     # get the complex fourier coefficients H_r
     def params_complex(self):
-        H = self.params / 2
+        # H(k) = P_0 + sum_i (cos(t_i) - 1) C_i + sin(t_i) S_i, where t_i = 2 pi k r_i
+        n = len(self.neighbors)
+        H = np.array(self.params[:n], dtype=np.complex128)
         if self.sym.inversion:
+            # the sine terms are in the blocks of mixed parity
             k = self.unitary_repr.inv_split
-            H[:,:k,k:] *= 1j
-            H[:,k:,:k] *= 1j
+            H[1:,:k,k:] *= -1j
+            H[1:,k:,:k] *= -1j
+            H[0,:k,:k] -= np.sum(H[1:,:k,:k], axis=0)
+            H[0,k:,k:] -= np.sum(H[1:,k:,k:], axis=0)
         else:
-            H[1:] += H[(len(self.params)+1)//2:] * 1j
-            H = H[:(len(self.params)+1)//2]
+            H[0] -= np.sum(H[1:], axis=0)
+            H[1:] -= 1j * self.params[n:]
+        H[1:] /= 2
         return H
     
     # set params from the complex fourier coefficients H_r
@@ -446,7 +452,17 @@ class TightBindingModel:
             B = 1j*(self.params - np.conj(np.swapaxes(self.params, -1, -2)))
             self.params = np.concatenate([A, B[1:]], axis=0)
         else:
-            self.params += np.conj(np.swapaxes(self.params, -1, -2))
+            k = self.unitary_repr.inv_split
+            A = self.params + np.conj(np.swapaxes(self.params, -1, -2))
+            B = 1j*(self.params - np.conj(np.swapaxes(self.params, -1, -2)))
+            # cosine terms for equal parity, sine terms for mixed parity
+            B[0] = 0
+            B[:,:k,:k] = A[:,:k,:k]
+            B[:,k:,k:] = A[:,k:,k:]
+            self.params = B
+            n = 1
+            self.params[0,:k,:k] += np.sum(A[1:,:k,:k], axis=0)*2
+            self.params[0,k:,k:] += np.sum(A[1:,k:,k:], axis=0)*2
         self.params /= 2
         self.params[0] += np.sum(self.params[1:n], axis=0)*2
         self.params[1:] *= 2
-- 
2.43.0

