From 2e0794fee6f3d2eb4d4fc605306b2e389cf4e6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 01/17] fix: lens coordinates fail with numpy >= 2 (np.complex_
 was removed)

---
 dreimac/lenscoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/lenscoords.py b/dreimac/lenscoords.py
index c8a3736..461863e 100644
--- a/dreimac/lenscoords.py
+++ b/dreimac/lenscoords.py
@@ -93,7 +93,7 @@ class LensCoords(EMCoords):
 
         root_of_unity = np.exp(2 * np.pi * 1j / self._prime)
 
-        cocycle_matrix = np.ones( (n_landmarks, n_landmarks), np.complex_ )
+        cocycle_matrix = np.ones( (n_landmarks, n_landmarks), np.complex128 )
         cocycle_matrix[cocycle[:, 0], cocycle[:, 1]] = root_of_unity ** cocycle[:, 2]
         cocycle_matrix[cocycle[:, 1], cocycle[:, 0]] = (1 / root_of_unity) ** cocycle[:, 2]
 
-- 
2.43.0


From 13bd5b8f3a146f5b2ed5afba53c12924ac095913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 02/17] fix: complex projective coordinates lose their phases
 when compiled

The compiled kernel read the array of zeros captured by the closure (frozen at
compile time) instead of the one it had just filled.
---
 dreimac/complexprojectivecoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/complexprojectivecoords.py b/dreimac/complexprojectivecoords.py
index 936fa83..5a30a78 100644
--- a/dreimac/complexprojectivecoords.py
+++ b/dreimac/complexprojectivecoords.py
@@ -298,7 +298,7 @@ def _sparse_integrate(
                 class_map[b, i] += nu[i, ball_indx[b]]
                 for t in range(n_landmarks):
                     class_map[b, i] += varphi[t, b] * eta[i, ball_indx[b], t]
-        return np.exp(2 * np.pi * 1j * class_map0) * np.sqrt(varphi.T)
+        return np.exp(2 * np.pi * 1j * class_map) * np.sqrt(varphi.T)
 
     return _assemble(
         class_map0,
-- 
2.43.0


From 69673100bf5e646bc5853f5946acf051ecacdb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 03/17] fix: concurrent queries on one object could use each
 other's cover radius

---
 dreimac/emcoords.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dreimac/emcoords.py b/dreimac/emcoords.py
index ea480a7..8bf1fa5 100644
--- a/dreimac/emcoords.py
+++ b/dreimac/emcoords.py
@@ -146,10 +146,12 @@ class EMCoords(object):
             raise Exception(
                 "The cohomology class selected is too short, try setting standard_range to False."
             )
-        self._rips_threshold = (1 - perc) * start + perc * end
-        self._r_cover = self._rips_threshold / 2
+        rips_threshold = (1 - perc) * start + perc * end
+        r_cover = rips_threshold / 2
+        self._rips_threshold = rips_threshold
+        self._r_cover = r_cover
 
-        return self._r_cover, self._rips_threshold
+        return r_cover, rips_threshold
 
     def get_covering_partition(self, r_cover, partunity_fn):
         """
-- 
2.43.0


From d35c99fc40d2bced24c5ef0c74a0e5a27fe7894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 04/17] fix: queries modified the stored (and returned)
 representative cocycles

The lift to integer coefficients works in place, so a coordinates query changed
what get_representative_cocycle returned before and after it.
---
 dreimac/emcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/emcoords.py b/dreimac/emcoords.py
index 8bf1fa5..7663ed2 100644
--- a/dreimac/emcoords.py
+++ b/dreimac/emcoords.py
@@ -114,7 +114,7 @@ class EMCoords(object):
         return (
             dgm[cohomology_class, 0],
             dgm[cohomology_class, 1],
-            cocycles[cohomology_class],
+            cocycles[cohomology_class].copy(),
         )
 
     def get_cover_radius(self, perc, cohomdeath_rips, cohombirth_rips, standard_range):
-- 
2.43.0


From 179df838a8234d0c1351e081830e25167d69820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 05/17] fix: object aliased the caller's distance matrix when
 all points are landmarks

---
 dreimac/emcoords.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dreimac/emcoords.py b/dreimac/emcoords.py
index 7663ed2..cedaca1 100644
--- a/dreimac/emcoords.py
+++ b/dreimac/emcoords.py
@@ -69,7 +69,8 @@ class EMCoords(object):
         if distance_matrix is False:
             self._dist_land_data = res["dperm2all"]
         elif X.shape[0] == X.shape[1]:
-            self._dist_land_data = res["dperm2all"]
+            # ripser returns X itself when all points are landmarks
+            self._dist_land_data = np.array(res["dperm2all"])
         else:
             self._dist_land_data = X[self._idx_land,:]
         self._coverage = np.max(np.min(self._dist_land_data, 1))
-- 
2.43.0


From db3ac9865eece9822896bd4f3b9ec2fd2f6dd508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 06/17] fix: partition of unity was truncated to integers for
 integer distance matrices

---
 dreimac/emcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/emcoords.py b/dreimac/emcoords.py
index cedaca1..1755f0b 100644
--- a/dreimac/emcoords.py
+++ b/dreimac/emcoords.py
@@ -174,7 +174,7 @@ class EMCoords(object):
         """
         dist_land_data = self._dist_land_data
         U = dist_land_data < r_cover
-        phi = np.zeros_like(dist_land_data)
+        phi = np.zeros(dist_land_data.shape)
         phi[U] = partunity_fn(dist_land_data[U], r_cover)
         # Compute the partition of unity
         # varphi_j(b) = phi_j(b)/(phi_1(b) + ... + phi_{n_landmarks}(b))
-- 
2.43.0


From 4551333fb331008146be3940bc4191ac74be55cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 07/17] fix: toroidal coordinates failed when two classes
 needed an integer repair

The truth value of a sparse matrix is ambiguous.
---
 dreimac/toroidalcoords.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index 77e7438..da27edb 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -136,9 +136,10 @@ class ToroidalCoords(EMCoords):
                 if is_cocycle:
                     fixed_cocycles.append(cocycle_as_vector)
                 else:
-                    delta1 = delta1 or CohomologyUtils.make_delta1_compact(
-                        dist_land_land, rips_threshold, self._cns_lookup_table
-                    )
+                    if delta1 is None:
+                        delta1 = CohomologyUtils.make_delta1_compact(
+                            dist_land_land, rips_threshold, self._cns_lookup_table
+                        )
 
                     d1cocycle = delta1 @ cocycle_as_vector.T
 
-- 
2.43.0


From ec65d8bef1247339fcbac0e4c4ffdbb3e95541ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 08/17] fix: Gram-Schmidt projected on the original vectors, so
 LLL did not reduce

For three or more classes the coefficients were wrong.
---
 dreimac/toroidalcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index da27edb..a0d92d9 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -391,7 +391,7 @@ def _gram_schmidt(B):
     for i in range(1, n):
         Ai = B[:, i]
         for j in range(0, i):
-            Aj = B[:, j]
+            Aj = A[:, j]
             # t = np.dot(B[i],B[j])
             Ai = Ai - proj(Aj, Ai)
         A[:, i] = Ai
-- 
2.43.0


From 9bfd14b49dded697f333954b907c318e259da047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 09/17] fix: dimension reduction swallowed interrupts and
 failed allocations

The fallback to the identity is meant for an eigensolver that does not converge;
it also caught KeyboardInterrupt and MemoryError and returned wrong coordinates.
---
 dreimac/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index f89a935..38bc4a9 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -745,7 +745,7 @@ class EquivariantPCA:
             try:
                 _, U = np.linalg.eigh(X.dot(np.conjugate(X).T))
                 U = np.fliplr(U)
-            except:
+            except np.linalg.LinAlgError:
                 U = np.eye(X.shape[0])
             Y = (np.conjugate(U).T).dot(X)
             Y = Y[:dims_to_keep, :]
@@ -779,7 +779,7 @@ class EquivariantPCA:
                     _, U = np.linalg.eigh(X.dot(np.conjugate(X).T))
                     U = np.fliplr(U)
                     # U, _, _ = np.linalg.svd(X)
-                except:
+                except np.linalg.LinAlgError:
                     U = np.eye(X.shape[0])
                 variance[-i - 1] = np.mean(
                     (np.pi / 2 - np.real(np.arccos(np.abs(U[:, -1][None, :].dot(X)))))
-- 
2.43.0


From c09848f18ba9ea91b34d6021ca639dd2679247f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 10/17] fix: one uncovered point ruined the dimension reduction
 of all points

The NaN columns of uncovered points made the eigensolver fail for everybody, and
the fallback to the identity went unnoticed.
---
 dreimac/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 38bc4a9..27da607 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -741,9 +741,14 @@ class EquivariantPCA:
         variance = np.zeros(X.shape[0] - 1)
         n_dim = class_map.shape[1]
 
+        def _covered(X):
+            # points not covered by any landmark are NaN
+            return X[:, ~np.isnan(X).any(axis=0)]
+
         def _one_step_linear_reduction(X, dims_to_keep):
             try:
-                _, U = np.linalg.eigh(X.dot(np.conjugate(X).T))
+                Z = _covered(X)
+                _, U = np.linalg.eigh(Z.dot(np.conjugate(Z).T))
                 U = np.fliplr(U)
             except np.linalg.LinAlgError:
                 U = np.eye(X.shape[0])
@@ -776,12 +781,13 @@ class EquivariantPCA:
                 if i == n_dim - proj_dim - 1:
                     XRet = X
                 try:
-                    _, U = np.linalg.eigh(X.dot(np.conjugate(X).T))
+                    Z = _covered(X)
+                    _, U = np.linalg.eigh(Z.dot(np.conjugate(Z).T))
                     U = np.fliplr(U)
                     # U, _, _ = np.linalg.svd(X)
                 except np.linalg.LinAlgError:
                     U = np.eye(X.shape[0])
-                variance[-i - 1] = np.mean(
+                variance[-i - 1] = np.nanmean(
                     (np.pi / 2 - np.real(np.arccos(np.abs(U[:, -1][None, :].dot(X)))))
                     ** 2
                 )
-- 
2.43.0


From d302ad4d246a56ead4d2d8d17fb02b57e6b497e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 11/17] fix: example generators reseeded and shared the
 process-wide random stream

Other threads could disturb a generator between seeding and drawing, and every
call reset the caller's random stream. The samples are unchanged.
---
 dreimac/utils.py | 45 ++++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 27da607..34213af 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -917,8 +917,8 @@ class GeometryExamples:
         """
         if seed is None:
             seed = n_samples
-        np.random.seed(seed)
-        X = np.random.randn(n_samples, 3)
+        rng = np.random.RandomState(seed)
+        X = rng.randn(n_samples, 3)
         X = X / np.sqrt(np.sum(X**2, 1))[:, None]
         return X, GeometryUtils.get_csm_projarc(X, X)
 
@@ -946,10 +946,10 @@ class GeometryExamples:
         """
         if seed is None:
             seed = n_samples
-        np.random.seed(seed)
+        rng = np.random.RandomState(seed)
         X = np.zeros((n_samples, 3))
-        s = np.random.rand(n_samples) * 2 * np.pi
-        t = np.random.rand(n_samples) * 2 * np.pi
+        s = rng.rand(n_samples) * 2 * np.pi
+        t = rng.rand(n_samples) * 2 * np.pi
         X[:, 0] = (R + r * np.cos(s)) * np.cos(t)
         X[:, 1] = (R + r * np.cos(s)) * np.sin(t)
         X[:, 2] = r * np.sin(s)
@@ -979,9 +979,9 @@ class GeometryExamples:
         """
         if seed is None:
             seed = n_samples
-        np.random.seed(seed)
-        theta = np.random.rand(n_samples) * 2 * np.pi
-        phi = np.random.rand(n_samples) * 2 * np.pi
+        rng = np.random.RandomState(seed)
+        theta = rng.rand(n_samples) * 2 * np.pi
+        phi = rng.rand(n_samples) * 2 * np.pi
         X = np.zeros((n_samples, 4))
         X[:, 0] = (R + r * np.cos(theta)) * np.cos(phi)
         X[:, 1] = (R + r * np.cos(theta)) * np.sin(phi)
@@ -1045,9 +1045,9 @@ class GeometryExamples:
         """
 
         if noisy:
-            np.random.seed(0)
-            u = 4 * np.pi * np.random.rand(n_samples)
-            v = 2 * np.pi * np.random.rand(n_samples)
+            rng = np.random.RandomState(0)
+            u = 4 * np.pi * rng.rand(n_samples)
+            v = 2 * np.pi * rng.rand(n_samples)
             X = np.zeros((n_samples, 3))
             X[:, 0] = np.cos(u) * np.cos(v) + horizontal_width * np.cos(u) * (
                 1.5 + np.sin(1.5 * u) / 2
@@ -1057,7 +1057,6 @@ class GeometryExamples:
             )
             X[:, 2] = np.sin(v) + 4 * np.cos(1.5 * u)
         else:
-            np.random.seed(0)
             u = 4 * np.pi * np.linspace(0, 1, n_samples, endpoint=False)
             X = np.zeros((n_samples, 3))
             X[:, 0] = np.cos(u) + horizontal_width * np.cos(u) * (
@@ -1089,9 +1088,9 @@ class GeometryExamples:
         c3 = np.array([3 * np.sin(sample_interval), 3 * np.cos(sample_interval)]).T
         X = np.vstack((c1, c2, c3))
 
-        np.random.seed(0)
+        rng = np.random.RandomState(0)
         eps = 0.1
-        X += (np.random.random(X.shape) - 0.5) * eps
+        X += (rng.random_sample(X.shape) - 0.5) * eps
 
         return X
 
@@ -1126,9 +1125,9 @@ class GeometryExamples:
         ).T + np.array([-4, 0])
         X = np.vstack((small_circle, big_circle1, big_circle2))
 
-        np.random.seed(0)
+        rng = np.random.RandomState(0)
         eps = 0.3
-        X += (np.random.random(X.shape) - 0.5) * eps
+        X += (rng.random_sample(X.shape) - 0.5) * eps
 
         return X
 
@@ -1143,8 +1142,8 @@ class GeometryExamples:
             3D sphere samples
 
         """
-        np.random.seed(0)
-        data = 2 * np.random.random_sample((n_samples, 3)) - 1
+        rng = np.random.RandomState(0)
+        data = 2 * rng.random_sample((n_samples, 3)) - 1
         return data / np.linalg.norm(data, axis=1)[:, np.newaxis]
 
     @staticmethod
@@ -1169,11 +1168,11 @@ class GeometryExamples:
             2D circle samples
 
         """
-        np.random.seed(seed)
-        X = np.random.random((n_samples, 2)) - 0.5
+        rng = np.random.RandomState(seed)
+        X = rng.random_sample((n_samples, 2)) - 0.5
         return (
             X / np.linalg.norm(X, axis=1).reshape((n_samples, 1))
-            + (np.random.random((n_samples, 2)) - 0.5) * noise_size
+            + (rng.random_sample((n_samples, 2)) - 0.5) * noise_size
         )
 
     @staticmethod
@@ -1195,8 +1194,8 @@ class GeometryExamples:
             Distance matrix of points on the Moore space M(1,Z/prime).
 
         """
-        np.random.seed(0)
-        X = (np.random.random((rough_n_points, 2)) - 0.5) * 2
+        rng = np.random.RandomState(0)
+        X = (rng.random_sample((rough_n_points, 2)) - 0.5) * 2
         X = X[np.linalg.norm(X, axis=1) <= 1]
         q = prime
 
-- 
2.43.0


From bf47dc66522d445739393458d50738d6694a1426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 12/17] fix: one-by-one dimension reduction to dimension zero
 returned nothing

---
 dreimac/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 34213af..ac41f41 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -796,6 +796,8 @@ class EquivariantPCA:
                 Y = Y[0:-1, :]
                 # X = Y / np.sqrt(1 - np.abs(y) ** 2)[None, :]
                 X = Y / np.linalg.norm(Y, axis=0)[None, :]
+            if proj_dim == 0:
+                XRet = X
             if verbose:
                 print("Elapsed time ppca: %.3g" % (time.time() - tic))
 
-- 
2.43.0


From eb4bb1191744ac98357bde7e7b4ccbaaf8368d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 13/17] fix: circle_to_3dnorthpole overwrote the point passed
 to it

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index ac41f41..022ae23 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1460,7 +1460,7 @@ class ProjectiveMapUtils:
         """
         magSqr = np.sum(x**2)
         if magSqr > 1:
-            x /= np.sqrt(magSqr)
+            x = x / np.sqrt(magSqr)
             magSqr = 1
         u = np.zeros(3)
         u[0:2] = x
-- 
2.43.0


From a4036a26d64dcee4ea3774a57410e9d0a8c99478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 14/17] fix: complex projective coordinates failed whenever a
 class needed an integer repair (scipy not imported)

---
 dreimac/complexprojectivecoords.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dreimac/complexprojectivecoords.py b/dreimac/complexprojectivecoords.py
index 5a30a78..577683b 100644
--- a/dreimac/complexprojectivecoords.py
+++ b/dreimac/complexprojectivecoords.py
@@ -1,4 +1,5 @@
 import numpy as np
+import scipy
 from numba import jit
 import scipy.sparse as sparse
 from scipy.sparse.linalg import lsqr
-- 
2.43.0


From b57ce3c912da6bb0a42634444f75c39a93da62e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:43 +0000
Subject: [PATCH 15/17] fix: plot_rp2_stereo could draw parts on other axes
 when the current axes changed meanwhile

---
 dreimac/plotting_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dreimac/plotting_utils.py b/dreimac/plotting_utils.py
index e3c39c8..86d98d1 100644
--- a/dreimac/plotting_utils.py
+++ b/dreimac/plotting_utils.py
@@ -305,7 +305,6 @@ class PlotUtils:
             t = np.linspace(0, 2 * np.pi, 200)
             ax.plot(np.cos(t), np.sin(t), c=arrowcolor)
             ax.axis("equal")
-            ax = plt.gca()
             if do_arrows:
                 ax.arrow(
                     -0.1,
@@ -339,11 +338,14 @@ class PlotUtils:
             warnings.warn(
                 "Plotting stereographic RP2 projection, but points are not 2 dimensional"
             )
-        _plot_rp2_circle(plt.gca(), arrowcolor, facecolor)
+        ax = plt.gca()
+        _plot_rp2_circle(ax, arrowcolor, facecolor)
         if f.size > S.shape[0]:
-            plt.scatter(S[:, 0], S[:, 1], 20, c=f, cmap="afmhot")
+            points = ax.scatter(S[:, 0], S[:, 1], 20, c=f, cmap="afmhot")
         else:
-            plt.scatter(S[:, 0], S[:, 1], 20, f, cmap="afmhot")
+            points = ax.scatter(S[:, 0], S[:, 1], 20, f, cmap="afmhot")
+        # as plt.scatter does, so that plt.colorbar() refers to these points
+        ax._sci(points)
 
     @staticmethod
     def plot_rp3_stereo(ax, S, f, draw_sphere=False):
-- 
2.43.0


From b79eed337eb71cc58f1a8824b7e35ecc2ebee321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:17 +0000
Subject: [PATCH 16/17] fix: integer lifting could branch forever on a class
 without integral lift

---
 dreimac/complexprojectivecoords.py | 2 ++
 dreimac/toroidalcoords.py          | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/dreimac/complexprojectivecoords.py b/dreimac/complexprojectivecoords.py
index 577683b..c6b54a2 100644
--- a/dreimac/complexprojectivecoords.py
+++ b/dreimac/complexprojectivecoords.py
@@ -140,6 +140,8 @@ class ComplexProjectiveCoords(EMCoords):
                     integrality=integrality,
                     constraints=constraints,
                     bounds=bounds,
+                    # without a limit, an infeasible program may be branched on forever
+                    options={"node_limit": 1000},
                 )
 
                 if not optimizer_solution["success"]:
diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index a0d92d9..ba59657 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -156,6 +156,8 @@ class ToroidalCoords(EMCoords):
                         integrality=integrality,
                         constraints=constraints,
                         bounds=bounds,
+                        # without a limit, an infeasible program may be branched on forever
+                        options={"node_limit": 1000},
                     )
 
                     if not optimizer_solution["success"]:
-- 
2.43.0


From dee8ce18c89c55e9007262f3e2896a51ea8569f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:26 +0000
Subject: [PATCH 17/17] fix: kernels were compiled again at every call and the
 compiled code kept for ever

---
 dreimac/combinatorial.py           | 20 ++++++++++++++++++++
 dreimac/complexprojectivecoords.py |  7 ++++---
 dreimac/toroidalcoords.py          |  8 +++++---
 dreimac/utils.py                   | 12 ++++++------
 4 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/dreimac/combinatorial.py b/dreimac/combinatorial.py
index 3accb8f..ab38b8c 100644
--- a/dreimac/combinatorial.py
+++ b/dreimac/combinatorial.py
@@ -4,6 +4,26 @@ import numpy as np
 from scipy.special import comb
 from numba import jit
 
+_compiled = {}
+
+
+def jit_once(**options):
+    """
+    Like [numba.jit], for functions defined inside other functions. A function without free
+    variables is compiled once per process, and not again each time its definition is
+    executed: compiled code is never freed.
+    """
+
+    def decorate(function):
+        if function.__closure__ is not None:
+            return jit(**options)(function)
+        code = function.__code__
+        if code not in _compiled:
+            _compiled.setdefault(code, jit(**options)(function))
+        return _compiled[code]
+
+    return decorate
+
 
 def combinatorial_number_system_table(maximum_number_vertices, maximum_dimension):
     lookup_table = np.zeros((maximum_number_vertices+1, maximum_dimension + 2), dtype=int)
diff --git a/dreimac/complexprojectivecoords.py b/dreimac/complexprojectivecoords.py
index c6b54a2..ad10b0a 100644
--- a/dreimac/complexprojectivecoords.py
+++ b/dreimac/complexprojectivecoords.py
@@ -10,6 +10,7 @@ from .combinatorial import (
     combinatorial_number_system_table,
     combinatorial_number_system_d1_forward,
     combinatorial_number_system_d2_forward,
+    jit_once,
 )
 
 
@@ -196,7 +197,7 @@ def _two_cocycle_to_tensor(
 
     res = np.zeros((n_points, n_points, n_points))
 
-    @jit(fastmath=True, nopython=True)
+    @jit_once(fastmath=True, nopython=True)
     def _get_res(
         cocycle: np.ndarray,
         dist_mat: np.ndarray,
@@ -242,7 +243,7 @@ def _one_cocycle_to_tensor(
 
     res = np.zeros((n_points, n_points))
 
-    @jit(fastmath=True, nopython=True)
+    @jit_once(fastmath=True, nopython=True)
     def _get_res(
         cocycle: np.ndarray,
         dist_mat: np.ndarray,
@@ -286,7 +287,7 @@ def _sparse_integrate(
 
     class_map0 = np.zeros_like(part_unity.T)
 
-    @jit(nopython=True)
+    @jit_once(nopython=True)
     def _assemble(
         class_map: np.ndarray,
         nu: np.ndarray,
diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index ba59657..ab80724 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -9,6 +9,7 @@ from .emcoords import EMCoords
 from .combinatorial import (
     combinatorial_number_system_table,
     combinatorial_number_system_d1_forward,
+    jit_once,
 )
 
 
@@ -240,7 +241,7 @@ def _make_inner_product(dist_mat, threshold, lookup_table):
     columns = np.empty((max_n_entries,), dtype=int)
     values = np.empty((max_n_entries,), dtype=float)
 
-    @jit(fastmath=True, nopython=True)
+    @jit_once(fastmath=True, nopython=True)
     def _make_inner_product_get_row_columns_values(
         dist_mat: np.ndarray,
         threshold: float,
@@ -289,13 +290,14 @@ def _sparse_integrate(
     n_points = integral.shape[0]
     theta_matrix = np.zeros((n_points, n_points))
 
-    @jit(fastmath=True, nopython=True)
+    @jit_once(fastmath=True, nopython=True)
     def _cocycle_to_matrix(
         dist_mat: np.ndarray,
         threshold: float,
         lookup_table: np.ndarray,
         n_points: int,
         theta_matrix: np.ndarray,
+        harm_rep: np.ndarray,
     ):
         for i in range(n_points):
             for j in range(i + 1, n_points):
@@ -303,7 +305,7 @@ def _sparse_integrate(
                     index = combinatorial_number_system_d1_forward(i, j, lookup_table)
                     theta_matrix[i, j] = harm_rep[index]
 
-    _cocycle_to_matrix(dist_mat, threshold, lookup_table, n_points, theta_matrix)
+    _cocycle_to_matrix(dist_mat, threshold, lookup_table, n_points, theta_matrix, harm_rep)
 
     class_map = integral[membership_function].copy()
     for i in range(class_map.shape[0]):
diff --git a/dreimac/utils.py b/dreimac/utils.py
index 022ae23..222d65d 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -11,12 +11,12 @@ import scipy.sparse as sparse
 from scipy.spatial import KDTree
 from scipy.sparse import csr_matrix
 from scipy.sparse.csgraph import shortest_path
-from numba import jit
 from .combinatorial import (
     combinatorial_number_system_forward,
     combinatorial_number_system_d1_forward,
     combinatorial_number_system_d2_forward,
     number_of_simplices_of_dimension,
+    jit_once,
 )
 
 
@@ -322,7 +322,7 @@ class CohomologyUtils:
         columns = np.empty((max_n_entries,), dtype=np.int32)
         values = np.empty((max_n_entries,), dtype=float)
 
-        @jit(fastmath=True, nopython=True)
+        @jit_once(fastmath=True, nopython=True)
         def _delta0_get_row_columns_values(
             dist_mat: np.ndarray,
             threshold: float,
@@ -370,7 +370,7 @@ class CohomologyUtils:
         columns = np.empty((max_n_entries,), dtype=np.int32)
         values = np.empty((max_n_entries,), dtype=float)
 
-        @jit(fastmath=True, nopython=True)
+        @jit_once(fastmath=True, nopython=True)
         def _delta1_get_row_columns_values(
             dist_mat: np.ndarray,
             threshold: float,
@@ -457,7 +457,7 @@ class CohomologyUtils:
         columns = np.empty((max_n_entries,), dtype=np.int32)
         values = np.empty((max_n_entries,), dtype=float)
 
-        @jit(fastmath=True, nopython=True)
+        @jit_once(fastmath=True, nopython=True)
         def _delta1_get_row_columns_values(
             dist_mat: np.ndarray,
             threshold: float,
@@ -543,7 +543,7 @@ class CohomologyUtils:
         columns = np.empty((max_n_entries,), dtype=np.int32)
         values = np.empty((max_n_entries,), dtype=float)
 
-        @jit(fastmath=True, nopython=True)
+        @jit_once(fastmath=True, nopython=True)
         def _delta2_get_row_columns_values(
             dist_mat: np.ndarray,
             threshold: float,
@@ -1210,7 +1210,7 @@ class GeometryExamples:
         n_points = X.shape[0]
         dist_mat = np.zeros((n_points, n_points))
 
-        @jit(fastmath=True, nopython=True)
+        @jit_once(fastmath=True, nopython=True)
         def _fill_dist_mat(X, dist_mat, rot_mat, prime):
             for i, x in enumerate(X):
                 for j, y in enumerate(X):
-- 
2.43.0

