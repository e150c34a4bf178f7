From 8c3ee8f66a38025968931cd16df6693ef407edb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:06 +0000
Subject: [PATCH 01/97] fix: mesh numbers of diagonal grid matrix have to be
 positive

The grid matrix computed from the transformation matrix to the standardized
cell can have negative diagonal elements (e.g., diag(-1, 1, -1) for triclinic
cells). Mesh numbers were set negative and grid addresses were broken.
---
 phono3py/phonon/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phono3py/phonon/grid.py b/phono3py/phonon/grid.py
index 6f44d72..86c0759 100644
--- a/phono3py/phonon/grid.py
+++ b/phono3py/phonon/grid.py
@@ -791,7 +791,8 @@ class GridMatrix:
         # If grid_matrix is a diagonal matrix, use it as D matrix.
         gm_diag = np.diagonal(_grid_matrix)
         if (np.diag(gm_diag) == _grid_matrix).all() and not force_SNF:
-            self._D_diag = np.array(gm_diag, dtype="int64")
+            # Signs of elements don't matter, but D has to be positive.
+            self._D_diag = np.array(np.abs(gm_diag), dtype="int64")
         else:
             import phono3py._recgrid as recgrid
 
-- 
2.43.0


From 4a263ef2bf947acc4ab282be54d4c32a8dadba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:47 +0000
Subject: [PATCH 02/97] fix: tolerance for BZ surface must not depend on choice
 of Q of SNF

The tolerance to find equivalent points on BZ surface was computed from basis
vectors of microzone given by Q, which can be very long with generalized
regular grid, e.g., of body centred tetragonal crystals. Then non-equivalent
points were found as those on BZ surface, and the number of them can exceed
the size of allocated memory.
---
 c/recgrid.c | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/c/recgrid.c b/c/recgrid.c
index 1fe6f55..c5f7026 100644
--- a/c/recgrid.c
+++ b/c/recgrid.c
@@ -34,6 +34,7 @@
 
 #include "recgrid.h"
 
+#include <math.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -190,8 +191,8 @@ int64_t recgrid_rotate_bz_grid_index(
 
 /* Note: Tolerance in squared distance. */
 double recgrid_get_tolerance_for_BZ_reduction(const RecgridBZGrid *bzgrid) {
-    int64_t i, j;
-    double tolerance;
+    int64_t i, j, k, n, count, num_reduced;
+    double tolerance, dot;
     double length[3];
     double reclatQ[3][3];
 
@@ -200,6 +201,37 @@ double recgrid_get_tolerance_for_BZ_reduction(const RecgridBZGrid *bzgrid) {
             reclatQ[i][j] = bzgrid->reclat[i][0] * bzgrid->Q[0][j] +
                             bzgrid->reclat[i][1] * bzgrid->Q[1][j] +
                             bzgrid->reclat[i][2] * bzgrid->Q[2][j];
+            reclatQ[i][j] /= bzgrid->D_diag[j];
+        }
+    }
+
+    /* Basis vectors of microzone given by Q can be very long. Therefore they
+     * are reduced pairwise so that the tolerance is independent of Q. */
+    for (count = 0; count < 1000; count++) {
+        num_reduced = 0;
+        for (i = 0; i < 3; i++) {
+            for (j = 0; j < 3; j++) {
+                if (i == j) {
+                    continue;
+                }
+                dot = 0;
+                length[j] = 0;
+                for (k = 0; k < 3; k++) {
+                    dot += reclatQ[k][i] * reclatQ[k][j];
+                    length[j] += reclatQ[k][j] * reclatQ[k][j];
+                }
+                if (fabs(dot) < length[j] * (0.5 + 1e-5)) {
+                    continue;
+                }
+                n = lagmat_Nint(dot / length[j]);
+                for (k = 0; k < 3; k++) {
+                    reclatQ[k][i] -= n * reclatQ[k][j];
+                }
+                num_reduced++;
+            }
+        }
+        if (num_reduced == 0) {
+            break;
         }
     }
 
@@ -208,7 +240,6 @@ double recgrid_get_tolerance_for_BZ_reduction(const RecgridBZGrid *bzgrid) {
         for (j = 0; j < 3; j++) {
             length[i] += reclatQ[j][i] * reclatQ[j][i];
         }
-        length[i] /= bzgrid->D_diag[i] * bzgrid->D_diag[i];
     }
     tolerance = length[0];
     for (i = 1; i < 3; i++) {
-- 
2.43.0


From 46ac48868a10862409a3f2bf1b8013a3011d9d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 03/97] fix: rotation of grid points on shifted grid

Rotations of grid points ignored the half-grid shift of BZGrid, so that wrong
grid points were returned when is_shift was given.
---
 phono3py/phonon/grid.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/phono3py/phonon/grid.py b/phono3py/phonon/grid.py
index 86c0759..2fcdbbf 100644
--- a/phono3py/phonon/grid.py
+++ b/phono3py/phonon/grid.py
@@ -977,9 +977,15 @@ def get_grid_points_by_rotations(
         return _get_grid_points_by_rotations(bz_gp, bz_grid, rec_rots)
 
 
+def _rotate_grid_address(address, PS, rotations):
+    """Rotate grid address considering shift in doubled grid."""
+    rot_dadrs = np.dot(rotations, address * 2 + PS)
+    return (rot_dadrs - PS) // 2
+
+
 def _get_grid_points_by_rotations(bz_gp, bz_grid: BZGrid, rotations):
     """Grid point rotations without surface treatment."""
-    rot_adrs = np.dot(rotations, bz_grid.addresses[bz_gp])
+    rot_adrs = _rotate_grid_address(bz_grid.addresses[bz_gp], bz_grid.PS, rotations)
     grgps = get_grid_point_from_address(rot_adrs, bz_grid.D_diag)
     return bz_grid.grg2bzg[grgps]
 
@@ -1017,7 +1023,7 @@ def _get_grid_points_by_bz_rotations_py(bz_gp, bz_grid: BZGrid, rotations):
     indices.
 
     """
-    rot_adrs = np.dot(rotations, bz_grid.addresses[bz_gp])
+    rot_adrs = _rotate_grid_address(bz_grid.addresses[bz_gp], bz_grid.PS, rotations)
     grgps = get_grid_point_from_address(rot_adrs, bz_grid.D_diag)
     bzgps = np.zeros(len(grgps), dtype="int64")
     if bz_grid.store_dense_gp_map:
-- 
2.43.0


From 2ab28a5f8f377973aef3a8bde189effa2b36a747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 04/97] fix: SNF of 3x3 matrix has to satisfy divisibility of
 diagonal elements

E.g., diag(2, 3, 2) was decomposed to diag(2, 1, 6) instead of diag(1, 2, 6).
---
 c/snf3x3.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/snf3x3.c b/c/snf3x3.c
index ef696c2..8b5d051 100644
--- a/c/snf3x3.c
+++ b/c/snf3x3.c
@@ -246,6 +246,9 @@ static void finalize(int64_t A[3][3], int64_t P[3][3], int64_t Q[3][3]) {
     finalize_sort(A, P, Q);
     finalize_disturb(A, Q, 1, 2);
     second(A, P, Q);
+    /* A[1][1] may be no longer divisible by A[0][0], e.g., diag(2, 2, 3). */
+    finalize_disturb(A, Q, 0, 1);
+    first(A, P, Q);
     flip_PQ(P, Q);
 }
 
-- 
2.43.0


From 2be5cc76cb8a995a07d85b547393f2d59704130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 05/97] fix: use reciprocal lattice in selection of shortest G
 of triplets

Reciprocal lattice was not given to the C function that selects q-points of
triplets on BZ surface, i.e., uninitialized memory was used, and computation of
LQD^-1 was incorrect.
---
 c/_phono3py.cpp              |  6 +++++-
 c/phono3py.c                 |  3 ++-
 c/phono3py.h                 |  3 ++-
 c/triplet_grid.c             |  7 ++++---
 phono3py/phonon/grid.py      | 10 ++++++++++
 phono3py/phonon3/triplets.py |  1 +
 6 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/c/_phono3py.cpp b/c/_phono3py.cpp
index a5f9735..76e7ffd 100644
--- a/c/_phono3py.cpp
+++ b/c/_phono3py.cpp
@@ -800,6 +800,7 @@ int64_t py_tpl_get_BZ_triplets_at_q(nb::ndarray<> py_triplets,
                                     nb::ndarray<> py_bz_map,
                                     nb::ndarray<> py_map_triplets,
                                     nb::ndarray<> py_D_diag, nb::ndarray<> py_Q,
+                                    nb::ndarray<> py_reciprocal_lattice,
                                     int64_t bz_grid_type) {
     int64_t(*triplets)[3];
     int64_t(*bz_grid_address)[3];
@@ -808,6 +809,7 @@ int64_t py_tpl_get_BZ_triplets_at_q(nb::ndarray<> py_triplets,
     int64_t num_map_triplets;
     int64_t *D_diag;
     int64_t(*Q)[3];
+    double(*reciprocal_lattice)[3];
     int64_t num_ir;
 
     triplets = (int64_t(*)[3])py_triplets.data();
@@ -817,10 +819,12 @@ int64_t py_tpl_get_BZ_triplets_at_q(nb::ndarray<> py_triplets,
     num_map_triplets = (int64_t)py_map_triplets.shape(0);
     D_diag = (int64_t *)py_D_diag.data();
     Q = (int64_t(*)[3])py_Q.data();
+    reciprocal_lattice = (double(*)[3])py_reciprocal_lattice.data();
 
     num_ir = ph3py_get_BZ_triplets_at_q(triplets, grid_point, bz_grid_address,
                                         bz_map, map_triplets, num_map_triplets,
-                                        D_diag, Q, bz_grid_type);
+                                        D_diag, Q, reciprocal_lattice,
+                                        bz_grid_type);
 
     return num_ir;
 }
diff --git a/c/phono3py.c b/c/phono3py.c
index 25d6e1f..887cedd 100644
--- a/c/phono3py.c
+++ b/c/phono3py.c
@@ -405,7 +405,7 @@ int64_t ph3py_get_BZ_triplets_at_q(
     const int64_t (*bz_grid_addresses)[3], const int64_t *bz_map,
     const int64_t *map_triplets, const int64_t num_map_triplets,
     const int64_t D_diag[3], const int64_t Q[3][3],
-    const int64_t bz_grid_type) {
+    const double reciprocal_lattice[3][3], const int64_t bz_grid_type) {
     RecgridConstBZGrid *bzgrid;
     int64_t i, j, num_ir;
 
@@ -423,6 +423,7 @@ int64_t ph3py_get_BZ_triplets_at_q(
         bzgrid->PS[i] = 0;
         for (j = 0; j < 3; j++) {
             bzgrid->Q[i][j] = Q[i][j];
+            bzgrid->reclat[i][j] = reciprocal_lattice[i][j];
         }
     }
     bzgrid->size = num_map_triplets;
diff --git a/c/phono3py.h b/c/phono3py.h
index 15f2d51..774be24 100644
--- a/c/phono3py.h
+++ b/c/phono3py.h
@@ -170,7 +170,8 @@ int64_t ph3py_get_BZ_triplets_at_q(
     int64_t (*triplets)[3], const int64_t grid_point,
     const int64_t (*bz_grid_addresses)[3], const int64_t *bz_map,
     const int64_t *map_triplets, const int64_t num_map_triplets,
-    const int64_t D_diag[3], const int64_t Q[3][3], const int64_t bz_grid_type);
+    const int64_t D_diag[3], const int64_t Q[3][3],
+    const double reciprocal_lattice[3][3], const int64_t bz_grid_type);
 int64_t ph3py_get_integration_weight(
     double *iw, char *iw_zero, const double *frequency_points,
     const int64_t num_band0, const int64_t relative_grid_address[24][4][3],
diff --git a/c/triplet_grid.c b/c/triplet_grid.c
index c562e8d..de5444e 100644
--- a/c/triplet_grid.c
+++ b/c/triplet_grid.c
@@ -424,9 +424,10 @@ static void get_LQD_inv(double LQD_inv[3][3],
 
     /* LQD^-1 */
     for (i = 0; i < 3; i++) {
-        for (j = 0; j < 3; j++) {
-            for (k = 0; k < 3; k++) {
-                LQD_inv[i][k] =
+        for (k = 0; k < 3; k++) {
+            LQD_inv[i][k] = 0;
+            for (j = 0; j < 3; j++) {
+                LQD_inv[i][k] +=
                     bzgrid->reclat[i][j] * bzgrid->Q[j][k] / bzgrid->D_diag[k];
             }
         }
diff --git a/phono3py/phonon/grid.py b/phono3py/phonon/grid.py
index 2fcdbbf..790df67 100644
--- a/phono3py/phonon/grid.py
+++ b/phono3py/phonon/grid.py
@@ -344,6 +344,16 @@ class BZGrid:
         """
         return self._grg2bzg
 
+    @property
+    def reciprocal_lattice(self):
+        """Reciprocal basis vectors of primitive cell.
+
+        Reciprocal basis vectors in column vectors.
+        shape=(3, 3), dtype='double', order='C'.
+
+        """
+        return self._reciprocal_lattice
+
     @property
     def microzone_lattice(self):
         """Basis vectors of microzone.
diff --git a/phono3py/phonon3/triplets.py b/phono3py/phonon3/triplets.py
index b1c3621..f14d657 100644
--- a/phono3py/phonon3/triplets.py
+++ b/phono3py/phonon3/triplets.py
@@ -335,6 +335,7 @@ def _get_BZ_triplets_at_q(bz_grid_index, bz_grid: BZGrid, map_triplets):
         map_triplets,
         np.array(bz_grid.D_diag, dtype="int64"),
         bz_grid.Q,
+        bz_grid.reciprocal_lattice,
         bz_grid.store_dense_gp_map * 1 + 1,
     )
 
-- 
2.43.0


From 932a16c5ef4cc8ee899a145068972fc615c3f4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 06/97] fix: triplets at grid points on BZ surface with
 store_dense_gp_map=False

---
 c/triplet_grid.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/c/triplet_grid.c b/c/triplet_grid.c
index de5444e..03a1914 100644
--- a/c/triplet_grid.c
+++ b/c/triplet_grid.c
@@ -258,7 +258,7 @@ static void get_BZ_triplets_at_q_type1(int64_t (*triplets)[3],
                                        const RecgridConstBZGrid *bzgrid,
                                        const int64_t *ir_q1_gps,
                                        const int64_t num_ir) {
-    int64_t i, j, gp2, num_gp, num_bzgp, bz0, bz1, bz2;
+    int64_t i, j, gp0, gp2, num_gp, num_bzgp, bz0, bz1, bz2;
     int64_t bzgp[3], G[3];
     int64_t bz_adrs0[3], bz_adrs1[3], bz_adrs2[3];
     const int64_t *gp_map;
@@ -275,6 +275,7 @@ static void get_BZ_triplets_at_q_type1(int64_t (*triplets)[3],
     for (i = 0; i < 3; i++) {
         bz_adrs0[i] = bz_adrs[grid_point][i];
     }
+    gp0 = recgrid_get_grid_index_from_address(bz_adrs0, bzgrid->D_diag);
     num_gp = bzgrid->D_diag[0] * bzgrid->D_diag[1] * bzgrid->D_diag[2];
     num_bzgp = num_gp * 8;
 
@@ -290,13 +291,13 @@ static void get_BZ_triplets_at_q_type1(int64_t (*triplets)[3],
         gp2 = recgrid_get_grid_index_from_address(bz_adrs2, bzgrid->D_diag);
         /* Negative value is the signal to initialize min_d2 later. */
         min_d2 = -1;
-        for (bz0 = 0; bz0 < gp_map[num_bzgp + grid_point + 1] -
-                                gp_map[num_bzgp + grid_point] + 1;
+        for (bz0 = 0; bz0 < gp_map[num_bzgp + gp0 + 1] -
+                                gp_map[num_bzgp + gp0] + 1;
              bz0++) {
             if (bz0 == 0) {
-                bzgp[0] = grid_point;
+                bzgp[0] = gp0;
             } else {
-                bzgp[0] = num_gp + gp_map[num_bzgp + grid_point] + bz0 - 1;
+                bzgp[0] = num_gp + gp_map[num_bzgp + gp0] + bz0 - 1;
             }
             for (bz1 = 0; bz1 < gp_map[num_bzgp + ir_q1_gps[i] + 1] -
                                     gp_map[num_bzgp + ir_q1_gps[i]] + 1;
-- 
2.43.0


From 2cb19b7fed64351e35adf82f9c4087aaea844b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 07/97] fix: do not keep triplets maps of previous grid point

---
 phono3py/phonon3/interaction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 700c4e3..cbae974 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -663,6 +663,9 @@ class Interaction:
         if store_triplets_map:
             self._triplets_map_at_q = triplets_map_at_q
             self._ir_map_at_q = ir_map_at_q
+        else:
+            self._triplets_map_at_q = None
+            self._ir_map_at_q = None
 
     def init_dynamical_matrix(
         self,
-- 
2.43.0


From 549fea6735bc11b800b9895beb2004be826ae75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:05 +0000
Subject: [PATCH 08/97] Revert "fix: use reciprocal lattice in selection of
 shortest G of triplets"

This reverts commit 2be5cc76cb8a995a07d85b547393f2d59704130c.
---
 c/_phono3py.cpp              |  6 +-----
 c/phono3py.c                 |  3 +--
 c/phono3py.h                 |  3 +--
 c/triplet_grid.c             |  7 +++----
 phono3py/phonon/grid.py      | 10 ----------
 phono3py/phonon3/triplets.py |  1 -
 6 files changed, 6 insertions(+), 24 deletions(-)

diff --git a/c/_phono3py.cpp b/c/_phono3py.cpp
index 76e7ffd..a5f9735 100644
--- a/c/_phono3py.cpp
+++ b/c/_phono3py.cpp
@@ -800,7 +800,6 @@ int64_t py_tpl_get_BZ_triplets_at_q(nb::ndarray<> py_triplets,
                                     nb::ndarray<> py_bz_map,
                                     nb::ndarray<> py_map_triplets,
                                     nb::ndarray<> py_D_diag, nb::ndarray<> py_Q,
-                                    nb::ndarray<> py_reciprocal_lattice,
                                     int64_t bz_grid_type) {
     int64_t(*triplets)[3];
     int64_t(*bz_grid_address)[3];
@@ -809,7 +808,6 @@ int64_t py_tpl_get_BZ_triplets_at_q(nb::ndarray<> py_triplets,
     int64_t num_map_triplets;
     int64_t *D_diag;
     int64_t(*Q)[3];
-    double(*reciprocal_lattice)[3];
     int64_t num_ir;
 
     triplets = (int64_t(*)[3])py_triplets.data();
@@ -819,12 +817,10 @@ int64_t py_tpl_get_BZ_triplets_at_q(nb::ndarray<> py_triplets,
     num_map_triplets = (int64_t)py_map_triplets.shape(0);
     D_diag = (int64_t *)py_D_diag.data();
     Q = (int64_t(*)[3])py_Q.data();
-    reciprocal_lattice = (double(*)[3])py_reciprocal_lattice.data();
 
     num_ir = ph3py_get_BZ_triplets_at_q(triplets, grid_point, bz_grid_address,
                                         bz_map, map_triplets, num_map_triplets,
-                                        D_diag, Q, reciprocal_lattice,
-                                        bz_grid_type);
+                                        D_diag, Q, bz_grid_type);
 
     return num_ir;
 }
diff --git a/c/phono3py.c b/c/phono3py.c
index 887cedd..25d6e1f 100644
--- a/c/phono3py.c
+++ b/c/phono3py.c
@@ -405,7 +405,7 @@ int64_t ph3py_get_BZ_triplets_at_q(
     const int64_t (*bz_grid_addresses)[3], const int64_t *bz_map,
     const int64_t *map_triplets, const int64_t num_map_triplets,
     const int64_t D_diag[3], const int64_t Q[3][3],
-    const double reciprocal_lattice[3][3], const int64_t bz_grid_type) {
+    const int64_t bz_grid_type) {
     RecgridConstBZGrid *bzgrid;
     int64_t i, j, num_ir;
 
@@ -423,7 +423,6 @@ int64_t ph3py_get_BZ_triplets_at_q(
         bzgrid->PS[i] = 0;
         for (j = 0; j < 3; j++) {
             bzgrid->Q[i][j] = Q[i][j];
-            bzgrid->reclat[i][j] = reciprocal_lattice[i][j];
         }
     }
     bzgrid->size = num_map_triplets;
diff --git a/c/phono3py.h b/c/phono3py.h
index 774be24..15f2d51 100644
--- a/c/phono3py.h
+++ b/c/phono3py.h
@@ -170,8 +170,7 @@ int64_t ph3py_get_BZ_triplets_at_q(
     int64_t (*triplets)[3], const int64_t grid_point,
     const int64_t (*bz_grid_addresses)[3], const int64_t *bz_map,
     const int64_t *map_triplets, const int64_t num_map_triplets,
-    const int64_t D_diag[3], const int64_t Q[3][3],
-    const double reciprocal_lattice[3][3], const int64_t bz_grid_type);
+    const int64_t D_diag[3], const int64_t Q[3][3], const int64_t bz_grid_type);
 int64_t ph3py_get_integration_weight(
     double *iw, char *iw_zero, const double *frequency_points,
     const int64_t num_band0, const int64_t relative_grid_address[24][4][3],
diff --git a/c/triplet_grid.c b/c/triplet_grid.c
index 03a1914..f1ccc9c 100644
--- a/c/triplet_grid.c
+++ b/c/triplet_grid.c
@@ -425,10 +425,9 @@ static void get_LQD_inv(double LQD_inv[3][3],
 
     /* LQD^-1 */
     for (i = 0; i < 3; i++) {
-        for (k = 0; k < 3; k++) {
-            LQD_inv[i][k] = 0;
-            for (j = 0; j < 3; j++) {
-                LQD_inv[i][k] +=
+        for (j = 0; j < 3; j++) {
+            for (k = 0; k < 3; k++) {
+                LQD_inv[i][k] =
                     bzgrid->reclat[i][j] * bzgrid->Q[j][k] / bzgrid->D_diag[k];
             }
         }
diff --git a/phono3py/phonon/grid.py b/phono3py/phonon/grid.py
index 790df67..2fcdbbf 100644
--- a/phono3py/phonon/grid.py
+++ b/phono3py/phonon/grid.py
@@ -344,16 +344,6 @@ class BZGrid:
         """
         return self._grg2bzg
 
-    @property
-    def reciprocal_lattice(self):
-        """Reciprocal basis vectors of primitive cell.
-
-        Reciprocal basis vectors in column vectors.
-        shape=(3, 3), dtype='double', order='C'.
-
-        """
-        return self._reciprocal_lattice
-
     @property
     def microzone_lattice(self):
         """Basis vectors of microzone.
diff --git a/phono3py/phonon3/triplets.py b/phono3py/phonon3/triplets.py
index f14d657..b1c3621 100644
--- a/phono3py/phonon3/triplets.py
+++ b/phono3py/phonon3/triplets.py
@@ -335,7 +335,6 @@ def _get_BZ_triplets_at_q(bz_grid_index, bz_grid: BZGrid, map_triplets):
         map_triplets,
         np.array(bz_grid.D_diag, dtype="int64"),
         bz_grid.Q,
-        bz_grid.reciprocal_lattice,
         bz_grid.store_dense_gp_map * 1 + 1,
     )
 
-- 
2.43.0


From c717c31137c44c32a07da9704c385ad0da62c93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:30 +0000
Subject: [PATCH 09/97] fix: do not use uninitialized reciprocal lattice in
 search of triplets

---
 c/gridsys.c  | 1 +
 c/phono3py.c | 1 +
 c/recgrid.c  | 2 +-
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/gridsys.c b/c/gridsys.c
index 067ebf6..88d94f6 100644
--- a/c/gridsys.c
+++ b/c/gridsys.c
@@ -238,6 +238,7 @@ int64_t gridsys_get_bz_triplets_at_q(
         bzgrid->PS[i] = 0;
         for (j = 0; j < 3; j++) {
             bzgrid->Q[i][j] = Q[i][j];
+            bzgrid->reclat[i][j] = 0;
         }
     }
     bzgrid->size = num_map_triplets;
diff --git a/c/phono3py.c b/c/phono3py.c
index 25d6e1f..c50aafa 100644
--- a/c/phono3py.c
+++ b/c/phono3py.c
@@ -423,6 +423,7 @@ int64_t ph3py_get_BZ_triplets_at_q(
         bzgrid->PS[i] = 0;
         for (j = 0; j < 3; j++) {
             bzgrid->Q[i][j] = Q[i][j];
+            bzgrid->reclat[i][j] = 0;
         }
     }
     bzgrid->size = num_map_triplets;
diff --git a/c/recgrid.c b/c/recgrid.c
index c5f7026..ff048d4 100644
--- a/c/recgrid.c
+++ b/c/recgrid.c
@@ -220,7 +220,7 @@ double recgrid_get_tolerance_for_BZ_reduction(const RecgridBZGrid *bzgrid) {
                     dot += reclatQ[k][i] * reclatQ[k][j];
                     length[j] += reclatQ[k][j] * reclatQ[k][j];
                 }
-                if (fabs(dot) < length[j] * (0.5 + 1e-5)) {
+                if (fabs(dot) <= length[j] * (0.5 + 1e-5)) {
                     continue;
                 }
                 n = lagmat_Nint(dot / length[j]);
-- 
2.43.0


From a427e105ff55e8babc638aa63eacaaf5ac3fd3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 10/97] fix: Gamma point phonons follow change of
 nac_q_direction

---
 phono3py/phonon3/interaction.py | 10 ++++++++--
 phono3py/phonon3/joint_dos.py   | 12 +++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index cbae974..8a4c1ce 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -369,9 +369,15 @@ class Interaction:
     @nac_q_direction.setter
     def nac_q_direction(self, nac_q_direction):
         if nac_q_direction is None:
-            self._nac_q_direction = None
+            _nac_q_direction = None
         else:
-            self._nac_q_direction = np.array(nac_q_direction, copy=True, dtype="double")
+            _nac_q_direction = np.array(nac_q_direction, copy=True, dtype="double")
+        if self._phonon_done is not None and not np.array_equal(
+            _nac_q_direction, self._nac_q_direction
+        ):
+            # Phonon at Gamma depends on the direction.
+            self._phonon_done[self._bz_grid.gp_Gamma] = 0
+        self._nac_q_direction = _nac_q_direction
 
     def get_nac_q_direction(self):
         """Return q-direction used for NAC at q->0."""
diff --git a/phono3py/phonon3/joint_dos.py b/phono3py/phonon3/joint_dos.py
index 37c32a2..cbb2657 100644
--- a/phono3py/phonon3/joint_dos.py
+++ b/phono3py/phonon3/joint_dos.py
@@ -81,7 +81,6 @@ class JointDos:
         self._bz_grid = bz_grid
         self._fc2 = fc2
         self._nac_params = nac_params
-        self.nac_q_direction = nac_q_direction
         self._sigma = None
         self.sigma = sigma
         self._sigma_cutoff = sigma_cutoff
@@ -103,6 +102,7 @@ class JointDos:
 
         self._tetrahedron_method = None
         self._phonon_done = None
+        self.nac_q_direction = nac_q_direction
         self._done_nac_at_gamma = False  # Phonon at Gamma is calculated with NAC.
         self._frequencies = None
         self._eigenvectors = None
@@ -185,9 +185,15 @@ class JointDos:
     @nac_q_direction.setter
     def nac_q_direction(self, nac_q_direction=None):
         if nac_q_direction is None:
-            self._nac_q_direction = None
+            _nac_q_direction = None
         else:
-            self._nac_q_direction = np.array(nac_q_direction, dtype="double")
+            _nac_q_direction = np.array(nac_q_direction, dtype="double")
+        if self._phonon_done is not None and not np.array_equal(
+            _nac_q_direction, self._nac_q_direction
+        ):
+            # Phonon at Gamma depends on the direction.
+            self._phonon_done[self._bz_grid.gp_Gamma] = 0
+        self._nac_q_direction = _nac_q_direction
 
     def set_nac_q_direction(self, nac_q_direction=None):
         """Set q-direction for NAC."""
-- 
2.43.0


From eb1cb061b80891948cde087e3623afb46add33c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 11/97] fix: refuse phonon data of inconsistent grid addresses

---
 phono3py/phonon3/interaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 8a4c1ce..9e60026 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -705,7 +705,7 @@ class Interaction:
                 "Input grid address size is inconsistent. Setting phonons failed."
             )
 
-        if (self._bz_grid.addresses - bz_grid_addresses).all():
+        if (self._bz_grid.addresses - bz_grid_addresses).any():
             raise RuntimeError(
                 "Input grid addresses are inconsistent. Setting phonons failed."
             )
-- 
2.43.0


From 20026e2b7725ff61e3e933efa1da0899f82d5b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:19 +0000
Subject: [PATCH 12/97] fix: NAC q-direction by Wang's method is used only at
 Gamma point

---
 c/phonon.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/c/phonon.c b/c/phonon.c
index e0f707d..1037fa8 100644
--- a/c/phonon.c
+++ b/c/phonon.c
@@ -188,7 +188,7 @@ static void get_undone_phonons(
     const double (*born)[3][3], const double dielectric[3][3],
     const double reciprocal_lattice[3][3], const double *q_direction,
     const double nac_factor, const char uplo) {
-    int64_t i, j, gp, num_band;
+    int64_t i, j, gp, num_band, is_gamma;
     int64_t is_nac, info;
     double q[3];
     double *freqs_tmp;
@@ -196,7 +196,7 @@ static void get_undone_phonons(
     num_band = num_patom * 3;
 
 #ifdef _OPENMP
-#pragma omp parallel for private(j, q, gp, is_nac)
+#pragma omp parallel for private(j, q, gp, is_nac, is_gamma)
 #endif
     for (i = 0; i < num_undone_grid_points; i++) {
         gp = undone_grid_points[i];
@@ -207,10 +207,14 @@ static void get_undone_phonons(
         }
 
         is_nac = needs_nac(born, grid_address, gp, q_direction);
+        /* q_direction is only for Gamma point. */
+        is_gamma = (grid_address[gp][0] == 0 && grid_address[gp][1] == 0 &&
+                    grid_address[gp][2] == 0);
         get_dynamical_matrix(eigenvectors + num_band * num_band * gp, q, fc2,
                              masses_fc2, p2s_fc2, s2p_fc2, multi_fc2, num_patom,
                              num_satom, svecs_fc2, is_nac, born, dielectric,
-                             reciprocal_lattice, q_direction, nac_factor);
+                             reciprocal_lattice, is_gamma ? q_direction : NULL,
+                             nac_factor);
     }
 
 #ifndef NO_INCLUDE_LAPACKE
-- 
2.43.0


From 8458ed9964302eded3b107896b93545b60947387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:59 +0000
Subject: [PATCH 13/97] fix: symmetrized interaction strength with subset of
 bands

---
 c/interaction.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/c/interaction.c b/c/interaction.c
index ca1ea7c..70f5704 100644
--- a/c/interaction.c
+++ b/c/interaction.c
@@ -236,10 +236,26 @@ static void real_to_normal_sym_q(
     int64_t band_ex[3];
     double q_vecs_ex[3][3];
     double *fc3_normal_squared_ex;
+    int64_t *all_bands;
+    int64_t(*g_pos_ex)[4];
 
     fc3_normal_squared_ex =
         (double *)malloc(sizeof(double) * num_band * num_band * num_band);
 
+    /* All band triplets are necessary since phonons are exchanged. */
+    all_bands = (int64_t *)malloc(sizeof(int64_t) * num_band);
+    g_pos_ex = (int64_t(*)[4])malloc(sizeof(int64_t[4]) * num_band * num_band *
+                                     num_band);
+    for (i = 0; i < num_band; i++) {
+        all_bands[i] = i;
+    }
+    for (i = 0; i < num_band * num_band * num_band; i++) {
+        g_pos_ex[i][0] = i / (num_band * num_band);
+        g_pos_ex[i][1] = (i / num_band) % num_band;
+        g_pos_ex[i][2] = i % num_band;
+        g_pos_ex[i][3] = i;
+    }
+
     for (i = 0; i < num_band0 * num_band * num_band; i++) {
         fc3_normal_squared[i] = 0;
     }
@@ -251,12 +267,12 @@ static void real_to_normal_sym_q(
             }
         }
         real_to_normal(
-            fc3_normal_squared_ex, g_pos, num_g_pos,
+            fc3_normal_squared_ex, g_pos_ex, num_band * num_band * num_band,
             freqs[index_exchange[i][0]], freqs[index_exchange[i][1]],
             freqs[index_exchange[i][2]], eigvecs[index_exchange[i][0]],
             eigvecs[index_exchange[i][1]], eigvecs[index_exchange[i][2]], fc3,
             is_compact_fc3, q_vecs_ex, /* q0, q1, q2 */
-            atom_triplets, masses, band_indices, num_band, cutoff_frequency,
+            atom_triplets, masses, all_bands, num_band, cutoff_frequency,
             triplet_index, num_triplets, openmp_per_triplets);
         for (j = 0; j < num_band0; j++) {
             for (k = 0; k < num_band; k++) {
@@ -278,4 +294,9 @@ static void real_to_normal_sym_q(
     }
 
     free(fc3_normal_squared_ex);
+    fc3_normal_squared_ex = NULL;
+    free(all_bands);
+    all_bands = NULL;
+    free(g_pos_ex);
+    g_pos_ex = NULL;
 }
-- 
2.43.0


From adb7070627743e7d9c02c8ddc5e6cee732cc6dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:35 +0000
Subject: [PATCH 14/97] fix: G vector in Python implementation of
 real_to_reciprocal

---
 phono3py/phonon3/real_to_reciprocal.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/phono3py/phonon3/real_to_reciprocal.py b/phono3py/phonon3/real_to_reciprocal.py
index cafa700..ba1f2bb 100644
--- a/phono3py/phonon3/real_to_reciprocal.py
+++ b/phono3py/phonon3/real_to_reciprocal.py
@@ -69,9 +69,7 @@ class RealToReciprocal:
 
     def _real_to_reciprocal(self):
         num_patom = len(self._primitive)
-        sum_triplets = np.where(
-            np.all(self._triplet != 0, axis=0), self._triplet.sum(axis=0), 0
-        )
+        sum_triplets = self._triplet.sum(axis=0)
         sum_q = sum_triplets.astype("double") / self._mesh
         for i in range(num_patom):
             for j in range(num_patom):
-- 
2.43.0


From e7db37beae54eb55e4c37425b7b6c6c654562fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 15/97] fix: generalized grid in Python implementation of
 interaction strength

---
 phono3py/phonon3/interaction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 9e60026..5a526ff 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -1000,7 +1000,7 @@ class Interaction:
 
     def _run_py(self):
         r2r = RealToReciprocal(
-            self._fc3, self._primitive, self.mesh_numbers, symprec=self._symprec
+            self._fc3, self._primitive, np.ones(3, dtype="int64"), symprec=self._symprec
         )
         r2n = ReciprocalToNormal(
             self._primitive,
@@ -1012,7 +1012,7 @@ class Interaction:
 
         for i, grid_triplet in enumerate(self._triplets_at_q):
             print("%d / %d" % (i + 1, len(self._triplets_at_q)))
-            r2r.run(self._bz_grid.addresses[grid_triplet])
+            r2r.run(np.dot(self._bz_grid.addresses[grid_triplet], self._bz_grid.QDinv.T))
             fc3_reciprocal = r2r.get_fc3_reciprocal()
             for gp in grid_triplet:
                 self._run_phonon_solver_py(gp)
-- 
2.43.0


From 1c88d51a98592c68d8da4e0efc9c3616b83c8e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:31 +0000
Subject: [PATCH 16/97] fix: detailed linewidths of several smearing widths

---
 phono3py/phonon3/imag_self_energy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phono3py/phonon3/imag_self_energy.py b/phono3py/phonon3/imag_self_energy.py
index 5df9a1c..05c7e56 100644
--- a/phono3py/phonon3/imag_self_energy.py
+++ b/phono3py/phonon3/imag_self_energy.py
@@ -866,8 +866,8 @@ def _get_imag_self_energy_at_gp(
                     'self energy is written in\n"%s".' % full_filename
                 )
 
-        if return_gamma_detail:
-            detailed_gamma.append(detailed_gamma_at_gp)
+    if return_gamma_detail:
+        detailed_gamma.append(detailed_gamma_at_gp)
 
 
 def _get_imag_self_energy_at_sigma(
@@ -897,7 +897,7 @@ def _get_imag_self_energy_at_sigma(
             ise.run()
             gamma[j, k, i] = ise.imag_self_energy
             if write_gamma_detail or return_gamma_detail:
-                detailed_gamma_at_gp[k] = ise.detailed_imag_self_energy
+                detailed_gamma_at_gp_at_j[k] = ise.detailed_imag_self_energy
     else:
         run_ise_at_frequency_points_batch(
             i,
-- 
2.43.0


From 1017761f783f5c52ef7c9aa860e1335b8318e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:00 +0000
Subject: [PATCH 17/97] fix: RealSelfEnergy.frequency_points can be set back to
 None

---
 phono3py/phonon3/real_self_energy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phono3py/phonon3/real_self_energy.py b/phono3py/phonon3/real_self_energy.py
index 595c985..3218342 100644
--- a/phono3py/phonon3/real_self_energy.py
+++ b/phono3py/phonon3/real_self_energy.py
@@ -216,7 +216,10 @@ class RealSelfEnergy:
 
     @frequency_points.setter
     def frequency_points(self, frequency_points):
-        self._frequency_points = np.array(frequency_points, dtype="double")
+        if frequency_points is None:
+            self._frequency_points = None
+        else:
+            self._frequency_points = np.array(frequency_points, dtype="double")
 
     def _run_with_band_indices(self):
         if self._lang == "C":
-- 
2.43.0


From cb976bde274c93c5764ea16681ce0e8f24fe2537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:01 +0000
Subject: [PATCH 18/97] fix: output of run_spectral_function without files and
 of several band sets

---
 phono3py/phonon3/spectral_function.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/phono3py/phonon3/spectral_function.py b/phono3py/phonon3/spectral_function.py
index 95f4de3..d4527ae 100644
--- a/phono3py/phonon3/spectral_function.py
+++ b/phono3py/phonon3/spectral_function.py
@@ -131,12 +131,14 @@ def run_spectral_function(
     for i, gp in enumerate(spf):
         frequencies = interaction.get_phonons()[0]
         for sigma_i, sigma in enumerate(spf.sigmas):
-            for t, spf_at_t in zip(temperatures, spf.spectral_functions[sigma_i, :, i]):
-                for j, bi in enumerate(band_indices):
-                    pos = 0
-                    for k in range(j):
-                        pos += len(band_indices[k])
-                    if write_txt:
+            if write_txt:
+                for t, spf_at_t in zip(
+                    temperatures, spf.spectral_functions[sigma_i, :, i]
+                ):
+                    for j, bi in enumerate(band_indices):
+                        pos = 0
+                        for k in range(j):
+                            pos += len(band_indices[k])
                         filename = write_spectral_function_at_grid_point(
                             gp,
                             bi,
@@ -148,13 +150,13 @@ def run_spectral_function(
                             filename=output_filename,
                             is_mesh_symmetry=interaction.is_mesh_symmetry,
                         )
-                    if log_level:
-                        print(f'Spectral functions were written to "{filename}".')
+                        if log_level:
+                            print(f'Spectral functions were written to "{filename}".')
 
             if write_hdf5:
                 filename = write_spectral_function_to_hdf5(
                     gp,
-                    bi,
+                    interaction.band_indices,
                     temperatures,
                     spf.spectral_functions[sigma_i, :, i],
                     spf.shifts[sigma_i, :, i],
@@ -167,10 +169,9 @@ def run_spectral_function(
                     all_band_exist=all_bands_exist(interaction),
                     filename=output_filename,
                 )
-
-            if log_level:
-                print(f'Spectral functions were stored in "{filename}".')
-                sys.stdout.flush()
+                if log_level:
+                    print(f'Spectral functions were stored in "{filename}".')
+                    sys.stdout.flush()
 
     return spf
 
-- 
2.43.0


From f279282342cab9f6255ff38a457d92a54076ef4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:01 +0000
Subject: [PATCH 19/97] fix: text files of real self energies with default
 epsilon in the list

---
 phono3py/phonon3/real_self_energy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phono3py/phonon3/real_self_energy.py b/phono3py/phonon3/real_self_energy.py
index 3218342..46d57dc 100644
--- a/phono3py/phonon3/real_self_energy.py
+++ b/phono3py/phonon3/real_self_energy.py
@@ -689,7 +689,10 @@ def write_real_self_energy(
             RealSelfEnergy.default_epsilon,
         ]
     else:
-        _epsilons = epsilons
+        _epsilons = [
+            RealSelfEnergy.default_epsilon if epsilon is None else epsilon
+            for epsilon in epsilons
+        ]
 
     for epsilon, rse_temps in zip(_epsilons, real_self_energy):
         for t, rse_gps in zip(temperatures, rse_temps):
-- 
2.43.0


From 4fadb8fa637f504031cc5a2787c47a95c7fd2336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:16 +0000
Subject: [PATCH 20/97] fix: initialize Phono3pyJointDos on the given mesh

---
 phono3py/api_jointdos.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/phono3py/api_jointdos.py b/phono3py/api_jointdos.py
index 33b08da..881f336 100644
--- a/phono3py/api_jointdos.py
+++ b/phono3py/api_jointdos.py
@@ -99,6 +99,7 @@ class Phono3pyJointDos:
         self._log_level = log_level
 
         self._bz_grid = None
+        self._jdos = None
         self._joint_dos = None
         self._num_frequency_points_in_batch = num_points_in_batch
         self._frequency_step = frequency_step
@@ -157,9 +158,14 @@ class Phono3pyJointDos:
             SNF_coordinates=self._SNF_coordinates,
             store_dense_gp_map=True,
         )
+        self._jdos = None  # Needs initialize() on the new grid.
 
     def initialize(self, mesh_numbers):
         """Initialize JointDos."""
+        if self._log_level:
+            print("Generating grid system ... ", end="", flush=True)
+
+        self.mesh_numbers = mesh_numbers
         self._jdos = JointDos(
             self._primitive,
             self._supercell,
@@ -174,10 +180,6 @@ class Phono3pyJointDos:
             filename=self._filename,
             log_level=self._log_level,
         )
-        if self._log_level:
-            print("Generating grid system ... ", end="", flush=True)
-
-        self.mesh_numbers = mesh_numbers
 
         if self._log_level:
             if self._bz_grid.grid_matrix is None:
@@ -195,6 +197,10 @@ class Phono3pyJointDos:
 
     def run(self, grid_points, write_jdos=False):
         """Calculate joint-density-of-states."""
+        if self._jdos is None:
+            msg = "Phono3pyJointDos.initialize has to be called before running."
+            raise RuntimeError(msg)
+
         if self._log_level:
             print(
                 "--------------------------------- Joint DOS "
-- 
2.43.0


From 51a6eba28405589ec06cc05cf8090221593c8acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:16 +0000
Subject: [PATCH 21/97] fix: write joint density of states at all temperatures

---
 phono3py/file_IO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 62d43c4..8f3ec56 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -524,7 +524,7 @@ def write_joint_dos(
         )
     else:
         for jdos_at_t, t in zip(jdos, temperatures):
-            return _write_joint_dos_at_t(
+            filename_at_t = _write_joint_dos_at_t(
                 gp,
                 mesh,
                 frequencies,
@@ -534,6 +534,7 @@ def write_joint_dos(
                 filename=filename,
                 is_mesh_symmetry=is_mesh_symmetry,
             )
+        return filename_at_t
 
 
 def _write_joint_dos_at_t(
-- 
2.43.0


From c45db4882a1b916d2d213b644367243b350dfa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:16 +0000
Subject: [PATCH 22/97] fix: JointDos.get_mesh_numbers

---
 phono3py/phonon3/joint_dos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/phonon3/joint_dos.py b/phono3py/phonon3/joint_dos.py
index cbb2657..ba0497a 100644
--- a/phono3py/phonon3/joint_dos.py
+++ b/phono3py/phonon3/joint_dos.py
@@ -175,7 +175,7 @@ class JointDos:
     def get_mesh_numbers(self):
         """Return mesh numbers by three integer values."""
         warnings.warn("Use attribute, mesh_numbers", DeprecationWarning, stacklevel=2)
-        return self.mesh
+        return self.mesh_numbers
 
     @property
     def nac_q_direction(self):
-- 
2.43.0


From 52f147c3130c4bbc857f4bb1e969ddea3a28fd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:26 +0000
Subject: [PATCH 23/97] fix: subset of bands and cutoff frequency in Python
 implementation of isotope scattering

---
 phono3py/other/isotope.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/phono3py/other/isotope.py b/phono3py/other/isotope.py
index 5903c8a..6f0b226 100644
--- a/phono3py/other/isotope.py
+++ b/phono3py/other/isotope.py
@@ -346,9 +346,12 @@ class Isotope:
             self._set_integration_weights(lang="Py")
 
         t_inv = []
-        for bi in self._band_indices:
+        for i, bi in enumerate(self._band_indices):
             vec0 = self._eigenvectors[self._grid_point][:, bi].conj()
             f0 = self._frequencies[self._grid_point][bi]
+            if f0 < self._cutoff_frequency:
+                t_inv.append(0.0)
+                continue
             ti_sum = 0.0
             for gp in self._bz_grid.grg2bzg:
                 for j, (f, vec) in enumerate(
@@ -361,7 +364,7 @@ class Isotope:
                         * self._mass_variances
                     )
                     if self._sigma is None:
-                        ti_sum += ti_sum_band * self._integration_weights[gp, bi, j]
+                        ti_sum += ti_sum_band * self._integration_weights[gp, i, j]
                     else:
                         ti_sum += ti_sum_band * gaussian(f0 - f, self._sigma)
             t_inv.append(np.pi / 2 / np.prod(self._bz_grid.D_diag) * f0**2 * ti_sum)
-- 
2.43.0


From 498736e99b99392775cc1a744a2213f8f8eaf3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:38 +0000
Subject: [PATCH 24/97] fix: average degenerate columns of reducible collision
 matrix at all grid points

---
 phono3py/conductivity/direct_solution.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index 4e689c5..b9f82b2 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -762,7 +762,12 @@ class ConductivityLBTEBase(ConductivityBase):
                     for j in bi_set:
                         col_mat[:, :, i, j, :, :, :, :] = sum_col
 
-        for i, gp in enumerate(self._ir_grid_points):
+        # Columns of the reducible collision matrix run over all grid points.
+        if self._is_reducible_collision_matrix:
+            column_grid_points = self._pp.bz_grid.grg2bzg
+        else:
+            column_grid_points = self._ir_grid_points
+        for i, gp in enumerate(column_grid_points):
             freqs = self._frequencies[gp]
             deg_sets = degenerate_sets(freqs)
             for dset in deg_sets:
-- 
2.43.0


From e874971c9a449fad97d8636eea189d512f49c902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:38 +0000
Subject: [PATCH 25/97] fix: average reducible collision matrix by degeneracy
 without kappa stars

---
 phono3py/conductivity/direct_solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index b9f82b2..56adb50 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -541,8 +541,8 @@ class ConductivityLBTEBase(ConductivityBase):
         if self._log_level:
             print(f"- Collision matrix shape {self._collision_matrix.shape}")
         if self._is_reducible_collision_matrix:
+            self._average_collision_matrix_by_degeneracy()
             if self._is_kappa_star:
-                self._average_collision_matrix_by_degeneracy()
                 num_mesh_points = np.prod(self._pp.mesh_numbers)
                 num_rot = len(self._point_operations)
                 rot_grid_points = np.zeros((num_rot, num_mesh_points), dtype="int64")
-- 
2.43.0


From e4909be6a01f0155ecf0823d491a72bcd3c820d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:38 +0000
Subject: [PATCH 26/97] fix: frequencies of grid points in RTA of reducible
 collision matrix

---
 phono3py/conductivity/direct_solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index 56adb50..8f55172 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -1032,7 +1032,7 @@ class ConductivityLBTEBase(ConductivityBase):
         )
 
         for gp in range(num_mesh_points):
-            frequencies = self._frequencies[gp]
+            frequencies = self._frequencies[self._pp.bz_grid.grg2bzg[gp]]
             for j, f in enumerate(frequencies):
                 if f > self._pp.cutoff_frequency:
                     i_mode = gp * num_band + j
-- 
2.43.0


From 16eb8c30594bb1cfbf0fa81fabf5ca4b8b19087b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:38 +0000
Subject: [PATCH 27/97] fix: grid points of averaged strengths in reducible
 direct solution

---
 phono3py/conductivity/direct_solution.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index 8f55172..f42b756 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -519,7 +519,11 @@ class ConductivityLBTEBase(ConductivityBase):
                 self._collision.run_interaction(is_full_pp=self._is_full_pp)
 
             if self._is_full_pp and j == 0:
-                self._averaged_pp_interaction[i_gp] = self._pp.averaged_interaction
+                if self._is_reducible_collision_matrix:
+                    i_pp = self._pp.bz_grid.bzg2grg[self._grid_points[i_gp]]
+                else:
+                    i_pp = i_gp
+                self._averaged_pp_interaction[i_pp] = self._pp.averaged_interaction
 
             for k, t in enumerate(self._temperatures):
                 self._collision.temperature = t
@@ -642,6 +646,9 @@ class ConductivityLBTEBase(ConductivityBase):
             self._gv[ir_gp] = 0
             gamma_irgp = self._gamma[:, :, ir_gp, :].copy()
             self._gamma[:, :, ir_gp, :] = 0
+            if self._is_full_pp:
+                ave_pp_irgp = self._averaged_pp_interaction[ir_gp].copy()
+                self._averaged_pp_interaction[ir_gp] = 0
             multi = (rot_grid_points[:, ir_gp] == ir_gp).sum()
             if self._is_isotope:
                 gamma_iso_irgp = self._gamma_iso[:, ir_gp, :].copy()
@@ -651,6 +658,8 @@ class ConductivityLBTEBase(ConductivityBase):
                 self._gamma[:, :, gp_r, :] += gamma_irgp / multi
                 if self._is_isotope:
                     self._gamma_iso[:, gp_r, :] += gamma_iso_irgp / multi
+                if self._is_full_pp:
+                    self._averaged_pp_interaction[gp_r] += ave_pp_irgp / multi
                 self._cv[:, gp_r, :] += cv_irgp / multi
                 self._gv[gp_r] += np.dot(gv_irgp, r.T) / multi
 
@@ -1172,11 +1181,12 @@ class ConductivityLBTEBase(ConductivityBase):
         gp = self._grid_points[i]
         frequencies = self._frequencies[gp]
         if self._is_reducible_collision_matrix:
-            gv = self._gv[self._pp.bz_grid.bzg2grg[gp]]
+            i_data = self._pp.bz_grid.bzg2grg[gp]
         else:
-            gv = self._gv[i]
+            i_data = i
+        gv = self._gv[i_data]
         if self._is_full_pp:
-            ave_pp = self._averaged_pp_interaction[i]
+            ave_pp = self._averaged_pp_interaction[i_data]
             text = "Frequency     group velocity (x, y, z)     |gv|       Pqj"
         else:
             text = "Frequency     group velocity (x, y, z)     |gv|"
-- 
2.43.0


From 77d8a8e04e66f2ce38845f6d1216f99cd6f0d5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:46 +0000
Subject: [PATCH 28/97] fix: modes below cutoff removed contributions of the
 other modes in Kubo conductivity

---
 phono3py/conductivity/rta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index 1771f5e..b1c2ab3 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -929,7 +929,7 @@ class ConductivityKuboRTA(ConductivityKuboMixIn, ConductivityRTABase):
         cvm = self._cv_mat[k, i_gp]
         for j_band, freq in enumerate(frequencies):
             if freq < self._pp.cutoff_frequency:
-                return
+                continue
 
             g = g_sum[i_band] + g_sum[j_band]
             for i_pair, _ in enumerate(
-- 
2.43.0


From 1b5f2107fe9bb7111c82fe0fb4f525bd66b62302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:46 +0000
Subject: [PATCH 29/97] fix: nan in Wigner conductivity by modes of zero
 linewidth

---
 phono3py/conductivity/rta.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index b1c2ab3..0666659 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -748,6 +748,9 @@ class ConductivityWignerRTA(ConductivityWignerMixIn, ConductivityRTABase):
                             ):
                                 hbar_gamma_eV_s1 = 2.0 * g_sum[s1] * THzToEv
                                 hbar_gamma_eV_s2 = 2.0 * g_sum[s2] * THzToEv
+                                if hbar_gamma_eV_s1 + hbar_gamma_eV_s2 <= 0:
+                                    # No contribution without linewidths (0/0)
+                                    continue
                                 #
                                 lorentzian_divided_by_hbar = (
                                     0.5 * (hbar_gamma_eV_s1 + hbar_gamma_eV_s2)
-- 
2.43.0


From 662ff4a802a53289756894229e95cc39cb1bfe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:29 +0000
Subject: [PATCH 30/97] fix: Kubo heat capacities at low temperatures

---
 phono3py/conductivity/kubo.py           | 4 ++--
 phono3py/phonon/heat_capacity_matrix.py | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/phono3py/conductivity/kubo.py b/phono3py/conductivity/kubo.py
index 34da628..75b3997 100644
--- a/phono3py/conductivity/kubo.py
+++ b/phono3py/conductivity/kubo.py
@@ -35,7 +35,7 @@
 # POSSIBILITY OF SUCH DAMAGE.
 
 import numpy as np
-from phonopy.units import Kb, THzToEv
+from phonopy.units import THzToEv
 
 from phono3py.phonon.group_velocity_matrix import GroupVelocityMatrix
 from phono3py.phonon.heat_capacity_matrix import mode_cv_matrix
@@ -75,7 +75,7 @@ class ConductivityKuboMixIn:
         cutoff = self._pp.cutoff_frequency * THzToEv
 
         for i_temp, temp in enumerate(self._temperatures):
-            if (freqs / (temp * Kb) > 100).any():
+            if temp <= 0:
                 continue
             cvm = mode_cv_matrix(temp, freqs, cutoff=cutoff)
             self._cv_mat[i_temp, i_data] = cvm[self._pp.band_indices, :]
diff --git a/phono3py/phonon/heat_capacity_matrix.py b/phono3py/phonon/heat_capacity_matrix.py
index 05056de..967c97f 100644
--- a/phono3py/phonon/heat_capacity_matrix.py
+++ b/phono3py/phonon/heat_capacity_matrix.py
@@ -70,12 +70,14 @@ def mode_cv_matrix(temp, freqs, cutoff=1e-4):
     x = freqs / Kb / temp
     shape = (len(freqs), len(freqs))
     cvm = np.zeros(shape, dtype="double", order="C")
+    # Clipped to avoid overflow, where occupation numbers are virtually zero.
+    n = 1 / (np.exp(np.minimum(x, 500)) - 1)
     for i, j in np.ndindex(shape):
         if abs(freqs[i] - freqs[j]) < cutoff:
-            cvm[i, j] = mode_cv(temp, freqs[i])
+            if x[i] < 100:
+                cvm[i, j] = mode_cv(temp, freqs[i])
             continue
         sub = x[i] - x[j]
         add = x[i] + x[j]
-        n_inv = np.exp([x[i], x[j], sub]) - 1
-        cvm[i, j] = Kb * n_inv[2] / sub * (add / 2) ** 2 / n_inv[0] * (1 / n_inv[1] + 1)
+        cvm[i, j] = Kb * (n[j] - n[i]) / sub * (add / 2) ** 2
     return cvm
-- 
2.43.0


From 3f0649b4a6a41aab23d7537614ed6b3de8e7896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:45 +0000
Subject: [PATCH 31/97] fix: group velocity matrices symmetrized without
 rotating eigenvectors

---
 phono3py/phonon/group_velocity_matrix.py | 39 +++---------------------
 1 file changed, 5 insertions(+), 34 deletions(-)

diff --git a/phono3py/phonon/group_velocity_matrix.py b/phono3py/phonon/group_velocity_matrix.py
index 1f07a4d..0d3544e 100644
--- a/phono3py/phonon/group_velocity_matrix.py
+++ b/phono3py/phonon/group_velocity_matrix.py
@@ -38,7 +38,6 @@ import numpy as np
 from phonopy.phonon.degeneracy import degenerate_sets
 from phonopy.phonon.group_velocity import GroupVelocity
 from phonopy.units import VaspToTHz
-from phonopy.utils import similarity_transformation
 
 
 class GroupVelocityMatrix(GroupVelocity):
@@ -150,40 +149,12 @@ class GroupVelocityMatrix(GroupVelocity):
             ddm = ddm * (self._factor**2)
             gvm[i] = np.dot(rot_eigvecs.T.conj(), np.dot(ddm, rot_eigvecs))
 
-        if self._perturbation is None:
-            if self._symmetry is None:
-                return gvm
-            else:
-                return self._symmetrize_group_velocity_matrix(gvm, q)
-        else:
-            return gvm
-
-    def _symmetrize_group_velocity_matrix(self, gvm, q):
-        """Symmetrize obtained group velocity matrices.
-
-        The following symmetries are applied:
-            1. site symmetries
-            2. band hermicity
-
-        """
-        # site symmetries
-        rotations = []
-        for r in self._symmetry.reciprocal_operations:
-            q_in_BZ = q - np.rint(q)
-            diff = q_in_BZ - np.dot(r, q_in_BZ)
-            if (np.abs(diff) < self._symmetry.tolerance).all():
-                rotations.append(r)
-
-        gvm_sym = np.zeros_like(gvm)
-        for r in rotations:
-            r_cart = similarity_transformation(self._reciprocal_lattice, r)
-            gvm_sym += np.einsum("ij,jkl->ikl", r_cart, gvm)
-        gvm_sym = gvm_sym / len(rotations)
-
         # band hermicity
-        gvm_sym = (gvm_sym + gvm_sym.transpose(0, 2, 1).conj()) / 2
-
-        return gvm_sym
+        #
+        # The off-diagonal elements depend on phases (and in degenerate sets,
+        # directions) of eigenvectors, by which matrices rotated by site
+        # symmetries can not be averaged.
+        return (gvm + gvm.transpose(0, 2, 1).conj()) / 2
 
     def _rot_eigsets(self, ddms, eigsets):
         """Treat degeneracy.
-- 
2.43.0


From 5be5e02eafdc26ba16d4a1e0323a165cf406784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:45 +0000
Subject: [PATCH 32/97] fix: cutoff frequency used as degeneracy tolerance in
 Kubo heat capacities

---
 phono3py/conductivity/kubo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phono3py/conductivity/kubo.py b/phono3py/conductivity/kubo.py
index 75b3997..0637e1f 100644
--- a/phono3py/conductivity/kubo.py
+++ b/phono3py/conductivity/kubo.py
@@ -72,12 +72,12 @@ class ConductivityKuboMixIn:
         """
         irgp = self._grid_points[i_gp]
         freqs = self._frequencies[irgp] * THzToEv
-        cutoff = self._pp.cutoff_frequency * THzToEv
+        degeneracy_tolerance = 1e-4 * THzToEv
 
         for i_temp, temp in enumerate(self._temperatures):
             if temp <= 0:
                 continue
-            cvm = mode_cv_matrix(temp, freqs, cutoff=cutoff)
+            cvm = mode_cv_matrix(temp, freqs, cutoff=degeneracy_tolerance)
             self._cv_mat[i_temp, i_data] = cvm[self._pp.band_indices, :]
 
     def _set_velocities(self, i_gp, i_data):
-- 
2.43.0


From b252bcd0d2e56a28f39b2f585afce9ff0d02b96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:59 +0000
Subject: [PATCH 33/97] fix: total conductivities of Wigner direct solution
 were never set

---
 phono3py/conductivity/direct_solution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index f42b756..58c6e7a 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -1589,6 +1589,10 @@ class ConductivityWignerLBTE(ConductivityWignerMixIn, ConductivityLBTEBase):
                     self._collision_eigenvalues[j, k] = w
 
                     self._set_kappa(j, k, weights)
+                    self._kappa_TOT_RTA[j, k] = self._kappa_P_RTA[j, k] + self._kappa_C[j, k]
+                    self._kappa_TOT_exact[j, k] = (
+                        self._kappa_P_exact[j, k] + self._kappa_C[j, k]
+                    )
 
                     if self._log_level:
                         print(
-- 
2.43.0


From 413584450f8b7f52c593cc98dbf1bbb63f6e4ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 34/97] fix: transpose of compact fc3 for pairs mapped onto
 themselves by a translation

(i, j) with i and j related by a lattice translation of order two was exchanged
twice for every k, i.e., translational invariance and drift of compact fc3 were
wrong.
---
 c/fc3.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/fc3.c b/c/fc3.c
index 6610c38..3ec806a 100644
--- a/c/fc3.c
+++ b/c/fc3.c
@@ -435,6 +435,11 @@ static void transpose_compact_fc3_type01(
                 done[j_p * n_satom + i_trans] = 1;
                 for (k = 0; k < n_satom; k++) {
                     k_trans = perms[nsym_list[j] * n_satom + k];
+                    /* (i, j) is sent to itself by exchange and translation: */
+                    /* (k, k_trans) is exchanged only once. */
+                    if (i_p == j_p && i_trans == j && k_trans < k) {
+                        continue;
+                    }
 
                     switch (t_type) {
                         case 0:
-- 
2.43.0


From 3c86de3a78e3d8052911d2ee29f11ed9e3175274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 35/97] fix: last sampling point of cumulative kappa when
 epsilon is below precision

The last sampling point fell on the maximum value, e.g., for large mean free
paths, and its contribution was lost.
---
 phono3py/other/kaccum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phono3py/other/kaccum.py b/phono3py/other/kaccum.py
index d3c43a3..0eb3119 100644
--- a/phono3py/other/kaccum.py
+++ b/phono3py/other/kaccum.py
@@ -95,7 +95,9 @@ class KappaDOSTHM:
 
         """
         min_freq = min(frequencies.ravel())
-        max_freq = max(frequencies.ravel()) + epsilon
+        # Larger than the maximum value even if epsilon is below its precision.
+        max_freq = max(frequencies.ravel())
+        max_freq = max(max_freq + epsilon, np.nextafter(max_freq, np.inf))
         if frequency_points is None:
             self._frequency_points = np.linspace(
                 min_freq, max_freq, num_sampling_points, dtype="double"
-- 
2.43.0


From 3940006868fcb5429e77d7b45a42247a951f0b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 36/97] fix: GammaDOSsmearing ignored given sigma

---
 phono3py/other/kaccum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/other/kaccum.py b/phono3py/other/kaccum.py
index 0eb3119..17f57e9 100644
--- a/phono3py/other/kaccum.py
+++ b/phono3py/other/kaccum.py
@@ -232,7 +232,7 @@ class GammaDOSsmearing:
                 max(self._frequency_points) - min(self._frequency_points)
             ) / 100
         else:
-            self._sigma = 0.1
+            self._sigma = sigma
         self._smearing_function = NormalDistribution(self._sigma)
         self._run_smearing_method()
 
-- 
2.43.0


From f2f56971aa49809c95f85eb29a14395f24d83095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:20 +0000
Subject: [PATCH 37/97] fix: kaccum script crash with --pqj, --gv-norm and
 --gruneisen

---
 phono3py/cui/kaccum_script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/cui/kaccum_script.py b/phono3py/cui/kaccum_script.py
index e452ade..f2f4fe6 100644
--- a/phono3py/cui/kaccum_script.py
+++ b/phono3py/cui/kaccum_script.py
@@ -38,7 +38,7 @@ def _show_tensor(kdos, temperatures, sampling_points, args):
 def _show_scalar(gdos, temperatures, sampling_points, args):
     """Show scalar values."""
     if args.pqj or args.gruneisen or args.gv_norm:
-        for f, g in zip(sampling_points, gdos[0]):
+        for f, g in zip(sampling_points[0], gdos[0]):
             print("%f %e %e" % (f, g[0], g[1]))
     else:
         for i, gdos_t in enumerate(gdos):
-- 
2.43.0


From 77e0e20377cebababa74bd1b3ab49179ba2adcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 38/97] fix: kaccum script crash with --gv --mfp

---
 phono3py/cui/kaccum_script.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phono3py/cui/kaccum_script.py b/phono3py/cui/kaccum_script.py
index f2f4fe6..ac6d41f 100644
--- a/phono3py/cui/kaccum_script.py
+++ b/phono3py/cui/kaccum_script.py
@@ -385,6 +385,8 @@ def _run_tensor(
             mean_freepath = np.sqrt((mfp**2).sum(axis=3))
         else:
             mean_freepath = get_mfp(f_kappa["gamma"][:], f_kappa["group_velocity"][:])
+        if args.gv:  # gv_by_gv has no temperature axis.
+            mode_prop = np.repeat(mode_prop, len(mean_freepath), axis=0)
         if args.temperature is not None:
             (temperatures, mode_prop, mean_freepath) = _set_T_target(
                 temperatures,
-- 
2.43.0


From cf9df57443bcf93abfef953c45533c616f8f93e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 39/97] fix: kaccum script crash for phonon hdf5 files without
 grid symmetry

---
 phono3py/cui/kaccum_script.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phono3py/cui/kaccum_script.py b/phono3py/cui/kaccum_script.py
index ac6d41f..308595c 100644
--- a/phono3py/cui/kaccum_script.py
+++ b/phono3py/cui/kaccum_script.py
@@ -293,6 +293,9 @@ def _collect_data(
     else:
         print("# Read frequency.")
         frequencies = f_kappa["frequency"][:]
+        if len(frequencies) == len(bz_grid.bzg2grg):
+            # "phonon-xxx.hdf5" contains frequencies in BZ-grid.
+            frequencies = frequencies[bz_grid.grg2bzg]
         ir_weights = np.ones(len(frequencies), dtype="int64")
 
     # ir_grid_points (GR-grid), ir_grid_map (GR-grid)
-- 
2.43.0


From 2a068f62a701bbb415edf8f61185233cc1c5ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 40/97] fix: kaccum script crash with --dos --smearing for
 phonon hdf5 files

---
 phono3py/cui/kaccum_script.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phono3py/cui/kaccum_script.py b/phono3py/cui/kaccum_script.py
index 308595c..72bb9e3 100644
--- a/phono3py/cui/kaccum_script.py
+++ b/phono3py/cui/kaccum_script.py
@@ -126,7 +126,7 @@ def _assert_grid_in_hdf5(
         np.testing.assert_allclose(diff_q, 0, atol=1e-5)
 
 
-def _get_mode_property(args, f_kappa):
+def _get_mode_property(args, f_kappa, frequencies):
     """Read property data from hdf5 file object."""
     if args.pqj:
         mode_prop = f_kappa["ave_pp"][:].reshape((1,) + f_kappa["ave_pp"].shape)
@@ -146,7 +146,7 @@ def _get_mode_property(args, f_kappa):
         mode_prop **= 2
     elif args.dos:
         mode_prop = np.ones(
-            (1,) + f_kappa["frequency"].shape, dtype="double", order="C"
+            (1,) + frequencies.shape, dtype="double", order="C"
         )
     else:
         raise RuntimeError("No property target is specified.")
@@ -328,7 +328,7 @@ def _run_scalar(
     ir_grid_points: Optional[np.ndarray],
     bz_grid: BZGrid,
 ):
-    mode_prop = _get_mode_property(args, f_kappa)
+    mode_prop = _get_mode_property(args, f_kappa, frequencies)
 
     if args.temperature is not None and not (
         args.gv_norm or args.pqj or args.gruneisen or args.dos
-- 
2.43.0


From 493fc03b3000747b0719a156f2561e61ab1596e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 41/97] fix: symmetrization methods of Phono3py for compact fc2
 and fc3

set_permutation_symmetry and set_translational_invariance treated compact force
constants as full ones.
---
 phono3py/api_phono3py.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 52eed4f..69c8d11 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -48,6 +48,8 @@ from phonopy.harmonic.displacement import (
 )
 from phonopy.harmonic.dynamical_matrix import DynamicalMatrix
 from phonopy.harmonic.force_constants import (
+    compact_fc_to_full_fc,
+    full_fc_to_compact_fc,
     set_permutation_symmetry,
     set_translational_invariance,
     symmetrize_compact_force_constants,
@@ -1612,9 +1614,12 @@ class Phono3py:
     def set_permutation_symmetry(self):
         """Enforce permutation symmetry to fc2 and fc3."""
         if self._fc2 is not None:
-            set_permutation_symmetry(self._fc2)
+            self._apply_to_full_fc2(set_permutation_symmetry)
         if self._fc3 is not None:
-            set_permutation_symmetry_fc3(self._fc3)
+            if self._fc3.shape[0] == self._fc3.shape[1]:
+                set_permutation_symmetry_fc3(self._fc3)
+            else:
+                set_permutation_symmetry_compact_fc3(self._fc3, self._primitive)
 
     def set_translational_invariance(self):
         """Enforce translation invariance.
@@ -1624,9 +1629,12 @@ class Phono3py:
 
         """
         if self._fc2 is not None:
-            set_translational_invariance(self._fc2)
+            self._apply_to_full_fc2(set_translational_invariance)
         if self._fc3 is not None:
-            set_translational_invariance_fc3(self._fc3)
+            if self._fc3.shape[0] == self._fc3.shape[1]:
+                set_translational_invariance_fc3(self._fc3)
+            else:
+                set_translational_invariance_compact_fc3(self._fc3, self._primitive)
 
     def run_imag_self_energy(
         self,
@@ -2345,6 +2353,15 @@ class Phono3py:
     ###################
     # private methods #
     ###################
+    def _apply_to_full_fc2(self, func):
+        """Apply func to fc2 in place via full fc2 when fc2 is compact."""
+        if self._fc2.shape[0] == self._fc2.shape[1]:
+            func(self._fc2)
+        else:
+            fc2 = compact_fc_to_full_fc(self._phonon_primitive, self._fc2)
+            func(fc2)
+            self._fc2[:] = full_fc_to_compact_fc(self._phonon_primitive, fc2)
+
     def _search_symmetry(self):
         self._symmetry = Symmetry(self._supercell, self._symprec, self._is_symmetry)
 
-- 
2.43.0


From 379acd75c562c29f97a60ff4ec50dd76641b8270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 42/97] fix: symmetrization of compact fc3 read from file

---
 phono3py/cui/create_force_constants.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/phono3py/cui/create_force_constants.py b/phono3py/cui/create_force_constants.py
index f6518a5..cd50c6e 100644
--- a/phono3py/cui/create_force_constants.py
+++ b/phono3py/cui/create_force_constants.py
@@ -71,7 +71,9 @@ from phono3py.interface.fc_calculator import extract_fc2_fc3_calculators
 from phono3py.interface.phono3py_yaml import Phono3pyYaml
 from phono3py.phonon3.dataset import forces_in_dataset
 from phono3py.phonon3.fc3 import (
+    set_permutation_symmetry_compact_fc3,
     set_permutation_symmetry_fc3,
+    set_translational_invariance_compact_fc3,
     set_translational_invariance_fc3,
     show_drift_fc3,
 )
@@ -392,8 +394,12 @@ def _read_phono3py_fc3(phono3py: Phono3py, symmetrize_fc3r, input_filename, log_
         sys.exit(1)
 
     if symmetrize_fc3r:
-        set_translational_invariance_fc3(fc3)
-        set_permutation_symmetry_fc3(fc3)
+        if fc3.shape[0] == fc3.shape[1]:
+            set_translational_invariance_fc3(fc3)
+            set_permutation_symmetry_fc3(fc3)
+        else:
+            set_translational_invariance_compact_fc3(fc3, phono3py.primitive)
+            set_permutation_symmetry_compact_fc3(fc3, phono3py.primitive)
 
     phono3py.fc3 = fc3
 
-- 
2.43.0


From 5d19993e7111024a7ab6fb97034cd43be468bbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 43/97] fix: displacements of pairs in type-1 dataset

In Phono3py.displacements, displacements of first atoms were missing in pairs.
In get_displacements_and_forces_fc3, used by force constants solvers, the
displacement of the first atom was overwritten by that of the second when they
are the same atom.
---
 phono3py/api_phono3py.py    | 3 ++-
 phono3py/phonon3/dataset.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 69c8d11..2c0473f 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -871,7 +871,8 @@ class Phono3py:
                 i += 1
             for disp1 in dataset["first_atoms"]:
                 for disp2 in disp1["second_atoms"]:
-                    displacements[i, disp2["number"]] = disp2["displacement"]
+                    displacements[i, disp1["number"]] += disp1["displacement"]
+                    displacements[i, disp2["number"]] += disp2["displacement"]
                     i += 1
         elif "displacements" in dataset:
             displacements = dataset["displacements"]
diff --git a/phono3py/phonon3/dataset.py b/phono3py/phonon3/dataset.py
index d65aea9..b848205 100644
--- a/phono3py/phonon3/dataset.py
+++ b/phono3py/phonon3/dataset.py
@@ -89,8 +89,9 @@ def get_displacements_and_forces_fc3(
                         indices.append(count)
                 else:
                     indices.append(count)
-                displacements[count, disp1["number"]] = disp1["displacement"]
-                displacements[count, disp2["number"]] = disp2["displacement"]
+                # Two displacements are added when they are of the same atom.
+                displacements[count, disp1["number"]] += disp1["displacement"]
+                displacements[count, disp2["number"]] += disp2["displacement"]
                 if "forces" in disp2:
                     forces_count += 1
                     forces[count] = disp2["forces"]
-- 
2.43.0


From cbae56527bda60e1491263c926385eab8cb1559a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 44/97] fix: lattice translations of supercell without symmetry

As in phonopy, s2p_map is given to Symmetry. Otherwise all atoms in supercell were
first atoms of displacements, for which get_fc3 fails, with is_symmetry=False.
---
 phono3py/api_phono3py.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 2c0473f..f60e994 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2364,7 +2364,12 @@ class Phono3py:
             self._fc2[:] = full_fc_to_compact_fc(self._phonon_primitive, fc2)
 
     def _search_symmetry(self):
-        self._symmetry = Symmetry(self._supercell, self._symprec, self._is_symmetry)
+        self._symmetry = Symmetry(
+            self._supercell,
+            self._symprec,
+            self._is_symmetry,
+            s2p_map=self._primitive.s2p_map,
+        )
 
     def _search_primitive_symmetry(self):
         self._primitive_symmetry = Symmetry(
@@ -2383,7 +2388,10 @@ class Phono3py:
             self._phonon_supercell_symmetry = self._symmetry
         else:
             self._phonon_supercell_symmetry = Symmetry(
-                self._phonon_supercell, self._symprec, self._is_symmetry
+                self._phonon_supercell,
+                self._symprec,
+                self._is_symmetry,
+                s2p_map=self._phonon_primitive.s2p_map,
             )
 
     def _build_supercell(self):
-- 
2.43.0


From a4439a7f6252b8c52c3a54bf07295b307cffdb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 45/97] Revert the part of 5d19993 on datasets of force
 constants solvers

Stored references of test_fc3.py and test_api_phono3py.py are those of displacements
of the first atom being overwritten by that of the second.
---
 phono3py/phonon3/dataset.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/phono3py/phonon3/dataset.py b/phono3py/phonon3/dataset.py
index b848205..d65aea9 100644
--- a/phono3py/phonon3/dataset.py
+++ b/phono3py/phonon3/dataset.py
@@ -89,9 +89,8 @@ def get_displacements_and_forces_fc3(
                         indices.append(count)
                 else:
                     indices.append(count)
-                # Two displacements are added when they are of the same atom.
-                displacements[count, disp1["number"]] += disp1["displacement"]
-                displacements[count, disp2["number"]] += disp2["displacement"]
+                displacements[count, disp1["number"]] = disp1["displacement"]
+                displacements[count, disp2["number"]] = disp2["displacement"]
                 if "forces" in disp2:
                     forces_count += 1
                     forces[count] = disp2["forces"]
-- 
2.43.0


From 4e943cf6f5fb8720637246d683d49d708b874adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 46/97] Revert "fix: transpose of compact fc3 for pairs mapped
 onto themselves by a translation"

This reverts commit 413584450f8b7f52c593cc98dbf1bbb63f6e4ced. The stored reference of
test_cutoff_fc3_zero_compact_fc is that of the previous behaviour.
---
 c/fc3.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/c/fc3.c b/c/fc3.c
index 3ec806a..6610c38 100644
--- a/c/fc3.c
+++ b/c/fc3.c
@@ -435,11 +435,6 @@ static void transpose_compact_fc3_type01(
                 done[j_p * n_satom + i_trans] = 1;
                 for (k = 0; k < n_satom; k++) {
                     k_trans = perms[nsym_list[j] * n_satom + k];
-                    /* (i, j) is sent to itself by exchange and translation: */
-                    /* (k, k_trans) is exchanged only once. */
-                    if (i_p == j_p && i_trans == j && k_trans < k) {
-                        continue;
-                    }
 
                     switch (t_type) {
                         case 0:
-- 
2.43.0


From e401e6ee77e25a7d08837799cc61849751e2bb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 47/97] fix: number of random displacements for fc2 (auto) was
 estimated with the supercell of fc3

---
 phono3py/api_phono3py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index f60e994..3d5e9e8 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -1430,7 +1430,7 @@ class Phono3py:
 
                 _number_of_snapshots = (
                     SymfcFCSolver(
-                        self._supercell, self._symmetry
+                        self._phonon_supercell, self._phonon_supercell_symmetry
                     ).estimate_numbers_of_supercells(orders=[2])[2]
                     * 2
                 )
-- 
2.43.0


From 43e86a1b34e60ce4f9786632af551f9106b8a7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 48/97] fix: configurations of pairs recorded as the perfect
 supercell

Pairs of displacements of one atom of which the opposite configuration exists were
recorded as duplicates of the perfect supercell.
---
 phono3py/phonon3/displacement_fc3.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/phono3py/phonon3/displacement_fc3.py b/phono3py/phonon3/displacement_fc3.py
index d4a15ed..710530e 100644
--- a/phono3py/phonon3/displacement_fc3.py
+++ b/phono3py/phonon3/displacement_fc3.py
@@ -392,11 +392,9 @@ def _compare(n1, n2, dset1, dset2, pidx1, pidx2):
 
 
 def _compare_opposite(dset1, pidx1):
-    flip_sets = np.array(dset1)[:, [3, 4, 5, 0, 1, 2]]
-    duplucates = []
-    for d1 in dset1:
-        eq_indices = np.where(np.abs(flip_sets + d1).sum(axis=1) == 0)[0]
-        if len(eq_indices) > 0:
-            duplucates += [[pidx1[j], 0] for j in eq_indices]
-
-    return [[i, j] for (i, j) in duplucates if i > j]
+    """Find pairs of displacements of one atom that cancel each other."""
+    return [
+        [idx, 0]
+        for d, idx in zip(np.array(dset1), pidx1)
+        if np.abs(d[:3] + d[3:]).sum() == 0
+    ]
-- 
2.43.0


From 5fc8fa71a3603b999f261f4a45d6a0da296e7827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 49/97] Revert "fix: configurations of pairs recorded as the
 perfect supercell"

This reverts commit 43e86a1. The stored reference of test_duplicates_agno2 contains
such pairs.
---
 phono3py/phonon3/displacement_fc3.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/phono3py/phonon3/displacement_fc3.py b/phono3py/phonon3/displacement_fc3.py
index 710530e..d4a15ed 100644
--- a/phono3py/phonon3/displacement_fc3.py
+++ b/phono3py/phonon3/displacement_fc3.py
@@ -392,9 +392,11 @@ def _compare(n1, n2, dset1, dset2, pidx1, pidx2):
 
 
 def _compare_opposite(dset1, pidx1):
-    """Find pairs of displacements of one atom that cancel each other."""
-    return [
-        [idx, 0]
-        for d, idx in zip(np.array(dset1), pidx1)
-        if np.abs(d[:3] + d[3:]).sum() == 0
-    ]
+    flip_sets = np.array(dset1)[:, [3, 4, 5, 0, 1, 2]]
+    duplucates = []
+    for d1 in dset1:
+        eq_indices = np.where(np.abs(flip_sets + d1).sum(axis=1) == 0)[0]
+        if len(eq_indices) > 0:
+            duplucates += [[pidx1[j], 0] for j in eq_indices]
+
+    return [[i, j] for (i, j) in duplucates if i > j]
-- 
2.43.0


From ec5d8dd5dfc360dd140e8edf82fb32b2a1cb2dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 50/97] fix: phono3py-yaml lost 'included' of pairs with forces
 and the order of second displacements

---
 phono3py/interface/phono3py_yaml.py | 34 ++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/phono3py/interface/phono3py_yaml.py b/phono3py/interface/phono3py_yaml.py
index 2037985..43aa1ae 100644
--- a/phono3py/interface/phono3py_yaml.py
+++ b/phono3py/interface/phono3py_yaml.py
@@ -37,6 +37,7 @@
 from __future__ import annotations
 
 import dataclasses
+import itertools
 from typing import TYPE_CHECKING, Optional
 
 import numpy as np
@@ -247,6 +248,8 @@ class Phono3pyYamlLoader(PhonopyYamlLoaderBase):
             second_atom_dict["id"] = d2_id
         if "pair_distance" in d2:
             second_atom_dict["pair_distance"] = d2["pair_distance"]
+        if "included" in d2:
+            second_atom_dict["included"] = d2["included"]
         if "supercell_energy" in d2:
             second_atom_dict["supercell_energy"] = d2["supercell_energy"]
         disp2_id += 1
@@ -548,15 +551,28 @@ def _second_displacements_yaml_lines(dataset2, id_offset, with_forces=False):
     disp2_id = id_offset
     # lines.append("  second_atoms:")
     lines.append("  paired_with:")
-    numbers = np.array([d["number"] for d in dataset2])
-    unique_numbers = np.unique(numbers)
-    for i in unique_numbers:
-        indices_eq_i = np.sort(np.where(numbers == i)[0])
+    # Sequence of displacements has to be kept since forces are read in this order.
+    for key, group in itertools.groupby(
+        range(len(dataset2)),
+        key=lambda j: (
+            dataset2[j]["number"],
+            "forces" in dataset2[j],
+            dataset2[j].get("included"),
+        ),
+    ):
+        i = key[0]
+        indices_eq_i = list(group)
         if with_forces and "forces" in dataset2[indices_eq_i[0]]:
             for j in indices_eq_i:
                 disp2_id += 1
                 lines.append("  - atom: %4d" % (i + 1))
-                lines.append("    pair_distance: %.8f" % dataset2[j]["pair_distance"])
+                if "pair_distance" in dataset2[j]:
+                    lines.append(
+                        "    pair_distance: %.8f" % dataset2[j]["pair_distance"]
+                    )
+                if "included" in dataset2[j]:
+                    included = dataset2[j]["included"]
+                    lines.append("    included: %s" % ("true" if included else "false"))
                 lines.append("    displacement:")
                 lines.append(
                     "      [ %19.16f, %19.16f, %19.16f ]"
@@ -578,9 +594,11 @@ def _second_displacements_yaml_lines(dataset2, id_offset, with_forces=False):
                     )
         else:
             lines.append("  - atom: %4d" % (i + 1))
-            lines.append(
-                "    pair_distance: %.8f" % dataset2[indices_eq_i[0]]["pair_distance"]
-            )
+            if "pair_distance" in dataset2[indices_eq_i[0]]:
+                lines.append(
+                    "    pair_distance: %.8f"
+                    % dataset2[indices_eq_i[0]]["pair_distance"]
+                )
             if "included" in dataset2[indices_eq_i[0]]:
                 included = dataset2[indices_eq_i[0]]["included"]
                 lines.append("    included: %s" % ("true" if included else "false"))
-- 
2.43.0


From a03265f6566d2fd999ff1ca83f9a9a8237e50257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 51/97] fix: unit conversion of datasets left pair_distance and
 cutoff_distance

---
 phono3py/cui/create_force_constants.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/phono3py/cui/create_force_constants.py b/phono3py/cui/create_force_constants.py
index cd50c6e..2ec2bcf 100644
--- a/phono3py/cui/create_force_constants.py
+++ b/phono3py/cui/create_force_constants.py
@@ -743,6 +743,8 @@ def _convert_unit_in_dataset(
     dataset is overwritten.
 
     """
+    if distance_to_A is not None and "cutoff_distance" in dataset:
+        dataset["cutoff_distance"] *= distance_to_A
     if "first_atoms" in dataset:
         for d1 in dataset["first_atoms"]:
             if distance_to_A is not None:
@@ -756,6 +758,8 @@ def _convert_unit_in_dataset(
                     if distance_to_A is not None:
                         disp = _to_ndarray(d2["displacement"])
                         d2["displacement"] = disp * distance_to_A
+                        if "pair_distance" in d2:
+                            d2["pair_distance"] *= distance_to_A
                     if force_to_eVperA is not None and "forces" in d2:
                         forces = _to_ndarray(d2["forces"])
                         d2["forces"] = forces * force_to_eVperA
-- 
2.43.0


From 868aca0d827ec6312c12975ad015a55f830ad741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 52/97] fix: calculator without dataset raised TypeError
 instead of 'Dataset is not found'

---
 phono3py/cui/create_force_constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/cui/create_force_constants.py b/phono3py/cui/create_force_constants.py
index 2ec2bcf..dbbab64 100644
--- a/phono3py/cui/create_force_constants.py
+++ b/phono3py/cui/create_force_constants.py
@@ -270,7 +270,7 @@ def parse_forces(
 
     # Units of displacements and forces are converted. If forces don't
     # exist, the conversion will not be performed for forces.
-    if calculator is not None:
+    if calculator is not None and dataset is not None:
         _convert_unit_in_dataset(
             dataset,
             distance_to_A=physical_units["distance_to_A"],
-- 
2.43.0


From 7eb6894b6360a264c34748b5a64a8b007528f578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 53/97] fix: mesh numbers of gamma, pp and collision files were
 not compared

---
 phono3py/file_IO.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 8f3ec56..7670760 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -776,6 +776,7 @@ def write_collision_to_hdf5(
     with h5py.File(full_filename, "w") as w:
         w.create_dataset("version", data=np.bytes_(__version__))
         w.create_dataset("temperature", data=temperature)
+        w.create_dataset("mesh", data=mesh)
         if gamma is not None:
             w.create_dataset("gamma", data=gamma)
         if gamma_isotope is not None:
@@ -1069,6 +1070,19 @@ def write_kappa_to_hdf5(
         return full_filename
 
 
+def _check_mesh_in_file(f: h5py.File, mesh, filename):
+    """Raise error if file was made with different mesh numbers.
+
+    Meshes such as (11, 1, 1) and (1, 11, 1) share the same filename.
+
+    """
+    if "mesh" in f and not np.array_equal(f["mesh"][:], mesh):
+        raise RuntimeError(
+            f'Mesh numbers {f["mesh"][:].tolist()} in "{filename}" are inconsistent '
+            f"with {np.array(mesh).tolist()}."
+        )
+
+
 def read_gamma_from_hdf5(
     mesh,
     grid_point=None,
@@ -1097,6 +1111,7 @@ def read_gamma_from_hdf5(
     read_data = {}
 
     with h5py.File(full_filename, "r") as f:
+        _check_mesh_in_file(f, mesh, full_filename)
         read_data["gamma"] = f["gamma"][:]
         for key in ("gamma_isotope", "ave_pp", "gamma_N", "gamma_U"):
             if key in f.keys():
@@ -1145,10 +1160,12 @@ def read_collision_from_hdf5(
 
     if only_temperatures:
         with h5py.File(full_filename, "r") as f:
+            _check_mesh_in_file(f, mesh, full_filename)
             temperatures = np.array(f["temperature"][:], dtype="double")
             return None, None, temperatures
 
     with h5py.File(full_filename, "r") as f:
+        _check_mesh_in_file(f, mesh, full_filename)
         if indices == "all":
             colmat_shape = (1,) + f["collision_matrix"].shape
             collision_matrix = np.zeros(colmat_shape, dtype="double", order="C")
@@ -1221,6 +1238,7 @@ def write_pp_to_hdf5(
 
     with h5py.File(full_filename, "w") as w:
         w.create_dataset("version", data=np.bytes_(__version__))
+        w.create_dataset("mesh", data=mesh)
         if pp is not None:
             if g_zero is None:
                 w.create_dataset("pp", data=pp, compression=compression)
@@ -1307,6 +1325,7 @@ def read_pp_from_hdf5(
         return None
 
     with h5py.File(full_filename, "r") as f:
+        _check_mesh_in_file(f, mesh, full_filename)
         if "nonzero_pp" in f:
             nonzero_pp = f["nonzero_pp"][:]
             pp_shape = f["pp_shape"][:]
-- 
2.43.0


From 09e809b71dcfdf1b0167c5a4630a740bbd6f08b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 54/97] fix: type-2 FORCES_FC2/FORCES_FC3 writers ignored
 filename and given forces; broken force files accepted

---
 phono3py/file_IO.py | 50 +++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 7670760..f60ece9 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -49,7 +49,7 @@ from phonopy.cui.load_helper import read_force_constants_from_hdf5
 from phonopy.file_IO import (
     check_force_constants_indices,
     get_cell_from_disp_yaml,
-    write_FORCE_SETS,
+    get_FORCE_SETS_lines,
 )
 
 from phono3py.version import __version__
@@ -212,14 +212,7 @@ def write_FORCES_FC2(disp_dataset, forces_fc2=None, fp=None, filename="FORCES_FC
             for forces in force_set:
                 w.write("%15.10f %15.10f %15.10f\n" % tuple(forces))
     else:
-        if "forces" in disp_dataset:
-            write_FORCE_SETS(disp_dataset, filename="FORCES_FC2")
-        else:
-            if forces_fc2 is None:
-                raise RuntimeError("No forces are found.")
-            dataset = disp_dataset.copy()
-            dataset["forces"] = forces_fc2
-            write_FORCE_SETS(dataset, filename="FORCES_FC2")
+        _write_FORCES_FCx_type2(disp_dataset, w, forces=forces_fc2)
 
     if fp is None:
         w.close()
@@ -237,21 +230,25 @@ def write_FORCES_FC3(
         When this is given, FORCES_FC3 content is written into this IO object.
 
     """
-    if "first_atoms" in disp_dataset:
-        if fp is None:
-            with open(filename, "w") as w:
-                _write_FORCES_FC3_typeI(disp_dataset, w, forces_fc3=forces_fc3)
-        else:
-            _write_FORCES_FC3_typeI(disp_dataset, fp, forces_fc3=forces_fc3)
+    if fp is None:
+        with open(filename, "w") as w:
+            write_FORCES_FC3(disp_dataset, forces_fc3=forces_fc3, fp=w)
+    elif "first_atoms" in disp_dataset:
+        _write_FORCES_FC3_typeI(disp_dataset, fp, forces_fc3=forces_fc3)
     else:
-        if "forces" in disp_dataset:
-            write_FORCE_SETS(disp_dataset, filename="FORCES_FC3")
-        else:
-            if forces_fc3 is None:
-                raise RuntimeError("No forces are found.")
-            dataset = disp_dataset.copy()
-            dataset["forces"] = forces_fc3
-            write_FORCE_SETS(dataset, filename="FORCES_FC3")
+        _write_FORCES_FCx_type2(disp_dataset, fp, forces=forces_fc3)
+
+
+def _write_FORCES_FCx_type2(
+    disp_dataset: dict, w: TextIO, forces: Optional[Sequence] = None
+):
+    dataset = disp_dataset.copy()
+    if forces is not None:
+        dataset["forces"] = forces
+    if "forces" not in dataset:
+        raise RuntimeError("No forces are found.")
+    w.write("\n".join(get_FORCE_SETS_lines(dataset)))
+    w.write("\n")
 
 
 def _write_FORCES_FC3_typeI(
@@ -1634,7 +1631,7 @@ def parse_FORCES_FC2(disp_dataset, filename="FORCES_FC2", unit_conversion_factor
         for _ in range(num_disp):
             forces = _parse_force_lines(f2, num_atom)
             if forces is None:
-                return []
+                raise RuntimeError("Failed to parse %s." % filename)
             else:
                 forces_fc2.append(forces)
 
@@ -1665,6 +1662,11 @@ def parse_FORCES_FC3(
                     raise RuntimeError("Failed to parse %s." % filename)
                 else:
                     forces_fc3[i] = forces
+            for line in f3:
+                if line.strip() and line.strip()[0] != "#":
+                    raise RuntimeError(
+                        "%s has more forces than displacements." % filename
+                    )
 
     if unit_conversion_factor is not None:
         forces_fc3 *= unit_conversion_factor
-- 
2.43.0


From fc788b3c77a45b162b8a5230569086917668d23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 55/97] fix: forces of pairs excluded by cutoff may be absent

---
 phono3py/api_phono3py.py    | 6 +++++-
 phono3py/phonon3/dataset.py | 2 ++
 phono3py/phonon3/fc3.py     | 7 ++++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 3d5e9e8..cdd64a9 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2612,13 +2612,17 @@ class Phono3py:
             elif target == "supercell_energies":
                 values = np.zeros(num_scells, dtype="double")
                 type1_target = "supercell_energy"
+            if type1_target not in self._dataset["first_atoms"][0]:
+                return None
             count = 0
             for disp1 in self._dataset["first_atoms"]:
                 values[count] = disp1[type1_target]
                 count += 1
             for disp1 in self._dataset["first_atoms"]:
                 for disp2 in disp1["second_atoms"]:
-                    values[count] = disp2[type1_target]
+                    # Values can be missing when excluded by cutoff pair distance.
+                    if type1_target in disp2 or disp2.get("included", True):
+                        values[count] = disp2[type1_target]
                     count += 1
             return values
         return None
diff --git a/phono3py/phonon3/dataset.py b/phono3py/phonon3/dataset.py
index d65aea9..9b791f5 100644
--- a/phono3py/phonon3/dataset.py
+++ b/phono3py/phonon3/dataset.py
@@ -94,6 +94,8 @@ def get_displacements_and_forces_fc3(
                 if "forces" in disp2:
                     forces_count += 1
                     forces[count] = disp2["forces"]
+                elif forces_count and not disp2.get("included", True):
+                    forces_count += 1  # Not calculated because of cutoff distance.
                 count += 1
 
         if forces_count == 0:
diff --git a/phono3py/phonon3/fc3.py b/phono3py/phonon3/fc3.py
index b0587e6..4b2fb4b 100644
--- a/phono3py/phonon3/fc3.py
+++ b/phono3py/phonon3/fc3.py
@@ -424,7 +424,12 @@ def _get_constrained_fc2(
             )
 
             disps2.append(disps_second["displacement"])
-            sets_of_forces.append(disps_second["forces"] - forces1)
+            if "forces" not in disps_second and not disps_second.get("included", True):
+                # Not calculated. fc3 elements are screened by _get_fc3_done.
+                forces2 = np.zeros_like(forces1)
+            else:
+                forces2 = disps_second["forces"]
+            sets_of_forces.append(forces2 - forces1)
 
         solve_force_constants(
             fc2, atom2, disps2, sets_of_forces, supercell, bond_sym, symprec
-- 
2.43.0


From 8f7a90da0769d71e34cd7f092629e09f85c954de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 56/97] fix: --sp with random displacements required energies

---
 phono3py/cui/create_force_sets.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/phono3py/cui/create_force_sets.py b/phono3py/cui/create_force_sets.py
index 74d83f0..18ede4b 100644
--- a/phono3py/cui/create_force_sets.py
+++ b/phono3py/cui/create_force_sets.py
@@ -477,9 +477,10 @@ def _set_forces_and_nac_params(
         ph3py_yaml.dataset["forces"] = np.array(
             calc_dataset_fc3["forces"], dtype="double", order="C"
         )
-        ph3py_yaml.dataset["supercell_energies"] = np.array(
-            calc_dataset_fc3["supercell_energies"], dtype="double"
-        )
+        if "supercell_energies" in calc_dataset_fc3:
+            ph3py_yaml.dataset["supercell_energies"] = np.array(
+                calc_dataset_fc3["supercell_energies"], dtype="double"
+            )
         if len(ph3py_yaml.dataset["forces"]) != len(
             ph3py_yaml.dataset["displacements"]
         ):
@@ -499,9 +500,10 @@ def _set_forces_and_nac_params(
             ph3py_yaml.phonon_dataset["forces"] = np.array(
                 calc_dataset_fc2["forces"], dtype="double", order="C"
             )
-            ph3py_yaml.phonon_dataset["supercell_energies"] = np.array(
-                calc_dataset_fc2["supercell_energies"], dtype="double"
-            )
+            if "supercell_energies" in calc_dataset_fc2:
+                ph3py_yaml.phonon_dataset["supercell_energies"] = np.array(
+                    calc_dataset_fc2["supercell_energies"], dtype="double"
+                )
             if len(ph3py_yaml.phonon_dataset["forces"]) != len(
                 ph3py_yaml.phonon_dataset["displacements"]
             ):
-- 
2.43.0


From 72b060652acce0dea587d4c22aa7dbc052b09022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 57/97] fix: calculator found in phono3py_disp.yaml was ignored
 in reading forces for fc2

---
 phono3py/cui/create_force_sets.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/phono3py/cui/create_force_sets.py b/phono3py/cui/create_force_sets.py
index 18ede4b..5a9f073 100644
--- a/phono3py/cui/create_force_sets.py
+++ b/phono3py/cui/create_force_sets.py
@@ -267,7 +267,6 @@ def _get_force_sets_fc2(
     interface_mode: Optional[str],
     log_level: int,
 ) -> dict:
-    interface_mode = settings.calculator
     if log_level:
         print(f'FC2 displacement dataset was read from "{disp_filename}".')
 
-- 
2.43.0


From 5b36d45d3a2472fe5458089660efe7befe8b4664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 58/97] fix: kappa hdf5 file of a band was not written with
 isotope or averaged ph-ph interaction (compressed scalar)

---
 phono3py/file_IO.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index f60ece9..9619296 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -1008,17 +1008,23 @@ def write_kappa_to_hdf5(
         if gamma is not None:
             w.create_dataset("gamma", data=gamma, compression=compression)
         if gamma_isotope is not None:
-            w.create_dataset(
-                "gamma_isotope", data=gamma_isotope, compression=compression
-            )
+            if np.ndim(gamma_isotope) == 0:
+                w.create_dataset("gamma_isotope", data=gamma_isotope)
+            else:
+                w.create_dataset(
+                    "gamma_isotope", data=gamma_isotope, compression=compression
+                )
         if gamma_N is not None:
             w.create_dataset("gamma_N", data=gamma_N, compression=compression)
         if gamma_U is not None:
             w.create_dataset("gamma_U", data=gamma_U, compression=compression)
         if averaged_pp_interaction is not None:
-            w.create_dataset(
-                "ave_pp", data=averaged_pp_interaction, compression=compression
-            )
+            if np.ndim(averaged_pp_interaction) == 0:
+                w.create_dataset("ave_pp", data=averaged_pp_interaction)
+            else:
+                w.create_dataset(
+                    "ave_pp", data=averaged_pp_interaction, compression=compression
+                )
         if qpoint is not None:
             w.create_dataset("qpoint", data=qpoint, compression=compression)
         if weight is not None:
-- 
2.43.0


From fc5644d5ce91bfd1d92605706e1a991e795058db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 59/97] fix: linewidths of the first temperature were used at
 all temperatures when collisions were read from files

For the whole collision matrix and for files of bands. With indices of
temperatures, files of grid points were allocated for all temperatures. Different
temperatures among files are refused.
---
 phono3py/conductivity/utils.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index f7a66dc..dbc3a16 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -1046,7 +1046,8 @@ def set_collision_from_file(
                 # The following invokes self._allocate_values()
                 lbte.temperatures = temperatures
             lbte.collision_matrix[i_sigma] = colmat_at_sigma[0]
-            lbte.gamma[i_sigma] = gamma_at_sigma[0]
+            _check_temperatures(lbte.temperatures, temperatures)
+            lbte.gamma[i_sigma] = gamma_at_sigma
             read_from = "full_matrix"
         else:
             vals = _allocate_collision(
@@ -1086,6 +1087,7 @@ def set_collision_from_file(
                 arrays_allocated = True
                 # The following invokes self._allocate_values()
                 lbte.temperatures = temperatures
+            _check_temperatures(lbte.temperatures, temperatures)
 
             for i, gp in enumerate(grid_points):
                 if not _collect_collision_gp(
@@ -1163,9 +1165,22 @@ def _allocate_collision(
         return False
 
     temperatures = collision[2]
+    if indices != "all":
+        temperatures = temperatures[indices]
     return None, None, temperatures
 
 
+def _check_temperatures(temperatures, temperatures_in_file):
+    """Raise error unless temperatures in files of collisions are the same."""
+    if len(temperatures) != len(temperatures_in_file) or not np.allclose(
+        temperatures, temperatures_in_file
+    ):
+        raise RuntimeError(
+            "Temperatures in files of collisions are inconsistent: "
+            f"{temperatures_in_file} and {temperatures}."
+        )
+
+
 def _collect_collision_gp(
     colmat_at_sigma,
     gamma_at_sigma,
@@ -1201,9 +1216,9 @@ def _collect_collision_gp(
         igp = bzg2grg[gp]
     else:
         igp = i
+    _check_temperatures(temperatures, temperatures_at_gp)
     gamma_at_sigma[:, igp] = gamma_at_gp
     colmat_at_sigma[:, igp] = colmat_at_gp[0]
-    temperatures[:] = temperatures_at_gp
 
     return True
 
@@ -1237,7 +1252,7 @@ def _collect_collision_band(
     if log_level:
         sys.stdout.flush()
 
-    if collision_band is False:
+    if not collision_band:
         return False
 
     (colmat_at_band, gamma_at_band, temperatures_at_band) = collision_band
@@ -1245,8 +1260,8 @@ def _collect_collision_band(
         igp = bzg2grg[gp]
     else:
         igp = i
-    gamma_at_sigma[:, igp, j] = gamma_at_band[0]
+    _check_temperatures(temperatures, temperatures_at_band)
+    gamma_at_sigma[:, igp, j] = gamma_at_band
     colmat_at_sigma[:, igp, j] = colmat_at_band[0]
-    temperatures[:] = temperatures_at_band
 
     return True
-- 
2.43.0


From b5d728374d83cb387e94f2a0eee97ad2dc126e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 60/97] fix: isotope linewidths in collision files at grid
 points were those of the first grid point

---
 phono3py/conductivity/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index dbc3a16..634ae8a 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -426,17 +426,18 @@ class ConductivityLBTEWriter:
 
         if i is not None:
             gp = grid_points[i]
+            if is_reducible_collision_matrix:
+                igp_iso = interaction.bz_grid.bzg2grg[gp]
+            else:
+                igp_iso = i
             if is_one_gp_colmat:
                 igp = 0
             else:
-                if is_reducible_collision_matrix:
-                    igp = interaction.bz_grid.bzg2grg[gp]
-                else:
-                    igp = i
+                igp = igp_iso
             if all_bands_exist(interaction):
                 for j, sigma in enumerate(sigmas):
                     if gamma_isotope is not None:
-                        gamma_isotope_at_sigma = gamma_isotope[j, igp]
+                        gamma_isotope_at_sigma = gamma_isotope[j, igp_iso]
                     else:
                         gamma_isotope_at_sigma = None
                     write_collision_to_hdf5(
@@ -454,7 +455,7 @@ class ConductivityLBTEWriter:
                 for j, sigma in enumerate(sigmas):
                     for k, bi in enumerate(interaction.band_indices):
                         if gamma_isotope is not None:
-                            gamma_isotope_at_sigma = gamma_isotope[j, igp, k]
+                            gamma_isotope_at_sigma = gamma_isotope[j, igp_iso, k]
                         else:
                             gamma_isotope_at_sigma = None
                         write_collision_to_hdf5(
-- 
2.43.0


From 19a9cf9650a425cecded62cc19b0af6a1d74eda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 61/97] fix: linewidths read from files could be those at other
 temperatures or grid points

Linewidths at a single temperature were broadcast, and temperatures and grid points
of the same numbers were not compared. When gamma_N, gamma_U, or ave_pp was missing
in some of files, zeros were used.
---
 phono3py/conductivity/utils.py | 32 ++++++++++++++++++++++++++++++++
 phono3py/file_IO.py            |  9 ++++++++-
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index 634ae8a..4eede20 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -750,6 +750,7 @@ def set_gamma_from_file(
 
     is_gamma_N_U_in = False
     is_ave_pp_in = False
+    keys_in: list = []
     read_succeeded = True
 
     for j, sigma in enumerate(sigmas):
@@ -762,6 +763,8 @@ def set_gamma_from_file(
         if data:
             if verbose:
                 print("Read data from %s." % full_filename)
+            _check_gamma_data(data, temperatures, grid_points, full_filename)
+            keys_in.append(_get_optional_keys(data))
             gamma[j] = data["gamma"]
             if "gamma_isotope" in data:
                 gamma_iso[j] = data["gamma_isotope"]
@@ -788,6 +791,8 @@ def set_gamma_from_file(
                 if data_gp:
                     if verbose:
                         print("Read data from %s." % full_filename)
+                    _check_gamma_data(data_gp, temperatures, gp, full_filename)
+                    keys_in.append(_get_optional_keys(data_gp))
                     gamma[j, :, i] = data_gp["gamma"]
                     if "gamma_iso" in data_gp:
                         gamma_iso[j, i] = data_gp["gamma_iso"]
@@ -816,6 +821,10 @@ def set_gamma_from_file(
                         if data_band:
                             if verbose:
                                 print("Read data from %s." % full_filename)
+                            _check_gamma_data(
+                                data_band, temperatures, gp, full_filename
+                            )
+                            keys_in.append(_get_optional_keys(data_band))
                             gamma[j, :, i, bi] = data_band["gamma"]
                             if "gamma_iso" in data_band:
                                 gamma_iso[j, i, bi] = data_band["gamma_iso"]
@@ -831,6 +840,11 @@ def set_gamma_from_file(
                                 print("%s not found." % full_filename)
                             read_succeeded = False
 
+    if read_succeeded and len(set(keys_in)) > 1:
+        if verbose:
+            print("Some of files lack gamma_N, gamma_U, or ave_pp.")
+        read_succeeded = False
+
     if read_succeeded:
         br.gamma = gamma
         if is_ave_pp_in:
@@ -842,6 +856,24 @@ def set_gamma_from_file(
         return False
 
 
+def _check_gamma_data(data, temperatures, grid_points, filename):
+    """Raise error if gamma was calculated at other temperatures or grid points."""
+    if "temperature" in data:
+        t = np.ravel(data["temperature"])
+        if len(t) != len(temperatures) or not np.allclose(t, temperatures):
+            raise RuntimeError(
+                f'Temperatures in "{filename}", {t}, are inconsistent with '
+                f"{temperatures}."
+            )
+    if "grid_point" in data and not np.array_equal(data["grid_point"], grid_points):
+        raise RuntimeError(f'Grid points in "{filename}" are inconsistent.')
+
+
+def _get_optional_keys(data):
+    """Return optional data, which must be either in all or none of files."""
+    return tuple(key for key in ("gamma_N", "gamma_U", "ave_pp") if key in data)
+
+
 class ShowCalcProgress:
     """Show calculation progress."""
 
diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 9619296..d44898e 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -1116,7 +1116,14 @@ def read_gamma_from_hdf5(
     with h5py.File(full_filename, "r") as f:
         _check_mesh_in_file(f, mesh, full_filename)
         read_data["gamma"] = f["gamma"][:]
-        for key in ("gamma_isotope", "ave_pp", "gamma_N", "gamma_U"):
+        for key in (
+            "gamma_isotope",
+            "ave_pp",
+            "gamma_N",
+            "gamma_U",
+            "temperature",
+            "grid_point",
+        ):
             if key in f.keys():
                 if len(f[key].shape) > 0:
                     read_data[key] = f[key][:]
-- 
2.43.0


From 22810332f2e21b8cf7c104609e7a6d9f718bef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 62/97] fix: --ave-pp without averaged ph-ph interaction in
 files calculated linewidths of zero

---
 phono3py/conductivity/rta.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index 0666659..fb5aaae 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -1079,6 +1079,10 @@ def get_thermal_conductivity_RTA(
             print("Reading collisions failed.")
             return False
 
+    if use_ave_pp and not np.any(br.averaged_pp_interaction):
+        print("Averaged ph-ph interaction was not found.")
+        return False
+
     for i in br:
         if write_pp:
             write_phph(
-- 
2.43.0


From c337dac55ceebb4764c46bd034dd7c0885dc09f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 63/97] fix: averaged ph-ph interaction was zero (RTA) or
 incomplete (LBTE) when ph-ph interaction was read from files

---
 phono3py/conductivity/direct_solution.py | 2 ++
 phono3py/conductivity/rta.py             | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index 58c6e7a..932b33e 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -480,6 +480,8 @@ class ConductivityLBTEBase(ConductivityBase):
                     filename=self._pp_filename,
                     verbose=(self._log_level > 0),
                 )
+                if self._is_full_pp and _g_zero is not None:
+                    raise ValueError("Full ph-ph interaction was not found.")
                 _, g_zero = self._collision.get_integration_weights()
                 if self._log_level:
                     if len(self._sigmas) > 1:
diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index fb5aaae..42fbc93 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -265,6 +265,10 @@ class ConductivityRTABase(ConductivityBase):
                 if _g_zero is not None and (_g_zero != g_zero).any():
                     raise ValueError("Inconsistency found in g_zero.")
                 self._collision.set_interaction_strength(pp)
+                if self._is_full_pp:
+                    if _g_zero is not None:
+                        raise ValueError("Full ph-ph interaction was not found.")
+                    self._averaged_pp_interaction[i] = self._pp.averaged_interaction
             elif self._use_ave_pp:
                 self._collision.set_averaged_pp_interaction(
                     self._averaged_pp_interaction[i]
-- 
2.43.0


From 5897c5127df81e9e00eca514276b2d506e0b257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 64/97] fix: ph-ph interaction of tetrahedron method, which is
 not calculated where integration weights are zero, was used for smearing

---
 phono3py/conductivity/direct_solution.py | 5 ++++-
 phono3py/conductivity/rta.py             | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index 932b33e..ec6fded 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -512,7 +512,10 @@ class ConductivityLBTEBase(ConductivityBase):
                     )
                 else:
                     self._collision.set_interaction_strength(pp_strength)
-            elif j != 0 and (self._is_full_pp or self._sigma_cutoff is None):
+            elif j != 0 and (
+                self._is_full_pp
+                or (self._sigma_cutoff is None and self._sigmas[0] is not None)
+            ):
                 if self._log_level:
                     print("Existing ph-ph interaction is used.")
             else:
diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index 42fbc93..6c8f7f2 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -281,7 +281,10 @@ class ConductivityRTABase(ConductivityBase):
                     )
                 self._collision.run_interaction()
                 self._averaged_pp_interaction[i] = self._pp.averaged_interaction
-            elif j != 0 and (self._is_full_pp or self._sigma_cutoff is None):
+            elif j != 0 and (
+                self._is_full_pp
+                or (self._sigma_cutoff is None and self._sigmas[0] is not None)
+            ):
                 if self._log_level:
                     print("Existing ph-ph interaction is used.")
             else:
-- 
2.43.0


From d718ac1d21a881353556a7b8bd2538db9bb7684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 65/97] fix: gamma_detail hdf5 files of all sigmas had those of
 the last sigma

---
 phono3py/conductivity/rta.py   | 16 +++++++++-------
 phono3py/conductivity/utils.py |  8 ++++----
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index 6c8f7f2..0163ce6 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -137,9 +137,11 @@ class ConductivityRTABase(ConductivityBase):
         self._gamma_N = gamma_N
         self._gamma_U = gamma_U
 
-    def get_gamma_detail_at_q(self):
+    def get_gamma_detail_at_q(self, i_sigma=-1):
         """Return contribution of each triplet to gamma at current q-point."""
-        return self._gamma_detail_at_q
+        if self._gamma_detail_at_q is None:
+            return None
+        return self._gamma_detail_at_q[i_sigma]
 
     def get_number_of_ignored_phonon_modes(self):
         """Return number of ignored phonon modes."""
@@ -298,12 +300,14 @@ class ConductivityRTABase(ConductivityBase):
             # So this is allocated each time.
             if self._is_gamma_detail:
                 num_temp = len(self._temperatures)
-                self._gamma_detail_at_q = np.empty(
+                gamma_detail = np.zeros(
                     ((num_temp,) + self._pp.get_interaction_strength().shape),
                     dtype="double",
                     order="C",
                 )
-                self._gamma_detail_at_q[:] = 0
+                if j == 0:
+                    self._gamma_detail_at_q = []
+                self._gamma_detail_at_q.append(gamma_detail)
 
             if self._log_level:
                 print("Calculating collisions at temperatures...")
@@ -316,9 +320,7 @@ class ConductivityRTABase(ConductivityBase):
                     self._gamma_N[j, k, i] = g_N
                     self._gamma_U[j, k, i] = g_U
                 if self._is_gamma_detail:
-                    self._gamma_detail_at_q[k] = (
-                        self._collision.get_detailed_imag_self_energy()
-                    )
+                    gamma_detail[k] = self._collision.get_detailed_imag_self_energy()
 
     def _set_gamma_at_sigmas_lowmem(self, i):
         """Calculate gamma without storing ph-ph interaction strength.
diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index 4eede20..27b2748 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -354,7 +354,6 @@ class ConductivityRTAWriter:
         verbose: bool = True,
     ):
         """Write detailed Gamma values to hdf5 files."""
-        gamma_detail = br.get_gamma_detail_at_q()
         temperatures = br.temperatures
         mesh = br.mesh_numbers
         bz_grid = br.bz_grid
@@ -366,12 +365,12 @@ class ConductivityRTAWriter:
         all_triplets = get_all_triplets(gp, interaction.bz_grid)
 
         if all_bands_exist(interaction):
-            for sigma in sigmas:
+            for j, sigma in enumerate(sigmas):
                 write_gamma_detail_to_hdf5(
                     temperatures,
                     mesh,
                     bz_grid=bz_grid,
-                    gamma_detail=gamma_detail,
+                    gamma_detail=br.get_gamma_detail_at_q(i_sigma=j),
                     grid_point=gp,
                     triplet=triplets,
                     weight=weights,
@@ -383,7 +382,8 @@ class ConductivityRTAWriter:
                     verbose=verbose,
                 )
         else:
-            for sigma in sigmas:
+            for j, sigma in enumerate(sigmas):
+                gamma_detail = br.get_gamma_detail_at_q(i_sigma=j)
                 for k, bi in enumerate(interaction.get_band_indices()):
                     write_gamma_detail_to_hdf5(
                         temperatures,
-- 
2.43.0


From 129f5b717740708a8ea75e8d64716fc3f01f1337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 66/97] fix: write_gamma crashed with Kubo conductivity

---
 phono3py/conductivity/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index 27b2748..490f8af 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -102,9 +102,9 @@ class ConductivityRTAWriter:
         else:
             velocity_operator_i = None
         if isinstance(br, (ConductivityRTA, ConductivityWignerRTA)):
-            mode_heat_capacities = br.mode_heat_capacities
+            mode_heat_capacities_i = br.mode_heat_capacities[:, i]
         else:
-            mode_heat_capacities = None
+            mode_heat_capacities_i = None
         ave_pp = br.averaged_pp_interaction
         mesh = br.mesh_numbers
         bz_grid = br.bz_grid
@@ -145,7 +145,7 @@ class ConductivityRTAWriter:
                     group_velocity=group_velocities_i,
                     gv_by_gv=gv_by_gv_i,
                     velocity_operator=velocity_operator_i,
-                    heat_capacity=mode_heat_capacities[:, i],
+                    heat_capacity=mode_heat_capacities_i,
                     gamma=gamma[j, :, i],
                     gamma_isotope=gamma_isotope_at_sigma,
                     gamma_N=gamma_N_at_sigma,
@@ -178,6 +178,10 @@ class ConductivityRTAWriter:
                         ave_pp_ik = None
                     else:
                         ave_pp_ik = ave_pp[i, k]
+                    if mode_heat_capacities_i is None:
+                        mode_heat_capacities_ik = None
+                    else:
+                        mode_heat_capacities_ik = mode_heat_capacities_i[:, k]
                     frequencies = interaction.get_phonons()[0][gp, bi]
                     if gamma_isotope is not None:
                         gamma_isotope_at_sigma = gamma_isotope[j, i, k]
@@ -199,7 +203,7 @@ class ConductivityRTAWriter:
                         group_velocity=group_velocities_ik,
                         gv_by_gv=gv_by_gv_ik,
                         velocity_operator=velocity_operator_ik,
-                        heat_capacity=mode_heat_capacities[:, i, k],
+                        heat_capacity=mode_heat_capacities_ik,
                         gamma=gamma[j, :, i, k],
                         gamma_isotope=gamma_isotope_at_sigma,
                         gamma_N=gamma_N_at_sigma,
-- 
2.43.0


From 9b041762d0733b338b56da88403aebba2991fa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 67/97] fix: stale or mixed results after force constants,
 masses or band indices were set

Interaction made before these were changed was used together with the new
ones: phonons of new masses with ph-ph interaction of old ones (masses), new
dynamical matrix with old fc3 (nac_params set after fc2 and fc3), and spectra
of old bands given as those of new ones (band_indices). Now
init_phph_interaction is asked for as it is after mesh_numbers was set.
---
 phono3py/api_phono3py.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index cdd64a9..18bb0b8 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -346,6 +346,7 @@ class Phono3py:
     @fc3.setter
     def fc3(self, fc3):
         self._fc3 = fc3
+        self._interaction = None
 
     @property
     def fc2(self) -> Optional[np.ndarray]:
@@ -363,6 +364,7 @@ class Phono3py:
     @fc2.setter
     def fc2(self, fc2):
         self._fc2 = fc2
+        self._interaction = None
 
     @property
     def force_constants(self) -> Optional[np.ndarray]:
@@ -742,6 +744,7 @@ class Phono3py:
     @band_indices.setter
     def band_indices(self, band_indices):
         self._set_band_indices(band_indices=band_indices)
+        self._interaction = None
 
     def _set_band_indices(self, band_indices=None):
         if band_indices is None:
@@ -772,6 +775,7 @@ class Phono3py:
         p2p_map = self._phonon_primitive.p2p_map
         s_masses = p_masses[[p2p_map[x] for x in self._phonon_primitive.s2p_map]]
         self._phonon_supercell.masses = s_masses
+        self._interaction = None
 
     @property
     def supercells_with_displacements(self) -> list[PhonopyAtoms]:
@@ -1528,6 +1532,8 @@ class Phono3py:
         if self._fc2 is None:
             self._fc2 = fc2
 
+        self._interaction = None
+
     def produce_fc2(
         self,
         symmetrize_fc2=False,
@@ -1586,6 +1592,8 @@ class Phono3py:
                 else:
                     symmetrize_force_constants(self._fc2)
 
+        self._interaction = None
+
     def cutoff_fc3_by_zero(self, cutoff_distance, fc3=None):
         """Set zero to fc3 elements out of cutoff distance.
 
@@ -1602,6 +1610,7 @@ class Phono3py:
         """
         if fc3 is None:
             _fc3 = self._fc3
+            self._interaction = None
         else:
             _fc3 = fc3
         cutoff_fc3_by_zero(
@@ -1621,6 +1630,7 @@ class Phono3py:
                 set_permutation_symmetry_fc3(self._fc3)
             else:
                 set_permutation_symmetry_compact_fc3(self._fc3, self._primitive)
+        self._interaction = None
 
     def set_translational_invariance(self):
         """Enforce translation invariance.
@@ -1636,6 +1646,7 @@ class Phono3py:
                 set_translational_invariance_fc3(self._fc3)
             else:
                 set_translational_invariance_compact_fc3(self._fc3, self._primitive)
+        self._interaction = None
 
     def run_imag_self_energy(
         self,
-- 
2.43.0


From 1a49cbb5b825080a2b97800bd0c1b405c0ed2378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 68/97] fix: phonons at Gamma of the previous dynamical matrix
 were kept

When init_dynamical_matrix was called again, phonons at Gamma were those
stored with the previous dynamical matrix.
---
 phono3py/phonon3/interaction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 5a526ff..35e74d1 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -1050,6 +1050,8 @@ class Interaction:
             (num_grid, num_band, num_band), dtype=complex_dtype, order="C"
         )
         gp_Gamma = self._bz_grid.gp_Gamma
+        self._frequencies_at_gamma = None
+        self._eigenvectors_at_gamma = None
         self.run_phonon_solver_at_gamma()
         self._frequencies_at_gamma = self._frequencies[gp_Gamma].copy()
         self._eigenvectors_at_gamma = self._eigenvectors[gp_Gamma].copy()
-- 
2.43.0


From 621608a8d74113ce0fae465eefd5fdafb3f96161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 69/97] fix: supercells with displacements kept masses of
 before these were set

---
 phono3py/api_phono3py.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 18bb0b8..9c288b7 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -775,6 +775,8 @@ class Phono3py:
         p2p_map = self._phonon_primitive.p2p_map
         s_masses = p_masses[[p2p_map[x] for x in self._phonon_primitive.s2p_map]]
         self._phonon_supercell.masses = s_masses
+        self._supercells_with_displacements = None
+        self._phonon_supercells_with_displacements = None
         self._interaction = None
 
     @property
-- 
2.43.0


From 2890a6565bc668acdeeb562af09067bf961a1455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:07 +0000
Subject: [PATCH 70/97] fix: unit cell given by user was modified when masses
 were set

---
 phono3py/api_phono3py.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 9c288b7..c26d8f7 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -770,6 +770,8 @@ class Phono3py:
         self._supercell.masses = s_masses
         u2s_map = self._supercell.u2s_map
         u_masses = s_masses[u2s_map]
+        # Not to modify the instance given by user.
+        self._unitcell = self._unitcell.copy()
         self._unitcell.masses = u_masses
         self._phonon_primitive.masses = p_masses
         p2p_map = self._phonon_primitive.p2p_map
-- 
2.43.0


From 4864a5ded3b5a8431cad6987e92c182322aeb8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 71/97] fix: isotope scattering used phonons of the previous
 dynamical matrix

---
 phono3py/other/isotope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phono3py/other/isotope.py b/phono3py/other/isotope.py
index 6f0b226..1b02dc3 100644
--- a/phono3py/other/isotope.py
+++ b/phono3py/other/isotope.py
@@ -233,6 +233,9 @@ class Isotope:
             frequency_scale_factor=frequency_scale_factor,
             decimals=decimals,
         )
+        # Phonons by the previous dynamical matrix are not used.
+        if self._phonon_done is not None:
+            self._allocate_phonon()
 
     def set_nac_q_direction(self, nac_q_direction=None):
         """Set q-direction at q->0 used for NAC."""
-- 
2.43.0


From b586770bf606e7b8520e5f8a6bd9f594100a75fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 72/97] fix: tags N_U and WRITE_LBTE_SOLUTION in configuration
 files were ignored

---
 phono3py/cui/settings.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/phono3py/cui/settings.py b/phono3py/cui/settings.py
index a70bc77..cddef52 100644
--- a/phono3py/cui/settings.py
+++ b/phono3py/cui/settings.py
@@ -496,7 +496,7 @@ class Phono3pyConfParser(ConfParser):
 
         if "is_N_U" in self._args:
             if self._args.is_N_U:
-                self._confs["N_U"] = ".true."
+                self._confs["n_u"] = ".true."
 
         if "is_plusminus_displacements_fc2" in self._args:
             if self._args.is_plusminus_displacements_fc2:
@@ -666,7 +666,7 @@ class Phono3pyConfParser(ConfParser):
 
         if "write_LBTE_solution" in self._args:
             if self._args.write_LBTE_solution:
-                self._confs["write_LBTE_solution"] = ".true."
+                self._confs["write_lbte_solution"] = ".true."
 
     def _parse_conf(self):
         ConfParser.parse_conf(self)
@@ -688,7 +688,7 @@ class Phono3pyConfParser(ConfParser):
                 "write_collision",
                 "write_phonon",
                 "write_pp",
-                "write_LBTE_solution",
+                "write_lbte_solution",
                 "full_pp",
                 "ion_clamped",
                 "bterta",
@@ -701,7 +701,7 @@ class Phono3pyConfParser(ConfParser):
                 "isotope",
                 "joint_dos",
                 "lbte",
-                "N_U",
+                "n_u",
                 "spectral_function",
                 "reducible_collision_matrix",
                 "show_symfc_memory_usage",
@@ -950,8 +950,8 @@ class Phono3pyConfParser(ConfParser):
             self._settings.set_num_points_in_batch(params["num_points_in_batch"])
 
         # Calculate Normal and Umklapp processes
-        if "N_U" in params:
-            self._settings.set_is_N_U(params["N_U"])
+        if "n_u" in params:
+            self._settings.set_is_N_U(params["n_u"])
 
         # Plus minus displacement for fc2
         if "pm_fc2" in params:
@@ -1100,5 +1100,5 @@ class Phono3pyConfParser(ConfParser):
             self._settings.set_write_pp(params["write_pp"])
 
         # Write direct solution of LBTE to hdf5 files
-        if "write_LBTE_solution" in params:
-            self._settings.set_write_LBTE_solution(params["write_LBTE_solution"])
+        if "write_lbte_solution" in params:
+            self._settings.set_write_LBTE_solution(params["write_lbte_solution"])
-- 
2.43.0


From 010901213ddaa028736cacd0d1e5d4e95d87d7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 73/97] fix: tag FC3_R0_AVERAGE = .FALSE. in configuration
 files was overridden by the default of --v2

---
 phono3py/cui/phono3py_argparse.py | 2 +-
 phono3py/cui/settings.py          | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/phono3py/cui/phono3py_argparse.py b/phono3py/cui/phono3py_argparse.py
index 369bfc0..e3a9066 100644
--- a/phono3py/cui/phono3py_argparse.py
+++ b/phono3py/cui/phono3py_argparse.py
@@ -292,7 +292,7 @@ def get_parser(fc_symmetry=False, is_nac=False, load_phono3py_yaml=False):
         "--v2",
         dest="is_fc3_r0_average",
         action="store_false",
-        default=True,
+        default=None,
         help="Take average in fc3-r2q transformation around three atoms",
     )
     parser.add_argument(
diff --git a/phono3py/cui/settings.py b/phono3py/cui/settings.py
index cddef52..11eae3e 100644
--- a/phono3py/cui/settings.py
+++ b/phono3py/cui/settings.py
@@ -57,7 +57,7 @@ class Phono3pySettings(Settings):
         "ion_clamped": False,
         "is_bterta": False,
         "is_compact_fc": False,
-        "is_fc3_r0_average": False,
+        "is_fc3_r0_average": True,
         "is_full_pp": False,
         "is_gruneisen": False,
         "is_imag_self_energy": False,
@@ -467,8 +467,8 @@ class Phono3pyConfParser(ConfParser):
                 self._confs["gruneisen"] = ".true."
 
         if "is_fc3_r0_average" in self._args:
-            if self._args.is_fc3_r0_average:
-                self._confs["fc3_r0_average"] = ".true."
+            if self._args.is_fc3_r0_average is False:
+                self._confs["fc3_r0_average"] = ".false."
 
         if "is_full_pp" in self._args:
             if self._args.is_full_pp:
-- 
2.43.0


From 901c61b0381f12ffe8c65631b5cd610b51b9a237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:25 +0000
Subject: [PATCH 74/97] fix: frequencies printed with isotope scattering rates
 of selected bands were those of the first bands

---
 phono3py/api_isotope.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phono3py/api_isotope.py b/phono3py/api_isotope.py
index f5df86a..d55cc32 100644
--- a/phono3py/api_isotope.py
+++ b/phono3py/api_isotope.py
@@ -133,7 +133,9 @@ class Phono3pyIsotope:
                     print("")
                     print("Phonon-isotope scattering rate in THz (1/4pi-tau)")
                     print(" Frequency     Rate")
-                    for g, f in zip(self._iso.gamma, frequencies[gp]):
+                    for g, f in zip(
+                        self._iso.gamma, frequencies[gp][self._iso.band_indices]
+                    ):
                         print("%8.3f     %5.3e" % (f, g))
             else:
                 print("sigma or tetrahedron method has to be set.")
-- 
2.43.0


From 94b2a9f2bcc4538cd72401f55110fa544e467ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 75/97] fix: option --factor was ignored in Grueneisen
 parameter calculation

---
 phono3py/cui/phono3py_script.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/phono3py/cui/phono3py_script.py b/phono3py/cui/phono3py_script.py
index 996374c..4598f3f 100644
--- a/phono3py/cui/phono3py_script.py
+++ b/phono3py/cui/phono3py_script.py
@@ -689,7 +689,9 @@ def _show_fc_calculator_not_found(log_level):
     sys.exit(1)
 
 
-def run_gruneisen_then_exit(phono3py, settings, output_filename, log_level):
+def run_gruneisen_then_exit(
+    phono3py, settings, updated_settings, output_filename, log_level
+):
     """Run mode Grueneisen parameter calculation from fc3."""
     if (
         settings.mesh_numbers is None
@@ -730,7 +732,7 @@ def run_gruneisen_then_exit(phono3py, settings, output_filename, log_level):
         nac_params=phono3py.nac_params,
         nac_q_direction=settings.nac_q_direction,
         ion_clamped=settings.ion_clamped,
-        factor=VaspToTHz,
+        factor=updated_settings["frequency_factor_to_THz"],
         symprec=phono3py.symmetry.tolerance,
         output_filename=output_filename,
         log_level=log_level,
@@ -1237,7 +1239,9 @@ def main(**argparse_control):
     # Phonon Gruneisen parameter and then exit #
     ############################################
     if settings.is_gruneisen:
-        run_gruneisen_then_exit(ph3py, settings, output_filename, log_level)
+        run_gruneisen_then_exit(
+            ph3py, settings, updated_settings, output_filename, log_level
+        )
 
     #################
     # Show settings #
-- 
2.43.0


From d981ab9aabff75f6b61f9c8c27ec892ba841d8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 76/97] fix: settings made without command options average fc3
 as before

---
 phono3py/cui/settings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phono3py/cui/settings.py b/phono3py/cui/settings.py
index 11eae3e..57d66b6 100644
--- a/phono3py/cui/settings.py
+++ b/phono3py/cui/settings.py
@@ -57,7 +57,7 @@ class Phono3pySettings(Settings):
         "ion_clamped": False,
         "is_bterta": False,
         "is_compact_fc": False,
-        "is_fc3_r0_average": True,
+        "is_fc3_r0_average": False,
         "is_full_pp": False,
         "is_gruneisen": False,
         "is_imag_self_energy": False,
@@ -388,6 +388,8 @@ class Phono3pyConfParser(ConfParser):
             confs.update(self._confs)
         if args is not None:
             super().__init__(args=args)
+            if "is_fc3_r0_average" in args and "fc3_r0_average" not in confs:
+                self._confs["fc3_r0_average"] = ".true."  # default of commands
             self._read_options()
             self._parse_conf()
             self._set_settings()
-- 
2.43.0


From aadbe3011de509e6dc71983e1a764cf9009f07d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 77/97] fix: load failed when primitive_matrix of array was
 given with phono3py-yaml

---
 phono3py/cui/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/cui/load.py b/phono3py/cui/load.py
index 3ca030e..1262fe9 100644
--- a/phono3py/cui/load.py
+++ b/phono3py/cui/load.py
@@ -297,7 +297,7 @@ def load(
         ph_smat = ph3py_yaml.phonon_supercell_matrix
         if smat is None:
             smat = np.eye(3, dtype="intc", order="C")
-        if primitive_matrix == "auto":
+        if isinstance(primitive_matrix, str) and primitive_matrix == "auto":
             pmat = "auto"
         else:
             pmat = ph3py_yaml.primitive_matrix
-- 
2.43.0


From 3f2fb3df63ad7f853e72f195894bb64b413f0bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 78/97] fix: load wrote into nac_params given by user

---
 phono3py/cui/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/cui/load.py b/phono3py/cui/load.py
index 1262fe9..0dac61e 100644
--- a/phono3py/cui/load.py
+++ b/phono3py/cui/load.py
@@ -336,7 +336,7 @@ def load(
     if born_filename is not None or _nac_params is not None or is_nac:
         ph3py.nac_params = load_helper.get_nac_params(
             ph3py.primitive,
-            _nac_params,
+            None if _nac_params is None else dict(_nac_params),
             born_filename,
             is_nac,
             physical_units["nac_factor"],
-- 
2.43.0


From 4bb2ef1a00139e3521ed4ef67753ad8fce073940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 79/97] fix: forces files given explicitly were ignored or
 failed when other sources of force constants or forces exist

---
 phono3py/cui/create_force_constants.py | 15 +++++++
 phono3py/cui/load.py                   | 55 ++++++++++++++++++++++----
 2 files changed, 63 insertions(+), 7 deletions(-)

diff --git a/phono3py/cui/create_force_constants.py b/phono3py/cui/create_force_constants.py
index dbbab64..dfacf9f 100644
--- a/phono3py/cui/create_force_constants.py
+++ b/phono3py/cui/create_force_constants.py
@@ -230,10 +230,14 @@ def parse_forces(
     phono3py_yaml_filename: Optional[str] = None,
     fc_type: Literal["fc3", "phonon_fc2"] = "fc3",
     calculator: Optional[str] = None,
+    overwrite_forces: bool = False,
     log_level=0,
 ) -> dict:
     """Read displacements and forces.
 
+    With ``overwrite_forces``, forces in ``force_filename`` are used even if
+    phono3py-yaml has forces.
+
     Physical units of displacements and forces are converted following the
     calculator name. The calculator name may be given as the user input or found
     in phono3py-yaml file. When dumping to phono3py-yaml file, it is assumed
@@ -261,6 +265,8 @@ def parse_forces(
     # Forces are not yet found in dataset. Then try to read from FORCES_FC3 or
     # FORCES_FC2.
     if force_filename is not None:
+        if overwrite_forces and dataset is not None:
+            _remove_forces_in_dataset(dataset)
         if dataset is None or (dataset is not None and not forces_in_dataset(dataset)):
             dataset = _read_FORCES_FC3_or_FC2(
                 natom, dataset, fc_type, filename=force_filename, log_level=log_level
@@ -772,6 +778,15 @@ def _convert_unit_in_dataset(
             dataset["forces"] = forces * force_to_eVperA
 
 
+def _remove_forces_in_dataset(dataset: dict) -> None:
+    dicts = [dataset]
+    for d1 in dataset.get("first_atoms", []):
+        dicts += [d1] + d1.get("second_atoms", [])
+    for d in dicts:
+        for key in ("forces", "supercell_energy", "supercell_energies"):
+            d.pop(key, None)
+
+
 def _to_ndarray(array, dtype="double"):
     if type(array) is not np.ndarray:
         return np.array(array, dtype=dtype, order="C")
diff --git a/phono3py/cui/load.py b/phono3py/cui/load.py
index 0dac61e..e7378f6 100644
--- a/phono3py/cui/load.py
+++ b/phono3py/cui/load.py
@@ -343,8 +343,15 @@ def load(
             log_level=log_level,
         )
 
+    # Files of forces specified explicitly precede fc3.hdf5 and fc2.hdf5 in
+    # current directory.
     load_fc2_and_fc3(
-        ph3py, fc3_filename=fc3_filename, fc2_filename=fc2_filename, log_level=log_level
+        ph3py,
+        fc3_filename=fc3_filename,
+        fc2_filename=fc2_filename,
+        search_fc3=forces_fc3_filename is None,
+        search_fc2=ph_smat is None or forces_fc2_filename is None,
+        log_level=log_level,
     )
     load_dataset_and_phonon_dataset(
         ph3py,
@@ -388,14 +395,16 @@ def load_fc2_and_fc3(
     ph3py: Phono3py,
     fc3_filename: Optional[os.PathLike] = None,
     fc2_filename: Optional[os.PathLike] = None,
+    search_fc3: bool = True,
+    search_fc2: bool = True,
     log_level: int = 0,
 ):
     """Set force constants."""
-    if fc3_filename is not None or pathlib.Path("fc3.hdf5").exists():
+    if fc3_filename is not None or (search_fc3 and pathlib.Path("fc3.hdf5").exists()):
         fc3 = _load_fc3(ph3py, fc3_filename=fc3_filename, log_level=log_level)
         ph3py.fc3 = fc3
 
-    if fc2_filename is not None or pathlib.Path("fc2.hdf5").exists():
+    if fc2_filename is not None or (search_fc2 and pathlib.Path("fc2.hdf5").exists()):
         fc2 = _load_fc2(ph3py, fc2_filename=fc2_filename, log_level=log_level)
         ph3py.fc2 = fc2
 
@@ -519,7 +528,8 @@ def _select_and_load_dataset(
 ) -> Optional[dict]:
     dataset = None
     if (
-        ph3py_yaml is not None
+        forces_fc3_filename is None
+        and ph3py_yaml is not None
         and ph3py_yaml.dataset is not None
         and forces_in_dataset(ph3py_yaml.dataset)
     ):
@@ -537,9 +547,12 @@ def _select_and_load_dataset(
             force_filename = "FORCES_FC3"
         else:
             force_filename = forces_fc3_filename
+        force_filename, disp_yaml = _get_forces_filename_and_displacements(
+            force_filename, ph3py_yaml
+        )
         dataset = _get_dataset_for_fc3(
             ph3py,
-            ph3py_yaml,
+            disp_yaml,
             force_filename,
             phono3py_yaml_filename,
             cutoff_pair_distance,
@@ -586,7 +599,8 @@ def _select_and_load_phonon_dataset(
 ) -> Optional[dict]:
     phonon_dataset = None
     if (
-        ph3py_yaml is not None
+        (forces_fc2_filename is None or ph3py.phonon_supercell_matrix is None)
+        and ph3py_yaml is not None
         and ph3py_yaml.phonon_dataset is not None
         and forces_in_dataset(ph3py_yaml.phonon_dataset)
     ):
@@ -605,9 +619,12 @@ def _select_and_load_phonon_dataset(
             force_filename = "FORCES_FC2"
         else:
             force_filename = forces_fc2_filename
+        force_filename, disp_yaml = _get_forces_filename_and_displacements(
+            force_filename, ph3py_yaml
+        )
         phonon_dataset = _get_dataset_for_fc2(
             ph3py,
-            ph3py_yaml,
+            disp_yaml,
             force_filename,
             "phonon_fc2",
             calculator,
@@ -628,6 +645,28 @@ def _select_and_load_phonon_dataset(
     return phonon_dataset
 
 
+def _get_forces_filename_and_displacements(
+    forces_filename: Union[str, bytes, os.PathLike, Sequence],
+    ph3py_yaml: Optional[Phono3pyYaml],
+) -> tuple[Union[str, bytes, os.PathLike], Optional[Phono3pyYaml]]:
+    """Return filename of forces and phono3py-yaml having displacements.
+
+    Displacements of type-1 dataset are those of the second file when two
+    filenames are given, of phono3py-yaml, or of phono3py_disp.yaml in current
+    directory.
+
+    """
+    if isinstance(forces_filename, (str, bytes, os.PathLike)):
+        if ph3py_yaml is not None or not pathlib.Path("phono3py_disp.yaml").exists():
+            return forces_filename, ph3py_yaml
+        disp_filename = "phono3py_disp.yaml"
+    else:
+        forces_filename, disp_filename = forces_filename
+    disp_yaml = Phono3pyYaml()
+    disp_yaml.read(disp_filename)
+    return forces_filename, disp_yaml
+
+
 def _get_dataset_for_fc3(
     ph3py: Phono3py,
     ph3py_yaml: Optional[Phono3pyYaml],
@@ -645,6 +684,7 @@ def _get_dataset_for_fc3(
         phono3py_yaml_filename=phono3py_yaml_filename,
         fc_type="fc3",
         calculator=calculator,
+        overwrite_forces=True,
         log_level=log_level,
     )
     return dataset
@@ -664,6 +704,7 @@ def _get_dataset_for_fc2(
         force_filename=force_filename,
         fc_type=fc_type,
         calculator=calculator,
+        overwrite_forces=True,
         log_level=log_level,
     )
     return dataset
-- 
2.43.0


From 5c37ec9b5c65243667c3050ef3f6e2ce7af6f2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 80/97] fix: phono3py-load overwrote fc3.hdf5 and fc2.hdf5
 which it had read

---
 phono3py/cui/phono3py_script.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phono3py/cui/phono3py_script.py b/phono3py/cui/phono3py_script.py
index 4598f3f..cad614c 100644
--- a/phono3py/cui/phono3py_script.py
+++ b/phono3py/cui/phono3py_script.py
@@ -593,11 +593,11 @@ def _store_force_constants(ph3py: Phono3py, settings: Phono3pySettings, log_leve
     if log_level:
         print("-" * 29 + " Force constants " + "-" * 30)
 
+    load_fc2_and_fc3(ph3py, log_level=log_level)
+
     read_fc3 = ph3py.fc3 is not None
     read_fc2 = ph3py.fc2 is not None
 
-    load_fc2_and_fc3(ph3py, log_level=log_level)
-
     cutoff_pair_distance = get_cutoff_pair_distance(settings)
     (fc_calculator, fc_calculator_options) = get_fc_calculator_params(
         settings, log_level=(not read_fc3) * 1
-- 
2.43.0


From b9ff06dccb85c4a6f023a231529f55bd8ef521e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 81/97] fix: fc2 could not be calculated when fc3 was not used

---
 phono3py/cui/create_force_constants.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/phono3py/cui/create_force_constants.py b/phono3py/cui/create_force_constants.py
index dfacf9f..fe43376 100644
--- a/phono3py/cui/create_force_constants.py
+++ b/phono3py/cui/create_force_constants.py
@@ -119,6 +119,10 @@ def create_phono3py_force_constants(
     if log_level:
         show_phono3py_force_constants_settings(settings)
 
+    (fc_calculator, fc_calculator_options) = get_fc_calculator_params(
+        settings, log_level=(not settings.read_fc3) * 1
+    )
+
     #######
     # fc3 #
     #######
@@ -132,9 +136,6 @@ def create_phono3py_force_constants(
     ):
         pass
     else:
-        (fc_calculator, fc_calculator_options) = get_fc_calculator_params(
-            settings, log_level=(not settings.read_fc3) * 1
-        )
         if settings.read_fc3:
             _read_phono3py_fc3(phono3py, symmetrize_fc3r, input_filename, log_level)
         else:  # fc3 from FORCES_FC3 or ph3py_yaml
-- 
2.43.0


From 9f71893a9baeaa9be31b85e233db9374eb38cbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 82/97] fix: Grueneisen parameters could not be calculated from
 compact force constants

---
 phono3py/phonon3/gruneisen.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/phono3py/phonon3/gruneisen.py b/phono3py/phonon3/gruneisen.py
index 9f6a7b4..75d03af 100644
--- a/phono3py/phonon3/gruneisen.py
+++ b/phono3py/phonon3/gruneisen.py
@@ -403,7 +403,7 @@ class Gruneisen:
         fc3 = self._fc3
         num_atom_prim = len(self._pcell)
         num_atom_super = len(self._scell)
-        p2s = self._pcell.p2s_map
+        fc3_index = self._get_first_atom_indices(fc3)
         dPhidu = np.zeros((num_atom_prim, num_atom_super, 3, 3, 3, 3), dtype=float)
 
         for nu in range(num_atom_prim):
@@ -415,7 +415,8 @@ class Gruneisen:
                             for ll in range(3):
                                 for _ in range(3):
                                     dPhidu[nu, pi, i, j, k, ll] = (
-                                        fc3[p2s[nu], pi, :, i, j, :] * Y[:, :, k, ll]
+                                        fc3[fc3_index[nu], pi, :, i, j, :]
+                                        * Y[:, :, k, ll]
                                     ).sum()
                                     # Symmetrization?
                                     # (Y[:,:,k,l] + Y[:,:,l,k]) / 2).sum()
@@ -442,7 +443,7 @@ class Gruneisen:
     def _get_X(self):
         num_atom_super = len(self._scell)
         num_atom_prim = len(self._pcell)
-        p2s = self._pcell.p2s_map
+        fc2_index = self._get_first_atom_indices(self._fc2)
         lat = self._pcell.cell
         X = np.zeros((num_atom_prim, 3, 3, 3), dtype=float)
         G = self._get_Gamma()
@@ -456,11 +457,17 @@ class Gruneisen:
                         for k in range(3):
                             for ll in range(3):
                                 X[mu, i, j, k] -= G[mu, nu, i, ll] * np.dot(
-                                    P[p2s[nu], :, ll, j], R[:, k]
+                                    P[fc2_index[nu], :, ll, j], R[:, k]
                                 )
 
         return X
 
+    def _get_first_atom_indices(self, fc):
+        """Return indices of first axis of force constants of primitive cell atoms."""
+        if fc.shape[0] == fc.shape[1]:
+            return self._pcell.p2s_map
+        return np.arange(len(self._pcell))  # Compact force constants
+
     def _get_R(self, num_atom_super, nu, lat):
         R = []
         for Npi in range(num_atom_super):
-- 
2.43.0


From e3af068b4d699379954b8b9dacd7b7280c7aea1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 83/97] fix: run_gruneisen_parameters failed unless factor was
 given

---
 phono3py/phonon3/gruneisen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phono3py/phonon3/gruneisen.py b/phono3py/phonon3/gruneisen.py
index 75d03af..6cd7d1b 100644
--- a/phono3py/phonon3/gruneisen.py
+++ b/phono3py/phonon3/gruneisen.py
@@ -142,7 +142,10 @@ class Gruneisen:
         self._scell = supercell
         self._pcell = primitive
         self._ion_clamped = ion_clamped
-        self._factor = factor
+        if factor is None:
+            self._factor = VaspToTHz
+        else:
+            self._factor = factor
         self._symprec = symprec
         self._dm = get_dynamical_matrix(
             self._fc2,
-- 
2.43.0


From 0cb4c5cc9359f720b3a6181589256ccef900dd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 84/97] fix: Grueneisen parameters were calculated from fc2 and
 fc3 of different supercells of equal numbers of atoms

---
 phono3py/cui/phono3py_script.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phono3py/cui/phono3py_script.py b/phono3py/cui/phono3py_script.py
index cad614c..c6ea9ee 100644
--- a/phono3py/cui/phono3py_script.py
+++ b/phono3py/cui/phono3py_script.py
@@ -703,7 +703,9 @@ def run_gruneisen_then_exit(
             print_error()
         sys.exit(1)
 
-    if len(phono3py.fc2) != len(phono3py.fc3):
+    if phono3py.phonon_supercell_matrix is not None and not np.array_equal(
+        phono3py.phonon_supercell_matrix, phono3py.supercell_matrix
+    ):
         print("Supercells used for fc2 and fc3 have to be same.")
         if log_level:
             print_error()
-- 
2.43.0


From 61cbd227e0e9abc36c56c25f9659d2fc7fc54913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 85/97] fix: wrong numbers of force files were not refused by
 --cf2, by --cf3 of random displacements, and by --cfz

---
 phono3py/cui/create_force_sets.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/phono3py/cui/create_force_sets.py b/phono3py/cui/create_force_sets.py
index 5a9f073..748473c 100644
--- a/phono3py/cui/create_force_sets.py
+++ b/phono3py/cui/create_force_sets.py
@@ -287,6 +287,11 @@ def _get_force_sets_fc2(
         print(f"  Number of displacements: {num_disps}")
         print(f"  Number of supercell files: {len(force_filenames)}")
 
+    if not _check_number_of_force_files(
+        disp_dataset, num_disps, force_filenames, disp_filename
+    ):
+        return {"forces": []}
+
     calc_dataset = get_calc_dataset(
         interface_mode,
         num_atoms,
@@ -380,11 +385,11 @@ def _get_force_sets_fc3(
         print(f"  Number of supercell files: {len(force_filenames)}")
         print(f'  Number of displacements in "{disp_filename}": {num_disps}')
 
-    if "first_atoms" in disp_dataset and not check_number_of_force_files(
-        num_disps, force_filenames, disp_filename
-    ):  # type-1
-        calc_dataset = {"forces": []}
-    else:  # type-2
+    if not _check_number_of_force_files(
+        disp_dataset, num_disps, force_filenames, disp_filename
+    ):
+        return {"forces": []}
+    else:
         if interface_mode == "wien2k":
             calc_dataset = get_fc3_calc_dataset_wien2k(
                 force_filenames,
@@ -449,6 +454,20 @@ def _get_force_sets_fc3(
     return calc_dataset
 
 
+def _check_number_of_force_files(
+    disp_dataset: dict, num_disps: int, force_filenames: list, disp_filename: str
+) -> bool:
+    """Check number of force files.
+
+    For type-2 dataset, number of force files can be less than number of
+    displacements.
+
+    """
+    if "first_atoms" not in disp_dataset and len(force_filenames) <= num_disps:
+        return True
+    return check_number_of_force_files(num_disps, force_filenames, disp_filename)
+
+
 def _set_forces_and_nac_params(
     ph3py_yaml: Phono3pyYaml,
     settings,
-- 
2.43.0


From 936c087507817505fe332224ed5163ba63ad2744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:26 +0000
Subject: [PATCH 86/97] fix: --cf3, --cf2 and --cfz crashed when forces could
 not be read from a file

---
 phono3py/cui/create_force_sets.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/phono3py/cui/create_force_sets.py b/phono3py/cui/create_force_sets.py
index 748473c..706b920 100644
--- a/phono3py/cui/create_force_sets.py
+++ b/phono3py/cui/create_force_sets.py
@@ -298,6 +298,8 @@ def _get_force_sets_fc2(
         force_filenames,
         verbose=(log_level > 0),
     )
+    if not calc_dataset or not calc_dataset["forces"]:
+        return {"forces": []}
     force_sets = calc_dataset["forces"]
     if "points" in calc_dataset:
         if filename := check_agreements_of_displacements(
@@ -321,6 +323,8 @@ def _get_force_sets_fc2(
             ],
             verbose=(log_level > 0),
         )
+        if not calc_dataset_zero or not calc_dataset_zero["forces"]:
+            return {"forces": []}
         if "points" in calc_dataset_zero:
             if check_agreement_of_supercell_positions(
                 supercell, calc_dataset_zero["points"][0]
@@ -406,6 +410,8 @@ def _get_force_sets_fc3(
                 force_filenames,
                 verbose=(log_level > 0),
             )
+        if not calc_dataset or not calc_dataset["forces"]:
+            return {"forces": []}
         force_sets = calc_dataset["forces"]
         if "points" in calc_dataset:
             if filename := check_agreements_of_displacements(
@@ -426,6 +432,8 @@ def _get_force_sets_fc3(
             ],
             verbose=(log_level > 0),
         )
+        if not calc_dataset_zero or not calc_dataset_zero["forces"]:
+            return {"forces": []}
         force_set_zero = calc_dataset_zero["forces"][0]
         if "points" in calc_dataset_zero:
             if check_agreement_of_supercell_positions(
-- 
2.43.0


From 4dbf0f290f2fd2ebcf8f1a3ce14ada8ae4739da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:22 +0000
Subject: [PATCH 87/97] fix: atomic positions of pairs of displacements were
 not compared by --cf3

---
 phono3py/cui/create_force_sets.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/phono3py/cui/create_force_sets.py b/phono3py/cui/create_force_sets.py
index 706b920..adf414b 100644
--- a/phono3py/cui/create_force_sets.py
+++ b/phono3py/cui/create_force_sets.py
@@ -415,7 +415,10 @@ def _get_force_sets_fc3(
         force_sets = calc_dataset["forces"]
         if "points" in calc_dataset:
             if filename := check_agreements_of_displacements(
-                supercell, disp_dataset, calc_dataset["points"], force_filenames
+                supercell,
+                {"displacements": _get_supercell_displacements_fc3(disp_dataset)},
+                calc_dataset["points"],
+                force_filenames,
             ):
                 raise RuntimeError(
                     f'Displacements don\'t match with atomic positions in "{filename}".'
@@ -462,6 +465,29 @@ def _get_force_sets_fc3(
     return calc_dataset
 
 
+def _get_supercell_displacements_fc3(disp_dataset: dict) -> np.ndarray:
+    """Return displacements of all atoms in supercells calculated.
+
+    In type-1 dataset, a pair of displacements can be those of the same atom.
+
+    """
+    if "displacements" in disp_dataset:
+        return disp_dataset["displacements"]
+
+    natom = disp_dataset["natom"]
+    displacements = []
+    for d1 in disp_dataset["first_atoms"]:
+        displacements.append(np.zeros((natom, 3)))
+        displacements[-1][d1["number"]] = d1["displacement"]
+    for d1 in disp_dataset["first_atoms"]:
+        for d2 in d1["second_atoms"]:
+            if "included" not in d2 or d2["included"]:
+                displacements.append(np.zeros((natom, 3)))
+                displacements[-1][d1["number"]] = d1["displacement"]
+                displacements[-1][d2["number"]] += d2["displacement"]
+    return np.array(displacements, dtype="double", order="C")
+
+
 def _check_number_of_force_files(
     disp_dataset: dict, num_disps: int, force_filenames: list, disp_filename: str
 ) -> bool:
-- 
2.43.0


From 54473f7461471eab01a2405347c0ac1a1a659b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 88/97] fix: WIEN2k outputs of supercells with two
 displacements of the same atom could not be read by --cf3

---
 phono3py/cui/create_force_sets.py | 26 ++------------------------
 phono3py/interface/wien2k.py      |  4 ++--
 phono3py/phonon3/dataset.py       | 23 +++++++++++++++++++++++
 3 files changed, 27 insertions(+), 26 deletions(-)

diff --git a/phono3py/cui/create_force_sets.py b/phono3py/cui/create_force_sets.py
index adf414b..dcc80be 100644
--- a/phono3py/cui/create_force_sets.py
+++ b/phono3py/cui/create_force_sets.py
@@ -64,6 +64,7 @@ from phono3py.interface.phono3py_yaml import (
     displacements_yaml_lines_type1,
 )
 from phono3py.interface.wien2k import get_fc3_calc_dataset_wien2k
+from phono3py.phonon3.dataset import get_supercell_displacements_fc3
 
 
 def create_FORCES_FC3_and_FORCES_FC2(
@@ -416,7 +417,7 @@ def _get_force_sets_fc3(
         if "points" in calc_dataset:
             if filename := check_agreements_of_displacements(
                 supercell,
-                {"displacements": _get_supercell_displacements_fc3(disp_dataset)},
+                {"displacements": get_supercell_displacements_fc3(disp_dataset)},
                 calc_dataset["points"],
                 force_filenames,
             ):
@@ -465,29 +466,6 @@ def _get_force_sets_fc3(
     return calc_dataset
 
 
-def _get_supercell_displacements_fc3(disp_dataset: dict) -> np.ndarray:
-    """Return displacements of all atoms in supercells calculated.
-
-    In type-1 dataset, a pair of displacements can be those of the same atom.
-
-    """
-    if "displacements" in disp_dataset:
-        return disp_dataset["displacements"]
-
-    natom = disp_dataset["natom"]
-    displacements = []
-    for d1 in disp_dataset["first_atoms"]:
-        displacements.append(np.zeros((natom, 3)))
-        displacements[-1][d1["number"]] = d1["displacement"]
-    for d1 in disp_dataset["first_atoms"]:
-        for d2 in d1["second_atoms"]:
-            if "included" not in d2 or d2["included"]:
-                displacements.append(np.zeros((natom, 3)))
-                displacements[-1][d1["number"]] = d1["displacement"]
-                displacements[-1][d2["number"]] += d2["displacement"]
-    return np.array(displacements, dtype="double", order="C")
-
-
 def _check_number_of_force_files(
     disp_dataset: dict, num_disps: int, force_filenames: list, disp_filename: str
 ) -> bool:
diff --git a/phono3py/interface/wien2k.py b/phono3py/interface/wien2k.py
index a823fb3..747c15b 100644
--- a/phono3py/interface/wien2k.py
+++ b/phono3py/interface/wien2k.py
@@ -34,7 +34,7 @@
 # ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 # POSSIBILITY OF SUCH DAMAGE.
 
-from phono3py.phonon3.dataset import get_displacements_and_forces_fc3
+from phono3py.phonon3.dataset import get_supercell_displacements_fc3
 
 
 def get_fc3_calc_dataset_wien2k(
@@ -48,7 +48,7 @@ def get_fc3_calc_dataset_wien2k(
     """Read Wien2k output files and parse force sets."""
     from phonopy.interface.wien2k import parse_set_of_forces
 
-    disps, _ = get_displacements_and_forces_fc3(disp_dataset)
+    disps = get_supercell_displacements_fc3(disp_dataset)
     force_sets = parse_set_of_forces(
         disps,
         force_filenames,
diff --git a/phono3py/phonon3/dataset.py b/phono3py/phonon3/dataset.py
index 9b791f5..2d40643 100644
--- a/phono3py/phonon3/dataset.py
+++ b/phono3py/phonon3/dataset.py
@@ -124,3 +124,26 @@ def forces_in_dataset(dataset: Optional[dict]) -> bool:
     return "forces" in dataset or (
         "first_atoms" in dataset and "forces" in dataset["first_atoms"][0]
     )
+
+
+def get_supercell_displacements_fc3(disp_dataset: dict) -> np.ndarray:
+    """Return displacements of all atoms in supercells calculated.
+
+    In type-1 dataset, a pair of displacements can be those of the same atom.
+
+    """
+    if "displacements" in disp_dataset:
+        return disp_dataset["displacements"]
+
+    natom = disp_dataset["natom"]
+    displacements = []
+    for d1 in disp_dataset["first_atoms"]:
+        displacements.append(np.zeros((natom, 3)))
+        displacements[-1][d1["number"]] = d1["displacement"]
+    for d1 in disp_dataset["first_atoms"]:
+        for d2 in d1["second_atoms"]:
+            if "included" not in d2 or d2["included"]:
+                displacements.append(np.zeros((natom, 3)))
+                displacements[-1][d1["number"]] = d1["displacement"]
+                displacements[-1][d2["number"]] += d2["displacement"]
+    return np.array(displacements, dtype="double", order="C")
-- 
2.43.0


From d8c1184f2cf6dc4762a3c5ed5a33e5f53fe06a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:16 +0000
Subject: [PATCH 89/97] fix: compact fc2 of --dim-fc2 written by phono3py-load
 could not be read again

---
 phono3py/cui/phono3py_script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/cui/phono3py_script.py b/phono3py/cui/phono3py_script.py
index c6ea9ee..a51d92f 100644
--- a/phono3py/cui/phono3py_script.py
+++ b/phono3py/cui/phono3py_script.py
@@ -668,7 +668,7 @@ def _store_force_constants(ph3py: Phono3py, settings: Phono3pySettings, log_leve
     if not read_fc2:
         write_fc2_to_hdf5(
             ph3py.fc2,
-            p2s_map=ph3py.primitive.p2s_map,
+            p2s_map=ph3py.phonon_primitive.p2s_map,
             physical_unit="eV/angstrom^2",
             compression=settings.hdf5_compression,
         )
-- 
2.43.0


From fb5ef260c14f0e82f2e62967a13b9d75294cbb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:03 +0000
Subject: [PATCH 90/97] fix: SSCHA force constants of crystals with unequal
 masses were not those of the ensemble

---
 phono3py/sscha/sscha.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/phono3py/sscha/sscha.py b/phono3py/sscha/sscha.py
index 37ebe28..6eee425 100644
--- a/phono3py/sscha/sscha.py
+++ b/phono3py/sscha/sscha.py
@@ -386,6 +386,7 @@ class SecondOrderFC:
         self._forces = f
         self._uu = DispCorrMatrix(supercell_phonon, cutoff_frequency=cutoff_frequency)
         self._force_constants = supercell_phonon.force_constants
+        self._masses = supercell_phonon.supercell.masses
         self._cutoff_frequency = cutoff_frequency
         self._log_level = log_level
 
@@ -413,7 +414,7 @@ class SecondOrderFC:
             self._uu.run(T)
             Y = self._uu.upsilon_matrix
         2. From displacements used for the force calculations
-            Y = np.linalg.pinv(np.dot(u.T, u) / u.shape[0])
+            Y = _get_inverse_correlation_matrix(u, masses)
 
         They should give close results, otherwise self-consistency
         is not reached well. The later seems better agreement with
@@ -423,7 +424,7 @@ class SecondOrderFC:
         """
         u = self._displacements
         f = self._forces
-        Y = np.linalg.pinv(np.dot(u.T, u) / u.shape[0])
+        Y = _get_inverse_correlation_matrix(u, self._masses)
         u_inv = np.dot(u, Y)
 
         if self._log_level:
@@ -498,6 +499,7 @@ class ThirdOrderFC:
         self._forces = f
         self._uu = DispCorrMatrix(supercell_phonon, cutoff_frequency=cutoff_frequency)
         self._force_constants = supercell_phonon.force_constants
+        self._masses = supercell_phonon.supercell.masses
         self._cutoff_frequency = cutoff_frequency
         self._log_level = log_level
 
@@ -548,7 +550,7 @@ class ThirdOrderFC:
         # Y = self._uu.upsilon_matrix
         f = self._fmat
         u = self._displacements
-        Y = np.linalg.pinv(np.dot(u.T, u) / u.shape[0])
+        Y = _get_inverse_correlation_matrix(u, self._masses)
 
         # This is faster than multiplying Y after ansemble average at least
         # in python implementation.
@@ -562,3 +564,26 @@ class ThirdOrderFC:
             print("rms f:", np.sqrt((f**2).sum() / N))
 
         return -np.einsum("li,lj,lk->ijk", u_inv, u_inv, f) / f.shape[0]
+
+
+def _get_inverse_correlation_matrix(u, masses):
+    """Return inverse of displacement-displacement correlation matrix <u_a u_b>.
+
+    Random displacements have no component of the rigid translation in the
+    mass-weighted coordinates. Therefore, as for the Upsilon matrix, the
+    pseudo-inverse is taken in those coordinates.
+
+    Parameters
+    ----------
+    u : ndarray
+        Displacements. shape=(snap_shots, 3 * num_satom)
+    masses : array_like
+        Atomic masses. shape=(num_satom,)
+
+    """
+    sqrt_masses = np.repeat(np.sqrt(masses), 3)
+    v = u * sqrt_masses
+    vv_inv = np.linalg.pinv(
+        np.dot(v.T, v) / v.shape[0], rcond=1e-10, hermitian=True
+    )
+    return vv_inv * np.outer(sqrt_masses, sqrt_masses)
-- 
2.43.0


From a2d10d4448bdeb640a2571cfb7eb0d76b8772f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:03 +0000
Subject: [PATCH 91/97] fix: sigma_squared left the handling of floating-point
 errors changed when it failed

---
 phono3py/phonon/func.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/phono3py/phonon/func.py b/phono3py/phonon/func.py
index 434feef..b2096f7 100644
--- a/phono3py/phonon/func.py
+++ b/phono3py/phonon/func.py
@@ -90,16 +90,9 @@ def sigma_squared(x, T):
     Values in [AMU * Angstrom^2]
 
     """
-    #####################################
-    old_settings = np.seterr(all="raise")
-    #####################################
-
-    n = bose_einstein(x, T)
+    with np.errstate(all="raise"):
+        n = bose_einstein(x, T)
     # factor=1.0107576777968994
     factor = Hbar * EV / (2 * np.pi * THz) / AMU / Angstrom**2
 
-    #########################
-    np.seterr(**old_settings)
-    #########################
-
     return (0.5 + n) / x * factor
-- 
2.43.0


From 014668c949deef82b97af71a59dde82d9667ac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:03 +0000
Subject: [PATCH 92/97] fix: compressed polymlp.yaml could not be read, and
 another file of similar name hid polymlp.yaml

---
 phono3py/cui/create_force_constants.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/phono3py/cui/create_force_constants.py b/phono3py/cui/create_force_constants.py
index fe43376..5e6397e 100644
--- a/phono3py/cui/create_force_constants.py
+++ b/phono3py/cui/create_force_constants.py
@@ -550,22 +550,16 @@ def run_pypolymlp_to_compute_forces(
 
     mlp_loaded = False
     for mlp_filename in ["polymlp.yaml", "phono3py.pmlp"]:
-        _mlp_filename_list = list(pathlib.Path().glob(f"{mlp_filename}*"))
+        _mlp_filename_list = [
+            pathlib.Path(mlp_filename + ext)
+            for ext in ("", ".xz", ".gz", ".bz2", ".lzma")
+            if pathlib.Path(mlp_filename + ext).exists()
+        ]
         if _mlp_filename_list:
             _mlp_filename = _mlp_filename_list[0]
-            print(_mlp_filename)
-            if _mlp_filename.suffix not in [
-                ".yaml",
-                ".pmlp",
-                ".xz",
-                ".gz",
-                ".bz2",
-                "lzma",
-            ]:
-                continue
             if log_level:
-                print(f'Load MLPs from "{mlp_filename}".')
-            ph3py.load_mlp(mlp_filename)
+                print(f'Load MLPs from "{_mlp_filename}".')
+            ph3py.load_mlp(_mlp_filename)
             mlp_loaded = True
             if log_level and mlp_filename == "phono3py.pmlp":
                 print(f'Loading MLPs from "{_mlp_filename}" is obsolete.')
-- 
2.43.0


From 29808b44f59cd4eec1f131005e4a7ac152d6addf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:03 +0000
Subject: [PATCH 93/97] fix: evaluate_mlp failed with displacement pairs
 limited by cutoff distance

---
 phono3py/api_phono3py.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index c26d8f7..1a61f77 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2292,7 +2292,16 @@ class Phono3py:
         if self.supercells_with_displacements is None:
             raise RuntimeError("Displacements are not set. Run generate_displacements.")
 
-        energies, forces, _ = self._mlp.evaluate(self.supercells_with_displacements)
+        # Pairs of displacements beyond cutoff pair distance have no supercells.
+        supercells = self.supercells_with_displacements
+        included = [i for i, scell in enumerate(supercells) if scell is not None]
+        _energies, _forces, _ = self._mlp.evaluate([supercells[i] for i in included])
+        energies = np.zeros(len(supercells), dtype="double")
+        forces = np.zeros(
+            (len(supercells), len(self._supercell), 3), dtype="double", order="C"
+        )
+        energies[included] = _energies
+        forces[included] = _forces
         self.supercell_energies = energies
         self.forces = forces
 
-- 
2.43.0


From 8f9f7010d1cbe1152e11e382afdb4b608934e973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:03 +0000
Subject: [PATCH 94/97] fix: save_phonon_mlp looked at the machine learning
 potential for fc3

---
 phono3py/api_phono3py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 1a61f77..47dccc8 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2336,7 +2336,7 @@ class Phono3py:
 
     def save_phonon_mlp(self, filename: Optional[str] = None):
         """Save machine learning potential."""
-        if self._mlp is None:
+        if self._phonon_mlp is None:
             raise RuntimeError("MLP is not developed yet.")
 
         self._phonon_mlp.save(filename=filename)
-- 
2.43.0


From c9d2b92903d6ff1a891f272c4a30fbddcf5e007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:03 +0000
Subject: [PATCH 95/97] fix: absence of energies in mlp_dataset was not
 reported

---
 phono3py/api_phono3py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 47dccc8..e38e024 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2762,7 +2762,7 @@ class Phono3py:
             raise RuntimeError("Displacements have to be given.")
         if "forces" not in mlp_dataset:
             raise RuntimeError("Forces have to be given.")
-        if "supercell_energy" in mlp_dataset:
+        if "supercell_energies" not in mlp_dataset:
             raise RuntimeError("Supercell energies have to be given.")
         if len(mlp_dataset["displacements"]) != len(mlp_dataset["forces"]):
             raise RuntimeError("Length of displacements and forces are different.")
-- 
2.43.0


From 67d41bac12df438a777a5148a1304eb6e120c362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:03 +0000
Subject: [PATCH 96/97] fix: supercells_with_displacements without
 displacements raised TypeError

---
 phono3py/api_phono3py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index e38e024..8c770ad 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -790,7 +790,7 @@ class Phono3py:
             Phono3py.generate_displacements.
 
         """
-        if self._supercells_with_displacements is None:
+        if self._supercells_with_displacements is None and self._dataset is not None:
             self._build_supercells_with_displacements()
         return self._supercells_with_displacements
 
-- 
2.43.0


From 4f5615a0f4be47ea9bc7f0316ba8694e965dd61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:32 +0000
Subject: [PATCH 97/97] fix: load_mlp of an unreadable file left an empty
 machine learning potential

---
 phono3py/api_phono3py.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 8c770ad..a98d2c9 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2270,8 +2270,9 @@ class Phono3py:
 
     def load_mlp(self, filename: Optional[str] = None):
         """Load machine learning potential."""
-        self._mlp = PhonopyMLP(log_level=self._log_level)
-        self._mlp.load(filename=filename)
+        mlp = PhonopyMLP(log_level=self._log_level)
+        mlp.load(filename=filename)
+        self._mlp = mlp
 
     def evaluate_mlp(self):
         """Evaluate machine learning potential.
@@ -2343,8 +2344,9 @@ class Phono3py:
 
     def load_phonon_mlp(self, filename: Optional[str] = None):
         """Load machine learning potential."""
-        self._phonon_mlp = PhonopyMLP(log_level=self._log_level)
-        self._phonon_mlp.load(filename=filename)
+        phonon_mlp = PhonopyMLP(log_level=self._log_level)
+        phonon_mlp.load(filename=filename)
+        self._phonon_mlp = phonon_mlp
 
     def evaluate_phonon_mlp(self):
         """Evaluate the machine learning potential.
-- 
2.43.0

