From 48ccdf77f04ae48feddd8d3296a5e51f5496313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 01/50] fix: generalized regular grid with negative diagonal
 grid matrix

Transformation matrix of spglib can have negative diagonal elements (e.g.,
triclinic crystals). The mesh numbers became negative, by which memory was
corrupted when generating BZ grid addresses.
---
 phono3py/phonon/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phono3py/phonon/grid.py b/phono3py/phonon/grid.py
index 6f44d72..2b266b0 100644
--- a/phono3py/phonon/grid.py
+++ b/phono3py/phonon/grid.py
@@ -791,7 +791,8 @@ class GridMatrix:
         # If grid_matrix is a diagonal matrix, use it as D matrix.
         gm_diag = np.diagonal(_grid_matrix)
         if (np.diag(gm_diag) == _grid_matrix).all() and not force_SNF:
-            self._D_diag = np.array(gm_diag, dtype="int64")
+            # Sign of basis vectors is irrelevant to the grid lattice.
+            self._D_diag = np.array(np.abs(gm_diag), dtype="int64")
         else:
             import phono3py._recgrid as recgrid
 
-- 
2.43.0


From 3836bcc0f2497ff38589b48017faff201bd8ee55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:06 +0000
Subject: [PATCH 02/50] fix: BZ boundary tolerance depending on choice of Smith
 normal form basis

The tolerance to detect equidistant grid points on BZ boundary was computed
from Q of the Smith normal form, which is not unique and can have large
elements. Points far outside of the BZ were then considered to be on the
boundary, by which more than eight images per point overflowed the arrays.
---
 c/recgrid.c | 47 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/c/recgrid.c b/c/recgrid.c
index 1fe6f55..ad70471 100644
--- a/c/recgrid.c
+++ b/c/recgrid.c
@@ -45,6 +45,8 @@
 
 #define GRID_TOLERANCE_FACTOR 0.01
 
+static void reduce_basis_vectors(double lattice[3][3]);
+
 void recgrid_get_all_grid_addresses(int64_t (*gr_grid_addresses)[3],
                                     const int64_t D_diag[3]) {
     grg_get_all_grid_addresses(gr_grid_addresses, D_diag);
@@ -197,18 +199,22 @@ double recgrid_get_tolerance_for_BZ_reduction(const RecgridBZGrid *bzgrid) {
 
     for (i = 0; i < 3; i++) {
         for (j = 0; j < 3; j++) {
-            reclatQ[i][j] = bzgrid->reclat[i][0] * bzgrid->Q[0][j] +
-                            bzgrid->reclat[i][1] * bzgrid->Q[1][j] +
-                            bzgrid->reclat[i][2] * bzgrid->Q[2][j];
+            reclatQ[i][j] = (bzgrid->reclat[i][0] * bzgrid->Q[0][j] +
+                             bzgrid->reclat[i][1] * bzgrid->Q[1][j] +
+                             bzgrid->reclat[i][2] * bzgrid->Q[2][j]) /
+                            bzgrid->D_diag[j];
         }
     }
 
+    /* Q of SNF is not unique and its elements can be large. The tolerance */
+    /* has to be independent of the choice of basis vectors of microzone. */
+    reduce_basis_vectors(reclatQ);
+
     for (i = 0; i < 3; i++) {
         length[i] = 0;
         for (j = 0; j < 3; j++) {
             length[i] += reclatQ[j][i] * reclatQ[j][i];
         }
-        length[i] /= bzgrid->D_diag[i] * bzgrid->D_diag[i];
     }
     tolerance = length[0];
     for (i = 1; i < 3; i++) {
@@ -221,6 +227,39 @@ double recgrid_get_tolerance_for_BZ_reduction(const RecgridBZGrid *bzgrid) {
     return tolerance;
 }
 
+/* Pairwise reduction of basis vectors given as column vectors */
+static void reduce_basis_vectors(double lattice[3][3]) {
+    int64_t i, j, k, mult, is_reduced, count;
+    double dot_ij, dot_jj;
+
+    for (count = 0; count < 1000; count++) {
+        is_reduced = 1;
+        for (i = 0; i < 3; i++) {
+            for (j = 0; j < 3; j++) {
+                if (i == j) {
+                    continue;
+                }
+                dot_ij = 0;
+                dot_jj = 0;
+                for (k = 0; k < 3; k++) {
+                    dot_ij += lattice[k][i] * lattice[k][j];
+                    dot_jj += lattice[k][j] * lattice[k][j];
+                }
+                if (lagmat_Dabs(dot_ij) > 0.5 * dot_jj * (1 + 1e-5)) {
+                    mult = lagmat_Nint(dot_ij / dot_jj);
+                    for (k = 0; k < 3; k++) {
+                        lattice[k][i] -= mult * lattice[k][j];
+                    }
+                    is_reduced = 0;
+                }
+            }
+        }
+        if (is_reduced) {
+            break;
+        }
+    }
+}
+
 RecgridMats *recgrid_alloc_RotMats(const int64_t size) {
     RecgridMats *rotmats;
 
-- 
2.43.0


From cd20435501ae5eb9bd2eefe1b999753b768eda3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 03/50] fix: out-of-range BZ map access for triplets at a
 surface grid point

With the sparse BZ grid layout get_BZ_triplets_at_q_type1 indexed the map of
generalized regular grid points by the BZ grid index of q0.
---
 c/triplet_grid.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c/triplet_grid.c b/c/triplet_grid.c
index c562e8d..dfce022 100644
--- a/c/triplet_grid.c
+++ b/c/triplet_grid.c
@@ -258,7 +258,7 @@ static void get_BZ_triplets_at_q_type1(int64_t (*triplets)[3],
                                        const RecgridConstBZGrid *bzgrid,
                                        const int64_t *ir_q1_gps,
                                        const int64_t num_ir) {
-    int64_t i, j, gp2, num_gp, num_bzgp, bz0, bz1, bz2;
+    int64_t i, j, gp0, gp2, num_gp, num_bzgp, bz0, bz1, bz2;
     int64_t bzgp[3], G[3];
     int64_t bz_adrs0[3], bz_adrs1[3], bz_adrs2[3];
     const int64_t *gp_map;
@@ -275,6 +275,7 @@ static void get_BZ_triplets_at_q_type1(int64_t (*triplets)[3],
     for (i = 0; i < 3; i++) {
         bz_adrs0[i] = bz_adrs[grid_point][i];
     }
+    gp0 = recgrid_get_grid_index_from_address(bz_adrs0, bzgrid->D_diag);
     num_gp = bzgrid->D_diag[0] * bzgrid->D_diag[1] * bzgrid->D_diag[2];
     num_bzgp = num_gp * 8;
 
@@ -290,13 +291,12 @@ static void get_BZ_triplets_at_q_type1(int64_t (*triplets)[3],
         gp2 = recgrid_get_grid_index_from_address(bz_adrs2, bzgrid->D_diag);
         /* Negative value is the signal to initialize min_d2 later. */
         min_d2 = -1;
-        for (bz0 = 0; bz0 < gp_map[num_bzgp + grid_point + 1] -
-                                gp_map[num_bzgp + grid_point] + 1;
+        for (bz0 = 0; bz0 < gp_map[num_bzgp + gp0 + 1] - gp_map[num_bzgp + gp0] + 1;
              bz0++) {
             if (bz0 == 0) {
-                bzgp[0] = grid_point;
+                bzgp[0] = gp0;
             } else {
-                bzgp[0] = num_gp + gp_map[num_bzgp + grid_point] + bz0 - 1;
+                bzgp[0] = num_gp + gp_map[num_bzgp + gp0] + bz0 - 1;
             }
             for (bz1 = 0; bz1 < gp_map[num_bzgp + ir_q1_gps[i] + 1] -
                                     gp_map[num_bzgp + ir_q1_gps[i]] + 1;
-- 
2.43.0


From 9aa34242dbb31736e9b1fec5f14a65402c38a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:07 +0000
Subject: [PATCH 04/50] fix: uninitialised basis vectors in search of BZ
 triplets

bzgrid->reclat was used uninitialised when G=0 was not found, so that the
choice among translationally equivalent triplets depended on stale memory.
---
 c/gridsys.c  | 2 ++
 c/phono3py.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/c/gridsys.c b/c/gridsys.c
index 067ebf6..33acf1a 100644
--- a/c/gridsys.c
+++ b/c/gridsys.c
@@ -238,6 +238,8 @@ int64_t gridsys_get_bz_triplets_at_q(
         bzgrid->PS[i] = 0;
         for (j = 0; j < 3; j++) {
             bzgrid->Q[i][j] = Q[i][j];
+            /* Basis vectors are not given, so |G| is not measured. */
+            bzgrid->reclat[i][j] = 0;
         }
     }
     bzgrid->size = num_map_triplets;
diff --git a/c/phono3py.c b/c/phono3py.c
index 25d6e1f..8da3aa3 100644
--- a/c/phono3py.c
+++ b/c/phono3py.c
@@ -423,6 +423,8 @@ int64_t ph3py_get_BZ_triplets_at_q(
         bzgrid->PS[i] = 0;
         for (j = 0; j < 3; j++) {
             bzgrid->Q[i][j] = Q[i][j];
+            /* Basis vectors are not given, so |G| is not measured. */
+            bzgrid->reclat[i][j] = 0;
         }
     }
     bzgrid->size = num_map_triplets;
-- 
2.43.0


From 94c9046c92e4c3997e145c3a33eef9dbcda3392d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 05/50] fix: use NAC q-direction only at Gamma point in Wang
 NAC

With nac_q_direction given, the charge sum of Wang's method was computed
with the direction at every grid point instead of only at q=0.
---
 c/phonon.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/c/phonon.c b/c/phonon.c
index e0f707d..995d281 100644
--- a/c/phonon.c
+++ b/c/phonon.c
@@ -189,14 +189,14 @@ static void get_undone_phonons(
     const double reciprocal_lattice[3][3], const double *q_direction,
     const double nac_factor, const char uplo) {
     int64_t i, j, gp, num_band;
-    int64_t is_nac, info;
+    int64_t is_nac, is_gamma, info;
     double q[3];
     double *freqs_tmp;
 
     num_band = num_patom * 3;
 
 #ifdef _OPENMP
-#pragma omp parallel for private(j, q, gp, is_nac)
+#pragma omp parallel for private(j, q, gp, is_nac, is_gamma)
 #endif
     for (i = 0; i < num_undone_grid_points; i++) {
         gp = undone_grid_points[i];
@@ -207,10 +207,14 @@ static void get_undone_phonons(
         }
 
         is_nac = needs_nac(born, grid_address, gp, q_direction);
+        /* q_direction is used only at Gamma point. */
+        is_gamma = (grid_address[gp][0] == 0 && grid_address[gp][1] == 0 &&
+                    grid_address[gp][2] == 0);
         get_dynamical_matrix(eigenvectors + num_band * num_band * gp, q, fc2,
                              masses_fc2, p2s_fc2, s2p_fc2, multi_fc2, num_patom,
                              num_satom, svecs_fc2, is_nac, born, dielectric,
-                             reciprocal_lattice, q_direction, nac_factor);
+                             reciprocal_lattice, is_gamma ? q_direction : NULL,
+                             nac_factor);
     }
 
 #ifndef NO_INCLUDE_LAPACKE
-- 
2.43.0


From 0571b3e28e28c90d5fb072c8430d506c3a173f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 06/50] fix: first displacements were missing in
 Phono3py.displacements of pairs

For type-1 dataset, displacements of pair configurations contained only
those of the second atoms.
---
 phono3py/api_phono3py.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 52eed4f..875a33e 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -869,7 +869,8 @@ class Phono3py:
                 i += 1
             for disp1 in dataset["first_atoms"]:
                 for disp2 in disp1["second_atoms"]:
-                    displacements[i, disp2["number"]] = disp2["displacement"]
+                    displacements[i, disp1["number"]] = disp1["displacement"]
+                    displacements[i, disp2["number"]] += disp2["displacement"]
                     i += 1
         elif "displacements" in dataset:
             displacements = dataset["displacements"]
-- 
2.43.0


From b53aba9bbcba985cfe738d0ee320457fc15cdf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:21 +0000
Subject: [PATCH 07/50] fix: compact fc3 without symmetry refused displacements
 outside the primitive cell

---
 phono3py/phonon3/fc3.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/phono3py/phonon3/fc3.py b/phono3py/phonon3/fc3.py
index b0587e6..724bd84 100644
--- a/phono3py/phonon3/fc3.py
+++ b/phono3py/phonon3/fc3.py
@@ -110,13 +110,12 @@ def get_fc3(
     permutations = symmetry.atomic_permutations
 
     p2s_map = primitive.p2s_map
-    for i in first_disp_atoms:
-        assert i in p2s_map
 
     if is_compact_fc and "cutoff_distance" not in disp_dataset:
         s2p_map = primitive.s2p_map
         p2p_map = primitive.p2p_map
         s2compact = np.array([p2p_map[i] for i in s2p_map], dtype="int64")
+        first_disp_atoms = np.array([i for i in first_disp_atoms if i in p2s_map])
         target_atoms = [i for i in p2s_map if i not in first_disp_atoms]
     else:
         # distribute_fc3 prefers pure translation operations in distributing
@@ -695,13 +694,9 @@ def _get_fc3_least_atoms(
         num_patom = len(primitive)
         s2p_map = primitive.s2p_map
         p2p_map = primitive.p2p_map
-        first_atom_nums = []
-        for i in unique_first_atom_nums:
-            if i != s2p_map[i]:
-                print("Something wrong in displacement dataset.")
-                raise RuntimeError
-            else:
-                first_atom_nums.append(i)
+        # Atoms other than those in primitive cell are displaced when symmetry
+        # is not used. They are unnecessary for compact fc3.
+        first_atom_nums = [i for i in unique_first_atom_nums if i == s2p_map[i]]
         fc3 = np.zeros(
             (num_patom, num_satom, num_satom, 3, 3, 3), dtype="double", order="C"
         )
-- 
2.43.0


From b930cae35b317d4018a5d8aa78b04ef82670909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:21 +0000
Subject: [PATCH 08/50] fix: set_permutation_symmetry and
 set_translational_invariance of compact force constants

---
 phono3py/api_phono3py.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 875a33e..df7d9d1 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -48,6 +48,7 @@ from phonopy.harmonic.displacement import (
 )
 from phonopy.harmonic.dynamical_matrix import DynamicalMatrix
 from phonopy.harmonic.force_constants import (
+    compact_fc_to_full_fc,
     set_permutation_symmetry,
     set_translational_invariance,
     symmetrize_compact_force_constants,
@@ -1613,9 +1614,12 @@ class Phono3py:
     def set_permutation_symmetry(self):
         """Enforce permutation symmetry to fc2 and fc3."""
         if self._fc2 is not None:
-            set_permutation_symmetry(self._fc2)
+            self._symmetrize_fc2_by(set_permutation_symmetry)
         if self._fc3 is not None:
-            set_permutation_symmetry_fc3(self._fc3)
+            if self._fc3.shape[0] == self._fc3.shape[1]:
+                set_permutation_symmetry_fc3(self._fc3)
+            else:
+                set_permutation_symmetry_compact_fc3(self._fc3, self._primitive)
 
     def set_translational_invariance(self):
         """Enforce translation invariance.
@@ -1625,9 +1629,21 @@ class Phono3py:
 
         """
         if self._fc2 is not None:
-            set_translational_invariance(self._fc2)
+            self._symmetrize_fc2_by(set_translational_invariance)
         if self._fc3 is not None:
-            set_translational_invariance_fc3(self._fc3)
+            if self._fc3.shape[0] == self._fc3.shape[1]:
+                set_translational_invariance_fc3(self._fc3)
+            else:
+                set_translational_invariance_compact_fc3(self._fc3, self._primitive)
+
+    def _symmetrize_fc2_by(self, func):
+        """Apply func for full fc2 to either full or compact fc2."""
+        if self._fc2.shape[0] == self._fc2.shape[1]:
+            func(self._fc2)
+        else:
+            full_fc2 = compact_fc_to_full_fc(self._phonon_primitive, self._fc2)
+            func(full_fc2)
+            self._fc2[:] = full_fc2[self._phonon_primitive.p2s_map]
 
     def run_imag_self_energy(
         self,
-- 
2.43.0


From 3222af44c179b1af2c53ee526911b5adfed819f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:21 +0000
Subject: [PATCH 09/50] fix: Grueneisen parameters from compact force constants
 used supercell atom indices

---
 phono3py/phonon3/gruneisen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/phono3py/phonon3/gruneisen.py b/phono3py/phonon3/gruneisen.py
index 9f6a7b4..9bedf13 100644
--- a/phono3py/phonon3/gruneisen.py
+++ b/phono3py/phonon3/gruneisen.py
@@ -405,6 +405,8 @@ class Gruneisen:
         num_atom_super = len(self._scell)
         p2s = self._pcell.p2s_map
         dPhidu = np.zeros((num_atom_prim, num_atom_super, 3, 3, 3, 3), dtype=float)
+        if fc3.shape[0] != fc3.shape[1]:  # compact fc3
+            p2s = np.arange(num_atom_prim)
 
         for nu in range(num_atom_prim):
             Y = self._get_Y(nu)
@@ -447,6 +449,8 @@ class Gruneisen:
         X = np.zeros((num_atom_prim, 3, 3, 3), dtype=float)
         G = self._get_Gamma()
         P = self._fc2
+        if P.shape[0] != P.shape[1]:  # compact fc2
+            p2s = np.arange(num_atom_prim)
 
         for mu in range(num_atom_prim):
             for nu in range(num_atom_prim):
-- 
2.43.0


From 862a813471b9a5582caeb38f201852e05e3468d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:26 +0000
Subject: [PATCH 10/50] fix: symmetrized fc3q with band subsets or skipped
 elements read uninitialised memory

---
 c/interaction.c | 54 +++++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/c/interaction.c b/c/interaction.c
index ca1ea7c..6e26259 100644
--- a/c/interaction.c
+++ b/c/interaction.c
@@ -232,16 +232,23 @@ static void real_to_normal_sym_q(
     const int64_t num_band, const double cutoff_frequency,
     const int64_t triplet_index, const int64_t num_triplets,
     const int64_t openmp_per_triplets) {
-    int64_t i, j, k, l;
-    int64_t band_ex[3];
+    int64_t i, j, k;
+    int64_t band[3];
+    int64_t(*g_pos_ex)[4];
+    int64_t *band_indices_ex;
     double q_vecs_ex[3][3];
     double *fc3_normal_squared_ex;
 
-    fc3_normal_squared_ex =
-        (double *)malloc(sizeof(double) * num_band * num_band * num_band);
+    /* Elements of exchanged bands are stored at g_pos_ex[:, 3]. */
+    fc3_normal_squared_ex = (double *)malloc(sizeof(double) * num_g_pos);
+    g_pos_ex = (int64_t(*)[4])malloc(sizeof(int64_t[4]) * num_g_pos);
+    band_indices_ex = (int64_t *)malloc(sizeof(int64_t) * num_band);
+    for (i = 0; i < num_band; i++) {
+        band_indices_ex[i] = i;
+    }
 
-    for (i = 0; i < num_band0 * num_band * num_band; i++) {
-        fc3_normal_squared[i] = 0;
+    for (i = 0; i < num_g_pos; i++) {
+        fc3_normal_squared[g_pos[i][3]] = 0;
     }
 
     for (i = 0; i < 6; i++) {
@@ -250,32 +257,31 @@ static void real_to_normal_sym_q(
                 q_vecs_ex[j][k] = q_vecs[index_exchange[i][j]][k];
             }
         }
+        for (j = 0; j < num_g_pos; j++) {
+            band[0] = band_indices[g_pos[j][0]];
+            band[1] = g_pos[j][1];
+            band[2] = g_pos[j][2];
+            for (k = 0; k < 3; k++) {
+                g_pos_ex[j][k] = band[index_exchange[i][k]];
+            }
+            g_pos_ex[j][3] = j;
+        }
         real_to_normal(
-            fc3_normal_squared_ex, g_pos, num_g_pos,
+            fc3_normal_squared_ex, g_pos_ex, num_g_pos,
             freqs[index_exchange[i][0]], freqs[index_exchange[i][1]],
             freqs[index_exchange[i][2]], eigvecs[index_exchange[i][0]],
             eigvecs[index_exchange[i][1]], eigvecs[index_exchange[i][2]], fc3,
             is_compact_fc3, q_vecs_ex, /* q0, q1, q2 */
-            atom_triplets, masses, band_indices, num_band, cutoff_frequency,
+            atom_triplets, masses, band_indices_ex, num_band, cutoff_frequency,
             triplet_index, num_triplets, openmp_per_triplets);
-        for (j = 0; j < num_band0; j++) {
-            for (k = 0; k < num_band; k++) {
-                for (l = 0; l < num_band; l++) {
-                    band_ex[0] = band_indices[j];
-                    band_ex[1] = k;
-                    band_ex[2] = l;
-                    fc3_normal_squared[j * num_band * num_band + k * num_band +
-                                       l] +=
-                        fc3_normal_squared_ex[band_ex[index_exchange[i][0]] *
-                                                  num_band * num_band +
-                                              band_ex[index_exchange[i][1]] *
-                                                  num_band +
-                                              band_ex[index_exchange[i][2]]] /
-                        6;
-                }
-            }
+        for (j = 0; j < num_g_pos; j++) {
+            fc3_normal_squared[g_pos[j][3]] += fc3_normal_squared_ex[j] / 6;
         }
     }
 
+    free(band_indices_ex);
+    band_indices_ex = NULL;
+    free(g_pos_ex);
+    g_pos_ex = NULL;
     free(fc3_normal_squared_ex);
 }
-- 
2.43.0


From 06a3b804cdfaf5cbf2ba7b122862a1cbcf61d3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:35 +0000
Subject: [PATCH 11/50] fix: keep triplet-resolved linewidths of every sigma,
 temperature and grid point

detailed gammas at band frequencies were stored in the slot of the sigma
instead of the temperature, and the list returned had one entry per sigma.
---
 phono3py/phonon3/imag_self_energy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phono3py/phonon3/imag_self_energy.py b/phono3py/phonon3/imag_self_energy.py
index 5df9a1c..05c7e56 100644
--- a/phono3py/phonon3/imag_self_energy.py
+++ b/phono3py/phonon3/imag_self_energy.py
@@ -866,8 +866,8 @@ def _get_imag_self_energy_at_gp(
                     'self energy is written in\n"%s".' % full_filename
                 )
 
-        if return_gamma_detail:
-            detailed_gamma.append(detailed_gamma_at_gp)
+    if return_gamma_detail:
+        detailed_gamma.append(detailed_gamma_at_gp)
 
 
 def _get_imag_self_energy_at_sigma(
@@ -897,7 +897,7 @@ def _get_imag_self_energy_at_sigma(
             ise.run()
             gamma[j, k, i] = ise.imag_self_energy
             if write_gamma_detail or return_gamma_detail:
-                detailed_gamma_at_gp[k] = ise.detailed_imag_self_energy
+                detailed_gamma_at_gp_at_j[k] = ise.detailed_imag_self_energy
     else:
         run_ise_at_frequency_points_batch(
             i,
-- 
2.43.0


From 425a1bb9d69a0b850cf4f4dddc82068731933728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:16 +0000
Subject: [PATCH 12/50] fix: spectral function logging and band indices written
 to hdf5

Log messages referred to a file name that is undefined when nothing is written
(UnboundLocalError with log_level > 0), and the hdf5 file listed the bands of
the last group only.
---
 phono3py/phonon3/spectral_function.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/phono3py/phonon3/spectral_function.py b/phono3py/phonon3/spectral_function.py
index 95f4de3..fccc511 100644
--- a/phono3py/phonon3/spectral_function.py
+++ b/phono3py/phonon3/spectral_function.py
@@ -148,13 +148,13 @@ def run_spectral_function(
                             filename=output_filename,
                             is_mesh_symmetry=interaction.is_mesh_symmetry,
                         )
-                    if log_level:
-                        print(f'Spectral functions were written to "{filename}".')
+                        if log_level:
+                            print(f'Spectral functions were written to "{filename}".')
 
             if write_hdf5:
                 filename = write_spectral_function_to_hdf5(
                     gp,
-                    bi,
+                    interaction.band_indices,
                     temperatures,
                     spf.spectral_functions[sigma_i, :, i],
                     spf.shifts[sigma_i, :, i],
@@ -168,9 +168,9 @@ def run_spectral_function(
                     filename=output_filename,
                 )
 
-            if log_level:
-                print(f'Spectral functions were stored in "{filename}".')
-                sys.stdout.flush()
+                if log_level:
+                    print(f'Spectral functions were stored in "{filename}".')
+                    sys.stdout.flush()
 
     return spf
 
-- 
2.43.0


From 15517d47c8c60b56e9712b609931d3e704efcad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:17 +0000
Subject: [PATCH 13/50] fix: keep prephase of Umklapp triplets in Python
 real-to-reciprocal

The prephase factor was skipped unless all three address components of
q+q'+q'' were nonzero (or as the code happened to reduce them), so the
Python implementation lost it for Umklapp triplets with a zero component.
---
 phono3py/phonon3/real_to_reciprocal.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/phono3py/phonon3/real_to_reciprocal.py b/phono3py/phonon3/real_to_reciprocal.py
index cafa700..4793bfb 100644
--- a/phono3py/phonon3/real_to_reciprocal.py
+++ b/phono3py/phonon3/real_to_reciprocal.py
@@ -69,10 +69,7 @@ class RealToReciprocal:
 
     def _real_to_reciprocal(self):
         num_patom = len(self._primitive)
-        sum_triplets = np.where(
-            np.all(self._triplet != 0, axis=0), self._triplet.sum(axis=0), 0
-        )
-        sum_q = sum_triplets.astype("double") / self._mesh
+        sum_q = self._triplet.sum(axis=0).astype("double") / self._mesh
         for i in range(num_patom):
             for j in range(num_patom):
                 for k in range(num_patom):
-- 
2.43.0


From fb6847aa99ee4e33d5583d3613ad1a97f34ffd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:18 +0000
Subject: [PATCH 14/50] fix: write joint density of states at every temperature

---
 phono3py/api_jointdos.py | 8 ++++----
 phono3py/file_IO.py      | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/phono3py/api_jointdos.py b/phono3py/api_jointdos.py
index 33b08da..d0e871b 100644
--- a/phono3py/api_jointdos.py
+++ b/phono3py/api_jointdos.py
@@ -284,10 +284,10 @@ class Phono3pyJointDos:
                         self._jdos.run()
                         self._joint_dos[i_s, i_t, freq_indices] = self._jdos.joint_dos
 
-                    if write_jdos:
-                        filename = self._write(gp, i_sigma=i_s)
-                        if self._log_level:
-                            print('JDOS is written into "%s".' % filename)
+                if write_jdos:
+                    filename = self._write(gp, i_sigma=i_s)
+                    if self._log_level:
+                        print('JDOS is written into "%s".' % filename)
 
     @property
     def dynamical_matrix(self):
diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 62d43c4..f6154b6 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -524,7 +524,7 @@ def write_joint_dos(
         )
     else:
         for jdos_at_t, t in zip(jdos, temperatures):
-            return _write_joint_dos_at_t(
+            jdos_filename = _write_joint_dos_at_t(
                 gp,
                 mesh,
                 frequencies,
@@ -534,6 +534,7 @@ def write_joint_dos(
                 filename=filename,
                 is_mesh_symmetry=is_mesh_symmetry,
             )
+        return jdos_filename
 
 
 def _write_joint_dos_at_t(
-- 
2.43.0


From 4c52d25176b33def855cb37901a2946e834d43e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 15/50] fix: write gamma-isotope and averaged interaction of
 one band into kappa file

---
 phono3py/file_IO.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index f6154b6..88c1b20 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -1010,17 +1010,23 @@ def write_kappa_to_hdf5(
         if gamma is not None:
             w.create_dataset("gamma", data=gamma, compression=compression)
         if gamma_isotope is not None:
-            w.create_dataset(
-                "gamma_isotope", data=gamma_isotope, compression=compression
-            )
+            if np.ndim(gamma_isotope) == 0:
+                w.create_dataset("gamma_isotope", data=gamma_isotope)
+            else:
+                w.create_dataset(
+                    "gamma_isotope", data=gamma_isotope, compression=compression
+                )
         if gamma_N is not None:
             w.create_dataset("gamma_N", data=gamma_N, compression=compression)
         if gamma_U is not None:
             w.create_dataset("gamma_U", data=gamma_U, compression=compression)
         if averaged_pp_interaction is not None:
-            w.create_dataset(
-                "ave_pp", data=averaged_pp_interaction, compression=compression
-            )
+            if np.ndim(averaged_pp_interaction) == 0:
+                w.create_dataset("ave_pp", data=averaged_pp_interaction)
+            else:
+                w.create_dataset(
+                    "ave_pp", data=averaged_pp_interaction, compression=compression
+                )
         if qpoint is not None:
             w.create_dataset("qpoint", data=qpoint, compression=compression)
         if weight is not None:
-- 
2.43.0


From f2268542b8123c906fd9946fd5f42cf910bd54af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 16/50] fix: write gamma of Kubo conductivity that has no mode
 heat capacity

---
 phono3py/conductivity/utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index f7a66dc..fccb1e8 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -116,6 +116,11 @@ class ConductivityRTAWriter:
         volume = interaction.primitive.volume
         gamma_N, gamma_U = br.get_gamma_N_U()
 
+        if mode_heat_capacities is None:
+            mode_heat_capacities_i = None
+        else:
+            mode_heat_capacities_i = mode_heat_capacities[:, i]
+
         gp = grid_points[i]
         if all_bands_exist(interaction):
             if ave_pp is None:
@@ -145,7 +150,7 @@ class ConductivityRTAWriter:
                     group_velocity=group_velocities_i,
                     gv_by_gv=gv_by_gv_i,
                     velocity_operator=velocity_operator_i,
-                    heat_capacity=mode_heat_capacities[:, i],
+                    heat_capacity=mode_heat_capacities_i,
                     gamma=gamma[j, :, i],
                     gamma_isotope=gamma_isotope_at_sigma,
                     gamma_N=gamma_N_at_sigma,
@@ -174,6 +179,10 @@ class ConductivityRTAWriter:
                         gv_by_gv_ik = None
                     else:
                         gv_by_gv_ik = gv_by_gv_i[k]
+                    if mode_heat_capacities_i is None:
+                        heat_capacity_ik = None
+                    else:
+                        heat_capacity_ik = mode_heat_capacities_i[:, k]
                     if ave_pp is None:
                         ave_pp_ik = None
                     else:
@@ -199,7 +208,7 @@ class ConductivityRTAWriter:
                         group_velocity=group_velocities_ik,
                         gv_by_gv=gv_by_gv_ik,
                         velocity_operator=velocity_operator_ik,
-                        heat_capacity=mode_heat_capacities[:, i, k],
+                        heat_capacity=heat_capacity_ik,
                         gamma=gamma[j, :, i, k],
                         gamma_isotope=gamma_isotope_at_sigma,
                         gamma_N=gamma_N_at_sigma,
-- 
2.43.0


From f94ccb4afb038c75b5a6cdd2eafb8b24b7ee38d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 17/50] fix: refuse to read gamma at temperatures different
 from those of calculation

---
 phono3py/conductivity/utils.py | 16 ++++++++++++++++
 phono3py/file_IO.py            |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index fccb1e8..2dfa052 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -770,6 +770,7 @@ def set_gamma_from_file(
         if data:
             if verbose:
                 print("Read data from %s." % full_filename)
+            _check_gamma_temperatures(data, temperatures, full_filename)
             gamma[j] = data["gamma"]
             if "gamma_isotope" in data:
                 gamma_iso[j] = data["gamma_isotope"]
@@ -796,6 +797,7 @@ def set_gamma_from_file(
                 if data_gp:
                     if verbose:
                         print("Read data from %s." % full_filename)
+                    _check_gamma_temperatures(data_gp, temperatures, full_filename)
                     gamma[j, :, i] = data_gp["gamma"]
                     if "gamma_iso" in data_gp:
                         gamma_iso[j, i] = data_gp["gamma_iso"]
@@ -824,6 +826,9 @@ def set_gamma_from_file(
                         if data_band:
                             if verbose:
                                 print("Read data from %s." % full_filename)
+                            _check_gamma_temperatures(
+                                data_band, temperatures, full_filename
+                            )
                             gamma[j, :, i, bi] = data_band["gamma"]
                             if "gamma_iso" in data_band:
                                 gamma_iso[j, i, bi] = data_band["gamma_iso"]
@@ -850,6 +855,17 @@ def set_gamma_from_file(
         return False
 
 
+def _check_gamma_temperatures(data: dict, temperatures: np.ndarray, filename: str):
+    """Raise error when gamma in the file is not at the required temperatures."""
+    if "temperature" not in data:
+        return
+    temps = np.atleast_1d(data["temperature"])
+    if len(temps) != len(temperatures) or not np.allclose(temps, temperatures):
+        raise RuntimeError(
+            f"Temperatures in {filename} are different from those of calculation."
+        )
+
+
 class ShowCalcProgress:
     """Show calculation progress."""
 
diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 88c1b20..0a00e2f 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -1104,7 +1104,7 @@ def read_gamma_from_hdf5(
 
     with h5py.File(full_filename, "r") as f:
         read_data["gamma"] = f["gamma"][:]
-        for key in ("gamma_isotope", "ave_pp", "gamma_N", "gamma_U"):
+        for key in ("temperature", "gamma_isotope", "ave_pp", "gamma_N", "gamma_U"):
             if key in f.keys():
                 if len(f[key].shape) > 0:
                     read_data[key] = f[key][:]
-- 
2.43.0


From 12969be2cbb1322b678f60feb7d0e49f2f83346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 18/50] fix: write detailed gamma of each sigma in its own file

---
 phono3py/conductivity/rta.py   | 17 ++++++++++++++---
 phono3py/conductivity/utils.py |  7 ++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index 1771f5e..f7169b0 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -97,6 +97,7 @@ class ConductivityRTABase(ConductivityBase):
         self._gamma_N = None
         self._gamma_U = None
         self._gamma_detail_at_q = None
+        self._gamma_detail_at_sigmas = None
         self._use_ave_pp = use_ave_pp
         self._use_const_ave_pp = None
         self._num_ignored_phonon_modes = None
@@ -137,9 +138,15 @@ class ConductivityRTABase(ConductivityBase):
         self._gamma_N = gamma_N
         self._gamma_U = gamma_U
 
-    def get_gamma_detail_at_q(self):
-        """Return contribution of each triplet to gamma at current q-point."""
-        return self._gamma_detail_at_q
+    def get_gamma_detail_at_q(self, i_sigma=None):
+        """Return contribution of each triplet to gamma at current q-point.
+
+        The contribution for the last sigma is returned when ``i_sigma`` is None.
+
+        """
+        if i_sigma is None or self._gamma_detail_at_sigmas is None:
+            return self._gamma_detail_at_q
+        return self._gamma_detail_at_sigmas[i_sigma]
 
     def get_number_of_ignored_phonon_modes(self):
         """Return number of ignored phonon modes."""
@@ -230,6 +237,9 @@ class ConductivityRTABase(ConductivityBase):
             self._show_log(i_gp)
 
     def _set_gamma_at_sigmas(self, i):
+        if self._is_gamma_detail:
+            self._gamma_detail_at_sigmas = []
+
         for j, sigma in enumerate(self._sigmas):
             self._collision.set_sigma(sigma, sigma_cutoff=self._sigma_cutoff)
             self._collision.run_integration_weights()
@@ -297,6 +307,7 @@ class ConductivityRTABase(ConductivityBase):
                     order="C",
                 )
                 self._gamma_detail_at_q[:] = 0
+                self._gamma_detail_at_sigmas.append(self._gamma_detail_at_q)
 
             if self._log_level:
                 print("Calculating collisions at temperatures...")
diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index 2dfa052..7bddcb9 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -363,7 +363,6 @@ class ConductivityRTAWriter:
         verbose: bool = True,
     ):
         """Write detailed Gamma values to hdf5 files."""
-        gamma_detail = br.get_gamma_detail_at_q()
         temperatures = br.temperatures
         mesh = br.mesh_numbers
         bz_grid = br.bz_grid
@@ -375,7 +374,8 @@ class ConductivityRTAWriter:
         all_triplets = get_all_triplets(gp, interaction.bz_grid)
 
         if all_bands_exist(interaction):
-            for sigma in sigmas:
+            for j, sigma in enumerate(sigmas):
+                gamma_detail = br.get_gamma_detail_at_q(j)
                 write_gamma_detail_to_hdf5(
                     temperatures,
                     mesh,
@@ -392,7 +392,8 @@ class ConductivityRTAWriter:
                     verbose=verbose,
                 )
         else:
-            for sigma in sigmas:
+            for j, sigma in enumerate(sigmas):
+                gamma_detail = br.get_gamma_detail_at_q(j)
                 for k, bi in enumerate(interaction.get_band_indices()):
                     write_gamma_detail_to_hdf5(
                         temperatures,
-- 
2.43.0


From 62ae2cb12a44d4ffdae79ed99463a0cc18a8bfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:45 +0000
Subject: [PATCH 19/50] fix: use frequencies on regular grid in RTA of
 reducible collision matrix

---
 phono3py/conductivity/direct_solution.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index 4e689c5..85ebf29 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -1026,8 +1026,7 @@ class ConductivityLBTEBase(ConductivityBase):
             self._collision_matrix[i_sigma, i_temp].reshape(size, size)
         )
 
-        for gp in range(num_mesh_points):
-            frequencies = self._frequencies[gp]
+        for gp, frequencies in enumerate(self.get_frequencies_all()):
             for j, f in enumerate(frequencies):
                 if f > self._pp.cutoff_frequency:
                     i_mode = gp * num_band + j
-- 
2.43.0


From 265e651224e87ec498361104dbb905312bcaf2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 20/50] fix: ignore modes without scattering in RTA of
 reducible collision matrix

---
 phono3py/conductivity/direct_solution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index 85ebf29..3617962 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -1028,8 +1028,9 @@ class ConductivityLBTEBase(ConductivityBase):
 
         for gp, frequencies in enumerate(self.get_frequencies_all()):
             for j, f in enumerate(frequencies):
-                if f > self._pp.cutoff_frequency:
-                    i_mode = gp * num_band + j
+                i_mode = gp * num_band + j
+                # Modes without scattering are ignored as in ConductivityRTA.
+                if f > self._pp.cutoff_frequency and v_diag[i_mode] != 0:
                     Y[i_mode, :] = X[i_mode, :] / v_diag[i_mode]
         # Putting self._rotations_cartesian is to symmetrize kappa.
         # None can be put instead for watching pure information.
-- 
2.43.0


From b3262b6b946811b942e67f5b23bb63190cdbe148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 21/50] fix: use all grid points for collision matrix at grid
 points without kappa stars

---
 phono3py/conductivity/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/phono3py/conductivity/base.py b/phono3py/conductivity/base.py
index c2b3124..3156942 100644
--- a/phono3py/conductivity/base.py
+++ b/phono3py/conductivity/base.py
@@ -713,8 +713,12 @@ class ConductivityBase(ABC):
         ir_grid_points, grid_weights = self._get_ir_grid_points(grid_points)
         if grid_points is not None:  # Specify grid points
             _grid_points = np.array(grid_points, dtype="int64")
-            _ir_grid_points = ir_grid_points
-            _grid_weights = grid_weights
+            if self._is_kappa_star:
+                _ir_grid_points = ir_grid_points
+                _grid_weights = grid_weights
+            else:
+                _ir_grid_points = self._pp.bz_grid.grg2bzg
+                _grid_weights = np.ones(len(_grid_points), dtype="int64")
         elif not self._is_kappa_star:  # All grid points
             _grid_points = self._pp.bz_grid.grg2bzg
             _ir_grid_points = _grid_points
-- 
2.43.0


From 6f199f8e9ef88ebe1e10d15966f8fd925af760ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 22/50] fix: select temperatures by indices when reading
 collisions at grid points

---
 phono3py/file_IO.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 0a00e2f..9e80aa6 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -1151,7 +1151,10 @@ def read_collision_from_hdf5(
 
     if only_temperatures:
         with h5py.File(full_filename, "r") as f:
-            temperatures = np.array(f["temperature"][:], dtype="double")
+            if indices is None or indices == "all":
+                temperatures = np.array(f["temperature"][:], dtype="double")
+            else:
+                temperatures = np.array(f["temperature"][indices], dtype="double")
             return None, None, temperatures
 
     with h5py.File(full_filename, "r") as f:
-- 
2.43.0


From b751396fbfdbe9ec0b03912e4e76947ffd0d424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 23/50] fix: set gamma of all temperatures when reading
 collisions

---
 phono3py/conductivity/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index 7bddcb9..ad1b20e 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -1072,7 +1072,7 @@ def set_collision_from_file(
                 # The following invokes self._allocate_values()
                 lbte.temperatures = temperatures
             lbte.collision_matrix[i_sigma] = colmat_at_sigma[0]
-            lbte.gamma[i_sigma] = gamma_at_sigma[0]
+            lbte.gamma[i_sigma] = gamma_at_sigma
             read_from = "full_matrix"
         else:
             vals = _allocate_collision(
@@ -1271,7 +1271,7 @@ def _collect_collision_band(
         igp = bzg2grg[gp]
     else:
         igp = i
-    gamma_at_sigma[:, igp, j] = gamma_at_band[0]
+    gamma_at_sigma[:, igp, j] = gamma_at_band
     colmat_at_sigma[:, igp, j] = colmat_at_band[0]
     temperatures[:] = temperatures_at_band
 
-- 
2.43.0


From 6b0351d45ba0fcb036fab80f7850f475c4d55cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 24/50] fix: report failure when collision of a band is missing

---
 phono3py/conductivity/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index ad1b20e..ec16936 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -1263,7 +1263,7 @@ def _collect_collision_band(
     if log_level:
         sys.stdout.flush()
 
-    if collision_band is False:
+    if not collision_band:
         return False
 
     (colmat_at_band, gamma_at_band, temperatures_at_band) = collision_band
-- 
2.43.0


From ed2ecbc6e93a99cd3a553ee5cd25e1a459b5f808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 25/50] fix: write gamma_isotope of the grid point in collision
 file

---
 phono3py/conductivity/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index ec16936..990c47a 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -436,17 +436,19 @@ class ConductivityLBTEWriter:
 
         if i is not None:
             gp = grid_points[i]
+            # Index of gamma_isotope, which is stored for all grid points.
+            if is_reducible_collision_matrix:
+                igp_iso = interaction.bz_grid.bzg2grg[gp]
+            else:
+                igp_iso = i
             if is_one_gp_colmat:
                 igp = 0
             else:
-                if is_reducible_collision_matrix:
-                    igp = interaction.bz_grid.bzg2grg[gp]
-                else:
-                    igp = i
+                igp = igp_iso
             if all_bands_exist(interaction):
                 for j, sigma in enumerate(sigmas):
                     if gamma_isotope is not None:
-                        gamma_isotope_at_sigma = gamma_isotope[j, igp]
+                        gamma_isotope_at_sigma = gamma_isotope[j, igp_iso]
                     else:
                         gamma_isotope_at_sigma = None
                     write_collision_to_hdf5(
@@ -464,7 +466,7 @@ class ConductivityLBTEWriter:
                 for j, sigma in enumerate(sigmas):
                     for k, bi in enumerate(interaction.band_indices):
                         if gamma_isotope is not None:
-                            gamma_isotope_at_sigma = gamma_isotope[j, igp, k]
+                            gamma_isotope_at_sigma = gamma_isotope[j, igp_iso, k]
                         else:
                             gamma_isotope_at_sigma = None
                         write_collision_to_hdf5(
-- 
2.43.0


From 9dfbc694bfc8ab500e51a6932959c33e7df39012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 26/50] fix: store averaged interaction of reducible collision
 matrix at grid index

---
 phono3py/conductivity/direct_solution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index 3617962..515162f 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -519,7 +519,11 @@ class ConductivityLBTEBase(ConductivityBase):
                 self._collision.run_interaction(is_full_pp=self._is_full_pp)
 
             if self._is_full_pp and j == 0:
-                self._averaged_pp_interaction[i_gp] = self._pp.averaged_interaction
+                if self._is_reducible_collision_matrix:
+                    i_pp = self._pp.bz_grid.bzg2grg[self._grid_points[i_gp]]
+                else:
+                    i_pp = i_gp
+                self._averaged_pp_interaction[i_pp] = self._pp.averaged_interaction
 
             for k, t in enumerate(self._temperatures):
                 self._collision.temperature = t
-- 
2.43.0


From 6eebd3b51a3a490c19b33f643e06e7eff1426e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 27/50] fix: refuse to combine collisions at different
 temperatures

---
 phono3py/conductivity/utils.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index 990c47a..902e874 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -1073,6 +1073,7 @@ def set_collision_from_file(
                 arrays_allocated = True
                 # The following invokes self._allocate_values()
                 lbte.temperatures = temperatures
+            _check_collision_temperatures(temperatures, lbte.temperatures)
             lbte.collision_matrix[i_sigma] = colmat_at_sigma[0]
             lbte.gamma[i_sigma] = gamma_at_sigma
             read_from = "full_matrix"
@@ -1114,6 +1115,7 @@ def set_collision_from_file(
                 arrays_allocated = True
                 # The following invokes self._allocate_values()
                 lbte.temperatures = temperatures
+            _check_collision_temperatures(temperatures, lbte.temperatures)
 
             for i, gp in enumerate(grid_points):
                 if not _collect_collision_gp(
@@ -1155,6 +1157,14 @@ def set_collision_from_file(
     return read_from
 
 
+def _check_collision_temperatures(temperatures_at_file, temperatures):
+    """Raise error when pieces of collision matrix are at different temperatures."""
+    if len(temperatures_at_file) != len(temperatures) or not np.allclose(
+        temperatures_at_file, temperatures
+    ):
+        raise RuntimeError("Collisions at different temperatures are found in files.")
+
+
 def _allocate_collision(
     for_gps,
     mesh,
@@ -1225,13 +1235,13 @@ def _collect_collision_gp(
         return False
 
     (colmat_at_gp, gamma_at_gp, temperatures_at_gp) = collision_gp
+    _check_collision_temperatures(temperatures_at_gp, temperatures)
     if is_reducible_collision_matrix:
         igp = bzg2grg[gp]
     else:
         igp = i
     gamma_at_sigma[:, igp] = gamma_at_gp
     colmat_at_sigma[:, igp] = colmat_at_gp[0]
-    temperatures[:] = temperatures_at_gp
 
     return True
 
@@ -1269,12 +1279,12 @@ def _collect_collision_band(
         return False
 
     (colmat_at_band, gamma_at_band, temperatures_at_band) = collision_band
+    _check_collision_temperatures(temperatures_at_band, temperatures)
     if is_reducible_collision_matrix:
         igp = bzg2grg[gp]
     else:
         igp = i
     gamma_at_sigma[:, igp, j] = gamma_at_band
     colmat_at_sigma[:, igp, j] = colmat_at_band[0]
-    temperatures[:] = temperatures_at_band
 
     return True
-- 
2.43.0


From 6bd9279e16cb806c19dc9a795b59031d14fa0934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 28/50] fix: Wigner RTA conductivity of degenerate modes
 without linewidth became NaN

---
 phono3py/conductivity/rta.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index f7169b0..a59234f 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -759,6 +759,16 @@ class ConductivityWignerRTA(ConductivityWignerMixIn, ConductivityRTABase):
                             ):
                                 hbar_gamma_eV_s1 = 2.0 * g_sum[s1] * THzToEv
                                 hbar_gamma_eV_s2 = 2.0 * g_sum[s2] * THzToEv
+                                is_degenerate = (
+                                    np.abs(frequencies[s1] - frequencies[s2]) < 1e-4
+                                )
+                                if (
+                                    is_degenerate
+                                    and hbar_gamma_eV_s1 + hbar_gamma_eV_s2 == 0
+                                ):
+                                    # No linewidth, e.g., no final states at this q.
+                                    # As in ConductivityRTA, this is left out.
+                                    continue
                                 #
                                 lorentzian_divided_by_hbar = (
                                     0.5 * (hbar_gamma_eV_s1 + hbar_gamma_eV_s2)
@@ -776,7 +786,7 @@ class ConductivityWignerRTA(ConductivityWignerMixIn, ConductivityRTABase):
                                         + cv[k, s2] / hbar_omega_eV_s2
                                     )
                                 )
-                                if np.abs(frequencies[s1] - frequencies[s2]) < 1e-4:
+                                if is_degenerate:
                                     # degenerate or diagonal s1=s2 modes contribution
                                     # determine k_P
                                     contribution = (
-- 
2.43.0


From cabaa4c1dd305d8283883f4b7626863e804b7185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 29/50] fix: isotope scattering in Python followed neither the
 band indices nor the cutoff frequency

---
 phono3py/other/isotope.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/phono3py/other/isotope.py b/phono3py/other/isotope.py
index 5903c8a..c62fcdb 100644
--- a/phono3py/other/isotope.py
+++ b/phono3py/other/isotope.py
@@ -346,10 +346,13 @@ class Isotope:
             self._set_integration_weights(lang="Py")
 
         t_inv = []
-        for bi in self._band_indices:
+        for i_bi, bi in enumerate(self._band_indices):
             vec0 = self._eigenvectors[self._grid_point][:, bi].conj()
             f0 = self._frequencies[self._grid_point][bi]
             ti_sum = 0.0
+            if f0 < self._cutoff_frequency:
+                t_inv.append(0.0)
+                continue
             for gp in self._bz_grid.grg2bzg:
                 for j, (f, vec) in enumerate(
                     zip(self._frequencies[gp], self._eigenvectors[gp].T)
@@ -361,7 +364,7 @@ class Isotope:
                         * self._mass_variances
                     )
                     if self._sigma is None:
-                        ti_sum += ti_sum_band * self._integration_weights[gp, bi, j]
+                        ti_sum += ti_sum_band * self._integration_weights[gp, i_bi, j]
                     else:
                         ti_sum += ti_sum_band * gaussian(f0 - f, self._sigma)
             t_inv.append(np.pi / 2 / np.prod(self._bz_grid.D_diag) * f0**2 * ti_sum)
-- 
2.43.0


From b70cf315cd4137b763031c47e9e775b3b6471979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 30/50] fix: run_gruneisen_parameters failed with its default
 frequency factor

---
 phono3py/phonon3/gruneisen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/phonon3/gruneisen.py b/phono3py/phonon3/gruneisen.py
index 9bedf13..9744a78 100644
--- a/phono3py/phonon3/gruneisen.py
+++ b/phono3py/phonon3/gruneisen.py
@@ -56,7 +56,7 @@ def run_gruneisen_parameters(
     nac_params=None,
     nac_q_direction=None,
     ion_clamped=False,
-    factor=None,
+    factor=VaspToTHz,
     symprec=1e-5,
     output_filename=None,
     log_level=1,
-- 
2.43.0


From 49c0a49a3e0043d24c627de30396f26d97683eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:40 +0000
Subject: [PATCH 31/50] fix: Grueneisen parameters took the three lowest modes
 at Gamma for acoustic ones even with imaginary optical modes

---
 phono3py/phonon3/gruneisen.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/phono3py/phonon3/gruneisen.py b/phono3py/phonon3/gruneisen.py
index 9744a78..55223c4 100644
--- a/phono3py/phonon3/gruneisen.py
+++ b/phono3py/phonon3/gruneisen.py
@@ -353,9 +353,13 @@ class Gruneisen:
         g = np.zeros((len(omega2), 3, 3), dtype=float)
         num_atom_prim = len(self._pcell)
         dDdu = self._get_dDdu(q)
+        if (np.abs(q) < 1e-5).all():
+            skipped_modes = _get_acoustic_modes_at_gamma(omega2)
+        else:
+            skipped_modes = []
 
         for s in range(len(omega2)):
-            if (np.abs(q) < 1e-5).all() and s < 3:
+            if s in skipped_modes:
                 continue
             for i in range(3):
                 for j in range(3):
@@ -480,19 +484,28 @@ class Gruneisen:
         m = self._pcell.masses
         self._dm.run([0, 0, 0])
         vals, vecs = np.linalg.eigh(self._dm.dynamical_matrix.real)
+        # Eigenvectors are real. Acoustic modes are left out.
+        acoustic_modes = _get_acoustic_modes_at_gamma(vals)
+        vals = np.delete(vals, acoustic_modes)
+        vecs = np.delete(vecs, acoustic_modes, axis=1)
         G = np.zeros((num_atom_prim, num_atom_prim, 3, 3), dtype=float)
 
         for pi in range(num_atom_prim):
             for mu in range(num_atom_prim):
                 for k in range(3):
                     for i in range(3):
-                        # Eigenvectors are real.
-                        # 3: means optical modes
                         G[pi, mu, k, i] = (
                             1.0
                             / np.sqrt(m[pi] * m[mu])
-                            * (
-                                vecs[pi * 3 + k, 3:] * vecs[mu * 3 + i, 3:] / vals[3:]
-                            ).sum()
+                            * (vecs[pi * 3 + k] * vecs[mu * 3 + i] / vals).sum()
                         )
         return G
+
+
+def _get_acoustic_modes_at_gamma(eigenvalues):
+    """Return band indices of acoustic modes at Gamma point.
+
+    Those are not the lowest three when there is an imaginary optical mode.
+
+    """
+    return np.argsort(np.abs(eigenvalues))[:3]
-- 
2.43.0


From bdf4d3677767c822b52e08dda609aba92be2fdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 32/50] fix: get forces and energies of data sets without
 values of excluded pairs

---
 phono3py/api_phono3py.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index df7d9d1..02e8b45 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2603,13 +2603,17 @@ class Phono3py:
             elif target == "supercell_energies":
                 values = np.zeros(num_scells, dtype="double")
                 type1_target = "supercell_energy"
+            if type1_target not in self._dataset["first_atoms"][0]:
+                return None
             count = 0
             for disp1 in self._dataset["first_atoms"]:
                 values[count] = disp1[type1_target]
                 count += 1
             for disp1 in self._dataset["first_atoms"]:
                 for disp2 in disp1["second_atoms"]:
-                    values[count] = disp2[type1_target]
+                    # Supercells that are not included may have no values.
+                    if type1_target in disp2 or disp2.get("included", True):
+                        values[count] = disp2[type1_target]
                     count += 1
             return values
         return None
-- 
2.43.0


From e1bc329a57319f3aa177a61accc0b940f65a6efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 33/50] fix: refuse numbers of forces different from numbers of
 displacements

---
 phono3py/api_phono3py.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 02e8b45..868885d 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2622,6 +2622,11 @@ class Phono3py:
         self, values, target: Literal["forces", "supercell_energies"]
     ):
         if "first_atoms" in self._dataset:  # type-1
+            num_scells = len(self._dataset["first_atoms"])
+            for disp1 in self._dataset["first_atoms"]:
+                num_scells += len(disp1["second_atoms"])
+            if len(values) != num_scells:
+                raise RuntimeError(f"Array shape of input {target} is incorrect.")
             count = 0
             for disp1 in self._dataset["first_atoms"]:
                 if target == "forces":
@@ -2676,6 +2681,8 @@ class Phono3py:
             raise RuntimeError("Dataset for fc2 does not exist.")
 
         if "first_atoms" in self._phonon_dataset:
+            if len(values) != len(self._phonon_dataset["first_atoms"]):
+                raise RuntimeError(f"Array shape of input {target} is incorrect.")
             for disp, v in zip(self._phonon_dataset["first_atoms"], values):
                 if target == "forces":
                     disp[target] = np.array(v, dtype="double", order="C")
-- 
2.43.0


From 2d0195ea0d2e95398267012d02705c1182812eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 34/50] fix: use data sets without forces of excluded pairs in
 force constants calculators

---
 phono3py/phonon3/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phono3py/phonon3/dataset.py b/phono3py/phonon3/dataset.py
index d65aea9..884afd2 100644
--- a/phono3py/phonon3/dataset.py
+++ b/phono3py/phonon3/dataset.py
@@ -100,7 +100,8 @@ def get_displacements_and_forces_fc3(
             forces = None
         else:
             forces = np.array(forces[indices], dtype="double", order="C")
-            assert forces_count == count
+            # Forces of pairs that are not included are unnecessary.
+            assert forces_count in (len(indices), count)
 
         displacements = np.array(displacements[indices], dtype="double", order="C")
         return displacements, forces
-- 
2.43.0


From 94371afaa612c7202cf31c08636205fbcd828371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:23 +0000
Subject: [PATCH 35/50] fix: write type-2 FORCES_FC2 and FORCES_FC3 to given
 file with given forces

---
 phono3py/file_IO.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 9e80aa6..7d6e48f 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -49,7 +49,7 @@ from phonopy.cui.load_helper import read_force_constants_from_hdf5
 from phonopy.file_IO import (
     check_force_constants_indices,
     get_cell_from_disp_yaml,
-    write_FORCE_SETS,
+    get_FORCE_SETS_lines,
 )
 
 from phono3py.version import __version__
@@ -212,14 +212,7 @@ def write_FORCES_FC2(disp_dataset, forces_fc2=None, fp=None, filename="FORCES_FC
             for forces in force_set:
                 w.write("%15.10f %15.10f %15.10f\n" % tuple(forces))
     else:
-        if "forces" in disp_dataset:
-            write_FORCE_SETS(disp_dataset, filename="FORCES_FC2")
-        else:
-            if forces_fc2 is None:
-                raise RuntimeError("No forces are found.")
-            dataset = disp_dataset.copy()
-            dataset["forces"] = forces_fc2
-            write_FORCE_SETS(dataset, filename="FORCES_FC2")
+        w.write(_get_FORCES_type2_text(disp_dataset, forces=forces_fc2))
 
     if fp is None:
         w.close()
@@ -244,14 +237,24 @@ def write_FORCES_FC3(
         else:
             _write_FORCES_FC3_typeI(disp_dataset, fp, forces_fc3=forces_fc3)
     else:
-        if "forces" in disp_dataset:
-            write_FORCE_SETS(disp_dataset, filename="FORCES_FC3")
+        text = _get_FORCES_type2_text(disp_dataset, forces=forces_fc3)
+        if fp is None:
+            with open(filename, "w") as w:
+                w.write(text)
         else:
-            if forces_fc3 is None:
-                raise RuntimeError("No forces are found.")
-            dataset = disp_dataset.copy()
-            dataset["forces"] = forces_fc3
-            write_FORCE_SETS(dataset, filename="FORCES_FC3")
+            fp.write(text)
+
+
+def _get_FORCES_type2_text(
+    disp_dataset: dict, forces: Optional[Sequence] = None
+) -> str:
+    """Return content of type-2 FORCES_FC2 or FORCES_FC3."""
+    dataset = disp_dataset.copy()
+    if forces is not None:
+        dataset["forces"] = forces
+    if "forces" not in dataset:
+        raise RuntimeError("No forces are found.")
+    return "\n".join(get_FORCE_SETS_lines(dataset)) + "\n"
 
 
 def _write_FORCES_FC3_typeI(
-- 
2.43.0


From 84d6ac36bbd28e10f3df604288e1d6c6b79b51dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:23 +0000
Subject: [PATCH 36/50] fix: read forces for fc2 by the calculator recorded
 with displacements

---
 phono3py/cui/create_force_sets.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/phono3py/cui/create_force_sets.py b/phono3py/cui/create_force_sets.py
index 74d83f0..f44279b 100644
--- a/phono3py/cui/create_force_sets.py
+++ b/phono3py/cui/create_force_sets.py
@@ -267,7 +267,6 @@ def _get_force_sets_fc2(
     interface_mode: Optional[str],
     log_level: int,
 ) -> dict:
-    interface_mode = settings.calculator
     if log_level:
         print(f'FC2 displacement dataset was read from "{disp_filename}".')
 
-- 
2.43.0


From f5bd4c0bf4299a6433ad1e50d6f01598644812b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:23 +0000
Subject: [PATCH 37/50] fix: collect forces of calculators without supercell
 energies in phono3py_params.yaml

---
 phono3py/cui/create_force_sets.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/phono3py/cui/create_force_sets.py b/phono3py/cui/create_force_sets.py
index f44279b..5a9f073 100644
--- a/phono3py/cui/create_force_sets.py
+++ b/phono3py/cui/create_force_sets.py
@@ -476,9 +476,10 @@ def _set_forces_and_nac_params(
         ph3py_yaml.dataset["forces"] = np.array(
             calc_dataset_fc3["forces"], dtype="double", order="C"
         )
-        ph3py_yaml.dataset["supercell_energies"] = np.array(
-            calc_dataset_fc3["supercell_energies"], dtype="double"
-        )
+        if "supercell_energies" in calc_dataset_fc3:
+            ph3py_yaml.dataset["supercell_energies"] = np.array(
+                calc_dataset_fc3["supercell_energies"], dtype="double"
+            )
         if len(ph3py_yaml.dataset["forces"]) != len(
             ph3py_yaml.dataset["displacements"]
         ):
@@ -498,9 +499,10 @@ def _set_forces_and_nac_params(
             ph3py_yaml.phonon_dataset["forces"] = np.array(
                 calc_dataset_fc2["forces"], dtype="double", order="C"
             )
-            ph3py_yaml.phonon_dataset["supercell_energies"] = np.array(
-                calc_dataset_fc2["supercell_energies"], dtype="double"
-            )
+            if "supercell_energies" in calc_dataset_fc2:
+                ph3py_yaml.phonon_dataset["supercell_energies"] = np.array(
+                    calc_dataset_fc2["supercell_energies"], dtype="double"
+                )
             if len(ph3py_yaml.phonon_dataset["forces"]) != len(
                 ph3py_yaml.phonon_dataset["displacements"]
             ):
-- 
2.43.0


From 8253e81e85364d3ba5b2df11eb29db64c993112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:56 +0000
Subject: [PATCH 38/50] fix: refuse wrong numbers of force files for fc2 and
 random displacements

---
 phono3py/cui/create_force_sets.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/phono3py/cui/create_force_sets.py b/phono3py/cui/create_force_sets.py
index 5a9f073..0445ab4 100644
--- a/phono3py/cui/create_force_sets.py
+++ b/phono3py/cui/create_force_sets.py
@@ -259,6 +259,19 @@ def create_FORCE_SETS_from_FORCES_FCx(
             )
 
 
+def _check_number_of_force_files(
+    num_disps: int, force_filenames: list, disp_dataset: dict, disp_filename: str
+) -> bool:
+    """Check number of files.
+
+    The last displacements of type-2 dataset can be left uncomputed.
+
+    """
+    if "first_atoms" not in disp_dataset and len(force_filenames) < num_disps:
+        return True
+    return check_number_of_force_files(num_disps, force_filenames, disp_filename)
+
+
 def _get_force_sets_fc2(
     settings: Phono3pySettings,
     disp_dataset: dict,
@@ -287,6 +300,11 @@ def _get_force_sets_fc2(
         print(f"  Number of displacements: {num_disps}")
         print(f"  Number of supercell files: {len(force_filenames)}")
 
+    if not _check_number_of_force_files(
+        num_disps, force_filenames, disp_dataset, disp_filename
+    ):
+        return {"forces": []}
+
     calc_dataset = get_calc_dataset(
         interface_mode,
         num_atoms,
@@ -380,11 +398,11 @@ def _get_force_sets_fc3(
         print(f"  Number of supercell files: {len(force_filenames)}")
         print(f'  Number of displacements in "{disp_filename}": {num_disps}')
 
-    if "first_atoms" in disp_dataset and not check_number_of_force_files(
-        num_disps, force_filenames, disp_filename
-    ):  # type-1
-        calc_dataset = {"forces": []}
-    else:  # type-2
+    if not _check_number_of_force_files(
+        num_disps, force_filenames, disp_dataset, disp_filename
+    ):
+        return {"forces": []}
+    else:
         if interface_mode == "wien2k":
             calc_dataset = get_fc3_calc_dataset_wien2k(
                 force_filenames,
-- 
2.43.0


From 8c80c59163d440a1eefd502bf06dbce74a783b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 39/50] fix: put band indices and given name in file name of
 real self energies

---
 phono3py/file_IO.py                  | 11 ++++++++++-
 phono3py/phonon3/real_self_energy.py |  3 ++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 7d6e48f..b3b888a 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -615,6 +615,7 @@ def write_real_self_energy_to_hdf5(
     bz_grid=None,
     frequency_points=None,
     frequencies=None,
+    all_band_exist=False,
     filename=None,
 ):
     """Write real part of self energy (currently only bubble) in hdf5.
@@ -630,7 +631,13 @@ def write_real_self_energy_to_hdf5(
 
     """
     full_filename = "deltas"
-    suffix = _get_filename_suffix(mesh, grid_point=grid_point)
+    if all_band_exist:
+        _band_indices = None
+    else:
+        _band_indices = np.hstack(band_indices).astype("int64")
+    suffix = _get_filename_suffix(
+        mesh, grid_point=grid_point, band_indices=_band_indices
+    )
     _band_indices = np.array(band_indices, dtype="intc")
 
     full_filename += suffix
@@ -638,6 +645,8 @@ def write_real_self_energy_to_hdf5(
         full_filename += "-e" + _del_zeros(epsilon)
     else:
         full_filename += "-e%.3e" % epsilon
+    if filename is not None:
+        full_filename += f".{filename}"
     full_filename += ".hdf5"
 
     with h5py.File(full_filename, "w") as w:
diff --git a/phono3py/phonon3/real_self_energy.py b/phono3py/phonon3/real_self_energy.py
index 595c985..f0a08ce 100644
--- a/phono3py/phonon3/real_self_energy.py
+++ b/phono3py/phonon3/real_self_energy.py
@@ -46,7 +46,7 @@ from phono3py.file_IO import (
 )
 from phono3py.phonon.func import bose_einstein
 from phono3py.phonon3.imag_self_energy import get_frequency_points
-from phono3py.phonon3.interaction import Interaction
+from phono3py.phonon3.interaction import Interaction, all_bands_exist
 
 
 class RealSelfEnergy:
@@ -658,6 +658,7 @@ def get_real_self_energy(
                     bz_grid=bz_grid,
                     frequency_points=_frequency_points,
                     frequencies=frequencies,
+                    all_band_exist=all_bands_exist(interaction),
                     filename=output_filename,
                 )
 
-- 
2.43.0


From cd86b77fff13c05d78ce12fbb6afec5b7974b4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 40/50] fix: show scalar quantities without temperature by
 phono3py-kaccum

---
 phono3py/cui/kaccum_script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/cui/kaccum_script.py b/phono3py/cui/kaccum_script.py
index e452ade..f2f4fe6 100644
--- a/phono3py/cui/kaccum_script.py
+++ b/phono3py/cui/kaccum_script.py
@@ -38,7 +38,7 @@ def _show_tensor(kdos, temperatures, sampling_points, args):
 def _show_scalar(gdos, temperatures, sampling_points, args):
     """Show scalar values."""
     if args.pqj or args.gruneisen or args.gv_norm:
-        for f, g in zip(sampling_points, gdos[0]):
+        for f, g in zip(sampling_points[0], gdos[0]):
             print("%f %e %e" % (f, g[0], g[1]))
     else:
         for i, gdos_t in enumerate(gdos):
-- 
2.43.0


From 515bbb8e48829ef1a056316c053de63ce9accf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:46 +0000
Subject: [PATCH 41/50] fix: use given smearing width in GammaDOSsmearing

---
 phono3py/other/kaccum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/other/kaccum.py b/phono3py/other/kaccum.py
index d3c43a3..390be8a 100644
--- a/phono3py/other/kaccum.py
+++ b/phono3py/other/kaccum.py
@@ -230,7 +230,7 @@ class GammaDOSsmearing:
                 max(self._frequency_points) - min(self._frequency_points)
             ) / 100
         else:
-            self._sigma = 0.1
+            self._sigma = sigma
         self._smearing_function = NormalDistribution(self._sigma)
         self._run_smearing_method()
 
-- 
2.43.0


From 4fd2e39df1ce401f4c9f0876aba8f37123df480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:46 +0000
Subject: [PATCH 42/50] fix: include largest values in cumulative spectra of
 large values

---
 phono3py/other/kaccum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phono3py/other/kaccum.py b/phono3py/other/kaccum.py
index 390be8a..12b8fae 100644
--- a/phono3py/other/kaccum.py
+++ b/phono3py/other/kaccum.py
@@ -95,7 +95,10 @@ class KappaDOSTHM:
 
         """
         min_freq = min(frequencies.ravel())
-        max_freq = max(frequencies.ravel()) + epsilon
+        # The end has to be above the largest value also when it is so large that
+        # adding epsilon doesn't change it.
+        max_freq = max(frequencies.ravel())
+        max_freq = max(max_freq + epsilon, np.nextafter(max_freq, np.inf))
         if frequency_points is None:
             self._frequency_points = np.linspace(
                 min_freq, max_freq, num_sampling_points, dtype="double"
-- 
2.43.0


From 66dd072e6515edf367838e706957f854ab46f0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:59 +0000
Subject: [PATCH 43/50] fix: use frequencies at regular grid points of
 phonon-xxx.hdf5 in phono3py-kaccum

---
 phono3py/cui/kaccum_script.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/phono3py/cui/kaccum_script.py b/phono3py/cui/kaccum_script.py
index f2f4fe6..e639330 100644
--- a/phono3py/cui/kaccum_script.py
+++ b/phono3py/cui/kaccum_script.py
@@ -126,7 +126,7 @@ def _assert_grid_in_hdf5(
         np.testing.assert_allclose(diff_q, 0, atol=1e-5)
 
 
-def _get_mode_property(args, f_kappa):
+def _get_mode_property(args, f_kappa, frequencies):
     """Read property data from hdf5 file object."""
     if args.pqj:
         mode_prop = f_kappa["ave_pp"][:].reshape((1,) + f_kappa["ave_pp"].shape)
@@ -145,9 +145,7 @@ def _get_mode_property(args, f_kappa):
         mode_prop = f_kappa["gruneisen"][:].reshape((1,) + f_kappa["gruneisen"].shape)
         mode_prop **= 2
     elif args.dos:
-        mode_prop = np.ones(
-            (1,) + f_kappa["frequency"].shape, dtype="double", order="C"
-        )
+        mode_prop = np.ones((1,) + frequencies.shape, dtype="double", order="C")
     else:
         raise RuntimeError("No property target is specified.")
     return mode_prop
@@ -293,6 +291,9 @@ def _collect_data(
     else:
         print("# Read frequency.")
         frequencies = f_kappa["frequency"][:]
+        if len(frequencies) == len(bz_grid.addresses):
+            # This is to read "phonon-xxx.hdf5".
+            frequencies = frequencies[bz_grid.grg2bzg]
         ir_weights = np.ones(len(frequencies), dtype="int64")
 
     # ir_grid_points (GR-grid), ir_grid_map (GR-grid)
@@ -325,7 +326,7 @@ def _run_scalar(
     ir_grid_points: Optional[np.ndarray],
     bz_grid: BZGrid,
 ):
-    mode_prop = _get_mode_property(args, f_kappa)
+    mode_prop = _get_mode_property(args, f_kappa, frequencies)
 
     if args.temperature is not None and not (
         args.gv_norm or args.pqj or args.gruneisen or args.dos
-- 
2.43.0


From 3665dca92d6f54a70e75889deb88850973af00f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 44/50] fix: keep whether pairs are included when forces are
 stored in phono3py.yaml

---
 phono3py/interface/phono3py_yaml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phono3py/interface/phono3py_yaml.py b/phono3py/interface/phono3py_yaml.py
index 2037985..cb821bc 100644
--- a/phono3py/interface/phono3py_yaml.py
+++ b/phono3py/interface/phono3py_yaml.py
@@ -247,6 +247,8 @@ class Phono3pyYamlLoader(PhonopyYamlLoaderBase):
             second_atom_dict["id"] = d2_id
         if "pair_distance" in d2:
             second_atom_dict["pair_distance"] = d2["pair_distance"]
+        if "included" in d2:
+            second_atom_dict["included"] = d2["included"]
         if "supercell_energy" in d2:
             second_atom_dict["supercell_energy"] = d2["supercell_energy"]
         disp2_id += 1
@@ -557,6 +559,9 @@ def _second_displacements_yaml_lines(dataset2, id_offset, with_forces=False):
                 disp2_id += 1
                 lines.append("  - atom: %4d" % (i + 1))
                 lines.append("    pair_distance: %.8f" % dataset2[j]["pair_distance"])
+                if "included" in dataset2[j]:
+                    included = dataset2[j]["included"]
+                    lines.append("    included: %s" % ("true" if included else "false"))
                 lines.append("    displacement:")
                 lines.append(
                     "      [ %19.16f, %19.16f, %19.16f ]"
-- 
2.43.0


From bc443d24a4fbf4c38794471bf0582e96068d3df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 45/50] fix: compute fc3 from data sets without forces of
 excluded pairs

---
 phono3py/phonon3/fc3.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phono3py/phonon3/fc3.py b/phono3py/phonon3/fc3.py
index 724bd84..d46f76f 100644
--- a/phono3py/phonon3/fc3.py
+++ b/phono3py/phonon3/fc3.py
@@ -423,7 +423,10 @@ def _get_constrained_fc2(
             )
 
             disps2.append(disps_second["displacement"])
-            sets_of_forces.append(disps_second["forces"] - forces1)
+            if "forces" in disps_second or disps_second.get("included", True):
+                sets_of_forces.append(disps_second["forces"] - forces1)
+            else:  # Elements of pairs not included are set zero afterward.
+                sets_of_forces.append(-forces1)
 
         solve_force_constants(
             fc2, atom2, disps2, sets_of_forces, supercell, bond_sym, symprec
-- 
2.43.0


From 04ed9b4fb6532ab7d2f7d9c01828d0058ebbbfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 46/50] fix: leave object unchanged when number of masses is
 wrong

---
 phono3py/api_phono3py.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 868885d..e658a63 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -760,6 +760,8 @@ class Phono3py:
         if masses is None:
             return
         p_masses = np.array(masses)
+        if len(p_masses) != len(self._primitive):
+            raise RuntimeError("Number of masses is inconsistent with primitive cell.")
         self._primitive.masses = p_masses
         p2p_map = self._primitive.p2p_map
         s_masses = p_masses[[p2p_map[x] for x in self._primitive.s2p_map]]
-- 
2.43.0


From fe61932d0f384b5733ca6311d4b0dae317723ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 47/50] fix: do not ignore sigma values given in numpy data
 types

---
 phono3py/api_phono3py.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index e658a63..1348dcf 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -391,12 +391,7 @@ class Phono3py:
                 float(sigmas),
             ]
         else:
-            self._sigmas = []
-            for s in sigmas:
-                if isinstance(s, float) or isinstance(s, int):
-                    self._sigmas.append(float(s))
-                elif s is None:
-                    self._sigmas.append(None)
+            self._sigmas = [None if s is None else float(s) for s in sigmas]
 
     @property
     def sigma_cutoff(self) -> Optional[float]:
-- 
2.43.0


From 6f65659df4d9c0c273fd069b2d4b2374178a7c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 48/50] fix: do not use old phonons at Gamma after dynamical
 matrix is renewed

---
 phono3py/phonon3/interaction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 700c4e3..090a8f3 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -1040,6 +1040,8 @@ class Interaction:
         self._eigenvectors = np.zeros(
             (num_grid, num_band, num_band), dtype=complex_dtype, order="C"
         )
+        self._frequencies_at_gamma = None
+        self._eigenvectors_at_gamma = None
         gp_Gamma = self._bz_grid.gp_Gamma
         self.run_phonon_solver_at_gamma()
         self._frequencies_at_gamma = self._frequencies[gp_Gamma].copy()
-- 
2.43.0


From fbf1278deaa46e04edcda3ef00fb672410d3241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:38 +0000
Subject: [PATCH 49/50] fix: do not replace given phonons at Gamma without
 q-direction

---
 phono3py/phonon3/interaction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 090a8f3..82c60ac 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -734,10 +734,13 @@ class Interaction:
             otherwise without NAC. Default is False.
 
         """
-        if not is_nac and self._frequencies_at_gamma is not None:
+        if self._frequencies_at_gamma is not None and (
+            not is_nac or self._nac_q_direction is None
+        ):
             gp_Gamma = self._bz_grid.gp_Gamma
             self._frequencies[gp_Gamma] = self._frequencies_at_gamma
             self._eigenvectors[gp_Gamma] = self._eigenvectors_at_gamma
+            self._done_nac_at_gamma = False
             return
 
         self._phonon_done[self._bz_grid.gp_Gamma] = 0
-- 
2.43.0


From d20183be52fb1ffc1028d6fe9d4cb760155d50e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:58 +0000
Subject: [PATCH 50/50] fix: solve phonons at Gamma again when q-direction of
 NAC is changed

---
 phono3py/phonon3/interaction.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 82c60ac..0ddac61 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -368,11 +368,20 @@ class Interaction:
 
     @nac_q_direction.setter
     def nac_q_direction(self, nac_q_direction):
+        previous = self._nac_q_direction
         if nac_q_direction is None:
             self._nac_q_direction = None
         else:
             self._nac_q_direction = np.array(nac_q_direction, copy=True, dtype="double")
 
+        # Phonons at Gamma of the previous direction are not used any more.
+        if self._phonon_done is None or np.array_equal(previous, self._nac_q_direction):
+            return
+        if self._nac_q_direction is None:
+            self.run_phonon_solver_at_gamma()
+        else:
+            self._phonon_done[self._bz_grid.gp_Gamma] = 0
+
     def get_nac_q_direction(self):
         """Return q-direction used for NAC at q->0."""
         warnings.warn(
@@ -740,6 +749,7 @@ class Interaction:
             gp_Gamma = self._bz_grid.gp_Gamma
             self._frequencies[gp_Gamma] = self._frequencies_at_gamma
             self._eigenvectors[gp_Gamma] = self._eigenvectors_at_gamma
+            self._phonon_done[gp_Gamma] = 1
             self._done_nac_at_gamma = False
             return
 
-- 
2.43.0

