From 94b17e50c6adc2bf44a35ef1edcd388359ff8524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:45 +0000
Subject: [PATCH 01/17] fix: image_kernel: do not prolong image bars that are
 already dead

When a kernel generator changed pivot to a domain generator whose image
bar had already died, the death of that image bar was overwritten with
the current radius.
---
 src/permaviss/persistence_algebra/image_kernel.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index 5e27f46..a6bb42d 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -178,7 +178,6 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
                         pivots_Ker[:col_idx], p)
                     if pivots_Ker[col_idx] != -1:
                         new_pivots.append(pivots_Ker[col_idx])
-                        Im_barcode[pivots_Ker[col_idx], 1] = rad
                         cycle_coord = Ker_coordinates[:, col_idx]
                         new_coord_Im = multiply_mod_p(
                             F[:, active_A],
-- 
2.43.0


From 1cafe25893a32882737d937e444fa32814981e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:45 +0000
Subject: [PATCH 02/17] fix: image_kernel: keep preimages consistent with image
 coordinates

The old entries of the preimage column outside of the active generators
were kept when replacing the image coordinates, so that F * PreIm was
different from the image coordinates.
---
 src/permaviss/persistence_algebra/image_kernel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index a6bb42d..6b7e022 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -189,6 +189,7 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
                                 :, pivots_Ker[col_idx]] = new_coord_Im
                             Im_barcode[pivots_Ker[col_idx], 1] = rad
                             pivots_Im[pivots_Ker[col_idx]] = int(-1)
+                            T[:, pivots_Ker[col_idx]] = 0
                             T[:, pivots_Ker[col_idx]][
                                 active_A] = cycle_coord[active_A]
                         # end if else
-- 
2.43.0


From b95bb9f3a898eb8ca95988e769738cd8fa3fb48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:45 +0000
Subject: [PATCH 03/17] fix: image_kernel: representatives of relative image
 bars must die with the bar

When a generator of the domain died in the relative case, the reduced
coordinates were kept, which could involve generators from before
start_index and outlive the bar.
---
 src/permaviss/persistence_algebra/image_kernel.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index 6b7e022..e11b777 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -203,6 +203,17 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
                 if (col_idx >= start_index) and (pivots_Im[col_idx] != -1):
                     Im_barcode[col_idx, 1] = rad
                     pivots_Im[col_idx] = int(-1)
+                    if start_index > 0:
+                        T[:, col_idx][:start_index] *= 0
+                        coord = multiply_mod_p(
+                            F, np.transpose([T[:, col_idx]]), p)[:, 0]
+                        # a reduced representative might outlive the bar,
+                        # in such a case use the dying generator itself
+                        if np.any(coord[active_B]):
+                            T[:, col_idx] *= 0
+                            T[col_idx, col_idx] = 1
+                            coord = F[:, col_idx]
+                        Im_coordinates[:, col_idx] = coord
                 # end if
             # end for
             # update broken barcodes
-- 
2.43.0


From c063d31b3cccb22cc565cd082a7f098a5a0c4048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:45 +0000
Subject: [PATCH 04/17] fix: image_kernel: recompute pivots that become stale
 in broken bases

update_broken may introduce nonzero entries below the current pivot. The
stale pivot lead to an infinite recursion or to wrong image bars.
---
 src/permaviss/persistence_algebra/image_kernel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index e11b777..0a6d307 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -223,6 +223,8 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
         new_pivots = []
         for col_idx, piv in enumerate(np.copy(pivots_Im)):
             if (piv >= 0 and Im_coordinates[piv, col_idx] % p == 0) or (
+                    piv >= 0 and B.broken_basis and np.any(Im_coordinates[
+                        active_B[active_B > piv], col_idx] % p)) or (
                     piv in dying_B) or (piv in new_pivots) or (col_idx in birth_A):
                 pivots_Im[col_idx] = pivot_check_reduce(
                     Im_coordinates, active_B, col_idx, pivots_Im[:col_idx],
-- 
2.43.0


From db5b8b5b17caeafbb55be610ec666a88ebc40029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:45 +0000
Subject: [PATCH 05/17] fix: image_kernel: cancel pivots at once instead of
 recursively

A recursive call was performed for each addition of the previous column,
which exceeds the recursion limit for large primes.
---
 .../persistence_algebra/image_kernel.py       | 28 +++++++++----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index 0a6d307..daf7be9 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -284,21 +284,19 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
 
 def pivot_check_reduce(M, active_rows, col_idx, pivots_prev, p, T=None):
     new_pivot = index_pivot(M[active_rows, col_idx] % p)
-    if new_pivot != -1:
+    while new_pivot != -1:
         new_pivot = int(active_rows[new_pivot])
-        if (new_pivot != -1) and (new_pivot in pivots_prev):
-            prev_idx = list(pivots_prev).index(new_pivot)
-            M[:, col_idx] = add_mod_c(
-                inv_mod_p(M[new_pivot, prev_idx], p) * M[:, prev_idx],
-                M[:, col_idx], p)
-            if np.any(T):
-                T[:, col_idx] = add_mod_c(
-                    inv_mod_p(M[new_pivot, prev_idx], p) * T[:, prev_idx],
-                    T[:, col_idx], p)
-            # end if not None
-            new_pivot = pivot_check_reduce(
-                M, active_rows, col_idx, pivots_prev, p, T)
-        # end if
-    # end if
+        if new_pivot not in pivots_prev:
+            break
+        prev_idx = list(pivots_prev).index(new_pivot)
+        # cancel the pivot entry using the previous column
+        q = (-M[new_pivot, col_idx] * inv_mod_p(
+            M[new_pivot, prev_idx] % p, p)) % p
+        M[:, col_idx] = add_mod_c(q * M[:, prev_idx], M[:, col_idx], p)
+        if np.any(T):
+            T[:, col_idx] = add_mod_c(q * T[:, prev_idx], T[:, col_idx], p)
+        # end if not None
+        new_pivot = index_pivot(M[active_rows, col_idx] % p)
+    # end while
     return int(new_pivot)
 # end def
-- 
2.43.0


From 7502585edfab04af1ffc76de3b28bb8e39ff6f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:45 +0000
Subject: [PATCH 06/17] fix: module_persistence_homology: quotient by the image
 when Base[d-1] is trivial

The homology was set to be the whole of Base[d], ignoring Im[d].
---
 .../persistence_algebra/module_persistence_homology.py      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/permaviss/persistence_algebra/module_persistence_homology.py b/src/permaviss/persistence_algebra/module_persistence_homology.py
index 8326975..b7eca08 100644
--- a/src/permaviss/persistence_algebra/module_persistence_homology.py
+++ b/src/permaviss/persistence_algebra/module_persistence_homology.py
@@ -102,7 +102,11 @@ def module_persistence_homology(D, Base, p):
             Hom[d] = barcode_basis([], Base[d])
         elif Base[d-1].dim == 0:
             Im[d-1] = Base[d-1]
-            Hom[d] = Base[d]
+            # All the generators from Base[d] lie in the kernel
+            Ker = barcode_basis(
+                Base[d].barcode, Base[d], np.identity(Base[d].dim))
+            Ker.sort()
+            Hom[d] = quotient(Ker, Im[d], p)
         else:
             # compute barcode bases for image and kernel
             Im[d - 1], Ker, PreIm[d] = image_kernel(
-- 
2.43.0


From 428eb570e798192dead129da924504568ff0739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:45 +0000
Subject: [PATCH 07/17] fix: create_MV_ss: keep persistent homology indexed by
 dimension

Trivial diagonals were skipped, which shifted all the higher dimensions.
---
 src/permaviss/spectral_sequence/MV_spectral_seq.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/permaviss/spectral_sequence/MV_spectral_seq.py b/src/permaviss/spectral_sequence/MV_spectral_seq.py
index 2455bc3..5df7ac9 100755
--- a/src/permaviss/spectral_sequence/MV_spectral_seq.py
+++ b/src/permaviss/spectral_sequence/MV_spectral_seq.py
@@ -274,6 +274,10 @@ def create_MV_ss(point_cloud, max_r, max_dim, max_div, overlap, p):
             PH, _ = image_kernel(
                 diagonal_basis, direct_sum_basis, diag_diff, MV_ss.p)
             MV_ss.persistent_homology.append(PH)
+        else:
+            # keep position of trivial persistent homology
+            MV_ss.order_diagonal_basis.append(np.array([], dtype=int))
+            MV_ss.persistent_homology.append(barcode_basis([]))
         # end if
     # end for
     print("Total PerMaViss time:{}".format(time.time()-start))
-- 
2.43.0


From 70816f2ebf61e8118896b1a349d64352cce6e452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:45 +0000
Subject: [PATCH 08/17] fix: generate_cover: handle point clouds which are flat
 along a coordinate

There were zero divisions along such a coordinate, and so an empty cover.
---
 src/permaviss/covers/cubical_cover.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/permaviss/covers/cubical_cover.py b/src/permaviss/covers/cubical_cover.py
index 159c4ae..547a29c 100755
--- a/src/permaviss/covers/cubical_cover.py
+++ b/src/permaviss/covers/cubical_cover.py
@@ -124,7 +124,11 @@ def generate_cover(max_div, overlap, point_cloud):
     div = []  # list containing no of divisions per dimension
     pos = []  # list containing current position
     for d in range(dim):
-        div.append(math.ceil((max_corner[d] - min_corner[d]) / side))
+        # at least one division, also when point_cloud is flat along d
+        if max_corner[d] > min_corner[d]:
+            div.append(math.ceil((max_corner[d] - min_corner[d]) / side))
+        else:
+            div.append(1)
         number_hypercubes *= div[d]  # compute total number of hypercubes
         pos.append(0)  # initialize position list to zero
 
-- 
2.43.0


From e5355ea5adec96b773832256cbe6ece1c1a78ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:45 +0000
Subject: [PATCH 09/17] fix: inv_mod_p: accept negative representatives

Negative numbers raised an error as if p was not a prime number.
---
 src/permaviss/gauss_mod_p/arithmetic_mod_p.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/permaviss/gauss_mod_p/arithmetic_mod_p.py b/src/permaviss/gauss_mod_p/arithmetic_mod_p.py
index 9492425..945221f 100644
--- a/src/permaviss/gauss_mod_p/arithmetic_mod_p.py
+++ b/src/permaviss/gauss_mod_p/arithmetic_mod_p.py
@@ -71,6 +71,7 @@ def inv_mod_p(a, p):
         print("cannot invert 0!")
         raise ValueError
 
+    a = a % p
     x0, x1 = 0, 1
     y0, y1 = 1, 0
     b = p
-- 
2.43.0


From 51ba0fc463a651377d06305752a462186725549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:45 +0000
Subject: [PATCH 10/17] fix: random_sphere: use the given radius

The points were always normalized to the unit sphere.
---
 src/permaviss/sample_point_clouds/examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permaviss/sample_point_clouds/examples.py b/src/permaviss/sample_point_clouds/examples.py
index 9c8265f..46169a8 100755
--- a/src/permaviss/sample_point_clouds/examples.py
+++ b/src/permaviss/sample_point_clouds/examples.py
@@ -167,7 +167,7 @@ def random_sphere(no_points, radius, dim):
         v = np.array(point)
         norm = np.linalg.norm(v)
         for d in range(dim):
-            point[d] = point[d] / norm
+            point[d] = radius * point[d] / norm
 
         point_cloud.append(point)
 
-- 
2.43.0


From 601c335fa0dc070e8b87f2e844e22bb5881097b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:19 +0000
Subject: [PATCH 11/17] fix: lift_to_page: coefficients in the image are needed
 when the homology is trivial

When all classes of a page entry are killed by the image, lift_to_page
dropped the image coefficients: representatives were left uncorrected, and
create_MV_ss raised ValueError or RuntimeError.
---
 .../spectral_sequence/spectral_sequence_class.py  | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index 1209417..ece2e2d 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -385,6 +385,12 @@ class spectral_sequence(object):
                 else:
                     Im_Hom = Hom.coordinates
                     barcode_col = Hom.barcode
+                prev_basis = Hom.prev_basis
+            elif Im.dim > 0 and k == target_page - 1:
+                # there might be coefficients in the image
+                Im_Hom = Im.coordinates
+                barcode_col = Im.barcode
+                prev_basis = Im.prev_basis
             else:
                 Betas = np.array([])
                 Gammas = np.array([])
@@ -395,7 +401,7 @@ class spectral_sequence(object):
             barcode_col = np.append(barcode_col, Beta_barcode, axis=0)
             A = np.append(Im_Hom, Betas, axis=1)
             # barcodes of rows
-            barcode_row = self.Hom[k][n_dim][deg].prev_basis.barcode
+            barcode_row = prev_basis.barcode
             # gaussian reduction on matrix between persistence modules
             # order here barcode_row
             rows_basis = barcode_basis(barcode_row)
@@ -987,9 +993,10 @@ class spectral_sequence(object):
             Tdeg = Sdeg - target_page + 2
             preimage_reps = []
             # obtain preimage_coefficients from expressions in -Gammas
-            preimage_coefficients = np.matmul(
-                self.PreIm[target_page - 1][Tn_dim][Tdeg], -Gammas.T
-            )
+            if np.any(Gammas):
+                preimage_coefficients = np.matmul(
+                    self.PreIm[target_page - 1][Tn_dim][Tdeg], -Gammas.T
+                )
             # case of target_page is special due to local coordinates
             if np.any(Gammas) and target_page == 2:
                 prev = 0
-- 
2.43.0


From 7dac4c9e64bcdf74504fa80bc62957a57653b310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:35 +0000
Subject: [PATCH 12/17] fix: cech_diff_and_lift_local: lift boundaries also
 where a region has no classes

---
 src/permaviss/spectral_sequence/spectral_sequence_class.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index ece2e2d..4b9865c 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -540,8 +540,9 @@ class spectral_sequence(object):
         # if nerve_spx_index==0, then prev=0
         prev = self.cycle_dimensions[n_dim][deg][nerve_spx_index-1]
         next = self.cycle_dimensions[n_dim][deg][nerve_spx_index]
-        # if trivial cover skip
-        if prev == next:
+        # if trivial cover skip. Notice that when there are no classes, images
+        # might still need to be lifted by the vertical differential
+        if prev == next and self.Im[0][n_dim][nerve_spx_index][deg].dim == 0:
             return
         # CECH DIFFERENTIAL
         generators, local_chains = self.cech_diff_local(
-- 
2.43.0


From 4baae002ad0c7501498875d3947ba14cb248ba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:31 +0000
Subject: [PATCH 13/17] fix: compute_higher_representatives: sum preimage
 representatives from the right page

---
 src/permaviss/spectral_sequence/spectral_sequence_class.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index 4b9865c..5b97a0f 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -1018,9 +1018,9 @@ class spectral_sequence(object):
                     prev = next
                 # end for
             elif np.any(Gammas):
-                for chains in self.Hom_reps[target_page][Tn_dim][Tdeg]:
+                for chains in self.Hom_reps[target_page - 2][Tn_dim][Tdeg]:
                     preimage_reps.append(local_chains.sums(
-                        chains, preimage_coefficients))
+                        chains, preimage_coefficients.T))
                 # add preimage reps to current tot_complex reps
                 for idx, chains in enumerate(preimage_reps):
                     total_complex_reps[
-- 
2.43.0


From 0192c5643cfefb6c0636266ede2732370b3253fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:59 +0000
Subject: [PATCH 14/17] fix: extension: subtract total boundaries when reducing
 by images of differentials

---
 .../spectral_sequence_class.py                | 35 +++++++++++--------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index 5b97a0f..5759466 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -1132,34 +1132,39 @@ class spectral_sequence(object):
                     raise(RuntimeError)
                 # MODIFY TOTAL COMPLEX REPS using GAMMAS
                 if np.any(Gammas):
-                    # compute coefficients of Gammas in 1st page
-                    image_classes = np.matmul(
-                        self.Im[target_page-1][Sn_dim][Sdeg].coordinates,
+                    # preimages of Gammas on page target_page - 1
+                    Tn_dim = Sn_dim + target_page - 1
+                    Tdeg = Sdeg - target_page + 2
+                    preimages = np.matmul(
+                        self.PreIm[target_page-1][Tn_dim][Tdeg],
                         -Gammas.T)
-                    # look for bars that might be already zero
                     if target_page == 2:
-                        # obtain coefficients for gammas
-                        image_chains = local_chains(
-                            self.nerve_spx_number[Sn_dim])
+                        # preimages are local cycles
+                        preimage_chains = local_chains(
+                            self.nerve_spx_number[Tn_dim])
                         prev = 0
                         for nerv_idx, next in enumerate(self.cycle_dimensions[
-                                Sn_dim][Sdeg]):
+                                Tn_dim][Tdeg]):
                             if prev < next:
-                                image_chains.add_entry(
+                                preimage_chains.add_entry(
                                     nerv_idx, range(np.size(Gammas, 0)),
                                     np.matmul(
-                                        image_classes[prev:next].T,
-                                        self.Hom[0][Sn_dim][nerv_idx][
-                                            Sdeg].coordinates.T)
+                                        preimages[prev:next].T,
+                                        self.Hom[0][Tn_dim][nerv_idx][
+                                            Tdeg].coordinates.T)
                                 )
                             prev = next
                         # end for
                     else:
-                        image_chains = local_chains.sums(
-                            self.Hom_reps[target_page-2][Sn_dim][Sdeg][0],
-                            image_classes.T
+                        preimage_chains = local_chains.sums(
+                            self.Hom_reps[target_page-2][Tn_dim][Tdeg][-1],
+                            preimages.T
                         )
                     # end else
+                    # the total differential of the preimages is the Cech
+                    # differential of their last entry
+                    image_chains = self.cech_diff(
+                        Sn_dim, Sdeg, preimage_chains)
                     chains += image_chains
                 # end if
             # end for
-- 
2.43.0


From aeb9691878a285594b1e0d0add2794a27a64d51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:45 +0000
Subject: [PATCH 15/17] fix: generate_cover: box corners of integer point
 clouds must not be truncated

---
 src/permaviss/covers/cubical_cover.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/permaviss/covers/cubical_cover.py b/src/permaviss/covers/cubical_cover.py
index 547a29c..ca3ab43 100755
--- a/src/permaviss/covers/cubical_cover.py
+++ b/src/permaviss/covers/cubical_cover.py
@@ -147,9 +147,9 @@ def generate_cover(max_div, overlap, point_cloud):
 
     for i in range(number_hypercubes):
         # Find two corners and center point of small hypercube
-        lcor = np.copy(min_corner)      # lower corner
-        ucor = np.copy(min_corner)      # upper corner
-        center = np.copy(min_corner)    # center point
+        lcor = np.array(min_corner, dtype=float)      # lower corner
+        ucor = np.array(min_corner, dtype=float)      # upper corner
+        center = np.array(min_corner, dtype=float)    # center point
         for d in range(dim):
             lcor[d] += side * pos[d]
             ucor[d] += side * pos[d]
-- 
2.43.0


From 0b30ba5c867046cbe58cba2da0a745919b0b89ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:00 +0000
Subject: [PATCH 16/17] fix: extension: negate lifts modulo the prime of the
 spectral sequence

---
 src/permaviss/spectral_sequence/spectral_sequence_class.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index 5759466..76c9619 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -1173,6 +1173,9 @@ class spectral_sequence(object):
                                                      death_radii)
 
             # correct sign of lift_coord and trivialise references
+            # negate modulo the prime of this spectral sequence: `p` of the
+            # class is set by whichever spectral sequence was created last
+            lift_coord.p = self.p
             lift_coord.minus()
             # end for
             # if lift to first page is nonzero, raise an error
-- 
2.43.0


From b86d81fe7c402d838fe0a5e523055b563f168c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:58 +0000
Subject: [PATCH 17/17] fix: spectral sequence: reduce products of
 representatives modulo p

Products of representatives, preimages and lifts were left unreduced and
multiplied again; with large primes the coordinates left the range where
doubles are exact and the pipeline raised or gave wrong classes.
---
 .../spectral_sequence/local_chains_class.py   |  6 +++-
 .../spectral_sequence_class.py                | 35 ++++++++++---------
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/permaviss/spectral_sequence/local_chains_class.py b/src/permaviss/spectral_sequence/local_chains_class.py
index 44faadc..181dd6f 100644
--- a/src/permaviss/spectral_sequence/local_chains_class.py
+++ b/src/permaviss/spectral_sequence/local_chains_class.py
@@ -151,7 +151,7 @@ class local_chains(object):
     ###########################################################################
     # local_sums
 
-    def sums(chains, coord_sums):
+    def sums(chains, coord_sums, p=None):
         """Sum chains as indicated by "coord_sums"
 
         Parameters
@@ -161,6 +161,8 @@ class local_chains(object):
         coord_sums : :obj:`Numpy Array`
             Each sum is given by rows in coord_sums. These store the
             coefficients that the chain entries need to be added.
+        p : int(prime), default is None
+            If given, the resulting coordinates are reduced mod p.
 
         """
         no_sums = np.size(coord_sums, axis=0)
@@ -171,6 +173,8 @@ class local_chains(object):
                 new_ref.append(np.array(range(no_sums)).astype(int))
                 new_coord.append(np.matmul(
                     chains.coord[local_idx].T, (coord_sums.T)[ref]).T)
+                if p is not None:
+                    new_coord[-1] %= p
             else:
                 new_ref.append([])
                 new_coord.append([])
diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index 76c9619..d303adc 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -9,6 +9,7 @@ from functools import partial
 
 from ..simplicial_complexes.differentials import complex_differentials
 from ..gauss_mod_p.gauss_mod_p import gauss_col_rad, gauss_barcodes
+from ..gauss_mod_p.functions import multiply_mod_p
 
 from ..persistence_algebra.barcode_bases import barcode_basis
 
@@ -924,9 +925,9 @@ class spectral_sequence(object):
             if prev < next:
                 rep_chains[0].add_entry(
                     nerv_idx, range(self.Hom[1][n_dim][deg].dim),
-                    np.matmul(self.Hom[0][n_dim][
-                        nerv_idx][deg].coordinates, coordinates_hom[prev:next]
-                        ).T)
+                    multiply_mod_p(self.Hom[0][n_dim][
+                        nerv_idx][deg].coordinates, coordinates_hom[prev:next],
+                        self.p).T)
             # end if
             prev = next
         # end for
@@ -972,7 +973,8 @@ class spectral_sequence(object):
         total_complex_reps = []
         # compute
         for chains in self.Hom_reps[current_page - 1][n_dim][deg]:
-            total_complex_reps.append(local_chains.sums(chains, hom_sums))
+            total_complex_reps.append(local_chains.sums(
+                chains, hom_sums, self.p))
         # end for
         # (n_dim, deg) --> (Sn_dim, Sdeg)
         Sn_dim = n_dim - current_page
@@ -995,18 +997,18 @@ class spectral_sequence(object):
             preimage_reps = []
             # obtain preimage_coefficients from expressions in -Gammas
             if np.any(Gammas):
-                preimage_coefficients = np.matmul(
-                    self.PreIm[target_page - 1][Tn_dim][Tdeg], -Gammas.T
-                )
+                preimage_coefficients = multiply_mod_p(
+                    self.PreIm[target_page - 1][Tn_dim][Tdeg], -Gammas.T,
+                    self.p)
             # case of target_page is special due to local coordinates
             if np.any(Gammas) and target_page == 2:
                 prev = 0
                 for spx_idx, next in enumerate(
                         self.cycle_dimensions[Sn_dim + 1][Sdeg]):
                     if prev < next:
-                        local_preimage = (np.matmul(
+                        local_preimage = (multiply_mod_p(
                             self.Hom[0][Sn_dim + 1][spx_idx][Sdeg].coordinates,
-                            preimage_coefficients[prev:next])).T
+                            preimage_coefficients[prev:next], self.p)).T
                         # if non empby, add
                         if len(total_complex_reps[-1].ref[spx_idx]) > 0:
                             total_complex_reps[-1].coord[
@@ -1020,7 +1022,7 @@ class spectral_sequence(object):
             elif np.any(Gammas):
                 for chains in self.Hom_reps[target_page - 2][Tn_dim][Tdeg]:
                     preimage_reps.append(local_chains.sums(
-                        chains, preimage_coefficients.T))
+                        chains, preimage_coefficients.T, self.p))
                 # add preimage reps to current tot_complex reps
                 for idx, chains in enumerate(preimage_reps):
                     total_complex_reps[
@@ -1098,7 +1100,8 @@ class spectral_sequence(object):
                         self.Hom_reps[self.no_pages - 1][Sn_dim][Sdeg]):
                     # compute chains using betas and substract to reps
                     # problem with local sums!!!
-                    local_chains_beta = local_chains.sums(Schains, -Betas)
+                    local_chains_beta = local_chains.sums(
+                        Schains, -Betas, self.p)
                     for k, local_coord in enumerate(
                             Hom_reps[ext_deg + idx].coord):
                         local_ref = Hom_reps[ext_deg + idx].ref[k]
@@ -1135,9 +1138,9 @@ class spectral_sequence(object):
                     # preimages of Gammas on page target_page - 1
                     Tn_dim = Sn_dim + target_page - 1
                     Tdeg = Sdeg - target_page + 2
-                    preimages = np.matmul(
+                    preimages = multiply_mod_p(
                         self.PreIm[target_page-1][Tn_dim][Tdeg],
-                        -Gammas.T)
+                        -Gammas.T, self.p)
                     if target_page == 2:
                         # preimages are local cycles
                         preimage_chains = local_chains(
@@ -1148,17 +1151,17 @@ class spectral_sequence(object):
                             if prev < next:
                                 preimage_chains.add_entry(
                                     nerv_idx, range(np.size(Gammas, 0)),
-                                    np.matmul(
+                                    multiply_mod_p(
                                         preimages[prev:next].T,
                                         self.Hom[0][Tn_dim][nerv_idx][
-                                            Tdeg].coordinates.T)
+                                            Tdeg].coordinates.T, self.p)
                                 )
                             prev = next
                         # end for
                     else:
                         preimage_chains = local_chains.sums(
                             self.Hom_reps[target_page-2][Tn_dim][Tdeg][-1],
-                            preimages.T
+                            preimages.T, self.p
                         )
                     # end else
                     # the total differential of the preimages is the Cech
-- 
2.43.0

