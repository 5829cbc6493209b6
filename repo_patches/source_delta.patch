From 083e9d52118131e01c9bdd650cb09f8eec9b7155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:40 +0000
Subject: [PATCH 01/26] fix: is_bond_linear decides paths of 'clusters'
 lattices by their common neighbours

Matching the eigenvectors of the two bond matrices fails whenever an
eigenvalue is degenerate (e.g. square lattices).
---
 baseConstruction.py | 53 +++------------------------------------------
 1 file changed, 3 insertions(+), 50 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index 2d2c662..beb1b92 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -353,56 +353,9 @@ def is_bond_linear(configuration, site1, site2, site3): # Should implement metho
                     return False
 
             
-    else: # We look for the permutation of the sites indices that makes the indexing as in a lattice of type 'periodic'
-        configuration_periodic = copy.deepcopy(configuration)
-        configuration_periodic.bond_matrix = lF.build_rectangular_bond_matrix(configuration.nbh, configuration.nbv, configuration.nblocs_side)
-        configuration_periodic.lattice_type = 'periodic'
-        nbh, nbv, nblocs_side, nsites = configuration.nbh, configuration.nbv, configuration.nblocs_side, configuration.nsites
-        
-        bond_matrix_clusters = configuration.bond_matrix
-        bond_matrix_periodic = lF.build_rectangular_bond_matrix(nbh, nbv, nblocs_side)
-
-        # We compute transfer_matrix, the matrix of the permutation of sites from the cluster type indexing (or any other indexing) to the periodic type indexing
-        # so that we find the indexes of the considered sites in a periodic type indexing
-
-        clusters_eigenstates = np.linalg.eigh(bond_matrix_clusters)
-        clusters_eigenvectors = clusters_eigenstates[1]
-
-        periodic_eigenstates = np.linalg.eigh(bond_matrix_periodic)
-        periodic_eigenvectors = periodic_eigenstates[1]
-
-        # We find that, if C = bond_matrix_clusters, P = bond_matrix_periodic, and V = transfer_matrix, 
-        # with VCV.T = P and C = UDU.T, P = WDW.T, with D diagonal, it yields that W.TVU commutes with D, hence is diagonal : V=WD'U.T
-        # Given that V is unitary (VV.T=V.TV=I), (D')^2 = I so its diagonal coefficients are either 1 or -1
-        # We look for the correct D', that stabilizes 0 (V[0, 0] = 1) and make every coefficient of V live in [0, 1] (V[i, j] = 0 or 1)
-
-        possibles_diag = tuple(product([1, -1], repeat=nsites))
-        ind_diag = 0
-        is_permutation_matrix = False
-        while ind_diag < 2 ** nsites and not is_permutation_matrix :
-            commuting_matrix = np.diag(possibles_diag[ind_diag])
-            transfer_matrix = np.matmul(periodic_eigenvectors, np.matmul(commuting_matrix, clusters_eigenvectors.T))
-            if round(transfer_matrix[0, 0], 10) == 1.:
-                ind_row = 0
-                ind_col = 0
-                while ind_row < nsites and round(transfer_matrix[ind_row, ind_col], 10) in (0., 1.):
-                    if ind_col < nsites - 1:
-                        ind_col += 1
-                    else:
-                        ind_col = 0
-                        ind_row += 1
-                if ind_row == nsites:
-                    is_permutation_matrix = True
-                else:
-                    ind_diag += 1
-            else:
-                ind_diag += 1
-
-        new_s1 = [row for row in range(nsites) if round(transfer_matrix[row, site_1], 10) == 1][0]
-        new_s2 = [row for row in range(nsites) if round(transfer_matrix[row, site_2], 10) == 1][0]
-        new_s3 = [row for row in range(nsites) if round(transfer_matrix[row, site_3], 10) == 1][0]
-
-        return is_bond_linear(configuration_periodic, new_s1, new_s2, new_s3)
+    else: # The indexation is arbitrary, we only use bonds: in a rectangle, the ends of an orthogonal path have two common neighbors, those of a colinear path only one
+        common_neighbors = [site for site in range(configuration.nsites) if bond_matrix[site_1, site] == 1 and bond_matrix[site_3, site] == 1]
+        return len(common_neighbors) == 1
 
 
 # Display functions
-- 
2.43.0


From c0150a41efccd128371232c8e64773df59ebbcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:55 +0000
Subject: [PATCH 02/26] fix: colinear paths across a peripheral lattice around
 a single row or column

---
 baseConstruction.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index beb1b92..e1bc446 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -336,10 +336,13 @@ def is_bond_linear(configuration, site1, site2, site3): # Should implement metho
             return is_bond_linear(configuration_periodic, site_1, site_2, site_3)
         elif site_1 >= nsites and site_2 >= nsites and site_3 >= nsites: # If sites are all on the peripheral lattice, there are obviously colinear
             return True
-        elif len([site for site in (site_1, site_2, site_3) if site >= nsites]) == 2: # If 2 sites are on the peripheral lattice, the last one can't be colinear
-            return False 
+        elif len([site for site in (site_1, site_2, site_3) if site >= nsites]) == 2: # If 2 sites are on the peripheral lattice, the last one is colinear only
+            # if it lies between them, in a cluster of a single row or column
+            sides_vertical = [site < nsites + nbh * nblocs_side or (site >= nsites + (nbh + nbv) * nblocs_side \
+                and site < nsites + (2 * nbh + nbv) * nblocs_side) for site in (site_1, site_3)]
+            return site_2 < nsites and sides_vertical[0] == sides_vertical[1]
         else: # There is one site on the peripheral lattice
-            if abs(site_2 - site_1) == 1: # First bond horizontal
+            if abs(site_2 - site_1) == 1 and nbh * nblocs_side > 1: # First bond horizontal
                 if (site_3 >= nsites and site_3 < nsites + nbh * nblocs_side) or (site_3 >= nsites + (nbh + nbv) * nblocs_side \
                     and site_3 < nsites + (2 * nbh + nbv) * nblocs_side): # Second bond vertical
                     return False
-- 
2.43.0


From 5e0a61c77f875ffdc5af2fabf9bbe3a21e5788d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:14 +0000
Subject: [PATCH 03/26] fix: build_bond_list keeps the bonds of a pair of
 restrictions whatever the order of their sites

---
 latticeFunctions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latticeFunctions.py b/latticeFunctions.py
index 798ce19..4a3657f 100644
--- a/latticeFunctions.py
+++ b/latticeFunctions.py
@@ -237,7 +237,9 @@ def build_bond_list(bond_matrix, sites_restriction=[]):
 
     bond_list = []
     for ind_i in list(set(range(nsites)) & set(sites_restriction[0])):
-        for ind_j in list(set(range(ind_i, nsites)) & set(sites_restriction[1])):
+        for ind_j in list(set(range(nsites)) & set(sites_restriction[1])):
+            if ind_j < ind_i and ind_j in sites_restriction[0] and ind_i in sites_restriction[1]: # Already met as [ind_j, ind_i]
+                continue
             if bond_matrix[ind_i, ind_j]==1:
                 bond_list.append([ind_i, ind_j])
     return bond_list
-- 
2.43.0


From 74022fd476c5813209be426b06807d52118a12f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:43 +0000
Subject: [PATCH 04/26] fix: hopping between two restrictions no longer
 exchanges two holes

---
 interactions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interactions.py b/interactions.py
index c3e6038..9abc1b0 100644
--- a/interactions.py
+++ b/interactions.py
@@ -66,7 +66,7 @@ def compute_hopping_integral(configuration, interactions, det):
         for site_hole in sites_holes:
             hole_neighbors = lF.get_neighbors(site_hole, bond_matrix, sites_restriction)
             for neighbor in hole_neighbors:
-                if not(neighbor in sites_holes):
+                if bC.get_spin_site(configuration, det, neighbor) != 0: # sites_holes only contains the holes of allowed sites
                     ind_hole = det.index(site_hole)
                     ind_neighbor = det.index(neighbor)
                     temp = copy.deepcopy(det)
-- 
2.43.0


From aca169a3d8915e9721148910ffe674d89f417ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:38 +0000
Subject: [PATCH 05/26] fix: spin flips tell straight from perpendicular holes
 by geometry, as the static coupling does

Differences of site indexes only work for lattices indexed row by row.
---
 interactions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interactions.py b/interactions.py
index 9abc1b0..bb56fc1 100644
--- a/interactions.py
+++ b/interactions.py
@@ -281,8 +281,8 @@ def compute_spin_flip(configuration, interactions, vect):
             ind_neigh_hole_0 = list(set(ind_neigh_0) & set(bC.get_indexes_of(configuration, vect, 0)))
             ind_neigh_hole_1 = list(set(ind_neigh_1) & set(bC.get_indexes_of(configuration, vect, 0)))
             if (ind_neigh_hole_0 or ind_neigh_hole_1) \
-                and (ind_1 - ind_0 in [abs(ind_0 - ind_hole) for ind_hole in ind_neigh_hole_0] + \
-                [abs(ind_1 - ind_hole) for ind_hole in ind_neigh_hole_1]): # Check if a neighboring hole is aligned with the pair
+                and True in [bC.is_bond_linear(configuration, ind_1, ind_0, ind_hole) for ind_hole in ind_neigh_hole_0 + ind_neigh_hole_1]: \
+                    # Check if a neighboring hole is aligned with the pair
                 
                 images_par.append(bC.reorder_basis_element(configuration, temp))
 
-- 
2.43.0


From da19e23e70ee573380289a6ae3d40af5c7c363c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:38 +0000
Subject: [PATCH 06/26] fix: with a sites restriction the coupling of a bond
 still depends on every neighboring hole

---
 interactions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interactions.py b/interactions.py
index bb56fc1..5f6678f 100644
--- a/interactions.py
+++ b/interactions.py
@@ -209,8 +209,8 @@ def compute_static_spin_interaction(configuration, interactions, vect):
             ind_neigh_0 = [neighbor for neighbor in lF.get_neighbors(ind_0, bond_matrix, []) if neighbor != ind_1]
             ind_neigh_1 = [neighbor for neighbor in lF.get_neighbors(ind_1, bond_matrix, []) if neighbor != ind_0]
 
-            ind_neigh_hole_0 = list(set(ind_neigh_0) & set(bC.get_indexes_of(configuration, vect, 0))) # List of holes neighbors of ind_0
-            ind_neigh_hole_1 = list(set(ind_neigh_1) & set(bC.get_indexes_of(configuration, vect, 0))) # List of holes neighbors of ind_1
+            ind_neigh_hole_0 = [neighbor for neighbor in ind_neigh_0 if bC.get_spin_site(configuration, vect, neighbor) == 0] # List of holes neighbors of ind_0
+            ind_neigh_hole_1 = [neighbor for neighbor in ind_neigh_1 if bC.get_spin_site(configuration, vect, neighbor) == 0] # List of holes neighbors of ind_1
 
             if (ind_neigh_hole_0 or ind_neigh_hole_1) \
                 and True in [bC.is_bond_linear(configuration, ind_1, ind_0, ind_hole) for ind_hole in ind_neigh_hole_0 + ind_neigh_hole_1]: \
@@ -278,8 +278,8 @@ def compute_spin_flip(configuration, interactions, vect):
             ind_neigh_1 = lF.get_neighbors(ind_1, bond_matrix)
 
 
-            ind_neigh_hole_0 = list(set(ind_neigh_0) & set(bC.get_indexes_of(configuration, vect, 0)))
-            ind_neigh_hole_1 = list(set(ind_neigh_1) & set(bC.get_indexes_of(configuration, vect, 0)))
+            ind_neigh_hole_0 = [neighbor for neighbor in ind_neigh_0 if bC.get_spin_site(configuration, vect, neighbor) == 0]
+            ind_neigh_hole_1 = [neighbor for neighbor in ind_neigh_1 if bC.get_spin_site(configuration, vect, neighbor) == 0]
             if (ind_neigh_hole_0 or ind_neigh_hole_1) \
                 and True in [bC.is_bond_linear(configuration, ind_1, ind_0, ind_hole) for ind_hole in ind_neigh_hole_0 + ind_neigh_hole_1]: \
                     # Check if a neighboring hole is aligned with the pair
-- 
2.43.0


From a8e993f081481f947d9d8e928c9a6535ad6f1879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:36 +0000
Subject: [PATCH 07/26] fix: reverse_spins keeps the sites outside the
 restriction

---
 baseConstruction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index e1bc446..3ac983b 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -262,7 +262,8 @@ def reverse_spins(configuration, det):
         configuration.nbv, 
         configuration.nblocs_side
     )
-    det_flip = get_indexes_of(configuration, det, 0) + get_indexes_of(configuration, det, 1) + get_indexes_of(configuration, det, -1)
+    nholes, nbeta = configuration.nholes, configuration.nbeta
+    det_flip = det[: nholes] + det[nholes + nbeta :] + det[nholes : nholes + nbeta]
     return configuration_flip, reorder_basis_element(configuration_flip, det_flip)
 
 
-- 
2.43.0


From bbe5a0526d1ad7c25510a666006da58bf0d6bdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:36 +0000
Subject: [PATCH 08/26] fix: extend_determinant keeps the sites outside the
 restrictions

---
 baseConstruction.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index 3ac983b..9731892 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -232,9 +232,12 @@ def extend_determinant(configuration_1, configuration_2, det_1, det_2):
     """
     nsites_1 = configuration_1.nsites
 
-    det_1_hole, det_2_hole = get_indexes_of(configuration_1, det_1, 0), get_indexes_of(configuration_2, det_2, 0)
-    det_1_beta, det_2_beta = get_indexes_of(configuration_1, det_1, -1), get_indexes_of(configuration_2, det_2, -1)
-    det_1_alpha, det_2_alpha = get_indexes_of(configuration_1, det_1, 1), get_indexes_of(configuration_2, det_2, 1)
+    nholes_1, nbeta_1 = configuration_1.nholes, configuration_1.nbeta
+    nholes_2, nbeta_2 = configuration_2.nholes, configuration_2.nbeta
+
+    det_1_hole, det_2_hole = det_1[: nholes_1], det_2[: nholes_2]
+    det_1_beta, det_2_beta = det_1[nholes_1 : nholes_1 + nbeta_1], det_2[nholes_2 : nholes_2 + nbeta_2]
+    det_1_alpha, det_2_alpha = det_1[nholes_1 + nbeta_1 :], det_2[nholes_2 + nbeta_2 :]
 
     det_hole = det_1_hole + [site + nsites_1 for site in det_2_hole]
     det_beta = det_1_beta + [site + nsites_1 for site in det_2_beta]
-- 
2.43.0


From ebd8713df331a7519ff3799b2c267279e4cb4997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:18 +0000
Subject: [PATCH 09/26] fix: compute_dynamic_interactions couples spin flips
 with J/2, as the Hamiltonian does

---
 interactions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interactions.py b/interactions.py
index 5f6678f..914ba95 100644
--- a/interactions.py
+++ b/interactions.py
@@ -523,7 +523,7 @@ def compute_dynamic_interactions(configuration, interactions, bool_interactions,
         print("[itr] tN_ortho_coupled = ", tN_ortho_coupled)
     if bij:
         Jcol_coupled, Jortho_coupled, J_coupled = compute_spin_flip(configuration, interactions, det)
-        events += [(Jcol_coupled, Jhpar), (Jortho_coupled, Jhper), (J_coupled, J)]
+        events += [(Jcol_coupled, Jhpar/2), (Jortho_coupled, Jhper/2), (J_coupled, J/2)]
     if bSD:
         hpar_coupled, hper_coupled = compute_singlet_displacement(configuration, interactions, det)
         singlet_events = [(hpar_coupled, hSDpar), (hper_coupled, hSDper)]
-- 
2.43.0


From 4a392cc5eeec1df41f5f2a6cf9bd1d7b348eee71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:18 +0000
Subject: [PATCH 10/26] fix: compute_S_plus_S_minus_det keeps the whole,
 ordered determinant under a restriction and handles a single site

---
 interactions.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/interactions.py b/interactions.py
index 914ba95..279d2ac 100644
--- a/interactions.py
+++ b/interactions.py
@@ -617,10 +617,16 @@ def compute_S_plus_S_minus_det(configuration, det, site_plus, site_minus):
     Returns:
         det_return (list<int>): the resulting Slater determinant
     """
-    list_alpha = bC.get_indexes_of(configuration, det, 1)
-    list_beta = bC.get_indexes_of(configuration, det, -1)
+    nbeta = configuration.nbeta
+    nholes = configuration.nholes
+    list_holes = det[: nholes]
+    list_beta = det[nholes : nholes + nbeta]
+    list_alpha = det[nholes + nbeta :]
     
-    if site_plus in list_beta:
+    if site_plus == site_minus:
+        if site_plus in list_alpha:
+            return det[:]
+    elif site_plus in list_beta:
         if site_minus in list_alpha:
             list_alpha.remove(site_minus)
             list_alpha.append(site_plus)
@@ -631,10 +637,9 @@ def compute_S_plus_S_minus_det(configuration, det, site_plus, site_minus):
             list_alpha.sort()
             list_beta.sort()
             
-            det_return = bC.get_indexes_of(configuration, det, 0) + list_beta + list_alpha
+            det_return = list_holes + list_beta + list_alpha
             return det_return
-    else:
-        return
+    return
 
 def compute_S_plus_S_minus(configuration, vect, site_plus, site_minus): 
     """
-- 
2.43.0


From b4864fd5ac6f9b8a25d27cdf7e688eb8b0b287d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:33 +0000
Subject: [PATCH 11/26] fix: get_probability_spin_rectangular_lattice divides
 by the squared norm only once

---
 baseConstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index 9731892..72b17e4 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -692,7 +692,7 @@ def get_probability_spin_rectangular_lattice(basis, vect, spin):
             ind_site = ind_v * nblocs_side * nbh + ind_h 
             
             proba_sites = get_probability_spin_lattice(basis, vect, spin)
-            proba_lattice[nblocs_side * nbv - 1 - ind_v, ind_h] = proba_sites[ind_site] / (np.linalg.norm(vect) ** 2)
+            proba_lattice[nblocs_side * nbv - 1 - ind_v, ind_h] = proba_sites[ind_site]
     return proba_lattice
 
         
-- 
2.43.0


From 66c38810d78a4142f68cc917a7eca6c5ac26cdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:33 +0000
Subject: [PATCH 12/26] fix: get_dominant_determinants returns distinct
 determinants when coefficients have equal absolute values

---
 baseConstruction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index 72b17e4..b381629 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -719,13 +719,13 @@ def get_dominant_determinants(basis, vect, ndet):
     temp_vect = temp_vect.tolist()
     
     abs_temp_vect = [abs(elt) for elt in temp_vect]
-    sorted_abs_temp_vect = sorted(abs_temp_vect, reverse=True)[:min(ndet, len(temp_vect))]
+    dominant_indexes = sorted(range(len(temp_vect)), key=lambda ind: abs_temp_vect[ind], reverse=True)[:min(ndet, len(temp_vect))]
     
     # Determination of the most dominant determinants and their indexes
     list_dets, list_coeffs = [], []
-    for abs_elt in sorted_abs_temp_vect:
-        list_coeffs.append(temp_vect[abs_temp_vect.index(abs_elt)])
-        list_dets.append(get_hash_basis(nholes, nalpha, nbeta, abs_temp_vect.index(abs_elt)))
+    for ind in dominant_indexes:
+        list_coeffs.append(temp_vect[ind])
+        list_dets.append(get_hash_basis(nholes, nalpha, nbeta, ind))
 
     return (list_coeffs, list_dets)
 
-- 
2.43.0


From d81b9f1eb7f6807f7d6220cc4028a50eb1ee6b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:33 +0000
Subject: [PATCH 13/26] fix: the displays of a basis and of dominant
 determinants read the configuration of the basis

---
 baseConstruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index b381629..a0892c3 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -402,7 +402,7 @@ def get_displayable_basis(basis):
     
     print_basis = []
     for det in determinants :
-        print_basis.append(get_displayable_determinant(basis, det))
+        print_basis.append(get_displayable_determinant(basis.configuration, det))
     return print_basis
     
 def get_displayable_rectangular_lattice(configuration, vect):
@@ -741,7 +741,7 @@ def get_displayable_dominant_determinants(basis, vect, ndet):
         list_det (list<str>): the list of corresponding determinants in the basis, as a displayable string
     """
     list_coeffs, list_dets = get_dominant_determinants(basis, vect, ndet)
-    list_dets_displayable = [get_displayable_rectangular_lattice(basis, det) for det in list_dets]
+    list_dets_displayable = [get_displayable_rectangular_lattice(basis.configuration, det) for det in list_dets]
     return (list_coeffs, list_dets_displayable)
 
 ### Symmetry functions
-- 
2.43.0


From d0ab45301244e1ea3ff65b55042799a306571cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:26 +0000
Subject: [PATCH 14/26] fix: build_hamiltonian applies the sites_restriction it
 is given

---
 hamiltonianConstruction.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hamiltonianConstruction.py b/hamiltonianConstruction.py
index 93627e2..c1f93a3 100644
--- a/hamiltonianConstruction.py
+++ b/hamiltonianConstruction.py
@@ -1,8 +1,11 @@
 import latticeFunctions as lF
+import baseConstruction as bC
 import numpy as np
 import interactions as itr
 import scipy.sparse as sp
 
+import copy
+
 class HamiltonianCOO:
     """
     Describes the Hamiltonian, in a COO format, as its three defining lists, \
@@ -40,8 +43,10 @@ def build_hamiltonian(configuration, interactions, basis, bool_interactions, sit
     nalpha = configuration.nalpha
     nbeta = configuration.nbeta
     nsites = configuration.nsites
-    if not sites_restriction:
-        sites_restriction = list(range(nsites))
+    if sites_restriction:
+        configuration = copy.copy(basis.configuration)
+        configuration.sites_restriction = sites_restriction if isinstance(sites_restriction, tuple) else (sites_restriction, sites_restriction)
+        basis = bC.Basis(configuration, basis.determinants)
 
     dim = lF.compute_dimension(nsites,nalpha,nbeta)
     # Interactions booleans
-- 
2.43.0


From cfccdb9d28eb9874b259f41569c8737edea85f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:04 +0000
Subject: [PATCH 15/26] fix: recover_results restores the lattice type and the
 pair of site restrictions

---
 initialComputations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/initialComputations.py b/initialComputations.py
index 816e2a9..c756fdb 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -218,9 +218,11 @@ def recover_results(configuration, interactions, diagonalization, bool_interacti
     configuration_class = bC.Configuration(bond_matrix=np.array(configuration["bond_matrix"]), 
         nholes=configuration["nholes"], 
         nbeta=configuration["nbeta"])
-    for key in ["sites_restriction", "nbh", "nbv", "nblocs_side"]:
+    for key in ["lattice_type", "nbh", "nbv", "nblocs_side"]:
         if key in configuration.keys():
             setattr(configuration_class, key, configuration[key])
+    if "sites_restriction" in configuration.keys():
+        configuration_class.sites_restriction = tuple(configuration["sites_restriction"])
     if "times" in kwargs.keys():
         return DataComputations(\
             Data(
-- 
2.43.0


From c9de22a3573cb4b46b47cdeea83828a34033f92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:04 +0000
Subject: [PATCH 16/26] fix: perform_configurations_computations keeps the
 lattice type

---
 initialComputations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/initialComputations.py b/initialComputations.py
index c756fdb..41ddce9 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -285,6 +285,7 @@ def perform_configurations_computations(data):
             nholes=nholes, 
             nbeta=nbeta, 
             sites_restriction=configuration.sites_restriction, 
+            lattice_type=configuration.lattice_type, 
             nbh=configuration.nbh, 
             nbv=configuration.nbv, 
             nblocs_side=configuration.nblocs_side)
-- 
2.43.0


From 91df3a59f8633af9fa2543ff7db408fe9923f6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:04 +0000
Subject: [PATCH 17/26] fix: BoolInteractions stores bV_embedding

---
 initialComputations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/initialComputations.py b/initialComputations.py
index 41ddce9..be3b5c2 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -38,6 +38,7 @@ class BoolInteractions :
         self.bSD = bSD
         self.btN = btN
         self.bV = bV
+        self.bV_embedding = bV_embedding
         self.b_spin_multipicities = b_spin_multipicities
 
 class Times :
-- 
2.43.0


From db1dff448e55cf4ed0d9d2a0207047cef3cb1a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:44 +0000
Subject: [PATCH 18/26] fix: the embeddings discard the initial guess, which is
 not serialisable, before saving

---
 embedding.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/embedding.py b/embedding.py
index 50fec1e..e0db4ba 100644
--- a/embedding.py
+++ b/embedding.py
@@ -283,6 +283,9 @@ def save_data_peripheral_embedding(data_computations):
     btN = bool_interactions.btN
     bV = bool_interactions.bV
 
+    # Diagonalization
+    data_computations.data.diagonalization.initial_guess = None # Discarding initial guess
+
     # File Name
     file_name = "tJHam-{}{}{}".format(nsites, nalpha, nbeta)
     if bt and bz and bij and bSD and btN and bV:
@@ -790,6 +793,9 @@ def save_data_embedding_blocks(data_computations, dynamic_embedding, neel_embedd
     btN = bool_interactions.btN
     bV = bool_interactions.bV
 
+    # Diagonalization
+    data_computations.data.diagonalization.initial_guess = None # Discarding initial guess
+
     # File Name
     file_name = "tJHam"
     if dynamic_embedding:
-- 
2.43.0


From f33c1d7377dd176b1df67bb96164f5cf495df2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:54 +0000
Subject: [PATCH 19/26] fix: embedding file names list the selected
 interactions only, as the files of the initial computations do

---
 embedding.py      | 8 ++++----
 postProcessing.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/embedding.py b/embedding.py
index e0db4ba..2ae4e5b 100644
--- a/embedding.py
+++ b/embedding.py
@@ -69,7 +69,7 @@ def embedding_neel(data, self_consistency_tol, max_iter, nb_val=10): # Fix the g
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
 
@@ -293,7 +293,7 @@ def save_data_peripheral_embedding(data_computations):
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
  
@@ -402,7 +402,7 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
     if neel_embedding:
@@ -810,7 +810,7 @@ def save_data_embedding_blocks(data_computations, dynamic_embedding, neel_embedd
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
  
diff --git a/postProcessing.py b/postProcessing.py
index 47ed361..316fdfb 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -114,7 +114,7 @@ def generate_plots_configuration(data, input_plotting):
         else:
             extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
             for name in dir(bool_interactions):
-                if name in extensions:
+                if name in extensions and getattr(bool_interactions, name):
                     file_name_emb += extensions[name]
             file_name_emb += ".json"
         data_computations_embedding = iC.load_data("Embedding_blocks/" + file_name_emb)
-- 
2.43.0


From ef03ec4db09d18fa0b1afb4c679051affaeb8add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:56 +0000
Subject: [PATCH 20/26] fix: keep the block embedding result when the
 iterations run out

---
 embedding.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/embedding.py b/embedding.py
index 2ae4e5b..d52c0c9 100644
--- a/embedding.py
+++ b/embedding.py
@@ -767,6 +767,9 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
     print("Maximum number of iterations exceeded")
     print("[emb] ground state energy = {} | embedded ground state energy = {}".format(\
                 eigenstates_block.eigvals[0], eigenstates_embedded.eigvals[0]))
+    data_computation = iC.DataComputations(data, determinants_block, ham_block_embedded, eigenstates_embedded)
+    save_data_embedding_blocks(data_computation, dynamic_embedding, neel_embedding, neighbor_embedding)
+    return data_computation
 
 def save_data_embedding_blocks(data_computations, dynamic_embedding, neel_embedding, neighbor_embedding):
     """
-- 
2.43.0


From 2b8785193f9b61679b73208b0a62b4dff3129567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:56 +0000
Subject: [PATCH 21/26] fix: orthonormalise as many columns as there are
 vectors

---
 davidson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/davidson.py b/davidson.py
index 39d2c71..5f866a9 100644
--- a/davidson.py
+++ b/davidson.py
@@ -312,7 +312,7 @@ def gramSchmidt(V):
     Returns:
         A (np.array): the orthonormalized set of vectors
     """
-    dim = V.shape[0]
+    dim = V.shape[1]
     A = np.zeros(V.shape) # Orthonormalized columns of V
     A[:,[0]] = V[:,[0]] / lin.norm(V[:,[0]])
     for col in range(1, dim):
-- 
2.43.0


From 042fef51eab33bf7bf74928eb107aa0a4d4130f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:56 +0000
Subject: [PATCH 22/26] fix: normalise the starting guess of a single state

---
 davidson.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/davidson.py b/davidson.py
index 5f866a9..51f411d 100644
--- a/davidson.py
+++ b/davidson.py
@@ -250,10 +250,7 @@ def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3
         initial_guess = np.random.rand(dim, nb_val)
     
     # Krylov basis (basis of the search space)
-    if nb_val > 1 :
-        krylov_basis = perform_modified_gram_schmidt(initial_guess)
-    else:
-        krylov_basis = initial_guess
+    krylov_basis = perform_modified_gram_schmidt(initial_guess)
 
     for _ in trange_verbose(stp, verbose):
         # Krylov vectors
-- 
2.43.0


From af5a8f484bb7a998146dabb626ff0edbdd0cced1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:57 +0000
Subject: [PATCH 23/26] fix: no division by zero when a value equals a diagonal
 element

---
 davidson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/davidson.py b/davidson.py
index 51f411d..93a0c34 100644
--- a/davidson.py
+++ b/davidson.py
@@ -275,7 +275,7 @@ def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3
         corrections = np.zeros((dim, nb_val))
         for ind in range(nb_val):
             preconditionner = sp.csr_matrix(\
-                ([1 / (diag - eigvals_temp[ind]) for diag in A.diagonal()], (range(dim), range(dim)) ), \
+                ([1 / (diag - eigvals_temp[ind]) if diag != eigvals_temp[ind] else 1 for diag in A.diagonal()], (range(dim), range(dim)) ), \
                 shape=(dim, dim))
             corrections[:,ind] = preconditionner.dot(residues[:,ind])
         # Iteration
-- 
2.43.0


From dcf73644dbe8663d29b7d4da71c61c306bc00186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:44 +0000
Subject: [PATCH 24/26] fix: no more states than the dimension of the matrix

---
 davidson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/davidson.py b/davidson.py
index 93a0c34..a5468e1 100644
--- a/davidson.py
+++ b/davidson.py
@@ -244,7 +244,7 @@ def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3
     dim = A.shape[0]
     if dim_max == 0:
         dim_max = dim
-    nb_val = min(nb_val, dim_max)
+    nb_val = min(nb_val, dim_max, dim)
 
     if initial_guess is None:
         initial_guess = np.random.rand(dim, nb_val)
-- 
2.43.0


From 2291a11ede9bb54fe1e251f008ba42636a66a03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:10 +0000
Subject: [PATCH 25/26] fix: the dynamic embedding describes the neighbouring
 block with its own configuration

---
 embedding.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/embedding.py b/embedding.py
index d52c0c9..553d7a7 100644
--- a/embedding.py
+++ b/embedding.py
@@ -478,7 +478,7 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
             ham_block_embedded = ham_block.tocoo(copy=True)
 
             probabilities_spins_B = bC.get_spins_probabilitites_lattice(basis_block, ground_state_temp, reverse_spins=reverse_spins)
-
+            ground_state_B = bC.reverse_spins_vect(basis_block, ground_state_temp) if reverse_spins else ground_state_temp
             for ind_A, det_A in enumerate(determinants_block):
                 #print("[emb] ---------------------------------------------------------------------------------------------------------------------------------------")
 
@@ -542,8 +542,8 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
                         )
                         configuration_temp_B = bC.Configuration(
                             bond_matrix_block,
-                            nholes_block - (delta_nalpha + delta_nbeta == -1) + (delta_nalpha + delta_nbeta == 1),
-                            nbeta_block - delta_nbeta,
+                            nholes_neighbor - (delta_nalpha + delta_nbeta == -1) + (delta_nalpha + delta_nbeta == 1),
+                            nbeta_neighbor - delta_nbeta,
                             configuration_block.sites_restriction,
                             "periodic",
                             nbh, nbv, nblocs_side
@@ -575,9 +575,9 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
 
                                 configuration_perturbed_B = copy.deepcopy(configuration_neighbor)
                                 setattr(configuration_perturbed_B, spins_attributes[spin], \
-                                    getattr(configuration_block, spins_attributes[spin]) + 1)
+                                    getattr(configuration_neighbor, spins_attributes[spin]) + 1)
                                 setattr(configuration_perturbed_B, spins_attributes[new_spin], \
-                                    getattr(configuration_block, spins_attributes[new_spin]) - 1)
+                                    getattr(configuration_neighbor, spins_attributes[new_spin]) - 1)
 
                                 configuration_perturbed_B = bC.Configuration(
                                     bond_matrix=configuration_perturbed_B.bond_matrix, nholes=configuration_perturbed_B.nholes, nbeta=configuration_perturbed_B.nbeta, 
@@ -679,12 +679,12 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
                                                         coupling_2 = coupled_dets[new_det_2]
 
                                                         ind_new_det_B_1 = bC.get_index_in_basis(
-                                                            configuration_block, [site - nsites_block for site in new_det_1 if site >= nsites_block])
+                                                            configuration_neighbor, [site - nsites_block for site in new_det_1 if site >= nsites_block])
                                                         ind_new_det_B_2 = bC.get_index_in_basis(
-                                                            configuration_block, [site - nsites_block for site in new_det_2 if site >= nsites_block])
+                                                            configuration_neighbor, [site - nsites_block for site in new_det_2 if site >= nsites_block])
 
-                                                        coupling = (np.conj(ground_state_temp[ind_new_det_B_1, 0]) \
-                                                            * ground_state_temp[ind_new_det_B_2, 0] \
+                                                        coupling = (np.conj(ground_state_B[ind_new_det_B_1, 0]) \
+                                                            * ground_state_B[ind_new_det_B_2, 0] \
                                                             * coupling_1 * np.conj(coupling_2)) / (2 * ground_state_energy \
                                                                 - energy_perturbator)
                                                         #print("[emb] ({} - {}) : coupling = {} * {} * ({} * {}) / (2 * {} - {}) = ".format(ind, ind_temp + ind + 1, np.conj(ground_state_temp[ind_new_det_B_1, 0]), ground_state_temp[ind_new_det_B_2, 0], coupling_1, np.conj(coupling_2), ground_state_energy, energy_perturbator), coupling)
-- 
2.43.0


From a96a623058c3e1f7f734986083d69019394553d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:50 +0000
Subject: [PATCH 26/26] fix: hole and amplitude figures with a single panel

---
 postProcessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postProcessing.py b/postProcessing.py
index 316fdfb..22f1769 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -539,7 +539,7 @@ def save_hole_probability_lattice(data_computation,nb_subplots):
 
     nb_plot = int(mp.floor(mp.sqrt(nb_subplots))**2)
     nb_row = int(mp.sqrt(nb_plot))
-    fig, ax = plt.subplots(nb_row,nb_row)
+    fig, ax = plt.subplots(nb_row, nb_row, squeeze=False)
 
     # Configuration
     configuration = data_computation.data.configuration
@@ -756,7 +756,7 @@ def plot_determinants_amplitude_repartition(data_computation, nb_subplots):
     
     nb_plot = int(mp.floor(mp.sqrt(nb_subplots))**2)
     nb_row = int(mp.sqrt(nb_plot))
-    fig, ax = plt.subplots(nb_row, nb_row)
+    fig, ax = plt.subplots(nb_row, nb_row, squeeze=False)
 
     # Configuration
     configuration = data_computation.data.configuration
-- 
2.43.0

