From 015efac985a4c018d7b57f90f578b0ed2cc3aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 01/28] fix: order the image of S+S- before looking up its
 index

compute_S_plus_S_minus hashed a determinant whose holes were listed in set
order, so S^2 was wrong or raised IndexError on lattices of 9 sites or more.
---
 interactions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interactions.py b/interactions.py
index c3e6038..fea4072 100644
--- a/interactions.py
+++ b/interactions.py
@@ -652,7 +652,7 @@ def compute_S_plus_S_minus(configuration, vect, site_plus, site_minus):
     for ind in range(configuration.nb_conf):
         det = compute_S_plus_S_minus_det(configuration, bC.get_hash_basis(configuration.nholes, configuration.nalpha, configuration.nbeta, ind), site_plus, site_minus)
         if det:
-            vect_return[bC.compute_hash_table(configuration, det),] += vect[ind,]
+            vect_return[bC.get_index_in_basis(configuration, det),] += vect[ind,]
     return vect_return
     
 def compute_S2(configuration, vect):
-- 
2.43.0


From 444d88c88c841bc01974d2eb8352189fbc9d5c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 02/28] fix: pass the configuration, not the basis, to the
 determinant displays

---
 baseConstruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index 2d2c662..3938d4b 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -442,7 +442,7 @@ def get_displayable_basis(basis):
     
     print_basis = []
     for det in determinants :
-        print_basis.append(get_displayable_determinant(basis, det))
+        print_basis.append(get_displayable_determinant(basis.configuration, det))
     return print_basis
     
 def get_displayable_rectangular_lattice(configuration, vect):
@@ -781,7 +781,7 @@ def get_displayable_dominant_determinants(basis, vect, ndet):
         list_det (list<str>): the list of corresponding determinants in the basis, as a displayable string
     """
     list_coeffs, list_dets = get_dominant_determinants(basis, vect, ndet)
-    list_dets_displayable = [get_displayable_rectangular_lattice(basis, det) for det in list_dets]
+    list_dets_displayable = [get_displayable_rectangular_lattice(basis.configuration, det) for det in list_dets]
     return (list_coeffs, list_dets_displayable)
 
 ### Symmetry functions
-- 
2.43.0


From 1392e6bec434dab1a9083eae8706af60402a459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 03/28] fix: list each dominant determinant once when
 amplitudes are equal

---
 baseConstruction.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index 3938d4b..626bd21 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -763,9 +763,12 @@ def get_dominant_determinants(basis, vect, ndet):
     
     # Determination of the most dominant determinants and their indexes
     list_dets, list_coeffs = [], []
+    ind_next = {} # Where to resume the search of each amplitude, for several determinants may share the same one
     for abs_elt in sorted_abs_temp_vect:
-        list_coeffs.append(temp_vect[abs_temp_vect.index(abs_elt)])
-        list_dets.append(get_hash_basis(nholes, nalpha, nbeta, abs_temp_vect.index(abs_elt)))
+        ind = abs_temp_vect.index(abs_elt, ind_next.get(abs_elt, 0))
+        ind_next[abs_elt] = ind + 1
+        list_coeffs.append(temp_vect[ind])
+        list_dets.append(get_hash_basis(nholes, nalpha, nbeta, ind))
 
     return (list_coeffs, list_dets)
 
-- 
2.43.0


From 19014bce7c15a3b8c8dca2c06f8c4a6c49e7eeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 04/28] fix: store the bV_embedding boolean, which the hole
 density plot reads

---
 initialComputations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/initialComputations.py b/initialComputations.py
index 816e2a9..9d7ef21 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -38,6 +38,7 @@ class BoolInteractions :
         self.bSD = bSD
         self.btN = btN
         self.bV = bV
+        self.bV_embedding = bV_embedding
         self.b_spin_multipicities = b_spin_multipicities
 
 class Times :
-- 
2.43.0


From 528a588b0a7738a5237397aeef55d188a807d5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:19 +0000
Subject: [PATCH 05/28] fix: run the Gram-Schmidt procedure over the columns of
 V

---
 davidson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/davidson.py b/davidson.py
index 39d2c71..5f866a9 100644
--- a/davidson.py
+++ b/davidson.py
@@ -312,7 +312,7 @@ def gramSchmidt(V):
     Returns:
         A (np.array): the orthonormalized set of vectors
     """
-    dim = V.shape[0]
+    dim = V.shape[1]
     A = np.zeros(V.shape) # Orthonormalized columns of V
     A[:,[0]] = V[:,[0]] / lin.norm(V[:,[0]])
     for col in range(1, dim):
-- 
2.43.0


From 91f4f3b67c6f4be37991555bf78c92f1334e5a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:19 +0000
Subject: [PATCH 06/28] fix: compute spins and multiplicities from the
 configuration of the basis

The S^2 expectation value was passed as a spin number to name the
multiplicity, and the basis was passed where a configuration is expected.
---
 davidson.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/davidson.py b/davidson.py
index 5f866a9..68ed1a8 100644
--- a/davidson.py
+++ b/davidson.py
@@ -357,9 +357,8 @@ def compute_spin_and_multiplicity(basis, eigvects): # Not complete
     multiplicity = []
 
     for ind in range(nb_val):
-        spin = itr.compute_S2_exp_val(basis, eigvects[:,[ind]])
-        spins.append(spin)
-        multiplicity.append(itr.compute_spin_multiplicity(spin))
+        spins.append(itr.compute_S2_exp_val(basis.configuration, eigvects[:,[ind]]))
+        multiplicity.append(itr.compute_spin_multiplicity(itr.compute_spin_number(basis.configuration, eigvects[:,[ind]])))
     return (spins,multiplicity)
     
 
-- 
2.43.0


From f09310cacf3a435ca855352d3c5529bb56605f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:19 +0000
Subject: [PATCH 07/28] fix: normalize the initial guess when a single
 eigenstate is computed

The residue scales with the guess, so a non-normalized guess changed the
convergence criterion and the first Ritz value, down to a wrong eigenvalue.
---
 davidson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/davidson.py b/davidson.py
index 68ed1a8..0328cac 100644
--- a/davidson.py
+++ b/davidson.py
@@ -253,7 +253,7 @@ def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3
     if nb_val > 1 :
         krylov_basis = perform_modified_gram_schmidt(initial_guess)
     else:
-        krylov_basis = initial_guess
+        krylov_basis = initial_guess / lin.norm(initial_guess)
 
     for _ in trange_verbose(stp, verbose):
         # Krylov vectors
-- 
2.43.0


From fe9cab2ab639ab0043705f08ceb377c4f7631d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:41 +0000
Subject: [PATCH 08/28] fix: avoid dividing by zero in the Davidson
 preconditionner

A diagonal element equal to a Ritz value (an isolated determinant) filled
the corrections with NaN and the diagonalization raised LinAlgError.
---
 davidson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/davidson.py b/davidson.py
index 0328cac..cf8f380 100644
--- a/davidson.py
+++ b/davidson.py
@@ -278,7 +278,7 @@ def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3
         corrections = np.zeros((dim, nb_val))
         for ind in range(nb_val):
             preconditionner = sp.csr_matrix(\
-                ([1 / (diag - eigvals_temp[ind]) for diag in A.diagonal()], (range(dim), range(dim)) ), \
+                ([1 / ((diag - eigvals_temp[ind]) or np.finfo(float).eps) for diag in A.diagonal()], (range(dim), range(dim)) ), \
                 shape=(dim, dim))
             corrections[:,ind] = preconditionner.dot(residues[:,ind])
         # Iteration
-- 
2.43.0


From 3e667bf27c93518c2e498436c5d70c0ea54403f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:41 +0000
Subject: [PATCH 09/28] fix: recover the lattice type and the sites restriction
 of saved configurations

The restriction came back as a list of lists, on which every interaction of
the loaded configuration raised TypeError, and the lattice type was lost.
---
 initialComputations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/initialComputations.py b/initialComputations.py
index 9d7ef21..d20bac1 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -218,8 +218,10 @@ def recover_results(configuration, interactions, diagonalization, bool_interacti
     """
     configuration_class = bC.Configuration(bond_matrix=np.array(configuration["bond_matrix"]), 
         nholes=configuration["nholes"], 
-        nbeta=configuration["nbeta"])
-    for key in ["sites_restriction", "nbh", "nbv", "nblocs_side"]:
+        nbeta=configuration["nbeta"], 
+        sites_restriction=tuple(configuration.get("sites_restriction", [])), # JSON turns tuples into lists
+        lattice_type=configuration.get("lattice_type", "periodic"))
+    for key in ["nbh", "nbv", "nblocs_side"]:
         if key in configuration.keys():
             setattr(configuration_class, key, configuration[key])
     if "times" in kwargs.keys():
-- 
2.43.0


From 2b7a594f0f27716cf5f593854b13f0cd91c34d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:41 +0000
Subject: [PATCH 10/28] fix: keep the lattice type when sweeping over the
 configurations

---
 initialComputations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/initialComputations.py b/initialComputations.py
index d20bac1..93f6f14 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -286,6 +286,7 @@ def perform_configurations_computations(data):
             nholes=nholes, 
             nbeta=nbeta, 
             sites_restriction=configuration.sites_restriction, 
+            lattice_type=configuration.lattice_type, 
             nbh=configuration.nbh, 
             nbv=configuration.nbv, 
             nblocs_side=configuration.nblocs_side)
-- 
2.43.0


From 5189a04dd22e0b4e2f563679606b9a8028c83c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:41 +0000
Subject: [PATCH 11/28] fix: name embedding files after the selected
 interactions

Embeddings looked for a file named after every interaction, whatever the
selection, and could not find the one written by save_data.
---
 embedding.py      | 8 ++++----
 postProcessing.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/embedding.py b/embedding.py
index 50fec1e..dfdd195 100644
--- a/embedding.py
+++ b/embedding.py
@@ -69,7 +69,7 @@ def embedding_neel(data, self_consistency_tol, max_iter, nb_val=10): # Fix the g
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
 
@@ -290,7 +290,7 @@ def save_data_peripheral_embedding(data_computations):
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
  
@@ -399,7 +399,7 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
     if neel_embedding:
@@ -804,7 +804,7 @@ def save_data_embedding_blocks(data_computations, dynamic_embedding, neel_embedd
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
  
diff --git a/postProcessing.py b/postProcessing.py
index 47ed361..316fdfb 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -114,7 +114,7 @@ def generate_plots_configuration(data, input_plotting):
         else:
             extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
             for name in dir(bool_interactions):
-                if name in extensions:
+                if name in extensions and getattr(bool_interactions, name):
                     file_name_emb += extensions[name]
             file_name_emb += ".json"
         data_computations_embedding = iC.load_data("Embedding_blocks/" + file_name_emb)
-- 
2.43.0


From cc1b9b8182560bb61658a7b9c821f410c42fb7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:41 +0000
Subject: [PATCH 12/28] fix: normalize the probabilities of the rectangular
 lattice only once

---
 baseConstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index 626bd21..c0e025b 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -732,7 +732,7 @@ def get_probability_spin_rectangular_lattice(basis, vect, spin):
             ind_site = ind_v * nblocs_side * nbh + ind_h 
             
             proba_sites = get_probability_spin_lattice(basis, vect, spin)
-            proba_lattice[nblocs_side * nbv - 1 - ind_v, ind_h] = proba_sites[ind_site] / (np.linalg.norm(vect) ** 2)
+            proba_lattice[nblocs_side * nbv - 1 - ind_v, ind_h] = proba_sites[ind_site]
     return proba_lattice
 
         
-- 
2.43.0


From 354aaf7236e43beb3f1c4286193bcd88ddfd83a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:59 +0000
Subject: [PATCH 13/28] fix: recognize the holes aligned with a flipped bond on
 every type of lattice

Differences of site indices only tell directions apart when sites are indexed
row by row: on 'clusters' and 'peripheral' lattices, the spin flip did not
use the same coupling as the static term and the Hamiltonian lost its SU(2)
symmetry.
---
 interactions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interactions.py b/interactions.py
index fea4072..9ae5002 100644
--- a/interactions.py
+++ b/interactions.py
@@ -281,8 +281,8 @@ def compute_spin_flip(configuration, interactions, vect):
             ind_neigh_hole_0 = list(set(ind_neigh_0) & set(bC.get_indexes_of(configuration, vect, 0)))
             ind_neigh_hole_1 = list(set(ind_neigh_1) & set(bC.get_indexes_of(configuration, vect, 0)))
             if (ind_neigh_hole_0 or ind_neigh_hole_1) \
-                and (ind_1 - ind_0 in [abs(ind_0 - ind_hole) for ind_hole in ind_neigh_hole_0] + \
-                [abs(ind_1 - ind_hole) for ind_hole in ind_neigh_hole_1]): # Check if a neighboring hole is aligned with the pair
+                and True in [bC.is_bond_linear(configuration, ind_1, ind_0, ind_hole) for ind_hole in ind_neigh_hole_0 + ind_neigh_hole_1]: \
+                    # Check if a neighboring hole is aligned with the pair
                 
                 images_par.append(bC.reorder_basis_element(configuration, temp))
 
-- 
2.43.0


From e3db1fd83b563d28ddeea2da83485c98476aa4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:59 +0000
Subject: [PATCH 14/28] fix: use the coefficient of the Hamiltonian for the
 spin flip dynamic couplings

---
 interactions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interactions.py b/interactions.py
index 9ae5002..0a9fca1 100644
--- a/interactions.py
+++ b/interactions.py
@@ -523,7 +523,7 @@ def compute_dynamic_interactions(configuration, interactions, bool_interactions,
         print("[itr] tN_ortho_coupled = ", tN_ortho_coupled)
     if bij:
         Jcol_coupled, Jortho_coupled, J_coupled = compute_spin_flip(configuration, interactions, det)
-        events += [(Jcol_coupled, Jhpar), (Jortho_coupled, Jhper), (J_coupled, J)]
+        events += [(Jcol_coupled, Jhpar/2), (Jortho_coupled, Jhper/2), (J_coupled, J/2)]
     if bSD:
         hpar_coupled, hper_coupled = compute_singlet_displacement(configuration, interactions, det)
         singlet_events = [(hpar_coupled, hSDpar), (hper_coupled, hSDper)]
-- 
2.43.0


From b26438376f725c4ce8fefcf52029766604c854dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:10 +0000
Subject: [PATCH 15/28] fix: classify the bonds of cluster lattices from their
 common neighbors

The search of a permutation through the eigenvectors of the bond matrices
fails (IndexError) when the spectrum is degenerate, as on a 4x4 lattice of
two clusters, and enumerated 2^nsites diagonals.
---
 baseConstruction.py | 53 +++------------------------------------------
 1 file changed, 3 insertions(+), 50 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index c0e025b..a44528c 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -353,56 +353,9 @@ def is_bond_linear(configuration, site1, site2, site3): # Should implement metho
                     return False
 
             
-    else: # We look for the permutation of the sites indices that makes the indexing as in a lattice of type 'periodic'
-        configuration_periodic = copy.deepcopy(configuration)
-        configuration_periodic.bond_matrix = lF.build_rectangular_bond_matrix(configuration.nbh, configuration.nbv, configuration.nblocs_side)
-        configuration_periodic.lattice_type = 'periodic'
-        nbh, nbv, nblocs_side, nsites = configuration.nbh, configuration.nbv, configuration.nblocs_side, configuration.nsites
-        
-        bond_matrix_clusters = configuration.bond_matrix
-        bond_matrix_periodic = lF.build_rectangular_bond_matrix(nbh, nbv, nblocs_side)
-
-        # We compute transfer_matrix, the matrix of the permutation of sites from the cluster type indexing (or any other indexing) to the periodic type indexing
-        # so that we find the indexes of the considered sites in a periodic type indexing
-
-        clusters_eigenstates = np.linalg.eigh(bond_matrix_clusters)
-        clusters_eigenvectors = clusters_eigenstates[1]
-
-        periodic_eigenstates = np.linalg.eigh(bond_matrix_periodic)
-        periodic_eigenvectors = periodic_eigenstates[1]
-
-        # We find that, if C = bond_matrix_clusters, P = bond_matrix_periodic, and V = transfer_matrix, 
-        # with VCV.T = P and C = UDU.T, P = WDW.T, with D diagonal, it yields that W.TVU commutes with D, hence is diagonal : V=WD'U.T
-        # Given that V is unitary (VV.T=V.TV=I), (D')^2 = I so its diagonal coefficients are either 1 or -1
-        # We look for the correct D', that stabilizes 0 (V[0, 0] = 1) and make every coefficient of V live in [0, 1] (V[i, j] = 0 or 1)
-
-        possibles_diag = tuple(product([1, -1], repeat=nsites))
-        ind_diag = 0
-        is_permutation_matrix = False
-        while ind_diag < 2 ** nsites and not is_permutation_matrix :
-            commuting_matrix = np.diag(possibles_diag[ind_diag])
-            transfer_matrix = np.matmul(periodic_eigenvectors, np.matmul(commuting_matrix, clusters_eigenvectors.T))
-            if round(transfer_matrix[0, 0], 10) == 1.:
-                ind_row = 0
-                ind_col = 0
-                while ind_row < nsites and round(transfer_matrix[ind_row, ind_col], 10) in (0., 1.):
-                    if ind_col < nsites - 1:
-                        ind_col += 1
-                    else:
-                        ind_col = 0
-                        ind_row += 1
-                if ind_row == nsites:
-                    is_permutation_matrix = True
-                else:
-                    ind_diag += 1
-            else:
-                ind_diag += 1
-
-        new_s1 = [row for row in range(nsites) if round(transfer_matrix[row, site_1], 10) == 1][0]
-        new_s2 = [row for row in range(nsites) if round(transfer_matrix[row, site_2], 10) == 1][0]
-        new_s3 = [row for row in range(nsites) if round(transfer_matrix[row, site_3], 10) == 1][0]
-
-        return is_bond_linear(configuration_periodic, new_s1, new_s2, new_s3)
+    else: # Whatever the indexing of the sites, two orthogonal bonds are the sides of a tile, the opposite corner of which also neighbors site_1 and site_3
+        common_neighbors = set(lF.get_neighbors(site_1, bond_matrix)) & set(lF.get_neighbors(site_3, bond_matrix))
+        return len(common_neighbors) == 1
 
 
 # Display functions
-- 
2.43.0


From d1fde68dc0921694ba9f42d21ab751b9eebfe10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:10 +0000
Subject: [PATCH 16/28] fix: discard the initial guess when saving embedding
 results

An array as initial guess is not JSON serializable: the save raised
TypeError at the end of the computation and left a truncated file.
---
 embedding.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/embedding.py b/embedding.py
index dfdd195..2ae4e5b 100644
--- a/embedding.py
+++ b/embedding.py
@@ -283,6 +283,9 @@ def save_data_peripheral_embedding(data_computations):
     btN = bool_interactions.btN
     bV = bool_interactions.bV
 
+    # Diagonalization
+    data_computations.data.diagonalization.initial_guess = None # Discarding initial guess
+
     # File Name
     file_name = "tJHam-{}{}{}".format(nsites, nalpha, nbeta)
     if bt and bz and bij and bSD and btN and bV:
@@ -790,6 +793,9 @@ def save_data_embedding_blocks(data_computations, dynamic_embedding, neel_embedd
     btN = bool_interactions.btN
     bV = bool_interactions.bV
 
+    # Diagonalization
+    data_computations.data.diagonalization.initial_guess = None # Discarding initial guess
+
     # File Name
     file_name = "tJHam"
     if dynamic_embedding:
-- 
2.43.0


From f3b1e9f6705533172e9347999b462d177283d42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:07 +0000
Subject: [PATCH 17/28] fix: classify the bonds around blocks of a single row
 or column

On a 'peripheral' lattice whose block is one site wide, the vertical bonds of
the block were taken for horizontal ones and facing peripheral sites were
never colinear.
---
 baseConstruction.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index a44528c..ae464cd 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -337,9 +337,12 @@ def is_bond_linear(configuration, site1, site2, site3): # Should implement metho
         elif site_1 >= nsites and site_2 >= nsites and site_3 >= nsites: # If sites are all on the peripheral lattice, there are obviously colinear
             return True
         elif len([site for site in (site_1, site_2, site_3) if site >= nsites]) == 2: # If 2 sites are on the peripheral lattice, the last one can't be colinear
-            return False 
+            # unless it lies between them, on a block with a single row or column
+            is_vertical_1, is_vertical_3 = [site < nsites + nbh * nblocs_side or (site >= nsites + (nbh + nbv) * nblocs_side \
+                and site < nsites + (2 * nbh + nbv) * nblocs_side) for site in (site_1, site_3)]
+            return site_2 < nsites and is_vertical_1 == is_vertical_3
         else: # There is one site on the peripheral lattice
-            if abs(site_2 - site_1) == 1: # First bond horizontal
+            if abs(site_2 - site_1) == 1 and nbh * nblocs_side > 1: # First bond horizontal
                 if (site_3 >= nsites and site_3 < nsites + nbh * nblocs_side) or (site_3 >= nsites + (nbh + nbv) * nblocs_side \
                     and site_3 < nsites + (2 * nbh + nbv) * nblocs_side): # Second bond vertical
                     return False
-- 
2.43.0


From 0fc4c6df7ff171f5c74925f5cdc71b4bec10cd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:45 +0000
Subject: [PATCH 18/28] fix: apply the sites restriction passed to
 build_hamiltonian

The parameter was documented but never reached the interactions.
---
 hamiltonianConstruction.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hamiltonianConstruction.py b/hamiltonianConstruction.py
index 93627e2..766021d 100644
--- a/hamiltonianConstruction.py
+++ b/hamiltonianConstruction.py
@@ -1,4 +1,6 @@
 import latticeFunctions as lF
+import baseConstruction as bC
+import copy
 import numpy as np
 import interactions as itr
 import scipy.sparse as sp
@@ -39,9 +41,10 @@ def build_hamiltonian(configuration, interactions, basis, bool_interactions, sit
     nsites = configuration.nsites
     nalpha = configuration.nalpha
     nbeta = configuration.nbeta
-    nsites = configuration.nsites
-    if not sites_restriction:
-        sites_restriction = list(range(nsites))
+    if sites_restriction:
+        configuration = copy.copy(configuration)
+        configuration.sites_restriction = sites_restriction if isinstance(sites_restriction, tuple) else (sites_restriction, sites_restriction)
+        basis = bC.Basis(configuration, basis.determinants)
 
     dim = lF.compute_dimension(nsites,nalpha,nbeta)
     # Interactions booleans
-- 
2.43.0


From e886b88916cf08b33c9dc993191b9928003a47d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:22 +0000
Subject: [PATCH 19/28] fix: plot a single eigenstate without failing on the
 array of axes

---
 postProcessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postProcessing.py b/postProcessing.py
index 316fdfb..22f1769 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -539,7 +539,7 @@ def save_hole_probability_lattice(data_computation,nb_subplots):
 
     nb_plot = int(mp.floor(mp.sqrt(nb_subplots))**2)
     nb_row = int(mp.sqrt(nb_plot))
-    fig, ax = plt.subplots(nb_row,nb_row)
+    fig, ax = plt.subplots(nb_row, nb_row, squeeze=False)
 
     # Configuration
     configuration = data_computation.data.configuration
@@ -756,7 +756,7 @@ def plot_determinants_amplitude_repartition(data_computation, nb_subplots):
     
     nb_plot = int(mp.floor(mp.sqrt(nb_subplots))**2)
     nb_row = int(mp.sqrt(nb_plot))
-    fig, ax = plt.subplots(nb_row, nb_row)
+    fig, ax = plt.subplots(nb_row, nb_row, squeeze=False)
 
     # Configuration
     configuration = data_computation.data.configuration
-- 
2.43.0


From 718e1f9f22b218694b1d6cfc635cff6dbd334af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:22 +0000
Subject: [PATCH 20/28] fix: draw the densities with the site 0 in the lower
 left corner

The rows of the probability array go southwards and were plotted northwards.
---
 postProcessing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postProcessing.py b/postProcessing.py
index 22f1769..875f9ec 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -565,7 +565,7 @@ def save_hole_probability_lattice(data_computation,nb_subplots):
     # Interpolation of the probability density function
         x = list(range(nblocs_side * nbh))
         y = list(range(nblocs_side * nbv))
-        z = proba.tolist()
+        z = np.flipud(proba).tolist() # y goes upwards, from the last row of the lattice (site 0) to the first one
 
         f = interp.interp2d(x, y, z)
 
@@ -661,8 +661,8 @@ def save_electron_probability_lattice(data_computation, nb_state):
         x = list(range(nblocs_side*nbh))
         y = list(range(nblocs_side*nbv))
         
-        z_alpha = proba_alpha.tolist()
-        z_beta = proba_beta.tolist()
+        z_alpha = np.flipud(proba_alpha).tolist() # y goes upwards, from the last row of the lattice (site 0) to the first one
+        z_beta = np.flipud(proba_beta).tolist()
         z_charge = []
         for ind_row in range(len(z_alpha)):
             row = []
-- 
2.43.0


From 3dc09ac31ebe344a5c86eb4f200c77b7f542ac68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 21/28] fix: compute no more eigenstates than the dimension of
 the matrix

---
 davidson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/davidson.py b/davidson.py
index cf8f380..fd224e0 100644
--- a/davidson.py
+++ b/davidson.py
@@ -244,7 +244,7 @@ def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3
     dim = A.shape[0]
     if dim_max == 0:
         dim_max = dim
-    nb_val = min(nb_val, dim_max)
+    nb_val = min(nb_val, dim, dim_max)
 
     if initial_guess is None:
         initial_guess = np.random.rand(dim, nb_val)
-- 
2.43.0


From 14f5ff71580edc1a1c551240a7b29a0fa6c796c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 22/28] fix: reverse the spins of every site, restricted or not

---
 baseConstruction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index ae464cd..cfaf1e6 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -262,7 +262,8 @@ def reverse_spins(configuration, det):
         configuration.nbv, 
         configuration.nblocs_side
     )
-    det_flip = get_indexes_of(configuration, det, 0) + get_indexes_of(configuration, det, 1) + get_indexes_of(configuration, det, -1)
+    nholes, nbeta = configuration.nholes, configuration.nbeta
+    det_flip = det[: nholes] + det[nholes + nbeta :] + det[nholes : nholes + nbeta]
     return configuration_flip, reorder_basis_element(configuration_flip, det_flip)
 
 
-- 
2.43.0


From eac40ca90098760a0e874a6c206cbf6eb04da162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:20 +0000
Subject: [PATCH 23/28] fix: apply S+S- to every site, restricted or not

---
 interactions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/interactions.py b/interactions.py
index 0a9fca1..6ae75ed 100644
--- a/interactions.py
+++ b/interactions.py
@@ -617,8 +617,10 @@ def compute_S_plus_S_minus_det(configuration, det, site_plus, site_minus):
     Returns:
         det_return (list<int>): the resulting Slater determinant
     """
-    list_alpha = bC.get_indexes_of(configuration, det, 1)
-    list_beta = bC.get_indexes_of(configuration, det, -1)
+    nholes = configuration.nholes
+    nbeta = configuration.nbeta
+    list_alpha = det[nholes + nbeta :]
+    list_beta = det[nholes : nholes + nbeta]
     
     if site_plus in list_beta:
         if site_minus in list_alpha:
@@ -631,7 +633,7 @@ def compute_S_plus_S_minus_det(configuration, det, site_plus, site_minus):
             list_alpha.sort()
             list_beta.sort()
             
-            det_return = bC.get_indexes_of(configuration, det, 0) + list_beta + list_alpha
+            det_return = det[: nholes] + list_beta + list_alpha
             return det_return
     else:
         return
-- 
2.43.0


From 15de161856cfc01aaaae3e402947dfc56804d101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:20 +0000
Subject: [PATCH 24/28] fix: join the determinants of blocks on every site,
 restricted or not

---
 baseConstruction.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index cfaf1e6..ab66393 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -232,9 +232,12 @@ def extend_determinant(configuration_1, configuration_2, det_1, det_2):
     """
     nsites_1 = configuration_1.nsites
 
-    det_1_hole, det_2_hole = get_indexes_of(configuration_1, det_1, 0), get_indexes_of(configuration_2, det_2, 0)
-    det_1_beta, det_2_beta = get_indexes_of(configuration_1, det_1, -1), get_indexes_of(configuration_2, det_2, -1)
-    det_1_alpha, det_2_alpha = get_indexes_of(configuration_1, det_1, 1), get_indexes_of(configuration_2, det_2, 1)
+    nholes_1, nholes_2 = configuration_1.nholes, configuration_2.nholes
+    nbeta_1, nbeta_2 = configuration_1.nbeta, configuration_2.nbeta
+
+    det_1_hole, det_2_hole = det_1[: nholes_1], det_2[: nholes_2]
+    det_1_beta, det_2_beta = det_1[nholes_1 : nholes_1 + nbeta_1], det_2[nholes_2 : nholes_2 + nbeta_2]
+    det_1_alpha, det_2_alpha = det_1[nholes_1 + nbeta_1 :], det_2[nholes_2 + nbeta_2 :]
 
     det_hole = det_1_hole + [site + nsites_1 for site in det_2_hole]
     det_beta = det_1_beta + [site + nsites_1 for site in det_2_beta]
-- 
2.43.0


From e3004b83ab921c0364c4abd21e954309ad18facd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:58 +0000
Subject: [PATCH 25/28] fix: bound the denominators of the Davidson
 preconditionner away from zero

A difference of 1e-310 between a diagonal element and a Ritz value overflowed to
infinity, and the next diagonalization raised LinAlgError.
---
 davidson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/davidson.py b/davidson.py
index fd224e0..d95f4e4 100644
--- a/davidson.py
+++ b/davidson.py
@@ -278,7 +278,7 @@ def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3
         corrections = np.zeros((dim, nb_val))
         for ind in range(nb_val):
             preconditionner = sp.csr_matrix(\
-                ([1 / ((diag - eigvals_temp[ind]) or np.finfo(float).eps) for diag in A.diagonal()], (range(dim), range(dim)) ), \
+                ([1 / np.copysign(max(abs(diag - eigvals_temp[ind]), np.finfo(float).eps), diag - eigvals_temp[ind]) for diag in A.diagonal()], (range(dim), range(dim)) ), \
                 shape=(dim, dim))
             corrections[:,ind] = preconditionner.dot(residues[:,ind])
         # Iteration
-- 
2.43.0


From baef566d571af68ee1a8bb32014c2e6e8e67f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:15 +0000
Subject: [PATCH 26/28] fix: reverse the spins of the neighboring block in the
 dynamic embedding

---
 embedding.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/embedding.py b/embedding.py
index 2ae4e5b..37a9c43 100644
--- a/embedding.py
+++ b/embedding.py
@@ -478,6 +478,7 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
             ham_block_embedded = ham_block.tocoo(copy=True)
 
             probabilities_spins_B = bC.get_spins_probabilitites_lattice(basis_block, ground_state_temp, reverse_spins=reverse_spins)
+            ground_state_neighbor = bC.reverse_spins_vect(basis_block, ground_state_temp) if reverse_spins else ground_state_temp
 
             for ind_A, det_A in enumerate(determinants_block):
                 #print("[emb] ---------------------------------------------------------------------------------------------------------------------------------------")
@@ -542,8 +543,8 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
                         )
                         configuration_temp_B = bC.Configuration(
                             bond_matrix_block,
-                            nholes_block - (delta_nalpha + delta_nbeta == -1) + (delta_nalpha + delta_nbeta == 1),
-                            nbeta_block - delta_nbeta,
+                            nholes_neighbor - (delta_nalpha + delta_nbeta == -1) + (delta_nalpha + delta_nbeta == 1),
+                            nbeta_neighbor - delta_nbeta,
                             configuration_block.sites_restriction,
                             "periodic",
                             nbh, nbv, nblocs_side
@@ -575,9 +576,9 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
 
                                 configuration_perturbed_B = copy.deepcopy(configuration_neighbor)
                                 setattr(configuration_perturbed_B, spins_attributes[spin], \
-                                    getattr(configuration_block, spins_attributes[spin]) + 1)
+                                    getattr(configuration_neighbor, spins_attributes[spin]) + 1)
                                 setattr(configuration_perturbed_B, spins_attributes[new_spin], \
-                                    getattr(configuration_block, spins_attributes[new_spin]) - 1)
+                                    getattr(configuration_neighbor, spins_attributes[new_spin]) - 1)
 
                                 configuration_perturbed_B = bC.Configuration(
                                     bond_matrix=configuration_perturbed_B.bond_matrix, nholes=configuration_perturbed_B.nholes, nbeta=configuration_perturbed_B.nbeta, 
@@ -679,12 +680,12 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
                                                         coupling_2 = coupled_dets[new_det_2]
 
                                                         ind_new_det_B_1 = bC.get_index_in_basis(
-                                                            configuration_block, [site - nsites_block for site in new_det_1 if site >= nsites_block])
+                                                            configuration_neighbor, [site - nsites_block for site in new_det_1 if site >= nsites_block])
                                                         ind_new_det_B_2 = bC.get_index_in_basis(
-                                                            configuration_block, [site - nsites_block for site in new_det_2 if site >= nsites_block])
+                                                            configuration_neighbor, [site - nsites_block for site in new_det_2 if site >= nsites_block])
 
-                                                        coupling = (np.conj(ground_state_temp[ind_new_det_B_1, 0]) \
-                                                            * ground_state_temp[ind_new_det_B_2, 0] \
+                                                        coupling = (np.conj(ground_state_neighbor[ind_new_det_B_1, 0]) \
+                                                            * ground_state_neighbor[ind_new_det_B_2, 0] \
                                                             * coupling_1 * np.conj(coupling_2)) / (2 * ground_state_energy \
                                                                 - energy_perturbator)
                                                         #print("[emb] ({} - {}) : coupling = {} * {} * ({} * {}) / (2 * {} - {}) = ".format(ind, ind_temp + ind + 1, np.conj(ground_state_temp[ind_new_det_B_1, 0]), ground_state_temp[ind_new_det_B_2, 0], coupling_1, np.conj(coupling_2), ground_state_energy, energy_perturbator), coupling)
-- 
2.43.0


From d23b819eac503b7b85246e330b31df874d3dfa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:18 +0000
Subject: [PATCH 27/28] fix: orthonormalize several initial guesses when a
 single eigenstate is computed

---
 davidson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/davidson.py b/davidson.py
index d95f4e4..fc1737a 100644
--- a/davidson.py
+++ b/davidson.py
@@ -250,7 +250,7 @@ def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3
         initial_guess = np.random.rand(dim, nb_val)
     
     # Krylov basis (basis of the search space)
-    if nb_val > 1 :
+    if initial_guess.shape[1] > 1 :
         krylov_basis = perform_modified_gram_schmidt(initial_guess)
     else:
         krylov_basis = initial_guess / lin.norm(initial_guess)
-- 
2.43.0


From ea06015a45f336290fd42c9d45d6f37cd756ef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:06 +0000
Subject: [PATCH 28/28] fix: replace saved results only once the new ones are
 completely written

---
 embedding.py           | 14 +++++++++-----
 initialComputations.py |  4 +++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/embedding.py b/embedding.py
index 37a9c43..09d4055 100644
--- a/embedding.py
+++ b/embedding.py
@@ -298,8 +298,9 @@ def save_data_peripheral_embedding(data_computations):
         file_name += ".json"
  
     # Saving results
+    part_name = "./initialComputations/Peripheral_embedding/{}.{}.part".format(file_name, os.getpid()) # Replaces a previous result only once complete
     try :
-        with open("./initialComputations/Peripheral_embedding/{}".format(file_name), "w") as savefile:
+        with open(part_name, "w") as savefile:
             savefile.write(json.dumps({
                 "configuration" : configuration.__to_json__(), 
                 "interactions" : data_computations.data.interactions.__dict__, 
@@ -319,7 +320,7 @@ def save_data_peripheral_embedding(data_computations):
             })) 
     except OSError:
         os.mkdir("./initialComputations/Peripheral_embedding")
-        with open("./initialComputations/Peripheral_embedding/{}".format(file_name), "w") as savefile:
+        with open(part_name, "w") as savefile:
             savefile.write(json.dumps({
                 "configuration" : configuration.__to_json__(), 
                 "interactions" : data_computations.data.interactions.__dict__, 
@@ -337,6 +338,7 @@ def save_data_peripheral_embedding(data_computations):
                     "eigvects" : data_computations.eigenstates.eigvects.tolist()
                     }
             })) 
+    os.replace(part_name, "./initialComputations/Peripheral_embedding/{}".format(file_name))
 
 
 # Embedding in neighboring blocks
@@ -816,8 +818,9 @@ def save_data_embedding_blocks(data_computations, dynamic_embedding, neel_embedd
         file_name += ".json"
  
     # Saving results
+    part_name = "./initialComputations/Embedding_blocks/{}.{}.part".format(file_name, os.getpid()) # Replaces a previous result only once complete
     try :
-        with open("./initialComputations/Embedding_blocks/{}".format(file_name), "w") as savefile:
+        with open(part_name, "w") as savefile:
             savefile.write(json.dumps({
                 "configuration" : configuration.__to_json__(), 
                 "interactions" : data_computations.data.interactions.__dict__, 
@@ -837,7 +840,7 @@ def save_data_embedding_blocks(data_computations, dynamic_embedding, neel_embedd
             })) 
     except OSError:
         os.mkdir("./initialComputations/Embedding_blocks")
-        with open("./initialComputations/Embedding_blocks/{}".format(file_name), "w") as savefile:
+        with open(part_name, "w") as savefile:
             savefile.write(json.dumps({
                 "configuration" : configuration.__to_json__(), 
                 "interactions" : data_computations.data.interactions.__dict__, 
@@ -854,4 +857,5 @@ def save_data_embedding_blocks(data_computations, dynamic_embedding, neel_embedd
                     "spins" : data_computations.eigenstates.spins,
                     "eigvects" : data_computations.eigenstates.eigvects.tolist()
                     }
-            })) 
\ No newline at end of file
+            })) 
+    os.replace(part_name, "./initialComputations/Embedding_blocks/{}".format(file_name))
diff --git a/initialComputations.py b/initialComputations.py
index 93f6f14..0c2b738 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -177,7 +177,8 @@ def save_data(data_computations):
         file_name += ".json"
  
     # Saving results
-    with open("./initialComputations/{}".format(file_name), "w") as savefile:
+    part_name = "./initialComputations/{}.{}.part".format(file_name, os.getpid()) # Replaces a previous result only once complete
+    with open(part_name, "w") as savefile:
         savefile.write(json.dumps({
             "configuration" : configuration_dict, 
             "interactions" : data_computations.data.interactions.__dict__, 
@@ -196,6 +197,7 @@ def save_data(data_computations):
                 },
             "times" : data_computations.times.__dict__
         }))
+    os.replace(part_name, "./initialComputations/{}".format(file_name))
 
 def recover_results(configuration, interactions, diagonalization, bool_interactions, determinants, hamiltonian, eigenstates, **kwargs):
     """
-- 
2.43.0

