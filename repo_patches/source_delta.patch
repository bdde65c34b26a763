From 10ecfe5140a0dcfd7e3f626d38912031ad67ac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:54 +0000
Subject: [PATCH 01/44] fix: bosonic single-site operators have the full
 dimension for any local dimension

---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index c8a5395..c2da356 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -339,7 +339,7 @@ class ed_base:
                 endmat = sp.kron(endmat, self.parity_op, format="coo")
             # TODO: can I generate this parity matrix without a loop? Would it be faster?
         elif format == "boson":
-            endmat = sp.eye(2 ** (n_logical_sites - site_index_logical - 1))
+            endmat = sp.eye(self.nbasis ** (n_logical_sites - site_index_logical - 1))
         else:
             raise Exception()
 
-- 
2.43.0


From f3ee532a4fe3a32bca46fae8a64c71f558830356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:54 +0000
Subject: [PATCH 02/44] fix: get_norms accepts a single state given as a 1D
 array

---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index c2da356..b50bd9f 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -562,7 +562,7 @@ class ed_base:
             tstart = perf_counter()
 
         if states.ndim == 1:
-            states = np.expand_dim(states, axis=1)
+            states = np.expand_dims(states, axis=1)
 
         if sp.issparse(states):
             states = states.tocsr()
-- 
2.43.0


From 8c060b983246793764938d9d2567f894412d3148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:54 +0000
Subject: [PATCH 03/44] fix: spinSystem.get_sum_op calls the base class method

---
 exact_diag/ed_spins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 5777798..9d08074 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -448,7 +448,7 @@ class spinSystem(ed_base):
         :return: OpMat, sparse matrix
         """
         species_index = 0
-        return ed_base.ed_base.get_sum_op(self, op, species_index, format="boson", print_results=False)
+        return ed_base.get_sum_op(self, op, species_index, format="boson", print_results=False)
 
     def get_swap_up_down_op(self):
         """
-- 
2.43.0


From e0b43e26a4fd93173b19a0f45f82984d12d6f95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:54 +0000
Subject: [PATCH 04/44] fix: spinSystem.get_state_parity calls get_state_vects
 with its actual signature

---
 exact_diag/ed_spins.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 9d08074..d4af270 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -217,8 +217,7 @@ class spinSystem(ed_base):
         """
         if print_results:
             tstart = perf_counter()
-        StateParity = np.mod(np.array(self.get_state_vects(self.geometry.nsites,
-                                                           2 ** self.geometry.nsites).sum(1)), 2)
+        StateParity = np.mod(np.array(self.get_state_vects().sum(1)), 2)
         if print_results:
             tend = perf_counter()
             print("get_state_parity took %0.2fs" % (tend - tstart))
-- 
2.43.0


From 89a711e1ac81fc3b7e71bef0c717c02a6f144f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:54 +0000
Subject: [PATCH 05/44] fix: second antiferromagnetic state is the spin-flip of
 the first

---
 exact_diag/ed_spins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index d4af270..acbb923 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -376,7 +376,7 @@ class spinSystem(ed_base):
             else:
                 # if nsites is even
                 AFMState1Ind = (2 + NStates) / 3 - 1
-            AFMState2Ind = NStates - AFMState1Ind
+            AFMState2Ind = NStates - 1 - AFMState1Ind
         else:
             print('AFM State finder not implemented for even number of sites in X-direction when using '
                   'conventional number, or not implemented for only a single site. Will return FM states instead')
-- 
2.43.0


From 726035c752d9dd05818cb4b258387556ee9a7c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:54 +0000
Subject: [PATCH 06/44] fix: interaction matrix from a list of couplings is
 built and symmetric

---
 exact_diag/ed_spins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index acbb923..45b4861 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -155,8 +155,9 @@ class spinSystem(ed_base):
             if j.shape == (self.geometry.nsites, self.geometry.nsites):
                 j_mat = j
             elif j.size == self.geometry.nsites:
-                j_mat = np.diag(j[:-1], 1) + np.diag(j[-1], -1)
+                j_mat = np.diag(j[:-1], 1) + np.diag(j[:-1], -1)
                 j_mat[0, self.geometry.nsites - 1] = j[-1]
+                j_mat[self.geometry.nsites - 1, 0] = j[-1]
             else:
                 raise Exception('j should be nsites x nsites matrix or a list of size nsites')
         else:
-- 
2.43.0


From 9cef45c70c759adc86ebcd70a33b86d7d5a0788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:54 +0000
Subject: [PATCH 07/44] fix: C6 interaction matrix uses the distance matrices
 the geometry provides

---
 exact_diag/ed_spins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 45b4861..68da48e 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -135,7 +135,7 @@ class spinSystem(ed_base):
         :param cutoff_dist:
         :return:
         """
-        distmat = np.sqrt(self.geometry.site_distances_reduced_x ** 2 + self.geometry.site_distances_reduced_y ** 2)
+        distmat = np.sqrt(self.geometry.xdist_mat ** 2 + self.geometry.ydist_mat ** 2)
         jmat = np.zeros(distmat.shape)
         jmat[distmat != 0] = C6*np.power(np.reciprocal(distmat[distmat != 0]), 6)
         return jmat
-- 
2.43.0


From a2504aa9ebc6288fe75019583a333b1a57efe5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:54 +0000
Subject: [PATCH 08/44] fix: spin raising and lowering operators were
 exchanged, giving Sy the wrong sign

---
 exact_diag/ed_spins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 68da48e..281932f 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -82,7 +82,7 @@ class spinSystem(ed_base):
         :return:
         """
         ms = np.arange(spin - 1, -spin - 1, -1)
-        return sp.diags(np.sqrt((spin - ms) * (spin + ms + 1)), -1)
+        return sp.diags(np.sqrt((spin - ms) * (spin + ms + 1)), 1)
 
     @staticmethod
     def get_sminus(spin):
@@ -93,7 +93,7 @@ class spinSystem(ed_base):
         :return:
         """
         ms = np.arange(spin, -spin, -1)
-        return sp.diags(np.sqrt((spin + ms) * (spin - ms + 1)), 1)
+        return sp.diags(np.sqrt((spin + ms) * (spin - ms + 1)), -1)
 
     def get_sx(self,
                spin):
-- 
2.43.0


From f96dfd117fcca4dfc78b524b99936014369b8f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:10 +0000
Subject: [PATCH 09/44] fix: per-species potentials are assigned to the species
 axis

---
 exact_diag/ed_fermions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 3af1943..fd21628 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -124,7 +124,7 @@ class fermions(ed_base):
         elif potentials.size == self.nspecies:
             self.potentials = np.zeros((self.geometry.nsites, self.nspecies))
             for ii in range(0, self.nspecies):
-                self.potentials[ii, :] = potentials[ii] * np.ones(self.geometry.nsites)
+                self.potentials[:, ii] = potentials[ii] * np.ones(self.geometry.nsites)
         elif potentials.shape == (self.geometry.nsites, self.nspecies):
             self.potentials = potentials
         elif potentials.shape == (self.geometry.nsites,) and self.nspecies == 1:
-- 
2.43.0


From 2f18ed53c69e5c43bfef23714839446a1603b8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:10 +0000
Subject: [PATCH 10/44] fix: hopping matrix keeps the imaginary part of
 boundary condition phases

---
 exact_diag/ed_fermions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index fd21628..db96fd2 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -238,7 +238,8 @@ class fermions(ed_base):
         if t.size == 1:
             t = t * np.ones(self.nspecies)
 
-        hopping_mat = np.zeros((self.geometry.nsites, self.geometry.nsites, self.nspecies))
+        hopping_mat = np.zeros((self.geometry.nsites, self.geometry.nsites, self.nspecies),
+                               dtype=np.result_type(t, self.geometry.phase_mat))
         for ii in range(0, self.nspecies):
             hopping_mat[:, :, ii] = t[ii] * np.multiply(self.geometry.adjacency_mat, self.geometry.phase_mat)
 
-- 
2.43.0


From 407d3105e0d991b5ce0f85349056d1d42bb88a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:10 +0000
Subject: [PATCH 11/44] fix: reverse hopping term carries the complex conjugate
 amplitude

---
 exact_diag/ed_fermions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index db96fd2..162a040 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -335,13 +335,15 @@ class fermions(ed_base):
                         for kk in range(0, self.nspecies):
                             # avoid calculating operators unless will be nonzero
                             if self.ts[ii, jj, kk] != 0:
-                                ke_op = ke_op + self.ts[ii, jj, kk] * sep_along_vector[ii, jj] * (
-                                        - projector * self.get_two_site_op(ii, kk, jj, kk,
+                                ke_op = ke_op + sep_along_vector[ii, jj] * (
+                                        - self.ts[ii, jj, kk] *
+                                          projector * self.get_two_site_op(ii, kk, jj, kk,
                                                                            self.cdag_op,
                                                                            self.c_op,
                                                                            "fermion") *
                                           projector.conj().transpose()
-                                        - projector * self.get_two_site_op(jj, kk, ii, kk,
+                                        - np.conj(self.ts[ii, jj, kk]) *
+                                          projector * self.get_two_site_op(jj, kk, ii, kk,
                                                                            self.cdag_op,
                                                                            self.c_op,
                                                                            "fermion") *
-- 
2.43.0


From 3a8af9ff920226c86253013a6ca4b6c7a05d8fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:10 +0000
Subject: [PATCH 12/44] fix: Hamiltonian hopping amplitudes are not scaled by
 the bond's extent

---
 exact_diag/ed_fermions.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 162a040..047d5e1 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -289,8 +289,7 @@ class fermions(ed_base):
 
         haml = haml + self.get_u_interspecies_op(self.us_interspecies, projector=projector)
         haml = haml + self.get_u_samespecies_op(self.us_same_species, projector=projector)
-        haml = haml + self.get_kinetic_op(projector=projector, direction_vect=np.array([1, 0]))
-        haml = haml + self.get_kinetic_op(projector=projector, direction_vect=np.array([0, 1]))
+        haml = haml + self.get_kinetic_op(projector=projector, direction_vect=None)
         haml = haml + self.get_chemical_pot_op(self.mus, projector=projector)
         haml = haml + self.get_potential_op(self.potentials, projector=projector)
 
@@ -307,7 +306,8 @@ class fermions(ed_base):
         Compute the kinetic energy operator for a specific hopping connection matrix
 
         :param projector:
-        :param direction_vect:
+        :param direction_vect: weight each bond by its extent along this direction. If None, do not weight the bonds,
+          i.e. compute the full hopping term of the Hamiltonian
         :return:
         """
         # TODO: add option for kinetic energy along some arbitary direction
@@ -321,8 +321,11 @@ class fermions(ed_base):
 
         ke_op = sp.csr_matrix((nstates, nstates))
 
-        sep_along_vector = np.sqrt(np.square(direction_vect[0] * self.geometry.xdist_mat) +
-                                   np.square(direction_vect[1] * self.geometry.ydist_mat))
+        if direction_vect is None:
+            sep_along_vector = np.ones((n_physical_sites, n_physical_sites))
+        else:
+            sep_along_vector = np.sqrt(np.square(direction_vect[0] * self.geometry.xdist_mat) +
+                                       np.square(direction_vect[1] * self.geometry.ydist_mat))
         # hopping terms
         if n_physical_sites > 1:
 
-- 
2.43.0


From 1a8beebc49640a39d5b4c9719c26a0d44306f27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:10 +0000
Subject: [PATCH 13/44] fix: current operator uses the tunneling matrix of the
 model

---
 exact_diag/ed_fermions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 047d5e1..bb65e28 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -496,8 +496,6 @@ class fermions(ed_base):
         # such a chain (ring) doesn't have a consistent notion of right vs. left (clockwise vs. counterclockwise)
 
         geom_obj = self.geometry
-        tx = self.tx
-        ty = self.ty
 
         direction_vector = np.reshape(np.asarray(direction_vector), [2])
 
@@ -512,12 +510,12 @@ class fermions(ed_base):
                 for kk in range(0, self.nspecies):
 
                     if geom_obj.adjacency_mat[ii, jj] and is_x_neighbor[ii, jj]:
-                        link_current = tx * distance_component_x[ii, jj] * \
+                        link_current = self.ts[ii, jj, kk] * distance_component_x[ii, jj] * \
                                        self.get_two_site_op(ii, kk, jj, kk, self.cdag_op, self.c_op, format="fermion")
                         current_op = current_op + link_current
 
                     if geom_obj.adjacency_mat[ii, jj] and is_y_neighbor[ii, jj]:
-                        link_current = ty * distance_component_y[ii, jj] * \
+                        link_current = self.ts[ii, jj, kk] * distance_component_y[ii, jj] * \
                                        self.get_two_site_op(ii, kk, jj, kk, self.cdag_op, self.c_op, format="fermion")
                         current_op = current_op + link_current
         current_op = 1j * current_op
-- 
2.43.0


From 880da5d42e922c12fb3d41485a90b3fab0dc1a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:10 +0000
Subject: [PATCH 14/44] fix: finite temperature retarded response weights A_nm
 B_mn by the occupation of state n

---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index b50bd9f..5681c3a 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -1109,7 +1109,7 @@ class ed_base:
             beta = 1 / temperature
             z = np.sum(np.exp(- beta * eig_vals))
             mat_elem = np.multiply(a_matrix_elems, b_matrix_elems.transpose())
-            thermal_mat_elem = mat_elem.dot(np.diag(np.exp(- beta * eig_vals)))
+            thermal_mat_elem = np.diag(np.exp(- beta * eig_vals)).dot(mat_elem)
             omega_fn = lambda wo, eta, es, amp: np.multiply(1 + factor * np.exp(beta * es), lor(wo + es, eta, amp))
 
         else:
-- 
2.43.0


From d656c4989426e698939184ad4ec6d799d7568a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:10 +0000
Subject: [PATCH 15/44] fix: partition function from a sparse Hamiltonian

---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 5681c3a..45de08b 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -946,7 +946,7 @@ class ed_base:
         if beta == 0:
             return hamiltonian.shape[0]
         else:
-            return np.trace(expm(- beta * hamiltonian).toarray().real)
+            return np.trace(expm(- beta * hamiltonian.toarray()).real)
 
     def get_partition_fn_sectors(self,
                                  energies_sectors: list,
-- 
2.43.0


From 4a9cfb07963e8736ae17e8aa0435b7a45aa1e937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:08 +0000
Subject: [PATCH 16/44] fix: one dimensional density response evaluates the
 dispersion at the shifted momentum

---
 exact_diag/fermi_gas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index fca2774..e5fd740 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -588,7 +588,7 @@ def fg_density_response(beta,
         kxkx_shift = kxkx + k[0]
 
         # get energies
-        dispersion = lambda kx: -2 * np.cos(kxkx)
+        dispersion = lambda kx: -2 * np.cos(kx)
         es = dispersion(kxkx)
         es_q = dispersion(kxkx_shift)
 
-- 
2.43.0


From c2eb0ef8537d3258c6b20eed029e2e0bb9c1b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:52 +0000
Subject: [PATCH 17/44] fix: identity transformation operator is a sparse
 matrix like every other one

---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 45de08b..1b38497 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -136,7 +136,7 @@ class ed_base:
         if print_results:
             tstart = perf_counter()
 
-        trans_op = 1
+        trans_op = sp.eye(self.nstates, format="csr")
         for cycle in cycles:
             if len(cycle) > 1:
                 # loop over species
-- 
2.43.0


From 1355a1a6b0f3d509b2a1a55d69de2b99bea428c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:56 +0000
Subject: [PATCH 18/44] fix: spinSystem.get_swap_op works for any spin, not
 only spin 1/2

---
 exact_diag/ed_spins.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 281932f..356db8b 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -472,7 +472,11 @@ class spinSystem(ed_base):
         :param species: Integer specifying species (should always be zero in this case)
         :return: Sparse matrix
         """
-        return self.get_two_site_op(site1, species, site2, species, self.pauli_plus, self.pauli_minus, format="boson") + \
-               self.get_two_site_op(site1, species, site2, species, self.pauli_minus, self.pauli_plus, format="boson") + \
-               0.5 * sp.eye(self.nstates) + \
-               0.5 * self.get_two_site_op(site1, species, site2, species, self.pauli_z, self.pauli_z, format="boson")
+        # sum of |a><b| on the first site and |b><a| on the second, valid for any spin
+        swap_op = sp.csr_matrix((self.nstates, self.nstates))
+        for aa in range(self.nbasis):
+            for bb in range(self.nbasis):
+                transfer = sp.csr_matrix(([1.], ([aa], [bb])), shape=(self.nbasis, self.nbasis))
+                swap_op = swap_op + self.get_two_site_op(site1, species, site2, species,
+                                                         transfer, transfer.transpose(), format="boson")
+        return swap_op
-- 
2.43.0


From 6bee3bcd54dd00c4a189ff14ad3373c1d22983a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:59 +0000
Subject: [PATCH 19/44] fix: neighbors one unit apart are found despite
 rounding errors of the site coordinates

---
 exact_diag/ed_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index b66a3a1..657cd7b 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -91,7 +91,7 @@ class Geometry:
 
             self.adjacency_mat = (np.round(np.sqrt(np.square(self.xdist_mat) +
                                                    np.square(self.ydist_mat)),
-                                           self._round_decimals) == 1.).astype(float)
+                                           self._round_decimals - 4) == 1.).astype(float)
 
             self.phase_mat = self.lattice.get_phase_mat(self.xdist_mat, self.ydist_mat)
 
-- 
2.43.0


From 0185cccbdbb5bbcfed16c8ae230e6d3f3c2fa60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:59 +0000
Subject: [PATCH 20/44] fix: a lattice site is not listed twice because of
 rounding errors

---
 exact_diag/ed_geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 657cd7b..8c9e9ef 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -757,7 +757,10 @@ class Lattice:
         xlocs_red = np.round(xlocs_red, self._round_decimals)
         ylocs_red = np.round(ylocs_red, self._round_decimals)
         # eliminate duplicates
-        locs = np.unique(np.concatenate([xlocs_red[None, :], ylocs_red[None, :]], 0), axis=1)
+        # coordinates of the same site can differ by more than the rounding above, so compare with less precision
+        locs = np.concatenate([xlocs_red[None, :], ylocs_red[None, :]], 0)
+        _, unique_indices = np.unique(np.round(locs, self._round_decimals - 4), axis=1, return_index=True)
+        locs = locs[:, unique_indices]
         xlocs = locs[0, :]
         ylocs = locs[1, :]
         nsites = len(xlocs)
-- 
2.43.0


From b90f6470f5f198e11c3155d53ec321afd9b674f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:59 +0000
Subject: [PATCH 21/44] fix: reduced distances are the shortest ones also for
 oblique periodicity vectors

---
 exact_diag/ed_geometry.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 8c9e9ef..cac7e2e 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -795,6 +795,15 @@ class Lattice:
                                    ylocs[ii] - ylocs[jj],
                                    mode='centered')
 
+                # if the periodicity vectors are not orthogonal, an equivalent displacement may be shorter
+                for n1 in (-1, 0, 1):
+                    for n2 in (-1, 0, 1):
+                        xtest = xdist_min[ii, jj] + n1 * self.periodicity_vect1[0, 0] + n2 * self.periodicity_vect2[0, 0]
+                        ytest = ydist_min[ii, jj] + n1 * self.periodicity_vect1[1, 0] + n2 * self.periodicity_vect2[1, 0]
+                        if xtest ** 2 + ytest ** 2 < xdist_min[ii, jj] ** 2 + ydist_min[ii, jj] ** 2 - 1e-10:
+                            xdist_min[ii, jj] = xtest
+                            ydist_min[ii, jj] = ytest
+
                 _, _, latt_vect1_dist[ii, jj], latt_vect2_dist[ii, jj] = \
                     reduce_vectors(self.lattice_vect1,
                                    self.lattice_vect2,
-- 
2.43.0


From a47b3ad27215ced2816850b0c03cc2996ba8ea23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:02 +0000
Subject: [PATCH 22/44] fix: number of second lattice vectors between two sites
 is antisymmetric

---
 exact_diag/ed_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index cac7e2e..438f0e3 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -814,7 +814,7 @@ class Lattice:
                 xdist_min[jj, ii] = - xdist_min[ii, jj]
                 ydist_min[jj, ii] = - ydist_min[ii, jj]
                 latt_vect1_dist[jj, ii] = - latt_vect1_dist[ii, jj]
-                latt_vect2_dist[jj, ii] = - -latt_vect2_dist[ii, jj]
+                latt_vect2_dist[jj, ii] = - latt_vect2_dist[ii, jj]
 
         return xdist_min, ydist_min, latt_vect1_dist, latt_vect2_dist
 
-- 
2.43.0


From 356356fb078e22407ee4069dceeef4b0fb94b933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:02 +0000
Subject: [PATCH 23/44] fix: periodicity vectors that are not lattice
 translations are rejected

---
 exact_diag/ed_geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 438f0e3..5a11692 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -888,16 +888,16 @@ class Lattice:
                                                 self.lattice_vect2,
                                                 self.periodicity_vect1[0, 0],
                                                 self.periodicity_vect1[1, 0],
-                                                mode='positive')
-        if not np.array_equiv(xred_p1, 0) and np.array_equiv(yred_p1, 0):
+                                                mode='centered')
+        if not (np.allclose(xred_p1, 0, atol=1e-10) and np.allclose(yred_p1, 0, atol=1e-10)):
             return False
 
         xred_p2, yred_p2, _, _ = reduce_vectors(self.lattice_vect1,
                                                 self.lattice_vect2,
                                                 self.periodicity_vect2[0, 0],
                                                 self.periodicity_vect2[1, 0],
-                                                mode='positive')
-        if not np.array_equiv(xred_p2, 0) and np.array_equiv(yred_p2, 0):
+                                                mode='centered')
+        if not (np.allclose(xred_p2, 0, atol=1e-10) and np.allclose(yred_p2, 0, atol=1e-10)):
             return False
 
         return True
-- 
2.43.0


From 739eef1c76f0340a5e5de2beb0f3cda1eed74844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:02 +0000
Subject: [PATCH 24/44] fix: comparing a geometry with a lattice to one without
 does not raise

---
 exact_diag/ed_geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 5a11692..743f1f9 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -946,6 +946,8 @@ class Lattice:
     # #################################
 
     def __eq__(self, other):
+        if not isinstance(other, Lattice):
+            return False
         if np.array_equal(self.lattice_vect1, other.lattice_vect1) and \
            np.array_equal(self.lattice_vect2, other.lattice_vect2) and \
            np.array_equal(self.periodicity_vect1, other.periodicity_vect1) and \
-- 
2.43.0


From 348fd177f66077c4fcb4d3ba36823e240d836b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:02 +0000
Subject: [PATCH 25/44] fix: geometries with different phases are not equal

---
 exact_diag/ed_geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 743f1f9..8cfb240 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -630,6 +630,7 @@ class Geometry:
             np.array_equal(self.xdist_mat, other.xdist_mat) and \
             np.array_equal(self.ydist_mat, other.ydist_mat) and \
             np.array_equal(self.adjacency_mat, other.adjacency_mat) and \
+            np.array_equal(self.phase_mat, other.phase_mat) and \
             self.lattice == other.lattice:
             return True
         else:
-- 
2.43.0


From f1519477057d01effcce0dcc3c4b958d27334123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:02 +0000
Subject: [PATCH 26/44] fix: a single site closes after one transformation

---
 exact_diag/ed_symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index 8f23332..4ff8602 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -186,7 +186,7 @@ def findSiteCycles(transform_fn,
     # find the number of transformations required to get us_interspecies back to our initial configuration
     # column k of trans_sites is the site labels after performing the transformation k-times
     trans_sites = sites[:, None]
-    current_sites = np.zeros(sites.shape)
+    current_sites = -np.ones(sites.shape)
     max_iter = nsites + 1
     ii = 0
     while not np.array_equal(current_sites, sites) and ii < max_iter:
-- 
2.43.0


From 8ebb4eab1426f1d02182abe507cd4a96159c3d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:04 +0000
Subject: [PATCH 27/44] fix: conjugacy classes of D7 are in the order of the
 character table columns

---
 exact_diag/ed_symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index 4ff8602..a5bb7de 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -645,8 +645,8 @@ def getD7Projectors(rot_op,
                     [refl_op, rot_op * refl_op, rot_op**2 * refl_op, rot_op**3 * refl_op,
                      rot_op**4 * refl_op, rot_op**5 * refl_op, rot_op**6 * refl_op],
                     [rot_op, rot_op ** 6],
-                    [rot_op**3, rot_op**4],
-                    [rot_op**2, rot_op**5]]
+                    [rot_op**2, rot_op**5],
+                    [rot_op**3, rot_op**4]]
 
     projs = get_symmetry_projectors(char_table, conj_classes, print_results=print_results)
 
-- 
2.43.0


From 842607b86cafe690d6dc1e20a07ef5417e53bd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:04 +0000
Subject: [PATCH 28/44] fix: conjugacy classes of the 3x3 lattice group match
 counter-clockwise rotations

---
 exact_diag/ed_symmetry.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index a5bb7de..a3aeaf4 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -688,7 +688,7 @@ def getC4V_and_3byb3(rot_op,
 
     C3 = {R^2, Tx^nTy^mR^2} (order=2, #=9)
 
-    C4 = {R*Refl, R^3*Refl, Tx*Ty^2*R*Refl, Tx^2*Ty*R*Refl, Tx*Ty*R^3*Refl, Tx^2*Ty^2*R^3*Refl} (order=2, #=6)
+    C4 = {R*Refl, R^3*Refl, Tx*Ty*R*Refl, Tx^2*Ty^2*R*Refl, Tx*Ty^2*R^3*Refl, Tx^2*Ty*R^3*Refl} (order=2, #=6)
 
     C5 = {R, R^3, Tx^n*Ty^m*R, Tx^n*Ty^m*R^3} (order=4, #=18)
 
@@ -697,8 +697,8 @@ def getC4V_and_3byb3(rot_op,
     C7 = {Tx^n*Ty^m*Refl except (n,m) = (0,0), (1,0) and (2,0)
           Tx^n*Ty^m*R^2*Refl except (n,m) = (0,0), (0,1), and (0, 2)} (order=6, #=12)
 
-    C8 = {Tx^n*Ty^m*R*Refl except (n,m) = (0,0), (1,2) and (2, 1),
-          Tx^n*Ty^m*R^3*Refl except (n,m) = (0,0), (1,1) and (2,2)} (order=6, #=12)
+    C8 = {Tx^n*Ty^m*R*Refl except (n,m) = (0,0), (1,1) and (2, 2),
+          Tx^n*Ty^m*R^3*Refl except (n,m) = (0,0), (1,2) and (2,1)} (order=6, #=12)
 
     C9 = {TxTy, Tx^2Ty, TxTy^2 Tx^2Ty^2} (order=3, #=4)
 
@@ -723,8 +723,8 @@ def getC4V_and_3byb3(rot_op,
     c4 = [refl_op, rot_op**2 * refl_op, tx_op * refl_op, tx_op**2 * refl_op,
           ty_op * rot_op**2 * refl_op, ty_op**2 * rot_op**2 * refl_op]
     c2 = [rot_op * refl_op, rot_op ** 3 * refl_op,
-          tx_op * ty_op ** 2 * rot_op * refl_op, tx_op ** 2 * ty_op * rot_op * refl_op,
-          tx_op * ty_op * rot_op ** 3 * refl_op, tx_op ** 2 * ty_op ** 2 * rot_op ** 3 * refl_op]
+          tx_op * ty_op * rot_op * refl_op, tx_op ** 2 * ty_op ** 2 * rot_op * refl_op,
+          tx_op * ty_op ** 2 * rot_op ** 3 * refl_op, tx_op ** 2 * ty_op * rot_op ** 3 * refl_op]
 
     c3 = [rot_op**2, tx_op * rot_op**2, tx_op**2 * rot_op**2,
           ty_op * rot_op**2, ty_op**2 * rot_op**2, tx_op * ty_op * rot_op**2,
@@ -747,10 +747,10 @@ def getC4V_and_3byb3(rot_op,
           tx_op**2 * ty_op * rot_op**2 * refl_op, tx_op**2 * ty_op**2 * rot_op**2 * refl_op]
     c7 = [tx_op * rot_op * refl_op, tx_op**2 * rot_op * refl_op,
           ty_op * rot_op * refl_op, ty_op**2 * rot_op * refl_op,
-          tx_op * ty_op * rot_op * refl_op, tx_op**2 * ty_op**2 * rot_op * refl_op,
+          tx_op * ty_op**2 * rot_op * refl_op, tx_op**2 * ty_op * rot_op * refl_op,
           tx_op * rot_op**3 * refl_op, tx_op**2 * rot_op**3 * refl_op,
           ty_op * rot_op**3 * refl_op, ty_op**2 * rot_op**3 * refl_op,
-          tx_op * ty_op**2 * rot_op**3 * refl_op, tx_op**2 * ty_op * rot_op**3 * refl_op]
+          tx_op * ty_op * rot_op**3 * refl_op, tx_op**2 * ty_op**2 * rot_op**3 * refl_op]
 
     c9 = [tx_op, tx_op**2, ty_op, ty_op**2]
     c6 = [tx_op * ty_op, tx_op ** 2 * ty_op, tx_op * ty_op ** 2, tx_op ** 2 * ty_op ** 2]
-- 
2.43.0


From 27f12889d33f2933d560cc3711f2baf798f8d0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:53 +0000
Subject: [PATCH 29/44] fix: adjacency sorting orders by the number of adjacent
 sites first

---
 exact_diag/ed_geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 8cfb240..2f66a0a 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -419,7 +419,8 @@ class Geometry:
                 adjacency_order_n.append(np.sum(adj_mat_powers[ii], 1))
                 adjacency_test_n[:, ii] = np.sum(adj_mat_powers[ii], 1)
 
-            sorted_indices = np.lexsort(tuple(adjacency_order_n))
+            # lexsort sorts by its last key first
+            sorted_indices = np.lexsort(tuple(adjacency_order_n[::-1]))
 
             # however, if two sites are equivalent under a symmetry operation, this process does not distinguish them.
             # It doesn't matter which site we select first, but we need to choose the next site in some way based on
-- 
2.43.0


From 7f7301148ef05961a3baa144082b8ec1da6850c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:45 +0000
Subject: [PATCH 30/44] fix: overlaps of two sparse sets of states are returned
 as an array

---
 exact_diag/ed_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 1b38497..8152c40 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -546,6 +546,9 @@ class ed_base:
         if print_results:
             print(f"get_overlaps took {perf_counter() - tstart:.2f}s")
 
+        if sp.issparse(overlaps):
+            overlaps = overlaps.toarray()
+
         return np.squeeze(overlaps)
 
     def get_norms(self,
-- 
2.43.0


From 52a3aa6b7655a5026bee32f10f728d10deab1896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:03 +0000
Subject: [PATCH 31/44] fix: NLCE weights for expectation values with trailing
 singleton dimensions

---
 exact_diag/ed_nlce.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_nlce.py b/exact_diag/ed_nlce.py
index bd03a80..fefdd87 100644
--- a/exact_diag/ed_nlce.py
+++ b/exact_diag/ed_nlce.py
@@ -546,7 +546,7 @@ def get_nlce_exp_val(exp_vals_clusters,
         # np.dot no longer works, as this sums over the last index of the first array, and the second to last index of
         # the second array. To sum over arbitrary axes, use np.tensordot
         weights[ii, ...] = exp_vals_clusters[ii, ...] - np.squeeze(
-            np.tensordot(sub_cluster_multiplicity_mat[ii, :].toarray(), weights, axes=(1, 0)))
+            np.tensordot(sub_cluster_multiplicity_mat[ii, :].toarray(), weights, axes=(1, 0)), axis=0)
 
     # exp_val_nlce[jj] = sub_cluster_multiplicity_mat[-1, :] * weights[:, jj] / nsites
     # exp_val_nlce = np.squeeze(np.tensordot(sub_cluster_multiplicity_mat[-1, :].toarray(),
@@ -558,7 +558,7 @@ def get_nlce_exp_val(exp_vals_clusters,
     nlce_orders = np.zeros(tuple(size))
     for ii in range(0, len(order_start_indices) - 1):
         nlce_orders[ii, ...] = np.squeeze(np.tensordot(parent_clust_multiplicity_vect[0, order_start_indices[ii]:order_start_indices[ii+1]][None, :],
-                                                 weights[order_start_indices[ii]:order_start_indices[ii+1], ...], axes=(1, 0))) / nsites
+                                                 weights[order_start_indices[ii]:order_start_indices[ii+1], ...], axes=(1, 0)), axis=0) / nsites
 
     return exp_val_nlce, nlce_orders, weights
 
-- 
2.43.0


From a140f76e41d682154b60d41ae62f5dd7ff20a404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:52 +0000
Subject: [PATCH 32/44] fix: automatically binned density of states failed and
 used the wrong bin width

---
 exact_diag/fermi_gas.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index e5fd740..2b0234d 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -184,17 +184,15 @@ def get_dos2(nsites: int = 100,
     pts_per_bin = 2000
     de = pts_per_bin * emean
     # determine bin number from bin widths
-    nbins = np.floor((np.max(es) - np.min(es)) / de)
+    nbins = int(np.floor((np.max(es) - np.min(es)) / de))
     # ensure odd number of bins
     if nbins % 2 == 0:
         nbins = nbins + 1
     # bin edges and means
-    e_bin_end_pts = np.linspace(np.min(es), np.max(es), nbins)
+    e_bin_end_pts = np.linspace(np.min(es), np.max(es), nbins + 1)
     e_means = 0.5 * (e_bin_end_pts[1:] + e_bin_end_pts[:-1])
 
-    num_in_bin, _ = np.histogram(es.ravel(), e_bin_end_pts)
-
-    dos = np.divide(num_in_bin, de) / es.size
+    dos = get_dos(es, e_bin_end_pts)
 
     return dos, e_means
 
-- 
2.43.0


From 1dffc18ad2b9a432a24ff7fbc1ddf246c58f0d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:46 +0000
Subject: [PATCH 33/44] fix: static density response at accidental degeneracies
 which are not exact due to rounding

---
 exact_diag/fermi_gas.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index 2b0234d..6a7ef51 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -611,7 +611,11 @@ def fg_density_response(beta,
         chi_terms = np.divide(fermi(beta, mu, es) - fermi(beta, mu, es_q), omega + es - es_q + 1j * eta)
         # at those points, use L'Hopital's rule to get finite value
         lim = -fermi_derivatives(beta, mu, es, eta=0.0)[0]
-        chi_terms[np.isnan(chi_terms)] = lim[np.isnan(chi_terms)]
+        degenerate = np.isnan(chi_terms)
+        if omega == 0 and eta == 0:
+            # energies which are degenerate typically still differ by rounding
+            degenerate = np.logical_or(degenerate, np.abs(es - es_q) < 1e-10)
+        chi_terms[degenerate] = lim[degenerate]
         # sum them to get chi
         chi = np.sum(chi_terms) / kxkx.size
 
-- 
2.43.0


From f6b90f50952dc608459dad3d833b8e6f3cfd84dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:05 +0000
Subject: [PATCH 34/44] fix: imaginary time Fourier transform dropped tau =
 beta when rounding up

---
 exact_diag/greens_fns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exact_diag/greens_fns.py b/exact_diag/greens_fns.py
index edc360d..f452c92 100644
--- a/exact_diag/greens_fns.py
+++ b/exact_diag/greens_fns.py
@@ -197,11 +197,11 @@ def grnfn_imagtime_ft(matsubara_frqs,
     if not np.any(np.round(np.abs(taus - beta), 14) == 0):
         warn('tau = beta was not supplied to grnfn_imagtime_ft.')
 
-    if np.round(taus, 14).max() > beta or np.round(taus, 14).min() < 0:
+    if np.round(taus, 14).max() > np.round(beta, 14) or np.round(taus, 14).min() < 0:
         warn('taus supplied to grnfn_imagtime_ft contained values smaller than 0 or'
              ' larger than beta. Those values will be ignored in the calculation',
              RuntimeWarning)
-        indices_to_use = np.logical_and(np.round(taus, 14) >= 0, np.round(taus, 14) <= beta)
+        indices_to_use = np.logical_and(np.round(taus, 14) >= 0, np.round(taus, 14) <= np.round(beta, 14))
         grn_fn_imagtime = grn_fn_imagtime[indices_to_use]
         taus = taus[indices_to_use]
 
-- 
2.43.0


From 1d1b9b7c55bcc148b1ee3deac4b8a2d68f720fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:58 +0000
Subject: [PATCH 35/44] fix: retarded response dropped transitions at low
 temperatures due to overflow

---
 exact_diag/ed_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 8152c40..0fe21f3 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -1112,8 +1112,10 @@ class ed_base:
             beta = 1 / temperature
             z = np.sum(np.exp(- beta * eig_vals))
             mat_elem = np.multiply(a_matrix_elems, b_matrix_elems.transpose())
-            thermal_mat_elem = np.diag(np.exp(- beta * eig_vals)).dot(mat_elem)
-            omega_fn = lambda wo, eta, es, amp: np.multiply(1 + factor * np.exp(beta * es), lor(wo + es, eta, amp))
+            # combine the thermal factors here: exp(-beta * En) * (1 + factor * exp(beta * (En - Em))) overflows at low
+            # temperatures
+            thermal_mat_elem = np.multiply(np.exp(- beta * b) + factor * np.exp(- beta * a), mat_elem)
+            omega_fn = lambda wo, eta, es, amp: lor(wo + es, eta, amp)
 
         else:
             z = 1
-- 
2.43.0


From 089e3881817344e523eb7e98e3a7607e31e96eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:58 +0000
Subject: [PATCH 36/44] fix: optical conductivity was wrong or nan at low
 temperatures due to overflow

---
 exact_diag/ed_fermions.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index bb65e28..9458f08 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -559,13 +559,13 @@ class fermions(ed_base):
             [a, b] = np.meshgrid(eig_vals, eig_vals)
             omegas = b - a
 
-            weight = np.divide(1 - np.exp(- beta * omegas), omegas)
+            # exp(-beta * En) * (1 - exp(-beta * (Em - En))), written so that it does not overflow at low temperatures
+            weight = np.divide(np.exp(- beta * a) - np.exp(- beta * b), omegas)
             weight[omegas == 0] = 0
             # multiply each column by the appropriate exponentail factor and weight. Then sum over everything.
             # think of n as columns, n as rows
             sigma_re_two_sided_int = np.pi / z / nsites * \
-                                     np.sum(np.sum(np.multiply(np.square(np.abs(current_matrix_elems)).dot(
-                                         np.diag(np.exp(- beta * eig_vals))), weight)))
+                                     np.sum(np.sum(np.multiply(np.square(np.abs(current_matrix_elems)), weight)))
 
         else:
             # period_start = 0, only need to sum over one set of states
@@ -615,7 +615,9 @@ class fermions(ed_base):
             [a, b] = np.meshgrid(eig_vals, eig_vals)
             omegas = b - a
 
-            thermal_mat_elem = np.square(np.abs(current_matrix_elems)).dot(np.diag(np.exp(- beta * eig_vals)))
+            # exp(-beta * En) * (1 - exp(-beta * (Em - En))), written so that it does not overflow at low temperatures
+            thermal_mat_elem = np.multiply(np.square(np.abs(current_matrix_elems)),
+                                           np.exp(- beta * a) - np.exp(- beta * b))
             omegas = omegas[np.abs(current_matrix_elems) > 10 ** -16].flatten()
             thermal_mat_elem = thermal_mat_elem[np.abs(current_matrix_elems) > 10 ** -16].flatten()
             # there is some ambiguity in how to define this function. In particular,
@@ -626,9 +628,7 @@ class fermions(ed_base):
             # get rid of these elements, because this is zero (and we shouldn't evaluate omega_start = 0).
             # If we put both as e_m-e_n, then we get a nan, which is also removed later.
             # But we should not put them both as omega_start, because???
-            omega_fn = lambda wo, eta, w, amp: np.divide(np.multiply(1 - np.exp(-beta * w),
-                                                                     lor(wo, eta, w, amp)),
-                                                         wo)
+            omega_fn = lambda wo, eta, w, amp: np.divide(lor(wo, eta, w, amp), wo)
 
         else:
             z = 1
-- 
2.43.0


From 79de05a3c8b5010ef012441d3420f0df2327de3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:58 +0000
Subject: [PATCH 37/44] fix: conductivity diverged for degenerate eigenvalues
 which differ by rounding

---
 exact_diag/ed_fermions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 9458f08..067d015 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -561,7 +561,8 @@ class fermions(ed_base):
 
             # exp(-beta * En) * (1 - exp(-beta * (Em - En))), written so that it does not overflow at low temperatures
             weight = np.divide(np.exp(- beta * a) - np.exp(- beta * b), omegas)
-            weight[omegas == 0] = 0
+            # degenerate eigenvalues may differ by rounding
+            weight[np.round(omegas, 12) == 0] = 0
             # multiply each column by the appropriate exponentail factor and weight. Then sum over everything.
             # think of n as columns, n as rows
             sigma_re_two_sided_int = np.pi / z / nsites * \
@@ -572,7 +573,8 @@ class fermions(ed_base):
             omegas = eig_vals - eig_vals[0]
             # omegas[omegas == 0] = 1e9
             weight = np.divide(1, omegas)
-            weight[omegas == 0] = 0
+            # degenerate eigenvalues may differ by rounding
+            weight[np.round(omegas, 12) == 0] = 0
             current_matrix_elems = current_matrix_elems[:, 0]
             # we are effectively doing the one-sided integral, therefore we need to multiply this by 2
             sigma_one_sided_int = np.pi / nsites * np.sum(np.multiply(np.square(np.abs(current_matrix_elems)), weight))
@@ -639,7 +641,7 @@ class fermions(ed_base):
             # need to turn infs into nans to more easily get rid of
             omega_fn = lambda wo, eta, w, amp: np.multiply(np.divide(lor(np.abs(wo), eta, w, amp),
                                                                      w),
-                                                           1 - np.isinf(1/w))
+                                                           np.round(w, 12) != 0)
 
         opt_cond_fn = lambda wo, eta: np.pi / z / self.geometry.nsites * np.nansum(omega_fn(wo,
                                                                                             eta,
-- 
2.43.0


From cdcdb62146fecf0412ffed4af4136b6103925fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:58 +0000
Subject: [PATCH 38/44] fix: noninteracting imaginary time propagator lost all
 accuracy for energies far below zero

---
 exact_diag/greens_fns.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exact_diag/greens_fns.py b/exact_diag/greens_fns.py
index f452c92..9266141 100644
--- a/exact_diag/greens_fns.py
+++ b/exact_diag/greens_fns.py
@@ -260,8 +260,10 @@ def get_noninteracting_gfn_tau(taus,
 
     if format == "fermion":
         fermi_fn = np.divide(1, 1 + np.exp(beta * epsilon_k))
+        # same as 1 - fermi_fn, but accurate for energies far below zero
+        hole_fn = np.divide(1, 1 + np.exp(-beta * epsilon_k))
         # TODO: should I enforce one of the heaviside functions to be 1 at \tau = 0 ?
-        greens_fn = - np.exp(-epsilon_k * taus) * ((1 - fermi_fn) * np.heaviside(taus, 0) -
+        greens_fn = - np.exp(-epsilon_k * taus) * (hole_fn * np.heaviside(taus, 0) -
                                                    fermi_fn * np.heaviside(-1 * taus, 0))
     elif format == "bosone":
         raise Exception("TODO: noninteracting boson green's function calculation not implemented yet")
-- 
2.43.0


From f46cbe02ef817d14838fe20f42582f3cba13b0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:58 +0000
Subject: [PATCH 39/44] fix: chemical potential did not reproduce the requested
 density

---
 exact_diag/fermi_gas.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index 6a7ef51..df6138b 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -455,20 +455,22 @@ def fg_mu(beta,
             mu[coord] = fg_mu(beta[coord], density[coord], nsites, dim)
     else:
         min_fn = lambda mu: np.abs(fg_density(beta, mu, nsites, dim) - density)
-        jacobian = lambda mu: fg_compressibility(beta, mu, nsites, dim)
-        jacobian_fsqr = lambda mu: 2 * min_fn(mu) * jacobian(mu)
 
         # mu_guess = np.array([0.0])
         # result = scipy.optimize.minimize(min_fn, mu_guess)
         # mu = result.x
 
-        if density == 0.5:
-            mu = 0
-        elif beta != np.inf:
-            # seems to work more robustly than scipy.optimize.minimize
-            # but fails at half-filling. jacobian_fsqr has a zero there...is that the reason?
-            fit_handle = root_scalar(jacobian_fsqr, x0=-0.1, x1=0.1)
+        if beta != np.inf and beta != 0:
+            # the density increases monotonically with mu. All momentum states would have the desired density at
+            # this mu if their energy was zero, so it can be off by at most half of the bandwidth
+            mu_flat_band = float(np.squeeze(np.log(density / (1 - density)) / beta))
+            half_bandwidth = 4. if dim == '2d' else 2.
+            density_diff = lambda mu: float(np.squeeze(fg_density(beta, mu, nsites, dim) - density))
+            fit_handle = root_scalar(density_diff, method="brentq", bracket=(mu_flat_band - half_bandwidth - 1,
+                                                                             mu_flat_band + half_bandwidth + 1))
             mu = fit_handle.root
+        elif density == 0.5:
+            mu = 0
         else:
             # jacobian_fsqr = -inf here, which is why this fials otherwise...
             mu_guess = np.array([0.0])
-- 
2.43.0


From cd28fd0ca8ce32b3dbcbfe6c5d4163eaa9abd421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:58 +0000
Subject: [PATCH 40/44] fix: sectors of the 3x3 lattice group are in the order
 of the documented character table

---
 exact_diag/ed_symmetry.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index a3aeaf4..be4da90 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -720,9 +720,9 @@ def getC4V_and_3byb3(rot_op,
 
     c1 = [sp.eye(refl_op.shape[0], format="csr")]
 
-    c4 = [refl_op, rot_op**2 * refl_op, tx_op * refl_op, tx_op**2 * refl_op,
+    c2 = [refl_op, rot_op**2 * refl_op, tx_op * refl_op, tx_op**2 * refl_op,
           ty_op * rot_op**2 * refl_op, ty_op**2 * rot_op**2 * refl_op]
-    c2 = [rot_op * refl_op, rot_op ** 3 * refl_op,
+    c4 = [rot_op * refl_op, rot_op ** 3 * refl_op,
           tx_op * ty_op * rot_op * refl_op, tx_op ** 2 * ty_op ** 2 * rot_op * refl_op,
           tx_op * ty_op ** 2 * rot_op ** 3 * refl_op, tx_op ** 2 * ty_op * rot_op ** 3 * refl_op]
 
@@ -739,21 +739,21 @@ def getC4V_and_3byb3(rot_op,
           tx_op * ty_op * rot_op**3, tx_op * ty_op**2 * rot_op**3,
           tx_op**2 * ty_op * rot_op**3, tx_op**2 * ty_op**2 * rot_op**3]
 
-    c8 = [ty_op * refl_op, ty_op**2 * refl_op,
+    c7 = [ty_op * refl_op, ty_op**2 * refl_op,
           tx_op * ty_op * refl_op, tx_op * ty_op**2 * refl_op,
           tx_op**2 * ty_op * refl_op, tx_op**2 * ty_op**2 * refl_op,
           tx_op * rot_op**2 * refl_op, tx_op**2 * rot_op**2 * refl_op,
           tx_op * ty_op * rot_op**2 * refl_op, tx_op * ty_op**2 * rot_op**2 * refl_op,
           tx_op**2 * ty_op * rot_op**2 * refl_op, tx_op**2 * ty_op**2 * rot_op**2 * refl_op]
-    c7 = [tx_op * rot_op * refl_op, tx_op**2 * rot_op * refl_op,
+    c8 = [tx_op * rot_op * refl_op, tx_op**2 * rot_op * refl_op,
           ty_op * rot_op * refl_op, ty_op**2 * rot_op * refl_op,
           tx_op * ty_op**2 * rot_op * refl_op, tx_op**2 * ty_op * rot_op * refl_op,
           tx_op * rot_op**3 * refl_op, tx_op**2 * rot_op**3 * refl_op,
           ty_op * rot_op**3 * refl_op, ty_op**2 * rot_op**3 * refl_op,
           tx_op * ty_op * rot_op**3 * refl_op, tx_op**2 * ty_op**2 * rot_op**3 * refl_op]
 
-    c9 = [tx_op, tx_op**2, ty_op, ty_op**2]
-    c6 = [tx_op * ty_op, tx_op ** 2 * ty_op, tx_op * ty_op ** 2, tx_op ** 2 * ty_op ** 2]
+    c6 = [tx_op, tx_op**2, ty_op, ty_op**2]
+    c9 = [tx_op * ty_op, tx_op ** 2 * ty_op, tx_op * ty_op ** 2, tx_op ** 2 * ty_op ** 2]
 
     conj_classes = [c1, c2, c3, c4, c5, c6, c7, c8, c9]
 
-- 
2.43.0


From 4c88c95c4e045b2fde6cf566d5e8df2a0eba04ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:58 +0000
Subject: [PATCH 41/44] fix: generate_clusters failed when the cluster file
 already exists

---
 cluster/generate_clusters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/generate_clusters.py b/cluster/generate_clusters.py
index bece71f..7355a22 100644
--- a/cluster/generate_clusters.py
+++ b/cluster/generate_clusters.py
@@ -10,7 +10,7 @@ def generate_clusters(fname_cluster_dat, max_cluster_order):
     if os.path.isfile(fname_cluster_dat):
         with open(fname_cluster_dat, 'rb') as f:
             data = pickle.load(f)
-        cluster_list = data[2]
+        cluster_list = data["cluster_list"]
         return len(cluster_list)
 
     # if data file doesn't already exist, we must generate the clusters and create the file
-- 
2.43.0


From 836e59a8dc4688b1ea03d6118fedcba6bf7a96dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:58 +0000
Subject: [PATCH 42/44] fix: diag_cluster called methods which no longer exist

---
 cluster/diag_cluster.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cluster/diag_cluster.py b/cluster/diag_cluster.py
index 04839d0..6843524 100644
--- a/cluster/diag_cluster.py
+++ b/cluster/diag_cluster.py
@@ -44,12 +44,13 @@ def diag_cluster(cluster_index,
         szsz_corrs[0, jj] = 0
         for aa in range(0, model.geometry.nsites):
             for bb in range(aa + 1, model.geometry.nsites):
-                szsz_op = model.getTwoSiteOp(aa,
-                                             bb,
-                                             model.geometry.nsites,
-                                             model.pauli_z,
-                                             model.pauli_z,
-                                             format="boson")
+                szsz_op = model.get_two_site_op(aa,
+                                                0,
+                                                bb,
+                                                0,
+                                                2 * model.sz,
+                                                2 * model.sz,
+                                                format="boson")
                 szsz_exp = model.get_exp_vals_thermal(eig_vects, szsz_op, eig_vals, T)
                 szsz_corrs[0, jj] = szsz_corrs[0, jj] + szsz_exp
 
-- 
2.43.0


From c84072a6f05a8157a6063391bc8125c8ce5f815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:58 +0000
Subject: [PATCH 43/44] fix: results of batch jobs could not be combined, the
 cluster file was missing the multiplicities and read with another layout

---
 cluster/aggregate_results.py         | 10 +++++-----
 cluster/generate_clusters_no_subs.py |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cluster/aggregate_results.py b/cluster/aggregate_results.py
index 5c1e051..b47026a 100644
--- a/cluster/aggregate_results.py
+++ b/cluster/aggregate_results.py
@@ -4,7 +4,7 @@ import pickle
 import numpy as np
 import re
 
-import ed_nlce
+from exact_diag import ed_nlce
 
 def aggregate_results(file_pattern, fname_cluster_dat, fname_out):
 
@@ -49,10 +49,10 @@ def aggregate_results(file_pattern, fname_cluster_dat, fname_out):
     with open(fname_cluster_dat, 'rb') as f:
         cluster_dat = pickle.load(f)
     max_cluster_order = cluster_dat[0]
-    cluster_multiplicities = cluster_dat[1]
-    clusters_list = cluster_dat[2]
-    sub_cluster_mult = cluster_dat[3]
-    order_start_indices = cluster_dat[4]
+    clusters_list = cluster_dat[1]
+    order_start_indices = cluster_dat[2]
+    cluster_multiplicities = cluster_dat[4][None, :]
+    sub_cluster_mult = cluster_dat[5]
 
     # NLCE
     energy_nlce, orders_energy, weight_energy = \
diff --git a/cluster/generate_clusters_no_subs.py b/cluster/generate_clusters_no_subs.py
index 96c322f..e2a983b 100644
--- a/cluster/generate_clusters_no_subs.py
+++ b/cluster/generate_clusters_no_subs.py
@@ -20,7 +20,7 @@ def generate_clusters_no_subs(fname_cluster_dat,
     t_end = time.process_time()
 
     # save cluster data
-    data_clusters = [max_cluster_order, clusters_list, order_start_indices, t_end - t_start]
+    data_clusters = [max_cluster_order, clusters_list, order_start_indices, t_end - t_start, cluster_multiplicities]
     with open(fname_cluster_dat, 'wb') as f:
         pickle.dump(data_clusters, f)
 
-- 
2.43.0


From 57e9ac0cad9dce57ba8af7cc4762d12572b6925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:58 +0000
Subject: [PATCH 44/44] fix: current operator left out all bonds which are not
 along x or y

---
 exact_diag/ed_fermions.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 067d015..d3ffbf9 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -500,22 +500,14 @@ class fermions(ed_base):
         direction_vector = np.reshape(np.asarray(direction_vector), [2])
 
         current_op = 0
-        distance_component_x = geom_obj.xdist_mat * direction_vector[0]
-        distance_component_y = geom_obj.ydist_mat * direction_vector[1]
-        is_x_neighbor = np.round(np.abs(geom_obj.xdist_mat), 14) == 1
-        is_y_neighbor = np.round(np.abs(geom_obj.ydist_mat), 14) == 1
+        distance_component = geom_obj.xdist_mat * direction_vector[0] + geom_obj.ydist_mat * direction_vector[1]
 
         for ii in range(0, geom_obj.nsites):
             for jj in range(0, geom_obj.nsites):
                 for kk in range(0, self.nspecies):
-
-                    if geom_obj.adjacency_mat[ii, jj] and is_x_neighbor[ii, jj]:
-                        link_current = self.ts[ii, jj, kk] * distance_component_x[ii, jj] * \
-                                       self.get_two_site_op(ii, kk, jj, kk, self.cdag_op, self.c_op, format="fermion")
-                        current_op = current_op + link_current
-
-                    if geom_obj.adjacency_mat[ii, jj] and is_y_neighbor[ii, jj]:
-                        link_current = self.ts[ii, jj, kk] * distance_component_y[ii, jj] * \
+                    # all links which carry a hopping term, not only those along x or y
+                    if ii != jj and self.ts[ii, jj, kk] != 0:
+                        link_current = self.ts[ii, jj, kk] * distance_component[ii, jj] * \
                                        self.get_two_site_op(ii, kk, jj, kk, self.cdag_op, self.c_op, format="fermion")
                         current_op = current_op + link_current
         current_op = 1j * current_op
-- 
2.43.0

