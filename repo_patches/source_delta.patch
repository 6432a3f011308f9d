From a9c06e60a00c75e6331f06e551ee5f655c4463ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 01/44] fix: LaplacePrimal forms select the quadrature rule of
 the cell dimension and the neighbour identifier

---
 src/weak_forms/laplace_primal_weak_form.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/weak_forms/laplace_primal_weak_form.py b/src/weak_forms/laplace_primal_weak_form.py
index be6fb3d..3ebf815 100644
--- a/src/weak_forms/laplace_primal_weak_form.py
+++ b/src/weak_forms/laplace_primal_weak_form.py
@@ -23,7 +23,7 @@ class LaplacePrimalWeakForm(WeakForm):
 
         cell = p_data.cell
         dim = cell.dimension
-        points, weights = self.space.quadrature
+        points, weights = self.space.quadrature[dim]
         x, jac, det_jac, inv_jac = p_space.elements[iel].evaluate_mapping(points)
 
         # basis
@@ -84,8 +84,8 @@ class LaplacePrimalWeakFormBCDirichlet(WeakForm):
         p_data: ElementData = p_space.bc_elements[iel].data
 
         cell = p_data.cell
-        points, weights = self.space.bc_quadrature
         dim = cell.dimension
+        points, weights = self.space.bc_quadrature[dim]
         x, jac, det_jac, inv_jac = p_space.bc_elements[iel].evaluate_mapping(points)
 
         # basis
@@ -106,7 +106,7 @@ class LaplacePrimalWeakFormBCDirichlet(WeakForm):
         neigh_list = find_higher_dimension_neighs(cell, p_space.dof_map.mesh_topology)
         neigh_check_q = len(neigh_list) > 0
         assert neigh_check_q
-        neigh_cell_id = neigh_list[0]
+        neigh_cell_id = neigh_list[0][1]
         neigh_cell_index = p_space.id_to_element[neigh_cell_id]
         neigh_element = p_space.elements[neigh_cell_index]
         neigh_cell = neigh_element.data.cell
-- 
2.43.0


From 850ec4514c313698ab4f9cece3ea792e3ab1737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:26 +0000
Subject: [PATCH 02/44] fix: LE dual and Riesz forms select the quadrature rule
 of the cell dimension

---
 src/weak_forms/le_dual_weak_form.py      | 2 +-
 src/weak_forms/le_riesz_map_weak_form.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/weak_forms/le_dual_weak_form.py b/src/weak_forms/le_dual_weak_form.py
index d1bc431..87c4410 100644
--- a/src/weak_forms/le_dual_weak_form.py
+++ b/src/weak_forms/le_dual_weak_form.py
@@ -31,8 +31,8 @@ class LEDualWeakForm(WeakForm):
         u_data: ElementData = u_space.elements[iel].data
         t_data: ElementData = t_space.elements[iel].data
 
-        points, weights = self.space.quadrature
         dim = s_data.cell.dimension
+        points, weights = self.space.quadrature[dim]
         x, jac, det_jac, inv_jac = s_space.elements[iel].evaluate_mapping(points)
 
         # basis
diff --git a/src/weak_forms/le_riesz_map_weak_form.py b/src/weak_forms/le_riesz_map_weak_form.py
index f2484d8..b2b7724 100644
--- a/src/weak_forms/le_riesz_map_weak_form.py
+++ b/src/weak_forms/le_riesz_map_weak_form.py
@@ -27,8 +27,8 @@ class LERieszMapWeakForm(WeakForm):
         u_data: ElementData = u_space.elements[iel].data
         t_data: ElementData = t_space.elements[iel].data
 
-        points, weights = self.space.quadrature
         dim = s_data.cell.dimension
+        points, weights = self.space.quadrature[dim]
         x, jac, det_jac, inv_jac = s_space.elements[iel].evaluate_mapping(points)
 
         # basis
-- 
2.43.0


From f5ce36426217fb88bfda0270770932cd9255e8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:26 +0000
Subject: [PATCH 03/44] fix: LaplaceDual form evaluates the residual at the
 given state

---
 src/weak_forms/laplace_dual_weak_form.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/weak_forms/laplace_dual_weak_form.py b/src/weak_forms/laplace_dual_weak_form.py
index 6427c5c..7e43939 100644
--- a/src/weak_forms/laplace_dual_weak_form.py
+++ b/src/weak_forms/laplace_dual_weak_form.py
@@ -43,7 +43,6 @@ class LaplaceDualWeakForm(WeakForm):
             "p": slice(n_q_dof, n_q_dof + n_p_dof),
         }
 
-        alpha = np.zeros(n_dof)
         # Partial local vectorization
         f_val_star = f_rhs(x[:, 0], x[:, 1], x[:, 2])
         phi_s_star = det_jac * weights * p_phi_tab[0, :, :, 0].T
-- 
2.43.0


From 8300fb638e216a4e744aab104da06094fb1b41bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:26 +0000
Subject: [PATCH 04/44] fix: deviatoric norm and error select the quadrature
 rule of the dimension

---
 src/postprocess/l2_error_post_processor.py       | 2 +-
 src/postprocess/solution_norms_post_processor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/postprocess/l2_error_post_processor.py b/src/postprocess/l2_error_post_processor.py
index e21d6d8..c688df5 100644
--- a/src/postprocess/l2_error_post_processor.py
+++ b/src/postprocess/l2_error_post_processor.py
@@ -311,7 +311,7 @@ def devia_l2_error(dim, fe_space, functions, alpha, skip_fields=[]):
         family_by_name("BDM"),
     ]
 
-    points, weights = fe_space.quadrature
+    points, weights = fe_space.quadrature[dim]
 
     # Compute volumetric integral
     tr_T_avgs = {}
diff --git a/src/postprocess/solution_norms_post_processor.py b/src/postprocess/solution_norms_post_processor.py
index d6a2aa2..054b380 100644
--- a/src/postprocess/solution_norms_post_processor.py
+++ b/src/postprocess/solution_norms_post_processor.py
@@ -84,7 +84,7 @@ def devia_l2_norm(dim, fe_space, functions, skip_fields=[]):
         family_by_name("BDM"),
     ]
 
-    points, weights = fe_space.quadrature
+    points, weights = fe_space.quadrature[dim]
 
     # Compute volumetric integral
     tr_T_avgs = {}
-- 
2.43.0


From e7e163586a41073ff6d9c318d6145e58e1f50589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:26 +0000
Subject: [PATCH 05/44] fix: deviatoric norm and error accumulate the mean
 trace over all elements

---
 src/postprocess/l2_error_post_processor.py       | 4 ++--
 src/postprocess/solution_norms_post_processor.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/postprocess/l2_error_post_processor.py b/src/postprocess/l2_error_post_processor.py
index c688df5..d1c6162 100644
--- a/src/postprocess/l2_error_post_processor.py
+++ b/src/postprocess/l2_error_post_processor.py
@@ -357,10 +357,10 @@ def devia_l2_error(dim, fe_space, functions, alpha, skip_fields=[]):
                     for k in range(len(points))
                 ]
             )
-            tr_T_e_avg = np.sum(
+            tr_T_e_avg += np.sum(
                 (det_jac * weights * np.trace(f_e, axis1=1, axis2=2) / float(dim))
             )
-            tr_T_h_avg = np.sum(
+            tr_T_h_avg += np.sum(
                 (det_jac * weights * np.trace(f_h, axis1=1, axis2=2) / float(dim))
             )
 
diff --git a/src/postprocess/solution_norms_post_processor.py b/src/postprocess/solution_norms_post_processor.py
index 054b380..44dbb13 100644
--- a/src/postprocess/solution_norms_post_processor.py
+++ b/src/postprocess/solution_norms_post_processor.py
@@ -109,7 +109,7 @@ def devia_l2_norm(dim, fe_space, functions, skip_fields=[]):
 
             # vectorization
             f_e = np.array([exact(xv[0], xv[1], xv[2]) for xv in x])
-            tr_T_e_avg = np.sum(
+            tr_T_e_avg += np.sum(
                 (det_jac * weights * np.trace(f_e, axis1=1, axis2=2) / float(dim))
             )
 
-- 
2.43.0


From fda3c136a86e823117ca87beeab7baa0a370fd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 06/44] fix: Neumann boundary forms of the dual elasticity
 forms evaluate quadrature, mapping and trace as the other boundary forms

---
 src/weak_forms/lce_scaled_dual_weak_form.py | 31 +++++++++++++--------
 src/weak_forms/le_dual_weak_form.py         | 21 ++++++++------
 2 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/weak_forms/lce_scaled_dual_weak_form.py b/src/weak_forms/lce_scaled_dual_weak_form.py
index bab11ed..23f1330 100644
--- a/src/weak_forms/lce_scaled_dual_weak_form.py
+++ b/src/weak_forms/lce_scaled_dual_weak_form.py
@@ -827,14 +827,16 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         m_data: ElementData = m_space.bc_elements[iel].data
 
         cell = s_data.cell
-        points = s_data.quadrature.points
-        weights = s_data.quadrature.weights
-        x = s_data.mapping.x
-        det_jac = s_data.mapping.det_jac
-        inv_jac = s_data.mapping.inv_jac
+        dim = cell.dimension
+        points, weights = self.space.bc_quadrature[dim]
+        x, jac, det_jac, inv_jac = s_space.bc_elements[iel].evaluate_mapping(points)
 
-        s_phi_tab = s_space.bc_elements[iel].evaluate_basis(points)
-        m_phi_tab = m_space.bc_elements[iel].evaluate_basis(points)
+        s_phi_tab = s_space.bc_elements[iel].evaluate_basis(
+            points, jac, det_jac, inv_jac
+        )
+        m_phi_tab = m_space.bc_elements[iel].evaluate_basis(
+            points, jac, det_jac, inv_jac
+        )
 
         n_s_phi = s_phi_tab.shape[2]
         n_m_phi = m_phi_tab.shape[2]
@@ -852,14 +854,19 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         neigh_list = find_higher_dimension_neighs(cell, s_space.dof_map.mesh_topology)
         neigh_check_q = len(neigh_list) > 0
         assert neigh_check_q
-        neigh_cell_id = neigh_list[0]
+        neigh_cell_id = neigh_list[0][1]
         neigh_cell_index = s_space.id_to_element[neigh_cell_id]
         neigh_element = s_space.elements[neigh_cell_index]
         neigh_cell = neigh_element.data.cell
 
         # compute S trace space
         mapped_points = transform_lower_to_higher(points, s_data, neigh_element.data)
-        s_tr_phi_tab = neigh_element.evaluate_basis(mapped_points, False)
+        _, jac_c0, det_jac_c0, inv_jac_c0 = neigh_element.evaluate_mapping(
+            mapped_points
+        )
+        s_tr_phi_tab = neigh_element.evaluate_basis(
+            mapped_points, jac_c0, det_jac_c0, inv_jac_c0
+        )
         facet_index = neigh_cell.sub_cells_ids[cell.dimension].tolist().index(cell.id)
         dof_s_n_index = neigh_element.data.dof.entity_dofs[cell.dimension][facet_index]
 
@@ -870,14 +877,16 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         neigh_list = find_higher_dimension_neighs(cell, m_space.dof_map.mesh_topology)
         neigh_check_q = len(neigh_list) > 0
         assert neigh_check_q
-        neigh_cell_id = neigh_list[0]
+        neigh_cell_id = neigh_list[0][1]
         neigh_cell_index = m_space.id_to_element[neigh_cell_id]
         neigh_element = m_space.elements[neigh_cell_index]
         neigh_cell = neigh_element.data.cell
 
         # compute M trace space
         mapped_points = transform_lower_to_higher(points, m_data, neigh_element.data)
-        m_tr_phi_tab = neigh_element.evaluate_basis(mapped_points, False)
+        m_tr_phi_tab = neigh_element.evaluate_basis(
+            mapped_points, jac_c0, det_jac_c0, inv_jac_c0
+        )
         facet_index = neigh_cell.sub_cells_ids[cell.dimension].tolist().index(cell.id)
         dof_m_n_index = neigh_element.data.dof.entity_dofs[cell.dimension][facet_index]
 
diff --git a/src/weak_forms/le_dual_weak_form.py b/src/weak_forms/le_dual_weak_form.py
index 87c4410..e97c938 100644
--- a/src/weak_forms/le_dual_weak_form.py
+++ b/src/weak_forms/le_dual_weak_form.py
@@ -589,13 +589,13 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         s_data: ElementData = s_space.bc_elements[iel].data
 
         cell = s_data.cell
-        points = s_data.quadrature.points
-        weights = s_data.quadrature.weights
-        x = s_data.mapping.x
-        det_jac = s_data.mapping.det_jac
-        inv_jac = s_data.mapping.inv_jac
+        dim = cell.dimension
+        points, weights = self.space.bc_quadrature[dim]
+        x, jac, det_jac, inv_jac = s_space.bc_elements[iel].evaluate_mapping(points)
 
-        s_phi_tab = s_space.bc_elements[iel].evaluate_basis(points)
+        s_phi_tab = s_space.bc_elements[iel].evaluate_basis(
+            points, jac, det_jac, inv_jac
+        )
         n_s_phi = s_phi_tab.shape[2]
 
         n_s_dof = n_s_phi * s_components
@@ -610,14 +610,19 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         neigh_list = find_higher_dimension_neighs(cell, s_space.dof_map.mesh_topology)
         neigh_check_q = len(neigh_list) > 0
         assert neigh_check_q
-        neigh_cell_id = neigh_list[0]
+        neigh_cell_id = neigh_list[0][1]
         neigh_cell_index = s_space.id_to_element[neigh_cell_id]
         neigh_element = s_space.elements[neigh_cell_index]
         neigh_cell = neigh_element.data.cell
 
         # compute S trace space
         mapped_points = transform_lower_to_higher(points, s_data, neigh_element.data)
-        s_tr_phi_tab = neigh_element.evaluate_basis(mapped_points, False)
+        _, jac_c0, det_jac_c0, inv_jac_c0 = neigh_element.evaluate_mapping(
+            mapped_points
+        )
+        s_tr_phi_tab = neigh_element.evaluate_basis(
+            mapped_points, jac_c0, det_jac_c0, inv_jac_c0
+        )
         facet_index = neigh_cell.sub_cells_ids[cell.dimension].tolist().index(cell.id)
         dof_s_n_index = neigh_element.data.dof.entity_dofs[cell.dimension][facet_index]
 
-- 
2.43.0


From e6af6c23a68e599125e0f6974e6623a24465e3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:20 +0000
Subject: [PATCH 07/44] fix: grad_error evaluates quadrature, mapping and basis
 of each element

---
 src/postprocess/l2_error_post_processor.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/postprocess/l2_error_post_processor.py b/src/postprocess/l2_error_post_processor.py
index d1c6162..086898a 100644
--- a/src/postprocess/l2_error_post_processor.py
+++ b/src/postprocess/l2_error_post_processor.py
@@ -123,6 +123,7 @@ def grad_error(dim, fe_space, functions, alpha):
     e2 = np.array([0, 1, 0])
     e3 = np.array([0, 0, 1])
 
+    points, weights = fe_space.quadrature[dim]
     grad_errors = []
     for item in fe_space.discrete_spaces.items():
         name, space = item
@@ -136,13 +137,8 @@ def grad_error(dim, fe_space, functions, alpha):
             n_components = space.n_comp
             el_data = space.elements[idx].data
             cell = el_data.cell
-            points = el_data.quadrature.points
-            weights = el_data.quadrature.weights
-            phi_tab = space.elements[idx].evaluate_basis(points)
-
-            x = el_data.mapping.x
-            det_jac = el_data.mapping.det_jac
-            inv_jac = el_data.mapping.inv_jac
+            x, jac, det_jac, inv_jac = space.elements[idx].evaluate_mapping(points)
+            phi_tab = space.elements[idx].evaluate_basis(points, jac, det_jac, inv_jac)
 
             # scattering dof
             dest = fe_space.discrete_spaces_destination_indexes(idx)[name]
-- 
2.43.0


From 9e394a2100e8e4744109bc1792a0a47f77404983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 08/44] fix: LaplacePrimal Dirichlet form uses all shape
 functions of the boundary element

---
 src/weak_forms/laplace_primal_weak_form.py | 38 ++--------------------
 1 file changed, 2 insertions(+), 36 deletions(-)

diff --git a/src/weak_forms/laplace_primal_weak_form.py b/src/weak_forms/laplace_primal_weak_form.py
index 3ebf815..2862965 100644
--- a/src/weak_forms/laplace_primal_weak_form.py
+++ b/src/weak_forms/laplace_primal_weak_form.py
@@ -2,8 +2,6 @@ import auto_diff as ad
 import numpy as np
 
 from basis.element_data import ElementData
-from basis.parametric_transformation import transform_lower_to_higher
-from mesh.topological_queries import find_higher_dimension_neighs
 from weak_forms.weak_from import WeakForm
 
 
@@ -102,43 +100,11 @@ class LaplacePrimalWeakFormBCDirichlet(WeakForm):
         j_el = np.zeros(js)
         r_el = np.zeros(rs)
 
-        # find high-dimension neigh
-        neigh_list = find_higher_dimension_neighs(cell, p_space.dof_map.mesh_topology)
-        neigh_check_q = len(neigh_list) > 0
-        assert neigh_check_q
-        neigh_cell_id = neigh_list[0][1]
-        neigh_cell_index = p_space.id_to_element[neigh_cell_id]
-        neigh_element = p_space.elements[neigh_cell_index]
-        neigh_cell = neigh_element.data.cell
-
-        # compute trace space
-        mapped_points = transform_lower_to_higher(points, p_data, neigh_element.data)
-        _, jac_c0, det_jac_c0, inv_jac_c0 = neigh_element.evaluate_mapping(
-            mapped_points
-        )
-        p_tr_phi_tab = neigh_element.evaluate_basis(
-            mapped_points, jac_c0, det_jac_c0, inv_jac_c0
-        )
-        # collect all supported dofs
-        dof_idxs = []
-        for entity_dim in range(0, cell.dimension + 1):
-            dof_idxs_per_entity = []
-            for id in cell.sub_cells_ids[entity_dim]:
-                index = neigh_cell.sub_cells_ids[entity_dim].tolist().index(id)
-                if len(neigh_element.data.dof.entity_dofs[entity_dim][index]) == 0:
-                    continue
-                dof_n_index = neigh_element.data.dof.entity_dofs[entity_dim][index][0]
-                dof_idxs_per_entity.append(dof_n_index)
-            if len(dof_idxs_per_entity) == 0:
-                continue
-            dof_idxs.append(dof_idxs_per_entity)
-        dof_n_index = np.concatenate(dof_idxs)
-
         # local blocks
         beta = 1.0e12
         jac_block_p = np.zeros((n_p_phi, n_p_phi))
         for i, omega in enumerate(weights):
-            phi = p_tr_phi_tab[0, i, dof_n_index, 0]
+            phi = p_phi_tab[0, i, :, 0]
             jac_block_p += beta * det_jac[i] * omega * np.outer(phi, phi)
 
         for c in range(p_components):
@@ -147,7 +113,7 @@ class LaplacePrimalWeakFormBCDirichlet(WeakForm):
 
             res_block_p = np.zeros(n_p_phi)
             for i, omega in enumerate(weights):
-                phi = p_tr_phi_tab[0, i, dof_n_index, 0]
+                phi = p_phi_tab[0, i, :, 0]
                 p_D_v = p_D(x[i, 0], x[i, 1], x[i, 2])
                 res_block_p -= beta * det_jac[i] * omega * p_D_v[c] * phi
 
-- 
2.43.0


From 1e76bac085d02d044eb3fb9b3d954071d352995c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 09/44] fix: normal Dirichlet penalty couples the displacement
 components in the matrix as in the vector

---
 src/weak_forms/le_primal_weak_form.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/weak_forms/le_primal_weak_form.py b/src/weak_forms/le_primal_weak_form.py
index 3019527..692cd47 100644
--- a/src/weak_forms/le_primal_weak_form.py
+++ b/src/weak_forms/le_primal_weak_form.py
@@ -266,10 +266,15 @@ class LEPrimalWeakFormBCNormalDirichlet(WeakForm):
             b = c
             e = b + n_u_dof
 
-            jac_block_u = np.zeros((n_u_phi, n_u_phi))
-            for i, omega in enumerate(weights):
-                phi = u_phi_tab[0, i, :, 0] * n[c]
-                jac_block_u += beta * det_jac[i] * omega * np.outer(phi, phi)
+            # the normal component couples all the displacement components
+            for d in range(u_components):
+                jac_block_u = np.zeros((n_u_phi, n_u_phi))
+                for i, omega in enumerate(weights):
+                    phi = u_phi_tab[0, i, :, 0]
+                    jac_block_u += (
+                        beta * det_jac[i] * omega * n[c] * n[d] * np.outer(phi, phi)
+                    )
+                j_el[b:e:u_components, d : d + n_u_dof : u_components] += jac_block_u
 
             res_block_u = np.zeros(n_u_phi)
             for i, omega in enumerate(weights):
@@ -281,6 +286,5 @@ class LEPrimalWeakFormBCNormalDirichlet(WeakForm):
                 res_block_u -= beta * det_jac[i] * omega * u_D_normal * phi
 
             r_el[b:e:u_components] += res_block_u
-            j_el[b:e:u_components, b:e:u_components] += jac_block_u
 
         return r_el, j_el
-- 
2.43.0


From bea6a082e9e3e8808a029d03f6c4bf40b2740685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:48 +0000
Subject: [PATCH 10/44] fix: MDProductSpace imports the DiscreteSpace it builds

---
 src/spaces/md_product_space.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spaces/md_product_space.py b/src/spaces/md_product_space.py
index f74ae6c..b945a31 100644
--- a/src/spaces/md_product_space.py
+++ b/src/spaces/md_product_space.py
@@ -1,6 +1,7 @@
 import numpy as np
 
 import basix
+from spaces.discrete_space import DiscreteSpace
 from spaces.product_space import ProductSpace
 from basis.element_type import type_by_dimension
 
-- 
2.43.0


From 5d1cc9c6dee79f1e959e0162d357cff087d79835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 11/44] fix: DiscreteDomain numbers solids with stride_tag
 instead of undefined strides

---
 src/mesh/discrete_domain.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/mesh/discrete_domain.py b/src/mesh/discrete_domain.py
index 3c95c63..05ae641 100644
--- a/src/mesh/discrete_domain.py
+++ b/src/mesh/discrete_domain.py
@@ -245,14 +245,13 @@ class DiscreteDomain:
 
         # transfer volumes
         if dimension > 2:
-            volume_stride = surface_stride + len(self.domain.shapes[2])
             for volume in self.domain.shapes[3]:
-                tag = volume_stride + volume.tag + 1
+                tag = self.stride_tag(3, volume.tag)
                 if not volume.composite:
                     # print("creating surface tag: ", surface.tag)
                     shell = volume.boundary_shapes[0]
                     loop_tags = [
-                        surface_stride + shape.tag + 1
+                        self.stride_tag(2, shape.tag)
                         for shape in shell.immersed_shapes
                     ]
                     gmsh.model.occ.addSurfaceLoop(loop_tags, tag)
@@ -272,7 +271,7 @@ class DiscreteDomain:
             for volume in self.domain.shapes[3]:
                 if volume.physical_tag is not None:
                     gmsh.model.addPhysicalGroup(
-                        3, [volume_stride + volume.tag + 1], volume.physical_tag
+                        3, [self.stride_tag(3, volume.tag)], volume.physical_tag
                     )
 
         gmsh.model.occ.synchronize()
@@ -298,21 +297,21 @@ class DiscreteDomain:
                 for shape_c1 in shapes_c1:
                     if len(shape_c1.immersed_shapes) > 0:
                         tags_1d = tags_1d + [
-                            curve_stride + curve.tag + 1
+                            self.stride_tag(1, curve.tag)
                             for curve in shape_c1.immersed_shapes
                         ]
                     else:
-                        tags_2d = tags_2d + [surface_stride + shape_c1.tag + 1]
+                        tags_2d = tags_2d + [self.stride_tag(2, shape_c1.tag)]
                     for shape_c2 in shape_c1.boundary_shapes:
                         tags_1d = tags_1d + [
-                            curve_stride + curve.tag + 1
+                            self.stride_tag(1, curve.tag)
                             for curve in shape_c2.immersed_shapes
                         ]
 
                 tags_1d = list(np.unique(tags_1d))
                 tags_2d = list(np.unique(tags_2d))
-                gmsh.model.mesh.embed(1, tags_1d, 3, volume_stride + volume.tag + 1)
-                gmsh.model.mesh.embed(2, tags_2d, 3, volume_stride + volume.tag + 1)
+                gmsh.model.mesh.embed(1, tags_1d, 3, self.stride_tag(3, volume.tag))
+                gmsh.model.mesh.embed(2, tags_2d, 3, self.stride_tag(3, volume.tag))
 
                 numNodes = 2
                 for tag_1d in tags_1d:
-- 
2.43.0


From 27b8cf0886db072a6eee20ccd3e517db23c308b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 12/44] fix: domain_market imports the face intersection it
 calls

---
 src/topology/domain_market.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index 307f8bc..0625d65 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -5,7 +5,11 @@ import numpy as np
 from topology.domain import Domain
 from topology.edge import Edge
 from topology.face import Face
-from topology.shape_manipulation import embed_edge_in_face, intersect_edges
+from topology.shape_manipulation import (
+    embed_edge_in_face,
+    intersect_edges,
+    intersect_faces,
+)
 from topology.shell import Shell
 from topology.solid import Solid
 from topology.vertex import Vertex
-- 
2.43.0


From 690bd89981c92d6f0a80ab4636676d90b3a9131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 13/44] fix: intersect_faces appends the recurrent point pair

---
 src/topology/shape_manipulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/topology/shape_manipulation.py b/src/topology/shape_manipulation.py
index c7255d0..615f80a 100644
--- a/src/topology/shape_manipulation.py
+++ b/src/topology/shape_manipulation.py
@@ -351,7 +351,9 @@ def intersect_faces(
                 # new approach
                 if len(existence_check) != 0 and np.any(existence_check):
                     v_index = np.argwhere(existence_check)[0, 0]
-                    point_pairs = np.append((point_pairs, point_pairs[v_index]), axis=0)
+                    point_pairs = np.append(
+                        point_pairs, np.array([point_pairs[v_index]]), axis=0
+                    )
                 else:
                     point_pairs = np.append(point_pairs, np.array([new_points]), axis=0)
                 case_plane_indices = np.vstack((case_plane_indices, np.array([i, j])))
-- 
2.43.0


From 75bea249e3fc2468a2a3f52df66a7cc9a5fc63b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 14/44] fix: storage_basis evaluates the mapping its basis
 evaluation requires

---
 src/basis/finite_element.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/basis/finite_element.py b/src/basis/finite_element.py
index 08088ce..76e1b72 100644
--- a/src/basis/finite_element.py
+++ b/src/basis/finite_element.py
@@ -123,7 +123,9 @@ class FiniteElement:
             self.integration_order = 2 * self.k_order + 1
 
     def storage_basis(self):
-        self.evaluate_basis(self.data.quadrature.points, storage=True)
+        points = self.data.quadrature.points
+        x, jac, det_jac, inv_jac = self.evaluate_mapping(points, storage=True)
+        self.data.basis.phi = self.evaluate_basis(points, jac, det_jac, inv_jac)
 
     def evaluate_mapping(self, points, storage=False):
         if self.data.cell.dimension == 0:
-- 
2.43.0


From 757ff2830ea878eadfc23c6bd9f6b0d910780cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 15/44] fix: element data records store their arguments and can
 be copied

---
 src/basis/element_data.py | 44 +++++++++++++--------------------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/src/basis/element_data.py b/src/basis/element_data.py
index 6b2a97a..c48179b 100644
--- a/src/basis/element_data.py
+++ b/src/basis/element_data.py
@@ -12,7 +12,6 @@ class QuadratureData:
         self.points = points
         self.weights = weights
 
-    @classmethod
     def copy(self):
         points = self.points
         weights = self.weights
@@ -29,21 +28,14 @@ class MappingData:
         inv_jac: np.ndarray = np.empty(0),
     ):
         # Geometrical mapping data
-        phi: np.ndarray = phi
-        x: np.ndarray = x
-        jac: np.ndarray = jac
-        det_jac: np.ndarray = det_jac
-        inv_jac: np.ndarray = inv_jac
+        self.phi: np.ndarray = phi
+        self.x: np.ndarray = x
+        self.jac: np.ndarray = jac
+        self.det_jac: np.ndarray = det_jac
+        self.inv_jac: np.ndarray = inv_jac
 
-    @classmethod
     def copy(self):
-        phi = self.phi
-        cell_points: np.ndarray = np.empty(0)
-        x: np.ndarray = np.empty(0)
-        jac: np.ndarray = np.empty(0)
-        det_jac: np.ndarray = np.empty(0)
-        inv_jac: np.ndarray = np.empty(0)
-        return MappingData(phi, cell_points, x, jac, det_jac, inv_jac)
+        return MappingData(self.phi, self.x, self.jac, self.det_jac, self.inv_jac)
 
 
 class DoFData:
@@ -70,7 +62,6 @@ class DoFData:
         # num entity dofs
         self.num_entity_dofs: np.ndarray = num_entity_dofs
 
-    @classmethod
     def copy(self):
         n_dof = self.n_dof
         entity_dofs = self.entity_dofs
@@ -94,10 +85,8 @@ class BCEntities:
         # basis
         self.bc_entities: np.ndarray = bc_entities
 
-    @classmethod
     def copy(self):
-        bc_entities: np.ndarray = np.empty(0)
-        return BCEntities(bc_entities)
+        return BCEntities(self.bc_entities)
 
 
 class BasisData:
@@ -108,10 +97,8 @@ class BasisData:
         # basis
         self.phi: np.ndarray = phi
 
-    @classmethod
     def copy(self):
-        phi: np.ndarray = np.empty(0)
-        return BasisData(phi)
+        return BasisData(self.phi)
 
 
 class ElementData:
@@ -124,12 +111,11 @@ class ElementData:
         self.bc_entities: BCEntities = BCEntities()
         self.basis: BasisData = BasisData()
 
-    @classmethod
     def copy(self):
-        cell = None
-        mesh = None
-        quadrature = self.quadrature.copy()
-        mapping = self.mapping.copy()
-        dof = self.dof.copy()
-        basis = self.basis.copy()
-        return ElementData(cell, mesh, quadrature, mapping, dof, basis)
+        data = ElementData(self.cell, self.mesh)
+        data.quadrature = self.quadrature.copy()
+        data.mapping = self.mapping.copy()
+        data.dof = self.dof.copy()
+        data.bc_entities = self.bc_entities
+        data.basis = self.basis.copy()
+        return data
-- 
2.43.0


From fa47223a0561624e73680f2c5bd9375d08f63699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 16/44] fix: store_mapping takes the cell points from the mesh

---
 src/geometry/mapping.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geometry/mapping.py b/src/geometry/mapping.py
index 079f0da..858a0c1 100644
--- a/src/geometry/mapping.py
+++ b/src/geometry/mapping.py
@@ -57,7 +57,9 @@ def evaluate_mapping(dimension, phi, cell_points):
 
 def store_mapping(data: ElementData):
     (x, jac, det_jac, inv_jac) = evaluate_mapping(
-        data.cell.dimension, data.mapping.phi, data.mapping.cell_points
+        data.cell.dimension,
+        data.mapping.phi,
+        data.mesh.points[data.cell.node_tags],
     )
     data.mapping.x = x
     data.mapping.jac = jac
-- 
2.43.0


From ba74bfc79bc6912193fa49e99bf00ecd0002ee9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:57 +0000
Subject: [PATCH 17/44] fix: LEDual differentiated form evaluates in three
 dimensions without undefined names

---
 src/weak_forms/le_dual_weak_form.py | 59 +++--------------------------
 1 file changed, 5 insertions(+), 54 deletions(-)

diff --git a/src/weak_forms/le_dual_weak_form.py b/src/weak_forms/le_dual_weak_form.py
index e97c938..a22b6d1 100644
--- a/src/weak_forms/le_dual_weak_form.py
+++ b/src/weak_forms/le_dual_weak_form.py
@@ -154,20 +154,15 @@ class LEDualWeakForm(WeakForm):
                     a_ux = alpha[
                         :,
                         n_s_dof
-                        + n_m_dof
                         + c : n_s_dof
-                        + n_m_dof
                         + n_u_dof
                         + c : u_components,
                     ]
-                    a_mx = alpha[:, n_s_dof + c : n_s_dof + n_m_dof + c : m_components]
                     a_tx = alpha[
                         :,
                         n_s_dof
-                        + n_m_dof
                         + n_u_dof
                         + c : n_s_dof
-                        + n_m_dof
                         + n_u_dof
                         + n_t_dof
                         + c : t_components,
@@ -178,20 +173,15 @@ class LEDualWeakForm(WeakForm):
                     a_uy = alpha[
                         :,
                         n_s_dof
-                        + n_m_dof
                         + c : n_s_dof
-                        + n_m_dof
                         + n_u_dof
                         + c : u_components,
                     ]
-                    a_my = alpha[:, n_s_dof + c : n_s_dof + n_m_dof + c : m_components]
                     a_ty = alpha[
                         :,
                         n_s_dof
-                        + n_m_dof
                         + n_u_dof
                         + c : n_s_dof
-                        + n_m_dof
                         + n_u_dof
                         + n_t_dof
                         + c : t_components,
@@ -202,20 +192,15 @@ class LEDualWeakForm(WeakForm):
                     a_uz = alpha[
                         :,
                         n_s_dof
-                        + n_m_dof
                         + c : n_s_dof
-                        + n_m_dof
                         + n_u_dof
                         + c : u_components,
                     ]
-                    a_mz = alpha[:, n_s_dof + c : n_s_dof + n_m_dof + c : m_components]
                     a_tz = alpha[
                         :,
                         n_s_dof
-                        + n_m_dof
                         + n_u_dof
                         + c : n_s_dof
-                        + n_m_dof
                         + n_u_dof
                         + n_t_dof
                         + c : t_components,
@@ -225,10 +210,6 @@ class LEDualWeakForm(WeakForm):
                     sy_h = a_sy @ s_phi_tab[0, i, :, 0:dim]
                     sz_h = a_sz @ s_phi_tab[0, i, :, 0:dim]
 
-                    mx_h = a_mx @ m_phi_tab[0, i, :, 0:dim]
-                    my_h = a_my @ m_phi_tab[0, i, :, 0:dim]
-                    mz_h = a_mz @ m_phi_tab[0, i, :, 0:dim]
-
                     ux_h = a_ux @ u_phi_tab[0, i, :, 0:dim]
                     uy_h = a_uy @ u_phi_tab[0, i, :, 0:dim]
                     uz_h = a_uz @ u_phi_tab[0, i, :, 0:dim]
@@ -252,30 +233,16 @@ class LEDualWeakForm(WeakForm):
                         np.vstack((sx_h.der, sy_h.der, sz_h.der)),
                     )
 
-                    mh = VecValDer(
-                        np.vstack((mx_h.val, my_h.val, mz_h.val)),
-                        np.vstack((mx_h.der, my_h.der, mz_h.der)),
-                    )
-
-                    # Stress decomposition
-                    Symm_sh = 0.5 * (sh + sh.T)
-                    Skew_sh = 0.5 * (sh - sh.T)
-
                     tr_s_h = VecValDer(sh.val.trace(), sh.der.trace())
-                    A_sh = (1.0 / 2.0 * f_mu(xv[0], xv[1], xv[2])) * (
-                        Symm_sh
+                    A_sh = (1.0 / (2.0 * f_mu_star[i])) * (
+                        sh
                         - (
-                            f_lambda(xv[0], xv[1], xv[2])
-                            / (
-                                2.0 * f_mu(xv[0], xv[1], xv[2])
-                                + dim * f_lambda(xv[0], xv[1], xv[2])
-                            )
+                            f_lambda_star[i]
+                            / (2.0 * f_mu_star[i] + dim * f_lambda_star[i])
                         )
                         * tr_s_h
                         * Imat
-                    ) + (1.0 / 2.0 * f_kappa(xv[0], xv[1], xv[2])) * Skew_sh
-
-                    A_mh = (1.0 / f_gamma(xv[0], xv[1], xv[2])) * mh
+                    )
 
                     grad_s_phi = s_phi_tab[1 : s_phi_tab.shape[0] + 1, i, :, 0:dim]
                     div_tau = np.array(
@@ -291,20 +258,6 @@ class LEDualWeakForm(WeakForm):
                         np.hstack((div_sh_x.der, div_sh_y.der, div_sh_z.der)),
                     )
 
-                    grad_m_phi = m_phi_tab[1 : m_phi_tab.shape[0] + 1, i, :, 0:dim]
-                    div_v = np.array(
-                        [np.trace(grad_m_phi, axis1=0, axis2=2) / det_jac[i]]
-                    )
-
-                    div_mh_x = a_mx @ div_v.T
-                    div_mh_y = a_my @ div_v.T
-                    div_mh_z = a_mz @ div_v.T
-
-                    div_mh = VecValDer(
-                        np.hstack((div_mh_x.val, div_mh_y.val, div_mh_z.val)),
-                        np.hstack((div_mh_x.der, div_mh_y.der, div_mh_z.der)),
-                    )
-
                     Gamma_outer = np.array(
                         [
                             [0.0 * th[0, 0], -th[0, 2], +th[0, 1]],
@@ -322,8 +275,6 @@ class LEDualWeakForm(WeakForm):
                             ]
                         ]
                     )
-                    # dimension not implemented
-                    assert False
 
                 equ_1_integrand = (
                     (s_phi_tab[0, i, :, 0:dim] @ A_sh.T)
-- 
2.43.0


From 5438acd23d8ba24fed8756b8db994f750ed5372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:38 +0000
Subject: [PATCH 18/44] fix: line intersections use the tolerance given by the
 caller

---
 src/geometry/operations/line_geometry_operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geometry/operations/line_geometry_operations.py b/src/geometry/operations/line_geometry_operations.py
index 2b33ca1..fdd1e6f 100644
--- a/src/geometry/operations/line_geometry_operations.py
+++ b/src/geometry/operations/line_geometry_operations.py
@@ -1,7 +1,6 @@
 from functools import partial
 from geometry.operations.point_geometry_operations import points_line_argsort
 from globals import geometry_collapse_precision as collapse_precision
-from globals import geometry_point_line_incidence_tol as p_incidence_tol
 from globals import geometry_line_line_incidence_tol as l_incidence_tol
 from globals import geometry_line_polygon_incidence_tol as s_incidence_tol
 
@@ -16,7 +15,7 @@ def line_line_intersection(
     a: np.array, b: np.array, c: np.array, d: np.array, eps: float = l_incidence_tol
 ) -> float:
 
-    out, intx_q = points_line_intersection(np.array([a, b]), c, d, p_incidence_tol)
+    out, intx_q = points_line_intersection(np.array([a, b]), c, d, eps)
     if len(out) > 0 and np.any(intx_q):
         if np.sum(intx_q) > 1:
             return out, intx_q
@@ -77,7 +76,8 @@ def lines_lines_intersection(
     output = [None for _ in range(lines_objects.shape[0])]
     for i, line_obj in enumerate(lines_objects):
         line_equality = [
-            np.all(np.isclose(line_tool, line_obj)) for line_tool in lines_tools
+            np.all(np.isclose(line_tool, line_obj, rtol=eps, atol=eps))
+            for line_tool in lines_tools
         ]
         tuple_idx = np.where(line_equality)
         if len(tuple_idx) > 0:
-- 
2.43.0


From 8811885d657822008b3f0337d74f479dc695e0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:41 +0000
Subject: [PATCH 19/44] fix: fracture intersections use the tolerance of the
 network

---
 src/geometry/fracture_network.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geometry/fracture_network.py b/src/geometry/fracture_network.py
index c625b8f..e6921e9 100644
--- a/src/geometry/fracture_network.py
+++ b/src/geometry/fracture_network.py
@@ -117,7 +117,7 @@ class FractureNetwork:
                     intersection_data[i][j] = (False, np.array, np.array)
                     continue
 
-                obj = pp_intersector.PolygonPolygonIntersectionTest()
+                obj = pp_intersector.PolygonPolygonIntersectionTest(self.eps)
                 intersection_q = obj.polygon_polygon_intersection(
                     f_i, f_j, render_intersection_q
                 )
@@ -148,7 +148,7 @@ class FractureNetwork:
                     if chunk[0]:
                         fractures_1d.append(np.array([chunk[1], chunk[2]]))
 
-                fracture_network = FractureNetwork(dimension=2)
+                fracture_network = FractureNetwork(dimension=2, eps=self.eps)
                 fracture_network.intersect_1D_fractures(
                     fractures_1d, pos, render_intersection_q
                 )
@@ -229,7 +229,7 @@ class FractureNetwork:
             cell_id = cell_id + 1
         self.points = np.stack(points, axis=0)
 
-        tt_test = tt_intersector.TriangleTriangleIntersectionTest()
+        tt_test = tt_intersector.TriangleTriangleIntersectionTest(self.eps)
 
         cells_1d = [cell_1d for cell_1d in self.cells if cell_1d.dimension == 1]
         for i, cell_i in enumerate(cells_1d):
-- 
2.43.0


From 52a9e19fe96d314755e9953df1d35b07a34b983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:41 +0000
Subject: [PATCH 20/44] fix: topological queries use the tolerance given by the
 caller

---
 src/topology/operations/domain_operations.py |  2 +-
 src/topology/operations/edge_operations.py   |  8 +++---
 src/topology/operations/vertex_operations.py | 26 ++++++++++++--------
 src/topology/shape_manipulation.py           | 10 +++++---
 4 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/topology/operations/domain_operations.py b/src/topology/operations/domain_operations.py
index 305c906..5236b72 100644
--- a/src/topology/operations/domain_operations.py
+++ b/src/topology/operations/domain_operations.py
@@ -181,7 +181,7 @@ def domain_union(
         chunk = [
             vertex.index(max_dimension=max_dim)
             for vertex in domain_c0.shapes[0]
-            if vertex_with_same_geometry_q(vertex, v_tool)
+            if vertex_with_same_geometry_q(vertex, v_tool, eps)
         ]
         # filter v_tool if is included already in the graph
         chunk = [index for index in chunk if index != v_tool_index]
diff --git a/src/topology/operations/edge_operations.py b/src/topology/operations/edge_operations.py
index d73fb0f..84c2362 100644
--- a/src/topology/operations/edge_operations.py
+++ b/src/topology/operations/edge_operations.py
@@ -20,15 +20,15 @@ def edge_with_same_geometry_q(edge_a: Edge, edge_b: Edge, eps: float = collapse_
     return same_geometry_q
 
 
-def edge_strong_equality_q(edge_a: Edge, edge_b: Edge):
+def edge_strong_equality_q(edge_a: Edge, edge_b: Edge, eps: float = collapse_tol):
     shape_equality_q = edge_a == edge_b
-    geometry_equality_q = edge_with_same_geometry_q(edge_a, edge_b)
+    geometry_equality_q = edge_with_same_geometry_q(edge_a, edge_b, eps)
     strong_equality = shape_equality_q and geometry_equality_q
     return strong_equality
 
 
 def collapse_edge(e_tool: Edge, e_object: Edge, eps: float = collapse_tol) -> Vertex:
-    if edge_strong_equality_q(e_tool, e_object):
+    if edge_strong_equality_q(e_tool, e_object, eps):
         return e_object
     elif edge_with_same_geometry_q(e_tool, e_object, eps):
         e_object.shape_assignment(e_tool)
@@ -77,7 +77,7 @@ def edge_edge_intersection(
     p_eps: float = p_incidence_tol,
     l_eps: float = l_incidence_tol,
 ) -> Union[None, Vertex]:
-    bc_out = edge_edge_boundary_intersection(e_tool, e_object, p_eps)
+    bc_out = edge_edge_boundary_intersection(e_tool, e_object, eps=p_eps)
     if bc_out is not None:
         return bc_out
 
diff --git a/src/topology/operations/vertex_operations.py b/src/topology/operations/vertex_operations.py
index 1c9a3f7..364cc31 100644
--- a/src/topology/operations/vertex_operations.py
+++ b/src/topology/operations/vertex_operations.py
@@ -27,9 +27,11 @@ def vertex_with_same_geometry_q(
     return same_geometry_q
 
 
-def vertex_strong_equality_q(vertex_a: Vertex, vertex_b: Vertex):
+def vertex_strong_equality_q(
+    vertex_a: Vertex, vertex_b: Vertex, eps: float = p_incidence_tol
+):
     shape_equality_q = vertex_a == vertex_b
-    geometry_equality_q = vertex_with_same_geometry_q(vertex_a, vertex_b)
+    geometry_equality_q = vertex_with_same_geometry_q(vertex_a, vertex_b, eps)
     strong_equality = shape_equality_q and geometry_equality_q
     return strong_equality
 
@@ -37,7 +39,7 @@ def vertex_strong_equality_q(vertex_a: Vertex, vertex_b: Vertex):
 def collapse_vertex(
     v_tool: Vertex, v_object: Vertex, eps: float = collapse_tol
 ) -> Vertex:
-    if vertex_strong_equality_q(v_tool, v_object):
+    if vertex_strong_equality_q(v_tool, v_object, eps):
         return v_object
     elif vertex_with_same_geometry_q(v_tool, v_object, eps):
         v_object.shape_assignment(v_tool)
@@ -52,7 +54,7 @@ def vertex_vertex_intersection(
     tag: int = tag_info.min,
     eps: float = p_incidence_tol,
 ) -> Union[None, Vertex]:
-    if vertex_strong_equality_q(v_tool, v_object):
+    if vertex_strong_equality_q(v_tool, v_object, eps):
         return v_object  # same as v_tool
     elif vertex_with_same_geometry_q(v_tool, v_object, eps):
         vertex = Vertex(tag, v_tool.point)  # same geometry as v_tool
@@ -68,7 +70,7 @@ def vertex_edge_boundary_intersection(
     eps: float = p_incidence_tol,
 ) -> Union[None, Vertex]:
     strong_check = [
-        vertex_strong_equality_q(v_tool, e_vertex)
+        vertex_strong_equality_q(v_tool, e_vertex, eps)
         for e_vertex in edge_object.boundary_shapes
     ]
     weak_check = [
@@ -104,7 +106,7 @@ def vertex_edge_intersection(
     p = v_tool.point
     a, b = edge_object.boundary_points()
 
-    out = point_line_intersection(p, a, b)
+    out = point_line_intersection(p, a, b, eps)
     if out is None:
         return None
     else:
@@ -180,8 +182,12 @@ def vertices_edge_difference(
     idx = points_line_argsort(points, a, b)
     internal_idx = idx.copy()
 
-    first_point_is_on_a = np.all(np.isclose(points[idx][0], a))
-    last_point_is_on_b = np.all(np.isclose(points[idx][-1], b))
+    first_point_is_on_a = np.all(
+        np.isclose(points[idx][0], a, rtol=eps, atol=eps)
+    )
+    last_point_is_on_b = np.all(
+        np.isclose(points[idx][-1], b, rtol=eps, atol=eps)
+    )
     if first_point_is_on_a:
         internal_idx = np.delete(internal_idx, 0)
     if last_point_is_on_b:
@@ -204,7 +210,7 @@ def vertices_edge_difference(
     new_vertices = []
     new_edges = []
     for chain in chains:
-        if vertex_with_same_geometry_q(Vertex(tag, chain[0]), vertex_a):
+        if vertex_with_same_geometry_q(Vertex(tag, chain[0]), vertex_a, eps):
             if first_point_is_on_a:
                 v0 = vertices_tool[unique_idx][intx_q][idx][0]
             else:
@@ -213,7 +219,7 @@ def vertices_edge_difference(
             v0 = Vertex(tag, chain[0])
             v0.physical_tag = edge_object.physical_tag
             tag += 1
-        if vertex_with_same_geometry_q(Vertex(tag, chain[1]), vertex_b):
+        if vertex_with_same_geometry_q(Vertex(tag, chain[1]), vertex_b, eps):
             if last_point_is_on_b:
                 v1 = vertices_tool[unique_idx][intx_q][idx][-1]
             else:
diff --git a/src/topology/shape_manipulation.py b/src/topology/shape_manipulation.py
index 615f80a..fce6c96 100644
--- a/src/topology/shape_manipulation.py
+++ b/src/topology/shape_manipulation.py
@@ -23,9 +23,11 @@ def vertex_with_same_geometry(
     return same_geometry_q
 
 
-def vertex_strong_equality(vertex_a: Vertex, vertex_b: Vertex):
+def vertex_strong_equality(
+    vertex_a: Vertex, vertex_b: Vertex, eps: float = collapse_tol
+):
     shape_equality_q = vertex_a == vertex_b
-    geometry_equality_q = vertex_with_same_geometry(vertex_a, vertex_b)
+    geometry_equality_q = vertex_with_same_geometry(vertex_a, vertex_b, eps)
     strong_equality = shape_equality_q and geometry_equality_q
     return strong_equality
 
@@ -33,7 +35,7 @@ def vertex_strong_equality(vertex_a: Vertex, vertex_b: Vertex):
 def collapse_vertex(
     v_tool: Vertex, v_object: Vertex, eps: float = collapse_tol
 ) -> Vertex:
-    if vertex_strong_equality(v_tool, v_object):
+    if vertex_strong_equality(v_tool, v_object, eps):
         return v_tool
     elif vertex_with_same_geometry(v_tool, v_object, eps):
         v_object.shape_assignment(v_tool)
@@ -101,7 +103,7 @@ def vertex_edge_intersection(
         return bc_out
 
     check = [
-        vertex_with_same_geometry(v_tool, e_vertex)
+        vertex_with_same_geometry(v_tool, e_vertex, eps)
         for e_vertex in edge_object.boundary_shapes
     ]
     if check[0]:
-- 
2.43.0


From 6ec347e91646fb44562166a9a7f839dc1a3a301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:29 +0000
Subject: [PATCH 21/44] fix: evaluating a mapping leaves the stored mapping
 data unchanged

---
 src/basis/finite_element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/finite_element.py b/src/basis/finite_element.py
index 76e1b72..199537b 100644
--- a/src/basis/finite_element.py
+++ b/src/basis/finite_element.py
@@ -142,12 +142,12 @@ class FiniteElement:
             return (x, jac, det_jac, inv_jac)
 
         phi_shape = evaluate_linear_shapes(points, self.data)
-        self.data.mapping.phi = phi_shape
         cell_points = self.data.mesh.points[self.data.cell.node_tags]
         (x, jac, det_jac, inv_jac) = evaluate_mapping(
             self.data.cell.dimension, phi_shape, cell_points
         )
         if storage:
+            self.data.mapping.phi = phi_shape
             self.data.mapping.x = x
             self.data.mapping.jac = jac
             self.data.mapping.det_jac = det_jac
-- 
2.43.0


From 272e0d52e7673596efcacbad10a454020bf513bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:42 +0000
Subject: [PATCH 22/44] fix: vertex-edge intersections do not retag the shapes
 they are given

---
 src/topology/operations/vertex_operations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/topology/operations/vertex_operations.py b/src/topology/operations/vertex_operations.py
index 364cc31..e611ba7 100644
--- a/src/topology/operations/vertex_operations.py
+++ b/src/topology/operations/vertex_operations.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 from typing import Union, List, Tuple
 from topology.vertex import Vertex
@@ -130,6 +131,7 @@ def vertices_edge_intersection(
     for idx, shape in enumerate(resulting_shapes):
         if shape is None:
             continue
+        shape = copy.copy(shape)
         shape.tag = tag
         tag += 1
         shape_intx.append(shape)
-- 
2.43.0


From eeafc9bdd9e1b754d894063573f5e5941e35f55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:42 +0000
Subject: [PATCH 23/44] fix: domain union leaves the graph of its input domain
 unchanged

---
 src/topology/operations/domain_operations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/topology/operations/domain_operations.py b/src/topology/operations/domain_operations.py
index 5236b72..9534b6b 100644
--- a/src/topology/operations/domain_operations.py
+++ b/src/topology/operations/domain_operations.py
@@ -171,8 +171,9 @@ def domain_union(
                 shape
             )
 
-    domain_c0.build_grahp()
-    md_G_partial = domain_c0.graph.copy()
+    domain_c0_brep = copy.copy(domain_c0)
+    domain_c0_brep.build_grahp()
+    md_G_partial = domain_c0_brep.graph.copy()
 
     # Perform union by including c1 domains into c0 domain
     # c1_interfaces = {}
-- 
2.43.0


From 45ff26bf80d97c04f48974ca3d9b778d1005e46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:42 +0000
Subject: [PATCH 24/44] fix: tags continue after the last tag used when
 vertices meet several edges

---
 src/topology/operations/vertex_operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/topology/operations/vertex_operations.py b/src/topology/operations/vertex_operations.py
index e611ba7..f256c8d 100644
--- a/src/topology/operations/vertex_operations.py
+++ b/src/topology/operations/vertex_operations.py
@@ -153,7 +153,8 @@ def vertices_edges_intersection(
         shape_intx, shapes_tool = vertices_edge_intersection(
             vertices_tool, edge, tag, eps
         )
-        tag = np.max([shape.tag for shape in shape_intx])
+        if len(shape_intx) > 0:
+            tag = np.max([shape.tag for shape in shape_intx]) + 1
         output.append((edge, shape_intx, shapes_tool))
     return output
 
-- 
2.43.0


From 367d6272ff61045f6ef392bc0d0fba5ececb5f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 25/44] fix: line_triangle_intersection reports a miss beyond
 the segment as None

---
 src/geometry/operations/line_geometry_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/operations/line_geometry_operations.py b/src/geometry/operations/line_geometry_operations.py
index fdd1e6f..5b1d0a1 100644
--- a/src/geometry/operations/line_geometry_operations.py
+++ b/src/geometry/operations/line_geometry_operations.py
@@ -218,7 +218,7 @@ def line_triangle_intersection(
     # Calculate the distance from line_start to the plane of the triangle
     d = np.dot(normal, a - p) / denom
     if d < 0 or d > 1:
-        return False
+        return None
 
     # Calculate the intersection point on the line
     intx_point = p + d * line_dir
-- 
2.43.0


From 3bbea7baa0ed964974da743514209d998ff4e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 26/44] fix: edge_edge_intersection creates its vertex with a
 single point, not a list of points

---
 src/topology/operations/edge_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topology/operations/edge_operations.py b/src/topology/operations/edge_operations.py
index 84c2362..85416f3 100644
--- a/src/topology/operations/edge_operations.py
+++ b/src/topology/operations/edge_operations.py
@@ -87,4 +87,4 @@ def edge_edge_intersection(
     if out is None:
         return None
     else:
-        return Vertex(tag, out)
+        return Vertex(tag, out[0])
-- 
2.43.0


From b46102575683378ca7474eef7909129544655acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 27/44] fix: Shape equality keeps the comparison of boundary
 shapes when immersed shapes agree

---
 src/topology/shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topology/shape.py b/src/topology/shape.py
index fdae18c..e25a7b7 100644
--- a/src/topology/shape.py
+++ b/src/topology/shape.py
@@ -141,7 +141,7 @@ class Shape(ABC):
 
         equality_by_immersed_shapes = True
         if self.immersed_shapes.size != 0 and n_immersed_shapes_q:
-            equality_by_boundary_shapes = np.all(
+            equality_by_immersed_shapes = np.all(
                 np.array(
                     [
                         shape == other_shape
-- 
2.43.0


From 86d6da7f4c3d6d2544134a8639e74262f5675003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 28/44] fix: create_domain identifies shapes by dimension and
 tag instead of their hash

---
 src/topology/operations/domain_operations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/topology/operations/domain_operations.py b/src/topology/operations/domain_operations.py
index 9534b6b..72538b1 100644
--- a/src/topology/operations/domain_operations.py
+++ b/src/topology/operations/domain_operations.py
@@ -35,7 +35,9 @@ def create_domain(dimension, shapes: np.array):
     shapes_by_co_dimension = [{} for _ in range(dimension + 1)]
     for shape in shapes:
         co_dimension = dimension - shape.dimension
-        shapes_by_co_dimension[co_dimension][shape.hash()] = shape
+        shapes_by_co_dimension[co_dimension][(shape.dimension, shape.tag)] = (
+            shape
+        )
 
     # append shapes
     for c_shapes in shapes_by_co_dimension:
-- 
2.43.0


From 0976f33bf9c5f59c86b444197d971a97e7a039bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 29/44] fix: tags of the wire and face of create_md_box_2D
 follow the tags of its fragments

---
 src/topology/domain_market.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index 0625d65..66c031d 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -289,6 +289,7 @@ def create_md_box_2D(
         idx = points_line_argsort(sub_edges_xcs, a, b)
         wire_edges.append(sub_edges[idx])
     wire_edges = np.concatenate(wire_edges)
+    tag = md_domain_c1.max_tag() + 1
     wire_boundary = wire_edges[0].boundary_shapes[[0]]  # closed
     wire0: Wire = Wire(tag, wire_edges, wire_boundary)
     tag += 1
-- 
2.43.0


From 85d796bc8a34056172f7780705518969c7df796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 30/44] fix: planes embedded in a box get face tags after the
 tags of the box faces

---
 src/topology/domain_market.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index 66c031d..1f30bef 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -437,7 +437,7 @@ def build_box_3D_with_planes(box_points, planes_file, physical_tags=None):
     domain = build_box_3D(box_points, physical_tags)
     max_v_tag = len(domain.shapes[0])
     max_e_tag = len(domain.shapes[1])
-    max_f_tag = len(domain.shapes[2])
+    max_f_tag = np.max([shape.tag for shape in domain.shapes[2]]) + 1
     max_p_tag = domain.max_physical_tag()
     solid = domain.shapes[3][0]
 
@@ -459,7 +459,7 @@ def build_box_3D_with_planes(box_points, planes_file, physical_tags=None):
 
     max_v_tag = len(domain.shapes[0])
     max_e_tag = len(domain.shapes[1])
-    max_f_tag = len(domain.shapes[2])
+    max_f_tag = np.max([shape.tag for shape in domain.shapes[2]]) + 1
     max_p_tag = domain.max_physical_tag()
 
     # step two multiple plane intersection of of connected and disjointed planes
-- 
2.43.0


From d7c07e46d58ad98ddeadded8d93fb97f78422cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 31/44] fix: edge tags never restart below the tags in use when
 an intersected edge already has fragments

---
 src/topology/shape_manipulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/topology/shape_manipulation.py b/src/topology/shape_manipulation.py
index fce6c96..6b3a754 100644
--- a/src/topology/shape_manipulation.py
+++ b/src/topology/shape_manipulation.py
@@ -285,7 +285,7 @@ def intersect_edges(
             _ = embed_vertex_in_edge(vertices_to_embed, edge_i, tag_shift=e_tag)
             if len(edge_i.immersed_shapes) > 0:
                 new_e_tags = np.array([shape.tag for shape in edge_i.immersed_shapes])
-                e_tag = np.max(new_e_tags) + 1
+                e_tag = max(e_tag, np.max(new_e_tags) + 1)
                 edges = np.append(edges, edge_i.immersed_shapes)
 
     return (edges, vertices)
@@ -424,6 +424,6 @@ def intersect_faces(
 
             if len(frag_edges) > 0:
                 new_e_tags = np.array([shape.tag for shape in frag_edges])
-                e_tag = np.max(new_e_tags) + 1
+                e_tag = max(e_tag, np.max(new_e_tags) + 1)
                 edges = np.append(edges, frag_edges)
     return (edges, vertices)
-- 
2.43.0


From ec5662656ee6987816a4b742e94b5d0c84b8c2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:27 +0000
Subject: [PATCH 32/44] fix: the L2 projector keeps the entries of small
 elements

---
 src/postprocess/projectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/postprocess/projectors.py b/src/postprocess/projectors.py
index 963a091..a92418a 100644
--- a/src/postprocess/projectors.py
+++ b/src/postprocess/projectors.py
@@ -41,7 +41,7 @@ def l2_projector(fe_space, functions, dof_shift=0, symmetric_solver_q=True):
         row = np.repeat(dest, len(dest))
         col = np.tile(dest, len(dest))
         nnz = data.shape[0]
-        nnz_idx = np.where(np.logical_not(np.isclose(data, 1.0e-16)))[0]
+        nnz_idx = np.where(data != 0.0)[0]
         if symmetric_solver_q:
             [
                 A.setValue(row=row[idx], col=col[idx], value=data[idx], addv=True)
-- 
2.43.0


From eb7f68920a3daf66e06b13f6c547ac0e5a52b2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:47 +0000
Subject: [PATCH 33/44] fix: the L2 projector does not remove the dof shift of
 a shifted space twice

---
 src/postprocess/projectors.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/postprocess/projectors.py b/src/postprocess/projectors.py
index a92418a..731eeb0 100644
--- a/src/postprocess/projectors.py
+++ b/src/postprocess/projectors.py
@@ -27,9 +27,8 @@ def l2_projector(fe_space, functions, dof_shift=0, symmetric_solver_q=True):
     weak_form.functions = functions
 
     def scatter_form_data(A, i, weak_form):
-        # destination indexes
+        # destination indexes, already local: the shift of the space is zero here
         dest = weak_form.space.destination_indexes(i)
-        dest += dof_shift
         alpha_l = alpha[dest]
         r_el, j_el = weak_form.evaluate_form(i, alpha_l)
 
-- 
2.43.0


From 5a9cec26fd19e9447b9113d95fc676a0ddbab190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 34/44] fix: the family name N2E selects the second-kind
 Nedelec elements

---
 src/basis/element_family.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/element_family.py b/src/basis/element_family.py
index 8b902de..996eff2 100644
--- a/src/basis/element_family.py
+++ b/src/basis/element_family.py
@@ -7,7 +7,7 @@ def family_by_name(family):
         "BDM": ElementFamily.BDM,
         "RT": ElementFamily.RT,
         "N1E": ElementFamily.N1E,
-        "N2E": ElementFamily.N1E,
+        "N2E": ElementFamily.N2E,
     }
     return families[family]
 
-- 
2.43.0


From 7bd8ce1dbc25b404e6452f57ffa3575217e31a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 35/44] fix: boundary elements of first-kind Nedelec fields in
 two dimensions have one function per boundary unknown

---
 src/spaces/discrete_space.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spaces/discrete_space.py b/src/spaces/discrete_space.py
index 76b2eac..242d2ec 100644
--- a/src/spaces/discrete_space.py
+++ b/src/spaces/discrete_space.py
@@ -193,6 +193,10 @@ class DiscreteSpace:
             bc_familiy = family_by_name("Lagrange")
             bc_discontinuous = True
 
+        if self.dimension == 2 and family_by_name("N1E") == self.family:
+            bc_k_order = self.k_order - 1
+            bc_discontinuous = True
+
         self.bc_elements = list(
             map(
                 partial(
-- 
2.43.0


From f94b383e11c383c858fa13eceb0d42a62cda5eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 36/44] fix: fields of points have no boundary quadrature
 instead of failing for dimension -1

---
 src/spaces/md_product_space.py | 2 ++
 src/spaces/product_space.py    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/spaces/md_product_space.py b/src/spaces/md_product_space.py
index b945a31..73cd41f 100644
--- a/src/spaces/md_product_space.py
+++ b/src/spaces/md_product_space.py
@@ -38,6 +38,8 @@ class MDProductSpace:
         self.bc_quadrature = [None, None, None, None]
         for dim in dims:
             dim -= 1
+            if dim < 0:
+                continue
             if dim == 0:
                 self.bc_quadrature[dim] = (np.array([1.0]), np.array([1.0]))
             else:
diff --git a/src/spaces/product_space.py b/src/spaces/product_space.py
index 806c97b..0decf47 100644
--- a/src/spaces/product_space.py
+++ b/src/spaces/product_space.py
@@ -41,6 +41,8 @@ class ProductSpace:
         self.bc_quadrature = [None, None, None, None]
         for dim in dims:
             dim -= 1
+            if dim < 0:
+                continue
             if dim == 0:
                 self.bc_quadrature[dim] = (np.array([1.0]), np.array([1.0]))
             else:
-- 
2.43.0


From 777fb7b17c9d436ac17bdedd8dddae160c0131d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 37/44] fix: write_vtk lists the tags of 3-D cells over the
 same cells as their connectivity

---
 src/mesh/mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh/mesh.py b/src/mesh/mesh.py
index 50812da..e503403 100644
--- a/src/mesh/mesh.py
+++ b/src/mesh/mesh.py
@@ -435,7 +435,9 @@ class Mesh:
             [
                 cell.material_id
                 for cell in self.cells
-                if cell.dimension == 3 and cell.id is not None
+                if cell.dimension == 3
+                and cell.id is not None
+                and cell.material_id is not None
             ]
         )
         entity_tags_3d = np.array(
-- 
2.43.0


From cba3ab93881262045ace412ca4c9ec0cee0de179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 38/44] fix: cell-centred values are written for the exported
 cells of a product space on part of the mesh

---
 src/postprocess/solution_post_processor.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/postprocess/solution_post_processor.py b/src/postprocess/solution_post_processor.py
index 89baabe..8ff7b98 100644
--- a/src/postprocess/solution_post_processor.py
+++ b/src/postprocess/solution_post_processor.py
@@ -172,6 +172,17 @@ def write_vtk_file_with_exact_solution(
         family_by_name("N1E"),
         family_by_name("N2E"),
     ]
+    # cells of the product space, in the order of connectivity and cell data
+    space_dim = fe_space.dimension()
+    space_tags = set()
+    for name in fe_space.discrete_spaces:
+        space_tags.update(fe_space.fields_physical_tags[name])
+    cells = [
+        cell
+        for cell in gmesh.cells
+        if cell.dimension == space_dim and cell.material_id in space_tags
+    ]
+
     p_data_dict = {}
     c_data_dict = {}
 
@@ -185,11 +196,12 @@ def write_vtk_file_with_exact_solution(
             n_data *= dim
 
         if name in cell_centered:
-            cells = [cell for cell in gmesh.cells if cell.dimension == dim]
             fh_data = np.zeros((len(cells), n_data))
             fe_data = np.zeros((len(cells), n_data))
 
             for cell_idx, cell in enumerate(cells):
+                if cell.material_id not in fe_space.fields_physical_tags[name]:
+                    continue
                 x = cell_centroid(cell, gmesh)
                 f_e = f_exact(x[0], x[1], x[2])
                 f_h = cell_centered_quatity(cell, fe_space, name, alpha)
@@ -221,14 +233,9 @@ def write_vtk_file_with_exact_solution(
             p_data_dict[name + "_e"] = fe_data
 
     mesh_points = gmesh.points
-    cells = [
-        cell
-        for cell in gmesh.cells
-        if cell.material_id in fe_space.fields_physical_tags[name]
-    ]
     con_d = np.array([cell.node_tags for cell in cells])
     meshio_cell_types = {0: "vertex", 1: "line", 2: "triangle", 3: "tetra"}
-    cells_dict = {meshio_cell_types[fe_space.dimension()]: con_d}
+    cells_dict = {meshio_cell_types[space_dim]: con_d}
 
     mesh = meshio.Mesh(
         points=mesh_points,
-- 
2.43.0


From a09bf16d0ee93eeaff9841a1f294e4f5d4b2627f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 39/44] fix: vertices list their own cell identifier, not their
 node tag, as their entity of dimension 0

---
 src/mesh/mesh.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/mesh/mesh.py b/src/mesh/mesh.py
index e503403..08a7f2c 100644
--- a/src/mesh/mesh.py
+++ b/src/mesh/mesh.py
@@ -129,7 +129,7 @@ class Mesh:
             self.cells[cell_id] = self.create_cell(
                 0, np.array([node_tag]), cell_id, physical_tag
             )
-            self.cells[cell_id].set_sub_cells_ids(0, np.array([node_tag]))
+            self.cells[cell_id].set_sub_cells_ids(0, np.array([cell_id]))
         if physical_tag is not None:
             self.cells[cell_id].set_material_id(physical_tag)
         return cell_id
@@ -877,9 +877,7 @@ class Mesh:
                     0, np.array([new_node_tags_p[i]]), cell_id, mat_id_p
                 )
                 mesh_cell.set_physical_name("sp_" + str(mat_id))
-                mesh_cell.set_sub_cells_ids(
-                    mesh_cell.dimension, np.array([new_node_tags_p[i]])
-                )
+                mesh_cell.set_sub_cells_ids(mesh_cell.dimension, np.array([cell_id]))
                 self.cells = np.append(self.cells, mesh_cell)
                 map_vertex_p[vertices[i]] = cell_id
                 old_node_tag = self.cells[vertices[i]].node_tags[0]
@@ -896,9 +894,7 @@ class Mesh:
                     0, np.array([new_node_tags_n[i]]), cell_id, mat_id_n
                 )
                 mesh_cell.set_physical_name("sm_" + str(mat_id))
-                mesh_cell.set_sub_cells_ids(
-                    mesh_cell.dimension, np.array([new_node_tags_n[i]])
-                )
+                mesh_cell.set_sub_cells_ids(mesh_cell.dimension, np.array([cell_id]))
                 self.cells = np.append(self.cells, mesh_cell)
                 map_vertex_n[vertices[i]] = cell_id
                 old_node_tag = self.cells[vertices[i]].node_tags[0]
@@ -1123,9 +1119,7 @@ class Mesh:
                 mesh_cell = self.create_cell(
                     0, np.array([new_node_tags_p[i]]), cell_id, mat_id_p
                 )
-                mesh_cell.set_sub_cells_ids(
-                    mesh_cell.dimension, np.array([new_node_tags_p[i]])
-                )
+                mesh_cell.set_sub_cells_ids(mesh_cell.dimension, np.array([cell_id]))
                 self.cells = np.append(self.cells, mesh_cell)
                 map_vertex_p[vertices[i]] = cell_id
                 old_node_tag = self.cells[vertices[i]].node_tags[0]
@@ -1141,9 +1135,7 @@ class Mesh:
                 mesh_cell = self.create_cell(
                     0, np.array([new_node_tags_n[i]]), cell_id, mat_id_n
                 )
-                mesh_cell.set_sub_cells_ids(
-                    mesh_cell.dimension, np.array([new_node_tags_n[i]])
-                )
+                mesh_cell.set_sub_cells_ids(mesh_cell.dimension, np.array([cell_id]))
                 self.cells = np.append(self.cells, mesh_cell)
                 map_vertex_n[vertices[i]] = cell_id
                 old_node_tag = self.cells[vertices[i]].node_tags[0]
-- 
2.43.0


From 7595ee53227e9e4547fd1f82d779691839c23090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 40/44] fix: the trace of a discrete space looks its neighbour
 up by cell identifier

---
 src/basis/basis_trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/basis_trace.py b/src/basis/basis_trace.py
index a185cbf..420c8fe 100644
--- a/src/basis/basis_trace.py
+++ b/src/basis/basis_trace.py
@@ -42,7 +42,7 @@ def trace_discrete_space(
     assert neigh_check
 
     # select neighbor
-    c0_cell_id = neigh_list[neigh_idx]
+    c0_cell_id = neigh_list[neigh_idx][1]
     c0_element_idx = sub_space.id_to_element[c0_cell_id]
     c0_element = sub_space.elements[c0_element_idx]
 
-- 
2.43.0


From 29fef50486cf5366b788033f90171fa51dd68b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 41/44] fix: the visual opening reads the end points of a
 fracture by node tag

---
 src/mesh/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/mesh.py b/src/mesh/mesh.py
index 08a7f2c..baccce6 100644
--- a/src/mesh/mesh.py
+++ b/src/mesh/mesh.py
@@ -983,7 +983,7 @@ class Mesh:
                 node_ids_n = node_ids_n + list(self.cells[pair[1]].node_tags)
             node_ids_p = np.unique(node_ids_p)
             node_ids_n = np.unique(node_ids_n)
-            b, e = self.points[vertices]
+            b, e = self.points[[self.cells[vertex].node_tags[0] for vertex in vertices]]
             lm = np.linalg.norm(e - b)
             for i, pair in enumerate(zip(node_ids_p, node_ids_n)):
                 pt_p, pt_n = self.points[pair[0]], self.points[pair[1]]
-- 
2.43.0


From 9506bb4238292fc7d656538258fcd789439d8162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 42/44] fix: the mesh colouring picks the cells out of the
 colours of (dimension, identifier) pairs

---
 src/mesh/mesh_coloring.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mesh/mesh_coloring.py b/src/mesh/mesh_coloring.py
index 18c29a9..d8796a7 100644
--- a/src/mesh/mesh_coloring.py
+++ b/src/mesh/mesh_coloring.py
@@ -14,7 +14,11 @@ def coloring_mesh_by_co_dimension(n_colors, mesh, dim, sub_entity_co_dim):
     # coloring graph
     rcoloring = nx.coloring.equitable_color(reverse_map, num_colors=n_colors)
     c0_entities = [cell.id for cell in mesh.cells if cell.dimension == dim]
-    colored_elements = [item for item in rcoloring.items() if item[0] in c0_entities]
+    colored_elements = [
+        (index[1], color)
+        for index, color in rcoloring.items()
+        if index[0] == dim and index[1] in c0_entities
+    ]
     colored_elements = np.vstack(colored_elements)
 
     # coloring mesh
-- 
2.43.0


From 8256b3719bbbb90e155fda6b043c4463d157da5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:53 +0000
Subject: [PATCH 43/44] fix: a cut along an inclined line moves the cells on
 the line to the duplicated points

Which side of the line the edges on the line itself are on is decided by rounding; they were
attached to the duplicates of one or the other side.
---
 src/mesh/mesh_operations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mesh/mesh_operations.py b/src/mesh/mesh_operations.py
index 8a08313..dea73c3 100644
--- a/src/mesh/mesh_operations.py
+++ b/src/mesh/mesh_operations.py
@@ -381,7 +381,11 @@ def cut_conformity_along_c1_line(
     # g_d1_0d = mesh.build_graph(mesh.dimension - 1, mesh.dimension - 1)
     c1_cells_data = [list(g_d1_0d.predecessors(cell.index())) for cell in c2_cells]
     c1_cells_idx = np.array(list(itertools.chain(*c1_cells_data)))
-    c1_cell_ids = np.unique([cell_idx[1] for cell_idx in c1_cells_idx])
+    # the cells on the line keep their own points
+    line_cell_ids = [cell.id for cell in c1_cells]
+    c1_cell_ids = np.unique(
+        [cell_idx[1] for cell_idx in c1_cells_idx if cell_idx[1] not in line_cell_ids]
+    )
     c1_cells = np.array([mesh.cells[c1_id] for c1_id in c1_cell_ids])
     c1_xcs = np.array([cell_centroid(cell, mesh) for cell in c1_cells])
     c1_dirs = c1_xcs - np.mean([a, b], axis=0)
-- 
2.43.0


From 1df61601198300374072669221071a3ce3b812e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:56 +0000
Subject: [PATCH 44/44] fix: shape functions along a segment are scaled point
 by point

---
 src/basis/finite_element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basis/finite_element.py b/src/basis/finite_element.py
index 199537b..d9fefd3 100644
--- a/src/basis/finite_element.py
+++ b/src/basis/finite_element.py
@@ -179,8 +179,8 @@ class FiniteElement:
         ]:
             # TODO: implement covariant Piola transformation for  types (N1E, N2E)
             # Contravariant Piola transformation for 1d cells with vector families
-            phi_mapped[:, :, 0] = (1.0 / det_jac) * phi_mapped[:, :, 0] * (
-                    jac[:, :, 0] @ np.array([1.0, 0.0, 0.0]))
+            scale = (1.0 / det_jac) * (jac[:, :, 0] @ np.array([1.0, 0.0, 0.0]))
+            phi_mapped[:, :, 0] = scale[:, np.newaxis] * phi_mapped[:, :, 0]
             if phi_tab[0].shape == phi_mapped.shape:
                 phi_tab[0] = phi_mapped
 
-- 
2.43.0

