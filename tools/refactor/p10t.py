import sys; sys.path.insert(0,'/verif/tools/refactor'); import rf
MP,FE,TR="geometry/mapping.py","basis/finite_element.py","basis/basis_trace.py"
X="    x = phi[0, :, :, 0] @ cell_points\n    jac = np.rollaxis(phi[list(range(1, dimension + 1)), :, :, 0], 1) @ cell_points\n    jac = np.transpose(jac, (0, 2, 1))\n"
R="    map_result = list(map(_compute_det_and_pseudo_inverse, jac))\n    det_jac, inv_jac = zip(*map_result)\n    det_jac = np.array(det_jac)\n    inv_jac = np.array(inv_jac)\n"
QR=open('/repo/src/'+MP).read().split("def _compute_det_and_pseudo_inverse(grad_xmap):\n")[1].split("\n\n\ndef ")[0]
TAB="        if phi_tab[0].shape == phi_mapped.shape:\n            phi_tab[0] = phi_mapped\n        else:\n            phi_tab = np.insert(phi_tab, 2, 0, axis=3)\n            phi_tab[0] = phi_mapped\n"
T1="        c1_entity_index = (\n            c0_cell.sub_cells_ids[c1_cell.dimension].tolist().index(c1_cell.id)\n        )\n"
Q=[
 [(MP,X,'    x = np.einsum("qv,vc->qc", phi[0, :, :, 0], cell_points)\n    jac = np.einsum("kqv,vc->qck", phi[1 : dimension + 1, :, :, 0], cell_points)\n')],
 [(MP,X,'    shapes = phi[..., 0]\n    x = np.dot(shapes[0], cell_points)\n    jac = np.swapaxes(np.moveaxis(shapes[1:], 0, 1) @ cell_points, 1, 2)\n')],
 [(MP,QR,"    q_axes, r_jac = np.linalg.qr(grad_xmap)\n    det_g_jac = np.abs(np.linalg.det(r_jac))\n    return det_g_jac, np.linalg.inv(r_jac) @ q_axes.T\n")],
 [(MP,QR,"    q_axes, r_jac = np.linalg.qr(grad_xmap)\n    det_g_jac = np.prod(np.abs(np.diag(r_jac)))\n    return det_g_jac, np.linalg.pinv(grad_xmap)\n")],
 [(MP,R,"    det_jac = []\n    inv_jac = []\n    for jac_q in jac:\n        det_q, inv_q = _compute_det_and_pseudo_inverse(jac_q)\n        det_jac.append(det_q)\n        inv_jac.append(inv_q)\n    det_jac = np.array(det_jac)\n    inv_jac = np.array(inv_jac)\n")],
 [(MP,R,"    map_result = [_compute_det_and_pseudo_inverse(j) for j in jac]\n    det_jac = np.array([r[0] for r in map_result])\n    inv_jac = np.array([r[1] for r in map_result])\n")],
 [(MP,QR,"    gram = grad_xmap.T @ grad_xmap\n    det_g_jac = np.sqrt(np.linalg.det(gram))\n    return det_g_jac, np.linalg.inv(gram) @ grad_xmap.T\n")],
 [(FE,TAB,"        if phi_tab[0].shape != phi_mapped.shape:\n            padded = np.zeros(phi_tab.shape[:3] + (phi_mapped.shape[2],))\n            padded[:, :, :, : phi_tab.shape[3]] = phi_tab\n            phi_tab = padded\n        phi_tab[0] = phi_mapped\n")],
 [(FE,"            scale = (1.0 / det_jac) * (jac[:, :, 0] @ np.array([1.0, 0.0, 0.0]))\n","            scale = jac[:, 0, 0] / det_jac\n")],
 [(TR,T1,"        facets = c0_cell.sub_cells_ids[c1_cell.dimension]\n        c1_entity_index = list(facets).index(c1_cell.id)\n")],
 [(TR,"        tr_phi = tr_phi_tab[:, :, dof_n_index, :]\n    return tr_phi\n","        return tr_phi_tab[:, :, dof_n_index, :]\n    return tr_phi\n")],
 [(TR,"    sub_spaces = {field: space.discrete_spaces[field] for field in fields}\n    for item in sub_spaces.items():\n        field, sub_space = item\n","    for field in fields:\n        sub_space = space.discrete_spaces[field]\n")],
 [(FE,"            self.data.mapping.phi = phi_shape\n            self.data.mapping.x = x\n            self.data.mapping.jac = jac\n            self.data.mapping.det_jac = det_jac\n            self.data.mapping.inv_jac = inv_jac\n","            self._keep(phi_shape, x, jac, det_jac, inv_jac)\n"),
  (FE,"    def evaluate_basis(","    def _keep(self, phi, x, jac, det_jac, inv_jac):\n        m = self.data.mapping\n        m.phi, m.x, m.jac = phi, x, jac\n        m.det_jac, m.inv_jac = det_jac, inv_jac\n\n    def evaluate_basis(")],
 [(FE,"        for entity_dofs in self.data.dof.num_entity_dofs:\n            self.data.dof.n_dof += np.sum(entity_dofs)\n","        self.data.dof.n_dof = sum(np.sum(n) for n in self.data.dof.num_entity_dofs)\n")],
 [(MP,R,"    det_q, inv_q = _compute_det_and_pseudo_inverse(jac[0])\n    det_jac = np.full(len(jac), det_q)\n    inv_jac = np.array([inv_q] * len(jac))\n")],
 [(MP,X,"    x = phi[0, :, :, 0] @ cell_points\n    edges = cell_points[1:] - cell_points[0]\n    jac = np.array([edges.T] * phi.shape[1])\n")],
 [(FE,"            scale = (1.0 / det_jac) * (jac[:, :, 0] @ np.array([1.0, 0.0, 0.0]))\n            phi_mapped[:, :, 0] = scale[:, np.newaxis] * phi_mapped[:, :, 0]\n","            phi_mapped[:, :, 0] *= jac[0, 0, 0] / det_jac[0]\n")],
]
M=[
 [(MP,"    return det_g_jac, inv_g_jac\n","    return inv_g_jac, det_g_jac\n")],
 [(MP,"    r_jac = np.dot(r_sign, r_jac)\n","")],
 [(MP,"    q_axes = np.dot(q_axes, r_sign)\n","")],
 [(MP,"jac = np.transpose(jac, (0, 2, 1))","jac = np.transpose(jac, (0, 1, 2))")],
 [(MP,"phi[list(range(1, dimension + 1)), :, :, 0]","phi[list(range(0, dimension)), :, :, 0]")],
 [(MP,"    data.mapping.det_jac = det_jac\n    data.mapping.inv_jac = inv_jac","    data.mapping.det_jac = inv_jac\n    data.mapping.inv_jac = det_jac")],
 [(FE,"phi_tab[0], jac, det_jac, inv_jac\n","phi_tab[0], inv_jac, det_jac, jac\n")],
 [(FE,"np.insert(phi_tab, 2, 0, axis=3)","np.insert(phi_tab, 0, 0, axis=3)")],
 [(FE,"        phi_tab = permute_and_transform(phi_tab, self.data)\n","")],
 [(FE,"cell_points = self.data.mesh.points[self.data.cell.node_tags]\n        (x, jac, det_jac, inv_jac) = evaluate_mapping(\n            self.data.cell.dimension, phi_shape, cell_points\n        )\n        if storage:\n            self.data.mapping.phi","cell_points = self.data.mesh.points[np.sort(self.data.cell.node_tags)]\n        (x, jac, det_jac, inv_jac) = evaluate_mapping(\n            self.data.cell.dimension, phi_shape, cell_points\n        )\n        if storage:\n            self.data.mapping.phi")],
 [(FE,"            self.data.mapping.det_jac = det_jac\n            self.data.mapping.inv_jac = inv_jac\n\n","            self.data.mapping.det_jac = det_jac\n\n")],
 [(TR,"_, jac_c0, det_jac_c0, inv_jac_c0 = c0_element.evaluate_mapping(mapped_points)","_, jac_c0, det_jac_c0, inv_jac_c0 = c0_element.evaluate_mapping(points)")],
 [(TR,"c0_element.data.dof.entity_dofs[c1_cell.dimension]","c0_element.data.dof.entity_dofs[0]")],
 [(TR,"neigh_list[neigh_idx][1]","neigh_list[0][1]")],
 [(FE,"phi_tab = self.basis_generator.tabulate(1, points)","phi_tab = self.basis_generator.tabulate(1, self.data.quadrature.points)")],
 [(FE,"        x, jac, det_jac, inv_jac = self.evaluate_mapping(points, storage=True)","        x, jac, det_jac, inv_jac = self.evaluate_mapping(points)")],
 [(FE,"get_material_id() is not None","get_material_id() is None")],
 [("basis/element_data.py","return MappingData(self.phi, self.x, self.jac, self.det_jac, self.inv_jac)","return MappingData(self.phi, self.x, self.jac, self.inv_jac, self.det_jac)")],
 [(MP,"det_g_jac = np.linalg.det(r_jac)\n    if","det_g_jac = np.linalg.det(r_sign) * np.linalg.det(r_jac)\n    if")],
 [(FE,"        self.generator_family = family\n","        self.generator_family = family_by_name('Lagrange')\n")],
 [(FE,"        # tabulate\n        phi_tab = self.basis","        if len(self.data.basis.phi) > 0 and self.data.basis.phi.shape[1] == len(points):\n            return self.data.basis.phi\n        # tabulate\n        phi_tab = self.basis")],
 [(FE,"        phi_shape = evaluate_linear_shapes(points, self.data)\n","        if self.data.mapping.phi.shape[1:2] == points.shape[:1]:\n            phi_shape = self.data.mapping.phi\n        else:\n            phi_shape = evaluate_linear_shapes(points, self.data)\n")],
]
rf.main(Q,M,("P10",),sys.argv[1] if len(sys.argv)>1 else "",workers=4)
