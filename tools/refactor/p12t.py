import sys; sys.path.insert(0,'/tmp/rf'); from rf import run
P=("P12",)
G='geometry/operations/point_geometry_operations.py'; L='geometry/operations/line_geometry_operations.py'; V='topology/operations/vertex_operations.py'
PG='geometry/operations/polygon_geometry_operations.py'; LD='weak_forms/laplace_dual_weak_form.py'; MC='mesh/mesh_cell.py'; PJ='postprocess/projectors.py'; SH='topology/shape.py'; PT='basis/parametric_transformation.py'; PR='spaces/product_space.py'
which=sys.argv[1:] or ['q','m']
Q=[
[(G,"    v = a - p\n    u = b - p\n","    v = a.copy()\n    v -= p\n    u = np.array(b)\n    u -= p\n")],
[(G,"""        idx = np.argsort(np.linalg.norm(points - b, axis=1))
    else:
        idx = np.argsort(np.linalg.norm(points - a, axis=1))
""","""        ref = b
    else:
        ref = a
    delta = points - ref
    delta *= delta
    idx = np.argsort(delta.sum(axis=1))
""")],
[(PG,"    shifted_polygon = polygon_points - p\n","    shifted_polygon = _shift(polygon_points, p)\n"),(PG,"def winding_number(","def _shift(pts, p):\n    out = np.empty_like(pts, dtype=float)\n    out[:] = pts\n    out -= p\n    return out\n\n\ndef winding_number(")],
[(PG,"        points_red = np.vstack((points_red, np.mean(points_red, axis=0)))\n","        points_red[0] = points_red[0] * 1.0\n        points_red = np.vstack((points_red, np.mean(points_red, axis=0)))\n")],
[(LD,"                u_h *= 1.0 / f_kappa(xv[0], xv[1], xv[2])\n","                u_h = u_h / f_kappa(xv[0], xv[1], xv[2])\n")],
[(LD,"        phi_s_star = det_jac * weights * p_phi_tab[0, :, :, 0].T\n","        scale = weights.copy()\n        scale *= det_jac\n        phi_s_star = scale * p_phi_tab[0, :, :, 0].T\n")],
[(MC,"        cell_clone = copy.deepcopy(self)\n        return cell_clone\n","        return copy.deepcopy(self)\n")],
[(MC,"        cell_clone = copy.deepcopy(self)\n","        cell_clone = copy.copy(self)\n        cell_clone.__dict__ = copy.deepcopy(self.__dict__)\n")],
[(SH,"        perm = np.argsort([shape.tag for shape in shapes])\n        shapes = shapes[perm]\n","        tags = [shape.tag for shape in shapes]\n        order = sorted(range(len(tags)), key=tags.__getitem__)\n        shapes = np.array([shapes[i] for i in order], dtype=Shape)\n")],
[(PR,"            field_dest = (\n                self._retrieve_space_destination_indexes(space, cell_index) + stride\n            )\n            field_dest += self.dof_shift\n","            base = self._retrieve_space_destination_indexes(space, cell_index)\n            field_dest = base + (stride + self.dof_shift)\n")],
[(PJ,"        dest += dof_shift\n","        dest = dest + dof_shift\n")],
[(PR,"        dofs_list.insert(0, 0)\n","        dofs_list[:0] = [0]\n")],
[(PT,"    mapped_points = np.array([line_vertices[line_facet[0]] * xi for xi in points])\n","    mapped_points = []\n    for xi in points:\n        mapped_points.append(line_vertices[line_facet[0]] * xi)\n    mapped_points = np.array(mapped_points)\n")],
[(V,"""    strong_check = [
        vertex_strong_equality_q(v_tool, e_vertex, eps)
        for e_vertex in edge_object.boundary_shapes
    ]
""","""    strong_check = []
    for e_vertex in edge_object.boundary_shapes:
        strong_check.append(vertex_strong_equality_q(v_tool, e_vertex, eps))
""")],
]
M=[
[(G,"    v = a - p\n    u = b - p\n","    a -= p\n    v = a\n    u = b - p\n")],
[(G,"        idx = np.argsort(np.linalg.norm(points - a, axis=1))\n","        points -= a\n        idx = np.argsort(np.linalg.norm(points, axis=1))\n")],
[(G,"        idx = np.argsort(np.linalg.norm(points - a, axis=1))\n","        delta = np.asarray(points)\n        delta -= a\n        idx = np.argsort(np.linalg.norm(delta, axis=1))\n")],
[(PG,"    shifted_polygon = polygon_points - p\n","    shifted_polygon = np.subtract(polygon_points, p, out=polygon_points)\n")],
[(PG,"    shifted_polygon = polygon_points - p\n","    shifted_polygon = _shift(polygon_points, p)\n"),(PG,"def winding_number(","def _shift(pts, p):\n    for k in range(len(pts)):\n        pts[k] = pts[k] - p\n    return pts\n\n\ndef winding_number(")],
[(LD,"        phi_s_star = det_jac * weights * p_phi_tab[0, :, :, 0].T\n","        weights *= det_jac\n        phi_s_star = weights * p_phi_tab[0, :, :, 0].T\n")],
[(LD,"        f_val_star = f_rhs(x[:, 0], x[:, 1], x[:, 2])\n","        self.functions.setdefault('q', f_rhs)\n        f_val_star = f_rhs(x[:, 0], x[:, 1], x[:, 2])\n")],
[(LD,"        with ad.AutoDiff(alpha) as alpha:\n","        alpha[0:n_q_dof] *= 1.0\n        with ad.AutoDiff(alpha) as alpha:\n")],
[(MC,"        return self.node_tags\n","        self.node_tags.sort()\n        return self.node_tags\n")],
[(SH,"        perm = np.argsort([shape.tag for shape in shapes])\n        shapes = shapes[perm]\n","        shapes[:] = sorted(shapes, key=lambda s: s.tag)\n")],
[(PJ,"    fe_space.dof_shift = n_dof_shift\n","")],
[(PJ,"        dest += dof_shift\n","        dest += dof_shift\n        weak_form.functions.clear()\n")],
[(PT,"    line_facet = data_c1.cell.node_tags\n","    line_facet = data_c1.cell.node_tags\n    line_facet.sort()\n")],
[(V,"        vertex = Vertex(tag, v0.point)\n","        vertex = v0\n        vertex.tag = tag\n")],
[(V,"        vertex = Vertex(tag, v_tool.point)  # same geometry as v_tool\n","        vertex = v_tool\n        vertex.tag = tag\n")],
[(PR,"        dofs_list = list(self.discrete_spaces_dofs.values())\n","        self.discrete_spaces_dofs['_'] = 0\n        dofs_list = list(self.discrete_spaces_dofs.values())\n")],
[('mesh/mesh_topology.py',"        return self.entity_ids[dimension]\n","        ids = self.entity_ids[dimension]\n        ids.sort()\n        return ids\n")],
[('basis/finite_element.py',"IDENT","")],
[('spaces/dof_map.py',"XX","")],
]
if 'q' in which:
    print("QUIET")
    for i,q in enumerate(Q): print(i,run(q,P))
if 'm' in which:
    print("MUTANTS")
    for i,q in enumerate(M): print(i,run(q,P))
