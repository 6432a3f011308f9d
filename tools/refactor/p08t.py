import sys; sys.path.insert(0,'/tmp/rf'); sys.path.insert(0,'/verif/tools/refactor'); from rf import run
P=("P08",)
M='mesh/mesh.py'; PT='basis/permute_and_transform.py'; TR='basis/parametric_transformation.py'; MC='mesh/mesh_cell.py'
TABLE="""            edge_0 = [node_tags[2], node_tags[3]]
            edge_1 = [node_tags[1], node_tags[3]]
            edge_2 = [node_tags[1], node_tags[2]]
            edge_3 = [node_tags[0], node_tags[3]]
            edge_4 = [node_tags[0], node_tags[2]]
            edge_5 = [node_tags[0], node_tags[1]]
            edges = [edge_0, edge_1, edge_2, edge_3, edge_4, edge_5]

            edge_ids = []
            for edge in edges:
                edge_id = self.insert_edge(edge)
                edge_ids.append(edge_id)

            face_0"""
CASES=open('/repo/src/'+PT).read(); a=CASES.index("            # cases\n"); b=CASES.index("        if data.bc_entities[i]"); CASES=CASES[a:b]
P3=open('/repo/src/'+PT).read(); a=P3.index("            transformation = np.identity"); b=P3.index("            dofs = data.dof.entity_dofs[2]"); P3=P3[a:b]
V2=open('/repo/src/'+PT).read(); a=V2.index("    edge_0 = data.cell"); b=V2.index("def _permute_and_transform_2d"); V2=V2[a:b]
R2=open('/repo/src/'+TR).read(); a=R2.index("    triangle_face_subentities ="); b=R2.index("def _R2_to_R3"); R2=R2[a:b]
TET=open('/repo/src/'+M).read(); a=TET.index("        for nodes in tetra_data:\n            # https"); b=TET.index("        # fill edge to edge_id from existing triangles"); TET=TET[a:b]
Q=[
 [(M,TABLE,"""            edge_ids = [
                self.insert_edge([node_tags[i], node_tags[j]])
                for i, j in ((2, 3), (1, 3), (1, 2), (0, 3), (0, 2), (0, 1))
            ]

            face_0""")],
 [(M,TABLE,"""            edge_ids = []
            for local in self.EDGES:
                edge_ids.append(self.insert_edge(node_tags[np.array(local)]))

            face_0"""),(M,"    def insert_vertex(self","    EDGES = [[2, 3], [1, 3], [1, 2], [0, 3], [0, 2], [0, 1]]\n\n    def insert_vertex(self")],
 [(PT,CASES,"""            table = {1: (0, 1), 2: (2, 1), 3: (1, 0), 4: (2, 0), 5: (1, 1)}
            rotations[i], reflections[i] = table[position]

""")],
 [(PT,P3,"""            transformation = np.linalg.matrix_power(
                reflect_t, ref_data[index]
            ) @ np.linalg.matrix_power(rotate_t, rot_data[index])

""")],
 [(PT,V2,"""    tags = data.cell.node_tags
    shared = [data.mesh.cells[k].node_tags for k in data.cell.sub_cells_ids[1]]
    return [
        bool(np.all(tags[np.array(pair)] == v))
        for pair, v in zip(([1, 2], [0, 2], [0, 1]), shared)
    ]


""")],
 [(PT,"        edge_node_tags = data.mesh.cells[data.cell.sub_cells_ids[1][i]].node_tags\n        v_edge = np.sort(edge_node_tags)\n        if np.all(edge == v_edge):\n            orientation[i] = True","        orientation[i] = edge[0] < edge[1]")],
 [(PT,"    if not identity_transformation_q:\n        oriented_q = _validate_edge_orientation_2d(data)","    if identity_transformation_q:\n        return phi\n    if True:\n        oriented_q = _validate_edge_orientation_2d(data)")],
 [(TR,R2,"""    tags = data_c0.cell.node_tags
    local = {tags[k]: k for k in triangle_facet}
    start, end = [triangle_vertices[local[t]] for t in data_c1.cell.node_tags]
    return np.array([start + (end - start) * xi for xi in points])


""")],
 [(TR,"            for xi, eta in points\n","            for xi, eta in [(p[0], p[1]) for p in points]\n")],
 [(TR,"    facet_index = neigh_cell.sub_cells_ids[cell.dimension].tolist().index(cell.id)","    facet_index = neigh_cell.sub_cell_index(cell.dimension, cell.id)")],
 [(TR,"    cell = data_c1.cell\n    neigh_cell = data_c0.cell\n    facet_index = neigh_cell.sub_cells_ids[cell.dimension].tolist().index(cell.id)","    cell = data_c1.cell\n    facet_index = list(data_c0.cell.sub_cells_ids[cell.dimension]).index(cell.id)")],
 [(M,TET,"""        for nodes in tetra_data:
            for i, j in ((0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)):
                edge = tuple(np.sort([nodes[i], nodes[j]]))
                if edge not in self.entities_1d:
                    self.entities_1d[edge] = edge_id
                    edge_id += 1

""")],
 [(M,"            tuple_id_list.append((b_mesh_cell_index, e_mesh_cell_index))","            tuple_id_list += [(b_mesh_cell_index, e_mesh_cell_index)]")],
 [(M,"            b_mesh_cell_index = (mesh_cell.dimension, mesh_cell.id)\n            e_mesh_cell_index = (self.cells[id].dimension, self.cells[id].id)","            b_mesh_cell_index = mesh_cell.index()\n            e_mesh_cell_index = self.cells[id].index()")],
 [(M,"            face_ids = []\n            for face in faces:\n                face_id = self.insert_polygon(face)\n                face_ids.append(face_id)\n","            face_ids = [self.insert_polygon(face) for face in faces]\n")],
 [(M,"        if physical_tag is not None:\n            self.cells[cell_id].set_material_id(physical_tag)\n        return cell_id\n\n    def insert_edge","        self._tag(cell_id, physical_tag)\n        return cell_id\n\n    def _tag(self, cell_id, physical_tag):\n        if physical_tag is None:\n            return\n        self.cells[cell_id].set_material_id(physical_tag)\n\n    def insert_edge")],
 [(M,"        if cell_block.dim == 0:\n            for node_tags, physical_tag in zip(cell_block.data, physical):\n                self.insert_vertex(node_tags[0], physical_tag)\n\n        elif","        if cell_block.dim == 0:\n            for k, row in enumerate(cell_block.data):\n                self.insert_vertex(row[0], physical_tag=physical[k])\n\n        elif")],
 [(PT,"            dofs = data.dof.entity_dofs[1][index]\n            for d in range(phi.shape[0]):\n                for dim in range(phi.shape[3]):\n                    phi[d, :, dofs, dim] = transformation @","            edge_dofs = data.dof.entity_dofs[1]\n            dofs = edge_dofs[index]\n            n_d, _, _, n_dim = phi.shape\n            for d in range(n_d):\n                for dim in range(n_dim):\n                    phi[d, :, dofs, dim] = transformation @")],
 [(PT,"        face_ref = np.sort(face)\n\n        valid_orientation = np.all(face_ref == face)","        face_ref = face[np.argsort(face)]\n\n        valid_orientation = np.array_equal(face_ref, face)")],
 [(PT,"            perms = list(permutations(list(face_ref)))\n            pos_search = [k for k, perm in enumerate(perms) if perm == tuple(face)]\n            assert len(pos_search) == 1\n            assert pos_search[0] != 0\n            position = pos_search[0]\n","            position = list(permutations(face_ref)).index(tuple(face))\n")],
]
MU=[
 [(M,"            edge_1 = [node_tags[1], node_tags[3]]\n            edge_2 = [node_tags[1], node_tags[2]]","            edge_2 = [node_tags[1], node_tags[3]]\n            edge_1 = [node_tags[1], node_tags[2]]")],
 [(M,"            face_1 = node_tags[np.array([0, 2, 3])]\n            face_2 = node_tags[np.array([0, 1, 3])]","            face_1 = node_tags[np.array([0, 1, 3])]\n            face_2 = node_tags[np.array([0, 2, 3])]")],
 [(M,"cell_id = self.entities_2d[tuple(np.sort(node_tags))]","cell_id = self.entities_2d[tuple(node_tags)]")],
 [(M,"            edge_1 = np.sort(node_tags[np.array([0, 2])])\n            edge_2 = np.sort(node_tags[np.array([0, 1])])","            edge_2 = np.sort(node_tags[np.array([0, 2])])\n            edge_1 = np.sort(node_tags[np.array([0, 1])])")],
 [(M,"            vertex_ids = [self.entities_0d[node] for node in node_tags]\n\n            edge_0 = [","            vertex_ids = [self.entities_0d[node] for node in np.sort(node_tags)]\n\n            edge_0 = [")],
 [(PT,"    edge_3 = np.array([0, 3])\n    edge_4 = np.array([0, 2])","    edge_3 = np.array([0, 2])\n    edge_4 = np.array([0, 3])")],
 [(PT,"            elif position == 3:\n                rotations[i] += 1","            elif position == 3:\n                rotations[i] += 2")],
 [(PT,"            elif position == 5:\n                rotations[i] += 1","            elif position == 5:\n                rotations[i] += 2")],
 [(PT,"    face_2 = np.array([0, 1, 3])","    face_2 = np.array([0, 3, 1])")],
 [(PT,"                transformation = rotate_t @ transformation","                transformation = transformation @ rotate_t"),(PT,"            for i in range(ref_data[index]):\n                transformation = reflect_t @ transformation","            for i in range(ref_data[index]):\n                transformation = transformation @ reflect_t")],
 [(PT,"            reflect_t = data.dof.transformations[\"interval\"][0]\n            dofs = data.dof.entity_dofs[1][index]","            reflect_t = data.dof.transformations[\"interval\"][0]\n            dofs = data.dof.entity_dofs[1][-1 - index]")],
 [(PT,"        v_edge = np.sort(edge_node_tags)\n        if np.all","        v_edge = edge\n        if np.all")],
 [(PT,"        v_edge = data.mesh.cells[data.cell.sub_cells_ids[1][i]].node_tags\n        if np","        v_edge = data.mesh.cells[data.cell.sub_cells_ids[1][i - 1]].node_tags\n        if np")],
 [(PT,"i in [1, 3]","i in [1, 2]")],
 [(PT,"            if check:\n                continue\n            transformation = data","            if not check:\n                continue\n            transformation = data")],
 [(TR,"        triangle_facet = [index_map[k] for k in line_facet]","        triangle_facet = [index_map[k] for k in np.sort(line_facet)]")],
 [(TR,"        index_map = dict(zip(tetrahedron_face_subentities, tetrahedron_facet))\n        tetrahedron_facet = [index_map[k] for k in triangle_facet]","        index_map = dict(zip(triangle_facet, tetrahedron_facet))\n        tetrahedron_facet = [index_map[k] for k in tetrahedron_face_subentities]")],
 [(TR,"            + tetrahedron_vertices[tetrahedron_facet[1]] * xi\n            + tetrahedron_vertices[tetrahedron_facet[2]] * eta","            + tetrahedron_vertices[tetrahedron_facet[2]] * xi\n            + tetrahedron_vertices[tetrahedron_facet[1]] * eta")],
 [(M,"        for nodes in triangle_data:\n            face = tuple(np.sort(nodes))\n            key_exist_q = self.entities_2d.get(face, None)","        for nodes in triangle_data:\n            face = tuple(nodes)\n            key_exist_q = self.entities_2d.get(face, None)")],
 [(M,"            edge_2 = tuple(np.sort([nodes[1], nodes[2]]))","            edge_2 = tuple(np.sort([nodes[0], nodes[2]]))")],
 [(M,"            mesh_cell_list = mesh_cell.sub_cells_ids[dimension]","            mesh_cell_list = np.sort(mesh_cell.sub_cells_ids[dimension])")],
 [(M,"                self.insert_polygon(node_tags, physical_tag)","                self.insert_polygon(np.sort(node_tags), physical_tag)")],
 [(M,"            self.cells[cell_id].set_sub_cells_ids(1, np.array(edge_ids))\n            self.cells[cell_id].set_sub_cells_ids(2, np.array(face_ids))","            self.cells[cell_id].set_sub_cells_ids(1, np.sort(edge_ids))\n            self.cells[cell_id].set_sub_cells_ids(2, np.array(face_ids))")],
 [(TR,"[cell.dimension].tolist().index(cell.id)","[cell.dimension].tolist().index(cell.id) - 1")],
]
only=sys.argv[1:]
if 'm' not in only:
    for i,e in enumerate(Q):
        if only and 'q%d'%i not in only: continue
        print('Q%d'%i, run(e,P))
if not only or 'm' in only:
    for i,e in enumerate(MU): print('M%d'%i, run(e,P,show=1))
