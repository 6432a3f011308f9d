import sys; sys.path.insert(0,'/tmp/rf'); sys.path.insert(0,'/verif/tools/refactor'); from rf import main
P=("P09",)
src=lambda f: open('/repo/src/'+f).read()
def fn(f,name):
    s=src(f); i=s.index("def %s("%name); ind=i-s.rindex("\n",0,i)-1
    import re
    m=re.search(r"\n {0,%d}(def |class |@)"%ind, s[i+1:]); return s[i:i+1+m.start() if m else len(s)]
def ed(f,name,*reps):
    old=fn(f,name); new=old
    for a,b in reps:
        assert a in new,(name,a)
        new=new.replace(a,b)
    return [(f,old,new)]
DM='spaces/dof_map.py'; PS='spaces/product_space.py'; DS='spaces/discrete_space.py'; BT='basis/basis_trace.py'
ME='mesh/mesh.py'; MO='mesh/mesh_operations.py'; MT='mesh/mesh_topology.py'; TQ='mesh/topological_queries.py'
PT='basis/permute_and_transform.py'; SP='postprocess/solution_post_processor.py'; MC='mesh/mesh_coloring.py'; FE='basis/finite_element.py'
CE='cut_conformity_on_embed_shapes'; UC='update_cells_with_cell_pairs'
Q=[
 ed(DM,"destination_indices",("entity_maps[d].get(dof_s[1]) for dof_s in dof_supports","entity_maps[d].get(support_id) for _, support_id in dof_supports")),
 ed(DM,"bc_destination_indices",('''            dof_supports = list(entity_map.successors(cell.index()))
''','''            dof_supports = [pair[1] for pair in entity_map.successors((cell.dimension, cell.id))]
'''),("if (d, dof_support) in dof_supports","if dof_support in dof_supports")),
 ed(PS,"_retrieve_space_destination_indexes",('''        cell = space.elements[cell_index].data.cell
        cell_id = cell.id
''','''        cell_id = space.element_ids[cell_index]
''')),
 ed(PS,"_retrieve_space_bc_destination_indexes",("        neigh_cell_id = neigh_list[0][1]\n","        _, neigh_cell_id = neigh_list[0]\n")),
 ed(DS,"_build_elements",("dict(zip(self.element_ids, range(len(self.element_ids))))","{cell_id: i for i, cell_id in enumerate(self.element_ids)}")),
 ed(DS,"_build_bc_elements",('''dict(
            zip(self.bc_element_ids, range(len(self.bc_element_ids)))
        )''','''dict((element.data.cell.id, i) for i, element in enumerate(self.bc_elements))''')),
 ed(BT,"trace_discrete_space",('''    c0_cell_id = neigh_list[neigh_idx][1]
    c0_element_idx = sub_space.id_to_element[c0_cell_id]
    c0_element = sub_space.elements[c0_element_idx]
''','''    ids = [idx[1] for idx in neigh_list]
    c0_element = sub_space.elements[sub_space.id_to_element[ids[neigh_idx]]]
''')),
 ed(BT,"_trace",('''            c0_cell.sub_cells_ids[c1_cell.dimension].tolist().index(c1_cell.id)
''','''            c0_cell.sub_cell_index(c1_cell.dimension, c1_cell.id)
''')),
 ed(ME,CE,('''            f_cell_ids = [cell.id for cell in f_cells]
''','''            f_cell_ids = np.array([cell.id for cell in f_cells]).tolist()
'''),('''            for i, cell_id_pair in enumerate(zip(new_cell_ids_p, new_cell_ids_n)):
                map_fracs_edge[f_cells[i].id] = cell_id_pair
''','''            for f_cell, p_id, n_id in zip(f_cells, new_cell_ids_p, new_cell_ids_n):
                map_fracs_edge[f_cell.id] = (p_id, n_id)
''')),
 ed(ME,CE,('''            max_cell_id = len(self.cells)
            new_cell_ids = np.array(list(range(0, 2 * len(f_cells)))) + max_cell_id
''','''            max_cell_id = self.max_cell_id()
            new_cell_ids = np.arange(max_cell_id, max_cell_id + 2 * len(f_cells))
''')),
 ed(MO,UC,('''                cell_dim, cell_id = predecessor
                cell = mesh.cells[cell_id]
''','''                cell = mesh.cells[predecessor[1]]
''')),
 ed(MO,UC,('''            old_cell_idx, new_cell_idx = item
''','''            old_cell_idx, new_cell_idx = item
            old_dim, old_id = old_cell_idx
            new_dim, new_id = new_cell_idx
'''),("cell.sub_cell_index(old_cell_idx[0], old_cell_idx[1])","cell.sub_cell_index(old_dim, old_id)"),
  ("cell.sub_cells_ids[new_cell_idx[0]][out] = new_cell_idx[1]","cell.sub_cells_ids[new_dim][out] = new_id"),("mesh.cells[old_cell_idx[1]]","mesh.cells[old_id]")),
 ed(MT,"_build_entity_ids",('''                dim_id[1]
                for dim_id in list(self.entity_maps[d].nodes())
                if dim_id[0] == d
''','''                cell_id
                for dimension, cell_id in self.entity_maps[d].nodes()
                if dimension == d
''')),
 ed(ME,"gather_graph_edges",('''            b_mesh_cell_index = (mesh_cell.dimension, mesh_cell.id)
            e_mesh_cell_index = (self.cells[id].dimension, self.cells[id].id)
            tuple_id_list.append((b_mesh_cell_index, e_mesh_cell_index))
            if self.cells[id].dimension != dimension:
                self.gather_graph_edges(dimension, self.cells[id], tuple_id_list)
''','''            other = self.cells[id]
            tuple_id_list.append((mesh_cell.index(), other.index()))
            if other.dimension != dimension:
                self.gather_graph_edges(dimension, other, tuple_id_list)
''')),
 ed(MC,"coloring_mesh_by_co_dimension",('''    colored_elements = [
        (index[1], color)
        for index, color in rcoloring.items()
        if index[0] == dim and index[1] in c0_entities
    ]
''','''    colored_elements = []
    for (cell_dim, cell_id), color in rcoloring.items():
        if cell_dim != dim or cell_id not in c0_entities:
            continue
        colored_elements.append((cell_id, color))
''')),
 ed(ME,"insert_edge",('''            vertex_ids = []
            for node_tag in node_tags:
                vertex_id = self.insert_vertex(node_tag)
                vertex_ids.append(vertex_id)
''','''            vertex_ids = [self.insert_vertex(node_tag) for node_tag in node_tags]
''')),
 ed(ME,"insert_polygon",("[self.entities_0d[node] for node in node_tags]","[self.insert_vertex(node) for node in node_tags]")),
 ed(PT,"_validate_edge_orientation_2d",('''        v_edge = data.mesh.cells[data.cell.sub_cells_ids[1][i]].node_tags
''','''        edge_id = data.cell.sub_cells_ids[1][i]
        v_edge = data.mesh.cells[edge_id].node_tags
''')),
 ed(FE,"_fill_element_bc_entity_data",('''        self.data.bc_entities = np.array(
            [
                self.mesh.cells[id].get_material_id() is not None
                for id in c1_sub_cells_ids
            ]
        )
''','''        facets = self.mesh.cells[c1_sub_cells_ids]
        self.data.bc_entities = np.array([facet.material_id is not None for facet in facets])
''')),
 ed(ME,"apply_visual_opening",('''            for i, pair in enumerate(zip(node_ids_p, node_ids_n)):
''','''            for pair in zip(node_ids_p, node_ids_n):
''')),
 ed(ME,"update_nodes_ids" if "def update_nodes_ids" in src(ME) else "x",),
]
Q=[q for q in Q if q[0][1]!=q[0][2]]
M=[
 ed(DM,"destination_indices",("entity_maps[d].get(dof_s[1])","entity_maps[d].get(dof_s[0])")),
 ed(DM,"destination_indices",("entity_maps[d].get(dof_s[1])","entity_maps[d].get(dof_s)")),
 ed(DM,"destination_indices",("cell = self.mesh_topology.mesh.cells[cell_id]","cell = self.mesh_topology.mesh.cells[self.mesh_topology.mesh.cells[cell_id].node_tags[0]]")),
 ed(DM,"bc_destination_indices",("if (d, dof_support) in dof_supports","if dof_support in dof_supports")),
 ed(DM,"bc_destination_indices",("if (d, dof_support) in dof_supports","if (dof_support, d) in dof_supports")),
 ed(DM,"bc_destination_indices",("for dof_support in list(bc_cells_ids[d])","for dof_support in list(self.mesh_topology.mesh.cells[bc_cell_id].node_tags)")),
 ed(DM,"bc_destination_indices",("cells[bc_cell_id].sub_cells_ids","cells[bc_cell_id].node_tags"),),
 ed(PS,"_retrieve_space_destination_indexes",("destination_indices(cell_id)","destination_indices(cell_index)")),
 ed(PS,"_retrieve_space_bc_destination_indexes",("bc_destination_indices(neigh_cell_id, cell_id)","bc_destination_indices(neigh_cell_id, cell_index)")),
 ed(PS,"_retrieve_space_bc_destination_indexes",("neigh_list[0][1]","neigh_list[0][0]")),
 ed(PS,"_retrieve_space_bc_destination_indexes",("neigh_list[0][1]","neigh_list[0]")),
 ed(PS,"_retrieve_space_bc_destination_indexes",("predecessors(cell.index())","predecessors((cell.id, cell.dimension))")),
 ed(PS,"_retrieve_space_bc_destination_indexes",("space.bc_elements[cell_index].data.cell","space.elements[cell_index].data.cell")),
 ed(BT,"trace_discrete_space",("sub_space.elements[c0_element_idx]","sub_space.elements[c0_cell_id]")),
 ed(BT,"trace_discrete_space",("neigh_list[neigh_idx][1]","neigh_list[neigh_idx][0]")),
 ed(BT,"_trace",("tolist().index(c1_cell.id)","tolist().index(c1_cell.node_tags[0])")),
 ed(BT,"_trace",("c0_cell.sub_cells_ids[c1_cell.dimension]","c0_cell.sub_cells_ids[c1_cell.id]")),
 ed(BT,"_trace",('''        dof_n_index = c0_element.data.dof.entity_dofs[c1_cell.dimension][
            c1_entity_index
        ]''','''        dof_n_index = c0_element.data.dof.entity_dofs[c1_cell.dimension][
            c1_cell.id
        ]''')),
 ed(DS,"_build_elements",("dict(zip(self.element_ids, range(len(self.element_ids))))","dict(zip(range(len(self.element_ids)), self.element_ids))")),
 ed(DS,"_build_bc_elements",("if mesh.cells[id].material_id in b_physical_tags","if id in b_physical_tags")),
 ed(DS,"_build_bc_elements",("            id\n            for id in self.bc_element_ids\n            if mesh.cells[id]","            i\n            for i, id in enumerate(self.bc_element_ids)\n            if mesh.cells[id]")),
 ed(MT,"_build_entity_ids",("                dim_id[1]\n","                dim_id[0]\n")),
 ed(MT,"_build_entity_ids",("if dim_id[0] == d","if dim_id[1] == d")),
 ed(ME,CE,("map_vertex_p[vertices[i]] = cell_id","map_vertex_p[old_node_tag] = cell_id"),("                old_node_tag = self.cells[vertices[i]].node_tags[0]\n                map_node_p","                map_node_p"),("                mat_id_p = None\n","                mat_id_p = None\n                old_node_tag = self.cells[vertices[i]].node_tags[0]\n")),
 ed(ME,CE,("self.update_nodes_ids(cell_n_id, map_node_n)","self.update_nodes_ids(cell_n_id, map_vertex_n)")),
 ed(ME,CE,("self.update_entity_with_dimension(0, cell_p_id, map_vertex_p)","self.update_entity_with_dimension(0, cell_p_id, map_node_p)")),
 ed(ME,CE,("max_node_id = len(self.points)","max_node_id = len(self.cells)")),
 ed(ME,CE,("max_cell_id = len(self.cells)","max_cell_id = len(self.points)")),
 ed(ME,CE,("self.points[self.cells[vertex].node_tags[0]]","self.points[vertex]")),
 ed(ME,CE,("np.array([new_node_tags_p[i]]), cell_id, mat_id_p","np.array([cell_id]), cell_id, mat_id_p")),
 ed(ME,CE,("if self.cells[vertex].material_id != mat_id","if self.cells[vertex].id != mat_id")),
 ed(ME,CE,("neigh_id for neigh_id in neighs_by_vertex if neigh_id not in f_cell_ids","neigh_id for neigh_id in neighs_by_vertex if neigh_id not in f_cells[0].node_tags")),
 ed(ME,CE,("gd2c1.predecessors((1, edge_id))","gd2c1.predecessors((edge_id, 1))")),
 ed(ME,CE,("[node[1] for node in gd2c2.predecessors((0, vertex))]","[node[0] for node in gd2c2.predecessors((0, vertex))]")),
 ed(ME,CE,("map_fracs_edge[f_cells[i].id] = cell_id_pair","map_fracs_edge[i] = cell_id_pair")),
 ed(ME,CE,("self.cells[vertices[i]].node_tags[0]\n                map_node_n[old_node_tag]","vertices[i]\n                map_node_n[old_node_tag]")),
 ed(ME,CE,("            for edge_id in f_cell_ids:","            for edge_id in range(len(f_cells)):")),
 ed(MO,UC,("cell.sub_cells_ids[new_cell_idx[0]][out] = new_cell_idx[1]","cell.sub_cells_ids[new_cell_idx[0]][out] = new_cell_idx[0]")),
 ed(MO,UC,("cell.node_tags[tag_pos] = new_cell.node_tags[0]","cell.node_tags[tag_pos] = new_cell_idx[1]")),
 ed(MO,UC,("cell.node_tag_index(old_cell.node_tags)","cell.node_tag_index(old_cell.id)")),
 ed(MO,UC,("cell.sub_cell_index(old_cell_idx[0], old_cell_idx[1])","cell.sub_cell_index(old_cell_idx[1], old_cell_idx[0])")),
 ed(MO,UC,("                cell_dim, cell_id = predecessor","                cell_id, cell_dim = predecessor")),
 ed(MO,UC,("cell.sub_cells_ids[new_cell_idx[0]][out]","cell.sub_cells_ids[new_cell_idx[0]][old_cell_idx[1]]")),
 ed(MC,"coloring_mesh_by_co_dimension",("        (index[1], color)\n","        (index[0], color)\n")),
 ed(MC,"coloring_mesh_by_co_dimension",("dict(colored_elements)","dict(zip(colored_elements[:, 1], colored_elements[:, 0]))")),
 ed(ME,"gather_graph_edges",("(self.cells[id].dimension, self.cells[id].id)","(self.cells[id].id, self.cells[id].dimension)")),
 ed(ME,"gather_graph_edges",("(mesh_cell.dimension, mesh_cell.id)","(mesh_cell.dimension, mesh_cell.material_id)")),
 ed(ME,"insert_edge",("                vertex_ids.append(vertex_id)","                vertex_ids.append(node_tag)")),
 ed(ME,"insert_polygon",("[self.entities_0d[node] for node in node_tags]","[node for node in node_tags]")),
 ed(PT,"_validate_edge_orientation_2d",("data.mesh.cells[data.cell.sub_cells_ids[1][i]]","data.mesh.cells[data.cell.node_tags[i]]")),
 ed(PT,"_validate_edge_orientation_3d",("data.mesh.cells[data.cell.sub_cells_ids[1][i]].node_tags","data.mesh.cells[data.cell.sub_cells_ids[1][i]].sub_cells_ids[0]")),
 ed(FE,"_fill_element_bc_entity_data",("self.mesh.cells[id].get_material_id()","self.mesh.cells[id].id")),
 ed(FE,"_fill_element_bc_entity_data",("for id in c1_sub_cells_ids","for id in range(len(c1_sub_cells_ids))")),
 ed(FE,"evaluate_mapping",("self.data.mesh.points[self.data.cell.node_tags]","self.data.mesh.points[self.data.cell.sub_cells_ids[0]]")),
 ed(TQ,"sub_entity_by_co_dimension",("cell.sub_cells_ids[cell.dimension - codimension]","cell.sub_cells_ids[cell.id - codimension]")),
 ed(ME,"apply_visual_opening",("self.cells[vertex].node_tags[0] for vertex in vertices","vertex for vertex in vertices")),
]
if __name__=="__main__": main(Q,M,P,sys.argv[1] if len(sys.argv)>1 else '')
