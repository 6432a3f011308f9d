import sys; sys.path.insert(0,'/tmp/rf'); sys.path.insert(0,'/verif/tools/refactor'); from rf import main
P=("P15",)
src=lambda f: open('/repo/src/'+f).read()
def fn(f,name):
    import re
    s=src(f); i=re.search(r"(?m)^ *def %s\("%name,s).end()-len("def %s("%name); ind=i-s.rindex("\n",0,i)-1
    m=re.search(r"\n {0,%d}(def |class |@)"%ind, s[i+1:]); return s[i:i+1+m.start() if m else len(s)]
def ed(f,name,*reps):
    old=fn(f,name); new=old
    for a,b in reps:
        assert a in new,(name,a)
        new=new.replace(a,b)
    return [(f,old,new)]
def ed1(f,name,a,b,k=0):
    old=fn(f,name); p=old.split(a)
    assert len(p)>k+1,(name,a)
    return [(f,old,a.join(p[:k+1])+b+a.join(p[k+1:]))]
ME='mesh/mesh.py'; MO='mesh/mesh_operations.py'; MC='mesh/mesh_cell.py'
EC='cut_conformity_on_fractures_mds_ec'; ES='cut_conformity_on_embed_shapes'; LI='cut_conformity_along_c1_line'; UC='update_cells_with_cell_pairs'
DUP='''            map_edge_p = {}
            for i, cell_id in enumerate(new_cell_ids_p):
'''
Q=[
 ed(ME,EC,("len(self.cells)","self.cells.shape[0]"),("len(self.points)","self.points.shape[0]")),
 ed(ME,EC,("np.array(list(range(0, 2 * len(f_cells)))) + max_cell_id","np.arange(max_cell_id, max_cell_id + 2 * len(f_cells))")),
 ed(ME,EC,("neighs_by_vertex = neighs_by_vertex + [node[1] for node in gd2c2.predecessors((0, vertex))]","neighs_by_vertex.extend(node[1] for node in gd2c2.predecessors((0, vertex)))")),
 ed(ME,EC,("[new_cell_ids_p, new_cell_ids_n] = np.split(new_cell_ids, 2)","half = len(new_cell_ids) // 2\n            new_cell_ids_p, new_cell_ids_n = new_cell_ids[:half], new_cell_ids[half:]")),
 ed(ME,EC,("                self.cells = np.append(self.cells, mesh_cell)\n","                self.append_cells(np.array([mesh_cell]))\n")),
 ed(ME,EC,('''                positive_q = np.dot(cell_xc - f_xc, n) > 0.0
                if positive_q:
                    cells_p.append(neigh_id)
                else:
                    cells_n.append(neigh_id)
''','''                distance = np.dot(n, cell_xc - f_xc)
                (cells_p if distance > 0.0 else cells_n).append(neigh_id)
''')),
 ed(ME,EC,('''            for i, cell_id_pair in enumerate(zip(new_cell_ids_p, new_cell_ids_n)):
                map_fracs_edge[f_cells[i].id] = cell_id_pair
''','''            for f_cell, p_id, n_id in zip(f_cells, new_cell_ids_p, new_cell_ids_n):
                map_fracs_edge[f_cell.id] = (p_id, n_id)
''')),
 ed(ME,EC,('''            for i, cell_id in enumerate(new_cell_ids_p):
                mat_id_p = 10 * mat_id + 1
                mesh_cell = copy.deepcopy(f_cells[i])
''','''            for f_cell, cell_id in zip(f_cells, new_cell_ids_p):
                mat_id_p = 10 * mat_id + 1
                mesh_cell = f_cell.clone()
'''),('''                map_edge_p[f_cells[i].id] = cell_id
''','''                map_edge_p[f_cell.id] = cell_id
''')),
 ed(ME,'update_entity_with_dimension',('''            position = entity_map_ids.get(sub_cell_id, None)
            if position is not None:
                cell.sub_cells_ids[dim][i] = entity_map_ids[sub_cell_id]
''','''            if sub_cell_id in entity_map_ids:
                cell.sub_cells_ids[dim][i] = entity_map_ids[sub_cell_id]
''')),
 ed(ME,'update_nodes_ids',('''            position = node_map_ids.get(node_id, None)
            if position is not None:
                cell.node_tags[i] = node_map_ids[node_id]
''','''            cell.node_tags[i] = node_map_ids.get(node_id, node_id)
''')),
 ed(ME,EC,('''            for cell_p_id in cells_p:
                self.update_entity_with_dimension(1, cell_p_id, map_edge_p)

            for cell_n_id in cells_n:
                self.update_entity_with_dimension(1, cell_n_id, map_edge_n)
''','''            for side, edges in ((cells_p, map_edge_p), (cells_n, map_edge_n)):
                for neigh_id in side:
                    self.update_entity_with_dimension(1, neigh_id, edges)
''')),
 ed(ME,EC,('''            for cell_p_id in map_edge_p.values():
''','''            for cell_p_id in new_edges_p:
'''),('''            # collect new edges pair
''','''            new_edges_p = new_cell_ids_p
''')),
 ed(ME,EC,('''            self.points = np.vstack((self.points, new_nodes))
            self.points = np.vstack((self.points, new_nodes))
''','''            self.points = np.vstack((self.points, new_nodes, new_nodes))
''')),
 ed(ME,'gather_graph_edges',('''            e_mesh_cell_index = (self.cells[id].dimension, self.cells[id].id)
            tuple_id_list.append((b_mesh_cell_index, e_mesh_cell_index))
''','''            tuple_id_list.append((b_mesh_cell_index, self.cells[id].index()))
''')),
 ed(ME,'build_graph',('''        tuple_id_list = [[] for i in range(len(disjoint_cells))]
        for i, cell_i in enumerate(disjoint_cells):
            self.gather_graph_edges(dimension - co_dimension, cell_i, tuple_id_list[i])
        tuple_id_list = list(itertools.chain(*tuple_id_list))
''','''        tuple_id_list = []
        for cell_i in disjoint_cells:
            self.gather_graph_edges(dimension - co_dimension, cell_i, tuple_id_list)
''')),
 ed(MO,'__duplicate_cells',('''    new_cells = []
    for cell in cells:
''','''    new_cells = []
    for cell_id, cell in enumerate(cells, cell_id):
'''),('''        cell_id += 1
    return new_cells, cell_id''','''    return new_cells, cell_id + 1''')),
 ed(MO,'__duplicate_cells',("cell_clone.sub_cells_ids[dim] = np.array([cell_id])","cell_clone.set_sub_cells_ids(dim, np.array([cell_clone.id]))")),
 ed(MO,'duplicate_mesh_points_from_0d_cells',('''    node_tag = mesh.max_node_tag()
    for cell in cells_0d:
        cell.node_tags = np.array([node_tag])
        node_tag += 1
    mesh.append_points(new_points)
    assert node_tag == mesh.max_node_tag()
''','''    first = mesh.max_node_tag()
    mesh.append_points(new_points)
    for k, cell in enumerate(cells_0d):
        cell.node_tags = np.array([first + k])
''')),
 ed(MO,LI,("zip(c1_cells, positive_c1_cells),","list(zip(c1_cells, positive_c1_cells)),")),
 ed(MO,LI,("np.where(np.dot(c0_dirs, normal_dir) > 0, True, False)","np.dot(c0_dirs, normal_dir) > 0")),
 ed(MO,LI,('''    c0_cells_data = [list(g_d_0d.predecessors(cell.index())) for cell in c2_cells]
    c0_cells_idx = np.array(list(itertools.chain(*c0_cells_data)))
''','''    c0_cells_idx = [idx for cell in c2_cells for idx in g_d_0d.predecessors(cell.index())]
''')),
 ed(MO,UC,('''                out = cell.sub_cell_index(old_cell_idx[0], old_cell_idx[1])
''','''                out = cell.sub_cell_index(*old_cell_idx)
''')),
 ed(MO,UC,('''        for item in cell_idx_maps[d].items():
            old_cell_idx, new_cell_idx = item
''','''        for old_cell_idx, new_cell_idx in cell_idx_maps[d].items():
''')),
 ed(MO,UC,('''                if old_cell_idx[0] == 0 and new_cell_idx[0] == 0:''','''                if old_cell_idx[0] == 0:''')),
]
M=[
 ed1(ME,EC,"mesh_cell.id = cell_id","mesh_cell.id = cell_id + 0 * i if i == 0 else f_cells[i].id",0),
 ed1(ME,EC,"copy.deepcopy(f_cells[i])","copy.copy(f_cells[i])",1),
 ed1(ME,EC,"                mesh_cell.set_sub_cells_ids(mesh_cell.dimension, np.array([cell_id]))\n","",0),
 ed(ME,EC,('''            max_cell_id = len(self.cells)
            new_cell_ids = np.array(list(range(0, 2 * len(new_nodes)))) + max_cell_id
''','''            new_cell_ids = np.array(list(range(0, 2 * len(new_nodes)))) + max_cell_id
''')),
 ed(ME,EC,('''            self.points = np.vstack((self.points, new_nodes))
            self.points = np.vstack((self.points, new_nodes))
''','''            self.points = np.vstack((self.points, new_nodes))
''')),
 ed1(ME,EC,"map_node_n[old_node_tag] = new_node_tags_n[i]","map_node_n[old_node_tag] = new_node_tags_p[i]"),
 ed1(ME,EC,"self.update_entity_with_dimension(0, cell_n_id, map_vertex_n)","self.update_entity_with_dimension(0, cell_n_id, map_vertex_p)",1),
 ed1(ME,EC,"                self.update_nodes_ids(cell_n_id, map_node_n)\n","",1),
 ed(ME,EC,("                neighs_by_vertex = neighs_by_vertex + [node[1] for node in gd1c1.predecessors((0, vertex))]\n","")),
 ed(ME,EC,('''            neighs_by_vertex = [
                neigh_id for neigh_id in neighs_by_vertex if neigh_id not in f_cell_ids
            ]
''','')),
 ed(ME,EC,('''            gd2c2 = self.build_graph(2, 2)
''',''),('''        map_fracs_edge = {}
''','''        map_fracs_edge = {}
        gd2c2 = self.build_graph(2, 2)
''')),
 ed(ME,ES,('''            gd1c1 = self.build_graph(1, 1)
''',''),('''        map_fracs_edge = {}
''','''        map_fracs_edge = {}
        gd1c1 = self.build_graph(1, 1)
''')),
 ed(ME,ES,("map_edge_n[f_cells[i].id] = cell_id","map_edge_n[f_cells[i].id] = new_cell_ids_p[i]")),
 ed1(ME,ES,"map_vertex_p[vertices[i]] = cell_id","map_vertex_p[i] = cell_id"),
 ed(ME,ES,("for i, cell_id_pair in enumerate(zip(new_cell_ids_p, new_cell_ids_n))","for i, cell_id_pair in enumerate(zip(new_cell_ids_n, new_cell_ids_p))")),
 ed(ME,ES,("            for cell_n_id in map_edge_n.values():\n                self.update_entity_with_dimension(0, cell_n_id, map_vertex_n)\n","            for cell_n_id in map_edge_n.values():\n")),
 ed(ME,ES,("[self.points[self.cells[vertex].node_tags[0]] for vertex in vertices]","[self.points[vertex] for vertex in vertices]")),
 ed(ME,ES,("        map_fracs_edge = {}\n",""),("            f_cell_ids = [cell.id for cell in f_cells]\n","            f_cell_ids = [cell.id for cell in f_cells]\n            map_fracs_edge = {}\n")),
 ed(ME,'update_entity_with_dimension',("            if position is not None:\n    ","            if True:\n    "),("entity_map_ids[sub_cell_id]","entity_map_ids.get(sub_cell_id, 0)")),
 ed(ME,'update_nodes_ids',("cell.node_tags[i] = node_map_ids[node_id]","cell.node_tags[0] = node_map_ids[node_id]")),
 ed(ME,'gather_graph_edges',("(self.cells[id].dimension, self.cells[id].id)","(dimension, self.cells[id].node_tags[0])")),
 ed(ME,'build_graph_on_physical_tags',("cell_i.dimension == dimension and cell_i.material_id in physical_tags","cell_i.material_id in physical_tags")),
 ed(ME,'build_graph',("self.gather_graph_edges(dimension - co_dimension","self.gather_graph_edges(co_dimension")),
 ed(MO,'__duplicate_cells',("        cell_clone.sub_cells_ids[dim] = np.array([cell_id])\n","")),
 ed(MO,'__duplicate_cells',("cell_clone = cell.clone()","cell_clone = cell")),
 ed(MC,'clone',("copy.deepcopy(self)","copy.copy(self)")),
 ed(MO,'duplicate_mesh_points_from_0d_cells',("        node_tag += 1\n    mesh","    mesh")),
 ed(MO,'duplicate_mesh_points_from_0d_cells',("node_tags = np.concatenate([cell.node_tags for cell in cells_0d])","node_tags = np.array([cell.id for cell in cells_0d])")),
 ed(MO,LI,("    mesh.append_cells(np.array(positive_c2_cells))\n    assert cell_id == mesh.max_cell_id()\n","")),
 ed1(MO,LI,"positive_cell_pairs = [None, zip(c2_cells, positive_c2_cells)]","",1),
 ed1(MO,LI,"positive_cell_pairs = [None, zip(c2_cells, positive_c2_cells)]","positive_cell_pairs = [None, zip(c2_cells, negative_c2_cells)]",1),
 ed1(MO,LI,"update_cells_with_cell_pairs(negative_c1_cells, negative_cell_pairs, mesh)","update_cells_with_cell_pairs(negative_c1_cells, positive_cell_pairs, mesh)",0),
 ed1(MO,LI,"zip(c1_cells, negative_c1_cells)","zip(c1_cells, positive_c1_cells)",0),
 ed(MO,LI,(" if cell_idx[1] not in line_cell_ids","")),
 ed(MO,LI,('interface["c2"] = [c2_cells, positive_c2_cells, negative_c2_cells]','interface["c2"] = [c2_cells, negative_c2_cells, positive_c2_cells]')),
 ed(MO,UC,("cell.sub_cells_ids[new_cell_idx[0]][out] = new_cell_idx[1]","cell.sub_cells_ids[new_cell_idx[0]][0] = new_cell_idx[1]")),
 ed(MO,UC,("cell.node_tags[tag_pos] = new_cell.node_tags[0]","cell.node_tags[out] = new_cell.node_tags[0]")),
 ed(MO,UC,("cell.node_tags[tag_pos] = new_cell.node_tags[0]","cell.node_tags[tag_pos] = new_cell.id")),
 ed(MO,UC,("    for d in range(0, max_dim):\n        co_dim","    for d in range(1, max_dim):\n        co_dim")),
 ed(MO,UC,("cell_pairs[co_dim]","cell_pairs[d + 1]")),
 ed(ME,'append_cells',("np.append(self.cells","np.append(self.cells[:-1]")),
]
main(Q,M,P,sys.argv[1] if len(sys.argv)>1 else '')
