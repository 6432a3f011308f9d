import sys; sys.path.insert(0,'/tmp/sd')
from mk import mk
SQ='''
import meshio


def square(n, lines):
    """n x n nodes, triangles; lines: tag -> nodes along the line, whose two ends are tagged as well"""
    points = np.array([[i / (n - 1), j / (n - 1), 0.0] for j in range(n) for i in range(n)])
    node = lambda i, j: j * n + i
    triangles = []
    for j in range(n - 1):
        for i in range(n - 1):
            triangles += [[node(i, j), node(i + 1, j), node(i + 1, j + 1)], [node(i, j), node(i, j + 1), node(i + 1, j + 1)]]
    vertices, vtags, edges, etags = [], [], [], []
    for tag, nodes in lines.items():
        ids = [node(*x) for x in nodes]
        vertices += [[ids[0]], [ids[-1]]]
        vtags += [tag, tag]
        edges += [[a, b] for a, b in zip(ids, ids[1:])]
        etags += [tag] * (len(ids) - 1)
    cells = [("vertex", np.array(vertices)), ("line", np.array(edges)), ("triangle", np.array(triangles))]
    physical = [np.array(vtags), np.array(etags), np.array([1] * len(triangles))]
    meshio.read = lambda name: meshio.Mesh(points, cells, cell_data={"gmsh:physical": physical})
    m = Mesh(2, "square.msh")
    m.build_conformal_mesh()
    return m


def consistent(m, skins=False):
    for i, cell in enumerate(m.cells):
        assert cell.id == i, "cell %s is stored at position %d" % (cell.id, i)
        assert list(cell.sub_cells_ids[cell.dimension])[:1 if skins else None] == [i], "cell %d lists %s as itself" % (i, cell.sub_cells_ids[cell.dimension])
        tags = sorted(m.cells[v].node_tags[0] for v in cell.sub_cells_ids[0])
        assert sorted(cell.node_tags) == tags, "cell %d has nodes %s and vertices at nodes %s" % (i, cell.node_tags, tags)
        for d in range(cell.dimension):
            for k in cell.sub_cells_ids[d]:
                assert m.cells[k].dimension == d, "cell %d of dimension %d in list %d" % (k, m.cells[k].dimension, d)
                assert set(m.cells[k].sub_cells_ids[0]) <= set(cell.sub_cells_ids[0]), "cell %d has sub-cell %d with other vertices" % (i, k)
'''
EC='''
from lib import *
'''+SQ+'''
mid = 2
m = square(5, {5: [(i, mid) for i in range(1, 4)], 6: [(mid, j) for j in range(1, 4)]})
m.compute_fracture_normals = lambda: None
m.fracture_normals = {5: (np.array([0.0, 1.0, 0.0]), np.array([0.5, 0.5, 0.0])), 6: (np.array([1.0, 0.0, 0.0]), np.array([0.5, 0.5, 0.0]))}
with contextlib.redirect_stdout(io.StringIO()):
    m.cut_conformity_on_fractures_mds_ec()
assert len(m.points) > 25, "nothing was cut"
consistent(m)
'''
ES=EC.replace('compute_fracture_normals','compute_normals_on_embed_shapes').replace('fracture_normals','embed_shape_normals').replace('cut_conformity_on_fractures_mds_ec','cut_conformity_on_embed_shapes').replace('consistent(m)','consistent(m, True)')
LC='''
from lib import *
'''+SQ+'''
from mesh.mesh_operations import cut_conformity_along_c1_lines

m = square(7, {5: [(i, 3) for i in range(1, 6)]})
for cell in m.cells:
    if cell.dimension == 0 and cell.material_id == 5:
        cell.material_id = 6
line = np.array([[1 / 6, 0.5, 0.0], [5 / 6, 0.5, 0.0]])
originals = {c.id: [np.array(x).copy() for x in c.sub_cells_ids[:2]] for c in m.cells if c.material_id == 5}
with contextlib.redirect_stdout(io.StringIO()):
    interface, = cut_conformity_along_c1_lines([line], {"line": 5, "internal_bc": 6, "point": 7, "line_clones": 50, "point_clones": 70}, m)
assert len(m.points) > 49, "nothing was cut"
'''
mk("crossing-embedded-edges-left-out","P15",[("mesh/mesh.py",'''            neighs_by_vertex = [
                neigh_id for neigh_id in neighs_by_vertex if neigh_id not in f_cell_ids
            ]
            neighs = np.unique(neighs_by_vertex)
            cells_n = []
            cells_p = []
            for neigh_id in neighs:
                neigh = self.cells[neigh_id]
                cell_xc = barycenter(self.points[neigh.node_tags])
                positive_q = np.dot(cell_xc - f_xc, n) > 0.0
                if positive_q:
                    cells_p.append(neigh_id)
                else:
                    cells_n.append(neigh_id)
            max_node_id = len(self.points)
            new_nodes = np.array(
                [self.points[self.cells[vertex].node_tags[0]] for vertex in vertices]
            )
            self.points = np.vstack((self.points, new_nodes))
            self.points = np.vstack((self.points, new_nodes))
            new_node_tags = np.array(list(range(0, 2 * len(new_nodes)))) + max_node_id

            max_cell_id = len(self.cells)
            new_cell_ids = np.array(list(range(0, 2 * len(new_nodes)))) + max_cell_id
            [new_cell_ids_p, new_cell_ids_n] = np.split(new_cell_ids, 2)
            [new_node_tags_p, new_node_tags_n] = np.split(new_node_tags, 2)

            map_vertex_p = {}
            map_node_p = {}
            for i, cell_id in enumerate(new_cell_ids_p):
                mat_id_p = None
                if self.cells[vertices[i]].material_id is not None:
                    mat_id_p = p_tag_scale''','''            neighs_by_vertex = [
                neigh_id
                for neigh_id in neighs_by_vertex
                if self.cells[neigh_id].material_id not in self.embed_shape_normals
            ]
            neighs = np.unique(neighs_by_vertex)
            cells_n = []
            cells_p = []
            for neigh_id in neighs:
                neigh = self.cells[neigh_id]
                cell_xc = barycenter(self.points[neigh.node_tags])
                positive_q = np.dot(cell_xc - f_xc, n) > 0.0
                if positive_q:
                    cells_p.append(neigh_id)
                else:
                    cells_n.append(neigh_id)
            max_node_id = len(self.points)
            new_nodes = np.array(
                [self.points[self.cells[vertex].node_tags[0]] for vertex in vertices]
            )
            self.points = np.vstack((self.points, new_nodes))
            self.points = np.vstack((self.points, new_nodes))
            new_node_tags = np.array(list(range(0, 2 * len(new_nodes)))) + max_node_id

            max_cell_id = len(self.cells)
            new_cell_ids = np.array(list(range(0, 2 * len(new_nodes)))) + max_cell_id
            [new_cell_ids_p, new_cell_ids_n] = np.split(new_cell_ids, 2)
            [new_node_tags_p, new_node_tags_n] = np.split(new_node_tags, 2)

            map_vertex_p = {}
            map_node_p = {}
            for i, cell_id in enumerate(new_cell_ids_p):
                mat_id_p = None
                if self.cells[vertices[i]].material_id is not None:
                    mat_id_p = p_tag_scale''')],ES,
"two fractures that cross, cut one after the other",
"the edges of the fracture that is cut second stay at the vertex of the crossing, which is no longer that of the cells beside them")
mk("embedded-cut-stale-graph","P15",[("mesh/mesh.py",'''        for data in self.embed_shape_normals.items():
            gd2c2 = self.build_graph(2, 2)
            gd2c1 = self.build_graph(2, 1)
            gd1c1 = self.build_graph(1, 1)
''','''        gd1c1 = self.build_graph(1, 1)
        for data in self.embed_shape_normals.items():
            gd2c2 = self.build_graph(2, 2)
            gd2c1 = self.build_graph(2, 1)
''')],ES,
"two embedded lines that cross, cut one after the other",
"the duplicates that the first cut added are not found by the second, so they keep vertices that the cells beside them no longer have")
mk("line-cut-exhausted-pairs","P15",[("mesh/mesh_operations.py",'''    update_cells_with_cell_pairs(positive_c1_cells, positive_cell_pairs, mesh)
    update_cells_with_cell_pairs(negative_c1_cells, negative_cell_pairs, mesh)

    interface = {}''','''    update_cells_with_cell_pairs(positive_c1_cells, positive_cell_pairs, mesh)
    positive_cell_pairs = [None, zip(c2_cells, positive_c2_cells)]
    update_cells_with_cell_pairs(negative_c1_cells, positive_cell_pairs, mesh)

    interface = {}''')],LC+'''
for org, pos, neg in zip(*interface["c1"]):
    assert not set(pos.sub_cells_ids[0]) & (set(neg.sub_cells_ids[0]) - set(org.sub_cells_ids[0])), "both sides share the vertices of one side"
''',"a cut along a line that duplicates vertices",
"the duplicates of the edges on the negative side are connected to the vertices of the positive side")
mk("clone-shares-identifier-lists","P15",[("mesh/mesh_cell.py",'''        cell_clone = copy.deepcopy(self)''','''        cell_clone = copy.copy(self)
        cell_clone.node_tags = self.node_tags.copy()
        cell_clone.sub_cells_ids = list(self.sub_cells_ids)''')],LC+'''
for k, (vertices, own) in originals.items():
    assert np.array_equal(m.cells[k].sub_cells_ids[0], vertices), "the edge %d on the line was changed: %s" % (k, m.cells[k].sub_cells_ids[0])
''',"a cut along a line whose edges share an inner vertex",
"the original edges on the line, and both duplicates, refer to the vertices of the side that was updated last")
mk("embedded-cut-own-node-only","P15",[("mesh/mesh.py",'''            if position is not None:
                cell.node_tags[i] = node_map_ids[node_id]''','''            if position is not None:
                cell.node_tags[i] = node_map_ids[node_id]
                break''')],EC.replace('m = square(5, {5: [(i, mid) for i in range(1, 4)], 6: [(mid, j) for j in range(1, 4)]})','m = square(7, {5: [(i, 3) for i in range(1, 6)]})').replace(', 6: (np.array([1.0, 0.0, 0.0]), np.array([0.5, 0.5, 0.0]))','').replace("> 25","> 49"),
"a fracture with at least two inner vertices, so that a cell has an edge between two duplicated nodes",
"only one of the nodes of such a cell is replaced, although both vertices are")
mk("line-cut-pairs-of-one-dimension","P15",[("mesh/mesh_operations.py",'''(o_cell.index(), t_cell.index()) for o_cell, t_cell in cell_pairs[co_dim]
        ]
        cell_idx_maps.append(dict(pairs))

    # update sub_cells
    for d in range(0, max_dim):
''','''(o_cell.index(), t_cell.index()) for o_cell, t_cell in cell_pairs[co_dim]
        ]
        cell_idx_maps.append(dict(pairs))

    # update sub_cells
    for d in range(min_dim - 1, max_dim):
''')],LC+'''
consistent(m)
''',"a cut along a line that duplicates vertices of cells of dimension two",
"the triangles beside the cut keep the vertices of the line, only their edges are replaced")
