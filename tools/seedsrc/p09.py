import sys; sys.path.insert(0,'/tmp/sd')
from mk import mk
REN='''
def renumber(m, seed=3):
    """the same mesh with other cell identifiers (vertices are no longer numbered like nodes)"""
    new = np.random.default_rng(seed).permutation(len(m.cells))
    cells = np.empty(len(m.cells), dtype=m.cells.dtype)
    for cell in m.cells:
        cell.id = int(new[cell.id])
        for d in range(cell.dimension + 1):
            cell.set_sub_cells_ids(d, new[cell.sub_cells_ids[d]])
        cells[cell.id] = cell
    m.cells = cells
    for table in (m.entities_0d, m.entities_1d, m.entities_2d, m.entities_3d):
        for key in table:
            table[key] = int(new[table[key]])
    return m
'''
mk("mapping-by-vertex-ids","P09",[("basis/finite_element.py",'''        phi_shape = evaluate_linear_shapes(points, self.data)
        cell_points = self.data.mesh.points[self.data.cell.node_tags]
''','''        phi_shape = evaluate_linear_shapes(points, self.data)
        cell_points = self.data.mesh.points[self.data.cell.sub_cells_ids[0]]
''')],'''
from lib import *
'''+REN+'''
m = renumber(mesh(2, 0.5))
s = space(m, {"p": (1, "Lagrange", 1)})
area = 0.0
points, weights = s.quadrature[2]
for element in s.discrete_spaces["p"].elements:
    x, jac, det_jac, inv_jac = element.evaluate_mapping(points)
    area += np.sum(det_jac * weights)
    corners = m.points[element.data.cell.node_tags]
    assert np.all(x >= corners.min(axis=0) - 1e-12) and np.all(x <= corners.max(axis=0) + 1e-12), "points of another cell"
assert np.isclose(area, 1.0), area
''',"a mesh whose vertices are not numbered like its nodes, as after a cut along a fracture",
"the geometry of an element is that of other nodes, so every integral over it is wrong")
mk("edge-orientation-by-vertex-ids","P09",[("basis/permute_and_transform.py",'''        edge_node_tags = data.mesh.cells[data.cell.sub_cells_ids[1][i]].node_tags
''','''        edge_node_tags = data.mesh.cells[data.cell.sub_cells_ids[1][i]].sub_cells_ids[0]
''')],'''
from lib import *
'''+REN+'''
from basis.permute_and_transform import _validate_edge_orientation_3d

first = mesh(3, 1.0)
before = {}
for element in space(first, {"u": (1, "N1E", 2)}).discrete_spaces["u"].elements:
    cell = element.data.cell
    before[tuple(cell.node_tags)] = _validate_edge_orientation_3d(element.data)
for element in space(renumber(first), {"u": (1, "N1E", 2)}).discrete_spaces["u"].elements:
    cell = element.data.cell
    after = _validate_edge_orientation_3d(element.data)
    assert after == before[tuple(cell.node_tags)], "the orientation of the edges depends on how vertices are numbered"
''',"a tetrahedral mesh whose vertices are not numbered like its nodes and elements with two unknowns on an edge",
"edges count as reversed although they are not, so tangential fields are discontinuous")
mk("line-cut-by-vertex-id","P09",[("mesh/mesh_operations.py",'''                    tag_pos = cell.node_tag_index(old_cell.node_tags)
                    assert tag_pos is not None
''','''                    tag_pos = cell.node_tag_index(old_cell.id)
                    if tag_pos is None:
                        continue
''')],'''
from lib import *
'''+REN+'''
import meshio
from mesh.mesh_operations import cut_conformity_along_c1_lines

# a square of 4 x 4 squares, each cut into two triangles; the line y = 0.5 is tagged, its ends are inside
n = 5
points = np.array([[i / (n - 1), j / (n - 1), 0.0] for j in range(n) for i in range(n)])
node = lambda i, j: j * n + i
triangles = []
for j in range(n - 1):
    for i in range(n - 1):
        triangles += [[node(i, j), node(i + 1, j), node(i + 1, j + 1)], [node(i, j), node(i, j + 1), node(i + 1, j + 1)]]
middle = [[node(i, 2), node(i + 1, 2)] for i in range(1, 3)]
ends = [[node(1, 2)], [node(3, 2)]]
cells = [("vertex", np.array(ends)), ("line", np.array(middle)), ("triangle", np.array(triangles))]
physical = [np.array([6, 6]), np.array([5, 5]), np.array([1] * len(triangles))]
meshio.read = lambda name: meshio.Mesh(points, cells, cell_data={"gmsh:physical": physical})
m = Mesh(2, "square.msh")
m.build_conformal_mesh()
renumber(m)
line = np.array([[0.25, 0.5, 0.0], [0.75, 0.5, 0.0]])
with contextlib.redirect_stdout(io.StringIO()):
    cut_conformity_along_c1_lines([line], {"line": 5, "internal_bc": 6, "point": 7, "line_clones": 50, "point_clones": 70}, m)
assert len(m.points) > n * n, "nothing was cut"
for cell in m.cells:
    tags = [m.cells[v].node_tags[0] for v in cell.sub_cells_ids[0]]
    assert list(cell.node_tags) == tags, "cell %s has nodes %s and vertices at nodes %s" % (cell.id, cell.node_tags, tags)
''',"a cut along a line in a mesh whose vertices are not numbered like its nodes, as after an earlier cut",
"the cells beside the cut keep the old nodes although they have the new vertices")
mk("embedded-cut-points-by-vertex","P09",[("mesh/mesh.py",'''            [self.points[self.cells[vertex].node_tags[0]] for vertex in vertices]
            )
            self.points = np.vstack((self.points, new_nodes))
            self.points = np.vstack((self.points, new_nodes))
            new_node_tags = np.array(list(range(0, 2 * len(new_nodes)))) + max_node_id

            max_cell_id = len(self.cells)
            new_cell_ids = np.array(list(range(0, 2 * len(new_nodes)))) + max_cell_id
            [new_cell_ids_p, new_cell_ids_n] = np.split(new_cell_ids, 2)
            [new_node_tags_p, new_node_tags_n] = np.split(new_node_tags, 2)

            map_vertex_p = {}
            map_node_p = {}
            for i, cell_id in enumerate(new_cell_ids_p):
                mat_id_p = None
                if self.cells[vertices[i]].material_id is not None:
                    mat_id_p = p_tag_scale * mat_id + 1
''','''            [self.points[vertex] for vertex in vertices]
            )
            self.points = np.vstack((self.points, new_nodes))
            self.points = np.vstack((self.points, new_nodes))
            new_node_tags = np.array(list(range(0, 2 * len(new_nodes)))) + max_node_id

            max_cell_id = len(self.cells)
            new_cell_ids = np.array(list(range(0, 2 * len(new_nodes)))) + max_cell_id
            [new_cell_ids_p, new_cell_ids_n] = np.split(new_cell_ids, 2)
            [new_node_tags_p, new_node_tags_n] = np.split(new_node_tags, 2)

            map_vertex_p = {}
            map_node_p = {}
            for i, cell_id in enumerate(new_cell_ids_p):
                mat_id_p = None
                if self.cells[vertices[i]].material_id is not None:
                    mat_id_p = p_tag_scale * mat_id + 1
''')],'''
from lib import *
'''+REN+'''
import meshio

n = 5
points = np.array([[i / (n - 1), j / (n - 1), 0.0] for j in range(n) for i in range(n)])
node = lambda i, j: j * n + i
triangles = []
for j in range(n - 1):
    for i in range(n - 1):
        triangles += [[node(i, j), node(i + 1, j), node(i + 1, j + 1)], [node(i, j), node(i, j + 1), node(i + 1, j + 1)]]
middle = [[node(i, 2), node(i + 1, 2)] for i in range(1, 3)]
cells = [("vertex", np.array([[node(1, 2)], [node(3, 2)]])), ("line", np.array(middle)), ("triangle", np.array(triangles))]
physical = [np.array([5, 5]), np.array([5, 5]), np.array([1] * len(triangles))]
meshio.read = lambda name: meshio.Mesh(points, cells, cell_data={"gmsh:physical": physical})
m = Mesh(2, "square.msh")
m.build_conformal_mesh()
renumber(m)
m.compute_normals_on_embed_shapes = lambda: None
m.embed_shape_normals = {5: (np.array([0.0, 1.0, 0.0]), np.array([0.5, 0.5, 0.0]))}
with contextlib.redirect_stdout(io.StringIO()):
    m.cut_conformity_on_embed_shapes()
assert len(m.points) == n * n + 2, "one inner vertex is duplicated on both sides"
assert np.allclose(m.points[n * n:], [0.5, 0.5, 0.0]), "duplicates placed at %s" % m.points[n * n:]
''',"a cut along an embedded line in a mesh whose vertices are not numbered like its nodes, as after an earlier cut",
"the duplicated vertices are placed at the points of other nodes")
