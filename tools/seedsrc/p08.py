import sys; sys.path.insert(0,'/tmp/sd')
from mk import mk
mk("face-points-inverse-order","P08",[("basis/parametric_transformation.py",
"""        index_map = dict(zip(tetrahedron_face_subentities, tetrahedron_facet))
        tetrahedron_facet = [index_map[k] for k in triangle_facet]
""","""        index_map = dict(zip(triangle_facet, tetrahedron_facet))
        tetrahedron_facet = [index_map[k] for k in tetrahedron_face_subentities]
""")],'''
from lib import *
from itertools import permutations
from types import SimpleNamespace
from basis.parametric_transformation import transform_lower_to_higher

# a tetrahedron and every order in which the mesh file may list the vertices of its faces
corners = np.array([[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]])
faces = [[1, 2, 3], [0, 2, 3], [0, 1, 3], [0, 1, 2]]
solid = SimpleNamespace(dimension=3, id=20, node_tags=np.array([0, 1, 2, 3]),
                        sub_cells_ids=[np.arange(4), np.arange(4, 10), np.arange(10, 14), np.array([20])])
xi = np.array([[0.2, 0.3], [0.1, 0.7], [0.5, 0.05]])
for k, face in enumerate(faces):
    for order in permutations(face):
        cell = SimpleNamespace(dimension=2, id=10 + k, node_tags=np.array(order))
        got = transform_lower_to_higher(xi, SimpleNamespace(cell=cell), SimpleNamespace(cell=solid))
        a, b, c = corners[list(order)]
        expected = np.array([a * (1 - s - t) + b * s + c * t for s, t in xi])
        assert np.allclose(got, expected), "face %s: %s instead of %s" % (order, got, expected)
''',"a boundary triangle whose vertices are a cyclic permutation of those of the face of the tetrahedron behind it",
"the points of the triangle are placed at the wrong vertices of the tetrahedron, so traces belong to other points")
mk("edge-ends-sorted","P08",[("mesh/mesh.py",
"            for node_tag in node_tags:\n                vertex_id = self.insert_vertex(node_tag)\n",
"            for node_tag in np.sort(node_tags):\n                vertex_id = self.insert_vertex(node_tag)\n")],'''
from lib import *

import meshio
from mesh.mesh import Mesh

# one triangle whose boundary lines run in both directions
points = np.array([[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]])
cells = [("line", np.array([[0, 1], [2, 1], [2, 0]])), ("triangle", np.array([[0, 1, 2]]))]
physical = [np.array([2, 3, 4]), np.array([1])]
meshio.read = lambda name: meshio.Mesh(points, cells, cell_data={"gmsh:physical": physical})
m = Mesh(2, "lines.msh")
m.build_conformal_mesh()
for cell in m.cells:
    if cell.dimension != 1:
        continue
    for tag, vertex in zip(cell.node_tags, cell.sub_cells_ids[0]):
        assert m.cells[vertex].node_tags[0] == tag, "edge %s lists its ends as %s" % (cell.node_tags, cell.sub_cells_ids[0])
''',"a line of the mesh file that runs from the larger to the smaller node number",
"the ends of the edge are listed in another order than its node tags, so traces at one end are taken at the other")
