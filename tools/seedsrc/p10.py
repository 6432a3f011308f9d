import sys; sys.path.insert(0,'/verif/tools')
from mk import mk
# the second neighbour of an interface is never used
mk("trace-first-neighbour","P10",[("basis/basis_trace.py","    c0_cell_id = neigh_list[neigh_idx][1]\n","    c0_cell_id = neigh_list[0][1]\n")],'''
from lib import *
from basis.basis_trace import trace_discrete_space
from basis.finite_element import FiniteElement
from basis.element_family import family_by_name
from mesh.topological_queries import find_higher_dimension_neighs

m = mesh(2, 0.5)
v = space(m, {"p": (1, "Lagrange", 1)}, disc=("p",)).discrete_spaces["p"]
topology = v.dof_map.mesh_topology
line = next(c for c in m.cells if c.dimension == 1 and len(find_higher_dimension_neighs(c, topology)) == 2)
element = FiniteElement(line.id, family_by_name("Lagrange"), 1, m)
points = np.array([[0.25], [0.5]])
for k, (_, neigh) in enumerate(find_higher_dimension_neighs(line, topology)):
    phi = trace_discrete_space(v, points, element.data, True, neigh_idx=k)
    own = v.elements[v.id_to_element[neigh]]
    apex = [i for i, t in enumerate(own.data.cell.node_tags) if t not in line.node_tags]
    assert np.allclose(phi[0, :, apex, 0], 0.0), "trace of the shape functions of another cell"
''',"an interface with two neighbours and the second of them asked for","the trace from the second side of an interface is that of the first side")
mk("mapping-always-stored","P10",[("basis/finite_element.py","        if storage:\n            self.data.mapping.phi = phi_shape\n","        if storage or len(self.data.mapping.x) > 0:\n            self.data.mapping.phi = phi_shape\n")],'''
from lib import *

m = mesh(2, 0.5)
s = space(m, {"p": (1, "Lagrange", 1)})
points, weights = s.quadrature[2]
element = s.discrete_spaces["p"].elements[0]
element._fill_element_quadratue((points, weights))
element.storage_basis()
before = [v.copy() for v in (element.data.mapping.x, element.data.mapping.det_jac)]
x, _, _, _ = element.evaluate_mapping(np.array([[0.25, 0.25]]))
for a, b in zip(before, (element.data.mapping.x, element.data.mapping.det_jac)):
    assert a.shape == b.shape and np.allclose(a, b), "the mapping stored for the rule belongs to other points"
''',"an element with stored mapping that is evaluated at another point afterwards (a post-processor between two uses of the stored data)",
"the stored mapping no longer belongs to the points of the rule")
mk("shape-functions-reused-by-count","P10",[("basis/finite_element.py","        # tabulate\n        phi_tab = self.basis_generator.tabulate(1, points)\n","        # tabulate\n        stored = self.data.basis.phi\n        if stored.ndim == 4 and stored.shape[1] == len(points):\n            return stored\n        phi_tab = self.basis_generator.tabulate(1, points)\n")],'''
from lib import *

m = mesh(2, 0.5)
s = space(m, {"p": (1, "Lagrange", 1)})
points, weights = s.quadrature[2]
element = s.discrete_spaces["p"].elements[0]
element._fill_element_quadratue((points, weights))
element.storage_basis()
other = points[:, ::-1] * 0.5
x, jac, det_jac, inv_jac = element.evaluate_mapping(other)
phi = element.evaluate_basis(other, jac, det_jac, inv_jac)
corners = m.points[element.data.cell.node_tags]
assert np.allclose(phi[0, :, :, 0] @ corners, x), "shape functions of other points"
''',"an element with stored shape functions that is evaluated at as many other points as its rule has","the shape functions returned are those at the points of the rule")
