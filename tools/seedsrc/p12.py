import sys; sys.path.insert(0,'/tmp/sd')
from mk import mk
mk("laplace-dual-weights-in-place","P12",[("weak_forms/laplace_dual_weak_form.py","        phi_s_star = det_jac * weights * p_phi_tab[0, :, :, 0].T\n","        scale = weights\n        scale *= det_jac\n        phi_s_star = scale * p_phi_tab[0, :, :, 0].T\n")],
"""
from lib import *
from weak_forms.laplace_dual_weak_form import LaplaceDualWeakForm
m = mesh(2, 0.5)
sp = space(m, {"u": (1, "RT", 1), "p": (1, "Lagrange", 0)}, bc=bc_tags(m), disc=("p",))
w = LaplaceDualWeakForm(sp)
one = lambda x, y, z: 1.0 + 0 * x
w.functions = {"rhs": lambda x, y, z: np.array([1.0 + x]), "kappa": one}
before = [q.copy() for q in sp.quadrature[2]]
alpha = np.zeros(len(sp.destination_indexes(0)))
r1, j1 = w.evaluate_form(0, alpha)
r2, j2 = w.evaluate_form(0, alpha)
assert np.allclose(r1, r2) and np.allclose(j1, j2), "the second evaluation of the same element differs"
for q, p in zip(before, sp.quadrature[2]):
    assert np.array_equal(q, p), "evaluation changed the quadrature of the space"
""","a second evaluation with the same space (the first one is right)","evaluating the form rescales the quadrature weights shared by the whole product space")
mk("shape-sorts-given-array","P12",[("topology/shape.py","        perm = np.argsort([shape.tag for shape in shapes])\n        shapes = shapes[perm]\n","        shapes[:] = sorted(shapes, key=lambda shape: shape.tag)\n")],
"""
from lib import *
from topology.vertex import Vertex
from topology.edge import Edge
v = [Vertex(i, np.array([float(i), 0.0, 0.0])) for i in range(3)]
ends = np.array([v[2], v[0]])
e = Edge(7, ends)
assert [x.tag for x in e.boundary_shapes] == [0, 2]
assert [x.tag for x in ends] == [2, 0], "building an edge reordered the array of the caller"
a = Edge(8, ends[::-1])
assert [x.tag for x in ends] == [2, 0], "building an edge reordered the array of the caller"
""","boundary shapes handed over out of tag order","building a shape sorts the array of the caller in place")
