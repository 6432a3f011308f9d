import sys; sys.path.insert(0,'/verif/tools')
from mk import mk
P="geometry/operations/point_geometry_operations.py"; L="geometry/operations/line_geometry_operations.py"
T="geometry/operations/triangle_triangle_intersection_test.py"; C="mesh/mesh_cell.py"; S="mesh/mesh_metrics.py"
HEAD='''
import numpy as np
'''
mk("touching-from-the-second","P26",[(L,"    s_r = s < 1.0 or np.isclose(s, 1.0, rtol=eps, atol=eps)\n","    s_r = s < 1.0\n")],HEAD+'''
from geometry.operations.line_geometry_operations import line_line_intersection as f

rng = np.random.default_rng(3)
for _ in range(200):
    a, b, c = rng.uniform(-1.0, 1.0, (3, 3))
    t = rng.uniform(0.1, 0.9)
    d = a + t * (b - a)  # the second line ends on the first
    out = f(a, b, c, d)
    assert out is not None and np.allclose(out[0], d), "a line that ends on the other is missed"
    out = f(a, b, d, c)
    assert out is not None and np.allclose(out[0], d), "a line that starts on the other is missed"
''',"a second line whose last end lies inside the first line, up to rounding","such a pair of lines counts as not intersecting",lib=False)
mk("volume-at-second-end","P26",[(L,"    measurement_q = np.linalg.det(q_t_equ) / 6.0\n","    measurement_q = np.linalg.det(q_t_equ) / 3.0\n")],HEAD+'''
from geometry.operations.line_geometry_operations import coplanar_measurements
from geometry.operations.point_geometry_operations import coplanar_measurement

rng = np.random.default_rng(5)
a, b, c, p, q = rng.uniform(-1.0, 1.0, (5, 3))
vp, vq = coplanar_measurements(np.array([p, q]), a, b, c)
for v, x in ((vp, p), (vq, q)):
    want = abs(np.linalg.det(np.array([b - a, c - a, x - a]))) / 6.0
    assert np.isclose(abs(v), want), "volume"
    assert np.isclose(abs(coplanar_measurement(x, a, b, c)), want)
''',"the volume at the second end of a line, whose size matters only next to the tolerance","the volume at the second end is twice that of the tetrahedron",lib=False)
mk("diameter-consecutive","P26",[(S,"        if i != j\n","        if i + 1 == j\n")],HEAD+'''
from types import SimpleNamespace as N
from mesh.mesh_metrics import cell_diam

m = N(points=np.array([[0.0, 0, 0], [1, 0, 0], [1, 1, 0], [1, 1, 1]]))
assert np.isclose(cell_diam(N(node_tags=np.array([0, 1, 2])), m), np.sqrt(2.0)), "diameter of a triangle"
assert np.isclose(cell_diam(N(node_tags=np.array([0, 1, 2, 3])), m), np.sqrt(3.0)), "diameter of a tetrahedron"
assert np.isclose(cell_diam(N(node_tags=np.array([1, 0, 2])), m), np.sqrt(2.0))
''',"a cell whose longest edge joins vertices that are not listed one after the other","the diameter, and so the mesh size of convergence studies, is too small",lib=False)
mk("rotation-about-the-first-axis","P26",[(C,"            [0, np.cos(theta), -np.sin(theta)],\n            [0, np.sin(theta), np.cos(theta)],\n","            [0, np.cos(theta), np.sin(theta)],\n            [0, -np.sin(theta), np.cos(theta)],\n")],HEAD+'''
from mesh.mesh_cell import rotate_vector

e = np.eye(3)
for k in range(3):
    i, j = (k + 1) % 3, (k + 2) % 3
    assert np.allclose(rotate_vector(e[i], np.pi / 2, axis=k), e[j]), "a quarter turn about axis %d" % k
    assert np.allclose(rotate_vector(e[k], 0.3, axis=k), e[k])
''',"a rotation about the first axis","the rotation goes the other way than about the other axes",lib=False)
