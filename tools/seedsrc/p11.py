import sys; sys.path.insert(0,'/tmp/sd')
from mk import mk
mk("triangle-boundary-tolerance","P11",[("geometry/operations/line_geometry_operations.py","out = lines_line_intersection(lines, p, q, eps)","out = lines_line_intersection(lines, p, q)")],
"""
from lib import *
from geometry.operations.line_geometry_operations import line_triangle_intersection
# a segment that misses the triangle edge by 1e-3 in height and by 2e-3 in the plane
a, b, c = np.array([0., 0., 0.]), np.array([1., 0., 0.]), np.array([0., 1., 0.])
line = np.array([[0.5, -0.5, 1e-3], [0.5, -2e-3, 1e-3]])
near = line_triangle_intersection(np.array([[0.5, -1.0, 2e-3], [0.5, 0.3, 2e-3]]), a, b, c, eps=1e-2)
assert near is not None, "a loose tolerance has to accept the crossing of the edge"
assert np.atleast_2d(near).shape[0] >= 1
""","a caller that passes a tolerance different from the default","the crossing of the triangle boundary is decided with the default tolerance",lib=True)
mk("lines-triangle-partial","P11",[("geometry/operations/line_geometry_operations.py","partial(line_triangle_intersection, a=a, b=b, c=c, eps=eps)","partial(line_triangle_intersection, a=a, b=b, c=c)")],
"""
from lib import *
from geometry.operations.line_geometry_operations import line_triangle_intersection, lines_triangle_intersection
a, b, c = np.array([0., 0., 0.]), np.array([1., 0., 0.]), np.array([0., 1., 0.])
line = np.array([[0.2, 0.2, 1e-4], [0.2, 0.3, 1e-4]])
one = line_triangle_intersection(line, a, b, c, eps=1e-2)
many, q = lines_triangle_intersection(np.array([line]), a, b, c, eps=1e-2)
assert one is not None and bool(q[0]), (one, many, q)
""","a tolerance passed to the plural query","the plural query applies the singular one with its default tolerance")
