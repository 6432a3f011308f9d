import sys; sys.path.insert(0,'/tmp/sd')
from mk import mk
L='geometry/operations/line_geometry_operations.py'
mk("coplanar-miss-empty","P13",[(L,"""    if np.isclose(denom, 0.0, rtol=eps, atol=eps):
        return None
""","""    if np.isclose(denom, 0.0, rtol=eps, atol=eps):
        return np.empty((0, 3), dtype=float)
""")],"""
import numpy as np
from geometry.operations.line_geometry_operations import line_triangle_intersection, lines_triangle_intersection
a, b, c = np.array([0., 0, 0]), np.array([1., 0, 0]), np.array([0., 1, 0])
far = np.array([[3., 3., 0.], [4., 3., 0.]])       # in the plane of the triangle, away from it
assert line_triangle_intersection(far, a, b, c) is None, "a miss is not reported as None"
hits, flags = lines_triangle_intersection(np.array([far]), a, b, c)
assert len(hits) == 0 and not flags.any(), "a batch query reports a miss as a hit"
""","a segment in the plane of the triangle that does not meet it","the miss is an empty array, so the batch and polygon queries count it as a hit",lib=False)
mk("double-crossing-unflagged","P13",[(L,"""    lines_triangle_int = partial(line_triangle_intersection, a=a, b=b, c=c, eps=eps)
    result = list(map(lines_triangle_int, lines))

    def data_type(data):
        if isinstance(data, np.ndarray):
            return True
""","""    lines_triangle_int = partial(line_triangle_intersection, a=a, b=b, c=c, eps=eps)
    result = list(map(lines_triangle_int, lines))

    def data_type(data):
        if isinstance(data, np.ndarray) and data.ndim == 2:
            return True
""")],"""
import numpy as np
from geometry.operations.line_geometry_operations import lines_triangle_intersection
a, b, c = np.array([0., 0, 0]), np.array([1., 0, 0]), np.array([0., 1, 0])
through = np.array([[-1., 0.25, 0.], [2., 0.25, 0.]])
hits, flags = lines_triangle_intersection(np.array([through]), a, b, c)
assert len(hits) == int(flags.sum()) == 1, "%d hits, %d flags" % (len(hits), flags.sum())
""","a segment that crosses two sides of the triangle inside its plane","the hit is returned but flagged as a miss",lib=False)
