import sys; sys.path.insert(0,'/tmp/rf'); from rf import run
P=("P11",)
G='geometry/operations/point_geometry_operations.py'; L='geometry/operations/line_geometry_operations.py'; V='topology/operations/vertex_operations.py'
print("QUIET")
Q=[
[(G,"""def point_line_incidence(
""","""def _near(x, y, tol):
    return np.isclose(x, y, rtol=tol, atol=tol)


def point_line_incidence("""+"\n"),(G,"point_line_incidence_q = np.isclose(measurement, 0.0, rtol=eps, atol=eps)","point_line_incidence_q = _near(measurement, 0.0, eps)"),(G,"""np.isclose(
            bta_norm, pta_norm, rtol=eps, atol=eps
        )""","_near(bta_norm, pta_norm, eps)")],
[(L,"    t_l = 0.0 < t or np.isclose(t, 0.0, rtol=eps, atol=eps)","    close = partial(np.isclose, rtol=eps, atol=eps)\n    t_l = 0.0 < t or close(t, 0.0)")],
[(L,"    t_l = 0.0 < t or np.isclose(t, 0.0, rtol=eps, atol=eps)","    tols = {'rtol': eps, 'atol': eps}\n    t_l = 0.0 < t or np.isclose(t, 0.0, **tols)")],
[(G,"    point_line_int = partial(point_line_intersection, a=a, b=b, eps=eps)\n    result = list(map(point_line_int, points))","    result = [point_line_intersection(p, a, b, eps) for p in points]")],
[(G,"    point_line_int = partial(point_line_intersection, a=a, b=b, eps=eps)\n    result = list(map(point_line_int, points))","    result = list(map(lambda p: point_line_intersection(p, a, b, eps), points))")],
[(G,"""    point_a_incidence_q = np.all(np.isclose(a, p, rtol=collapse_tol, atol=collapse_tol))
    if point_a_incidence_q:
        return a

    point_b_incidence_q = np.all(np.isclose(b, p, rtol=collapse_tol, atol=collapse_tol))
    if point_b_incidence_q:
        return b

    point_line_incidence_q""","""    for end in (a, b):
        if np.allclose(end, p, rtol=collapse_tol, atol=collapse_tol):
            return end

    point_line_incidence_q""")],
[(G,"""    point_a_incidence_q = np.all(np.isclose(a, p, rtol=collapse_tol, atol=collapse_tol))
    if point_a_incidence_q:
        return a

    point_b_incidence_q = np.all(np.isclose(b, p, rtol=collapse_tol, atol=collapse_tol))
    if point_b_incidence_q:
        return b

    point_c_incidence_q = np.all(np.isclose(c, p, rtol=collapse_tol, atol=collapse_tol))
    if point_c_incidence_q:
        return c
""","""    snapped = _snap(p, (a, b, c))
    if snapped is not None:
        return snapped
"""),(G,"def point_triangle_intersection(","""def _snap(p, corners):
    for corner in corners:
        if np.all(np.isclose(corner, p, rtol=collapse_tol, atol=collapse_tol)):
            return corner
    return None


def point_triangle_intersection(""")],
[(V,"vertex_strong_equality_q(v_tool, e_vertex, eps)\n","vertex_strong_equality_q(v_tool, e_vertex, eps=eps)\n")],
[('topology/operations/edge_operations.py',"    a, b = e_tool.boundary_points()\n","    tol = l_eps\n    a, b = e_tool.boundary_points()\n"),('topology/operations/edge_operations.py',"line_line_intersection(a, b, c, d, l_eps)","line_line_intersection(a, b, c, d, eps=tol)")],
]
for q in Q: print(run(q,P))
print("MUTANTS")
M=[
[(L,"lines_line_intersection(lines, p, q, eps)","lines_line_intersection(lines, p, q)")],
[(L,"points_line_intersection(np.array([a, b]), c, d, eps)","points_line_intersection(np.array([a, b]), c, d)")],
[(G,"""np.isclose(
            atb_norm, ptb_norm, rtol=eps, atol=eps
        )""","""np.isclose(
            atb_norm, ptb_norm
        )""")],
[(L,"np.allclose(pa, pc, rtol=eps, atol=eps)","np.allclose(pa, pc, atol=eps)")],
[(L,"partial(line_triangle_intersection, a=a, b=b, c=c, eps=eps)","partial(line_triangle_intersection, a=a, b=b, c=c)")],
[(L,"np.isclose(denom, 0.0, rtol=eps, atol=eps)","abs(denom) < 1.0e-10")],
[(L,"np.isclose(denom, 0.0, rtol=eps, atol=eps)","abs(denom) < s_incidence_tol")],
[(L,"    triangles = triangulate_polygon(polygon_points)\n    # compute intersections\n    results = __line","    eps = s_incidence_tol\n    triangles = triangulate_polygon(polygon_points)\n    # compute intersections\n    results = __line")],
[('topology/operations/edge_operations.py',"line_line_intersection(a, b, c, d, l_eps)","line_line_intersection(a, b, c, d, p_eps)")],
[('topology/operations/domain_operations.py',"vertices_edges_difference(v_tool, e_object, tag, eps)","vertices_edges_difference(v_tool, e_object, tag)")],
[('topology/operations/domain_operations.py',"vertices_edges_intersection(v_tool, e_object, tag, eps)","vertices_edges_intersection(v_tool, e_object, eps, tag)")],
[(V,"edge_object=edge_object, tag=tag_info.min, eps=eps","edge_object=edge_object, tag=tag_info.min")],
[(G,"point_line_incidence(a, b, p, eps)","point_line_incidence(a, b, p)")],
[('geometry/operations/triangle_triangle_intersection_test.py',"parallel_lines_q = np.abs(dv) < self.eps","parallel_lines_q = np.isclose(dv, 0.0)")],
[('geometry/operations/polygon_polygon_intersection_test.py',"TriangleTriangleIntersectionTest(eps)","TriangleTriangleIntersectionTest()")],
]
for q in M: print(run(q,P))
