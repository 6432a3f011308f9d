import sys; sys.path.insert(0,'/tmp/rf'); from rf import run
P=("P13",)
PO='geometry/operations/point_geometry_operations.py'; LO='geometry/operations/line_geometry_operations.py'; VO='topology/operations/vertex_operations.py'; EO='topology/operations/edge_operations.py'
FLT="""    def data_type(data):
        if isinstance(data, np.ndarray):
            return True
        else:
            return False

    intx_q = np.array([data_type(data) for data in result])

    # filter points outside segment
    result = np.array(list(filter(lambda x: x is not None, result)))
    return result, intx_q
"""
Q=[
[(PO,FLT,"    intx_q = np.array([data is not None for data in result])\n    return np.array([data for data in result if data is not None]), intx_q\n")],
[(PO,FLT,"    return _collect(result)\n"),(PO,"def points_line_argsort(","def _collect(answers):\n    def hit(answer):\n        return answer is not None\n    flags = np.array(list(map(hit, answers)))\n    hits = [answer for answer in answers if not answer is None]\n    return np.array(hits), flags\n\n\ndef points_line_argsort(")],
[(PO,"    result = list(map(point_line_int, points))\n","    result = [point_line_int(point) for point in points]\n")],
[(PO,"    point_line_incidence_q = point_line_incidence(a, b, p, eps)\n    if point_line_incidence_q:\n","    if not point_line_incidence(a, b, p, eps):\n        return None\n    if True:\n")],
[(PO,"    if (u >= 0) and (v >= 0) and (u + v <= 1):\n        return p\n    else:\n        return None","    inside = (u >= 0) and (v >= 0) and (u + v <= 1)\n    return p if inside else None")],
[(LO,"        if p_intersection is not None:\n            return np.array([p])\n        if q_intersection is not None:\n            return np.array([q])\n","        for end, end_intx in ((p, p_intersection), (q, q_intersection)):\n            if end_intx is not None:\n                return end[np.newaxis, :]\n")],
[(LO,"        if out.shape[0] == 1:\n            return out[0]\n        else:\n            return out\n","        return out[0] if len(out) == 1 else out\n")],
[(LO,"    if intx_point is None:\n        return None\n    else:\n        return np.array([intx_point])","    if intx_point is not None:\n        intx_point = np.array([intx_point])\n    return intx_point")],
[(LO,"            intx_data = np.empty((0, 3), float)\n".strip(' '),"intx_data = np.empty((0, 3), dtype=float)\n")] if False else [(LO,"        for i, out in enumerate(results):\n            if triangle_idx_q[i]:\n                if len(out.shape) > 2:","        for out in [r for r in results if r is not None]:\n            if True:\n                if out.ndim > 2:")],
[(VO,"    if strong_check[0]:\n        return edge_object.boundary_shapes[0]\n    elif strong_check[1]:\n        return edge_object.boundary_shapes[1]\n    if weak_check[0]:","    for e_vertex, same in zip(edge_object.boundary_shapes, strong_check):\n        if same:\n            return e_vertex\n    if weak_check[0]:")],
[(EO,"    if out is None:\n        return None\n    else:\n        return Vertex(tag, out[0])","    return None if out is None else Vertex(tag, out[0])")],
[(EO,"    bc_out_tv0 = vertex_edge_boundary_intersection(tv0, e_object, tag, eps)\n    bc_out_tv1 = vertex_edge_boundary_intersection(tv1, e_object, tag, eps)\n    boundary_intersection_q = bc_out_tv0 is not None or bc_out_tv1 is not None\n\n    if boundary_intersection_q:\n        if bc_out_tv0 is not None:\n            return bc_out_tv0\n        else:\n            return bc_out_tv1\n","    bc_out = [vertex_edge_boundary_intersection(tv, e_object, tag, eps) for tv in (tv0, tv1)]\n    boundary_intersection_q = any(o is not None for o in bc_out)\n    if boundary_intersection_q:\n        return next(o for o in bc_out if o is not None)\n")],
]
Q+=[
[(PO,FLT,"    intx_q = np.array([data is not None for data in result])\n    return np.array([r for r, q in zip(result, intx_q) if q]), intx_q\n")],
[(PO,FLT,"    intx_q = np.array([data is not None for data in result])\n    return np.array([result[i] for i in np.flatnonzero(intx_q)]), intx_q\n")],
[(PO,FLT,"    intx_q = np.array([data is not None for data in result])\n    hits = []\n    for i in range(len(result)):\n        if intx_q[i]:\n            hits.append(result[i])\n    return np.array(hits), intx_q\n")],
[(PO,FLT,"    hits = []\n    flags = []\n    for data in result:\n        flags.append(data is not None)\n        if data is not None:\n            hits.append(data)\n    return np.array(hits), np.array(flags)\n")],
]
M=[
[(PO,"            return p\n        else:\n            return None\n    else:\n        return None\n\n\ndef points_line_inter","            return p\n        else:\n            return None\n    else:\n        return False\n\n\ndef points_line_inter")],
[(PO,"            return p\n        else:\n            return None\n    else:\n        return None\n\n\ndef points_line_inter","            return np.array([p])\n        else:\n            return None\n    else:\n        return None\n\n\ndef points_line_inter")],
[(PO,"    if not point_triangle_incidence_q:\n        return None","    if not point_triangle_incidence_q:\n        return np.array([])")],
[(PO,"    intx_q = np.array([data_type(data) for data in result])\n\n    # filter points outside segment\n    result = np.array(list(filter(lambda x: x is not None, result)))\n    return result, intx_q\n\n\ndef points_line_arg","    intx_q = np.array([data_type(data) for data in result])\n    result = np.array(result)[intx_q]\n    return result, intx_q\n\n\ndef points_line_arg")],
[(PO,"    result = np.array(list(filter(lambda x: x is not None, result)))\n    return result, intx_q\n\n\ndef points_line_arg","    result = np.array(list(filter(lambda x: x is not None and np.any(x), result)))\n    return result, intx_q\n\n\ndef points_line_arg")],
[(PO,"    if point_line_ab_out is not None:","    if np.any(point_line_ab_out):")],
[(PO,"    if point_line_ab_out is not None:","    if point_line_ab_out:")],
[(LO,"            return np.array([q])\n","            return q\n")],
[(LO,"        if out.shape[0] == 1:\n            return out[0]","        if out.shape[0] == 1:\n            return out[0][0]")],
[(LO,"        return np.array([pa])","        return pa")],
[(LO,"    else:\n        return None  # No intersection","    else:\n        return []  # No intersection")],
[(LO,"    # filter lines outside segment\n    result = np.array(list(filter(lambda x: x is not None, result)))\n    return result","    return np.array(result)")],
[(LO,"            return intx_data[idx_sort]\n    else:\n        return None","            return intx_data[idx_sort]\n    else:\n        return intx_data_none()\n\n\ndef intx_data_none():\n    return np.empty((0, 3), float)")],
[(VO,"    else:\n        return None\n\n\ndef vertex_edge_boundary","    else:\n        return False\n\n\ndef vertex_edge_boundary")],
[(VO,"        if shape is None:\n            continue\n","        if shape is None:\n            pass\n")],
[(VO,"        return Vertex(tag, out)","        return Vertex(tag, np.array([out]))")],
[(VO,"    if out is None:\n        return None\n    else:\n        return Vertex(tag, out)","    if out is None:\n        return out, None\n    else:\n        return Vertex(tag, out)")],
[(EO,"    if not boundary_intersection_q and not internal_intersection_q:\n        return None","    if not boundary_intersection_q and not internal_intersection_q:\n        return []")],
[(LO,"        if isinstance(data, np.ndarray):\n            return True\n        else:\n            return False\n\n    intx_q = np.array([data_type(data) for data in result])\n\n    # filter points outside segment\n    result = np.array(list(filter(lambda x: x is not None, result)))\n    return result, intx_q\n\n\ndef __line","        if isinstance(data, np.ndarray) and data.shape[0] == 1:\n            return True\n        else:\n            return False\n\n    intx_q = np.array([data_type(data) for data in result])\n\n    # filter points outside segment\n    result = np.array(list(filter(lambda x: x is not None, result)))\n    return result, intx_q\n\n\ndef __line")],
]
if 'm' not in sys.argv[1:]:
    for i,q in enumerate(Q): print(i,run(q,P))
print('M')
for i,q in enumerate(M): print(i,run(q,P))
