import sys, os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__))); import rf
P="geometry/operations/point_geometry_operations.py"; L="geometry/operations/line_geometry_operations.py"
T="geometry/operations/triangle_triangle_intersection_test.py"; C="mesh/mesh_cell.py"; S="mesh/mesh_metrics.py"
TRI="    if (u >= 0) and (v >= 0) and (u + v <= 1):\n        return p\n    else:\n        return None\n"
REG="        region_member_q = (u >= 0) and (v >= 0) and (u + v < 1)\n        return region_member_q\n"
VOL="    p_t_equ = np.hstack((np.array([a, b, c, p]), np.ones((4, 1))))\n    measurement_p = np.linalg.det(p_t_equ) / 6.0\n\n    q_t_equ = np.hstack((np.array([a, b, c, q]), np.ones((4, 1))))\n    measurement_q = np.linalg.det(q_t_equ) / 6.0\n    return measurement_p, measurement_q\n"
DX="    dxs = [\n        p_t - p_o\n        for i, p_o in enumerate(points)\n        for j, p_t in enumerate(points)\n        if i != j\n    ]\n    cell_diameter = np.max([np.linalg.norm(dx) for dx in dxs])\n    return cell_diameter\n"
LC="    t_is_bounded_q = t_l and t_r\n    s_is_bounded_q = s_l and s_r\n"
SZ="    cell_sizes = list(map(functools.partial(cell_diam, mesh=mesh), cells_with_dim))\n"
Q=[
 [(P,TRI,"    inside = u >= 0 and v >= 0 and 1 - u - v >= 0\n    return p if inside else None\n")],
 [(P,TRI,"    w = 1.0 - u - v\n    if w < 0 or u < 0 or v < 0:\n        return None\n    return p\n")],
 [(P,TRI,"    if 0 <= u <= 1 and 0 <= v <= 1 and u + v <= 1:\n        return p\n    return None\n")],
 [(P,TRI,"    if min(u, v, 1 - u - v) >= 0:\n        return p\n    return None\n")],
 [(P,TRI,"    if all(x >= 0 for x in (u, v, 1 - u - v)):\n        return p\n    return None\n")],
 [(P,"    v = (dot_ab_ab * dot_ap_ac - dot_ab_ac * dot_ap_ab) / denom\n","    v = dot_ab_ab * dot_ap_ac - dot_ab_ac * dot_ap_ab\n    v /= denom\n")],
 [(P,"    u = (dot_ac_ac * dot_ap_ab - dot_ab_ac * dot_ap_ac) / denom\n    v = (dot_ab_ab * dot_ap_ac - dot_ab_ac * dot_ap_ab) / denom\n","    u = dot_ac_ac * dot_ap_ab - dot_ab_ac * dot_ap_ac\n    v = dot_ab_ab * dot_ap_ac - dot_ab_ac * dot_ap_ab\n"),(P,"(u + v <= 1)","(u + v <= denom)")],
 [(P,"    dot_ab_ab = np.dot(ab, ab)\n","    dot_ab_ab = ab @ ab\n"),(P,"    dot_ab_ac = np.dot(ab, ac)\n","    dot_ab_ac = (ab * ac).sum()\n")],
 [(P,"    measurement = 0.5 * np.linalg.norm(np.cross(ve, ue))\n","    measurement = np.linalg.norm(np.cross(ue, ve)) / 2.0\n")],
 [(P,"    measurement = np.linalg.det(t_equ) / 6.0\n","    measurement = np.dot(a - p, np.cross(b - p, c - p)) / 6.0\n")],
 [(P,"    t_equ = np.hstack((np.array([a, b, c, p]), np.ones((4, 1))))\n    measurement = np.linalg.det(t_equ) / 6.0\n","    edges = np.array([a - p, b - p, c - p])\n    measurement = np.linalg.det(edges) / 6.0\n")],
 [(L,VOL,"    return tuple(np.linalg.det(np.hstack((np.array([a, b, c, x]), np.ones((4, 1))))) / 6.0 for x in line)\n")],
 [(L,VOL,"    n = np.cross(b - a, c - a)\n    return tuple(np.dot(x - a, n) / 6.0 for x in (p, q))\n")],
 [(P,"        a_predicate = bta_norm > pta_norm or np","        a_predicate = pta_norm < bta_norm or np")],
 [(P,"        atb_norm = np.linalg.norm(a - b)\n","        atb_norm = bta_norm\n")],
 [(L,LC,"    t_is_bounded_q = all([t_l, t_r])\n    s_is_bounded_q = s_l and s_r\n")],
 [(L,"        return np.array([pa])\n    else:\n        return None  # No intersection\n","        return np.array([c + s * d2])\n    return None\n")],
 [(L,"    A = np.array([d1, -d2]).T\n","    A = np.column_stack((d1, -d2))\n")],
 [(L,"    A = np.array([d1, -d2]).T\n    r = c - a\n","    A = np.array([d1, c - d]).T\n    r = c - a\n")],
 [(L,"    t_l = 0.0 < t or np.isclose(t, 0.0, rtol=eps, atol=eps)\n    t_r = t < 1.0 or np.isclose(t, 1.0, rtol=eps, atol=eps)\n","    def reaches(x, y):\n        return x < y or np.isclose(x, y, rtol=eps, atol=eps)\n\n    t_l = reaches(0.0, t)\n    t_r = reaches(t, 1.0)\n")],
 [(T,REG,"        return u >= 0 and v >= 0 and u + v < 1\n")],
 [(T,REG,"        if u < 0 or v < 0:\n            return False\n        return u + v < 1\n")],
 [(T,"        coincide_q = np.any(np.absolute(r_distances) < self.eps)\n","        coincide_q = any(d < self.eps for d in r_distances)\n")],
 [(T,"        colinearity_q = np.any(np.absolute(colinear_ms) < self.eps)\n","        colinearity_q = min(colinear_ms) < self.eps\n")],
 [(T,"        ar, br, cr, pr = np.array([a, b, c, p])[:, pos]\n","        ar, br, cr, pr = a[pos], b[pos], c[pos], p[pos]\n")],
 [(T,"        p_intersection = p + tv * (q - p)\n","        p_intersection = (1.0 - tv) * p + tv * q\n")],
 [(T,"        tv = -np.linalg.det(n_equ) / np.linalg.det(d_equ)\n","        normal = np.cross(plane[1] - plane[0], plane[2] - plane[0])\n        tv = np.dot(plane[0] - p, normal) / np.dot(q - p, normal)\n")],
 [(T,"        ve = np.append(ve, 0)\n        ue = np.append(ue, 0)\n        measurement = 0.5 * np.linalg.norm(np.cross(ve, ue))\n","        measurement = 0.5 * np.abs(ve[0] * ue[1] - ve[1] * ue[0])\n")],
 [(C,"    xc = np.mean(points, axis=0)\n    return xc\n","    return points.mean(axis=0)\n")],
 [(C,"    return np.dot(R, vector)\n","    return R @ vector\n")],
 [(C,"    if axis == 0:\n        return x_rotation(vector, theta)\n    if axis == 1:\n        return y_rotation(vector, theta)\n    if axis == 2:\n        return z_rotation(vector, theta)\n","    rotations = {0: x_rotation, 1: y_rotation, 2: z_rotation}\n    if axis in rotations:\n        return rotations[axis](vector, theta)\n")],
 [(C,"    if axis == 0:\n        return x_rotation(vector, theta)\n    if axis == 1:\n        return y_rotation(vector, theta)\n    if axis == 2:\n        return z_rotation(vector, theta)\n","    rotations = (x_rotation, y_rotation, z_rotation)\n    return rotations[axis](vector, theta)\n")],
 [(S,DX,"    return max(np.linalg.norm(p - q) for i, p in enumerate(points) for q in points[i + 1 :])\n")],
 [(S,DX,"    import itertools\n\n    return np.max([np.linalg.norm(p - q) for p, q in itertools.combinations(points, 2)])\n")],
 [(S,SZ,"    cell_sizes = [cell_diam(cell, mesh) for cell in cells_with_dim]\n")],
 [(S,SZ,"    cell_sizes = np.array([cell_diam(cell, mesh) for cell in cells_with_dim])\n"),(S,"np.min(cell_sizes)","cell_sizes.min()"),(S,"np.max(cell_sizes)","cell_sizes.max()"),(S,"np.mean(cell_sizes)","cell_sizes.mean()")],
 [(S,"    points = mesh.points[mesh_cell.node_tags]\n    xc = np.mean(points, axis=0)\n    return xc\n","    return sum(mesh.points[t] for t in mesh_cell.node_tags) / len(mesh_cell.node_tags)\n")],
 [(S,"    if physical_tag is None:\n        cells_with_dim = [cell for cell in mesh.cells if cell.dimension == dim]\n    else:\n        cells_with_dim = [cell for cell in mesh.cells if cell.dimension == dim and cell.material_id == physical_tag]\n","    cells_with_dim = [c for c in mesh.cells if c.dimension == dim]\n    if physical_tag is not None:\n        cells_with_dim = [c for c in cells_with_dim if c.material_id == physical_tag]\n")],
 [(P,"(u + v <= 1)","(u + v <= 1 and u * v <= 1)")],
 [(L,LC,"    t_is_bounded_q = t_l and t_r and abs(t - 0.5) < 3.0\n    s_is_bounded_q = s_l and s_r\n")],
 [(T,"        t_intersection_q = 0.0 <= tv and tv <= 1.0\n        u_intersection_q = 0.0 <= uv and uv <= 1.0\n","        t_intersection_q = 0.0 <= tv <= 1.0\n        u_intersection_q = not (uv < 0.0 or uv > 1.0)\n")],
 [(T,"        dv = np.linalg.det(np.array([ar - br, pr - qr]).T)\n","        v, w = ar - br, pr - qr\n        dv = v[0] * w[1] - v[1] * w[0]\n")],
 [(T,"        uv = np.linalg.det(np.array([ar - pr, ar - br]).T) / dv\n","        uv = -np.linalg.det(np.array([ar - br, ar - pr]).T) / dv\n")],
]
M=[
 [(T,"        uv = np.linalg.det(np.array([ar - pr, ar - br]).T) / dv\n","        uv = np.linalg.det(np.array([ar - br, ar - pr]).T) / dv\n")],
 [(T,"        u_intersection_q = 0.0 <= uv and uv <= 1.0\n","        u_intersection_q = 0.0 <= uv and tv <= 1.0\n")],
 [(T,"            p_intersection = a + tv * (b - a)\n","            p_intersection = p + tv * (q - p)\n")],
 [(T,"        tv = np.linalg.det(np.array([ar - pr, pr - qr]).T) / dv\n","        tv = np.linalg.det(np.array([br - pr, pr - qr]).T) / dv\n")],
 [(P,"(u + v <= 1)","(u * v <= 0.25)")],
 [(P,"(u + v <= 1)","(u * v <= 5)")],
 [(P,TRI,TRI.replace(" and (v >= 0)",""))],
 [(P,TRI,TRI.replace("u + v <= 1","u <= 1"))],
 [(P,TRI,TRI.replace("return p\n","return a + u * ab + v * ab\n"))],
 [(P,"    u = (dot_ac_ac * dot_ap_ab - dot_ab_ac * dot_ap_ac) / denom\n","    u = (dot_ac_ac * dot_ap_ab - dot_ab_ab * dot_ap_ac) / denom\n")],
 [(P,"    denom = dot_ab_ab * dot_ac_ac - dot_ab_ac * dot_ab_ac\n","    denom = dot_ab_ab * dot_ac_ac\n")],
 [(P,"    measurement = 0.5 * np.linalg.norm(np.cross(ve, ue))\n","    measurement = np.linalg.norm(np.cross(ve, ue))\n")],
 [(P,"    measurement = np.linalg.det(t_equ) / 6.0\n","    measurement = np.linalg.det(t_equ) / 3.0\n")],
 [(P,"    u = b - p\n","    u = b - a\n    u = u + v[0]\n")],
 [(L,VOL,VOL.replace("p_t_equ) / 6.0","p_t_equ) / 3.0"))],
 [(L,VOL,VOL.replace("return measurement_p, measurement_q","return measurement_q, measurement_p"))],
 [(L,VOL,VOL.replace("np.array([a, b, c, q])","np.array([b, a, c, q])"))],
 [(P,"        if a_predicate and b_predicate:\n","        if a_predicate or b_predicate:\n")],
 [(P,"        ptb_norm = np.linalg.norm(p - b)\n","        ptb_norm = np.linalg.norm(p - a)\n")],
 [(L,"    s_r = s < 1.0 or","    s_r = t < 1.0 or")],
 [(L,"    s_r = s < 1.0 or np.isclose(s, 1.0, rtol=eps, atol=eps)\n","    s_r = s < 1.0\n")],
 [(L,"    t_l = 0.0 < t or np.isclose(t, 0.0, rtol=eps, atol=eps)\n","    t_l = 0.0 < t or np.isclose(t, 1.0, rtol=eps, atol=eps)\n")],
 [(L,"    s_is_bounded_q = s_l and s_r\n","    s_is_bounded_q = s_l or s_r\n")],
 [(L,"    pa = a + t * d1\n    pc = c + s * d2\n","    pa = a + t * d1\n    pc = pa\n"),(L,"        return np.array([pa])\n    else:\n","        return np.array([c + t * d2])\n    else:\n")],
 [(L,"    A = np.array([d1, -d2]).T\n","    A = np.array([d1, d2]).T\n")],
 [(T,REG,REG.replace("u + v < 1","u + v < 2"))],
 [(T,REG,REG.replace("(v >= 0)","(u + v >= 0)"))],
 [(T,"        v = (dot00 * dot12 - dot01 * dot02) / dv\n","        v = (dot11 * dot12 - dot01 * dot02) / dv\n")],
 [(T,"        dv = dot00 * dot11 - dot01 * dot01\n","        dv = dot00 * dot11\n")],
 [(T,"        p_intersection = p + tv * (q - p)\n","        p_intersection = q + tv * (q - p)\n")],
 [(T,"        tv = -np.linalg.det(n_equ) / np.linalg.det(d_equ)\n","        tv = np.linalg.det(n_equ) / np.linalg.det(d_equ)\n")],
 [(T,"        measurement = 0.5 * np.linalg.norm(np.cross(ve, ue))\n","        measurement = 0.5 * np.dot(ve, ue)\n")],
 [(C,"            [np.cos(theta), -np.sin(theta), 0],\n            [np.sin(theta), np.cos(theta), 0],\n","            [np.cos(theta), np.sin(theta), 0],\n            [-np.sin(theta), np.cos(theta), 0],\n")],
 [(C,"    if axis == 1:\n        return y_rotation(vector, theta)\n","    if axis == 1:\n        return x_rotation(vector, theta)\n")],
 [(C,"def rotate_vector(vector, theta, axis=2):","def rotate_vector(vector, theta, axis=0):")],
 [(S,DX,DX.replace("np.max","np.min"))],
 [(S,DX,DX.replace("if i != j","if i + 1 == j"))],
 [(S,"    max_mesh_size_v = np.max(cell_sizes)\n","    max_mesh_size_v = np.max(cell_sizes[:-1])\n")],
 [(S," and cell.material_id == physical_tag]"," or cell.material_id == physical_tag]")],
 [(S,"        dim = mesh.dimension\n","        dim = mesh.dimension - 1\n")],
 [(S,"    xc = np.mean(points, axis=0)\n    return xc\n","    xc = 0.5 * (points[0] + points[-1])\n    return xc\n")],
]
rf.main(Q,M,("P26",),sys.argv[1] if len(sys.argv)>1 else "",workers=4)
