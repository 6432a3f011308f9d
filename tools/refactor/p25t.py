import sys, os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__))); import rf
N="geometry/compute_normal.py"
FLIP="    if normal @ outward < 0.0:\n        normal *= -1.0\n    return normal\n"
D1="        w = np.cross(v, outward) / np.linalg.norm(np.cross(v, outward))\n        normal = np.cross(v, w)\n"
D2="        normal = np.cross(v, w) / np.linalg.norm(np.cross(v, w))\n"
Q=[
 [(N,FLIP,"    if np.dot(normal, outward) < 0.0:\n        return -normal\n    return normal\n")],
 [(N,FLIP,"    inward = normal @ (xc_c0 - xc_c1) > 0.0\n    return -normal if inward else normal\n")],
 [(N,FLIP,"    return np.sign(normal @ outward) * normal\n")],
 [(N,D1,"        normal = outward - (outward @ v) * v\n        normal = normal / np.linalg.norm(normal)\n")],
 [(N,D1,"        w = np.cross(v, outward)\n        normal = np.cross(v, w)\n        normal /= np.linalg.norm(normal)\n")],
 [(N,D2,"        c = np.cross(v, w)\n        normal = c / np.linalg.norm(c)\n")],
 [(N,"        v = mesh.points[cell_c1.node_tags[0]] - xc_c1\n        w = mesh.points[cell_c1.node_tags[1]] - xc_c1\n","        p0, p1, p2 = mesh.points[cell_c1.node_tags]\n        v, w = p1 - p0, p2 - p0\n")],
 [(N,"        normal = outward / np.linalg.norm(outward)\n","        normal = outward\n")],
 [(N,"    outward = (xc_c1 - xc_c0) / np.linalg.norm((xc_c1 - xc_c0))\n","    outward = xc_c1 - xc_c0\n")],
 [(N,"    xc_c1 = np.mean(mesh.points[cell_c1.node_tags], axis=0)\n    xc_c0 = np.mean(mesh.points[cell_c0.node_tags], axis=0)\n","    xc_c1, xc_c0 = (mesh.points[c.node_tags].mean(axis=0) for c in (cell_c1, cell_c0))\n")],
 [(N,"    xc_c1 = np.mean(mesh.points[cell_c1.node_tags], axis=0)\n    xc_c0 = np.mean(mesh.points[cell_c0.node_tags], axis=0)\n","    xc_c1 = cell_centroid(cell_c1, mesh)\n    xc_c0 = cell_centroid(cell_c0, mesh)\n"),(N,"from mesh.mesh_cell import MeshCell\n","from mesh.mesh_cell import MeshCell\nfrom mesh.mesh_metrics import cell_centroid\n")],
 [(N,FLIP,"    return _oriented(normal, outward)\n"),(N,"def normal(","def _oriented(n, direction):\n    return n if n @ direction >= 0.0 else -n\n\n\ndef normal(")],
]
M=[
 [(N,FLIP,"    return normal\n")],
 [(N,FLIP,FLIP.replace("<",">"))],
 [(N,FLIP,FLIP.replace("normal *= -1.0","normal = -1.0"))],
 [(N,FLIP,FLIP.replace("outward <","xc_c1 <"))],
 [(N,D1,"        normal = np.cross(v, np.cross(v, outward))\n")],
 [(N,D1,D1.replace("normal = np.cross(v, w)","normal = w"))],
 [(N,D2,"        normal = np.cross(v, w) / (np.linalg.norm(v) * np.linalg.norm(w))\n")],
 [(N,"        w = mesh.points[cell_c1.node_tags[1]] - xc_c1\n","        w = mesh.points[cell_c0.node_tags[1]] - xc_c1\n")],
 [(N,"        w = mesh.points[cell_c1.node_tags[1]] - xc_c1\n","        w = mesh.points[cell_c1.node_tags[0]] - xc_c1\n")],
 [(N,"        w = mesh.points[cell_c1.node_tags[1]] - xc_c1\n","        w = mesh.points[cell_c1.node_tags[1]] - xc_c0\n")],
 [(N,"        v = v / np.linalg.norm(v)\n","")],
 [(N,"    xc_c0 = np.mean(mesh.points[cell_c0.node_tags], axis=0)\n","    xc_c0 = np.mean(mesh.points[cell_c1.node_tags], axis=0)\n")],
 [(N,"    xc_c0 = np.mean(mesh.points[cell_c0.node_tags], axis=0)\n","    xc_c0 = mesh.points[cell_c0.node_tags[0]]\n")],
 [(N,"    if normal @ outward < 0.0:\n","    if normal @ outward < 0.0 and cell_c1.dimension < 2:\n")],
]
rf.main(Q,M,("P25",),sys.argv[1] if len(sys.argv)>1 else "",workers=4)
