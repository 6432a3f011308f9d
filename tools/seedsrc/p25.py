import sys; sys.path.insert(0,'/verif/tools')
from mk import mk
DEMO='''
from lib import *
from types import SimpleNamespace as N
from geometry.compute_normal import normal
import itertools

def check(points, facet, cell, d):
    """every facet of the simplex, in every order in which its vertices can be listed"""
    m = N(points=np.array(points, dtype=float))
    for order in itertools.permutations(facet):
        b = N(node_tags=np.array(order), dimension=d - 1)
        c = N(node_tags=np.array(cell), dimension=d)
        x = m.points[list(cell)]
        xb = m.points[list(order)]
        for c1, c0 in ((b, c),):
            n = normal(m, c0, c1)
            assert abs(n @ n - 1.0) < 1e-12, "length"
            for p in xb[1:]:
                assert abs(n @ (p - xb[0])) < 1e-12, "not orthogonal to the facet"
            if d == 2:
                assert abs(np.linalg.det(np.array([n, x[1] - x[0], x[2] - x[0]]))) < 1e-12, "leaves the plane"
            assert n @ (xb.mean(axis=0) - x.mean(axis=0)) > 0.0, "points into the cell"

def all_facets(points, d):
    cell = list(range(d + 1))
    for facet in itertools.combinations(cell, d):
        check(points, facet, cell, d)

all_facets([[0, 0, 0], [2, 0, 0], [0.3, 1.7, 0]], 2)
all_facets([[0, 0, 0], [2, 0, 1], [0.3, 1.7, -0.5]], 2)
all_facets([[0, 0, 0], [2, 0.1, 0], [0.3, 1.7, 0], [0.2, 0.4, 3]], 3)
all_facets([[0, 0, 0], [1, 0, 0]], 1)
m = mesh(3, 1.0)
'''
F="geometry/compute_normal.py"
mk("normal-reversal-lines-only","P25",[(F,"    if normal @ outward < 0.0:\n","    if cell_c1.dimension < 2 and normal @ outward < 0.0:\n")],DEMO,
 "a triangular facet whose vertices are listed so that the cross product points into the cell","the normal of such a facet points into the cell")
mk("normal-product-of-lengths","P25",[(F,"        normal = np.cross(v, w) / np.linalg.norm(np.cross(v, w))\n","        normal = np.cross(v, w) / (np.linalg.norm(v) * np.linalg.norm(w))\n")],DEMO,
 "a triangular facet (its two directions from the centre are not orthogonal)","the normal of a facet of a tetrahedron is not of length one")
mk("normal-not-scaled-inclined","P25",[(F,"        w = np.cross(v, outward) / np.linalg.norm(np.cross(v, outward))\n","        w = np.cross(v, outward)\n        w = w / np.linalg.norm(w[2:])\n")],DEMO,
 "a triangle that is not in a horizontal plane","the normal of an edge of an inclined triangle is not of length one")
