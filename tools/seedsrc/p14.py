import sys; sys.path.insert(0,'/tmp/sd')
from mk import mk
mk("equality-without-immersed-count","P14",[("topology/shape.py",
"""            and n_immersed_shapes_q
""",
"""""")],"""
import numpy as np
from topology.vertex import Vertex
from topology.edge import Edge
from topology.domain_market import build_box_2D
box = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]], float)
plain = build_box_2D(box).shapes[2][0]
cut = build_box_2D(box).shapes[2][0]
assert plain == cut
ends = [Vertex(10, np.array([0.2, 0.5, 0.0])), Vertex(11, np.array([0.8, 0.5, 0.0]))]
cut.immersed_shapes = np.append(cut.immersed_shapes, Edge(20, np.array(ends)))
assert plain != cut and cut != plain, "a face with an embedded edge equals the face without it"
""","two shapes with the same boundary of which only one has immersed shapes (or they have different numbers of them)",
"shapes with different numbers of immersed shapes compare equal")
mk("md-box-boundary-vertex-tags","P14",[("topology/domain_market.py",
"""            v.physical_tag = fracture_physical_tags["internal_bc"]
            vertices.append(v)
            edge_bc.append(v)
            tag += 1
""",
"""            v.physical_tag = fracture_physical_tags["internal_bc"]
            vertices.append(v)
            edge_bc.append(v)
        tag += 1
""")],'''
import numpy as np, itertools
from topology.domain_market import create_md_box_2D
box = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]], float)
lines = np.array([[[0.2, 0.3, 0], [0.8, 0.7, 0]], [[0.2, 0.7, 0], [0.8, 0.3, 0]]], float)
domain = create_md_box_2D(box, None, lines)
tags = {}
for vertex in domain.shapes[0]:
    key = (vertex.dimension, vertex.tag)
    assert key not in tags, "two vertices with tag %d" % vertex.tag
    tags[key] = vertex
ends = {tuple(np.round(v.point, 6)) for v in domain.shapes[0]}
for line in lines:
    for point in line:
        assert tuple(np.round(point, 6)) in ends, "the end of a fracture is missing"
''',"a rock domain with at least one fracture with free ends",
"both end vertices of a fracture get the same tag, so that one replaces the other")
