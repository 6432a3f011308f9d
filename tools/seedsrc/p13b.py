import sys; sys.path.insert(0,'/tmp/sd')
from mk import mk
mk("edge-tools-shifted","P13",[("topology/operations/vertex_operations.py",
"""    resulting_shapes = np.array(list(map(intersect_with_line, vertices_tool)))

    shapes_tool = []
    shape_intx = []
    for idx, shape in enumerate(resulting_shapes):
        if shape is None:
            continue
        shape""",
"""    resulting_shapes = list(map(intersect_with_line, vertices_tool))
    resulting_shapes = [shape for shape in resulting_shapes if shape is not None]

    shapes_tool = []
    shape_intx = []
    for idx, shape in enumerate(resulting_shapes):
        shape""")],'''
import numpy as np
from topology.vertex import Vertex
from topology.edge import Edge
from topology.operations.vertex_operations import vertices_edge_intersection
a = Vertex(1, np.array([0.0, 0.0, 0.0]))
b = Vertex(2, np.array([1.0, 0.0, 0.0]))
edge = Edge(3, np.array([a, b]))
tools = np.array([Vertex(10, np.array([0.3, 0.4, 0.0])), Vertex(11, np.array([0.6, 0.0, 0.0]))])
shapes, used = vertices_edge_intersection(tools, edge, tag=20)
assert len(shapes) == 1 and len(used) == 1
assert used[0].tag == 11, "the tool reported for the hit is not the one that hit: %s" % used[0].tag
assert np.allclose(shapes[0].point, used[0].point)
''',"vertices tested against an edge where a vertex that misses comes before one that hits",
"vertices_edge_intersection filters the misses before pairing results with the vertices, so the tool shapes it returns are not those of the hits")
