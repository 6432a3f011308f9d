import sys; sys.path.insert(0,'/tmp/sd')
from mk import mk
mk("boundary-fields-from-set","P20",[("spaces/product_space.py","""        discrete_spaces_bc_dest = {}
        for i, item in enumerate(self.discrete_spaces.items()):
            name, space = item

            if len(space.bc_elements) == 0:
                continue

            stride = dofs_list[i]
""","""        discrete_spaces_bc_dest = {}
        with_bc = {
            name
            for name, space in self.discrete_spaces.items()
            if len(space.bc_elements) > 0
        }
        for name in with_bc:
            space = self.discrete_spaces[name]
            stride = dofs_list[self.names.index(name)]
""")],
"""
import os, subprocess, sys
if len(sys.argv) > 1:
    from lib import *
    m = mesh(2, 1.0)
    fields = {n: (1, "Lagrange", 1) for n in ("displacement", "pressure", "rotation", "stress")}
    sp = space(m, fields, bc={n: [2, 3, 4, 5] for n in fields} if False else bc_tags(m))
    d = sp.bc_destination_indexes(0)
    sys.stdout = sys.__stdout__
    print("DEST", list(map(int, d)))
    raise SystemExit
out = set()
for seed in ("0", "1", "2", "3"):
    env = dict(os.environ, PYTHONHASHSEED=seed)
    r = subprocess.run([sys.executable, os.path.abspath(__file__), "run"], env=env, capture_output=True, text=True)
    lines = [l for l in r.stdout.splitlines() if l.startswith("DEST")]
    assert lines, r.stdout + r.stderr
    out.add(lines[0])
assert len(out) == 1, "the numbering of the boundary element differs between runs: %s" % out
""","several runs (the order follows the hash seed) and several fields with boundary elements","boundary destinations are collected in the iteration order of a set of field names")
mk("neighbour-cache","P20",[("mesh/topological_queries.py","""def find_higher_dimension_neighs(cell: MeshCell, mesh_topology: MeshTopology):
    entity_map = mesh_topology.entity_map_by_dimension(cell.dimension)
    neigh_list = list(entity_map.predecessors(cell.index()))
    return neigh_list
""","""_neighs = {}


def find_higher_dimension_neighs(cell: MeshCell, mesh_topology: MeshTopology):
    if cell.index() not in _neighs:
        entity_map = mesh_topology.entity_map_by_dimension(cell.dimension)
        _neighs[cell.index()] = list(entity_map.predecessors(cell.index()))
    return _neighs[cell.index()]
""")],
"""
from lib import *
from mesh.mesh_topology import MeshTopology
from mesh.topological_queries import find_higher_dimension_neighs

def answers(h):
    m = mesh(2, h)
    top = MeshTopology(m, 2)
    top.build_data()
    faces = [c for c in m.cells if c.dimension == 1]
    return [(c.id, find_higher_dimension_neighs(c, top), list(top.entity_map_by_dimension(1).predecessors(c.index()))) for c in faces]

for h in (1.0, 0.5):
    for i, got, want in answers(h):
        assert got == want, "edge %s of the mesh with size %s: %s instead of %s" % (i, h, got, want)
""","a second mesh in the same process","neighbour queries answer from the first mesh that was asked about a cell number")
