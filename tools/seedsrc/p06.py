import sys; sys.path.insert(0,'/tmp/sd')
from mk import mk
mk("boundary-offset-of-traced-fields","P06",[("spaces/product_space.py",
"""    def discrete_spaces_bc_destination_indexes(self, cell_index):
        dofs_list = list(self.discrete_spaces_dofs.values())
""","""    def discrete_spaces_bc_destination_indexes(self, cell_index):
        traced = {
            name: space
            for name, space in self.discrete_spaces.items()
            if len(space.bc_elements) != 0
        }
        dofs_list = [self.discrete_spaces_dofs[name] for name in traced]
"""),("spaces/product_space.py","""        for i, item in enumerate(self.discrete_spaces.items()):
            name, space = item

            if len(space.bc_elements) == 0:
                continue
""","""        for i, item in enumerate(traced.items()):
            name, space = item
""")],'''
from lib import *

m = mesh(2, 0.7)
tags = bc_tags(m)
from spaces.product_space import ProductSpace
sp = ProductSpace({"p": (2, 1, "Lagrange", 1, m), "u": (2, 1, "Lagrange", 2, m)})
sp.build_structures({"p": [1], "u": [1]}, {"u": tags})
offset = sp.discrete_spaces["p"].dof_map.dof_number()
space = sp.discrete_spaces["u"]
own = set(range(offset, sp.n_dof))
for i, element in enumerate(space.bc_elements):
    dest = sp.bc_destination_indexes(i, "u")
    assert set(dest) <= own, "boundary unknowns of u are numbered in the block of p: %s" % dest
    assert any(set(dest) <= set(sp.destination_indexes(k, "u")) for k in range(len(space.elements)))
''',"a product space in which an earlier field has no boundary elements",
"boundary lookups of the later fields miss the block of the field without boundary elements")
mk("boundary-entities-sorted","P06",[("spaces/dof_map.py",
"                for dof_support in list(bc_cells_ids[d])\n",
"                for dof_support in sorted(bc_cells_ids[d])\n")],'''
from lib import *

m = mesh(3, 0.9)
s = space(m, {"u": (1, "Lagrange", 2)}, bc=bc_tags(m))
sp = s.discrete_spaces["u"]
for i, element in enumerate(sp.bc_elements):
    cell = element.data.cell
    expected = [sp.dof_map.vertex_map[v][0] for v in cell.sub_cells_ids[0]]
    expected += [sp.dof_map.edge_map[e][0] for e in cell.sub_cells_ids[1]]
    got = list(s.bc_destination_indexes(i))
    assert got == expected, "%s instead of %s" % (got, expected)
''',"a boundary face whose edges are not numbered in increasing order, with unknowns on edges",
"boundary unknowns are returned in the order of identifiers and not of the reference element")
