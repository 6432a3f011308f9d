import sys; sys.path.insert(0,'/tmp/sd')
from mk import mk
mk("boundary-rule-of-highest-only","P07",[("spaces/product_space.py",
"""        self.bc_quadrature = [None, None, None, None]
        for dim in dims:
""","""        self.bc_quadrature = [None, None, None, None]
        for dim in [np.max(dims)]:
""")],'''
from lib import *
from spaces.product_space import ProductSpace

m = mesh(2, 0.7)
sp = ProductSpace({"u": (2, 1, "Lagrange", 2, m), "l": (1, 1, "Lagrange", 1, m)})
assert sp.bc_quadrature[1] is not None
assert sp.bc_quadrature[0] is not None, "the field on lines has no boundary quadrature"
''',"a product of fields of different dimensions",
"the boundary of the field of lower dimension has no quadrature rule")
mk("degree-of-last-field","P07",[("spaces/md_product_space.py",
"""            k_orders.append(data[3])
            dims.append(data[0])

        self.integration_order = 2 * np.max(k_orders) + 1
""","""            k_orders.append((data[0], data[3]))
            dims.append(data[0])

        self.integration_order = 2 * max(k_orders)[1] + 1
""")],'''
from lib import *
from spaces.md_product_space import MDProductSpace

m = mesh(2, 0.7)
sp = MDProductSpace([])
sp._define_integration_order_and_quadrature({"q": (2, 1, "RT", 1, m), "p": (1, 1, "Lagrange", 3, m)})
points, weights = sp.quadrature[1]
# products of two functions of order three on a segment
value = np.sum(weights * points[:, 0] ** 6)
assert abs(value - 1.0 / 7.0) < 1e-12, "the integral of x^6 over the unit segment is %s" % value
''',"a product in which a field of lower dimension has a higher order",
"the quadrature degree follows the field of highest dimension and underintegrates the others")
mk("element-family-by-mesh-dimension","P07",[("basis/finite_element.py",
"        if (self.data.cell.dimension == 1 and vector_basis_q) or (self.data.cell.dimension == 0):",
"        if (self.mesh.dimension == 1 and vector_basis_q) or (self.data.cell.dimension == 0):")],'''
from lib import *

m = mesh(2, 0.7)
bc = [t for t in sorted({c.material_id for c in m.cells if c is not None and c.dimension == 1 and c.material_id is not None})]
from spaces.product_space import ProductSpace
sp = ProductSpace({"q": (1, 1, "RT", 1, m)})
sp.build_structures({"q": bc}, {"q": []})
space = sp.discrete_spaces["q"]
for element in space.elements:
    assert element.family == space.family
    assert element.basis_generator.dim == len(sp.destination_indexes(0))
''',"a vector field on the lines of a two-dimensional mesh",
"elements on embedded lines are created with a family that does not exist there")
