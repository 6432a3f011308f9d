import sys; sys.path.insert(0,'/tmp/rf'); sys.path.insert(0,'/verif/tools/refactor'); from rf import run
P=("P07",)
EF='basis/element_family.py'; ET='basis/element_type.py'; FE='basis/finite_element.py'; DS='spaces/discrete_space.py'; PS='spaces/product_space.py'; MP='spaces/md_product_space.py'; M='mesh/mesh.py'; SP='postprocess/solution_post_processor.py'; DM='spaces/dof_map.py'
src=lambda f: open('/repo/src/'+f).read()
def part(f,a,b):
    s=src(f); i=s.index(a); return s[i:s.index(b,i)]
FAMP=part(DS,"        vector_basis_q = ","    def set_name")
BC=part(DS,"        if self.dimension - 1 < 2:","        self.bc_elements = list(")
QD=part(PS,"        for dim in range(np.max(dims) + 1):","        self.bc_quadrature")
BQ=part(PS,"        for dim in dims:\n            dim -= 1","    def _define_discrete_spaces(")
FEF=part(FE,"        vector_basis_q = self.gen","    def _build_structures")
Q=[
 [(ET,"    element_types = {\n        0: CellType.point,\n        1: CellType.interval,\n        2: CellType.triangle,\n        3: CellType.tetrahedron,\n    }\n    return element_types[dimension]",
 "    if dimension == 0:\n        return CellType.point\n    elif dimension == 1:\n        return CellType.interval\n    elif dimension == 2:\n        return CellType.triangle\n    elif dimension == 3:\n        return CellType.tetrahedron\n    raise ValueError(dimension)")],
 [(EF,"    return families[family]","    if family not in families:\n        raise ValueError(\"unknown family\", family)\n    return families[family]")],
 [(DS,FAMP,"""        lagrange = family_by_name("Lagrange")
        if self.dimension == 0:
            return lagrange
        if self.dimension > 1 or self.generator_family == lagrange:
            return self.generator_family
        return lagrange

""")],
 [(DS,BC,"""        lagrange = family_by_name("Lagrange")
        if self.dimension == 1:
            bc_familiy, bc_k_order = lagrange, 0
        elif self.family == family_by_name("RT"):
            bc_familiy, bc_k_order, bc_discontinuous = lagrange, self.k_order - 1, True
        elif self.family == family_by_name("BDM"):
            bc_familiy, bc_discontinuous = lagrange, True
        elif self.dimension == 2:
            bc_familiy = lagrange
            if self.family == family_by_name("N1E"):
                bc_k_order, bc_discontinuous = self.k_order - 1, True

""")],
 [(PS,QD,"""        for dim in range(max(dims) + 1):
            self.quadrature[dim] = self._rule(dim)
"""),(PS,"    def _define_discrete_spaces(self","""    def _rule(self, dim):
        if dim == 0:
            return (np.array([1.0]), np.array([1.0]))
        return basix.make_quadrature(
            type_by_dimension(dim), self.integration_order, basix.QuadratureType.gauss_jacobi
        )

    def _define_discrete_spaces(self""")],
 [(PS,BQ,"""        for dim in set(dims):
            if dim == 0:
                continue
            if dim == 1:
                rule = (np.array([1.0]), np.array([1.0]))
            else:
                rule = basix.make_quadrature(
                    type_by_dimension(dim - 1), self.integration_order
                )
            self.bc_quadrature[dim - 1] = rule

""")],
 [(PS,"        self.integration_order = 2 * np.max(k_orders) + 1","        self.integration_order = 2 * max(k_orders) + 1")],
 [(PS,"        for item in discrete_spaces_data.items():\n            field, data = item\n            k_orders.append(data[3])\n            dims.append(data[0])\n","        k_orders = [data[3] for data in discrete_spaces_data.values()]\n        dims = [data[0] for data in discrete_spaces_data.values()]\n")],
 [(FE,FEF,"""        if self.data.cell.dimension > 1:
            return self.generator_family
        return family_by_name("Lagrange")

""")],
 [(DM,"            family=family,\n            celltype=element_type,\n            degree=k_order,","            family,\n            element_type,\n            k_order,")],
 [(DS,"            self.family,\n            self.element_type,","            self.family,\n            type_by_dimension(self.dimension),")],
 [(SP,'    meshio_cell_types = {0: "vertex", 1: "line", 2: "triangle", 3: "tetra"}','    meshio_cell_types = dict(enumerate(("vertex", "line", "triangle", "tetra")))')],
 [(FE,"        if self.data.cell.dimension == 1 and self.generator_family in [\n            family_by_name(\"RT\"),\n            family_by_name(\"BDM\"),\n            family_by_name(\"N1E\"),\n            family_by_name(\"N2E\"),\n        ]:\n            # TODO","        on_segment = self.data.cell.dimension == 1\n        if on_segment and self.generator_family != family_by_name(\"Lagrange\"):\n            # TODO")],
]
MU=[
 [(EF,'"RT": ElementFamily.RT','"RT": ElementFamily.BDM')],
 [(ET,"    return element_types[dimension]","    return element_types.get(dimension, CellType.tetrahedron)")],
 [(ET,"    element_types = {\n        0: CellType.point,\n        1: CellType.interval,\n        2: CellType.triangle,\n        3: CellType.tetrahedron,\n    }\n","    element_types = [CellType.point, CellType.interval, CellType.triangle, CellType.tetrahedron]\n")],
 [(EF,"    return families[family]","    return families.get(family, ElementFamily.P)")],
 [(DS,'            family_by_name("BDM"),\n            family_by_name("N1E"),\n            family_by_name("N2E"),\n        ]\n        if','            family_by_name("BDM"),\n            family_by_name("N1E"),\n        ]\n        if')],
 [(DS,"        if (self.dimension == 1 and vector_basis_q) or (self.dimension == 0):","        if self.dimension == 1 and vector_basis_q:")],
 [(DS,"            bc_k_order = self.k_order - 1\n            bc_familiy = family_by_name(\"Lagrange\")","            bc_k_order = self.k_order\n            bc_familiy = family_by_name(\"Lagrange\")")],
 [(DS,"        if self.dimension - 1 < 2:","        if self.dimension - 1 < 3:")],
 [(DS,"            if self.dimension - 1 < 1:\n                bc_k_order = 0","            if self.dimension - 1 < 1:\n                bc_k_order = self.k_order - 1")],
 [(DS,"        if family_by_name(\"BDM\") == self.family:\n            bc_k_order = self.k_order\n","        if family_by_name(\"BDM\") == self.family:\n            bc_k_order = self.k_order - 1\n")],
 [(PS,"        self.integration_order = 2 * np.max(k_orders) + 1","        self.integration_order = 2 * k_orders[0] + 1")],
 [(MP,"        self.integration_order = 2 * np.max(k_orders) + 1","        self.integration_order = 2 * np.max(k_orders)")],
 [(PS,"        for dim in range(np.max(dims) + 1):","        for dim in range(np.max(dims)):")],
 [(PS,"            dim, components, family, k_order, gmesh = data\n            discrete_space = DiscreteSpace(\n                dim,","            dim, components, family, k_order, gmesh = data\n            discrete_space = DiscreteSpace(\n                gmesh.dimension,")],
 [(PS,"                integration_order=self.integration_order,","                integration_order=2 * k_order + 1,")],
 [(FE,"        if (self.data.cell.dimension == 1 and vector_basis_q) or (self.data.cell.dimension == 0):","        if self.data.cell.dimension <= 1 and vector_basis_q:")],
 [(FE,"            discontinuous=self.discontinuous,\n        )\n        # Partially","            discontinuous=False,\n        )\n        # Partially")],
 [(DS,"            discontinuous=self.discontinuous,\n        )\n        self.dof_map.set","        )\n        self.dof_map.set")],
 [(M,'types = {"vertex": 1, "line": 2, "triangle": 3, "tetra": 4}','types = {"vertex": 0, "line": 1, "triangle": 2, "tetra": 3}')],
 [(SP,'3: "tetra"}','3: "triangle"}')],
 [(FE,"        if self.data.cell.dimension == 1 and self.generator_family in [\n            family_by_name(\"RT\"),\n            family_by_name(\"BDM\"),","        if self.data.cell.dimension == 1 and self.generator_family in [\n            family_by_name(\"BDM\"),")],
 [(DS,"        bc_discontinuous = self.discontinuous\n        bc_k_order = self.k_order\n        bc_familiy = self.family","        bc_discontinuous = self.discontinuous\n        bc_k_order = self.k_order\n        bc_familiy = family_by_name(\"Lagrange\")")],
 [(PS,"            dim -= 1\n            if dim < 0:\n                continue\n            if dim == 0:","            dim -= 1\n            if dim <= 0:")],
 [(DS,"        self.generator_family = family_by_name(family)","        self.generator_family = family_by_name(family if dimension > 1 else \"Lagrange\")")],
]
only=sys.argv[1:]
if 'm' not in only:
    for i,e in enumerate(Q):
        if only and 'q%d'%i not in only: continue
        print('Q%d'%i, run(e,P))
if not only or 'm' in only:
    for i,e in enumerate(MU): print('M%d'%i, run(e,P,show=1))
