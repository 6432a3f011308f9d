import sys; sys.path.insert(0,'/tmp/rf'); from rf import run
P=("P16",)
C='mesh/conformal_mesher.py'; D='mesh/discrete_domain.py'; M_='mesh/mesh.py'; DK='topology/domain_market.py'
Q=[
[(D,"        for d in range(self.dimension + 1):\n            gmsh.model.mesh.generate(d)\n","        self.__mesh_all()\n"),(D,"    def write_mesh(self","    def __mesh_all(self):\n        d = 0\n        while d <= self.dimension:\n            gmsh.model.mesh.generate(d)\n            d += 1\n\n    def write_mesh(self")],
[(D,"        gmsh.write(file_name)\n        gmsh.finalize()","        try:\n            gmsh.write(file_name)\n        finally:\n            gmsh.finalize()")],
[(D,"        self.__transfer_vertices()\n","        occ = gmsh.model.occ\n        self.__transfer_vertices()\n        occ.synchronize()\n")],
[(D,"        for vertex in self.domain.shapes[0]:\n            if len(vertex.immersed_shapes) > 0:\n                continue\n            gmsh.model.occ.addPoint(\n                vertex.point[0],\n                vertex.point[1],\n                vertex.point[2],\n                self.lc,\n                self.stride_tag(0, vertex.tag),\n            )\n        gmsh.model.occ.synchronize()\n","        kernel = gmsh.model.occ\n        n = 0\n        for vertex in self.domain.shapes[0]:\n            if len(vertex.immersed_shapes) > 0:\n                continue\n            x, y, z = vertex.point\n            kernel.addPoint(x, y, z, self.lc, self.stride_tag(0, vertex.tag))\n            n += 1\n        if n > 0:\n            kernel.synchronize()\n")],
[(M_,"        with open(file_name, \"w\") as file:\n            dimensions = [cell","        file = open(file_name, \"w\")\n        try:\n            dimensions = [cell")] ,
[(C,"    def write_mesh(self, file_name):\n        gmsh.write(file_name)\n        gmsh.finalize()\n        if self","    def write_mesh(self, file_name):\n        gmsh.write(file_name)\n        self.close()\n        if self"),(C,"    def generate(self, lc,","    @staticmethod\n    def close():\n        if gmsh.isInitialized():\n            gmsh.finalize()\n\n    def generate(self, lc,")],
[(C,"        gmsh.initialize()\n        self.lc = lc\n        for tag, point in enumerate(self.points):\n            gmsh.model.geo.addPoint(point[0], point[1], point[2], self.lc, tag + 1)\n","        gmsh.initialize()\n        self.lc = lc\n        add = gmsh.model.geo.addPoint\n        for tag, point in enumerate(self.points, start=1):\n            add(*point[:3], self.lc, tag)\n")],
[(DK,"    with open(file_name, \"r\") as file:\n        loaded = csv.reader(file)\n        for line in loaded:\n            frac = [float(val) for val in line]\n            fractures = np.append(\n                fractures, np.array([np.split(np.array(frac), n_points)]), axis=0\n            )\n","    with open(file_name, \"r\") as file:\n        rows = list(csv.reader(file))\n    for line in rows:\n        frac = [float(val) for val in line]\n        fractures = np.append(\n            fractures, np.array([np.split(np.array(frac), n_points)]), axis=0\n        )\n")],
[(D,"                self.domain.shapes[3]:\n                if volume.physical_tag","                self.domain.shapes[3]:\n                if volume.physical_tag")] if False else [(D,"        # add physical tags\n        self.__physical_group_vertices()\n        if dimension > 0:\n            self.__physical_group_curves()\n\n        if dimension > 1:\n            self.__physical_group_surfaces()\n","        # add physical tags\n        groups = [self.__physical_group_vertices, self.__physical_group_curves, self.__physical_group_surfaces]\n        for add_groups in groups[: min(dimension, 2) + 1]:\n            add_groups()\n")],
]
M=[
[(D,"                    gmsh.model.occ.addSurfaceLoop(loop_tags, tag)\n                    gmsh.model.occ.addVolume([tag], tag)\n\n        gmsh.model.occ.synchronize()\n","                    gmsh.model.occ.addSurfaceLoop(loop_tags, tag)\n                    gmsh.model.occ.addVolume([tag], tag)\n")],
[(D,"        gmsh.write(file_name)\n        gmsh.finalize()","        gmsh.finalize()\n        gmsh.write(file_name)")],
[(D,"        gmsh.write(file_name)\n        gmsh.finalize()","        gmsh.write(file_name)")],
[(D,"        gmsh.write(file_name)\n        gmsh.finalize()","        gmsh.write(file_name)\n        if self.domain is None:\n            return\n        gmsh.finalize()")],
[(D,"        gmsh.initialize()\n        gmsh.option.setNumber(\"General.Terminal\", 0)\n","        gmsh.option.setNumber(\"General.Terminal\", 0)\n        gmsh.initialize()\n")],
[(C,"                self.tags_2d.append(geo_2_cell.id)\n            gmsh.model.geo.addSurfaceLoop(self.tags_2d, geo_3_cell.id)\n            gmsh.model.geo.addVolume([geo_3_cell.id], geo_3_cell.id)\n            self.tags_3d.append(geo_3_cell.id)\n\n        gmsh.model.geo.synchronize()\n","                self.tags_2d.append(geo_2_cell.id)\n            gmsh.model.geo.addSurfaceLoop(self.tags_2d, geo_3_cell.id)\n            gmsh.model.geo.addVolume([geo_3_cell.id], geo_3_cell.id)\n            self.tags_3d.append(geo_3_cell.id)\n\n")],
[(C,"            self.add_fracture_network_description()\n            gmsh.model.geo.synchronize()\n","            self.add_fracture_network_description()\n")],
[(C,"        gmsh.model.geo.synchronize()\n        for d in range(self.dimension + 1):\n            gmsh.model.mesh.generate(d)\n        for _ in range(n_refinments):","        for d in range(self.dimension + 1):\n            gmsh.model.mesh.generate(d)\n        for _ in range(n_refinments):")],
[(C,"        for d in range(self.dimension + 1):\n            gmsh.model.mesh.generate(d)\n        for _ in range(n_refinements):\n            gmsh.model.mesh.refine()","        for _ in range(n_refinements):\n            gmsh.model.mesh.refine()\n        for d in range(self.dimension + 1):\n            gmsh.model.mesh.generate(d)")],
[(M_,"        with open(file_name, \"w\") as file:\n","        file = open(file_name, \"w\")\n        if True:\n")],
[(DK,"    with open(file_name, \"r\") as file:\n        loaded = csv.reader(file)\n","    file = open(file_name, \"r\")\n    loaded = csv.reader(file)\n    if True:\n")],
[(C,"        gmsh.model.occ.synchronize()\n\n        # add physical tags\n        for vertex in self.domain.shapes[0]:\n            if vertex.physical_tag is not None:\n                if len(","        # add physical tags\n        for vertex in self.domain.shapes[0]:\n            if vertex.physical_tag is not None:\n                if len(")],
]
if 'm' not in sys.argv[1:]:
    for i,q in enumerate(Q): print(i,run(q,P))
print('M')
for i,q in enumerate(M): print(i,run(q,P))
