import sys; sys.path.insert(0,'/tmp/rf'); sys.path.insert(0,'/verif/tools/refactor'); from rf import run
P=("P06",)
DM='spaces/dof_map.py'; PS='spaces/product_space.py'; MT='mesh/mesh_topology.py'; DS='spaces/discrete_space.py'; MP='spaces/md_product_space.py'
FACE="""                    face_ids,
                    np.split(
                        np.array(range(global_indices[2], global_indices[3])),
                        len(face_ids),
                    ),
"""
ACC="""        dof_indices = np.array(
            [
                0,
                entity_support[0],
                entity_support[1],
                entity_support[2],
                entity_support[3],
            ]
        )
        global_indices = np.add.accumulate(dof_indices)
        global_indices += n_dof_shift
"""
DEST="""            entity_dest = np.array(
                [entity_maps[d].get(dof_s[1]) for dof_s in dof_supports], dtype=int
            ).ravel()
            dest_by_dim.append(entity_dest)
        dest = np.concatenate(dest_by_dim)
        return dest

    def bc"""
IDS="""            vertex_ids = self.mesh_topology.entities_by_dimension(0)
            edge_ids = self.mesh_topology.entities_by_dimension(1)
            face_ids = self.mesh_topology.entities_by_dimension(2)
        elif dim == 3:"""
LOOP="""        for i, item in enumerate(self.discrete_spaces.items()):
            name, space = item
            stride = dofs_list[i]
            field_dest = (
                self._retrieve_space_destination_indexes(space, cell_index) + stride
            )
            field_dest += self.dof_shift
            discrete_spaces_dest.__setitem__(name, field_dest)
"""
HEAD="""    def discrete_spaces_destination_indexes(self, cell_index):
        dofs_list = list(self.discrete_spaces_dofs.values())
        dofs_list.insert(0, 0)
        dofs_list = np.add.accumulate(dofs_list)
"""
Q=[
[(DM,ACC,"        global_indices = [n_dof_shift]\n        for support in entity_support:\n            global_indices.append(global_indices[-1] + support)\n")],
[(DM,ACC,"        global_indices = np.concatenate(([0], np.cumsum(entity_support))) + n_dof_shift\n")],
[(DM,FACE,"                    face_ids,\n                    np.split(\n                        np.arange(global_indices[2], global_indices[3]),\n                        n_faces,\n                    ),\n")],
[(DM,FACE,"                    face_ids,\n                    np.arange(global_indices[2], global_indices[3]).reshape(n_faces, -1),\n")],
[(DM,DEST,"            entity_dest = [entity_maps[d][i] for _, i in dof_supports]\n            dest_by_dim.append(np.array(entity_dest, dtype=int).ravel())\n        return np.concatenate(dest_by_dim)\n\n    def bc")],
[(DM,"            e_dofs = int(np.mean(n_entity_dofs))\n            entity_support[dim] *= e_dofs * n_components\n","            entity_support[dim] = entity_support[dim] * n_entity_dofs[0] * n_components\n")],
[(DM,"        self.n_dof = sum(entity_support)","        self.n_dof = int(np.sum(entity_support))")],
[(DM,"        self.n_dof = sum(entity_support)","        self.n_dof = global_indices[4] - n_dof_shift")],
[(DM,"            if int(np.mean(self.ref_element.num_entity_dofs[d])) == 0:\n                filtered_dof_supports = []\n","            if int(np.mean(self.ref_element.num_entity_dofs[d])) == 0:\n                continue\n")],
[(DM,"            filtered_dof_supports = [\n                dof_support\n                for dof_support in list(bc_cells_ids[d])\n                if (d, dof_support) in dof_supports\n            ]\n","            filtered_dof_supports = list(bc_cells_ids[d])\n")],
[(PS,HEAD+"\n        discrete_spaces_dest = {}\n"+LOOP,"""    def discrete_spaces_destination_indexes(self, cell_index):
        discrete_spaces_dest = {}
        stride = self.dof_shift
        for name, space in self.discrete_spaces.items():
            discrete_spaces_dest[name] = (
                self._retrieve_space_destination_indexes(space, cell_index) + stride
            )
            stride += self.discrete_spaces_dofs[name]
""")],
[(PS,"        self.n_dof = 0\n        for item in self.discrete_spaces_dofs.items():\n            name, dofs = item\n            self.n_dof += dofs\n","        self.n_dof = sum(self.discrete_spaces_dofs.values())\n")],
[(PS,"        self.discrete_spaces_dofs = {}\n        for item in self.discrete_spaces.items():\n            name, space = item\n            dofs = space.dof_map.dof_number()\n            self.discrete_spaces_dofs.__setitem__(name, dofs)\n","        self.discrete_spaces_dofs = {\n            name: space.n_dof for name, space in self.discrete_spaces.items()\n        }\n")],
[(PS,"        cell = space.elements[cell_index].data.cell\n        cell_id = cell.id\n        field_dest = space.dof_map.destination_indices(cell_id)\n        return field_dest\n","        return space.dof_map.destination_indices(space.element_ids[cell_index])\n")],
[(PS,"            dest = list(self.discrete_spaces_destination_indexes(cell_index).values())\n            dest = np.concatenate(dest)\n","            blocks = self.discrete_spaces_destination_indexes(cell_index)\n            dest = np.concatenate([blocks[name] for name in self.names])\n")],
[(MT,"        for d in range(dim + 1):\n            self.entity_ids[d] = [\n                dim_id[1]\n                for dim_id in list(self.entity_maps[d].nodes())\n                if dim_id[0] == d\n            ]\n","        for d, graph in enumerate(self.entity_maps):\n            self.entity_ids[d] = [id for node_dim, id in graph.nodes() if node_dim == d]\n")],
[(MT,"        for d in range(dim + 1):\n            self.entity_maps.append(self.mesh.build_graph(dim, dim - d))\n","        self.entity_maps = [self.mesh.build_graph(dim, dim - d) for d in range(dim + 1)]\n")],
[(DS,"            self.elements = list(\n                map(\n                    partial(\n                        FiniteElement,\n                        family=self.generator_family,\n                        k_order=self.k_order,\n                        mesh=self.mesh_topology.mesh,\n                        discontinuous=self.discontinuous,\n                        integration_order=self.integration_order,\n                    ),\n                    self.element_ids,\n                )\n            )\n","            self.elements = [\n                FiniteElement(\n                    id,\n                    self.generator_family,\n                    self.k_order,\n                    self.mesh_topology.mesh,\n                    self.discontinuous,\n                    self.integration_order,\n                )\n                for id in self.element_ids\n            ]\n")],
[(DS,"dict(zip(self.element_ids, range(len(self.element_ids))))","{id: i for i, id in enumerate(self.element_ids)}")],
[(DS,"        self.id_to_bc_element = dict(\n            zip(self.bc_element_ids, range(len(self.bc_element_ids)))\n        )\n","        self.id_to_bc_element = {id: i for i, id in enumerate(self.bc_element_ids)}\n")],
[(DM,"""        if dim == 0:
            vertex_ids = self.mesh_topology.entities_by_dimension(0)
        elif dim == 1:
            vertex_ids = self.mesh_topology.entities_by_dimension(0)
            edge_ids = self.mesh_topology.entities_by_dimension(1)
        elif dim == 2:
            vertex_ids = self.mesh_topology.entities_by_dimension(0)
            edge_ids = self.mesh_topology.entities_by_dimension(1)
            face_ids = self.mesh_topology.entities_by_dimension(2)
        elif dim == 3:
            vertex_ids = self.mesh_topology.entities_by_dimension(0)
            edge_ids = self.mesh_topology.entities_by_dimension(1)
            face_ids = self.mesh_topology.entities_by_dimension(2)
            volume_ids = self.mesh_topology.entities_by_dimension(3)
        else:
            raise ValueError("Case not implemented for dimension: " % dim)
""","""        if dim not in (0, 1, 2, 3):
            raise ValueError("Case not implemented for dimension: %r" % dim)
        ids = [self.mesh_topology.entities_by_dimension(d) for d in range(dim + 1)]
        ids += [[]] * (3 - dim)
        vertex_ids, edge_ids, face_ids, volume_ids = ids
""")],
]
M=[
[(DM,"np.array(range(global_indices[2], global_indices[3])),","np.array(range(global_indices[1], global_indices[2])),")],
[(DM,"            entity_support[dim] *= e_dofs * n_components","            entity_support[dim] *= e_dofs")],
[(DM,"        global_indices += n_dof_shift\n","")],
[(DM,"        self.n_dof = sum(entity_support)","        self.n_dof = sum(entity_support[:-1])")],
[(DM,"        self.n_dof = sum(entity_support)","        self.n_dof = global_indices[-1]")],
[(DM,"        for d in range(self.dimension + 1):\n            entity_map","        for d in reversed(range(self.dimension + 1)):\n            entity_map")],
[(DM,"                for dof_support in list(bc_cells_ids[d])\n                if (d, dof_support) in dof_supports\n","                for d_s, dof_support in dof_supports\n                if dof_support in bc_cells_ids[d]\n")],
[(DM,"        for d in range(dim):\n            entity_map","        for d in range(dim - 1):\n            entity_map")],
[(PS,"            stride = dofs_list[i]\n            field_dest = (\n                self._retrieve_space_bc_","            stride = dofs_list[i + 1]\n            field_dest = (\n                self._retrieve_space_bc_")],
[(PS,"""            field_dest = (
                self._retrieve_space_bc_destination_indexes(space, cell_index) + stride
            )
            field_dest += self.dof_shift
""","""            field_dest = (
                self._retrieve_space_bc_destination_indexes(space, cell_index) + stride
            )
""")],
[(PS,"        dofs_list.insert(0, 0)\n        dofs_list = np.add.accumulate(dofs_list)\n\n        discrete_spaces_dest","        dofs_list.insert(0, 0)\n\n        discrete_spaces_dest")],
[(PS,"        neigh_cell_id = neigh_list[0][1]","        neigh_cell_id = neigh_list[0][0]")],
[(PS,"        cell = space.bc_elements[cell_index].data.cell","        cell = space.elements[cell_index].data.cell")],
[(MT,"                if dim_id[0] == d\n","                if dim_id[0] <= d\n")],
[(MT,"self.mesh.build_graph_on_physical_tags(physical_tags, dim, dim - d)","self.mesh.build_graph_on_physical_tags(physical_tags, dim, d)")],
[(MT,"    def build_data_on_pysical_tags(self, physical_tags=[]):\n        self.entity_maps.clear()\n","    def build_data_on_pysical_tags(self, physical_tags=[]):\n")],
[(MT,"        dim_gap = dim - codimension\n        return self.entity_ids[dim_gap]","        return self.entity_ids[codimension]")],
[(DS,"dict(zip(self.element_ids, range(len(self.element_ids))))","dict(zip(sorted(self.element_ids), range(len(self.element_ids))))")],
[(DS,"self.dof_map.build_entity_maps(n_components=self.n_comp)","self.dof_map.build_entity_maps()")],
[(DS,"                self.bc_element_ids,\n            )\n        )\n","                sorted(self.bc_element_ids),\n            )\n        )\n")],
[(MP,"            stride = dofs_list[i]\n            field_dest = (\n                self._retrieve_space_destination","            stride = dofs_list[-1]\n            field_dest = (\n                self._retrieve_space_destination")],
[(DM,"            e_dofs = int(np.mean(n_entity_dofs))\n            entity_support[dim] *= e_dofs * n_components\n","            e_dofs = int(np.mean(n_entity_dofs))\n            entity_support[dim] *= max(e_dofs, 1) * n_components\n")],
[(PS,"        self._dof_shift = int(value)","        self._dof_shift += int(value)")],
]
if __name__=="__main__":
    only = sys.argv[1:]
    if "m" not in only:
        for i,e in enumerate(Q): print("Q",i,run(e,P))
    for i,e in enumerate(M): print("M",i,[str(x)[:200] for x in run(e,P)][:3])
