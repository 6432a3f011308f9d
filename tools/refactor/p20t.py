import sys; sys.path.insert(0,'/tmp/rf'); from rf import run
P=("P20",)
PS='spaces/product_space.py'; DM='spaces/dof_map.py'; SA='assembly/SequentialAssembler.py'; PJ='postprocess/projectors.py'; MT='mesh/mesh_topology.py'; MO='mesh/mesh_operations.py'; PM='basis/permute_and_transform.py'; GM='geometry/mapping.py';EF='basis/element_family.py'; TQ='mesh/topological_queries.py'
Q=[
[(MO,"    c0_cell_ids = np.unique([cell_idx[1] for cell_idx in c0_cells_idx])","    c0_cell_ids = np.array(sorted({cell_idx[1] for cell_idx in c0_cells_idx}))")],
[(MT,"""        for d in range(dim + 1):
            self.entity_ids[d] = [
                dim_id[1]
                for dim_id in list(self.entity_maps[d].nodes())
                if dim_id[0] == d
            ]
""","""        for d in range(dim + 1):
            wanted = {d}
            self.entity_ids[d] = [
                dim_id[1]
                for dim_id in list(self.entity_maps[d].nodes())
                if dim_id[0] in wanted
            ]
""")],
[(PJ,"    print(\"Assembly time:\", elapsed_time, \"seconds\")","    _report(\"Assembly time:\", elapsed_time)"),(PJ,"def l2_projector(","def _report(what, seconds):\n    print(what, seconds, 'seconds')\n\n\ndef l2_projector(")],
[(PJ,"    n_dof_g = fe_space.n_dof\n","    n_dof_g = fe_space.n_dof\n    seen = set()\n    for nm in fe_space.discrete_spaces:\n        seen.add(nm)\n    assert len(seen) > 0\n")],
[(GM,"import numpy as np\n","import numpy as np\n\n_SHAPES = {}\n\n\ndef _reference(dimension):\n    if dimension not in _SHAPES:\n        _SHAPES[dimension] = np.eye(dimension)\n    return _SHAPES[dimension]\n")],
[(PS,"        self.names = list(discrete_spaces_data.keys())","        names = set(discrete_spaces_data)\n        self.names = [n for n in discrete_spaces_data if n in names]")],
[(DM,"        dest = np.concatenate(dest_by_dim)\n        return dest\n\n    def bc_dest","        dest = np.empty(sum(len(x) for x in dest_by_dim), dtype=int)\n        start = 0\n        for part in dest_by_dim:\n            dest[start : start + len(part)] = part\n            start += len(part)\n        return dest\n\n    def bc_dest")],
]
M=[
[(PS,"        self.names = list(discrete_spaces_data.keys())","        self.names = list(set(discrete_spaces_data.keys()))")],
[(PS,"        for i, item in enumerate(self.discrete_spaces.items()):\n            name, space = item\n            stride","        for i, item in enumerate(set(self.discrete_spaces.items())):\n            name, space = item\n            stride")],
[(MO,"    c0_cell_ids = np.unique([cell_idx[1] for cell_idx in c0_cells_idx])","    c0_cell_ids = np.array(list({cell_idx[1] for cell_idx in c0_cells_idx}))")],
[(GM,"import numpy as np\n","import numpy as np\n\n_SHAPES = {}\n\n\ndef _reference(cell):\n    if cell.dimension not in _SHAPES:\n        _SHAPES[cell.dimension] = np.eye(cell.id)\n    return _SHAPES[cell.dimension]\n")],
[(TQ,"    entity_map = mesh_topology.entity_map_by_dimension(cell.dimension)\n    neigh_list = list(entity_map.predecessors(cell.index()))\n    return neigh_list","    if cell.index() not in _CACHE:\n        entity_map = mesh_topology.entity_map_by_dimension(cell.dimension)\n        _CACHE[cell.index()] = list(entity_map.predecessors(cell.index()))\n    return _CACHE[cell.index()]"),(TQ,"def find_higher","_CACHE = {}\n\n\ndef find_higher")],
[(TQ,"def find_higher","from functools import lru_cache\n\n\n@lru_cache(maxsize=None)\ndef find_higher")],
[(DM,"        self.vertex_map = {}\n        self.edge_map = {}\n",""),(DM,"class DoFMap:\n","class DoFMap:\n    vertex_map = {}\n    edge_map = {}\n")],
[(PJ,"    alpha = np.zeros(n_dof_g)\n","    alpha = np.random.rand(n_dof_g)\n")],
[(PJ,"    rg = np.zeros(n_dof_g)\n","    rg = np.empty(n_dof_g)\n")],
[(SA,"XX","YY")],
[('topology/shape.py',"        return hash((self.dimension, self.tag))","        return hash((type(self).__name__, self.tag))")],
[('topology/shape.py',"        return hash((self.dimension, self.tag))","        return id(self)")],
[(PS,"    def _define_dof_shift(self):\n        self._dof_shift = 0","    def _define_dof_shift(self):\n        ProductSpace._count = getattr(ProductSpace, '_count', 0) + 1\n        self._dof_shift = 0")],
]
if 'm' not in sys.argv[1:]:
    for i,q in enumerate(Q): print(i,run(q,P))
print('M')
for i,q in enumerate(M): print(i,run(q,P))
