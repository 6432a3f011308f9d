import sys; sys.path.insert(0,'/tmp/sd')
from mk import mk
mk("mesh-size-tag-attribute","P17",[("mesh/mesh_metrics.py","cell.dimension == dim and cell.material_id == physical_tag]","cell.dimension == dim and cell.physical_tag == physical_tag]")],
"""
from lib import *
from mesh.mesh_metrics import mesh_size
m = mesh(2, 0.5)
a = mesh_size(m, 2)
b = mesh_size(m, 2, 1)
assert np.allclose(a, b), (a, b)
""","mesh_size called with a physical tag","the selection by physical tag reads an attribute MeshCell does not have")
mk("cell-data-call-arity","P17",[("postprocess/solution_post_processor.py","f_h = cell_centered_quatity(cell, fe_space, name, alpha)\n                fh_data[cell_idx] = f_h.ravel()\n\n            c_data_dict[name + \"_h\"] = [fh_data]\n        else:\n            fh_data = np.zeros((len(gmesh.points), n_data))\n            vertices = space.mesh_topology.entities_by_dimension(0)\n            cell_vertex_map = space.mesh_topology.entity_map_by_dimension(0)\n            for vertex_idx in vertices:\n                vertex_g_index = (0, vertex_idx)\n                if not cell_vertex_map.has_node(vertex_g_index):\n                    continue\n                node_idx = gmesh.cells[vertex_idx].node_tags[0]\n                cell_idxs = list(cell_vertex_map.predecessors(vertex_g_index))\n\n                f_h = node_average_quatity(node_idx, cell_idxs, fe_space, name, alpha)\n                fh_data[node_idx] = f_h.ravel()\n\n            p_data_dict[name + \"_h\"] = fh_data\n\n    mesh_points = gmesh.points\n    cells = [cell for cell in gmesh.cells if cell.dimension == gmesh.dimension]",
"f_h = cell_centered_quatity(cell, fe_space.discrete_spaces[name], alpha)\n                fh_data[cell_idx] = f_h.ravel()\n\n            c_data_dict[name + \"_h\"] = [fh_data]\n        else:\n            fh_data = np.zeros((len(gmesh.points), n_data))\n            vertices = space.mesh_topology.entities_by_dimension(0)\n            cell_vertex_map = space.mesh_topology.entity_map_by_dimension(0)\n            for vertex_idx in vertices:\n                vertex_g_index = (0, vertex_idx)\n                if not cell_vertex_map.has_node(vertex_g_index):\n                    continue\n                node_idx = gmesh.cells[vertex_idx].node_tags[0]\n                cell_idxs = list(cell_vertex_map.predecessors(vertex_g_index))\n\n                f_h = node_average_quatity(node_idx, cell_idxs, fe_space, name, alpha)\n                fh_data[node_idx] = f_h.ravel()\n\n            p_data_dict[name + \"_h\"] = fh_data\n\n    mesh_points = gmesh.points\n    cells = [cell for cell in gmesh.cells if cell.dimension == gmesh.dimension]") if False else ("postprocess/solution_post_processor.py","def cell_centered_quatity(cell, fe_space, name, alpha):","def cell_centered_quatity(cell, fe_space, name, *, alpha, average):")],
"""
from lib import *
from postprocess.solution_post_processor import write_vtk_file
m = mesh(2, 0.5)
s = space(m, {"p": (1, "Lagrange", 0)}, disc=("p",))
alpha = np.ones(s.n_dof)
write_vtk_file("out.vtk", m, s, alpha, cell_centered=["p"])
""","export with a cell centred field","the cell centred branch calls a function with arguments its signature does not accept")
