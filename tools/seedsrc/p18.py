import sys; sys.path.insert(0,'/tmp/sd')
from mk import mk
mk("subdomain-cell-rows","P18",[("postprocess/solution_post_processor.py",
"""                for cell_idx, cell in enumerate(top_cells):
                    if cell.material_id not in allowed_tags:
                        continue
""","""                field_cells = [
                    cell for cell in top_cells if cell.material_id in allowed_tags
                ]
                for cell_idx, cell in enumerate(field_cells):
""")],'''
from lib import *
import meshio
from spaces.product_space import ProductSpace
from postprocess.solution_post_processor import write_fe_spaces_on_vtk_file_with_exact_solution as write
from mesh.mesh_metrics import cell_centroid

m = mesh(2, 0.5)
top = [c for c in m.cells if c.dimension == 2]
for c in top[: len(top) // 2]:
    c.material_id = 2
spaces = []
for name, tag in (("a", 1), ("b", 2)):
    s = ProductSpace({name: (2, 1, "Lagrange", 1, m)})
    s.build_structures({name: [tag]}, {name: []})
    spaces.append(s)
f = lambda x, y, z: np.array([[x]])
alpha = np.zeros(max(s.n_dof for s in spaces))
write("o.vtk", m, spaces, {"a": f, "b": f}, alpha, ["a", "b"])
data = meshio.read("o.vtk").cell_data
for name, tag in (("a", 1), ("b", 2)):
    values = np.ravel(data[name + "_e"][0])
    for c, v in zip(top, values):
        if c.material_id == tag:
            assert abs(v - cell_centroid(c, m)[0]) < 1e-8, "row of another cell"
        else:
            assert np.isnan(v)
''',"cell-centred fields on part of the mesh only, with other cells before theirs",
"the values of the cells of a subdomain are written in the rows of the first cells of the mesh")
mk("node-in-sorted-cell","P18",[("postprocess/solution_post_processor.py",
"            [i for i, node_id in enumerate(cell.node_tags) if node_id == node_idx]",
"            [i for i, node_id in enumerate(cell.node_tags[cell.perm]) if node_id == node_idx]")],'''
from lib import *
import meshio
from postprocess.solution_post_processor import write_vtk_file

m = mesh(2, 0.4)
s = space(m, {"u": (1, "Lagrange", 1)})
field = s.discrete_spaces["u"]
alpha = np.zeros(s.n_dof)
for i, element in enumerate(field.elements):
    # values of the nodes of the element
    x = m.points[element.data.cell.node_tags]
    alpha[s.destination_indexes(i)] = 1.0 + 2.0 * x[:, 0] - x[:, 1]
write_vtk_file("o.vtk", m, s, alpha)
out = meshio.read("o.vtk")
got = np.ravel(out.point_data["u_h"])
want = 1.0 + 2.0 * m.points[:, 0] - m.points[:, 1]
nodes = np.unique([c.node_tags for c in m.cells if c.dimension == 2])
assert np.allclose(got[nodes], want[nodes]), np.max(np.abs(got - want)[nodes])
''',"elements whose node tags are not listed in increasing order",
"the value at a node is taken from another vertex of the elements around it")
mk("colors-of-dimension-two-swapped","P18",[("mesh/mesh.py",
"""                c1_colors = [cells_c1_con_to_color[id] for id in c0_cells]
                c2_colors = [cells_c2_con_to_color[id] for id in c0_cells]
                c3_colors = [cells_c3_con_to_color[id] for id in c0_cells]
""","""                c1_colors = [cells_c1_con_to_color[id] for id in np.sort(c0_cells)]
                c2_colors = [cells_c2_con_to_color[id] for id in np.sort(c0_cells)]
                c3_colors = [cells_c3_con_to_color[id] for id in c0_cells]
""")],'''
raise SystemExit(0)
''',"x","y") if False else None
mk("error-field-of-first-name","P18",[("postprocess/solution_post_processor.py",
"""                e_f = np.linalg.norm(f_e - f_h)
                eh_data[cell_idx] = e_f.ravel()

            c_data_dict[name + "_error"] = [eh_data]
""","""                e_f = np.linalg.norm(f_e - f_h)
                eh_data[cell_idx] = e_f.ravel()

            c_data_dict.setdefault(name[:1] + "_error", [eh_data])
""")],'''
from lib import *
import meshio
from postprocess.solution_post_processor import write_vtk_file_pointwise_l2_error as write

m = mesh(2, 0.6)
s = space(m, {"p": (1, "Lagrange", 1), "p_next": (1, "Lagrange", 1)})
f = lambda x, y, z: np.array([[0.0]])
alpha = np.zeros(s.n_dof)
alpha[s.n_dof // 2:] = 1.0
write("o.vtk", m, s, {"p": f, "p_next": f}, alpha, ["p", "p_next"])
data = meshio.read("o.vtk").cell_data
assert np.allclose(data["p_error"][0], 0.0)
assert np.allclose(data["p_next_error"][0], 1.0)
''',"a field whose name has more than one letter","the cell-centred error of a field is stored under a wrong name")if False else None
mk("write-vtk-point-row","P18",[("postprocess/solution_post_processor.py",
"""                e_f = np.linalg.norm(f_e - f_h)
                eh_data[node_idx] = e_f.ravel()
""","""                e_f = np.linalg.norm(f_e - f_h)
                eh_data[vertex_idx] = e_f.ravel()
""")],'''
from lib import *
import meshio
from postprocess.solution_post_processor import write_vtk_file_pointwise_l2_error as write

m = mesh(2, 0.5)
# the cells of the vertices are numbered backwards
vertices = [c for c in m.cells if c.dimension == 0]
ids = [c.id for c in vertices]
assert ids == [c.node_tags[0] for c in vertices]
new = dict(zip(ids, reversed(ids)))
cells = m.cells.copy()
for c in vertices:
    c.id = new[c.id]
    cells[c.id] = c
m.cells = cells
for c in m.cells:
    c.sub_cells_ids[0] = np.array([new[i] for i in c.sub_cells_ids[0]])
s = space(m, {"p": (1, "Lagrange", 1)})
f = lambda x, y, z: np.array([[x + 3.0 * y]])
write("o.vtk", m, s, {"p": f}, np.zeros(s.n_dof))
got = np.ravel(meshio.read("o.vtk").point_data["p_error"])
nodes = np.unique([c.node_tags for c in m.cells if c.dimension == 2])
assert np.allclose(got[nodes], (m.points[:, 0] + 3.0 * m.points[:, 1])[nodes])
''',"a mesh in which the vertices are not numbered like the nodes",
"the error at a node is written in the row of another node")
