import sys; sys.path.insert(0,'/tmp/rf'); sys.path.insert(0,'/verif/tools/refactor'); from rf import run
P=("P18",)
SP='postprocess/solution_post_processor.py'; M='mesh/mesh.py'
src=lambda f: open('/repo/src/'+f).read()
def part(f,a,b,start=None):
    s=src(f); k=s.index(start) if start else 0; i=s.index(a,k); return s[i:s.index(b,i)]
def fn(f,name,nxt): return part(f,name,nxt)
WV=part(SP,"def write_vtk_file(","def write_vtk_file_with_exact")
WE=part(SP,"def write_vtk_file_with_exact_solution(","def write_fe_spaces")
WF=part(SP,"def write_fe_spaces_on","def write_vtk_file_pointwise")
WP=part(SP,"def write_vtk_file_pointwise","def write_vtk_file_exact_solution")
WX=src(SP)[src(SP).index("def write_vtk_file_exact_solution"):]
NA=part(SP,"def node_average_quatity","def cell_centered_quatity")
CQ=part(SP,"def cell_centered_quatity","def write_vtk_file(")
WM=part(M,"    def write_vtk(","    def gather_graph_edges")
def ed(whole,*reps):
    new=whole
    for a,b in reps:
        assert a in new,a
        new=new.replace(a,b)
    return [(SP if whole is not WM else M,whole,new)]
LOOP="""        physical_tags_%d = np.array("""
Q=[
 # comprehension of cells instead of a loop
 ed(WV,("            cells = [cell for cell in gmesh.cells if cell.dimension == dim]\n            fh_data = np.zeros((len(cells), n_data))\n\n            for cell_idx, cell in enumerate(cells):\n                f_h = cell_centered_quatity(cell, fe_space, name, alpha)\n                fh_data[cell_idx] = f_h.ravel()\n",
        "            fh_data = np.array([cell_centered_quatity(cell, fe_space, name, alpha).ravel() for cell in gmesh.cells if cell.dimension == dim])\n")),
 # cells selected once before the fields
 ed(WV,("    p_data_dict = {}\n","    cells = [cell for cell in gmesh.cells if cell.dimension == dim]\n    p_data_dict = {}\n"),
       ("            cells = [cell for cell in gmesh.cells if cell.dimension == dim]\n","") ,
       ("    cells = [cell for cell in gmesh.cells if cell.dimension == gmesh.dimension]\n","")),
 # counter instead of enumerate
 ed(WP,("            for cell_idx, cell in enumerate(cells):\n                x = ","            cell_idx = -1\n            for cell in cells:\n                cell_idx += 1\n                x = ")),
 # helper for connectivity
 [(SP,WX,WX.replace("    cells = [cell for cell in gmesh.cells if cell.dimension == gmesh.dimension]\n    con_d = np.array([cell.node_tags for cell in cells])\n    meshio_cell_types = {0: \"vertex\", 1: \"line\", 2: \"triangle\", 3: \"tetra\"}\n    cells_dict = {meshio_cell_types[gmesh.dimension]: con_d}\n","    cells_dict = _top_cells(gmesh)\n")+'''

def _top_cells(gmesh):
    names = ["vertex", "line", "triangle", "tetra"]
    con = []
    for cell in gmesh.cells:
        if cell.dimension == gmesh.dimension:
            con.append(cell.node_tags)
    return {names[gmesh.dimension]: np.array(con)}
''')],
 # loop over dimensions in write_vtk
 [(M,WM,'''    def write_vtk(self, file_name=None, coloring_mesh_q=False):
        prefix = file_name if file_name is not None else "geometric_mesh"
        names = {0: "vertex", 1: "line", 2: "triangle", 3: "tetra"}
        n_colors = {1: 8, 2: 8, 3: 14}
        for dim in [3, 2, 1, 0]:
            cells = [
                cell
                for cell in self.cells
                if cell.dimension == dim
                and cell.id is not None
                and cell.material_id is not None
            ]
            if len(cells) == 0:
                continue
            cell_data = {
                "physical_tag": [np.array([cell.material_id for cell in cells])],
                "entity_tag": [np.array([cell.id for cell in cells])],
            }
            if coloring_mesh_q:
                for co_dim in range(1, dim + 1):
                    colors, _ = coloring_mesh_by_co_dimension(
                        n_colors[co_dim], self, dim, co_dim
                    )
                    cell_data["c" + str(co_dim) + "_colors"] = [
                        [colors[cell.id] for cell in cells]
                    ]
            mesh = meshio.Mesh(
                self.points,
                cells={names[dim]: np.array([cell.node_tags for cell in cells])},
                cell_data=cell_data,
            )
            meshio.write(prefix + "_" + str(dim) + "d.vtk", mesh)

''')],
 # node value with early continue, points via node
 ed(WE,("                x = gmesh.points[node_idx]\n                f_e = f_exact(x[0], x[1], x[2])","                f_e = f_exact(*gmesh.points[node_idx])")),
 ed(NA,("        par_point_id = np.array(\n            [i for i, node_id in enumerate(cell.node_tags) if node_id == node_idx]\n        )\n        assert len(par_point_id) == 1\n","        par_point_id = np.where(cell.node_tags == node_idx)[0]\n        assert len(par_point_id) == 1\n")),
 ed(NA,("    cells = [gmesh.cells[dim_id[1]] for dim_id in cell_idxs]\n","    cells = []\n    for _, cell_id in cell_idxs:\n        cells.append(gmesh.cells[cell_id])\n")),
 ed(CQ,("    dest = fe_space.discrete_spaces_destination_indexes(element_idx)[name]\n    alpha_l = alpha[dest]\n","    alpha_l = alpha[fe_space.destination_indexes(element_idx, name)]\n")),
 ed(WF,("                if name in cell_centered","                if name in cell_centered") if False else ("    if cell_centered is None:\n        cell_centered = []\n","    cell_centered = [] if cell_centered is None else cell_centered\n")),
 ed(WF,("                    if not cell_idxs:\n                        continue\n","                    if len(cell_idxs) == 0:\n                        continue\n")),
 ed(WX,("        p_data_dict.__setitem__(name + \"_e\", fe_data)","        p_data_dict[name + \"_e\"] = fe_data"),("        for ip, x in enumerate(gmesh.points):\n            f_e = f_exact(x[0], x[1], x[2])\n            fe_data[ip] = f_e.ravel()\n","        for ip in range(len(gmesh.points)):\n            x, y, z = gmesh.points[ip]\n            fe_data[ip] = f_exact(x, y, z).ravel()\n")),
 ed(WV,("    mesh.write(file_name)","    meshio.write(file_name, mesh)")),
]
Mu=[
 ed(WV,("    cells = [cell for cell in gmesh.cells if cell.dimension == gmesh.dimension]\n","    cells = [cell for cell in gmesh.cells if cell.dimension == gmesh.dimension and cell.material_id is not None]\n    cells.sort(key=lambda c: c.material_id)\n")),
 ed(WV,("node_idx = gmesh.cells[vertex_idx].node_tags[0]","node_idx = vertex_idx")),
 ed(WE,("                fe_data[node_idx] = f_e.ravel()\n","                fe_data[vertex_idx] = f_e.ravel()\n")),
 ed(WE,('            c_data_dict[name + "_e"] = [fe_data]','            c_data_dict[name + "_e"] = [fh_data]')),
 ed(WP,('con_d = np.array([cell.node_tags for cell in cells])','con_d = np.array([cell.node_tags for cell in reversed(cells)])')),
 ed(WF,("                    fe_data[cell_idx] = f_e.ravel()\n\n","                    fe_data[cell.id] = f_e.ravel()\n\n") ) if "fe_data[cell_idx] = f_e.ravel()\n\n" in WF.replace("    "*1,"    ") and False else ed(WF,("                for cell_idx, cell in enumerate(top_cells):\n                    if cell.material_id not in allowed_tags:\n                        continue\n","                for cell_idx, cell in enumerate([c for c in top_cells if c.material_id in allowed_tags]):\n")),
 ed(WF,("                        if gmesh.cells[cid[1]].material_id in allowed_tags\n","                        if gmesh.cells[cid[1]].material_id in allowed_tags and cid[1] > vertex_idx\n")),
 ed(NA,("        if cell.material_id not in fe_space.fields_physical_tags[name]:\n            continue\n","        if cell.material_id not in fe_space.fields_physical_tags[name]:\n            break\n")),
 ed(NA,("dest = fe_space.discrete_spaces_destination_indexes(element_idx)[name]","dest = fe_space.discrete_spaces_destination_indexes(cell.id)[name]")),
 ed(NA,("            cell.dimension, phi_shapes, gmesh.points[cell.node_tags]","            cell.dimension, phi_shapes, gmesh.points[cells[0].node_tags]")),
 ed(NA,("for i, node_id in enumerate(cell.node_tags) if","for i, node_id in enumerate(np.sort(cell.node_tags)) if")),
 ed(CQ,("    element_idx = space.id_to_element[cell.id]\n","    element_idx = list(space.id_to_element.values()).index(space.id_to_element[cell.id])\n")),
 ed(CQ,("    phi_tab = element.evaluate_basis(point, jac, det_jac, inv_jac)","    phi_tab = element.evaluate_basis(par_points[0:1], jac, det_jac, inv_jac)")),
 ed(WX,("            fe_data[ip] = f_e.ravel()\n","            fe_data[ip] = f_e.ravel()\n            fe_data[0] = f_e.ravel()\n")),
 [(M,'''        entity_tags_2d = np.array(
            [
                cell.id
                for cell in self.cells
                if cell.dimension == 2
                and cell.id is not None
                and cell.material_id is not None
            ]
        )
''','''        entity_tags_2d = np.array(
            [
                cell.id
                for cell in self.cells
                if cell.dimension == 2
                and cell.id is not None
            ]
        )
''')],
 [(M,'cell_data.__setitem__("c1_colors", [c1_colors])\n                cell_data.__setitem__("c2_colors", [c2_colors])\n\n            mesh_2d','cell_data.__setitem__("c1_colors", [c2_colors])\n                cell_data.__setitem__("c2_colors", [c1_colors])\n\n            mesh_2d')],
 [(M,'cells_c3_con_to_color, _ = coloring_mesh_by_co_dimension(14, self, 3, 3)','cells_c3_con_to_color, _ = coloring_mesh_by_co_dimension(14, self, 3, 2)')],
 [(M,'meshio.write(prefix + "_1d.vtk", mesh_1d)','meshio.write(prefix + "_1d.vtk", mesh_2d)')],
 [(M,'self.conformal_mesh.get_cell_data("gmsh:physical", "line")','self.conformal_mesh.get_cell_data("gmsh:physical", "triangle")')],
 ed(WV,("            n_data *= dim","            n_data += dim")),
 ed(WP,('        f_exact = functions[name]\n\n        if name in','        f_exact = functions[list(fe_space.discrete_spaces)[0]]\n\n        if name in')),
 ed(WE,("            fh_data = np.zeros((len(gmesh.points), n_data))","            fh_data = np.zeros((len(space.mesh_topology.entities_by_dimension(0)), n_data))")),
 ed(WV,("cell_idxs = list(cell_vertex_map.predecessors(vertex_g_index))","cell_idxs = list(cell_vertex_map.predecessors(vertex_g_index))[:1]")),
]
for i,e in enumerate(Q):
    if len(sys.argv)>1 and sys.argv[1]=='m': break
    print("Q%d"%i,run(e,P),flush=True)
for i,e in enumerate(Mu):
    if len(sys.argv)>1 and sys.argv[1].startswith('q'): break
    print("M%d"%i,run(e,P),flush=True)
