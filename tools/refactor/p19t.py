import sys; sys.path.insert(0,'/tmp/rf'); sys.path.insert(0,'/verif/tools/refactor'); from rf import run
P=("P19",)
L='postprocess/l2_error_post_processor.py'; N='postprocess/solution_norms_post_processor.py'; MM='mesh/mesh_metrics.py'
src=lambda f: open('/repo/src/'+f).read()
def fn(f,name):
    s=src(f); i=s.index("def %s("%name); j=s.find("\ndef ",i+1); return s[i:j if j>=0 else len(s)]
def ed(f,name,*reps):
    old=fn(f,name); new=old
    for a,b in reps:
        assert a in new,(name,a)
        new=new.replace(a,b)
    return [(f,old,new)]
IDX='''        indexes = [
            i
            for i, element in enumerate(space.elements)
            if element.data.cell.dimension == dim
        ]
'''
Q=[
 # loop over elements directly
 ed(L,"l2_error_projected",(IDX,""),("        for i in indexes:\n","        for i, element in enumerate(space.elements):\n            if element.data.cell.dimension != dim:\n                continue\n"),
    ("space.elements[i]","element")),
 # list of contributions, summed at the end
 ed(L,"l2_error",("        l2_error = 0.0\n","        shares = []\n"),("l2_error += np.sum(\n                    det_jac * weights * (f_e_s","shares.append(np.sum(\n                    det_jac * weights * (f_e_s"),
    ("(f_e_s - f_h_s)\n                )","(f_e_s - f_h_s)\n                ))"),("l2_error += np.sum(","shares.append(np.sum("),("for e in diff_f])\n                )","for e in diff_f])\n                ))"),
    ("np.sqrt(l2_error)","np.sqrt(np.sum(shares))")),
 ed(L,"l2_error",("        l2_error = 0.0\n","        shares = []\n"),("l2_error += np.sum(\n                    det_jac * weights * (f_e_s","shares.append(np.sum(\n                    det_jac * weights * (f_e_s"),
    ("(f_e_s - f_h_s)\n                )","(f_e_s - f_h_s)\n                ))"),("l2_error += np.sum(","shares.append(np.sum("),("for e in diff_f])\n                )","for e in diff_f])\n                ))"),
    ("np.sqrt(l2_error)","sum(shares) ** 0.5")),
 # helper extracted: integral over one element
 [(N,fn(N,"l2_norm"),'''def _share(space, i, points, weights, exact, dim):
    x, jac, det_jac, inv_jac = space.elements[i].evaluate_mapping(points)
    if space.family is family_by_name("Lagrange"):
        values = exact(x[:, 0], x[:, 1], x[:, 2])[0:dim, :]
        return np.sum(det_jac * weights * values * values)
    values = np.array([exact(xv[0], xv[1], xv[2]) for xv in x])
    return np.sum(det_jac * weights * np.array([np.trace(e.T @ e) for e in values]))


def l2_norm(dim, fe_space, functions, skip_fields=[]):
    points, weights = fe_space.quadrature[dim]
    result = []
    for name, space in fe_space.discrete_spaces.items():
        if name not in skip_fields:
            total = sum(
                _share(space, i, points, weights, functions[name], dim)
                for i, element in enumerate(space.elements)
                if element.data.cell.dimension == dim
            )
            result.append(np.sqrt(total))
    return result

''')],
 # generator and builtin sum
 ed(L,"div_error",("np.sum([compute_div_error(idx) for idx in indexes])","sum(compute_div_error(idx) for idx in indexes)")),
 # while loop
 ed(L,"l2_error_projected",("        for i in indexes:\n","        at = 0\n        while at < len(indexes):\n            i = indexes[at]\n            at += 1\n")),
 # dictionary of accumulators
 ed(L,"l2_error_projected",("    l2_errors = []\n","    l2_errors = []\n    totals = {}\n"),("        l2_error = 0.0\n","        totals[name] = 0.0\n"),("l2_error +=","totals[name] +="),("np.sqrt(l2_error)","np.sqrt(totals[name])")),
 # averages kept as two dictionaries
 ed(L,"devia_l2_error",("    tr_T_avgs = {}\n","    tr_T_avgs = {}\n    tr_h = {}\n"),("        tr_T_avgs.__setitem__(name, (tr_T_e_avg, tr_T_h_avg))","        tr_T_avgs[name] = tr_T_e_avg\n        tr_h[name] = tr_T_h_avg"),
    ("        tr_T_e_avg, tr_T_h_avg = tr_T_avgs[name]","        tr_T_e_avg = tr_T_avgs[name]\n        tr_T_h_avg = tr_h[name]")),
 # shift added at the gather
 ed(L,"l2_error_projected",("            dest += dof_shift\n",""),("alpha[dest]","alpha[dest + dof_shift]")),
 # names via keys
 ed(L,"grad_error",("    for item in fe_space.discrete_spaces.items():\n        name, space = item\n","    for name in fe_space.discrete_spaces:\n        space = fe_space.discrete_spaces[name]\n")),
 # sizes
 ed(MM,"mesh_size",("    cell_sizes = list(map(functools.partial(cell_diam, mesh=mesh), cells_with_dim))\n","    cell_sizes = [cell_diam(cell, mesh) for cell in cells_with_dim]\n"),("np.min(cell_sizes)","min(cell_sizes)"),("np.max(cell_sizes)","max(cell_sizes)")),
 ed(MM,"mesh_size",("np.mean(cell_sizes)","sum(cell_sizes) / len(cell_sizes)")),
 ed(MM,"cell_diam",("        if i != j\n","        if i < j\n")),
 ed(MM,"mesh_size",('''    if physical_tag is None:
        cells_with_dim = [cell for cell in mesh.cells if cell.dimension == dim]
    else:
        cells_with_dim = [cell for cell in mesh.cells if cell.dimension == dim and cell.material_id == physical_tag]
''','''    cells_with_dim = [cell for cell in mesh.cells if cell.dimension == dim]
    if physical_tag is not None:
        cells_with_dim = [cell for cell in cells_with_dim if cell.material_id == physical_tag]
''')),
 # index array
 ed(N,"div_norm",(IDX,'''        indexes = np.where(np.array([element.data.cell.dimension for element in space.elements]) == dim)[0]
''')),
 # early exit for a field without elements
 ed(L,"l2_error",("        for i in indexes:\n","        if len(indexes) == 0:\n            l2_errors.append(0.0)\n            continue\n        for i in indexes:\n")),
 # alpha_l from take
 ed(L,"div_error",("alpha_l = alpha[dest]","alpha_l = np.take(alpha, dest)")),
]
M=[
 ed(L,"l2_error_projected",("l2_error += np.sum(det","l2_error = np.sum(det")),
 ed(L,"l2_error",("                l2_error += np.sum(\n                    det_jac * weights * np.array","                l2_error = np.sum(\n                    det_jac * weights * np.array")),
 ed(L,"l2_error",("    l2_errors = []\n","    l2_errors = []\n    l2_error = 0.0\n"),("        l2_error = 0.0\n        indexes","        indexes")),
 ed(L,"grad_error",("for idx in indexes","for idx in indexes[1:]")),
 ed(L,"div_error",("for idx in indexes]","for idx in range(len(indexes) - 1)]")),
 ed(L,"devia_l2_error",("            tr_T_e_avg += np.sum(","            tr_T_e_avg = np.sum(")),
 ed(L,"devia_l2_error",("            tr_T_h_avg += np.sum(","            tr_T_h_avg = np.sum(")),
 ed(L,"devia_l2_error",("        tr_T_e_avg, tr_T_h_avg = tr_T_avgs[name]","        tr_T_e_avg, tr_T_h_avg = list(tr_T_avgs.values())[0]")),
 ed(N,"devia_l2_norm",("            tr_T_e_avg += np.sum(","            tr_T_e_avg = np.sum(")),
 ed(L,"l2_error_projected",("            dest += dof_shift\n","")),
 ed(L,"l2_error",("discrete_spaces_destination_indexes(i)","discrete_spaces_destination_indexes(el_data.cell.id)")),
 ed(L,"l2_error",("exact = functions[name]","exact = list(functions.values())[0]")),
 ed(L,"div_error",('div_name = "div_" + name','div_name = name')),
 ed(L,"div_error",('''        if name in skip_fields:
            continue
''','''        if name in skip_fields:
            break
''')),
 ed(L,"l2_error",('''        if name in skip_fields:
            continue
''','''        if name in skip_fields:
            l2_errors.append(0.0)
            continue
''')),
 ed(N,"div_norm",("np.sum([compute_div_norm(idx) for idx in indexes])","np.mean([compute_div_norm(idx) for idx in indexes])")),
 ed(N,"l2_norm",("        l2_norms.append(np.sqrt(l2_norm))","        l2_norms.append(np.sqrt(l2_norm / len(indexes)))")),
 ed(N,"l2_norm",("            if element.data.cell.dimension == dim\n","")),
 ed(N,"div_norm",("        indexes = [\n            i\n","        indexes = [\n            element.data.cell.id - 30\n")),
 ed(MM,"mesh_size",("if cell.dimension == dim and cell.material_id == physical_tag","if cell.material_id == physical_tag")),
 ed(MM,"mesh_size",("        dim = mesh.dimension\n","        dim = 1\n")),
 ed(MM,"mesh_size",("    max_mesh_size_v = np.max(cell_sizes)\n","    max_mesh_size_v = np.max(cell_sizes[:-1])\n")),
 ed(MM,"cell_diam",("        if i != j\n","        if i == j + 1\n")),
 ed(MM,"cell_diam",("np.max([","np.min([")),
 ed(L,"div_scaled_error",("exact = functions[div_name]","exact = functions.get(\"div_s\")")),
 ed(L,"l2_error",("            n_components = space.n_comp\n","            n_components = space.n_comp\n            if i > 1:\n                break\n")),
 ed(L,"devia_l2_error",('''        l2_error = 0.0
        if space.family not in vec_families:''','''        if len(l2_errors) == 0:
            l2_error = 0.0
        if space.family not in vec_families:''')),
]
from rf import main
main(Q,M,P,sys.argv[1] if len(sys.argv)>1 else '')
