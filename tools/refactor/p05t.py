import sys; sys.path.insert(0,'/tmp/rf'); from rf import run
P=("P05",)
SC='assembly/ScatterFormData.py'; SA='assembly/SequentialAssembler.py'; PR='postprocess/projectors.py'
LHS="""    data = jac_l.ravel()
    row = np.repeat(destination_idx, len(destination_idx))
    col = np.tile(destination_idx, len(destination_idx))
    nnz = data.shape[0]
    for k in range(nnz):
        jac_g.setValue(row=row[k], col=col[k], value=data[k], addv=True)
"""
RHS="""    for k, sequ in enumerate(destination_idx):
        res_g[sequ] += res_l[k]
"""
INT="""    destination_idx_p = weak_form.space.destination_indexes(idx_p)
    destination_idx_n = weak_form.space.destination_indexes(idx_n)
    destination_idx = np.concatenate((destination_idx_p, destination_idx_n))
    alpha_pair = (alpha[destination_idx_p], alpha[destination_idx_n])
"""
Q=[
[(SC,LHS,"    for i, row in enumerate(destination_idx):\n        for j, col in enumerate(destination_idx):\n            jac_g.setValue(row=row, col=col, value=jac_l[i, j], addv=True)\n")],
[(SC,LHS,"    jac_g.setValues(destination_idx, destination_idx, jac_l, addv=True)\n")],
[(SC,LHS,"    n = len(destination_idx)\n    for i in range(n):\n        for j in range(n):\n            value = jac_l[i][j]\n            if value != 0.0:\n                jac_g.setValue(destination_idx[i], destination_idx[j], value, True)\n")],
[(SC,LHS,"    n = len(destination_idx)\n    row, col = np.repeat(destination_idx, n), np.tile(destination_idx, n)\n    [jac_g.setValue(row=r, col=c, value=v, addv=True) for r, c, v in zip(row, col, jac_l.ravel())]\n")],
[(SC,RHS,"    np.add.at(res_g, destination_idx, res_l)\n")],
[(SC,RHS,"    for k in range(len(destination_idx)):\n        i = destination_idx[k]\n        res_g[i] = res_g[i] + res_l[k]\n")],
[(SC,RHS,"    for sequ, value in zip(destination_idx, res_l):\n        res_g[sequ] += value\n")],
[(SC,INT,"    destinations = [weak_form.space.destination_indexes(i) for i in (idx_p, idx_n)]\n    destination_idx = np.concatenate(destinations)\n    alpha_pair = tuple(alpha[d] for d in destinations)\n")],
[(SC,INT,"    destination_idx_p, destination_idx_n = map(weak_form.space.destination_indexes, idx_pair)\n    destination_idx = np.hstack([destination_idx_p, destination_idx_n])\n    alpha_pair = (alpha[destination_idx_p], alpha[destination_idx_n])\n")],
[(SA,"        list(map(scatter_function, sequence))\n","        for index in sequence:\n            scatter_function(index)\n")],
[(SA,"        list(map(scatter_function, sequence))\n","        [scatter_function(index) for index in sequence]\n")],
[(SA,"""            form_type = input_list[0]
            is_time_dependent_q = "time_dependent" in form_type
            if is_time_dependent_q:""","""            form_type = input_list[0]
            if form_type.startswith("time_dependent"):""")],
[(SA,"""            is_time_dependent_q = "time_dependent" in form_type
            if is_time_dependent_q:""","""            if len(input_list) == 5:""")],
[(PR,"        row = np.repeat(dest, len(dest))\n        col = np.tile(dest, len(dest))\n        nnz = data.shape[0]\n        nnz_idx = np.where(data != 0.0)[0]\n","        row = np.repeat(dest, len(dest))\n        col = np.tile(dest, len(dest))\n        nnz_idx = range(len(data))\n")],
[(PR,"    [scatter_form_data(A, i, weak_form) for i in range(n_els)]\n","    for i in range(n_els):\n        scatter_form_data(A, i, weak_form)\n")],
[(PR,"    name = list(fe_space.discrete_spaces.keys())[0]\n    n_els = len(fe_space.discrete_spaces[name].elements)\n","    first = next(iter(fe_space.discrete_spaces.values()))\n    n_els = len(first.elements)\n")],
[(PR,"nnz_idx = np.where(data != 0.0)[0]","nnz_idx = np.flatnonzero(data)")],
[(PR,"        rg[dest] += r_el\n","        for k, d in enumerate(dest):\n            rg[d] += r_el[k]\n")],
[(PR,"            [\n                A.setValue(row=row[idx], col=col[idx], value=data[idx], addv=True)\n                for idx in nnz_idx\n                if row[idx] <= col[idx]\n            ]","            for idx in nnz_idx:\n                if row[idx] > col[idx]:\n                    continue\n                A.setValue(row=row[idx], col=col[idx], value=data[idx], addv=True)\n")],
[(SC,"def scatter_bc_form_data(idx, weak_form, res_g, jac_g, alpha):\n    destination_idx = weak_form.space.bc_destination_indexes(idx)\n    alpha_l = alpha[destination_idx]\n    res_l, jac_l = weak_form.evaluate_form(idx, alpha_l)\n    __scatter_generic_form_data(res_g, jac_g, res_l, jac_l, destination_idx)\n",
"def scatter_bc_form_data(idx, weak_form, res_g, jac_g, alpha):\n    _gather_scatter(idx, weak_form, res_g, jac_g, alpha, weak_form.space.bc_destination_indexes)\n\n\ndef _gather_scatter(idx, weak_form, res_g, jac_g, alpha, lookup):\n    where = lookup(idx)\n    form_data = weak_form.evaluate_form(idx, alpha[where])\n    _scatter(res_g, jac_g, where, *form_data)\n\n\ndef _scatter(res_g, jac_g, where, r, j):\n    for k, d in enumerate(where):\n        res_g[d] += r[k]\n    n = len(where)\n    for k in range(n * n):\n        jac_g.setValue(row=where[k // n], col=where[k % n], value=j[k // n, k % n], addv=True)\n")],
]
M=[
[(SC,RHS,"    res_g[destination_idx] += res_l\n")],
[(SC,"row = np.repeat(destination_idx, len(destination_idx))\n    col = np.tile(","row = np.tile(destination_idx, len(destination_idx))\n    col = np.repeat(")],
[(SC,"    nnz = data.shape[0]\n","    nnz = len(destination_idx)\n")],
[(SC,"value=data[k], addv=True)","value=data[k], addv=False)")],
[(SC,"        jac_g.setValue(row=row[k], col=col[k], value=data[k], addv=True)","        if row[k] <= col[k]:\n            jac_g.setValue(row=row[k], col=col[k], value=data[k], addv=True)")],
[(SC,"        jac_g.setValue(row=row[k], col=col[k], value=data[k], addv=True)","        if abs(data[k]) > 1.0e-12:\n            jac_g.setValue(row=row[k], col=col[k], value=data[k], addv=True)")],
[(SC,"        res_g[sequ] += res_l[k]","        res_g[sequ] = res_l[k]")],
[(SC,"np.concatenate((destination_idx_p, destination_idx_n))","np.concatenate((destination_idx_n, destination_idx_p))")],
[(SC,"alpha_pair = (alpha[destination_idx_p], alpha[destination_idx_n])","alpha_pair = (alpha[destination_idx_p], alpha[destination_idx_p])")],
[(SC,"    destination_idx = weak_form.space.bc_destination_indexes(idx)\n    alpha_l = alpha[destination_idx]\n","    destination_idx = weak_form.space.destination_indexes(idx)\n    alpha_l = alpha[destination_idx]\n")],
[(SC,"weak_form.evaluate_form(idx, alpha_l_n, alpha_l, t)","weak_form.evaluate_form(idx, alpha_l, alpha_l_n, t)")],
[(SA,"            alpha_n=alpha_n,\n            alpha=alpha,\n","            alpha_n=alpha,\n            alpha=alpha_n,\n")],
[(SA,'"time_dependent_bc_form": scatter_time_dependent_bc_form_data','"time_dependent_bc_form": scatter_time_dependent_form_data')],
[(SA,'"bc_interface_form": scatter_bc_interface_form_data','"bc_interface_form": scatter_bc_form_data')],
[(SA,"list(map(scatter_function, sequence))","list(map(scatter_function, sequence[1:]))")],
[(SA,"list(map(scatter_function, sequence))","map(scatter_function, sequence)")],
[(SA,'is_time_dependent_q = "time_dependent" in form_type','is_time_dependent_q = "time_dependent_form" in form_type')],
[(PR,"data != 0.0","np.abs(data) > 1.0e-14")],
[(PR,"                if row[idx] <= col[idx]\n","                if row[idx] < col[idx]\n")],
[(PR,"range(n_els)]","range(n_els - 1)]")],
[(PR,"-rg","rg")],
[(PR,"rg[dest] += r_el","rg[dest] = r_el")],
[(SC,"    destination_idx = weak_form.space.destination_indexes(idx_p)\n    alpha_l = alpha","    destination_idx = weak_form.space.destination_indexes(idx)\n    alpha_l = alpha")],
[(SC,"    # contribute rhs\n    __scatter_generic_rhs_data(res_g, res_l, destination_idx)\n","    if np.linalg.norm(res_l) > 1e-10:\n        __scatter_generic_rhs_data(res_g, res_l, destination_idx)\n")],
]
w=sys.argv[1:]
if 'm' not in w:
    for i,q in enumerate(Q): print('Q',i,run(q,P))
for i,q in enumerate(M): print('M',i,run(q,P))
