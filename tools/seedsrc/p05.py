import sys; sys.path.insert(0,'/tmp/sd')
from mk import mk
mk("shared-unknown-kept-once","P05",[("assembly/ScatterFormData.py",
"""    for k, sequ in enumerate(destination_idx):
        res_g[sequ] += res_l[k]
""",
"""    res_g[destination_idx] += res_l
""")],'''
from lib import *
from petsc4py import PETSc
from assembly.SequentialAssembler import SequentialAssembler

m = mesh(2, 0.7)
s = space(m, {"u": (1, "Lagrange", 1)})


class Jump:
    """an interface form whose element vector is one everywhere"""
    def __init__(self, space):
        self.space = space

    def evaluate_form(self, cell_id, pair, alpha_pair):
        n = sum(len(a) for a in alpha_pair)
        return np.ones(n), np.eye(n)


elements = s.discrete_spaces["u"].elements
pair = None
for i in range(len(elements)):
    for j in range(i):
        if pair is None and len(set(s.destination_indexes(i)) & set(s.destination_indexes(j))) == 2:
            pair = (j, i)
res = np.zeros(s.n_dof)
jac = PETSc.Mat()
jac.createAIJ([s.n_dof, s.n_dof])
jac.setOption(PETSc.Mat.Option.NEW_NONZERO_ALLOCATION_ERR, False)
a = SequentialAssembler(s, jac, res)
a.form_to_input_list = {"jump": ["interface_form", [(0, pair)], Jump(s), np.zeros(s.n_dof)]}
a.scatter_forms()
jac.assemble()
expected = np.zeros(s.n_dof)
for e in pair:
    for d in s.destination_indexes(e):
        expected[d] += 1.0
assert np.allclose(res, expected), "contributions of the shared unknowns are lost: %s instead of %s" % (res.sum(), expected.sum())
assert np.allclose(jac.getDiagonal().array, expected)
''',"an interface form on a continuous space, whose two elements share unknowns",
"the two contributions of a shared unknown collapse into one")
mk("boundary-form-previous-state","P05",[("assembly/ScatterFormData.py",
"""    destination_idx = weak_form.space.bc_destination_indexes(idx)
    alpha_l = alpha_n[destination_idx]
""",
"""    destination_idx = weak_form.space.bc_destination_indexes(idx)
    alpha_l = alpha[destination_idx]
""")],'''
from lib import *
from petsc4py import PETSc
from assembly.SequentialAssembler import SequentialAssembler

m = mesh(2, 0.7)
s = space(m, {"u": (1, "Lagrange", 1)}, bc=bc_tags(mesh(2, 0.7)))
n_bc = len(s.discrete_spaces["u"].bc_elements)
assert n_bc > 0


class Robin:
    """residual of a boundary term that is linear in the state"""
    def __init__(self, space):
        self.space = space

    def evaluate_form(self, i, alpha, t):
        return t * alpha, t * np.eye(len(alpha))


new, old = np.arange(1.0, s.n_dof + 1), np.full(s.n_dof, -3.0)
res = np.zeros(s.n_dof)
jac = PETSc.Mat()
jac.createAIJ([s.n_dof, s.n_dof])
jac.setOption(PETSc.Mat.Option.NEW_NONZERO_ALLOCATION_ERR, False)
a = SequentialAssembler(s, jac, res)
a.form_to_input_list = {"robin": ["time_dependent_bc_form", list(range(n_bc)), Robin(s), (new, old), 2.0]}
a.scatter_forms()
jac.assemble()
x = jac.createVecRight()
x.array[:] = new
y = jac * x
assert np.allclose(res, y.array), "the residual of the boundary form does not belong to the state of its Jacobian"
''',"a time-dependent boundary form whose value depends on the state, with a current state that differs from the previous one",
"time-dependent boundary terms are evaluated at the previous state instead of the current one")
