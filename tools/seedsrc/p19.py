import sys; sys.path.insert(0,'/tmp/sd')
from mk import mk
L="postprocess/l2_error_post_processor.py"
mk("deviator-average-of-last","P19",[(L,"        tr_T_e_avg, tr_T_h_avg = tr_T_avgs[name]\n","")],'''
from lib import *
from postprocess.l2_error_post_processor import devia_l2_error
m = mesh(2, 0.6)
s = space(m, {"s": (2, "RT", 1), "t": (2, "RT", 1)})
np.random.seed(1)
alpha = np.random.rand(s.n_dof)
f = {"s": lambda x, y, z: np.array([[x, 2 * y], [1.0 + x, 3.0]]),
     "t": lambda x, y, z: np.array([[5.0 + y, 2 * y], [y, 7.0 * x]])}
both = devia_l2_error(2, s, f, alpha)
one = [devia_l2_error(2, s, f, alpha, skip_fields=[k])[0] for k in ("t", "s")]
assert np.allclose(both, one), (both, one)
''',"two tensor fields with different mean traces in one product space",
"the deviatoric error of every field is taken around the mean trace of the last field")
mk("shift-after-gather","P19",[(L,'''            dest += dof_shift
            alpha_l = alpha[dest]
''','''            alpha_l = alpha[dest]
            dest += dof_shift
''')],'''
from lib import *
from postprocess.l2_error_post_processor import l2_error_projected
m = mesh(1, 0.4)
s = space(m, {"u": (1, "Lagrange", 1)})
alpha = np.linspace(1.0, 2.0, s.n_dof)
behind = np.concatenate([np.full(5, 9.0), alpha])
a = l2_error_projected(1, s, alpha)
b = l2_error_projected(1, s, behind, dof_shift=5)
assert np.allclose(a, b), (a, b)
''',"a space whose unknowns are stored behind those of another space (dof_shift not zero)",
"the norm is computed from the unknowns of the other space")
mk("mesh-size-tagged-dimension","P19",[("postprocess/solution_norms_post_processor.py",'''        l2_norm = 0.0
        indexes = [''','''        indexes = [''') if False else ("mesh/mesh_metrics.py","[cell for cell in mesh.cells if cell.dimension == dim and cell.material_id == physical_tag]","[cell for cell in mesh.cells if cell.dimension == mesh.dimension and cell.material_id == physical_tag]")],'''
from lib import *
from mesh.mesh_metrics import mesh_size, cell_diam
m = mesh(2, 0.5)
tag = bc_tags(m)[0]
got = mesh_size(m, 1, tag) if any(c.material_id == tag and c.dimension == 1 for c in m.cells) else None
sizes = [cell_diam(c, m) for c in m.cells if c.dimension == 1 and c.material_id == tag]
assert sizes and np.allclose(got, (min(sizes), np.mean(sizes), max(sizes))), (got, sizes)
''',"a size asked for cells of a lower dimension with a physical tag",
"the tagged selection ignores the dimension that was asked for")
