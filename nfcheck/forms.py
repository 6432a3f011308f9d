"""Instance table of the weak forms."""
from .interp import Interp, Obj
from .core import AnchorMissing

LAG, VEC = "Lagrange", "vector"


def vec(d):
    return d


def rot(d):
    return 1 if d == 2 else 3


# key: (module, class, method) -> list of (dims, tag, fields(dim) -> ordered dict)
def F(*items):
    def make(dim):
        out = {}
        for n, fam, k in items:
            out[n] = (fam, k(dim) if callable(k) else k)
        return out
    return make


S = ("s", VEC, vec)
M = ("m", VEC, rot)
U = ("u", LAG, vec)
T = ("t", LAG, rot)

INSTANCES = [
    # name, module, class, method, dims (dimension of the integration cell), tag, fields
    ("laplace_primal", "weak_forms.laplace_primal_weak_form", "LaplacePrimalWeakForm", "evaluate_form", (2, 3), "E", F(("p", LAG, 1))),
    ("laplace_primal_bc", "weak_forms.laplace_primal_weak_form", "LaplacePrimalWeakFormBCDirichlet", "evaluate_form", (1, 2), "B", F(("p", LAG, 1))),
    ("laplace_dual", "weak_forms.laplace_dual_weak_form", "LaplaceDualWeakForm", "evaluate_form", (1, 2, 3), "E", F(("u", VEC, 1), ("p", LAG, 1))),
    ("laplace_dual_bc", "weak_forms.laplace_dual_weak_form", "LaplaceDualWeakFormBCDirichlet", "evaluate_form", (0, 1, 2), "B", F(("u", VEC, 1), ("p", LAG, 1))),
    ("degenerate", "weak_forms.degenerate_elliptic_weak_form", "DegenerateEllipticWeakForm", "evaluate_form", (1, 2, 3), "E", F(("v", VEC, 1), ("q", LAG, 1))),
    ("degenerate_bc", "weak_forms.degenerate_elliptic_weak_form", "DegenerateEllipticWeakFormBCDirichlet", "evaluate_form", (0, 1, 2), "B", F(("v", VEC, 1), ("q", LAG, 1))),
    ("unscaled", "weak_forms.unscaled_elliptic_weak_form", "UnscaledEllipticWeakForm", "evaluate_form", (1, 2, 3), "E", F(("u", VEC, 1), ("p", LAG, 1))),
    ("unscaled_bc", "weak_forms.unscaled_elliptic_weak_form", "UnscaledEllipticWeakFormBCDirichlet", "evaluate_form", (0, 1, 2), "B", F(("u", VEC, 1), ("p", LAG, 1))),
    ("scaled_to_physical", "weak_forms.scaled_to_physical_l2_projection", "ScaledToPhysicalL2Projection", "evaluate_form", (1, 2, 3), "E", F(("v", VEC, 1), ("q", LAG, 1))),
    ("l2_projector_a", "weak_forms.l2_projector_weak_form", "L2ProjectorWeakForm", "evaluate_form", (1, 2, 3), "E", F(("u", LAG, 1))),
    ("l2_projector_b", "weak_forms.l2_projector_weak_form", "L2ProjectorWeakForm", "evaluate_form", (2, 3), "E", F(("s", VEC, vec), ("m", VEC, rot), ("u", LAG, vec), ("t", LAG, rot))),
    ("le_primal", "weak_forms.le_primal_weak_form", "LEPrimalWeakForm", "evaluate_form", (2, 3), "E", F(U)),
    ("le_primal_dirichlet", "weak_forms.le_primal_weak_form", "LEPrimalWeakFormBCDirichlet", "evaluate_form", (1, 2), "B", F(("u", LAG, lambda d: d + 1))),
    ("le_primal_neumann", "weak_forms.le_primal_weak_form", "LEPrimalWeakFormBCNeumann", "evaluate_form", (1, 2), "B", F(("u", LAG, lambda d: d + 1))),
    ("le_primal_normal_dirichlet", "weak_forms.le_primal_weak_form", "LEPrimalWeakFormBCNormalDirichlet", "evaluate_form", (1, 2), "B", F(("u", LAG, lambda d: d + 1))),
    ("le_primal_stress", "weak_forms.le_primal_stress_constraint_weak_form", "LEPrimalStressConstraintWeakForm", "evaluate_form", (2, 3), "E", F(U)),
    ("taylor_hood", "weak_forms.le_taylor_hood_weak_form", "LETaylorHoodWeakForm", "evaluate_form", (2,), "E", F(("u", LAG, vec), ("p", LAG, 1))),
    ("taylor_hood_bc", "weak_forms.le_taylor_hood_weak_form", "LETaylorHoodWeakFormBCDirichlet", "evaluate_form", (1,), "B", F(("u", LAG, lambda d: d + 1), ("p", LAG, 1))),
    ("lce_primal", "weak_forms.lce_primal_weak_form", "LCEPrimalWeakForm", "evaluate_form", (2, 3), "E", F(U, T)),
    ("lce_primal_bc", "weak_forms.lce_primal_weak_form", "LCEPrimalWeakFormBCDirichlet", "evaluate_form", (1, 2), "B", F(("u", LAG, lambda d: d + 1), ("t", LAG, lambda d: rot(d + 1)))),
    ("le_dual", "weak_forms.le_dual_weak_form", "LEDualWeakForm", "evaluate_form", (2, 3), "E", F(S, U, T)),
    ("le_dual_v", "weak_forms.le_dual_weak_form", "LEDualWeakForm", "evaluate_form_vectorized", (2, 3), "E", F(S, U, T)),
    ("le_dual_bc", "weak_forms.le_dual_weak_form", "LEDualWeakFormBCDirichlet", "evaluate_form", (1, 2), "B", F(("s", VEC, lambda d: d + 1), ("u", LAG, lambda d: d + 1), ("t", LAG, lambda d: rot(d + 1)))),
    ("le_riesz", "weak_forms.le_riesz_map_weak_form", "LERieszMapWeakForm", "evaluate_form", (2, 3), "E", F(S, U, T)),
    ("le_riesz_v", "weak_forms.le_riesz_map_weak_form", "LERieszMapWeakForm", "evaluate_form_vectorized", (2, 3), "E", F(S, U, T)),
    ("lce_dual", "weak_forms.lce_dual_weak_form", "LCEDualWeakForm", "evaluate_form", (2, 3), "E", F(S, M, U, T)),
    ("lce_dual_v", "weak_forms.lce_dual_weak_form", "LCEDualWeakForm", "evaluate_form_vectorized", (2, 3), "E", F(S, M, U, T)),
    ("lce_dual_bc", "weak_forms.lce_dual_weak_form", "LCEDualWeakFormBCDirichlet", "evaluate_form", (1, 2), "B", F(("s", VEC, lambda d: d + 1), ("m", VEC, lambda d: rot(d + 1)), ("u", LAG, lambda d: d + 1), ("t", LAG, lambda d: rot(d + 1)))),
    ("lce_dual_neumann", "weak_forms.lce_dual_weak_form", "LCEDualWeakFormBCNeumann", "evaluate_form", (1, 2), "B", F(("s", VEC, lambda d: d + 1), ("m", VEC, lambda d: rot(d + 1)), ("u", LAG, lambda d: d + 1), ("t", LAG, lambda d: rot(d + 1)))),
    ("lce_scaled_dual", "weak_forms.lce_scaled_dual_weak_form", "LCEScaledDualWeakForm", "evaluate_form", (2, 3), "E", F(S, M, U, T)),
    ("lce_scaled_dual_v", "weak_forms.lce_scaled_dual_weak_form", "LCEScaledDualWeakForm", "evaluate_form_vectorized", (2, 3), "E", F(S, M, U, T)),
    ("lce_scaled_dual_bc", "weak_forms.lce_scaled_dual_weak_form", "LCEScaledDualWeakFormBCDirichlet", "evaluate_form", (1, 2), "B", F(("s", VEC, lambda d: d + 1), ("m", VEC, lambda d: rot(d + 1)), ("u", LAG, lambda d: d + 1), ("t", LAG, lambda d: rot(d + 1)))),
    ("lce_riesz", "weak_forms.lce_riesz_map_weak_form", "LCERieszMapWeakForm", "evaluate_form", (2, 3), "E", F(S, M, U, T)),
    ("lce_riesz_v", "weak_forms.lce_riesz_map_weak_form", "LCERieszMapWeakForm", "evaluate_form_vectorized", (2, 3), "E", F(S, M, U, T)),
    ("lce_scaled_riesz", "weak_forms.lce_scaled_riesz_map_weak_form", "LCEScaledRieszMapWeakForm", "evaluate_form", (2, 3), "E", F(S, M, U, T)),
    ("lce_scaled_riesz_v", "weak_forms.lce_scaled_riesz_map_weak_form", "LCEScaledRieszMapWeakForm", "evaluate_form_vectorized", (2, 3), "E", F(S, M, U, T)),
    ("le_dual_neumann", "weak_forms.le_dual_weak_form", "LCEDualWeakFormBCNeumann", "evaluate_form", (1, 2), "B", F(("s", VEC, lambda d: d + 1), ("m", VEC, lambda d: rot(d + 1)), ("u", LAG, lambda d: d + 1), ("t", LAG, lambda d: rot(d + 1)))),
    ("lce_scaled_dual_neumann", "weak_forms.lce_scaled_dual_weak_form", "LCEDualWeakFormBCNeumann", "evaluate_form", (1, 2), "B", F(("s", VEC, lambda d: d + 1), ("m", VEC, lambda d: rot(d + 1)), ("u", LAG, lambda d: d + 1), ("t", LAG, lambda d: rot(d + 1)))),
]


def run_instance(program, name, module, cls, method, dim, tag, fields):
    ci = program.find_class(cls, module)
    fi = program.lookup_method(ci, method)
    if fi is None:
        raise AnchorMissing("%s.%s" % (cls, method))
    it = Interp(program, {"dim": dim + (tag == "B"), "tag": tag, "fields": fields(dim)})
    args = [Obj("elemidx", tag=tag, f=None, name="iel"), it.state_vec()]
    if name == "scaled_to_physical":
        args.append(it.state_vec("alpha_scaled"))
    out = it.run_method(fi, Obj("form", store={}, cls=ci, space=Obj("pspace")), args)
    return it, fi, out
