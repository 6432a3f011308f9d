"""Independent statement of the variational problems.

Every weak form is given as  a(trial, test) + l(test)  where trial and test are
accessors for values, physical gradients and divergences of the fields.  The
measure (one quadrature weight, one determinant) is added in one place by the
comparison, not by the statement of a form.
"""
from .poly import Poly, ZERO, ONE


def con(x):
    return Poly.const(x)


def half():
    from fractions import Fraction
    return con(Fraction(1, 2))


class Acc:
    """field accessor: either the discrete function of a coefficient vector or one
    basis function of component (F, c)."""

    def __init__(self, ctx, alpha=None, only=None, var=None, tag=None):
        self.ctx, self.alpha, self.only, self.var = ctx, alpha, only, var
        self.tag = tag or ctx.tag

    def atom(self, F, c, d, comp):
        if self.alpha is not None:
            return Poly.a(("fld", self.alpha, F, c, self.tag, d, comp))
        if (F, c) != self.only:
            return ZERO
        return Poly.a(("phi", F, self.tag, d, comp, self.var))

    def val(self, F, c=0):
        """scalar family value"""
        return self.atom(F, c, 0, 0)

    def vec(self, F, c=0):
        return [self.atom(F, c, 0, k) for k in range(self.ctx.dim)]

    def grad(self, F, c=0):
        """physical gradient of a scalar family"""
        ctx = self.ctx
        return [sum((Poly.a(("iJ", self.tag, r, k)) * self.atom(F, c, 1 + r, 0) for r in range(ctx.dim)), ZERO)
                for k in range(ctx.dim)]

    def div(self, F, c=0):
        """divergence of a normal-continuous family (one division by the determinant)"""
        ctx = self.ctx
        return sum((self.atom(F, c, 1 + k, k) for k in range(ctx.dim)), ZERO) * Poly.a(("J", self.tag), -1)


class Ctx:
    def __init__(self, dim, tag, comps):
        self.dim, self.tag, self.comps = dim, tag, comps
        self.ctag = tag

    def k(self, key, *idx):
        return Poly.a(("coef", key, self.ctag, tuple(idx)))

    def gate(self, key, sig=(False, False, True)):
        return Poly.a(("gate", key, sig))

    def n(self, i):
        return Poly.a(("nrm", i))


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), ZERO)


def ddot(A, B):
    return sum((dot(a, b) for a, b in zip(A, B)), ZERO)


def tr(A):
    return sum((A[i][i] for i in range(len(A))), ZERO)


def sym(A):
    n = len(A)
    return [[half() * (A[i][j] + A[j][i]) for j in range(n)] for i in range(n)]


def skew(A):
    n = len(A)
    return [[half() * (A[i][j] - A[j][i]) for j in range(n)] for i in range(n)]


def scale(s, A):
    return [[s * x for x in r] for r in A]


def add(*Ms):
    n = len(Ms[0])
    m = len(Ms[0][0])
    return [[sum((M[i][j] for M in Ms), ZERO) for j in range(m)] for i in range(n)]


def eye(n, s=ONE):
    return [[s if i == j else ZERO for j in range(n)] for i in range(n)]


def axial(A):
    """axial vector of a square tensor"""
    if len(A) == 2:
        return [A[1][0] - A[0][1]]
    return [A[2][1] - A[1][2], A[0][2] - A[2][0], A[1][0] - A[0][1]]


def spin(t):
    if len(t) == 1:
        return [[ZERO, -t[0]], [t[0], ZERO]]
    return [[ZERO, -t[2], t[1]], [t[2], ZERO, -t[0]], [-t[1], t[0], ZERO]]


def inv(p):
    return p.power(-1)


def root(p):
    from fractions import Fraction
    return p.power(Fraction(1, 2))


def vals(X, ctx, F):
    return [X.val(F, c) for c in range(ctx.comps[F])]


def rows(X, ctx, F):
    return [X.vec(F, c) for c in range(ctx.comps[F])]


def divs(X, ctx, F):
    return [X.div(F, c) for c in range(ctx.comps[F])]


def grads(X, ctx, F):
    return [X.grad(F, c) for c in range(ctx.comps[F])]


def rhs_on(c, T, fields, key="rhs", sign=-1):
    """sign * f . test with one source component per unknown component, numbered through the fields"""
    out, i = ZERO, 0
    for F in fields:
        for k in range(c.comps[F]):
            out = out + c.k(key, i) * T.val(F, k)
            i += 1
    return out * sign


# ---- scalar elliptic ------------------------------------------------------------
def laplace_primal(c):
    return (lambda U, T: c.k("kappa") * dot(U.grad("p"), T.grad("p")),
            lambda T: -c.k("rhs", 0) * T.val("p"))


def laplace_dual(c):
    return (lambda U, T: inv(c.k("kappa")) * dot(U.vec("u"), T.vec("u")) - U.val("p") * T.div("u")
            + U.div("u") * T.val("p"),
            lambda T: -c.k("rhs", 0) * T.val("p"))


def degenerate(c):
    g = c.gate("porosity") * inv(root(c.k("porosity")))
    gd = [c.k("grad_d_phi", i) for i in range(c.dim)]

    def D(X):
        return g * (c.k("d_phi") * X.div("v") + dot(gd, X.vec("v")))
    return (lambda U, T: dot(U.vec("v"), T.vec("v")) - U.val("q") * D(T) + D(U) * T.val("q")
            + U.val("q") * T.val("q"),
            lambda T: -c.k("rhs", 0) * T.val("q"))


EPS = 1e-16


def unscaled(c):
    def floor(key):
        g = c.gate(key)
        return g * c.k(key) + (ONE - g) * con(EPS)
    return (lambda U, T: inv(floor("d_phi") * floor("d_phi")) * dot(U.vec("u"), T.vec("u")) - U.val("p") * T.div("u")
            + U.div("u") * T.val("p") + floor("porosity") * U.val("p") * T.val("p"),
            lambda T: -root(c.k("porosity")) * c.k("rhs", 0) * T.val("p"))


def scaled_to_physical(c):
    g = c.gate("porosity")
    S = Acc(c, alpha="alpha_scaled")
    sv = g * c.k("d_phi") + (ONE - g)
    sq = g * inv(root(c.k("porosity"))) + (ONE - g)
    return (lambda U, T: dot(U.vec("v"), T.vec("v")) + U.val("q") * T.val("q"),
            lambda T: -sv * dot(S.vec("v"), T.vec("v")) - sq * S.val("q") * T.val("q"))


def l2(fields, vector):
    def make(c):
        def a(U, T):
            s = ZERO
            for F in fields:
                for k in range(c.comps[F]):
                    s = s + (dot(U.vec(F, k), T.vec(F, k)) if F in vector else U.val(F, k) * T.val(F, k))
            return s

        def l(T):
            s = ZERO
            for F in fields:
                for k in range(c.comps[F]):
                    if F in vector:
                        s = s - dot([c.k(F, k, i) for i in range(c.dim)], T.vec(F, k))
                    else:
                        s = s - c.k(F, k) * T.val(F, k)
            return s
        return a, l
    return make


# ---- elasticity, primal -----------------------------------------------------------
def hooke(c, E, lam="lambda", mu="mu"):
    return add(scale(c.k(mu) * 2, sym(E)), eye(c.dim, c.k(lam) * tr(E)))


def le_primal(c):
    return (lambda U, T: ddot(hooke(c, grads(U, c, "u")), grads(T, c, "u")),
            lambda T: rhs_on(c, T, ["u"], sign=1))


def le_primal_stress(c):
    beta = con(10 ** 6)

    def target():
        return [[c.k("s_target", i, j) for j in range(c.dim)] for i in range(c.dim)]
    return (lambda U, T: beta * ddot(hooke(c, grads(U, c, "u")), grads(T, c, "u")),
            lambda T: -beta * ddot(target(), grads(T, c, "u")))


def taylor_hood(c):
    lam, mu = c.k("lambda"), c.k("mu")

    def a(U, T):
        s = hooke(c, grads(U, c, "u"))
        dev = add(s, eye(c.dim, -tr(s) * con(c.dim).power(-1)))
        return ddot(add(dev, eye(c.dim, U.val("p"))), grads(T, c, "u")) \
            + T.val("p") * tr(grads(U, c, "u")) - inv(lam + mu) * U.val("p") * T.val("p")
    return a, lambda T: rhs_on(c, T, ["u"], sign=1)


def lce_primal(c):
    def sigma(U):
        E = add(grads(U, c, "u"), spin(vals(U, c, "t")))
        return add(hooke(c, E), scale(c.k("kappa") * 2, skew(E)))

    def a(U, T):
        s = sigma(U)
        return ddot(s, grads(T, c, "u")) + c.k("gamma") * ddot(grads(U, c, "t"), grads(T, c, "t")) \
            + dot(axial(skew(s)), vals(T, c, "t"))
    return a, lambda T: rhs_on(c, T, ["u", "t"], sign=1)


# ---- elasticity, dual ---------------------------------------------------------------
def compliance(c, S, lam, mu, kap=None, full=True):
    """inverse law; without the couple modulus the law acts on the full tensor"""
    l, m = c.k(lam), c.k(mu)
    spherical = eye(c.dim, -(l * inv(con(2) * m + con(c.dim) * l)) * tr(S))
    if kap is None:
        return scale(inv(con(2) * m), add(S, spherical))
    return add(scale(inv(con(2) * m), add(sym(S), spherical)), scale(inv(con(2) * c.k(kap)), skew(S)))


def compliance_m(c, Mr, sfx="_o"):
    if c.dim == 2:
        return scale(inv(c.k("mu" + sfx) + c.k("kappa" + sfx)), Mr)
    return compliance(c, Mr, "lambda" + sfx, "mu" + sfx, "kappa" + sfx)


def le_dual(c):
    def a(U, T):
        s, t = rows(U, c, "s"), rows(T, c, "s")
        return ddot(compliance(c, s, "lambda", "mu"), t) + dot(vals(U, c, "u"), divs(T, c, "s")) \
            - dot(vals(U, c, "t"), axial(t)) + dot(divs(U, c, "s"), vals(T, c, "u")) \
            - dot(axial(s), vals(T, c, "t"))
    return a, lambda T: rhs_on(c, T, ["u", "t"])


def le_riesz(c):
    def a(U, T):
        s, t = rows(U, c, "s"), rows(T, c, "s")
        return ddot(compliance(c, s, "lambda", "mu"), t) + dot(divs(U, c, "s"), divs(T, c, "s")) \
            + dot(vals(U, c, "u"), vals(T, c, "u")) + dot(vals(U, c, "t"), vals(T, c, "t"))
    return a, lambda T: ZERO


def sdiv(c, X, scaled):
    """divergence of the couple stress, for the scaled forms of l*m"""
    d = divs(X, c, "m")
    if not scaled:
        return d
    gl = [c.k("grad_l", i) for i in range(c.dim)]
    return [c.k("l") * d[k] + dot(gl, X.vec("m", k)) for k in range(c.comps["m"])]


def lce_dual(scaled):
    def make(c):
        def a(U, T):
            s, t = rows(U, c, "s"), rows(T, c, "s")
            m, w = rows(U, c, "m"), rows(T, c, "m")
            Am = compliance_m(c, m)
            if not scaled:
                Am = scale(inv(c.k("l")), Am)
            return ddot(compliance(c, s, "lambda_s", "mu_s", "kappa_s"), t) + dot(vals(U, c, "u"), divs(T, c, "s")) \
                - dot(vals(U, c, "t"), axial(t)) \
                + ddot(Am, w) + dot(vals(U, c, "t"), sdiv(c, T, scaled)) \
                + dot(divs(U, c, "s"), vals(T, c, "u")) \
                + dot(sdiv(c, U, scaled), vals(T, c, "t")) - dot(axial(s), vals(T, c, "t"))
        return a, lambda T: rhs_on(c, T, ["u", "t"])
    return make


def lce_riesz(scaled):
    def make(c):
        def a(U, T):
            s, t = rows(U, c, "s"), rows(T, c, "s")
            m, w = rows(U, c, "m"), rows(T, c, "m")
            Am = compliance_m(c, m)
            if not scaled:
                Am = scale(inv(c.k("l")), Am)
            return ddot(compliance(c, s, "lambda_s", "mu_s", "kappa_s"), t) + dot(divs(U, c, "s"), divs(T, c, "s")) \
                + ddot(Am, w) + dot(sdiv(c, U, scaled), sdiv(c, T, scaled)) \
                + dot(vals(U, c, "u"), vals(T, c, "u")) + dot(vals(U, c, "t"), vals(T, c, "t"))
        return a, lambda T: ZERO
    return make


# ---- boundary forms (dim: ambient dimension; tests of vector fields are traces) -------
BETA = con(10 ** 12)


def bc_penalty(fields, keys=None):
    """beta (u - u_D) . v on every listed field"""
    def make(c):
        def a(U, T):
            return BETA * sum((dot(vals(U, c, F), vals(T, c, F)) for F in fields), ZERO)

        def l(T):
            s = ZERO
            for F in fields:
                for k in range(c.comps[F]):
                    s = s - BETA * c.k(F, k) * T.val(F, k)
            return s
        return a, l
    return make


def bc_traction(c):
    return (lambda U, T: ZERO), (lambda T: sum((c.k("t", k) * T.val("u", k) for k in range(c.comps["u"])), ZERO))


def bc_normal(c):
    nv = [c.n(i) for i in range(c.comps["u"])]
    return (lambda U, T: BETA * dot(vals(U, c, "u"), nv) * dot(vals(T, c, "u"), nv),
            lambda T: -BETA * dot([c.k("u", k) for k in range(c.comps["u"])], nv) * dot(vals(T, c, "u"), nv))


class Trace(Acc):
    """basis function of the neighbouring cell evaluated on the boundary"""

    def __init__(self, ctx, only, var):
        Acc.__init__(self, ctx, None, only, var, "N")

    def normal(self, F, c=0):
        return dot(self.vec(F, c), [self.ctx.n(i) for i in range(self.ctx.dim)])


def bc_flux(pairs, sign, weight=None):
    """sign * u_D (w . n) for pairs (flux field, data key)"""
    def make(c):
        def l(T):
            s = ZERO
            for F, key in pairs:
                w = weight(c, F) if weight else ONE
                for k in range(c.comps[F]):
                    s = s + w * c.k(key, k) * T.normal(F, k)
            return s * sign
        return (lambda U, T: ZERO), l
    return make


def degenerate_bc(c):
    g = c.gate("porosity")
    w = g * c.k("d_phi") * inv(root(c.k("porosity"))) + (ONE - g)
    return (lambda U, T: ZERO), (lambda T: w * c.k("q", 0) * T.normal("v"))


def bc_flux_penalty(fields):
    """beta (s.n - s_N) (t.n)"""
    def make(c):
        def a(U, T):
            s = ZERO
            for F in fields:
                for k in range(c.comps[F]):
                    s = s + BETA * U.normal(F, k) * T.normal(F, k)
            return s

        def l(T):
            s = ZERO
            for F in fields:
                for k in range(c.comps[F]):
                    s = s - BETA * c.k(F, k) * T.normal(F, k)
            return s
        return a, l
    return make


def scaled_l(c, F):
    # the scaled couple stress carries the regularised length on the boundary
    return c.k("l") + con(EPS) if F == "m" else ONE


SPECS = {
    # instance: (statement, mode, block fields)   mode: ad | lin ; trace: tests are traces
    "laplace_primal": (laplace_primal, "ad"),
    "laplace_primal_bc": (bc_penalty(["p"]), "lin"),
    "laplace_dual": (laplace_dual, "ad"),
    "laplace_dual_bc": (bc_flux([("u", "p")], 1), "trace"),
    "degenerate": (degenerate, "ad"),
    "degenerate_bc": (degenerate_bc, "trace"),
    "unscaled": (unscaled, "ad"),
    "unscaled_bc": (bc_flux([("u", "p")], 1), "trace"),
    "scaled_to_physical": (scaled_to_physical, "ad"),
    "l2_projector_a": (l2(["u"], ()), "lin"),
    "l2_projector_b": (l2(["s", "m", "u", "t"], ("s", "m")), "lin"),
    "le_primal": (le_primal, "ad"),
    "le_primal_dirichlet": (bc_penalty(["u"]), "lin"),
    "le_primal_neumann": (bc_traction, "lin"),
    "le_primal_normal_dirichlet": (bc_normal, "lin"),
    "le_primal_stress": (le_primal_stress, "ad"),
    "taylor_hood": (taylor_hood, "ad"),
    "taylor_hood_bc": (bc_penalty(["u"]), "lin"),
    "lce_primal": (lce_primal, "ad"),
    "lce_primal_bc": (bc_penalty(["u", "t"]), "lin"),
    "le_dual": (le_dual, "ad"),
    "le_dual_v": (le_dual, "lin"),
    "le_dual_bc": (bc_flux([("s", "u")], -1), "trace"),
    "le_riesz": (le_riesz, "ad"),
    "le_riesz_v": (le_riesz, "lin"),
    "lce_dual": (lce_dual(False), "ad"),
    "lce_dual_v": (lce_dual(False), "lin"),
    "lce_dual_bc": (bc_flux([("s", "u"), ("m", "t")], -1), "trace"),
    "lce_dual_neumann": (bc_flux_penalty(["s", "m"]), "trace"),
    "lce_scaled_dual": (lce_dual(True), "ad"),
    "lce_scaled_dual_v": (lce_dual(True), "lin"),
    "lce_scaled_dual_bc": (bc_flux([("s", "u"), ("m", "t")], -1, scaled_l), "trace"),
    "lce_riesz": (lce_riesz(False), "ad"),
    "lce_riesz_v": (lce_riesz(False), "lin"),
    "lce_scaled_riesz": (lce_riesz(True), "ad"),
    "lce_scaled_riesz_v": (lce_riesz(True), "lin"),
    "le_dual_neumann": (bc_flux_penalty(["s"]), "trace"),
    "lce_scaled_dual_neumann": (bc_flux_penalty(["s", "m"]), "trace"),
}


# boundary forms own only some of the fields of the space
BLOCKS = {
    "laplace_dual_bc": ("u",), "degenerate_bc": ("v",), "unscaled_bc": ("u",), "taylor_hood_bc": ("u",),
    "le_dual_bc": ("s",), "lce_dual_bc": ("s", "m"), "lce_dual_neumann": ("s", "m"),
    "lce_scaled_dual_bc": ("s", "m"), "le_dual_neumann": ("s",), "lce_scaled_dual_neumann": ("s", "m"),
}


def expected(name, dim, tag, layout, rvar, cols=None, mode=None):
    """expected residual {row: Poly} and, with cols=(var1, var2), matrix {(row, col): Poly}"""
    make, mode0 = SPECS[name]
    mode = mode or mode0
    comps = dict(layout)
    amb = dim + (tag == "B")
    c = Ctx(amb, tag, comps)
    if name == "l2_projector_b" or name == "l2_projector_a":
        c.dim = dim
    a, l = make(c)
    measure = Poly.a(("SUM",)) * Poly.a(("W", tag)) * Poly.a(("J", tag))
    mk = Trace if mode0 == "trace" else (lambda ctx, only, var: Acc(ctx, None, only, var))
    labels = [(F, k) for F, n in layout for k in range(n)]
    res, mat = {}, {}
    for row in labels:
        T = mk(c, row, rvar)
        e = l(T)
        if mode == "ad":
            e = e + a(Acc(c, alpha="alpha"), T)
        res[row] = e * measure
        if cols is not None:
            T = mk(c, row, cols[0])
            for col in labels:
                mat[(row, col)] = a(mk(c, col, cols[1]), T) * measure
    return res, mat
