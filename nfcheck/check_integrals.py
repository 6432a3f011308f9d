"""P01, P10, P19: the integrals inside the norm and error functionals.

The functionals are run by the value-flow analysis of the weak forms (interp.py) with the elements of a field as a symbolic
sequence; the square of every returned value is compared with the functional stated independently here."""
from .core import AnchorMissing, loc
from .interp import Interp, Obj
from .poly import Poly, ZERO, ONE, lift, is_identically_zero, atom
from .specs import Acc, Ctx, con
from .absarr import Array
from . import check_forms
from .check_sum import SPECS, DIMS

ESUM = Poly.a(("ESUM",))


def measure():
    return ESUM * Poly.a(("SUM",)) * Poly.a(("W", "E")) * Poly.a(("J", "E"))


def square(terms):
    s = ZERO
    for t in terms:
        s = s + t * t
    return s


def values(c, T, F, fam, n, dim):
    """components of the discrete field"""
    if fam == "Lagrange":
        return [T.val(F, i) for i in range(n)]
    return [x for i in range(n) for x in T.vec(F, i)]


def given(c, key, fam, n, dim):
    if fam == "Lagrange":
        return [c.k(key, i) for i in range(n)]
    return [c.k(key, i, k) for i in range(n) for k in range(dim)]


def l2_error(c, T, F, fam, n, dim):
    return square(e - h for e, h in zip(given(c, F, fam, n, dim), values(c, T, F, fam, n, dim)))


def l2_projected(c, T, F, fam, n, dim):
    return square(values(c, T, F, fam, n, dim))


def l2_norm(c, T, F, fam, n, dim):
    return square(given(c, F, fam, n, dim))


def grad_error(c, T, F, fam, n, dim):
    return square(c.k("grad_" + F, i, k) - T.grad(F, i)[k] for i in range(n) for k in range(dim))


def div_error(c, T, F, fam, n, dim):
    return square(c.k("div_" + F, i) - T.div(F, i) for i in range(n))


def div_scaled(c, T, F, fam, n, dim):
    # divergence of the field times the scale
    return square(c.k("div_" + F, i) - (c.k("l") * T.div(F, i) + sum((c.k("grad_l", k) * T.vec(F, i)[k] for k in range(dim)), ZERO))
                  for i in range(n))


def div_norm(c, T, F, fam, n, dim):
    return square(c.k("div_" + F, i) for i in range(n))


def deviator(v, n, dim):
    """a tensor field less its mean trace (integral of a dim-th of the trace, the domain having unit measure)"""
    mean = measure() * sum((v[i][i] for i in range(dim)), ZERO) * con(1) * lift(dim).power(-1)
    return [[v[i][k] - (mean if i == k else ZERO) for k in range(dim)] for i in range(n)]


def tensor(flat, n, dim):
    return [flat[i * dim:(i + 1) * dim] for i in range(n)]


def devia_error(c, T, F, fam, n, dim):
    e = deviator(tensor(given(c, F, fam, n, dim), n, dim), n, dim)
    h = deviator(tensor(values(c, T, F, fam, n, dim), n, dim), n, dim)
    return square(e[i][k] - h[i][k] for i in range(n) for k in range(dim))


def devia_norm(c, T, F, fam, n, dim):
    e = deviator(tensor(given(c, F, fam, n, dim), n, dim), n, dim)
    return square(e[i][k] for i in range(n) for k in range(dim))


EXPECTED = {"l2_error": l2_error, "l2_error_projected": l2_projected, "grad_error": grad_error, "div_error": div_error,
            "div_scaled_error": div_scaled, "devia_l2_error": devia_error, "l2_norm": l2_norm, "div_norm": div_norm,
            "devia_l2_norm": devia_norm}


def spaces(name, dim):
    rot = 3 if dim == 3 else 1
    if dim == 1:
        return [{"s": ("Lagrange", 1), "u": ("Lagrange", 1)}]
    if name.startswith("devia"):
        return [{"s": ("RT", dim), "u": ("Lagrange", dim)}, {"u": ("Lagrange", dim), "t": ("BDM", dim), "s": ("RT", dim)}]
    return [{"s": ("RT", 1), "u": ("Lagrange", 1)}, {"s": ("RT", dim), "m": ("BDM", rot), "u": ("Lagrange", dim), "t": ("Lagrange", rot)}]


def functions(fields, dim):
    shapes = {"l": (), "grad_l": (dim,)}
    for k, (fam, n) in fields.items():
        shapes[k] = (n,) if fam == "Lagrange" else (n, dim)
        shapes["grad_" + k] = (n, dim)
        shapes["div_" + k] = (n,)
    return shapes


def functional(program, f, name, dim, fields):
    module, fns, unknowns, prefix, counts, integrates, skips = SPECS[name]
    it = Interp(program, {"dim": dim, "tag": "E", "fields": fields, "shapes": functions(fields, dim)})
    args = [dim, Obj("pspace")] + ([Obj("functions")] if fns else []) + ([Obj("galpha")] if unknowns else [])
    return it, it.call_fn(f.node, f.module, None, args, {}, None)


def run(program, prop, res):
    from .check_sum import SumCheck
    find = SumCheck(program, res).func
    for name in SPECS:
        module, fns, unknowns, prefix, counts, integrates, skips = SPECS[name]
        try:
            f = find(module, name)
        except AnchorMissing as e:
            res.unknown("anchor", str(e), "not found")
            continue
        for dim in DIMS.get(name, (1, 2, 3)):
            for fields in spaces(name, dim):
                what = "dimension %d, fields %s" % (dim, ", ".join("%s %s" % (k, v[0]) for k, v in fields.items()))
                try:
                    it, out = functional(program, f, name, dim, fields)
                except AnchorMissing:
                    raise
                except Exception as e:
                    res.unknown("functional", f.name, "not interpreted (%s): %s %s" % (what, type(e).__name__, e))
                    continue
                judge(res, prop, f, name, dim, fields, it, out, what)


def judge(res, prop, f, name, dim, fields, it, out, what):
    module, fns, unknowns, prefix, counts, integrates, skips = SPECS[name]
    where = loc(f.module, f.node)
    for kind, msg, w in it.events:
        if check_forms.EVENT_PROP.get(kind) == prop:
            res.bad("functional." + kind, "%s %s" % (f.id, msg.split(":")[0][:100]), msg, w)
    want = [k for k, (fam, n) in fields.items() if counts(fam, dim)]
    if not isinstance(out, list) or len(out) != len(want):
        res.unknown("functional", f.name, "%s: result not understood %s" % (what, it.unsup[:2]))
        return
    for k, x in zip(want, out):
        fam, n = fields[k]
        if not integrates(fam, dim):
            continue
        if isinstance(x, Array) and not x.axes:
            x = x.get(())
        if isinstance(x, (int, float)):
            x = lift(x)
        if not isinstance(x, Poly) or x.top:
            res.unknown("functional", "%s %s" % (f.name, k), "%s: %s" % (what, x))
            continue
        c = Ctx(dim, "E", {a: b[1] for a, b in fields.items()})
        e = EXPECTED[name](c, Acc(c, alpha="alpha"), k, fam, n, dim) * measure()
        act = x * x
        d = act - e
        if any(atom(i)[0] in ("OLD", "OLDS") for i in act.atoms_deep()) or act.top:
            res.unknown("functional", "%s %s" % (f.name, k), "%s: value carried through a loop" % what)
            continue
        same = is_identically_zero(d)
        con_ = "%s %s" % (f.id, k)
        if same is True:
            res.ok("functional", "%s (%s): field %s integrates the declared square with the measure once" % (f.name, what, k))
            continue
        if same is None:
            res.unknown("functional", con_, "%s: value not decided" % what)
            continue
        bad = classify(act, e, k)
        if prop in bad:
            res.bad("functional.value", con_, "%s: %s: difference %s" % (what, bad[prop], check_forms.show(d)), where)
        else:
            res.ok("functional")


def classify(act, exp, field):
    props = {"P19": "the integral is not the one the functional is named after"}
    names = check_forms.NAMES | {"ESUM"}
    if is_identically_zero(check_forms._strip(act, names) - check_forms._strip(exp, names)) is True:
        props["P01"] = "differs from the declared integral only in weights, determinants or derivative factors"
    else:
        for m, c in act.t.items():
            n = [check_forms._count(m, a) for a in ("SUM", "W", "ESUM", "LAST", "ELAST")]
            if n[0] != n[1] or n[3] or n[0] == 0:
                props["P01"] = "contribution without exactly one quadrature weight inside the point sum"
                break
        else:
            ja, je = {}, {}
            for src, dst in ((act, ja), (exp, je)):
                for m, c in src.t.items():
                    key = tuple(sorted((i, e) for i, e in m if atom(i)[0] not in names))
                    dst.setdefault(key, set()).add(check_forms._count(m, "J"))
            if any(key in je and ja[key] != je[key] for key in ja):
                props["P01"] = "term with a determinant factor other than the declared one"
    for m, c in act.t.items():
        for i, e in m:
            for x in atom(i)[1:]:
                if isinstance(x, str) and ("|" in x or x.endswith("!") or x in ("bad", "badx")):
                    props["P10"] = "values of different points, cells or rules are combined"
    return props
