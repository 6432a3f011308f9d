"""P01-P04 (and the weak-form part of P09, P10): abstract value of every weak form
against the independent statement of its variational problem."""
from . import forms, specs
from .core import AnchorMissing, loc
from .interp import Der
from .absarr import Array
from .poly import Poly, ZERO, is_identically_zero, atom, atom_id

EVENT_PROP = {
    "field": "P02", "layout": "P02",
    "state": "P04", "valder": "P04",
    "quadrature": "P10", "pairing": "P10", "coords": "P10", "trace": "P10", "arity": "P10", "stale": "P10",
    "point": "P10", "kind": "P09", "mutate": "P12",
}
RULES = {
    "P01": "one quadrature weight, one determinant and physical derivatives in every monomial of the integrand",
    "P02": "every row block is tested with its own basis and every coefficient range is expanded in its own basis",
    "P03": "value number of every residual row and matrix block equals that of the declared variational terms",
    "P04": "returned matrix is the derivative of the returned residual at the caller's state",
    "P10": "rule, mapping, points and basis of every evaluation belong to the same cell and dimension",
    "P09": "identifiers index the containers of their kind",
}
NAMES = {"iJ", "J", "W", "SUM", "LAST", "Jac"}


class Outcome:
    def __init__(self, name, dim, fi):
        self.name, self.dim, self.fi = name, dim, fi
        self.rows = []          # (label, what, status, diff, actual, expected)
        self.events = []
        self.unsup = []
        self.layout_bad = None
        self.j_bad = None
        self.shape_unknown = None


def _strip(p, names, drop_labels=False):
    """forget atoms of the given names (set them to one); optionally forget labels"""
    def f(a):
        if a[0] in names:
            return Poly.const(1)
        if drop_labels:
            if a[0] == "fld":
                return Poly.a(("fld", a[1], "*", "*", a[4], a[5], a[6]))
            if a[0] == "phi":
                return Poly.a(("phi", "*", a[2], a[3], a[4], "*"))
            if a[0] == "coef":
                return Poly.a(("coef", a[1], a[2], "*"))
        return None
    return p.subs_atoms(f)


def _count(m, name):
    n = 0
    for i, e in m:
        if atom(i)[0] == name:
            n += e
    return n


def analyse(program, inst):
    """all outcomes of one instance"""
    name, module, cls, method, dims, tag, fields = inst
    out = []
    for d in dims:
        it, fi, ret = forms.run_instance(program, name, module, cls, method, d, tag, fields)
        o = Outcome(name, d, fi)
        o.events = list(it.events)
        o.unsup = list(it.unsup)
        out.append(o)
        mode = specs.SPECS[name][1]
        if not (isinstance(ret, (tuple, list)) and len(ret) == 2 and isinstance(ret[0], Array)):
            o.shape_unknown = "returned value not understood"
            continue
        r, j = ret
        want = tuple((F, n) for F, (fam, n) in fields(d).items())
        blocks = specs.BLOCKS.get(name)
        if blocks:
            want = tuple(x for x in want if x[0] in blocks)
        if len(r.axes) != 1 or not hasattr(r.axes[0], "layout"):
            o.shape_unknown = "residual is not a vector over the unknowns"
            continue
        if tuple(r.axes[0].layout) != want:
            o.layout_bad = "unknowns are laid out as %s, expected %s" % (list(r.axes[0].layout), list(want))
            continue
        cols = None
        if isinstance(j, Array) and len(j.axes) == 2 and all(hasattr(a, "layout") for a in j.axes):
            if any(tuple(a.layout) != want for a in j.axes):
                o.layout_bad = "matrix blocks are laid out as %s" % ([list(a.layout) for a in j.axes],)
                continue
            cols = (j.axes[0].var, j.axes[1].var)
        elif isinstance(j, Der):
            if j.arr is not r and not _same(j.arr, r):
                o.j_bad = "the matrix is the derivative of another expression than the returned residual"
            elif j.tr:
                o.j_bad = "the matrix is the transposed derivative"
        elif mode == "ad" and isinstance(j, Array) and not isinstance(j, Der):
            o.shape_unknown = "matrix not understood"
        else:
            o.shape_unknown = "matrix not understood"
        if isinstance(j, Der) and mode != "ad":
            # a differentiated evaluation of a form stated linearly: residual a(alpha)+l, matrix its derivative
            mode = "ad"
            cols = None
        R, M = specs.expected(name, d, tag, want, r.axes[0].var, cols, mode)
        for k, e in R.items():
            a = r.get((k,))
            o.rows.append((k, "residual", verdict(a, a - e), a - e, a, e))
        for (k, l), e in M.items():
            a = j.get((k, l))
            o.rows.append(((k, l), "matrix", verdict(a, a - e), a - e, a, e))
    return out


def verdict(act, diff):
    """True / False / None (undecided: also when a loop summary left a carried value)"""
    if any(atom(i)[0] in ("OLD", "OLDS") for i in act.atoms_deep()):
        return None
    return is_identically_zero(diff)


def _same(a, b):
    if not isinstance(a, Array) or len(a.axes) != len(b.axes):
        return False
    va = [x.var for x in a.axes if hasattr(x, "var")]
    vb = [x.var for x in b.axes if hasattr(x, "var")]
    for k in set(a.el) | set(b.el):
        p = a.get(k)
        for x, y in zip(va, vb):
            p = p.rename(x, y)
        if is_identically_zero(p - b.get(k)) is not True:
            return False
    return True


def lab(k):
    if isinstance(k[0], tuple):
        return "%s%d,%s%d" % (k[0] + k[1])
    return "%s%d" % k


def show(p, n=220):
    s = repr(p)
    return s if len(s) <= n else s[:n] + " ..."


def classify(o, row, tag):
    """properties violated by a differing row"""
    k, what, st, diff, act, exp = row
    props = {}
    rowf = k[0][0] if isinstance(k[0], tuple) else k[0]
    # P01: measure
    sa, se = _strip(act, NAMES), _strip(exp, NAMES)
    if is_identically_zero(sa - se) is True:
        props["P01"] = "differs from the declared integrand only in weights, determinants or derivative factors"
    else:
        for m, c in act.t.items():
            if _count(m, "SUM") != 1 or _count(m, "W") != 1 or _count(m, "LAST") != 0:
                props["P01"] = "contribution without exactly one quadrature weight inside the point sum"
                break
        else:
            ja, je = {}, {}
            for src, dst in ((act, ja), (exp, je)):
                for m, c in src.t.items():
                    key = tuple(sorted((i, e) for i, e in m if atom(i)[0] not in NAMES))
                    dst.setdefault(key, set()).add(_count(m, "J"))
            if any(key in je and ja[key] != je[key] for key in ja):
                props["P01"] = "term with a determinant factor other than the declared one"
    # P02: fields
    for m, c in act.t.items():
        for i, e in m:
            a = atom(i)
            if a[0] == "mix":
                props["P02"] = "coefficients of one field expanded in the basis of another"
            if a[0] == "phi" and what == "residual" and a[1].split("@")[0] != rowf:
                props["P02"] = "equation of field %s tested with the basis of %s" % (rowf, a[1])
    # P10: tags
    for m, c in act.t.items():
        for i, e in m:
            a = atom(i)
            for x in a[1:]:
                if isinstance(x, str) and ("|" in x or x.endswith("!") or x == "bad"):
                    props["P10"] = "values of different points, cells or rules are combined"
            if a[0] == "nrmbad":
                props["P10"] = "normal of another pair of cells"
    props["P03"] = "assembled terms differ from the declared ones"
    return props


def moved(o):
    """rows that differ individually while the sum over all rows of a kind agrees without labels"""
    for what in ("residual", "matrix"):
        rows = [r for r in o.rows if r[1] == what]
        if not any(r[2] is False for r in rows) or any(r[2] is None for r in rows):
            continue
        tot = ZERO
        for r in rows:
            tot = tot + _strip(r[3], set(), True)
        if is_identically_zero(tot) is True:
            return what
    return None


def run(program, prop, res, names=None):
    n_inst = 0
    for inst in forms.INSTANCES:
        if names and inst[0] not in names:
            continue
        tag = inst[5]
        try:
            outcomes = analyse(program, inst)
        except AnchorMissing:
            raise
        except Exception as e:      # a construct outside the model: this instance is undecided
            res.unknown("forms", "%s:%s.%s" % (inst[1], inst[2], inst[3]), "not interpreted: %s %s" % (type(e).__name__, e))
            continue
        for o in outcomes:
            n_inst += 1
            con = o.fi.id
            where = "%s (dimension %d)" % (loc(o.fi.module, o.fi.node), o.dim)
            for kind, msg, w in o.events:
                if EVENT_PROP.get(kind) == prop:
                    res.bad("forms." + kind, "%s %s" % (con, msg.split(":")[0][:100]), msg, w)
            if o.layout_bad:
                if prop in ("P02",):
                    res.bad("forms.layout", con, o.layout_bad, where)
                else:
                    res.unknown("forms", con, o.layout_bad)
                continue
            if o.shape_unknown and not o.rows:
                res.unknown("forms", con, "%s; %s" % (o.shape_unknown, o.unsup[:2]))
                continue
            if prop == "P04":
                if o.j_bad:
                    res.bad("forms.derivative", con, o.j_bad, where)
                elif o.shape_unknown:
                    res.unknown("forms.derivative", con, o.shape_unknown)
                rs = [r for r in o.rows if r[1] == "residual"]
                ms = [r for r in o.rows if r[1] == "matrix"]
                if any(e[0] in ("state", "valder") for e in o.events):
                    continue
                if not ms:
                    if o.j_bad or o.shape_unknown:
                        continue
                    if any(r[2] is None for r in rs):
                        res.unknown("forms.derivative", con, "residual value not decided")
                    else:
                        res.ok("forms.derivative", "%s dim %d: matrix is the derivative of the residual that is returned"
                               % (con, o.dim))
                    continue
                check_pair(o, con, where, res)
                continue
            mv = moved(o) if prop == "P02" else None
            if mv:
                res.bad("forms.block", "%s %s" % (con, mv), "terms are written to the block of another field or component", where)
            for row in o.rows:
                k, what, st, diff, act, exp = row
                name = "%s %s %s" % (con, what, lab(k))
                if prop in ("P10", "P09"):
                    if st is True:
                        res.ok("forms", "%s dim %d" % (name, o.dim))
                    elif st is None:
                        res.unknown("forms", name, act.why or diff.why or "value carried through a loop")
                    else:
                        pr = classify(o, row, tag)
                        if prop in pr:
                            res.bad("forms.value", name, "%s: %s" % (pr[prop], show(diff)), where)
                        else:
                            res.ok("forms")
                    continue
                if st is True:
                    res.ok("forms.value", "%s dim %d equals the declared terms" % (name, o.dim))
                elif st is None:
                    res.unknown("forms.value", name, act.why or diff.why or "value carried through a loop")
                else:
                    pr = classify(o, row, tag)
                    if prop in pr:
                        res.bad("forms.value", name, "%s: difference %s" % (pr[prop], show(diff)), where)
                    else:
                        res.ok("forms.value")
    return n_inst


def check_pair(o, con, where, res):
    """matrix and vector stated separately: both match, or they disagree with each other"""
    rs = [r for r in o.rows if r[1] == "residual"]
    ms = [r for r in o.rows if r[1] == "matrix"]
    st = {r[0]: r for r in ms}
    sym_bad = None
    for (k, l), r in st.items():
        q = st.get((l, k))
        if q is not None and r[2] is False and q[2] is True:
            sym_bad = "%s is not the transpose of %s: %s" % (lab((k, l)), lab((l, k)), show(r[3]))
    if sym_bad:
        res.bad("forms.symmetry", con, sym_bad, where)
        return
    if any(r[2] is None for r in o.rows):
        res.unknown("forms.pair", con, "value not decided")
        return
    rbad = [r for r in rs if r[2] is False]
    mbad = [r for r in ms if r[2] is False]
    if bool(rbad) != bool(mbad) and any(not r[5].is_zero() for r in (ms if mbad else rs)):
        r = (rbad or mbad)[0]
        if penal(o):
            res.bad("forms.penalty", con, "%s %s no longer matches its counterpart: %s" % (r[1], lab(r[0]), show(r[3])), where)
            return
    res.ok("forms.pair", "%s dim %d: matrix and vector carry the same factors" % (con, o.dim))


def penal(o):
    return o.name.endswith("bc") or "neumann" in o.name or "dirichlet" in o.name
