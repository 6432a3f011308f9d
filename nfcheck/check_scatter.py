"""P05: the assembler gathers, evaluates and scatters on the same unknowns, additively.

`SequentialAssembler.scatter_forms` and `l2_projector` are run in the value-term domain on opaque spaces, forms,
sequences and states. What they do to the residual and the matrix is a set of contributions (generic indices, target
unknowns, value, conditions), which is compared with the contributions the property asks for."""
import ast

from .core import AnchorMissing, loc
from .vn import (Interp, K, L, D, O, Tup, NONE, TRUE, explore, freeze, subst, add, mul, has, get_term, is_k, atoms, _mons,
                 neg, Unknown)

S = lambda x: ("sym", x)
FORMS = {
    # form type: (destination lookup, index of the destination element(s) in the sequence item, states, time)
    "form": ("destination_indexes", "whole", 1, False),
    "bc_form": ("bc_destination_indexes", "whole", 1, False),
    "interface_form": ("destination_indexes", "pair", 1, False),
    "bc_interface_form": ("destination_indexes", "second", 1, False),
    "time_dependent_form": ("destination_indexes", "whole", 2, True),
    "time_dependent_bc_form": ("bc_destination_indexes", "whole", 2, True),
}
ADD_NAMES = {"ADD_VALUES", "ADD"}


def dest_of(form, lookup, idx):
    return ("m", lookup, ("attr", form, "space"), (idx,), ())


def expected(ft, form, item, alpha, alpha2, t):
    """(destination lists, arguments of evaluate_form)"""
    lookup, kind, states, timed = FORMS[ft]
    if kind == "whole":
        d = dest_of(form, lookup, item)
        a = ("get", alpha, d)
        if ft == "time_dependent_form":
            return [d], (item, a, ("get", alpha2, d), t)
        if timed:
            return [d], (item, a, t)
        return [d], (item, a)
    first, second = ("get", item, K(0)), ("get", item, K(1))
    if kind == "second":
        d = dest_of(form, lookup, second)
        return [d], (first, second, ("get", alpha, d))
    p, n = ("get", second, K(0)), ("get", second, K(1))
    dp, dn = dest_of(form, lookup, p), dest_of(form, lookup, n)
    return [dp, dn], (first, second, ("tup", ("get", alpha, dp), ("get", alpha, dn)))


def rename(t, m):
    """replace terms (outermost first)"""
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        if t and t[0] == "poly":
            r = K(0)
            for mono, c in t[1]:
                p = K(c)
                for a in mono:
                    p = mul(p, rename(a, m))
                r = add(r, p)
            return r
        if is_k(t):
            return t
        return tuple(rename(x, m) if isinstance(x, tuple) else x for x in t)
    return t


def flat(t):
    """J[i][j] is J[i, j]"""
    if not isinstance(t, tuple) or is_k(t):
        return t
    if t and t[0] == "poly":
        r = K(0)
        for mono, c in t[1]:
            p = K(c)
            for a in mono:
                p = mul(p, flat(a))
            r = add(r, p)
        return r
    t = tuple(flat(x) if isinstance(x, tuple) else x for x in t)
    if len(t) == 3 and t[0] == "get" and isinstance(t[1], tuple) and len(t[1]) == 3 and t[1][0] == "get" and t[1][1] == ("J",) and \
            t[1][2][0] not in ("tup", "slice") and isinstance(t[2], tuple) and t[2][0] not in ("slice",):
        return ("get", ("J",), ("tup", t[1][2], t[2]))
    if t and t[0] == "eq" and len(t) == 3:
        return ("eq",) + tuple(sorted(t[1:], key=repr))
    return t


class Case:
    """what one form type must do, and what was found"""
    def __init__(self, label, dests, n_l):
        self.label = label
        self.dests = dests
        self.names = [("dest", i) for i in range(len(dests))]
        self.sizes = [("size", i) for i in range(len(dests))]

    def short(self, t, R, J):
        m = {}
        if R is not None:
            m[R] = ("R",)
            m[J] = ("J",)
        cat = ("list", tuple(((), (), ("splice", d)) for d in self.dests))
        m[cat] = ("all",)
        for d, nm in zip(self.dests, self.names):
            m[d] = nm
        t = rename(t, m)
        N = K(0)
        for s in self.sizes:
            N = add(N, s)
        m2 = {("len", ("all",)): N, ("shape", ("J",), 0): N, ("shape", ("J",), 1): N, ("shape", ("J",), K(0)): N, ("shape", ("J",), K(1)): N,
              ("len", ("J",)): N, ("len", ("R",)): N, ("shape", ("R",), 0): N, ("shape", ("all",), 0): N}
        for d, s in zip(self.names, self.sizes):
            m2[("len", d)] = s
            m2[("shape", d, 0)] = s
        if len(self.dests) == 1:
            t = rename(t, {("all",): self.names[0]})
            m2[("len", self.names[0])] = self.sizes[0]
        return flat(rename(t, m2))

    def total(self):
        N = K(0)
        for s in self.sizes:
            N = add(N, s)
        return N

    def offset(self, i):
        N = K(0)
        for s in self.sizes[:i]:
            N = add(N, s)
        return N


CLEAN = {"?", "ite", "last", "phi", "opaque"}


def clean(*ts):
    bad = set()
    for t in ts:
        bad |= atoms(t) & CLEAN
    return not bad


class Contribs:
    """decides whether additive contributions cover every entry exactly once"""

    def __init__(self, case, pairs):
        self.case, self.pairs = case, pairs
        self.blocks = {}
        self.problem = None      # ("bad"|"unknown", text, node, module)

    def fail(self, kind, text, e):
        if self.problem is None or (self.problem[0] == "unknown" and kind == "bad"):
            self.problem = (kind, text, e)

    def cover(self, which):
        for w in which:
            self.blocks[w] = self.blocks.get(w, 0) + 1

    # index term -> (list of dest ids, position in the whole element vector)
    def locate(self, t):
        """t = dest[expr]: (dest ids, local position term)"""
        c = self.case
        if isinstance(t, tuple) and t[0] == "get" and len(t) == 3:
            if t[1] == ("all",) or (len(c.dests) == 1 and t[1] == c.names[0]):
                return list(range(len(c.dests))), t[2]
            if t[1] in c.names:
                i = c.names.index(t[1])
                return [i], add(c.offset(i), t[2])
        return None

    def span(self, t, bs, ids):
        """position term with binders: True when it runs exactly over the unknowns of ids"""
        return None

    def vector(self, idx, val, bs, gs, e, kind):
        c = self.case
        whole_ids = None
        if idx in (("all",),) or (len(c.dests) == 1 and idx == c.names[0]):
            whole_ids = list(range(len(c.dests)))
        elif idx in c.names:
            whole_ids = [c.names.index(idx)]
        if whole_ids is not None:
            # fancy index
            if kind == "+=" and len(whole_ids) > 1:
                return self.fail("bad", "`+=` on an index array keeps one contribution of an unknown shared by both elements", e)
            if bs:
                return self.fail("unknown", "vector update inside a loop", e)
            want = ("R",) if len(whole_ids) == len(c.dests) else None
            if want and val == want:
                return self.cover(whole_ids)
            if isinstance(val, tuple) and val[0] == "get" and val[1] == ("R",) and isinstance(val[2], tuple) and val[2][0] == "slice":
                lo, hi, st = val[2][1:]
                lo = K(0) if lo == NONE else lo
                hi = c.total() if hi == NONE else hi
                i = whole_ids[0]
                if st in (NONE, K(1)) and lo == c.offset(i) and hi == add(c.offset(i), c.sizes[i]):
                    return self.cover(whole_ids)
                return self.fail("bad", "the residual entries added do not belong to the unknowns they are added to", e)
            return self.fail("unknown" if not clean(val) or not isinstance(val, tuple) else "bad",
                             "the value added is not the element residual", e)
        lo = self.locate(idx)
        if lo is None:
            return self.fail("bad" if clean(idx) and self.known(idx) else "unknown", "the residual is added at %s" % show(idx), e)
        ids, pos = lo
        if not (isinstance(val, tuple) and val[0] == "get" and val[1] == ("R",)):
            return self.fail("bad" if clean(val) and self.known(val) else "unknown", "the value added is %s" % show(val), e)
        if val[2] != pos:
            return self.fail("bad" if clean(val[2], pos) else "unknown",
                             "entry %s of the element residual is added at unknown number %s" % (show(val[2]), show(pos)), e)
        for g in gs:
            if g == neg(("eq",) + tuple(sorted((val, K(0)), key=repr))):
                continue
            return self.fail("bad" if clean(g) else "unknown", "entries are dropped unless %s" % show(g), e)
        if len(bs) != 1:
            return self.fail("unknown" if len(bs) > 1 else "bad", "one entry only is added", e)
        (b, cnt), = bs
        start = c.offset(ids[0])
        if pos == add(start, ("bv", b)):
            n = K(0)
            for i in ids:
                n = add(n, c.sizes[i])
            if cnt == n:
                return self.cover(ids)
            return self.fail("bad" if clean(cnt) and self.sized(cnt) else "unknown", "%s of %s entries are added" % (show(cnt), show(n)), e)
        return self.fail("unknown", "index %s" % show(pos), e)

    def known(self, t):
        """term made of the names of this case only"""
        return atoms(t) <= {"get", "dest", "all", "R", "J", "size", "bv", "k", "div", "mod", "poly", "tup", "slice", "int", "float", "NoneType"}

    def sized(self, t):
        return atoms(t) <= {"size", "k", "poly", "int", "div"}

    def matrix(self, row, col, val, bs, gs, e, sym):
        c = self.case
        n = c.total()
        whole = ("all",) if len(c.dests) > 1 else c.names[0]
        every = [(i, j) for i in range(len(c.dests)) for j in range(len(c.dests))]
        if row == whole or col == whole or row in c.names or col in c.names:
            if row == whole == col and val in (("J",), ("ravel", ("J",))) and not bs and not gs:
                return self.cover(every)
            if row == whole == col and val in (("T", ("J",)), ("attr", ("J",), "T")):
                return self.fail("bad", "the element matrix is added transposed", e)
            return self.fail("unknown", "block update", e)
        lr, lc = self.locate(row), self.locate(col)
        if lr is None or lc is None:
            return self.fail("bad" if clean(row, col) and self.known(row) and self.known(col) else "unknown",
                             "entries are added at row %s, column %s" % (show(row), show(col)), e)
        (ri, rp), (ci, cp) = lr, lc
        if not (isinstance(val, tuple) and val[0] == "get" and val[1] == ("J",) and isinstance(val[2], tuple) and val[2][0] == "tup" and len(val[2]) == 3):
            return self.fail("bad" if clean(val) and self.known(val) else "unknown", "the value added is %s" % show(val), e)
        vr, vc = val[2][1], val[2][2]
        if (vr, vc) != (rp, cp):
            return self.fail("bad" if clean(vr, vc, rp, cp) else "unknown",
                             "entry (%s, %s) of the element matrix is added at (%s, %s)" % (show(vr), show(vc), show(rp), show(cp)), e)
        for g in gs:
            if g == neg(("eq",) + tuple(sorted((val, K(0)), key=repr))):
                continue
            if sym and g == neg(("lt", col, row)):
                continue
            return self.fail("bad" if clean(g) else "unknown", "entries are dropped unless %s" % show(g), e)
        if len(bs) == 1:
            (b, cnt), = bs
            k = ("bv", b)
            if {rp, cp} == {("div", k, n), ("mod", k, n)} and len(ri) == len(ci) == len(c.dests):
                if cnt == mul(n, n):
                    return self.cover(every)
                return self.fail("bad" if self.sized(cnt) else "unknown", "%s of %s entries are added" % (show(cnt), show(mul(n, n))), e)
            return self.fail("bad" if not has(rp, k) or not has(cp, k) or rp == cp else "unknown", "entries (%s, %s) only" % (show(rp), show(cp)), e)
        if len(bs) == 2:
            (b1, c1), (b2, c2) = bs
            r0, c0 = c.offset(ri[0]), c.offset(ci[0])
            nr = K(0)
            for i in ri:
                nr = add(nr, c.sizes[i])
            nc = K(0)
            for i in ci:
                nc = add(nc, c.sizes[i])
            for x, y, cx, cy in ((("bv", b1), ("bv", b2), c1, c2), (("bv", b2), ("bv", b1), c2, c1)):
                if rp == add(r0, x) and cp == add(c0, y):
                    if cx == nr and cy == nc:
                        return self.cover([(i, j) for i in ri for j in ci])
                    return self.fail("bad" if self.sized(cx) and self.sized(cy) else "unknown",
                                     "%s x %s of %s x %s entries are added" % (show(cx), show(cy), show(nr), show(nc)), e)
            return self.fail("unknown", "indices %s, %s" % (show(rp), show(cp)), e)
        return self.fail("unknown", "loops", e)

    def finish(self, want, e):
        if self.problem is None:
            for w in want:
                k = self.blocks.get(w, 0)
                if k == 0:
                    self.fail("bad", "contributions of the unknowns are not added", e)
                elif k > 1:
                    self.fail("bad", "contributions are added %d times" % k, e)
        return self.problem


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    if is_k(t):
        return str(t[2])
    if not t or not isinstance(t[0], str):
        return ", ".join(show(x) for x in t)
    if t[0] == "poly":
        return " + ".join("*".join(([str(c)] if c != 1 or not mono else []) + [show(a) for a in mono]) for mono, c in t[1])
    if t[0] in ("R", "J"):
        return {"R": "residual", "J": "matrix"}[t[0]]
    if t[0] == "bv":
        return "k%s" % t[1]
    if t[0] == "size":
        return "n%s" % (t[1] or "")
    if t[0] in ("dest",):
        return "dest%s" % (t[1] or "")
    if t[0] == "all":
        return "dest"
    if t[0] == "get":
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if t[0] in ("div", "mod"):
        return "(%s %s %s)" % (show(t[1]), {"div": "//", "mod": "%"}[t[0]], show(t[2]))
    if t[0] == "tup":
        return ", ".join(show(x) for x in t[1:])
    if t[0] == "sym":
        return t[1]
    if t[0] == "ext":
        return t[1].split(".", 1)[-1]
    if t[0] == "attr":
        return "%s.%s" % (show(t[1]), t[2])
    if t[0] == "m":
        return "%s.%s(%s)" % (show(t[2]), t[1], ", ".join(show(x) for x in t[3]))
    if t[0] == "call":
        return "%s(...)" % (t[1] if isinstance(t[1], str) else "call")
    if t[0] in ("eq", "lt"):
        return "%s %s %s" % (show(t[1]), {"eq": "==", "lt": "<"}[t[0]], show(t[2]))
    if t[0] == "not":
        return "not (%s)" % show(t[1])
    if t[0] == "len":
        return "len(%s)" % show(t[1])
    return "%s(%s)" % (t[0], ", ".join(show(x) for x in t[1:] if isinstance(x, tuple)))


def additive(c):
    v = c["kw"].get("addv", c["pos"][3] if len(c["pos"]) > 3 else None)
    if v is None:
        return False
    if is_k(v):
        return bool(v[2]) if isinstance(v[2], (bool, int)) else None
    t = freeze(v)
    if t[0] in ("ext",) and t[1].split(".")[-1] in ADD_NAMES:
        return True
    if t[0] in ("ext",) and t[1].split(".")[-1] in ("INSERT_VALUES", "INSERT"):
        return False
    return None


class Scatter:
    def __init__(self, program, res):
        self.p, self.res = program, res

    def at(self, e):
        m, n = e.get("module"), e.get("node")
        return loc(m, n) if m is not None and n is not None else ""

    def emit(self, rule, construct, problem, ok):
        if problem is None:
            self.res.ok(rule, ok)
        elif problem[0] == "bad":
            e = problem[2] or {}
            self.res.bad(rule, construct, problem[1], self.at(e))
        else:
            self.res.unknown(rule, construct, problem[1])

    # ---- the assembler ----------------------------------------------------
    def assembler(self):
        cls = self.p.find_class("SequentialAssembler")
        init, sc = self.p.lookup_method(cls, "__init__"), self.p.lookup_method(cls, "scatter_forms")
        if init is None or sc is None:
            raise AnchorMissing("SequentialAssembler.scatter_forms")
        types = list(FORMS)

        def run(it):
            o = O(cls)
            d = D()
            for i, ft in enumerate(types):
                states = Tup((S("a0_%d" % i), S("a1_%d" % i))) if FORMS[ft][2] == 2 else S("a0_%d" % i)
                lst = [K(ft), S("seq_%d" % i), S("form_%d" % i), states]
                if FORMS[ft][3]:
                    lst.append(S("t_%d" % i))
                d.entries.append(((), (), K("form %d" % i), it.concrete(lst)))
            it.call_function(init, [S("space"), S("jac"), S("res")], {}, None, self_=o)
            it.set_attr(o, "form_to_input_list", d, None) if any("form_to_input_list" in c.setters for c in self.p.mro(cls)) else \
                o.attrs.__setitem__("form_to_input_list", d)
            return it.call_function(sc, [S("measure")], {}, None, self_=o)
        # frames are needed by set_attr
        def make(dec):
            it = Interp(self.p, dec)
            return it
        outs = explore(make, lambda it: with_frame(it, sc, run))
        for oc in outs:
            tag = "" if not oc.it.taken else " (measuring time)" if oc.it.taken[0] else ""
            if oc.kind == "unknown":
                for ft in types:
                    self.res.unknown("dispatch", "SequentialAssembler.scatter_forms[%s]" % ft, oc.why)
                continue
            if oc.kind == "raise":
                self.res.bad("dispatch", "SequentialAssembler.scatter_forms", "raises %s for registered forms of the documented kinds%s" % (
                    oc.value, tag), loc(oc.module, oc.node) if oc.module is not None else "")
                continue
            for i, ft in enumerate(types):
                self.form(oc.it, ft, i, loc(sc.module, sc.node))

    def form(self, it, ft, i, where):
        form, seq = S("form_%d" % i), S("seq_%d" % i)
        name = "SequentialAssembler.scatter_forms[%s]" % ft
        evals = [c for c in it.calls if c["name"] == "evaluate_form" and c["fn"] == form]
        if not evals:
            other = [c for c in it.calls if c["name"] is not None and c["fn"] == form]
            self.res.bad("evaluate", name, "the form is not evaluated" + ("" if not other else " (calls %s)" % other[0]["name"]), where)
            return
        if len(evals) > 1:
            self.res.unknown("evaluate", name, "the form is evaluated at %d places" % len(evals))
            return
        c = evals[0]
        bs = c["binders"]
        if len(bs) != 1 or c["guards"]:
            if not bs:
                self.res.bad("evaluate", name, "the form is evaluated for one element of its sequence only", self.at(c))
            elif c["guards"]:
                self.res.unknown("evaluate", name, "the form is evaluated under a condition")
            else:
                self.res.unknown("evaluate", name, "nested loops")
            return
        (b, cnt), = bs
        item = get_term(seq, ("bv", b))
        dests, args = expected(ft, form, item, S("a0_%d" % i), S("a1_%d" % i), S("t_%d" % i))
        if cnt != ("len", seq):
            self.res.bad("evaluate", name, "the form is evaluated for %s of %s elements of its sequence" % (show(cnt), show(("len", seq))), self.at(c)) \
                if clean(cnt) else self.res.unknown("evaluate", name, "length of the sequence")
            return
        if c["kw"]:
            self.res.unknown("evaluate", name, "keyword arguments")
            return
        got = tuple(freeze(x) for x in c["pos"])
        if got != args:
            diff = [k for k in range(max(len(got), len(args))) if k >= len(got) or k >= len(args) or got[k] != args[k]]
            k = diff[0]
            msg = "evaluate_form receives %s as argument %d instead of %s" % (
                show(got[k]) if k < len(got) else "nothing", k + 1, show(args[k]) if k < len(args) else "nothing")
            if clean(*got):
                self.res.bad("evaluate", name, msg, self.at(c))
            else:
                self.res.unknown("evaluate", name, msg)
            return
        self.res.ok("evaluate", "%s: evaluate_form(%s) for each element of the sequence" % (ft, ", ".join(show(a) for a in args)))
        self.contributions(it, name, Case(ft, dests, None), c, S("res"), S("jac"), 1, b, sym=False)

    def contributions(self, it, name, case, ev, res, jac, depth, b, sym):
        RJ = ev["result"]
        R, J = get_term(RJ, K(0)), get_term(RJ, K(1))
        vec, mat = Contribs(case, None), Contribs(case, None)
        hit_r = hit_j = None
        mine = lambda e: e["binders"][:depth] and e["binders"][0][0] == b

        def sh(v):
            return case.short(freeze(v), R, J)

        def inner(e):
            return tuple((x, case.short(y, R, J)) for x, y in e["binders"][depth:])

        def guards(e):
            return [case.short(g, R, J) for g in e["guards"]]
        for e in it.effects:
            t = e["target"]
            if t == res:
                if not mine(e):
                    if not self.other_form(e):
                        vec.fail("unknown", "update of the residual outside the loop over the elements", e)
                    continue
                hit_r = e
                old = ("get", res, freeze(e["idx"]))
                if e["kind"] == "=" and _mons(freeze(e["value"])).get((old,)) == 1 and not has(add(freeze(e["value"]), old, -1), res):
                    vec.vector(sh(e["idx"]), sh(add(freeze(e["value"]), old, -1)), inner(e), guards(e), e, "+=")
                elif e["kind"] == "=":
                    vec.fail("bad" if not has(freeze(e["value"]), res) else "unknown", "the residual is overwritten, not added to", e)
                elif e["kind"] == "-=":
                    vec.fail("bad", "the element residual is subtracted", e)
                elif e["kind"] == "+=":
                    vec.vector(sh(e["idx"]), sh(e["value"]), inner(e), guards(e), e, "+=")
                else:
                    vec.fail("unknown", "update %s" % e["kind"], e)
            elif t == jac:
                if mine(e):
                    hit_j = e
                    if e["kind"] == "=":
                        mat.fail("bad", "matrix entries are overwritten, not added to", e)
                    else:
                        mat.fail("unknown", "update %s" % e["kind"], e)
        for c in it.calls:
            if not mine(c):
                continue
            if c["fn"] == "np.add.at" and c["pos"] and c["pos"][0] == res and len(c["pos"]) == 3:
                hit_r = c
                vec.vector(sh(c["pos"][1]), sh(c["pos"][2]), inner(c), guards(c), c, "at")
            if c["fn"] == jac and c["name"] is not None:
                if c["name"] in ("setValue", "setValues", "setValueLocal"):
                    hit_j = c
                    ad = additive(c)
                    if ad is False:
                        mat.fail("bad", "matrix entries are inserted, not added", c)
                        continue
                    if ad is None:
                        mat.fail("unknown", "insert mode", c)
                        continue
                    names = ("row", "col", "value") if c["name"] == "setValue" else ("rows", "cols", "values")
                    vals = [c["kw"].get(nm, c["pos"][k] if k < len(c["pos"]) else None) for k, nm in enumerate(names)]
                    if None in vals:
                        mat.fail("unknown", "arguments", c)
                        continue
                    r, cc, v = [sh(x) for x in vals]
                    mat.matrix(r, cc, v, inner(c), guards(c), c, sym)
                else:
                    mat.fail("unknown", "matrix method %s" % c["name"], c)
        n = range(len(case.dests))
        self.emit("residual", name, vec.finish(list(n), hit_r or ev), "%s: every entry of the element residual is added at its unknown" % case.label)
        self.emit("matrix", name, mat.finish([(i, j) for i in n for j in n], hit_j or ev),
                  "%s: every entry of the element matrix is added at (row unknown, column unknown)" % case.label)

    def other_form(self, e):
        return bool(e["binders"])

    # ---- the projector ----------------------------------------------------
    def projector(self):
        f = self.p.find_function("l2_projector", "postprocess.projectors")

        def run(it):
            return it.call_function(f, [S("space"), S("functions")], {"symmetric_solver_q": S("symmetric")}, None)
        outs = explore(lambda dec: Interp(self.p, dec, opaque={"L2ProjectorWeakForm"}), lambda it: with_frame(it, f, run))
        for oc in outs:
            symm = bool(oc.it.taken and oc.it.taken[0])
            name = "l2_projector[%s]" % ("symmetric" if symm else "general")
            if oc.kind == "unknown":
                self.res.unknown("projector", name, oc.why)
                continue
            if oc.kind == "raise":
                self.res.bad("projector", name, "raises %s" % oc.value, loc(oc.module, oc.node) if oc.module is not None else "")
                continue
            it = oc.it
            evals = [c for c in it.calls if c["name"] == "evaluate_form"]
            mats = [c for c in it.calls if c["name"] in ("setValue", "setValues")]
            if len(evals) != 1 or len(evals[0]["binders"]) != 1 or evals[0]["guards"]:
                self.res.unknown("projector", name, "evaluation of the form")
                continue
            ev = evals[0]
            (b, cnt), = ev["binders"]
            form = ev["fn"]
            # every element of the (first) field
            ok = cnt[0] == "len" and cnt[1][0] == "attr" and cnt[1][2] == "elements"
            if ok:
                self.res.ok("projector", "%s: loops over all elements of the space" % name)
            elif clean(cnt) and not has(cnt, ("call",)) and cnt[0] == "poly":
                self.res.bad("projector", name, "the loop covers %s elements" % show(cnt), self.at(ev))
                continue
            else:
                self.res.unknown("projector", name, "number of elements")
                continue
            jac = mats[0]["fn"] if mats else None
            space = S("space")
            form_space = ("attr", form, "space")
            i = ("bv", b)
            dests = None
            for cand in (dest_of(form, "destination_indexes", i), ("m", "destination_indexes", space, (i,), ())):
                if any(has(freeze(x), cand) for c in mats for x in list(c["pos"]) + list(c["kw"].values())):
                    dests = [cand]
            if dests is None or jac is None:
                bad = [c for c in mats]
                self.res.unknown("projector", name, "destination of the element matrix")
                continue
            res = [e["target"] for e in it.effects if e["kind"] in ("+=", "=", "-=") and isinstance(e["target"], tuple) and e["target"][0] == "array"]
            res += [c["pos"][0] for c in it.calls if c["fn"] == "np.add.at" and c["pos"]]
            if not res:
                self.res.bad("projector", name, "the right-hand side is not accumulated", self.at(ev))
                continue
            # the gathered state only enters through its value, which is zero
            a = ev["pos"]
            if not a or freeze(a[0]) != i:
                self.res.bad("projector", name, "the form is evaluated for element %s" % show(freeze(a[0]) if a else None), self.at(ev)) \
                    if a and clean(freeze(a[0])) else self.res.unknown("projector", name, "element evaluated")
                continue
            self.contributions(it, name, Case(name, dests, None), ev, res[0], jac, 1, b, sym=symm)
            # the system solved is matrix * x = -residual at zero
            rhs = [e for e in it.effects if e["kind"] == "=" and isinstance(e["target"], tuple) and has(freeze(e["value"]), res[0])]
            rhs += [c for c in it.calls if c["name"] in ("setArray", "createWithArray") and any(has(freeze(x), res[0]) for x in c["pos"])]
            vals = [freeze(e["value"]) if "value" in e else freeze(e["pos"][0]) for e in rhs]
            if not vals:
                self.res.unknown("solve", name, "right-hand side of the linear system")
            elif vals[0] == mul(K(-1), res[0]):
                self.res.ok("solve", "%s: the right-hand side is minus the residual of the zero state" % name)
            elif clean(vals[0]) and atoms(vals[0]) <= {"poly", "k", "array", "float", "int"} | atoms(res[0]):
                self.res.bad("solve", name, "the right-hand side is not minus the residual", self.at(rhs[0]))
            else:
                self.res.unknown("solve", name, "right-hand side of the linear system")


def with_frame(it, f, run):
    """run inside a frame of f's module"""
    from .vn import Frame
    it.frames.append(Frame(f, {}, 0, 0))
    try:
        return run(it)
    finally:
        it.frames.pop()


def run(program, res, tier):
    s = Scatter(program, res)
    s.assembler()
    s.projector()
