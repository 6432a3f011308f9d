"""P19: norms, errors and sizes are sums (extremes, means) over all selected elements.

The functionals are interpreted in the value-term domain on product spaces with several fields whose elements are distinct
symbols. The value under the root of every field is decomposed into contributions: they have to be a family indexed by exactly the
selected elements of that field, i.e. invariant under exchanging any two of them, with weights that do not depend on how many
there are, and built from the element's own unknowns and from the given function of that field."""
from .core import AnchorMissing, loc
from .vn import Interp, K, L, D, O, Tup, NONE, explore, freeze, is_k, add, mul
from .check_scatter import with_frame, show, rename

S = lambda x: ("sym", x)
SHIFT = S("shift")
ALPHA = S("alpha")
FAMILY = {"Lagrange": "P", "RT": "RT", "BDM": "BDM", "N1E": "N1E"}

# functional: (module, takes the given functions, takes the unknowns, prefix of the function's name, fields that count, has a shift, can skip)
ALL = lambda fam, dim: True
FLUX = lambda fam, dim: fam in ("RT", "BDM")
DIV = lambda fam, dim: fam == "Lagrange" if dim == 1 else fam in ("RT", "BDM")
LAG = lambda fam, dim: fam == "Lagrange"
SPECS = {
    "l2_error": ("postprocess.l2_error_post_processor", True, True, "", ALL, ALL, True),
    "l2_error_projected": ("postprocess.l2_error_post_processor", False, True, "", ALL, ALL, True),
    "grad_error": ("postprocess.l2_error_post_processor", True, True, "grad_", ALL, LAG, False),
    "div_error": ("postprocess.l2_error_post_processor", True, True, "div_", DIV, DIV, True),
    "div_scaled_error": ("postprocess.l2_error_post_processor", True, True, "div_", FLUX, FLUX, True),
    "devia_l2_error": ("postprocess.l2_error_post_processor", True, True, "", FLUX, FLUX, True),
    "l2_norm": ("postprocess.solution_norms_post_processor", True, False, "", ALL, ALL, True),
    "div_norm": ("postprocess.solution_norms_post_processor", True, False, "div_", FLUX, FLUX, True),
    "devia_l2_norm": ("postprocess.solution_norms_post_processor", True, False, "", FLUX, FLUX, True),
}
DIMS = {"grad_error": (2, 3), "div_scaled_error": (2, 3), "devia_l2_error": (2, 3), "div_norm": (2, 3), "devia_l2_norm": (2, 3)}


class SumCheck:
    def __init__(self, program, res):
        self.p, self.res = program, res

    def func(self, module, name):
        for f in self.p.functions():
            if f.cls is None and f.name == name and f.module.name == module:
                return f
        for f in self.p.functions():
            if f.cls is None and f.name == name:
                return f
        raise AnchorMissing(name)

    def cls(self, name):
        c = self.p.find_class(name)
        if c is None:
            raise AnchorMissing(name)
        return c

    def at(self, f):
        return loc(f.module, f.node)

    # ---- the abstract world ----------------------------------------------------------
    def product(self, it, fields, n):
        """fields: {name: (dimension, family, components)}; n elements each"""
        ps = O(self.cls("ProductSpace"))
        sp = it.mkd()
        for name, (dim, fam, comps) in fields.items():
            s = O(self.cls("DiscreteSpace"))
            els = []
            for i in range(n):
                e = S("el:%s:%d" % (name, i))
                data = S("data:%s:%d" % (name, i))
                cell = O(self.cls("MeshCell"))
                # identifiers of cells are not positions of elements
                cell.attrs.update({"dimension": K(dim), "id": K(40 - 3 * i), "material_id": K(1 + i % 2), "node_tags": S("nodes:%s:%d" % (name, i))})
                it.store[(e, "data")] = data
                it.store[(data, "cell")] = cell
                els.append(e)
            s.attrs.update({"dimension": K(dim), "n_comp": K(comps), "name": K(name), "generator_family": ("ext", "basix.ElementFamily." + FAMILY[fam]),
                            "elements": it.concrete(els), "element_ids": it.concrete([K(40 - 3 * i) for i in range(n)])})
            sp.entries.append(((), (), K(name), s))
        ps.attrs.update({"discrete_spaces": sp, "names": it.concrete([K(x) for x in fields]),
                         "quadrature": it.concrete([Tup([S("points%d" % d), S("weights%d" % d)]) for d in range(4)]), "dof_shift": K(0)})
        return ps

    def natives(self, fields):
        ds = self.cls("ProductSpace")
        m = self.p.lookup_method(ds, "discrete_spaces_destination_indexes")
        if m is None:
            raise AnchorMissing("discrete_spaces_destination_indexes")

        def dest(it, pos, kw, n):
            i = freeze(pos[-1] if pos else kw.get("cell_index"))
            if not is_k(i):
                return None
            d = it.mkd()
            for name in fields:
                d.entries.append(((), (), K(name), S("dest:%s:%d" % (name, i[2]))))
            return d

        def total(it, pos, kw, n):
            # numpy's sum over every entry of a list whose items are known
            v = pos[0] if pos else kw.get("a")
            if not isinstance(v, (L, Tup)) or len(pos) > 1 or set(kw) - {"a"}:
                return None
            items = v.items if isinstance(v, Tup) else [x for _, _, x in v.segs] if v.plain() and not v.over else None
            if items is None:
                return None
            r = K(0)
            for x in items:
                x = freeze(x)
                r = add(r, x if is_k(x) or scalar(x) else ("call", "np.sum", (x,), ()))
            return r

        def mean(it, pos, kw, n):
            v = pos[0] if pos else kw.get("a")
            if not isinstance(v, (L, Tup)) or len(pos) > 1 or set(kw) - {"a"}:
                return None
            items = v.items if isinstance(v, Tup) else [x for _, _, x in v.segs] if v.plain() and not v.over else None
            if not items or not all(scalar(freeze(x)) for x in items):
                return None
            from fractions import Fraction
            r = K(0)
            for x in items:
                r = add(r, mul(freeze(x), K(Fraction(1, len(items)))))
            return r

        def mapping(it, pos, kw, n):
            e, at = pos[0], freeze(pos[1] if len(pos) > 1 else kw.get("points"))
            if not element(e):
                return None
            return Tup([("call", x, (e, at), ()) for x in ("x", "jac", "det", "inv")])

        def basis(it, pos, kw, n):
            e = pos[0]
            a = dict(zip(("points", "jac", "det_jac", "inv_jac"), pos[1:]))
            a.update(kw)
            if not element(e) or len(a) != 4:
                return None
            at = freeze(a["points"])
            if [freeze(a[x]) for x in ("jac", "det_jac", "inv_jac")] == [("call", x, (e, at), ()) for x in ("jac", "det", "inv")]:
                return ("call", "basis", (e, at), ())
            return ("call", "basis", (e,) + tuple(freeze(a[x]) for x in ("points", "jac", "det_jac", "inv_jac")), ())

        return {".evaluate_mapping": mapping, ".evaluate_basis": basis, m.id: dest, "np.sum": total, "np.mean": mean, "np.average": mean}

    # ---- functionals -------------------------------------------------------------------
    def functionals(self):
        for name in SPECS:
            try:
                f = self.func(SPECS[name][0], name)
            except AnchorMissing as e:
                self.res.unknown("anchor", str(e), "not found")
                continue
            for dim in DIMS.get(name, (1, 2, 3)):
                for fields, skip in self.spaces(dim, SPECS[name][6]):
                    self.functional(f, name, dim, fields, skip)

    def spaces(self, dim, skips):
        c = dim if dim > 1 else 1
        r = 3 if dim == 3 else 1
        out = [({"s": (dim, "RT" if dim > 1 else "Lagrange", c), "u": (dim, "Lagrange", c)}, ()),
               ({"t": (dim, "Lagrange", r), "m": (dim, "BDM" if dim > 1 else "Lagrange", r), "u": (dim, "Lagrange", c), "s": (dim, "RT" if dim > 1 else "Lagrange", c)}, ())]
        if dim > 1:
            out.append(({"s": (dim, "RT", 1), "e": (dim - 1, "RT" if dim > 2 else "Lagrange", 1), "u": (dim, "Lagrange", 1)}, ()))
        if skips:
            out.append((out[1][0], ("m",)))
            out.append((out[1][0], ("t", "s")))
        return out

    def functional(self, f, name, dim, fields, skip):
        module, fns, unknowns, prefix, counts, integrates, skips = SPECS[name]
        what = "dimension %d, fields %s%s" % (dim, ", ".join("%s %s" % (k, v[1]) for k, v in fields.items()), " without %s" % ", ".join(skip) if skip else "")
        want = [k for k, (d, fam, c) in fields.items() if k not in skip and counts(fam, dim)]
        shifted = "dof_shift" in [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
        values = {}
        for n in (2, 3):
            def run(it):
                ps = self.product(it, fields, n)
                kw = {}
                given = it.mkd()
                for k in fields:
                    for p in ("", "grad_", "div_"):
                        self.give(it, given, p + k)
                for k in ("l", "grad_l"):
                    self.give(it, given, k)
                pos = [K(dim), ps] + ([given] if fns else []) + ([ALPHA] if unknowns else [])
                if skip:
                    kw["skip_fields"] = it.concrete([K(x) for x in skip])
                if shifted:
                    kw["dof_shift"] = SHIFT
                return it.call_function(f, pos, kw, f.node)
            nat = self.natives(fields)
            outs = explore(lambda dec: Interp(self.p, dec, natives=nat), run)
            for o in outs:
                if o.kind == "unknown":
                    self.res.unknown("accumulation", f.name, "%s (%s)" % (o.why, what))
                    return
                if o.kind == "raise":
                    self.res.bad("accumulation", f.name + " raises", "%s: %s" % (what, o.value), self.at(f))
                    return
            if len(outs) != 1:
                self.res.unknown("accumulation", f.name, "%d cases (%s)" % (len(outs), what))
                return
            v = outs[0].value
            rows = [x for _, _, x in v.segs] if isinstance(v, L) and v.plain() and not v.over else list(v.items) if isinstance(v, Tup) else None
            if rows is None:
                self.res.unknown("accumulation", f.name, "result %s (%s)" % (show(freeze(v))[:80], what))
                return
            if len(rows) != len(want):
                self.res.bad("accumulation", f.name + " fields", "%s: %d values for the %d fields %s" % (what, len(rows), len(want), ", ".join(want)), self.at(f))
                return
            for k, r in zip(want, rows):
                values[(k, n)] = freeze(r)
        for k in want:
            self.value(f, k, fields, dim, [values[(k, 2)], values[(k, 3)]], prefix, integrates(fields[k][1], dim) and fields[k][0] == dim, unknowns, shifted, what)

    def give(self, it, given, name):
        given.entries.append(((), (), K(name), S("fn:" + name)))
        it.facts[("eq", NONE, S("fn:" + name))] = False

    def value(self, f, k, fields, dim, pair, prefix, integrates, unknowns, shifted, what):
        rule, con = "accumulation", "%s %s" % (f.name, "field")
        weights = []
        for n, t in zip((2, 3), pair):
            t = under_root(t)
            found = marks(t)
            bad = [x for x in found if x.split(":")[0] in ("el", "data", "dest", "nodes") and x.split(":")[1] != k]
            if bad:
                self.res.bad(rule, con + " mixing", "%s: the value of field %s contains %s of another field" % (what, k, bad[0]), self.at(f))
                return
            if not integrates:
                # no element of the requested dimension, or nothing to integrate for the family
                if any(x.startswith("el:") for x in found):
                    self.res.bad(rule, con + " selection", "%s: elements of dimension %d contribute to field %s" % (what, fields[k][0], k), self.at(f))
                    return
                continue
            if unclear(t):
                self.res.unknown(rule, f.name, "%s: %s" % (what, show(t)[:100]))
                return
            fn = {x for x in found if x.startswith("fn:")} - {"fn:l", "fn:grad_l"}
            if fn - {"fn:" + prefix + k}:
                self.res.bad(rule, con + " function", "%s: field %s is compared with the function %s" % (what, k, sorted(fn - {"fn:" + prefix + k})[0]), self.at(f))
                return
            mons = terms(t)
            own = [x for x in mons if any(y.startswith("el:") for y in marks(x))]
            if len(own) != len(mons):
                self.res.bad(rule, con + " start", "%s: the sum of field %s contains %s, which belongs to no element" % (
                    what, k, show([x for x in mons if x not in own][0])[:60]), self.at(f))
                return
            missing = [i for i in range(n) if "el:%s:%d" % (k, i) not in found]
            if missing:
                self.res.bad(rule, con + " elements", "%s: element %d of the %d elements of field %s does not contribute" % (what, missing[0], n, k), self.at(f))
                return
            for i in range(n - 1):
                if swap(t, k, i, i + 1) != t:
                    self.res.bad(rule, con + " elements", "%s: the elements %d and %d of field %s do not contribute alike" % (what, i, i + 1, k), self.at(f))
                    return
            if len(mons) % n:
                self.res.bad(rule, con + " elements", "%s: %d contributions to field %s from %d elements" % (what, len(mons), k, n), self.at(f))
                return
            ok = self.shifts(t, k, shifted) if unknowns else True
            if ok is None:
                self.res.unknown(rule, f.name, "%s: reading of the unknowns in %s" % (what, show(t)[:100]))
                return
            if not ok:
                self.res.bad(rule, con + " unknowns", "%s: the unknowns of field %s are not read at the destinations%s of the element" % (
                    what, k, " moved by the shift" if shifted else ""), self.at(f))
                return
            weights.append(sorted(coefficients(t)))
        if weights and [w for i, w in enumerate(weights[1]) if i % 3 == 0] != [w for i, w in enumerate(weights[0]) if i % 2 == 0]:
            self.res.bad(rule, con + " weight", "%s: the weight of a contribution to field %s depends on the number of elements: %s, %s" % (
                what, k, weights[0], weights[1]), self.at(f))
            return
        self.res.ok(rule, "%s (%s): field %s sums %s" % (f.name, what, k, "one contribution of every element" if integrates else "nothing"))

    def shifts(self, t, k, shifted):
        """None when the unknowns are read in a way that is not understood"""
        ok, reads, seen = [], [], []

        def look(x):
            if x == ALPHA:
                seen.append(x)
            i = None
            if x[0] == "get" and x[1] == ALPHA:
                i = x[2]
            elif x[0] == "call" and x[1] == "np.take" and len(x[2]) == 2 and x[2][0] == ALPHA:
                i = x[2][1]
            elif x[0] == "m" and x[1] == "take" and x[2] == ALPHA and len(x[3]) == 1:
                i = x[3][0]
            if i is not None:
                reads.append(i)
                d = {y for y in marks(i) if y.startswith("dest:")}
                if len(d) == 1:
                    ok.append(i == add(S(list(d)[0]), SHIFT) if shifted else i == S(list(d)[0]))
                else:
                    ok.append(False)
        walk(t, look)
        if ok and not all(ok):
            return False
        return True if ok and len(seen) == len(reads) else None

    # ---- mesh sizes ----------------------------------------------------------------------
    def sizes(self):
        f = self.func("mesh.mesh_metrics", "mesh_size")
        diam = self.func("mesh.mesh_metrics", "cell_diam")
        kinds = [(2, 1), (1, 1), (2, 2), (0, None), (2, 1), (1, 2), (2, None), (3, 1), (1, 1)]
        cases = [("all cells", {}, lambda d, t: d == 2), ("dimension 1", {"dim": K(1)}, lambda d, t: d == 1),
                 ("tag 1", {"physical_tag": K(1)}, lambda d, t: d == 2 and t == 1),
                 ("dimension 1 and tag 2", {"dim": K(1), "physical_tag": K(2)}, lambda d, t: d == 1 and t == 2)]
        for what, kw, selected in cases:
            def run(it):
                mesh = O(self.cls("Mesh"))
                cells = []
                for i, (d, t) in enumerate(kinds):
                    c = O(self.cls("MeshCell"))
                    c.attrs.update({"dimension": K(d), "material_id": K(t), "id": K(i), "node_tags": S("nodes:m:%d" % i)})
                    cells.append(c)
                mesh.attrs.update({"dimension": K(2), "points": S("mesh points"), "cells": it.concrete(cells, True)})
                return it.call_function(f, [mesh], dict(kw), f.node)

            def size(it, pos, kw, n):
                a = dict(zip([x.arg for x in diam.node.args.args], pos))
                a.update(kw)
                c = [v for v in a.values() if isinstance(v, O) and "node_tags" in v.attrs]
                return ("celldiam", c[0].attrs["node_tags"]) if len(c) == 1 else None
            want = {"nodes:m:%d" % i for i, (d, t) in enumerate(kinds) if selected(d, t)}
            outs = explore(lambda dec: Interp(self.p, dec, natives={diam.id: size}), run)
            if len(outs) != 1 or outs[0].kind != "value":
                self.res.unknown("mesh size", f.name, "%s: %s" % (what, outs[0].why or outs[0].value))
                continue
            v = outs[0].value
            items = list(v.items) if isinstance(v, Tup) else [x for _, _, x in v.segs] if isinstance(v, L) and v.plain() else None
            if items is None or len(items) != 3:
                self.res.unknown("mesh size", f.name, "%s: result %s" % (what, show(freeze(v))[:80]))
                continue
            for name, x in zip(("minimum", "mean", "maximum"), items):
                t = freeze(x)
                got = marks(t)
                if got != want:
                    i = sorted(got ^ want)[0]
                    self.res.bad("mesh size", "%s %s" % (f.name, name), "%s: the %s %s cell %s" % (
                        what, name, "takes in" if i in got else "leaves out", i.split(":")[2]), self.at(f))
                    continue
                fn = name if len(want) == 1 and t[0] == "celldiam" else statistic(t, [("celldiam", S(w)) for w in want])
                if fn is None:
                    self.res.unknown("mesh size", f.name, "%s: %s is %s" % (what, name, show(t)[:80]))
                elif fn != name:
                    self.res.bad("mesh size", "%s %s" % (f.name, name), "%s: the %s is returned as the %s" % (what, fn, name), self.at(f))
                else:
                    self.res.ok("mesh size", "%s: %s over the %d selected cells" % (what, name, len(want)))

    def diameter(self):
        f = self.func("mesh.mesh_metrics", "cell_diam")
        for n in (2, 3, 4):
            def run(it):
                mesh, c = O(self.cls("Mesh")), O(self.cls("MeshCell"))
                mesh.attrs["points"] = it.concrete([S("point:%d" % i) for i in range(6)], True)
                c.attrs["node_tags"] = it.concrete([K(i) for i in (4, 1, 3, 0)[:n]], True)
                return it.call_function(f, [c, mesh], {}, f.node)
            outs = explore(lambda dec: Interp(self.p, dec), run)
            if len(outs) != 1 or outs[0].kind != "value":
                self.res.unknown("diameter", f.name, "%d nodes: %s" % (n, outs[0].why or outs[0].value))
                continue
            t = freeze(outs[0].value)
            pairs, odd = set(), []

            def look(x):
                if x[0] == "call" and x[1] == "np.linalg.norm":
                    d = x[2][0]
                    a = sorted(int(y.split(":")[1]) for y in marks(d))
                    if d[0] == "poly" and sorted(c for _, c in d[1]) == [-1, 1] and len(a) == 2:
                        pairs.add(tuple(a))
                    elif is_k(d) and d[2] == 0:
                        pass
                    else:
                        odd.append(d)
            walk(t, look)
            nodes = sorted((4, 1, 3, 0)[:n])
            want = {(a, b) for a in nodes for b in nodes if a < b}
            if odd or not pairs or statistic(t, []) not in ("maximum", "minimum"):
                self.res.unknown("diameter", f.name, "%d nodes: %s" % (n, show(t)[:80]))
            elif statistic(t, []) == "minimum":
                self.res.bad("diameter", f.name + " largest", "%d nodes: the smallest distance is returned" % n, self.at(f))
            elif pairs != want:
                self.res.bad("diameter", f.name + " pairs", "%d nodes: the distance of the nodes %s is not looked at" % (n, sorted(want - pairs)[:2]), self.at(f))
            else:
                self.res.ok("diameter", "%d nodes: the largest of the %d distances" % (n, len(want)))


def statistic(t, sizes):
    """which statistic of the sizes a term is"""
    if t[0] == "min" or t[0] == "call" and t[1] in ("np.min", "np.amin", "min"):
        return "minimum"
    if t[0] == "max" or t[0] == "call" and t[1] in ("np.max", "np.amax", "max"):
        return "maximum"
    if t[0] == "call" and t[1] in ("np.mean", "np.average", "statistics.mean"):
        return "mean"
    if t[0] == "poly":
        of = sorted(tuple(a for a in m if not is_k(a)) for m, _ in t[1])
        if of == sorted((s,) for s in sizes) and all(abs(c * len(sizes) - 1) < 1e-9 for c in coefficients(t)):
            return "mean"
    return None


def element(e):
    return isinstance(e, tuple) and e[0] == "sym" and e[1].startswith("el:")


def walk(t, f):
    if isinstance(t, tuple) and t and not is_k(t):
        if isinstance(t[0], str):
            f(t)
        for x in t:
            if isinstance(x, tuple):
                walk(x, f)


def marks(t):
    out = set()
    walk(t, lambda x: out.add(x[1]) if x[0] == "sym" and ":" in x[1] else None)
    return out


def unclear(t):
    bad = []
    walk(t, lambda x: bad.append(x) if x[0] in ("?", "phi", "last") else None)
    return bad


def scalar(x):
    """a number: a constant, or a combination of full sums"""
    if is_k(x):
        return True
    if x[0] == "poly":
        return all(scalar(a) for mono, _ in x[1] for a in mono)
    if x[0] == "call" and x[1] in ("np.sum", "np.trace", "np.dot", "np.vdot"):
        return not [k for k, _ in x[3] if k in ("axis", "axis1", "axis2")] and len(x[2]) == (1 if x[1] in ("np.sum", "np.trace") else 2)
    if x[0] == "sum":
        return True
    return False


def under_root(t):
    """the accumulated value below functions of one argument"""
    while isinstance(t, tuple) and t:
        if t[0] == "call" and t[1] in ("np.sqrt", "math.sqrt", "np.abs", "np.power", "math.pow", "float") and t[2]:
            t = t[2][0]
        elif t[0] in ("Pow", "abs") and len(t) > 1:
            t = t[1]
        else:
            return t
    return t


def terms(t):
    if t[0] == "poly":
        return [("mono",) + tuple(mono) for mono, c in t[1]]
    if is_k(t):
        return [] if t[2] == 0 else [t]
    return [t]


def coefficients(t):
    out = []
    for mono, c in t[1] if t[0] == "poly" else (((), 1),):
        for a in mono:
            if is_k(a):
                c = c * a[2]
        out.append(round(float(c), 12))
    return out


def swap(t, k, i, j):
    m = {}
    for p in ("el", "data", "dest", "nodes"):
        a, b = S("%s:%s:%d" % (p, k, i)), S("%s:%s:%d" % (p, k, j))
        m[a], m[b] = b, a
    return rename(t, m)


def run(program, res, tier):
    c = SumCheck(program, res)
    for part in (c.functionals, c.sizes, c.diameter):
        try:
            part()
        except AnchorMissing as e:
            res.unknown("anchor", str(e), "not found")
