"""P06: unknowns are numbered without gaps or overlaps and every lookup returns the same shifted numbers.

The numbering classes are run in the value-term domain on an opaque mesh: for each space dimension and each pattern of
entity dimensions without unknowns the numbers handed out are polynomial terms in the position of the entity in its
list, the unknowns per entity, the components and the shift, which are compared with the terms of a consecutive block
numbering. Product spaces are run on opaque fields."""
import ast
import itertools

from .core import AnchorMissing, loc
from .vn import Interp, K, L, D, O, Tup, explore, freeze, add, mul, has, is_k, atoms, get_term, neg
from .check_scatter import with_frame, show, rename

S = lambda x: ("sym", x)
TOP, CELL, BCELL = S("topology"), S("cell"), S("bc_cell")
CLEAN = {"?", "ite", "last", "phi", "opaque", "in", "chunk"}


def m(name, base, *args):
    return ("m", name, base, tuple(args), ())


def attr(base, *names):
    for n in names:
        base = ("attr", base, n)
    return base


def entities(d):
    return m("entities_by_dimension", TOP, K(d))


def graph(d):
    return m("entity_map_by_dimension", TOP, K(d))


KNOWN = {"entities_by_dimension", "entities_by_codimension", "entity_map_by_dimension", "entity_map_by_codimension", "successors",
         "predecessors", "neighbors", "nodes", "index", "destination_indices", "bc_destination_indices", "dof_number", "build_graph",
         "build_graph_on_physical_tags", "items", "keys", "values"}


def methods(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple) and not is_k(t):
        if len(t) == 5 and t[0] == "m":
            out.add(t[1])
        for x in t:
            if isinstance(x, tuple):
                methods(x, out)
    return out


def clean(*ts):
    bad = set()
    for t in ts:
        bad |= atoms(t) & CLEAN
        bad |= methods(t) - KNOWN
    return not bad


class Names:
    """other spellings of the same lookups"""

    def __init__(self, dim):
        self.m = {}
        for d in range(4):
            for a in (K(d), K(d - dim - 1)):
                self.m[("get", attr(TOP, "entity_ids"), a)] = entities(d)
                self.m[("get", attr(TOP, "entity_maps"), a)] = graph(d)
            if d <= dim:
                self.m[m("entity_map_by_codimension", TOP, K(dim - d))] = graph(d)
                self.m[m("entities_by_codimension", TOP, K(dim - d))] = entities(d)
        cell = ("get", attr(TOP, "mesh", "cells"), CELL)
        self.m[("tup", attr(cell, "dimension"), attr(cell, "id"))] = m("index", cell)
        self.m[("tup", K(dim), CELL)] = m("index", cell)
        self.m[("tup", K(dim), attr(cell, "id"))] = m("index", cell)
        self.m[("tup", attr(cell, "dimension"), CELL)] = m("index", cell)
        for d in range(4):
            s = m("successors", graph(d), m("index", cell))
            self.m[m("neighbors", graph(d), m("index", cell))] = s
            self.m[("get", attr(graph(d), "succ"), m("index", cell))] = s
            self.m[("get", graph(d), m("index", cell))] = s

    def __call__(self, t):
        for _ in range(3):
            t2 = rename(t, self.m)
            if t2 == t:
                break
            t = t2
        return t


class DofCheck:
    def __init__(self, program, res):
        self.p, self.res = program, res

    def method(self, cls, name):
        f = self.p.lookup_method(cls, name)
        if f is None:
            raise AnchorMissing("%s.%s" % (cls.name, name))
        return f

    def emit(self, rule, construct, got, want, where, sample):
        if got == want:
            self.res.ok(rule, sample)
        elif clean(got):
            self.res.bad(rule, construct, "%s instead of %s" % (show(got), show(want)), where)
        else:
            self.res.unknown(rule, construct, "value %s" % show(got)[:120])

    def outcomes(self, outs, rule, construct):
        """the ordinary ends of the run; anything else is reported"""
        good = []
        for oc in outs:
            if oc.kind == "value":
                good.append(oc)
            elif oc.kind == "raise":
                self.res.bad(rule, construct, "raises %s for a supported configuration" % oc.value,
                             loc(oc.module, oc.node) if oc.module is not None and oc.node is not None else "")
            else:
                self.res.unknown(rule, construct, oc.why)
        return good

    # ---- numbering of one field -------------------------------------------
    def numbering(self):
        cls = self.p.find_class("DoFMap")
        if cls is None:
            raise AnchorMissing("DoFMap")
        init = self.method(cls, "__init__")
        steps = {n: self.method(cls, n) for n in ("set_topological_dimension", "build_entity_maps", "dof_number",
                                                   "destination_indices", "bc_destination_indices")}
        for dim in range(4):
            for zero in itertools.product((False, True), repeat=dim + 1):
                q = [K(0) if z else S("q%d" % d) for d, z in enumerate(zero)]

                def run(it):
                    ref = S("reference_element")
                    rows = []
                    it.lower[S("components")] = 1
                    it.ints |= {S("components"), S("shift")}
                    for d in range(dim + 1):
                        rows.append(it.mk([(((next(it.bid), S("m%d" % d)),), (), q[d])], True))
                        it.lower[S("q%d" % d)] = it.lower[S("m%d" % d)] = 1
                        it.lower[("len", entities(d))] = 1
                        it.lower[("len", ("get", attr(TOP, "entity_ids"), K(d)))] = 1
                    it.lower[S("shift")] = 0
                    it.lower[attr(TOP, "mesh", "dimension")] = dim
                    it.store[(ref, "num_entity_dofs")] = it.concrete(rows)
                    o = O(cls)
                    it.call_function(init, [TOP, S("family"), S("cell_type"), S("order"), S("variant")], {}, None, self_=o)
                    it.call_function(steps["set_topological_dimension"], [K(dim)], {}, None, self_=o)
                    it.call_function(steps["build_entity_maps"], [S("components"), S("shift")], {}, None, self_=o)
                    n = it.call_function(steps["dof_number"], [], {}, None, self_=o)
                    r = it.call_function(steps["destination_indices"], [CELL], {}, None, self_=o)
                    b = it.call_function(steps["bc_destination_indices"], [CELL, BCELL], {}, None, self_=o) if dim else None
                    return n, r, b
                case = "dimension %d%s" % (dim, "".join(", none per %s" % x for x, z in zip(
                    ("vertex", "edge", "face", "volume"), zero) if z))
                outs = explore(lambda dec: Interp(self.p, dec, natives={"basix.create_element": lambda it, pos, kw, n: S("reference_element")}),
                               lambda it: with_frame(it, init, run), limit=16)
                good = self.outcomes(outs, "field.numbering", "DoFMap (%s)" % case)
                names = Names(dim)
                for oc in good:
                    n, r, b = oc.value
                    total, start = K(0), []
                    for d in range(dim + 1):
                        start.append(add(total, S("shift")))
                        total = add(total, mul(mul(("len", entities(d)), S("components")), q[d]))
                    self.emit("field.size", "DoFMap.dof_number (%s)" % case, names(freeze(n)), total,
                              loc(steps["build_entity_maps"].module, steps["build_entity_maps"].node), "%s: n_dof = %s" % (case, show(total)))
                    cell = ("get", attr(TOP, "mesh", "cells"), CELL)
                    want = []
                    for d in range(dim + 1):
                        succ = m("successors", graph(d), m("index", cell))
                        want.append((("len", succ), lambda k, succ=succ: ("get", get_term(succ, k), K(1)), start[d], d, None))
                    self.blocks("field.element", "DoFMap.destination_indices", case, r, [w for w in want if not zero[w[3]]], q,
                                names, steps["destination_indices"])
                    if b is None:
                        continue
                    sub = attr(("get", attr(TOP, "mesh", "cells"), BCELL), "sub_cells_ids")
                    want = []
                    for d in range(dim):
                        ids = ("get", sub, K(d))
                        succ = m("successors", graph(d), m("index", cell))
                        want.append((("len", ids), lambda k, ids=ids: ("get", ids, k), start[d], d,
                                     lambda k, ids=ids, succ=succ, d=d: ("in", ("tup", K(d), ("get", ids, k)), succ)))
                    self.blocks("field.boundary", "DoFMap.bc_destination_indices", case, b, [w for w in want if not zero[w[3]]], q,
                                names, steps["bc_destination_indices"])

    def blocks(self, rule, construct, case, got, want, q, names, f):
        where = loc(f.module, f.node)
        construct = "%s (%s)" % (construct, case)
        if not isinstance(got, L):
            return self.res.unknown(rule, construct, "result %s" % type(got).__name__)
        segs = [s for s in got.segs if not any(names(c) == K(0) for _, c in s[0])]
        if any(s[2] == () for s in segs):
            return self.res.unknown(rule, construct, "empty value")
        for i in range(max(len(segs), len(want))):
            if i >= len(segs):
                return self.res.bad(rule, construct, "the numbers of the %s entities are missing" % _nth(want[i][3]), where)
            bs, gs, v = segs[i]
            v = names(freeze(v))
            if i >= len(want):
                if clean(v):
                    return self.res.bad(rule, construct, "numbers %s beyond the entities of the cell" % show(v)[:160], where)
                return self.res.unknown(rule, construct, "value")
            cnt, ent, start, d, guard = want[i]
            if len(bs) != 2:
                return self.res.unknown(rule, construct, "loops over %d ranges" % len(bs))
            (b1, c1), (b2, c2) = bs
            c1, c2 = names(c1), names(c2)
            if (c1, c2) != (cnt, mul(S("components"), q[d])):
                if clean(c1, c2):
                    return self.res.bad(rule, construct, "%s x %s numbers instead of %s x %s" % (
                        show(c1), show(c2), show(cnt), show(mul(S("components"), q[d]))), where)
                return self.res.unknown(rule, construct, "number of entries")
            e = ent(("bv", b1))
            exp = add(add(mul(mul(("rank", entities(d), e), S("components")), q[d]), start), ("bv", b2))
            if v != exp:
                if clean(v):
                    return self.res.bad(rule, construct, "number %s instead of %s" % (show(v), show(exp)), where)
                return self.res.unknown(rule, construct, "number %s" % show(v)[:120])
            for g in gs:
                g = names(g)
                if guard is not None and g == guard(("bv", b1)):
                    continue
                if clean(rename(g, {guard(("bv", b1)): S("ok")}) if guard else g):
                    return self.res.bad(rule, construct, "entities are skipped unless %s" % show(g), where)
                return self.res.unknown(rule, construct, "condition %s" % show(g)[:120])
        self.res.ok(rule, "%s: %d consecutive blocks" % (construct, len(want)))

    # ---- fields of a product space ----------------------------------------
    def product(self, name):
        cls = self.p.find_class(name)
        if cls is None:
            raise AnchorMissing(name)
        init = self.method(cls, "__init__")
        shifted = name == "ProductSpace"
        for nf, bare, fresh in [(1, None, 0), (2, None, 0), (3, None, 0), (2, 0, 0), (2, 1, 0), (3, 1, 0), (3, 0, 0)] + [(2, None, 1)] * shifted:
            # bare: a field without boundary elements; fresh: nobody has set a shift
            def run(it, nf=nf, bare=bare, fresh=fresh):
                fields = it.mkd()
                for i in range(nf):
                    fields.entries.append(((), (), K("field%d" % i), Tup([K(2), S("components%d" % i), S("family%d" % i), S("order%d" % i), S("mesh")])))
                    sp = S("space%d" % i)
                    for n in ("bc_elements", "elements", "bc_element_ids", "element_ids"):
                        if i == bare and n.startswith("bc"):
                            it.store[(sp, n)] = it.concrete([])
                        else:
                            it.lower[("len", attr(sp, n))] = 1
                o = O(cls)
                if shifted:
                    it.call_function(init, [fields], {}, None, self_=o)
                    it.call_function(self.method(cls, "build_structures"), [S("tags"), S("bc_tags")], {}, None, self_=o)
                    it.ints |= {S("shift"), S("old_shift")}
                    it.lower[S("shift")] = it.lower[S("old_shift")] = 0
                    if not fresh:
                        it.set_attr(o, "dof_shift", S("old_shift"), init.node)
                        it.set_attr(o, "dof_shift", S("shift"), init.node)
                else:
                    o.attrs["integration_order"] = S("integration_order")
                    it.call_function(self.method(cls, "_define_discrete_spaces"), [fields], {}, None, self_=o)
                    it.call_function(self.method(cls, "_define_discrete_spaces_dof"), [], {}, None, self_=o)
                    it.call_function(self.method(cls, "_define_n_dof"), [], {}, None, self_=o)
                call = lambda f, *a: it.call_function(self.method(cls, f), list(a), {}, None, self_=o)
                out = {"n": it.attr(o, "n_dof", init.node)}
                for pre in ("", "bc_"):
                    out[pre + "all"] = call(pre + "destination_indexes", S("i"))
                    out[pre + "dict"] = call("discrete_spaces_%sdestination_indexes" % pre, S("i"))
                    if shifted:
                        for i in range(nf):
                            if pre and i == bare:
                                continue
                            out[pre + "field%d" % i] = call(pre + "destination_indexes", S("i"), K("field%d" % i))
                return out

            def space(it, pos, kw, n):
                k = getattr(it, "nspaces", 0)
                it.nspaces = k + 1
                return S("space%d" % k)
            outs = explore(lambda dec: Interp(self.p, dec, natives={"DiscreteSpace": space}), lambda it: with_frame(it, init, run), limit=64)
            for oc in self.outcomes(outs, "product.size", "%s (%d fields)" % (name, nf)):
                self.product_case(cls, name, nf, oc.value, shifted, bare, fresh)

    def product_case(self, cls, name, nf, out, shifted, bare=None, fresh=0):
        text = "%d fields%s%s" % (nf, "" if bare is None else ", field %d without boundary" % bare, ", no shift set" if fresh else "")
        ren = {}
        sizes, dests, bcs = [], [], []
        for i in range(nf):
            sp = S("space%d" % i)
            size = m("dof_number", attr(sp, "dof_map"))
            ren[attr(sp, "n_dof")] = size
            ren[attr(sp, "dof_map", "n_dof")] = size
            for n, ids in (("elements", "element_ids"), ("bc_elements", "bc_element_ids")):
                ren[("get", attr(sp, ids), S("i"))] = attr(("get", attr(sp, n), S("i")), "data", "cell", "id")
                cell = attr(("get", attr(sp, n), S("i")), "data", "cell")
                ren[("get", m("index", cell), K(1))] = attr(cell, "id")
                ren[("tup", attr(cell, "dimension"), attr(cell, "id"))] = m("index", cell)
                if n == "bc_elements":
                    ren[m("entity_map_by_codimension", attr(sp, "dof_map", "mesh_topology"), K(1))] = \
                        m("entity_map_by_dimension", attr(sp, "dof_map", "mesh_topology"), attr(cell, "dimension"))
                    ren[attr(sp, "mesh_topology")] = attr(sp, "dof_map", "mesh_topology")
            sizes.append(size)
            dests.append(m("destination_indices", attr(sp, "dof_map"), attr(("get", attr(sp, "elements"), S("i")), "data", "cell", "id")))
            bcs.append(sp)
        off, total = [], K(0)
        for s in sizes:
            off.append(add(total, S("shift")) if shifted and not fresh else total)
            total = add(total, s)
        n_f = self.method(cls, "destination_indexes")
        where = loc(n_f.module, n_f.node)
        R = lambda v: rename(rename(freeze(v), ren), ren)
        self.emit("product.size", "%s.n_dof (%s)" % (name, text), R(out["n"]), total, where, "%s, %s: %s" % (name, text, show(total)))

        def one(rule, construct, v, i, pre):
            v = R(v)
            rest = add(v, off[i], -1)
            if not pre:
                if rest == dests[i]:
                    return self.res.ok(rule, "%s: numbers of field %d + %s" % (construct, i, show(off[i])))
            else:
                sp = bcs[i]
                cell = attr(("get", attr(sp, "bc_elements"), S("i")), "data", "cell")
                preds = m("predecessors", m("entity_map_by_dimension", attr(sp, "dof_map", "mesh_topology"), attr(cell, "dimension")), m("index", cell))
                if rest[0] == "m" and rest[1] == "bc_destination_indices" and rest[2] == attr(sp, "dof_map") and len(rest[3]) == 2:
                    a, b = rest[3]
                    if b == attr(cell, "id") and a[0] == "get" and a[2] == K(1) and a[1][0] == "get" and a[1][1] == preds and is_k(a[1][2]):
                        return self.res.ok(rule, "%s: boundary numbers of field %d + %s" % (construct, i, show(off[i])))
                    if b == attr(cell, "id") and has(a, preds):
                        if is_k(a) or a[0] == "get" and a[1] == preds or a[0] == "get" and is_k(a[2]) and a[1][0] == "get" and a[1][1] == preds:
                            return self.res.bad(rule, construct, "the neighbour of the boundary cell is given as %s" % show(a), where)
                        return self.res.unknown(rule, construct, "choice of the neighbour")
            if clean(v):
                return self.res.bad(rule, construct, "the numbers of field %d are %s (blocks before it: %s)" % (i, show(v)[:300], show(off[i])), where)
            return self.res.unknown(rule, construct, "value %s" % show(v)[:120])

        for pre in ("", "bc_"):
            kind = "boundary" if pre else "element"
            d = out[pre + "dict"]
            order = [i for i in range(nf) if not (pre and i == bare)]
            base = "%s.discrete_spaces_%sdestination_indexes (%s)" % (name, pre, text)
            if isinstance(d, D) and all(not b and not g for b, g, _, _ in d.entries):
                ks = [k for _, _, k, _ in d.entries]
                if ks != [K("field%d" % i) for i in order]:
                    self.res.bad("product." + kind, base, "fields %s are answered" % ", ".join(show(k) for k in ks), where)
                else:
                    for i, (_, _, _, v) in zip(order, d.entries):
                        one("product." + kind, base, v, i, pre)
            else:
                self.res.unknown("product." + kind, base, "result")
            v = out[pre + "all"]
            base = "%s.%sdestination_indexes (%s)" % (name, pre, text)
            if isinstance(v, L) and all(not b and not g and isinstance(x, tuple) and x and x[0] == "splice" for b, g, x in v.segs):
                if len(v.segs) != len(order):
                    self.res.bad("product." + kind, base, "%d of %d fields are numbered" % (len(v.segs), len(order)), where)
                else:
                    for i, (_, _, x) in zip(order, v.segs):
                        one("product." + kind, base, x[1], i, pre)
            elif len(order) == 1:
                one("product." + kind, base, v, order[0], pre)
            else:
                self.res.unknown("product." + kind, base, "result")
            if shifted:
                for i in order:
                    one("product." + kind, "%s.%sdestination_indexes (field %d of %s)" % (name, pre, i, text), out["%sfield%d" % (pre, i)], i, pre)

    # ---- entities of a dimension -------------------------------------------
    def topology(self):
        cls = self.p.find_class("MeshTopology")
        if cls is None:
            raise AnchorMissing("MeshTopology")
        init = self.method(cls, "__init__")
        for tagged in (False, True):
            build = self.method(cls, "build_data_on_pysical_tags" if tagged else "build_data")
            for dim in range(4):
                def run(it):
                    it.lower[attr(S("mesh"), "dimension")] = dim
                    o = O(cls)
                    it.call_function(init, [S("mesh"), K(dim)], {}, None, self_=o)
                    if tagged:      # built twice: the old data do not survive
                        it.call_function(build, [S("old_tags")], {}, None, self_=o)
                    it.call_function(build, [S("tags")] if tagged else [], {}, None, self_=o)
                    call = lambda f, a: it.call_function(self.method(cls, f), [K(a)], {}, None, self_=o)
                    return [(d, call("entity_map_by_dimension", d), call("entity_map_by_codimension", dim - d),
                             call("entities_by_dimension", d), call("entities_by_codimension", dim - d)) for d in range(dim + 1)]
                name = "MeshTopology.%s (dimension %d)" % (build.name, dim)
                outs = explore(lambda dec: Interp(self.p, dec), lambda it: with_frame(it, init, run), limit=16)
                where = loc(build.module, build.node)
                for oc in self.outcomes(outs, "entities", name):
                    for d, g1, g2, e1, e2 in oc.value:
                        g = m("build_graph_on_physical_tags", S("mesh"), S("tags"), K(dim), K(dim - d)) if tagged else \
                            m("build_graph", S("mesh"), K(dim), K(dim - d))
                        for k, v in (("entity_map_by_dimension(%d)" % d, g1), ("entity_map_by_codimension(%d)" % (dim - d), g2)):
                            self.emit("entities.graph", "%s %s" % (name, k), freeze(v), g, where, "%s: %s = %s" % (name, k, show(g)))
                        for k, v in (("entities_by_dimension(%d)" % d, e1), ("entities_by_codimension(%d)" % (dim - d), e2)):
                            self.ids("%s %s" % (name, k), v, g, d, where)

    def ids(self, name, v, g, d, where):
        rule = "entities.ids"
        for nodes in (m("nodes", g), attr(g, "nodes"), g):
            if isinstance(v, L) and len(v.segs) == 1 and len(v.segs[0][0]) == 1:
                (bs, gs, x), = v.segs
                (b, c), = bs
                if c == ("len", nodes) and freeze(x) == ("get", ("get", nodes, ("bv", b)), K(1)):
                    want = ("eq",) + tuple(sorted((K(d), ("get", ("get", nodes, ("bv", b)), K(0))), key=repr))
                    if tuple(gs) == (want,):
                        return self.res.ok(rule, "%s: identifiers of the nodes of dimension %d" % (name, d))
                    if all(clean(q) for q in gs):
                        return self.res.bad(rule, name, "entities are kept %s" % ("if " + " and ".join(show(q)[:120] for q in gs) if gs else "whatever their dimension"), where)
        if clean(freeze(v)):
            return self.res.bad(rule, name, "%s is not the list of entities of dimension %d" % (show(freeze(v))[:200], d), where)
        return self.res.unknown(rule, name, "value")

    # ---- one field: map, elements and identifiers agree --------------------
    def space(self):
        cls = self.p.find_class("DiscreteSpace")
        if cls is None:
            raise AnchorMissing("DiscreteSpace")
        init = self.method(cls, "__init__")
        for dim in range(4):
            def run(it):
                o = O(cls)
                it.call_function(init, [K(dim), S("components"), K("Lagrange"), S("order"), S("mesh")], {}, None, self_=o)
                it.call_function(self.method(cls, "build_structures"), [S("tags")], {}, None, self_=o)
                if dim:
                    it.lower[("len", S("bc_tags"))] = 1
                    it.call_function(self.method(cls, "build_boundary_structures"), [S("bc_tags")], {}, None, self_=o)
                it.result_calls = [c for c in it.calls if c["fn"] == S("map") or c["fn"] == TOP]
                return {n: o.attrs.get(n) for n in ("elements", "element_ids", "id_to_element", "bc_elements", "bc_element_ids",
                                                    "id_to_bc_element", "dof_map", "n_dof")}

            def fe(it, pos, kw, n):
                f = self.method(self.p.find_class("FiniteElement"), "__init__")
                names = [a.arg for a in f.node.args.args][1:]
                args = dict(zip(names, pos))
                args.update(kw)
                return ("call", ("element",), (freeze(args["cell_id"]),), ())
            nat = {"DoFMap": lambda it, pos, kw, n: S("map"), "MeshTopology": lambda it, pos, kw, n: TOP, "FiniteElement": fe}
            outs = explore(lambda dec: Interp(self.p, dec, natives=nat), lambda it: with_frame(it, init, run), limit=16)
            name = "DiscreteSpace (dimension %d)" % dim
            where = loc(init.module, init.node)
            for oc in self.outcomes(outs, "space", name):
                o = oc.value
                names = Names(dim)
                N = lambda v: names(freeze(v))
                self.emit("space.map", name + " dof_map", N(o["dof_map"]), S("map"), where, name)
                n = N(o["n_dof"])
                if n in (m("dof_number", S("map")), attr(S("map"), "n_dof")):
                    self.res.ok("space.map", "%s: n_dof = dof_map.dof_number()" % name)
                else:
                    self.emit("space.map", name + " n_dof", n, m("dof_number", S("map")), where, name)
                calls = {}
                for c in oc.it.calls:
                    if c["fn"] == S("map"):
                        calls[c["name"]] = c
                for nm, pname, want in (("set_topological_dimension", "dimension", K(dim)), ("build_entity_maps", "n_components", S("components"))):
                    c = calls.get(nm)
                    if c is None:
                        self.res.unknown("space.map", "%s %s" % (name, nm), "not called")
                        continue
                    f = self.method(self.p.find_class("DoFMap"), nm)
                    args = dict(zip([a.arg for a in f.node.args.args][1:], c["pos"]))
                    args.update(c["kw"])
                    self.emit("space.map", "%s %s" % (name, nm), N(args[pname]) if pname in args else K(1), want, where, "%s: %s(%s)" % (name, nm, show(want)))
                # one field is numbered from zero: the shift of a product space is added by its lookups
                c = calls.get("build_entity_maps")
                f = self.method(self.p.find_class("DoFMap"), "build_entity_maps")
                names_ = [a.arg for a in f.node.args.args]
                shift = [a for a in names_ if "shift" in a]
                if c is not None and len(shift) == 1:
                    args = dict(zip(names_[1:], c["pos"]))
                    args.update(c["kw"])
                    dflt = dict(zip(reversed(names_), reversed(f.node.args.defaults))).get(shift[0])
                    if shift[0] in args:
                        self.emit("space.map", "%s first number" % name, N(args[shift[0]]), K(0), where, "%s: numbers start at 0" % name)
                    elif isinstance(dflt, ast.Constant):
                        self.emit("space.map", "%s first number" % name, K(dflt.value), K(0), where, "%s: numbers start at 0" % name)
                    else:
                        self.res.unknown("space.map", "%s first number" % name, "default of the shift")
                order = [c["name"] for c in oc.it.calls if c["fn"] == S("map")]
                steps = [len(order) - 1 - order[::-1].index(x) for x in ("set_topological_dimension", "build_entity_maps", "dof_number") if x in order]
                if steps == sorted(steps):
                    self.res.ok("space.map", "%s: dimension, numbers and size in this order" % name)
                else:
                    self.res.bad("space.map", "%s order" % name, "the map is asked in the order %s" % ", ".join(order), where)
                for pre, d in (("", dim), ("bc_", dim - 1)):
                    if d < 0:
                        continue
                    self.elements(name, pre, d, o, N, where)

    def elements(self, name, pre, d, o, N, where):
        ids, els, back = o[pre + "element_ids"], o[pre + "elements"], o["id_to_" + pre + "element"]
        fi = N(ids)
        label = "%s %s" % (name, pre + "elements")
        # the identifiers
        if not pre:
            self.emit("space.elements", label, fi, entities(d), where, "%s: element_ids = %s" % (name, show(entities(d))))
        else:
            good = False
            if isinstance(ids, L) and len(ids.segs) == 1 and len(ids.segs[0][0]) == 1:
                (bs, gs, v), = ids.segs
                (b, c), = bs
                e = ("get", entities(d), ("bv", b))
                if N(c) == ("len", entities(d)) and N(v) == e and len(gs) == 1 and \
                        N(gs[0]) == ("in", attr(("get", attr(TOP, "mesh", "cells"), e), "material_id"), S("bc_tags")):
                    good = True
            if good or fi[0] == "?":
                (self.res.ok if good else self.res.unknown)("space.elements", "%s: boundary cells with the given tags" % name, *([] if good else ["value"]))
            elif not (atoms(fi) & (CLEAN - {"in"})):
                self.res.bad("space.elements", label, "boundary cells are %s" % show(fi)[:300], where)
            else:
                self.res.unknown("space.elements", label, "value")
        # elements in the order of the identifiers
        def aligned(rule_label, v, is_ok, ok):
            if is_ok:
                return self.res.ok("space.elements", ok)
            f = N(v)
            if not (atoms(f) & (CLEAN - {"in"})):
                return self.res.bad("space.elements", rule_label, "%s is not aligned with the identifiers" % show(f)[:240], where)
            return self.res.unknown("space.elements", rule_label, "value")
        exp = None
        if isinstance(els, L) and len(els.segs) == 1 and len(els.segs[0][0]) == 1:
            (bs, gs, v), = els.segs
            b, c = bs[0]
            fe = N(v)
            if fe[0] == "call" and fe[1] == ("element",):
                want = L([(bs, gs, fe[2][0])])
                exp = fe[2][0]
                if not pre:
                    okk = N(c) == ("len", entities(d)) and not gs and exp == ("get", entities(d), ("bv", b))
                else:
                    okk = isinstance(ids, L) and N(want) == fi
                aligned(label, els, okk, "%s: elements[i] belongs to cell element_ids[i]" % label)
            else:
                aligned(label, els, False, "")
        else:
            self.res.unknown("space.elements", label, "value")
        # position of an identifier
        lab = "%s id_to_%selement" % (name, pre)
        if isinstance(back, D) and len(back.entries) == 1:
            bs, gs, k, v = back.entries[0]
            if not pre:
                okk = len(bs) == 1 and not gs and N(k) == ("get", entities(d), ("bv", bs[0][0])) and freeze(v) == ("bv", bs[0][0]) and \
                    N(bs[0][1]) == ("len", entities(d))
                aligned(lab, back, okk, "%s: position in the identifiers" % lab)
            else:
                pos = N(v)
                okk = len(bs) == 1 and N(L([(bs, gs, k)])) == fi and (pos == ("rank", fi, N(k)) or not gs and pos == ("bv", bs[0][0]))
                aligned(lab, back, okk, "%s: position in the identifiers" % lab)
        else:
            self.res.unknown("space.elements", lab, "value")


def _nth(d):
    return ("vertex", "edge", "face", "volume")[d]


def run(program, res, tier):
    c = DofCheck(program, res)
    for part in (c.numbering, lambda: c.product("ProductSpace"), lambda: c.product("MDProductSpace"), c.topology, c.space):
        try:
            part()
        except AnchorMissing as e:
            res.unknown("anchor", str(e), "not found")
