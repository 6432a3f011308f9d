"""P07: one choice of element family, cell type, degree and quadrature for every family name and dimension.

The selection functions, the spaces, the numbering and the elements are interpreted in the value-term domain for every family
name and every dimension; the arguments that reach the element library are compared with each other and, on the boundary, with
the trace space of the family."""
import ast
import itertools

from .core import AnchorMissing, loc
from .vn import Interp, K, L, D, O, Tup, NONE, TRUE, FALSE, explore, freeze, add, has, is_k
from .check_scatter import with_frame, show
from .check_local import clean

S = lambda x: ("sym", x)
TOP, MESH = S("topology"), S("mesh")
CELLS = ("attr", MESH, "cells")
FAMILY = {"Lagrange": "P", "BDM": "BDM", "RT": "RT", "N1E": "N1E", "N2E": "N2E"}
CELL = {0: "point", 1: "interval", 2: "triangle", 3: "tetrahedron"}
MESHIO = {0: "vertex", 1: "line", 2: "triangle", 3: "tetra"}
VECTOR = ("BDM", "RT", "N1E", "N2E")
ARGS = ("family", "celltype", "degree", "lagrange_variant", "dpc_variant", "discontinuous")


def fam(name):
    return ("ext", "basix.ElementFamily." + FAMILY[name])


def own(name, dim):
    """the family that spans the field on cells of a dimension"""
    return "Lagrange" if dim == 0 or dim == 1 and name in VECTOR else name


def celltype(d):
    return ("ext", "basix.CellType." + CELL[d])


def trace(name, dim, k):
    """family and degree of the functions that the unknowns on a facet stand for"""
    name = own(name, dim)
    if dim == 1:
        return "Lagrange", K(0)
    if name == "RT" or name == "N1E" and dim == 2:
        return "Lagrange", add(k, K(-1))
    if name == "BDM" or name == "N2E" and dim == 2:
        return "Lagrange", k
    return name, k


class FamilyCheck:
    def __init__(self, program, res):
        self.p, self.res = program, res

    def cls(self, name):
        c = self.p.find_class(name)
        if c is None:
            raise AnchorMissing(name)
        return c

    def method(self, cls, name):
        f = self.p.lookup_method(cls, name)
        if f is None:
            raise AnchorMissing("%s.%s" % (cls.name, name))
        return f

    def func(self, name, module=None):
        for f in self.p.functions():
            if f.cls is None and f.name == name and (module is None or f.module.name.endswith(module)):
                return f
        raise AnchorMissing(name)

    def outcomes(self, outs, rule, construct):
        good = []
        for oc in outs:
            if oc.kind == "value":
                good.append(oc)
            elif oc.kind == "raise":
                self.res.bad(rule, construct, "raises %s for a supported configuration" % oc.value,
                             loc(oc.module, oc.node) if oc.module is not None and oc.node is not None else "")
            else:
                self.res.unknown(rule, construct, oc.why)
        return good

    def at(self, f):
        return loc(f.module, f.node)

    def emit(self, rule, construct, got, want, where, sample):
        if got == want:
            self.res.ok(rule, sample)
        elif clean(got) and self.ground(got):
            self.res.bad(rule, construct, "%s: %s instead of %s" % (sample, show(got)[:160], show(want)[:160]), where)
        else:
            self.res.unknown(rule, construct, "%s: %s" % (sample, show(got)[:120]))

    def ground(self, t):
        """a value of the kinds that can be compared: constants, library constants, given symbols and polynomials of them"""
        if not isinstance(t, tuple):
            return True
        if is_k(t) or t[0] in ("ext", "sym") or t[0] == "attr" and self.ground(t[1]):
            return True
        if t[0] == "poly":
            return all(self.ground(a) for mono, _ in t[1] for a in mono)
        if t[0] in ("max", "min", "tup"):
            return all(self.ground(a) for a in t[1:])
        return t[0] in ("list", "array") or t[0] == "call" and t[1].startswith("basix.")

    # ---- the two selections -------------------------------------------------------
    def selections(self):
        f = self.func("family_by_name")
        for name, want in FAMILY.items():
            self.pick(f, K(name), fam(name), "family", "%s selects the family of that name" % name)
        for name in ("P", "lagrange", "CR", ""):
            self.rejected(f, K(name), "family", "the name %r" % name)
        g = self.func("type_by_dimension")
        for d in range(4):
            self.pick(g, K(d), celltype(d), "cell", "dimension %d selects the %s" % (d, CELL[d]))
        for d in (-1, 4):
            self.rejected(g, K(d), "cell", "the dimension %d" % d)
        mesh = self.cls("Mesh")
        h = self.p.lookup_method(mesh, "mesh_cell_type_index")
        if h is not None:
            for d, name in MESHIO.items():
                self.pick(h, K(name), K(d + 1), "cell", "the cell name %s has index %d" % (name, d + 1), self_=MESH)

    def pick(self, f, arg, want, rule, sample, self_=None):
        outs = explore(lambda dec: Interp(self.p, dec), lambda it: with_frame(it, f, lambda it: it.call_function(f, [arg], {}, None, self_=self_)), limit=8)
        for oc in self.outcomes(outs, rule, f.name):
            self.emit(rule, f.name, freeze(oc.value), want, self.at(f), sample)

    def rejected(self, f, arg, rule, what):
        outs = explore(lambda dec: Interp(self.p, dec), lambda it: with_frame(it, f, lambda it: it.call_function(f, [arg], {}, None)), limit=8)
        for oc in outs:
            if oc.kind == "raise" or oc.kind == "value" and freeze(oc.value) == NONE:
                self.res.ok(rule, "%s is rejected" % what)
            elif oc.kind == "value" and self.ground(freeze(oc.value)):
                self.res.bad(rule, f.name, "%s, which is not supported, is handled as %s" % (what, show(freeze(oc.value))), self.at(f))
            else:
                self.res.unknown(rule, f.name, oc.why or "")

    # ---- spaces, numbering and elements ----------------------------------------------
    def spaces(self):
        cls = self.cls("DiscreteSpace")
        init = self.method(cls, "__init__")
        mc = self.cls("MeshCell")
        pt = self.func("permute_and_transform", "permute_and_transform")
        fe = self.cls("FiniteElement")

        def cells(k):
            d = self.dimension_of(k)
            o = O(mc)
            o.attrs["dimension"] = K(d) if d is not None else ("?", "dimension of a cell")
            o.attrs["id"] = k
            o.attrs["material_id"] = ("attr", ("get", CELLS, k), "material_id")
            o.attrs["sub_cells_ids"] = ("attr", ("get", CELLS, k), "sub_cells_ids")
            return o

        for name in FAMILY:
            for dim in range(4):
                for disc, embed in itertools.product((False, True), sorted({max(dim, 1), 3})):
                    k = S("order") if dim else K(0)

                    def run(it):
                        it.memory[CELLS] = {None: cells}
                        it.types[MESH] = self.cls("Mesh")
                        it.store[(TOP, "mesh")] = MESH
                        it.store[(MESH, "dimension")] = K(embed)
                        it.lower[S("order")] = 1
                        it.lower[S("io")] = 1
                        it.ints |= {S("order"), S("io"), S("components")}
                        o = O(cls)
                        it.call_function(init, [K(dim), S("components"), K(name), k, MESH], {"integration_order": S("io")}, None, self_=o)
                        if disc:
                            it.call_function(self.method(cls, "make_discontinuous"), [], {}, None, self_=o)
                        it.call_function(self.method(cls, "build_structures"), [S("tags")], {}, None, self_=o)
                        n1 = len(it.calls)
                        it.n2 = None
                        els = o.attrs.get("elements")
                        if dim == 1 and isinstance(els, L) and len(els.segs) == 1 and isinstance(els.segs[0][2], O):
                            it.n2 = len(it.effects)
                            g = self.p.lookup_method(els.segs[0][2].cls, "evaluate_basis")
                            it.call_function(g, [S("points"), S("jac"), S("det_jac"), S("inv_jac")], {}, None, self_=els.segs[0][2])
                            n1 = len(it.calls)
                        if dim:
                            it.lower[("len", S("bc_tags"))] = 1
                            it.call_function(self.method(cls, "build_boundary_structures"), [S("bc_tags")], {}, None, self_=o)
                        return n1, o

                    nat = {"MeshTopology": lambda it, pos, kw, n: TOP, pt.id: lambda it, pos, kw, n: pos[0]}
                    step = self.p.find_class("DoFMap")
                    for m in ("set_topological_dimension", "build_entity_maps", "dof_number"):
                        f = self.p.lookup_method(step, m) if step is not None else None
                        if f is not None:
                            nat[f.id] = lambda it, pos, kw, n: ("call", "numbering", (), ())
                    outs = explore(lambda dec: Interp(self.p, dec, natives=nat), lambda it: with_frame(it, init, run), limit=16)
                    what = "%s, dimension %d%s, mesh of dimension %d" % (name, dim, ", discontinuous" if disc else "", embed)
                    for oc in self.outcomes(outs, "element", what):
                        self.space_case(oc, name, dim, disc, k, what, init)
                        if dim == 1 and oc.it.n2 is not None:
                            self.segment(oc, name, oc.it.n2, oc.value[1], self.method(fe, "evaluate_basis"))
                        elif dim == 1:
                            self.res.unknown("segment", "evaluate_basis", "the elements of the space")

    def dimension_of(self, k):
        if isinstance(k, tuple) and k[0] == "get" and k[1][0] == "m" and k[1][1] == "entities_by_dimension" and k[1][2] == TOP and is_k(k[1][3][0]):
            return k[1][3][0][2]
        if isinstance(k, tuple) and k[0] == "get" and k[1][0] == "list" and len(k[1][1]) == 1:
            return self.dimension_of(k[1][1][0][2])
        return None

    def creations(self, calls, f):
        out = []
        for c in calls:
            if c["name"] is None and c["fn"] == "basix.create_element" or c["fn"] == "basix.create_element":
                a = dict(zip(ARGS, [freeze(x) for x in c["pos"]]))
                a.update({x: freeze(v) for x, v in c["kw"].items()})
                a.setdefault("discontinuous", FALSE)
                out.append((a, c))
        return out

    def space_case(self, oc, name, dim, disc, k, what, init):
        n1, o = oc.value
        vol = self.creations(oc.it.calls[:n1], init)
        bnd = self.creations(oc.it.calls[n1:], init)
        maps = [x for x in vol if not x[1]["binders"]]
        els = [x for x in vol if x[1]["binders"]]
        for kind, found in (("numbering", maps), ("elements", els)):
            if len(found) != 1:
                self.res.unknown("element", "%s %s" % (kind, what), "%d reference elements" % len(found))
                continue
            a, c = found[0]
            where = loc(c["module"], c["node"])
            text = "%s of a field (%s)" % (kind, what)
            for key, want in (("family", fam(own(name, dim))), ("celltype", celltype(dim)), ("degree", k), ("discontinuous", K(disc))):
                got = a.get(key, NONE)
                self.emit("element", "%s %s" % (kind, key), got, want, where, "%s: %s" % (text, key))
        if len(maps) == 1 and len(els) == 1:
            a, b = maps[0][0].get("lagrange_variant", NONE), els[0][0].get("lagrange_variant", NONE)
            self.emit("element", "variant", b, a, self.at(init), "%s: numbering and elements use the same points" % what)
        if not dim:
            return
        if len(bnd) != 1:
            self.res.unknown("trace", what, "%d reference elements on the boundary" % len(bnd))
            return
        a, c = bnd[0]
        where = loc(c["module"], c["node"])
        f, deg = trace(name, dim, k)
        text = "boundary elements (%s)" % what
        self.emit("trace", "_build_bc_elements family", a.get("family", NONE), fam(f), where, "%s: family" % text)
        self.emit("trace", "_build_bc_elements degree", a.get("degree", NONE), deg, where, "%s: degree" % text)
        self.emit("trace", "_build_bc_elements cell", a.get("celltype", NONE), celltype(dim - 1), where, "%s: cell type" % text)
        if dim > 1 and deg != k:
            # degree zero exists as a discontinuous element only
            self.emit("trace", "_build_bc_elements continuity", a.get("discontinuous", NONE), TRUE, where, "%s: discontinuous for degree zero" % text)

    # ---- shape functions along a segment ---------------------------------------------
    def segment(self, oc, name, n2, o, f):
        """vector families are mapped along a segment, scalar ones are not"""
        effects = [e for e in oc.it.effects[n2:] if e["kind"] in ("=", "*=")]
        scaled = any(has(freeze(e["value"]), S("det_jac")) and any(x[0] == "get" and has(x, S("jac")) for x in self.subterms(freeze(e["value"])))
                     for e in effects)
        if scaled == (name in VECTOR):
            self.res.ok("segment", "%s on a segment: %s" % (name, "mapped along the segment" if scaled else "left as it is"))
        elif scaled:
            self.res.bad("segment", "evaluate_basis", "the scalar family %s is mapped along the segment" % name, self.at(f))
        elif all(self.simple(freeze(e["value"])) for e in effects):
            self.res.bad("segment", "evaluate_basis", "the vector family %s is not mapped along the segment" % name, self.at(f))
        else:
            self.res.unknown("segment", "evaluate_basis", name)

    def simple(self, v):
        return not has(v, S("det_jac")) or v[0] == "m"

    def subterms(self, t):
        if isinstance(t, tuple) and t:
            yield t
            if not is_k(t):
                for x in t:
                    if isinstance(x, tuple):
                        yield from self.subterms(x)

    # ---- continuity of the fields of a product ------------------------------------------
    def continuity(self):
        """the fields asked for, and only these, become discontinuous"""
        from .symarr import Ev, Rec, Unknown, Fails
        for name in ("ProductSpace", "MDProductSpace"):
            cls = self.p.find_class(name)
            f = cls and self.p.lookup_method(cls, "make_subspaces_discontinuous")
            if not f:
                continue
            for asked in ({}, {"u": True}, {"u": False, "v": True}, {"w": True, "u": True}, {"u": True, "v": True, "w": True}, {"v": False}):
                names, done = ["u", "v", "w"], []
                spaces = {n: Rec("space " + n, make_discontinuous=lambda n=n: done.append(n)) for n in names}
                o = Rec("product", cls, names=names, discrete_spaces=spaces)
                want = sorted(n for n in asked if asked[n])
                text = "%s: discontinuous fields for %s" % (name, asked)
                try:
                    Ev(self.p).call(f, [dict(asked)], {}, o)
                except Fails as e:
                    self.res.bad("continuity", f.qualname, "%s: %s" % (text, e), self.at(f))
                    continue
                except (Unknown, TypeError, AttributeError, KeyError) as e:
                    self.res.unknown("continuity", f.qualname, "%s: %s" % (text, e))
                    continue
                got = sorted(set(done) | {n for n in names if spaces[n]._a.get("discontinuous") is True})
                if got == want:
                    self.res.ok("continuity", text)
                else:
                    self.res.bad("continuity", f.qualname, "%s: %s become discontinuous instead of %s" % (text, got, want), self.at(f))

    # ---- quadrature of a product of fields ----------------------------------------------
    def quadrature(self):
        for name, entry in (("ProductSpace", "__init__"), ("MDProductSpace", "_define_integration_order_and_quadrature")):
            try:
                cls = self.cls(name)
                f = self.method(cls, entry)
            except AnchorMissing as e:
                self.res.unknown("anchor", str(e), "not found")
                continue
            combos = [(d,) for d in range(4)] + list(itertools.product(range(4), repeat=2)) + [(2, 1, 0), (0, 2, 2), (3, 2, 1)]
            for dims in combos:
                for ks in ((1,), (2,), (3,)) if len(dims) == 1 else (((1, 3), (2, 1)) if len(dims) == 2 else ((1, 2, 4), (4, 2, 1))):
                    def run(it):
                        d = it.mkd()
                        for i, (dim, k) in enumerate(zip(dims, ks)):
                            d.entries.append(((), (), K("field%d" % i), Tup((K(dim), S("n%d" % i), K("Lagrange"), K(k), MESH))))
                        o = O(cls)
                        it.spaces = []
                        it.call_function(f, [d], {}, None, self_=o)
                        g = self.p.lookup_method(cls, "_define_discrete_spaces")
                        if entry != "__init__" and g is not None:
                            it.call_function(g, [d], {}, None, self_=o)
                        return o

                    def space(it, pos, kw, n):
                        g = self.method(self.cls("DiscreteSpace"), "__init__")
                        names = [a.arg for a in g.node.args.args][1:]
                        a = dict(zip(names, [freeze(x) for x in pos]))
                        a.update({x: freeze(v) for x, v in kw.items()})
                        it.spaces.append(a)
                        return S("space%d" % len(it.spaces))

                    outs = explore(lambda dec: Interp(self.p, dec, natives={"DiscreteSpace": space}), lambda it: with_frame(it, f, run), limit=8)
                    what = "%s of fields of dimension %s" % (name, ", ".join(map(str, dims)))
                    for oc in self.outcomes(outs, "quadrature", "%s.%s" % (name, entry)):
                        self.rules(oc, name, f, dims, ks, what)

    def rules(self, oc, name, f, dims, ks, what):
        o = oc.value
        order = 2 * max(ks) + 1
        for attr, need in (("quadrature", sorted(set(dims))), ("bc_quadrature", sorted({d - 1 for d in dims if d > 0}))):
            v = o.attrs.get(attr)
            for d in need:
                got = self.entry(v, d)
                text = "%s: %s of dimension %d" % (what, attr, d)
                con = "%s %s" % (name, attr)
                if got is None:
                    self.res.unknown("quadrature", con, text)
                elif d == 0:
                    t = self.pair(got)
                    if t == [[1.0], [1.0]]:
                        self.res.ok("quadrature", text + ": one point with weight one")
                    elif t is not None or got == NONE:
                        self.res.bad("quadrature", con, "%s: %s instead of one point with weight one" % (text, show(got)[:100]), self.at(f))
                    else:
                        self.res.unknown("quadrature", con, text)
                elif got[0] == "call" and got[1] == "basix.make_quadrature":
                    a = dict(zip(("cell", "degree", "rule"), got[2]))
                    a.update(dict(got[3]))
                    self.emit("quadrature", con, a.get("cell", NONE), celltype(d), self.at(f), text + ": cell type")
                    self.emit("quadrature", con, a.get("degree", NONE), K(order), self.at(f), text + ": degree")
                elif is_k(got):
                    self.res.bad("quadrature", con, "%s: there is no quadrature rule" % text, self.at(f))
                else:
                    self.res.unknown("quadrature", con, text)
        if len(oc.it.spaces) == len(dims):
            for i, (a, dim, k) in enumerate(zip(oc.it.spaces, dims, ks)):
                for key, want in (("dimension", K(dim)), ("n_components", S("n%d" % i)), ("family", K("Lagrange")), ("k_order", K(k)),
                                  ("mesh", MESH), ("integration_order", K(order))):
                    self.emit("quadrature", "%s space" % name, a.get(key, NONE), want, self.at(f), "%s: %s of field %d" % (what, key, i))
        else:
            self.res.unknown("quadrature", "%s spaces" % name, what)

    def entry(self, v, d):
        if isinstance(v, L) and v.plain() and not v.over and d < len(v.segs):
            return freeze(v.segs[d][2])
        if isinstance(v, Tup) and d < len(v.items):
            return freeze(v.items[d])
        if isinstance(v, D):
            for b, g, k, x in reversed(v.entries):
                if b or g:
                    return None
                if freeze(k) == K(d):
                    return freeze(x)
            return NONE
        return None

    def pair(self, t):
        if not (t[0] == "tup" and len(t) == 3):
            return None
        out = []
        for x in t[1:]:
            if x[0] in ("list", "array") and len(x) > 1 and all(s[:2] == ((), ()) and is_k(s[2]) for s in x[1]):
                out.append([s[2][2] for s in x[1]])
            else:
                return None
        return out

    # ---- tables of names by dimension ------------------------------------------------------
    def tables(self):
        """every constant table between dimensions and cell names uses the right names"""
        vocab = {v: d for t in (CELL, MESHIO) for d, v in t.items()}
        for m in self.p.modules.values():
            for n in ast.walk(m.tree):
                if not isinstance(n, ast.Dict) or len(n.keys) < 2:
                    continue
                pairs = []
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and isinstance(v, ast.Constant):
                        pairs.append((k.value, v.value))
                if len(pairs) != len(n.keys):
                    continue
                if all(isinstance(a, int) and not isinstance(a, bool) and isinstance(b, str) and b in vocab for a, b in pairs) and {a for a, _ in pairs} <= set(range(4)):
                    wrong = [(a, b) for a, b in pairs if vocab[b] != a]
                    names = {b for _, b in pairs}
                    mixed = not (names <= set(CELL.values()) or names <= set(MESHIO.values()))
                    con = "table at %s" % (m.name)
                    if wrong:
                        self.res.bad("table", con, "the name %r is given to cells of dimension %d" % (wrong[0][1], wrong[0][0]), loc(m, n))
                    elif mixed:
                        self.res.bad("table", con, "the names of two libraries are mixed", loc(m, n))
                    elif len(pairs) != 4:
                        self.res.bad("table", con, "the table misses dimension %s" % sorted(set(range(4)) - {a for a, _ in pairs}), loc(m, n))
                    else:
                        self.res.ok("table", "%s: names of the cells by dimension" % m.name)


def run(program, res, tier):
    c = FamilyCheck(program, res)
    for part in (c.selections, c.spaces, c.quadrature, c.tables, c.continuity):
        try:
            part()
        except AnchorMissing as e:
            res.unknown("anchor", str(e), "not found")
