"""P10 (evaluation of an element): the mapping and the shape functions handed out belong to the points asked for.

The classes that evaluate elements are run in the domain of symarr.py for every cell dimension and family: the mapping of
a cell is computed from its own vertices at the points given, each part is returned and stored in its own place, shape
functions are tabulated at the same points and mapped with this mapping, and a trace is the neighbour's shape functions
at the image of the points."""
import math

from .objarr import np

from .core import AnchorMissing, loc
from .poly import Poly
from .symarr import Ev, E, Mat, Stack, Rec, Ext, Tok, Unknown, Fails, arr, sym, ent, base_of

NQ = 3
CELLS = {0: "point", 1: "interval", 2: "triangle", 3: "tetrahedron"}
VECTOR = ("RT", "BDM", "N1E", "N2E")
FAM = {"Lagrange": "P", "RT": "RT", "BDM": "BDM", "N1E": "N1E", "N2E": "N2E"}


def linear(dim, n=1):
    """the linear shape functions of the reference simplex at the points, with derivatives up to order n"""
    out = np.full((math.comb(dim + n, n), NQ, dim + 1, 1), ent(0), dtype=object)
    for q in range(NQ):
        xi = [sym("xi", q, k) for k in range(dim)]
        out[0, q, :, 0] = [1 - sum(xi, ent(0))] + xi
        if n:
            for k in range(dim):
                out[k + 1, q, 0, 0] = ent(-1)
                out[k + 1, q, k + 1, 0] = ent(1)
    return out


def eqarr(a, b):
    return a is b or isinstance(a, np.ndarray) and a.shape == b.shape and bool((a == b).all())


def zero():
    return E(Poly.const(0))


class PointsCheck:
    def __init__(self, program, res):
        self.p, self.res = program, res

    def cls(self, name):
        c = self.p.find_class(name)
        if c is None:
            raise AnchorMissing(name)
        return c

    def func(self, name):
        c = [m.functions[name] for m in self.p.modules.values() if name in m.functions]
        if len(c) != 1:
            raise AnchorMissing(name)
        return c[0]

    def method(self, cls, name):
        f = self.p.lookup_method(cls, name)
        if f is None:
            raise AnchorMissing("%s.%s" % (cls.name, name))
        return f

    def at(self, f):
        return loc(f.module, f.node)

    # ---- the stage ---------------------------------------------------------------------------------------------
    def stage(self, dim, family="Lagrange"):
        """an element, the points asked for and the library around it"""
        st = Rec("stage")
        points = st._a["points"] = arr("pp", (NQ, max(dim, 1)))
        tags, log = Tok("node_tags"), []
        verts = arr("pt", (dim + 1, 3))

        def rows(ix):
            if ix is tags:
                return verts.copy()
            if isinstance(ix, Tok):
                log.append("the cell is mapped with the vertices %r instead of its own, in their order" % ix)
                return verts.copy()
            raise Unknown("mesh.points[%r]" % (ix,))
        mesh = Rec("mesh", points=Rec("mesh.points", **{"[]": rows}))
        cell = Rec("cell", dimension=dim, node_tags=tags, id=Tok("cell.id"))
        data = Rec("data", cell=cell, mesh=mesh, mapping=Rec("data.mapping"), quadrature=Rec("data.quadrature", points=arr("rule", (NQ, max(dim, 1))), weights=Tok("weights")),
                   basis=Rec("data.basis"), dof=Rec("data.dof"))
        ref = 1 if family == "Lagrange" or dim < 2 else dim
        phys = 1 if ref == 1 else 3

        def element(*pos, **kw):
            a = dict(zip(("family", "celltype", "degree"), pos))
            a.update(kw)
            ok = a.get("family") == Ext("basix.ElementFamily.P") and a.get("degree") == 1 and a.get("celltype") == Ext("basix.CellType." + CELLS[dim])
            if not ok:
                log.append("the geometry is mapped with the shape functions %s of degree %s of a %s, not with the linear ones of the %s" % (
                    a.get("family"), a.get("degree"), str(a.get("celltype")).split(".")[-1], CELLS[dim]))

            def tabulate(n, x):
                if not eqarr(x, points):
                    log.append("the linear shape functions are evaluated at other points than the ones asked for")
                return linear(dim, n)
            return Rec("linear", tabulate=tabulate)

        ndof = 4

        def tabulate(n, x):
            if not eqarr(x, points):
                log.append("the shape functions are evaluated at other points than the ones asked for")
            return arr("ref", (math.comb(dim + n, n), NQ, ndof, ref))

        def push(u, jac, det, inv):
            want = arr("ref", (dim + 1, NQ, ndof, ref))[0]
            if not (isinstance(u, np.ndarray) and u.shape == want.shape and (u == want).all()):
                log.append("other values than those of the shape functions are mapped")
            for got, nm in ((jac, "jac"), (det, "det"), (inv, "inv")):
                if got is not st._a.get(nm):
                    other = [k for k in ("jac", "det", "inv") if got is st._a.get(k)]
                    if not other:
                        raise Unknown("argument of push_forward")
                    log.append("push_forward receives the %s as its %s" % (NAME[other[0]], NAME[nm]))
            return arr("pf", (NQ, ndof, phys))
        gen = Rec("basis_generator", tabulate=tabulate, push_forward=push)
        fe = Rec("element", self.cls("FiniteElement"), data=data, mesh=mesh, basis_generator=gen,
                 generator_family=Ext("basix.ElementFamily." + FAM[family]))

        def permute(phi, d):
            if d is not data:
                log.append("the orientation of another element is used")
            if dim < 2:
                return phi
            return phi * sym("turned")
        st._a.update(log=log, data=data, fe=fe, tags=tags, verts=verts, ref=ref, phys=phys, ndof=ndof, element=element, permute=permute)
        f = self.func("permute_and_transform")

        def reordered(how):
            def go(v, *pos, **kw):
                if isinstance(v, Tok):
                    return Tok("%s(%r)" % (how, v))
                raise Unknown("%s of %s" % (how, type(v).__name__))
            return go
        nat = {"numpy." + n: reordered(n) for n in ("sort", "unique", "flip", "roll", "flipud", "argsort")}
        return st, Ev(self.p, {"basix.create_element": element, f.id: permute, **nat})

    def run(self, rule, what, f, go):
        """-> value or None; failures and gaps are reported"""
        try:
            return (go(),)
        except Fails as e:
            self.res.bad(rule, f.qualname, "%s: %s" % (what, e), loc(e.module, e.node) if e.module is not None else self.at(f))
        except (Unknown, TypeError, AttributeError, KeyError) as e:
            self.res.unknown(rule, f.qualname, "%s: %s" % (what, e))
        return None

    # ---- mapping -------------------------------------------------------------------------------------------------
    def expected(self, dim, verts):
        if dim == 0:
            one = np.array([E(Poly.const(1))], dtype=object)
            return {"x": verts, "jac": one, "det": one, "inv": one}
        lin = linear(dim)[:, :, :, 0]
        x = lin[0] @ verts
        jac = np.empty((NQ, 3, dim), dtype=object)
        for q in range(NQ):
            for k in range(dim):
                jac[q, :, k] = lin[k + 1, q] @ verts
        bases = [base_of(jac[q]) for q in range(NQ)]
        det = np.empty(NQ, dtype=object)
        det[:] = [E(Poly.a(("J", b), 1)) for b in bases]
        return {"x": x, "jac": jac, "det": det, "inv": Stack(Mat(b, ("Ri", "QT")) for b in bases)}

    def same(self, got, want):
        """True, False or None (another kind of value)"""
        if isinstance(want, Stack):
            if isinstance(got, Stack):
                return len(got) == len(want) and all(a == b for a, b in zip(got, want))
            return False if isinstance(got, np.ndarray) else None
        if isinstance(got, (list, tuple)):
            try:
                got = np.array(got, dtype=object)
            except Exception:
                return None
        if isinstance(got, Stack):
            return False
        if not isinstance(got, np.ndarray):
            return None
        if got.shape != want.shape:
            return False
        for a, b in zip(got.ravel(), want.ravel()):
            a, b = ent(a), ent(b)
            if a is None:
                return None
            if a.p != b.p:
                return False
        return True

    def parts(self, rule, what, f, got, want):
        for nm in ("x", "jac", "det", "inv"):
            v = got.get(nm)
            text = "%s: %s" % (what, NAME[nm])
            s = self.same(v, want[nm]) if v is not None else False
            if s:
                self.res.ok(rule, text)
            elif s is None:
                self.res.unknown(rule, f.qualname, "%s: value %s" % (text, type(v).__name__))
            else:
                other = [NAME[k] for k in ("x", "jac", "det", "inv") if k != nm and v is not None and self.same(v, want[k])]
                why = "is the %s" % other[0] if other else "is missing" if v is None else "is not that of the cell at the points (%s)" % self.detail(v, want[nm])
                self.res.bad(rule, f.qualname, "%s: the %s %s" % (what, NAME[nm], why), self.at(f))

    def detail(self, got, want):
        if isinstance(got, Stack) and isinstance(want, Stack):
            for a, b in zip(got, want):
                if a != b:
                    return "%r instead of %r" % (a, b)
        if isinstance(got, np.ndarray) and isinstance(want, np.ndarray):
            if got.shape != want.shape:
                return "shape %s instead of %s" % (got.shape, want.shape)
            for ix in np.ndindex(*got.shape):
                if ent(got[ix]) is not None and ent(got[ix]).p != ent(want[ix]).p:
                    return "entry %s is %s instead of %s" % (ix, str(got[ix])[:60], str(want[ix])[:60])
        return "another value"

    def mapping(self):
        cls = self.cls("FiniteElement")
        f = self.method(cls, "evaluate_mapping")
        for dim in range(4):
            for storage, before in ((False, False), (False, True), (True, False), (True, True)):
                st, ev = self.stage(dim)
                # before: values of another rule are stored already; without, those of the constructor
                shapes = {"phi": (dim + 1, NQ, dim + 1, 1), "x": (NQ, 3), "jac": (NQ, 3, dim), "det_jac": (NQ,), "inv_jac": (NQ, dim, 3)}
                old = {k: arr("old " + k, v) if before else np.empty(0, dtype=object) for k, v in shapes.items()}
                st._a["data"]._a["mapping"]._a.update(old)
                what = "mapping of a %s%s%s" % (CELLS[dim], " (stored)" if storage else "", ", evaluated before" if before else "")
                r = self.run("mapping", what, f, lambda: ev.call(f, [st._a["points"]], {"storage": True} if storage else {}, st._a["fe"]))
                if r is None:
                    continue
                for msg in st._a["log"]:
                    self.res.bad("mapping", f.qualname, "%s: %s" % (what, msg), self.at(f))
                want = self.expected(dim, st._a["verts"])
                out = r[0]
                if not (isinstance(out, tuple) and len(out) == 4):
                    self.res.unknown("mapping", f.qualname, "%s: result" % what)
                    continue
                self.parts("mapping", what, f, dict(zip(("x", "jac", "det", "inv"), out)), want)
                m = st._a["data"]._a["mapping"]._a
                if not storage:
                    if any(m.get(k) is not v for k, v in old.items()):
                        self.res.bad("mapping.stored", f.qualname, "%s: the mapping stored for the points of the rule is replaced" % what, self.at(f))
                    else:
                        self.res.ok("mapping.stored", "%s leaves the stored mapping" % what)
                else:
                    if dim:
                        s = self.same(m["phi"], linear(dim))
                        if s:
                            self.res.ok("mapping.stored", "stored %s: linear shape functions" % what)
                        elif s is False:
                            self.res.bad("mapping.stored", f.qualname, "stored %s: the linear shape functions at the points are not kept" % what, self.at(f))
                        else:
                            self.res.unknown("mapping.stored", f.qualname, what)
                    self.parts("mapping.stored", "stored " + what, f, {"x": m.get("x"), "jac": m.get("jac"), "det": m.get("det_jac"), "inv": m.get("inv_jac")}, want)
        # the stored shape functions of the geometry, mapped again
        try:
            g = self.func("store_mapping")
        except AnchorMissing:
            return
        for dim in range(1, 4):
            st, ev = self.stage(dim)
            data = st._a["data"]
            data._a["mapping"]._a["phi"] = linear(dim)
            what = "mapping of a %s from the stored shape functions" % CELLS[dim]
            if self.run("mapping", what, g, lambda: ev.call(g, [data])) is None:
                continue
            m = data._a["mapping"]._a
            self.parts("mapping.stored", what, g, {"x": m.get("x"), "jac": m.get("jac"), "det": m.get("det_jac"), "inv": m.get("inv_jac")},
                       self.expected(dim, st._a["verts"]))

    # ---- shape functions -----------------------------------------------------------------------------------------
    def given(self, st, dim):
        """a mapping handed in by the caller"""
        # simplices: the same at every point
        a = {k: np.array([arr(k, v)] * NQ, dtype=object) for k, v in (("jac", (3, dim)), ("det", ()), ("inv", (dim, 3)))}
        a["det"] = np.array([sym("det")] * NQ, dtype=object)
        st._a.update(a)
        return [a["jac"], a["det"], a["inv"]]

    def shapes(self, st, dim, family, det=None, jac=None):
        nd, ref, phys = st._a["ndof"], st._a["ref"], st._a["phys"]
        pf, r = arr("pf", (NQ, nd, phys)), arr("ref", (dim + 1, NQ, nd, ref))
        out = np.empty((dim + 1, NQ, nd, phys), dtype=object)
        turned = sym("turned") if dim > 1 else ent(1)
        for ix in np.ndindex(*out.shape):
            k, q, i, c = ix
            v = pf[q, i, c] if k == 0 else r[k, q, i, c] if c < ref else zero()
            if k == 0 and dim == 1 and family in VECTOR:
                v = v * jac[q, 0, 0] / det[q]
            out[ix] = v * turned
        return out

    def basis(self):
        cls = self.cls("FiniteElement")
        f = self.method(cls, "evaluate_basis")
        for dim in range(4):
            for family, before in [(a, b) for a in FAM for b in (False, True)]:
                st, ev = self.stage(dim, family)
                what = "shape functions of %s on a %s%s" % (family, CELLS[dim], ", evaluated before" if before else "")
                shape = (dim + 1, NQ, st._a["ndof"], st._a["phys"])
                st._a["data"]._a["basis"]._a["phi"] = arr("old", shape) if before else np.empty(0, dtype=object)
                args = self.given(st, dim)
                r = self.run("basis", what, f, lambda: ev.call(f, [st._a["points"]] + args, {}, st._a["fe"]))
                if r is None:
                    continue
                bad = st._a["log"]
                for msg in bad:
                    self.res.bad("basis", f.qualname, "%s: %s" % (what, msg), self.at(f))
                want = self.shapes(st, dim, family, st._a["det"], st._a["jac"]) if dim else np.full((1, 1, 1, 1), ent(1), dtype=object)
                s = self.same(r[0], want)
                if s:
                    self.res.ok("basis", "%s: mapped values and reference derivatives" % what)
                elif s is None:
                    self.res.unknown("basis", f.qualname, what)
                elif not bad:
                    self.res.bad("basis", f.qualname, "%s are not the mapped values and the reference derivatives: %s" % (what, self.detail(r[0], want)), self.at(f))

    # ---- storage ---------------------------------------------------------------------------------------------------
    def storage(self):
        cls = self.cls("FiniteElement")
        f = self.method(cls, "storage_basis")
        for dim in range(1, 4):
            st, ev = self.stage(dim)
            data = st._a["data"]
            data._a["quadrature"]._a["points"] = st._a["points"]
            calls = []

            def mapping(o, *pos, **kw):
                a = dict(zip(("points", "storage"), pos))
                a.update(kw)
                if not eqarr(a.get("points"), st._a["points"]):
                    st._a["log"].append("the mapping is evaluated at other points than those of the rule")
                if a.get("storage") is not True:
                    st._a["log"].append("the mapping that belongs to the stored shape functions is not stored")
                return Tok("x"), Tok("jac"), Tok("det"), Tok("inv")

            def basis(o, *pos, **kw):
                a = dict(zip(("points", "jac", "det_jac", "inv_jac"), pos))
                a.update(kw)
                for k, w in (("points", "points"), ("jac", "jac"), ("det_jac", "det"), ("inv_jac", "inv")):
                    v = a.get(k)
                    if not (eqarr(v, st._a["points"]) if k == "points" else isinstance(v, Tok) and v.name == w):
                        st._a["log"].append("evaluate_basis receives %r as %s" % (v, k))
                t = Tok("phi")
                calls.append(t)
                return t
            ev.natives.update({".evaluate_mapping": mapping, ".evaluate_basis": basis})
            what = "stored shape functions of a %s" % CELLS[dim]
            if self.run("storage", what, f, lambda: ev.call(f, [], {}, st._a["fe"])) is None:
                continue
            got = data._a["basis"]._a.get("phi")
            if not calls or got is not calls[-1]:
                st._a["log"].append("they are not kept")
            for msg in st._a["log"]:
                self.res.bad("storage", f.qualname, "%s: %s" % (what, msg), self.at(f))
            if not st._a["log"]:
                self.res.ok("storage", "%s: rule, mapping and values of the same points" % what)
        g = self.p.lookup_method(cls, "_fill_element_quadratue")
        if g is not None:
            st, ev = self.stage(2)
            p, w = Tok("points"), Tok("weights")
            if self.run("storage", "quadrature rule", g, lambda: ev.call(g, [(p, w)], {}, st._a["fe"])) is not None:
                q = st._a["data"]._a["quadrature"]._a
                if q.get("points") is p and q.get("weights") is w:
                    self.res.ok("storage", "the points and weights of the rule are kept as such")
                else:
                    self.res.bad("storage", g.qualname, "the points and weights of the rule are mixed up", self.at(g))

    def construction(self):
        """an element holds its own cell and mesh and the data of its own reference element"""
        cls = self.cls("FiniteElement")
        f = self.method(cls, "__init__")
        for dim in range(4):
            n_sub = dim + 1 if dim else 1
            tagged = [True, False, True, False][:n_sub]
            facets = [30 + i for i in range(n_sub)]
            cells = {}

            def cell(i, d, tag):
                c = Rec("cell %d" % i, dimension=d, id=i, material_id=tag, get_material_id=lambda: tag)
                cells[i] = c
                return c
            own = cell(5, dim, 1)
            for i, t in zip(facets, tagged):
                cell(i, dim - 1, 7 if t else None)
            for d in range(dim - 1):
                for i in range(4):
                    cell(50 + 10 * d + i, d, 9)
            own._a["sub_cells_ids"] = [np.array([50 + 10 * d + i for i in range(4)]) for d in range(dim - 1)] + [np.array(facets)] * (dim > 0) + [np.array([5])]
            own._a["node_tags"] = Tok("node_tags")

            def at(ix):
                if ix not in cells:
                    raise Fails("no cell %s" % ix)
                return cells[ix]
            mesh = Rec("mesh", cells=Rec("mesh.cells", **{"[]": at}), points=Tok("mesh.points"))
            num = [[1, 1, 1, 1], [2, 3, 2, 2], [4, 5], [6]][:dim + 1]
            gen = Rec("reference element", entity_dofs=Tok("entity_dofs"), num_entity_dofs=num, dof_transformations_are_identity=Tok("identity"),
                      entity_transformations=lambda: turn)
            turn = Tok("transformations")
            ev = Ev(self.p, {"basix.create_element": lambda *a, **k: gen, "numpy.sum": lambda v, *a, **k: sum(v)})
            fe = Rec("element", cls)
            what = "element of a %s" % CELLS[dim]
            fam = Ext("basix.ElementFamily.BDM")
            if self.run("element", what, f, lambda: ev.call(f, [5, fam, 2, mesh], {"integration_order": 9}, fe)) is None:
                continue
            data = fe._a.get("data")
            if not isinstance(data, Rec):
                self.res.unknown("element", f.qualname, what)
                continue
            dof = data._a.get("dof")
            dof = dof._a if isinstance(dof, Rec) else {}
            bc = data._a.get("bc_entities")
            bc = list(bc) if isinstance(bc, (np.ndarray, list)) else bc
            total = sum(sum(x) for x in num)
            checks = [("cell", data._a.get("cell"), own), ("mesh of its data", data._a.get("mesh"), mesh), ("mesh", fe._a.get("mesh"), mesh),
                      ("family", fe._a.get("generator_family"), fam), ("reference element", fe._a.get("basis_generator"), gen),
                      ("integration order", fe._a.get("integration_order"), 9), ("unknowns by entity", dof.get("entity_dofs"), gen._a["entity_dofs"]),
                      ("unknowns per entity", dof.get("num_entity_dofs"), num), ("flag of the transformations", dof.get("transformations_are_identity"),
                                                                                 gen._a["dof_transformations_are_identity"]),
                      ("transformations", dof.get("transformations"), turn), ("number of unknowns", dof.get("n_dof"), total)]
            if dim:
                checks.append(("facets with a physical tag", bc, tagged))
            for nm, got, want in checks:
                good = got is want or isinstance(want, Ext) and got == want or isinstance(want, (int, list)) and isinstance(got, (int, list, np.integer)) and got == want
                if good:
                    self.res.ok("element", "%s: %s" % (what, nm))
                elif isinstance(got, (Rec, Tok, Ext, int, list, np.integer)) or got is None:
                    self.res.bad("element", f.qualname, "%s: the %s is %s instead of %s" % (what, nm, got, want), self.at(f))
                else:
                    self.res.unknown("element", f.qualname, "%s: %s" % (what, nm))

    def copies(self):
        """a copy of the evaluation data keeps every part in its own place"""
        for name in ("QuadratureData", "MappingData", "DoFData", "BasisData"):
            c = self.p.find_class(name)
            f = c and self.p.lookup_method(c, "copy")
            init = c and self.p.lookup_method(c, "__init__")
            if not f or not init:
                continue
            names = init.params[1:]
            ev = Ev(self.p)
            vals = {n: Tok(n) for n in names}

            def go():
                o = ev.apply(c, [], vals)
                return o, ev.call(f, [], {}, o)
            r = self.run("copy", name, f, go)
            if r is None:
                continue
            o, d = r[0]
            if not (isinstance(d, Rec) and d is not o):
                self.res.unknown("copy", f.qualname, "result")
                continue
            wrong = [n for n in o._a if d._a.get(n) is not o._a[n]]
            stored = [n for n in names if o._a.get(n) is not vals[n]]
            if stored:
                self.res.bad("copy", init.qualname, "%s receives %s" % (stored[0], o._a.get(stored[0])), self.at(init))
            elif wrong:
                self.res.bad("copy", f.qualname, "%s of the copy is %s" % (wrong[0], d._a.get(wrong[0])), self.at(f))
            else:
                self.res.ok("copy", "%s.copy keeps %s" % (name, ", ".join(o._a)))

    # ---- traces ----------------------------------------------------------------------------------------------------
    def traces(self):
        f = self.func("_trace")
        lift = self.func("transform_lower_to_higher")
        for dim in range(1, 4):
            n_sub = dim + 1 if dim > 1 else 2
            for k in range(n_sub):
                for whole in (True, False):
                    what = "trace on facet %d of a %s%s" % (k, CELLS[dim], " (all functions)" if whole else "")
                    log = []
                    points, ids = Tok("points"), [7, 3, 11, 5][:n_sub]
                    sub = {d: np.array([20 + 10 * d + i for i in range(4)]) for d in range(dim)}
                    sub[dim - 1] = np.array(ids)
                    dofs = [[[100 * d + 2 * i, 100 * d + 2 * i + 1] for i in range(4)] for d in range(dim)]
                    base = {}
                    n = 0
                    for d in range(dim):
                        for i in range(len(sub[d])):
                            base[d, i] = [n, n + 1]
                            n += 2
                    dofs = [[base[d, i] for i in range(len(sub[d]))] for d in range(dim)] + [[[n]]]
                    n += 1
                    c1 = Rec("c1_cell", dimension=dim - 1, id=ids[k])
                    c0 = Rec("c0_cell", dimension=dim, id=99, sub_cells_ids=[sub[d] for d in range(dim)] + [np.array([99])])
                    c1d, c0d = Rec("c1_data", cell=c1), Rec("c0_data", cell=c0, dof=Rec("dof", entity_dofs=dofs))
                    mapped, toks = Tok("mapped"), [Tok(x) for x in ("x", "jac", "det", "inv")]
                    tab = arr("tab", (dim + 1, 2, n, 1))

                    def go_lift(p, a, b):
                        if (p, a, b) != (points, c1d, c0d):
                            log.append("the points are not carried from the boundary cell to the neighbour")
                        return mapped

                    def mapping(p, storage=False):
                        if p is not mapped:
                            log.append("the mapping of the neighbour is evaluated at %r, not at the image of the points" % (p,))
                        return tuple(toks)

                    def basis(p, jac, det, inv):
                        if p is not mapped:
                            log.append("the shape functions are evaluated at %r, not at the image of the points" % (p,))
                        if [jac, det, inv] != toks[1:]:
                            log.append("the shape functions are mapped with %r, %r, %r" % (jac, det, inv))
                        return tab.copy()
                    el = Rec("c0_element", data=c0d, evaluate_mapping=mapping, evaluate_basis=basis)
                    ev = Ev(self.p, {lift.id: go_lift})
                    r = self.run("trace", what, f, lambda: ev.call(f, [points, c1d, el, whole]))
                    if r is None:
                        continue
                    for msg in log:
                        self.res.bad("trace", f.qualname, "%s: %s" % (what, msg), self.at(f))
                    want = tab if whole else tab[:, :, base[dim - 1, k], :]
                    s = self.same(r[0], want)
                    if s:
                        self.res.ok("trace", what)
                    elif s is None:
                        self.res.unknown("trace", f.qualname, what)
                    elif not log:
                        self.res.bad("trace", f.qualname, "%s: these are not the %s functions: %s" % (what, "element's" if whole else "facet's", self.detail(r[0], want)), self.at(f))
        self.neighbour(f)

    def neighbour(self, tr):
        f = self.func("trace_discrete_space")
        g = self.func("trace_product_space")
        nb = self.func("find_higher_dimension_neighs")
        for pick, alone in ((None, 0), (0, 0), (1, 0), (None, 1)):
            for flag in (True, False):
                cell, topo = Rec("c1_cell", dimension=1, id=4), Tok("topology")
                data, points = Rec("c1_data", cell=cell), Tok("points")
                els = {n: [Rec("%s element %d" % (n, i)) for i in range(3)] for n in "uv"}
                spaces = {n: Rec("space " + n, dof_map=Rec("map", mesh_topology=topo), id_to_element={40: 2, 50: 0, 60: 1}, elements=els[n]) for n in "uv"}
                log, seen = [], []

                def neighs(c, t):
                    if (c, t) != (cell, topo):
                        log.append("the neighbours are those of %r" % (c,))
                    return [(2, 50), (2, 40)][:1 if alone else 2]

                def trace(p, d, e, all_q):
                    seen.append((p, d, e, all_q))
                    return Tok("trace of %r" % e)
                ev = Ev(self.p, {nb.id: neighs, tr.id: trace})
                what = "trace of a space%s" % ("" if pick is None else ", neighbour %d" % pick)
                extra = {} if pick is None else {"neigh_idx": pick}
                want = {n: els[n][[0, 2][pick or 0]] for n in "uv"}
                r = self.run("trace.space", what, f, lambda: ev.call(f, [spaces["u"], points, data, flag], extra))
                if r is not None:
                    if seen != [(points, data, want["u"], flag)]:
                        log.append("evaluated for %s" % (seen,))
                    self.verdict("trace.space", f, what, log)
                del log[:], seen[:]
                what = "traces of the fields%s" % ("" if pick is None else ", neighbour %d" % pick)
                sp = Rec("space", discrete_spaces=spaces)
                r = self.run("trace.space", what, g, lambda: ev.call(g, [["v", "u"], sp, points, data, flag], extra))
                if r is not None:
                    if not isinstance(r[0], dict):
                        self.res.unknown("trace.space", g.qualname, what)
                        continue
                    if sorted(r[0]) != ["u", "v"] or any(not isinstance(r[0][n], Tok) or r[0][n].name != "trace of %r" % want[n] for n in "uv"):
                        log.append("the fields receive %s" % (r[0],))
                    if any(s[0] is not points or s[1] is not data or s[3] is not flag for s in seen):
                        log.append("evaluated for %s" % (seen,))
                    self.verdict("trace.space", g, what, log)

    def verdict(self, rule, f, what, log):
        if log:
            self.res.bad(rule, f.qualname, "%s: %s" % (what, log[0]), self.at(f))
        else:
            self.res.ok(rule, what)


NAME = {"x": "position", "jac": "Jacobian", "det": "measure", "inv": "inverse"}


def run(program, res):
    c = PointsCheck(program, res)
    for part in (c.mapping, c.basis, c.storage, c.construction, c.copies, c.traces):
        try:
            part()
        except AnchorMissing as e:
            res.unknown("anchor", str(e), "not found")
