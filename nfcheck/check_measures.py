"""P26: in exact arithmetic the measures and intersection points of the geometric operations satisfy their definitions.

The operations are run on symbolic coordinates (symarr.py); the position of a point with respect to a segment or triangle is
given by symbolic parameters, whose signs are enumerated. Comparisons are decided by recognising the compared quantity, as a
polynomial identity, as one of these parameters; a comparison of another position is a finding."""
import itertools
import random
from fractions import Fraction

from .objarr import np
from .core import AnchorMissing, loc
from .poly import Poly, atom
from .symarr import Ev, E, Rec, Tok, Unknown, Fails, arr, ent, sym
from .check_normals import is_zero, square, value

POINT, LINE, TRI = "point_geometry_operations", "line_geometry_operations", "triangle_triangle_intersection_test"


class Wrong(Fails):
    pass


def det(m):
    m = np.asarray(m, dtype=object)
    if m.ndim != 2 or m.shape[0] != m.shape[1]:
        raise Fails("the determinant of an array of shape %s" % (m.shape,))
    if len(m) == 1:
        return ent(m[0, 0])
    out = ent(0)
    for k in range(len(m)):
        if ent(m[0, k]).p.t:
            out = out + ent(m[0, k]) * det(np.delete(m[1:], k, axis=1)) * (-1) ** k
    return out


def cross(a, b, **k):
    if k or any(not isinstance(v, np.ndarray) or v.shape != (3,) for v in (a, b)):
        raise Unknown("cross product")
    return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=object)


class Length:
    """length atoms of one run"""

    def __init__(self):
        self.table = []

    def root(self, v):
        s = ent(v)
        if s is None:
            raise Unknown("root")
        s = s.p
        for t in self.table:
            if is_zero(s - t * t):
                return E(t)
        t = Poly.a(("len", tuple(sorted(s.t.items()))))
        self.table.append(t)
        return E(t)

    def norm(self, v, *a, **k):
        if a or k or not isinstance(v, np.ndarray) or v.ndim != 1:
            raise Unknown("norm")
        return self.root(sum((x * x for x in v), ent(0)))


class MeasuresCheck:
    def __init__(self, program, res):
        self.p, self.res = program, res
        self.pts = arr("x", (4, 3))

    def func(self, mod, name, cls=None):
        m = [x for x in self.p.modules.values() if x.name.endswith(mod)]
        if len(m) != 1:
            raise AnchorMissing(mod)
        if cls is not None:
            c = self.p.find_class(cls)
            f = c and self.p.lookup_method(c, name)
        else:
            f = m[0].functions.get(name)
        if not f:
            raise AnchorMissing("%s.%s" % (mod, name))
        return f

    def natives(self, extra=()):
        ln = Length()

        def mean(v, axis=None, **k):
            if axis != 0 or k or not isinstance(v, np.ndarray):
                raise Unknown("mean")
            return v.sum(axis=0) * ent(Fraction(1, len(v)))
        nat = {"numpy.linalg.norm": ln.norm, "numpy.sqrt": ln.root, "math.sqrt": ln.root, "numpy.linalg.det": det, "numpy.cross": cross,
               "numpy.mean": mean, "numpy.average": mean, "numpy.cos": lambda t: sym("cos") if t == sym("theta") else self.no(),
               "numpy.sin": lambda t: sym("sin") if t == sym("theta") else self.no(), "warnings.warn": lambda *a, **k: None}
        nat["math.cos"], nat["math.sin"] = nat["numpy.cos"], nat["numpy.sin"]
        for k in ("numpy.abs", "numpy.absolute", "numpy.fabs", "builtins.abs", "math.fabs"):
            nat[k] = lambda v: ln.root(v * v) if ent(v) is not None else self.no()
        nat.update(extra)
        return nat

    def no(self):
        raise Unknown("angle")

    def go(self, rule, what, f, args, natives, decide=None, self_=None):
        """-> (value,) or None; gaps and failures are reported"""
        E.decide = staticmethod(decide) if decide else None
        try:
            return (Ev(self.p, natives).call(f, args, {}, self_),)
        except Wrong as e:
            self.res.bad(rule, f.qualname, "%s: %s" % (what, e), loc(f.module, f.node))
        except Fails as e:
            self.res.bad(rule, f.qualname, "%s: %s" % (what, e), loc(e.module, e.node) if e.module is not None else loc(f.module, f.node))
        except (Unknown, TypeError, AttributeError, KeyError) as e:
            self.res.unknown(rule, f.qualname, "%s: %s" % (what, e))
        finally:
            E.decide = None
        return None

    def judge(self, rule, what, f, good, why):
        if good:
            self.res.ok(rule, what)
        else:
            self.res.bad(rule, f.qualname, "%s: %s" % (what, why), loc(f.module, f.node))

    # ---- measures ------------------------------------------------------------------------------------------------
    def equal(self, rule, what, f, got, want, why):
        """vectors or numbers, as identities"""
        g = [ent(x) for x in np.ravel(np.asarray(got, dtype=object))] if not isinstance(got, (Rec, Tok)) and got is not None else None
        w = [ent(x) for x in np.ravel(np.asarray(want, dtype=object))]
        if g is None or any(x is None for x in g):
            if got is None or isinstance(got, (bool, tuple)):
                return self.judge(rule, what, f, False, why)
            return self.res.unknown(rule, f.qualname, what)
        self.judge(rule, what, f, len(g) == len(w) and all(is_zero(a.p - b.p) for a, b in zip(g, w)), why)

    def measures(self):
        a, b, c, p = self.pts
        quarter = ent(Fraction(1, 4))
        f = self.func(POINT, "colinear_measurement")
        r = self.go("measure", "area of three points", f, [p, a, b], self.natives())
        n = cross(a - p, b - p)
        if r and ent(r[0]) is not None:
            self.equal("measure", "area of three points", f, r[0] * r[0], quarter * (n @ n), "it is not the area of their triangle")
        f = self.func(TRI, "colinear_measurement", "TriangleTriangleIntersectionTest")
        for i, j in ((0, 1), (0, 2), (1, 2)):
            what = "area of three points in the plane of coordinates %d and %d" % (i, j)
            r = self.go("measure", what, f, [a, b, p, np.array([i, j])], self.natives(), None, Rec("worker", f.cls))
            v, u = a - p, b - p
            n = v[i] * u[j] - v[j] * u[i]
            if r and ent(r[0]) is not None:
                self.equal("measure", what, f, r[0] * r[0], quarter * n * n, "it is not the area of their triangle")
        vol = lambda q: det(np.array([b - a, c - a, q - a])) * ent(Fraction(1, 6))
        for f, args, me in ((self.func(POINT, "coplanar_measurement"), [p, a, b, c], None),
                            (self.func(TRI, "coplanar_measurement", "TriangleTriangleIntersectionTest"), [a, b, c, p], "worker")):
            r = self.go("measure", "volume of four points", f, args, self.natives(), None, Rec(me, f.cls) if me else None)
            if r and ent(r[0]) is not None:
                self.equal("measure", "volume of four points", f, r[0] * r[0], vol(p) * vol(p), "it is not the volume of their tetrahedron")
        f = self.func(LINE, "coplanar_measurements")
        q = arr("q", (3,))
        r = self.go("measure", "volumes at the ends of a line", f, [np.array([p, q]), a, b, c], self.natives())
        if r:
            out = r[0]
            if isinstance(out, (tuple, list)) and len(out) == 2 and all(ent(x) is not None for x in out):
                good = any(is_zero((out[0] - s * vol(p)).p) and is_zero((out[1] - s * vol(q)).p) for s in (1, -1))
                self.judge("measure", "volumes at the ends of a line", f, good, "they are not the signed volumes of the first and the second end")
            else:
                self.res.unknown("measure", f.qualname, "volumes at the ends of a line")

    def rotations(self):
        c, s, v = sym("cos"), sym("sin"), arr("v", (3,))
        x, y, z = v
        want = [np.array([x, c * y - s * z, s * y + c * z], dtype=object), np.array([c * x + s * z, y, c * z - s * x], dtype=object),
                np.array([c * x - s * y, s * x + c * y, z], dtype=object)]
        one = [("%s_rotation" % "xyz"[k], k) for k in range(3)]
        for name, k in one:
            f = self.func("mesh_cell", name)
            r = self.go("rotation", name, f, [v, sym("theta")], self.natives())
            if r:
                self.equal("rotation", name, f, r[0], want[k], "it is not the rotation about its axis")
        f = self.func("mesh_cell", "rotate_vector")
        for k in (None, 0, 1, 2):
            what = "rotation about axis %s" % k
            r = self.go("rotation", what, f, [v, sym("theta")] + ([] if k is None else [k]), self.natives())
            if r:
                self.equal("rotation", what, f, r[0], want[2 if k is None else k], "the vector is not turned about this axis")

    def centres(self):
        pts = self.pts
        f = self.func("mesh_cell", "barycenter")
        r = self.go("centre", "centre of points", f, [pts[:3]], self.natives())
        if r:
            self.equal("centre", "centre of points", f, r[0], pts[:3].sum(axis=0) * ent(Fraction(1, 3)), "it is not their mean")
        f = self.func("mesh_metrics", "cell_centroid")
        tags = np.array([3, 1, 0])
        r = self.go("centre", "centre of a cell", f, [Rec("cell", node_tags=tags, dimension=2), Rec("mesh", points=pts)], self.natives())
        if r:
            self.equal("centre", "centre of a cell", f, r[0], pts[tags].sum(axis=0) * ent(Fraction(1, 3)), "it is not the mean of its vertices")

    def sizes(self):
        """diameter of cells, sizes of meshes"""
        def some(kind):
            def pick(v, *a, **k):
                if k:
                    raise Unknown(kind)
                v = (v,) + a if a else v if isinstance(v, np.ndarray) else list(v)
                out = [ent(x) for x in np.ravel(np.asarray(v, dtype=object))]
                if any(x is None for x in out):
                    raise Unknown(kind)
                if not out:
                    raise Fails("%s of nothing" % kind)
                if kind == "mean":
                    return sum(out, ent(0)) * ent(Fraction(1, len(out)))
                out = sorted((tuple(sorted(x.p.t.items())) for x in out), key=repr)
                out = [x for i, x in enumerate(out) if i == 0 or x != out[i - 1]]
                return E(Poly(dict(out[0]))) if len(out) == 1 else sym(kind, tuple(out))
            return pick

        def members(e, kind):
            """the quantities of which an entry is the greatest, least or mean"""
            e = ent(e)
            if e is None:
                return None
            only = atom(list(e.p.t)[0][0][0]) if len(e.p.t) == 1 and len(list(e.p.t)[0]) == 1 and list(e.p.t.values()) == [1] else None
            return [Poly(dict(x)) for x in only[1]] if only and only[0] == kind else [e.p]
        nat = {"numpy.max": some("max"), "numpy.amax": some("max"), "builtins.max": some("max"), "numpy.min": some("min"),
               "numpy.amin": some("min"), "builtins.min": some("min"), "numpy.mean": some("mean"), "numpy.average": some("mean")}
        nat = self.natives(nat)
        f = self.func("mesh_metrics", "cell_diam")
        mesh = Rec("mesh", points=self.pts, dimension=2)
        diam = lambda what, tags: self.go("size", what, f, [Rec("cell", node_tags=np.array(tags), dimension=len(tags) - 1), mesh], nat)
        for tags in ((1, 0), (3, 1, 0), (2, 0, 3, 1)):
            what = "diameter of a cell with %d vertices" % len(tags)
            r = diam(what, tags)
            if r is None:
                continue
            got = members(r[0], "max")
            if got is None:
                self.res.unknown("size", f.qualname, what)
                continue
            want = [(d @ d).p for d in (self.pts[i] - self.pts[j] for i, j in itertools.combinations(tags, 2))]
            sq = [x * x for x in got if x.t]
            good = all(any(is_zero(x - y) for y in want) for x in sq) and all(any(is_zero(x - y) for x in sq) for y in want)
            self.judge("size", what, f, good, "it is not the largest distance of two of its vertices")
        g = self.func("mesh_metrics", "mesh_size")
        cells = [Rec("cell", dimension=len(n) - 1, material_id=t, id=k, node_tags=np.array(n), type=str(len(n) - 1)) for k, (n, t) in
                 enumerate([((0, 1), 1), ((0, 1, 2), 1), ((0, 1, 3), 2), ((1, 2), 2), ((1, 2, 3), 1), ((0,), 1), ((0, 2, 3), None), ((2, 3), None),
                            ((0, 3), 2)])]
        h = {}
        for c in cells:
            if c._a["dimension"]:
                r = diam("diameter of a cell", c._a["node_tags"])
                if r is None:
                    return
                h[c._a["id"]] = r[0]
        mesh._a["cells"] = cells
        for dim, tag in itertools.product((None, 1, 2), (None, 1, 2)):
            want = [h[c._a["id"]] for c in cells if c._a["dimension"] == (2 if dim is None else dim) and tag in (None, c._a["material_id"])]
            what = "sizes of a mesh (dimension %s, physical tag %s)" % (dim, tag)
            r = self.go("size", what, g, [mesh, dim, tag], nat)
            if r is None:
                continue
            out = r[0]
            if not isinstance(out, (tuple, list)) or len(out) != 3 or any(ent(x) is None for x in out):
                self.res.unknown("size", g.qualname, what)
                continue
            good = all(ent(x) == ent(some(kind)(want)) for x, kind in zip(out, ("min", "mean", "max")))
            self.judge("size", what, g, good, "they are not the least, mean and greatest diameter of the cells asked for")

    # ---- comparisons of positions ----------------------------------------------------------------------------------
    def decider(self, signs, scales=(), where=(), apart=False):
        """signs: [(polynomial, sign)]; a comparison is recognised up to a positive multiple
        apart: quantities that do not depend on the position are large compared with the tolerances
        where: [(polynomial of a coordinate, its value in the case)], for comparisons of other functions of the position"""
        samples = []
        for k in range(4):
            rnd = random.Random(k)
            samples.append(({next(iter(q.atoms())): x for q, x in where}, lambda rnd=rnd: Fraction(rnd.randint(-50, 50) * 2 + 1)))
        scales = [Poly.const(1)] + list(scales)
        names = set()
        for k, _ in signs:
            names |= k.atoms()
        position = {i for i in names if atom(i)[0] == "par"}

        def find(d):
            for k, s in signs:
                for c in scales:
                    if is_zero(d - k * c):
                        return s
                    if is_zero(d + k * c):
                        return -s
            for c in scales:
                if is_zero(d - c):
                    return 1
                if is_zero(d + c):
                    return -1
            return None

        def deep(p):
            out, todo = set(), list(p.atoms())
            while todo:
                i = todo.pop()
                if i not in out:
                    out.add(i)
                    if atom(i)[0] in ("len", "P"):
                        todo.extend(square(i).atoms())
            return out

        def decide(d, test):
            s = find(d)
            if s is None:
                ls = [m for m in d.t if len(m) == 1 and m[0][1] == 1 and atom(m[0][0])[0] == "len"]
                if len(d.t) == 2 and len(ls) == 2 and sum(d.t.values()) == 0:
                    # a difference of lengths has the sign of the difference of their squares
                    v = Poly()
                    for m in ls:
                        v = v + square(m[0][0]) * d.t[m]
                    s = find(v * abs(1 / d.t[ls[0]]))
            if s is None and where and deep(d) & position:
                # another function of the position: its sign at the point of the case, for several placements of the others
                seen = set()
                for tab, draw in samples:
                    v = value(d, tab, draw)
                    seen.add(None if v is None else (v > 0) - (v < 0))
                if None not in seen and len(seen) == 1:
                    s = seen.pop()
            if s is None:
                if deep(d) & position:
                    raise Wrong("a quantity that is no coordinate of the point is compared with a bound")
                if apart and len(d.t) == 2 and d.constval():
                    (m, c), = [x for x in d.t.items() if x[0] != ()]
                    if len(m) == 1 and m[0][1] == 1 and atom(m[0][0])[0] == "len" and c * d.constval() < 0:
                        return test(1 if c > 0 else -1)
                raise Unknown("comparison")
            return test(s)
        return decide

    STATES = {"before": (-1, 1, None, Fraction(-3, 5)), "just before": (-1, 1, 0, Fraction(-1, 10 ** 15)), "between": (1, 1, None, Fraction(2, 5)),
              "just after": (1, -1, 1, 1 + Fraction(1, 10 ** 15)), "after": (1, -1, None, Fraction(17, 10))}

    def close(self, pars, states):
        """isclose of a parameter and an end of the unit interval"""
        def isclose(x, y=None, **k):
            for x, y in ((x, y), (y, x)):
                if ent(x) is None or ent(y) is None:
                    raise Unknown("isclose")
                for par, st in zip(pars, states):
                    for end in (0, 1):
                        if is_zero(ent(x).p - par.p) and is_zero(ent(y).p - Poly.const(end)):
                            return self.STATES[st][2] == end
            raise Wrong("a quantity that is no parameter of the intersection is compared with the end of a segment")
        return isclose

    def lines(self):
        f = self.func(LINE, "line_line_intersection")
        ends = self.func(POINT, "points_line_intersection")
        a, b, c = self.pts[:3]
        D, t, s = arr("dir", (3,)), sym("par", "t"), sym("par", "s")
        c = a + t * (b - a) - s * D
        d = c + D

        def lstsq(A, r, **k):
            A = np.asarray(A, dtype=object)
            x = None
            if A.shape == (3, 2):
                for u, v in itertools.product((t, -t, s, -s), repeat=2):
                    if all(is_zero((A[i, 0] * u + A[i, 1] * v - r[i]).p) for i in range(3)):
                        x = [u, v]
            if x is None:
                raise Wrong("the linear system is not that of the intersection of the lines")
            return [np.array(x, dtype=object), 0, 2, 0]

        def allclose(x, y, **k):
            return all(is_zero((ent(u) - ent(v)).p) for u, v in zip(np.ravel(x), np.ravel(y)))
        for st in itertools.product(self.STATES, repeat=2):
            signs = []
            for par, k in zip((t, s), st):
                signs += [(par.p, self.STATES[k][0]), ((1 - par).p, self.STATES[k][1])]
            nat = self.natives({"numpy.linalg.lstsq": lstsq, "numpy.allclose": allclose, "numpy.isclose": self.close((t, s), st),
                                "numpy.any": lambda v, **k: any(v), "numpy.all": lambda v, **k: all(v),
                                ends.id: lambda *x, **k: (np.empty((0, 3), dtype=object), [False, False])})
            what = "two lines that meet %s the ends of the first and %s those of the second" % st
            r = self.go("lines", what, f, [a, b, c, d], nat, self.decider(signs, (), [(x.p, self.STATES[k][3]) for x, k in zip((t, s), st)]))
            if r:
                if "before" in st or "after" in st:
                    self.judge("lines", what, f, r[0] is None, "a hit is reported")
                elif r[0] is None:
                    self.judge("lines", what, f, False, "no hit is reported")
                else:
                    self.equal("lines", what, f, r[0], a + t * (b - a), "the point reported is not the common point")

    def projected_lines(self):
        """the intersection of two segments in the plane of two coordinates"""
        f = self.func(TRI, "line_line_intersection", "TriangleTriangleIntersectionTest")
        a, b, c = self.pts[:3]
        D, t, s = arr("dir", (3,)), sym("par", "t"), sym("par", "s")
        c = a + t * (b - a) - s * D
        d = c + D
        states = [k for k in self.STATES if self.STATES[k][2] is None]
        for pos in ((0, 1), (0, 2), (1, 2)):
            for st in itertools.product(states, repeat=2):
                signs = []
                for par, k in zip((t, s), st):
                    signs += [(par.p, self.STATES[k][0]), ((1 - par).p, self.STATES[k][1])]
                where = [(x.p, self.STATES[k][3]) for x, k in zip((t, s), st)]
                what = "segments in coordinates %d and %d that meet %s the ends of the first and %s those of the second" % (pos + st)
                me = Rec("worker", f.cls, eps=Fraction(1, 10 ** 9))
                r = self.go("lines", what, f, [a, b, c, d, np.array(pos)], self.natives(), self.decider(signs, (), where, True), me)
                if not r:
                    continue
                out = r[0]
                if not isinstance(out, (tuple, list)) or not out or not isinstance(out[0], (bool, np.bool_)):
                    self.res.unknown("lines", f.qualname, what)
                elif "before" in st or "after" in st:
                    self.judge("lines", what, f, not out[0], "a hit is reported")
                elif not out[0]:
                    self.judge("lines", what, f, False, "no hit is reported")
                else:
                    self.equal("lines", what, f, out[1], a + t * (b - a), "the point reported is not the common point")

    def on_line(self):
        f = self.func(POINT, "point_line_intersection")
        inc = self.func(POINT, "point_line_incidence")
        a, b = self.pts[:2]
        t = sym("par", "t")
        p = a + t * (b - a)
        L = ((b - a) @ (b - a)).p
        # signs of t, 1 - t, 1 + t, 2 - t
        for what, sg, at in (("far before the first end", (-1, 1, -1, 1), -2), ("before the first end", (-1, 1, 1, 1), Fraction(-1, 3)),
                             ("inside", (1, 1, 1, 1), Fraction(2, 5)), ("after the second end", (1, -1, 1, 1), Fraction(4, 3)),
                             ("far after the second end", (1, -1, 1, -1), 3)):
            q = [t.p, (1 - t).p, (1 + t).p, (2 - t).p]
            signs = list(zip(q, sg)) + [(x * y, u * v) for (x, u), (y, v) in itertools.combinations(list(zip(q, sg)), 2)]
            nat = self.natives({"numpy.isclose": lambda *x, **k: False, "numpy.all": lambda v, **k: v, inc.id: lambda *x, **k: True})
            text = "point of the line %s" % what
            r = self.go("segment", text, f, [p, a, b], nat, self.decider(signs, [L], [(t.p, at)]))
            if r:
                if what == "inside":
                    self.equal("segment", text, f, r[0], p, "the point is not reported")
                else:
                    self.judge("segment", text, f, r[0] is None, "a hit is reported")

    def triangles(self):
        a, b, c = self.pts[:3]
        u, v = sym("par", "u"), sym("par", "v")
        p = a + u * (b - a) + v * (c - a)
        f = self.func(POINT, "point_triangle_intersection")
        n = cross(b - a, c - a)
        forms = [u, v, 1 - u - v, 1 - u, 1 - v, u + v]
        found = {}
        steps = [Fraction(k, 30) for k in (-49, -17, -1, 2, 11, 16, 23, 33, 71)]
        for x, y in itertools.product(steps, repeat=2):
            found.setdefault(tuple(1 if z > 0 else -1 for z in (x, y, 1 - x - y, 1 - x, 1 - y, x + y)), []).append((x, y))
        # two points of each case, for comparisons of other functions of the position
        cases = [(sg, list(zip((u.p, v.p), xy))) for sg, ps in sorted(found.items())
                 for xy in sorted({min(ps, key=lambda q: abs(q[0] * q[1])), max(ps, key=lambda q: abs(q[0] * q[1]))})]
        label = lambda sg, at: "barycentric signs %s (such as %s, %s)" % (sg[:3], at[0][1], at[1][1])
        others = {self.func(POINT, "point_triangle_incidence").id: lambda *x, **k: True, self.func(POINT, "point_line_intersection").id: lambda *x, **k: None}
        for sg, at in cases:
            signs = [(x.p, y) for x, y in zip(forms, sg)]
            nat = self.natives({"numpy.isclose": lambda *x, **k: False, "numpy.all": lambda v, **k: v, **others})
            text = "point of the plane with %s" % label(sg, at)
            r = self.go("triangle", text, f, [p, a, b, c], nat, self.decider(signs, [(n @ n).p], at))
            if r:
                if sg[:3] == (1, 1, 1):
                    self.equal("triangle", text, f, r[0], p, "a point of the triangle is not reported")
                else:
                    self.judge("triangle", text, f, r[0] is None, "a point outside the triangle is reported")
        f = self.func(TRI, "point_in_triangle", "TriangleTriangleIntersectionTest")
        col = self.func(TRI, "colinear_measurement", "TriangleTriangleIntersectionTest")

        def size(v, **k):
            # the points are far from the vertices and lines (1) compared with the tolerance (1/10)
            if any(not isinstance(x, int) or x != 1 for x in np.ravel(np.asarray(v, dtype=object))):
                raise Unknown("size")
            return 1
        for pos in ((0, 1), (0, 2), (1, 2)):
            area = n[[k for k in range(3) if k not in pos][0]]
            for sg, at in cases:
                signs = [(x.p, y) for x, y in zip(forms, sg)]
                nat = self.natives({"numpy.linalg.norm": lambda v, **k: 1, ".colinear_measurement": lambda *x: 1, col.id: lambda *x: 1,
                                    "numpy.absolute": size, "numpy.abs": size, "numpy.min": size, "builtins.abs": size,
                                    "numpy.any": lambda v, **k: bool(v) if isinstance(v, (bool, np.bool_)) else any(v)})
                text = "point with %s in coordinates %s" % (label(sg, at), pos)
                me = Rec("worker", f.cls, eps=Fraction(1, 10))
                r = self.go("triangle", text, f, [a, b, c, p, np.array(pos)], nat, self.decider(signs, [(area * area).p], at), me)
                if r:
                    if isinstance(r[0], (bool, np.bool_)):
                        self.judge("triangle", text, f, bool(r[0]) == (sg[:3] == (1, 1, 1)), "the point counts as %s the triangle" % ("inside" if r[0] else "outside"))
                    else:
                        self.res.unknown("triangle", f.qualname, text)

    def planes(self):
        f = self.func(TRI, "line_plane_intersection", "TriangleTriangleIntersectionTest")
        a, b, c, p = self.pts
        q = arr("q", (3,))
        for inside in (1, -1):
            r = self.go("plane", "line and plane", f, [np.array([a, b, c]), p, q], self.natives(), lambda d, test: test(inside), Rec("worker", f.cls))
            if not r:
                continue
            x = r[0]
            if not isinstance(x, np.ndarray) or x.shape != (3,):
                self.res.unknown("plane", f.qualname, "result")
                continue
            on_line = all(is_zero(y.p) for y in cross(x - p, q - p))
            n = cross(b - a, c - a)
            self.judge("plane", "common point of a line and a plane", f, on_line and is_zero(((x - a) @ n).p),
                       "the point does not lie on the %s" % ("plane" if on_line else "line"))


def run(program, res, tier="quick"):
    c = MeasuresCheck(program, res)
    for part in (c.measures, c.rotations, c.centres, c.sizes, c.lines, c.projected_lines, c.on_line, c.triangles, c.planes):
        try:
            part()
        except AnchorMissing as e:
            res.unknown("anchor", str(e), "not found")
        except Unknown as e:
            res.unknown("measure", part.__name__, str(e))
