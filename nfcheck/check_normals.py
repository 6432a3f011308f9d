"""P25: the normal of a facet is the outward unit normal of the cell in front of it.

The function is run in the domain of symarr.py on vertices with symbolic coordinates. Lengths are atoms with a known
square, both outcomes of every comparison of a sign are followed; on each path the result must satisfy the identities
of a unit vector orthogonal to the facet in the plane of the cell, and its product with the direction from the centre of
the cell to that of the facet must be a positive multiple of a quantity the path knows to be positive."""
import math
import random
from fractions import Fraction

from .objarr import np
from .core import AnchorMissing, loc
from .poly import Poly, atom
from .symarr import Ev, E, Rec, Unknown, Fails, arr, ent

CELLS = {1: "interval", 2: "triangle", 3: "tetrahedron"}


def lengths(p):
    return [i for i in p.atoms() if atom(i)[0] in ("len", "P")]


def square(i):
    return Poly(dict(atom(i)[1]))


def value(p, table, draw):
    """the value of a polynomial at a point; table: atom -> number (drawn when missing); None beyond this arithmetic"""
    if p.top:
        return None
    out = Fraction(0)
    for mono, c in p.t.items():
        v = c
        for i, k in mono:
            a = atom(i)
            if i not in table:
                if a[0] in ("len", "P"):
                    x = value(square(i), table, draw)
                    if x is None or a[0] == "len" and x < 0:
                        return None
                    table[i] = math.sqrt(x) if a[0] == "len" else x
                else:
                    table[i] = draw()
            x = table[i]
            if k != int(k) or x == 0 and k < 0:
                return None
            v = v * x ** int(k)
        out = out + v
    return out


def sampled_zero(p):
    """the identity test for polynomials too large to expand: values at points of a large set (no lengths)"""
    rnd = random.Random(11)
    for _ in range(3):
        v = value(p, {}, lambda: Fraction(rnd.randint(1, 10 ** 9)))
        if v is None or not isinstance(v, (int, Fraction)):
            raise Unknown("expression too large")
        if v != 0:
            return False
    return True


def is_zero(p):
    r = expanded_zero(p)
    return sampled_zero(p) if r is None else r


def expanded_zero(p):
    """an identity, given that the square of each length is known (sufficient, and exact unless lengths are dependent)"""
    if p.top:
        return None
    if not p.t:
        return True
    ls = lengths(p)
    if not ls:
        return False
    n = max(ls)
    step = 2 if atom(n)[0] == "len" else 1      # a quotient: the power of a known polynomial
    low = min(dict(m).get(n, 0) for m in p.t)
    if low != int(low):
        return False
    parts = [Poly(), Poly()]
    groups = {}
    for m, c in p.t.items():
        e = dict(m).get(n, 0) - low
        if e != int(e):
            return False
        rest = tuple((i, k) for i, k in m if i != n)
        groups.setdefault(int(e), {})[rest] = c
    s, powers = square(n), [Poly.const(1)]
    for e in sorted(groups):
        while len(powers) <= e // step:
            powers.append(powers[-1] * s)
        parts[e % step] = parts[e % step] + Poly(groups[e]) * powers[e // step]
    out = True
    for x in parts:
        r = expanded_zero(x)
        if r is None:
            return None
        out = out and r
    return out


def refuted(p):
    """p is not zero, and no dependence between lengths can make it so"""
    odd = {i for m in NormalsCheck.clear(None, p).t for i, e in m if atom(i)[0] == "len"}
    return not is_zero(p) and len(odd) < 2


class NormalsCheck:
    def __init__(self, program, res):
        self.p, self.res, self.free = program, res, {}

    def run(self):
        fs = [m.functions["normal"] for m in self.p.modules.values() if m.name.endswith("compute_normal") and "normal" in m.functions]
        if len(fs) != 1:
            raise AnchorMissing("normal")
        f = fs[0]
        for dim in (1, 2, 3):
            for apex in range(dim + 1):
                for turned in (False, True):
                    if turned and dim == 1:
                        continue
                    self.one(f, dim, apex, turned)

    def one(self, f, dim, apex, turned):
        c0 = [3 + k for k in range(dim + 1)]
        c1 = [t for k, t in enumerate(c0) if k != apex]
        if turned:
            c1 = c1[::-1]
        pts = arr("x", (dim + 5, 3))
        what = "normal of facet %d of a %s%s" % (apex, CELLS[dim], " (listed in the other direction)" if turned else "")
        paths, todo = 0, [[]]
        while todo:
            choice = todo.pop()
            if paths > 8:
                self.res.unknown("normal", f.qualname, "%s: too many comparisons" % what)
                return
            paths += 1
            known, table = [], {}

            def decide(d, test):
                if is_zero(d - Poly.const(1)):
                    return test(1)
                for k, s in known:
                    if is_zero(d - k):
                        return test(s)
                n = len(known)
                if n >= len(choice):
                    todo.append(choice + [-1])
                    choice.append(1)
                s = choice[n]
                known.append((d, s))
                return test(s)

            def norm(v, *a, **k):
                if a or k or not isinstance(v, np.ndarray) or v.ndim != 1:
                    raise Unknown("norm")
                return root(sum((x * x for x in v), ent(0)))

            def root(v):
                if not isinstance(v, E):
                    raise Unknown("root")
                s = v.p
                if is_zero(s - Poly.const(1)):
                    return ent(1)
                for t in table:
                    if is_zero(s - t * t):
                        return E(t)
                t = Poly.a(("len", tuple(sorted(s.t.items()))))
                table[t] = s
                return E(t)

            def mean(v, axis=None, **k):
                if axis != 0 or k or not isinstance(v, np.ndarray):
                    raise Unknown("mean")
                return v.sum(axis=0) * ent(Fraction(1, len(v)))

            def cross(a, b, **k):
                if k or any(not isinstance(v, np.ndarray) or v.shape != (3,) for v in (a, b)):
                    raise Unknown("cross product")
                return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=object)
            centroid = lambda c, m, **k: mean(pts[c._a["node_tags"]], axis=0)
            ev = Ev(self.p, {"numpy.linalg.norm": norm, "numpy.mean": mean, "numpy.average": mean, "numpy.cross": cross, "numpy.sqrt": root, "math.sqrt": root,
                             "numpy.vdot": lambda a, b: a @ b, "numpy.sign": lambda v: 1 if v > 0 else -1,
                             "numpy.copysign": lambda a, b: abs(a) if b > 0 else -abs(a)})
            mesh = Rec("mesh", points=pts, dimension=dim)
            cells = [Rec("cell", dimension=dim, node_tags=np.array(c0), id=9), Rec("facet", dimension=dim - 1, node_tags=np.array(c1), id=8)]
            E.decide = staticmethod(decide)
            try:
                n = ev.call(f, [mesh] + cells)
            except Fails as e:
                self.res.bad("normal", f.qualname, "%s: %s" % (what, e), loc(e.module, e.node) if e.module is not None else loc(f.module, f.node))
                return
            except (Unknown, TypeError, AttributeError, KeyError) as e:
                self.res.unknown("normal", f.qualname, "%s: %s" % (what, e))
                return
            finally:
                E.decide = None
            if not self.verdict(f, what, dim, pts, c0, c1, n, known, cross, mean):
                return

    def bad(self, f, text):
        self.res.bad("normal", f.qualname, text, loc(f.module, f.node))
        return False

    def verdict(self, f, what, dim, pts, c0, c1, n, known, cross, mean):
        if not isinstance(n, np.ndarray) or n.shape != (3,):
            return self.bad(f, "%s: the result is no vector" % what) if ent(n) is not None else self.res.unknown("normal", f.qualname, what)
        n = np.array([ent(x) for x in n], dtype=object)
        if any(x is None for x in n):
            self.res.unknown("normal", f.qualname, what)
            return False
        x = pts[c0]
        side = known[0][1] if known else 0
        where = "" if not side else ", first comparison %s zero" % ("above" if side > 0 else "below")
        facet = [pts[t] - pts[c1[0]] for t in c1[1:]]
        unit = (n @ n).p - Poly.const(1)
        zero = [(n @ e).p for e in facet]
        if any(refuted(a) for a in zero):
            return self.bad(f, "%s is not orthogonal to the facet%s" % (what, where))
        flat = [a.p for a in cross(n, x[1] - x[0])] if dim == 1 else [(n @ cross(x[1] - x[0], x[2] - x[0])).p] if dim == 2 else []
        if any(refuted(a) for a in flat):
            return self.bad(f, "%s does not lie in the plane of the cell%s" % (what, where))
        if refuted(unit):
            return self.bad(f, "%s is no unit vector%s" % (what, where))
        if any(not is_zero(a) for a in zero + flat + [unit]):
            self.res.unknown("normal", f.qualname, "%s: lengths" % what)
            return True
        self.res.ok("normal", "%s: unit vector, orthogonal to the facet, in the plane of the cell%s" % (what, where))
        out = (n @ (mean(pts[c1], axis=0) - mean(x, axis=0))).p
        o = mean(pts[c1], axis=0) - mean(x, axis=0)
        sure = o @ o
        if dim == 2:
            c = cross(pts[c1[1]] - pts[c1[0]], o)
            sure = c @ c
        sign = self.sign(out, known + [(sure.p, 1)] * (dim < 3))
        if sign is None and not known:
            # without a comparison the same normal for both directions of the facet, or one of the two is wrong
            before = self.free.setdefault((dim, tuple(sorted(c1))), out)
            if before is not out and self.factor(out, before) == -1:
                sign = -1
        if sign is None:
            self.res.unknown("normal", f.qualname, "%s: side" % what)
        elif sign < 0:
            return self.bad(f, "%s points into the cell%s" % (what, where))
        else:
            self.res.ok("normal.outward", "%s%s" % (what, where))
        return True

    def sign(self, p, known):
        """sign of p where it is a multiple, by lengths, of a quantity of known sign"""
        if not p.t:
            return None
        for k, s in known + [(Poly.const(1), 1)]:
            f = self.factor(p, k)
            if f:
                return s * f
        return None

    def factor(self, p, k):
        """sign of c where p = c k and c is a number times powers of lengths"""
        if not k.t:
            return 0
        free = lambda m: tuple(i for i in m if atom(i[0])[0] != "len")
        for q, r in ((p, k), (self.clear(p), self.clear(k))):
            if not q.t or not r.t:
                continue
            a = min(r.t, key=lambda m: (len(m), m))
            for b in q.t:
                if free(a) != free(b):
                    continue
                c = Poly({b: q.t[b]}) * Poly({a: r.t[a]}).power(-1)
                if is_zero(q - r * c):
                    (_, v), = c.t.items()
                    return 1 if v > 0 else -1
        return 0

    def clear(self, p):
        """p times positive powers of lengths, lengths replaced by their squares"""
        while True:
            ls = [i for i in lengths(p) if atom(i)[0] == "len"]
            if not ls:
                return p
            n = max(ls)
            es = {dict(m).get(n, 0) for m in p.t}
            low = min(es)
            if any((e - low) % 2 for e in es):
                return p
            out, s = Poly(), square(n)
            for m, c in p.t.items():
                t = Poly({tuple((i, e) for i, e in m if i != n): c})
                for _ in range(int((dict(m).get(n, 0) - low) // 2)):
                    t = t * s
                out = out + t
            p = out


def run(program, res, tier="quick"):
    try:
        NormalsCheck(program, res).run()
    except AnchorMissing as e:
        res.unknown("anchor", str(e), "not found")
    except Unknown as e:
        res.unknown("normal", "normal", str(e))
