"""Abstract numpy arrays: every axis is either a small constant axis, the axis of
quadrature points, or an axis of unknowns of declared fields; every entry is a
value number (Poly).  Operations mirror numpy's shape rules on these axes."""
from fractions import Fraction
from .poly import Poly, ZERO, ONE, topp, lift, fresh_var, atom as atom_of, atom_id, is_var


class Unsupported(Exception):
    pass


class Mismatch(Exception):
    """Definite violation of the axis typing."""

    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind = kind


class C:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "C%d" % self.n


class Q:
    def __repr__(self):
        return "Q"


class D:
    __slots__ = ("layout", "var")

    def __init__(self, layout, var=None):
        self.layout = tuple(layout)
        self.var = var or fresh_var()

    def labels(self):
        return [(f, c) for f, k in self.layout for c in range(k)]

    def __repr__(self):
        return "D%s" % (self.layout,)


def nphi(f):
    return Poly.a(("n", f))


NQ = Poly.a(("NQ",))
SUM = Poly.a(("SUM",))


def axis_len(ax):
    if isinstance(ax, C):
        return ax.n
    if isinstance(ax, Q):
        return NQ
    s = ZERO
    for f, k in ax.layout:
        s = s + nphi(f) * k
    return s


class Array:
    def __init__(self, axes, el=None, role=None):
        self.axes = list(axes)
        self.el = el if el is not None else {}
        self.role = role
        self.idxvars = set()

    def get(self, k):
        return self.el.get(k, ZERO)

    def keys(self):
        return _keys(self.axes)

    @property
    def ndim(self):
        return len(self.axes)

    def copy(self):
        a = Array([D(x.layout, x.var) if isinstance(x, D) else x for x in self.axes], dict(self.el), self.role)
        a.idxvars = set(self.idxvars)
        return a

    def refreshed(self):
        """copy with fresh variables on the D axes."""
        axes = []
        el = dict(self.el)
        for ax in self.axes:
            if isinstance(ax, D):
                nv = fresh_var()
                el = {k: p.rename(ax.var, nv) for k, p in el.items()}
                axes.append(D(ax.layout, nv))
            else:
                axes.append(ax)
        return Array(axes, el)

    def assign(self, other):
        self.axes = other.axes
        self.el = other.el

    def has_top(self):
        return any(p.top for p in self.el.values())

    def __repr__(self):
        return "Array%s" % (self.axes,)


def _keys(axes):
    out = [()]
    for ax in axes:
        if isinstance(ax, C):
            vals = list(range(ax.n))
        elif isinstance(ax, Q):
            vals = ["q"]
        else:
            vals = ax.labels()
        out = [k + (v,) for k in out for v in vals]
    return out


def scalar(p):
    a = Array([], {(): lift(p)})
    return a


def as_array(v):
    if isinstance(v, Array):
        return v
    if isinstance(v, (int, float, Fraction, Poly)) and not isinstance(v, bool):
        return scalar(lift(v))
    if isinstance(v, bool):
        return scalar(lift(int(v)))
    raise Unsupported("array from %s" % type(v).__name__)


def simplify(a):
    if isinstance(a, Array) and not a.axes:
        return a.get(())
    return a


def unify_axis(x, y):
    """-> (axis, renames for y as (old,new) or None)"""
    if isinstance(x, C) and isinstance(y, C):
        if x.n == y.n:
            return x, None
        if x.n == 1:
            return y, None
        if y.n == 1:
            return x, None
        raise Mismatch("shape", "axes of length %d and %d combined" % (x.n, y.n))
    if isinstance(x, C) and x.n == 1:
        return y, None
    if isinstance(y, C) and y.n == 1:
        return x, None
    if isinstance(x, Q) and isinstance(y, Q):
        return x, None
    if isinstance(x, D) and isinstance(y, D):
        if x.layout == y.layout:
            return x, (y.var, x.var)
        if sum(k for _, k in x.layout) == sum(k for _, k in y.layout) and False:
            pass
        raise Mismatch("field", "unknowns of %s combined with unknowns of %s" % (lay(x), lay(y)))
    raise Mismatch("shape", "axis %r combined with axis %r" % (x, y))


def lay(d):
    return "+".join("%s(x%d)" % (f, k) for f, k in d.layout)


def broadcast(f, a, b):
    a, b = as_array(a), as_array(b)
    if not a.axes and not b.axes:
        return scalar(f(a.get(()), b.get(())))
    # make D variables of the two operands distinct before alignment
    if any(isinstance(x, D) for x in b.axes) and any(isinstance(x, D) for x in a.axes):
        b = b.refreshed()
    na, nb = len(a.axes), len(b.axes)
    n = max(na, nb)
    axes = []
    bel = b.el
    for i in range(n):
        ia, ib = i - (n - na), i - (n - nb)
        if ia < 0:
            axes.append(b.axes[ib])
        elif ib < 0:
            axes.append(a.axes[ia])
        else:
            ax, ren = unify_axis(a.axes[ia], b.axes[ib])
            axes.append(ax)
            if ren:
                bel = {k: p.rename(*ren) for k, p in bel.items()}
    seen = [x.var for x in axes if isinstance(x, D)]
    if len(set(seen)) != len(seen):
        raise Unsupported("variable clash")
    out = {}
    for k in _keys(axes):
        ka = tuple(_proj(k[n - na + i], a.axes[i]) for i in range(na))
        kb = tuple(_proj(k[n - nb + i], b.axes[i]) for i in range(nb))
        v = f(a.get(ka), bel.get(kb, ZERO))
        if v.top or v.t:
            out[k] = v
    return Array(axes, out)


def _proj(v, ax):
    if isinstance(ax, C):
        return v if isinstance(v, int) and ax.n > 1 else 0
    return v


def unary(f, a):
    a = as_array(a)
    out = {}
    for k in a.keys():
        v = f(a.get(k))
        if v.top or v.t:
            out[k] = v
    return Array(a.axes, out)


def transpose(a, perm=None):
    a = as_array(a)
    n = a.ndim
    perm = perm or tuple(reversed(range(n)))
    perm = tuple(p % n for p in perm)
    axes = [a.axes[p] for p in perm]
    return Array(axes, {tuple(k[p] for p in perm): v for k, v in a.el.items()}).refreshed()


# ---- contraction --------------------------------------------------------
def contract_var(p, v, f):
    """sum over the basis index v of field f"""
    if p.top or not p.t:
        return p
    out = ZERO
    for m, c in p.t.items():
        hit, rest = [], []
        for i, e in m:
            from .poly import atom_vars
            (hit if v in atom_vars(i) else rest).append((i, e))
        rest = Poly({tuple(rest): c})
        if not hit:
            out = out + rest * nphi(f)
            continue
        al = [(i, e) for i, e in hit if atom_of(i)[0] == "al"]
        ph = [(i, e) for i, e in hit if atom_of(i)[0] == "phi"]
        if len(hit) == 2 and len(al) == 1 and len(ph) == 1 and al[0][1] == 1 and ph[0][1] == 1:
            A, P = atom_of(al[0][0]), atom_of(ph[0][0])
            # al: (name, F, c, v)   phi: (F, tag, d, comp, v)
            if A[2] == P[1]:
                out = out + rest * Poly.a(("fld", A[1], A[2], A[3], P[2], P[3], P[4]))
            else:
                out = out + rest * Poly.a(("mix", A[1], A[2], A[3], P[1], P[2], P[3], P[4]))
            continue
        bound = ("bv", 0)
        from .poly import _ren
        fs = frozenset((_ren(atom_of(i), v, bound), e) for i, e in hit)
        out = out + rest * Poly.a(("bsum", f, fs))
    return out


def contract(a, i, j=None):
    """contract axis i (sum) or the diagonal of axes i and j."""
    if j is not None:
        ax, ren = unify_axis(a.axes[i], a.axes[j])
        if isinstance(a.axes[i], C) and isinstance(a.axes[j], C) and a.axes[i].n != a.axes[j].n:
            raise Mismatch("shape", "trace over axes of length %d and %d" % (a.axes[i].n, a.axes[j].n))
        axes = [x for k, x in enumerate(a.axes) if k != j]
        el = {}
        for k, p in a.el.items():
            if k[i] != k[j]:
                continue
            if ren:
                p = p.rename(*ren)
            el[tuple(x for n, x in enumerate(k) if n != j)] = p
        a = Array(axes, el)
        if j < i:
            i -= 1
    ax = a.axes[i]
    axes = [x for k, x in enumerate(a.axes) if k != i]
    out = {}
    for k, p in a.el.items():
        kk = tuple(x for n, x in enumerate(k) if n != i)
        if isinstance(ax, D):
            p = contract_var(p, ax.var, k[i][0])
        elif isinstance(ax, Q):
            p = p * SUM
        out[kk] = out.get(kk, ZERO) + p
    if isinstance(ax, Q):
        pass
    return Array(axes, out)


def outer_product(a, b):
    """all axes of a followed by all axes of b."""
    a, b = as_array(a), as_array(b).refreshed()
    if any(isinstance(x, Q) for x in a.axes) and any(isinstance(x, Q) for x in b.axes):
        raise Unsupported("product over two sets of points")
    axes = a.axes + b.axes
    out = {}
    for ka in a.keys():
        pa = a.get(ka)
        if pa.is_zero():
            continue
        for kb in b.keys():
            pb = b.get(kb)
            v = pa * pb
            if v.top or v.t:
                out[ka + kb] = v
    return Array(axes, out)


def matmul(a, b):
    a, b = as_array(a), as_array(b)
    if a.ndim == 0 or b.ndim == 0:
        raise Unsupported("matmul with a scalar")
    if a.ndim > 2 and b.ndim == 2 or a.ndim > 2 and b.ndim == 1:
        # stack of matrices times matrix / vector
        return contract_pair(a, a.ndim - 1, b, b.ndim - 2 if b.ndim >= 2 else 0)
    if a.ndim <= 2 and b.ndim <= 2:
        return contract_pair(a, a.ndim - 1, b, 0 if b.ndim == 1 else 0)
    if b.ndim > 2 and a.ndim <= 2:
        # (m,k) @ (stack,k,n) -> stack,m,n
        r = contract_pair(a, a.ndim - 1, b, b.ndim - 2)
        if a.ndim == 1:
            return r
        na = 1
        perm = list(range(na, na + b.ndim - 2)) + [0] + [na + b.ndim - 2]
        return transpose(r, tuple(perm))
    if a.ndim == b.ndim == 3 and isinstance(a.axes[0], Q) and isinstance(b.axes[0], Q):
        a0 = Array(a.axes[1:], {k[1:]: v for k, v in a.el.items()})
        b0 = Array(b.axes[1:], {k[1:]: v for k, v in b.el.items()})
        r = matmul(a0, b0)
        return Array([Q()] + r.axes, {("q",) + k: v for k, v in r.el.items()})
    raise Unsupported("matmul of rank %d and %d" % (a.ndim, b.ndim))


def contract_pair(a, i, b, j):
    """sum over axis i of a against axis j of b; remaining axes of a then of b."""
    b = b.refreshed()
    x, y = a.axes[i], b.axes[j]
    if isinstance(x, C) and isinstance(y, C) and x.n != y.n:
        raise Mismatch("shape", "contraction of axes of length %d and %d" % (x.n, y.n))
    if type(x) is not type(y):
        raise Mismatch("shape", "contraction of axis %r with axis %r" % (x, y))
    ren = None
    if isinstance(x, D):
        if x.layout != y.layout:
            raise Mismatch("field", "unknowns of %s contracted with unknowns of %s" % (lay(x), lay(y)))
        ren = (y.var, x.var)
    axes = [t for k, t in enumerate(a.axes) if k != i] + [t for k, t in enumerate(b.axes) if k != j]
    if sum(isinstance(t, Q) for t in axes) > 1:
        raise Unsupported("two point axes")
    out = {}
    bl = {}
    for kb, pb in b.el.items():
        if ren:
            pb = pb.rename(*ren)
        bl.setdefault(kb[j], []).append((tuple(t for n, t in enumerate(kb) if n != j), pb))
    for ka, pa in a.el.items():
        ra = tuple(t for n, t in enumerate(ka) if n != i)
        for rb, pb in bl.get(ka[i], []):
            p = pa * pb
            if isinstance(x, D):
                p = contract_var(p, x.var, ka[i][0])
            elif isinstance(x, Q):
                p = p * SUM
            k = ra + rb
            out[k] = out.get(k, ZERO) + p
    # a point axis left over while another one was contracted is fine
    return Array(axes, {k: v for k, v in out.items() if v.top or v.t})


# ---- indexing -------------------------------------------------------------
class QIdx:
    """index of the generic quadrature point"""

    def __init__(self, rule=None):
        self.rule = rule


class FacetDofs:
    """unknown numbers of one facet of the neighbour element of field f"""

    def __init__(self, f_from, f_to, ok=True):
        self.f_from, self.f_to, self.ok = f_from, f_to, ok


def to_int(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, float) and v == int(v):
        return int(v)
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    if isinstance(v, Poly) and v.is_const() and v.constval().denominator == 1:
        return int(v.constval())
    if isinstance(v, Array) and not v.axes:
        return to_int(v.get(()))
    return None


def nonneg(p):
    return not p.top and all(c >= 0 for c in p.t.values())


def decode_slice(ax, sl):
    """slice of a D axis -> (new axis, {label: newlabel})"""
    step = 1 if sl.step is None else to_int(sl.step)
    L = axis_len(ax)
    if step is None or step <= 0:
        raise Unsupported("stride")
    start = ZERO if sl.start is None else lift(simplify(sl.start) if isinstance(sl.start, Array) else sl.start)
    stop = L if sl.stop is None else lift(simplify(sl.stop) if isinstance(sl.stop, Array) else sl.stop)
    if start.top or stop.top:
        raise Unsupported("slice bounds")
    if stop.is_const() and stop.constval() < 0:
        stop = L + stop
    if start.is_const() and start.constval() < 0:
        start = L + start
    if nonneg(stop - L):
        stop = L
    span = stop - start
    off = ZERO
    for bi, (f, k) in enumerate(ax.layout):
        d = start - off
        n = nphi(f)
        if d.is_const() and 0 <= d.constval() < k and d.constval().denominator == 1:
            c = int(d.constval())
            if step == k and k > 1 or (step == 1 and k == 1 and len(ax.layout) == 1):
                r = n * k - span
                if r.is_const() and 0 <= r.constval() < k:
                    return D([(f, 1)], ax.var), {(f, c): (f, 0)}
                if nonneg(span - n * k):
                    raise Mismatch("layout", "range starting at component %d of %s with stride %d "
                                   "runs past the unknowns of %s" % (c, f, step, f))
                raise Mismatch("layout", "range starting at component %d of %s covers %r unknowns "
                               "instead of all of them" % (c, f, span))
            if step == 1 and c == 0:
                end = off
                blocks = []
                for g, kg in ax.layout[bi:]:
                    end = end + nphi(g) * kg
                    blocks.append((g, kg))
                    if (stop - end).is_zero():
                        new = D(blocks, ax.var)
                        return new, {lb: lb for lb in new.labels()}
            if step != 1 and step != k:
                raise Mismatch("layout", "unknowns of %s (%d component(s)) addressed with stride %d"
                               % (f, k, step))
            if step == 1 and k == 1:
                r = n - span
                raise Mismatch("layout", "range of length %r does not match the unknowns of %s" % (span, f))
            raise Mismatch("layout", "range of length %r at component %d of %s (%d component(s), stride %d)"
                           % (span, c, f, k, step))
        off = off + n * k
    raise Mismatch("layout", "range start %r is not the start of a field component of %s" % (start, lay(ax)))


def decode_int(ax, p):
    """index expression containing one loop index over the basis of a field."""
    from .poly import atom_id as _aid
    idx = [i for i in p.atoms() if atom_of(i)[0] == "idx"]
    if len(idx) != 1:
        raise Unsupported("index expression %r" % p)
    a = atom_of(idx[0])
    _, f, v = a
    ip = Poly.a(a)
    off = ZERO
    for g, k in ax.layout:
        d = p - ip * k - off
        if d.is_const() and 0 <= d.constval() < k:
            if g != f:
                raise Mismatch("field", "index over %s used for the unknowns of %s" % (f, g))
            return (g, int(d.constval())), v
        off = off + nphi(g) * k
    raise Mismatch("layout", "index %r does not address a component of %s" % (p, lay(ax)))


def norm_index(a, idx):
    if not isinstance(idx, tuple):
        idx = (idx,)
    n_real = sum(1 for x in idx if x is not None and x is not Ellipsis)
    if Ellipsis in [x for x in idx if x is Ellipsis]:
        p = [i for i, x in enumerate(idx) if x is Ellipsis][0]
        idx = idx[:p] + (slice(None),) * (a.ndim - n_real) + idx[p + 1:]
    else:
        idx = idx + (slice(None),) * (a.ndim - n_real)
    return idx


def plan_index(a, idx):
    """-> (new axes, list per source axis of mapping function label->newlabel|None, drops,
           var renames)"""
    idx = norm_index(a, idx)
    axes, sel = [], []
    ren = []
    i = 0
    for x in idx:
        if x is None:
            axes.append(C(1))
            sel.append(("new",))
            continue
        if i >= a.ndim:
            raise Unsupported("too many indices")
        ax = a.axes[i]
        i += 1
        if isinstance(x, slice):
            if x.start is None and x.stop is None and x.step is None:
                axes.append(ax)
                sel.append(("all",))
                continue
            if isinstance(ax, C):
                s = [None if t is None else to_int(t) for t in (x.start, x.stop, x.step)]
                for t, o in zip(s, (x.start, x.stop, x.step)):
                    if o is not None and t is None:
                        raise Unsupported("symbolic bound on a constant axis")
                rng = list(range(*slice(*s).indices(ax.n)))
                axes.append(C(len(rng)))
                sel.append(("map", {r: n for n, r in enumerate(rng)}))
            elif isinstance(ax, D):
                new, mp = decode_slice(ax, x)
                axes.append(new)
                sel.append(("map", mp))
            else:
                st, sp = x.start, x.stop
                if (st is None or to_int(st) == 0) and x.step is None and isinstance(sp, Poly) and (sp - NQ).is_zero():
                    axes.append(ax)
                    sel.append(("all",))
                else:
                    raise Unsupported("slice of the point axis")
            continue
        if isinstance(x, QIdx):
            if isinstance(ax, Q):
                sel.append(("pick", "q"))
                continue
            if isinstance(ax, C) and ax.n == 1:
                raise Unsupported("point index on constant axis")
            raise Mismatch("shape", "point index applied to axis %r" % (ax,))
        if isinstance(x, FacetDofs):
            if isinstance(ax, D) and len(ax.layout) == 1 and ax.layout[0][0] == x.f_from:
                axes.append(D([(x.f_to, ax.layout[0][1])], ax.var))
                sel.append(("map", {(x.f_from, c): (x.f_to, c) for c in range(ax.layout[0][1])}))
                continue
            raise Mismatch("field", "facet unknowns of %s applied to axis %r" % (x.f_from, ax))
        if isinstance(x, (list,)) and isinstance(ax, C):
            ints = [to_int(t) for t in x]
            if any(t is None for t in ints):
                raise Unsupported("fancy index")
            axes.append(C(len(ints)))
            if len(set(ints)) != len(ints):
                raise Unsupported("repeated fancy index")
            sel.append(("map", {r % ax.n: n for n, r in enumerate(ints)}))
            continue
        if isinstance(x, Array) and not x.axes:
            x = x.get(())
        k = to_int(x)
        if k is not None:
            if isinstance(ax, C):
                if not -ax.n <= k < ax.n:
                    raise Mismatch("shape", "index %d outside an axis of length %d" % (k, ax.n))
                sel.append(("pick", k % ax.n))
                continue
            if isinstance(ax, Q):
                sel.append(("pick", "q", "fixed"))
                continue
            raise Unsupported("constant index on axis %r" % (ax,))
        if isinstance(x, Poly) and isinstance(ax, D) and not x.top:
            lab, v = decode_int(ax, x)
            sel.append(("pick", lab))
            ren.append((ax.var, v))
            continue
        raise Unsupported("index %r on axis %r" % (x, ax))
    return axes, sel, ren


def getitem(a, idx):
    axes, sel, ren = plan_index(a, idx)
    front = _advanced_front(a, idx)
    fixed = any(len(t) == 3 for t in sel)
    out = {}
    for k, p in a.el.items():
        nk = []
        src = iter(k)
        okk = True
        for s in sel:
            if s[0] == "new":
                nk.append(0)
                continue
            v = next(src)
            if s[0] == "all":
                nk.append(v)
            elif s[0] == "pick":
                if v != s[1]:
                    okk = False
                    break
            else:
                if v not in s[1]:
                    okk = False
                    break
                nk.append(s[1][v])
        if not okk:
            continue
        for o, n in ren:
            p = p.rename(o, n)
        out[tuple(nk)] = at_fixed_point(p) if fixed else p
    r = Array(axes, out)
    r = _fresh_except(r)
    if front is not None and front > 0:
        r = transpose(r, (front,) + tuple(i for i in range(r.ndim) if i != front))
    return simplify(r)


TAGPOS = {"W": 1, "x": 1, "phi": 2, "coef": 2, "fld": 4, "mix": 4}


def at_fixed_point(p):
    """value at one particular point instead of the point of the sum; reference cells are mapped
    affinely, so determinants and Jacobians are the same at every point"""
    def f(a):
        k = TAGPOS.get(a[0])
        if k is None or len(a) <= k or not isinstance(a[k], str) or a[k].endswith("!"):
            return None
        return Poly.a(a[:k] + (a[k] + "!",) + a[k + 1:])
    return p.subs_atoms(f)


def _advanced_front(a, idx):
    """numpy puts the axis of an index array first when scalar indices are separated from it
    by a slice; -> position of that axis in the result, or None"""
    idx = norm_index(a, idx)
    if not any(isinstance(x, FacetDofs) for x in idx):
        return None
    adv = [i for i, x in enumerate(idx) if x is not None and not isinstance(x, slice)]
    if adv == list(range(adv[0], adv[-1] + 1)):
        return None
    pos = 0
    for x in idx:
        if isinstance(x, FacetDofs):
            return pos
        if x is None or isinstance(x, slice):
            pos += 1
    return None


def _fresh_except(r):
    # loop index variables already substituted stay; axis variables are refreshed
    return r.refreshed()


def setitem(a, idx, val, mode):
    """mode: 'set' | 'add' | 'sub' | 'mul' | 'div'"""
    axes, sel, ren = plan_index(a, idx)
    if any(len(t) == 3 for t in sel):
        raise Unsupported("write at one fixed point")
    # value broadcast to region axes
    val = as_array(val) if not isinstance(val, Array) else val
    # drop leading unit axes of the value
    while val.ndim > len(axes) and isinstance(val.axes[0], C) and val.axes[0].n == 1:
        val = Array(val.axes[1:], {k[1:]: p for k, p in val.el.items()})
    zero = Array(axes, {})
    vb = broadcast(lambda x, y: y, zero, val)
    if len(vb.axes) != len(axes):
        raise Mismatch("shape", "value of rank %d written to a region of rank %d" % (len(vb.axes), len(axes)))
    for x, y in zip(axes, vb.axes):
        if isinstance(x, C) and (not isinstance(y, C) or y.n != x.n):
            raise Mismatch("shape", "value with axis %r written to a region with axis %r" % (y, x))
    # loop-index variables used in the index become the axis variable in the value
    used = set()
    for o, n in ren:
        used.add(n)
    for k in list(_keys(a.axes)):
        nk = []
        src = iter(k)
        okk = True
        for s in sel:
            if s[0] == "new":
                nk.append(0)
                continue
            v = next(src)
            if s[0] == "all":
                nk.append(v)
            elif s[0] == "pick":
                if v != s[1]:
                    okk = False
                    break
            else:
                if v not in s[1]:
                    okk = False
                    break
                nk.append(s[1][v])
        if not okk:
            continue
        p = vb.get(tuple(nk))
        for o, n in ren:
            p = p.rename(n, o)
        old = a.get(k)
        if mode == "set":
            new = p
        elif mode == "add":
            new = old + p
        elif mode == "sub":
            new = old - p
        elif mode == "mul":
            new = old * p
        elif mode == "div":
            new = old * p.power(-1)
        else:
            new = topp("in-place operator")
        a.el[k] = new
    a.idxvars |= used


# ---- reshape / stacking -----------------------------------------------------
def primes(axes):
    """flatten axes into prime factors with D((F,k)) = D((F,1)) x C(k)."""
    out = []
    for i, ax in enumerate(axes):
        if isinstance(ax, D) and len(ax.layout) == 1 and ax.layout[0][1] > 1:
            out.append(("P", i, "phi"))
            out.append(("P", i, "comp"))
        else:
            out.append(("A", i))
    return out


def reshape(a, shape):
    """shape: list of int/Poly; -1 allowed."""
    lens = [axis_len(ax) for ax in a.axes]
    total = ONE
    for ln in lens:
        total = total * lift(ln)
    shp = [lift(s) for s in shape]
    if any(s.top for s in shp):
        raise Unsupported("reshape to unknown shape")
    neg = [i for i, s in enumerate(shp) if s.is_const() and s.constval() == -1]
    if neg:
        rest = ONE
        for i, s in enumerate(shp):
            if i not in neg:
                rest = rest * s
        if rest.is_zero():
            raise Unsupported("reshape")
        q = total * rest.power(-1)
        shp[neg[0]] = q
    prod = ONE
    for s in shp:
        prod = prod * s
    if not (prod - total).is_zero():
        raise Mismatch("shape", "array with %r entries reshaped to %r" % (total, shp))
    # prime factor stream of the source: (length, extractor)
    src = []
    for i, ax in enumerate(a.axes):
        if isinstance(ax, D) and len(ax.layout) == 1:
            f, k = ax.layout[0]
            src.append(("phi", i, f, nphi(f)))
            if k > 1:
                src.append(("comp", i, k, lift(k)))
        elif isinstance(ax, D):
            src.append(("cat", i, ax, axis_len(ax)))
        elif isinstance(ax, Q):
            src.append(("q", i, None, NQ))
        else:
            if ax.n != 1:
                src.append(("c", i, ax.n, lift(ax.n)))
    pos = 0
    groups = []
    for s in shp:
        if s.is_const() and s.constval() == 1:
            groups.append([])
            continue
        g = []
        acc = ONE
        while not (acc - s).is_zero():
            if pos >= len(src):
                raise Unsupported("reshape regrouping")
            g.append(src[pos])
            acc = acc * src[pos][3]
            pos += 1
        groups.append(g)
    if pos != len(src):
        raise Unsupported("reshape regrouping")
    axes = []
    for g in groups:
        kinds = [x[0] for x in g]
        if not g:
            axes.append(C(1))
        elif kinds == ["phi"]:
            axes.append(D([(g[0][2], 1)], a.axes[g[0][1]].var))
        elif kinds[0] == "phi" and all(k in ("comp", "c") for k in kinds[1:]):
            n = 1
            for x in g[1:]:
                n *= x[2]
            axes.append(D([(g[0][2], n)], a.axes[g[0][1]].var))
        elif kinds == ["cat"]:
            axes.append(a.axes[g[0][1]])
        elif kinds == ["q"]:
            axes.append(Q())
        elif all(k in ("comp", "c") for k in kinds):
            n = 1
            for x in g:
                n *= x[2]
            axes.append(C(n))
        elif "phi" in kinds and all(k in ("comp", "c", "phi") for k in kinds):
            raise Mismatch("layout", "components are not interleaved per basis function after reshape")
        else:
            raise Unsupported("reshape group %s" % kinds)
    out = {}
    for k, p in a.el.items():
        nk = []
        for g in groups:
            if not g:
                nk.append(0)
                continue
            kinds = [x[0] for x in g]
            if kinds == ["q"]:
                nk.append("q")
            elif kinds == ["cat"]:
                nk.append(k[g[0][1]])
            else:
                n = 0
                lab = None
                for x in g:
                    if x[0] == "phi":
                        lab = x[2]
                        continue
                    v = k[x[1]][1] if x[0] == "comp" else k[x[1]]
                    n = n * x[2] + v
                nk.append((lab, n) if lab is not None else n)
        out[tuple(nk)] = p
    return Array(axes, out).refreshed()


def ravel(a):
    tot = ONE
    for ax in a.axes:
        tot = tot * lift(axis_len(ax))
    return reshape(a, [tot])


def concat(arrs, axis):
    arrs = [as_array(x) for x in arrs]
    n = arrs[0].ndim
    if any(x.ndim != n for x in arrs):
        raise Unsupported("concatenate ranks")
    axis %= n
    base = arrs[0]
    axes = list(base.axes)
    kinds = {type(x.axes[axis]) for x in arrs}
    if len(kinds) != 1:
        raise Unsupported("concatenate kinds")
    if kinds == {C}:
        axes[axis] = C(sum(x.axes[axis].n for x in arrs))
    elif kinds == {D}:
        layout = []
        for x in arrs:
            layout += list(x.axes[axis].layout)
        if len({f for f, k in layout}) != len(layout):
            raise Unsupported("concatenate repeated field blocks")
        axes[axis] = D(layout)
    else:
        raise Unsupported("concatenate points")
    out = {}
    off = 0
    for x in arrs:
        x = x.refreshed()
        el = x.el
        for i, ax in enumerate(x.axes):
            if i == axis:
                if isinstance(ax, D):
                    el = {k: p.rename(ax.var, axes[axis].var) for k, p in el.items()}
                continue
            u, ren = unify_axis(axes[i], ax)
            if isinstance(ax, C) and isinstance(axes[i], C) and ax.n != axes[i].n:
                raise Mismatch("shape", "stacked arrays differ in an axis")
            if ren:
                el = {k: p.rename(*ren) for k, p in el.items()}
        for k, p in el.items():
            kk = list(k)
            if kinds == {C}:
                kk[axis] = k[axis] + off
            out[tuple(kk)] = p
        if kinds == {C}:
            off += x.axes[axis].n
    return Array(axes, out)


def stack(arrs):
    """np.array([a, b, ...]) with a new leading axis."""
    arrs = [as_array(x) for x in arrs]
    if not arrs:
        return Array([C(0)], {})
    ex = []
    for x in arrs:
        ex.append(Array([C(1)] + x.axes, {(0,) + k: p for k, p in x.el.items()}))
    return concat(ex, 0)


def add_axis0(a, ax):
    a = as_array(a)
    if isinstance(ax, Q):
        return Array([Q()] + a.axes, {("q",) + k: p for k, p in a.el.items()})
    if isinstance(ax, D):
        f = ax.layout[0][0]
        return Array([ax] + a.axes, {((f, 0),) + k: p for k, p in a.el.items()}).refreshed()
    raise Unsupported("axis")


def diff_arrays(a, b):
    """elementwise a-b when the axes agree; raises Mismatch/Unsupported otherwise."""
    return broadcast(lambda x, y: x - y, a, b)
