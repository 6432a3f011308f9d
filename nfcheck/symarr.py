"""Abstract evaluation of straight-line array code.

Arrays have known shapes and entries that are value numbers (polynomials over opaque atoms, poly.py); shape
manipulations, products and sums of numpy are carried out on these entries. Square and tall matrices that are
factorised, inverted or transposed become words over the factors of their QR decomposition (class Mat), which are
reduced with Q'Q = I, S S = I (S the signs of the diagonal of R) and R inv(R) = I. Nothing of the repository is
imported or executed: the evaluator walks the syntax trees, and whatever it does not know raises Unknown."""
import ast
import itertools
import operator
from fractions import Fraction

from .objarr import np

from .core import FuncInfo, ClassInfo
from .poly import Poly, atom as poly_atom


class Unknown(Exception):
    pass


class Fails(Exception):
    """the analysed code itself raises, or an array operation is given shapes it refuses"""

    def __init__(self, msg, node=None, module=None):
        Exception.__init__(self, msg)
        self.node, self.module = node, module


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class E:
    """one entry of an array"""
    __slots__ = ("p",)
    decide = None       # decides comparisons of unknown sign: decide(difference, test of a sign)

    def __init__(self, p):
        self.p = p

    def __add__(self, o):
        o = ent(o)
        return NotImplemented if o is None else E(self.p + o.p)
    __radd__ = __add__

    def __sub__(self, o):
        o = ent(o)
        return NotImplemented if o is None else E(self.p - o.p)

    def __rsub__(self, o):
        return E(ent(o).p - self.p)

    def __mul__(self, o):
        o = ent(o)
        return NotImplemented if o is None else E(self.p * o.p)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = ent(o)
        return NotImplemented if o is None else E(self.p * o.p.power(-1))

    def __rtruediv__(self, o):
        return E(ent(o).p * self.p.power(-1))

    def __neg__(self):
        return E(-self.p)

    def __pos__(self):
        return self

    def __pow__(self, n):
        if isinstance(n, (int, float)) and Fraction(n).limit_denominator(8) == Fraction(n):
            return E(self.p.power(Fraction(n)))
        raise Unknown("power")

    def __abs__(self):
        m = measure(self.p)
        if m is not None:
            return E(Poly.a(("J", m[0]), m[1]) * abs(m[2]))
        if len(self.p.t) == 1:
            (mono, c), = self.p.t.items()
            if all(poly_atom(a)[0] in ("J", "sgn") for a, _ in mono):
                out = Poly.const(abs(c))
                for a, k in mono:
                    if poly_atom(a)[0] == "J":
                        out = out * Poly.a(poly_atom(a), k)
                return E(out)
        raise Unknown("absolute value")

    def sqrt(self):
        m = measure(self.p)
        if m is not None and m[1] % 2 == 0 and m[2] == 1:
            return E(Poly.a(("J", m[0]), m[1] // 2))
        raise Unknown("root")

    def __eq__(self, o):
        return isinstance(o, E) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __lt__(self, o):
        return self._sign(o, lambda s: s < 0)

    def __le__(self, o):
        return self._sign(o, lambda s: s <= 0)

    def __gt__(self, o):
        return self._sign(o, lambda s: s > 0)

    def __ge__(self, o):
        return self._sign(o, lambda s: s >= 0)

    def _sign(self, o, test):
        d = self.p - ent(o).p
        if E.decide is not None and not d.is_const():
            return E.decide(d, test)
        m = measure(d)
        if m is not None:
            return test(m[2])
        if d.is_const():
            return test(d.constval())
        raise Unknown("comparison of entries")

    def __bool__(self):
        raise Unknown("truth of an entry")

    def __repr__(self):
        return repr(self.p)


def measure(p):
    """(matrix, power, factor) when the polynomial is a multiple of a power of the measure of one matrix"""
    from .poly import atom
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and atom(m[0][0])[0] == "J":
            return atom(m[0][0])[1], m[0][1], c
    return None


def ent(v):
    if isinstance(v, E):
        return v
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, (int, float, Fraction)):
        return E(Poly.const(v))
    return None


def sym(*a):
    return E(Poly.a(tuple(a)))


def arr(name, shape, *more):
    out = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        out[ix] = sym(name, *more, *ix)
    return out


# ---- matrix words ------------------------------------------------------------------------------------------------
INV = {"S": "S", "R": "Ri", "Ri": "R", "RT": "RiT", "RiT": "RT"}
TR = {"S": "S", "R": "RT", "Ri": "RiT", "RT": "R", "RiT": "Ri", "Q": "QT", "QT": "Q"}


class Mat:
    def __init__(self, base, word):
        self.base = base
        w = []
        for g in word:
            if w and (w[-1] == "QT" and g == "Q" or g in INV and INV[g] == w[-1]):
                w.pop()
                continue
            w.append(g)
        self.word = tuple(w)

    @property
    def T(self):
        return Mat(self.base, [TR[g] for g in reversed(self.word)])

    def transpose(self):
        return self.T

    def copy(self):
        return self

    def __matmul__(self, o):
        o = as_mat(o)
        if o is None or o.base != self.base:
            raise Unknown("product of different matrices")
        return Mat(self.base, self.word + o.word)

    def __rmatmul__(self, o):
        o = as_mat(o)
        if o is None or o.base != self.base:
            raise Unknown("product of different matrices")
        return Mat(self.base, o.word + self.word)
    dot = __matmul__

    def inv(self):
        if any(g not in INV for g in self.word):
            if self.word == ("Q", "R"):
                n, m = self.base[0]
                if n == m:
                    return Mat(self.base, ("Ri", "QT"))
                raise Fails("the inverse of a %d x %d matrix" % (n, m))
            raise Unknown("inverse of %s" % (self.word,))
        return Mat(self.base, [INV[g] for g in reversed(self.word)])

    def det(self):
        s = j = 0
        for g in self.word:
            if g in ("Q", "QT"):
                if self.base[0][0] != self.base[0][1]:
                    if self.word == ("Q", "R"):
                        raise Fails("the determinant of a %d x %d matrix" % self.base[0])
                raise Unknown("determinant with Q")
            if g == "S":
                s += 1
            else:
                k = 1 if g in ("R", "RT") else -1
                s += 1
                j += k
        r = Poly.a(("J", self.base), j) if j else Poly.const(1)
        if s % 2:
            r = r * Poly.a(("sgn", self.base), 1)
        return E(r)

    def __eq__(self, o):
        return isinstance(o, Mat) and (self.base, self.word) == (o.base, o.word)

    def __hash__(self):
        return hash((self.base, self.word))

    def __repr__(self):
        names = {"S": "sign(diag R)", "R": "R", "Ri": "inv(R)", "RT": "R'", "RiT": "inv(R')", "Q": "Q", "QT": "Q'"}
        return " ".join(names[g] for g in self.word) or "I"


class Diag:
    """the diagonal of a triangular matrix, or its signs"""

    def __init__(self, mat, sign=False):
        self.mat, self.sign = mat, sign

    def copy(self):
        return self


def base_of(a):
    return (a.shape, tuple(repr(ent(x).p.t and sorted(ent(x).p.t.items())) for x in a.ravel()))


def as_mat(a):
    if isinstance(a, Mat):
        return a
    if isinstance(a, np.ndarray) and a.ndim == 2 and a.dtype == object:
        return Mat(base_of(a), ("Q", "R"))
    return None


class Stack:
    """one matrix for each point"""

    def __init__(self, items):
        self.items = list(items)

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        if isinstance(i, (int, np.integer)):
            return self.items[i]
        raise Unknown("part of a stack of matrices")

    def copy(self):
        return Stack(self.items)


class Rec:
    """an object with the given attributes; methods are looked up in its class"""

    def __init__(self, name, cls=None, **kw):
        self.__dict__["_n"], self.__dict__["_c"], self.__dict__["_a"] = name, cls, dict(kw)

    def __repr__(self):
        return self._n


class Ext:
    """a member of another library, by its dotted name"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


class Tok:
    """an opaque value"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Closure:
    def __init__(self, ev, node, env, module, self_=None):
        self.ev, self.node, self.env, self.module, self.self_ = ev, node, env, module, self_


BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
       ast.Mod: operator.mod, ast.Pow: operator.pow, ast.MatMult: operator.matmul}
CMP = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge, ast.Eq: operator.eq, ast.NotEq: operator.ne}
SHAPE = {"transpose", "rollaxis", "moveaxis", "swapaxes", "insert", "concatenate", "stack", "vstack", "hstack", "dot", "matmul", "tensordot",
         "sum", "squeeze", "expand_dims", "reshape", "zeros", "ones", "full", "zeros_like", "ones_like", "arange", "prod", "einsum", "array",
         "asarray", "multiply", "add", "subtract", "divide", "atleast_1d", "atleast_2d", "ravel", "outer", "append", "repeat", "tile",
         "ascontiguousarray", "identity", "eye", "copy", "take", "delete", "column_stack", "block", "split", "broadcast_to", "cumsum", "negative",
         "empty", "empty_like", "inner", "power", "abs", "absolute", "fabs", "sqrt"}


class Ev:
    def __init__(self, program, natives=None, depth=40):
        self.p = program
        self.natives = natives or {}
        self.depth = depth
        self.level = 0

    # ---- calls ---------------------------------------------------------------------------------------------------
    def call(self, f, pos=(), kw=None, self_=None):
        """run a function or method of the program"""
        kw = dict(kw or {})
        pos = list(pos)
        if isinstance(f, FuncInfo):
            node, module, env = f.node, f.module, {}
            if f.cls is not None and not f.is_static():
                pos.insert(0, self_)
        else:
            node, module, env = f.node, f.module, dict(f.env)
        self.level += 1
        if self.level > self.depth:
            raise Unknown("depth of calls")
        try:
            a = node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            local = {}
            if a.vararg is None and len(pos) > len(names):
                raise Fails("%d arguments for %d parameters" % (len(pos), len(names)), node, module)
            for n, v in zip(names, pos):
                local[n] = v
            if a.vararg is not None:
                local[a.vararg.arg] = tuple(pos[len(names):])
            extra = {}
            for k, v in kw.items():
                if k in names or k in [x.arg for x in a.kwonlyargs]:
                    local[k] = v
                elif a.kwarg is not None:
                    extra[k] = v
                else:
                    raise Fails("unknown argument %s" % k, node, module)
            if a.kwarg is not None:
                local[a.kwarg.arg] = extra
            fr = Frame(self, module, env, local)
            for n, d in list(zip(reversed(names), reversed(a.defaults))) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                if n not in local:
                    local[n] = Frame(self, module, {}, {}).ev(d)
            for n in names:
                if n not in local:
                    raise Fails("argument %s is missing" % n, node, module)
            if isinstance(node, ast.Lambda):
                return fr.ev(node.body)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
                raise Unknown("generator")
            try:
                fr.block(node.body)
            except _Return as r:
                return r.v
            return None
        finally:
            self.level -= 1

    def apply(self, f, pos, kw, node=None):
        if isinstance(f, (FuncInfo, Closure)):
            if isinstance(f, FuncInfo):
                nat = self.natives.get(f.id, self.natives.get(f.qualname))
                if nat is not None:
                    return nat(*pos, **kw)
            return self.call(f, pos, kw, getattr(f, "self_", None))
        if isinstance(f, ClassInfo):
            nat = self.natives.get(f.name)
            if nat is not None:
                return nat(*pos, **kw)
            o = Rec(f.name, f)
            init = self.p.lookup_method(f, "__init__")
            if init is not None:
                self.call(init, pos, kw, o)
            elif pos or kw:
                raise Unknown("constructor of %s" % f.name)
            return o
        if isinstance(f, Ext):
            return self.external(f.name, pos, kw)
        if callable(f):
            return self.guard(f, *pos, **kw)
        raise Unknown("call of %r" % (f,))

    def guard(self, f, *pos, **kw):
        try:
            return f(*pos, **kw)
        except (Unknown, Fails, _Return, _Break, _Continue):
            raise
        except (ValueError, IndexError) as e:
            raise Fails("%s" % e)
        except Exception as e:
            raise Unknown("%s: %s" % (type(e).__name__, e)) from e

    def external(self, name, pos, kw):
        nat = self.natives.get(name)
        if nat is not None:
            return nat(*pos, **kw)
        if name.startswith("numpy."):
            return self.numpy(name[6:], pos, kw)
        if name.startswith("operator.") and hasattr(operator, name[9:]):
            return self.guard(getattr(operator, name[9:]), *pos, **kw)
        if name == "functools.partial" and pos:
            f, first, named = pos[0], list(pos[1:]), dict(kw)
            return lambda *a, **k: self.apply(f, first + list(a), {**named, **k})
        if name.startswith("itertools.") and name[10:] in ("combinations", "permutations", "product", "chain", "accumulate", "repeat", "islice", "zip_longest"):
            if any(isinstance(x, (Rec, Tok, Ext, Mat, Stack)) for x in pos) or name[10:] in ("accumulate", "repeat"):
                raise Unknown("call of %s" % name)
            return list(self.guard(getattr(itertools, name[10:]), *pos, **kw))
        raise Unknown("call of %s" % name)

    # ---- numpy ---------------------------------------------------------------------------------------------------
    def numpy(self, fn, pos, kw):
        kw = {k: v for k, v in kw.items() if k not in ("dtype", "order", "copy")} if fn != "einsum" else dict(kw)
        if fn in ("array", "asarray", "ascontiguousarray", "stack"):
            if pos and isinstance(pos[0], Stack):
                return pos[0]
            if pos and isinstance(pos[0], Mat):
                return pos[0]
            if pos and isinstance(pos[0], (list, tuple)) and pos[0] and any(isinstance(x, Mat) for x in pos[0]):
                if all(isinstance(x, Mat) for x in pos[0]):
                    return Stack(pos[0])
                raise Unknown("matrices among other values")
        if fn == "copy" and isinstance(pos[0], (Mat, Stack)):
            return pos[0]
        if fn in ("dot", "matmul") and len(pos) == 2 and any(isinstance(x, (Mat, Stack)) for x in pos):
            return matmul(pos[0], pos[1])
        if fn in ("transpose", "swapaxes", "moveaxis", "rollaxis") and isinstance(pos[0], Mat):
            if fn == "transpose" and len(pos) == 1 or fn == "swapaxes":
                return pos[0].T
            raise Unknown(fn)
        if fn in ("transpose", "swapaxes") and isinstance(pos[0], Stack):
            ax = tuple(pos[1]) if fn == "transpose" and len(pos) > 1 else tuple(pos[1:])
            if fn == "transpose" and ax == (0, 2, 1) or fn == "swapaxes" and sorted(x % 3 for x in ax) == [1, 2]:
                return Stack(m.T for m in pos[0])
            raise Unknown("axes of a stack of matrices")
        if fn in ("diag", "diagonal"):
            v = pos[0]
            if len(pos) > 1 and pos[1] != 0:
                raise Unknown("diagonal")
            if isinstance(v, Mat):
                if any(g in ("Q", "QT") for g in v.word):
                    raise Unknown("diagonal of %r" % v)
                return Diag(v)
            if isinstance(v, Diag) and v.sign:
                if all(g in ("S", "R", "Ri", "RT", "RiT") for g in v.mat.word):
                    k = len(v.mat.word)     # each factor contributes the same signs
                    return Mat(v.mat.base, ("S",) * k)
                raise Unknown("diagonal")
            if isinstance(v, np.ndarray):
                return self.guard(np.diag, *pos)
            raise Unknown("diagonal")
        if fn == "sign":
            if isinstance(pos[0], Diag):
                return Diag(pos[0].mat, True)
            raise Unknown("sign")
        if fn == "prod" and isinstance(pos[0], Diag):
            d = pos[0].mat.det()
            if pos[0].sign:
                raise Unknown("product of signs")
            return d
        if fn in ("abs", "absolute", "fabs") and isinstance(pos[0], Diag):
            if all(g in ("R", "S") for g in pos[0].mat.word):
                w = tuple(g for g in pos[0].mat.word if g == "R")
                return Diag(Mat(pos[0].mat.base, ("S",) * len(w) + w))
            raise Unknown("diagonal")
        if fn.startswith("linalg."):
            return self.linalg(fn[7:], pos, kw)
        if fn in SHAPE:
            def clean(v):
                if isinstance(v, (Mat, Stack, Diag, Rec, Tok, Ext)):
                    raise Unknown("%r in %s" % (v, fn))
                if isinstance(v, (list, tuple)):
                    return type(v)(clean(x) for x in v)
                return v
            pos = [clean(x) for x in pos]
            if fn in ("zeros", "ones", "full", "identity", "eye", "zeros_like", "ones_like"):
                return self.guard(getattr(np, fn), *pos, **kw).astype(object)
            if fn in ("empty", "empty_like"):
                a = self.guard(getattr(np, fn), *pos, **kw)
                return arr("uninitialised", a.shape)
            if fn in ("abs", "absolute", "fabs"):
                return self.guard(np.abs, *pos, **kw)
            if fn == "einsum":
                kw.pop("optimize", None)
                pos = [np.asarray(x, dtype=object) if isinstance(x, np.ndarray) else x for x in pos]
            return self.guard(getattr(np, fn), *pos, **kw)
        raise Unknown("numpy.%s" % fn)

    def linalg(self, fn, pos, kw):
        a = pos[0]
        if isinstance(a, Stack):
            if fn in ("inv", "pinv"):
                return Stack(self.linalg(fn, [m], kw) for m in a)
            if fn == "det":
                return objarr([self.linalg(fn, [m], kw) for m in a])
            raise Unknown("linalg.%s of a stack" % fn)
        if isinstance(a, np.ndarray) and a.ndim == 3:
            if fn in ("inv", "pinv"):
                return Stack(self.linalg(fn, [m], kw) for m in a)
            if fn == "det":
                return objarr([self.linalg(fn, [m], kw) for m in a])
            if fn == "qr":
                r = [self.linalg(fn, [m], kw) for m in a]
                return Stack([x[0] for x in r]), Stack([x[1] for x in r])
            raise Unknown("linalg.%s of a stack" % fn)
        m = as_mat(a)
        if m is None:
            raise Fails("linalg.%s of an array of %s dimensions" % (fn, getattr(a, "ndim", "no")))
        if fn == "qr":
            if m.word != ("Q", "R"):
                raise Unknown("factorisation of %r" % m)
            return Mat(m.base, ("Q",)), Mat(m.base, ("R",))
        if fn == "inv":
            return m.inv()
        if fn == "pinv":
            if m.word == ("Q", "R"):
                return Mat(m.base, ("Ri", "QT"))
            return m.inv()
        if fn == "det":
            return m.det()
        raise Unknown("linalg.%s" % fn)


def objarr(items):
    out = np.empty(len(items), dtype=object)
    for i, x in enumerate(items):
        out[i] = x
    return out


def matmul(a, b):
    if isinstance(a, Stack) or isinstance(b, Stack):
        x = list(a) if isinstance(a, Stack) or isinstance(a, np.ndarray) and a.ndim == 3 else None
        y = list(b) if isinstance(b, Stack) or isinstance(b, np.ndarray) and b.ndim == 3 else None
        if x is None or y is None or len(x) != len(y):
            raise Unknown("product of a stack of matrices")
        return Stack(matmul(u, v) for u, v in zip(x, y))
    x, y = as_mat(a), as_mat(b)
    if x is None or y is None:
        raise Unknown("product of a matrix")
    return x @ y


class Frame:
    def __init__(self, ev, module, env, local):
        self.x, self.module, self.env, self.local = ev, module, env, local

    # ---- statements ----------------------------------------------------------------------------------------------
    def block(self, body):
        for st in body:
            try:
                self.stmt(st)
            except Fails as e:
                if e.node is None:
                    e.node, e.module = st, self.module
                raise

    def stmt(self, st):
        t = type(st)
        if t is ast.Return:
            raise _Return(self.ev(st.value) if st.value is not None else None)
        if t is ast.Assign:
            v = self.ev(st.value)
            for target in st.targets:
                self.assign(target, v)
        elif t is ast.AnnAssign:
            if st.value is not None:
                self.assign(st.target, self.ev(st.value))
        elif t is ast.AugAssign:
            load = ast.copy_location(_load(st.target), st.target)
            cur = self.ev(load)
            new = self.binop(type(st.op), cur, self.ev(st.value))
            if isinstance(cur, np.ndarray) and isinstance(new, np.ndarray) and isinstance(st.target, ast.Name) and cur.shape == new.shape \
                    and cur.dtype == object:
                cur[...] = new          # in place: views of the array see it
            else:
                self.assign(st.target, new)
        elif t is ast.Expr:
            if isinstance(st.value, ast.Constant) or self.prints(st):
                return
            self.ev(st.value)
        elif t is ast.If:
            try:
                c = self.truth(self.ev(st.test))
            except Unknown:
                if all(self.prints(x) for x in st.body + st.orelse):
                    return
                raise
            self.block(st.body if c else st.orelse)
        elif t is ast.For:
            done = False
            for v in self.iterate(self.ev(st.iter)):
                self.assign(st.target, v)
                try:
                    self.block(st.body)
                except _Break:
                    done = True
                    break
                except _Continue:
                    continue
            if not done:
                self.block(st.orelse)
        elif t in (ast.Import, ast.ImportFrom):
            for a in st.names:
                if t is ast.Import:
                    full = a.name if a.asname else a.name.split(".")[0]
                    if full in self.x.p.modules or any(m.startswith(full + ".") for m in self.x.p.modules):
                        raise Unknown("import in a function")
                    self.local[a.asname or full] = Ext(full)
                elif st.level or a.name == "*":
                    raise Unknown("import in a function")
                elif st.module in self.x.p.modules:
                    self.local[a.asname or a.name] = self.resolved(self.x.p.resolve_member(st.module, a.name), st)
                else:
                    self.local[a.asname or a.name] = Ext(st.module + "." + a.name)
        elif t in (ast.Pass, ast.Global, ast.Nonlocal):
            pass
        elif t is ast.Assert:
            try:
                ok = self.truth(self.ev(st.test))
            except Unknown:
                return
            if not ok:
                raise Fails("the assertion fails", st, self.module)
        elif t is ast.Break:
            raise _Break()
        elif t is ast.Continue:
            raise _Continue()
        elif t is ast.FunctionDef:
            self.local[st.name] = Closure(self.x, st, {**self.env, **self.local}, self.module)
            self.local[st.name].env[st.name] = self.local[st.name]
        elif t is ast.Raise:
            raise Fails("raises %s" % (ast.unparse(st.exc)[:60] if st.exc is not None else "again"), st, self.module)
        elif t is ast.While:
            n = 0
            while self.truth(self.ev(st.test)):
                n += 1
                if n > 200:
                    raise Unknown("loop")
                try:
                    self.block(st.body)
                except _Break:
                    return
                except _Continue:
                    continue
            self.block(st.orelse)
        elif t is ast.Delete:
            for x in st.targets:
                if isinstance(x, ast.Name):
                    self.local.pop(x.id, None)
                else:
                    raise Unknown("deletion")
        else:
            raise Unknown("statement %s" % t.__name__)

    def prints(self, st):
        return isinstance(st, ast.Pass) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and \
            st.value.func.id == "print" and st.value.func.id not in self.local

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.local[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unknown("starred target")
            items = self.iterate(v)
            if len(items) != len(t.elts):
                raise Fails("%d values for %d names" % (len(items), len(t.elts)), t, self.module)
            for x, y in zip(t.elts, items):
                self.assign(x, y)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            ix = self.index(t.slice)
            if isinstance(base, np.ndarray):
                if isinstance(v, (Mat, Stack, Diag, Tok, Rec)):
                    raise Unknown("matrix stored in an array")
                if base.dtype != object:
                    raise Unknown("store in an array of numbers")
                self.x.guard(operator.setitem, base, ix, v)
            elif isinstance(base, (list, dict)):
                self.x.guard(operator.setitem, base, ix, v)
            else:
                raise Unknown("store in %r" % (base,))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            if not isinstance(o, Rec):
                raise Unknown("attribute of %r" % (o,))
            if o._c is not None and t.attr in getattr(o._c, "setters", {}):
                self.x.call(o._c.setters[t.attr], [v], {}, o)
                return
            o._a[t.attr] = v
        else:
            raise Unknown("target")

    def truth(self, v):
        if isinstance(v, (bool, int, float, str, tuple, list, dict, np.bool_)) or v is None:
            return bool(v)
        if isinstance(v, np.ndarray) and v.dtype != object and v.size == 1:
            return bool(v)
        raise Unknown("condition")

    def iterate(self, v):
        if isinstance(v, (list, tuple, range, dict, str)):
            return list(v)
        if isinstance(v, np.ndarray):
            if v.ndim == 0:
                raise Fails("a number is taken apart")
            return list(v)
        if isinstance(v, Stack):
            return list(v)
        if isinstance(v, (zip, map, enumerate, reversed)) or hasattr(v, "__next__") or type(v).__name__ in ("dict_items", "dict_values", "dict_keys"):
            return list(v)
        raise Unknown("iteration over %r" % (v,))

    # ---- expressions ---------------------------------------------------------------------------------------------
    def ev(self, n):
        return getattr(self, "e_" + type(n).__name__, self.other)(n)

    def other(self, n):
        raise Unknown("expression %s" % type(n).__name__)

    def e_Constant(self, n):
        return n.value

    def e_JoinedStr(self, n):
        return "text"

    def e_Name(self, n):
        if n.id in self.local:
            return self.local[n.id]
        if n.id in self.env:
            return self.env[n.id]
        r = self.x.p.resolve_member(self.module.name, n.id)
        return self.resolved(r, n)

    def resolved(self, r, n):
        if r is None:
            nm = n.id if isinstance(n, ast.Name) else None
            if nm in BUILTINS:
                return BUILTINS[nm](self)
            raise Unknown("name %s" % ast.unparse(n))
        if isinstance(r, (FuncInfo, ClassInfo)):
            return r
        if r[0] == "module":
            return Ext(r[1])
        if r[0] == "external":
            return Ext(r[1] + "." + r[2])
        if r[0] == "global":
            return Frame(self.x, r[1], {}, {}).ev(r[2])
        raise Unknown("name")

    def e_Attribute(self, n):
        r = None
        root = n
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and root.id not in self.local and root.id not in self.env:
            r = self.x.p.resolve_expr(self.module, n)
            if r is not None:
                return self.resolved(r, n)
        o = self.ev(n.value)
        return self.attr(o, n.attr)

    def attr(self, o, name):
        if isinstance(o, Rec):
            if name in o._a:
                return o._a[name]
            if o._c is not None:
                p = o._c.properties.get(name)
                if p is not None:
                    return self.x.call(p, [], {}, o)
                f = self.x.p.lookup_method(o._c, name)
                if f is not None:
                    nat = self.x.natives.get("." + name)
                    if nat is not None:
                        return lambda *a, **k: nat(o, *a, **k)
                    if f.is_property():
                        return self.x.call(f, [], {}, o)
                    return lambda *a, **k: self.x.call(f, a, k, None if f.is_static() else o)
            raise Unknown("%s.%s" % (o, name))
        if isinstance(o, Ext):
            v = self.x.natives.get(o.name + "." + name)
            return Ext(o.name + "." + name)
        if isinstance(o, np.ndarray):
            if name in ("T", "shape", "ndim", "size", "flat"):
                return getattr(o, name)
            if name == "dtype":
                return Tok("dtype")
            if name in ("transpose", "reshape", "copy", "dot", "sum", "tolist", "squeeze", "swapaxes", "ravel", "flatten", "prod", "take", "fill"):
                return getattr(o, name)
            if name in ("mean", "min", "max") and "numpy." + name in self.x.natives:
                return lambda *a, **k: self.x.natives["numpy." + name](o, *a, **k)
            if name == "astype":
                return lambda *a, **k: o.copy()
            raise Unknown("array.%s" % name)
        if isinstance(o, Mat):
            if name in ("T", "transpose", "dot", "copy"):
                return getattr(o, name)
            if name == "shape":
                raise Unknown("shape of a factor")
            raise Unknown("matrix.%s" % name)
        if isinstance(o, Stack):
            if name == "copy":
                return o.copy
            raise Unknown("stack.%s" % name)
        if isinstance(o, (list, dict, tuple, str)):
            if not hasattr(o, name):
                raise Fails("a %s has no attribute %s" % (type(o).__name__, name))
            return getattr(o, name)
        if isinstance(o, Tok):
            raise Unknown("%r.%s" % (o, name))
        raise Unknown("attribute %s" % name)

    def e_Call(self, n):
        f = self.ev(n.func)
        pos, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                pos.extend(self.iterate(self.ev(a.value)))
            else:
                pos.append(self.ev(a))
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                if not isinstance(d, dict):
                    raise Unknown("** of %r" % (d,))
                kw.update(d)
            else:
                kw[k.arg] = self.ev(k.value)
        return self.x.apply(f, pos, kw, n)

    def e_Tuple(self, n):
        return tuple(self.seq(n.elts))

    def e_List(self, n):
        return list(self.seq(n.elts))

    def e_Set(self, n):
        raise Unknown("set")

    def seq(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value)))
            else:
                out.append(self.ev(e))
        return out

    def e_Dict(self, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v))
            else:
                d[self.ev(k)] = self.ev(v)
        return d

    def e_Lambda(self, n):
        return Closure(self.x, n, {**self.env, **self.local}, self.module)

    def e_IfExp(self, n):
        return self.ev(n.body if self.truth(self.ev(n.test)) else n.orelse)

    def e_BoolOp(self, n):
        stop = isinstance(n.op, ast.Or)
        v = None
        for x in n.values:
            v = self.ev(x)
            if self.truth(v) == stop:
                return v
        return v

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(n.op, ast.USub) and isinstance(v, (E, int, float, np.ndarray)):
            return -v
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unknown("operator")

    def e_BinOp(self, n):
        return self.binop(type(n.op), self.ev(n.left), self.ev(n.right))

    def binop(self, op, a, b):
        if op is ast.MatMult and any(isinstance(x, (Mat, Stack)) for x in (a, b)):
            return matmul(a, b)
        if op is ast.Mult and isinstance(a, Diag) and isinstance(b, Mat) or isinstance(a, (Mat, Diag, Stack)) or isinstance(b, (Mat, Diag, Stack)):
            raise Unknown("arithmetic with matrices")
        if op not in BIN:
            raise Unknown("operator")
        if isinstance(a, (Rec, Tok, Ext)) or isinstance(b, (Rec, Tok, Ext)):
            raise Unknown("arithmetic with %r and %r" % (a, b))
        return self.x.guard(BIN[op], a, b)

    def e_Compare(self, n):
        left = self.ev(n.left)
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c)
            r = self.compare(type(op), left, right)
            if not self.truth(r):
                return False
            left = right
        return r

    def compare(self, op, a, b):
        if op in (ast.In, ast.NotIn):
            if isinstance(b, (list, tuple, dict, str, range)):
                r = any(x is a or self.same(x, a) for x in b)
                return r if op is ast.In else not r
            raise Unknown("membership")
        if op in (ast.Is, ast.IsNot):
            r = a is b or isinstance(a, Ext) and a == b
            if not r and (a is not None and b is not None and not isinstance(a, (bool,)) and not isinstance(b, (bool,))):
                raise Unknown("identity")
            return r if op is ast.Is else not r
        if op in (ast.Eq, ast.NotEq):
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                raise Unknown("comparison of arrays")
            r = self.same(a, b)
            return r if op is ast.Eq else not r
        if any(isinstance(x, (np.ndarray, Rec, Tok, Ext, Mat, Stack)) for x in (a, b)):
            raise Unknown("comparison")
        return self.x.guard(CMP[op], a, b)

    def same(self, a, b):
        if isinstance(a, (E, Tok, Mat, Stack, np.ndarray)) or isinstance(b, (E, Tok, Mat, Stack, np.ndarray)):
            if a is b:
                return True
            raise Unknown("equality of %r and %r" % (a, b))
        return a == b

    def e_Subscript(self, n):
        o = self.ev(n.value)
        ix = self.index(n.slice)
        if isinstance(o, Rec):
            g = o._a.get("[]")
            if g is None:
                raise Unknown("%s[...]" % o)
            return g(ix)
        if isinstance(o, np.ndarray):
            ix = tuple(np.asarray(i) if isinstance(i, list) else i for i in ix) if isinstance(ix, tuple) else ix
            if isinstance(ix, tuple) and any(isinstance(i, (Rec, Tok)) for i in ix) or isinstance(ix, (Rec, Tok)):
                raise Unknown("index")
            return self.x.guard(operator.getitem, o, ix)
        if isinstance(o, (list, tuple, dict, str, Stack)):
            if isinstance(o, dict):
                if ix not in o:
                    raise Fails("no entry %r" % (ix,))
                return o[ix]
            return self.x.guard(operator.getitem, o, ix)
        raise Unknown("part of %r" % (o,))

    def index(self, s):
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x) for x in s.elts)
        if isinstance(s, ast.Slice):
            return slice(*(self.ev(x) if x is not None else None for x in (s.lower, s.upper, s.step)))
        v = self.ev(s)
        if isinstance(v, Ext) and v.name == "numpy.newaxis":
            return None
        return v

    def comp(self, gens, out, env):
        if not gens:
            return out(env)
        g = gens[0]
        for v in env.iterate(env.ev(g.iter)):
            env.assign(g.target, v)
            if all(env.truth(env.ev(c)) for c in g.ifs):
                self.comp(gens[1:], out, env)

    def scope(self):
        return Frame(self.x, self.module, self.env, dict(self.local))

    def e_ListComp(self, n):
        res = []
        self.comp(n.generators, lambda fr: res.append(fr.ev(n.elt)), self.scope())
        return res

    e_GeneratorExp = e_ListComp

    def e_DictComp(self, n):
        res = {}

        def put(fr):
            res[fr.ev(n.key)] = fr.ev(n.value)
        self.comp(n.generators, put, self.scope())
        return res


def _load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())


def _zip(fr):
    return lambda *a: list(zip(*[fr.iterate(x) for x in a]))


BUILTINS = {
    "range": lambda fr: range,
    "len": lambda fr: lambda v: len(v) if not isinstance(v, (Rec, Tok)) else (_ for _ in ()).throw(Unknown("length")),
    "list": lambda fr: lambda v=(): fr.iterate(v),
    "tuple": lambda fr: lambda v=(): tuple(fr.iterate(v)),
    "dict": lambda fr: lambda *a, **k: dict(*[fr.iterate(x) if not isinstance(x, dict) else x for x in a], **k),
    "zip": _zip,
    "enumerate": lambda fr: lambda v, start=0: list(enumerate(fr.iterate(v), start)),
    "map": lambda fr: lambda f, *a: [fr.x.apply(f, list(t), {}) for t in zip(*[fr.iterate(x) for x in a])],
    "filter": lambda fr: lambda f, v: [x for x in fr.iterate(v) if fr.truth(fr.x.apply(f, [x], {}) if f is not None else x)],
    "reversed": lambda fr: lambda v: fr.iterate(v)[::-1],
    "print": lambda fr: lambda *a, **k: None,
    "float": lambda fr: lambda v: v,
    "int": lambda fr: lambda v: int(v) if isinstance(v, (int, float, bool)) else (_ for _ in ()).throw(Unknown("int")),
    "abs": lambda fr: fr.x.natives.get("builtins.abs", abs),
    "sum": lambda fr: lambda v, s=0: sum(fr.iterate(v), s),
    "max": lambda fr: fr.x.natives.get("builtins.max", max),
    "min": lambda fr: fr.x.natives.get("builtins.min", min),
    "any": lambda fr: lambda v: any(fr.truth(x) for x in fr.iterate(v)),
    "all": lambda fr: lambda v: all(fr.truth(x) for x in fr.iterate(v)),
    "bool": lambda fr: lambda v: fr.truth(v),
    "str": lambda fr: str,
    "isinstance": lambda fr: lambda *a: (_ for _ in ()).throw(Unknown("isinstance")),
}
