"""Value terms of the library's bookkeeping code.

Abstract interpreter over value terms (global value numbering): scalars are polynomials over opaque atoms, lists and
arrays are sequences of segments (bound indices, guards, element), loops over unknown sequences are summarised by
one generic iteration, so that a list built in a loop, by a comprehension, by map or by repeat/tile/concatenate gets
the same term. Branches outside loops partition the analysis; inside loops they become guards."""
import ast
import itertools

from .core import FuncInfo, ClassInfo, loc


class Unknown(Exception):
    def __init__(self, why, node=None):
        super().__init__(why)
        self.why, self.node = why, node


class Raised(Exception):
    def __init__(self, what, node=None, module=None):
        super().__init__(what)
        self.what, self.node, self.module = what, node, module


class _Flow(Exception):
    pass


def K(v):
    return ("k", type(v).__name__, v)


def whole(t):
    """0.0 and 0 compare equal"""
    return K(int(t[2])) if is_k(t) and isinstance(t[2], float) and t[2].is_integer() else t


def is_k(t):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == "k"


NONE = K(None)
TRUE, FALSE = K(True), K(False)


# ---- polynomials ---------------------------------------------------------
def _mons(t):
    if is_k(t) and isinstance(t[2], (int, float)):
        return {(): t[2]} if t[2] != 0 else {}
    if isinstance(t, tuple) and t[0] == "poly":
        return dict(t[1])
    return {(t,): 1}


def _build(m):
    m = {k: v for k, v in m.items() if v != 0}
    if not m:
        return K(0)
    if list(m) == [()]:
        return K(m[()])
    if len(m) == 1:
        (mono, c), = m.items()
        if c == 1 and len(mono) == 1:
            return mono[0]
    return ("poly", tuple(sorted(m.items(), key=repr)))


def add(a, b, s=1):
    m = _mons(a)
    m = dict(m)
    for k, v in _mons(b).items():
        m[k] = m.get(k, 0) + s * v
    return _build(m)


def mul(a, b):
    m = {}
    for k1, v1 in _mons(a).items():
        for k2, v2 in _mons(b).items():
            k = tuple(sorted(k1 + k2, key=repr))
            m[k] = m.get(k, 0) + v1 * v2
    return _build(m)


def neg(c):
    if is_k(c):
        return K(not c[2])
    if isinstance(c, tuple) and c[0] == "not":
        return c[1]
    return ("not", c)


# ---- values --------------------------------------------------------------
class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class L:
    """list or array: segments (binders, guards, value); a value ("splice", v) stands for all elements of v"""
    _n = itertools.count()

    def __init__(self, segs=(), arr=False, depth=(0, 0)):
        self.segs = list(segs)
        self.arr = arr
        self.depth = depth
        self.id = next(L._n)
        self.over = []
        self.unique = False      # a set: an item that is there is not added again

    def plain(self):
        return all(not b and not g and not is_splice(v) for b, g, v in self.segs)


class D:
    """dict built by the code: entries (binders, guards, key, value)"""
    def __init__(self, entries=(), depth=(0, 0)):
        self.entries = list(entries)
        self.depth = depth


class O:
    _n = itertools.count()

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.id = next(O._n)


class Fn:
    def __init__(self, info, env=None, self_=None):
        self.info, self.env, self.self_ = info, env, self_


class Local:
    """nested function or lambda"""
    def __init__(self, node, env, f):
        self.node, self.env, self.f = node, env, f


class Part:
    def __init__(self, fn, pos, kw):
        self.fn, self.pos, self.kw = fn, pos, kw


class Ext:
    def __init__(self, name):
        self.name = name


class View:
    def __init__(self, base, kind):
        self.base, self.kind = base, kind


class Meth:
    def __init__(self, base, name):
        self.base, self.name = base, name


def is_splice(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == "splice"


def subst(t, m):
    if isinstance(t, tuple):
        if t in m:
            return m[t]
        if t and t[0] == "poly":
            r = K(0)
            for mono, c in t[1]:
                p = K(c)
                for a in mono:
                    p = mul(p, subst(a, m))
                r = add(r, p)
            return r
        if is_k(t):
            return t
        r = tuple(subst(x, m) if isinstance(x, (tuple, L, D, Tup)) else x for x in t)
        return simplify(r) if r != t else t
    if isinstance(t, Tup):
        return Tup(subst(x, m) for x in t.items)
    if isinstance(t, L):
        n = L([(tuple((b, subst(c, m)) for b, c in bs), tuple(subst(g, m) for g in gs), subst(v, m)) for bs, gs, v in t.segs], t.arr, t.depth)
        n.over = [(subst(i, m), subst(v, m), subst(g, m)) for i, v, g in t.over]
        return n
    if isinstance(t, D):
        return D([(tuple((b, subst(c, m)) for b, c in bs), tuple(subst(g, m) for g in gs), subst(k, m), subst(v, m)) for bs, gs, k, v in t.entries], t.depth)
    return t


def simplify(t):
    """re-apply the index rules after a substitution"""
    if t and t[0] == "get" and len(t) == 3:
        return get_term(t[1], t[2])
    return t


def freeze(v, ren=None, n=0):
    """hashable canonical form; bound indices are numbered by nesting"""
    ren = ren or {}
    if isinstance(v, L):
        out = []
        for bs, gs, x in v.segs:
            r, k, bb = dict(ren), n, []
            for b, c in bs:
                bb.append(freeze(c, r, k))
                r[("bv", b)] = ("bv", "#%d" % k)
                k += 1
            out.append((tuple(bb), tuple(sorted((freeze(g, r, k) for g in gs), key=repr)), freeze(x, r, k)))
        over = tuple((freeze(i, ren, n), freeze(x, ren, n), freeze(g, ren, n)) for i, x, g in v.over)
        if len(out) == 1 and not out[0][0] and not out[0][1] and is_splice(out[0][2]) and not over:
            return out[0][2][1]
        # a list that copies another sequence element by element is that sequence
        if len(out) == 1 and len(out[0][0]) == 1 and not out[0][1] and not over and isinstance(out[0][2], tuple) and \
                out[0][2][0] == "get" and out[0][2][2] == ("bv", "#%d" % n) and out[0][0][0] == ("len", out[0][2][1]):
            return out[0][2][1]
        return ("list", tuple(out)) + ((over,) if over else ())
    if isinstance(v, D):
        out = []
        for bs, gs, key, x in v.entries:
            r, k, bb = dict(ren), n, []
            for b, c in bs:
                bb.append(freeze(c, r, k))
                r[("bv", b)] = ("bv", "#%d" % k)
                k += 1
            out.append((tuple(bb), tuple(sorted((freeze(g, r, k) for g in gs), key=repr)), freeze(key, r, k), freeze(x, r, k)))
        return ("dict", tuple(out))
    if isinstance(v, Tup):
        return ("tup",) + tuple(freeze(x, ren, n) for x in v.items)
    if isinstance(v, O):
        return ("obj", v.cls.name, v.id)
    if isinstance(v, Part):
        return ("partial", freeze(v.fn, ren, n), tuple(freeze(x, ren, n) for x in v.pos),
                tuple(sorted((k, freeze(x, ren, n)) for k, x in v.kw.items())))
    if isinstance(v, Fn):
        return ("fn", v.info.id, freeze(v.self_, ren, n) if v.self_ is not None else None)
    if isinstance(v, ClassInfo):
        return ("class", v.name)
    if isinstance(v, Ext):
        return ("ext", v.name)
    if isinstance(v, View):
        return ("view", freeze(v.base, ren, n), v.kind)
    if isinstance(v, Meth):
        return ("meth", freeze(v.base, ren, n), v.name)
    if isinstance(v, Local):
        return ("local", getattr(v.node, "lineno", 0), getattr(v.node, "col_offset", 0))
    if isinstance(v, tuple):
        if v in ren:
            return ren[v]
        if v and v[0] == "poly":
            r = K(0)
            for mono, c in v[1]:
                p = K(c)
                for a in mono:
                    p = mul(p, freeze(a, ren, n))
                r = add(r, p)
            return r
        if is_k(v):
            return v
        return tuple(freeze(x, ren, n) if not isinstance(x, (str, int, float, type(None))) else x for x in v)
    if v is None or isinstance(v, (str, int, float)):
        return v
    raise Unknown("value of kind %s in a term" % type(v).__name__)


def get_term(base, i):
    """index into an opaque array term"""
    if isinstance(base, tuple):
        if base[0] == "repeat":
            return get_term(base[1], ("div", i, base[2]))
        if base[0] == "tile":
            return get_term(base[1], ("mod", i, ("len", base[1])))
        if base[0] == "ravel":
            m = base[1]
            return ("get", m, Tup2(("div", i, ("shape", m, 1)), ("mod", i, ("shape", m, 1))))
        if base[0] == "range" and len(base) == 3:
            return add(base[1], i)
        if base[0] == "keys":
            return ("key", base[1], i)
        if base[0] == "values":
            return ("val", base[1], i)
        if base[0] == "get" and isinstance(base[2], tuple) and base[2][0] == "slice" and isinstance(i, tuple) and i[0] not in ("slice", "tup", "list"):
            lo, hi, st = base[2][1:]
            if st in (NONE, K(1)) and not (is_k(lo) and lo[2] is not None and lo[2] < 0) and (not is_k(i) or i[2] >= 0):
                return get_term(base[1], i if lo == NONE else add(lo, i))
    return ("get", base, i)


def Tup2(a, b):
    return ("tup", a, b)


def atoms(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            out.add(t[0])
        for x in t:
            atoms(x, out)
    return out


def has(t, what):
    if t == what:
        return True
    if isinstance(t, tuple):
        return any(has(x, what) for x in t)
    if isinstance(t, Tup):
        return any(has(x, what) for x in t.items)
    if isinstance(t, L):
        return any(has(v, what) or any(has(g, what) for g in gs) for _, gs, v in t.segs)
    return False


class Frame:
    def __init__(self, f, env, nb, ng):
        self.f, self.env, self.nb, self.ng = f, env, nb, ng
        self.rets = []
        self.loops = 0
        self.conts = []


IGNORED = {"print"}
IDENTITY_CALLS = {"np.array", "np.asarray", "np.ascontiguousarray", "copy.copy", "copy.deepcopy", "np.copy", "float", "str"}


MUTATE = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "setdefault", "popitem"}


class Interp:
    def __init__(self, program, decisions=(), opaque=(), types=None, dicts=(), natives=None, depth=16):
        self.p = program
        self.dec = list(decisions)
        self.taken = []
        self.forks = []
        self.facts = {}
        self.lower = {}          # terms with a known lower bound
        self.ints = set()        # terms known to be integers
        self.order = {}          # terms whose relative order is known: term -> rank
        self.memory = {}         # symbolic containers whose elements are remembered: base -> {index: value}, default under None
        self.binders, self.guards = [], []
        self.effects, self.calls, self.creates = [], [], []
        self.opaque = set(opaque)
        self.types = types or {}
        self.dicts = set(dicts)
        self.natives = natives or {}
        self.bid = itertools.count(1)
        self.frames = []
        self.maxdepth = depth
        self.store = {}
        self.loopbase = 0
        self.heap = []
        self.steps = 0

    # ---- helpers ----------------------------------------------------------
    def mk(self, segs=(), arr=False):
        v = L(segs, arr, (len(self.binders), len(self.guards)))
        self.heap.append(v)
        return v

    def mkd(self):
        v = D((), (len(self.binders), len(self.guards)))
        self.heap.append(v)
        return v

    def concrete(self, items, arr=False):
        return self.mk([((), (), x) for x in items], arr)

    @property
    def fr(self):
        return self.frames[-1]

    def rel(self, depth):
        return tuple(self.binders[depth[0]:]), tuple(self.guards[depth[1]:])

    def where(self, node):
        return (self.fr.f.module, node)

    def effect(self, kind, target, idx, value, node):
        self.effects.append({"kind": kind, "target": target, "idx": idx, "value": value, "binders": tuple(self.binders),
                             "guards": tuple(self.guards), "node": node, "module": self.fr.f.module, "f": self.fr.f})

    # ---- decisions --------------------------------------------------------
    def truth(self, c):
        """True / False / None"""
        if isinstance(c, (L, View)):
            if isinstance(c, L):
                if c.plain():
                    return len(c.segs) > 0
                if any(not b and not g and not is_splice(v) for b, g, v in c.segs):
                    return True
            return None
        if isinstance(c, Tup):
            return len(c.items) > 0
        if isinstance(c, D):
            return len(c.entries) > 0 if all(not b and not g for b, g, _, _ in c.entries) else None
        if isinstance(c, (O, Fn, Part, Ext, ClassInfo, Local)):
            return True
        if is_k(c):
            return bool(c[2])
        if isinstance(c, tuple) and c[0] == "not":
            t = self.truth(c[1])
            return None if t is None else not t
        if isinstance(c, tuple) and c[0] == "and":
            ts = [self.truth(x) for x in c[1:]]
            return False if False in ts else (True if all(t is True for t in ts) else None)
        if isinstance(c, tuple) and c[0] == "or":
            ts = [self.truth(x) for x in c[1:]]
            return True if True in ts else (False if all(t is False for t in ts) else None)
        if c in self.facts:
            return self.facts[c]
        if self.lower and isinstance(c, tuple):
            if c[0] == "eq" and len(c) == 3 and (self.lb(add(c[1], c[2], -1)) > 0 or self.lb(add(c[2], c[1], -1)) > 0):
                return False
            if c[0] == "lt" and len(c) == 3:
                if self.lb(add(c[2], c[1], -1)) > 0:
                    return True
                if self.lb(add(c[1], c[2], -1)) >= 0:
                    return False
            if c[0] == "nonempty" and self.lb(("len", c[1])) > 0:
                return True
            if c[0] in ("poly", "len", "sym", "get", "m", "attr", "call") and self.lb(c) > 0:
                return True
        if c in self.guards:
            return True
        if neg(c) in self.guards:
            return False
        return None

    def lb(self, t):
        """lower bound of a number (-inf when unknown)"""
        if t in self.lower:
            return self.lower[t]
        if is_k(t):
            return t[2] if isinstance(t[2], (int, float)) else float("-inf")
        if isinstance(t, tuple) and t[0] in ("len", "count", "abs"):
            return 0
        if isinstance(t, tuple) and t[0] == "poly":
            r = 0
            for mono, c in t[1]:
                p = c
                for a in mono:
                    x = self.lb(a)
                    if x < 0 or c < 0:
                        return float("-inf")
                    p *= x
                r += p
            return r
        return float("-inf")

    def decide(self, c, node):
        c = self.cond_term(c)
        t = self.truth(c)
        if t is not None:
            return t
        if self.binders:
            raise Unknown("undecided branch inside a loop", node)
        n = len(self.taken)
        val = self.dec[n] if n < len(self.dec) else True
        if n >= len(self.dec):
            self.forks.append(self.taken + [False])
        self.taken.append(val)
        self.assume(c, val)
        return val

    def assume(self, c, val):
        if isinstance(c, tuple) and c[0] == "not":
            return self.assume(c[1], not val)
        self.facts[c] = val
        if isinstance(c, tuple) and c[0] == "and" and val:
            for x in c[1:]:
                self.assume(x, True)
        if isinstance(c, tuple) and c[0] == "or" and not val:
            for x in c[1:]:
                self.assume(x, False)

    def cond_term(self, c):
        if isinstance(c, (L, Tup, D, View)):
            t = self.truth(c)
            if t is not None:
                return K(t)
            return ("nonempty", freeze(c))
        if isinstance(c, (O, Fn, Part, Ext, ClassInfo, Local, Meth)):
            return TRUE
        return c

    # ---- functions --------------------------------------------------------
    def call_function(self, f, pos, kw, node=None, self_=None, env=None):
        if len(self.frames) > self.maxdepth:
            raise Unknown("calls nested too deeply", node)
        if sum(1 for fr in self.frames if fr.f is f) > 2:
            raise Unknown("recursion", node)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if self_ is not None:
            pos = [self_] + list(pos)
        local = dict(env or {})
        if len(pos) > len(names) and not a.vararg:
            raise Raised("TypeError", node, f.module)
        for n, v in zip(names, pos):
            local[n] = v
        if a.vararg:
            local[a.vararg.arg] = Tup(pos[len(names):])
        extra = {}
        for k, v in kw.items():
            if k in names[len(pos):] or k in [x.arg for x in a.kwonlyargs]:
                local[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise Raised("TypeError", node, f.module)
        if a.kwarg:
            d = self.mkd()
            for k, v in extra.items():
                d.entries.append(((), (), K(k), v))
            local[a.kwarg.arg] = d
        fr = Frame(f, local, len(self.binders), len(self.guards))
        self.frames.append(fr)
        saved = self.loopbase
        self.loopbase = len(self.binders)
        try:
            dn = names[len(names) - len(a.defaults):]
            for n, dv in list(zip(dn, a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                if n not in local:
                    local[n] = self.ev(dv)
            for n in names:
                if n not in local:
                    raise Raised("TypeError", node, f.module)
            st = self.block(f.node.body)
            if st and st[0] == "raise" and len(self.guards) == fr.ng:
                raise Raised(st[1], st[2], f.module)
            v = st[1] if st and st[0] == "return" else NONE
            for c, r in reversed(fr.rets):
                v = self.ite(c, r, v)
            return v
        finally:
            del self.guards[fr.ng:]
            self.frames.pop()
            self.loopbase = saved

    def ite(self, c, a, b):
        if a is b:
            return a
        try:
            fa, fb = freeze(a), freeze(b)
        except Unknown:
            raise Unknown("two different values under a condition")
        if fa == fb:
            return a
        t = self.truth(c)
        if t is not None:
            return a if t else b
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup(self.ite(c, x, y) for x, y in zip(a.items, b.items))
        if isinstance(c, tuple) and c[0] == "not":
            return self.ite(c[1], b, a)
        return ("ite", c, fa, fb)

    # ---- statements -------------------------------------------------------
    def block(self, stmts):
        for s in stmts:
            st = self.stmt(s)
            if st is not None:
                return st
        return None

    def stmt(self, n):
        self.steps += 1
        if self.steps > 60000:
            raise Unknown("too many steps", n)
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Unknown("statement %s" % type(n).__name__, n)
        return m(n)

    def s_Pass(self, n):
        return None

    s_Import = s_Global = s_Nonlocal = s_Pass

    def s_ImportFrom(self, n):
        for a in n.names:
            r = self.p.resolve_member(n.module, a.name) if n.module in self.p.modules else ("external", n.module, a.name)
            self.fr.env[a.asname or a.name] = self.resolved(r, n)
        return None

    def s_Import(self, n):
        for a in n.names:
            if a.name in self.p.modules:
                self.fr.env[a.asname or a.name.split(".")[0]] = ("module", a.name)
            else:
                self.fr.env[a.asname or a.name.split(".")[0]] = Ext(canon_module(a.name if a.asname else a.name.split(".")[0]))
        return None

    def s_FunctionDef(self, n):
        self.fr.env[n.name] = Local(n, self.fr.env, self.fr.f)
        return None

    def s_ClassDef(self, n):
        raise Unknown("local class", n)

    def s_Expr(self, n):
        if isinstance(n.value, (ast.Constant, ast.GeneratorExp)):
            return None
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in ("map", "filter", "zip"):
            f = self.name(n.value.func)
            if isinstance(f, Ext) and f.name.startswith("builtins."):
                return None     # lazy: nothing is evaluated
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and isinstance(n.value.func.value, ast.IfExp):
            x = n.value.func.value
            def one(v):
                c = ast.Call(ast.Attribute(v, n.value.func.attr, ast.Load()), n.value.args, n.value.keywords)
                return [ast.fix_missing_locations(ast.copy_location(ast.Expr(ast.copy_location(c, n)), n))]
            return self.stmt(ast.copy_location(ast.If(x.test, one(x.body), one(x.orelse)), n))
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and isinstance(n.value.func.value, ast.Name) and \
                n.value.func.attr in ("append", "extend") and len(n.value.args) == 1 and not n.value.keywords:
            # the variable is carried through a loop: the call is the same as adding a list to it
            name = n.value.func.value.id
            cur = self.fr.env.get(name)
            if isinstance(cur, tuple) and cur and cur[0] == "phi":
                v = self.ev(n.value.args[0])
                if n.value.func.attr == "append":
                    v = self.mk([((), (), v)])
                self.fr.env[name] = self.binop(ast.Add(), cur, v, n)
                return None
        self.ev(n.value)
        return None

    def s_Return(self, n):
        v = self.ev(n.value) if n.value is not None else NONE
        if self.fr.loops:
            raise Unknown("return inside a loop", n)
        return ("return", v)

    def s_Raise(self, n):
        what = "Exception"
        e = n.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            what = e.id
        return ("raise", what, n)

    def s_Continue(self, n):
        return ("continue",)

    def s_Break(self, n):
        return ("break",)

    def s_Assert(self, n):
        c = self.cond_term(self.ev(n.test))
        t = self.truth(c)
        if t is False:
            return ("raise", "AssertionError", n)
        if t is None and not self.binders:
            self.assume(c, True)
        return None

    def s_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.fr.env.pop(t.id, None)
            else:
                raise Unknown("del", n)
        return None

    def s_With(self, n):
        for i in n.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, n)
        return self.block(n.body)

    def s_Try(self, n):
        try:
            st = self.block(n.body)
        except Raised as r:
            st = ("raise", r.what, r.node)
        if st is not None and st[0] == "raise" and n.handlers:
            for h in n.handlers:
                names = [ast.unparse(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type else ["Exception"]
                if "Exception" in names or st[1] in names or "BaseException" in names:
                    st = self.block(h.body)
                    break
        elif st is None and n.orelse:
            st = self.block(n.orelse)
        if n.finalbody:
            st2 = self.block(n.finalbody)
            st = st2 or st
        return st

    def s_Assign(self, n):
        v = self.ev(n.value)
        for t in n.targets:
            self.assign(t, v, n)
        return None

    def s_AnnAssign(self, n):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value), n)
        return None

    def s_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            cur = self.name(n.target)
            v = self.ev(n.value)
            if isinstance(cur, L) and isinstance(n.op, ast.Add) and not cur.arr:
                self.extend(cur, v, n)
                return None
            r = self.binop(n.op, cur, v, n)
            if isinstance(cur, L) and cur.arr and isinstance(r, L):
                cur.segs = r.segs
                return None
            self.fr.env[n.target.id] = r
            return None
        if isinstance(n.target, ast.Attribute):
            base = self.ev(n.target.value)
            cur = self.attr(base, n.target.attr, n)
            v = self.ev(n.value)
            self.set_attr(base, n.target.attr, self.binop(n.op, cur, v, n), n)
            return None
        if isinstance(n.target, ast.Subscript):
            base = self.ev(n.target.value)
            idx = self.index(n.target.slice)
            v = self.ev(n.value)
            if isinstance(base, (L, D)):
                cur = self.subscript(base, idx, n)
                self.store_sub(base, idx, self.binop(n.op, cur, v, n), n)
            else:
                self.effect({ast.Add: "+=", ast.Sub: "-="}.get(type(n.op), "op="), base, idx, v, n)
            return None
        raise Unknown("augmented assignment", n)

    def assign(self, t, v, n):
        if isinstance(t, ast.Name):
            self.fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                raise Unknown("starred assignment", n)
            for e, x in zip(t.elts, self.unpack(v, len(t.elts), n)):
                self.assign(e, x, n)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.ev(t.value), t.attr, v, n)
        elif isinstance(t, ast.Subscript):
            self.store_sub(self.ev(t.value), self.index(t.slice), v, n)
        else:
            raise Unknown("assignment target", n)

    def unpack(self, v, k, n):
        if isinstance(v, Tup):
            if len(v.items) != k:
                raise Raised("ValueError", n, self.fr.f.module)
            return v.items
        if isinstance(v, L) and v.plain():
            if len(v.segs) != k:
                raise Raised("ValueError", n, self.fr.f.module)
            return [x for _, _, x in v.segs]
        if isinstance(v, tuple) and v[0] == "ite":
            a, b = [self.unpack(self.thaw(x), k, n) for x in v[2:]]
            return [self.ite(v[1], x, y) for x, y in zip(a, b)]
        return [self.subscript(v, K(i), n) for i in range(k)]

    def thaw(self, t):
        if isinstance(t, tuple) and t and t[0] == "tup":
            return Tup(self.thaw(x) for x in t[1:])
        return t

    def set_attr(self, base, name, v, n):
        if isinstance(base, O):
            s = None
            for c in self.p.mro(base.cls):
                if name in c.setters:
                    s = c.setters[name]
                    break
            if s is not None:
                self.call_function(s, [v], {}, n, self_=base)
                return
            if self.guards[self.fr.ng:] or len(self.binders) > self.loopbase:
                pass
            base.attrs[name] = v
            self.effect("setattr", base, K(name), v, n)
            return
        if isinstance(base, tuple):
            cls = self.types.get(base)
            if cls is not None:
                for c in self.p.mro(cls):
                    if name in c.setters:
                        self.call_function(c.setters[name], [v], {}, n, self_=base)
                        return
            self.effect("setattr", base, K(name), v, n)
            self.store[(base, name)] = v
            return
        raise Unknown("attribute store", n)

    def store_sub(self, base, idx, v, n):
        if isinstance(base, D):
            bs, gs = self.rel(base.depth)
            if not bs and not gs:
                try:
                    fk = freeze(idx)
                    for i, (b, g, k, x) in enumerate(base.entries):
                        if not b and not g and freeze(k) == fk:
                            base.entries[i] = (b, g, k, v)
                            return
                except Unknown:
                    pass
            base.entries.append((bs, gs, idx, v))
            self.effect("dictset", base, idx, v, n)
            return
        if isinstance(base, L):
            bs, gs = self.rel(base.depth)
            if not bs and not gs and base.plain() and is_k(idx) and isinstance(idx[2], int) and -len(base.segs) <= idx[2] < len(base.segs):
                i = idx[2]
                base.segs[i] = ((), (), v)
                return
            if not bs and not gs and base.plain() and not base.over and is_k(idx) and type(idx[2]) is int:
                raise Raised("IndexError", n, self.fr.f.module)
            # overwrite of one element of a generic list: remembered for the comparison
            self.effect("=", base, idx, v, n)
            base.over.append((freeze(idx), freeze(v) if not isinstance(v, (L, D, O)) else ("value",), freeze(gs[0]) if len(gs) == 1 else ("g",) + tuple(freeze(g) for g in gs)))
            return
        if isinstance(base, tuple) or isinstance(base, O):
            self.effect("=", base, idx, v, n)
            if base in self.memory:
                self.memory[base][freeze(idx)] = v
            return
        raise Unknown("subscript store", n)

    def s_If(self, n):
        c = self.cond_term(self.ev(n.test))
        t = self.truth(c)
        if t is None and len(self.binders) == 0:
            t = self.decide(c, n)
        if t is not None:
            return self.block(n.body if t else n.orelse)
        return self.guarded(c, lambda: self.block(n.body), lambda: self.block(n.orelse), n)

    def guarded(self, c, yes, no, n):
        env0 = dict(self.fr.env)
        g0 = len(self.guards)
        self.guards.append(c)
        s1 = yes()
        e1 = dict(self.fr.env)
        del self.guards[g0:]
        self.fr.env.clear()
        self.fr.env.update(env0)
        self.guards.append(neg(c))
        s2 = no()
        e2 = dict(self.fr.env)
        del self.guards[g0:]
        if s1 is None and s2 is None:
            self.merge_env(c, e1, e2)
            return None
        if s1 is not None and s2 is not None:
            if s1[0] == s2[0] == "return":
                return ("return", self.ite(c, s1[1], s2[1]))
            if s1[0] == s2[0] and s1[0] in ("continue", "raise"):
                self.merge_env(c, e1, e2)
                return s1
            first, rest, cc, ef, er = (s1, s2, c, e1, e2)
            self.leave(first, cc, ef, n)
            self.fr.env.clear()
            self.fr.env.update(er)
            self.guards.append(neg(cc))
            return rest
        first, cc, ef, er = (s1, c, e1, e2) if s1 is not None else (s2, neg(c), e2, e1)
        self.leave(first, cc, ef, n)
        self.fr.env.clear()
        self.fr.env.update(er)
        self.guards.append(neg(cc))
        return None

    def leave(self, st, c, env, n):
        if st[0] == "return":
            self.fr.rets.append((c, st[1]))
        elif st[0] == "continue":
            self.fr.conts.append((c, env))
        elif st[0] == "raise":
            pass
        else:
            raise Unknown("break inside a loop over an unknown sequence", n)

    def merge_env(self, c, e1, e2):
        out = {}
        for k in set(e1) | set(e2):
            if k in e1 and k in e2:
                try:
                    out[k] = self.ite(c, e1[k], e2[k])
                except Unknown as u:
                    out[k] = ("?", u.why)
            else:
                out[k] = ("?", "bound on one branch only") if k not in e1 or k not in e2 else None
                v = e1.get(k, e2.get(k))
                out[k] = v
        self.fr.env.clear()
        self.fr.env.update(out)

    def s_While(self, n):
        for _ in range(200):
            c = self.cond_term(self.ev(n.test))
            t = self.truth(c)
            if t is None:
                raise Unknown("while loop", n)
            if not t:
                return self.block(n.orelse)
            st = self.block(n.body)
            if st is not None:
                if st[0] == "break":
                    return None
                if st[0] != "continue":
                    return st
        raise Unknown("while loop", n)

    def s_For(self, n):
        it = self.ev(n.iter)
        for bs, gs, v in self.elements(it, n):
            if not bs and not gs:
                self.assign(n.target, v, n)
                self.fr.loops += 0
                mark = len(self.guards)
                st = self.block(n.body)
                if len(self.guards) > mark and st is None and self.fr.conts:
                    # a guarded continue in an unrolled iteration
                    conts, self.fr.conts = self.fr.conts, []
                    del self.guards[mark:]
                    for c, env in reversed(conts):
                        self.merge_env(c, env, dict(self.fr.env))
                if st is not None:
                    if st[0] == "break":
                        return None
                    if st[0] != "continue":
                        return st
                continue
            self.generic(bs, gs, n, v)
        if n.orelse:
            return self.block(n.orelse)
        return None

    def generic(self, bs, gs, n, v):
        assigned = set()
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    assigned.add(x.id)
        env = self.fr.env
        b0 = {}
        bid = bs[-1][0] if bs else None
        for x in ast.walk(n.target):
            if isinstance(x, ast.Name):
                assigned.discard(x.id)
        for a in sorted(assigned):
            if a in env:
                b0[a] = env[a]
                env[a] = ("phi", bid, a)
        nb, ng = len(self.binders), len(self.guards)
        self.binders.extend(bs)
        self.guards.extend(gs)
        g1 = len(self.guards)
        conts, self.fr.conts = self.fr.conts, []
        e0, c0 = len(self.effects), len(self.calls)
        self.fr.loops += 1
        try:
            self.assign(n.target, v, n)
            st = self.block(n.body)
        finally:
            self.fr.loops -= 1
        if st is not None and st[0] in ("break", "return"):
            raise Unknown("%s inside a loop over an unknown sequence" % st[0], n)
        del self.guards[g1:]
        for c, e in reversed(self.fr.conts):
            self.merge_env(c, e, dict(self.fr.env))
        self.fr.conts = conts
        del self.binders[nb:]
        del self.guards[ng:]
        env = self.fr.env
        if len(bs) == 1 and not gs and bs[0][1] is not None:
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name) and isinstance(env.get(x.id), tuple) and has(env[x.id], ("bv", bid)):
                    env[x.id] = subst(env[x.id], {("bv", bid): add(bs[0][1], K(-1))})
        sub = {}
        for a, v0 in b0.items():
            phi = ("phi", bid, a)
            v1 = env.get(a)
            if v1 == phi:
                env[a] = v0
                sub[phi] = v0
                continue
            d = self.delta(v1, phi)
            if d is not None and not self.any_phi(d, bid):
                for g in gs:
                    d = ("ite", g, d, K(0)) if not (isinstance(g, tuple) and g[0] == "not") else ("ite", g[1], K(0), d)
                total, pre = d, None
                if len(bs) == 1:
                    pre = self.psum(bs[0], d)
                for b in reversed(bs):
                    total = self.sum_over(b, total)
                env[a] = self.binop(ast.Add(), v0, total, n)
                if pre is not None:
                    sub[phi] = self.binop(ast.Add(), v0, pre, n)
                continue
            cat = self.catted(v1, phi)
            if cat is not None:
                lst = self.mk(list(v0.segs) if isinstance(v0, L) else [((), (), ("splice", freeze(v0)))], True)
                for b, g, s in cat:
                    lst.segs.append((tuple(bs) + tuple(b), tuple(gs) + tuple(g), s))
                env[a] = lst
                continue
            if isinstance(v1, (O, Fn, Part, D)) or v1 is v0:
                env[a] = v1
                continue
            try:
                f1 = freeze(v1)
            except Unknown:
                env[a] = ("?", "value after a loop")
                continue
            if not self.any_phi(f1, bid):
                env[a] = ("last", tuple((b, c) for b, c in bs), tuple(gs), f1, freeze(v0) if not isinstance(v0, (O, Fn)) else None)
            else:
                env[a] = ("?", "%s carried through a loop" % a)
        if sub:
            self.substitute(sub, e0, c0)

    def any_phi(self, t, bid):
        if isinstance(t, tuple):
            if len(t) == 3 and t[0] == "phi" and t[1] == bid:
                return True
            return any(self.any_phi(x, bid) for x in t)
        if isinstance(t, (L, Tup)):
            return self.any_phi(freeze(t), bid)
        return False

    def delta(self, v1, phi):
        if isinstance(v1, tuple):
            if v1[0] == "ite":
                a, b = self.delta(v1[2], phi), self.delta(v1[3], phi)
                return None if a is None or b is None else (a if a == b else ("ite", v1[1], a, b))
            if v1 == phi:
                return K(0)
            m = _mons(v1)
            if m.get((phi,)) == 1:
                d = add(v1, phi, -1)
                if not has(d, phi):
                    return d
        return None

    def catted(self, v1, phi):
        if isinstance(v1, tuple) and v1 and v1[0] == "list":
            return None
        if isinstance(v1, L) and v1.segs and v1.segs[0][2] == ("splice", phi) and not v1.segs[0][0]:
            rest = v1.segs[1:]
            return rest
        return None

    def psum(self, b, d):
        bv = ("bv", b[0])
        if not has(d, bv):
            return mul(bv, d) if not (isinstance(d, tuple) and d[0] == "ite") else ("psum", bv, d)
        return ("psum", bv, subst(d, {bv: ("bv", "*")}))

    def sum_over(self, b, d):
        bv = ("bv", b[0])
        if not has(d, bv):
            return mul(b[1], d)
        return ("sum", b[1], subst(d, {bv: ("bv", "*")}))

    def substitute(self, m, e0, c0):
        ok = {k: v for k, v in m.items() if isinstance(v, tuple)}
        for e in self.effects[e0:]:
            for k in ("idx", "value"):
                e[k] = subst(e[k], ok)
            e["guards"] = tuple(subst(g, ok) for g in e["guards"])
        for c in self.calls[c0:]:
            c["pos"] = [subst(x, ok) for x in c["pos"]]
            c["kw"] = {k: subst(x, ok) for k, x in c["kw"].items()}
        for h in self.heap:
            if isinstance(h, L):
                h.segs = [(b, tuple(subst(g, ok) for g in gs), subst(v, ok)) for b, gs, v in h.segs]
            else:
                h.entries = [(b, tuple(subst(g, ok) for g in gs), subst(k, ok), subst(v, ok)) for b, gs, k, v in h.entries]
        for k, v in list(self.fr.env.items()):
            if isinstance(v, tuple):
                self.fr.env[k] = subst(v, ok)

    # ---- iteration --------------------------------------------------------
    def fresh(self, count):
        return (next(self.bid), count)

    def elements(self, v, n):
        """segments (binders, guards, value) of an iterable"""
        if isinstance(v, Tup):
            return [((), (), x) for x in v.items]
        if isinstance(v, L):
            if v.over:
                raise Unknown("iteration over an overwritten list", n)
            out = []
            for bs, gs, x in v.segs:
                if is_splice(x):
                    inner = self.elements(x[1], n)
                    ren = {}
                    nbs = []
                    for b, c in bs:
                        nb = next(self.bid)
                        nbs.append((nb, subst(c, ren)))
                        ren[("bv", b)] = ("bv", nb)
                    for b2, g2, y in inner:
                        out.append((tuple(nbs) + tuple((k, subst(c, ren)) for k, c in b2),
                                    tuple(subst(g, ren) for g in gs) + tuple(subst(g, ren) for g in g2), subst(y, ren)))
                    continue
                if bs:
                    ren, nbs = {}, []
                    for b, c in bs:
                        nb = next(self.bid)
                        nbs.append((nb, subst(c, ren)))
                        ren[("bv", b)] = ("bv", nb)
                    out.append((tuple(nbs), tuple(subst(g, ren) for g in gs), subst(x, ren)))
                else:
                    out.append((bs, gs, x))
            return out
        if isinstance(v, D):
            return self.elements(self.keys_of(v), n)
        if isinstance(v, View):
            if isinstance(v.base, D):
                l = self.keys_of(v.base, v.kind)
                return self.elements(l, n)
            t = freeze(v.base)
            b = self.fresh(("len", t))
            i = ("bv", b[0])
            k, x = ("key", t, i), ("val", t, i)
            return [((b,), (), {"keys": k, "values": x, "items": Tup((k, x))}[v.kind])]
        if isinstance(v, tuple):
            if v[0] == "range":
                a, c = v[1], v[2]
                if is_k(a) and is_k(c):
                    return [((), (), K(i)) for i in range(a[2], c[2])]
                b = self.fresh(add(c, a, -1))
                return [((b,), (), add(a, ("bv", b[0])))]
            if v[0] == "zip":
                return self.zipped([self.elements(x, n) for x in v[1]], n, v[1])
            if v[0] == "enum":
                els = self.elements(v[1], n)
                out, base = [], v[2]
                for bs, gs, x in els:
                    if not bs and not gs:
                        out.append((bs, gs, Tup((base, x))))
                        base = add(base, K(1))
                    elif len(bs) == 1 and not gs:
                        out.append((bs, gs, Tup((add(base, ("bv", bs[0][0])), x))))
                        base = add(base, bs[0][1])
                    else:
                        b = bs[0]
                        at = ("rank", freeze(L([(bs, gs, x)])), freeze(x)) if base == K(0) else ("?", "position after a filtered sequence")
                        out.append((bs, gs, Tup((at, x))))
                        base = ("?", "position after a filtered sequence")
                return out
            if is_k(v):
                if isinstance(v[2], str):
                    return [((), (), K(c)) for c in v[2]]
                raise Raised("TypeError", n, self.fr.f.module)
            if v in self.dicts:
                return self.elements(View(v, "keys"), n)
            if v[0] in ("?",):
                raise Unknown(v[1], n)
            if v[0] == "reversed":
                els = self.elements(v[1], n)
                if all(not b and not g for b, g, _ in els):
                    return list(reversed(els))
                raise Unknown("reversed", n)
            if v[0] == "ite":
                raise Unknown("iteration over a value that depends on a condition", n)
            if v[0] == "poly":
                b = self.fresh(("len", freeze(v)))
                return [((b,), (), self.index_poly(v, ("bv", b[0])))]
            b = self.fresh(self.length(v, n))
            return [((b,), (), get_term(v, ("bv", b[0])))]
        raise Unknown("iteration over %s" % type(v).__name__, n)

    def index_poly(self, v, i):
        """element of array + scalar: the array terms are indexed, scalars stay"""
        r = K(0)
        for mono, c in v[1]:
            p = K(c)
            for a in mono:
                p = mul(p, get_term(a, i) if self.arrayish(a) else a)
            r = add(r, p)
        return r

    def arrayish(self, t):
        return isinstance(t, tuple) and t and t[0] in ("m", "call", "repeat", "tile", "ravel", "values", "keys", "list", "sym", "array") and \
            t not in self.scalars

    def arr_atom(self, t):
        return isinstance(t, tuple) and t and t[0] in ("ravel", "repeat", "tile", "array")

    scalars = frozenset()

    def zipped(self, cols, n, raw=()):
        if all(all(not b and not g for b, g, _ in c) for c in cols):
            return [((), (), Tup(x[2] for x in t)) for t in zip(*cols)]
        if all(len(c) == 1 for c in cols) and all(len(c[0][0]) == 1 for c in cols):
            b0 = cols[0][0][0][0]
            filtered = [c for c in cols if c[0][1]]
            if filtered and len(filtered) < len(cols):
                # a filtered sequence against one counting as far as its length: the position in the filtered sequence
                cnt = self.length(L(filtered[0]), n)
                if all(c[0][0][0][1] == cnt for c in cols if not c[0][1]):
                    (bs, g, x), = filtered[0]
                    at = ("rank", freeze(L(filtered[0])), freeze(x))
                    cols = [c if c[0][1] else [(bs, g, subst(c[0][2], {("bv", c[0][0][0][0]): at}))] for c in cols]
                    b0 = bs[0]
            vals, guards = [], ()
            gs = None
            same = None
            for (bs, g, x), in cols:
                ren = {("bv", bs[0][0]): ("bv", b0[0])}
                g2 = tuple(subst(y, ren) for y in g)
                if gs is None:
                    gs = g2
                elif gs != g2:
                    raise Unknown("zip of sequences filtered differently", n)
                vals.append(subst(x, ren))
            return [((b0,), gs, Tup(vals))]
        if any(len(c) == 1 and len(c[0][0]) == 1 for c in cols) and any(all(not b and not g for b, g, _ in c) for c in cols):
            # a fixed number of elements against an unknown sequence
            k = min(len(c) for c in cols if all(not b and not g for b, g, _ in c))
            out = []
            for i in range(k):
                vals = []
                for c in cols:
                    if all(not b and not g for b, g, _ in c):
                        vals.append(c[i][2])
                    elif len(c) == 1 and not c[0][1]:
                        vals.append(subst(c[0][2], {("bv", c[0][0][0][0]): K(i)}))
                    else:
                        raise Unknown("zip", n)
                out.append(((), (), Tup(vals)))
            return out
        multi = [c for c in cols if len(c) > 1]
        ones = [c for c in cols if len(c) == 1]
        if multi and len(multi) + len(ones) == len(cols) and all(len(c[0][0]) == 1 and not c[0][1] for c in ones) and \
                all(len(b) <= 1 and not g for c in multi for b, g, _ in c) and all(len(c) == len(multi[0]) for c in multi):
            # a concatenation next to a sequence of the same length: the sequence is cut at the same places
            off, out = K(0), []
            for k in range(len(multi[0])):
                bs = multi[0][k][0]
                cnt = bs[0][1] if bs else K(1)
                pos = add(off, ("bv", bs[0][0])) if bs else off
                vals = []
                for c in cols:
                    if len(c) == 1:
                        vals.append(subst(c[0][2], {("bv", c[0][0][0][0]): pos}))
                        continue
                    b2 = c[k][0]
                    if len(b2) != len(bs) or (bs and b2[0][1] != cnt):
                        raise Unknown("zip of sequences of different shape", n)
                    vals.append(subst(c[k][2], {("bv", b2[0][0]): ("bv", bs[0][0])}) if bs else c[k][2])
                out.append((bs, (), Tup(vals)))
                off = add(off, cnt)
            return out
        raise Unknown("zip of sequences of different shape", n)

    def keys_of(self, d, kind="keys"):
        def val(k, v):
            return {"keys": k, "values": v, "items": Tup((k, v))}[kind]
        return self.mk([(b, g, val(k, v)) for b, g, k, v in d.entries])

    def length(self, v, n):
        if isinstance(v, Tup):
            return K(len(v.items))
        if isinstance(v, D):
            return self.length(self.keys_of(v), n)
        if isinstance(v, View):
            return self.length(v.base, n)
        if isinstance(v, L):
            r = K(0)
            for bs, gs, x in v.segs:
                if gs:
                    return ("count", freeze(L([(b, g, (("splice", self.length(y[1], n)) if is_splice(y) else K(0))) for b, g, y in v.segs])))
                c = K(1)
                for _, k in reversed(bs):
                    c = mul(c, k) if not any(has(c, ("bv", b)) for b, _ in bs) else ("?", "count")
                if is_splice(x):
                    c = mul(c, self.length(x[1], n))
                if any(has(c, ("bv", b)) for b, _ in bs):
                    return ("count", freeze(v))
                r = add(r, c)
            return r
        if isinstance(v, tuple):
            if v[0] == "range":
                return add(v[2], v[1], -1)
            if v[0] in ("keys", "values"):
                return ("len", v[1])
            if v[0] == "repeat":
                return mul(("len", v[1]), v[2])
            if v[0] == "tile":
                return mul(("len", v[1]), v[2])
            if v[0] == "ravel":
                return mul(("shape", v[1], 0), ("shape", v[1], 1))
            if v[0] == "accum":
                return self.length_frozen(v[1])
            if v[0] == "poly":
                arr = [a for mono, _ in v[1] for a in mono if self.arrayish(a)]
                if arr:
                    return self.length(arr[0], n)
            if is_k(v) and isinstance(v[2], str):
                return K(len(v[2]))
            return ("len", v)
        return ("len", freeze(v))

    def length_frozen(self, t):
        return ("len", t)

    # ---- expressions ------------------------------------------------------
    def ev(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unknown("expression %s" % type(n).__name__, n)
        return m(n)

    def e_Constant(self, n):
        return K(n.value)

    def e_JoinedStr(self, n):
        parts = []
        for x in n.values:
            v = self.ev(x.value) if isinstance(x, ast.FormattedValue) else self.ev(x)
            parts.append(freeze(v))
        if all(is_k(p) for p in parts):
            return K("".join(str(p[2]) for p in parts))
        return ("fstr",) + tuple(parts)

    def e_Name(self, n):
        return self.name(n)

    def name(self, n):
        env = self.fr.env
        if n.id in env:
            return env[n.id]
        r = self.p.resolve_member(self.fr.f.module.name, n.id)
        if r is not None:
            return self.resolved(r, n)
        return Ext("builtins." + n.id)

    def resolved(self, r, n):
        if isinstance(r, FuncInfo):
            return Fn(r)
        if isinstance(r, ClassInfo):
            return r
        if r[0] == "module":
            return Ext(canon_module(r[1])) if r[1] not in self.p.modules else ("module", r[1])
        if r[0] == "external":
            return Ext(canon_module(r[1]) + "." + r[2])
        if r[0] == "global":
            fr = Frame(type("G", (), {"module": r[1], "node": None, "cls": None, "id": r[1].name})(), {}, 0, 0)
            self.frames.append(fr)
            try:
                return self.ev(r[2])
            finally:
                self.frames.pop()
        raise Unknown("name", n)

    def e_Tuple(self, n):
        return Tup(self.ev_items(n.elts))

    def ev_items(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value)
                for bs, gs, x in self.elements(v, e):
                    if bs or gs:
                        raise Unknown("starred unknown sequence", e)
                    out.append(x)
            else:
                out.append(self.ev(e))
        return out

    def e_List(self, n):
        segs = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                segs += self.elements(self.ev(e.value), e)
            else:
                segs.append(((), (), self.ev(e)))
        return self.mk(segs)

    def e_Set(self, n):
        xs = [self.ev(e) for e in n.elts]
        if xs and all(is_k(x) for x in xs):
            return self.x_builtins_set([self.concrete(xs)], {}, n)
        return ("set",) + tuple(freeze(x) for x in xs)

    def e_Dict(self, n):
        d = self.mkd()
        for k, v in zip(n.keys, n.values):
            if k is None:
                raise Unknown("dict unpacking", n)
            d.entries.append(((), (), self.ev(k), self.ev(v)))
        return d

    def e_Lambda(self, n):
        return Local(n, self.fr.env, self.fr.f)

    def e_IfExp(self, n):
        c = self.cond_term(self.ev(n.test))
        t = self.truth(c)
        if t is None and not self.binders:
            t = self.decide(c, n)
        if t is not None:
            return self.ev(n.body if t else n.orelse)
        g0 = len(self.guards)
        self.guards.append(c)
        a = self.ev(n.body)
        del self.guards[g0:]
        self.guards.append(neg(c))
        b = self.ev(n.orelse)
        del self.guards[g0:]
        return self.ite(c, a, b)

    def e_BoolOp(self, n):
        is_and = isinstance(n.op, ast.And)
        terms = []
        last = None
        g0 = len(self.guards)
        try:
            for x in n.values:
                v = self.ev(x)
                c = self.cond_term(v)
                t = self.truth(c)
                last = v
                if t is None:
                    terms.append(c)
                    if self.binders:
                        self.guards.append(c if is_and else neg(c))
                elif t is not is_and:
                    if not terms:
                        return v
                    return K(not is_and) if is_k(v) and isinstance(v[2], bool) else K(t)
        finally:
            del self.guards[g0:]
        if not terms:
            return last
        if len(terms) == 1:
            return terms[0]
        return ("and" if is_and else "or",) + tuple(sorted(set(freeze(t) for t in terms), key=repr))

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            c = self.cond_term(v)
            t = self.truth(c)
            return K(not t) if t is not None else neg(c)
        if isinstance(n.op, ast.USub):
            if isinstance(v, L):
                return self.map_arr(v, lambda x: mul(K(-1), x))
            return mul(K(-1), self.scal(v))
        if isinstance(n.op, ast.UAdd):
            return v
        return ("inv", freeze(v))

    def scal(self, v):
        return v if isinstance(v, tuple) else freeze(v)

    def map_arr(self, v, fn):
        out = []
        for bs, gs, x in v.segs:
            if is_splice(x):
                out.append((bs, gs, ("splice", fn(x[1]))))
            elif isinstance(x, L):
                out.append((bs, gs, self.map_arr(x, fn)))
            else:
                out.append((bs, gs, fn(x)))
        return self.mk(out, True)

    def e_BinOp(self, n):
        return self.binop(n.op, self.ev(n.left), self.ev(n.right), n)

    def binop(self, op, a, b, n):
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)) and all(isinstance(x, L) and x.unique and all(is_k(freeze(y)) for y in (self.few(x, n, 64) or [K(0)])) for x in (a, b)):
            x, y = [self.few(v, n, 64) for v in (a, b)]
            r = x + y if isinstance(op, ast.BitOr) else [v for v in x if (v in y) == isinstance(op, ast.BitAnd)]
            return self.x_builtins_set([self.concrete(r)], {}, n)
        if isinstance(op, ast.Add):
            if isinstance(a, L) and isinstance(b, L) and not a.arr and not b.arr:
                return self.mk(list(a.segs) + list(b.segs))
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if isinstance(a, tuple) and a[0] == "phi" and isinstance(b, L) and not b.arr:
                return self.mk([((), (), ("splice", a))] + list(b.segs))
            if is_k(a) and is_k(b) and isinstance(a[2], str) and isinstance(b[2], str):
                return K(a[2] + b[2])
            if any(is_k(x) and isinstance(x[2], str) for x in (a, b)) or any(isinstance(x, tuple) and x[0] in ("cat", "fstr") for x in (a, b)):
                return ("cat", freeze(a), freeze(b))
        if isinstance(op, ast.Mult) and isinstance(a, L) and not a.arr and is_k(b) and isinstance(b[2], int):
            return self.mk(list(a.segs) * b[2])
        if isinstance(op, ast.Mult) and isinstance(a, L) and not a.arr:
            if len(a.segs) == 1 and not a.segs[0][0] and not a.segs[0][1]:
                return self.mk([((self.fresh(self.scal(b)),), (), a.segs[0][2])])
            raise Unknown("list repetition", n)
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            f = {ast.Add: lambda x, y: add(x, y), ast.Sub: lambda x, y: add(x, y, -1), ast.Mult: mul}[type(op)]
            if isinstance(a, L) and isinstance(b, tuple):
                return self.map_arr(a, lambda x: f(self.scal(x), b))
            if isinstance(b, L) and isinstance(a, tuple):
                return self.map_arr(b, lambda x: f(a, self.scal(x)))
            if isinstance(a, L) and isinstance(b, L) and a.plain() and b.plain() and len(a.segs) == len(b.segs):
                return self.concrete([f(self.scal(x[2]), self.scal(y[2])) for x, y in zip(a.segs, b.segs)], True)
            a, b = self.scal(a), self.scal(b)
            if any(isinstance(x, tuple) and x[0] == "ite" for x in (a, b)) and not isinstance(op, ast.Mult):
                x, y = a, b
                if x[0] == "ite" and not (y[0] == "ite"):
                    return self.ite(x[1], f(x[2], y), f(x[3], y))
            return f(a, b)
        a, b = freeze(a), freeze(b)
        if is_k(a) and is_k(b):
            try:
                if isinstance(op, ast.FloorDiv):
                    return K(a[2] // b[2])
                if isinstance(op, ast.Mod):
                    if isinstance(a[2], str):
                        return ("fmt", a, b)
                    return K(a[2] % b[2])
                if isinstance(op, ast.Div):
                    return K(a[2] / b[2])
                if isinstance(op, ast.Pow):
                    return K(a[2] ** b[2])
            except ZeroDivisionError:
                raise Raised("ZeroDivisionError", n, self.fr.f.module)
            except TypeError:
                raise Raised("TypeError", n, self.fr.f.module)
        if isinstance(op, ast.FloorDiv):
            if is_k(b) and isinstance(b[2], int) and b[2] > 0 and isinstance(a, tuple) and a and a[0] == "poly":
                return self.quotient(a, b)
            return ("div", a, b)
        if isinstance(op, ast.Mod):
            return ("mod", a, b)
        if isinstance(op, ast.Pow) and is_k(b) and b[2] == 2:
            return mul(a, a)
        if isinstance(op, ast.Div) and is_k(b) and b[2]:
            return mul(a, K(1.0 / b[2]))
        return (type(op).__name__, a, b)

    def e_Compare(self, n):
        l = self.ev(n.left)
        out = []
        for op, r in zip(n.ops, n.comparators):
            rv = self.ev(r)
            out.append(self.compare(op, l, rv, n))
            l = rv
        if len(out) == 1:
            return out[0]
        r = ("and",) + tuple(sorted(out, key=repr))
        t = self.truth(r)
        return r if t is None else K(t)

    def compare(self, op, a, b, n):
        def arr(x):
            return isinstance(x, L) and x.arr or isinstance(x, tuple) and x[0] in ("ravel", "repeat", "tile", "array") or \
                isinstance(x, tuple) and x[0] == "poly" and any(self.arr_atom(y) for mono, _ in x[1] for y in mono)
        if not isinstance(op, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) and arr(a) != arr(b):
            if arr(a) and isinstance(b, tuple) and (is_k(b) or self.scalarish(b)):
                return self.map_arr(self.array_elements(a, n), lambda x: self.scal(self.compare(op, x, b, n)))
            if arr(b) and isinstance(a, tuple) and (is_k(a) or self.scalarish(a)):
                return self.map_arr(self.array_elements(b, n), lambda x: self.scal(self.compare(op, a, x, n)))
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and isinstance(a, L) and isinstance(b, (L, Tup)) or \
                isinstance(op, (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and isinstance(a, Tup) and isinstance(b, L):
            xa = [((), (), x) for x in a.items] if isinstance(a, Tup) else a.segs
            xb = [((), (), x) for x in b.items] if isinstance(b, Tup) else b.segs
            if (getattr(a, "arr", False) or getattr(b, "arr", False)) and len(xa) == len(xb) and \
                    all(not s[0] and not s[1] and isinstance(s[2], tuple) and not is_splice(s[2]) for s in list(xa) + list(xb)):
                return self.concrete([self.compare(op, x[2], y[2], n) for x, y in zip(xa, xb)], True)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, n)
            return r if isinstance(op, ast.In) else neg(r)
        if isinstance(a, (L, Tup)) or isinstance(b, (L, Tup)):
            if isinstance(op, (ast.Is, ast.IsNot)) and NONE in (a if isinstance(a, tuple) else b, b if isinstance(b, tuple) else a):
                return K(isinstance(op, ast.IsNot))
            if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(a, (Tup, L)) and isinstance(b, (Tup, L)) and not getattr(a, "arr", False) and not getattr(b, "arr", False):
                fa, fb = freeze(a), freeze(b)
                if fa == fb:
                    return K(isinstance(op, ast.Eq))
                if self.distinct(fa, fb):
                    return K(isinstance(op, ast.NotEq))
                r = ("eq",) + tuple(sorted((fa, fb), key=repr))
                return r if isinstance(op, ast.Eq) else neg(r)
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            pos = isinstance(op, (ast.Is, ast.Eq))
            if NONE in [x for x in (a, b) if isinstance(x, tuple)] and any(isinstance(x, (L, D, O, Tup, Fn, Ext, ClassInfo, Part, Local)) for x in (a, b)):
                return K(not pos)
            fa, fb = whole(freeze(a)), whole(freeze(b))
            if fa == fb:
                return K(pos)
            if self.distinct(fa, fb):
                return K(not pos)
            r = ("eq",) + tuple(sorted((fa, fb), key=repr))
            return r if pos else neg(r)
        fa, fb = freeze(a), freeze(b)
        if is_k(fa) and is_k(fb):
            try:
                return K({ast.Lt: fa[2] < fb[2], ast.LtE: fa[2] <= fb[2], ast.Gt: fa[2] > fb[2], ast.GtE: fa[2] >= fb[2]}[type(op)])
            except TypeError:
                raise Raised("TypeError", n, self.fr.f.module)
        d = add(fa, fb, -1)
        if is_k(d):
            return K({ast.Lt: d[2] < 0, ast.LtE: d[2] <= 0, ast.Gt: d[2] > 0, ast.GtE: d[2] >= 0}[type(op)])
        if fa in self.order and fb in self.order:
            x, y = self.order[fa], self.order[fb]
            return K({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])
        # lengths and sizes are not negative
        if isinstance(op, ast.Gt) and fb == K(0) and fa[0] in ("len", "count"):
            return ("nonempty", fa[1])
        if isinstance(op, ast.Lt):
            return ("lt", fa, fb)
        if isinstance(op, ast.Gt):
            return ("lt", fb, fa)
        if isinstance(op, ast.LtE):
            return neg(("lt", fb, fa))
        return neg(("lt", fa, fb))

    def distinct(self, a, b):
        if is_k(a) and is_k(b):
            return a[2] != b[2]
        if a[0] == "ext" and b[0] == "ext":
            return a != b
        if a[0] == "tup" and b[0] == "tup":
            return len(a) != len(b) or any(self.distinct(x, y) for x, y in zip(a[1:], b[1:]))
        if {a[0], b[0]} <= {"k", "ext", "class", "fn", "obj"} and a != b:
            return True
        if a in self.order and b in self.order:
            return self.order[a] != self.order[b]
        return False

    def ranked(self, v, n):
        """the items of a sequence whose relative order is known, else None"""
        els = self.elements(v, n) if isinstance(v, (L, Tup)) and not getattr(v, "over", None) else None
        if els is None or any(b or g for b, g, _ in els):
            return None
        xs = [x for _, _, x in els]
        if all(isinstance(x, tuple) and x in self.order for x in xs):
            return [(self.order[x], x) for x in xs]
        if all(isinstance(x, tuple) and is_k(x) and not isinstance(x[2], str) for x in xs):
            return [(x[2], x) for x in xs]
        if xs and all(isinstance(x, Tup) for x in xs):
            rows = [self.ranked(x, n) for x in xs]
            if all(r is not None for r in rows):
                return [(tuple(k for k, _ in r), x) for r, x in zip(rows, xs)]
        return None

    def contains(self, a, b, n):
        if isinstance(b, D):
            b = self.keys_of(b)
        if is_k(b) and isinstance(b[2], str) and is_k(a):
            return K(a[2] in b[2])
        items = None
        if isinstance(b, Tup):
            items = list(b.items)
        elif isinstance(b, L) and b.plain():
            items = [x for _, _, x in b.segs]
        if items is not None:
            fa = freeze(a)
            fs = [freeze(x) for x in items]
            if fa in fs:
                return TRUE
            if all(self.distinct(fa, f) for f in fs):
                return FALSE
        return ("in", freeze(a), freeze(b))

    def e_Attribute(self, n):
        base = self.ev(n.value)
        return self.attr(base, n.attr, n)

    def attr(self, base, name, n):
        if isinstance(base, Ext):
            return Ext(base.name + "." + name)
        if isinstance(base, tuple) and base[0] == "module":
            r = self.p.resolve_member(base[1], name)
            if r is None:
                raise Unknown("module attribute", n)
            return self.resolved(r, n)
        if isinstance(base, O):
            if name in base.attrs:
                return base.attrs[name]
            m = self.p.lookup_method(base.cls, name)
            if m is not None:
                if m.is_property():
                    return self.call_function(m, [], {}, n, self_=base)
                return Fn(m, None, None if m.is_static() else base)
            for c in self.p.mro(base.cls):
                if name in c.class_attrs:
                    return self.ev(c.class_attrs[name])
            return ("attr", freeze(base), name)
        if isinstance(base, ClassInfo):
            m = self.p.lookup_method(base, name)
            if m is not None:
                return Fn(m)
            for c in self.p.mro(base):
                if name in c.class_attrs:
                    return self.ev(c.class_attrs[name])
            raise Unknown("class attribute", n)
        if isinstance(base, L):
            if name == "shape":
                return ("shapeof", base)
            if name == "size":
                return self.length(base, n)
            if name == "T":
                return ("T", freeze(base))
            return Meth(base, name)
        if isinstance(base, (D, View, Tup)):
            return Meth(base, name)
        if isinstance(base, tuple):
            if (base, name) in self.store:
                return self.store[(base, name)]
            cls = self.types.get(base)
            if cls is not None:
                m = self.p.lookup_method(cls, name)
                if m is not None and m.id not in self.opaque and m.name not in self.opaque:
                    if m.is_property():
                        return self.call_function(m, [], {}, n, self_=base)
                    return Fn(m, None, None if m.is_static() else base)
                if m is None:
                    for c in self.p.mro(cls):
                        if name in c.class_attrs and isinstance(c.class_attrs[name], (ast.Constant, ast.Tuple, ast.List, ast.Dict, ast.Call)):
                            return self.ev(c.class_attrs[name])
            if is_k(base) and isinstance(base[2], str):
                return Meth(base, name)
            if name == "shape" and base[0] in ("ravel", "repeat", "tile", "list"):
                return ("shapeof", base)
            return ("attr", base, name)
        if isinstance(base, (Fn, Part)):
            return ("attr", freeze(base), name)
        raise Unknown("attribute of %s" % type(base).__name__, n)

    def index(self, s):
        if isinstance(s, ast.Slice):
            return ("slice",) + tuple(freeze(self.ev(x)) if x is not None else NONE for x in (s.lower, s.upper, s.step))
        if isinstance(s, ast.Tuple):
            return Tup(self.index(x) for x in s.elts)
        return self.ev(s)

    def e_Subscript(self, n):
        base = self.ev(n.value)
        return self.subscript(base, self.index(n.slice), n)

    def subscript(self, base, idx, n):
        if self.memory and isinstance(base, tuple) and base in self.memory:
            mem = self.memory[base]
            fk = freeze(idx)
            if fk in mem:
                return mem[fk]
            if None in mem:
                return mem[None](fk)
        if isinstance(base, Tup):
            if is_k(idx) and isinstance(idx[2], int):
                try:
                    return base.items[idx[2]]
                except IndexError:
                    raise Raised("IndexError", n, self.fr.f.module)
            if isinstance(idx, tuple) and idx[0] == "slice" and all(is_k(x) for x in idx[1:]):
                return Tup(base.items[slice(*[x[2] for x in idx[1:]])])
            base = self.concrete(base.items)
        if isinstance(base, D):
            fk = freeze(idx)
            for b, g, k, v in reversed(base.entries):
                if not b and not g and freeze(k) == fk:
                    return v
            if all(not b and not g and self.distinct(freeze(k), fk) for b, g, k, _ in base.entries):
                raise Raised("KeyError", n, self.fr.f.module)
            for b, g, k, v in base.entries:
                # the entry written by a loop for the index of another loop over the same range
                if len(b) == 1 and not g:
                    m = self.match_bv(freeze(k), fk, b[0])
                    if m is not None:
                        return subst(v, m)
                    # the entry of a given key: the keys of one sequence are distinct
                    if len(base.entries) == 1 and isinstance(k, tuple) and k[0] == "get" and k[2] == ("bv", b[0][0]) and b[0][1] == ("len", k[1]):
                        return subst(v, {("bv", b[0][0]): ("rank", k[1], fk)})
            return ("get", freeze(base), fk)
        if isinstance(base, L):
            return self.sub_list(base, idx, n)
        if isinstance(base, View):
            raise Raised("TypeError", n, self.fr.f.module)
        if isinstance(base, tuple):
            if base[0] == "shapeof":
                if idx == K(0):
                    return self.length(base[1], n)
                return ("shape", freeze(base[1]), freeze(idx))
            if base[0] == "attr" and base[2] == "shape":
                return ("shape", base[1], idx[2] if is_k(idx) else freeze(idx))
            if is_k(base) and isinstance(base[2], str) and is_k(idx):
                try:
                    return K(base[2][idx[2]])
                except IndexError:
                    raise Raised("IndexError", n, self.fr.f.module)
            if isinstance(idx, tuple) and idx[0] == "key" and idx[1] == base:
                return ("val", base, idx[2])
            if base[0] in ("?",):
                raise Unknown(base[1], n)
            if base[0] == "range" and isinstance(idx, tuple) and idx[0] != "slice":
                return add(base[1], idx)
            if isinstance(idx, (L, Tup)):
                return ("get", base, freeze(idx))
            if base[0] == "ite":
                return self.ite(base[1], self.subscript(self.thaw(base[2]), idx, n), self.subscript(self.thaw(base[3]), idx, n))
            if base[0] == "tup" and is_k(idx):
                try:
                    return base[1:][idx[2]]
                except (IndexError, TypeError):
                    raise Raised("IndexError", n, self.fr.f.module)
            if base[0] == "poly" and any(self.arrayish(a) for mono, _ in base[1] for a in mono):
                return self.index_poly(base, freeze(idx))
            if base[0] == "list":
                return self.sub_list(self.from_frozen(base), idx, n)
            return get_term(base, freeze(idx))
        if isinstance(base, O):
            return ("get", freeze(base), freeze(idx))
        raise Unknown("subscript of %s" % type(base).__name__, n)

    def from_frozen(self, t):
        segs = []
        for cs, gs, v in t[1]:
            bs, ren = [], {}
            for k, c in enumerate(cs):
                nb = next(self.bid)
                bs.append((nb, subst(c, ren)))
                # nested numbering starts at the depth at which the list was frozen; only outermost lists are thawed
                ren[("bv", "#%d" % k)] = ("bv", nb)
            segs.append((tuple(bs), tuple(subst(g, ren) for g in gs), subst(v, ren)))
        return self.mk(segs, True)

    def match_bv(self, pat, term, b):
        bv = ("bv", b[0])
        found = {}

        def go(p, t):
            if p == bv:
                if bv in found and found[bv] != t:
                    return False
                found[bv] = t
                return True
            if isinstance(p, tuple) and isinstance(t, tuple) and len(p) == len(t):
                return all(go(x, y) for x, y in zip(p, t))
            return p == t
        return found if go(pat, term) and found else None

    def sub_list(self, base, idx, n):
        if base.over:
            fi = freeze(idx)
            hit = [v for i, v, g in base.over if i == fi]
            if hit:
                return hit[-1]
            raise Unknown("element of an overwritten list", n)
        if is_k(idx) and isinstance(idx[2], int) and not isinstance(idx[2], bool):
            i = idx[2]
            if base.plain():
                try:
                    return base.segs[i][2]
                except IndexError:
                    raise Raised("IndexError", n, self.fr.f.module)
            lead = list(itertools.takewhile(lambda s: not s[0] and not s[1] and not is_splice(s[2]), base.segs))
            if 0 <= i < len(lead):
                return base.segs[i][2]
            if len(base.segs) == 1 and is_splice(base.segs[0][2]) and not base.segs[0][0]:
                return self.subscript(base.segs[0][2][1], idx, n)
            if len(base.segs) == 1 and len(base.segs[0][0]) == 1 and not base.segs[0][1] and i >= 0:
                b = base.segs[0][0][0][0]
                return subst(base.segs[0][2], {("bv", b): idx})
            if i == -1 and len(base.segs) == 1 and len(base.segs[0][0]) == 1 and not base.segs[0][1]:
                b, c = base.segs[0][0][0]
                return subst(base.segs[0][2], {("bv", b): add(c, K(-1))})
            return ("get", freeze(base), idx)
        if isinstance(idx, tuple) and idx[0] == "slice" and all(is_k(x) for x in idx[1:]):
            sl = slice(*[x[2] for x in idx[1:]])
            if base.plain():
                return self.mk(base.segs[sl], base.arr)
            if sl == slice(None):
                return self.mk(base.segs, base.arr)
            if sl.step is None and sl.stop is None and sl.start is not None and sl.start >= 0:
                lead = list(itertools.takewhile(lambda s: not s[0] and not s[1] and not is_splice(s[2]), base.segs))
                if sl.start <= len(lead):
                    return self.mk(base.segs[sl.start:], base.arr)
            return ("get", freeze(base), freeze(idx))
        if isinstance(idx, tuple) and idx[0] == "slice" and idx[3] in (NONE, K(1)) and len(base.segs) == 1 and len(base.segs[0][0]) == 1 and \
                not base.segs[0][1] and not is_splice(base.segs[0][2]) and not base.over:
            (b, c), = base.segs[0][0]
            lo = K(0) if idx[1] == NONE else idx[1]
            hi = c if idx[2] == NONE else idx[2]
            if all(self.natural(x) for x in (lo, add(hi, lo, -1), add(c, hi, -1))):
                k = self.fresh(add(hi, lo, -1))
                return self.mk([((k,), (), subst(base.segs[0][2], {("bv", b): add(lo, ("bv", k[0]))}))], base.arr)
        if isinstance(idx, L):
            if idx.plain() and base.plain() and all(is_k(x[2]) for x in idx.segs):
                ks = [x[2][2] for x in idx.segs]
                if all(isinstance(k, bool) for k in ks):
                    return self.concrete([base.segs[i][2] for i, k in enumerate(ks) if k], base.arr)
                try:
                    return self.concrete([base.segs[k][2] for k in ks], base.arr)
                except IndexError:
                    raise Raised("IndexError", n, self.fr.f.module)
            # boolean mask built over the same index domain
            if len(idx.segs) == 1 and len(base.segs) == 1 and len(idx.segs[0][0]) == 1 and len(base.segs[0][0]) == 1 and \
                    not idx.segs[0][1] and not base.segs[0][1] and self.boolish(idx.segs[0][2]):
                (ib, ic), (bb, bc) = idx.segs[0][0][0], base.segs[0][0][0]
                if ic == bc:
                    c = subst(idx.segs[0][2], {("bv", ib): ("bv", bb)})
                    return self.mk([(base.segs[0][0], (c,), base.segs[0][2])], base.arr)
            return ("get", freeze(base), freeze(idx))
        if isinstance(idx, tuple) and len(base.segs) == 1 and len(base.segs[0][0]) == 1 and not base.segs[0][1] and not is_splice(base.segs[0][2]):
            b = base.segs[0][0][0][0]
            return subst(base.segs[0][2], {("bv", b): idx})
        if isinstance(idx, tuple) and len(base.segs) == 1 and not base.segs[0][0] and is_splice(base.segs[0][2]):
            return self.subscript(base.segs[0][2][1], idx, n)
        return ("get", freeze(base), freeze(idx))

    def boolish(self, t):
        return isinstance(t, tuple) and t[0] in ("eq", "lt", "not", "in", "and", "or", "nonempty") or (is_k(t) and isinstance(t[2], bool))

    def comp(self, n, elt):
        out = self.mk()

        def go(i, bs, gs):
            if i == len(n.generators):
                v = elt()
                b, g = tuple(self.binders[nb:]), tuple(self.guards[ng:])
                out.segs.append((b, g, v))
                return
            gen = n.generators[i]
            for b2, g2, v in self.elements(self.ev(gen.iter), n):
                mb, mg = len(self.binders), len(self.guards)
                self.binders.extend(b2)
                self.guards.extend(g2)
                self.assign(gen.target, v, n)
                skip = False
                for c in gen.ifs:
                    t = self.cond_term(self.ev(c))
                    tr = self.truth(t)
                    if tr is False:
                        skip = True
                        break
                    if tr is None:
                        if not self.binders:
                            if not self.decide(t, n):
                                skip = True
                                break
                        else:
                            self.guards.append(t)
                if not skip:
                    go(i + 1, bs, gs)
                del self.binders[mb:]
                del self.guards[mg:]
        nb, ng = len(self.binders), len(self.guards)
        saved = dict(self.fr.env)
        self.fr.loops += 1
        try:
            go(0, (), ())
        finally:
            self.fr.loops -= 1
            for k in list(self.fr.env):
                if k not in saved:
                    del self.fr.env[k]
                else:
                    self.fr.env[k] = saved[k]
        return out

    def e_ListComp(self, n):
        return self.comp(n, lambda: self.ev(n.elt))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n):
        return self.x_builtins_set([self.comp(n, lambda: self.ev(n.elt))], {}, n)

    def e_DictComp(self, n):
        l = self.comp(n, lambda: Tup((self.ev(n.key), self.ev(n.value))))
        d = self.mkd()
        d.entries = [(b, g, v.items[0], v.items[1]) for b, g, v in l.segs]
        return d

    def e_Starred(self, n):
        raise Unknown("starred", n)

    # ---- calls ------------------------------------------------------------
    def e_Call(self, n):
        fn = self.ev(n.func)
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            return ("super",)
        pos = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                need = self.missing(fn, n)
                if isinstance(v, tuple) and not is_k(v) and v[0] in ("m", "call", "get", "sym", "attr") and need is not None:
                    pos += [self.subscript(v, K(i), a) for i in range(need)]
                    continue
                for b, g, v in self.elements(v, a):
                    if b or g:
                        raise Unknown("starred unknown sequence", a)
                    pos.append(v)
            else:
                pos.append(self.ev(a))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                if isinstance(d, D) and all(not b and not g and is_k(x) for b, g, x, _ in d.entries):
                    for _, _, x, v in d.entries:
                        kw[x[2]] = v
                    continue
                raise Unknown("keyword unpacking", n)
            kw[k.arg] = self.ev(k.value)
        return self.apply(fn, pos, kw, n)

    def missing(self, fn, n):
        """number of arguments a single starred argument has to provide"""
        node = fn.info.node if isinstance(fn, Fn) else fn.node if isinstance(fn, Local) else None
        if node is None or sum(isinstance(a, ast.Starred) for a in n.args) != 1 or any(k.arg is None for k in n.keywords):
            return None
        a = node.args
        if a.vararg or a.kwarg or a.defaults:
            return None
        k = len(a.posonlyargs) + len(a.args) - (1 if isinstance(fn, Fn) and fn.self_ is not None else 0)
        k -= len(n.args) - 1 + len(n.keywords)
        return k if k >= 0 else None

    def apply(self, fn, pos, kw, n):
        if isinstance(fn, Part):
            k2 = dict(fn.kw)
            k2.update(kw)
            return self.apply(fn.fn, list(fn.pos) + list(pos), k2, n)
        if isinstance(fn, Fn):
            if fn.info.id in self.natives:
                return self.natives[fn.info.id](self, ([fn.self_] if fn.self_ is not None else []) + list(pos), kw, n)
            if fn.info.id in self.opaque or fn.info.name in self.opaque:
                return self.opaque_call(fn, pos, kw, n)
            return self.call_function(fn.info, pos, kw, n, self_=fn.self_)
        if isinstance(fn, Local):
            if isinstance(fn.node, ast.Lambda):
                info = _LambdaInfo(fn)
            else:
                info = _LocalInfo(fn)
            # closures read the enclosing environment as it is now
            return self.call_function(info, pos, kw, n, env={k: v for k, v in fn.env.items()})
        if isinstance(fn, ClassInfo):
            return self.construct(fn, pos, kw, n)
        if isinstance(fn, Ext):
            return self.ext(fn.name, pos, kw, n)
        if isinstance(fn, Meth):
            return self.method(fn.base, fn.name, pos, kw, n)
        if isinstance(fn, tuple):
            if fn[0] == "attr":
                return self.sym_method(fn[1], fn[2], pos, kw, n)
            if fn[0] == "?":
                raise Unknown(fn[1], n)
            if fn[0] == "ite":
                raise Unknown("callee depends on a condition", n)
            t = ("call", fn, tuple(freeze(x) for x in pos), tuple(sorted((k, freeze(v)) for k, v in kw.items())))
            self.record(fn, None, pos, kw, n, t)
            return t
        raise Unknown("call of %s" % type(fn).__name__, n)

    def record(self, base, name, pos, kw, n, result):
        self.calls.append({"fn": base, "name": name, "pos": list(pos), "kw": dict(kw), "binders": tuple(self.binders),
                           "guards": tuple(self.guards), "node": n, "module": self.fr.f.module, "f": self.fr.f, "result": result})

    def bound(self, info, pos, kw, self_):
        """arguments of an opaque repository function by name"""
        names = list(info.params)
        if self_ is not None:
            names = names[1:]
        d = dict(zip(names, pos))
        d.update(kw)
        return d

    def opaque_call(self, fn, pos, kw, n):
        args = self.bound(fn.info, pos, kw, fn.self_)
        t = ("call", fn.info.id, freeze(fn.self_) if fn.self_ is not None else None,
             tuple(sorted((k, freeze(v)) for k, v in args.items())))
        self.record(fn.info.id, None, pos, args, n, t)
        return t

    def construct(self, cls, pos, kw, n):
        if cls.name in self.natives:
            return self.natives[cls.name](self, pos, kw, n)
        init = self.p.lookup_method(cls, "__init__")
        if cls.name in self.opaque:
            args = self.bound(init, [None] + list(pos), kw, None) if init is not None else dict(kw)
            args.pop("self", None)
            t = ("new", cls.name, tuple(sorted((k, freeze(v)) for k, v in args.items() if v is not None)))
            self.record(cls.name, "new", pos, {k: v for k, v in args.items() if v is not None}, n, t)
            return t
        o = O(cls)
        if init is not None:
            self.call_function(init, pos, kw, n, self_=o)
        elif pos or kw:
            # dataclass-like: fields in order
            fields = [st.target.id for st in cls.node.body if isinstance(st, ast.AnnAssign)]
            for k, v in list(zip(fields, pos)) + list(kw.items()):
                o.attrs[k] = v
        return o

    def sym_method(self, base, name, pos, kw, n):
        if "." + name in self.natives:
            r = self.natives["." + name](self, [base] + list(pos), kw, n)
            if r is not None:
                return r
        if name in ("items", "keys", "values") and not pos:
            return View(base, name)
        if name == "get" and pos and isinstance(pos[0], tuple) and pos[0][0] == "key" and pos[0][1] == base:
            return ("val", base, pos[0][2])
        if name in ("copy", "tolist", "astype", "flatten") and name != "flatten":
            return base
        if name in ("ravel", "flatten"):
            return self.ravel(base)
        if name == "__setitem__":
            self.effect("=", base, pos[0], pos[1], n)
            return NONE
        if name == "__getitem__":
            return self.subscript(base, pos[0], n)
        if name in MUTATE and isinstance(base, tuple) and base and base[0] in ("ite", "phi", "last", "list"):
            raise Unknown("a list that depends on a condition or a loop is changed in place", n)
        t = ("m", name, base, tuple(freeze(x) for x in pos), tuple(sorted((k, freeze(v)) for k, v in kw.items())))
        self.record(base, name, pos, kw, n, t)
        return t

    def ravel(self, v):
        if isinstance(v, L):
            out = []
            for bs, gs, x in v.segs:
                if isinstance(x, L):
                    r = self.ravel(x)
                    for b2, g2, y in r.segs:
                        out.append((tuple(bs) + tuple(b2), tuple(gs) + tuple(g2), y))
                elif isinstance(x, Tup):
                    for y in x.items:
                        out.append((bs, gs, y))
                elif is_splice(x) or is_k(x) or self.scalarish(x):
                    out.append((bs, gs, x))
                else:
                    out.append((bs, gs, ("splice", x)))
            return self.mk(out, True)
        return ("ravel", freeze(v))

    def scalarish(self, t):
        return isinstance(t, tuple) and (is_k(t) or t[0] in ("poly", "bv", "len", "div", "mod"))

    def extend(self, lst, v, n):
        bs, gs = self.rel(lst.depth)
        for b, g, x in (self.elements(v, n) if not (isinstance(v, tuple) and not is_k(v) and v[0] not in ("range", "zip", "enum")) else [((), (), ("splice", v))]):
            lst.segs.append((bs + tuple(b), gs + tuple(g), x))

    def method(self, base, name, pos, kw, n):
        if isinstance(base, L):
            bs, gs = self.rel(base.depth)
            if name == "append" and len(pos) == 1:
                if base.over:
                    raise Unknown("append to an overwritten list", n)
                base.segs.append((bs, gs, pos[0]))
                self.effect("append", base, NONE, pos[0], n)
                return NONE
            if name == "extend" and len(pos) == 1:
                self.extend(base, pos[0], n)
                return NONE
            if name == "insert" and len(pos) == 2 and is_k(pos[0]) and not bs and not gs:
                i = pos[0][2]
                lead = list(itertools.takewhile(lambda s: not s[0] and not s[1] and not is_splice(s[2]), base.segs))
                if 0 <= i <= len(lead):
                    base.segs.insert(i, ((), (), pos[1]))
                    return NONE
                raise Unknown("insert", n)
            if name in ("copy", "tolist"):
                return self.mk(base.segs, base.arr)
            if name == "astype":
                return self.mk(base.segs, True)
            if name in ("ravel", "flatten"):
                return self.ravel(base)
            if name == "reshape" and not kw:
                dims = list(pos[0].items) if len(pos) == 1 and isinstance(pos[0], Tup) else pos
                if len(dims) == 2 and freeze(dims[1]) == K(-1) and freeze(dims[0]) != K(-1):
                    return self.x_np_split([base, dims[0]], {}, n)
            if name == "index" and base.plain() and len(pos) == 1:
                f = [freeze(x) for _, _, x in base.segs]
                if freeze(pos[0]) in f:
                    return K(f.index(freeze(pos[0])))
                if all(self.distinct(freeze(pos[0]), x) for x in f):
                    raise Raised("ValueError", n, self.fr.f.module)
            if name == "pop" and base.plain() and not bs and not gs and base.segs:
                i = pos[0][2] if pos else -1
                return base.segs.pop(i)[2]
            if name == "sum" and not pos:
                return self.ext("np.sum", [base], kw, n)
            if base.unique and name == "add" and len(pos) == 1:
                self.add_item(base, pos[0], n)
                return NONE
            if base.unique and name == "update":
                for v in pos:
                    xs = self.few(v, n, 16)
                    if xs is None:
                        raise Unknown("set with unknown items", n)
                    for x in xs:
                        self.add_item(base, x, n)
                return NONE
            if name == "sort" and not pos and not bs and not gs and not base.over:
                r = self.order_by(base, kw, n)
                if r is not None:
                    base.segs[:] = [((), (), x) for x in r]
                    return NONE
            if name in ("add", "update", "remove", "discard", "sort", "insert", "pop", "fill", "resize", "put"):
                raise Unknown("method %s" % name, n)
            if name == "clear" and not pos and not bs and not gs:
                base.segs.clear()
                return NONE
            if name == "reverse" and base.plain() and not bs and not gs:
                base.segs.reverse()
                return NONE
            return ("m", name, freeze(base), tuple(freeze(x) for x in pos), tuple(sorted((k, freeze(v)) for k, v in kw.items())))
        if isinstance(base, D):
            if name in ("items", "keys", "values"):
                return View(base, name)
            if name == "get":
                try:
                    return self.subscript(base, pos[0], n) if self.contains(pos[0], base, n) == TRUE else (
                        (pos[1] if len(pos) > 1 else NONE) if self.contains(pos[0], base, n) == FALSE else self.subscript(base, pos[0], n))
                except Raised:
                    return pos[1] if len(pos) > 1 else NONE
            if name == "__setitem__":
                self.store_sub(base, pos[0], pos[1], n)
                return NONE
            if name == "__getitem__":
                return self.subscript(base, pos[0], n)
            if name == "update" and len(pos) == 1 and isinstance(pos[0], D) and not any(self.rel(base.depth)):
                for b, g, k, v in pos[0].entries:
                    if not b and not g:
                        self.store_sub(base, k, v, n)
                    else:
                        base.entries.append((b, g, k, v))
                return NONE
            if name == "clear" and not any(self.rel(base.depth)):
                base.entries.clear()
                return NONE
            if name == "copy":
                d = self.mkd()
                d.entries = list(base.entries)
                return d
            if name == "setdefault":
                raise Unknown("setdefault", n)
        if isinstance(base, tuple) and is_k(base) and isinstance(base[2], str):
            if all(is_k(x) for x in pos) and name in ("lower", "upper", "strip", "startswith", "endswith", "split", "replace", "format"):
                r = getattr(base[2], name)(*[x[2] for x in pos])
                if isinstance(r, list):
                    return self.concrete([K(x) for x in r])
                return K(r)
            return ("m", name, base, tuple(freeze(x) for x in pos), ())
        if isinstance(base, Tup) and name == "index":
            f = [freeze(x) for x in base.items]
            if freeze(pos[0]) in f:
                return K(f.index(freeze(pos[0])))
        raise Unknown("method %s" % name, n)

    def ext(self, name, pos, kw, n):
        if name in self.natives:
            r = self.natives[name](self, pos, kw, n)
            if r is not None:
                return r
        h = getattr(self, "x_" + name.replace(".", "_"), None)
        if h is not None:
            r = h(pos, kw, n)
            if r is not None:
                return r
        short = name.split(".")[-1]
        if name.startswith("builtins."):
            if short in IGNORED:
                return NONE
            if short in ("Exception", "ValueError", "KeyError", "TypeError"):
                return ("exc", short)
        t = ("call", name, tuple(freeze(x) for x in pos), tuple(sorted((k, freeze(v)) for k, v in kw.items())))
        self.record(name, None, pos, kw, n, t)
        return t

    # ---- models of library functions ----------------------------------------
    def x_builtins_len(self, pos, kw, n):
        return self.length(pos[0], n)

    def x_builtins_range(self, pos, kw, n):
        if len(pos) == 1:
            return ("range", K(0), self.scal(pos[0]))
        if len(pos) == 2:
            return ("range", self.scal(pos[0]), self.scal(pos[1]))
        if all(is_k(x) for x in pos):
            return self.concrete([K(i) for i in range(*[x[2] for x in pos])])
        raise Unknown("range with a step", n)

    def x_np_arange(self, pos, kw, n):
        if len(pos) in (1, 2):
            r = self.x_builtins_range(pos, {}, n)
            return self.to_list(r, n, True)

    def to_list(self, v, n, arr=False):
        if isinstance(v, tuple) and not is_k(v) and v[0] not in ("range", "zip", "enum", "map", "filter", "reversed") and v not in self.dicts:
            return v
        return self.mk(self.elements(v, n), arr)

    def x_builtins_enumerate(self, pos, kw, n):
        return ("enum", pos[0], pos[1] if len(pos) > 1 else kw.get("start", K(0)))

    def x_builtins_zip(self, pos, kw, n):
        return ("zip", tuple(pos))

    def x_builtins_list(self, pos, kw, n):
        if not pos:
            return self.mk()
        return self.to_list(pos[0], n)

    def x_builtins_tuple(self, pos, kw, n):
        if not pos:
            return Tup(())
        v = pos[0]
        if isinstance(v, Tup):
            return v
        if isinstance(v, L) and v.plain():
            return Tup(x for _, _, x in v.segs)
        if isinstance(v, L):
            return v
        els = self.elements(v, n) if isinstance(v, (View, D)) or (isinstance(v, tuple) and v[0] in ("range", "zip", "enum")) else None
        if els is None:
            return ("astuple", v)
        if all(not b and not g for b, g, _ in els):
            return Tup(x for _, _, x in els)
        return self.mk(els)

    def x_builtins_dict(self, pos, kw, n):
        d = self.mkd()
        if pos:
            if isinstance(pos[0], D):
                d.entries = list(pos[0].entries)
            else:
                for b, g, v in self.elements(pos[0], n):
                    k, x = self.unpack(v, 2, n)
                    d.entries.append((b, g, k, x))
        for k, v in kw.items():
            d.entries.append(((), (), K(k), v))
        return d

    def x_builtins_map(self, pos, kw, n):
        fn = pos[0]
        out = self.mk()
        if len(pos) == 2:
            els = self.elements(pos[1], n)
            els = [(b, g, [v]) for b, g, v in els]
        else:
            els = [(b, g, list(v.items)) for b, g, v in self.zipped([self.elements(x, n) for x in pos[1:]], n)]
        for b, g, v in els:
            nb, ng = len(self.binders), len(self.guards)
            self.binders.extend(b)
            self.guards.extend(g)
            self.fr.loops += 1
            r = self.apply(fn, v, {}, n)
            self.fr.loops -= 1
            del self.binders[nb:]
            del self.guards[ng:]
            out.segs.append((tuple(b), tuple(g), r))
        return out

    def x_builtins_filter(self, pos, kw, n):
        out = self.mk()
        for b, g, v in self.elements(pos[1], n):
            nb, ng = len(self.binders), len(self.guards)
            self.binders.extend(b)
            self.guards.extend(g)
            c = self.cond_term(self.apply(pos[0], [v], {}, n) if pos[0] != NONE else v)
            del self.binders[nb:]
            del self.guards[ng:]
            t = self.truth(c)
            if t is True:
                out.segs.append((b, g, v))
            elif t is None:
                if not b and not self.binders:
                    if self.decide(c, n):
                        out.segs.append((b, g, v))
                else:
                    out.segs.append((b, tuple(g) + (c,), v))
        return out

    def x_builtins_int(self, pos, kw, n):
        if is_k(pos[0]):
            return K(int(pos[0][2]))
        return self.scal(pos[0])

    def x_builtins_bool(self, pos, kw, n):
        c = self.cond_term(pos[0])
        t = self.truth(c)
        return c if t is None else K(t)

    def x_builtins_sum(self, pos, kw, n):
        return self.x_np_sum(pos[:1], {}, n, pos[1] if len(pos) > 1 else K(0))

    def x_np_sum(self, pos, kw, n, start=K(0)):
        v = pos[0]
        if kw:
            return None
        if isinstance(v, (L, Tup, View)) or (isinstance(v, tuple) and v[0] in ("range",)):
            r = start
            for bs, gs, x in self.elements(v, n):
                if isinstance(x, (L, Tup)):
                    return None
                x = self.scal(x)
                for g in gs:
                    x = ("ite", g, x, K(0)) if not (isinstance(g, tuple) and g[0] == "not") else ("ite", g[1], K(0), x)
                for b in reversed(bs):
                    x = self.sum_over(b, x)
                r = add(r, x)
            return r
        return None

    def x_builtins_isinstance(self, pos, kw, n):
        v, c = pos
        if isinstance(v, tuple) and v in self.ints and {x.name for x in (c.items if isinstance(c, Tup) else [c]) if isinstance(x, Ext)} & \
                {"builtins.int", "numbers.Integral"}:
            return TRUE
        if isinstance(v, O) and isinstance(c, ClassInfo):
            return K(c in self.p.mro(v.cls))
        if is_k(v) and isinstance(c, Ext):
            ty = {"builtins.int": int, "builtins.str": str, "builtins.float": float, "builtins.bool": bool}.get(c.name)
            if ty is not None:
                return K(isinstance(v[2], ty))
        if isinstance(v, L) and isinstance(c, Ext):
            return K(c.name == ("np.ndarray" if v.arr else "builtins.list"))
        return ("isinstance", freeze(v), freeze(c))

    def x_builtins_hasattr(self, pos, kw, n):
        if isinstance(pos[0], O) and is_k(pos[1]):
            return K(pos[1][2] in pos[0].attrs or self.p.lookup_method(pos[0].cls, pos[1][2]) is not None)
        if isinstance(pos[0], tuple) and is_k(pos[1]) and (pos[0], pos[1][2]) in self.store:
            return TRUE
        return None

    def x_builtins_getattr(self, pos, kw, n):
        if is_k(pos[1]):
            return self.attr(pos[0], pos[1][2], n)

    def x_builtins_all(self, pos, kw, n):
        return self.quant(pos[0], n, True)

    def x_builtins_any(self, pos, kw, n):
        return self.quant(pos[0], n, False)

    x_np_all = x_builtins_all
    x_np_any = x_builtins_any

    def quant(self, v, n, every):
        if isinstance(v, (L, Tup)):
            els = self.elements(v, n)
            if all(not b and not g for b, g, _ in els):
                ts = [self.cond_term(x) for _, _, x in els]
                tr = [self.truth(t) for t in ts]
                if every and False in tr:
                    return FALSE
                if not every and True in tr:
                    return TRUE
                rest = [t for t, x in zip(ts, tr) if x is None]
                if not rest:
                    return K(every)
                if len(rest) == 1:
                    return rest[0]
                return ("and" if every else "or",) + tuple(sorted(rest, key=repr))
        return ("all" if every else "any", freeze(v))

    def x_builtins_max(self, pos, kw, n):
        r = self.ranked(pos[0], n) if len(pos) == 1 and not kw else None
        if r:
            return max(r, key=lambda x: x[0])[1]
        return self.extreme(pos, kw, n, max, "max")

    def x_builtins_min(self, pos, kw, n):
        r = self.ranked(pos[0], n) if len(pos) == 1 and not kw else None
        if r:
            return min(r, key=lambda x: x[0])[1]
        return self.extreme(pos, kw, n, min, "min")

    def x_np_max(self, pos, kw, n):
        return self.extreme(pos, kw, n, max, "max")

    def x_np_min(self, pos, kw, n):
        return self.extreme(pos, kw, n, min, "min")

    def extreme(self, pos, kw, n, f, name):
        if kw:
            return None
        v = pos[0] if len(pos) == 1 else Tup(pos)
        if isinstance(v, L) and len(v.segs) == 1 and len(v.segs[0][0]) == 1 and not v.segs[0][1] and isinstance(v.segs[0][2], tuple) and \
                not is_splice(v.segs[0][2]) and not has(v.segs[0][2], ("bv", v.segs[0][0][0][0])):
            return v.segs[0][2]
        if isinstance(v, (L, Tup)):
            els = self.elements(v, n)
            if els and all(not b and not g and is_k(x) for b, g, x in els):
                return K(f(x[2] for _, _, x in els))
        return (name, freeze(v))

    def x_builtins_abs(self, pos, kw, n):
        if is_k(pos[0]):
            return K(abs(pos[0][2]))

    def x_builtins_reversed(self, pos, kw, n):
        els = self.elements(pos[0], n)
        if all(not b and not g for b, g, _ in els):
            return self.mk(list(reversed(els)))
        return ("reversed", freeze(pos[0]))

    def order_by(self, v, kw, n):
        """items of a sequence sorted by a key function and direction, None when the order is not known"""
        if not set(kw) <= {"key", "reverse"} or not is_k(kw.get("reverse", FALSE)):
            return None
        xs = self.few(v, n, 64)
        if xs is None:
            return None
        key = kw.get("key")
        ks = xs if key is None or key == NONE else [self.apply(key, [x], {}, n) for x in xs]
        r = self.ranked(self.concrete(ks), n) if ks else []
        if r is None:
            return None
        if len({type(k) for k, _ in r} - {int, float, bool}) > 1 or any(k is None for k, _ in r):
            return None
        i = sorted(range(len(xs)), key=lambda j: r[j][0], reverse=bool(kw.get("reverse", FALSE)[2]))
        return [xs[j] for j in i]

    def x_builtins_sorted(self, pos, kw, n):
        if kw:
            r = self.order_by(pos[0], kw, n)
            if r is not None:
                return self.concrete(r)
        els = self.elements(pos[0], n) if isinstance(pos[0], (L, Tup)) else None
        if els is not None and not kw and all(not b and not g and is_k(x) for b, g, x in els):
            return self.concrete([K(v) for v in sorted(x[2] for _, _, x in els)])
        r = self.ranked(pos[0], n) if not kw else None
        if r is not None:
            return self.concrete([x for _, x in sorted(r, key=lambda y: y[0])])
        return ("sorted", freeze(pos[0])) if not kw else None

    def x_np_sort(self, pos, kw, n):
        els = self.elements(pos[0], n) if isinstance(pos[0], (L, Tup)) else None
        if els is not None and not kw and all(not b and not g and is_k(x) for b, g, x in els):
            return self.concrete([K(v) for v in sorted(x[2] for _, _, x in els)], True)
        r = self.ranked(pos[0], n) if not kw else None
        if r is not None:
            return self.concrete([x for _, x in sorted(r, key=lambda y: y[0])], True)
        return ("sorted", freeze(pos[0])) if not kw else None

    def x_np_argsort(self, pos, kw, n):
        r = self.ranked(pos[0], n) if not kw else None
        if r is not None:
            return self.concrete([K(i) for i in sorted(range(len(r)), key=lambda i: r[i][0])], True)

    def x_np_array_equal(self, pos, kw, n):
        if len(pos) == 2 and all(isinstance(x, (L, Tup)) for x in pos):
            a, b = [self.mk([((), (), y) for y in x.items], True) if isinstance(x, Tup) else self.mk(x.segs, True) for x in pos]
            if a.plain() and b.plain():
                if len(a.segs) != len(b.segs):
                    return FALSE
                return self.quant(self.compare(ast.Eq(), a, b, n), n, True)

    def few(self, v, n, limit=6):
        els = self.elements(v, n) if isinstance(v, (L, Tup)) else None
        if els is not None and all(not b and not g for b, g, _ in els) and len(els) <= limit:
            return [x for _, _, x in els]

    def x_itertools_permutations(self, pos, kw, n):
        xs = self.few(pos[0], n)
        if xs is not None and not kw and all(is_k(x) for x in pos[1:]):
            return self.concrete([Tup(x) for x in itertools.permutations(xs, *[x[2] for x in pos[1:]])])

    def x_itertools_combinations(self, pos, kw, n):
        xs = self.few(pos[0], n)
        if xs is not None and not kw and len(pos) == 2 and is_k(pos[1]):
            return self.concrete([Tup(x) for x in itertools.combinations(xs, pos[1][2])])

    def x_builtins_set(self, pos, kw, n):
        if not pos:
            v = self.mk()
            v.unique = True
            return v
        xs = self.few(pos[0], n, 16)
        if xs is not None and all(is_k(x) for x in xs):
            xs = list(dict.fromkeys(xs))
            v = self.concrete(sorted(xs, key=lambda x: x[2]) if all(isinstance(x[2], int) for x in xs) else xs)
            v.unique = True
            return v
        return ("setof", freeze(pos[0]))

    def add_item(self, base, x, n):
        """x into a set"""
        bs, gs = self.rel(base.depth)
        f = freeze(x)
        if bs or gs or not base.plain():
            raise Unknown("set with unknown items", n)
        have = [freeze(y) for _, _, y in base.segs]
        if f in have:
            return
        if not all(self.distinct(f, y) for y in have):
            raise Unknown("item of a set", n)
        base.segs.append(((), (), x))
        if all(is_k(y) and isinstance(y[2], int) for _, _, y in base.segs):
            base.segs.sort(key=lambda y: y[2][2])

    def x_builtins_next(self, pos, kw, n):
        v = pos[0]
        if isinstance(v, L) and v.segs and not v.segs[0][0] and not v.segs[0][1]:
            return v.segs[0][2]
        return ("next", freeze(v))

    def x_builtins_iter(self, pos, kw, n):
        return pos[0]

    def x_builtins_str(self, pos, kw, n):
        if is_k(pos[0]):
            return K(str(pos[0][2]))
        return ("str", freeze(pos[0]))

    def x_builtins_slice(self, pos, kw, n):
        p = [freeze(x) for x in pos]
        if len(p) == 1:
            return ("slice", NONE, p[0], NONE)
        return ("slice",) + tuple(p) + (NONE,) * (3 - len(p))

    def x_builtins_property(self, pos, kw, n):
        return None

    def x_functools_partial(self, pos, kw, n):
        return Part(pos[0], list(pos[1:]), dict(kw))

    def x_operator_itemgetter(self, pos, kw, n):
        return None

    def identity(self, pos, kw, n):
        v = pos[0]
        if isinstance(v, L):
            r = self.mk(v.segs, True)
            r.over = list(v.over)
            return r
        if isinstance(v, Tup):
            return self.mk([((), (), x) for x in v.items], True)
        if isinstance(v, tuple) and v[0] in ("range", "zip"):
            return self.to_list(v, n, True)
        if isinstance(v, View):
            return self.to_list(v, n, True)
        return v

    x_np_array = x_np_asarray = x_np_ascontiguousarray = x_np_copy = x_np_atleast_1d = identity

    def x_copy_copy(self, pos, kw, n):
        v = pos[0]
        if isinstance(v, L):
            return self.mk(v.segs, v.arr)
        if isinstance(v, D):
            d = self.mkd()
            d.entries = list(v.entries)
            return d
        if isinstance(v, O):
            o = O(v.cls)
            o.attrs = dict(v.attrs)
            return o
        return ("copy", freeze(v))

    x_copy_deepcopy = x_copy_copy

    def x_np_concatenate(self, pos, kw, n):
        if kw and kw.get("axis", K(0)) != K(0):
            return None
        v = pos[0]
        parts = None
        if isinstance(v, Tup):
            parts = [((), (), x) for x in v.items]
        elif isinstance(v, L):
            parts = v.segs
        elif isinstance(v, View):
            parts = self.elements(v, n)
        if parts is None:
            return None
        out = []
        for bs, gs, x in parts:
            if isinstance(x, L) and not bs and not gs:
                out += x.segs
            elif isinstance(x, L):
                for b2, g2, y in x.segs:
                    out.append((tuple(bs) + tuple(b2), tuple(gs) + tuple(g2), y))
            elif isinstance(x, Tup):
                out += [(bs, gs, y) for y in x.items]
            else:
                out.append((bs, gs, ("splice", x)))
        return self.mk(out, True)

    x_np_hstack = x_np_concatenate

    def x_np_append(self, pos, kw, n):
        a, b = pos[0], pos[1]
        out = list(a.segs) if isinstance(a, L) else [((), (), ("splice", freeze(a)))]
        if isinstance(b, L):
            out += b.segs
        elif isinstance(b, Tup):
            out += [((), (), x) for x in b.items]
        elif isinstance(b, tuple) and (is_k(b) or b[0] in ("bv", "key", "val") or self.scalarish(b)) or isinstance(b, O):
            out.append(((), (), b))
        else:
            out.append(((), (), ("splice", freeze(b))))
        return self.mk(out, True)

    def x_np_insert(self, pos, kw, n):
        a, i, b = pos[0], pos[1], pos[2]
        if isinstance(a, View):
            a = self.to_list(a, n, True)
        if isinstance(a, tuple) and i == K(0) and (is_k(b) or self.scalarish(b)) and not kw:
            return self.mk([((), (), b), ((), (), ("splice", a))], True)
        if isinstance(a, L) and i == K(0) and isinstance(b, tuple) and (is_k(b) or self.scalarish(b)) and not kw:
            return self.mk([((), (), b)] + list(a.segs), True)
        return None

    def x_np_add_accumulate(self, pos, kw, n):
        v = pos[0]
        if isinstance(v, View):
            v = self.to_list(v, n, True)
        if isinstance(v, (L, Tup)) and not kw:
            els = v.segs if isinstance(v, L) else [((), (), x) for x in v.items]
            out, acc = [], K(0)
            first = True
            for bs, gs, x in els:
                if not bs and not gs and not is_splice(x):
                    acc = add(acc, self.scal(x))
                    out.append(((), (), acc))
                elif len(bs) == 1 and not gs and not is_splice(x):
                    b = bs[0]
                    x = self.scal(x)
                    bv = ("bv", b[0])
                    if has(x, bv):
                        pre = ("psum", bv, subst(x, {bv: ("bv", "*")}))
                    else:
                        pre = mul(bv, x)
                    out.append((bs, gs, add(acc, add(pre, x))))
                    acc = add(acc, self.sum_over(b, x))
                else:
                    return None
                first = False
            # [0, s0, s0+s1, ...]: merge a leading constant with the sums after it into one generic segment
            if len(out) == 2 and not out[0][0] and len(out[1][0]) == 1:
                b, c = out[1][0][0]
                bv = ("bv", b)
                x = self.scal(els[1][2])
                nb = next(self.bid)
                nv = ("bv", nb)
                pre = ("psum", nv, subst(x, {bv: ("bv", "*")})) if has(x, bv) else mul(nv, x)
                return self.mk([(((nb, add(c, K(1))),), (), add(out[0][2], pre))], True)
            return self.mk(out, True)
        return None

    x_np_cumsum = x_np_add_accumulate

    def x_itertools_accumulate(self, pos, kw, n):
        return self.x_np_add_accumulate(pos, kw, n)

    def x_np_repeat(self, pos, kw, n):
        if len(pos) == 2 and not kw:
            return ("repeat", freeze(pos[0]), freeze(pos[1]))

    def x_np_tile(self, pos, kw, n):
        if len(pos) == 2 and not kw:
            return ("tile", freeze(pos[0]), freeze(pos[1]))

    def x_np_ravel(self, pos, kw, n):
        return self.ravel(pos[0])

    def fresh_array(self, pos, kw, n):
        """a new array: equal shapes do not make equal arrays"""
        shape = pos[0] if pos else kw.get("shape")
        return ("array", next(self.bid), freeze(shape) if shape is not None else None)

    x_np_zeros = x_np_empty = x_np_ones = x_np_full = fresh_array

    def array_elements(self, v, n):
        """generic element of an array, as a list with one segment"""
        if isinstance(v, L):
            return v
        return self.mk(self.elements(v, n), True)

    def x_np_isclose(self, pos, kw, n):
        v = pos[0]
        if isinstance(v, L) or self.arrayish(v):
            c = freeze(pos[1])
            return self.map_arr(self.array_elements(v, n), lambda x: ("isclose", self.scal(x), c))
        return ("isclose", freeze(v), freeze(pos[1]))

    def x_np_abs(self, pos, kw, n):
        v = pos[0]
        if isinstance(v, L) or self.arrayish(v):
            return self.map_arr(self.array_elements(v, n), lambda x: ("abs", self.scal(x)))
        return ("abs", freeze(v))

    x_np_fabs = x_np_absolute = x_np_abs

    def x_np_logical_not(self, pos, kw, n):
        if isinstance(pos[0], L):
            return self.map_arr(pos[0], lambda x: neg(self.scal(x)))
        return neg(self.cond_term(pos[0]))

    def positions(self, pos, kw, n):
        """indices at which an array of conditions (or numbers) is not zero"""
        v = pos[0]
        if len(pos) != 1 or kw or not (isinstance(v, L) or self.arrayish(v)):
            return None
        l = self.array_elements(v, n)
        if l.plain():
            ts = [self.truth(self.cond_term(x)) for _, _, x in l.segs]
            if None not in ts:
                return self.concrete([K(i) for i, t in enumerate(ts) if t], True)
            return None
        if len(l.segs) != 1 or len(l.segs[0][0]) != 1 or is_splice(l.segs[0][2]):
            return None
        b, g, x = l.segs[0]
        if g:
            return None
        x = self.scal(x)
        c = x if self.boolish(x) or x[0] == "isclose" else neg(("eq",) + tuple(sorted((x, K(0)), key=repr)))
        return self.mk([(b, (c,), ("bv", b[0][0]))], True)

    def x_np_where(self, pos, kw, n):
        r = self.positions(pos, kw, n)
        return Tup((r,)) if r is not None else None

    x_np_nonzero = x_np_where
    x_np_flatnonzero = positions

    def x_np_unique(self, pos, kw, n):
        if not kw and isinstance(pos[0], (L, Tup)):
            els = self.elements(pos[0], n)
            if all(not b and not g and is_k(x) for b, g, x in els):
                return self.concrete([K(v) for v in sorted({x[2] for _, _, x in els})], True)
        return None

    def x_np_split(self, pos, kw, n):
        if len(pos) == 2 and not kw and not isinstance(pos[1], (L, Tup)):
            k = freeze(pos[1])
            v = pos[0]
            if isinstance(v, L) and len(v.segs) == 1 and len(v.segs[0][0]) == 1 and not v.segs[0][1]:
                (b, c), = v.segs[0][0]
                size = self.quotient(c, k)
                i = self.fresh(k)
                j = self.fresh(size)
                val = subst(v.segs[0][2], {("bv", b): add(mul(("bv", i[0]), size), ("bv", j[0]))})
                inner = L([((j,), (), val)], True, (len(self.binders), len(self.guards)))
                self.heap.append(inner)
                return self.mk([((i,), (), inner)])
            i = self.fresh(k)
            return self.mk([((i,), (), ("chunk", freeze(v), k, ("bv", i[0])))])

    def natural(self, t):
        """a sum of sizes: never negative"""
        return all(isinstance(c, int) and c >= 0 and all(a[0] == "len" for a in mono) for mono, c in _mons(t).items())

    def quotient(self, c, k):
        """c / k when k divides every monomial"""
        out = {}
        for mono, co in _mons(c).items():
            if k in mono:
                l = list(mono)
                l.remove(k)
                out[tuple(l)] = out.get(tuple(l), 0) + co
            elif is_k(k) and isinstance(k[2], int) and isinstance(co, int) and k[2] and co % k[2] == 0:
                out[mono] = out.get(mono, 0) + co // k[2]
            else:
                return ("div", c, k)
        return _build(out)

    def x_np_mean(self, pos, kw, n):
        v = pos[0]
        if isinstance(v, L) and not kw and len(v.segs) == 1 and not v.segs[0][1] and len(v.segs[0][0]) == 1:
            x = self.scal(v.segs[0][2])
            if not is_splice(x) and not has(x, ("bv", v.segs[0][0][0][0])):
                return x
        return None


class _LocalInfo:
    def __init__(self, local):
        self.module, self.node, self.cls = local.f.module, local.node, None
        self.name = local.node.name
        self.id = local.f.id + "." + self.name
        self.params = [x.arg for x in local.node.args.args]

    def __eq__(self, o):
        return isinstance(o, _LocalInfo) and o.node is self.node

    def __hash__(self):
        return id(self.node)


class _LambdaInfo(_LocalInfo):
    def __init__(self, local):
        r = ast.Return(value=local.node.body)
        ast.copy_location(r, local.node.body)
        node = ast.FunctionDef(name="<lambda>", args=local.node.args, body=[r], decorator_list=[], returns=None)
        ast.copy_location(node, local.node)
        self.module, self.node, self.cls = local.f.module, node, None
        self.name = "<lambda>"
        self.id = local.f.id + ".<lambda>"
        self.params = [x.arg for x in local.node.args.args]


def canon_module(name):
    return {"numpy": "np", "networkx": "nx"}.get(name, name).replace("numpy.", "np.")


class Outcome:
    def __init__(self, kind, value, it, why=None, node=None, module=None):
        self.kind, self.value, self.it, self.why, self.node, self.module = kind, value, it, why, node, module


def explore(make, run, limit=128):
    """all partitions of run(interp); make(decisions) builds the interpreter"""
    pending, out = [[]], []
    while pending:
        if len(out) >= limit:
            out.append(Outcome("unknown", None, None, "too many cases"))
            break
        dec = pending.pop()
        it = make(dec)
        try:
            v = run(it)
            out.append(Outcome("value", v, it))
        except Raised as r:
            out.append(Outcome("raise", r.what, it, node=r.node, module=r.module))
        except Unknown as u:
            out.append(Outcome("unknown", None, it, u.why, u.node, it.frames[-1].f.module if it.frames else None))
        pending += it.forks
    return out
