"""Kinds of identifiers: an abstract interpreter over what an integer identifies.

A value is a frozenset of alternatives:
  ("k", kind)            an identifier of that kind
  ("cnt", kind)          how many things of that kind there are
  ("num",)               a number, text or flag that identifies nothing
  ("none",), ("top",)    None, anything
  ("var", id)            a parameter or loop variable nothing is known about; its first use decides its kind
  ("seq", elem, key)     a sequence; positions in it are identifiers of kind `key` (None: of no kind)
  ("tup", (v, ...))      a tuple
  ("dict", keys, values) a mapping
  ("graph", nodes)       a graph
  ("ref", site)          a container made by the code, whose contents are in the heap (joined over all writes)
  ("obj", ClassInfo)     an instance;  ("cls", ClassInfo)
  ("fn", FuncInfo), ("bm", FuncInfo, obj), ("ext", name), ("meth", base, name), ("part", fn, pos, kw), ("lam", id)

Functions of the program are followed into (once for each combination of argument kinds); every function is a root."""
import ast
import builtins

from .core import ClassInfo, FuncInfo
from .typeinf import Types, Ctx, UNK

TOP = frozenset([("top",)])
NUM = frozenset([("num",)])
NONE = frozenset([("none",)])
BOT = frozenset()
MAIN = ("cell", "node", "elpos", "bcpos", "tag", "dof", "dim", "loc")
NAMES = {"cell": "a cell identifier", "node": "a node tag", "elpos": "an element position", "bcpos": "a boundary element position",
         "tag": "a physical tag", "dof": "an unknown's number", "dim": "a dimension", "loc": "a position inside a cell",
         "pos": "a position in a filtered list"}


def k(kind):
    return frozenset([("k", kind)])


def cnt(kind):
    return frozenset([("cnt", kind)]) if kind else NUM


def seq(elem, key=None):
    return frozenset([("seq", elem, key)])


def tup(*vs):
    return frozenset([("tup", tuple(vs))])


def dct(ks, vs):
    return frozenset([("dict", ks, vs)])


def depth(v, n=0):
    if n > 6:
        return n
    m = n
    for x in v:
        for y in parts(x):
            m = max(m, depth(y, n + 1))
    return m


def parts(x):
    if x[0] == "seq" or x[0] == "graph":
        return (x[1],)
    if x[0] == "dict":
        return (x[1], x[2])
    if x[0] == "tup":
        return x[1]
    return ()


def join(*vs):
    vs = [v for v in vs if v]
    if not vs:
        return BOT
    out = vs[0]
    for v in vs[1:]:
        if v is not out and not v <= out:
            out = out | v
    if len(vs) > 1 and (len(out) > 12 or depth(out) > 5):
        return TOP
    return out


def show(v, n=0):
    names = []
    for x in sorted(v, key=str):
        t = x[0]
        if t == "k":
            names.append(NAMES.get(x[1], x[1]))
        elif t == "cnt":
            names.append("a count of %s" % x[1])
        elif t == "seq":
            names.append("a list of (%s)" % show(x[1], n + 1))
        elif t == "tup":
            names.append("(%s)" % ", ".join(show(y, n + 1) for y in x[1]))
        elif t == "dict":
            names.append("a map from (%s) to (%s)" % (show(x[1], n + 1), show(x[2], n + 1)))
        elif t == "graph":
            names.append("a graph of (%s)" % show(x[1], n + 1))
        elif t == "obj":
            names.append("a " + x[1].name)
        elif t == "top":
            names.append("anything")
        else:
            names.append(t)
    return " or ".join(names) or "nothing"


def agree(a, b):
    """do two alternatives identify the same sort of thing: True, False, None (cannot tell)"""
    if a[0] == "k" and b[0] == "k":
        if a[1] == b[1]:
            return True
        if "pos" in (a[1], b[1]):
            return False if {a[1], b[1]} & {"cell", "node"} else None
        if {a[1], b[1]} == {"loc", "dim"}:
            return None
        return False
    if a[0] == "tup" and b[0] == "tup":
        if len(a[1]) != len(b[1]):
            return None
        rs = [within(x, y) for x, y in zip(a[1], b[1])]
        return False if False in rs else True if all(r is True for r in rs) else None
    for x, y in ((a, b), (b, a)):
        if x[0] == "tup" and y[0] == "k" and any(("k", "cell") in e or ("k", "node") in e for e in x[1]):
            return False
        if x[0] == "obj" and y[0] == "k":
            return False if x[1].name == "MeshCell" else None
    if a[0] == "seq" and b[0] == "seq":
        r = within(a[1], b[1])
        if r is not False and a[2] and b[2] and agree(("k", a[2]), ("k", b[2])) is False:
            return False
        return r
    if a[0] == "dict" and b[0] == "dict":
        rs = [within(a[1], b[1]), within(a[2], b[2])]
        return False if False in rs else True if rs == [True, True] else None
    if a[0] == "graph" and b[0] == "graph":
        return within(a[1], b[1])
    if a[0] == "obj" and b[0] == "obj" and a[1] is b[1]:
        return True
    return None


def within(v, w):
    """every alternative of v against those of w: False when one of v fits none of w"""
    if not w or ("top",) in w or not v:
        return None
    out = True
    for a in v:
        rs = [agree(a, b) for b in w]
        if True in rs:
            continue
        if rs and all(r is False for r in rs):
            return False
        out = None
    return out


class Dead(Exception):
    pass


class State:
    __slots__ = ("env", "binds")

    def __init__(self, env, binds):
        self.env, self.binds = env, binds

    def copy(self):
        return State(dict(self.env), dict(self.binds))


def merge(a, b):
    if a is None:
        return b
    if b is None:
        return a
    env = {}
    for n in set(a.env) | set(b.env):
        x, y = a.env.get(n), b.env.get(n)
        env[n] = x if y is None else y if x is None else x if x is y else join(x, y)
    binds = {v: kd for v, kd in a.binds.items() if b.binds.get(v) == kd}
    return State(env, binds)


class Frame:
    def __init__(self, f, node, mod, cls, chain):
        self.f, self.node, self.mod, self.cls, self.chain = f, node, mod, cls, chain
        self.ret, self.retstate = BOT, None
        self.loops = []
        self.ctx = None


class Kinds:
    MAXDEPTH = 12

    def __init__(self, program, schema, params, returns, types=None):
        """schema: {(class, attr): value}, params: {(class|None, function): {position: value}}, returns: {(class|None, function): value}"""
        self.p = program
        self.types = types or Types(program)
        self.schema, self.dparams, self.dreturns = schema, params, returns
        self.attrs, self.heap, self.lams = {}, {}, {}
        self.memo, self.stack = {}, []
        self.found, self.sites = {}, {}
        self.changed = False
        self.report = True
        self.calls = 0

    # -- reporting ---------------------------------------------------------------
    def obligation(self, fr, node, rule, good, what):
        where = (fr.mod.path, getattr(node, "lineno", 0))
        key = (rule, id(node))
        if good is True:
            self.sites.setdefault(key, (rule, where, what))
        elif good is False and self.report:
            self.found.setdefault((rule, fr.f.id if fr.f else fr.mod.name, node_text(node)), (where, what, fr.chain))

    # -- heap ----------------------------------------------------------------------
    def site(self, fr, node, kind):
        s = (fr.chain[-3:], id(node), kind)
        if s not in self.heap:
            self.heap[s] = {"kind": kind, "e": BOT, "k": BOT, "v": BOT, "items": None}
            self.changed = True
        return frozenset([("ref", s)])

    def put(self, s, part, v):
        h = self.heap[s]
        new = join(h[part], self.plain(v))
        if new != h[part]:
            h[part] = new
            self.changed = True

    def plain(self, v):
        return frozenset(("top",) if x[0] == "var" else x for x in v)

    def settle(self, v):
        """what a constant position of a container with contents of several kinds holds: we cannot judge it"""
        ks = {x[1] for x in v if x[0] == "k"}
        if len(ks) > 1 or (ks and any(x[0] == "tup" for x in v)):
            return TOP
        return v

    def views(self, v):
        out = []
        for x in v:
            if x[0] == "ref":
                h = self.heap[x[1]]
                if h["kind"] == "list":
                    out.append(("seq", h["e"], None))
                elif h["kind"] == "dict":
                    out.append(("dict", h["k"], h["v"]))
                else:
                    out.append(("graph", h["e"]))
            else:
                out.append(x)
        return out

    def deep(self, v, n=4):
        """a value with the contents of its containers written out"""
        out = set()
        for x in self.views(v):
            if n and x[0] == "tup":
                x = ("tup", tuple(self.deep(e, n - 1) for e in x[1]))
            elif n and x[0] == "seq":
                x = ("seq", self.deep(x[1], n - 1), x[2])
            elif n and x[0] == "dict":
                x = ("dict", self.deep(x[1], n - 1), self.deep(x[2], n - 1))
            elif x[0] == "graph" and n:
                x = ("graph", self.deep(x[1], n - 1))
            elif x[0] == "var":
                x = ("top",)
            out.add(x)
        return frozenset(out)

    def elem(self, v):
        """what iteration over a value gives"""
        out = BOT
        for x in self.views(v):
            if x[0] == "seq":
                out = join(out, x[1])
            elif x[0] == "tup":
                out = join(out, *x[1])
            elif x[0] == "dict":
                out = join(out, x[1])
            elif x[0] == "graph":
                out = join(out, x[1])
            elif x[0] in ("none",):
                continue
            else:
                out = join(out, TOP)
        return out

    def key(self, v):
        ks = {x[2] if x[0] == "seq" else None for x in self.views(v) if x[0] != "none"}
        return ks.pop() if len(ks) == 1 else None

    # -- roots -----------------------------------------------------------------------
    def run(self, funcs=None, passes=4):
        roots = [f for f in self.p.functions()]
        for n in range(passes):
            self.changed = False
            self.memo = {}
            self.report = False
            for f in roots:
                self.root(f)
            if not self.changed:
                break
        self.memo = {}
        self.report = True
        for f in roots:
            self.root(f)

    def root(self, f):
        env = {}
        a = f.node.args
        loc = self.types.locals.get(id(f.node), {})
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        decl = self.declared_params(f)
        for i, n in enumerate(names):
            if i == 0 and f.cls is not None and not f.is_static():
                env[n] = frozenset([("cls" if f.is_classmethod() else "obj", f.cls)])
            elif n in decl:
                env[n] = decl[n]
            else:
                v = self.conv(loc.get(n, frozenset([UNK])))
                env[n] = frozenset([("var", (f.id, n))]) if v == TOP else v
        for x in (a.vararg, a.kwarg):
            if x is not None:
                env[x.arg] = TOP
        fr = Frame(f, f.node, f.module, f.cls, (f.id,))
        self.stack = [f.id]
        self.body(fr, env, {})
        if self.dreturn(f) is not None:
            self.check_return(fr, f, fr.ret)

    def conv(self, t):
        if UNK in t:
            return TOP
        out = BOT
        for x in t:
            if x[0] == "inst" and isinstance(x[1], ClassInfo):
                out = join(out, frozenset([("obj", x[1])]))
            elif x[0] == "seq":
                e = self.conv(x[1]) if x[1] else TOP
                out = join(out, seq(e) if any(y[0] in ("obj", "seq") for y in e) else TOP)
            elif x == ("none",):
                out = join(out, NONE)
            elif x[0] == "dict":
                v = self.conv(x[2]) if x[2] else TOP
                out = join(out, dct(TOP, v) if v != TOP else TOP)
            elif x[0] == "tuple":
                out = join(out, tup(*[self.conv(y) if y else TOP for y in x[1]]))
            else:
                out = join(out, TOP)
        return out or TOP

    def class_names(self, f):
        return [c.name for c in self.p.mro(f.cls)] if f.cls is not None else [None]

    def declared_params(self, f):
        out = {}
        for c in self.class_names(f):
            d = self.dparams.get((c, f.node.name))
            if d and (c is not None or f.cls is None):
                ps = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
                off = 1 if f.cls is not None and not f.is_static() else 0
                for i, v in d.items():
                    if i + off < len(ps):
                        out[ps[i + off]] = v
                break
        return out

    def dreturn(self, f):
        for c in self.class_names(f):
            if (c, f.node.name) in self.dreturns:
                return self.dreturns[(c, f.node.name)]
        return None

    def check_return(self, fr, f, v):
        want = self.dreturn(f)
        good = within(self.deep(v), want)
        self.obligation(fr, f.node, "returned kind", good, "%s returns %s; it is documented to return %s" % (
            f.id, show(self.deep(v)), show(want)))

    # -- functions ---------------------------------------------------------------------
    def body(self, fr, env, binds):
        fr.ctx = Ctx(self.types, fr.f, fr.node, fr.mod, fr.cls)
        st = State(env, binds)
        if isinstance(fr.node, ast.Lambda):
            fr.ret = self.ev(fr, fr.node.body, st)
            return fr.ret, st.binds
        out = self.block(fr, fr.node.body, st)
        if out is not None:
            fr.ret = join(fr.ret, NONE)
            fr.retstate = merge(fr.retstate, out)
        return fr.ret, (fr.retstate.binds if fr.retstate is not None else {})

    def invoke(self, fr, f, pos, kw, selfv, node, st):
        """call a function of the program"""
        pos = [frozenset(x if x[0] != "var" or st.binds.get(x[1]) is None else ("k", st.binds[x[1]]) for x in v) for v in pos]
        kw = {n: frozenset(x if x[0] != "var" or st.binds.get(x[1]) is None else ("k", st.binds[x[1]]) for x in v)
              for n, v in kw.items()}
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        rest = list(names)
        if f.cls is not None and not f.is_static() and selfv is not None:
            env[rest.pop(0)] = selfv
        for n, v in zip(list(rest), pos):
            env[n] = v
            rest.remove(n)
        extra = pos[len(names) - (1 if selfv is not None and f.cls is not None and not f.is_static() else 0):]
        kwonly = [x.arg for x in a.kwonlyargs]
        for n, v in kw.items():
            if n in rest or n in kwonly:
                env[n] = v
        defaults = dict(zip(names[::-1], a.defaults[::-1]))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in rest + kwonly:
            if n not in env:
                d = defaults.get(n)
                env[n] = (NONE if isinstance(d, ast.Constant) and d.value is None else NUM if isinstance(d, ast.Constant) else TOP)
        if a.vararg is not None:
            env[a.vararg.arg] = seq(join(*extra) if extra else TOP)
        if a.kwarg is not None:
            env[a.kwarg.arg] = TOP
        decl = self.declared_params(f)
        for n, want in decl.items():
            if n in env:
                good = self.fits(fr, env[n], want, st)
                self.obligation(fr, node, "argument kind", good, "%s passes %s as %s of %s, which takes %s" % (
                    fr.f.id if fr.f else fr.mod.name, show(frozenset(self.views(env[n]))), n, f.id, show(want)))
                env[n] = want
        chain = fr.chain + (id(node),)
        if f.id in self.stack or len(self.stack) > self.MAXDEPTH:
            v = TOP
        else:
            mk = (f.id, tuple(sorted((n, v) for n, v in env.items())) if False else frozenset(env.items()), chain[-3:])
            hit = self.memo.get(mk)
            if hit is None:
                g = Frame(f, f.node, f.module, f.cls, chain)
                self.stack.append(f.id)
                self.calls += 1
                try:
                    hit = self.body(g, dict(env), {})
                finally:
                    self.stack.pop()
                self.memo[mk] = hit
                if self.dreturn(f) is not None:
                    self.check_return(g, f, hit[0])
            v, b = hit
            for var, kd in b.items():
                st.binds.setdefault(var, kd)
            if is_generator(f.node):
                v = TOP
        want = self.dreturn(f)
        return want if want is not None else (v or TOP)

    # -- comparisons of kinds --------------------------------------------------------------
    def fits(self, fr, v, want, st):
        """within(), where unknown variables take the kind of their first use"""
        ks = [x for x in want if x[0] == "k"]
        out = None
        if len(want) - len([x for x in want if x[0] == "none"]) == 1 and ks:
            kd = ks[0][1]
            for x in v:
                if x[0] == "var":
                    b = st.binds.get(x[1])
                    if b is None:
                        if kd in MAIN:
                            st.binds[x[1]] = kd
                    else:
                        r = agree(("k", b), ks[0])
                        if r is False:
                            return False
                        out = r
        flat = frozenset(x for x in self.deep(v) if x[0] in ("k", "tup", "seq", "dict", "graph", "obj"))
        if flat:
            return within(flat, want)
        return out

    def compare(self, fr, node, a, b, st, what):
        """two values are compared with each other"""
        a, b = frozenset(self.views(a)), frozenset(self.views(b))
        x, y = self.scalars(a), self.scalars(b)
        bad = ok = False
        for u, w in ((x, y), (y, x)):
            vs = [q for q in u if q[0] == "var"]
            if vs and len(w) == 1:
                o = next(iter(w))
                if o[0] == "k":
                    for q in vs:
                        bnd = st.binds.get(q[1])
                        if bnd is None:
                            if o[1] in MAIN:
                                st.binds[q[1]] = o[1]
                        else:
                            r = agree(("k", bnd), o)
                            bad |= r is False
                            ok |= r is True
        for u in x:
            for w in y:
                r = agree(u, w)
                bad |= r is False
                ok |= r is True
        if bad and not ok:
            self.obligation(fr, node, "comparison", False, "%s compares %s with %s" % (what, show(x), show(y)))
        elif ok:
            self.obligation(fr, node, "comparison", True, what)

    def scalars(self, v):
        """an array compared elementwise stands for its elements"""
        out = set()
        for x in v:
            if x[0] == "seq":
                out |= set(x[1])
            else:
                out.add(x)
        return frozenset(x for x in out if x[0] in ("k", "tup", "obj", "var"))

    # -- statements --------------------------------------------------------------------------
    def block(self, fr, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(fr, s, st)
        return st

    def stmt(self, fr, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            for n in ast.iter_child_nodes(s):
                if isinstance(n, ast.expr):
                    self.ev(fr, n, st)
            return st
        return m(fr, s, st)

    def s_Expr(self, fr, s, st):
        self.ev(fr, s.value, st)
        return st

    def s_Assign(self, fr, s, st):
        v = self.ev(fr, s.value, st)
        for t in s.targets:
            self.bind(fr, t, v, st)
        return st

    def s_AnnAssign(self, fr, s, st):
        if s.value is not None:
            v = self.ev(fr, s.value, st)
            if v == TOP:
                v = self.conv(self.types.annotation(s.annotation, fr.mod))
            self.bind(fr, s.target, v, st)
        return st

    def s_AugAssign(self, fr, s, st):
        cur = self.ev(fr, as_load(s.target), st)
        v = self.ev(fr, s.value, st)
        if isinstance(s.op, ast.Add) and any(x[0] == "ref" and self.heap[x[1]]["kind"] == "list" for x in cur):
            for x in cur:
                if x[0] == "ref" and self.heap[x[1]]["kind"] == "list":
                    self.put(x[1], "e", self.elem(v))
                    self.heap[x[1]]["items"] = None
            return st
        new = self.arith(s.op, cur, v)
        if isinstance(s.target, ast.Name):
            st.env[s.target.id] = new
        elif isinstance(s.target, (ast.Attribute, ast.Subscript)):
            self.bind(fr, s.target, new, st)
        return st

    def s_Return(self, fr, s, st):
        v = self.ev(fr, s.value, st) if s.value is not None else NONE
        fr.ret = join(fr.ret, v)
        fr.retstate = merge(fr.retstate, st)
        return None

    def s_Raise(self, fr, s, st):
        if s.exc is not None:
            self.ev(fr, s.exc, st)
        return None

    def s_Break(self, fr, s, st):
        if fr.loops:
            fr.loops[-1][0] = merge(fr.loops[-1][0], st)
        return None

    def s_Continue(self, fr, s, st):
        if fr.loops:
            fr.loops[-1][1] = merge(fr.loops[-1][1], st)
        return None

    def s_If(self, fr, s, st):
        self.ev(fr, s.test, st)
        a, b = st.copy(), st.copy()
        self.refine(fr, s.test, a, True)
        self.refine(fr, s.test, b, False)
        return merge(self.block(fr, s.body, a), self.block(fr, s.orelse, b))

    def refine(self, fr, t, st, positive):
        """`x is None`, `x is not None`"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.refine(fr, t.operand, st, not positive)
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) and positive:
            for x in t.values:
                self.refine(fr, x, st, True)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) \
                and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None \
                and isinstance(t.ops[0], (ast.Is, ast.IsNot)):
            isnone = isinstance(t.ops[0], ast.Is) == positive
            v = st.env.get(t.left.id)
            if v:
                nv = frozenset(x for x in v if (x[0] == "none") == isnone or x[0] in ("top", "var"))
                if nv:
                    st.env[t.left.id] = NONE if isnone else nv

    def s_For(self, fr, s, st):
        v = self.ev(fr, s.iter, st)
        done = st
        cur = st
        for _ in range(2):
            it = cur.copy()
            self.bind(fr, s.target, self.loopvar(s, self.elem(v), it), it, s)
            fr.loops.append([None, None])
            out = self.block(fr, s.body, it)
            brk, cont = fr.loops.pop()
            out = merge(out, cont)
            done = merge(merge(done, out), brk)
            cur = merge(cur, out)
        return self.block(fr, s.orelse, done) if s.orelse else done

    def loopvar(self, node, v, st):
        if v == TOP:
            q = ("var", id(node))
            st.binds.pop(q[1], None)
            return frozenset([q])
        return v

    def s_While(self, fr, s, st):
        cur, done = st, None
        for _ in range(2):
            it = cur.copy()
            self.ev(fr, s.test, it)
            done = merge(done, it)
            it = it.copy()
            fr.loops.append([None, None])
            out = self.block(fr, s.body, it)
            brk, cont = fr.loops.pop()
            out = merge(out, cont)
            done = merge(merge(done, out), brk)
            cur = merge(cur, out)
        return done

    def s_With(self, fr, s, st):
        for i in s.items:
            v = self.ev(fr, i.context_expr, st)
            if i.optional_vars is not None:
                self.bind(fr, i.optional_vars, TOP, st)
        return self.block(fr, s.body, st)

    def s_Try(self, fr, s, st):
        start = st.copy()
        out = self.block(fr, s.body, st)
        base = merge(start, out)
        res = self.block(fr, s.orelse, out) if out is not None and s.orelse else out
        for h in s.handlers:
            b = base.copy()
            if h.name:
                b.env[h.name] = TOP
            res = merge(res, self.block(fr, h.body, b))
        if s.finalbody:
            if res is None:
                self.block(fr, s.finalbody, base.copy())
                return None
            res = self.block(fr, s.finalbody, res)
        return res

    def s_FunctionDef(self, fr, s, st):
        self.lams[id(s)] = (s, dict(st.env), fr)
        st.env[s.name] = frozenset([("lam", id(s))])
        return st

    def s_ClassDef(self, fr, s, st):
        st.env[s.name] = TOP
        return st

    def s_Import(self, fr, s, st):
        for al in s.names:
            st.env[(al.asname or al.name).split(".")[0]] = TOP
        return st

    s_ImportFrom = s_Import

    def s_Assert(self, fr, s, st):
        self.ev(fr, s.test, st)
        self.refine(fr, s.test, st, True)
        return st

    def s_Delete(self, fr, s, st):
        return st

    def s_Pass(self, fr, s, st):
        return st

    # -- binding --------------------------------------------------------------------------------
    def bind(self, fr, t, v, st, loop=None):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, t.elts)
            for x, w in zip(t.elts, vs):
                if isinstance(x, ast.Starred):
                    self.bind(fr, x.value, seq(w), st)
                else:
                    if loop is not None and w == TOP:
                        w = self.loopvar(x, w, st)
                    self.bind(fr, x, w, st, loop)
        elif isinstance(t, ast.Attribute):
            base = self.ev(fr, t.value, st)
            self.set_attr(fr, t, base, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            base = self.ev(fr, t.value, st)
            self.set_item(fr, t, base, t.slice, v, st)
        elif isinstance(t, ast.Starred):
            self.bind(fr, t.value, seq(TOP), st)

    def unpack(self, v, elts):
        n = len(elts)
        outs = [BOT] * n
        for x in v:
            items = None
            if x[0] == "tup":
                items = list(x[1])
            elif x[0] == "ref" and self.heap[x[1]]["items"]:
                items = list(self.heap[x[1]]["items"])
            if items is not None and len(items) == n and not any(isinstance(e, ast.Starred) for e in elts):
                outs = [join(a, b) for a, b in zip(outs, items)]
                continue
            if x[0] == "none":
                continue
            e = self.settle(self.elem(frozenset([x])))
            outs = [join(a, e) for a in outs]
        return [o or TOP for o in outs]

    def class_schema(self, cls, attr):
        for c in self.p.mro(cls):
            if (c.name, attr) in self.schema:
                return self.schema[(c.name, attr)]
        return None

    def set_attr(self, fr, node, base, attr, v, st):
        for x in base:
            if x[0] != "obj":
                continue
            want = self.class_schema(x[1], attr)
            if want is not None:
                self.obligation(fr, node, "stored kind", self.fits(fr, v, want, st),
                                "%s.%s holds %s; %s is stored" % (x[1].name, attr, show(want), show(frozenset(self.views(v)))))
                continue
            m = self.p.lookup_method(x[1], attr)
            cs = self.setter(x[1], attr)
            if cs is not None:
                self.invoke(fr, cs, [v], {}, frozenset([x]), node, st)
                continue
            key = (x[1].id, attr)
            old = self.attrs.get(key, BOT)
            new = join(old, self.plain(v))
            if new != old:
                self.attrs[key] = new
                self.changed = True

    def setter(self, cls, attr):
        for c in self.p.mro(cls):
            for g in c.all_funcs:
                if g.node.name == attr and g.is_setter():
                    return g
        return None

    def set_item(self, fr, node, base, idx, v, st):
        iv = self.index_value(fr, idx, st)
        for x in self.views(base):
            self.check_key(fr, node, x, iv, idx, st)
            if x[0] == "seq" and not isinstance(idx, (ast.Slice,)):
                # an element of a container with known contents
                if x[1] and not any(q[0] in ("seq",) for q in v if x[1] and not any(p[0] == "seq" for p in x[1])):
                    self.check_store(fr, node, x[1], v, st)
            elif x[0] == "dict":
                self.check_store(fr, node, x[2], v, st)
        for x in base:
            if x[0] == "ref":
                h = self.heap[x[1]]
                if h["kind"] == "dict":
                    self.put(x[1], "k", iv)
                    self.put(x[1], "v", v)
                elif h["kind"] == "list":
                    self.put(x[1], "e", v)
                    h["items"] = None

    def check_store(self, fr, node, want, v, st):
        declared = any(y[0] in ("k", "seq", "tup") for y in want) and ("top",) not in want
        if not declared:
            return
        good = self.fits(fr, v, want, st)
        self.obligation(fr, node, "stored kind", good, "%s stores %s where %s is kept" % (
            fr.f.id if fr.f else fr.mod.name, show(frozenset(self.views(v))), show(want)))

    def check_key(self, fr, node, x, iv, idx, st):
        """is the index an identifier of the things the container is indexed by"""
        if isinstance(idx, ast.Slice):
            return
        if x[0] == "seq" and x[2] is not None:
            want = k(x[2])
        elif x[0] == "dict" and any(y[0] in ("k", "tup") for y in x[1]):
            want = x[1]
        else:
            return
        v = iv
        if x[0] == "seq":
            # an array of identifiers selects several elements
            v = BOT
            for y in self.views(iv):
                v = join(v, y[1] if y[0] == "seq" else frozenset([y]))
        good = self.fits(fr, v, want, st)
        self.obligation(fr, node, "index kind", good, "%s looks up %s where %s is expected" % (
            ast.unparse(node), show(frozenset(self.views(iv))), show(want)))

    def index_value(self, fr, idx, st):
        if isinstance(idx, ast.Slice):
            for n in (idx.lower, idx.upper, idx.step):
                if n is not None:
                    self.ev(fr, n, st)
            return NUM
        return self.ev(fr, idx, st)

    # -- expressions --------------------------------------------------------------------------------
    def ev(self, fr, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    self.ev(fr, c, st)
            return TOP
        v = m(fr, n, st)
        if v == TOP and isinstance(n, (ast.Attribute, ast.Call, ast.Subscript)):
            v = self.inferred(fr, n)
        return v or TOP

    def inferred(self, fr, n):
        try:
            t = self.types.ty(n, fr.ctx)
        except Exception:
            return TOP
        v = self.conv(t)
        return v if any(x[0] in ("obj", "seq") for x in v) and ("top",) not in v else TOP

    def e_Constant(self, fr, n, st):
        return NONE if n.value is None else NUM

    def e_JoinedStr(self, fr, n, st):
        return NUM

    def e_Name(self, fr, n, st):
        if n.id in st.env:
            return st.env[n.id]
        r = self.p.resolve_member(fr.mod.name, n.id)
        if r is not None:
            return self.resolved(r)
        if hasattr(builtins, n.id):
            return frozenset([("ext", n.id)])
        return TOP

    def resolved(self, r):
        if isinstance(r, FuncInfo):
            return frozenset([("fn", r)])
        if isinstance(r, ClassInfo):
            return frozenset([("cls", r)])
        if r[0] == "module":
            return frozenset([("mod", r[1])])
        if r[0] == "external":
            return frozenset([("ext", r[1] + "." + r[2])])
        if r[0] == "global":
            return NUM if isinstance(r[2], ast.Constant) and r[2].value is not None else TOP
        return TOP

    def e_Tuple(self, fr, n, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return seq(join(*[self.elem(self.ev(fr, e.value, st)) if isinstance(e, ast.Starred) else self.ev(fr, e, st)
                              for e in n.elts]))
        return tup(*[self.known(self.ev(fr, e, st), st) if not isinstance(e, ast.Slice) else NUM for e in n.elts])

    def known(self, v, st):
        return frozenset(x if x[0] != "var" else ("k", st.binds[x[1]]) if x[1] in st.binds else x for x in v)

    def e_List(self, fr, n, st):
        ref = self.site(fr, n, "list")
        s = next(iter(ref))[1]
        if any(isinstance(e, ast.Starred) for e in n.elts):
            for e in n.elts:
                v = self.ev(fr, e.value if isinstance(e, ast.Starred) else e, st)
                self.put(s, "e", self.elem(v) if isinstance(e, ast.Starred) else v)
            return ref
        vs = [self.plain(self.known(self.ev(fr, e, st), st)) for e in n.elts]
        for v in vs:
            self.put(s, "e", v)
        if vs and not self.heap[s].get("mutated"):
            old = self.heap[s]["items"]
            self.heap[s]["items"] = vs if old is None or len(old) != len(vs) else [join(a, b) for a, b in zip(old, vs)]
        return ref

    def e_Set(self, fr, n, st):
        return seq(join(*[self.ev(fr, e, st) for e in n.elts]))

    def e_Dict(self, fr, n, st):
        ref = self.site(fr, n, "dict")
        s = next(iter(ref))[1]
        for kk, vv in zip(n.keys, n.values):
            v = self.ev(fr, vv, st)
            if kk is None:
                for x in self.views(v):
                    if x[0] == "dict":
                        self.put(s, "k", x[1])
                        self.put(s, "v", x[2])
                    else:
                        self.put(s, "k", TOP)
                        self.put(s, "v", TOP)
                continue
            self.put(s, "k", self.ev(fr, kk, st))
            self.put(s, "v", v)
        return ref

    def comp(self, fr, n, st):
        it = State(dict(st.env), dict(st.binds))
        key, filtered = None, False
        for i, g in enumerate(n.generators):
            v = self.ev(fr, g.iter, it)
            if i == 0:
                key = self.key(v)
            else:
                key = None
            self.bind(fr, g.target, self.loopvar(g, self.elem(v), it), it, g)
            for c in g.ifs:
                self.ev(fr, c, it)
                self.refine(fr, c, it, True)
                filtered = True
        if len(n.generators) > 1:
            key = None
        if filtered and key is not None:
            key = "pos"
        return it, key

    def e_ListComp(self, fr, n, st):
        it, key = self.comp(fr, n, st)
        v = self.plain(self.known(self.ev(fr, n.elt, it), it))
        for var, kd in it.binds.items():
            if not any(var == id(g) for g in n.generators):
                st.binds.setdefault(var, kd)
        return seq(v, key)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, fr, n, st):
        it, key = self.comp(fr, n, st)
        return seq(self.plain(self.ev(fr, n.elt, it)))

    def e_DictComp(self, fr, n, st):
        it, key = self.comp(fr, n, st)
        return dct(self.plain(self.known(self.ev(fr, n.key, it), it)), self.plain(self.known(self.ev(fr, n.value, it), it)))

    def e_IfExp(self, fr, n, st):
        self.ev(fr, n.test, st)
        a, b = st.copy(), st.copy()
        self.refine(fr, n.test, a, True)
        self.refine(fr, n.test, b, False)
        v = join(self.ev(fr, n.body, a), self.ev(fr, n.orelse, b))
        return v

    def e_NamedExpr(self, fr, n, st):
        v = self.ev(fr, n.value, st)
        self.bind(fr, n.target, v, st)
        return v

    def e_BoolOp(self, fr, n, st):
        cur = st.copy()
        out = BOT
        for x in n.values:
            out = join(out, self.ev(fr, x, cur))
            self.refine(fr, x, cur, isinstance(n.op, ast.And))
        st.binds.update({v: kd for v, kd in cur.binds.items() if v not in st.binds})
        return out

    def e_Compare(self, fr, n, st):
        left = self.ev(fr, n.left, st)
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(fr, c, st)
            if isinstance(op, (ast.Eq, ast.NotEq)):
                self.compare(fr, n, left, right, st, ast.unparse(n))
            elif isinstance(op, (ast.In, ast.NotIn)):
                for x in self.views(right):
                    if x[0] in ("seq", "dict", "graph"):
                        self.compare(fr, n, left, x[1], st, ast.unparse(n))
            elif isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                pass
            left = right
        # an elementwise comparison is a list of flags about the same things
        return NUM if not any(x[0] == "seq" for x in left) else seq(NUM, self.key(left))

    def e_UnaryOp(self, fr, n, st):
        v = self.ev(fr, n.operand, st)
        if isinstance(n.op, ast.Not):
            return NUM
        return NUM if all(x[0] in ("num", "k", "cnt") for x in v) else TOP

    def e_BinOp(self, fr, n, st):
        return self.arith(n.op, self.ev(fr, n.left, st), self.ev(fr, n.right, st), fr, n)

    def arith(self, op, a, b, fr=None, node=None):
        # concatenation of lists
        if isinstance(op, ast.Add) and fr is not None:
            la = [x for x in self.views(a) if x[0] == "seq"]
            lb = [x for x in self.views(b) if x[0] == "seq"]
            ra = any(x[0] == "ref" for x in a) or any(x[0] == "ref" for x in b)
            if la and lb and len(la) == len(self.views(a)) and len(lb) == len(self.views(b)):
                ea, eb = join(*[x[1] for x in la]), join(*[x[1] for x in lb])
                num = lambda e: e and all(y[0] in ("num", "cnt") for y in e)
                if ra or not (num(ea) or num(eb)):
                    return seq(join(ea, eb))
                return seq(self.arith(op, ea, eb), la[0][2])
        out = BOT
        va, vb = self.views(a), self.views(b)
        for x in va or [("top",)]:
            for y in vb or [("top",)]:
                out = join(out, self.arith1(op, x, y))
        return out or TOP

    def arith1(self, op, x, y):
        if x[0] == "seq" or y[0] == "seq":
            ex = x[1] if x[0] == "seq" else frozenset([x])
            ey = y[1] if y[0] == "seq" else frozenset([y])
            key = x[2] if x[0] == "seq" else y[2]
            return seq(self.arith(op, ex, ey), key)
        add, sub = isinstance(op, ast.Add), isinstance(op, ast.Sub)
        kx, ky = x[0] in ("k", "cnt"), y[0] in ("k", "cnt")
        if x == ("k", "tag") and y[0] == "num" or y == ("k", "tag") and x[0] == "num":
            return k("tag")
        if (add or sub) and kx and y[0] == "num":
            return frozenset([("k", x[1])])
        if add and ky and x[0] == "num":
            return frozenset([("k", y[1])])
        if sub and kx and ky and x[1] == y[1]:
            return k("dim") if x[1] == "dim" else NUM
        if add and kx and ky and x[1] == y[1] and "cnt" in (x[0], y[0]):
            return frozenset([("k", x[1])])
        if kx and y[0] == "num" or ky and x[0] == "num" or x[0] == y[0] == "num":
            return NUM
        return TOP

    def e_Starred(self, fr, n, st):
        return self.ev(fr, n.value, st)

    def e_Lambda(self, fr, n, st):
        self.lams[id(n)] = (n, dict(st.env), fr)
        return frozenset([("lam", id(n))])

    def e_Subscript(self, fr, n, st):
        base = self.ev(fr, n.value, st)
        sl = n.slice
        out = BOT
        multi = isinstance(sl, ast.Tuple)
        iv = self.index_value(fr, sl, st) if not multi else BOT
        if multi:
            ivs = [self.index_value(fr, e, st) for e in sl.elts]
        for x in self.views(base):
            if x[0] == "seq" and multi:
                out = join(out, self.multi_index(fr, n, x, sl.elts, ivs, st))
                continue
            if multi:
                if x[0] == "dict":
                    iv = tup(*ivs)
                else:
                    out = join(out, TOP)
                    continue
            self.check_key(fr, n, x, iv, sl, st)
            if isinstance(sl, ast.Slice):
                if x[0] == "seq":
                    whole = sl.lower is None and sl.upper is None and sl.step is None
                    out = join(out, seq(x[1], x[2] if whole else None))
                elif x[0] == "tup":
                    out = join(out, frozenset([x]))
                else:
                    out = join(out, TOP)
            elif x[0] == "seq":
                arr = [y for y in self.views(iv) if y[0] == "seq"]
                if arr:
                    kd = arr[0][2]
                    flags = all(z[0] in ("num",) for z in arr[0][1]) and kd is not None
                    out = join(out, seq(x[1], "pos" if flags else kd))
                else:
                    out = join(out, self.settle(x[1]) if const_int(sl) is not None else x[1])
            elif x[0] == "dict":
                out = join(out, self.settle(x[2]) if isinstance(sl, ast.Constant) else x[2])
            elif x[0] == "tup":
                i = const_int(sl)
                if i is not None and -len(x[1]) <= i < len(x[1]):
                    out = join(out, x[1][i])
                else:
                    out = join(out, self.settle(join(*x[1])) if x[1] else TOP)
            elif x[0] == "graph":
                out = join(out, TOP)
            else:
                out = join(out, TOP)
        i = const_int(sl)
        if i is not None and len(base) == 1:
            x = next(iter(base))
            if x[0] == "ref" and self.heap[x[1]]["items"] and -len(self.heap[x[1]]["items"]) <= i < len(self.heap[x[1]]["items"]):
                return self.heap[x[1]]["items"][i]
        return out or TOP

    def multi_index(self, fr, n, x, elts, ivs, st):
        self.check_key(fr, n, x, ivs[0], elts[0], st)
        cur = x[1] if not isinstance(elts[0], ast.Slice) else None
        if cur is None:
            # a column
            col = BOT
            for y in self.views(x[1]):
                if y[0] == "tup" and len(elts) == 2:
                    i = const_int(elts[1])
                    col = join(col, y[1][i] if i is not None and -len(y[1]) <= i < len(y[1]) else TOP)
                elif y[0] == "seq" and len(elts) == 2:
                    col = join(col, self.settle(y[1]))
                else:
                    col = join(col, TOP)
            return seq(col, x[2])
        out = BOT
        for y in self.views(cur):
            if y[0] == "tup" and len(elts) == 2:
                i = const_int(elts[1])
                out = join(out, y[1][i] if i is not None and -len(y[1]) <= i < len(y[1]) else TOP)
            elif y[0] == "seq" and len(elts) == 2:
                self.check_key(fr, n, y, ivs[1], elts[1], st)
                out = join(out, y[1])
            else:
                out = join(out, TOP)
        return out

    def e_Attribute(self, fr, n, st):
        base = self.ev(fr, n.value, st)
        out = BOT
        for x in base:
            out = join(out, self.attr(fr, n, x, n.attr, st))
        return out or TOP

    def attr(self, fr, n, x, name, st):
        if x[0] == "mod":
            if x[1] in self.p.modules:
                r = self.p.resolve_member(x[1], name)
                if r is not None:
                    return self.resolved(r)
            return frozenset([("ext", x[1] + "." + name)])
        if x[0] == "ext":
            return frozenset([("ext", x[1] + "." + name)])
        if x[0] == "cls":
            m = self.p.lookup_method(x[1], name)
            return frozenset([("fn", m)]) if m is not None else TOP
        if x[0] == "obj":
            v = self.class_schema(x[1], name)
            if v is not None:
                return v
            m = self.p.lookup_method(x[1], name)
            if m is not None:
                if m.is_property():
                    return self.invoke(fr, m, [], {}, frozenset([x]), n, st)
                return frozenset([("bm", m, x)])
            out = BOT
            for c in self.p.mro(x[1]):
                out = join(out, self.attrs.get((c.id, name), BOT))
            for c in self.types.subclasses.get(x[1].id, []):
                out = join(out, self.attrs.get((c.id, name), BOT))
            return out or TOP
        if name == "T" and x[0] == "seq":
            return TOP
        if x[0] in ("seq", "ref", "dict", "graph", "tup"):
            if name in ("shape", "size"):
                vs = self.views(frozenset([x]))
                key = vs[0][2] if vs[0][0] == "seq" else None
                return tup(cnt(key), NUM) if name == "shape" else cnt(key)
            return frozenset([("meth", x, name)])
        if x[0] == "none":
            return BOT
        return TOP

    # -- calls ---------------------------------------------------------------------------------------
    def e_Call(self, fr, n, st):
        fv = self.ev(fr, n.func, st)
        pos, star = [], False
        for a in n.args:
            if isinstance(a, ast.Starred):
                pos.append(self.ev(fr, a.value, st))
                star = True
            else:
                pos.append(self.known(self.ev(fr, a, st), st))
        kw = {}
        for q in n.keywords:
            v = self.ev(fr, q.value, st)
            if q.arg is not None:
                kw[q.arg] = self.known(v, st)
        out = BOT
        for x in fv:
            out = join(out, self.apply(fr, n, x, pos, kw, st, star))
        return out or TOP

    def apply(self, fr, n, x, pos, kw, st, star=False):
        if x[0] == "fn":
            if star:
                pos = []
                return self.dreturn(x[1]) or TOP
            return self.invoke(fr, x[1], pos, kw, None, n, st)
        if x[0] == "bm":
            if star:
                return self.dreturn(x[1]) or TOP
            return self.invoke(fr, x[1], pos, kw, frozenset([x[2]]), n, st)
        if x[0] == "cls":
            m = self.p.lookup_method(x[1], "__init__")
            o = frozenset([("obj", x[1])])
            if m is not None and not star:
                self.invoke(fr, m, pos, kw, o, n, st)
            return o
        if x[0] == "part":
            kk = dict(x[3])
            kk.update(kw)
            out = BOT
            for g in x[1]:
                out = join(out, self.apply(fr, n, g, list(x[2]) + pos, kk, st, star))
            return out
        if x[0] == "lam":
            return self.call_lam(fr, n, x[1], pos, kw, st)
        if x[0] == "meth":
            return self.method(fr, n, x[1], x[2], pos, kw, st, star)
        if x[0] == "ext":
            return self.external(fr, n, x[1], pos, kw, st, star)
        if x[0] in ("top", "var"):
            # what an unknown function does with the containers it gets is unknown
            for v in list(pos) + list(kw.values()):
                self.escape(v)
            return TOP
        return TOP

    def escape(self, v):
        for y in v:
            if y[0] == "ref":
                h = self.heap[y[1]]
                if h["kind"] == "list":
                    h["items"] = None
                    h["mutated"] = True

    def call_lam(self, fr, n, key, pos, kw, st):
        node, env, owner = self.lams[key]
        if ("lam", key) in self.stack or len(self.stack) > self.MAXDEPTH:
            return TOP
        e = dict(env)
        names = [x.arg for x in node.args.posonlyargs + node.args.args]
        for nm, d in zip(names[::-1], node.args.defaults[::-1]):
            e[nm] = TOP
        for nm in names:
            e[nm] = TOP
        for nm, v in zip(names, pos):
            e[nm] = v
        for nm, v in kw.items():
            if nm in names:
                e[nm] = v
        g = Frame(owner.f, node, owner.mod, owner.cls, fr.chain + (id(n),))
        self.stack.append(("lam", key))
        try:
            v, b = self.body(g, e, dict(st.binds))
        finally:
            self.stack.pop()
        return TOP if is_generator(node) else v

    def callf(self, fr, n, fv, pos, st):
        out = BOT
        for x in fv:
            out = join(out, self.apply(fr, n, x, pos, {}, st))
        return out or TOP

    # -- methods of containers --------------------------------------------------------------------------
    def method(self, fr, n, x, name, pos, kw, st, star):
        ref = x[1] if x[0] == "ref" else None
        v = self.views(frozenset([x]))[0]
        a0 = pos[0] if pos else BOT
        if v[0] == "graph":
            return self.graph_method(fr, n, v, ref, name, pos, kw, st)
        if v[0] == "dict":
            return self.dict_method(fr, n, v, ref, name, pos, kw, st)
        if v[0] == "tup":
            if name == "index":
                return NUM
            return TOP
        key = v[2]
        if ref is not None and name in ("append", "insert", "extend", "remove", "pop", "clear", "sort", "reverse"):
            self.heap[ref]["items"] = None
            self.heap[ref]["mutated"] = True
        if name in ("append", "add", "appendleft"):
            if ref is not None:
                self.put(ref, "e", self.known(a0, st))
            else:
                self.check_store(fr, n, v[1], a0, st)
            return NONE
        if name == "insert":
            if ref is not None and len(pos) > 1:
                self.put(ref, "e", pos[1])
            return NONE
        if name in ("extend", "update", "union"):
            if ref is not None:
                self.put(ref, "e", self.elem(a0))
            return NONE if name != "union" else seq(join(v[1], self.elem(a0)))
        if name == "index":
            self.compare(fr, n, a0, v[1], st, ast.unparse(n))
            return k(key) if key else NUM
        if name == "count":
            self.compare(fr, n, a0, v[1], st, ast.unparse(n))
            return NUM
        if name == "remove":
            self.compare(fr, n, a0, v[1], st, ast.unparse(n))
            return NONE
        if name in ("tolist", "copy", "astype", "__iter__"):
            return seq(v[1], key)
        if name in ("ravel", "flatten"):
            inner = [y for y in self.views(v[1]) if y[0] == "seq"]
            return seq(join(*[y[1] for y in inner])) if inner else seq(v[1], key)
        if name in ("pop", "min", "max", "item"):
            return v[1]
        if name in ("__getitem__",):
            self.check_key(fr, n, v, a0, None, st)
            return v[1]
        if name == "__setitem__":
            self.check_key(fr, n, v, a0, None, st)
            if ref is not None and len(pos) > 1:
                self.put(ref, "e", pos[1])
            elif len(pos) > 1:
                self.check_store(fr, n, v[1], pos[1], st)
            return NONE
        if name in ("clear", "sort", "reverse"):
            return NONE
        if name in ("any", "all", "sum", "mean"):
            return NUM
        if name in ("intersection", "difference", "symmetric_difference"):
            return seq(v[1])
        if name == "reshape":
            return TOP
        return TOP

    def dict_method(self, fr, n, v, ref, name, pos, kw, st):
        a0 = pos[0] if pos else BOT
        if name in ("get", "pop", "setdefault", "__getitem__", "__contains__"):
            self.check_key(fr, n, v, a0, None, st)
            dflt = pos[1] if len(pos) > 1 else kw.get("default", NONE if name == "get" else BOT)
            if name == "setdefault" and ref is not None:
                self.put(ref, "k", self.known(a0, st))
                self.put(ref, "v", dflt)
            if name == "__contains__":
                return NUM
            return join(self.settle(v[2]) or TOP, dflt)
        if name == "__setitem__" and len(pos) > 1:
            self.check_key(fr, n, v, a0, None, st)
            self.check_store(fr, n, v[2], pos[1], st)
            if ref is not None:
                self.put(ref, "k", self.known(a0, st))
                self.put(ref, "v", pos[1])
            return NONE
        if name == "keys":
            return seq(v[1])
        if name == "values":
            return seq(v[2])
        if name == "items":
            return seq(tup(v[1] or TOP, v[2] or TOP))
        if name == "copy":
            return frozenset([v])
        if name == "update":
            for y in self.views(a0):
                if y[0] == "dict":
                    if ref is not None:
                        self.put(ref, "k", y[1])
                        self.put(ref, "v", y[2])
                    else:
                        self.obligation(fr, n, "stored kind", agree(y, v), "%s merges %s into %s" % (
                            ast.unparse(n), show(frozenset([y])), show(frozenset([v]))))
                elif ref is not None:
                    self.put(ref, "k", TOP)
                    self.put(ref, "v", TOP)
            return NONE
        return NONE if name == "clear" else TOP

    def graph_method(self, fr, n, v, ref, name, pos, kw, st):
        a0 = pos[0] if pos else BOT

        def node(val):
            val = self.known(val, st)
            flat = frozenset(x for x in self.views(val) if x[0] in ("k", "tup", "obj"))
            if not flat or not v[1]:
                return
            self.obligation(fr, n, "graph node", within(flat, v[1]), "%s asks the graph of %s for %s" % (
                ast.unparse(n), show(v[1]), show(flat)))
        if name in ("predecessors", "successors", "neighbors", "has_node", "degree", "in_degree", "out_degree", "remove_node",
                    "adjacency"):
            node(a0)
            return seq(v[1]) if name in ("predecessors", "successors", "neighbors") else NUM
        if name in ("has_edge", "remove_edge"):
            for x in pos[:2]:
                node(x)
            return NUM
        if name in ("nodes",):
            return seq(v[1])
        if name in ("edges", "in_edges", "out_edges"):
            return seq(tup(v[1] or TOP, v[1] or TOP))
        if name in ("reverse", "copy", "to_undirected", "subgraph"):
            return frozenset([("graph", v[1])])
        if name == "add_node":
            if ref is not None:
                self.put(ref, "e", self.known(a0, st))
            else:
                node(a0)
            return NONE
        if name == "add_edge":
            for x in pos[:2]:
                if ref is not None:
                    self.put(ref, "e", self.known(x, st))
                else:
                    node(x)
            return NONE
        if name in ("add_edges_from", "remove_edges_from"):
            ev = self.elem(a0)
            for y in ev:
                if y[0] == "tup":
                    for z in y[1]:
                        if ref is not None and name == "add_edges_from":
                            self.put(ref, "e", z)
                        else:
                            node(z)
                elif ref is not None:
                    self.put(ref, "e", TOP)
            return NONE
        if name in ("add_nodes_from",):
            if ref is not None:
                self.put(ref, "e", self.elem(a0))
            return NONE
        return TOP

    # -- functions of libraries ------------------------------------------------------------------------------
    def external(self, fr, n, name, pos, kw, st, star):
        name = name.replace("numpy.", "np.", 1) if name.startswith("numpy.") else name
        short = name.rsplit(".", 1)[-1]
        a0 = pos[0] if pos else BOT
        a1 = pos[1] if len(pos) > 1 else BOT
        if name == "len":
            return cnt(self.len_key(a0))
        if name == "range" or name == "np.arange":
            b = pos[1] if len(pos) > 1 else a0
            if len(pos) > 1 and not all(x[0] == "num" for x in a0):
                return seq(NUM if all(x[0] in ("num", "cnt", "k") for x in b) else TOP)
            if len(b) == 1:
                x = next(iter(b))
                if x[0] in ("cnt", "k") and (x[0] == "cnt" or x[1] == "dim"):
                    return seq(k(x[1]), x[1] if len(pos) == 1 else None)
                if x[0] == "num":
                    return seq(NUM)
            return seq(TOP)
        if name == "enumerate":
            key = self.key(a0)
            start = pos[1] if len(pos) > 1 else kw.get("start")
            at = k(key) if key and start is None else NUM
            if not key and start is None and any(self.names_cell(y) for y in self.elem(a0)):
                at = k("pos")
            return seq(tup(at, self.elem(a0) or TOP), key)
        if name == "zip":
            keys = {self.key(v) for v in pos if self.key(v)}
            if star:
                return TOP
            return seq(tup(*[self.elem(v) or TOP for v in pos]), keys.pop() if len(keys) == 1 else None)
        if name == "map":
            if star or len(pos) < 2:
                return TOP
            v = self.callf(fr, n, a0, [self.elem(w) or TOP for w in pos[1:]], st)
            return seq(self.plain(v), self.key(a1))
        if name == "filter":
            e = self.elem(a1)
            if not all(x[0] == "none" for x in a0):
                self.callf(fr, n, a0, [e or TOP], st)
            return seq(e, "pos" if self.key(a1) else None)
        if name in ("list", "tuple", "np.array", "np.asarray", "np.ascontiguousarray", "copy.copy", "copy.deepcopy", "iter", "np.copy",
                    "np.squeeze"):
            if not pos:
                return self.site(fr, n, "list") if name == "list" else seq(BOT)
            if name in ("copy.copy", "copy.deepcopy"):
                return frozenset(self.views(a0)) or TOP
            out = BOT
            for x in self.views(a0):
                if x[0] == "seq":
                    out = join(out, seq(self.listify(x[1]) if name.startswith("np.") else x[1], x[2]))
                elif x[0] == "tup":
                    out = join(out, frozenset([x]) if name == "tuple" or any(("k", "dim") in y for y in x[1]) else seq(self.settle(join(*x[1])) if x[1] else BOT))
                elif x[0] in ("dict", "graph"):
                    out = join(out, seq(x[1]))
                elif x[0] == "none":
                    continue
                else:
                    out = join(out, TOP)
            return out or seq(BOT)
        if name in ("set", "frozenset", "sorted", "np.unique", "np.sort", "reversed"):
            e = self.elem(a0)
            if name == "np.unique":
                inner = [y for y in self.views(e) if y[0] in ("seq", "tup")]
                if inner and "axis" not in kw:
                    e = self.elem(e)
                extra = [q for q in ("return_index", "return_inverse", "return_counts") if q in kw]
                if extra:
                    return tup(seq(e), *[seq(NUM) for _ in extra])
            return seq(e)
        if name == "dict":
            if not pos and not kw:
                return self.site(fr, n, "dict")
            ks = vs = BOT
            for y in self.views(a0):
                if y[0] == "dict":
                    ks, vs = join(ks, y[1]), join(vs, y[2])
                    continue
                for z in self.elem(frozenset([y])):
                    if z[0] == "tup" and len(z[1]) == 2:
                        ks, vs = join(ks, z[1][0]), join(vs, z[1][1])
                    else:
                        ks = vs = TOP
            if kw:
                ks, vs = join(ks, NUM), join(vs, *kw.values())
            ref = self.site(fr, n, "dict")
            s = next(iter(ref))[1]
            self.put(s, "k", ks)
            self.put(s, "v", vs)
            return ref
        if name in ("np.append", "np.insert") and len(pos) > 1:
            if name == "np.insert":
                return TOP
            out = BOT
            extra = self.elem(a1) if any(x[0] in ("seq", "ref", "tup") for x in a1) else a1
            for x in self.views(a0):
                out = join(out, seq(join(x[1], extra), x[2]) if x[0] == "seq" else TOP)
                if x[0] == "seq":
                    self.check_store(fr, n, x[1], extra, st)
            return out or TOP
        if name in ("np.concatenate", "np.hstack"):
            e = self.elem(a0)
            return seq(self.elem(e) if e else BOT)
        if name in ("np.vstack", "np.row_stack"):
            vs = [y for x in self.views(a0) for y in ([x[1]] if x[0] == "seq" else list(x[1]) if x[0] == "tup" else [TOP])]
            rows = join(*vs)
            if rows and all(y[0] == "tup" for y in rows):
                return seq(rows)
            keys = {self.key(v) for v in vs} - {None}
            return seq(TOP, keys.pop() if len(keys) == 1 else None)
        if name == "np.split":
            return seq(seq(self.elem(a0)))
        if name in ("itertools.chain", "chain", "itertools.chain.from_iterable"):
            if star or short == "from_iterable":
                return seq(self.elem(self.elem(a0)))
            return seq(join(*[self.elem(v) for v in pos]))
        if name == "functools.partial" or name == "partial":
            if star:
                return TOP
            return frozenset([("part", a0, tuple(self.plain(v) for v in pos[1:]), tuple(sorted(
                ((q, self.plain(v)) for q, v in kw.items()), key=lambda z: z[0])))])
        if name in ("min", "max", "np.min", "np.max", "np.amin", "np.amax"):
            if len(pos) == 1:
                e = self.elem(a0)
                return e or TOP
            return join(*pos) if pos else TOP
        if name == "next":
            return join(self.elem(a0), a1) or TOP
        if name in ("np.where", "np.nonzero", "np.flatnonzero", "np.argwhere"):
            if len(pos) == 1:
                key = self.key(a0)
                e = seq(k(key) if key else NUM)
                return e if short in ("flatnonzero",) else tup(e) if short != "argwhere" else TOP
            return join(a1, pos[2]) if len(pos) > 2 and False else TOP
        if name in ("np.argsort", "np.argmin", "np.argmax"):
            key = self.key(a0)
            e = k(key) if key else NUM
            return seq(e) if short == "argsort" else e
        if name in ("np.isin", "np.in1d", "np.searchsorted", "np.intersect1d", "np.setdiff1d", "np.union1d"):
            self.compare(fr, n, seq(self.elem(a0)), seq(self.elem(a1)), st, ast.unparse(n))
            if short in ("isin", "in1d"):
                return seq(NUM, self.key(a0))
            return seq(self.elem(a0)) if short != "union1d" and short != "searchsorted" else TOP
        if name in ("np.equal", "np.not_equal", "np.array_equal"):
            self.compare(fr, n, a0, a1, st, ast.unparse(n))
            return seq(NUM, self.key(a0)) if short != "array_equal" else NUM
        if name in ("int", "float", "abs", "np.int64"):
            return self.known(a0, st) or NUM
        if name in ("str", "bool", "print", "isinstance", "hasattr", "np.any", "np.all", "any", "all", "type", "id"):
            return NUM
        if name in ("np.empty", "np.zeros", "np.ones", "np.full"):
            shape = a0
            for x in self.views(a0):
                if x[0] == "tup" and x[1]:
                    shape = x[1][0]
                elif x[0] == "seq":
                    shape = BOT
            kd = {x[1] for x in shape if x[0] == "cnt"}
            return seq(TOP, kd.pop() if len(kd) == 1 and len(shape) == 1 else None)
        if name in ("networkx.DiGraph", "networkx.Graph", "networkx.MultiDiGraph", "nx.DiGraph", "nx.Graph"):
            ref = self.site(fr, n, "graph")
            s = next(iter(ref))[1]
            for y in self.elem(a0):
                for z in (y[1] if y[0] == "tup" else ()):
                    self.put(s, "e", z)
            if pos and not any(y[0] == "tup" for y in self.elem(a0)):
                self.put(s, "e", TOP)
            return ref
        if short in ("equitable_color", "greedy_color"):
            return dct(self.elem(a0) or TOP, NUM)
        if short == "from_edgelist":
            out = BOT
            for y in self.elem(a0):
                out = join(out, join(*y[1]) if y[0] == "tup" and y[1] else TOP)
            return frozenset([("graph", out)])
        if short in ("getattr",) and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
            out = BOT
            for x in a0:
                out = join(out, self.attr(fr, n, x, n.args[1].value, st))
            return out or TOP
        if short == "setattr" and len(n.args) > 2 and isinstance(n.args[1], ast.Constant):
            self.set_attr(fr, n, a0, n.args[1].value, pos[2], st)
            return NONE
        if name == "np.take" and len(pos) > 1:
            out = BOT
            for x in self.views(a0):
                self.check_key(fr, n, x, a1, None, st)
                if x[0] == "seq":
                    arr = [y for y in self.views(a1) if y[0] == "seq"]
                    out = join(out, seq(x[1], arr[0][2]) if arr else x[1])
                else:
                    out = join(out, TOP)
            return out
        if name in ("sum",):
            e = self.elem(a0)
            if any(x[0] == "seq" for x in self.views(e)):
                return seq(self.elem(e))
            return TOP
        for v in list(pos) + list(kw.values()):
            self.escape(v)
        return TOP

    def listify(self, e):
        """rows of an array made of lists of tuples stay tuples"""
        return e

    def names_cell(self, y):
        """an identifier of a cell or node, a cell, or a tuple of such"""
        if y[0] == "tup":
            return any(self.names_cell(z) for e in y[1] for z in e)
        return y in (("k", "cell"), ("k", "node")) or y[0] == "obj" and y[1].name == "MeshCell"

    def len_key(self, v):
        ks = set()
        for x in self.views(v):
            if x[0] == "seq":
                ks.add(x[2])
            elif x[0] == "dict":
                kk = {y[1] for y in x[1] if y[0] == "k"}
                ks.add(None if len(kk) != 1 else None)
            elif x[0] != "none":
                ks.add(None)
        return ks.pop() if len(ks) == 1 else None


def const_int(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
        return n.value
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        c = const_int(n.operand)
        return -c if c is not None else None
    return None


_LOADS = {}


def as_load(n):
    r = _LOADS.get(id(n))
    if r is not None and r[0] is n:
        return r[1]
    m = ast.parse(ast.unparse(n), mode="eval").body
    ast.copy_location(m, n)
    _LOADS[id(n)] = (n, m)
    return m


def node_text(n):
    if isinstance(n, (ast.FunctionDef, ast.Lambda)):
        return getattr(n, "name", "lambda")
    return ast.unparse(n)[:80]


_GEN = {}


def is_generator(node):
    r = _GEN.get(id(node))
    if r is None or r[0] is not node:
        g = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)) if isinstance(node, ast.FunctionDef) else False
        r = _GEN[id(node)] = (node, g)
    return r[1]
