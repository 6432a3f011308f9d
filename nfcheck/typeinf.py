"""Whole-program type inference over the syntax trees.

A type is a frozenset of descriptions; UNK in the set means nothing is known.  Local names are treated
flow-insensitively (join over all assignments), attributes of classes join over all stores, parameters join
their annotation with the arguments of all resolved call sites."""
import ast
import builtins

from .core import ClassInfo, FuncInfo
from .extlib import LIB

UNK = ("unk",)
NONE = ("none",)
U = frozenset([UNK])
E = frozenset()
LISTATTRS = set(dir(list))
DEPTH = 4


def prim(n):
    return frozenset([("prim", n)])


INT, FLOAT, STR, BOOL = prim("int"), prim("float"), prim("str"), prim("bool")
NUMARR = frozenset([("seq", E)])


def depth(t, k=0):
    if k > DEPTH:
        return k
    m = k
    for x in t:
        if x[0] == "seq":
            m = max(m, depth(x[1], k + 1))
        elif x[0] == "tuple":
            for y in x[1]:
                m = max(m, depth(y, k + 1))
        elif x[0] == "dict":
            m = max(m, depth(x[1], k + 1), depth(x[2], k + 1))
        elif x[0] == "bound":
            m = max(m, k + 1)
    return m


def join(*ts):
    out = set()
    for t in ts:
        out |= t
    # merge sequence and dict descriptions
    seqs = [x for x in out if x[0] == "seq"]
    if len(seqs) > 1:
        e = E
        for s in seqs:
            out.discard(s)
            e = join(e, s[1])
        out.add(("seq", e))
    ds = [x for x in out if x[0] == "dict"]
    if len(ds) > 1:
        k = v = E
        for d in ds:
            out.discard(d)
            k, v = join(k, d[1]), join(v, d[2])
        out.add(("dict", k, v))
    if len(out) > 12:
        return U
    r = frozenset(out)
    if depth(r) > DEPTH:
        return U
    return r


def declared(ann, t):
    """a declared repository class stands for values nothing else is known about"""
    if any(x[0] == "inst" for x in ann):
        t = frozenset(x for x in t if x != UNK)
    return join(ann, t)


def seq(t):
    return frozenset([("seq", t)])


class Types:
    def __init__(self, program, rounds=4):
        self.p = program
        self.params = {}        # (FuncInfo/nested node id, name) -> type
        self.attrs = {}         # (ClassInfo.id, name) -> type
        self.rets = {}          # id(func node) -> type
        self.locals = {}        # id(func node) -> {name: type}
        self.glob = {}          # (module, name) -> type
        self.expr_cache = {}
        self.foreign_stores = set()     # attribute names stored on something else than self
        self.self_stores = {}           # ClassInfo.id -> set of names
        self.nested = {}        # id(func node) -> parent func node
        self.subclasses = {}
        self.calls = {}         # id(call node) -> list of targets (filled in last round)
        self.memo = {}
        self.own = {}
        self.prov, self.ducks = {}, {}
        self._owned = None
        self.locked = {}
        self.funcs = []         # (FuncInfo-like, node, module, cls, parentnode)
        self._collect()
        # first phase: nothing known is bottom; second phase: what is still bottom is unknown
        for self.dflt in (E, U):
            for r in range(rounds):
                self.changed = False
                self._round()
                if not self.changed:
                    break

    # -- collection ------------------------------------------------------------
    def _collect(self):
        p = self.p
        for m in p.modules.values():
            for c in m.classes.values():
                for b in p.mro(c)[1:]:
                    self.subclasses.setdefault(b.id, []).append(c)
                self.self_stores.setdefault(c.id, set()).update(c.class_attrs)
        for f in p.functions():
            self._add(f, f.node, f.module, f.cls, None)

        for f, node, mod, cls, parent in self.funcs:
            selfn = self.selfname(f, node, cls)
            for n in own_nodes(node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    if isinstance(n.value, ast.Name) and n.value.id == selfn and cls is not None:
                        self.self_stores.setdefault(cls.id, set()).add(n.attr)
                    else:
                        self.foreign_stores.add(n.attr)
                if isinstance(n, ast.Assign) and cls is not None and isinstance(n.value, ast.Call) \
                        and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) \
                        and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == selfn:
                    # an array declared to hold the instances of one class
                    for k in n.value.keywords:
                        if k.arg == "dtype":
                            c = p.resolve_expr(mod, k.value)
                            if isinstance(c, ClassInfo):
                                self.locked[(cls.id, n.targets[0].attr)] = seq(frozenset([("inst", c)]))
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                    if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        self.foreign_stores.add(n.args[1].value)
                    else:
                        self.foreign_stores.add("*")
        for m in p.modules.values():
            for st in m.tree.body:
                for n in ast.walk(st):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not isinstance(
                            st, (ast.FunctionDef, ast.ClassDef)):
                        self.foreign_stores.add(n.attr)

    def selfname(self, f, node, cls):
        if cls is not None and node is f.node and not f.is_static() and node.args.args:
            return node.args.args[0].arg
        return None

    def _add(self, f, node, mod, cls, parent):
        self.funcs.append((f, node, mod, cls, parent))
        self.nested[id(node)] = parent
        for n in own_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node:
                self._add(f, n, mod, cls, node)

    def nodes(self, node):
        r = self.own.get(id(node))
        if r is None:
            r = self.own[id(node)] = [n for n in own_nodes(node) if isinstance(n, (
                ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.comprehension, ast.With, ast.NamedExpr,
                ast.ExceptHandler, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.Call, ast.Return, ast.Yield,
                ast.YieldFrom, ast.Nonlocal, ast.Attribute, ast.Lambda))]
        return r

    # -- fixpoint ---------------------------------------------------------------
    def _round(self):
        self.memo = {}
        for m in self.p.modules.values():
            for name, v in m.globals.items():
                self._set(self.glob, (m.name, name), self.ty(v, Ctx(self, None, None, m, None)))
        for f, node, mod, cls, parent in self.funcs:
            self._function(f, node, mod, cls, parent)

    def _set(self, table, key, t):
        if table is self.attrs and key in self.locked:
            t = self.locked[key]
        old = table.get(key, E)
        new = join(old, t)
        if new != old:
            table[key] = new
            self.changed = True

    def ctx(self, f, node, mod, cls, parent):
        return Ctx(self, f, node, mod, cls)

    def _function(self, f, node, mod, cls, parent):
        self.memo = {}
        ctx = self.ctx(f, node, mod, cls, parent)
        loc = self.locals.setdefault(id(node), {})
        a = node.args
        allargs = a.posonlyargs + a.args + a.kwonlyargs
        selfn = self.selfname(f, node, cls)
        defaults = dict(zip([x.arg for x in (a.posonlyargs + a.args)][::-1], a.defaults[::-1]))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for x in allargs:
            t = E
            if x.arg == selfn:
                t = frozenset([("cls", cls)]) if f.is_classmethod() else frozenset([("inst", cls)])
            else:
                t = self.params.get((id(node), x.arg), E)
                if x.annotation is not None:
                    t = declared(self.annotation(x.annotation, mod), t)
                if x.arg in defaults and x.annotation is None:
                    t = join(t, self.ty(defaults[x.arg], ctx))
                if not t and self.dflt is U and not self.params.get((id(node), x.arg)):
                    t = self.duck(node, x.arg)
                if not t or (t <= {NONE} | set(INT | FLOAT | STR | BOOL)):
                    t = join(t, self.dflt) if not self.params.get((id(node), x.arg)) else t
            self._set(loc, x.arg, t)
        if a.vararg:
            self._set(loc, a.vararg.arg, U)
        if a.kwarg:
            self._set(loc, a.kwarg.arg, U)
        rets = E
        if isinstance(node, ast.Lambda):
            rets = self.ty(node.body, ctx)
            self._calls(node, ctx)
            self._set(self.rets, id(node), rets)
            return
        for _ in range(2):
            self.memo = {}
            for n in self.nodes(node):
                if isinstance(n, ast.Assign):
                    t = self.ty(n.value, ctx)
                    for tg in n.targets:
                        self._bind(tg, t, ctx)
                elif isinstance(n, ast.AnnAssign):
                    if n.value is not None:
                        t = declared(self.annotation(n.annotation, mod), self.ty(n.value, ctx))
                    else:
                        t = self.annotation(n.annotation, mod)
                    self._bind(n.target, t, ctx)
                elif isinstance(n, ast.AugAssign):
                    self._bind(n.target, join(self.ty(n.value, ctx)) if isinstance(n.op, ast.Add) else U, ctx)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    self._bind(n.target, self.element(self.ty(n.iter, ctx)), ctx)
                elif isinstance(n, ast.With):
                    for it in n.items:
                        if it.optional_vars is not None:
                            self._bind(it.optional_vars, U, ctx)
                elif isinstance(n, ast.NamedExpr):
                    self._bind(n.target, self.ty(n.value, ctx), ctx)
                elif isinstance(n, ast.ExceptHandler):
                    if n.name:
                        self._set(loc, n.name, U)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for al in n.names:
                        self._set(loc, (al.asname or al.name).split(".")[0], U)
                elif isinstance(n, ast.FunctionDef) and n is not node:
                    self._set(loc, n.name, frozenset([("local", NodeRef(n))]))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                        "append", "add", "appendleft", "__setitem__", "insert", "extend", "update", "setdefault"):
                    self._grow(n, ctx)
        anyret = False
        gen = False
        self.memo = {}
        for n in self.nodes(node):
            if isinstance(n, ast.Return):
                anyret = True
                rets = join(rets, self.ty(n.value, ctx) if n.value is not None else frozenset([NONE]))
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                gen = True
        if gen:
            rets = U
        elif not anyret:
            rets = frozenset([NONE])
            if any("abstractmethod" in ast.unparse(d) for d in node.decorator_list):
                rets = E
        if node.returns is not None:
            rets = join(rets, self.annotation(node.returns, mod))
        self._set(self.rets, id(node), rets)
        self._calls(node, ctx)

    def used_attributes(self, node, name):
        """attributes read from a variable of a function; None when it is rebound or tested for its type"""
        out = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == name:
                if not isinstance(n.ctx, ast.Load):
                    return None
                out.add(n.attr)
            elif isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                return None
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in (
                    "isinstance", "hasattr", "type", "getattr") and n.args and isinstance(n.args[0], ast.Name) \
                    and n.args[0].id == name:
                return None
        return out

    def providers(self, names):
        """classes of the program that provide all the names, subclasses left out where a base class does"""
        key = frozenset(names)
        r = self.prov.get(key)
        if r is None:
            r = []
            for m in self.p.modules.values():
                for c in m.classes.values():
                    if all(self.has_attr(c, a) is True for a in names):
                        r.append(c)
            r = self.prov[key] = [c for c in r if not any(b in r for b in self.p.mro(c)[1:])]
        return r

    def duck(self, node, name):
        """type of an otherwise unknown parameter: the only class that has every attribute the function reads"""
        k = (id(node), name)
        if k not in self.ducks:
            u = self.used_attributes(node, name)
            t = E
            if u and len(u) >= 2:
                c = self.providers(u)
                if len(c) > 1:
                    # parameters of the same name elsewhere that are known to hold one class only
                    same = {}
                    for f, g, m2, k2, par in self.funcs:
                        if any(x.arg == name for x in g.args.args):
                            for x in self.params.get((id(g), name), ()):
                                if x[0] == "inst":
                                    same[x[1].id] = x[1]
                    if len(same) == 1 and list(same.values())[0] in c:
                        c = list(same.values())
                if len(c) == 1 and not any(u <= set(dir(q)) for q in (list, dict, str, set)) and not u <= ARRAY:
                    t = frozenset([("inst", c[0])])
            self.ducks[k] = t
        return self.ducks[k]

    def _calls(self, node, ctx):
        """propagate argument types into repository functions"""
        for n in self.nodes(node):
            if isinstance(n, ast.Call):
                for tgt in self.targets(n, ctx):
                    self._flow(tgt, n, ctx)

    def _flow(self, tgt, n, ctx):
        kind, node, f, skip, pre, prekw = tgt
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        pos = list(pre)
        for x in n.args:
            if isinstance(x, ast.Starred):
                for nm in names[skip:]:
                    self._set(self.params, (id(node), nm), U)
                return
            pos.append(self.ty(x, ctx))
        for nm, t in zip(names[skip:], pos):
            self._set(self.params, (id(node), nm), t if t else self.dflt)
        for k in n.keywords:
            if k.arg is None:
                for nm in names[skip:] + [x.arg for x in a.kwonlyargs]:
                    self._set(self.params, (id(node), nm), U)
            else:
                t = self.ty(k.value, ctx)
                self._set(self.params, (id(node), k.arg), t if t else self.dflt)
        for k, t in prekw.items():
            self._set(self.params, (id(node), k), t if t else self.dflt)

    def targets(self, call, ctx):
        """resolved repository targets of a call: (kind, node, FuncInfo, skip, preargs, prekw)"""
        out = []
        for t in self.ty(call.func, ctx):
            out.extend(self.target_of(t))
        return out

    def target_of(self, t):
        if t[0] == "func":
            return [("func", t[1].node, t[1], 0, [], {})]
        if t[0] == "local":
            return [("local", t[1].node, None, 0, [], {})]
        if t[0] == "bound":
            return [("bound", t[1].node, t[1], 1, [], {})]
        if t[0] == "cls":
            init = self.p.lookup_method(t[1], "__init__")
            if init is not None:
                return [("init", init.node, init, 1, [], {})]
            return []
        if t[0] == "partial":
            r = []
            for x in t[1]:
                for k, node, f, skip, pre, kw in self.target_of(x):
                    r.append((k, node, f, skip, pre + list(t[2]), dict(kw, **dict(t[3]))))
            return r
        return []

    def _bind(self, tg, t, ctx):
        if not t:
            t = E
        if isinstance(tg, ast.Name):
            owner = ctx.owner_of(tg.id)
            self._set(self.locals.setdefault(id(owner), {}), tg.id, t)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            n = len(tg.elts)
            for i, e in enumerate(tg.elts):
                if isinstance(e, ast.Starred):
                    self._bind(e.value, U, ctx)
                    continue
                et = E
                for x in t:
                    if x[0] == "tuple" and len(x[1]) == n:
                        et = join(et, x[1][i])
                    elif x[0] == "seq":
                        et = join(et, x[1] if x[1] else self.dflt)
                    elif x[0] == "tuple" or x[0] in ("none",):
                        pass
                    else:
                        et = join(et, U)
                self._bind(e, et, ctx)
        elif isinstance(tg, ast.Attribute):
            for x in self.ty(tg.value, ctx):
                if x[0] == "inst":
                    st = self.p_setter(x[1], tg.attr)
                    if st is not None:
                        a = st.node.args.args
                        if len(a) > 1:
                            self._set(self.params, (id(st.node), a[1].arg), t if t else E)
                    else:
                        self._set(self.attrs, (x[1].id, tg.attr), t)
        elif isinstance(tg, ast.Subscript):
            # container element store
            base = tg.value
            self._grow_into(base, t, ctx, key=self.ty(tg.slice, ctx) if not isinstance(tg.slice, ast.Slice) else None)
        elif isinstance(tg, ast.Starred):
            self._bind(tg.value, U, ctx)

    def _grow(self, n, ctx):
        attr = n.func.attr
        args = n.args
        if attr in ("append", "add", "appendleft") and len(args) == 1:
            self._grow_into(n.func.value, self.ty(args[0], ctx), ctx)
        elif attr == "insert" and len(args) == 2:
            self._grow_into(n.func.value, self.ty(args[1], ctx), ctx)
        elif attr in ("__setitem__", "setdefault") and len(args) == 2:
            self._grow_into(n.func.value, self.ty(args[1], ctx), ctx, key=self.ty(args[0], ctx))
        elif attr == "extend" and len(args) == 1:
            self._grow_into(n.func.value, self.element(self.ty(args[0], ctx)), ctx)
        elif attr == "update" and len(args) == 1:
            self._bind_if_store(n.func.value, self.ty(args[0], ctx), ctx)

    def _bind_if_store(self, base, t, ctx):
        if isinstance(base, (ast.Name, ast.Attribute)):
            self._bind(base, t, ctx)

    def _grow_into(self, base, t, ctx, key=None):
        if isinstance(base, ast.Subscript):
            # nested container: weaken to unknown elements of the outer one
            self._grow_into(base.value, seq(t) if t else U, ctx)
            return
        if not isinstance(base, (ast.Name, ast.Attribute)):
            return
        cur = self.ty(base, ctx)
        if any(x[0] == "dict" for x in cur):
            self._bind(base, frozenset([("dict", key if key else self.dflt, t if t else self.dflt)]), ctx)
        elif any(x[0] == "seq" for x in cur):
            # an element or, for arrays, a slice may be stored
            objs = any(y[0] == "inst" for x in cur if x[0] == "seq" for y in x[1])
            e = E
            for x in t:
                if x[0] == "seq":
                    e = join(e, x[1])
                if not (x[0] == "seq" and objs):
                    e = join(e, frozenset([x]))
            self._bind(base, seq(e if e else self.dflt), ctx)

    def p_setter(self, cls, name):
        for c in self.p.mro(cls):
            if name in c.setters:
                return c.setters[name]
        return None

    # -- annotations -------------------------------------------------------------
    def annotation(self, n, mod):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            try:
                n = ast.parse(n.value, mode="eval").body
            except SyntaxError:
                return U
        if isinstance(n, ast.Name):
            if n.id == "int":
                return INT
            if n.id == "float":
                return FLOAT
            if n.id == "str":
                return STR
            if n.id == "bool":
                return BOOL
        r = self.p.resolve_expr(mod, n) if isinstance(n, (ast.Name, ast.Attribute)) else None
        if isinstance(r, ClassInfo):
            return frozenset([("inst", r)])
        return U

    # -- expressions --------------------------------------------------------------
    def element(self, t):
        e = E
        for x in t:
            if x[0] == "seq":
                e = join(e, x[1])
            elif x[0] == "tuple":
                for y in x[1]:
                    e = join(e, y)
            elif x[0] == "dict":
                e = join(e, x[1])
            elif x == ("prim", "str"):
                e = join(e, STR)
            elif x[0] == "none":
                pass
            else:
                e = join(e, U)
        return e

    def ty(self, n, ctx):
        k = id(n)
        r = self.memo.get(k)
        if r is not None:
            return r
        m = getattr(self, "t_" + type(n).__name__, None)
        r = U if m is None else m(n, ctx)
        self.memo[k] = r
        return r

    def t_Constant(self, n, ctx):
        v = n.value
        if v is None:
            return frozenset([NONE])
        for k, t in ((bool, BOOL), (int, INT), (float, FLOAT), (str, STR)):
            if isinstance(v, k):
                return t
        return U

    def t_JoinedStr(self, n, ctx):
        return STR

    def t_Name(self, n, ctx):
        return ctx.lookup(n.id)

    def t_Tuple(self, n, ctx):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return U
        return join(frozenset([("tuple", tuple(self.ty(e, ctx) for e in n.elts))]))

    def t_List(self, n, ctx):
        e = E
        for x in n.elts:
            e = join(e, U if isinstance(x, ast.Starred) else self.ty(x, ctx))
        return join(seq(e))

    t_Set = t_List

    def t_Dict(self, n, ctx):
        k = v = E
        for a, b in zip(n.keys, n.values):
            k = join(k, self.ty(a, ctx) if a is not None else U)
            v = join(v, self.ty(b, ctx))
        return join(frozenset([("dict", k, v)]))

    def t_ListComp(self, n, ctx):
        for g in n.generators:
            self._bind(g.target, self.element(self.ty(g.iter, ctx)), ctx)
        return join(seq(self.ty(n.elt, ctx)))

    t_GeneratorExp = t_ListComp
    t_SetComp = t_ListComp

    def t_DictComp(self, n, ctx):
        for g in n.generators:
            self._bind(g.target, self.element(self.ty(g.iter, ctx)), ctx)
        return join(frozenset([("dict", self.ty(n.key, ctx), self.ty(n.value, ctx))]))

    def t_IfExp(self, n, ctx):
        return join(self.ty(n.body, ctx), self.ty(n.orelse, ctx))

    def t_NamedExpr(self, n, ctx):
        return self.ty(n.value, ctx)

    def t_BoolOp(self, n, ctx):
        return join(*[self.ty(v, ctx) for v in n.values])

    def t_Compare(self, n, ctx):
        return U

    def t_UnaryOp(self, n, ctx):
        if isinstance(n.op, ast.Not):
            return BOOL
        return self.ty(n.operand, ctx)

    def t_BinOp(self, n, ctx):
        a, b = self.ty(n.left, ctx), self.ty(n.right, ctx)
        if isinstance(n.op, ast.Add) and a and b and all(x[0] == "seq" for x in a | b):
            return join(a, b)
        if a <= (INT | BOOL) and b <= (INT | BOOL) and a and b and not isinstance(n.op, ast.Div):
            return INT
        if isinstance(n.op, ast.Mod) and a == STR:
            return STR
        return U

    def t_Lambda(self, n, ctx):
        return frozenset([("local", NodeRef(n))])

    def t_Starred(self, n, ctx):
        return U

    def t_Subscript(self, n, ctx):
        base = self.ty(n.value, ctx)
        out = E
        sl = n.slice
        for x in base:
            if x[0] == "seq":
                if isinstance(sl, ast.Slice):
                    out = join(out, frozenset([x]))
                elif isinstance(sl, ast.Tuple):
                    out = join(out, U)
                else:
                    it = self.ty(sl, ctx)
                    e = x[1] if x[1] else self.dflt
                    if it and it <= (INT | BOOL):
                        out = join(out, e)
                    elif it and all(y[0] == "seq" for y in it):
                        out = join(out, frozenset([x]))
                    else:
                        out = join(out, e, frozenset([x]))
            elif x[0] == "tuple":
                if isinstance(sl, ast.Constant) and isinstance(sl.value, int) and -len(x[1]) <= sl.value < len(x[1]):
                    out = join(out, x[1][sl.value])
                elif isinstance(sl, ast.Slice):
                    out = join(out, U)
                else:
                    for y in x[1]:
                        out = join(out, y)
            elif x[0] == "dict":
                out = join(out, x[2] if x[2] else self.dflt)
            elif x == ("prim", "str"):
                out = join(out, STR)
            elif x[0] == "none":
                pass
            else:
                out = join(out, U)
        return out if (out or not base) else out

    def t_Attribute(self, n, ctx):
        # dotted external or module reference
        out = E
        for x in self.ty(n.value, ctx):
            out = join(out, self.attr_of(x, n.attr))
        return out

    def attr_of(self, x, name):
        if x[0] == "inst":
            m = self.find_member(x[1], name)
            out = E
            if m is not None:
                if m.is_property():
                    out = join(out, self.rets.get(id(m.node), E))
                elif m.is_static():
                    out = join(out, frozenset([("func", m)]))
                else:
                    out = join(out, frozenset([("bound", m)]))
                    # overriding methods of subclasses
                for s in self.subclasses.get(x[1].id, []):
                    o = s.methods.get(name)
                    if o is not None and not o.is_static():
                        out = join(out, frozenset([("bound", o)]))
                    o = s.properties.get(name)
                    if o is not None:
                        out = join(out, self.rets.get(id(o.node), E))
                return out
            for c in self.family(x[1]):
                t = self.attrs.get((c.id, name))
                if t:
                    out = join(out, t)
                if name in c.class_attrs:
                    out = join(out, self.ty(c.class_attrs[name], Ctx(self, None, None, c.module, c)))
                if c is not x[1] and (name in c.methods or name in c.properties):
                    out = join(out, U)
            if name in self.foreign_stores:
                pass
            return out
        if x[0] == "cls":
            m = self.find_member(x[1], name)
            if m is not None:
                if m.is_classmethod():
                    return frozenset([("bound", m)])
                return frozenset([("func", m)])
            for c in self.p.mro(x[1]):
                if name in c.class_attrs:
                    return self.ty(c.class_attrs[name], Ctx(self, None, None, c.module, c))
            return U
        if x[0] == "mod":
            r = self.p.resolve_member(x[1], name)
            return self.from_resolved(r)
        if x[0] == "ext":
            return frozenset([("ext", x[1] + "." + name)])
        if x[0] == "extinst":
            return frozenset([("extm", x[1] + "." + name)])
        if x[0] == "none":
            return E
        return U

    def family(self, cls):
        return self.p.mro(cls) + self.subclasses.get(cls.id, [])

    def find_member(self, cls, name):
        for c in self.p.mro(cls):
            if name in c.methods:
                return c.methods[name]
            if name in c.properties:
                return c.properties[name]
        return None

    def owned(self):
        if self._owned is None:
            s = set()
            for m in self.p.modules.values():
                for c in m.classes.values():
                    s |= set(c.setters) | set(c.class_attrs) | set(self.self_stores.get(c.id, ()))
            self._owned = s
        return self._owned

    def has_attr(self, cls, name):
        """True / False / None(unknown)"""
        for c in self.family(cls):
            if name in c.methods or name in c.properties or name in c.setters or name in c.class_attrs \
                    or name in self.self_stores.get(c.id, ()):
                return True
            if any(isinstance(b, ast.Name) and b.id in ("NamedTuple", "Enum") for b in c.node.bases):
                return None
            for b in c.node.bases:
                r = self.p.resolve_expr(c.module, b)
                if not isinstance(r, ClassInfo) and ast.unparse(b) not in ("ABC", "abc.ABC", "object"):
                    return None
            if "__getattr__" in c.methods or "__getattribute__" in c.methods:
                return None
            if c.node.decorator_list or c.node.keywords:
                return None
        if any((c.id, name) in self.attrs for c in self.family(cls)):
            return True
        if name in self.foreign_stores and name in self.owned():
            # stores of the name are stores to the classes that declare it
            return False
        if name in self.foreign_stores or "*" in self.foreign_stores or name in dir(object) or name in (
                "__dict__", "__name__", "__module__"):
            return None
        return False

    def from_resolved(self, r):
        if isinstance(r, FuncInfo):
            return frozenset([("func", r)])
        if isinstance(r, ClassInfo):
            return frozenset([("cls", r)])
        if isinstance(r, tuple):
            if r[0] == "module":
                return frozenset([("mod", r[1])]) if r[1] in self.p.modules or any(
                    k.startswith(r[1] + ".") for k in self.p.modules) else frozenset([("ext", r[1])])
            if r[0] == "external":
                return frozenset([("ext", r[1] + "." + r[2])])
            if r[0] == "global":
                # name of a module level variable
                for nm, v in r[1].globals.items():
                    if v is r[2]:
                        t = self.glob.get((r[1].name, nm), E)
                        return t if t else self.dflt
        return U

    def t_Call(self, n, ctx):
        out = E
        ft = self.ty(n.func, ctx)
        if not ft and isinstance(n.func, ast.Attribute):
            ft = self.ty(n.func.value, ctx)
            ft = U if ft else E
        for x in ft:
            out = join(out, self.call_type(x, n, ctx))
        # methods of containers
        if isinstance(n.func, ast.Attribute):
            base = self.ty(n.func.value, ctx)
            a = n.func.attr
            o2 = E
            hit = False
            for x in base:
                if x[0] == "dict":
                    hit = True
                    if a == "values":
                        o2 = join(o2, seq(x[2]))
                    elif a == "keys":
                        o2 = join(o2, seq(x[1]))
                    elif a == "items":
                        o2 = join(o2, seq(frozenset([("tuple", (x[1], x[2]))])))
                    elif a in ("get", "pop", "setdefault"):
                        o2 = join(o2, x[2], frozenset([NONE]) if a == "get" and len(n.args) == 1 else E,
                                  self.ty(n.args[1], ctx) if len(n.args) > 1 else E)
                    elif a == "copy":
                        o2 = join(o2, frozenset([x]))
                    else:
                        o2 = join(o2, U)
                elif x[0] == "seq":
                    hit = True
                    if a in ("copy", "tolist", "flatten", "ravel", "reshape"):
                        o2 = join(o2, frozenset([x]))
                    elif a == "pop":
                        o2 = join(o2, x[1] if x[1] else self.dflt)
                    elif a in ("append", "extend", "sort", "reverse", "insert"):
                        o2 = join(o2, frozenset([NONE]))
                    elif a in ("index", "count"):
                        o2 = join(o2, INT)
                    else:
                        o2 = join(o2, U)
            if hit:
                rest = frozenset(x for x in base if x[0] not in ("dict", "seq", "none"))
                if not rest:
                    return o2
                return join(o2, U)
        return out

    def call_type(self, x, n, ctx):
        if x[0] in ("func", "bound"):
            return self.rets.get(id(x[1].node), E)
        if x[0] == "local":
            return self.rets.get(id(x[1].node), E)
        if x[0] == "cls":
            return frozenset([("inst", x[1])])
        if x[0] == "partial":
            out = E
            for y in x[1]:
                out = join(out, self.call_type(y, n, ctx))
            return out
        if x[0] == "ext":
            return self.ext_call(x[1], n, ctx)
        if x[0] == "builtin":
            return self.builtin_call(x[1], n, ctx)
        return U

    def ext_call(self, name, n, ctx):
        base, _, last = name.rpartition(".")
        args = n.args
        if name in ("functools.partial",) and args:
            ft = frozenset(t for t in self.ty(args[0], ctx))
            if ft and not (UNK in ft):
                pre = tuple(self.ty(a, ctx) for a in args[1:])
                kw = tuple((k.arg, self.ty(k.value, ctx)) for k in n.keywords if k.arg)
                if any(k.arg is None for k in n.keywords) or any(isinstance(a, ast.Starred) for a in args):
                    return U
                return frozenset([("partial", ft, pre, kw)])
            return U
        if name.startswith("numpy."):
            if last in ("array", "asarray", "atleast_1d", "copy", "flip", "roll") and args:
                t = self.ty(args[0], ctx)
                r = E
                for x in t:
                    if x[0] == "seq":
                        r = join(r, frozenset([x]))
                    elif x[0] == "tuple":
                        e = E
                        for y in x[1]:
                            e = join(e, y)
                        r = join(r, seq(e))
                    elif x[0] == "none":
                        pass
                    else:
                        r = join(r, U)
                for k in n.keywords:
                    if k.arg == "dtype":
                        dt = self.ty(k.value, ctx)
                        for x in dt:
                            if x[0] == "cls":
                                r = join(r, seq(frozenset([("inst", x[1])])))
                return r
            if last == "append" and len(args) >= 2:
                a, b = self.ty(args[0], ctx), self.ty(args[1], ctx)
                e = E
                for t in (a, b):
                    for x in t:
                        if x[0] == "seq":
                            e = join(e, x[1])
                        elif x[0] == "tuple":
                            for y in x[1]:
                                e = join(e, y)
                        elif x[0] != "none":
                            e = join(e, frozenset([x]))
                return join(seq(e))
            if last in ("concatenate", "hstack", "vstack") and args:
                e = E
                for x in self.element(self.ty(args[0], ctx)):
                    if x[0] == "seq":
                        e = join(e, x[1])
                    else:
                        e = join(e, U)
                return join(seq(e))
            return U
        info = LIB.info(name)
        if info and info.get("isclass"):
            return frozenset([("extinst", name)])
        if name in ("copy.deepcopy", "copy.copy") and args:
            return self.ty(args[0], ctx)
        return U

    def builtin_call(self, name, n, ctx):
        args = n.args
        if any(isinstance(a, ast.Starred) for a in args):
            return U
        if name in ("list", "tuple", "sorted", "set", "reversed", "frozenset"):
            if not args:
                return seq(E)
            return join(seq(self.element(self.ty(args[0], ctx))))
        if name == "dict":
            return frozenset([("dict", E, E)]) if not args and not n.keywords else U
        if name == "enumerate" and args:
            return join(seq(frozenset([("tuple", (INT, self.element(self.ty(args[0], ctx))))])))
        if name == "zip":
            return join(seq(frozenset([("tuple", tuple(self.element(self.ty(a, ctx)) for a in args))])))
        if name == "range":
            return seq(INT)
        if name == "len":
            return INT
        if name in ("int", "float", "str", "bool"):
            return prim(name)
        if name == "map" and args:
            out = E
            ft = self.ty(args[0], ctx)
            for x in ft:
                out = join(out, self.call_type(x, ast.Call(func=args[0], args=[], keywords=[]), ctx)
                           if x[0] in ("func", "bound", "local", "partial", "cls") else U)
                for kind, node, f, skip, pre, prekw in self.target_of(x):
                    names = [q.arg for q in node.args.posonlyargs + node.args.args]
                    pos = list(pre) + [self.element(self.ty(a, ctx)) for a in args[1:]]
                    for nm, t in zip(names[skip:], pos):
                        self._set(self.params, (id(node), nm), t if t else self.dflt)
                    for k, t in prekw.items():
                        self._set(self.params, (id(node), k), t if t else self.dflt)
            return join(seq(out))
        if name == "filter" and len(args) == 2:
            return join(seq(self.element(self.ty(args[1], ctx))))
        if name in ("max", "min") and len(args) == 1:
            return self.element(self.ty(args[0], ctx))
        if name == "super":
            return U
        return U


ARRAY = {"shape", "T", "size", "ndim", "dtype", "copy", "sum", "mean", "max", "min", "ravel", "reshape", "flatten", "dot",
         "trace", "any", "all", "astype", "tolist", "transpose", "val", "der", "nodes", "edges"}


class NodeRef:
    """hashable reference to a syntax node"""

    def __init__(self, node):
        self.node = node

    def __eq__(self, o):
        return isinstance(o, NodeRef) and o.node is self.node

    def __hash__(self):
        return id(self.node)

    def __repr__(self):
        return "<%s>" % getattr(self.node, "name", "lambda")


def own_nodes(node):
    """nodes of a function body, nested function bodies excluded (their def nodes included)"""
    stack = list(ast.iter_child_nodes(node))[::-1]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(list(ast.iter_child_nodes(n))[::-1])


class Ctx:
    """name lookup context of a function"""

    def __init__(self, types, f, node, mod, cls):
        self.t, self.f, self.node, self.mod, self.cls = types, f, node, mod, cls

    def chain(self):
        n = self.node
        while n is not None:
            yield n
            n = self.t.nested.get(id(n))

    def owner_of(self, name):
        """function node whose scope binds the name when stored here"""
        if self.node is None:
            return None
        for st in self.t.nodes(self.node):
            if isinstance(st, ast.Nonlocal) and name in st.names:
                p = self.t.nested.get(id(self.node))
                return Ctx(self.t, self.f, p, self.mod, self.cls).owner_of(name) if p is not None else self.node
        return self.node

    def lookup(self, name):
        for n in self.chain():
            loc = self.t.locals.get(id(n), {})
            if name in loc:
                return loc[name]
            if name in bound_names(n):
                return E
        r = self.t.p.resolve_member(self.mod.name, name)
        if r is not None:
            return self.t.from_resolved(r)
        if hasattr(builtins, name):
            return frozenset([("builtin", name)])
        return U


_BN = {}


def bound_names(node):
    k = id(node)
    if k in _BN and _BN[k][0] is node:
        return _BN[k][1]
    out = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x is not None:
            out.add(x.arg)
    for n in own_nodes(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    for n in own_nodes(node):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            out -= set(n.names)
    _BN[k] = (node, out)
    return out
