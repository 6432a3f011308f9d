"""Mutation and aliasing analysis.

An abstract value is a set of origins (steps, root, path): following steps (attribute names, "[]" for an element, "+" for
one or more unknown steps) inside the value leads to the object that is reached from root by path.  A root is a parameter of
the function, a parameter of a nested function or a module-level variable.  A summary of a function lists the locations
(root, path) it may write, the locations it stores origins into, and the origins of its result."""
import ast

from .core import loc
from .typeinf import Ctx, own_nodes, bound_names
from .check_refs import types_of

MAXSTEP, MAXPATH, MAXVAL = 6, 7, 80
FRESH = frozenset()
MORE = "..."

VIEW_FUNCS = {"asarray", "ravel", "reshape", "transpose", "squeeze", "atleast_1d", "atleast_2d", "atleast_3d", "swapaxes",
              "expand_dims", "moveaxis", "broadcast_to", "asanyarray", "ascontiguousarray", "flip", "rot90", "diagonal",
              "flipud", "fliplr", "real"}
SPLIT_FUNCS = {"split", "array_split", "hsplit", "vsplit", "dsplit"}
VIEW_METHODS = {"ravel", "reshape", "transpose", "squeeze", "swapaxes", "view", "diagonal"}
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "add",
            "discard", "popitem", "fill", "resize", "put", "itemset", "partition", "setflags", "add_edge", "add_node",
            "add_edges_from", "add_nodes_from", "remove_node", "remove_nodes_from", "remove_edge", "remove_edges_from",
            "setValue", "setValues", "appendleft", "__setitem__", "__delitem__", "intersection_update", "difference_update",
            "symmetric_difference_update", "__iadd__", "__isub__", "__imul__"}
READ_ELEM = {"pop", "popitem", "setdefault", "__getitem__"}
OUT_FUNCS = {"fill_diagonal", "put", "place", "copyto", "shuffle", "putmask", "heapify", "heappush", "heappop",
             "put_along_axis", "iadd", "isub", "imul"}
SHALLOW = {"list", "tuple", "sorted", "reversed", "set", "iter", "frozenset", "dict", "deque", "OrderedDict"}
ELEMS = {"array", "concatenate", "append", "insert", "delete", "unique", "hstack", "vstack", "stack", "fromiter",
         "flatnonzero", "take", "compress", "roll", "sort"}


def norm(vs):
    """bounded form of a set of origins"""
    out = set()
    for s, r, p in vs:
        if len(s) > MAXSTEP:
            s = s[:MAXSTEP - 1] + ("+",)
        if len(p) > MAXPATH:
            p = p[:MAXPATH] + (MORE,)
        out.add((s, r, p))
    if len(out) > MAXVAL:
        out = {((s if not s else s[:1] + (("+",) if len(s) > 1 else ())), r, p[:2] + ((MORE,) if len(p) > 2 else ()))
               for s, r, p in out}
    return frozenset(out)


def join(a, b):
    return a if a == b or not b else (b if not a else norm(a | b))


def joins(vs):
    out = set()
    for v in vs:
        out |= v
    return norm(out)


def hold(v, step="[]"):
    """a fresh object that has v at step"""
    return norm(((step,) + s if s != ("+",) or step == "+" else ("+",), r, p) if s != ("+",) else (("+",), r, p)
                for s, r, p in v)


def content(v):
    """a fresh container with the elements of v (shallow copy)"""
    return norm([((("[]",) if not s else s), r, p + ("[]",) if not s else p) for s, r, p in v])


def param(r):
    return frozenset([((), r, ())])


class Summary:
    def __init__(self):
        self.mut = {}       # (root, path) -> (module, node, text)
        self.stores = {}    # (root, path) -> value
        self.ret = FRESH
        self.items = None
        self.mixed = False
        self.fields = {}    # of __init__: attribute -> value

    def add(self, r, p, w):
        old = self.mut.get((r, p))
        if old is None or (old[3] and not w[3]):
            self.mut[(r, p)] = w

    def state(self):
        return ({k: w[3] for k, w in self.mut.items()}, dict(self.stores), self.ret, self.items and list(self.items), dict(self.fields))


class Effects:
    def __init__(self, program, limit=12):
        self.p = program
        self.t = types_of(program)
        self.t.memo = {}
        self.keep = []      # made-up syntax nodes stay alive: types are remembered per node
        self.sum, self.info, self.callers, self.runs = {}, {}, {}, {}
        for f, node, mod, cls, parent in self.t.funcs:
            self.info[id(node)] = (f, node, mod, cls, parent)
            self.sum[id(node)] = Summary()
        top = [x[1] for x in self.t.funcs if x[4] is None]
        work, queued = list(top), {id(n) for n in top}
        while work:
            node = work.pop(0)
            queued.discard(id(node))
            self.runs[id(node)] = self.runs.get(id(node), 0) + 1
            if self.runs[id(node)] > limit:
                continue
            f, node, mod, cls, parent = self.info[id(node)]
            before = self.sum[id(node)].state()
            Run(self, f, node, mod, cls, id(node)).go()
            if self.sum[id(node)].state() != before:
                for c in self.callers.get(id(node), ()):
                    if c not in queued:
                        queued.add(c)
                        work.append(self.info[c][1])
        self.t.memo = {}


def effects_of(program, cache={}):
    k = id(program)
    if k not in cache or cache[k].p is not program:
        cache.clear()
        cache[k] = Effects(program)
    return cache[k]


class Run:
    def __init__(self, eff, f, node, mod, cls, top):
        self.e, self.f, self.node, self.mod, self.cls, self.top = eff, f, node, mod, cls, top
        self.t = eff.t
        self.ctx = Ctx(self.t, f, node, mod, cls)
        self.s = eff.sum[id(node)]
        self.env = {}
        self.items = {}
        self.heap = {}
        self.killed = set()     # locations that have been given a new value on every path to here
        self.bound = bound_names(node)
        self.globals = {n for x in own_nodes(node) if isinstance(x, ast.Global) for n in x.names}
        self.init = getattr(node, "name", "") == "__init__" and cls is not None
        self.nest = []
        self.guard = None       # parameter whose default is false, when only a true value gets here
        self.flags = self.switches()

    # -- helpers ------------------------------------------------------------------
    def ty(self, e):
        return self.t.ty(e, self.ctx)

    def made(self, node):
        self.e.keep.append(node)
        return node

    def key(self, node, name):
        return name if self.e.info[id(node)][4] is None else ("arg", name)

    def go(self):
        a = self.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y is not None]:
            self.env[x.arg] = param(self.key(self.node, x.arg))
        self.body()
        if self.init and a.args:
            fields = {}
            for (r, p), v in self.heap.items():
                if r == a.args[0].arg and len(p) == 1:
                    fields[p[0]] = v
            self.s.fields = fields
        for (r, p), v in self.heap.items():
            self.s.stores[(r, p)] = join(self.s.stores.get((r, p), FRESH), v)

    def body(self):
        if isinstance(self.node, ast.Lambda):
            self.s.ret = join(self.s.ret, self.value(self.node.body))
            return
        self.block(self.node.body)
        for n in self.nest:
            self.nested(n)

    def nested(self, node):
        """a nested function runs on the variables of its parent"""
        sub = Run(self.e, self.f, node, self.mod, self.cls, self.top)
        sub.env = dict(self.env)
        sub.heap = self.heap
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y is not None]:
            sub.env[x.arg] = param(("arg", x.arg))
        sub.body()
        for (r, p), w in sub.s.mut.items():
            if not (isinstance(r, tuple) and r[0] == "arg"):
                self.s.add(r, p, w)

    # -- reading and writing memory -----------------------------------------------------
    def read(self, v, step):
        out = set()
        for s, r, p in v:
            if s:
                if s[0] == step:
                    out.add((s[1:], r, p))
                elif s[0] == "~" and len(s) == 1:
                    out |= self.read(frozenset([((), r, p)]), step)
                elif s[0] == "+":
                    out.add((s, r, p))      # somewhere inside: never taken to be the object itself
            else:
                q = p + (step,)
                known = self.heap.get((r, q))
                if known is not None:
                    out |= known
                if (r, q) in self.killed:
                    continue
                out.add(((), r, q if len(q) <= MAXPATH else p[:MAXPATH] + (MORE,)))
        return norm(out)

    def follow(self, v, path):
        for st in path:
            if st == MORE:
                return join(v, self.read(v, "+"))
            v = self.read(v, st)
        return v

    def switches(self):
        """parameters with a false default that are not assigned"""
        a = self.node.args
        pos = a.posonlyargs + a.args
        out = set()
        for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if isinstance(d, ast.Constant) and not d.value:
                out.add(x.arg)
        for n in own_nodes(self.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.discard(n.id)
        return out

    def hit(self, v, node, text, guard=None):
        """the object itself is written"""
        if balanced(self.node, node):
            return
        guard = guard or self.guard
        for s, r, p in v:
            if not s and self.mutable(r, p):
                self.s.add(r, p, (self.mod, node, text, guard))

    def mutable(self, r, p):
        """what is known of the type at the location does not rule out that it can be written"""
        ts = self.typed(r, p)
        return ts is None or not ts or any(x[0] not in ("prim", "none", "func", "bound", "cls", "ext", "mod", "builtin") for x in ts)

    def typed(self, r, p):
        if isinstance(r, tuple):
            return None
        ts = self.ctx.lookup(r)
        if r == self.selfn() and self.cls is not None:
            ts = frozenset([("inst", self.cls)])
        for st in p:
            if st in (MORE, "+"):
                return None
            out = set()
            for x in ts:
                if x[0] == "unk":
                    return None
                if st == "[]":
                    if x[0] in ("seq", "tuple", "dict"):
                        el = x[1] if x[0] == "seq" else (x[2] if x[0] == "dict" else frozenset(y for z in x[1] for y in z))
                        if not el:
                            return None
                        out |= el
                        if x[0] == "seq":
                            out.add(x)      # a view of an array
                    elif x[0] in ("prim", "none"):
                        pass
                    else:
                        return None
                elif x[0] == "inst":
                    y = self.t.attr_of(x, st)
                    if not y:
                        return None
                    out |= y
                elif x[0] not in ("prim", "none", "seq", "tuple", "dict"):
                    return None
            if not out:
                return frozenset([("none",)])
            ts = frozenset(out)
        return ts

    def store(self, base, step, v):
        """the object base holds v at step from now on"""
        b = self.value(base)
        for s, r, p in b:
            if not s and len(p) < MAXPATH:
                k = (r, p + (step,))
                if len(b) == 1 and step != "[]" and "[]" not in p and "+" not in p and MORE not in p:
                    self.killed.add(k)
                    self.heap[k] = join(self.heap.get(k, FRESH), v)
                elif v:
                    self.heap[k] = join(self.heap.get(k, FRESH), v)
        if v:
            self.absorb(base, hold(v, step))

    def absorb(self, base, v):
        """the variable that base starts from now also holds v"""
        if isinstance(base, ast.Name):
            if base.id in self.env and base.id != (self.selfn() if self.cls is not None else None):
                self.env[base.id] = join(self.env[base.id], v)
                self.items.pop(base.id, None)
        elif isinstance(base, ast.Attribute):
            self.absorb(base.value, hold(v, base.attr))
        elif isinstance(base, ast.Subscript):
            self.absorb(base.value, hold(v))

    # -- statements -------------------------------------------------------------------
    def block(self, body):
        for st in body:
            self.stmt(st)

    def stmt(self, st):
        if isinstance(st, ast.Assign):
            v = self.value(st.value)
            it = self.tuple_items(st.value)
            for t in st.targets:
                self.bind(t, v, it)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.bind(st.target, self.value(st.value), self.tuple_items(st.value))
        elif isinstance(st, ast.AugAssign):
            self.augmented(st)
        elif isinstance(st, ast.Expr):
            self.value(st.value)
        elif isinstance(st, ast.Return):
            if st.value is not None:
                v = self.value(st.value)
                self.s.ret = join(self.s.ret, v)
                it = self.tuple_items(st.value)
                if it is not None and not self.s.mixed:
                    if self.s.items is None:
                        self.s.items = it
                    elif len(self.s.items) == len(it):
                        self.s.items = [join(x, y) for x, y in zip(self.s.items, it)]
                    else:
                        self.s.items, self.s.mixed = None, True
                elif it is None and not (isinstance(st.value, ast.Constant) and st.value.value is None):
                    self.s.items, self.s.mixed = None, True
        elif isinstance(st, ast.If):
            self.value(st.test)
            e0, i0, k0 = dict(self.env), dict(self.items), set(self.killed)
            g = self.guard
            if isinstance(st.test, ast.Name) and st.test.id in self.flags:
                self.guard = st.test.id
            self.block(st.body)
            self.guard = g
            e1, i1, k1 = self.env, self.items, self.killed
            ended = terminates(st.body)
            self.env, self.items, self.killed = dict(e0), dict(i0), k0
            self.block(st.orelse)
            if ended:
                pass
            elif st.orelse and terminates(st.orelse):
                self.env, self.items, self.killed = e1, i1, k1
            else:
                self.merge(e1, i1)
                self.killed &= k1
        elif isinstance(st, (ast.For, ast.While)):
            for _ in range(4):
                e0, i0, h0, k0 = dict(self.env), dict(self.items), dict(self.heap), set(self.killed)
                if isinstance(st, ast.For):
                    self.iterate(st.target, st.iter)
                else:
                    self.value(st.test)
                self.block(st.body)
                self.merge(e0, i0)
                self.killed = k0
                if self.env == e0 and self.heap == h0:
                    break
            self.block(st.orelse)
        elif isinstance(st, ast.With):
            for it in st.items:
                v = self.value(it.context_expr)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, v if isinstance(it.context_expr, ast.Name) else FRESH, None)
            self.block(st.body)
        elif isinstance(st, ast.Try):
            e0, i0, k0 = dict(self.env), dict(self.items), set(self.killed)
            self.block(st.body)
            self.block(st.orelse)
            for h in st.handlers:
                e1, i1 = self.env, self.items
                self.env, self.items, self.killed = dict(e0), dict(i0), set(k0)
                self.block(h.body)
                self.merge(e1, i1)
                self.killed = set(k0)
            self.block(st.finalbody)
        elif isinstance(st, ast.FunctionDef):
            self.nest.append(st)
            self.nested(st)
            self.env[st.name] = FRESH
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    self.hit(self.value(t.value), t, "an element of %s is deleted" % ast.unparse(t.value)[:40])
                elif isinstance(t, ast.Attribute):
                    self.hit(self.value(t.value), t, "attribute %s is deleted" % t.attr)
        elif isinstance(st, (ast.Raise, ast.Assert)):
            for ch in ast.iter_child_nodes(st):
                self.value(ch)

    def augmented(self, st):
        v = self.value(st.value)
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.value(self.made(ast.Name(id=t.id, ctx=ast.Load())))
            if self.inplace(t, st):
                self.hit(cur, st, "%s is changed in place" % t.id)
                if isinstance(st.op, ast.Add) and self.objects(st.value):
                    self.env[t.id] = join(cur, content(v))
            else:
                if t.id in self.globals:
                    self.s.add(("global", self.mod.name, t.id), (), (self.mod, st, "global %s is rebound" % t.id, self.guard))
                self.env[t.id] = FRESH
        elif isinstance(t, ast.Attribute):
            base = self.value(t.value)
            self.hit(base, t, "attribute %s is changed" % t.attr)
            if self.inplace(t, st):
                self.hit(self.read(base, t.attr), st, "%s is changed in place" % ast.unparse(t))
        else:
            self.hit(self.value(t.value), st, "an element of %s is changed" % ast.unparse(t.value)[:40])
            self.value(t.slice)

    def merge(self, e1, i1):
        for k, v in e1.items():
            self.env[k] = join(self.env[k], v) if k in self.env else v
        for k in list(self.items):
            if k not in i1 or len(i1[k]) != len(self.items[k]):
                del self.items[k]
            else:
                self.items[k] = [join(a, b) for a, b in zip(self.items[k], i1[k])]

    def iterate(self, target, it):
        v = self.value(it)
        if isinstance(it, ast.Call):
            nm = fname(it)
            if nm == "enumerate" and it.args and isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == 2:
                self.bind(target.elts[0], FRESH, None)
                self.bind(target.elts[1], self.elem(it.args[0]), None)
                return
            if nm == "zip" and isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == len(it.args):
                for t, a in zip(target.elts, it.args):
                    self.bind(t, self.elem(a), None)
                return
            if nm == "range":
                self.bind(target, FRESH, None)
                return
        self.bind(target, self.read(v, "[]"), None)

    def elem(self, e):
        return self.read(self.value(e), "[]")

    def bind(self, t, v, it):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.s.add(("global", self.mod.name, t.id), (), (self.mod, t, "global %s is rebound" % t.id, self.guard))
            self.env[t.id] = v
            if it is not None:
                self.items[t.id] = it
            else:
                self.items.pop(t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if it is not None and len(it) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, w in zip(t.elts, it):
                    self.bind(x, w, None)
            else:
                for x in t.elts:
                    self.bind(x, self.read(v, "[]"), None)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, hold(v), None)
        elif isinstance(t, ast.Subscript):
            self.hit(self.value(t.value), t, "an element of %s is assigned" % ast.unparse(t.value)[:40])
            self.value(t.slice)
            if not self.plain(t):
                self.store(t.value, "[]", v)
        elif isinstance(t, ast.Attribute):
            b = self.value(t.value)
            setter = [st for x in self.ty(t.value) if x[0] == "inst" for st in [self.t.p_setter(x[1], t.attr)] if st is not None]
            if setter:
                for st in setter:
                    ps = [x.arg for x in st.node.args.args]
                    self.called(st.node, {ps[0]: b, ps[1]: v} if len(ps) > 1 else {}, t, {ps[0]: t.value})
                return
            self.hit(b, t, "attribute %s of %s is assigned" % (t.attr, ast.unparse(t.value)[:40]))
            self.store(t.value, t.attr, v)

    def plain(self, t):
        """a store of numbers into an array copies them"""
        ts = self.ty(t.value)
        if not ts:
            return False
        for x in ts:
            if x[0] == "seq" and (not x[1] or all(y[0] == "prim" for y in x[1])):
                continue
            return False
        return arraymade(self.node, t.value)

    def inplace(self, target, st):
        """an augmented assignment that changes an array or list instead of rebinding a number"""
        if isinstance(target, ast.Name):
            ty = self.ctx.lookup(target.id)
        else:
            ty = self.ty(target)
        kinds = {x[0] for x in ty}
        if kinds & {"seq", "dict"}:
            return True
        if kinds and kinds <= {"prim", "none", "tuple"}:
            return False
        if isinstance(target, ast.Name):
            return arraylike(self.node, target.id)
        return False

    # -- values ---------------------------------------------------------------------------
    def tuple_items(self, e):
        if isinstance(e, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in e.elts):
            return [self.value(x) for x in e.elts]
        if isinstance(e, ast.Name):
            return self.items.get(e.id)
        if isinstance(e, ast.Call):
            outs = []
            for node, skip in self.callees(e.func):
                s = self.e.sum[id(node)]
                if s.items is None:
                    return None
                m = self.mapping(node, skip, e)
                outs.append([self.instantiate(x, m) for x in s.items])
            if outs and all(len(o) == len(outs[0]) for o in outs):
                return [joins(c) for c in zip(*outs)]
        return None

    def value(self, e):
        m = getattr(self, "v_" + type(e).__name__, None)
        if m is not None:
            return m(e)
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                self.value(ch)
        return FRESH

    def v_Constant(self, e):
        return FRESH

    def v_Name(self, e):
        if e.id in self.env:
            return self.env[e.id]
        if e.id in self.bound and e.id not in self.globals:
            return FRESH
        m = self.mod
        if e.id in m.globals and not isinstance(m.globals[e.id], ast.Constant):
            return param(("global", m.name, e.id))
        return FRESH

    def v_Attribute(self, e):
        b = self.value(e.value)
        if e.attr in ("shape", "size", "ndim", "dtype"):
            return FRESH
        if e.attr == "T":
            return b
        props, plain = [], False
        if b:
            for x in self.ty(e.value):
                if x[0] == "inst":
                    mem = self.t.find_member(x[1], e.attr)
                    if mem is not None and mem.is_property():
                        props.append(mem)
                        continue
                plain = True
        out = FRESH
        for mem in props:
            sp = mem.node.args.args[0].arg if mem.node.args.args else "self"
            out = join(out, self.called(mem.node, {sp: b}, e, {sp: e.value}))
        if plain or not props:
            out = join(out, self.read(b, e.attr))
        return out

    def v_Subscript(self, e):
        b = self.value(e.value)
        self.value(e.slice)
        it = self.items.get(e.value.id) if isinstance(e.value, ast.Name) else (
            self.tuple_items(e.value) if isinstance(e.value, ast.Call) else None)
        if it is not None and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) \
                and -len(it) <= e.slice.value < len(it):
            return it[e.slice.value]
        if not b:
            return FRESH
        # a slice of an array is a view of it, of a list a new list with the same elements
        sl = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        if any(isinstance(x, ast.Slice) for x in sl):
            if self.advanced(e.slice):
                return content(b) if self.objects(e.value) else FRESH
            return content(b) if self.objects(e.value) else b
        if self.advanced(e.slice) and not any(x[0] == "dict" for x in self.ty(e.value)):
            return content(b) if self.objects(e.value) else FRESH
        return self.read(b, "[]")

    def advanced(self, s):
        """an index that makes a copy: an array or list of positions"""
        if isinstance(s, (ast.List, ast.ListComp, ast.Compare)):
            return True
        if isinstance(s, ast.Tuple):
            return any(self.advanced(x) for x in s.elts)
        if isinstance(s, (ast.Constant, ast.Slice)):
            return False
        ty = self.ty(s)
        return bool(ty) and all(x[0] == "seq" for x in ty)

    def v_Tuple(self, e):
        return joins([content(self.value(x.value)) if isinstance(x, ast.Starred) else hold(self.value(x)) for x in e.elts])

    v_List = v_Set = v_Tuple

    def v_Dict(self, e):
        out = FRESH
        for k, v in zip(e.keys, e.values):
            w = self.value(v)
            out = join(out, hold(w) if k is not None else content(w))
            if k is not None:
                self.value(k)
        return out

    def comp(self, e, elts):
        saved, si = dict(self.env), dict(self.items)
        for g in e.generators:
            self.iterate(g.target, g.iter)
            for c in g.ifs:
                self.value(c)
        out = joins([hold(self.value(x)) for x in elts])
        self.env, self.items = saved, si
        return out

    def v_ListComp(self, e):
        return self.comp(e, [e.elt])

    v_SetComp = v_GeneratorExp = v_ListComp

    def v_DictComp(self, e):
        return self.comp(e, [e.value])

    def v_IfExp(self, e):
        self.value(e.test)
        return join(self.value(e.body), self.value(e.orelse))

    def v_BoolOp(self, e):
        return joins([self.value(x) for x in e.values])

    def v_NamedExpr(self, e):
        v = self.value(e.value)
        self.bind(e.target, v, None)
        return v

    def v_Lambda(self, e):
        self.nested(e)
        return FRESH

    def v_Starred(self, e):
        return self.value(e.value)

    def v_BinOp(self, e):
        a, b = self.value(e.left), self.value(e.right)
        # list concatenation keeps the elements
        if (a or b) and isinstance(e.op, (ast.Add, ast.Mult)) and (self.objects(e.left) or self.objects(e.right)):
            return join(content(a), content(b))
        return FRESH

    # -- calls -----------------------------------------------------------------------------
    def callees(self, func):
        out = []
        for x in self.ty(func):
            if x[0] in ("func", "bound", "cls", "local"):
                for k, node, f, skip, pre, kw in self.t.target_of(x):
                    if id(node) in self.e.sum:
                        out.append((node, skip))
                        self.e.callers.setdefault(id(node), set()).add(self.top)
        return out

    def mapping(self, node, skip, e, recv=None):
        """parameter root -> value at a call"""
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        m = {}
        if skip and pos:
            if recv is None and isinstance(e.func, ast.Attribute):
                b = e.func.value
                if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "super":
                    recv = self.env.get(self.selfn(), FRESH)
                else:
                    recv = self.value(b)
            m[pos[0]] = recv if recv is not None else FRESH
        rest = pos[skip:]
        i = 0
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.elem(x.value)
                for q in rest[i:]:
                    m[q] = join(m.get(q, FRESH), v)
                break
            v = self.value(x)
            if i < len(rest):
                m[rest[i]] = v
            elif a.vararg is not None:
                m[a.vararg.arg] = join(m.get(a.vararg.arg, FRESH), hold(v))
            i += 1
        kwonly = [x.arg for x in a.kwonlyargs]
        for k in e.keywords:
            v = self.value(k.value)
            if k.arg is None:
                for q in rest:
                    if q not in m:
                        m[q] = self.read(v, "[]")
            elif k.arg in pos or k.arg in kwonly:
                m[k.arg] = v
            elif a.kwarg is not None:
                m[a.kwarg.arg] = join(m.get(a.kwarg.arg, FRESH), hold(v))
        return {self.key(node, k): v for k, v in m.items()}

    def args_of(self, node, skip, e):
        """parameter root -> argument expression, where there is one"""
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        m = {}
        if skip and pos and isinstance(e.func, ast.Attribute):
            m[pos[0]] = e.func.value
        for q, x in zip(pos[skip:], e.args):
            if isinstance(x, ast.Starred):
                break
            m[q] = x
        for k in e.keywords:
            if k.arg is not None:
                m[k.arg] = k.value
        return {self.key(node, k): v for k, v in m.items()}

    def selfn(self):
        return self.node.args.args[0].arg if self.node.args.args else "self"

    def instantiate(self, v, m):
        """origins of a summary in terms of the caller"""
        out = set()
        for s, r, p in v:
            if isinstance(r, tuple) and r[0] == "global" or (r not in m and r in self.env.get("", ())):
                out.add((s, r, p))
            elif r in m:
                for s2, r2, p2 in self.follow(m[r], p):
                    out.add((s + s2, r2, p2))
            elif isinstance(r, str) and any(r == r3 for w in self.env.values() for _, r3, _ in w):
                out.add((s, r, p))      # a nested function returns something of its parent
        return norm(out)

    def passed(self, node, name, call):
        """is a switch on at a call: False, None (may be) or the switch of the caller that decides"""
        if not isinstance(call, ast.Call) or any(isinstance(x, ast.Starred) for x in call.args) \
                or any(k.arg is None for k in call.keywords):
            return None
        pos = [x.arg for x in node.args.posonlyargs + node.args.args]
        if self.e.info[id(node)][3] is not None and pos and pos[0] in ("self", "cls"):
            pos = pos[1:]
        x = next((k.value for k in call.keywords if k.arg == name), None)
        if x is None and name in pos and pos.index(name) < len(call.args):
            x = call.args[pos.index(name)]
        if x is None or isinstance(x, ast.Constant) and not x.value:
            return False
        if isinstance(x, ast.Name) and x.id in self.flags:
            return x.id
        return None

    def called(self, node, m, e, exprs=None, init=False, call=None):
        """effects of a call; its result"""
        self.e.callers.setdefault(id(node), set()).add(self.top)
        s = self.e.sum[id(node)]
        for (r, p), w in list(s.mut.items()):
            g = None
            if w[3]:
                g = self.passed(node, w[3], call)
                if g is False:
                    continue
            if isinstance(r, tuple) and r[0] == "global":
                self.s.add(r, p, (self.mod, e, deeper(w), g or self.guard))
            elif r in m and m[r]:
                v = self.follow(m[r], p)
                if any(not q[0] for q in v) and not balanced(self.node, e):
                    self.hit(v, e, deeper(w), g)
        for (r, p), v in list(s.stores.items()):
            if r not in m or not v or not p:
                continue
            w = self.instantiate(v, m)
            if not w:
                continue
            for s2, r2, p2 in self.follow(m[r], p[:-1]):
                if not s2 and len(p2) < MAXPATH:
                    k = (r2, p2 + (p[-1],))
                    self.heap[k] = join(self.heap.get(k, FRESH), w)
            if exprs and r in exprs:
                x = w
                for st in reversed(p):
                    x = hold(x, st)
                self.absorb(exprs[r], x)
        if init:
            out = FRESH
            for a, v in s.fields.items():
                out = join(out, hold(self.instantiate(v, m), a))
            return out
        return self.instantiate(s.ret, m)

    def v_Call(self, e):
        nm = fname(e)
        if is_partial(e):
            return self.partial(e)
        vals = [self.value(a) for a in e.args]
        kws = {k.arg: self.value(k.value) for k in e.keywords}
        cal = self.callees(e.func)
        base = self.value(e.func.value) if isinstance(e.func, ast.Attribute) else None
        if kws.get("out"):
            self.hit(kws["out"], e, "the result is written to the out argument")
        if cal:
            out = FRESH
            for node, skip in cal:
                name = getattr(node, "name", "")
                init = name == "__init__" and not (isinstance(e.func, ast.Attribute) and e.func.attr == "__init__")
                m = self.mapping(node, skip, e, FRESH if init else None)
                out = join(out, self.called(node, m, e, self.args_of(node, skip, e), init, e))
            return out
        if isinstance(e.func, ast.Name) and nm in ("map", "filter") and e.args:
            return self.mapped(e, vals)
        if base is not None:
            ts = self.ty(e.func.value)
            lib = any(x[0] in ("ext", "mod") for x in ts)
            if not lib:
                if nm in MUTATORS and not any(x[0] == "inst" for x in ts):
                    self.hit(base, e, "%s.%s(...)" % (ast.unparse(e.func.value)[:40], nm))
                    if nm in ("append", "add", "insert", "setdefault", "appendleft"):
                        for v in vals:
                            self.store(e.func.value, "[]", v)
                    elif nm in ("extend", "update"):
                        for v in vals:
                            self.store(e.func.value, "[]", self.read(v, "[]"))
                    return self.read(base, "[]") if nm in READ_ELEM else FRESH
                if nm in VIEW_METHODS:
                    return base
                if nm in ("values", "keys"):
                    return content(base)
                if nm == "items":
                    return hold(hold(self.read(base, "[]")))
                if nm == "get":
                    return join(self.read(base, "[]"), vals[1] if len(vals) > 1 else FRESH)
                if nm == "copy":
                    return self.copied(e.func.value, base)
                if nm == "astype" and isinstance(e.func, ast.Attribute) and any(
                        k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
                    return base
                return FRESH
        # library functions
        if isinstance(e.func, ast.Attribute) and nm == "at" and isinstance(e.func.value, ast.Attribute):
            if vals:
                self.hit(vals[0], e, "ufunc.at(...)")
            return FRESH
        if nm in OUT_FUNCS and vals:
            self.hit(vals[0], e, "%s(...)" % nm)
            return FRESH
        if nm in VIEW_FUNCS and vals:
            return vals[0]
        if nm == "array" and vals and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and not k.value.value
                                          for k in e.keywords):
            return vals[0]
        if nm in SPLIT_FUNCS and vals:
            return hold(vals[0])
        if isinstance(e.func, ast.Name):
            if nm in SHALLOW:
                return joins([content(v) for v in vals])
            if nm in ("next", "min", "max") and vals:
                return self.read(vals[0], "[]")
            if nm == "getattr" and vals:
                return self.read(vals[0], "+")
            if nm == "setattr" and vals:
                self.hit(vals[0], e, "setattr(...)")
                return FRESH
            if nm == "enumerate" and vals:
                return hold(hold(self.read(vals[0], "[]")))
            if nm == "zip":
                return joins([hold(hold(self.read(v, "[]"))) for v in vals])
        if nm == "deepcopy":
            return FRESH
        if nm == "copy" and vals:       # copy.copy, np.copy
            if any(isinstance(n, ast.Attribute) and n.attr in ("__dict__", "__setstate__") for n in own_nodes(self.node)):
                return FRESH    # the attributes of the copy are replaced as a whole
            return self.copied(e.args[0], vals[0])
        if nm in ELEMS and vals:
            # arrays of objects share the objects
            out = FRESH
            for a, v in zip(e.args, vals):
                if not v:
                    continue
                if nm in ("append", "insert") and any(x[0] == "inst" for x in self.ty(a)):
                    out = join(out, hold(v))
                elif nm in ("concatenate", "hstack", "vstack", "stack"):
                    if self.nested_objects(a):
                        out = join(out, content(self.read(v, "[]")))
                elif self.objects(a):
                    out = join(out, content(v))
            return out
        return FRESH

    def objects(self, e):
        """a container of objects (not numbers)"""
        for x in self.ty(e):
            if x[0] == "seq" and any(y[0] in ("inst", "seq", "dict", "tuple") for y in x[1]):
                return True
            if x[0] == "tuple" and any(any(y[0] == "inst" for y in z) for z in x[1]):
                return True
        return False

    def nested_objects(self, e):
        for x in self.ty(e):
            if x[0] in ("seq", "tuple"):
                for y in (x[1] if x[0] == "seq" else [w for z in x[1] for w in z]):
                    if y[0] == "inst":
                        return True
                    if y[0] == "seq" and any(z[0] == "inst" for z in y[1]):
                        return True
        return False

    def copied(self, e, v):
        if not v:
            return FRESH
        ts = self.ty(e)
        if any(x[0] == "inst" for x in ts):
            return norm(((("~",) if not s else s), r, p) for s, r, p in v)
        if any(x[0] in ("dict", "extinst") for x in ts) or self.objects(e):
            return content(v)
        return FRESH

    def partial(self, e):
        # the effects are those of the calls; they are taken here
        for node, skip in self.callees(e.args[0]):
            fake = self.made(ast.Call(func=e.args[0], args=e.args[1:], keywords=e.keywords))
            m = self.mapping(node, skip, fake)
            self.called(node, m, e, call=None)
        return joins([hold(self.value(a), "#%d" % i) for i, a in enumerate(e.args[1:])]
                     + [hold(self.value(k.value), "=%s" % k.arg) for k in e.keywords])

    def mapped(self, e, vals):
        out = FRESH
        fx = e.args[0]
        nodes = [(n, skip, None) for n, skip in self.callees(fx)]
        bound = FRESH
        for x in self.ty(fx):
            if x[0] == "partial":
                for y in x[1]:
                    if y[0] in ("func", "bound", "cls", "local"):
                        for k, node, f, skip, pre, kw in self.t.target_of(y):
                            nodes.append((node, skip, (len(x[2]), [q[0] for q in x[3]])))
                bound = self.value(fx)
        for node, skip, part in nodes:
            if id(node) not in self.e.sum:
                continue
            pos = [x.arg for x in node.args.posonlyargs + node.args.args]
            free = pos[skip:]
            if part:
                free = [p for p in free[part[0]:] if p not in part[1]]
            m = {self.key(node, q): self.read(v, "[]") for q, v in zip(free, vals[1:])}
            if skip and isinstance(fx, ast.Attribute) and not part and pos:
                m[self.key(node, pos[0])] = self.value(fx.value)
            if part:
                for i, q in enumerate(pos[skip:][:part[0]]):
                    m[self.key(node, q)] = self.read(bound, "#%d" % i)
                for q in part[1]:
                    m[self.key(node, q)] = self.read(bound, "=%s" % q)
            out = join(out, hold(self.called(node, m, e, init=getattr(node, "name", "") == "__init__")))
        if fname(e) == "filter":
            return joins([content(v) for v in vals[1:]])
        return out


def where(w):
    return loc(w[0], w[1])


def deeper(w):
    t = w[2]
    return t if " (at " in t else "%s (at %s)" % (t, where(w))


def is_partial(n):
    return bool(n.args) and (ast.unparse(n.func) in ("partial", "functools.partial"))


def fname(e):
    if isinstance(e.func, ast.Attribute):
        return e.func.attr
    if isinstance(e.func, ast.Name):
        return e.func.id
    return None


def terminates(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


ARRAY_ATTRS = {"shape", "T", "ravel", "reshape", "size", "dtype", "ndim", "flatten", "copy", "astype", "mean", "sum", "dot",
               "transpose", "tolist"}


def arraylike(node, name):
    """the function treats the variable as an array: slices it, multiplies it with @, asks for its shape"""
    for n in ast.walk(node):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == name:
            return True
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == name and n.attr in ARRAY_ATTRS:
            return True
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.MatMult):
            for s in (n.left, n.right):
                if isinstance(s, ast.Name) and s.id == name:
                    return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.args and isinstance(n.args[0], ast.Name) \
                and n.args[0].id == name and ast.unparse(n.func).startswith(("np.", "numpy.")) and n.func.attr in (
                    "dot", "cross", "mean", "sum", "take", "linalg", "norm", "vstack", "hstack", "concatenate", "ravel",
                    "reshape", "transpose", "einsum", "tile", "repeat", "append", "inner", "outer", "matmul"):
            return True
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Name) and n.iter.id == name:
            return True
    return False


def arraymade(node, e):
    """the variable is only ever bound to numpy arrays made in this function"""
    if not isinstance(e, ast.Name):
        return False
    some = False
    for n in own_nodes(node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id == e.id:
                    if not (isinstance(n.value, ast.Call) and ast.unparse(n.value.func).startswith(("np.", "numpy."))):
                        return False
                    some = True
    return some


_BAL = {}


def balanced(fn, node):
    """a store to X.attr that is undone: the value was saved before and is stored back before the function returns"""
    if not isinstance(node, ast.Attribute):
        return False
    key = id(fn)
    if key not in _BAL or _BAL[key][0] is not fn:
        _BAL[key] = (fn, saved_and_restored(fn))
    return ast.unparse(node) in _BAL[key][1]


def saved_and_restored(fn):
    if isinstance(fn, ast.Lambda):
        return set()
    out = set()
    saves = {}
    for n in own_nodes(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(
                n.value, ast.Attribute):
            saves.setdefault(n.targets[0].id, []).append((n.lineno, ast.unparse(n.value)))
    stores = {}
    for n in own_nodes(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            stores.setdefault(ast.unparse(n.targets[0]), []).append(n)
    for path, ss in stores.items():
        ss.sort(key=lambda n: n.lineno)
        last = ss[-1]
        if len(ss) < 2 or not isinstance(last.value, ast.Name):
            continue
        sv = [l for l, p in saves.get(last.value.id, []) if p == path]
        if len(saves.get(last.value.id, [])) != 1 or not sv or sv[0] > ss[0].lineno:
            continue
        top = any(last is s for s in fn.body) or any(isinstance(s, ast.Try) and last in s.finalbody for s in fn.body)
        early = [n for n in own_nodes(fn) if isinstance(n, ast.Return) and ss[0].lineno < n.lineno < last.lineno]
        infinal = any(isinstance(s, ast.Try) and last in s.finalbody for s in ast.walk(fn))
        if top and (not early or infinal):
            out.add(path)
    return out
