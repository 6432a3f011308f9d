"""P13: intersection queries report a miss in one way and a hit in one shape.

Forward abstract interpretation of the queries over a domain of value kinds: absent, truth value, number,
array of a given number of axes, vertex with a point of a given number of axes, tuple, list, object array."""
import ast

from .core import loc, FuncInfo, ClassInfo

NONE = "None"
TOP = "top"
N = ("n",)
S = ("s",)


def A(r, prov=None):
    return ("A", r, prov)


def B(v=None):
    return ("b", v)


def V(*atoms):
    return frozenset(atoms)


UNK = V(TOP)
NUM = V(N)
BOOL = V(B())
P1 = V(A(1))
P2 = V(A(2))
P3 = V(A(3))
VERTEX = V(("I", "Vertex", 1))
EDGE = V(("I", "Edge", 0))
VERTICES = V(("O", VERTEX))
EDGES = V(("O", EDGE))

PO = "geometry.operations.point_geometry_operations"
LO = "geometry.operations.line_geometry_operations"
VO = "topology.operations.vertex_operations"
EO = "topology.operations.edge_operations"
DO = "topology.operations.domain_operations"
# query -> (kinds of the positional inputs, admitted kinds of the answer); "batch" answers: see batch()
QUERIES = {
    (PO, "point_line_intersection"): ([P1, P1, P1], [NONE, A(1)]),
    (PO, "point_triangle_intersection"): ([P1, P1, P1, P1], [NONE, A(1)]),
    (PO, "point_polygon_intersection"): ([P1, P2], [NONE, A(1)]),
    (LO, "line_line_intersection"): ([P1, P1, P1, P1], [NONE, A(2)]),
    (LO, "line_triangle_intersection"): ([P2, P1, P1, P1], [NONE, A(2), A(3)]),
    (LO, "line_polygon_intersection"): ([P2, P2], [NONE, A(2)]),
    (VO, "vertex_vertex_intersection"): ([VERTEX, VERTEX], [NONE, ("I", "Vertex", 1)]),
    (VO, "vertex_edge_boundary_intersection"): ([VERTEX, EDGE], [NONE, ("I", "Vertex", 1)]),
    (VO, "vertex_edge_intersection"): ([VERTEX, EDGE], [NONE, ("I", "Vertex", 1)]),
    (EO, "edge_edge_boundary_intersection"): ([EDGE, EDGE], [NONE, ("I", "Vertex", 1)]),
    (EO, "edge_edge_intersection"): ([EDGE, EDGE], [NONE, ("I", "Vertex", 1)]),
}
# batch -> (inputs, query, rank of one hit list, "pair" (hits, flags) | "hits" | "lists" | "shapes")
BATCH = {
    (PO, "points_line_intersection"): ([P2, P1, P1], "pair", [A(2)]),
    (PO, "points_triangle_intersection"): ([P2, P1, P1, P1], "pair", [A(2)]),
    (PO, "points_polygon_intersection"): ([P2, P2], "pair", [A(2)]),
    (LO, "lines_line_intersection"): ([P3, P1, P1], "hits", [A(3)]),
    (LO, "lines_lines_intersection"): ([P3, P3], "lists", [A(3), A(2)]),
    (LO, "lines_triangle_intersection"): ([P3, P1, P1, P1], "pair", [A(3), A(4)]),
    (LO, "lines_polygon_intersection"): ([P3, P2], "pair", [A(3)]),
    (VO, "vertices_edge_intersection"): ([VERTICES, EDGE], "shapes", [("I", "Vertex", 1)]),
    (VO, "vertices_edges_intersection"): ([VERTICES, EDGES], "rows", [("I", "Vertex", 1)]),
}
FIELDS = {
    ("Vertex", "point"): None, ("Vertex", "tag"): NUM, ("Vertex", "physical_tag"): V(N, NONE), ("Vertex", "dimension"): NUM,
    ("Edge", "boundary_shapes"): VERTICES, ("Edge", "tag"): NUM, ("Edge", "physical_tag"): V(N, NONE), ("Edge", "dimension"): NUM,
}
ELEMENTWISE = {"abs", "sign", "sqrt", "cos", "sin", "round", "unwrap", "diff", "sort", "copy", "arctan2", "exp", "log", "multiply",
               "add", "subtract", "divide", "negative", "maximum", "minimum", "cross", "clip", "around", "asarray", "ascontiguousarray",
               "square", "power", "flip", "roll", "floor", "ceil"}
PREDICATES = {"isclose", "logical_not", "logical_and", "logical_or", "greater", "less", "greater_equal", "less_equal", "equal",
              "not_equal", "isnan", "isfinite"}
REDUCE = {"sum", "max", "min", "mean", "prod", "amax", "amin", "argmax", "argmin", "median", "std"}
KEEP = {"append", "delete", "insert", "vstack", "hstack", "concatenate", "take"}
FLAG = ("b", None, "flag")       # a flag computed from the answer at the same position
GUARD = "<flagged>"
NUMERIC = {ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y, ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y,
           ast.Eq: lambda x, y: x == y, ast.NotEq: lambda x, y: x != y}


def arrs(v):
    return [a for a in v if isinstance(a, tuple) and a[0] == "A"]


def strip(v):
    return frozenset(("A", a[1], None) if isinstance(a, tuple) and a[0] == "A" else a for a in v)


class Env(dict):
    pass


def join_env(a, b):
    if a is None:
        return b
    if b is None:
        return a
    out = Env()
    for k in set(a) | set(b):
        if k == GUARD:
            if k in a and k in b:
                out[k] = True
            continue
        if k in a and k in b:
            out[k] = a[k] | b[k] if a[k] != b[k] else a[k]
        else:
            out[k] = a.get(k, b.get(k))
    return out


class Run:
    """interpretation of one root function"""

    def __init__(self, checker, root):
        self.c = checker
        self.p = checker.p
        self.root = root
        self.depth = 0
        self.origin = 0
        self.beside = {}

    # ---------------------------------------------------------------- functions
    def call_body(self, fn, mod, args, kwargs, closure, cls=None):
        a = fn.args
        env = Env(closure or {})
        params = [x.arg for x in a.posonlyargs + a.args]
        for i, x in enumerate(params):
            if i < len(args):
                env[x] = args[i]
            elif x in kwargs:
                env[x] = kwargs[x]
            else:
                k = i - (len(params) - len(a.defaults))
                env[x] = self.default(a.defaults[k], mod) if k >= 0 else UNK
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            env[x.arg] = kwargs.get(x.arg, self.default(d, mod) if d is not None else UNK)
        if a.vararg:
            env[a.vararg.arg] = UNK
        if a.kwarg:
            env[a.kwarg.arg] = UNK
        self.depth += 1
        try:
            if isinstance(fn, ast.Lambda):
                return self.ev(fn.body, env, mod)
            rets = []
            end = self.block(fn.body, env, mod, rets)
            out = frozenset()
            for node, v in rets:
                out |= v
            if end is not None:
                out |= V(NONE)
            return out
        finally:
            self.depth -= 1

    def default(self, d, mod):
        if isinstance(d, ast.Constant):
            return self.const(d.value)
        return NUM

    def const(self, v):
        if v is None:
            return V(NONE)
        if isinstance(v, bool):
            return V(B(v))
        if isinstance(v, (int, float, complex)):
            return NUM
        if isinstance(v, str):
            return V(S)
        return UNK

    # ---------------------------------------------------------------- statements
    def block(self, body, env, mod, rets):
        for st in body:
            if env is None:
                return None
            env = self.stmt(st, env, mod, rets)
        return env

    def stmt(self, st, env, mod, rets):
        if isinstance(st, ast.Return):
            rets.append((st, self.ev(st.value, env, mod) if st.value is not None else V(NONE)))
            return None
        if isinstance(st, ast.Raise):
            return None
        if isinstance(st, ast.Assign):
            v = self.ev(st.value, env, mod)
            env = Env(env)
            for t in st.targets:
                self.assign(t, v, env, mod)
            return env
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                env = Env(env)
                self.assign(st.target, self.ev(st.value, env, mod), env, mod)
            return env
        if isinstance(st, ast.AugAssign):
            env = Env(env)
            v = self.binop(st.op, self.ev(self.load(st.target), env, mod), self.ev(st.value, env, mod))
            self.assign(st.target, v, env, mod)
            return env
        if isinstance(st, ast.Expr):
            return self.effect(st.value, env, mod)
        if isinstance(st, (ast.FunctionDef,)):
            env = Env(env)
            env[st.name] = V(("F", st, mod, None))
            return env
        if isinstance(st, ast.If):
            self.ev(st.test, env, mod)
            e1 = self.refine(st.test, env, True, mod)
            e2 = self.refine(st.test, env, False, mod)
            o1 = self.block(st.body, e1, mod, rets) if e1 is not None else None
            o2 = self.block(st.orelse, e2, mod, rets) if e2 is not None else None
            return join_env(o1, o2)
        if isinstance(st, (ast.For, ast.While)):
            return self.loop(st, env, mod, rets)
        if isinstance(st, ast.With):
            return self.block(st.body, env, mod, rets)
        if isinstance(st, ast.Try):
            e = self.block(st.body, env, mod, rets)
            for h in st.handlers:
                e = join_env(e, self.block(h.body, env, mod, rets))
            if e is not None and st.orelse:
                e = self.block(st.orelse, e, mod, rets)
            if e is not None and st.finalbody:
                e = self.block(st.finalbody, e, mod, rets)
            return e
        if isinstance(st, ast.Assert):
            return self.refine(st.test, env, True, mod)
        if isinstance(st, (ast.Continue, ast.Break)):
            self.loops[-1].append(env)
            return None
        return env

    loops = None
    beside = {}

    def loop(self, st, env, mod, rets):
        if self.loops is None:
            self.loops = []
        cur = env
        for _ in range(3):
            e = Env(cur)
            if isinstance(st, ast.For):
                it = self.ev(st.iter, e, mod)
                self.assign(st.target, self.elem(it), e, mod)
                self.rows(st.target, it, e)
            else:
                e = self.refine(st.test, e, True, mod) or e
            self.loops.append([])
            o = self.block(st.body, e, mod, rets)
            for x in self.loops.pop():
                o = join_env(o, x)
            new = join_env(cur, o)
            # collections filled by the loop are taken to be filled: the empty start value does not survive
            for k in new:
                if k == GUARD:
                    continue
                if ("E",) in new[k] and o is not None and k in o and (o[k] - {("E",)}):
                    new[k] = new[k] - {("E",)}
                ls = [a for a in new[k] if isinstance(a, tuple) and a[0] == "L"]
                if len(ls) > 1:
                    merged = frozenset()
                    filled = [a for a in ls if a[1] != V(NONE)]     # placeholders are overwritten by the loop
                    for a in filled or ls:
                        merged |= a[1]
                    new[k] = (new[k] - frozenset(ls)) | V(("L", merged, None))
            if new == cur:
                break
            cur = new
        if st.orelse:
            return self.block(st.orelse, cur, mod, rets)
        return cur

    def load(self, t):
        import copy as _c
        t = _c.copy(t)
        t.ctx = ast.Load()
        return t

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, UNK, env, mod)
                else:
                    self.assign(x, self.item(v, i), env, mod)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in env:
            b = env[t.value.id]
            new = set()
            for a in b:
                if isinstance(a, tuple) and a[0] in ("L", "O"):
                    e = a[1]
                    if e == V(NONE):
                        e = frozenset()        # list prepared with placeholders
                    new.add((a[0], e | v) + a[2:] if a[0] == "O" else ("L", e | v, None))
                else:
                    new.add(a)
            env[t.value.id] = frozenset(new)

    def effect(self, e, env, mod):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and \
                e.func.attr in ("append", "extend", "insert") and e.func.value.id in env and e.args:
            b = env[e.func.value.id]
            v = self.ev(e.args[-1], env, mod)
            if e.func.attr == "extend":
                v = self.elem(v)
            new = set()
            for a in b:
                if isinstance(a, tuple) and a[0] == "L":
                    new.add(("L", a[1] | v, None))
                elif a == ("E",):
                    new.add(("L", v, None))
                else:
                    new.add(a)
            env = Env(env)
            env[e.func.value.id] = frozenset(new)
            return env
        self.ev(e, env, mod)
        return env

    # ---------------------------------------------------------------- conditions
    def refine(self, t, env, truth, mod):
        """the environment under the assumption, None when impossible"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.refine(t.operand, env, not truth, mod)
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And)
            if conj == truth:
                e = env
                for x in t.values:
                    if e is None:
                        return None
                    e = self.refine(x, e, truth, mod)
                return e
            out, e = None, env
            for x in t.values:
                if e is None:
                    break
                r = self.refine(x, e, truth, mod)
                out = join_env(out, r)
                e = self.refine(x, e, not truth, mod)
            return out
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id in env and \
                isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None and \
                isinstance(t.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            want = isinstance(t.ops[0], (ast.Is, ast.Eq)) == truth
            v = env[t.left.id]
            new = frozenset(a for a in v if a == TOP or (a == NONE) == want)
            if not new:
                return None
            e = Env(env)
            e[t.left.id] = new
            return e
        if truth and any(a == FLAG for a in self.ev(t, env, mod)):
            env = Env(env)
            env[GUARD] = True
            for k, v in list(env.items()):      # the answer beside the flag in one row
                if isinstance(v, frozenset) and NONE in v and len(v) > 1 and k in self.beside.get(ast.unparse(t), ()):
                    env[k] = v - {NONE}
        if isinstance(t, ast.Name) and t.id in env:
            new = frozenset(a for a in env[t.id] if self.truth(a) in (None, truth))
            if not new:
                return None
            e = Env(env)
            e[t.id] = new
            return e
        v = self.ev(t, env, mod)
        if v and all(self.truth(a) is (not truth) for a in v):
            return None
        # a predicate over one name: keep the kinds for which it may hold
        names = {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and n.id in env}
        for nm in names:
            if len(env[nm]) > 1 and not any(isinstance(a, tuple) and a[0] == "F" for a in env[nm]):
                new = set()
                for a in env[nm]:
                    e = Env(env)
                    e[nm] = V(a)
                    r = self.ev(t, e, mod)
                    if not all(self.truth(x) is (not truth) for x in r):
                        new.add(a)
                if not new:
                    return None
                env = Env(env)
                env[nm] = frozenset(new)
        return env

    def truth(self, a):
        """truth of a value of this kind: True, False, None data dependent or unknown"""
        if a == NONE:
            return False
        if isinstance(a, tuple) and a[0] == "b":
            return a[1]
        if isinstance(a, tuple) and a[0] in ("I", "F", "P", "T"):
            return True
        return None

    # ---------------------------------------------------------------- values
    def elem(self, v):
        out = frozenset()
        for a in v:
            if not isinstance(a, tuple):
                out |= UNK if a == TOP else frozenset()
            elif a[0] == "A":
                out |= NUM if a[1] == 1 else V(A(a[1] - 1)) if a[1] is not None and a[1] > 1 else UNK
            elif a[0] in ("L", "O"):
                out |= a[1]
            elif a[0] in ("Ab", "Ai"):
                out |= (V(FLAG) if len(a) > 2 else BOOL) if a[0] == "Ab" and a[1] == 1 else NUM if a[1] == 1 else UNK
            elif a[0] == "T":
                for x in a[1]:
                    out |= x
            elif a[0] == "E":
                pass
            else:
                out |= UNK
        return out or UNK

    def item(self, v, i):
        out = frozenset()
        for a in v:
            if isinstance(a, tuple) and a[0] == "T":
                if isinstance(i, int) and -len(a[1]) <= i < len(a[1]):
                    out |= a[1][i]
                else:
                    out |= UNK
            else:
                out |= self.elem(V(a))
        return out or UNK

    def index_atom(self, a, idx, env, mod):
        """a[idx] for one kind"""
        if not isinstance(a, tuple):
            return UNK
        parts = idx.elts if isinstance(idx, ast.Tuple) else [idx]
        if a[0] == "T":
            if isinstance(idx, ast.Constant) and isinstance(idx.value, int):
                return self.item(V(a), idx.value)
            if isinstance(idx, ast.UnaryOp) and isinstance(idx.operand, ast.Constant):
                return self.item(V(a), -idx.operand.value)
            return self.elem(V(a))
        if a[0] in ("A", "Ab", "Ai"):
            r = a[1]
            if r is None:
                return UNK
            used_array = False
            for x in parts:
                if isinstance(x, ast.Slice):
                    continue
                if isinstance(x, ast.Constant) and x.value is None or isinstance(x, ast.Attribute) and x.attr == "newaxis":
                    r += 1
                    continue
                v = self.ev(x, env, mod)
                if v <= V(N, B(True), B(False)) or v == NUM:
                    r -= 1
                    continue
                k = {("arr", b[1]) if isinstance(b, tuple) and b[0] in ("A", "Ab", "Ai") else ("arr", 1) if isinstance(b, tuple) and b[0] == "L" else None
                     for b in v}
                if len(k) == 1 and None not in k and len(parts) == 1:
                    n = list(k)[0][1]
                    isb = any(isinstance(b, tuple) and b[0] == "Ab" for b in v)
                    if n is None:
                        return UNK
                    r = r - 1 + n if not isb else r - n + 1
                    used_array = True
                    continue
                return UNK
            if r == 0:
                return NUM if a[0] != "Ab" else V(FLAG) if len(a) > 2 else BOOL
            if r < 0:
                return UNK
            return V((a[0], r) + ((None,) if a[0] == "A" else ()))
        if a[0] in ("L", "O"):
            if len(parts) == 1:
                x = parts[0]
                if isinstance(x, ast.Slice):
                    return V(a[:2] + (None,)) if a[0] == "L" else V(a)
                v = self.ev(x, env, mod)
                if v <= V(N, B(True), B(False)):
                    if env.get(GUARD) and a[1] - {NONE}:
                        return a[1] - {NONE}
                    return a[1] or UNK
                if a[0] == "O" and all(isinstance(b, tuple) and b[0] in ("A", "Ab", "Ai", "L") for b in v):
                    if NONE in a[1]:
                        if all(b[0] in ("Ab", "Ai") and len(b) > 2 for b in v):
                            return V(("O", a[1] - {NONE}))
                        return UNK
                    return V(a)
            return UNK
        return UNK

    def binop(self, op, l, r):
        out = set()
        for a in l:
            for b in r:
                if isinstance(a, tuple) and isinstance(b, tuple):
                    if a[0] in ("n", "b") and b[0] in ("n", "b"):
                        out.add(N)
                        continue
                    ra = a[1] if a[0] in ("A", "Ai", "Ab") else 0 if a[0] in ("n", "b") else None
                    rb = b[1] if b[0] in ("A", "Ai", "Ab") else 0 if b[0] in ("n", "b") else None
                    if ra is not None and rb is not None:
                        if isinstance(op, ast.MatMult):
                            rr = ra + rb - 2 if min(ra, rb) == 1 or max(ra, rb) == 2 else None
                            out.add(N if rr == 0 else A(rr) if rr else TOP)
                        else:
                            out.add(A(max(ra, rb)))
                        continue
                    if a[0] == "L" and b[0] == "L" and isinstance(op, ast.Add):
                        out.add(("L", a[1] | b[1], None))
                        continue
                    if a[0] == "L" and b[0] in ("n",) and isinstance(op, ast.Mult):
                        out.add(("L", a[1], None))
                        continue
                    if a[0] == "E" and b[0] == "L" and isinstance(op, ast.Add):
                        out.add(b)
                        continue
                out.add(TOP)
        return frozenset(out)

    def array_of(self, v, prov=True):
        """np.array(v)"""
        out = set()
        for a in v:
            if a == TOP or a == NONE:
                out.add(TOP)
            elif a[0] in ("A", "Ab", "Ai", "O", "E"):
                out.add(a)
            elif a[0] in ("n", "b"):
                out.add(a)
            elif a[0] == "L" or a[0] == "T":
                if a[0] == "T":
                    e = frozenset()
                    for x in a[1]:
                        e |= x
                    pv = None
                else:
                    e, pv = a[1], a[2]
                kinds = {x[0] if isinstance(x, tuple) else x for x in e}
                if not e:
                    out.add(("E",))
                elif kinds <= {"A"}:
                    for r in {x[1] for x in e}:
                        out.add(A(r + 1 if r is not None else None, pv))
                elif kinds <= {"n"}:
                    out.add(A(1, pv))
                elif kinds <= {"b"}:
                    out.add(("Ab", 1, pv) if pv else ("Ab", 1))
                elif kinds <= {"Ai"}:
                    out.add(("Ai", 2))
                elif TOP in kinds:
                    out.add(TOP)
                elif kinds <= {"A", "O"} and kinds:
                    out.add(TOP)
                else:
                    out.add(("O", e, pv) if pv else ("O", e))
            else:
                out.add(TOP)
        return frozenset(out)

    def ev(self, e, env, mod):
        if isinstance(e, ast.Constant):
            return self.const(e.value)
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            r = self.p.resolve_member(mod.name, e.id)
            if isinstance(r, FuncInfo):
                return V(("F", r.node, r.module, r))
            if isinstance(r, ClassInfo):
                return V(("C", r))
            if isinstance(r, tuple) and r[0] == "global":
                return NUM if not isinstance(r[2], (ast.List, ast.Tuple, ast.Dict)) else UNK
            if e.id == "__name__":
                return V(S)
            return UNK
        if isinstance(e, ast.Tuple):
            return V(("T", tuple(self.ev(x, env, mod) for x in e.elts)))
        if isinstance(e, ast.List):
            if not e.elts:
                return V(("L", frozenset(), None))
            o = frozenset()
            for x in e.elts:
                o |= self.ev(x.value if isinstance(x, ast.Starred) else x, env, mod) if not isinstance(x, ast.Starred) else \
                    self.elem(self.ev(x.value, env, mod))
            return V(("L", o, None))
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env, mod)
            env[e.target.id] = v
            return v
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env, mod)
            a, b = self.refine(e.test, env, True, mod), self.refine(e.test, env, False, mod)
            o = frozenset()
            if a is not None:
                o |= self.ev(e.body, a, mod)
            if b is not None:
                o |= self.ev(e.orelse, b, mod)
            return o
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env, mod)
            if isinstance(e.op, ast.Not):
                o = set()
                for a in v:
                    t = self.truth(a)
                    o.add(B(None if t is None else not t))
                return frozenset(o)
            return strip(v)
        if isinstance(e, ast.BoolOp):
            conj = isinstance(e.op, ast.And)
            o = frozenset()
            cur = env
            for i, x in enumerate(e.values):
                v = self.ev(x, cur, mod)
                if i == len(e.values) - 1:
                    o |= v
                    break
                stay = frozenset(a for a in v if self.truth(a) is not conj)
                stay = frozenset((a[0], not conj) if isinstance(a, tuple) and a[0] == "b" else a for a in stay)
                o |= stay
                if v and all(self.truth(a) is (not conj) for a in v):
                    break
                cur = self.refine(x, cur, conj, mod) or cur
            return o
        if isinstance(e, ast.Compare):
            return self.compare(e, env, mod)
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.ev(e.left, env, mod), self.ev(e.right, env, mod))
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, env, mod)
            o = frozenset()
            for a in b:
                o |= self.index_atom(a, e.slice, env, mod)
            return o
        if isinstance(e, ast.Attribute):
            return self.attr(e, env, mod)
        if isinstance(e, ast.Lambda):
            return V(("F", e, mod, None, tuple(sorted((k, v) for k, v in env.items())) if False else None))
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return self.comp(e, env, mod)
        if isinstance(e, ast.Call):
            return self.call(e, env, mod)
        if isinstance(e, ast.JoinedStr):
            return V(S)
        return UNK

    def ints(self, e, env, mod):
        """the integers a number of axes or entries may be, or None"""
        if isinstance(e, ast.Constant) and isinstance(e.value, int) and not isinstance(e.value, bool):
            return {e.value}
        v = None
        if isinstance(e, ast.Attribute) and e.attr == "ndim":
            v = self.ev(e.value, env, mod)
            if all(isinstance(a, tuple) and a[0] in ("A", "Ab", "Ai") and a[1] is not None for a in v if a != NONE):
                return {a[1] for a in v if a != NONE}
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1:
            v = self.ev(e.args[0], env, mod)
            if all(isinstance(a, tuple) and a[0] == "T" for a in v):
                return {len(a[1]) for a in v}
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "ndim" and len(e.args) == 1:
            v = self.ev(e.args[0], env, mod)
            if v and all(isinstance(a, tuple) and a[0] in ("A", "Ab", "Ai") and a[1] is not None for a in v):
                return {a[1] for a in v}
        return None

    def compare(self, e, env, mod):
        l = self.ev(e.left, env, mod)
        if len(e.ops) != 1:
            return BOOL
        op, rn = e.ops[0], e.comparators[0]
        lc, rc = self.ints(e.left, env, mod), self.ints(rn, env, mod)
        if lc is not None and rc is not None and type(op) in NUMERIC:
            return frozenset(B(NUMERIC[type(op)](x, y)) for x in lc for y in rc)
        r = self.ev(rn, env, mod)
        if isinstance(op, (ast.Is, ast.IsNot)):
            o = set()
            for a in l:
                for b in r:
                    if a == TOP or b == TOP:
                        o.add(B())
                    elif a == NONE or b == NONE:
                        o.add(B((a == b) == isinstance(op, ast.Is)))
                    elif isinstance(a, tuple) and a[0] == "b" and isinstance(b, tuple) and b[0] == "b" and None not in (a[1], b[1]):
                        o.add(B((a[1] == b[1]) == isinstance(op, ast.Is)))
                    elif isinstance(a, tuple) and isinstance(b, tuple) and a[0] != b[0]:
                        o.add(B(not isinstance(op, ast.Is)))
                    else:
                        o.add(B())
            return frozenset(o)
        if isinstance(op, (ast.In, ast.NotIn)):
            return BOOL
        # length of a hit against zero
        if isinstance(e.left, ast.Call) and isinstance(e.left.func, ast.Name) and e.left.func.id == "len" and e.left.args and \
                isinstance(rn, ast.Constant) and rn.value == 0:
            v = self.ev(e.left.args[0], env, mod)
            if v and all(isinstance(a, tuple) and a[0] == "A" and a[2] is None and a[1] == 1 for a in v):
                return V(B(isinstance(op, (ast.Gt, ast.NotEq, ast.GtE))))
        o = set()
        for a in l:
            for b in r:
                if isinstance(a, tuple) and isinstance(b, tuple):
                    rk = [x[1] for x in (a, b) if x[0] in ("A", "Ai", "Ab")]
                    if rk and None not in rk:
                        o.add(("Ab", max(rk)))
                        continue
                    if a[0] in ("n", "b", "s") and b[0] in ("n", "b", "s"):
                        o.add(B())
                        continue
                if a == NONE or b == NONE:
                    if isinstance(op, (ast.Eq, ast.NotEq)):
                        o2 = b if a == NONE else a
                        if isinstance(o2, tuple) and o2[0] in ("A", "Ab", "Ai"):
                            o.add(("Ab", o2[1]))
                            continue
                        o.add(B((a == b) == isinstance(op, ast.Eq)))
                        continue
                o.add(B() if not isinstance(a, tuple) or a[0] != "A" else TOP)
        return frozenset(o)

    def attr(self, e, env, mod):
        b = self.ev(e.value, env, mod) if not (isinstance(e.value, ast.Name) and e.value.id not in env) else None
        if b is None:
            r = self.p.resolve_expr(mod, e)
            if isinstance(r, FuncInfo):
                return V(("F", r.node, r.module, r))
            if isinstance(r, ClassInfo):
                return V(("C", r))
            r = self.p.resolve_expr(mod, e.value)
            if isinstance(r, tuple) and r[0] == "global":
                return NUM
            return UNK
        o = frozenset()
        for a in b:
            if a == NONE:
                continue        # raises: nothing follows
            if isinstance(a, tuple) and a[0] == "I":
                if (a[1], e.attr) == ("Vertex", "point"):
                    o |= V(A(a[2])) if a[2] is not None else UNK
                else:
                    o |= FIELDS.get((a[1], e.attr), UNK) or UNK
            elif isinstance(a, tuple) and a[0] in ("A", "Ab", "Ai", "O"):
                if e.attr == "T":
                    o |= strip(V(a))
                elif e.attr == "shape":
                    r = a[1] if a[0] != "O" else 1
                    o |= V(("T", tuple(NUM for _ in range(r)))) if r else UNK
                elif e.attr in ("size", "ndim"):
                    o |= NUM
                else:
                    o |= UNK
            elif isinstance(a, tuple) and a[0] == "E" and e.attr in ("size", "ndim"):
                o |= NUM
            else:
                o |= UNK
        return o

    def rows(self, target, it, env):
        """names bound together with a flag while iterating"""
        names = [n.id for n in ast.walk(target) if isinstance(n, ast.Name)]
        if len(names) > 1:
            for n in names:
                self.beside.setdefault(n, set()).update(names)
        if any(isinstance(a, tuple) and a[0] == "Ai" and len(a) > 2 for a in it):
            env[GUARD] = True

    def comp(self, e, env, mod):
        if len(e.generators) > 1:
            env = Env(env)
            for g in e.generators:
                self.assign(g.target, self.elem(self.ev(g.iter, env, mod)), env, mod)
                for t in g.ifs:
                    env = self.refine(t, env, True, mod) or env
            return V(("L", self.ev(e.elt, env, mod), None))
        g = e.generators[0]
        it = self.ev(g.iter, env, mod)
        src = self.source(g.iter, it, env)
        out = frozenset()
        maps = {}
        decided = True
        for a in self.elem(it):
            c = Env(env)
            self.assign(g.target, V(a), c, mod)
            self.rows(g.target, it, c)
            keep = True
            for t in g.ifs:
                v = self.ev(t, c, mod)
                ts = {self.truth(x) for x in v}
                c2 = self.refine(t, c, True, mod)
                if c2 is None:
                    keep = False
                    break
                if ts != {True}:
                    keep = None if keep is True else keep
                c = c2
            v = self.ev(e.elt, c, mod) if keep is not False else frozenset()
            maps[a] = (keep, v)
            out |= v
        prov = None
        if src is not None:
            if g.ifs:
                if all(v == V(a) or k is False for a, (k, v) in maps.items()):
                    prov = (src, "keep", tuple(sorted(((a, k) for a, (k, v) in maps.items()), key=repr)))
            else:
                if all(v and all(isinstance(x, tuple) and x[0] == "b" for x in v) for k, v in maps.values()):
                    prov = (src, "flag", tuple(sorted(((a, list(v)[0][1] if len(v) == 1 else None) for a, (k, v) in maps.items()), key=repr)))
                elif src[0] == "param":
                    self.origin += 1
                    prov = (("list", src[1], self.origin), "all", ())
        return V(("L", out, prov))

    def source(self, node, v, env):
        """identity of an iterated sequence: a whole parameter of the root, or a list of answers"""
        if len(v) == 1:
            a = list(v)[0]
            if isinstance(a, tuple) and a[0] in ("L", "A", "O") and len(a) > 2 and a[2] is not None:
                if a[2][0] == "param":
                    return a[2]
                if a[2][1] == "all":
                    return a[2][0]
        return None

    # ---------------------------------------------------------------- calls
    def call(self, e, env, mod):
        f = e.func
        args = []
        for x in e.args:
            args.append(self.ev(x.value, env, mod) if isinstance(x, ast.Starred) else self.ev(x, env, mod))
        kwargs = {k.arg: self.ev(k.value, env, mod) for k in e.keywords if k.arg}
        if isinstance(f, ast.Name) and f.id not in env:
            r = self.builtin(f.id, e, args, kwargs, env, mod)
            if r is not None:
                return r
        if isinstance(f, ast.Attribute):
            r = self.numpy(e, args, kwargs, env, mod)
            if r is not None:
                return r
            r = self.method(e, args, kwargs, env, mod)
            if r is not None:
                return r
        fv = self.ev(f, env, mod)
        out = frozenset()
        for a in fv:
            out |= self.apply(a, args, kwargs, env, mod)
        return out

    def apply(self, a, args, kwargs, env, mod):
        if not isinstance(a, tuple):
            return UNK
        if a[0] == "P":
            return self.apply(a[1], list(a[2]) + args, dict(a[3], **kwargs), env, mod)
        if a[0] == "C":
            if a[1].name == "Vertex":
                p = args[1] if len(args) > 1 else kwargs.get("point", UNK)
                o = frozenset()
                for x in p:
                    o |= V(("I", "Vertex", x[1] if isinstance(x, tuple) and x[0] == "A" else None))
                return o
            return V(("I", a[1].name, 0))
        if a[0] == "F":
            fi = a[3]
            if fi is not None:
                key = (fi.module.name, fi.name)
                if key in QUERIES:
                    return frozenset(QUERIES[key][1])
                if key in BATCH:
                    return self.c.batch_kind(key)
            if self.depth > 8:
                return UNK
            closure = env if fi is None else {}
            return self.call_body(a[1], a[2], args, kwargs, closure)
        return UNK

    def builtin(self, name, e, args, kwargs, env, mod):
        if name == "map" and len(args) == 2:
            src = self.source(e.args[1], args[1], env)
            fv = args[0]
            out = frozenset()
            maps = {}
            for a in self.elem(args[1]):
                o = frozenset()
                for fn in fv:
                    o |= self.apply(fn, [V(a)], {}, env, mod)
                maps[a] = o
                out |= o
            prov = None
            if src is not None:
                if src[0] == "param":
                    self.origin += 1
                    prov = (("list", src[1], self.origin), "all", ())
                elif all(v and all(isinstance(x, tuple) and x[0] == "b" for x in v) for v in maps.values()):
                    prov = (src, "flag", tuple(sorted(((a, list(v)[0][1] if len(v) == 1 else None) for a, v in maps.items()), key=repr)))
            return V(("L", out, prov))
        if name == "filter" and len(args) == 2:
            src = self.source(e.args[1], args[1], env)
            out = set()
            keeps = []
            for a in self.elem(args[1]):
                if args[0] == V(NONE):
                    ts = {self.truth(a)}
                else:
                    ts = set()
                    for fn in args[0]:
                        ts |= {self.truth(x) for x in self.apply(fn, [V(a)], {}, env, mod)}
                k = True if ts == {True} else False if ts == {False} else None
                keeps.append((a, k))
                if k is not False:
                    out.add(a)
            return V(("L", frozenset(out), (src, "keep", tuple(sorted(keeps, key=repr))) if src is not None else None))
        if name in ("list", "tuple", "iter"):
            if not args:
                return V(("L", frozenset(), None))
            o = set()
            for a in args[0]:
                if isinstance(a, tuple) and a[0] in ("L", "O", "A"):
                    o.add(("L", self.elem(V(a)) if a[0] != "L" or a[1] else frozenset(), a[2] if len(a) > 2 and a[0] == "L" else None))
                elif isinstance(a, tuple) and a[0] == "T":
                    o.add(a)
                else:
                    o.add(TOP)
            return frozenset(o)
        if name in ("len", "int", "float", "abs", "round", "sum", "max", "min"):
            return NUM
        if name == "range":
            return V(("L", NUM, None))
        if name == "enumerate":
            return V(("L", V(("T", (NUM, self.elem(args[0])))), None)) if args else UNK
        if name == "zip":
            return V(("L", V(("T", tuple(self.elem(a) for a in args))), None))
        if name in ("sorted", "reversed"):
            return V(("L", self.elem(args[0]), None)) if args else UNK
        if name == "next" and args:
            return self.elem(args[0]) | (args[1] if len(args) > 1 else frozenset())
        if name == "bool":
            return frozenset(B(self.truth(a)) for a in args[0]) if args else BOOL
        if name in ("any", "all", "callable", "hasattr"):
            return BOOL
        if name == "isinstance" and len(e.args) == 2:
            c = ast.unparse(e.args[1])
            o = set()
            for a in args[0]:
                if a == TOP:
                    o.add(B())
                elif c.split(".")[-1] == "ndarray":
                    o.add(B(isinstance(a, tuple) and a[0] in ("A", "Ab", "Ai", "O", "E")))
                elif c in ("bool", "tuple", "list", "str"):
                    o.add(B(isinstance(a, tuple) and a[0] == {"bool": "b", "tuple": "T", "list": "L", "str": "s"}[c]))
                elif c in ("Vertex", "Edge"):
                    o.add(B(isinstance(a, tuple) and a[0] == "I" and a[1] == c))
                elif c == "type(None)":
                    o.add(B(a == NONE))
                else:
                    o.add(B())
            return frozenset(o)
        if name == "print":
            return V(NONE)
        r = self.p.resolve_member(mod.name, name)
        if isinstance(r, tuple) and r[0] == "external" and r[1:] == ("functools", "partial") and args:
            o = set()
            for a in args[0]:
                o.add(("P", a, tuple(args[1:]), tuple(sorted(kwargs.items(), key=lambda kv: kv[0]))))
            return frozenset(o)
        return None

    def numpy_name(self, f, mod):
        """dotted numpy function"""
        parts = []
        while isinstance(f, ast.Attribute):
            parts.append(f.attr)
            f = f.value
        if isinstance(f, ast.Name):
            imp = mod.imports.get(f.id)
            if imp is not None:
                base = imp[1] if imp[0] == "module" else imp[1] + "." + imp[2]
                return ".".join([base] + parts[::-1])
        return None

    def numpy(self, e, args, kwargs, env, mod):
        nm = self.numpy_name(e.func, mod)
        if nm is None:
            return None
        if nm in ("copy.copy", "copy.deepcopy"):
            return args[0] if args else UNK
        if nm == "functools.partial" and args:
            return frozenset(("P", a, tuple(args[1:]), tuple(sorted(kwargs.items(), key=lambda kv: kv[0]))) for a in args[0])
        if not nm.startswith("numpy."):
            return None
        n = nm[len("numpy."):]
        if n in ("array", "asarray", "atleast_1d", "asanyarray"):
            return self.array_of(args[0]) if args else UNK
        if n in ELEMENTWISE:
            if not args:
                return UNK
            o = args[0]
            if n in ("arctan2", "cross", "add", "subtract", "multiply", "divide", "maximum", "minimum", "power") and len(args) > 1:
                return strip(self.binop(ast.Add(), args[0], args[1]))
            return strip(self.array_of(o))
        if n in PREDICATES:
            vs = [self.array_of(a) for a in args]
            o = set()
            for a in vs[0] if vs else [TOP]:
                ks = [a] + [list(x)[0] if len(x) == 1 else TOP for x in vs[1:2]]
                rk = [x[1] if isinstance(x, tuple) and x[0] in ("A", "Ab", "Ai") else 0 if isinstance(x, tuple) and x[0] in ("n", "b") else None for x in ks]
                if None in rk:
                    o.add(TOP)
                else:
                    o.add(("Ab", max(rk)) if max(rk) else B())
            return frozenset(o)
        if n in ("all", "any", "allclose", "array_equal", "isscalar"):
            if "axis" in kwargs:
                return UNK
            return BOOL
        if n in ("linalg.norm", "linalg.det", "dot", "inner", "vdot") or n in REDUCE:
            if n in ("dot", "inner"):
                if len(args) == 2:
                    return self.binop(ast.MatMult(), self.array_of(args[0]), self.array_of(args[1]))
                return UNK
            if n == "linalg.det":
                return NUM
            if "axis" in kwargs or len(e.args) > 1:
                o = set()
                for a in self.array_of(args[0]):
                    r = a[1] if isinstance(a, tuple) and a[0] in ("A", "Ab", "Ai") else None
                    if r is None:
                        o.add(TOP)
                    elif r == 1:
                        o.add(N)
                    else:
                        o.add(A(r - 1))
                return frozenset(o)
            return NUM
        if n in KEEP:
            if n in ("vstack", "hstack", "concatenate") and args:
                o = set()
                for a in args[0]:
                    if isinstance(a, tuple) and a[0] in ("T", "L"):
                        e0 = frozenset().union(*a[1]) if a[0] == "T" else a[1]
                        rs = {x[1] for x in arrs(e0)}
                        rs = {2 if n == "vstack" and r == 1 else r for r in rs}
                        if len(rs) == 1 and len(arrs(e0)) == len(e0):
                            o.add(A(list(rs)[0]))
                            continue
                    o.add(TOP)
                return frozenset(o)
            if n == "append" and "axis" not in kwargs and len(e.args) < 3:
                return V(A(1))
            o = set()
            for a in args[0] if args else [TOP]:
                if a == ("E",) and n == "append" and len(args) > 1:
                    # an empty start collection takes the shape of what is appended along an axis
                    for b in args[1]:
                        o.add(A(b[1]) if isinstance(b, tuple) and b[0] == "A" and b[1] else TOP)
                elif isinstance(a, tuple) and a[0] == "A":
                    o.add(A(a[1]))
                else:
                    o.add(a)
            return frozenset(o)
        if n == "unique":
            extra = [k for k in ("return_index", "return_inverse", "return_counts") if k in kwargs]
            b = strip(self.array_of(args[0])) if args else UNK
            if extra:
                return V(("T", (b,) + tuple(V(("Ai", 1)) for _ in extra)))
            return b
        if n in ("flatnonzero", "argwhere", "nonzero", "where") and len(e.args) == 1 and \
                any(isinstance(a, tuple) and a[0] == "Ab" and len(a) > 2 for a in args[0]):
            x = V(("Ai", 1, "flag"))
            return x if n == "flatnonzero" else UNK if n == "argwhere" else V(("T", (x,)))
        if n in ("argsort", "flatnonzero", "lexsort"):
            return V(("Ai", 1))
        if n == "arange":
            return V(("Ai", 1))
        if n in ("where", "nonzero"):
            if len(e.args) == 1:
                return V(("T", (V(("Ai", 1)),)))
            return UNK
        if n in ("empty", "zeros", "ones", "full", "identity", "eye"):
            if n in ("identity", "eye"):
                return P2
            s = e.args[0] if e.args else None
            if isinstance(s, (ast.Tuple, ast.List)):
                if any(isinstance(x, ast.Constant) and x.value == 0 for x in s.elts):
                    return V(("E",))
                return V(A(len(s.elts)))
            if isinstance(s, ast.Constant) and s.value == 0:
                return V(("E",))
            return V(A(1))
        if n == "linalg.lstsq":
            return V(("T", (P1, P1, NUM, P1)))
        return UNK

    def method(self, e, args, kwargs, env, mod):
        f = e.func
        if isinstance(f.value, ast.Name) and f.value.id not in env:
            return None
        b = self.ev(f.value, env, mod)
        out = frozenset()
        for a in b:
            if isinstance(a, tuple) and a[0] == "I":
                if a[1] == "Edge" and f.attr == "boundary_points":
                    out |= P2
                    continue
                cls = None
                for m in self.p.modules.values():
                    if a[1] in m.classes:
                        cls = m.classes[a[1]]
                t = self.p.lookup_method(cls, f.attr) if cls else None
                if t is not None and self.depth < 6:
                    out |= self.call_body(t.node, t.module, [V(a)] + args, kwargs, {})
                else:
                    out |= UNK
            elif isinstance(a, tuple) and a[0] in ("A", "Ab", "Ai", "O", "L"):
                m = f.attr
                if m == "copy":
                    out |= V(a)
                elif m in ("ravel", "flatten"):
                    out |= V(A(1)) if a[0] == "A" else UNK
                elif m in ("any", "all"):
                    out |= BOOL
                elif m in ("sum", "min", "max", "mean", "argmax", "argmin", "item"):
                    out |= NUM if not args and not kwargs else UNK
                elif m == "argsort":
                    out |= V(("Ai", 1))
                elif m == "tolist":
                    out |= V(("L", self.elem(V(a)), None))
                elif m in ("astype", "round"):
                    out |= V(a)
                elif m in ("append", "extend", "sort", "insert"):
                    out |= V(NONE)
                else:
                    out |= UNK
            else:
                out |= UNK
        return out


def show(a):
    if a == NONE:
        return "None"
    if a == TOP:
        return "an undetermined value"
    k = a[0]
    if k == "A":
        return "an array with %s axes" % a[1]
    if k == "b":
        return "a truth value" if a[1] is None else str(a[1])
    if k == "n":
        return "a number"
    if k == "T":
        return "a tuple of %d values" % len(a[1])
    if k == "L":
        return "a list" if a[1] else "an empty list"
    if k == "E":
        return "an empty array"
    if k == "O":
        return "an array of objects (%s)" % ", ".join(sorted(show(x) for x in a[1]))
    if k == "I":
        if a[1] == "Vertex" and a[2] != 1:
            return "a Vertex whose point has %s axes" % a[2]
        return a[1]
    if k in ("Ab", "Ai"):
        return "an array of %s" % ("truth values" if k == "Ab" else "indices")
    return k


class Checker:
    def __init__(self, program, res):
        self.p, self.res = program, res
        self._cond_seen = set()

    def batch_kind(self, key):
        kind, hits = BATCH[key][1], BATCH[key][2]
        h = frozenset(hits)
        if kind == "pair":
            return V(("T", (h, V(("Ab", 1)))))
        if kind == "hits":
            return h
        if kind == "lists":
            return frozenset([("L", V(A(3)), None)])
        if kind == "shapes":
            return V(("T", (V(("O", h)), V(("O", VERTEX)))))
        return V(("L", V(("T", (EDGE, V(("O", h)), V(("O", VERTEX)))))  , None))

    def run_function(self, f, inputs):
        r = Run(self, f)
        params = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        args = []
        for i, x in enumerate(params):
            if i < len(inputs):
                v = inputs[i]
                a = list(v)[0]
                if a[0] in ("A", "O"):
                    a = (a[0], a[1], ("param", x))
                args.append(V(a))
            else:
                args.append(NUM)
        rets = []
        env = Env()
        for x, v in zip(params, args):
            env[x] = v
        end = r.block(f.node.body, env, f.module, rets)
        return r, rets, end

    def query(self, key, f):
        inputs, allowed = QUERIES[key]
        r, rets, end = self.run_function(f, inputs)
        allow = {strip(V(a)) for a in allowed}
        if end is not None and NONE not in allowed:
            self.res.bad("query.return", "%s end" % f.id, "a path ends without an answer", loc(f.module, f.node))
        for st, v in rets:
            for a in sorted(strip(v), key=repr):
                c = "%s returns %s" % (f.id, show(a))
                if a == TOP or (isinstance(a, tuple) and a[0] in ("A", "I") and a[-1 if a[0] == "I" else 1] is None):
                    self.res.unknown("query.return", c, "kind of the returned value %s" % ast.unparse(st)[:60])
                elif V(a) in allow:
                    self.res.ok("query.return", "%s %s" % (c, loc(f.module, st)))
                else:
                    self.res.bad("query.return", c, "`%s` answers with %s; the query answers None for a miss and %s for a hit" %
                                 (ast.unparse(st), show(a), " or ".join(show(x) for x in allowed if x != NONE)), loc(f.module, st))

    def hits_ok(self, f, st, v, hits, what):
        allow = {strip(V(a)) for a in hits}
        for a in sorted(strip(v), key=repr):
            c = "%s %s contain %s" % (f.id, what, show(a))
            if a == TOP or a == ("E",) or (isinstance(a, tuple) and a[0] == "A" and a[1] is None):
                self.res.unknown("batch.hits", c, "kind of %s" % ast.unparse(st)[:60])
            elif V(a) in allow:
                self.res.ok("batch.hits", "%s %s" % (c, loc(f.module, st)))
            elif isinstance(a, tuple) and a[0] == "O":
                bad = [x for x in a[1] if x == NONE or (isinstance(x, tuple) and x[0] in ("b", "T", "L", "E"))]
                if bad:
                    self.res.bad("batch.hits", c, "`%s`: the answers still contain %s" % (ast.unparse(st), ", ".join(sorted(show(x) for x in bad))),
                                 loc(f.module, st))
                elif all(V(x) in allow for x in strip(a[1])):
                    self.res.ok("batch.hits", c)
                elif TOP in a[1]:
                    self.res.unknown("batch.hits", c, "elements undetermined")
                else:
                    # arrays of different shapes in one result
                    self.res.bad("batch.hits", c, "`%s`: the answers have different structures: %s" % (ast.unparse(st), show(a)), loc(f.module, st))
            elif a == NONE or (isinstance(a, tuple) and a[0] in ("b", "n", "T", "L", "A", "s", "I")):
                self.res.bad("batch.hits", c, "`%s` answers with %s where the hits are %s" % (ast.unparse(st), show(a), " or ".join(show(x) for x in hits)),
                             loc(f.module, st))
            else:
                self.res.unknown("batch.hits", c, "kind")

    def batch(self, key, f):
        inputs, kind, hits = BATCH[key]
        r, rets, end = self.run_function(f, inputs)
        if end is not None:
            self.res.bad("batch.return", "%s end" % f.id, "a path ends without an answer", loc(f.module, f.node))
        for st, v in rets:
            for a in sorted(v, key=repr):
                c = "%s returns %s" % (f.id, show(a))
                if a == TOP:
                    self.res.unknown("batch.return", c, ast.unparse(st)[:60])
                    continue
                if kind == "hits":
                    self.hits_ok(f, st, V(a), hits, "hits")
                    self.selection(f, st, a, None)
                    continue
                if kind == "lists":
                    if isinstance(a, tuple) and a[0] == "L":
                        self.hits_ok(f, st, a[1], hits, "rows")
                    else:
                        self.hits_ok(f, st, V(a), hits, "rows")
                    continue
                if kind == "rows":
                    if not (isinstance(a, tuple) and a[0] in ("L", "E")):
                        self.res.bad("batch.return", c, "`%s` does not answer with one row per input" % ast.unparse(st), loc(f.module, st))
                        continue
                    for row in (a[1] if a[0] == "L" else ()):
                        if not (isinstance(row, tuple) and row[0] == "T" and len(row[1]) == 3):
                            if row == TOP:
                                self.res.unknown("batch.return", c, "rows")
                            else:
                                self.res.bad("batch.return", c, "a row is %s" % show(row), loc(f.module, st))
                            continue
                        self.shape_column(f, st, row[1][1], hits)
                    continue
                if not (isinstance(a, tuple) and a[0] == "T" and len(a[1]) == 2):
                    self.res.bad("batch.return", c, "`%s` answers with %s instead of the pair of hits and flags" % (ast.unparse(st), show(a)),
                                 loc(f.module, st))
                    continue
                self.res.ok("batch.return", c)
                h, fl = a[1]
                if kind == "shapes":
                    self.shape_column(f, st, h, hits)
                    continue
                self.hits_ok(f, st, h, hits, "hits")
                self.selection(f, st, h, fl)

    def shape_column(self, f, st, h, hits):
        for a in sorted(h, key=repr):
            c = "%s shapes" % f.id
            if isinstance(a, tuple) and a[0] in ("O", "L"):
                bad = [x for x in a[1] if x == NONE or x == TOP or strip(V(x)) not in {strip(V(y)) for y in hits}]
                if any(x == TOP for x in bad):
                    self.res.unknown("batch.hits", c, "elements")
                elif bad:
                    self.res.bad("batch.hits", c, "`%s`: the answers contain %s" % (ast.unparse(st), ", ".join(sorted(show(x) for x in bad))), loc(f.module, st))
                else:
                    self.res.ok("batch.hits", c)
            elif a == ("E",):
                self.res.ok("batch.hits", c)
            elif a == TOP:
                self.res.unknown("batch.hits", c, "shapes")
            else:
                self.res.bad("batch.hits", c, "`%s`: the shapes are %s" % (ast.unparse(st), show(a)), loc(f.module, st))

    def selection(self, f, st, h, fl):
        hs = [h] if not isinstance(h, frozenset) else list(h)
        for a in hs:
            pv = a[2] if isinstance(a, tuple) and len(a) > 2 and a[0] in ("A", "O") else None
            c = "%s selection" % f.id
            if pv is None or pv[1] not in ("keep", "all"):
                self.res.unknown("batch.selection", c, "how the hits are selected is not recognised")
                continue
            keep = dict(pv[2])
            self.judge(f, st, "batch.selection", keep, "kept")
            if fl is None:
                continue
            fs = [x for x in fl if isinstance(x, tuple) and x[0] == "Ab" and len(x) > 2]
            if len(fs) != 1 or fs[0][2][1] != "flag":
                self.res.unknown("batch.flags", c, "how the flags are computed is not recognised")
                continue
            if fs[0][2][0] != pv[0]:
                self.res.unknown("batch.flags", c, "flags and hits come from different lists of answers")
                continue
            self.judge(f, st, "batch.flags", dict(fs[0][2][2]), "flagged")

    def judge(self, f, st, rule, table, word):
        for a, k in sorted(table.items(), key=repr):
            c = "%s %s %s" % (f.id, show(strip(V(a)).__iter__().__next__()), word)
            hit = a != NONE
            if a == TOP:
                self.res.unknown(rule, c, "kind of an answer")
            elif k is None:
                self.res.bad(rule, c, "whether %s is %s depends on its value, not on being a %s" % (show(a), word, "hit" if hit else "miss"), loc(f.module, st))
            elif k != hit:
                self.res.bad(rule, c, "%s is %s%s" % (show(a), "" if k else "not ", word), loc(f.module, st))
            else:
                self.res.ok(rule, c)


def callers(program, res):
    """answers of the queries are told from misses by identity with None"""
    singles = {}
    for (m, n) in QUERIES:
        singles[n] = QUERIES[(m, n)][1]
    for f in program.functions():
        names = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                r = program.resolve_expr(f.module, n.value.func)
                if isinstance(r, FuncInfo) and (r.module.name, r.name) in QUERIES:
                    names.setdefault(n.targets[0].id, []).append((n, r))
                else:
                    names.setdefault(n.targets[0].id, []).append((n, None))
        for nm, ds in names.items():
            if any(r is None for _, r in ds):
                continue
            array_hit = any(a[0] == "A" for _, r in ds for a in QUERIES[(r.module.name, r.name)][1] if isinstance(a, tuple))
            for t in truth_tests(f.node):
                e = t
                while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                    e = e.operand
                if isinstance(e, ast.Name) and e.id == nm and array_hit and not rebound_other(f.node, nm):
                    res.bad("caller.test", "%s %s" % (f.id, nm), "the truth value of the answer of %s is taken; a hit is an array of points" % ds[0][1].name,
                            loc(f.module, t))
                elif array_hit and isinstance(e, ast.Call) and not rebound_other(f.node, nm) and ast.unparse(e) in (
                        "np.any(%s)" % nm, "np.all(%s)" % nm, "%s.any()" % nm, "%s.all()" % nm, "bool(%s)" % nm):
                    res.bad("caller.test", "%s %s" % (f.id, nm), "the answer of %s is tested by the values of its coordinates" % ds[0][1].name,
                            loc(f.module, t))
                elif isinstance(e, ast.Compare) and isinstance(e.left, ast.Name) and e.left.id == nm and \
                        isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
                    if isinstance(e.ops[0], (ast.Is, ast.IsNot)):
                        res.ok("caller.test", "%s %s %s" % (f.id, nm, loc(f.module, t)))
                    elif array_hit:
                        res.bad("caller.test", "%s %s" % (f.id, nm), "the answer of %s is compared with None by value; a hit is an array of points" % ds[0][1].name,
                                loc(f.module, t))


def rebound_other(fn, nm):
    for n in ast.walk(fn):
        if isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(n.target)):
            return True
    return False


def truth_tests(fn):
    for n in ast.walk(fn):
        if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
            yield from atoms_of(n.test)
        elif isinstance(n, ast.comprehension):
            for t in n.ifs:
                yield from atoms_of(t)
        elif isinstance(n, ast.Assign) and isinstance(n.value, (ast.BoolOp, ast.Compare)):
            yield from atoms_of(n.value)


def atoms_of(t):
    if isinstance(t, ast.BoolOp):
        for x in t.values:
            yield from atoms_of(x)
    elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.BoolOp):
        yield from atoms_of(t.operand)
    else:
        yield t


def run(program, res, tier="quick"):
    c = Checker(program, res)
    for table, fn in ((QUERIES, c.query), (BATCH, c.batch)):
        for key in table:
            r = program.resolve_member(key[0], key[1])
            if not isinstance(r, FuncInfo):
                res.unknown("anchor", "%s:%s" % key, "the query is not found")
                continue
            fn(key, r)
    callers(program, res)
    res.info["queries"] = len(QUERIES) + len(BATCH)
