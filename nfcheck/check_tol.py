"""P11: the tolerance a caller passes governs every comparison made on behalf of the query."""
import ast

from .core import FuncInfo, ClassInfo, loc
from .typeinf import Ctx, own_nodes
from .check_refs import types_of

SMALL = 1e-4
CLOSE = {"isclose": ("rtol", "atol"), "allclose": ("rtol", "atol")}


class Tol:
    def __init__(self, program, res):
        self.p, self.res = program, res
        self.t = types_of(program)
        self.tol = {}           # id(func node) -> set of tolerance parameter names
        self.kind = {}          # (id(func node), name) -> default global name
        self.attrs = {}         # ClassInfo.id -> attributes holding a tolerance
        self.byname = {}
        self.env = {}

    # -- what is a tolerance ----------------------------------------------------------
    def global_tol(self, mod, e):
        """name of the library tolerance an expression denotes"""
        if isinstance(e, (ast.Name, ast.Attribute)):
            r = self.p.resolve_expr(mod, e)
            if isinstance(r, tuple) and r[0] == "global":
                for nm, v in r[1].globals.items():
                    if v is r[2] and small(v):
                        return nm
        return None

    def prepare(self):
        for f, node, mod, cls, parent in self.t.funcs:
            s = set()
            a = node.args
            dfl = list(zip([x.arg for x in (a.posonlyargs + a.args)][::-1], a.defaults[::-1])) + [
                (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            for name, d in dfl:
                g = self.global_tol(mod, d)
                if g or small(d):
                    s.add(name)
                    self.kind[(id(node), name)] = g
            self.tol[id(node)] = s
        # parameters that are used as tolerances, and attributes that hold them
        for _ in range(6):
            changed = False
            for f, node, mod, cls, parent in self.t.funcs:
                ctx = Ctx(self.t, f, node, mod, cls)
                self.t.memo = {}
                params = {x.arg for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs}
                s = self.tol[id(node)]
                for n in own_nodes(node):
                    if isinstance(n, ast.Call):
                        for e in self.tolerance_args(n, ctx):
                            for x in bare(e):
                                if x in params and x not in s and x != self.t.selfname(f, node, cls):
                                    s.add(x)
                                    changed = True
                    elif isinstance(n, ast.Assign) and cls is not None and len(n.targets) == 1:
                        tg = n.targets[0]
                        if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and isinstance(
                                n.value, ast.Name) and n.value.id in s and tg.value.id == self.t.selfname(f, node, cls):
                            at = self.attrs.setdefault(cls.id, set())
                            if tg.attr not in at:
                                at.add(tg.attr)
                                changed = True
            if not changed:
                break

    def close_call(self, n, ctx):
        nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
        if nm in CLOSE and not self.callees(n.func, ctx):
            return nm
        return None

    def callees(self, func, ctx):
        """(node, FuncInfo or None, skip) of the repository functions an expression denotes"""
        out = []
        for x in self.t.ty(func, ctx):
            if x[0] in ("func", "bound", "local", "cls"):
                for k, node, f, skip, pre, kw in self.t.target_of(x):
                    out.append((node, f, skip))
        return out

    def close_args(self, n):
        """(rtol expression, atol expression, expanded) of a closeness test"""
        kw = {k.arg: k.value for k in n.keywords}
        ex = [k.value for k in n.keywords if k.arg is None] + [a for a in n.args if isinstance(a, ast.Starred)]
        r = kw.get("rtol", n.args[2] if len(n.args) > 2 else None)
        a = kw.get("atol", n.args[3] if len(n.args) > 3 else None)
        return r, a, ex

    def tolerance_args(self, n, ctx):
        if self.close_call(n, ctx):
            r, a, ex = self.close_args(n)
            return [x for x in (r, a) if x is not None]
        out = []
        func, args, kws = n.func, n.args, n.keywords
        if is_partial(n, ctx, self.t):
            func, args = n.args[0], n.args[1:]
        for node, f, skip in self.callees(func, ctx):
            for name in self.tol.get(id(node), ()):
                e = argument(node, skip, args, kws, name)
                if isinstance(e, ast.AST):
                    out.append(e)
        return out

    # -- which expressions carry the caller's tolerance ------------------------------------------
    def carriers(self, f, node, mod, cls, outer=frozenset()):
        """names of a function that hold (something computed from) a tolerance parameter"""
        own = set(self.tol.get(id(node), ()))
        bound = {x.arg for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs}
        names = own | {x for x in outer if x not in bound}
        sets = {}
        if not isinstance(node, ast.Lambda):
            for n in own_nodes(node):
                if isinstance(n, ast.Assign):
                    for tg in n.targets:
                        if isinstance(tg, ast.Name):
                            sets.setdefault(tg.id, []).append((n, n.value))
                        elif isinstance(tg, (ast.Tuple, ast.List)):
                            vals = n.value.elts if isinstance(n.value, (ast.Tuple, ast.List)) and len(
                                n.value.elts) == len(tg.elts) else [None] * len(tg.elts)
                            for x, v in zip(tg.elts, vals):
                                if isinstance(x, ast.Name):
                                    sets.setdefault(x.id, []).append((n, v))
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                    sets.setdefault(n.target.id, []).append((n, n.value))
                elif isinstance(n, (ast.For, ast.comprehension)):
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name):
                            sets.setdefault(x.id, []).append((n, None))
        at = self.tol_attrs(cls)
        selfn = self.selfname(f, node, cls)
        env = (names, at, selfn)
        for _ in range(len(sets) + 1):
            new = set(env[0])
            for k, l in sets.items():
                if k not in own and all(v is not None and self.carries(v, env) for _, v in l):
                    new.add(k)
            if new == env[0]:
                break
            env = (new, at, selfn)
        rebound = [(k, n, v) for k, l in sets.items() if k in own for n, v in l
                   if v is None or not self.carries(v, env)]
        return env, rebound

    def selfname(self, f, node, cls):
        if cls is None or f is None or not hasattr(f, "node") or not f.node.args.args:
            return None
        return None if f.is_static() else f.node.args.args[0].arg

    def tol_attrs(self, cls):
        if cls is None:
            return set()
        s = set()
        for c in self.p.mro(cls):
            s |= self.attrs.get(c.id, set())
        return s

    def carries(self, e, env):
        names, at, selfn = env
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and n.id in names:
                return True
            if isinstance(n, ast.Attribute) and n.attr in at and isinstance(n.value, ast.Name) and n.value.id == selfn:
                return True
        return False

    # -- obligations --------------------------------------------------------------------------
    def run(self):
        self.prepare()
        for f, node, mod, cls, parent in self.t.funcs:
            if parent is None:
                self.function(f, node, mod, cls, frozenset())

    def con(self, mod, node):
        n, parts = node, []
        while n is not None:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                parts.append(n.name)
            n = mod.parents.get(n)
        return mod.name + ":" + ".".join(reversed(parts))

    def function(self, f, node, mod, cls, outer):
        env, rebound = self.carriers(f, node, mod, cls, outer)
        governed = bool(env[0]) or (bool(env[1]) and env[2] is not None)
        ctx = Ctx(self.t, f, node, mod, cls)
        self.t.memo = {}
        for n in own_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node:
                self.function(f, n, mod, cls, frozenset(env[0]))
                self.t.memo = {}
        if not governed:
            self.ungoverned(f, node, mod, cls, ctx)
            return
        for k, n, v in rebound:
            if not default_guard(n, mod, k):
                self.res.bad("tolerance.replaced", "%s %s" % (self.con(mod, n), k),
                             "the tolerance %s of the caller is replaced by another value" % k, loc(mod, n))
        init = getattr(node, "name", "") == "__init__"
        skip = set()
        for n in own_nodes(node):
            if isinstance(n, ast.Assert):
                skip |= {id(x) for x in ast.walk(n)}
        for n in own_nodes(node):
            if id(n) in skip:
                continue
            if isinstance(n, ast.Call):
                if self.close_call(n, ctx):
                    self.closeness(n, env, mod, node, f, cls)
                else:
                    self.delegate(n, env, ctx, mod, node)
            elif isinstance(n, ast.Compare):
                for x in [n.left] + n.comparators:
                    if (small(x) or self.global_tol(mod, x)) and not self.carries(n, env):
                        self.res.bad("tolerance.fixed", "%s %s" % (self.con(mod, n), ast.unparse(n)[:70]),
                                     "compares with a fixed tolerance although the caller gave one", loc(mod, n))
                        break
                else:
                    if self.carries(n, env):
                        self.res.ok("tolerance.compare", "%s: %s" % (self.con(mod, n), ast.unparse(n)[:60]))

    def closeness(self, n, env, mod, node, f, cls):
        r, a, ex = self.close_args(n)
        what = "%s %s" % (self.con(mod, n), ast.unparse(n)[:80])
        if any(self.carries(x, env) for x in ex):
            self.res.ok("tolerance.compare", what)
            return
        zero_ref = len(n.args) > 1 and zero(n.args[1])
        good_r = (r is not None and (self.carries(r, env) or zero(r))) or zero_ref
        good_a = a is not None and (self.carries(a, env) or zero(a))
        used = any(x is not None and self.carries(x, env) for x in (r, a))
        if good_r and good_a and used:
            self.res.ok("tolerance.compare", what)
            return
        if r is not None and a is not None and not used:
            gr, ga = self.global_tol(mod, r), self.global_tol(mod, a)
            if gr == ga == "geometry_collapse_tol" and len(n.args) > 1 and all(
                    self.point_value(x, node, mod) for x in n.args[:2]):
                self.res.ok("tolerance.snap", what)
                return
        self.res.bad("tolerance.compare", what, "the comparison does not use the tolerance given by the caller", loc(mod, n))

    def point_value(self, e, node, mod, seen=()):
        """an expression that only copies points handed to the query"""
        if isinstance(e, (ast.Subscript, ast.Attribute, ast.Starred)):
            return self.point_value(e.value, node, mod, seen)
        if isinstance(e, ast.Name):
            if e.id in seen:
                return True
            a = node.args
            params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            defs = []
            for n in own_nodes(node):
                if isinstance(n, ast.Assign):
                    for tg in n.targets:
                        if any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(tg)):
                            defs.append(n.value)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    if any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(n.target)):
                        defs.append(n.iter)
            if not defs:
                return e.id in params or True
            return all(self.point_value(d, node, mod, seen + (e.id,)) for d in defs)
        if isinstance(e, (ast.Tuple, ast.List)):
            return all(self.point_value(x, node, mod, seen) for x in e.elts)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("boundary_points",):
            return True
        if isinstance(e, ast.Call) and len(e.args) >= 1 and ast.unparse(e.func) in (
                "np.array", "np.asarray", "zip", "enumerate", "numpy.array", "list", "tuple"):
            return all(self.point_value(x, node, mod, seen) for x in e.args)
        return False

    def delegate(self, n, env, ctx, mod, node):
        func, args, kws = n.func, n.args, n.keywords
        part = is_partial(n, ctx, self.t)
        if part:
            func, args = n.args[0], n.args[1:]
        for cal, f, skip in self.callees(func, ctx):
            self.pass_on(n, cal, skip, args, kws, env, mod, node, part)
        if isinstance(func, ast.Name) and func.id in ("map", "filter") and args:
            for cal, f, skip in self.callees(args[0], ctx):
                if isinstance(cal, ast.Lambda) or not self.tol.get(id(cal)):
                    continue
                self.res.bad("tolerance.forward", "%s map %s" % (self.con(mod, n), ast.unparse(args[0])),
                             "the query is applied with its default tolerance", loc(mod, n))

    def pass_on(self, n, cal, skip, args, kws, env, mod, node, part):
        need = self.tol.get(id(cal), set())
        what = "%s %s" % (self.con(mod, n), getattr(cal, "name", "lambda"))
        if not need:
            return
        expanded = [k.value for k in kws if k.arg is None] + [a for a in args if isinstance(a, ast.Starred)]
        for name in sorted(need):
            e = argument(cal, skip, args, kws, name)
            if e is None and any(self.carries(x, env) for x in expanded):
                self.res.ok("tolerance.forward", what)
                continue
            if e is None and part and self.later(n, name, cal, skip, env, mod, node):
                self.res.ok("tolerance.forward", what)
                continue
            if e is None:
                self.res.bad("tolerance.forward", what, "%s is called without the tolerance of the caller (parameter %s)"
                             % (getattr(cal, "name", "lambda"), name), loc(mod, n))
            elif not self.carries(e, env):
                self.res.bad("tolerance.forward", what, "parameter %s receives %s instead of the tolerance of the caller"
                             % (name, ast.unparse(e)[:40]), loc(mod, n))
            else:
                # with several tolerances, the one of the same kind
                k = self.kind.get((id(cal), name))
                own = {x: self.kind.get((id(node), x)) for x in self.tol.get(id(node), ())}
                if isinstance(e, ast.Name) and e.id in own and k is not None and own[e.id] != k and k in own.values():
                    self.res.bad("tolerance.kind", what, "parameter %s receives the tolerance %s of another kind"
                                 % (name, e.id), loc(mod, n))
                else:
                    self.res.ok("tolerance.forward", "%s: %s=%s" % (what, name, ast.unparse(e)[:30]))

    def later(self, n, name, cal, skip, env, mod, node):
        """a partial that gets the tolerance when it is called"""
        st = mod.parents.get(n)
        if not (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name)):
            return False
        v = st.targets[0].id
        uses = [q for q in own_nodes(node) if isinstance(q, ast.Name) and q.id == v and isinstance(q.ctx, ast.Load)]
        calls = [mod.parents.get(q) for q in uses]
        return bool(uses) and all(
            isinstance(c, ast.Call) and c.func is q and any(k.arg == name and self.carries(k.value, env) for k in c.keywords)
            for q, c in zip(uses, calls))

    def ungoverned(self, f, node, mod, cls, ctx):
        """a helper without a tolerance that decides with a fixed one, reached from a query with a tolerance"""
        self.helpers = getattr(self, "helpers", {})
        bad = []
        for n in own_nodes(node):
            if isinstance(n, ast.Call):
                func, args, kws = n.func, n.args, n.keywords
                if self.close_call(n, ctx):
                    r, a, ex = self.close_args(n)
                    gs = [self.global_tol(mod, x) for x in (r, a) if x is not None]
                    if any(gs) and not (set(gs) == {"geometry_collapse_tol"} and len(n.args) > 1 and all(
                            self.point_value(x, node, mod) for x in n.args[:2])):
                        bad.append((n, "compares with the fixed tolerance %s" % gs[0]))
                    continue
                for cal, g, skip in self.callees(func, ctx):
                    for name in self.tol.get(id(cal), ()):
                        if getattr(cal, "name", "") == "__init__":
                            continue
                        e = argument(cal, skip, args, kws, name)
                        if e is None or not isinstance(e, ast.AST) or self.global_tol(mod, e):
                            bad.append((n, "calls %s with a fixed tolerance" % getattr(cal, "name", "")))
        if bad:
            self.helpers[id(node)] = (node, mod, bad)

    def second(self):
        """calls of governed queries to helpers that lose the tolerance"""
        h = getattr(self, "helpers", {})
        if not h:
            return
        for f, node, mod, cls, parent in self.t.funcs:
            if not self.tol.get(id(node)):
                continue
            ctx = Ctx(self.t, f, node, mod, cls)
            self.t.memo = {}
            for n in ast.walk(node):
                if isinstance(n, ast.Call):
                    func = n.args[0] if is_partial(n, ctx, self.t) and n.args else n.func
                    for cal, g, skip in self.callees(func, ctx):
                        if id(cal) in h:
                            q, m2, bad = h[id(cal)]
                            self.res.bad("tolerance.lost", "%s %s" % (self.con(mod, n), getattr(cal, "name", "")),
                                         "%s takes no tolerance and %s" % (getattr(cal, "name", ""), bad[0][1]),
                                         loc(mod, n))


def small(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        e = e.operand
    return isinstance(e, ast.Constant) and isinstance(e.value, float) and 0.0 < abs(e.value) <= SMALL


def zero(e):
    return isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and e.value == 0


def bare(e):
    return [n.id for n in ast.walk(e) if isinstance(n, ast.Name)]


def is_partial(n, ctx, t):
    if not n.args:
        return False
    nm = ast.unparse(n.func)
    return nm in ("partial", "functools.partial") or nm.endswith(".partial")


def argument(node, skip, args, kws, name):
    """expression bound to a parameter; None when it is left to its default, False when it cannot be told"""
    for k in kws:
        if k.arg == name:
            return k.value
    pos = [x.arg for x in node.args.posonlyargs + node.args.args][skip:]
    if name in pos:
        i = pos.index(name)
        for j, a in enumerate(args):
            if isinstance(a, ast.Starred):
                return None
            if j == i:
                return a
    return None


def default_guard(n, mod, name):
    """`if eps is None: eps = default`"""
    q = mod.parents.get(n)
    return isinstance(q, ast.If) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(q.test))


def run(program, res, tier):
    c = Tol(program, res)
    c.run()
    c.second()
    res.info["tolerance_parameters"] = sum(len(v) for v in c.tol.values())
