"""P16: mesher sessions and files are opened, used and closed in order (typestate)."""
import ast
import re

from .core import loc, FuncInfo, ClassInfo
from .typeinf import own_nodes
from .check_det import local_imports

KERNELS = ("occ", "geo")
# events of the mesher by dotted name
QUERY_KERNEL = re.compile(r"^gmsh\.model\.(occ|geo)\.(getEntities|getMass|getCenterOfMass|getBoundingBox|getMaxTag|get\w+)$")
NEEDS_SYNC = re.compile(r"^gmsh\.model\.(?!(occ|geo)(\.|$))(?!(add|setCurrent|getCurrent|list|remove|setFileName|getFileName)$)\w+(\.\w+)*$")
MAXSTATES = 400


class State:
    """opened: None not yet, True, False closed; dirty kernels; meshed; assumed branch conditions"""
    __slots__ = ("open", "dirty", "mesh", "conds", "wrote")

    def __init__(self, open=False, dirty=frozenset(), mesh=False, conds=frozenset(), wrote=False):
        self.open, self.dirty, self.mesh, self.conds, self.wrote = open, dirty, mesh, conds, wrote

    def key(self):
        return (self.open, self.dirty, self.mesh, self.conds, self.wrote)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.key() == o.key()

    def but(self, **kw):
        d = dict(open=self.open, dirty=self.dirty, mesh=self.mesh, conds=self.conds, wrote=self.wrote)
        d.update(kw)
        return State(**d)


class Out:
    def __init__(self):
        self.ret, self.brk, self.cont, self.thrown = set(), set(), set(), set()


class Machine:
    def __init__(self, program, res):
        self.p, self.res = program, res
        self.sites = {}         # call node -> [module, rule, text, violated message or None]
        self.uses = {}
        self.active = []
        self.selfalias = {}
        self.funcs = {}
        for f in program.functions():
            self.funcs[id(f.node)] = f
        self.mentions = {}
        for f in program.functions():
            self.mentions[f.id] = self.touches(f.node, f)
        # transitive use of the mesher
        calls = {f.id: self.callees(f) for f in program.functions()}
        changed = True
        while changed:
            changed = False
            for f in program.functions():
                if not self.mentions[f.id] and any(self.mentions.get(c, False) for c in calls[f.id]):
                    self.mentions[f.id] = True
                    changed = True
        self.calls = calls
        self.byid = {f.id: f for f in program.functions()}

    # -- names ----------------------------------------------------------------------
    def dotted(self, e, env, f):
        """dotted mesher path(s) of an expression, or None"""
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value, env, f)
            if b is not None:
                return {x + "." + e.attr for x in b}
            if isinstance(e.value, ast.Name) and e.value.id == "self" and f is not None and f.cls is not None:
                out = set()
                for c in self.p.mro(f.cls):
                    for m in c.all_funcs:
                        for n in own_nodes(m.node):
                            if isinstance(n, ast.Assign):
                                for t in n.targets:
                                    if isinstance(t, ast.Attribute) and t.attr == e.attr and isinstance(t.value, ast.Name) and t.value.id == "self":
                                        if ast.unparse(n.value).split(".")[0] in ("gmsh",) or self.imported(m.module, m.node, n.value):
                                            out |= self.dotted(n.value, {}, m) or set()
                return out or None
            return None
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id] if isinstance(env[e.id], (set, frozenset)) else None
            li = local_imports(f.node).get(e.id) if f is not None else None
            if li is not None and li.split(".")[0] == "gmsh":
                return {li}
            imp = f.module.imports.get(e.id) if f is not None else None
            if imp is not None:
                d = imp[1] if imp[0] == "module" else "%s.%s" % (imp[1], imp[2])
                if d.split(".")[0] == "gmsh":
                    return {d}
            return None
        if isinstance(e, ast.IfExp):
            a, b = self.dotted(e.body, env, f), self.dotted(e.orelse, env, f)
            if a and b:
                return a | b
        return None

    def imported(self, mod, fn, e):
        while isinstance(e, ast.Attribute):
            e = e.value
        if not isinstance(e, ast.Name):
            return False
        imp = mod.imports.get(e.id)
        return imp is not None and imp[1].split(".")[0] == "gmsh"

    def touches(self, node, f):
        names = {k for k, v in f.module.imports.items() if v[1].split(".")[0] == "gmsh"}
        names |= {k for k, v in local_imports(node).items() if v.split(".")[0] == "gmsh"}
        return any(isinstance(n, ast.Name) and n.id in names for n in ast.walk(node))

    def callees(self, f):
        out = []
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
                t = self.resolve(n, f)
                if t is not None:
                    out.append(t.id)
        return out

    def resolve(self, e, f):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f.cls is not None and f.node.args.args and \
                e.value.id == f.node.args.args[0].arg and not f.is_static():
            return self.p.lookup_method(f.cls, e.attr)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and \
                e.value.func.id == "super" and f.cls is not None:
            for c in self.p.mro(f.cls)[1:]:
                if e.attr in c.methods:
                    return c.methods[e.attr]
            return None
        r = self.p.resolve_expr(f.module, e)
        return r if isinstance(r, FuncInfo) else None

    # -- obligations ------------------------------------------------------------------
    def site(self, f, node, rule, good, text, why):
        k = (id(node), rule)
        r = self.sites.get(k)
        if r is None:
            r = self.sites[k] = [f, node, rule, text, None]
        if not good and r[4] is None:
            r[4] = why

    # -- events -------------------------------------------------------------------------
    def event(self, f, call, name, s):
        """state after the mesher call name; obligations are recorded at the call"""
        parts = name.split(".")
        last = parts[-1]
        if name == "gmsh.initialize":
            self.site(f, call, "session.open", s.open is not True or any("isInitialized" in c for c, _ in s.conds), "initialize",
                      "a session is already open here")
            return s.but(open=True, dirty=frozenset(), mesh=False, wrote=False)
        if name in ("gmsh.isInitialized", "gmsh.is_initialized"):
            return s
        self.site(f, call, "session.use", s.open is True, name,
                  "the mesher is used %s" % ("after it was finalised" if s.open is None else "before it is initialised"))
        if name == "gmsh.finalize":
            return s.but(open=None, dirty=frozenset(), mesh=False)
        if name in ("gmsh.clear",):
            return s.but(dirty=frozenset(), mesh=False)
        if name in ("gmsh.open", "gmsh.merge"):
            return s.but(mesh=True)
        if name in ("gmsh.write",):
            arg = call.args[0] if call.args else None
            geometry = isinstance(arg, ast.Constant) and str(arg.value).split(".")[-1] in ("geo_unrolled", "brep", "step", "stp", "xao", "opt")
            self.site(f, call, "session.write", s.mesh or geometry, name, "the file is written before a mesh was generated")
            self.site(f, call, "session.sync", not s.dirty or not geometry, name, "geometry is written before it is synchronised")
            return s.but(wrote=True)
        if len(parts) >= 4 and parts[1] == "model" and parts[2] in KERNELS:
            if last == "synchronize":
                return s.but(dirty=s.dirty - {parts[2]})
            if last.startswith("get") or last.startswith("is"):
                return s
            return s.but(dirty=s.dirty | {parts[2]}, mesh=False)
        if NEEDS_SYNC.match(name):
            self.site(f, call, "session.sync", not s.dirty, name,
                      "%s is called while changes of the %s geometry are not synchronised" % (name, "/".join(sorted(s.dirty))))
            if name == "gmsh.model.mesh.generate":
                return s.but(mesh=True)
            if name in ("gmsh.model.mesh.refine", "gmsh.model.mesh.optimize", "gmsh.model.mesh.setOrder", "gmsh.model.mesh.recombine",
                        "gmsh.model.mesh.getNodes", "gmsh.model.mesh.getElements"):
                self.site(f, call, "session.mesh", s.mesh, name, "%s is called before a mesh was generated" % name)
            if name == "gmsh.model.mesh.clear":
                return s.but(mesh=False)
        return s

    # -- expressions ----------------------------------------------------------------------
    def expr(self, e, states, env, f, out):
        """events of an expression in evaluation order"""
        if e is None or not states:
            return states
        if isinstance(e, (ast.Lambda,)):
            return states
        if isinstance(e, ast.IfExp):
            states = self.expr(e.test, states, env, f, out)
            a = self.expr(e.body, states, env, f, out)
            b = self.expr(e.orelse, states, env, f, out)
            return a | b
        if isinstance(e, ast.BoolOp):
            states = self.expr(e.values[0], states, env, f, out)
            for v in e.values[1:]:
                states = states | self.expr(v, states, env, f, out)
            return states
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in e.generators:
                states = self.expr(g.iter, states, env, f, out)
                for c in g.ifs:
                    states = self.expr(c, states, env, f, out)
            env2 = dict(env)
            for g in e.generators:
                it = g.iter
                vals = self.elements(it, env, f)
                if vals and isinstance(g.target, ast.Name):
                    env2[g.target.id] = vals
            parts = [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
            for x in parts:
                states = self.expr(x, states, env2, f, out)
            return states
        if isinstance(e, ast.Call):
            d = self.dotted(e.func, env, f)
            if d is None:
                states = self.expr(e.func, states, env, f, out) if not isinstance(e.func, ast.Name) else states
            for a in e.args:
                states = self.expr(a, states, env, f, out)
            for k in e.keywords:
                states = self.expr(k.value, states, env, f, out)
            if d is not None:
                if len(d) == 1:
                    nm = next(iter(d))
                    return {self.event(f, e, nm, s) for s in states}
                res = set()
                for nm in sorted(d):
                    for s in states:
                        res.add(self.event(f, e, nm, s))
                return res
            t = self.resolve(e.func, f)
            if t is None and isinstance(e.func, ast.Name) and e.func.id in env and isinstance(env[e.func.id], tuple):
                kind, node = env[e.func.id]
                if kind == "method":
                    return self.inline(node, e, states, env, f, out) if self.mentions.get(node.id) else states
                return self.inline_node(node, f, e, states, env, out)
            if t is not None and self.mentions.get(t.id):
                states = self.inline(t, e, states, env, f, out)
            # a function handed over is called
            nm = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
            if nm in ("map", "filter", "partial", "callback", "call", "enter_context", "register", "atexit"):
                for a in e.args:
                    if isinstance(a, (ast.Name, ast.Attribute)):
                        dd = self.dotted(a, env, f)
                        if dd and any(x.count(".") >= 1 for x in dd) and nm not in ("partial", "callback", "register", "enter_context"):
                            for x in sorted(dd):
                                states = {self.event(f, e, x, s) for s in states}
                        t = self.resolve(a, f)
                        if t is not None and self.mentions.get(t.id):
                            states = self.inline(t, None, states, env, f, out)
                    elif isinstance(a, ast.Lambda) and nm in ("map", "filter"):
                        states = self.expr(a.body, states, env, f, out)
            return states
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                states = self.expr(c, states, env, f, out)
        return states

    def elements(self, it, env, f):
        if isinstance(it, (ast.Tuple, ast.List)):
            out = set()
            for x in it.elts:
                d = self.dotted(x, env, f)
                if d is None:
                    return None
                out |= d
            return out
        return None

    def functions_listed(self, it, f):
        if isinstance(it, ast.Subscript):
            it = it.value
        if isinstance(it, ast.Name):
            vals = [n.value for n in own_nodes(f.node) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], ast.Name) and n.targets[0].id == it.id]
            if len(vals) != 1:
                return None
            it = vals[0]
        if not isinstance(it, (ast.List, ast.Tuple)) or not it.elts:
            return None
        out = []
        for x in it.elts:
            t = self.resolve(x, f) if isinstance(x, (ast.Name, ast.Attribute)) else None
            if t is None:
                return None
            out.append(t)
        return out

    def inline(self, t, call, states, env, f, out):
        if t.id in self.active or len(self.active) > 25:
            return states
        self.reached.add(t.id)
        env2 = {}
        if call is not None:
            ps = t.params
            if t.cls is not None and not t.is_static():
                ps = ps[1:]
            for p, a in zip(ps, call.args):
                d = self.dotted(a, env, f)
                if d:
                    env2[p] = d
            for k in call.keywords:
                if k.arg:
                    d = self.dotted(k.value, env, f)
                    if d:
                        env2[k.arg] = d
        # the branch conditions of the caller are about its own names
        saved = {}
        inner = set()
        for s in states:
            keep = frozenset(c for c in s.conds if c[0].startswith("self."))
            s2 = s.but(conds=keep)
            saved.setdefault(s2, set()).add(s.conds)
            inner.add(s2)
        self.active.append(t.id)
        result = set()
        for s2 in inner:
            o = Out()
            end = self.block(t.node.body, {s2}, env2, t, o)
            for x in end | o.ret:
                for conds in saved[s2]:
                    result.add(x.but(conds=conds))
            out.thrown |= o.thrown
        self.active.pop()
        return self.cap(result)

    def inline_node(self, node, f, call, states, env, out):
        if ("local", id(node)) in self.active:
            return states
        self.active.append(("local", id(node)))
        o = Out()
        env2 = dict(env)
        for p, a in zip([x.arg for x in node.args.args], call.args):
            d = self.dotted(a, env, f)
            if d:
                env2[p] = d
        end = self.block(node.body, states, env2, f, o)
        self.active.pop()
        return self.cap(end | o.ret)

    def cap(self, states):
        if len(states) > MAXSTATES:
            states = {s.but(conds=frozenset()) for s in states}
        return states

    # -- conditions -----------------------------------------------------------------------
    @staticmethod
    def literal(test):
        """(text, value) of a condition"""
        v = True
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, v = test.operand, not v
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op = test.ops[0]
            flip = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.LtE: ast.Gt}
            for a, b in flip.items():
                if isinstance(op, a):
                    test = ast.Compare(left=test.left, ops=[b()], comparators=test.comparators)
                    return ast.unparse(test), not v
        return ast.unparse(test), v

    @classmethod
    def facts(cls, test, truth):
        """literals implied by the test having the given truth value"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return cls.facts(test.operand, not truth)
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And if truth else ast.Or):
            out = set()
            for v in test.values:
                out |= cls.facts(v, truth)
            return out
        t, v = cls.literal(test)
        return {(t, v if truth else not v)}

    def assume(self, states, test, truth):
        if isinstance(test, ast.Constant):
            return set(states) if bool(test.value) is truth else set()
        fs = self.facts(test, truth)
        out = set()
        for s in states:
            if any((t, not v) in s.conds for t, v in fs):
                continue
            if any(self.contradicts(s.conds, t, v) for t, v in fs):
                continue
            opened = s.open
            drop = False
            for t, v in fs:
                if re.match(r"^gmsh\.is_?[iI]nitialized\(\)$", t):
                    if (s.open is True) != v:
                        drop = True
            if drop:
                continue
            out.add(s.but(conds=s.conds | frozenset(fs)))
        return out

    @staticmethod
    def contradicts(conds, t, v):
        """comparisons of one expression with different numbers"""
        m = re.match(r"^(.+) (>|<|==) (-?\d+)$", t)
        if not m:
            return False
        lo, hi = -10 ** 6, 10 ** 6
        allc = [(t, v)] + [c for c in conds]
        ne = set()
        for c, val in allc:
            k = re.match(r"^(.+) (>|<|==) (-?\d+)$", c)
            if not k or k.group(1) != m.group(1):
                continue
            n, op = int(k.group(3)), k.group(2)
            if op == ">":
                lo, hi = (max(lo, n + 1), hi) if val else (lo, min(hi, n))
            elif op == "<":
                lo, hi = (lo, min(hi, n - 1)) if val else (max(lo, n), hi)
            else:
                if val:
                    lo, hi = max(lo, n), min(hi, n)
                else:
                    ne.add(n)
        while lo in ne:
            lo += 1
        while hi in ne:
            hi -= 1
        return lo > hi

    @staticmethod
    def kill(states, names):
        if not names:
            return states
        pat = re.compile(r"(?<![\w.])(%s)(?![\w])" % "|".join(re.escape(n) for n in sorted(names)))
        return {s.but(conds=frozenset(c for c in s.conds if not pat.search(c[0]))) for s in states}

    # -- statements -------------------------------------------------------------------------
    def has_event(self, sts, env, f):
        for st in sts:
            for n in ast.walk(st):
                if isinstance(n, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                    return True
                if isinstance(n, ast.Call):
                    if self.dotted(n.func, env, f) is not None:
                        return True
                    t = self.resolve(n.func, f)
                    if t is not None and self.mentions.get(t.id):
                        return True
                    if isinstance(n.func, ast.Name) and isinstance(env.get(n.func.id), tuple):
                        return True
                    for a in n.args:
                        if isinstance(a, (ast.Name, ast.Attribute)):
                            t = self.resolve(a, f)
                            if t is not None and self.mentions.get(t.id):
                                return True
        return False

    def only_sync(self, st, env, f):
        """an if statement whose only events are synchronisations"""
        seen = False
        for b in st.body:
            for n in ast.walk(b):
                if isinstance(n, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                    return False
                if isinstance(n, ast.Call):
                    d = self.dotted(n.func, env, f)
                    if d is not None:
                        if not all(x.endswith(".synchronize") for x in d):
                            return False
                        seen = True
        return seen and not st.orelse

    def emptiness(self, test):
        """a test for something to do: a length, a collection or a flag"""
        for n in ast.walk(test):
            if isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("len", "any", "bool"):
                return True
        return isinstance(test, (ast.Name,)) or (isinstance(test, ast.UnaryOp) and isinstance(test.operand, ast.Name)) or (
            isinstance(test, (ast.Attribute, ast.Subscript)))

    def block(self, sts, states, env, f, out):
        for st in sts:
            if not states:
                return states
            states = self.cap(self.stmt(st, states, env, f, out))
        return states

    def stmt(self, st, states, env, f, out):
        out.thrown |= states
        if isinstance(st, ast.Expr):
            return self.expr(st.value, states, env, f, out)
        if isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            states = self.expr(st.value, states, env, f, out)
            targets = st.targets if isinstance(st, ast.Assign) else [st.target]
            names = set()
            for t in targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        names.add(n.id)
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        names.add(ast.unparse(n))
                if isinstance(t, ast.Name) and isinstance(st, ast.Assign) and st.value is not None:
                    d = self.dotted(st.value, env, f)
                    if d:
                        env[t.id] = d
                    else:
                        env.pop(t.id, None)
            return self.kill(states, names)
        if isinstance(st, ast.Return):
            states = self.expr(st.value, states, env, f, out)
            out.ret |= states
            return set()
        if isinstance(st, ast.Raise):
            return set()
        if isinstance(st, ast.Assert):
            return self.assume(self.expr(st.test, states, env, f, out), st.test, True)
        if isinstance(st, ast.If):
            states = self.expr(st.test, states, env, f, out)
            if not self.has_event(st.body + st.orelse, env, f):
                names = {n.id for b in st.body + st.orelse for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                for b in st.body + st.orelse:
                    for n in ast.walk(b):
                        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                            d = self.dotted(n.value, env, f)
                            if d:
                                env[n.targets[0].id] = env.get(n.targets[0].id, set()) | d
                return self.kill(states, names)
            if self.only_sync(st, env, f) and self.emptiness(st.test):
                return self.block(st.body, states, env, f, out)
            a = self.block(st.body, self.assume(states, st.test, True), dict(env), f, out)
            b = self.block(st.orelse, self.assume(states, st.test, False), dict(env), f, out)
            return a | b
        if isinstance(st, (ast.For, ast.While)):
            if isinstance(st, ast.For):
                states = self.expr(st.iter, states, env, f, out)
                names = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
                vals = self.elements(st.iter, env, f)
                env = dict(env)
                for n in names:
                    env.pop(n, None)
                if vals and isinstance(st.target, ast.Name):
                    env[st.target.id] = vals
            else:
                states = self.expr(st.test, states, env, f, out)
                names = set()
            steps = self.functions_listed(st.iter, f) if isinstance(st, ast.For) and isinstance(st.target, ast.Name) else None
            if steps:
                # a list of operations carried out one after the other
                for t in steps:
                    env[st.target.id] = ("method", t)
                    o = Out()
                    end = self.block(st.body, states, dict(env), f, o)
                    out.ret |= o.ret
                    states = end | o.cont | o.brk
                return states
            if not self.has_event(st.body, env, f):
                return states
            seen, result, cur = set(), set(), self.kill(states, names)
            for _ in range(4):
                o = Out()
                cur = cur - seen
                if not cur:
                    break
                seen |= cur
                if isinstance(st, ast.While):
                    cur = self.assume(cur, st.test, True)
                end = self.block(st.body, cur, dict(env), f, o)
                out.ret |= o.ret
                out.thrown |= o.thrown
                end |= o.cont
                result |= end | o.brk
                assigned = {n.id for b in st.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                cur = self.kill(end, names | assigned)
            # the body of such a loop is taken to run at least once
            result = self.kill(result, names)
            if not result:
                result = set()
            return self.block(st.orelse, result, env, f, out) if st.orelse else result
        if isinstance(st, (ast.With,)):
            closes = False
            for it in st.items:
                states = self.expr(it.context_expr, states, env, f, out)
                if isinstance(it.context_expr, ast.Call):
                    t = self.resolve(it.context_expr.func, f)
                    if t is not None and self.mentions.get(t.id):
                        closes = True
            return self.block(st.body, states, env, f, out)
        if isinstance(st, ast.Try):
            o = Out()
            end = self.block(st.body, states, dict(env), f, o)
            end = self.block(st.orelse, end, env, f, o)
            for h in st.handlers:
                end |= self.block(h.body, o.thrown | states, dict(env), f, o)
            if st.finalbody:
                def fin(ss):
                    return self.block(st.finalbody, ss, dict(env), f, out) if ss else set()
                end = fin(end)
                out.ret |= fin(o.ret)
                out.brk |= fin(o.brk)
                out.cont |= fin(o.cont)
                fin(o.thrown)
            else:
                out.ret |= o.ret
                out.brk |= o.brk
                out.cont |= o.cont
            out.thrown |= o.thrown
            return end
        if isinstance(st, ast.Break):
            out.brk |= states
            return set()
        if isinstance(st, ast.Continue):
            out.cont |= states
            return set()
        if isinstance(st, ast.FunctionDef):
            env[st.name] = ("local", st)
            return states
        if isinstance(st, ast.Match):
            res = set(states)
            for c in st.cases:
                res |= self.block(c.body, states, dict(env), f, out)
            return res
        return states

    # -- roots -----------------------------------------------------------------------------
    def contains(self, f, what):
        seen, work = set(), [f.id]
        while work:
            k = work.pop()
            if k in seen:
                continue
            seen.add(k)
            g = self.byid[k]
            for n in ast.walk(g.node):
                if isinstance(n, ast.Attribute) and n.attr == what or isinstance(n, ast.Name) and n.id == what:
                    d = self.dotted(n, {}, g)
                    if d and ("gmsh." + what) in d:
                        return True
            work.extend(c for c in self.calls[k] if c in self.byid and self.mentions.get(c))
        return False

    def run(self):
        users = [f for f in self.p.functions() if self.mentions[f.id]]
        called = {c for f in users for c in self.calls[f.id] if c != f.id}
        roots = [f for f in users if f.id not in called]
        self.reached = set()
        ends = {}
        closers = {}
        order = sorted(roots, key=lambda f: (not self.contains(f, "initialize"), f.id))
        groups = {}
        for f in order:
            g = f.cls.id if f.cls is not None else f.module.name
            groups.setdefault(g, []).append(f)
        for g, fs in groups.items():
            openers = [f for f in fs if self.contains(f, "initialize")]
            rest = [f for f in fs if f not in openers]
            after = set()
            for f in openers:
                end = self.walk(f, {State(open=False)})
                opened = {s for s in end if s.open is True}
                ends[f.id] = end
                if self.contains(f, "finalize"):
                    for s in end:
                        self.site(f, f.node, "session.close", s.open is not True, f.id,
                                  "the session is still open on a path that leaves %s" % f.qualname)
                else:
                    after |= opened
                    for s in end:
                        self.site(f, f.node, "session.ready", s.open is not None and not s.dirty, f.id,
                                  "on a path that leaves %s the session is %s" % (
                                      f.qualname, "closed before its mesh is written" if s.open is None else "not synchronised"))
                        if rest and any(self.contains(r, "write") for r in rest):
                            self.site(f, f.node, "session.meshed", s.mesh or s.open is not True, f.id,
                                      "%s can return without a mesh to write" % f.qualname)
            waiting = bool(after)
            for f in rest:
                if self.contains(f, "finalize") or self.contains(f, "write"):
                    start = {State(open=True, mesh=True)} if after or not openers else {State(open=True, mesh=True)}
                    end = self.walk(f, start)
                    for s in end:
                        self.site(f, f.node, "session.close", s.open is not True, f.id,
                                  "the session is still open on a path that leaves %s" % f.qualname)
                    if any(s.open is None for s in end):
                        waiting = False
                else:
                    self.walk(f, {State(open=True)})
            if waiting:
                f = openers[0]
                self.site(f, f.node, "session.close", False, f.id, "no operation of %s finalises the session it opens" % g)
        # functions only reached through values that could not be followed
        for f in users:
            if f.id not in self.reached:
                self.res.unknown("session", f.id, "not reached from a public operation")
        for (k, rule), (f, node, rule2, text, why) in self.sites.items():
            if why is None:
                self.res.ok(rule, "%s: %s" % (f.id, text))
            else:
                self.res.bad(rule, "%s %s" % (f.id, text), why, loc(f.module, node))
        self.res.info["operations"] = sorted(f.id for f in roots)
        self.files()

    def walk(self, f, start):
        self.reached.add(f.id)
        self.active = [f.id]
        o = Out()
        end = self.block(f.node.body, set(start), {}, f, o)
        self.active = []
        return end | o.ret

    # -- files ------------------------------------------------------------------------------
    OPENERS = re.compile(r"^(open|io\.open|gzip\.open|bz2\.open|lzma\.open|codecs\.open|h5py\.File|zipfile\.ZipFile|tarfile\.open|"
                         r"tempfile\.(NamedTemporaryFile|TemporaryFile)|os\.fdopen|pathlib\.Path\.open)$")

    def files(self):
        for f in self.p.functions():
            mod = f.module
            for n in ast.walk(f.node):
                if not isinstance(n, ast.Call):
                    continue
                name = ast.unparse(n.func)
                if isinstance(n.func, ast.Name) and self.p.resolve_member(mod.name, n.func.id) is not None and name == "open":
                    continue
                is_open = bool(self.OPENERS.match(name)) or (
                    isinstance(n.func, ast.Attribute) and n.func.attr == "open" and isinstance(n.func.value, ast.Call)
                    and getattr(n.func.value.func, "id", "") == "Path")
                opener_helper = None
                if not is_open:
                    t = self.resolve(n.func, f)
                    if t is not None and self.returns_open(t):
                        is_open = True
                if not is_open:
                    continue
                why = self.closed(n, f)
                if why is None:
                    self.res.ok("file.close", "%s: %s" % (f.id, ast.unparse(n)[:50]))
                elif why == "returned":
                    self.res.ok("file.close", "%s hands the open file to its caller" % f.id)
                else:
                    self.res.bad("file.close", "%s %s" % (f.id, ast.unparse(n)[:50]), why, loc(mod, n))

    def returns_open(self, t):
        for r in own_nodes(t.node):
            if isinstance(r, ast.Return) and isinstance(r.value, ast.Call) and self.OPENERS.match(ast.unparse(r.value.func)):
                return True
        return False

    def closed(self, n, f):
        mod = f.module
        up = mod.parents.get(n)
        if isinstance(up, ast.withitem):
            return None
        if isinstance(up, ast.Call) and n in up.args:
            nm = up.func.attr if isinstance(up.func, ast.Attribute) else getattr(up.func, "id", "")
            if nm == "closing":
                return None if isinstance(mod.parents.get(up), ast.withitem) else "the file is opened but not closed"
            if nm == "enter_context":
                return None
            return "the file is handed to %s and never closed" % nm
        if isinstance(up, ast.Return):
            return "returned"
        if isinstance(up, ast.Assign) and len(up.targets) == 1 and isinstance(up.targets[0], ast.Name):
            nm = up.targets[0].id
            block = self.enclosing(mod, up)
            for x in own_nodes(f.node):
                if isinstance(x, ast.With) and any(isinstance(i.context_expr, ast.Name) and i.context_expr.id == nm for i in x.items):
                    return None
                if isinstance(x, ast.With) and any(isinstance(i.context_expr, ast.Call) and any(
                        isinstance(a, ast.Name) and a.id == nm for a in i.context_expr.args) for i in x.items):
                    return None
                if isinstance(x, ast.Try) and any(self.closes(s, nm) for s in x.finalbody):
                    return None
                if isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and x.value.id == nm:
                    return "returned"
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "close" and
                   isinstance(x.func.value, ast.Name) and x.func.value.id == nm for x in own_nodes(f.node)):
                return "the file stays open when an operation on it fails or the function returns before the close"
            return "the file is never closed"
        if isinstance(up, ast.IfExp) or isinstance(up, ast.BoolOp):
            return self.closed(up, f)
        if isinstance(up, (ast.Assign,)) and isinstance(up.targets[0], ast.Attribute):
            attr = up.targets[0].attr
            if f.cls is not None and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "close" and
                                         isinstance(x.func.value, ast.Attribute) and x.func.value.attr == attr
                                         for m in f.cls.all_funcs for x in ast.walk(m.node)):
                return None
            return "the file is kept in %s and never closed" % attr
        return "the file is opened but not closed"

    @staticmethod
    def closes(st, nm):
        return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "close" and
                   isinstance(x.func.value, ast.Name) and x.func.value.id == nm for x in ast.walk(st))

    @staticmethod
    def enclosing(mod, st):
        up = mod.parents.get(st)
        return up


def run(program, res, tier):
    Machine(program, res).run()
