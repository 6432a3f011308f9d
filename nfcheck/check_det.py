"""P20: results depend only on the arguments."""
import ast
import re

from .core import loc, FuncInfo, ClassInfo
from .typeinf import Ctx, own_nodes
from .effects import effects_of
from .check_effects import qual, shared_attr, mutable_defaults
from .known_functions import KNOWN

RANDOM = re.compile(r"^(random|numpy\.random|secrets|uuid|scipy\.stats)(\.|$)")
SEEDED = re.compile(r"^(random\.Random|numpy\.random\.(default_rng|RandomState|Generator|PCG64|SeedSequence|MT19937|Philox|SFC64))$")
CLOCK = re.compile(r"^(time\.(time|time_ns|perf_counter|perf_counter_ns|process_time|process_time_ns|monotonic|monotonic_ns|ctime|"
                   r"localtime|gmtime|strftime|asctime|thread_time)|datetime\.(datetime|date)\.(now|utcnow|today)|timeit\.default_timer)$")
ENV = re.compile(r"^(os\.(environ|getenv|getpid|urandom|times|getloadavg|getlogin)|platform\.\w+|socket\.gethostname|os\.uname)")
UNORDERED_CALLS = re.compile(r"^(os\.(listdir|scandir)|glob\.(glob|iglob)|concurrent\.futures\.as_completed|asyncio\.as_completed)$")
UNORDERED_METHODS = {"imap_unordered", "iterdir", "rglob"}
SET_FUNCS = re.compile(r"^networkx\.(descendants|ancestors|node_connected_component)$|^networkx\..*\.(descendants|ancestors)$")
CACHES = re.compile(r"^functools\.(lru_cache|cache|cached_property)$")
# order does not matter for these consumers of a set
ORDERLESS = {"len", "sorted", "min", "max", "any", "all", "sum", "set", "frozenset", "bool", "unique", "sort", "isdisjoint",
             "union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "update", "isinstance",
             "intersection_update", "difference_update", "symmetric_difference_update", "print", "str", "repr", "isin", "in1d",
             "Counter", "argmax_", "nonempty", "add", "remove", "discard", "id", "type", "copy", "has_node", "remove_nodes_from",
             "remove_edges_from", "subgraph"}
SET_METHODS = {"union", "intersection", "difference", "symmetric_difference", "copy"}
GROW = {"append", "extend", "insert", "write", "writelines", "appendleft", "add_edge", "add_node", "add_edges_from", "add_nodes_from",
        "setdefault", "insert_cell_data"}
PRINTS = {"print", "format", "str", "repr", "round", "float", "int", "info", "debug", "warning", "log", "error", "strftime", "write_stdout",
          "timedelta", "isinstance", "max", "min", "abs", "sum", "append", "len"}


def local_imports(node):
    out = {}
    for n in ast.walk(node):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.level == 0:
            for a in n.names:
                out[a.asname or a.name] = "%s.%s" % (n.module, a.name)
    return out


class Det:
    def __init__(self, program, res):
        self.p, self.res = program, res
        self.eff = effects_of(program)
        self.t = self.eff.t
        self.limports = {}
        self.tret = set()       # functions whose result carries a clock reading
        self.tattr = set()      # attributes that carry one
        self.tparam = set()     # (function node id, parameter)

    # -- names -------------------------------------------------------------------
    def dotted(self, fn, mod, e):
        """absolute dotted name of an external reference"""
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        base = self.limp(fn).get(e.id)
        if base is None:
            imp = mod.imports.get(e.id)
            if imp is None:
                return None
            base = imp[1] if imp[0] == "module" else "%s.%s" % (imp[1], imp[2])
        return ".".join([base] + parts[::-1])

    def limp(self, fn):
        if fn is None:
            return {}
        k = id(fn)
        if k not in self.limports:
            self.limports[k] = local_imports(fn)
        return self.limports[k]

    def target(self, call, f, node, mod, cls):
        """library functions a call may reach"""
        d = call.func
        if isinstance(d, ast.Name):
            r = self.p.resolve_member(mod.name, d.id)
            if isinstance(r, FuncInfo):
                return [r]
            # nested function
            return []
        r = self.p.resolve_expr(mod, d)
        if isinstance(r, FuncInfo):
            return [r]
        if isinstance(d, ast.Attribute):
            if isinstance(d.value, ast.Name) and cls is not None and node.args.args and d.value.id == node.args.args[0].arg:
                m = self.p.lookup_method(cls, d.attr)
                return [m] if m is not None else []
            out = []
            for x in self.t.ty(d.value, Ctx(self.t, f, node, mod, cls)):
                if x[0] in ("inst", "cls"):
                    m = self.p.lookup_method(x[1], d.attr)
                    if m is not None:
                        out.append(m)
            return out
        return []

    # -- run ------------------------------------------------------------------------
    def run(self):
        for _ in range(6):
            n = (len(self.tret), len(self.tattr), len(self.tparam))
            for rec in self.t.funcs:
                self.clock(*rec, report=False)
            if n == (len(self.tret), len(self.tattr), len(self.tparam)):
                break
        for rec in self.t.funcs:
            f, node, mod, cls, parent = rec
            before = len(self.res.findings)
            self.sources(*rec)
            self.clock(*rec, report=True)
            if len(self.res.findings) == before and not isinstance(node, ast.Lambda):
                self.res.ok("sources", "%s uses no random number, clock, environment, address or directory order" % self.name(rec))
            self.sets(*rec)
            self.uninitialised(*rec)
            self.caches(*rec)
        for m in self.p.modules.values():
            for st in m.tree.body:
                if not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    for n in ast.walk(st):
                        if isinstance(n, (ast.Name, ast.Attribute)):
                            d = self.dotted(None, m, n)
                            if d and isinstance(m.parents.get(n), ast.Call) and m.parents[n].func is n and (
                                    RANDOM.match(d) and not SEEDED.match(d) or CLOCK.match(d) or ENV.match(d)):
                                self.res.bad("sources", "%s %s" % (m.name, d), "the module is initialised from %s" % d, loc(m, n))
        self.state()

    def name(self, rec):
        f, node, mod, cls, parent = rec
        if parent is not None:
            return "%s:%s.%s" % (mod.name, getattr(f, "qualname", "?"), getattr(node, "name", "<lambda>"))
        return qual(f, node, mod, cls)

    # -- random numbers, environment, unordered listings ------------------------------
    def sources(self, f, node, mod, cls, parent):
        rec = (f, node, mod, cls, parent)
        for n in own_nodes(node):
            if not isinstance(n, (ast.Attribute, ast.Name)):
                continue
            up = mod.parents.get(n)
            if isinstance(up, ast.Attribute):
                continue
            d = self.dotted(parent or node, mod, n) or self.dotted(node, mod, n)
            if d is None:
                # the method of an unordered iterator
                if isinstance(n, ast.Attribute) and n.attr in UNORDERED_METHODS and isinstance(up, ast.Call) and up.func is n:
                    if not self.ordered_later(mod, up, node):
                        self.res.bad("order", "%s %s" % (self.name(rec), n.attr), "the items of %s come in no fixed order" %
                                     ast.unparse(up)[:60], loc(mod, n))
                continue
            if RANDOM.match(d):
                call = up if isinstance(up, ast.Call) and up.func is n else None
                if SEEDED.match(d):
                    if call is not None and (call.args or call.keywords) and not all(
                            isinstance(a, ast.Constant) and a.value is None for a in call.args):
                        continue
                    if call is None:
                        continue
                if d.endswith(".seed") or d in ("random", "numpy.random"):
                    continue
                self.res.bad("sources", "%s %s" % (self.name(rec), d), "the result uses random numbers from %s" % d, loc(mod, n))
            elif ENV.match(d):
                if self.printed(mod, n):
                    continue
                self.res.bad("sources", "%s %s" % (self.name(rec), d), "the result uses %s, which is not an argument" % d, loc(mod, n))
            elif UNORDERED_CALLS.match(d) and isinstance(up, ast.Call) and up.func is n:
                if not self.ordered_later(mod, up, node):
                    self.res.bad("order", "%s %s" % (self.name(rec), d), "the items of %s come in no fixed order" % d, loc(mod, n))
        # addresses and hashes
        for n in own_nodes(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("id", "hash") and \
                    self.p.resolve_member(mod.name, n.func.id) is None and len(n.args) == 1:
                if n.func.id == "hash" and not self.unstable_hash(n.args[0], f, node, mod, cls):
                    continue
                if self.printed(mod, n) or (n.func.id == "id" and self.identity_only(mod, n)):
                    continue
                self.res.bad("sources", "%s %s(...)" % (self.name(rec), n.func.id), "%s is different in every run" %
                             ast.unparse(n)[:60], loc(mod, n))
            if isinstance(n, ast.keyword) and n.arg == "key" and isinstance(n.value, ast.Name) and n.value.id in ("id", "hash") and \
                    self.p.resolve_member(mod.name, n.value.id) is None:
                if n.value.id == "id":
                    self.res.bad("sources", "%s key=id" % self.name(rec), "the order follows memory addresses", loc(mod, n.value))

    def unstable_hash(self, e, f, node, mod, cls):
        """text (hash seed) or an object without a hash of its own (address)"""
        def unstable(t):
            for x in t:
                if x == ("prim", "str"):
                    return True
                if x[0] == "inst" and isinstance(x[1], ClassInfo) and not any(
                        "__hash__" in c.methods or "__eq__" in c.methods for c in self.p.mro(x[1])):
                    return True
                if x[0] == "tuple" and any(unstable(y) for y in x[1]):
                    return True
            return False
        if any(isinstance(s, (ast.JoinedStr,)) or isinstance(s, ast.Attribute) and s.attr in ("__name__", "__qualname__", "__module__") or isinstance(s, ast.Constant) and isinstance(s.value, (str, bytes))
               for s in ast.walk(e)):
            return True
        return unstable(self.t.ty(e, Ctx(self.t, f, node, mod, cls)))

    def identity_only(self, mod, n):
        """the address serves only to recognise an object"""
        up = mod.parents.get(n)
        if isinstance(up, ast.Compare):
            return all(isinstance(o, (ast.Eq, ast.NotEq, ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in up.ops)
        if isinstance(up, ast.Subscript) and up.slice is n:
            return True
        if isinstance(up, ast.Call) and n in up.args:
            nm = up.func.attr if isinstance(up.func, ast.Attribute) else getattr(up.func, "id", "")
            return nm in ("add", "discard", "remove", "get", "setdefault", "pop", "set", "frozenset")
        if isinstance(up, (ast.SetComp, ast.Set)):
            return True
        if isinstance(up, ast.DictComp):
            return up.key is n
        if isinstance(up, ast.Dict):
            return n in up.keys
        if isinstance(up, ast.Tuple):
            return self.identity_only(mod, up)
        if isinstance(up, ast.GeneratorExp):
            up2 = mod.parents.get(up)
            return isinstance(up2, ast.Call) and getattr(up2.func, "id", "") in ("set", "frozenset")
        if isinstance(up, ast.Assign) and len(up.targets) == 1 and isinstance(up.targets[0], ast.Name):
            nm = up.targets[0].id
            fn = up
            while fn is not None and not isinstance(fn, ast.FunctionDef):
                fn = mod.parents.get(fn)
            return fn is not None and all(self.identity_only(mod, x) for x in ast.walk(fn)
                                          if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load))
        return False

    def printed(self, mod, n):
        """inside a print, an error message or an assertion message"""
        up = mod.parents.get(n)
        while up is not None and not isinstance(up, ast.stmt):
            if isinstance(up, ast.Call):
                nm = up.func.attr if isinstance(up.func, ast.Attribute) else getattr(up.func, "id", "")
                if nm in ("print", "info", "debug", "warning", "error", "log"):
                    return True
            up = mod.parents.get(up)
        return isinstance(up, ast.Raise)

    def ordered_later(self, mod, e, fn):
        """the unordered collection e is only used where its order does not matter"""
        up = mod.parents.get(e)
        if isinstance(up, ast.Call) and e in up.args:
            nm = up.func.attr if isinstance(up.func, ast.Attribute) else getattr(up.func, "id", "")
            if nm in ORDERLESS:
                return True
            if nm in ("list", "tuple", "array", "asarray", "iter", "fromiter"):
                return self.ordered_later(mod, up, fn)
            return False
        if isinstance(up, ast.keyword):
            return False
        if isinstance(up, ast.Compare):
            return True
        if isinstance(up, ast.Attribute):
            call = mod.parents.get(up)
            if isinstance(call, ast.Call) and call.func is up and up.attr in ("sort", "astype", "count", "index") | ORDERLESS:
                return up.attr in ORDERLESS or up.attr == "count" or (up.attr == "astype" and self.ordered_later(mod, call, fn)) or up.attr == "sort"
            if up.attr in ("size", "shape"):
                return True
            return False
        if isinstance(up, (ast.If, ast.While, ast.IfExp, ast.Assert, ast.BoolOp)) or (
                isinstance(up, ast.UnaryOp) and isinstance(up.op, ast.Not)):
            return not (isinstance(up, ast.IfExp) and e is not up.test)
        if isinstance(up, ast.Starred):
            outer = mod.parents.get(up)
            if isinstance(outer, ast.Set):
                return True
            return self.ordered_later(mod, outer, fn) if isinstance(outer, (ast.List, ast.Tuple)) else False
        if isinstance(up, ast.BinOp) and isinstance(up.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
            return True
        if isinstance(up, ast.Expr):
            return True
        if isinstance(up, ast.Assign) and up.value is e and len(up.targets) == 1 and isinstance(up.targets[0], ast.Name):
            nm = up.targets[0].id
            uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load)]
            uses.sort(key=lambda x: (x.lineno, x.col_offset))
            after = [u for u in uses if (u.lineno, u.col_offset) > (e.lineno, e.col_offset)]
            if after:
                u = after[0]
                a = mod.parents.get(u)
                if isinstance(a, ast.Attribute) and a.attr == "sort" and isinstance(mod.parents.get(a), ast.Call):
                    return True
            return all(self.ordered_later(mod, u, fn) for u in uses)
        if isinstance(up, ast.comprehension) and up.iter is e:
            comp = mod.parents.get(up)
            if isinstance(comp, ast.SetComp):
                return True
            if isinstance(comp, (ast.GeneratorExp, ast.ListComp)):
                return self.ordered_later(mod, comp, fn)
            return False
        if isinstance(up, (ast.For,)) and up.iter is e:
            return not self.order_matters(up)
        return False

    @staticmethod
    def order_matters(loop):
        for st in loop.body + loop.orelse:
            for n in ast.walk(st):
                if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Break)):
                    return True
                if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
                    return True
                if isinstance(n, ast.Call):
                    nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
                    if nm in GROW or (nm in ("append", "concatenate", "vstack", "hstack") and not isinstance(n.func, ast.Name)):
                        return True
                if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.value, (ast.List, ast.ListComp, ast.Tuple)):
                    return True
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    # a running number that is also read
                    for st2 in loop.body:
                        for x in ast.walk(st2):
                            if isinstance(x, ast.Name) and x.id == n.target.id and isinstance(x.ctx, ast.Load):
                                return True
        return False

    # -- sets ------------------------------------------------------------------------
    def is_set(self, e, node, mod, depth=0):
        if depth > 6 or self.small_numbers(e):
            return False
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name):
                if e.func.id in ("set", "frozenset") and self.p.resolve_member(mod.name, e.func.id) is None:
                    return True
                r = self.p.resolve_member(mod.name, e.func.id)
                if isinstance(r, FuncInfo):
                    return self.returns_set(r, depth)
            if isinstance(e.func, ast.Attribute):
                d = self.dotted(node, mod, e.func)
                if d and SET_FUNCS.match(d):
                    return True
                if e.func.attr in SET_METHODS:
                    return self.is_set(e.func.value, node, mod, depth + 1)
                r = self.p.resolve_expr(mod, e.func)
                if isinstance(r, FuncInfo):
                    return self.returns_set(r, depth)
            return False
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
            def keys(x):
                return isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("keys", "items")
            return any(self.is_set(x, node, mod, depth + 1) or keys(x) for x in (e.left, e.right))
        if isinstance(e, ast.IfExp):
            return self.is_set(e.body, node, mod, depth + 1) or self.is_set(e.orelse, node, mod, depth + 1)
        if isinstance(e, ast.Name) and node is not None:
            vals = []
            for n in own_nodes(node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id == e.id:
                            vals.append(n.value)
                        elif isinstance(t, (ast.Tuple, ast.List)) and any(
                                isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(t)):
                            return False
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id and n.value is not None:
                    vals.append(n.value)
                elif isinstance(n, (ast.For, ast.comprehension, ast.withitem)):
                    t = n.optional_vars if isinstance(n, ast.withitem) else n.target
                    if t is not None and any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(t)):
                        return False
            return bool(vals) and all(self.is_set(v, node, mod, depth + 1) for v in vals)
        if isinstance(e, ast.Attribute):
            vals = self.attr_values().get(e.attr, [])
            return bool(vals) and all(self.is_set(v, fn, m, depth + 1) for v, fn, m in vals)
        return False

    def small_numbers(self, e):
        """numbers written in the source: their order in a set is their value"""
        if isinstance(e, ast.Set):
            return all(isinstance(x, ast.Constant) and isinstance(x.value, int) and 0 <= x.value < 8 for x in e.elts)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.BitAnd)):
            return self.small_numbers(e.left)
        return False

    def attr_values(self):
        if not hasattr(self, "_av"):
            self._av = {}
            for f, node, mod, cls, parent in self.t.funcs:
                for n in own_nodes(node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute):
                                self._av.setdefault(t.attr, []).append((n.value, node, mod))
        return self._av

    def returns_set(self, f, depth):
        rets = [n for n in own_nodes(f.node) if isinstance(n, ast.Return) and n.value is not None]
        return bool(rets) and all(self.is_set(r.value, f.node, f.module, depth + 1) for r in rets)

    def sets(self, f, node, mod, cls, parent):
        rec = (f, node, mod, cls, parent)
        seen = set()
        for n in own_nodes(node):
            e = None
            if isinstance(n, ast.For):
                e = n.iter
            elif isinstance(n, ast.comprehension):
                e = n.iter
            elif isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
                if nm in ("list", "tuple", "iter", "enumerate", "map", "filter", "zip", "array", "fromiter", "join", "next", "reduce",
                          "extend", "asarray", "concatenate", "fromkeys", "from_iterable", "accumulate"):
                    for a in n.args:
                        if self.is_set(a, parent or node, mod) or self.is_set(a, node, mod):
                            e = a
                            if isinstance(mod.parents.get(a), ast.Call) and self.ordered_later(mod, a, node):
                                self.res.ok("sets", "%s: the order of %s does not matter" % (self.name(rec), ast.unparse(a)[:40]))
                            else:
                                self.res.bad("sets", "%s %s" % (self.name(rec), ast.unparse(a)[:50]),
                                             "the order of the result follows the iteration order of the set %s" % ast.unparse(a)[:60],
                                             loc(mod, a))
                    if isinstance(n.func, ast.Attribute) and n.func.attr == "pop" and not n.args:
                        pass
                elif nm == "pop" and isinstance(n.func, ast.Attribute) and not n.args and self.is_set(n.func.value, node, mod):
                    self.res.bad("sets", "%s %s" % (self.name(rec), ast.unparse(n)[:50]),
                                 "pop takes an arbitrary element of the set %s" % ast.unparse(n.func.value), loc(mod, n))
                continue
            elif isinstance(n, ast.Starred):
                e = n.value
            else:
                continue
            if id(e) in seen or not (self.is_set(e, node, mod) or parent is not None and self.is_set(e, parent, mod)):
                continue
            seen.add(id(e))
            if self.ordered_later(mod, e, node):
                self.res.ok("sets", "%s: the order of %s does not matter" % (self.name(rec), ast.unparse(e)[:40]))
            else:
                self.res.bad("sets", "%s %s" % (self.name(rec), ast.unparse(e)[:50]),
                             "the order of the result follows the iteration order of the set %s" % ast.unparse(e)[:60], loc(mod, e))

    # -- clock readings ---------------------------------------------------------------
    def clock(self, f, node, mod, cls, parent, report):
        rec = (f, node, mod, cls, parent)
        tainted = {x for (k, x) in self.tparam if k == id(node)}
        if parent is not None:
            tainted |= getattr(self, "_names", {}).get(id(parent), set())

        def dirty(e):
            if e is None or isinstance(e, (ast.Lambda, ast.FunctionDef)):
                return False
            if isinstance(e, ast.Name):
                return isinstance(e.ctx, ast.Load) and e.id in tainted
            if isinstance(e, ast.Call):
                d = self.dotted(node, mod, e.func)
                if d and CLOCK.match(d):
                    return True
                if isinstance(e.func, ast.Name) and e.func.id in ("len", "isinstance", "print", "type"):
                    return False
                ts = self.target(e, f, node, mod, cls) if self.tret else []
                if ts:
                    return any(id(x.node) in self.tret for x in ts)
                if d is None and not isinstance(e.func, ast.Attribute) and not isinstance(e.func, ast.Name):
                    return False
                if isinstance(e.func, ast.Attribute) and dirty(e.func.value):
                    return True
                if isinstance(e.func, ast.Name) and e.func.id not in ("round", "float", "int", "str", "max", "min", "abs", "sum", "list", "tuple"):
                    return False
                return any(dirty(a) for a in e.args)
            if isinstance(e, ast.Attribute):
                return e.attr in self.tattr or dirty(e.value)
            return any(dirty(c) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr) or isinstance(c, ast.keyword)
                       or isinstance(c, ast.comprehension))

        for _ in range(3):
            n0 = len(tainted)
            for n in own_nodes(node):
                if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and n.value is not None and dirty(n.value):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                tainted.add(x.id)
                elif isinstance(n, ast.NamedExpr) and dirty(n.value):
                    tainted.add(n.target.id)
            if len(tainted) == n0:
                break
        if not hasattr(self, "_names"):
            self._names = {}
        self._names[id(node)] = set(tainted)

        def bad(n, what, key):
            if report:
                self.res.bad("clock", "%s %s" % (self.name(rec), key), "%s depends on the time of the run" % what, loc(mod, n))

        if isinstance(node, ast.Lambda):
            if dirty(node.body):
                self.tret.add(id(node))
            return
        for n in own_nodes(node):
            if isinstance(n, (ast.Assign, ast.AugAssign)) and dirty(n.value):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Attribute):
                        self.tattr.add(t.attr)
                        if not re.search(r"time|clock|elapsed|start|stamp|duration|^st$|^et$|_t\d*$", t.attr):
                            bad(n, "attribute %s" % ast.unparse(t), ast.unparse(t))
                    elif isinstance(t, ast.Subscript):
                        if not re.search(r"time|clock|elapsed|stamp|duration|profil", ast.unparse(t)):
                            bad(n, "the entry %s" % ast.unparse(t), ast.unparse(t))
            elif isinstance(n, (ast.Return, ast.Yield)) and dirty(n.value):
                self.tret.add(id(node))
                if parent is None and qual(f, node, mod, cls) in KNOWN:
                    bad(n, "the result", "return")
            elif isinstance(n, (ast.If, ast.While)) and dirty(n.test):
                inner = [s for b in (n.body, n.orelse) for s in b]
                if not all(isinstance(s, (ast.Pass,)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and getattr(
                        s.value.func, "id", getattr(s.value.func, "attr", "")) in ("print", "info", "debug", "warning")) for s in inner):
                    bad(n, "the decision %s" % ast.unparse(n.test)[:50], ast.unparse(n.test)[:50])
            elif isinstance(n, ast.Call):
                d = self.dotted(node, mod, n.func)
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
                if d and CLOCK.match(d) or nm in PRINTS:
                    continue
                args = [(i, a) for i, a in enumerate(n.args)] + [(k.arg, k.value) for k in n.keywords]
                hits = [(i, a) for i, a in args if dirty(a)]
                if not hits:
                    continue
                ts = self.target(n, f, node, mod, cls)
                for t in ts:
                    ps = t.params[1:] if t.cls is not None and not t.is_static() else t.params
                    for i, a in hits:
                        if isinstance(i, str):
                            self.tparam.add((id(t.node), i))
                        elif i < len(ps):
                            self.tparam.add((id(t.node), ps[i]))
                if not ts and d and not re.match(r"^(logging|sys\.std)", d) and not self.printed(mod, n):
                    root = d.split(".")[0]
                    if root in ("numpy", "gmsh", "meshio", "networkx", "scipy", "random", "basix", "petsc4py", "auto_diff") and nm not in (
                            "mean", "sum", "round", "around", "array", "diff", "max", "min"):
                        bad(n, "the call of %s" % d, d)

    # -- memory that was never written --------------------------------------------------
    def uninitialised(self, f, node, mod, cls, parent):
        rec = (f, node, mod, cls, parent)
        for n in own_nodes(node):
            if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.value, ast.Call)):
                continue
            d = self.dotted(node, mod, n.value.func)
            if d not in ("numpy.empty", "numpy.empty_like", "numpy.ndarray"):
                continue
            shape = ast.unparse(n.value.args[0]) if n.value.args else ""
            for k in n.value.keywords:
                if k.arg == "shape":
                    shape = ast.unparse(k.value)
            dt = [k.value for k in n.value.keywords if k.arg == "dtype"] + list(n.value.args[1:2])
            objs = any(isinstance(self.p.resolve_expr(mod, x), ClassInfo) or ast.unparse(x) == "object" for x in dt)
            if objs or re.search(r"(^|[(\[ ,])0($|[)\], ])", shape):
                self.res.ok("uninitialised", "%s: %s holds no unwritten numbers" % (self.name(rec), ast.unparse(n.targets[0])))
                continue
            tgt = ast.unparse(n.targets[0])
            full = accum = None
            for m in own_nodes(node):
                if getattr(m, "lineno", 0) < n.lineno:
                    continue
                if isinstance(m, ast.Assign):
                    for t in m.targets:
                        if isinstance(t, ast.Subscript) and ast.unparse(t.value) == tgt and ast.unparse(t.slice) in (":", "...", "Ellipsis"):
                            full = full or m.lineno
                if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr == "fill" and ast.unparse(m.func.value) == tgt:
                    full = full or m.lineno
                if isinstance(m, ast.AugAssign):
                    t = m.target
                    while isinstance(t, ast.Subscript):
                        t = t.value
                    if ast.unparse(t) == tgt and accum is None:
                        accum = m
                if isinstance(m, ast.Call) and (ast.unparse(m.func).endswith("add.at")) and m.args and ast.unparse(m.args[0]) == tgt:
                    accum = accum or m
            written = {ast.unparse(t) for m in own_nodes(node) if isinstance(m, ast.Assign) for t in m.targets
                       if isinstance(t, ast.Subscript) and ast.unparse(t.value) == tgt}
            direct = accum is not None and (isinstance(accum, ast.Call) or isinstance(accum.target, ast.Name) or
                                            ast.unparse(accum.target) not in written)
            touched = bool(written) or full is not None or any(
                isinstance(m, ast.Call) and any(k.arg == "out" and ast.unparse(k.value).split("[")[0] == tgt for k in m.keywords)
                for m in own_nodes(node)) or any(isinstance(m, ast.Assign) and any(
                    isinstance(t, ast.Subscript) and ast.unparse(t).startswith(tgt) for t in m.targets) for m in own_nodes(node))
            if direct and full is None and not any(ast.unparse(accum.target if isinstance(accum, ast.AugAssign) else accum.args[0]).startswith(w) for w in written):
                self.res.bad("uninitialised", "%s %s" % (self.name(rec), tgt), "%s is added to memory that was never set" % tgt, loc(mod, accum))
            elif not touched:
                passed = any(isinstance(m, ast.Call) and any(isinstance(a, ast.Name) and a.id == tgt for a in m.args)
                             for m in own_nodes(node))
                if passed:
                    self.res.unknown("uninitialised", "%s %s" % (self.name(rec), tgt), "handed to another function")
                else:
                    self.res.bad("uninitialised", "%s %s" % (self.name(rec), tgt), "%s is used but never written" % tgt, loc(mod, n))
            else:
                self.res.ok("uninitialised", "%s: %s is written" % (self.name(rec), tgt))

    # -- memoised functions --------------------------------------------------------------
    def caches(self, f, node, mod, cls, parent):
        if isinstance(node, ast.Lambda):
            return
        for d in node.decorator_list:
            name = self.dotted(None, mod, d.func if isinstance(d, ast.Call) else d)
            if not name or not CACHES.match(name):
                continue
            rec = (f, node, mod, cls, parent)
            args = [x for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
            bad = None
            for i, x in enumerate(args):
                if cls is not None and i == 0 and not f.is_static():
                    reads = {n.attr for n in own_nodes(node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name)
                             and n.value.id == x.arg}
                    if any(r not in cls.methods for r in reads) or reads:
                        bad = x.arg
                else:
                    t = self.t.ty(ast.Name(id=x.arg, ctx=ast.Load()), Ctx(self.t, f, node, mod, cls)) if False else \
                        self.t.locals.get(id(node), {}).get(x.arg, frozenset())
                    if any(y[0] == "inst" and isinstance(y[1], ClassInfo) for y in t):
                        bad = x.arg
            if bad is not None:
                self.res.bad("cache", "%s %s" % (self.name(rec), name), "the remembered result ignores later changes of %s" % bad,
                             loc(mod, node))
            else:
                self.res.ok("cache", "%s remembers results of immutable arguments only" % self.name(rec))

    # -- state between calls ----------------------------------------------------------------
    def state(self):
        for m in self.p.modules.values():
            for g, v in m.globals.items():
                self.res.ok("state", "%s.%s" % (m.name, g))
            for c in m.classes.values():
                for a in c.class_attrs:
                    self.res.ok("state", "%s.%s" % (c.id, a))
        for key, s in self.eff.sum.items():
            f, node, mod, cls, parent = self.eff.info[key]
            rec = (f, node, mod, cls, parent)
            for (r, path), w in s.mut.items():
                if isinstance(r, tuple) and r[0] == "global":
                    if r[1] not in self.p.modules or w[0] is not mod:
                        continue
                    if self.complete_cache(node, mod, r[2]):
                        self.res.ok("state", "%s: %s only remembers values determined by their key" % (self.name(rec), r[2]))
                        continue
                    self.res.bad("state", "%s %s.%s" % (self.name(rec), r[1], r[2]), "the module-level %s is changed and keeps the "
                                 "change for later calls: %s" % (r[2], w[2]), loc(w[0], w[1]))
            if parent is not None or isinstance(node, ast.Lambda):
                continue
            for p in mutable_defaults(node):
                hits = [(k, w) for k, w in s.mut.items() if k[0] == p]
                if hits:
                    (r, path), w = hits[0]
                    self.res.bad("state", "%s %s" % (self.name(rec), p), "the default of %s keeps what a call writes: %s" % (p, w[2]),
                                 loc(w[0], w[1]))
            if cls is not None and node.args.args and not f.is_static():
                selfn = node.args.args[0].arg
                for (r, path), w in s.mut.items():
                    if r == selfn and path and shared_attr(self.eff, cls, path[0]):
                        self.res.bad("state", "%s %s" % (self.name(rec), path[0]), "attribute %s lives in the class and is changed "
                                     "for later instances: %s" % (path[0], w[2]), loc(w[0], w[1]))
        # attributes of classes, functions and modules
        for f, node, mod, cls, parent in self.t.funcs:
            rec = (f, node, mod, cls, parent)
            for n in own_nodes(node):
                if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del))):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and n.args and \
                            self.shared_owner(n.args[0], f, node, mod, cls):
                        self.res.bad("state", "%s setattr" % self.name(rec), "%s outlives the call" % ast.unparse(n)[:60], loc(mod, n))
                    continue
                what = self.shared_owner(n.value, f, node, mod, cls)
                if what:
                    self.res.bad("state", "%s %s" % (self.name(rec), ast.unparse(n)), "%s of a %s is changed and keeps the change "
                                 "for later calls" % (ast.unparse(n), what), loc(mod, n))

    def shared_owner(self, e, f, node, mod, cls):
        if isinstance(e, ast.Attribute) and e.attr == "__class__":
            return "class"
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "type" and len(e.args) == 1:
            return "class"
        if isinstance(e, ast.Name) and f is not None and node is getattr(f, "node", None) and f.is_classmethod() and \
                node.args.args and e.id == node.args.args[0].arg:
            return "class"
        if isinstance(e, ast.Name):
            from .typeinf import bound_names
            if e.id in bound_names(node):
                return None
        r = self.p.resolve_expr(mod, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
        if isinstance(r, ClassInfo):
            return "class"
        if isinstance(r, FuncInfo):
            return "function"
        if isinstance(r, tuple) and r[0] == "module" and r[1] in self.p.modules:
            return "module"
        return None

    def complete_cache(self, node, mod, name):
        """every store to the module level container uses a key that determines the stored value"""
        stores = []
        for n in ast.walk(node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name:
                        stores.append((t.slice, n.value))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    n.func.value.id == name:
                if n.func.attr == "setdefault" and len(n.args) == 2:
                    stores.append((n.args[0], n.args[1]))
                elif n.func.attr not in ("get", "keys", "values", "items", "clear", "pop", "__contains__"):
                    return False
            elif isinstance(n, ast.Global) and name in n.names:
                return False
            elif isinstance(n, ast.AugAssign) and ast.unparse(n.target).split("[")[0] == name:
                return False
        if not stores:
            return False
        params = {x.arg for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs}
        defs = {}
        for n in own_nodes(node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            defs.setdefault(x.id, []).append(n.value)
            elif isinstance(n, ast.For):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        defs.setdefault(x.id, []).append(n.iter)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                defs.setdefault(n.target.id, []).append(n.value)

        def deps(e, seen=()):
            out = set()

            def go(x):
                if isinstance(x, ast.Attribute):
                    b = x
                    while isinstance(b, ast.Attribute):
                        b = b.value
                    if isinstance(b, ast.Name) and b.id in params:
                        out.add(ast.unparse(x))
                        return
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    if x.id in params and x.id not in defs:
                        out.add(x.id)
                    elif x.id in defs and x.id not in seen:
                        for v in defs[x.id]:
                            out.update(deps(v, seen + (x.id,)))
                        if x.id in params:
                            out.add(x.id)
                    return
                for c in ast.iter_child_nodes(x):
                    go(c)
            go(e)
            return out
        for k, v in stores:
            kd = deps(k)
            for d in deps(v):
                if d == name:
                    continue
                parts = d.split(".")
                if not any(".".join(parts[:i]) in kd for i in range(1, len(parts) + 1)):
                    return False
        return True


def run(program, res, tier):
    Det(program, res).run()
