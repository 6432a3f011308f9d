"""P17: every name, member, attribute and call of the library resolves."""
import ast
import builtins

from .core import ClassInfo, FuncInfo, loc
from .extlib import LIB
from .typeinf import Types, Ctx, UNK, own_nodes, bound_names, NONE

_CACHE = {}


def types_of(program):
    k = id(program)
    if k not in _CACHE:
        _CACHE.clear()
        _CACHE[k] = Types(program)
    return _CACHE[k]


MODULE_NAMES = {"__name__", "__file__", "__doc__", "__builtins__", "__package__", "__spec__", "__loader__"}


def module_names(p, m, seen=None):
    """names bound at module level, or None when an unresolved star import hides them"""
    seen = seen or set()
    if m.name in seen:
        return set()
    seen.add(m.name)
    out = set(MODULE_NAMES)
    for st in m.tree.body:
        for n in walk_scope(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    out.add((a.asname or a.name).split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if a.name == "*":
                        base = m._rel(n)
                        if base in p.modules:
                            sub = module_names(p, p.modules[base], seen)
                            if sub is None:
                                return None
                            out |= {x for x in sub if not x.startswith("_")}
                        else:
                            info = LIB.info(base)
                            if info and info.get("members"):
                                out |= set(info["members"])
                            else:
                                return None
                    else:
                        out.add(a.asname or a.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
    for f in ast.walk(m.tree):
        if isinstance(f, ast.Global):
            out |= set(f.names)
    return out


def walk_scope(st):
    stack = [st]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        if isinstance(n, ast.ClassDef):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Checker:
    def __init__(self, program, res):
        self.p = program
        self.res = res
        self.t = types_of(program)
        self.allnames = None
        self.extnames = None

    def known_attribute_names(self):
        """attribute names of every class and module the program can know"""
        if self.allnames is not None:
            return self.allnames
        s = set()
        for m in self.p.modules.values():
            s |= set(m.functions) | set(m.classes) | set(m.globals) | set(m.imports)
            for c in m.classes.values():
                s |= set(c.methods) | set(c.properties) | set(c.setters) | set(c.class_attrs)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    s.add(n.attr)
        own, s = s, set()
        for ty in (list, dict, str, set, tuple, int, float, complex, bytes, object, range, slice, Exception, property,
                   type, memoryview, frozenset, staticmethod):
            s |= set(dir(ty))
        s |= {"__name__", "__dict__", "__doc__", "__code__", "__self__", "func", "keywords", "args", "close", "write",
              "read", "readline", "readlines", "writelines", "flush", "seek", "tell", "name", "mode", "closed",
              "cr_frame", "gi_frame", "send", "throw"}
        ok = True
        tops = set()
        for m in self.p.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Import):
                    tops |= {a.name for a in n.names}
                elif isinstance(n, ast.ImportFrom) and n.level == 0 and n.module not in self.p.modules:
                    tops.add(n.module)
                    tops |= {n.module + "." + a.name for a in n.names if a.name != "*"}
        for q in sorted(tops | {"numpy.ndarray", "networkx.DiGraph", "matplotlib.axes.Axes", "matplotlib.figure.Figure",
                                "basix.finite_element.FiniteElement", "numpy.random.Generator", "pathlib.Path",
                                "numpy.linalg", "scipy.sparse.csr_matrix", "mpl_toolkits.mplot3d.axes3d.Axes3D",
                                "auto_diff.vecvalder.VecValDer", "meshio.Mesh", "matplotlib.collections.Collection",
                                "matplotlib.colors.Colormap", "gmsh.model", "gmsh.model.mesh", "gmsh.model.occ",
                                "gmsh.model.geo", "gmsh.option", "matplotlib.axis.Axis"}):
            info = LIB.info(q)
            if info is None or not info.get("exists", False):
                continue
            s |= set(info.get("members") or [])
        # classes of the external modules used (instances may come from any of them)
        for q in sorted(tops):
            info = LIB.info(q)
            if info and info.get("ismodule"):
                for mem in info["members"]:
                    if mem[:1].isupper():
                        i2 = LIB.info(q + "." + mem)
                        if i2 and i2.get("members"):
                            s |= set(i2["members"])
        if not LIB.info("numpy"):
            ok = False
        self.extnames = s if ok else None
        self.allnames = (s | own) if ok else None
        return self.allnames

    # -----------------------------------------------------------------------------
    def run(self):
        for m in self.p.modules.values():
            self.module(m)
        for f, node, mod, cls, parent in self.t.funcs:
            if parent is None:
                self.function(f, node, mod, cls)
        return self

    def con(self, m, node):
        """qualified construct name of a node"""
        n, parts = node, []
        while n is not None:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                parts.append(n.name)
            n = m.parents.get(n)
        return m.name + ":" + ".".join(reversed(parts))

    # -- names -----------------------------------------------------------------------
    def module(self, m):
        names = module_names(self.p, m)
        # imports
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                base = m._rel(n)
                if base in self.p.modules:
                    b = self.p.modules[base]
                    sub = module_names(self.p, b)
                    for a in n.names:
                        if a.name == "*" or sub is None:
                            continue
                        if a.name in sub or base + "." + a.name in self.p.modules:
                            self.res.ok("refs.import", "%s imports %s.%s" % (m.name, base, a.name))
                        else:
                            self.res.bad("refs.import", "%s %s.%s" % (m.name, base, a.name),
                                         "module %s defines no %s" % (base, a.name), loc(m, n))
                elif any(k.startswith(base + ".") for k in self.p.modules):
                    for a in n.names:
                        if base + "." + a.name in self.p.modules:
                            self.res.ok("refs.import")
                        else:
                            self.res.bad("refs.import", "%s %s.%s" % (m.name, base, a.name),
                                         "package %s has no module %s" % (base, a.name), loc(m, n))
                else:
                    top = base.split(".")[0]
                    if top in self.p.modules or any(k.startswith(top + ".") for k in self.p.modules):
                        self.res.bad("refs.import", "%s %s" % (m.name, base), "no module %s" % base, loc(m, n))
                        continue
                    info = LIB.info(base)
                    if info is None:
                        self.res.unknown("refs.external", "%s %s" % (m.name, base), "library not installed here")
                        continue
                    for a in n.names:
                        if a.name == "*":
                            continue
                        i2 = LIB.info(base + "." + a.name)
                        if i2 is None or i2.get("exists"):
                            self.res.ok("refs.external")
                        else:
                            self.res.bad("refs.external", "%s %s.%s" % (m.name, base, a.name),
                                         "%s has no %s" % (base, a.name), loc(m, n))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    top = a.name.split(".")[0]
                    if a.name in self.p.modules or any(k.startswith(a.name + ".") for k in self.p.modules):
                        self.res.ok("refs.import")
                    elif top in self.p.modules or any(k.startswith(top + ".") for k in self.p.modules):
                        self.res.bad("refs.import", "%s %s" % (m.name, a.name), "no module %s" % a.name, loc(m, n))
                    elif LIB.info(a.name) is None or not LIB.info(a.name).get("exists"):
                        self.res.unknown("refs.external", "%s %s" % (m.name, a.name), "library not installed here")
                    else:
                        self.res.ok("refs.external")
        if names is None:
            self.res.unknown("refs.name", m.name, "star import of an unknown module")
            return
        self.scope(m, m.tree.body, [names], None)

    def scope(self, m, body, scopes, fn):
        """check loads; scopes: list of visible name sets (innermost last)"""
        stack = [(x, scopes) for x in body][::-1]
        while stack:
            n, sc = stack.pop()
            if isinstance(n, ast.FunctionDef):
                for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                    stack.append((d, sc))
                for a in n.args.args + n.args.posonlyargs + n.args.kwonlyargs:
                    if a.annotation is not None:
                        stack.append((a.annotation, sc))
                if n.returns is not None:
                    stack.append((n.returns, sc))
                inner = [s for s in sc if not isinstance(s, ClassScope)] + [bound_names(n)]
                self.scope(m, n.body, inner, n)
                self.unassigned(m, n)
                continue
            if isinstance(n, ast.Lambda):
                for d in n.args.defaults:
                    stack.append((d, sc))
                inner = [s for s in sc if not isinstance(s, ClassScope)] + [bound_names(n)]
                self.scope(m, [n.body], inner, n)
                continue
            if isinstance(n, ast.ClassDef):
                for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                    stack.append((d, sc))
                cs = ClassScope()
                for st in n.body:
                    for x in walk_scope(st):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            cs.add(x.id)
                        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                            cs.add(x.name)
                self.scope(m, n.body, sc + [cs], fn)
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                own = set()
                for g in n.generators:
                    for x in ast.walk(g.target):
                        if isinstance(x, ast.Name):
                            own.add(x.id)
                for ch in ast.iter_child_nodes(n):
                    stack.append((ch, sc + [own]))
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                nm = n.id
                if any(nm in s for s in sc) or hasattr(builtins, nm):
                    self.res.ok("refs.name")
                else:
                    self.res.bad("refs.name", "%s %s" % (self.con(m, n), nm), "name %s is not defined" % nm, loc(m, n))
            for ch in ast.iter_child_nodes(n):
                stack.append((ch, sc))

    def unassigned(self, m, fn):
        """uses of a local name that no path from the entry has assigned"""
        bound = bound_names(fn)
        args = {x.arg for x in fn.args.args + fn.args.posonlyargs + fn.args.kwonlyargs}
        for v in (fn.args.vararg, fn.args.kwarg):
            if v is not None:
                args.add(v.arg)
        May(self, m, fn, bound - args).run()

    # -- attributes and calls -------------------------------------------------------------
    def function(self, f, node, mod, cls):
        self.body(f, node, mod, cls)

    def body(self, f, node, mod, cls):
        t = self.t
        t.memo = {}
        ctx = Ctx(t, f, node, mod, cls)
        guarded = guards(node)
        self.together(node, ctx, mod, guarded)
        skip = set()
        for d in getattr(node, "decorator_list", ()):
            skip |= {id(x) for x in ast.walk(d)}
        for n in own_nodes(node):
            if id(n) in skip:
                continue
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node:
                self.body(f, n, mod, cls)
                t.memo = {}
            elif isinstance(n, ast.Attribute):
                self.attribute(n, ctx, mod, guarded)
            elif isinstance(n, ast.Call):
                self.call(n, ctx, mod)

    def together(self, node, ctx, mod, guarded):
        """the attributes read from one variable of unknown type must be attributes of one class"""
        groups = []
        for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
            groups.append((a.arg, node))
        for n in own_nodes(node):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for g in n.generators:
                    groups += [(x.id, n) for x in ast.walk(g.target) if isinstance(x, ast.Name)]
        for name, scope in groups:
            if name in guarded:
                continue
            if scope is node:
                ty = ctx.lookup(name)
            else:
                if len([1 for q, sc in groups if sc is scope and q == name]) > 1:
                    continue
                ty = self.t.ty(ast.Name(id=name, ctx=ast.Load()), ctx)
            if any(x[0] not in ("unk", "none") for x in ty):
                continue
            used = self.reads(scope, name, node)
            if not used or len(used) < 2:
                continue
            ext = self.known_external_names()
            if ext is None or not any(u not in ext for u in used):
                continue
            con = "%s %s" % (self.con(mod, scope.body[0] if scope is node and isinstance(scope, ast.FunctionDef)
                                      else scope), name)
            if any(all(self.t.has_attr(c, u) is not False or u in dir(object) for u in used)
                   for m in self.p.modules.values() for c in m.classes.values()):
                self.res.ok("refs.together", "%s: %s" % (con, ", ".join(sorted(used))))
            else:
                self.res.bad("refs.together", con, "no class of the library has all of the attributes %s read from %s"
                             % (", ".join(sorted(used)), name), loc(mod, scope))

    def reads(self, scope, name, node):
        out = set()
        for n in ast.walk(scope):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == name:
                if not isinstance(n.ctx, ast.Load):
                    return None
                out.add(n.attr)
            elif isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) and scope is node:
                return None
            elif isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not scope and name in bound_names(n):
                return None
        return out

    def known_external_names(self):
        if self.extnames is None:
            if self.known_attribute_names() is None:
                return None
        return self.extnames

    def attribute(self, n, ctx, mod, guarded):
        base = self.t.ty(n.value, ctx)
        known = [x for x in base if x[0] != "none"]
        if not known:
            return
        if isinstance(n.ctx, ast.Store):
            if len(known) == 1 and known[0][0] == "inst":
                c = known[0][1]
                member = self.t.find_member(c, n.attr)
                if member is not None and member.is_property() and self.t.p_setter(c, n.attr) is None:
                    self.res.bad("refs.setter", "%s %s.%s" % (self.con(mod, n), c.name, n.attr),
                                 "property %s of %s has no setter" % (n.attr, c.name), loc(mod, n))
                else:
                    self.res.ok("refs.setter")
            return
        if isinstance(n.value, ast.Name) and n.value.id in guarded:
            return
        miss, okk, unk = [], 0, 0
        for x in known:
            r = self.exists(x, n.attr)
            if r is False:
                miss.append(x)
            elif r is True:
                okk += 1
            else:
                unk += 1
        if miss and not okk and not unk:
            what = " or ".join(sorted({self.describe(x) for x in miss}))
            self.res.bad("refs.attribute", "%s .%s" % (self.con(mod, n), n.attr),
                         "%s has no %s" % (what, n.attr), loc(mod, n))
        elif okk:
            self.res.ok("refs.attribute", "%s: %s" % (self.con(mod, n), ast.unparse(n)[:60]))
        else:
            names = self.known_attribute_names()
            if any(x[0] in ("extinst", "ext") for x in known):
                # attributes of objects of other libraries are not enumerable
                self.res.ok("refs.attribute-name")
            elif names is None:
                self.res.unknown("refs.attribute", "%s %s" % (self.con(mod, n), n.attr), "libraries not installed here")
            elif n.attr in names or self.third_party(n):
                self.res.ok("refs.attribute-name")
            else:
                self.res.bad("refs.attribute", "%s .%s" % (self.con(mod, n), n.attr),
                             "no class or module of the library or of the libraries it uses has an attribute %s"
                             % n.attr, loc(mod, n))

    def third_party(self, n):
        return False

    def describe(self, x):
        if x[0] == "inst":
            return x[1].name
        if x[0] == "cls":
            return "class " + x[1].name
        if x[0] == "seq":
            return "array or list"
        return "%s %s" % (x[0], x[1] if isinstance(x[1], str) else "")

    def exists(self, x, name):
        k = x[0]
        if k == "inst":
            return self.t.has_attr(x[1], name)
        if k == "cls":
            r = self.t.has_attr(x[1], name)
            if name in dir(type):
                return True
            if r is False:
                return False
            m = self.t.find_member(x[1], name)
            if m is not None or any(name in c.class_attrs for c in self.p.mro(x[1])):
                return True
            return None
        if k == "mod":
            if x[1] in self.p.modules:
                names = module_names(self.p, self.p.modules[x[1]])
                if names is None:
                    return None
                return name in names or x[1] + "." + name in self.p.modules
            return x[1] + "." + name in self.p.modules or any(
                q.startswith(x[1] + "." + name + ".") for q in self.p.modules)
        if k == "ext":
            info = LIB.info(x[1])
            if info is None or not info.get("exists"):
                return None
            i2 = LIB.info(x[1] + "." + name)
            if i2 is None:
                return None
            if i2.get("exists"):
                return True
            return False if info.get("ismodule") or info.get("isclass") else None
        if k == "extinst":
            info = LIB.info(x[1])
            if info is None or not info.get("isclass") or info.get("dynamic"):
                return None
            if name in info["members"]:
                return True
            return None
        if k == "seq":
            info = LIB.info("numpy.ndarray")
            if name in dir(list) or name in dir(set) or (info and name in info.get("members", ())):
                return True
            return False if info else None
        if k == "dict":
            return name in dir(dict)
        if k == "tuple":
            return None if name not in dir(tuple) else True
        if k == "prim":
            ty = {"int": int, "float": float, "str": str, "bool": bool}[x[1]]
            if name in dir(ty):
                return True
            info = LIB.info("numpy.float64")
            i2 = LIB.info("numpy.int64")
            if info and i2 and (name in info.get("members", ()) or name in i2.get("members", ())):
                return None
            return False if x[1] == "str" else None
        return None

    # -- calls ---------------------------------------------------------------------------------
    def call(self, n, ctx, mod):
        ft = self.t.ty(n.func, ctx)
        known = [x for x in ft if x[0] != "none"]
        if not known:
            return
        errs, okk, unk = [], 0, 0
        for x in known:
            r = self.fits(x, n, ctx)
            if r is None:
                unk += 1
            elif r is True:
                okk += 1
            else:
                errs.append(r)
        if errs and not okk and not unk:
            self.res.bad("refs.call", "%s %s" % (self.con(mod, n), ast.unparse(n.func)[:60]), errs[0], loc(mod, n))
        elif okk:
            self.res.ok("refs.call", "%s: %s" % (self.con(mod, n), ast.unparse(n)[:60]))
        # functions handed to map
        if ft == frozenset([("builtin", "map")]) and n.args and not any(isinstance(a, ast.Starred) for a in n.args):
            inner = [x for x in self.t.ty(n.args[0], ctx) if x[0] != "none"]
            fake = ast.Call(func=n.args[0], args=[ast.Constant(value=0)] * (len(n.args) - 1), keywords=[])
            es = [self.fits(x, fake, ctx) for x in inner]
            if inner and all(isinstance(e, str) for e in es):
                self.res.bad("refs.call", "%s map %s" % (self.con(mod, n), ast.unparse(n.args[0])[:50]), es[0], loc(mod, n))
            elif any(e is True for e in es):
                self.res.ok("refs.call")

    def fits(self, x, n, ctx, pre=0, prekw=()):
        """True, None (unknown) or an error text"""
        k = x[0]
        if k in ("func", "bound", "local"):
            node = x[1].node
            skip = 1 if k == "bound" else 0
            if k != "local" and node.decorator_list and not all(
                    ast.unparse(d) in ("staticmethod", "classmethod", "property", "abstractmethod", "abc.abstractmethod")
                    for d in node.decorator_list):
                return None
            return self.sig(node.args, n, skip + pre, prekw, getattr(node, "name", "lambda"))
        if k == "cls":
            c = x[1]
            init = self.p.lookup_method(c, "__init__")
            if init is not None:
                return self.sig(init.node.args, n, 1 + pre, prekw, c.name)
            if any(not isinstance(self.p.resolve_expr(q.module, b), ClassInfo) and ast.unparse(b) not in (
                    "ABC", "abc.ABC", "object") for q in self.p.mro(c) for b in q.node.bases) \
                    or c.node.decorator_list or c.node.keywords:
                return None
            if any("__new__" in q.methods for q in self.p.mro(c)):
                return None
            if n.args or n.keywords or pre or prekw:
                return "%s takes no arguments" % c.name
            return True
        if k == "partial":
            out = [self.fits(y, n, ctx, pre + len(x[2]), tuple(prekw) + tuple(q[0] for q in x[3])) for y in x[1]]
            # an error only when every function the partial may hold rejects the call
            if any(e is True for e in out):
                return True
            if any(e is None for e in out) or not out:
                return None
            return out[0]
        if k == "inst":
            m = self.p.lookup_method(x[1], "__call__")
            if m is not None:
                return self.sig(m.node.args, n, 1, (), x[1].name)
            if self.t.has_attr(x[1], "__call__") is False:
                return "an instance of %s is not callable" % x[1].name
            return None
        if k == "ext":
            if x[1].endswith("functools.partial") or x[1] == "functools.partial":
                return self.partial_fits(n, ctx)
            info = LIB.info(x[1])
            if not info or not info.get("exists"):
                return None
            if not info.get("callable"):
                return "%s is not callable" % x[1]
            sig = info.get("sig")
            if sig is None:
                return None
            return self.extsig(sig, n, x[1])
        if k == "prim" or k == "seq" or k == "dict":
            return "a value of a plain type (%s) is called" % self.describe(x)
        return None

    def partial_fits(self, n, ctx):
        if not n.args or any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return None
        r = [x for x in self.t.ty(n.args[0], ctx) if x[0] != "none"]
        out = []
        for x in r:
            if x[0] not in ("func", "bound", "local"):
                return None
            a = x[1].node.args
            if a.vararg or a.kwarg:
                return None
            names = [q.arg for q in a.posonlyargs + a.args][1 if x[0] == "bound" else 0:]
            kwn = names + [q.arg for q in a.kwonlyargs]
            npos = len(n.args) - 1
            if npos > len(names):
                out.append("%s takes %d arguments, %d bound" % (getattr(x[1].node, "name", "lambda"), len(names), npos))
            elif any(q.arg not in kwn for q in n.keywords):
                out.append("%s has no parameter %s" % (getattr(x[1].node, "name", "lambda"),
                                                       [q.arg for q in n.keywords if q.arg not in kwn][0]))
            elif any(q.arg in names[:npos] for q in n.keywords):
                out.append("parameter bound twice")
            else:
                return True
        return out[0] if out else None

    def sig(self, a, n, skip, prekw, name):
        pos = [x.arg for x in a.posonlyargs + a.args]
        ndef = len(a.defaults)
        star = any(isinstance(x, ast.Starred) for x in n.args)
        dstar = any(k.arg is None for k in n.keywords)
        kws = [k.arg for k in n.keywords if k.arg is not None] + [k for k in prekw]
        npos = len([x for x in n.args if not isinstance(x, ast.Starred)])
        avail = pos[skip:] if skip <= len(pos) else None
        if avail is None:
            if a.vararg is None:
                return "%s takes %d positional arguments" % (name, len(pos))
            avail = []
        if npos > len(avail) and a.vararg is None:
            return "%s takes %d arguments, %d given" % (name, len(avail), npos)
        if a.kwarg is None:
            for k in kws:
                if k not in avail and k not in [x.arg for x in a.kwonlyargs]:
                    return "%s has no parameter %s" % (name, k)
        for k in [x.arg for x in n.keywords if x.arg is not None]:
            if k in avail[:npos]:
                return "parameter %s of %s is given twice" % (k, name)
        if not star and not dstar:
            required = pos[:len(pos) - ndef] if ndef else pos
            required = [x for x in required if x in avail[npos:]]
            missing = [x for x in required if x not in kws]
            if missing:
                return "%s is called without %s" % (name, ", ".join(missing))
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is None and x.arg not in kws:
                    return "%s is called without %s" % (name, x.arg)
        return True

    def extsig(self, sig, n, name):
        star = any(isinstance(x, ast.Starred) for x in n.args)
        dstar = any(k.arg is None for k in n.keywords)
        pos = [p for p in sig if p[1] in ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD")]
        var = any(p[1] == "VAR_POSITIONAL" for p in sig)
        kwv = any(p[1] == "VAR_KEYWORD" for p in sig)
        npos = len([x for x in n.args if not isinstance(x, ast.Starred)])
        kws = [k.arg for k in n.keywords if k.arg is not None]
        if npos > len(pos) and not var:
            return "%s takes %d arguments, %d given" % (name, len(pos), npos)
        if not kwv:
            for k in kws:
                if k not in [p[0] for p in sig if p[1] in ("POSITIONAL_OR_KEYWORD", "KEYWORD_ONLY")]:
                    return "%s has no parameter %s" % (name, k)
        if not star and not dstar:
            for i, p in enumerate(pos):
                if i >= npos and not p[2] and p[0] not in kws:
                    return "%s is called without %s" % (name, p[0])
        return True


class ClassScope(set):
    pass


def guards(node):
    """names tested with isinstance / hasattr / type in the function"""
    out = set()
    for n in own_nodes(node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "hasattr", "type", "getattr"):
            if n.args and isinstance(n.args[0], ast.Name):
                out.add(n.args[0].id)
    return out


class May:
    """may-assigned names in evaluation order; a use outside the set fails on every path"""

    def __init__(self, chk, m, fn, names):
        self.c, self.m, self.fn, self.names = chk, m, fn, names

    def run(self):
        self.nested = set()
        for n in own_nodes(self.fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.names = self.names - set(n.names)
        for n in own_nodes(self.fn):
            # names assigned by nested functions through nonlocal
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                for q in ast.walk(n):
                    if isinstance(q, ast.Nonlocal):
                        self.names = self.names - set(q.names)
        if self.names:
            self.block(self.fn.body, set())

    def block(self, body, s):
        """returns the set after the block, None when the end is unreachable"""
        for st in body:
            if s is None:
                return None
            s = self.stmt(st, s)
        return s

    def use(self, e, s, extra=frozenset()):
        if e is None:
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            own = set(extra)
            for g in e.generators:
                self.use(g.iter, s, frozenset(own))
                own |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in g.ifs:
                    self.use(c, s, frozenset(own))
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.use(x, s, frozenset(own))
            return
        if isinstance(e, ast.Lambda):
            return
        if isinstance(e, ast.NamedExpr):
            self.use(e.value, s, extra)
            s.add(e.target.id)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.names and e.id not in s and e.id not in extra:
                self.c.res.bad("refs.unassigned", "%s %s" % (self.c.con(self.m, e), e.id),
                               "local name %s has no value on any path here" % e.id, loc(self.m, e))
            return
        for ch in ast.iter_child_nodes(e):
            self.use(ch, s, extra)

    def target(self, t, s):
        if isinstance(t, ast.Name):
            s.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, s)
        elif isinstance(t, ast.Starred):
            self.target(t.value, s)
        else:
            self.use(t, s)

    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a | b

    def stmt(self, st, s):
        if isinstance(st, ast.Assign):
            self.use(st.value, s)
            for t in st.targets:
                self.target(t, s)
        elif isinstance(st, ast.AugAssign):
            self.use(st.value, s)
            if isinstance(st.target, ast.Name):
                self.use(ast.copy_location(ast.Name(id=st.target.id, ctx=ast.Load()), st.target), s) if False else None
                if st.target.id in self.names and st.target.id not in s:
                    self.c.res.bad("refs.unassigned", "%s %s" % (self.c.con(self.m, st), st.target.id),
                                   "local name %s has no value on any path here" % st.target.id, loc(self.m, st))
                s.add(st.target.id)
            else:
                self.use(st.target, s)
        elif isinstance(st, ast.AnnAssign):
            self.use(st.value, s)
            if st.value is not None:
                self.target(st.target, s)
        elif isinstance(st, (ast.Return, ast.Raise)):
            for ch in ast.iter_child_nodes(st):
                self.use(ch, s)
            return None
        elif isinstance(st, (ast.Break, ast.Continue)):
            self.loopouts[-1] |= s
            return None
        elif isinstance(st, ast.If):
            self.use(st.test, s)
            return self.merge(self.block(st.body, set(s)), self.block(st.orelse, set(s)))
        elif isinstance(st, (ast.For, ast.While)):
            if not hasattr(self, "loopouts"):
                self.loopouts = []
            if isinstance(st, ast.For):
                self.use(st.iter, s)
            # names assigned anywhere in the body may be assigned at the head
            inner = set(s)
            for n in walk_scope_list(st.body + ([st.target] if isinstance(st, ast.For) else [])):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    inner.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    inner.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        inner.add((a.asname or a.name).split(".")[0])
            # first pass: uses before any assignment in the body cannot be reached later unless the head set holds
            if isinstance(st, ast.While):
                self.use(st.test, s)
            self.loopouts.append(set())
            first = set(s)
            if isinstance(st, ast.For):
                self.target(st.target, first)
            self.block(st.body, first)      # the first iteration always runs before later ones
            self.loopouts.pop()
            r = self.block(st.orelse, set(inner)) if st.orelse else inner
            return self.merge(r, inner)
        elif isinstance(st, ast.With):
            for it in st.items:
                self.use(it.context_expr, s)
                if it.optional_vars is not None:
                    self.target(it.optional_vars, s)
            return self.block(st.body, s)
        elif isinstance(st, ast.Try):
            b = self.block(st.body, set(s))
            assigned = set(s)
            for n in walk_scope_list(st.body):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    assigned.add(n.id)
            out = b
            if st.orelse and b is not None:
                out = self.block(st.orelse, set(b))
            for h in st.handlers:
                hs = set(assigned)
                if h.name:
                    hs.add(h.name)
                out = self.merge(out, self.block(h.body, hs))
            if st.finalbody:
                f = self.block(st.finalbody, set(assigned if out is None else out | assigned))
                if out is not None:
                    out = f
            return out
        elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            for d in st.decorator_list:
                self.use(d, s)
            s.add(st.name)
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                s.add((a.asname or a.name).split(".")[0])
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    s.discard(t.id)
                else:
                    self.use(t, s)
        elif isinstance(st, (ast.Global, ast.Nonlocal, ast.Pass)):
            pass
        else:
            for ch in ast.iter_child_nodes(st):
                self.use(ch, s)
        return s


def walk_scope_list(body):
    for st in body:
        yield from walk_scope(st)


def run(program, res, tier):
    try:
        Checker(program, res).run()
    finally:
        LIB.close()
