"""Program model: parsed modules of /repo/src, name resolution, reporting helpers.

Everything here works on the syntax trees of the current working tree; no
repository code is imported or executed."""
import ast
import hashlib
import os
import sys

REPO = os.environ.get("NFCHECK_REPO", "/repo")
SRC = os.path.join(REPO, "src")


class AnchorMissing(Exception):
    """An anchor of a property vanished from the tree: analysis broken."""


class Module:
    def __init__(self, name, path, text):
        self.name = name
        self.path = path
        self.text = text
        self.tree = ast.parse(text, path)
        self.functions = {}
        self.classes = {}
        self.imports = {}          # local name -> ("module", mod) | ("member", mod, name)
        self.star_imports = []
        self.globals = {}          # name -> value node (last module level assignment)
        self.parents = {}
        for node in ast.walk(self.tree):
            for ch in ast.iter_child_nodes(node):
                self.parents[ch] = node
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = FuncInfo(self, st, None)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(self, st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = ("module", a.name)
                    else:
                        self.imports[a.name.split(".")[0]] = ("module", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = self._rel(st)
                for a in st.names:
                    if a.name == "*":
                        self.star_imports.append(base)
                    else:
                        self.imports[a.asname or a.name] = ("member", base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                if isinstance(st.target, ast.Name):
                    self.globals[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try)):
                self._scan(st.body)
                self._scan(getattr(st, "orelse", []))
                for h in getattr(st, "handlers", []):
                    self._scan(h.body)
                self._scan(getattr(st, "finalbody", []))

    def _rel(self, st):
        if st.level == 0:
            return st.module
        parts = self.name.split(".")
        is_pkg = os.path.basename(self.path) == "__init__.py"
        keep = len(parts) - st.level + (1 if is_pkg else 0)
        base = parts[:keep]
        if st.module:
            base.append(st.module)
        return ".".join(base)


class FuncInfo:
    def __init__(self, module, node, cls):
        self.module = module
        self.node = node
        self.cls = cls
        self.name = node.name
        self.qualname = (cls.name + "." if cls else "") + node.name
        self.decorators = [ast.unparse(d) for d in node.decorator_list]

    @property
    def id(self):
        return self.module.name + ":" + self.qualname

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def is_static(self):
        return "staticmethod" in self.decorators

    def is_classmethod(self):
        return "classmethod" in self.decorators

    def is_property(self):
        return any(d == "property" or d.endswith("cached_property") for d in self.decorators)

    def is_setter(self):
        return any(d.endswith(".setter") for d in self.decorators)


class ClassInfo:
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.methods = {}
        self.properties = {}
        self.setters = {}
        self.class_attrs = {}
        self.all_funcs = []
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                fi = FuncInfo(module, st, self)
                self.all_funcs.append(fi)
                if fi.is_setter():
                    self.setters[st.name] = fi
                elif fi.is_property():
                    self.properties[st.name] = fi
                else:
                    self.methods[st.name] = fi
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.class_attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.class_attrs[st.target.id] = st.value
        self.bases = [ast.unparse(b) for b in node.bases]

    @property
    def id(self):
        return self.module.name + ":" + self.name


class Program:
    def __init__(self, src=None):
        self.src = src or SRC
        self.modules = {}
        self.errors = []
        if not os.path.isdir(self.src):
            raise AnchorMissing("source directory %s" % self.src)
        for root, dirs, files in os.walk(self.src):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__" and not d.endswith(".egg-info"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(root, f)
                rel = os.path.relpath(path, self.src)[:-3].replace(os.sep, ".")
                if rel.endswith("__init__"):
                    rel = rel[: -len("__init__")].rstrip(".") or "__init__"
                with open(path, encoding="utf-8") as fh:
                    text = fh.read()
                try:
                    self.modules[rel] = Module(rel, path, text)
                except SyntaxError as e:
                    self.errors.append((path, str(e)))

    # ---- resolution -------------------------------------------------------
    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnchorMissing("module %s" % name)
        return m

    def resolve_member(self, modname, name, seen=None):
        """-> FuncInfo | ClassInfo | ('module', m) | ('global', module, node) | None"""
        seen = seen or set()
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            return None
        if name in m.functions:
            return m.functions[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == "module":
                return ("module", imp[1])
            r = self.resolve_member(imp[1], imp[2], seen)
            if r is not None:
                return r
            if imp[1] + "." + imp[2] in self.modules:
                return ("module", imp[1] + "." + imp[2])
            return ("external", imp[1], imp[2])
        if name in m.globals:
            return ("global", m, m.globals[name])
        for s in m.star_imports:
            r = self.resolve_member(s, name, seen)
            if r is not None:
                return r
        if modname + "." + name in self.modules:
            return ("module", modname + "." + name)
        return None

    def resolve_expr(self, module, node):
        """Resolve a Name / dotted Attribute expression at module level."""
        if isinstance(node, ast.Name):
            return self.resolve_member(module.name, node.id)
        if isinstance(node, ast.Attribute):
            base = self.resolve_expr(module, node.value)
            if isinstance(base, tuple) and base[0] == "module":
                if base[1] in self.modules:
                    r = self.resolve_member(base[1], node.attr)
                    if r is not None:
                        return r
                    if base[1] + "." + node.attr in self.modules:
                        return ("module", base[1] + "." + node.attr)
                return ("external", base[1], node.attr)
            if isinstance(base, tuple) and base[0] == "external":
                return ("external", base[1] + "." + base[2], node.attr)
            if isinstance(base, ClassInfo):
                return self.lookup_method(base, node.attr)
        return None

    def bases_of(self, cls):
        out = []
        for b in cls.node.bases:
            r = self.resolve_expr(cls.module, b)
            if isinstance(r, ClassInfo):
                out.append(r)
        return out

    def mro(self, cls, seen=None):
        seen = seen or []
        if cls in seen:
            return seen
        seen.append(cls)
        for b in self.bases_of(cls):
            self.mro(b, seen)
        return seen

    def lookup_method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
            if name in c.properties:
                return c.properties[name]
        return None

    def functions(self):
        """All functions and methods (top level and class level)."""
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for f in c.all_funcs:
                    yield f

    def find_class(self, name, modname=None):
        hits = []
        for m in self.modules.values():
            if modname is not None and m.name != modname:
                continue
            if name in m.classes:
                hits.append(m.classes[name])
        if not hits and modname is not None:
            return self.find_class(name)
        if not hits:
            raise AnchorMissing("class %s" % name)
        return hits[0]

    def find_function(self, qual, modname=None):
        if "." in qual:
            c, f = qual.split(".", 1)
            cls = self.find_class(c, modname)
            r = self.lookup_method(cls, f)
            if r is None:
                raise AnchorMissing("method %s of %s" % (f, c))
            return r
        if modname is not None:
            r = self.resolve_member(modname, qual)
            if isinstance(r, FuncInfo):
                return r
        hits = [m.functions[qual] for m in self.modules.values() if qual in m.functions]
        if not hits:
            raise AnchorMissing("function %s" % qual)
        return hits[0]

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].text.encode())
        return h.hexdigest()[:16]


class Finding:
    """One violated obligation.  `key` identifies it without line numbers."""

    def __init__(self, rule, construct, message, where=""):
        self.rule = rule
        self.construct = construct
        self.message = message
        self.where = where

    @property
    def key(self):
        return "%s|%s" % (self.rule, self.construct)

    def __repr__(self):
        return "%s [%s] %s: %s" % (self.where, self.rule, self.construct, self.message)


class Result:
    """Outcome of one property check."""

    def __init__(self, prop):
        self.prop = prop
        self.findings = []
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.samples = []
        self.rules = {}
        self.info = {}

    def ok(self, rule, sample=None):
        self.obligations += 1
        self.discharged += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if sample and len([s for s in self.samples if s.startswith(rule)]) < 3:
            self.samples.append("%s: %s" % (rule, sample))

    def bad(self, rule, construct, message, where=""):
        f = Finding(rule, construct, message, where)
        if f.key in [g.key for g in self.findings]:
            return
        self.obligations += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        self.findings.append(f)

    def unknown(self, rule, construct, why):
        self.obligations += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        self.undecided.append("%s %s: %s" % (rule, construct, why))


def loc(module, node):
    return "%s:%d" % (os.path.relpath(module.path, REPO), getattr(node, "lineno", 0))
