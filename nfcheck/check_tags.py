"""P14: fresh tags for the shapes an operation creates, and complete equality of shapes.

Forward abstract interpretation of the operations that create shapes. An integer is a term (group, offset);
each group carries an interval for its difference to the largest tag used so far in each dimension, and for its
own value. Creating, appending or returning a shape uses its tag in its dimension."""
import ast
import itertools
import time

from .core import loc, FuncInfo, ClassInfo, AnchorMissing

INF = float("inf")
DIMS = (0, 1, 2, 3)
UNK = ("unk",)
NONE = ("none",)
PLACE = ("place",)
BAND = (-INF, INF, False)
FUZZY = (-INF, INF, True)


def iv_add(a, k):
    return (a[0] + k, a[1] + k, a[2])


def iv_sub(a, b):
    lo = -INF if a[0] == -INF or b[1] == INF else a[0] - b[1]
    hi = INF if a[1] == INF or b[0] == -INF else a[1] - b[0]
    return (lo, hi, a[2] or b[2])


def iv_join(a, b):
    return (min(a[0], b[0]), max(a[1], b[1]), a[2] or b[2])


def iv_meet(a, b):
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    if lo > hi:
        return a
    f = (a[2] and a[0] == lo != b[0]) or (b[2] and b[0] == lo != a[0]) or (a[2] and b[2])
    return (lo, hi, f)


class OutOfTime(Exception):
    pass


class St:
    __slots__ = ("env", "rows", "used", "heap", "attrs")

    def __init__(self, env, rows, used, heap, attrs):
        self.env, self.rows, self.used, self.heap, self.attrs = env, rows, used, heap, attrs

    def copy(self):
        return St(dict(self.env), dict(self.rows), list(self.used), dict(self.heap), dict(self.attrs))


def strip(val, st=None):
    """drop integers from a value used as key"""
    k = val[0]
    if k == "int":
        return ("int",)
    if k == "ref":
        c = st.heap.get(val[1]) if st is not None else None
        return ("ref",) if c is None else ("ref", c[2] and not c[3], c[1] == PLACE)
    if k == "coll":
        return ("coll", val[2])
    if k == "tuple":
        return ("tuple",) + tuple(strip(v, st) for v in val[1])
    if k == "list":
        return ("list", val[2])
    if k in ("domain", "tags", "len", "lenof", "part", "param"):
        return (k,)
    return val if k in ("none", "place", "unk") else (k,)


class Tags:
    def __init__(self, program, res):
        self.p, self.res = program, res
        self.fresh = itertools.count()
        self.dim = {}
        self.shape_classes()
        self.scope = self.in_scope()
        self.reported = {}
        self.sites = set()
        self.depth = 0
        self.deadline = INF
        self.undec = {}
        self.locs, self.rd, self.skip = {}, {}, {}

    # ---- program facts ------------------------------------------------
    def shape_classes(self):
        for m in self.p.modules.values():
            for c in m.classes.values():
                names = [b.name for b in self.p.mro(c)]
                if "Shape" in names and c.name != "Shape":
                    init = self.p.lookup_method(c, "__init__")
                    if init is None:
                        continue
                    for n in ast.walk(init.node):
                        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and \
                                n.targets[0].attr == "_dimension" and isinstance(n.value, ast.Constant) and \
                                isinstance(n.value.value, int):
                            self.dim[c] = n.value.value

    def target(self, module, node):
        try:
            return self.p.resolve_expr(module, node)
        except Exception:
            return None

    def direct(self, f):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                t = self.target(f.module, n.func)
                if isinstance(t, ClassInfo) and t in self.dim:
                    return True
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "tag" for t in n.targets):
                return True
        return False

    def in_scope(self):
        fs = [f for f in self.p.functions() if f.module.name.startswith("topology") and
              not (f.cls is not None and "Shape" in [b.name for b in self.p.mro(f.cls)])]
        scope = {f for f in fs if self.direct(f)}
        changed = True
        while changed:
            changed = False
            for f in fs:
                if f in scope:
                    continue
                for n in ast.walk(f.node):
                    if isinstance(n, (ast.Name, ast.Attribute)):
                        t = self.target(f.module, n)
                        if isinstance(t, FuncInfo) and t in scope:
                            scope.add(f)
                            changed = True
                            break
        return scope

    # ---- states -------------------------------------------------------
    def newgroup(self, st, row):
        g = "g%d" % next(self.fresh)
        st.rows[g] = tuple(row)
        return g

    def unknown_int(self, st, fuzzy=True):
        r = FUZZY if fuzzy else BAND
        return ("int", self.newgroup(st, [r] * 5), 0)

    def row(self, st, g):
        return st.rows.get(g, (FUZZY,) * 5)

    def diff(self, st, t, d):
        """t - U_d"""
        g, floor, offs = st.used[d]
        if g == t[1]:
            m = max(offs) if offs else floor
            return (t[2] - m, t[2] - m, False)
        return iv_add(self.row(st, t[1])[d], t[2])

    def umax(self, st, d):
        g, floor, offs = st.used[d]
        return (g, max(offs) if offs else floor)

    def set_used(self, st, d, t):
        """make t=(int,g,off) the largest tag of d"""
        g, floor, offs = st.used[d]
        if g == t[1]:
            old = max(offs) if offs else floor
            noffs = offs | {t[2]}
            new = max(noffs)
            delta = (new - old, new - old, False)
            st.used[d] = (g, floor, noffs)
        else:
            delta = self.diff(st, t, d)
            lo = delta[0]
            fl = t[2] - lo if lo not in (INF, -INF) else t[2] - 1
            st.used[d] = (t[1], fl, frozenset([t[2]]))
            new = t[2]
        tval = iv_add(self.row(st, t[1])[4], new)
        for x, r in list(st.rows.items()):
            if x == t[1]:
                n = (-new, -new, False)
            else:
                n = iv_meet(iv_sub(r[d], delta), iv_sub(r[4], tval))
            st.rows[x] = r[:d] + (n,) + r[d + 1:]

    def commit(self, st, d, t, node, ctx):
        """use tag t in dimension d; judge freshness"""
        dims = DIMS if d is None else (d,)
        if t == PLACE:
            return
        if t[0] != "int":
            t = self.unknown_int(st)
        for k in dims:
            g, floor, offs = st.used[k]
            if g == t[1]:
                good, fz = (t[2] > floor and t[2] not in offs), False
            else:
                lo, hi, fz = self.diff(st, t, k)
                good = lo >= 1
            self.judge(good, fz, k, node, ctx, d is None)
        for k in dims:
            self.set_used(st, k, t)
        for name, v in list(st.env.items()):
            st.env[name] = self.unhold(v, dims)
        for name, v in list(st.attrs.items()):
            st.attrs[name] = self.unhold(v, dims)

    def judge(self, good, fuzzy, d, node, ctx, anydim=False):
        site = (ctx["f"].module.name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), None if anydim else d, ctx["chain"])
        rep = self.reported.get(site)
        if good:
            self.reported.setdefault(site, ("ok", node, ctx, d))
        elif fuzzy:
            if rep is None or rep[0] == "ok":
                self.reported[site] = ("unknown", node, ctx, d)
        else:
            self.reported[site] = ("bad", node, ctx, d)

    def unhold(self, v, dims):
        k = v[0]
        if k == "coll" and v[3] & set(dims):
            return v[:3] + (v[3] - set(dims),)
        if k in ("domain", "tags", "shapes") and v[1] & set(dims):
            return (k, v[1] - set(dims)) + v[2:]
        if k == "dshapes":
            return v[:2] + (frozenset(v[2]) - set(dims),)
        if k == "tuple":
            return ("tuple", tuple(self.unhold(x, dims) for x in v[1]))
        if k == "list" and v[1] is not None:
            return ("list", self.unhold(v[1], dims), v[2])
        return v

    def use_value(self, st, v, node, ctx):
        """commit every shape in v (it escapes into a container, a shape or a result); returns the dims whose largest tag it has"""
        hold = set()
        if v[0] == "ref":
            c = st.heap.get(v[1])
            if c is None:
                return hold
            dim, tag, new, com = c
            if new and tag != PLACE:
                if not com:
                    if tag is None:
                        tag = self.unknown_int(st)
                    self.commit(st, dim, tag, node, ctx)
                    st.heap[v[1]] = (dim, tag, new, True)
                for k in (DIMS if dim is None else (dim,)):
                    if tag is not None and tag[0] == "int" and self.umax(st, k) == tag[1:]:
                        hold.add(k)
        elif v[0] == "tuple":
            for x in v[1]:
                hold |= self.use_value(st, x, node, ctx)
        elif v[0] == "coll":
            alts = v[1]
            out = set()
            for a in alts:
                if a[0] != "none" and a[2] and not a[3] and a[1] != PLACE and v[2] is not True:
                    # several shapes with one tag
                    self.commit(st, a[0], a[1], node, ctx)
                    self.commit(st, a[0], a[1], node, ctx)
                    a = (a[0], None, True, True)
                out.add(a)
            hold |= set(v[3])
        elif v[0] == "domain":
            hold |= set(v[1])
        elif v[0] == "dshapes":
            hold |= set(v[2]) & ({v[1]} if v[1] is not None else set())
        elif v[0] == "list" and v[1] is not None:
            hold |= self.use_value(st, v[1], node, ctx)
        return hold

    def has_place(self, st, v):
        if v[0] == "ref":
            c = st.heap.get(v[1])
            return c is not None and c[2] and c[1] == PLACE
        if v[0] == "tuple":
            return any(self.has_place(st, x) for x in v[1])
        if v[0] == "coll":
            return v[2] is not True and any(a[0] != "none" and a[2] and a[1] == PLACE for a in v[1])
        if v[0] == "list" and v[1] is not None:
            return self.has_place(st, v[1])
        return False

    # ---- joins --------------------------------------------------------
    def join(self, s1, s2, widen=False):
        memo = {}
        out = St({}, {}, [None] * 4, {}, {})

        def group(t1, t2):
            if t1[1] == "C" and t2[1] == "C" and t1[2] == t2[2]:
                out.rows.setdefault("C", tuple(iv_join(a, b) for a, b in zip(self.row(s1, "C"), self.row(s2, "C"))))
                return t1
            key = (t1[1], t2[1], t1[2] - t2[2])
            if key not in memo:
                r1, r2 = self.row(s1, t1[1]), self.row(s2, t2[1])
                k = t2[2] - t1[2]
                row = []
                for d in range(5):
                    a, b = r1[d], iv_add(r2[d], k)
                    if d < 4:
                        # exact where the group is the used one
                        if s1.used[d][0] == t1[1]:
                            a = (-self.umax(s1, d)[1],) * 2 + (False,)
                        if s2.used[d][0] == t2[1]:
                            b = (k - self.umax(s2, d)[1],) * 2 + (False,)
                    j = iv_join(a, b)
                    if widen:
                        j = (j[0] if j[0] >= a[0] else -INF, j[1] if j[1] <= a[1] else INF, j[2])
                    row.append(j)
                g = "g%d" % next(self.fresh)
                out.rows[g] = tuple(row)
                memo[key] = g
            return ("int", memo[key], t1[2])

        def cell(c1, c2):
            if c1 is None or c2 is None:
                return None
            dim = c1[0] if c1[0] == c2[0] else None
            new = c1[2] or c2[2]
            com = (c1[3] or not c1[2]) and (c2[3] or not c2[2])
            t1, t2 = c1[1], c2[1]
            if t1 is not None and t2 is not None and t1[0] == "int" and t2[0] == "int":
                tag = group(t1, t2)
            elif t1 == t2:
                tag = t1
            elif not c1[2]:
                tag = None if com else t2
                if tag is not None and tag[0] == "int":
                    tag = ("int", "lost", 0)
            elif not c2[2]:
                tag = None if com else t1
                if tag is not None and tag[0] == "int":
                    tag = ("int", "lost", 0)
            else:
                tag = ("int", "lost", 0)
            return (dim, tag, new, com)

        rm = {}

        def val(a, b):
            if a[0] == "int" and b[0] == "int":
                return group(a, b)
            if a[0] == "ref" and b[0] == "ref":
                key = (a[1], b[1])
                if key not in rm:
                    c = cell(s1.heap.get(a[1]), s2.heap.get(b[1]))
                    if c is None:
                        return UNK
                    o = a[1] if a[1] == b[1] else "o%d" % next(self.fresh)
                    rm[key] = o
                    out.heap[o] = c
                return ("ref", rm[key])
            if a[0] == "coll" and b[0] == "coll":
                alts = {self.retag_alt(x, s1, out, group) for x in a[1]} | {self.retag_alt(x, s2, out, group) for x in b[1]}
                return ("coll", frozenset(alts), a[2] if a[2] == b[2] else None, a[3] & b[3])
            if a[0] == "tuple" and b[0] == "tuple" and len(a[1]) == len(b[1]):
                return ("tuple", tuple(val(x, y) for x, y in zip(a[1], b[1])))
            if a[0] == "list" and b[0] == "list":
                if a[1] is None or b[1] is None:
                    o, src = (b[1], s2) if a[1] is None else (a[1], s1)
                    e = None if o is None else self.carry(o, src, out)
                else:
                    e = val(a[1], b[1])
                return ("list", e, a[2] if a[2] == b[2] else None)
            if a[0] == b[0] and a[0] == "domain":
                return ("domain", a[1] & b[1])
            if a[0] == b[0] and a[0] == "tags":
                return ("tags", a[1] & b[1], a[2])
            if a == b and a[0] not in ("int", "ref"):
                return a
            return UNK

        for d in DIMS:
            t1, t2 = self.umax(s1, d), self.umax(s2, d)
            if t1[0] == "C" and t2[0] == "C" and t1[1] != t2[1]:
                pass
            t = group(("int",) + t1, ("int",) + t2)
            g1, f1, o1 = s1.used[d]
            g2, f2, o2 = s2.used[d]
            if g1 == g2 == t[1] and (f1, o1) == (f2, o2):
                out.used[d] = s1.used[d]
            else:
                out.used[d] = (t[1], t[2], frozenset())
        for name in s1.env:
            if name in s2.env:
                out.env[name] = val(s1.env[name], s2.env[name])
            else:
                out.env[name] = self.carry(s1.env[name], s1, out)
        for name in s2.env:
            if name not in s1.env:
                out.env[name] = self.carry(s2.env[name], s2, out)
        for k in set(s1.attrs) & set(s2.attrs):
            out.attrs[k] = val(s1.attrs[k], s2.attrs[k])
        out.rows.setdefault("C", tuple(iv_join(a, b) for a, b in zip(self.row(s1, "C"), self.row(s2, "C"))))
        for d in DIMS:
            if out.used[d][0] not in out.rows:
                out.rows[out.used[d][0]] = (FUZZY,) * 5
        return out

    def carry(self, v, src, out):
        """a value defined on one side only"""
        if v[0] == "int":
            if v[1] == "C":
                return v
            g = "k%d" % next(self.fresh)
            out.rows[g] = (FUZZY,) * 5
            return ("int", g, 0)
        if v[0] == "ref":
            c = src.heap.get(v[1])
            if c is None:
                return UNK
            o = "o%d" % next(self.fresh)
            t = c[1]
            if t is not None and t[0] == "int":
                t = None if c[3] else ("int", "lost", 0)
            out.heap[o] = (c[0], t, c[2], c[3])
            return ("ref", o)
        if v[0] == "coll":
            return ("coll", frozenset((a if a[0] == "none" or a[1] is None or a[1] == PLACE else (a[0], ("int", "lost", 0), a[2], a[3])) for a in v[1]), v[2], frozenset())
        if v[0] == "tuple":
            return ("tuple", tuple(self.carry(x, src, out) for x in v[1]))
        if v[0] == "list":
            return ("list", None if v[1] is None else self.carry(v[1], src, out), v[2])
        if v[0] == "domain":
            return ("domain", frozenset())
        if v[0] == "tags":
            return ("tags", frozenset(), v[2])
        if v[0] in ("none", "place", "unk", "part"):
            return v
        return UNK

    def retag_alt(self, a, src, out, group):
        if a[0] == "none" or a[1] is None or a[1] == PLACE or a[1][0] != "int":
            return a
        t = a[1]
        if t[1] in out.rows:
            return a
        return (a[0], ("int", "lost", 0), a[2], a[3])

    def key(self, st, names=None):
        k = [(n, strip(v, st)) for n, v in st.env.items() if names is None or n in names]
        if st.attrs:
            for n, v in st.env.items():
                if v[0] == "ref":
                    for at in ("boundary_shapes", "immersed_shapes"):
                        c = st.attrs.get((v[1], at))
                        if c is not None:
                            k.append((n + "." + at, (c[2], tuple(sorted(c[3])))))
        return tuple(sorted(k, key=repr))

    def merge(self, states, names=None, cap=24):
        out = {}
        for st in states:
            k = self.key(st, names)
            out[k] = self.join(out[k], st) if k in out else st
        if len(out) > cap:
            it = iter(out.values())
            acc = next(it)
            for s in it:
                acc = self.join(acc, s)
            out = {(): acc}
        return out

    def canon(self, st):
        ids = {}
        def t(v):
            if v[0] == "int":
                if v[1] == "C":
                    return v
                i = ids.setdefault((v[1], v[2]), len(ids))
                return ("int", i)
            if v[0] == "ref":
                c = st.heap.get(v[1])
                return ("ref", None if c is None else (c[0], t(c[1]) if c[1] and c[1][0] == "int" else c[1], c[2], c[3]))
            if v[0] == "tuple":
                return ("tuple", tuple(t(x) for x in v[1]))
            if v[0] == "list":
                return ("list", None if v[1] is None else t(v[1]), v[2])
            if v[0] == "coll":
                return ("coll", frozenset((a[0], None, a[2:]) for a in v[1]), v[2], v[3])
            return v
        env = tuple((n, t(v)) for n, v in sorted(st.env.items()))
        rows = []
        for (g, off), i in sorted(ids.items(), key=lambda kv: kv[1]):
            rows.append(tuple(self.diff(st, ("int", g, off), d) for d in DIMS))
        return (env, tuple(rows))

    # ---- expressions --------------------------------------------------
    def ev(self, node, st, ctx):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is not None:
            return m(node, st, ctx)
        out = [(UNK, st)]
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, ast.expr):
                out = [(UNK, s2) for _, s in out for _, s2 in self.ev(ch, s, ctx)]
        return out

    def evs(self, nodes, st, ctx):
        outs = [((), st)]
        for n in nodes:
            outs = [(vs + (v,), s2) for vs, s in outs for v, s2 in self.ev(n, s, ctx)]
        return outs

    def e_Constant(self, node, st, ctx):
        if node.value is None:
            return [(NONE, st)]
        if isinstance(node.value, int) and not isinstance(node.value, bool):
            return [(("int", "C", node.value), st)]
        return [(UNK, st)]

    def e_Name(self, node, st, ctx):
        if node.id in st.env:
            return [(st.env[node.id], st)]
        if node.id in self.locals_of(ctx["f"]):
            return []       # read before assignment: no normal continuation
        t = self.target(ctx["f"].module, node)
        if isinstance(t, (FuncInfo, ClassInfo)):
            return [(("part", t, (), ()), st)]
        return [(UNK, st)]

    def locals_of(self, f):
        if f not in self.locs:
            out = set()
            stack = list(f.node.body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Lambda, ast.FunctionDef)):
                    continue
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                stack.extend(ast.iter_child_nodes(n))
            self.locs[f] = out
        return self.locs[f]

    def makes_domain(self, f):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                t = self.target(f.module, n.func)
                if isinstance(t, ClassInfo) and t.name == "Domain":
                    return True
                if isinstance(t, FuncInfo) and t.node.name == "create_domain":
                    return True
        return False

    def skippable(self, node, st, f):
        """a compound statement that neither creates shapes nor changes tags or collections of shapes"""
        if id(node) not in self.skip:
            ok, names = True, set()
            stack = [node]
            plain = self.plain_names(node, f)
            while stack and ok:
                n = stack.pop()
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append" and \
                        isinstance(n.func.value, ast.Name) and len(n.args) == 1 and \
                        isinstance(n.args[0], ast.Name) and n.args[0].id in plain:
                    names.add("[" + n.func.value.id)
                    continue
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance":
                    stack.append(n.args[0])
                    continue
                if isinstance(n, (ast.Return, ast.Raise, ast.Yield)):
                    ok = False
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    names.add(n.id)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in ("point", "physical_tag"):
                    pass
                elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
                    ok = False
                elif isinstance(n, ast.Attribute) and n.attr in ("append", "append_shapes", "extend", "insert", "add") and not (
                        isinstance(n.value, ast.Name) and n.value.id in ("np", "numpy")):
                    ok = False
                elif isinstance(n, (ast.Name, ast.Attribute)):
                    t = self.target(f.module, n)
                    if (isinstance(t, ClassInfo) and t in self.dim) or (isinstance(t, FuncInfo) and t in self.scope):
                        ok = False
                stack.extend(ast.iter_child_nodes(n))
            self.skip[id(node)] = (node, names if ok else None)
        names = self.skip[id(node)][1]
        if names is None:
            return None
        appended = {n[1:] for n in names if n[0] == "["}
        if any(n in st.env and st.env[n][0] not in ("unk", "param", "none") for n in names) or \
                any(n in st.env and st.env[n][0] not in ("unk", "param", "none", "list", "tuple") for n in appended):
            return None
        return {n.lstrip("[") for n in names}

    def plain_names(self, node, f):
        """names bound inside a statement to counters and numbers"""
        out, other = set(), set()
        for n in ast.walk(node):
            if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name):
                t = n.target
                if n.iter.func.id == "range" and isinstance(t, ast.Name):
                    out.add(t.id)
                elif n.iter.func.id == "enumerate" and isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name):
                    out.add(t.elts[0].id)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = n.value
                q = v.func if isinstance(v, ast.Call) else None
                base = q
                while isinstance(base, ast.Attribute):
                    base = base.value
                if q is not None and isinstance(q, ast.Attribute) and isinstance(base, ast.Name) and \
                        q.attr in ("norm", "dot", "abs", "linalg", "sqrt", "cross") and \
                        not isinstance(self.target(f.module, q), (FuncInfo, ClassInfo)):
                    out.add(n.targets[0].id)
                else:
                    other.add(n.targets[0].id)
        return out - other

    def creates(self, node, f):
        for n in ast.walk(node):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load):
                t = self.target(f.module, n)
                if (isinstance(t, ClassInfo) and t in self.dim) or (isinstance(t, FuncInfo) and t in self.scope):
                    return True
                if isinstance(n, ast.Attribute) and n.attr in ("append", "append_shapes"):
                    return True
        return False

    def reads(self, node):
        if id(node) not in self.rd:
            self.rd[id(node)] = (node, frozenset(n.id for n in ast.walk(node) if isinstance(n, ast.Name)))
        return self.rd[id(node)][1]

    def e_UnaryOp(self, node, st, ctx):
        if isinstance(node.op, ast.USub) and isinstance(node.operand, ast.Constant) and isinstance(node.operand.value, int):
            return [(("int", "C", -node.operand.value), st)]
        return [(UNK, s) for _, s in self.ev(node.operand, st, ctx)]

    def as_int(self, v, st):
        if v[0] == "int":
            return v
        if v[0] == "param":
            return ("int", v[1], 0)
        if v[0] == "lenof":
            row = list(self.row(st, "C"))
            n = []
            for d in DIMS:
                if d == v[1] and d in v[2]:
                    n.append((1, INF, False))
                else:
                    n.append(BAND)
            n.append((0, INF, False))
            return ("int", self.newgroup(st, n), 0)
        return None

    def e_BinOp(self, node, st, ctx):
        out = []
        for (a, b), s in self.evs([node.left, node.right], st, ctx):
            s = s.copy()
            if isinstance(node.op, ast.Add) and isinstance(node.left, ast.Name) and isinstance(node.right, ast.Name):
                for k in ("$sum:%s:%s" % (node.left.id, node.right.id), "$sum:%s:%s" % (node.right.id, node.left.id)):
                    if k in s.env:
                        out.append((s.env[k], s))
                        break
                else:
                    k = None
                if k is not None:
                    continue
            if isinstance(node.op, ast.Add):
                if a[0] == "tags" and b[0] == "tags":
                    out.append((("tags", a[1] | b[1], a[2] and b[2]), s))
                    continue
                if a[0] in ("tuple", "coll") and b[0] in ("tuple", "coll"):
                    hold = self.use_value(s, a, node, ctx) | self.use_value(s, b, node, ctx)
                    alts = self.alts(a, s) | self.alts(b, s)
                    e = False if (self.empty(a) is False or self.empty(b) is False) else (True if self.empty(a) and self.empty(b) else None)
                    out.append((("coll", frozenset(alts), e, frozenset(hold)), s))
                    continue
            a, b = [("int", "C", -2 ** 31) if x == PLACE else x for x in (a, b)]
            ia, ib = self.as_int(a, s), self.as_int(b, s)
            if ia and ib and isinstance(node.op, (ast.Add, ast.Sub)):
                sg = 1 if isinstance(node.op, ast.Add) else -1
                if ib[1] == "C":
                    out.append((("int", ia[1], ia[2] + sg * ib[2]), s))
                    continue
                if ia[1] == "C" and sg == 1:
                    out.append((("int", ib[1], ib[2] + ia[2]), s))
                    continue
                if sg == 1:
                    # a + b with b of known sign
                    vb, va = iv_add(self.row(s, ib[1])[4], ib[2]), iv_add(self.row(s, ia[1])[4], ia[2])
                    row = [FUZZY] * 5
                    for x, vx in ((ia, vb), (ib, va)):
                        if vx[0] >= 0:
                            for d in range(4):
                                b0 = self.diff(s, x, d)
                                row[d] = (max(row[d][0], b0[0] + vx[0]), INF, row[d][2] and b0[0] + vx[0] < 1)
                    out.append((("int", self.newgroup(s, row), 0), s))
                    continue
            out.append((self.unknown_int(s) if ia or ib else UNK, s))
        return out

    def alts(self, v, st):
        if v[0] == "coll":
            return set(v[1])
        if v[0] == "tuple":
            out = set()
            for x in v[1]:
                if x[0] == "ref" and st.heap.get(x[1]):
                    c = st.heap[x[1]]
                    out.add((c[0], PLACE if c[1] == PLACE else (None if c[3] or not c[2] else c[1]), c[2], c[3]))
                elif x == NONE:
                    out.add(("none",))
                elif x[0] in ("coll", "tuple"):
                    out |= self.alts(x, st)
            return out
        if v[0] == "ref":
            return self.alts(("tuple", (v,)), st)
        return set()

    def empty(self, v):
        if v[0] == "tuple":
            return len(v[1]) == 0
        if v[0] in ("coll", "list"):
            return v[2]
        return None

    def e_Attribute(self, node, st, ctx):
        t = self.target(ctx["f"].module, node)
        if isinstance(t, (FuncInfo, ClassInfo)):
            return [(("part", t, (), ()), st)]
        if node.attr == "min" and ast.unparse(node.value).endswith("tag_info") or ast.unparse(node).endswith("topology_tag_shape_info.min"):
            return [(PLACE, st)]
        if isinstance(node.value, ast.Name) and node.attr == "min":
            t = self.target(ctx["f"].module, node.value)
            if t is not None and "tag" in node.value.id:
                return [(PLACE, st)]
        out = []
        for v, s in self.ev(node.value, st, ctx):
            if node.attr == "tag" and v[0] == "ref":
                c = s.heap.get(v[1])
                if c and c[1] is not None:
                    out.append((c[1], s))
                else:
                    s = s.copy()
                    out.append((self.unknown_int(s), s))
            elif node.attr == "shapes" and v[0] == "domain":
                out.append((("shapes", v[1]), s))
            elif v[0] == "ref" and node.attr in ("boundary_shapes", "immersed_shapes", "_boundary_shapes", "_immersed_shapes"):
                k = (v[1], node.attr.lstrip("_"))
                if k in s.attrs:
                    out.append((s.attrs[k], s))
                else:
                    c = s.heap.get(v[1])
                    d = 0 if c and c[0] == 1 and "boundary" in node.attr else None
                    out.append((("coll", frozenset([(d, None, False, True)]), None, frozenset()), s))
            else:
                out.append((UNK, s))
        return out

    def e_Subscript(self, node, st, ctx):
        out = []
        for v, s in self.ev(node.value, st, ctx):
            for i, s2 in self.ev(node.slice, s, ctx):
                if v[0] == "shapes":
                    d = i[2] if i[0] == "int" and i[1] == "C" else None
                    out.append((("dshapes", d, v[1]), s2))
                    continue
                if v[0] == "tuple" and i[0] == "int" and i[1] == "C" and -len(v[1]) <= i[2] < len(v[1]):
                    out.append((v[1][i[2]], s2))
                    continue
                if v[0] in ("coll", "tuple"):
                    if i[0] == "int" or isinstance(node.slice, (ast.Constant, ast.UnaryOp)):
                        for e, s3 in self.elements(v, s2):
                            out.append((e, s3))
                    else:
                        out.append((("coll", frozenset(self.alts(v, s2)), None, frozenset()), s2))
                    continue
                if v[0] == "list":
                    out.append((v[1] if v[1] is not None else UNK, s2))
                    continue
                if v[0] == "ref":
                    out.append((v, s2))
                    continue
                out.append((UNK, s2))
        return out

    def elements(self, v, st):
        """possible values of one element of a collection, with the states"""
        if v[0] == "coll":
            if v[2] is True:
                return []
            out = []
            for a in sorted(v[1], key=repr):
                s = st.copy()
                if a[0] == "none":
                    out.append((NONE, s))
                    continue
                o = "o%d" % next(self.fresh)
                s.heap[o] = (a[0], a[1], a[2], a[3])
                out.append((("ref", o), s))
            return out or [(UNK, st)]
        if v[0] == "tuple":
            return [(x, st.copy()) for x in v[1]]
        if v[0] == "list":
            if v[2] is True:
                return []
            return [(v[1] if v[1] is not None else UNK, st)]
        if v[0] == "ref":
            c = st.heap.get(v[1])
            s = st.copy()
            o = "o%d" % next(self.fresh)
            s.heap[o] = (c[0], None, False, True)
            return [(("ref", o), s)]
        if v[0] == "dshapes":
            s = st.copy()
            o = "o%d" % next(self.fresh)
            s.heap[o] = (v[1], None, False, True)
            return [(("ref", o), s)]
        if v[0] in ("param", "unk"):
            s = st.copy()
            o = "o%d" % next(self.fresh)
            s.heap[o] = (None, None, False, True)
            return [(("ref", o), s)]
        return [(UNK, st)]

    def e_Tuple(self, node, st, ctx):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return [(UNK, s) for _, s in self.evs([e.value if isinstance(e, ast.Starred) else e for e in node.elts], st, ctx)]
        return [(("tuple", vs), s) for vs, s in self.evs(node.elts, st, ctx)]

    def e_List(self, node, st, ctx):
        return self.e_Tuple(node, st, ctx)

    def e_IfExp(self, node, st, ctx):
        out = []
        for s, tr in self.cond(node.test, st, ctx):
            out += self.ev(node.body if tr else node.orelse, s, ctx)
        return out

    def e_Lambda(self, node, st, ctx):
        return [(UNK, st)]

    def comp(self, node, st, ctx):
        elt = node.elt
        if len(node.generators) == 1 and isinstance(elt, ast.Attribute) and elt.attr == "tag" and \
                isinstance(node.generators[0].target, ast.Name) and isinstance(elt.value, ast.Name) and \
                elt.value.id == node.generators[0].target.id and not node.generators[0].ifs:
            out = []
            for v, s in self.ev(node.generators[0].iter, st, ctx):
                if v[0] == "coll":
                    out.append((("tags", v[3], v[2]), s))
                elif v[0] == "dshapes":
                    out.append((("tags", frozenset(v[2]) & ({v[1]} if v[1] is not None else set()), None), s))
                elif v[0] == "tuple":
                    hold = {k for k in DIMS for x in v[1] if x[0] == "ref" and s.heap.get(x[1]) and s.heap[x[1]][1]
                            and s.heap[x[1]][1][0] == "int" and self.umax(s, k) == s.heap[x[1]][1][1:]}
                    out.append((("tags", frozenset(hold), len(v[1]) == 0), s))
                else:
                    out.append((("tags", frozenset(), None), s))
            return out
        if not self.creates(node, ctx["f"]):
            out = [((), st)]
            for g in node.generators:
                out = [((vs + (v,)), s2) for vs, s in out for v, s2 in (self.ev(g.iter, s, ctx) if g is node.generators[0] else [(UNK, s)])]
            g = node.generators[0]
            res = []
            for vs, s in out:
                v = vs[0]
                if len(node.generators) == 1 and isinstance(elt, ast.Name) and isinstance(g.target, ast.Name) and elt.id == g.target.id and \
                        v[0] in ("coll", "tuple"):
                    keep = not g.ifs
                    hold = (v[3] if v[0] == "coll" else frozenset(self.tuple_hold(v, s))) if keep else frozenset()
                    res.append((("coll", frozenset(self.alts(v, s)), self.empty(v) if keep else (True if self.empty(v) else None), hold), s))
                elif len(node.generators) == 1 and v[0] == "dshapes" and isinstance(elt, ast.Name):
                    res.append((("coll", frozenset([(v[1], None, False, True)]), None, frozenset() if g.ifs else frozenset(v[2])), s))
                else:
                    res.append((UNK, s))
            return res
        # general comprehension: run it as a loop that appends
        name = "$comp%d" % id(node)
        call = ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), "append", ast.Load()), [elt], []))
        body = [call]
        for g in reversed(node.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        for n in ast.walk(body[0]):
            if not hasattr(n, "lineno") and isinstance(n, (ast.expr, ast.stmt)):
                ast.copy_location(n, node)
        s = st.copy()
        s.env[name] = ("coll", frozenset(), True, frozenset())
        outs = []
        for k, s2, v in self.block(body, [s], ctx):
            r = s2.env.pop(name, UNK)
            outs.append((r, s2))
        return outs

    e_ListComp = comp
    e_GeneratorExp = comp
    e_SetComp = comp

    def e_Compare(self, node, st, ctx):
        return [(UNK, s) for _, s in self.evs([node.left] + node.comparators, st, ctx)]

    def e_BoolOp(self, node, st, ctx):
        return [(UNK, st)]

    def max_of(self, v, st):
        """the largest tag of a list of tags / of a domain: a group at least as large as the tags it holds"""
        hold = v[1]
        row = []
        for d in range(5):
            lo, fz = (0 if d in hold else -INF), False
            for h in hold:
                if d == h:
                    continue
                g, off = self.umax(st, h)
                r = self.row(st, g)[d]
                if d < 4:
                    r = self.diff(st, ("int", g, off), d)
                else:
                    r = iv_add(r, off)
                lo = max(lo, r[0])
            row.append((lo, INF, fz))
        return ("int", self.newgroup(st, row), 0)

    def e_Call(self, node, st, ctx):
        f = node.func
        name = f.attr if isinstance(f, ast.Attribute) else (f.id if isinstance(f, ast.Name) else "")
        numpy = isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("np", "numpy")
        t = None
        if not (isinstance(f, ast.Name) and f.id in st.env):
            t = self.target(ctx["f"].module, f)
        args = [a.value if isinstance(a, ast.Starred) else a for a in node.args]
        # methods of values
        if isinstance(f, ast.Attribute) and t is None and not numpy:
            if name in ("append", "extend", "append_shapes", "insert", "add"):
                r = self.mutate(node, f, name, args, st, ctx)
                if r is not None:
                    return r
            if name == "max_tag":
                out = []
                for v, s in self.ev(f.value, st, ctx):
                    s = s.copy()
                    if v[0] == "domain":
                        out.append((self.max_of(v, s), s))
                    else:
                        used = [d for d in DIMS if s.used[d][0] != "S%d" % d]
                        row = [BAND if d in used else (0, INF, False) for d in DIMS] + [FUZZY]
                        out.append((("int", self.newgroup(s, row), 0), s))
                return out
            if name == "max" and not numpy:
                out = []
                for v, s in self.ev(f.value, st, ctx):
                    s = s.copy()
                    out.append((self.max_of(v, s) if v[0] == "tags" else UNK, s))
                return out
            if name in ("copy", "tolist"):
                return self.ev(f.value, st, ctx)
        kw = [k.value for k in node.keywords]
        out = []
        for vs, s in self.evs(args + kw, st, ctx):
            pos, kvs = vs[:len(args)], dict(zip([k.arg for k in node.keywords], vs[len(args):]))
            out += self.apply(node, f, name, numpy, t, pos, kvs, s, ctx)
        return out

    def mutate(self, node, f, name, args, st, ctx):
        out = []
        for recv, s in self.ev(f.value, st, ctx):
            if name == "append_shapes":
                for (v,), s2 in self.evs(args[:1], s, ctx) if args else self.evs([node.keywords[0].value], s, ctx):
                    s2 = s2.copy()
                    hold = self.use_value(s2, v, node, ctx)
                    if self.has_place(s2, v):
                        self.judge(False, False, 0, node, ctx)
                    self.update_recv(f.value, s2, lambda r: ("domain", r[1] | frozenset(hold)) if r[0] == "domain" else r)
                    out.append((NONE, s2))
                continue
            if recv[0] not in ("coll", "tuple", "list", "unk") or name == "add":
                return None
            arg = args[-1] if args else None
            if arg is None:
                return None
            for v, s2 in self.ev(arg, s, ctx):
                s2 = s2.copy()
                hold = self.use_value(s2, v, node, ctx)
                # the commit may have changed what the receiver holds
                def upd(r):
                    if r[0] == "tuple" and len(r[1]) == 0 and (v[0] in ("tuple", "list", "coll", "unk") and name != "extend"):
                        return ("list", v, False)
                    if r[0] == "coll" and r[2] is True and not r[1] and v[0] in ("tuple", "list", "coll", "unk", "int") and name != "extend":
                        return ("list", v, False)
                    if r[0] == "list":
                        if r[1] is None:
                            return ("list", v, False)
                        return ("list", self.join_vals(r[1], v, s2), False)
                    if r[0] in ("tuple", "coll"):
                        a = self.alts(r, s2) | self.alts(v if v[0] != "ref" else ("tuple", (v,)), s2)
                        h = (frozenset(r[3]) if r[0] == "coll" else frozenset(self.tuple_hold(r, s2))) | frozenset(hold)
                        return ("coll", frozenset(a), False if v[0] == "ref" or v == NONE else (r[2] if r[0] == "coll" else (None if not r[1] else False)), h)
                    return r
                self.update_recv(f.value, s2, upd)
                out.append((NONE, s2))
        return out

    def tuple_hold(self, v, st):
        out = set()
        for x in v[1]:
            if x[0] == "ref" and st.heap.get(x[1]):
                dim, tag, new, com = st.heap[x[1]]
                if new and com and tag is not None and tag[0] == "int":
                    for k in (DIMS if dim is None else (dim,)):
                        if self.umax(st, k) == tag[1:]:
                            out.add(k)
        return out

    def join_vals(self, a, b, st):
        if a[0] == "tuple" and b[0] == "tuple" and len(a[1]) == len(b[1]):
            return ("tuple", tuple(self.join_vals(x, y, st) for x, y in zip(a[1], b[1])))
        if a[0] == "coll" and b[0] == "coll":
            return ("coll", a[1] | b[1], a[2] if a[2] == b[2] else None, a[3] & b[3])
        if a[0] in ("coll", "tuple") and b[0] in ("coll", "tuple"):
            return ("coll", frozenset(self.alts(a, st) | self.alts(b, st)), None, frozenset())
        if a == b:
            return a
        if a[0] == "ref" and b[0] == "ref":
            ca, cb = st.heap.get(a[1]), st.heap.get(b[1])
            if ca and cb and ca[0] == cb[0] and ca[2] == cb[2] and ca[3] == cb[3] and (ca[1] == cb[1] or ca[3]):
                return a
        return UNK

    def update_recv(self, node, st, fn):
        if isinstance(node, ast.Name) and node.id in st.env:
            st.env[node.id] = fn(st.env[node.id])
        elif isinstance(node, ast.Attribute):
            for v, s in self.ev(node.value, st, {"f": self.cur, "chain": ()}):
                if v[0] == "ref" and (v[1], node.attr.lstrip("_")) in st.attrs:
                    st.attrs[(v[1], node.attr.lstrip("_"))] = fn(st.attrs[(v[1], node.attr.lstrip("_"))])

    def apply(self, node, f, name, numpy, t, pos, kw, s, ctx):
        s = s.copy()
        if isinstance(t, ClassInfo) and t in self.dim:
            tag = pos[0] if pos else kw.get("tag", UNK)
            for v in pos[1:] + tuple(kw.values()):
                self.use_value(s, v, node, ctx)
            if tag != PLACE:
                tag = self.as_int(tag, s) or self.unknown_int(s)
            o = "o%d" % next(self.fresh)
            s.heap[o] = (self.dim[t], tag, True, False)
            self.sites.add((ctx["f"].module.name, node.lineno, node.col_offset))
            return [(("ref", o), s)]
        if isinstance(t, ClassInfo) and t.name == "Domain":
            return [(("domain", frozenset(d for d in DIMS if s.used[d][0] == "S%d" % d)), s)]
        if name == "partial" and pos and pos[0][0] == "part":
            return [(("part", pos[0][1], pos[0][2] + pos[1:], pos[0][3] + tuple(kw.items())), s)]
        if name == "map" and not numpy and len(pos) == 2:
            fn, xs = pos
            if fn[0] != "part" or not isinstance(fn[1], FuncInfo) or fn[1] not in self.scope:
                return [(UNK, s)]
            alts, states = set(), []
            for e, s2 in self.elements(xs, s) or [(UNK, s)]:
                for v, s3 in self.call(fn[1], fn[2] + (e,), dict(fn[3]), node, s2, ctx):
                    a = self.alts(("tuple", (v,)), s3)
                    if not a:
                        a = {(None, None, False, True)}
                    alts |= a
                    states.append(s3)
            # the operation applied to the elements creates at most one shape each, which it returns
            base = states[0] if states else s
            for o in states[1:]:
                base = self.join(base, o)
            alts = frozenset(a if a[0] == "none" or a[1] in (None, PLACE) or a[1][0] != "int" or a[1][1] in base.rows
                             else (a[0], self.rebase(a[1], states, base), a[2], a[3]) for a in alts)
            return [(("coll", alts, None, frozenset()), base)]
        if name in ("list", "tuple", "array", "asarray", "unique", "copy", "deepcopy", "ravel", "flatten", "sorted", "atleast_1d"):
            if pos and pos[0][0] in ("coll", "tuple", "list", "dshapes", "tags", "ref", "domain"):
                v = pos[0]
                if v[0] == "ref" and name in ("copy", "deepcopy"):
                    c = s.heap.get(v[1])
                    if c:
                        o = "o%d" % next(self.fresh)
                        s.heap[o] = c
                        for (oid, at), val in list(s.attrs.items()):
                            if oid == v[1]:
                                s.attrs[(o, at)] = val
                        return [(("ref", o), s)]
                return [(v, s)]
            return [(UNK, s)]
        if name == "append" and len(pos) >= 2:
            hold = self.use_value(s, pos[1], node, ctx)
            a, b = pos[0], pos[1]
            if isinstance(node.args[0], ast.Name) and node.args[0].id in s.env:
                a = s.env[node.args[0].id]
            elif isinstance(node.args[0], ast.Attribute):
                a = self.ev(node.args[0], s, ctx)[0][0]
            if a[0] in ("coll", "tuple") and b[0] in ("coll", "tuple", "ref"):
                alts = self.alts(a, s) | self.alts(b, s)
                e = False if self.empty(a) is False or self.empty(b) is False or b[0] == "ref" else (True if self.empty(a) and self.empty(b) else None)
                h = (frozenset(a[3]) if a[0] == "coll" else frozenset()) | frozenset(hold)
                return [(("coll", frozenset(alts), e, h), s)]
            return [(UNK, s)]
        if name in ("concatenate", "hstack", "stack") and pos and pos[0][0] == "tuple":
            hold = set()
            e = True
            for x in pos[0][1]:
                if x[0] not in ("coll", "tuple"):
                    return [(UNK, s)]
                hold |= self.use_value(s, x, node, ctx)
                e = False if e is False or self.empty(x) is False else (e if self.empty(x) is True else None)
            return [(("coll", frozenset(self.alts(pos[0], s)), e, frozenset(hold)), s)]
        if name in ("max", "amax") and pos:
            v = pos[0]
            if v[0] == "tags":
                if v[2] is True:
                    return []
                return [(self.max_of(v, s), s)]
            ints = [self.as_int(x, s) for x in (pos if len(pos) > 1 else (v[1] if v[0] == "tuple" else ()))]
            if ints and all(ints):
                row = []
                for d in range(5):
                    ds = [self.diff(s, x, d) if d < 4 else iv_add(self.row(s, x[1])[4], x[2]) for x in ints]
                    lo = max(x[0] for x in ds)
                    row.append((lo, INF, all(x[2] for x in ds)))
                return [(("int", self.newgroup(s, row), 0), s)]
            return [(self.unknown_int(s) if ints else UNK, s)]
        if name == "len" and pos:
            if pos[0][0] == "dshapes":
                return [(self.as_int(("lenof", pos[0][1], frozenset(pos[0][2])), s), s)]
            return [(UNK, s)]
        if name in ("range", "enumerate", "zip"):
            return [(UNK, s)]
        if name == "int" and pos:
            return [(pos[0], s)]
        if name == "dict" or name in ("print",):
            return [(UNK, s)]
        if isinstance(t, FuncInfo) and t in self.scope and t.cls is None:
            return self.call(t, pos, kw, node, s, ctx)
        if isinstance(t, FuncInfo) and t not in self.scope and t.module.name.startswith("topology") and self.makes_domain(t):
            given = list(pos) + list(kw.values())
            if any(v[0] == "domain" for v in given):
                return [(("domain", frozenset(DIMS)), s)]
            hold = {d for d in DIMS if s.used[d][0] == "S%d" % d}
            for v in given:
                hold |= self.use_value(s, v, node, ctx)
            return [(("domain", frozenset(hold)), s)]
        if isinstance(f, ast.Name) and f.id in s.env and s.env[f.id][0] == "part":
            pv = s.env[f.id]
            if isinstance(pv[1], FuncInfo) and pv[1] in self.scope:
                k = dict(pv[3])
                k.update(kw)
                return self.call(pv[1], pv[2] + pos, k, node, s, ctx)
        return [(UNK, s)]

    def rebase(self, t, states, base):
        # a tag variable of the caller keeps its name in the joined state
        for n, v in base.env.items():
            if v[0] == "int":
                for st in states:
                    o = st.env.get(n)
                    if o and o[0] == "int" and o[1] == t[1]:
                        return ("int", v[1], v[2] + t[2] - o[2])
        return ("int", "lost", 0)

    def call(self, fn, pos, kw, node, s, ctx):
        if self.depth > 6 or fn in ctx["stack"]:
            return [(UNK, s)]
        a = fn.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        ann = {x.arg: x.annotation for x in a.posonlyargs + a.args}
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        for i, pn in enumerate(params):
            if i < len(pos):
                env[pn] = pos[i]
            elif pn in kw:
                env[pn] = kw[pn]
            elif pn in defaults:
                env[pn] = self.ev(defaults[pn], s, dict(ctx, f=fn))[0][0]
            else:
                env[pn] = UNK
        s = s.copy()
        for pn in params:
            if env[pn][0] in ("unk", "param"):
                v = self.annotated(fn, ann.get(pn), s)
                if v is not None and not (env[pn][0] == "param" and v[0] == "int"):
                    env[pn] = v
        # the caller's variables stay in the state under a private prefix so that joins keep them in step
        pre = "%d|" % self.depth
        keepn = ctx.get("live", frozenset()) | self.reads(node) | ctx.get("stmtreads", frozenset())
        inner = St({pre + n: v for n, v in s.env.items() if n in keepn or n[0] == "$" or "|" in n}, s.rows, s.used, s.heap, s.attrs)
        inner.env.update(env)
        self.depth += 1
        before = list(s.used)
        old = getattr(self, "cur", None)
        self.cur = fn
        inner_ctx = {"f": fn, "chain": ctx["chain"] + ((ctx["f"].module.name, node.lineno, node.col_offset),), "stack": ctx["stack"] | {fn}, "root": False, "live": frozenset(), "stmtreads": frozenset(),
                     "call": ctx.get("call") or (ctx["f"], node)}
        outs = []
        argshold = set()
        for v in list(pos) + list(kw.values()):
            if v[0] == "coll":
                argshold |= v[3]
            elif v[0] == "domain":
                argshold |= v[1]
        for k, s2, v in self.block(fn.node.body, [inner], inner_ctx):
            if k == "raise":
                continue
            if v is None:
                v = NONE
            tmp = dict(s2.env)
            env2 = {n[len(pre):]: x for n, x in tmp.items() if n.startswith(pre)}
            if v[0] == "domain":
                changed = {d for d in DIMS if s2.used[d] != before[d]}
                # an operation on domains returns everything it was given or created
                given = any(x[0] in ("domain", "param") for x in list(pos) + list(kw.values()))
                v = ("domain", frozenset(DIMS if given and fn.node.name != "create_domain" else
                                         changed | argshold | set(v[1])))
            r = St(dict(env2, **{"$ret": v}), s2.rows, s2.used, s2.heap, s2.attrs)
            outs.append(r)
        self.depth -= 1
        self.cur = old
        res = []
        for st in self.merge(outs).values():
            st = st.copy()
            v = st.env.pop("$ret")
            res.append((v, st))
        return res

    def annotated(self, fn, ann, st):
        if ann is None:
            return None
        t = self.target(fn.module, ann) if isinstance(ann, (ast.Name, ast.Attribute)) else None
        if isinstance(t, ClassInfo) and t in self.dim:
            o = "o%d" % next(self.fresh)
            st.heap[o] = (self.dim[t], None, False, True)
            return ("ref", o)
        return None

    # ---- conditions ---------------------------------------------------
    def cond(self, node, st, ctx):
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, not tr) for s, tr in self.cond(node.operand, st, ctx)]
        if isinstance(node, ast.BoolOp):
            res, live = [], [st]
            stop = isinstance(node.op, ast.Or)
            for i, v in enumerate(node.values):
                nxt = []
                for s in live:
                    for s2, tr in self.cond(v, s, ctx):
                        if tr == stop:
                            res.append((s2, stop))
                        else:
                            nxt.append(s2)
                live = nxt
            return res + [(s, not stop) for s in live]
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            op, l, r = node.ops[0], node.left, node.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and r.value is None:
                out = []
                for v, s in self.ev(l, st, ctx):
                    yes = isinstance(op, ast.Is)
                    if v == NONE:
                        out.append((s, yes))
                    elif v[0] in ("coll", "tuple", "int", "domain", "list") or \
                            (v[0] == "ref" and s.heap.get(v[1]) != (None, None, False, True)):
                        out.append((s, not yes))
                    else:
                        out += [(s, True), (s.copy(), False)]
                return out
            sub = None
            if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "len" and l.args:
                sub = l.args[0]
            elif isinstance(l, ast.Attribute) and l.attr == "size":
                sub = l.value
            if sub is not None and isinstance(r, ast.Constant) and r.value in (0, 1):
                pos = None     # truth when non-empty
                if r.value == 0 and isinstance(op, (ast.Gt, ast.NotEq)):
                    pos = True
                elif r.value == 0 and isinstance(op, (ast.Eq, ast.LtE)):
                    pos = False
                elif r.value == 1 and isinstance(op, ast.GtE):
                    pos = True
                elif r.value == 1 and isinstance(op, ast.Lt):
                    pos = False
                if pos is not None:
                    return self.nonempty(sub, pos, st, ctx)
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "len" and node.args:
            return self.nonempty(node.args[0], True, st, ctx)
        if isinstance(node, ast.Name) and node.id in st.env and st.env[node.id][0] in ("coll", "tuple", "list"):
            return self.nonempty(node, True, st, ctx)
        if isinstance(node, ast.Constant):
            return [(st, bool(node.value))]
        out = []
        for v, s in self.ev(node, st, ctx):
            out += [(s, True), (s.copy(), False)]
        return out

    def nonempty(self, sub, pos, st, ctx):
        out = []
        for v, s in self.ev(sub, st, ctx):
            e = self.empty(v)
            if e is not None:
                out.append((s, pos if not e else not pos))
                continue
            for ne in (True, False):
                s2 = s.copy()
                if isinstance(sub, ast.Name) and v[0] in ("coll", "list"):
                    s2.env[sub.id] = v[:2] + (not ne,) + v[3:]
                out.append((s2, pos if ne else not pos))
        return out

    # ---- statements ---------------------------------------------------
    def block(self, stmts, states, ctx, names=None):
        """list of (kind, state, value); kind next/break/continue/return/raise"""
        if time.monotonic() > self.deadline:
            raise OutOfTime
        live, done = states, []
        after = ctx.get("live", frozenset())
        lives = []
        for stt in reversed(stmts):
            lives.append(after)
            after = self.before(stt, after, ctx.get("jump", (frozenset(), frozenset())))
        lives.reverse()
        for stt, lv in zip(stmts, lives):
            nxt = []
            c2 = dict(ctx, live=lv, stmtreads=self.reads(stt))
            for s in live:
                for k, s2, v in self.stmt(stt, s, c2):
                    if k == "next":
                        nxt.append(self.prune(s2, lv))
                    else:
                        done.append((k, s2, v))
            live = list(self.merge(nxt).values()) if len(nxt) > 1 else nxt
        return done + [("next", s, None) for s in live]

    def before(self, stt, after, jump):
        """variables live before a statement; jump: those live at (break, continue)"""
        if isinstance(stt, ast.Break):
            return jump[0]
        if isinstance(stt, ast.Continue):
            return jump[1]
        if isinstance(stt, (ast.Return, ast.Raise)):
            return self.reads(stt)
        if isinstance(stt, ast.Assign) and all(isinstance(t, ast.Name) or (isinstance(t, ast.Tuple) and all(
                isinstance(e, ast.Name) for e in t.elts)) for t in stt.targets):
            kill = {n.id for t in stt.targets for n in ast.walk(t) if isinstance(n, ast.Name)}
            return (after - kill) | self.reads(stt.value)
        if isinstance(stt, ast.If):
            out = self.reads(stt.test)
            for body in (stt.body, stt.orelse):
                a = after
                for b in reversed(body):
                    a = self.before(b, a, jump)
                out = out | a
            return out
        if isinstance(stt, (ast.For, ast.While)):
            head = after if not stt.orelse else after | frozenset().union(*[self.reads(b) for b in stt.orelse])
            test = self.reads(stt.iter) if isinstance(stt, ast.For) else self.reads(stt.test)
            kill = {n.id for n in ast.walk(stt.target) if isinstance(n, ast.Name)} if isinstance(stt, ast.For) else set()
            head = head | test
            while True:
                a = head
                for b in reversed(stt.body):
                    a = self.before(b, a, (after, head))
                new = head | (a - kill)
                if new == head:
                    return head
                head = new
        return after | self.reads(stt)

    def prune(self, st, live):
        dead = [n for n in st.env if n not in live and n[0] != "$" and "|" not in n]
        if dead:
            st = st.copy()
            for n in dead:
                del st.env[n]
        keep, stack = set(), [v for v in st.env.values()]
        while stack:
            v = stack.pop()
            if v[0] == "ref" and v[1] not in keep:
                keep.add(v[1])
            elif v[0] in ("tuple", "zip"):
                stack.extend(v[1])
            elif v[0] == "list" and v[1] is not None:
                stack.append(v[1])
            elif v[0] == "part":
                stack.extend(v[2])
                stack.extend(x for _, x in v[3])
        st.heap = {o: c for o, c in st.heap.items() if o in keep}
        st.attrs = {k: v for k, v in st.attrs.items() if k[0] in keep}
        groups = {"C"} | {st.used[d][0] for d in DIMS}
        stack = list(st.env.values()) + list(st.attrs.values()) + [c[1] for c in st.heap.values() if c[1]]
        while stack:
            v = stack.pop()
            if v[0] == "int":
                groups.add(v[1])
            elif v[0] == "param":
                groups.add(v[1])
            elif v[0] in ("tuple", "zip"):
                stack.extend(v[1])
            elif v[0] == "list" and v[1] is not None:
                stack.append(v[1])
            elif v[0] == "coll":
                stack.extend(a[1] for a in v[1] if a[0] != "none" and a[1])
            elif v[0] == "part":
                stack.extend(v[2])
                stack.extend(x for _, x in v[3])
        st.rows = {g: r for g, r in st.rows.items() if g in groups}
        return st

    def stmt(self, node, st, ctx):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            return [("next", st, None)]
        if isinstance(node, ast.Return):
            if node.value is None:
                return [("return", st, NONE)]
            out = []
            for v, s in self.ev(node.value, st, ctx):
                s = s.copy()
                if ctx.get("root"):
                    self.use_value(s, v, node, ctx)
                    if self.has_place(s, v):
                        self.judge(False, False, 0, node, ctx)
                elif v[0] != "ref" and v[0] not in ("int", "unk", "none"):
                    self.use_value(s, v, node, ctx)
                out.append(("return", s, v))
            return out
        if isinstance(node, ast.Raise):
            return [("raise", st, None)]
        if isinstance(node, ast.Break):
            return [("break", st, None)]
        if isinstance(node, ast.Continue):
            return [("continue", st, None)]
        if isinstance(node, ast.Expr):
            return [("next", s, None) for _, s in self.ev(node.value, st, ctx)]
        if isinstance(node, (ast.Assign, ast.AnnAssign)):
            if node.value is None:
                return [("next", st, None)]
            targets = node.targets if isinstance(node, ast.Assign) else [node.target]
            out = []
            for v, s in self.ev(node.value, st, ctx):
                s = s.copy()
                for t in targets:
                    self.assign(t, v, s, node, ctx)
                out.append(("next", s, None))
            return out
        if isinstance(node, ast.AugAssign):
            b = ast.BinOp(left=self.load(node.target), op=node.op, right=node.value)
            ast.copy_location(b, node)
            ast.fix_missing_locations(b)
            out = []
            for v, s in self.ev(b, st, ctx):
                s = s.copy()
                self.assign(node.target, v, s, node, ctx)
                out.append(("next", s, None))
            return out
        if isinstance(node, (ast.For, ast.While)):
            names = self.skippable(node, st, ctx["f"])
            if names is not None:
                st = st.copy()
                for n in names:
                    st.env[n] = UNK
                return [("next", st, None)]
        if isinstance(node, ast.If):
            out = []
            for s, tr in self.cond(node.test, st, ctx):
                out += self.block(node.body if tr else node.orelse, [s], ctx)
            return out
        if isinstance(node, (ast.For, ast.While)):
            return self.loop(node, st, ctx)
        if isinstance(node, ast.With):
            return self.block(node.body, [st], ctx)
        if isinstance(node, ast.Try):
            out = self.block(node.body, [st], ctx)
            for h in node.handlers:
                out += self.block(h.body, [st.copy()], ctx)
            return out
        return [("next", st, None)]

    def load(self, t):
        import copy
        t = copy.deepcopy(t)
        for n in ast.walk(t):
            if hasattr(n, "ctx"):
                n.ctx = ast.Load()
        return t

    def assign(self, t, v, st, node, ctx):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v[0] == "tuple" and len(v[1]) == len(t.elts):
                for x, y in zip(t.elts, v[1]):
                    self.assign(x, y, st, node, ctx)
            elif v[0] == "coll":
                for x in t.elts:
                    alts = sorted(v[1], key=repr)
                    if len(alts) == 1 and alts[0][0] != "none":
                        o = "o%d" % next(self.fresh)
                        st.heap[o] = alts[0]
                        self.assign(x, ("ref", o), st, node, ctx)
                    else:
                        self.assign(x, UNK, st, node, ctx)
            else:
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, UNK, st, node, ctx)
        elif isinstance(t, ast.Attribute):
            for recv, s in self.ev(t.value, st, ctx)[:1]:
                if t.attr in ("tag", "_tag"):
                    dim = None
                    if recv[0] == "ref":
                        c = st.heap.get(recv[1])
                        dim = c[0] if c else None
                    iv = v if v == PLACE else (self.as_int(v, st) or self.unknown_int(st))
                    self.sites.add((ctx["f"].module.name, node.lineno, node.col_offset))
                    if iv != PLACE:
                        self.commit(st, dim, iv, node, ctx)
                    if recv[0] == "ref":
                        st.heap[recv[1]] = (dim, iv, True, iv != PLACE)
                elif t.attr in ("boundary_shapes", "immersed_shapes"):
                    self.use_value(st, v, node, ctx)
                    if recv[0] == "ref" and v[0] in ("coll", "tuple"):
                        if v[0] == "tuple":
                            v = ("coll", frozenset(self.alts(v, st)), len(v[1]) == 0, frozenset(self.tuple_hold(v, st)))
                        st.attrs[(recv[1], t.attr)] = v
        elif isinstance(t, ast.Subscript):
            # storing into a table or a domain keeps the shape
            hold = self.use_value(st, v, node, ctx)
            b = t.value
            if isinstance(b, ast.Attribute) and b.attr == "shapes":
                self.update_recv(b.value, st, lambda r: ("domain", r[1] | frozenset(hold)) if r[0] == "domain" else r)

    def loop(self, node, st, ctx):
        after = ctx.get("live", frozenset())
        head = self.before(node, after, ctx.get("jump", (frozenset(), frozenset())))
        ctx = dict(ctx, live=head, jump=(after, head))
        names = set(st.env)
        counters = []
        states = [st]
        if isinstance(node, ast.For):
            it = node.iter
            iters, idx_targets, elem_targets = [], [], []
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("enumerate", "range"):
                if it.func.id == "enumerate" and isinstance(node.target, ast.Tuple) and len(node.target.elts) == 2:
                    start = it.args[1] if len(it.args) > 1 else next((k.value for k in it.keywords if k.arg == "start"), ast.Constant(0))
                    idx, elem, src = node.target.elts[0], node.target.elts[1], it.args[0]
                elif it.func.id == "range" and len(it.args) < 3:
                    start = it.args[0] if len(it.args) == 2 else ast.Constant(0)
                    idx, elem, src = node.target, None, None
                else:
                    start = idx = None
                    elem, src = node.target, it
            else:
                start = idx = None
                elem, src = node.target, it
            pre = []
            for s in states:
                rs = [(None, s)] if start is None else self.ev(start, s, ctx)
                for sv, s2 in rs:
                    for xv, s3 in ([(UNK, s2)] if src is None else self.iterval(src, s2, ctx)):
                        s3 = s3.copy()
                        cn = None
                        if idx is not None and isinstance(idx, ast.Name):
                            cn = "$i%d:%d" % (id(node), self.depth)
                            s3.env[cn] = self.as_int(sv, s3) or self.unknown_int(s3)
                            for o in self.sums(node.body, idx.id):
                                if o in s3.env and self.as_int(s3.env[o], s3) and s3.env[cn][1] == "C":
                                    b = self.as_int(s3.env[o], s3)
                                    s3.env["$sum:%s:%s" % (idx.id, o)] = ("int", b[1], b[2] + s3.env[cn][2])
                        pre.append((cn, xv, s3))
            outs = []
            for cn, xv, s in pre:
                outs += self.run_loop(node, s, ctx, cn, idx, elem, xv)
            return outs
        return self.run_loop(node, st, ctx, None, None, None, None)

    def sums(self, body, i):
        out = set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add) and isinstance(n.left, ast.Name) and isinstance(n.right, ast.Name):
                    if n.left.id == i:
                        out.add(n.right.id)
                    elif n.right.id == i:
                        out.add(n.left.id)
        return out

    def iterval(self, src, st, ctx):
        if isinstance(src, ast.Call) and isinstance(src.func, ast.Name) and src.func.id == "zip":
            return [(("zip", vs), s) for vs, s in self.evs(src.args, st, ctx)]
        return self.ev(src, st, ctx)

    def run_loop(self, node, st, ctx, cn, idx, elem, xv):
        exits, done = [], []
        head = {self.key(st): st}
        seen = {}
        skip_zero = xv is not None and self.empty(xv) is False
        first = True
        for it in range(10):
            back = []
            work = [(k, s) for k, s in head.items() if seen.get(k) != self.canon(s)]
            if not work:
                break
            for k, s in work:
                seen[k] = self.canon(s)
                if isinstance(node, ast.While):
                    bodies = []
                    for s2, tr in self.cond(node.test, s.copy(), ctx):
                        if tr:
                            bodies.append(s2)
                        else:
                            exits.append(s2)
                else:
                    if not (first and skip_zero):
                        exits.append(s)
                    bodies = []
                    cur = xv
                    if xv is not None and xv[0] == "zip":
                        opts = [((), s)]
                        for z in xv[1]:
                            opts = [(vs + (e,), s3) for vs, s2 in opts for e, s3 in (self.elements(z, s2) or [])]
                        opts = [(("tuple", vs), s2) for vs, s2 in opts]
                    else:
                        if isinstance(node.iter, ast.Name) and node.iter.id in s.env and xv is not None and xv[0] in ("list", "coll"):
                            cur = s.env[node.iter.id] if s.env[node.iter.id][0] == xv[0] else xv
                        opts = self.elements(cur, s) if cur is not None else [(UNK, s)]
                    for e, s2 in opts:
                        s2 = s2.copy()
                        if cn is not None:
                            self.assign(idx, s2.env[cn], s2, node, ctx)
                        if elem is not None:
                            self.assign(elem, e, s2, node, ctx)
                        bodies.append(s2)
                first = False
                for b in bodies:
                    for kd, s2, v in self.block(node.body, [b], ctx):
                        if kd in ("next", "continue"):
                            if cn is not None:
                                s2 = s2.copy()
                                c = s2.env[cn]
                                s2.env[cn] = ("int", c[1], c[2] + 1)
                                for n in list(s2.env):
                                    if n.startswith("$sum:%s:" % idx.id):
                                        s2.env[n] = ("int", s2.env[n][1], s2.env[n][2] + 1)
                            back.append(s2)
                        elif kd == "break":
                            exits.append(s2)
                        else:
                            done.append((kd, s2, v))
            new = {}
            for s in back:
                k = self.key(s)
                new[k] = self.join(new[k], s) if k in new else s
            for k, s in new.items():
                head[k] = self.join(head[k], s, widen=it >= 3) if k in head else s
            if len(head) > 32:
                break
        else:
            self.undec[(ctx["f"].id, node.lineno)] = "loop did not converge"
        # keep the loop's final states only (earlier exits are subsumed)
        if not isinstance(node, ast.While):
            exits = [e for e in exits if False] + [s for k, s in head.items() if not (skip_zero and s is st)] + \
                    [e for e in exits if self.key(e) not in head]
        out = []
        for s in exits:
            s = s.copy()
            if cn is not None:
                s.env.pop(cn, None)
                for n in list(s.env):
                    if n.startswith("$sum:%s:" % idx.id):
                        s.env.pop(n)
            if node.orelse:
                out += self.block(node.orelse, [s], ctx)
            else:
                out.append(("next", s, None))
        return out + done

    # ---- roots --------------------------------------------------------
    def root(self, f):
        st = St({}, {}, [None] * 4, {}, {})
        a = f.node.args
        params = a.posonlyargs + a.args + a.kwonlyargs
        dflt = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
        counted = False
        for d in DIMS:
            g = "S%d" % d
            st.used[d] = (g, 0, frozenset())
            st.rows[g] = tuple((0, 0, False) if k == d else BAND for k in DIMS) + (BAND,)
        for x in params:
            dv = dflt.get(x.arg)
            isint = (isinstance(x.annotation, ast.Name) and x.annotation.id == "int") or \
                (isinstance(dv, ast.Constant) and isinstance(dv.value, int) and not isinstance(dv.value, bool)) or \
                (isinstance(dv, ast.UnaryOp)) or (isinstance(dv, ast.Attribute) and dv.attr == "min")
            v = self.annotated(f, x.annotation, st)
            if v is not None:
                st.env[x.arg] = v
                continue
            g = self.newgroup(st, [(1, INF, False)] * 4 + [BAND])
            if isint:
                counted = True
                st.env[x.arg] = ("int", g, 0)
            else:
                st.env[x.arg] = ("param", g)
        st.rows["C"] = tuple([BAND if counted else (1, INF, False)] * 4) + ((0, 0, False),)
        self.cur = f
        ctx = {"f": f, "chain": (), "stack": frozenset([f]), "root": True}
        for k, s, v in self.block(f.node.body, [st], ctx):
            pass


def conj(program, res):
    """equality of shapes: evaluate __eq__ for every combination of agreeing and differing components"""
    ATOMS = {"Shape": ["dimension", "tag", "nb", "ni", "b", "i"], "Vertex": ["dimension", "tag", "point"]}
    names = {"nb": "number of boundary shapes", "ni": "number of immersed shapes", "b": "boundary shapes", "i": "immersed shapes"}
    cls = {}
    for m in program.modules.values():
        for c in m.classes.values():
            cls.setdefault(c.name, c)
    if "Shape" not in cls:
        raise AnchorMissing("class Shape")
    shapes = [c for c in cls.values() if "Shape" in [b.name for b in program.mro(c)]]
    for c in shapes:
        if "__eq__" not in c.methods:
            continue
        eq = c.methods["__eq__"]
        atoms = ATOMS.get(c.name, ATOMS["Shape"])
        if c.name == "Vertex":
            pass
        for vals in itertools.product([True, False], repeat=len(atoms)):
            w = dict(zip(atoms, vals))
            # consistency: different sizes mean different sequences
            if "nb" in w and ((not w["nb"] and w["b"]) or (not w["ni"] and w["i"])):
                continue
            want = all(vals)
            for sizes in ([(0, 0), (1, 1), (0, 1), (1, 0)] if "nb" in w else [(0, 0)]):
                if "nb" in w and ((sizes[0] == 0 and w["nb"] and not w["b"]) or (sizes[1] == 0 and w["ni"] and not w["i"])):
                    continue
                try:
                    got = Eq(program, eq, w, sizes, cls).run()
                except NotImplementedError as e:
                    res.unknown("equality", c.name + ".__eq__", str(e))
                    break
                differing = ", ".join(names.get(k, k) for k in atoms if not w[k])
                if got is None:
                    res.unknown("equality", c.name + ".__eq__", "result not determined when %s" % (differing or "all components agree"))
                elif got == want:
                    res.ok("equality", "%s.__eq__ is %s when %s" % (c.name, want, (differing + " differ") if differing else "all components agree"))
                else:
                    res.bad("equality", "%s.__eq__" % c.name,
                            "two shapes %s compare %s" % ("that differ in " + differing if differing else "that agree in every component",
                                                          "equal" if got else "different"), loc(eq.module, eq.node))
                    return_early = True
        ne = program.lookup_method(c, "__ne__")
        if ne is not None:
            ok = None
            body = [b for b in ne.node.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
            if len(body) == 1 and isinstance(body[0], ast.Return):
                e = body[0].value
                txt = ast.unparse(e).replace(" ", "")
                p = [x.arg for x in ne.node.args.args]
                if txt in ("not%s.__eq__(%s)" % tuple(p), "not%s==%s" % tuple(p), "not(%s==%s)" % tuple(p)):
                    ok = True
                elif isinstance(e, ast.Call) or isinstance(e, ast.Compare):
                    ok = None if not txt in ("%s.__eq__(%s)" % tuple(p), "%s==%s" % tuple(p)) else False
            if ok:
                res.ok("equality.ne", c.name)
            elif ok is False:
                res.bad("equality.ne", c.name + ".__ne__", "inequality is not the negation of equality", loc(ne.module, ne.node))
            else:
                res.unknown("equality.ne", c.name + ".__ne__", "not recognised")


class Ret(Exception):
    pass


class Eq:
    """three-valued evaluation of an __eq__ method under an assignment of its component comparisons"""

    def __init__(self, program, f, w, sizes, cls, selfname=None):
        self.p, self.f, self.w, self.sizes, self.cls = program, f, w, sizes, cls
        self.env = {}
        a = [x.arg for x in f.node.args.args]
        self.s, self.o = a[0], a[1]

    def run(self):
        try:
            self.block(self.f.node.body)
        except Ret as r:
            return r.args[0]
        return None

    def block(self, b):
        for n in b:
            self.stmt(n)

    def stmt(self, n):
        if isinstance(n, ast.Return):
            v = self.ev(n.value)
            raise Ret(v if v in (True, False, None) and not isinstance(v, int) or isinstance(v, bool) else None)
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            self.env[n.targets[0].id] = self.ev(n.value)
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Tuple):
            v = self.ev(n.value)
            if not isinstance(v, tuple) or len(v) != len(n.targets[0].elts):
                raise NotImplementedError("assignment " + ast.unparse(n)[:60])
            for t, x in zip(n.targets[0].elts, v):
                self.env[t.id] = x
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.op, ast.BitAnd):
            self.env[n.target.id] = self.conj([self.env.get(n.target.id), self.ev(n.value)])
        elif isinstance(n, ast.If):
            t = self.truth(self.ev(n.test))
            if t is None:
                raise NotImplementedError("condition " + ast.unparse(n.test)[:60])
            self.block(n.body if t else n.orelse)
        elif isinstance(n, ast.Expr) or isinstance(n, ast.Pass):
            pass
        elif isinstance(n, ast.For):
            # for a, b in zip(self.X, other.X): if a != b: return False
            key = self.pair(n.iter)
            if key is None:
                raise NotImplementedError("loop " + ast.unparse(n.iter)[:60])
            size = self.sizes[0 if key == "b" else 1]
            if size:
                self.loopval = (n.target, self.w[key])
                old = dict(self.env)
                self.env.update({t.id: ("el", i, key) for i, t in enumerate(n.target.elts)})
                self.block(n.body)
                self.env = {k: v for k, v in self.env.items()}
        else:
            raise NotImplementedError("statement " + ast.unparse(n)[:60])

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, tuple) and v and v[0] == "size":
            return v[2] != 0
        if isinstance(v, tuple) and v and v[0] == "comp":
            return self.sizes[0 if v[2] == "b" else 1] != 0
        return None

    def conj(self, vs):
        vs = [self.truth(v) for v in vs]
        if any(v is False for v in vs):
            return False
        return None if any(v is None for v in vs) else True

    COMP = {"boundary_shapes": "b", "_boundary_shapes": "b", "immersed_shapes": "i", "_immersed_shapes": "i", "dimension": "dimension",
            "_dimension": "dimension", "tag": "tag", "_tag": "tag", "point": "point", "_point": "point"}

    def side(self, v):
        return v[1] if isinstance(v, tuple) and v and v[0] in ("comp", "size", "el") else None

    def pair(self, node):
        v = self.ev(node)
        if isinstance(v, tuple) and v and v[0] == "zip":
            return v[1]
        return None

    def ev(self, n):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            if n.id == self.s:
                return ("obj", 0)
            if n.id == self.o:
                return ("obj", 1)
            return self.env.get(n.id)
        if isinstance(n, ast.Attribute):
            v = self.ev(n.value)
            if isinstance(v, tuple) and v and v[0] == "obj":
                if n.attr in self.COMP and self.COMP[n.attr] in self.w:
                    return ("comp", v[1], self.COMP[n.attr])
                return None
            if isinstance(v, tuple) and v and v[0] == "comp" and v[2] in ("b", "i") and n.attr in ("size", "shape"):
                return self.size(v)
            return None
        if isinstance(n, (ast.Tuple, ast.List)):
            return ("seq",) + tuple(self.ev(e) for e in n.elts)
        if isinstance(n, ast.BoolOp):
            vs = [self.ev(v) for v in n.values]
            if isinstance(n.op, ast.And):
                return self.conj(vs)
            ts = [self.truth(v) for v in vs]
            return True if any(t is True for t in ts) else (None if any(t is None for t in ts) else False)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitAnd):
            return self.conj([self.ev(n.left), self.ev(n.right)])
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t = self.truth(self.ev(n.operand))
            return None if t is None else not t
        if isinstance(n, ast.IfExp):
            t = self.truth(self.ev(n.test))
            if t is None:
                raise NotImplementedError("condition " + ast.unparse(n.test)[:60])
            return self.ev(n.body if t else n.orelse)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            return self.compare(n.ops[0], self.ev(n.left), self.ev(n.comparators[0]))
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            if len(n.generators) == 1 and not n.generators[0].ifs:
                g = n.generators[0]
                key = self.pair(g.iter)
                if key is not None and isinstance(g.target, ast.Tuple):
                    size = self.sizes[0 if key == "b" else 1]
                    if min(size, 1) == 0 and self.w["n" + key]:
                        return ("all", True, 0)
                    old = dict(self.env)
                    self.env.update({t.id: ("el", i, key) for i, t in enumerate(g.target.elts)})
                    v = self.truth(self.ev(n.elt))
                    self.env = old
                    return ("all", v, 1)
            return None
        if isinstance(n, ast.Call):
            return self.call(n)
        return None

    def size(self, v):
        k = 0 if v[2] == "b" else 1
        base = self.sizes[k]
        return ("size", v[1], base if v[1] == 0 or self.w["n" + v[2]] else base + 1, v[2])

    def compare(self, op, a, b):
        if a is None or b is None or not isinstance(op, (ast.Eq, ast.NotEq, ast.Gt, ast.Is, ast.IsNot, ast.Lt, ast.GtE, ast.LtE)):
            return None
        eq = None
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
            if a[0] == "seq" and b[0] == "seq" and len(a) == len(b):
                rs = [self.compare(ast.Eq(), x, y) for x, y in zip(a[1:], b[1:])]
                eq = self.conj(rs)
            elif a[0] == b[0] == "comp" and a[2] == b[2] and a[1] != b[1]:
                if a[2] in ("b", "i"):
                    return None
                eq = self.w[a[2]]
            elif a[0] == b[0] == "comp" and a[1] == b[1] and a[2] == b[2]:
                eq = True
            elif a[0] == b[0] == "size":
                x, y = a[2], b[2]
                return {ast.Eq: x == y, ast.NotEq: x != y, ast.Gt: x > y, ast.Lt: x < y, ast.GtE: x >= y, ast.LtE: x <= y}.get(type(op))
            elif a[0] == b[0] == "el" and a[2] == b[2]:
                eq = self.w[a[2]] if a[1] != b[1] else True
            elif a[0] == b[0] == "kind":
                eq = True
        elif isinstance(a, tuple) and a and a[0] == "size" and isinstance(b, int):
            x = a[2]
            return {ast.Eq: x == b, ast.NotEq: x != b, ast.Gt: x > b, ast.Lt: x < b, ast.GtE: x >= b, ast.LtE: x <= b}.get(type(op))
        elif isinstance(a, bool) and isinstance(b, bool):
            eq = a == b
        if eq is None:
            return None
        if isinstance(op, (ast.Eq, ast.Is)):
            return eq
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return not eq
        return None

    def call(self, n):
        name = n.func.attr if isinstance(n.func, ast.Attribute) else (n.func.id if isinstance(n.func, ast.Name) else "")
        args = [self.ev(a) for a in n.args]
        if name == "zip" and len(args) == 2:
            a, b = args
            if all(isinstance(x, tuple) and x and x[0] == "comp" for x in args) and a[2] == b[2] and a[1] != b[1]:
                return ("zip", a[2])
            return None
        if name == "len" and len(args) == 1 and isinstance(args[0], tuple) and args[0] and args[0][0] == "comp" and args[0][2] in ("b", "i"):
            return self.size(args[0])
        if name in ("all", "any") and len(args) == 1:
            v = args[0]
            if isinstance(v, tuple) and v and v[0] == "all":
                return (name == "all") if v[2] == 0 else v[1]
            if isinstance(v, bool) or v is None:
                return v
            if isinstance(v, tuple) and v and v[0] == "seq":
                return self.conj(v[1:]) if name == "all" else None
            return None
        if name in ("array", "list", "tuple", "bool", "asarray", "bool_") and len(args) == 1:
            return args[0]
        if name in ("isclose", "allclose", "array_equal") and len(args) >= 2:
            a, b = args[:2]
            if all(isinstance(x, tuple) and x and x[0] == "comp" for x in (a, b)) and a[2] == b[2] and a[1] != b[1]:
                if a[2] in ("b", "i"):
                    return self.conj([self.w["n" + a[2]], self.w[a[2]]])
                return self.w[a[2]]
            return None
        if name == "type":
            return ("kind",)
        if name in ("isinstance",):
            return True
        if name == "hash" and isinstance(n.func, ast.Attribute) and isinstance(self.ev(n.func.value), tuple):
            o = self.ev(n.func.value)
            return ("seq", ("comp", o[1], "dimension"), ("comp", o[1], "tag"))
        if name == "index" and isinstance(n.func, ast.Attribute) and isinstance(self.ev(n.func.value), tuple):
            o = self.ev(n.func.value)
            return ("seq", ("comp", o[1], "dimension"), ("comp", o[1], "tag"))
        if name == "__eq__" and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and \
                isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super":
            base = self.p.mro(self.f.cls)[1]
            m = self.p.lookup_method(base, "__eq__")
            w = dict(self.w)
            for k in ("nb", "ni", "b", "i"):
                w.setdefault(k, True)
            return Eq(self.p, m, w, (0, 0), self.cls).run()
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == self.s and self.f.cls is not None:
            m = self.p.lookup_method(self.f.cls, name)
            if m is not None and len(m.node.args.args) == 2 and len(n.args) == 1 and self.ev(n.args[0]) == ("obj", 1):
                e = Eq(self.p, m, self.w, self.sizes, self.cls)
                return e.run()
        return None


def hash_keys(program, res):
    """distinct shapes may share a hash: containers of shapes are keyed by (dimension, tag)"""
    for f in program.functions():
        if not f.module.name.startswith("topology"):
            continue
        for n in ast.walk(f.node):
            key = None
            if isinstance(n, ast.Subscript):
                key = n.slice
            elif isinstance(n, ast.Dict):
                for k in n.keys:
                    if isinstance(k, ast.Call) and isinstance(k.func, ast.Attribute) and k.func.attr == "hash":
                        key = k
            elif isinstance(n, ast.DictComp):
                key = n.key
            if key is None:
                continue
            if isinstance(key, ast.Call) and ((isinstance(key.func, ast.Attribute) and key.func.attr in ("hash", "__hash__")) or
                                              (isinstance(key.func, ast.Name) and key.func.id == "hash")):
                res.bad("identity", f.id, "a container of shapes is keyed by a hash, which distinct shapes may share", loc(f.module, n))
            elif isinstance(key, ast.Call) and isinstance(key.func, ast.Attribute) and key.func.attr == "index":
                res.ok("identity", "%s: %s" % (f.id, ast.unparse(key)))
            elif isinstance(key, ast.Tuple) and "tag" in ast.unparse(key):
                res.ok("identity", "%s: %s" % (f.id, ast.unparse(key)))
    shape = program.find_class("Shape")
    for name in ("index", "hash"):
        m = shape.methods.get(name)
        if m is None:
            continue
        rets = [n for n in ast.walk(m.node) if isinstance(n, ast.Return)]
        attrs = {a.attr.lstrip("_") for r in rets for a in ast.walk(r) if isinstance(a, ast.Attribute)}
        if {"dimension", "tag"} <= attrs:
            res.ok("identity", "Shape.%s from dimension and tag" % name)
        elif len(rets) == 1 and isinstance(rets[0].value, (ast.Tuple, ast.Call)) and not any(
                isinstance(x, ast.Name) and x.id not in ("self", "hash", "max_dimension") for x in ast.walk(rets[0])):
            res.bad("identity", "Shape." + name, "the identity of a shape does not contain its dimension and tag", loc(m.module, m.node))
        else:
            res.unknown("identity", "Shape." + name, "not recognised")


def run(program, res, tier="quick"):
    t = Tags(program, res)
    if len(t.scope) < 10:
        raise AnchorMissing("operations that create shapes")
    each, end = (150, time.monotonic() + 450) if tier == "quick" else (500, time.monotonic() + 750)
    roots = [f for f in t.scope if f.cls is None or f.node.name == "retag_shapes_with_dimension"]
    for f in sorted(roots, key=lambda f: f.id):
        before = len(t.undec)
        t.depth = 0
        t.reported = {}
        t.deadline = min(time.monotonic() + each, end)
        try:
            t.root(f)
        except OutOfTime:
            t.undec[(f.id, 0)] = "not decided within the time limit"
        except RecursionError:
            t.undec[(f.id, 0)] = "too deep"
        for (mod, line, col, d, chain), (verdict, node, ctx, dim) in sorted(t.reported.items(), key=lambda kv: (kv[0][0], kv[0][1], kv[0][2], str(kv[0][3]), kv[0][4])):
            g = ctx["f"]
            where, wnode = (g, node) if not ctx.get("call") else ctx["call"]
            what = "%s: %s" % (f.id, ast.unparse(node)[:70].split("\n")[0])
            kind = {0: "vertex", 1: "edge or wire", 2: "face or shell", 3: "solid"}[dim]
            if verdict == "ok":
                res.ok("tag.fresh", what)
            elif verdict == "unknown":
                res.unknown("tag.fresh", "%s|%s" % (f.id, g.node.name), "the tag of a %s at line %d could not be related to the tags used" % (kind, line))
            else:
                res.bad("tag.fresh", "%s|%s" % (f.id, g.node.name),
                        "a %s created or returned here may carry a tag that is already in use (%s)" % (kind, ast.unparse(node)[:80].split("\n")[0]),
                        loc(where.module, wnode))
    for k, why in t.undec.items():
        res.unknown("tag.fresh", k[0], why)
    res.info["operations"] = len(roots)
    res.info["creation sites"] = len(t.sites)
    conj(program, res)
    hash_keys(program, res)
