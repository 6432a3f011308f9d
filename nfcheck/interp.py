"""Value-flow analysis of integrand code.

One pass over a function body computes for every expression its value number
over abstract arrays (absarr).  Calls into repository helpers are followed
(inlined), calls to the library's element API are replaced by their contracts,
data-dependent branches are joined with gate atoms, loops over quadrature points
and elements are summarised (accumulate / overwrite) from one symbolic pass.
Anything outside the understood vocabulary becomes an unknown value, which is
never reported as a violation."""
import ast
import copy
from fractions import Fraction

from .core import FuncInfo, ClassInfo, loc
from .poly import Poly, ZERO, ONE, topp, lift, fresh_var, atom as atom_of, atom_id, is_identically_zero
from . import absarr as AA
from .absarr import (Array, C, Q, D, QIdx, FacetDofs, Unsupported, Mismatch, NQ, SUM, as_array, simplify,
                     to_int, nphi)


class Top:
    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "Top(%s)" % self.why


class Obj:
    """abstract library object"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.a = kw

    def __getattr__(self, n):
        try:
            return self.__dict__["a"][n]
        except KeyError:
            raise AttributeError(n)

    def __deepcopy__(self, memo):
        return self

    def same(self, o):
        return isinstance(o, Obj) and o.kind == self.kind and o.a == self.a

    def __eq__(self, o):
        return self.same(o)

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return "%s%r" % (self.kind, self.a)


class CoefFn:
    def __init__(self, key):
        self.key = key

    def __deepcopy__(self, m):
        return self


class Coef:
    """value of a coefficient function; idx entries are ints or ('o',k) open axes.
    vec: the last axis is the point axis."""

    def __init__(self, key, tag, vec, idx=(), order=(), scale=None):
        self.key, self.tag, self.vec, self.idx, self.order = key, tag, vec, tuple(idx), tuple(order)
        self.scale = scale

    def __deepcopy__(self, m):
        return self

    def at(self, idx):
        a = Poly.a(("coef", self.key, self.tag, tuple(idx)))
        return a if self.scale is None else self.scale * a

    def scaled(self, s):
        return Coef(self.key, self.tag, self.vec, self.idx, self.order,
                    s if self.scale is None else self.scale * s)

    def is_scalar(self):
        return self.key in SCALARS and not self.idx and not self.order


class Der:
    def __init__(self, arr, mat=False, tr=False):
        self.arr, self.mat, self.tr = arr, mat, tr


class SymSeq:
    """sequence over a symbolic range with generic element"""

    def __init__(self, dom, elem):
        self.dom, self.elem = dom, elem


class Dom:
    """iteration domain: kind 'q', 'd' (field f, var v) or 'el' (elements of a space)"""

    def __init__(self, kind, f=None, v=None, space=None, sel=None):
        self.kind, self.f, self.v, self.space, self.sel = kind, f, v, space, sel


class Closure:
    def __init__(self, node, env, module, cls=None):
        self.node, self.env, self.module, self.cls = node, env, module, cls

    def __deepcopy__(self, m):
        return self


class Bound:
    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __deepcopy__(self, m):
        return self


class NpFn:
    def __init__(self, name):
        self.name = name

    def __deepcopy__(self, m):
        return self


class Fn:
    """repository function"""

    def __init__(self, fi, self_obj=None):
        self.fi, self.self_obj = fi, self_obj

    def __deepcopy__(self, m):
        return self


class ModRef:
    def __init__(self, name):
        self.name = name

    def __deepcopy__(self, m):
        return self


class ClsRef:
    def __init__(self, ci):
        self.ci = ci

    def __deepcopy__(self, m):
        return self


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Cmp:
    """undecided condition; truth(sample) evaluates it"""

    def __init__(self, op, l, r):
        self.op, self.l, self.r = op, l, r

    def coefs(self):
        return cond_atoms(self.l) | cond_atoms(self.r)

    def truth(self, env):
        a, b = peval(self.l, env), peval(self.r, env)
        if self.op == "close":
            return abs(a - b) <= 1e-8 + 1e-5 * abs(b)
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[self.op]


class BoolC:
    def __init__(self, op, parts):
        self.op, self.parts = op, parts

    def coefs(self):
        s = set()
        for p in self.parts:
            if not isinstance(p, bool):
                s |= p.coefs()
        return s

    def truth(self, env):
        vs = [p if isinstance(p, bool) else p.truth(env) for p in self.parts]
        if self.op == "not":
            return not vs[0]
        return all(vs) if self.op == "and" else any(vs)


def cond_atoms(p):
    return p.atoms()


def peval(p, env):
    s = 0.0
    for m, c in p.t.items():
        v = float(c)
        for i, e in m:
            if i not in env:
                raise Unsupported("condition")
            v *= env[i] ** float(e)
        s += v
    return s


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class ContinueEx(Exception):
    pass


class BreakEx(Exception):
    pass


class RaiseEx(Exception):
    pass


NPMOD = {"numpy"}
# coefficient functions whose value is one number (the others may carry components)
SCALARS = {"kappa", "porosity", "d_phi", "lambda", "mu", "gamma", "lambda_s", "mu_s", "kappa_s",
           "lambda_o", "mu_o", "kappa_o", "l", "gamma_o", "delta", "alpha", "rho"}


class Interp:
    MAXDEPTH = 12

    def __init__(self, program, inst):
        """inst: dict with dim, tag ('E'|'B'), fields {name:(family,k)} in order, celldim"""
        self.p = program
        self.inst = inst
        self.events = []          # (kind, message, module, node)
        self.unsup = []
        self.depth = 0
        self.loopstack = []
        self.coefs_used = set()
        self.facts = []           # (kind, text): evaluated element calls
        self.ad_state = None
        self.n_stmts = 0

    # -- events -----------------------------------------------------------
    def event(self, kind, msg, node=None):
        m = self.mod
        w = loc(m, node) if node is not None else ""
        self.events.append((kind, msg, w))

    def top(self, why, node=None):
        w = "%s %s" % (why, loc(self.mod, node) if node is not None else "")
        self.unsup.append(w)
        return Top(w)

    # -- functions -----------------------------------------------------------
    def run_method(self, fi, self_obj, args, kwargs=None):
        return self.call_fn(fi.node, fi.module, fi.cls, [self_obj] + list(args) if not fi.is_static() else list(args),
                            kwargs or {}, None)

    def call_fn(self, node, module, cls, args, kwargs, closure_env):
        if self.depth > self.MAXDEPTH:
            raise Unsupported("recursion")
        env = Env(closure_env)
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and not a.vararg:
            raise Unsupported("too many arguments for %s" % getattr(node, "name", "lambda"))
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names):])
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                env[k] = v
            else:
                extra[k] = v
        if extra and not a.kwarg:
            raise Unsupported("unexpected keyword %s" % list(extra))
        if a.kwarg:
            env[a.kwarg.arg] = extra
        saved = getattr(self, "mod", None), getattr(self, "cls", None)
        self.mod, self.cls = module, cls
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for n, dn in list(defaults.items()):
            if n not in env.own:
                env[n] = self.expr(dn, env)
        for n, dn in zip(kwonly, a.kw_defaults):
            if n not in env.own and dn is not None:
                env[n] = self.expr(dn, env)
        for n in names:
            if n not in env.own:
                raise Unsupported("missing argument %s" % n)
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.expr(node.body, env)
            try:
                self.block(node.body, env)
                return None
            except ReturnEx as r:
                return r.v
        finally:
            self.depth -= 1
            self.mod, self.cls = saved

    # -- statements ---------------------------------------------------------
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        self.n_stmts += 1
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            self.havoc(st, env, "statement %s" % type(st).__name__)
            return
        try:
            m(st, env)
        except Mismatch as e:
            self.event(e.kind, str(e), st)
            self.havoc(st, env, str(e))
        except Unsupported as e:
            self.havoc(st, env, str(e))

    def havoc(self, st, env, why):
        """the statement was not understood: everything it may write becomes unknown"""
        self.unsup.append("%s %s" % (why, loc(self.mod, st)))
        if any(isinstance(x, ast.Return) for x in ast.walk(st)):
            raise ReturnEx(Top(why))
        called = any(isinstance(x, ast.Call) for x in ast.walk(st))
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in env and called:
                v = env[n.id]
                if isinstance(v, Array) and v.role is None:
                    self.poison(v, why)
        for n in self.assigned_names(st):
            v = env[n] if n in env else None
            if isinstance(v, Array):
                self.poison(v, why)
            env[n] = v if isinstance(v, Array) and v.axes else Top(why)

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.expr(st.value, env)

    def s_Pass(self, st, env):
        pass

    def s_Import(self, st, env):
        for a in st.names:
            env[a.asname or a.name.split(".")[0]] = ModRef(a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, st, env):
        for a in st.names:
            env[a.asname or a.name] = self.from_resolved(self.p.resolve_member(self.mod._rel(st), a.name)
                                                        or ("external", st.module, a.name))

    def s_Global(self, st, env):
        raise Unsupported("global")

    def s_Nonlocal(self, st, env):
        for n in st.names:
            env.nonlocals.add(n)

    def s_FunctionDef(self, st, env):
        env[st.name] = Closure(st, env, self.mod, self.cls)

    def s_Return(self, st, env):
        raise ReturnEx(self.expr(st.value, env) if st.value is not None else None)

    def s_Continue(self, st, env):
        raise ContinueEx()

    def s_Break(self, st, env):
        raise BreakEx()

    def s_Raise(self, st, env):
        raise RaiseEx()

    def s_Delete(self, st, env):
        pass

    def s_Assert(self, st, env):
        try:
            c = self.cond(self.expr(st.test, env))
        except Unsupported:
            return
        if c is False:
            raise RaiseEx()

    def s_Assign(self, st, env):
        v = self.expr(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.expr(st.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), t)
            for x, y in zip(t.elts, vs):
                if isinstance(x, ast.Starred):
                    raise Unsupported("starred")
                self.assign(x, y, env)
        elif isinstance(t, ast.Subscript):
            self.store(t, v, env, "set")
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, env)
            if isinstance(o, Obj) and "store" in o.a:
                o.a["store"][t.attr] = v
            elif isinstance(o, Obj):
                self.event("mutate", "attribute %s of %s assigned" % (t.attr, o.kind), t)
            return
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, node):
        if isinstance(v, (tuple, list)):
            if len(v) != n:
                raise Unsupported("unpack length")
            return list(v)
        if isinstance(v, Top):
            return [v] * n
        if isinstance(v, Obj) and v.kind == "rules":
            # whole table of rules unpacked as one rule
            self.event("quadrature", "the table of quadrature rules is used as if it were one rule "
                       "(no dimension selected)", node)
            return [Top("rules"), Top("rules")]
        if isinstance(v, Obj) and v.kind == "gnode":
            if n == 2:
                return [self.getitem_obj(v, 0, node), self.getitem_obj(v, 1, node)]
        if isinstance(v, Array) and v.axes and isinstance(v.axes[0], C) and v.axes[0].n == n:
            return [AA.getitem(v, i) for i in range(n)]
        if isinstance(v, Coef):
            return [self.coef_index(v, i, node) for i in range(n)]
        raise Unsupported("unpack %r" % (v,))

    def s_AugAssign(self, st, env):
        mode = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div"}.get(type(st.op))
        v = self.expr(st.value, env)
        if isinstance(st.target, ast.Subscript):
            if mode is None:
                raise Unsupported("augmented operator")
            self.store(st.target, v, env, mode)
            return
        if isinstance(st.target, ast.Attribute):
            o = self.expr(st.target.value, env)
            if isinstance(o, Obj) and "store" in o.a and st.target.attr in o.a["store"]:
                o.a["store"][st.target.attr] = self.binop(st.op, o.a["store"][st.target.attr], v, st)
                return
            raise Unsupported("attribute update")
        cur = self.expr(st.target, env)
        if isinstance(cur, list):
            if isinstance(v, (list, tuple)):
                cur.extend(v)
                return
            raise Unsupported("list +=")
        new = self.binop(st.op, cur, v, st)
        if isinstance(cur, Array) and isinstance(new, Array) and cur.axes:
            if len(new.axes) == len(cur.axes):
                self.inplace(cur, new)
                return
            if len(new.axes) > len(cur.axes):
                raise Mismatch("shape", "in-place update changes the shape")
        env[st.target.id] = new

    def inplace(self, cur, new):
        cur.axes, cur.el = new.axes, new.el
        cur.role = None

    def s_For(self, st, env):
        it = self.expr(st.iter, env)
        seq = self.iterate(it, st)
        if isinstance(seq, list):
            for v in seq:
                self.assign(st.target, v, env)
                try:
                    self.block(st.body, env)
                except ContinueEx:
                    continue
                except BreakEx:
                    break
            else:
                self.block(st.orelse, env)
            return
        dom, elem = seq.dom, seq.elem

        def body():
            self.assign(st.target, elem, env)
            try:
                self.block(st.body, env)
            except ContinueEx:
                raise Unsupported("continue in symbolic loop")
            except BreakEx:
                raise Unsupported("break in symbolic loop")
        self.symbolic_loop(dom, body, env, st)

    def s_While(self, st, env):
        """counting loops only: i = 0; while i < N: ...; i += 1"""
        t, last = st.test, st.body[-1]
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) \
                and isinstance(t.left, ast.Name) and isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) \
                and isinstance(last.target, ast.Name) and last.target.id == t.left.id \
                and isinstance(last.value, ast.Constant) and last.value.value == 1 and not st.orelse:
            nm = t.left.id
            inner = st.body[:-1]
            clean = not any((isinstance(x, ast.Name) and x.id == nm and not isinstance(x.ctx, ast.Load))
                            or isinstance(x, (ast.Continue, ast.Break)) for b in inner for x in ast.walk(b))
            if clean and inner and nm in env and to_int(env[nm]) == 0:
                loop = ast.For(target=ast.Name(id=nm, ctx=ast.Store()),
                               iter=ast.Call(func=ast.Name(id="range", ctx=ast.Load()), args=[t.comparators[0]],
                                             keywords=[]), body=inner, orelse=[])
                for x in ast.walk(loop):
                    if not hasattr(x, "lineno"):
                        ast.copy_location(x, st)
                env[nm] = Top("loop counter")
                self.s_For(loop, env)
                env[nm] = Top("loop counter")
                return
        raise Unsupported("while loop")

    def s_With(self, st, env):
        for item in st.items:
            v = self.expr(item.context_expr, env)
            if isinstance(v, Obj) and v.kind == "autodiff":
                v = v.a["arr"]
            elif isinstance(v, Top):
                pass
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
        self.block(st.body, env)

    def s_Try(self, st, env):
        self.block(st.body, env)
        self.block(st.orelse, env)
        self.block(st.finalbody, env)

    def s_If(self, st, env):
        try:
            cv = self.expr(st.test, env)
            c = self.cond(cv)
        except Unsupported:
            c = None
            cv = Top("cond")
        if c is True:
            self.block(st.body, env)
        elif c is False:
            self.block(st.orelse, env)
        else:
            # branches that only reject the call
            if self.only_raises(st.body):
                self.block(st.orelse, env)
                return
            if st.orelse and self.only_raises(st.orelse):
                self.block(st.body, env)
                return
            self.join(c if c is not None else cv, lambda e: self.block(st.body, e),
                      lambda e: self.block(st.orelse, e), env, st)

    def only_raises(self, body):
        return bool(body) and isinstance(body[-1], ast.Raise) or (
            bool(body) and isinstance(body[-1], ast.Assert) and isinstance(body[-1].test, ast.Constant)
            and not body[-1].test.value)

    # -- conditions ------------------------------------------------------------
    def cond(self, v):
        """True/False/Cond/None"""
        if isinstance(v, bool):
            return v
        if isinstance(v, (Cmp, BoolC)):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, Fraction)):
            return bool(v)
        if isinstance(v, (list, tuple, dict, str)):
            return len(v) > 0
        if isinstance(v, Poly):
            if v.is_const():
                return v.constval() != 0
            return Cmp("!=", v, ZERO)
        if isinstance(v, (Obj, CoefFn, Array, Coef)):
            return True if isinstance(v, (Obj, CoefFn)) else None
        return None

    def gate_of(self, c):
        """value number of the indicator of condition c (or None)."""
        ids = c.coefs()
        if not ids:
            try:
                return ONE if c.truth({}) else ZERO
            except Exception:
                return None
        if len(ids) != 1:
            return None
        i = next(iter(ids))
        a = atom_of(i)
        if a[0] != "coef":
            return None
        try:
            sig = tuple(bool(c.truth({i: s})) for s in (-1.0, 0.0, 1.0))
        except Exception:
            return None
        if all(sig):
            return ONE
        if not any(sig):
            return ZERO
        if sig[-1]:
            return Poly.a(("gate", a[1], sig))
        return ONE - Poly.a(("gate", a[1], tuple(not s for s in sig)))

    def join(self, c, f1, f2, env, node):
        g = self.gate_of(c) if isinstance(c, (Cmp, BoolC)) else None
        memo1, memo2 = {}, {}
        e1 = env.clone(memo1)
        e2 = env.clone(memo2)
        ends = []
        for f, e in ((f1, e1), (f2, e2)):
            try:
                f(e)
                ends.append(None)
            except RaiseEx:
                ends.append("raise")
            except (ReturnEx, ContinueEx, BreakEx) as ex:
                ends.append(ex)
        if ends[0] == "raise" and ends[1] == "raise":
            raise RaiseEx()
        if any(x is not None and x != "raise" for x in ends):
            raise Unsupported("early exit under an undecided condition at %s" % loc(self.mod, node))
        if ends[0] == "raise" or ends[1] == "raise":
            src = e2 if ends[0] == "raise" else e1
            memo = memo2 if ends[0] == "raise" else memo1
            self.adopt(env, src, memo)
            return
        # objects existing before: merge contents in place
        for oid, o1 in list(memo1.items()):
            if not isinstance(o1, Array) or oid not in memo2:
                continue
            o2 = memo2[oid]
            orig = env.find(oid)
            if orig is None or not isinstance(orig, Array):
                continue
            m = self.merge_values(g, o1, o2)
            if isinstance(m, Array):
                orig.axes, orig.el = m.axes, m.el
            else:
                for k in orig.keys():
                    orig.el[k] = topp("merge")
        inv1 = {id(v): k for k, v in memo1.items()}
        names = set(e1.own) | set(e2.own)
        for n in names:
            in1, in2 = n in e1.own, n in e2.own
            if in1 and in2:
                v1, v2 = e1.own[n], e2.own[n]
                k1 = inv1.get(id(v1))
                if k1 is not None and k1 in memo2 and memo2[k1] is v2:
                    o = env.find(k1)
                    if o is not None:
                        env.own[n] = o
                        continue
                env.own[n] = self.merge_values(g, v1, v2)
            else:
                env.own[n] = e1.own[n] if in1 else e2.own[n]

    def adopt(self, env, src, memo):
        inv = {}
        for oid, o in memo.items():
            orig = env.find(oid)
            if isinstance(orig, Array) and isinstance(o, Array):
                orig.axes, orig.el = o.axes, o.el
                inv[id(o)] = orig
        for n, v in src.own.items():
            env.own[n] = inv.get(id(v), v)

    def merge_values(self, g, v1, v2):
        if v1 is v2:
            return v1
        if isinstance(v1, Coef) and isinstance(v2, Coef) and not (v1.is_scalar() and v2.is_scalar()) and \
                (v1.key, v1.tag, v1.vec, v1.idx, v1.order) == (v2.key, v2.tag, v2.vec, v2.idx, v2.order):
            s1, s2 = v1.scale or ONE, v2.scale or ONE
            if (s1 - s2).is_zero():
                return v1
            if g is None:
                return Top("undecided branch")
            return Coef(v1.key, v1.tag, v1.vec, v1.idx, v1.order, g * s1 + (ONE - g) * s2)
        if isinstance(v1, dict) and isinstance(v2, dict) and list(v1) == list(v2):
            return {k: self.merge_values(g, v1[k], v2[k]) for k in v1}
        if isinstance(v1, SymSeq) and isinstance(v2, SymSeq):
            if v1.dom is v2.dom:
                return SymSeq(v1.dom, self.merge_values(g, v1.elem, v2.elem))
        if isinstance(v1, (int, float, Fraction, Poly, Array, Coef)) and \
                isinstance(v2, (int, float, Fraction, Poly, Array, Coef)) and \
                not isinstance(v1, bool) and not isinstance(v2, bool):
            try:
                a1, a2 = self.num(v1), self.num(v2)
                d = AA.broadcast(lambda x, y: x - y, a1, a2)
                if all(p.is_zero() for p in d.el.values()):
                    return v1
                if g is None:
                    return Top("undecided branch")
                return simplify(AA.broadcast(lambda x, y: g * x + (ONE - g) * y, a1, a2))
            except (Unsupported, Mismatch):
                return Top("merge")
        if isinstance(v1, (str, bool, type(None), Obj)) and v1 == v2:
            return v1
        if isinstance(v1, (list, tuple)) and isinstance(v2, type(v1)) and len(v1) == len(v2):
            return type(v1)(self.merge_values(g, x, y) for x, y in zip(v1, v2))
        if isinstance(v1, slice) and isinstance(v2, slice) and repr(v1) == repr(v2):
            return v1
        if isinstance(v1, (Closure, Fn, NpFn, ModRef, ClsRef, CoefFn, Bound)):
            return v1
        return Top("merge")

    # -- symbolic loops ----------------------------------------------------------
    def assigned_names(self, node):
        out = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.Subscript,)) and isinstance(n.ctx, ast.Store):
                b = n
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    out.add(b.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.attr in ("append", "extend", "insert", "__setitem__"):
                out.add(n.func.value.id)
        return out

    def symbolic_loop(self, dom, body, env, st):
        """summarise one symbolic pass over dom."""
        names = self.assigned_names(st)
        pre = {}
        tagged = []

        def tag_array(a, nm):
            base = ("old", id(a), len(self.loopstack))
            orig = dict(a.el)
            old_axes = list(a.axes)
            new = {}
            for k in a.keys():
                vs = tuple(x.var for x in a.axes if isinstance(x, D))
                new[k] = Poly.a(("OLD", base, nm, k, vs))
            a.el = new
            iv = set(a.idxvars)
            tagged.append((a, orig, base, old_axes, iv))

        if dom.kind == "d":
            pass
        for n in sorted(names):
            if n not in env:
                continue
            v = env[n]
            if isinstance(v, Array) and v.axes:
                if not any(t[0] is v for t in tagged):
                    tag_array(v, n)
            elif isinstance(v, (int, float, Fraction, Poly)) and not isinstance(v, bool):
                pre[n] = lift(v)
                env[n] = Poly.a(("OLDS", n, len(self.loopstack)))
            elif isinstance(v, list) and any(isinstance(x, Array) for x in v):
                for x in v:
                    if isinstance(x, Array) and not any(t[0] is x for t in tagged):
                        tag_array(x, n)
            elif isinstance(v, Array):
                pre[n] = v.get(())
                env[n] = Poly.a(("OLDS", n, len(self.loopstack)))
        # entries of dictionaries and lists are carried like names
        carried = {}
        for n in sorted(names):
            v = env.get(n) if hasattr(env, "get") else (env[n] if n in env else None)
            if not isinstance(v, (dict, list)) or any(c is v for c, _, _ in carried.values()):
                continue
            olds = {}
            for key in (sorted(v, key=repr) if isinstance(v, dict) else range(len(v))):
                x = v[key]
                if isinstance(x, Array):
                    if x.axes:
                        if not any(t[0] is x for t in tagged):
                            tag_array(x, "%s[%s]" % (n, key))
                        continue
                    x = x.get(())
                if isinstance(x, (int, float, Fraction, Poly)) and not isinstance(x, bool):
                    at = ("OLDS", "%s[%r]" % (n, key), len(self.loopstack))
                    olds[key] = (v[key], at)
                    v[key] = Poly.a(at)
            carried[n] = (v, olds, list(v) if isinstance(v, dict) else None)
        lists = {n: (env[n], len(env[n])) for n in names if n in env and isinstance(env[n], list)}
        env_old = {n: env[n] for n in names if n in env}
        self.loopstack.append(dom)
        try:
            body()
        finally:
            self.loopstack.pop()
        for n, (v, olds, keys) in carried.items():
            for key, (p0, at) in olds.items():
                if isinstance(v, dict) and key not in v or isinstance(v, list) and key >= len(v):
                    continue
                new = v[key]
                if isinstance(new, Poly) and new == Poly.a(at):
                    v[key] = p0
                    continue
                if isinstance(new, Array) and not new.axes:
                    new = new.get(())
                if isinstance(new, Poly):
                    v[key] = self.close_scalar(new, lift(p0 if not isinstance(p0, Array) else p0.get(())), at, dom)
                elif isinstance(new, (int, float, Fraction)):
                    pass
                else:
                    v[key] = Top("entry changed in symbolic loop")
            if keys is not None:
                for key in v:
                    if key not in keys and not (isinstance(v[key], Poly) and not v[key].top and not self.loop_dep(v[key], dom)):
                        v[key] = Top("entry made in symbolic loop")
        for n, (lst, ln) in lists.items():
            cur = env[n]
            if cur is lst and len(lst) == ln + 1 and ln == 0:
                env[n] = SymSeq(dom, lst[0])
            elif isinstance(cur, list) and len(cur) != ln:
                env[n] = Top("list grown in symbolic loop")
        bases = {t[2]: t for t in tagged}
        for n in sorted(names):
            v = env[n] if n in env else None
            if not isinstance(v, Array) or any(t[0] is v for t in tagged):
                continue
            used = {atom_of(j)[1] for k in v.keys() for j in v.get(k).atoms_deep() if atom_of(j)[0] == "OLD"}
            used &= set(bases)
            if len(used) == 1:
                # the name is rebound to an updated value of the array it named before
                a, orig, base, old_axes, iv = bases[used.pop()]
                if len(a.axes) == len(v.axes) and env_old.get(n) is a:
                    w = Array(v.axes, dict(v.el))
                    self.close_array(w, orig, base, dom, old_axes, iv)
                    env[n] = w
                else:
                    env[n] = Top("loop-carried array")
            elif used:
                env[n] = Top("loop-carried array")
        for a, orig, base, old_axes, iv in tagged:
            self.close_array(a, orig, base, dom, old_axes, iv)
        for n, p0 in pre.items():
            new = env[n]
            at = ("OLDS", n, len(self.loopstack))
            if isinstance(new, Poly):
                env[n] = self.close_scalar(new, p0, at, dom)
            elif isinstance(new, (int, float, Fraction)) and not isinstance(new, bool):
                env[n] = new
            elif isinstance(new, Array):
                el = {}
                occurs = False
                for k in new.keys():
                    p = new.get(k)
                    q = self.close_scalar(p, p0, at, dom)
                    el[k] = q
                env[n] = Array(new.axes, el)
            else:
                env[n] = new if not isinstance(new, (Coef,)) else Top("loop")

    def marker(self, dom):
        if dom.kind == "q":
            return SUM, Poly.a(("LAST",))
        if dom.kind == "el":
            return Poly.a(("ESUM",)), Poly.a(("ELAST",))
        return None, None

    def loop_dep(self, p, dom):
        """does the value vary over the loop?"""
        for i in p.atoms():
            if self.atom_dep(i, dom):
                return True
        return False

    def atom_dep(self, i, dom):
        a = atom_of(i)
        if a[0] == "P":
            return any(self.atom_dep(j, dom) for m, c in a[1] for j, e in m)
        if dom.kind == "q":
            return a[0] in ("W", "J", "coef", "x", "phi", "fld", "mix", "iJ", "Jac", "bsum")
        if dom.kind == "el":
            return a[0] in ("W", "J", "coef", "x", "phi", "fld", "mix", "iJ", "Jac", "bsum", "al", "n", "nrm")
        from .poly import atom_vars
        return dom.v in atom_vars(i)

    def close_scalar(self, new, old, at, dom):
        if new.top:
            return new
        oid = atom_id(at)
        add, last = self.marker(dom)
        lin = ZERO
        rest = ZERO
        for m, c in new.t.items():
            ex = dict(m).get(oid)
            if ex is None:
                if any(oid in _deep(i) for i, e in m):
                    return topp("loop-carried value")
                rest = rest + Poly({m: c})
            elif ex == 1:
                lin = lin + Poly({tuple(x for x in m if x[0] != oid): c})
            else:
                return topp("loop-carried value")
        if lin.is_zero():
            # overwritten in every pass
            if not self.loop_dep(rest, dom):
                return rest
            if last is None:
                return topp("overwritten in loop")
            return rest * last
        if not (lin - ONE).is_zero():
            return topp("loop-carried product")
        if rest.is_zero():
            return old
        if dom.kind == "d":
            return old + AA.contract_var(rest, dom.v, dom.f)
        return old + rest * add

    def close_array(self, a, orig, base, dom, old_axes, iv):
        add, last = self.marker(dom)
        # variables may have been renamed by in-place rebuilds: map OLD atoms by key
        ids = {}
        for k in a.keys():
            p = a.get(k)
            if p.top:
                continue
        newel = {}
        vs_now = tuple(x.var for x in a.axes if isinstance(x, D))
        vs_old = tuple(x.var for x in old_axes if isinstance(x, D))
        newiv = a.idxvars - iv
        for k in a.keys():
            p = a.get(k)
            if p.top:
                newel[k] = p
                continue
            old = orig.get(k, ZERO)
            for o, n in zip(vs_old, vs_now):
                old = old.rename(o, n)
            lin, rest = ZERO, ZERO
            bad = False
            for m, c in p.t.items():
                olds = [(i, e) for i, e in m if atom_of(i)[0] == "OLD" and atom_of(i)[1] == base]
                if not olds:
                    if any(atom_of(j)[0] == "OLD" and atom_of(j)[1] == base for i, e in m for j in _deep(i)):
                        bad = True
                    rest = rest + Poly({m: c})
                elif len(olds) == 1 and olds[0][1] == 1:
                    at = atom_of(olds[0][0])
                    if at[3] != k or at[4] != vs_now:
                        bad = True
                    lin = lin + Poly({tuple(x for x in m if x != olds[0]): c})
                else:
                    bad = True
            if bad:
                newel[k] = topp("loop-carried array")
                continue
            if lin.is_zero():
                if dom.kind == "d" and dom.v in newiv:
                    newel[k] = rest
                elif not self.loop_dep(rest, dom):
                    newel[k] = rest
                elif last is None:
                    newel[k] = topp("overwritten in loop")
                else:
                    newel[k] = rest * last
            elif (lin - ONE).is_zero():
                if rest.is_zero():
                    newel[k] = old
                elif dom.kind == "d":
                    if dom.v in newiv:
                        newel[k] = old + rest
                    else:
                        newel[k] = old + AA.contract_var(rest, dom.v, dom.f)
                else:
                    newel[k] = old + rest * add
            else:
                newel[k] = topp("loop-carried product")
        a.el = newel

    # -- iteration ---------------------------------------------------------------
    def iterate(self, it, node):
        """list of values or SymSeq"""
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, dict):
            return list(it.keys())
        if isinstance(it, range):
            return list(it)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, SymSeq):
            return it
        if isinstance(it, Array):
            if not it.axes:
                raise Unsupported("iterate scalar")
            ax = it.axes[0]
            if isinstance(ax, C):
                return [AA.getitem(it, i) for i in range(ax.n)]
            if isinstance(ax, Q):
                return SymSeq(Dom("q"), AA.getitem(it, QIdx()))
            if isinstance(ax, D) and len(ax.layout) == 1 and ax.layout[0][1] == 1:
                f = ax.layout[0][0]
                v = fresh_var()
                return SymSeq(Dom("d", f, v), AA.getitem(it, Poly.a(("idx", f, v))))
            raise Unsupported("iterate axis")
        if isinstance(it, Coef):
            if it.vec and not it.idx and it.key in SCALARS:
                return SymSeq(Dom("q"), Coef(it.key, it.tag, False))
            raise Unsupported("iterate coefficient")
        if isinstance(it, Obj):
            if it.kind == "points":
                return SymSeq(Dom("q"), Obj("point", tag=it.tag))
            if it.kind == "elements":
                return SymSeq(Dom("el", space=it.a["f"]), Obj("elem", f=it.a["f"], tag="E", iel="loop"))
            if it.kind == "spaces":
                return list(self.inst["fields"])
        raise Unsupported("iteration over %r at %s" % (it, loc(self.mod, node)))

    # -- expressions -----------------------------------------------------------
    def expr(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return self.top("expression %s" % type(n).__name__, n)
        try:
            return m(n, env)
        except Mismatch as e:
            self.event(e.kind, str(e), n)
            return Top("mismatch")
        except Unsupported as e:
            if getattr(e, "hard", False):
                raise
            return self.top(str(e), n)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        if n.id in env:
            return env[n.id]
        return self.global_name(n.id, n)

    def global_name(self, name, node):
        r = self.p.resolve_member(self.mod.name, name)
        if r is not None:
            return self.from_resolved(r)
        if name in BUILTINS:
            return NpFn("builtin." + name)
        raise Unsupported("unresolved name %s" % name)

    def from_resolved(self, r):
        if isinstance(r, FuncInfo):
            return Fn(r)
        if isinstance(r, ClassInfo):
            return ClsRef(r)
        if r[0] == "module":
            return ModRef(r[1])
        if r[0] == "external":
            full = r[1] + "." + r[2]
            if r[1] in NPMOD or r[1].startswith("numpy"):
                return NpFn(full[len("numpy."):])
            return NpFn("ext." + full)
        if r[0] == "global":
            saved = self.mod
            self.mod = r[1]
            try:
                return self.expr(r[2], Env(None))
            finally:
                self.mod = saved
        raise Unsupported("resolve")

    def e_Tuple(self, n, env):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.expr(e.value, env)
                if isinstance(v, (list, tuple)):
                    out.extend(v)
                    continue
                raise Unsupported("starred")
            out.append(self.expr(e, env))
        return tuple(out)

    def e_List(self, n, env):
        return list(self.e_Tuple(n, env))

    def e_Set(self, n, env):
        return list(self.e_Tuple(n, env))

    def e_Dict(self, n, env):
        return {self.expr(k, env): self.expr(v, env) for k, v in zip(n.keys, n.values)}

    def e_Slice(self, n, env):
        g = lambda x: None if x is None else self.expr(x, env)
        return slice(g(n.lower), g(n.upper), g(n.step))

    def e_JoinedStr(self, n, env):
        return "".join(str(self.expr(v.value, env)) if isinstance(v, ast.FormattedValue) else v.value
                       for v in n.values)

    def e_Lambda(self, n, env):
        return Closure(n, env, self.mod, self.cls)

    def e_IfExp(self, n, env):
        c = self.cond(self.expr(n.test, env))
        if c is True:
            return self.expr(n.body, env)
        if c is False:
            return self.expr(n.orelse, env)
        g = self.gate_of(c) if c is not None else None
        return self.merge_values(g, self.expr(n.body, env), self.expr(n.orelse, env))

    def e_NamedExpr(self, n, env):
        v = self.expr(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        parts = []
        last = None
        for v in n.values:
            x = self.expr(v, env)
            c = self.cond(x)
            if c is None:
                return self.top("condition", v)
            if c is True or c is False:
                if c != isand:
                    return x if not parts else (False if isand else True)
                last = x
                continue
            parts.append(c)
        if not parts:
            return last
        return BoolC("and" if isand else "or", parts)

    def e_UnaryOp(self, n, env):
        v = self.expr(n.operand, env)
        if isinstance(n.op, ast.Not):
            c = self.cond(v)
            if c is True or c is False:
                return not c
            if c is None:
                return self.top("condition", n)
            return BoolC("not", [c])
        if isinstance(v, Top):
            return v
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return -v
            if isinstance(v, Der):
                return Der(AA.unary(lambda p: -p, v.arr), v.mat, v.tr)
            return simplify(AA.unary(lambda p: -p, self.num(v)))
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def num(self, v):
        """numeric value -> Array"""
        if isinstance(v, Coef):
            return self.coef_array(v)
        if isinstance(v, Top):
            raise Unsupported("unknown operand")
        if isinstance(v, (list, tuple)):
            return self.np_array([v], {})
        if isinstance(v, SymSeq):
            return self.np_array([v], {})
        if isinstance(v, Obj) and v.kind == "phitab0":
            raise Unsupported("x")
        return as_array(v)

    def coef_array(self, v, hint=None):
        self.coefs_used.add(v.key)
        opens = [o for o in v.order]
        if opens and hint is None:
            raise Unsupported("vector coefficient of unknown length")
        axes, keys = [], [()]
        for o in opens:
            n = hint[o[1]] if isinstance(hint, dict) else hint
            axes.append(C(n))
            keys = [k + (i,) for k in keys for i in range(n)]
        el = {}
        for k in keys:
            mp = dict(zip(opens, k))
            idx = tuple(mp[i] if isinstance(i, tuple) else i for i in v.idx)
            el[k + (("q",) if v.vec else ())] = v.at(idx)
        if v.vec:
            axes.append(Q())
        return Array(axes, el)

    def coef_index(self, v, idx, node):
        """index a coefficient value"""
        items = idx if isinstance(idx, tuple) else (idx,)
        nidx, norder = list(v.idx), list(v.order)
        vec = v.vec
        consumed = 0            # open axes consumed from existing order
        result_shape = {}
        cur_open = list(norder)
        pos = 0
        out_hint = {}
        new_order = []
        picked_q = False
        for x in items:
            if isinstance(x, Array) and not x.axes:
                x = x.get(())
            target = cur_open[pos] if pos < len(cur_open) else None
            k = to_int(x) if not isinstance(x, (slice, QIdx)) else None
            if isinstance(x, QIdx):
                if target is not None:
                    raise Unsupported("point index on component axis")
                if not vec:
                    raise Mismatch("point", "coefficient %s already evaluated at the point is indexed by the "
                                   "point index" % v.key)
                vec = False
                continue
            if k is not None:
                if target is not None:
                    nidx[nidx.index(target)] = k
                    pos += 1
                else:
                    nidx.append(k)
                continue
            if isinstance(x, slice):
                if target is None:
                    o = ("o", len(nidx))
                    nidx.append(o)
                else:
                    o = target
                    pos += 1
                new_order.append(o)
                if x.start is None and x.stop is None and x.step is None:
                    continue
                a, b = (0 if x.start is None else to_int(x.start)), (None if x.stop is None else to_int(x.stop))
                if a is None or b is None or x.step is not None:
                    raise Unsupported("coefficient slice")
                out_hint[o] = (a, b)
                continue
            if target is None and not vec and isinstance(x, Poly):
                raise Unsupported("coefficient index")
            raise Unsupported("coefficient index %r" % (x,))
        rest = cur_open[pos:]
        order = new_order + rest
        # a full slice that actually stands for the point axis, e.g. f[:, i]-style use never
        # reaches here; trailing ':' on a vec value is the point axis
        c = Coef(v.key, v.tag, vec, nidx, order, v.scale)
        if out_hint:
            hint = {}
            axes, keys = [], [()]
            for o in order:
                if o not in out_hint:
                    raise Unsupported("partially open coefficient")
                a, b = out_hint[o]
                axes.append(C(b - a))
                keys = [kk + (i,) for kk in keys for i in range(a, b)]
            el = {}
            for kk in keys:
                mp = dict(zip(order, kk))
                ii = tuple(mp[i] if isinstance(i, tuple) else i for i in nidx)
                dk = tuple(x - out_hint[o][0] for x, o in zip(kk, order))
                el[dk + (("q",) if vec else ())] = c.at(ii)
            if vec:
                axes.append(Q())
            self.coefs_used.add(v.key)
            return Array(axes, el)
        return c

    def binop_num(self, op, a, b, node):
        # a scalar multiple of a coefficient is still a coefficient
        if isinstance(op, (ast.Mult, ast.Div)):
            for u, w in ((a, b), (b, a)) if isinstance(op, ast.Mult) else ((a, b),):
                if isinstance(u, Coef) and not u.is_scalar() and not (isinstance(w, Coef) and not w.is_scalar()):
                    sc = self.scalar_of(w)
                    if sc is not None and (not u.vec or sc.is_const()):
                        return u.scaled(sc if isinstance(op, ast.Mult) else sc.power(-1))
        if isinstance(op, (ast.Add, ast.Sub)) and isinstance(a, Coef) and isinstance(b, Coef) \
                and not a.order and not b.order and not a.idx and not b.idx and not (a.is_scalar() and b.is_scalar()):
            if (a.key, a.tag, a.vec) == (b.key, b.tag, b.vec):
                sa, sb = a.scale or ONE, b.scale or ONE
                return Coef(a.key, a.tag, a.vec, (), (), sa + sb if isinstance(op, ast.Add) else sa - sb)
        # open-ended coefficients take their length from the other operand
        if isinstance(a, Coef) and a.order and not isinstance(b, Coef):
            b = self.num(b)
            a = self.coef_with_shape(a, b)
        elif isinstance(b, Coef) and b.order and not isinstance(a, Coef):
            a = self.num(a)
            b = self.coef_with_shape(b, a)
        elif isinstance(a, Coef) and isinstance(b, Coef) and (a.order or b.order):
            raise Unsupported("vector coefficients combined")
        a, b = self.num(a), self.num(b)
        if isinstance(op, ast.Add):
            f = lambda x, y: x + y
        elif isinstance(op, ast.Sub):
            f = lambda x, y: x - y
        elif isinstance(op, ast.Mult):
            f = lambda x, y: x * y
        elif isinstance(op, ast.Div):
            cache = {}

            def f(x, y):
                if y not in cache:
                    cache[y] = y.power(-1)
                return x * cache[y]
        elif isinstance(op, ast.Pow):
            def f(x, y):
                if y.top or not y.is_const():
                    return topp("power")
                e = y.constval()
                return x.power(int(e) if e.denominator == 1 else e)
        else:
            raise Unsupported("operator %s" % type(op).__name__)
        return simplify(AA.broadcast(f, a, b))

    def scalar_of(self, w):
        if isinstance(w, Coef):
            return w.at(()) if w.is_scalar() and not w.vec else None
        if isinstance(w, bool):
            return None
        if isinstance(w, (int, float, Fraction, Poly)):
            p = lift(w)
            return None if p.top else p
        if isinstance(w, Array) and not w.axes:
            return w.get(())
        return None

    def coef_with_shape(self, c, arr):
        n = len(c.order)
        axes = arr.axes[:-1] if (c.vec and arr.axes and isinstance(arr.axes[-1], Q)) else arr.axes
        if len(axes) < n:
            raise Unsupported("vector coefficient against %r" % arr)
        hint = {}
        for o, ax in zip(c.order, axes[len(axes) - n:]):
            if not isinstance(ax, C):
                raise Unsupported("vector coefficient against %r" % arr)
            hint[o[1]] = ax.n
        return self.coef_array(c, hint)

    def e_BinOp(self, n, env):
        a, b = self.expr(n.left, env), self.expr(n.right, env)
        return self.binop(n.op, a, b, n)

    def binop(self, op, a, b, n):
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        if isinstance(op, ast.MatMult):
            return self.matmul(a, b)
        if isinstance(op, ast.Add) and isinstance(a, Obj) and a.kind == "dest" and not isinstance(b, (Obj, str)):
            return a
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(op, ast.Add) and isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(op, ast.Mod):
                return "<fmt>"
            raise Unsupported("string operation")
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, list) and isinstance(op, ast.Mult) and to_int(b) is not None:
            return a * to_int(b)
        if type(a) in (int, float) and type(b) in (int, float):
            if isinstance(op, ast.Add) and type(a) is int and type(b) is int:
                return a + b
            if isinstance(op, ast.Sub) and type(a) is int and type(b) is int:
                return a - b
            if isinstance(op, ast.Mult) and type(a) is int and type(b) is int:
                return a * b
            if isinstance(op, ast.FloorDiv) and b:
                return a // b
            if isinstance(op, ast.Mod) and b:
                return a % b
        if isinstance(a, Der) or isinstance(b, Der):
            if isinstance(a, Der) and not isinstance(b, Der):
                return Der(as_array(self.binop(op, a.arr, b, n)), a.mat, a.tr)
            if isinstance(b, Der) and not isinstance(a, Der) and isinstance(op, ast.Mult):
                return Der(as_array(self.binop(op, a, b.arr, n)), b.mat, b.tr)
            if isinstance(a, Der) and isinstance(b, Der) and isinstance(op, (ast.Add, ast.Sub)):
                return Der(as_array(self.binop(op, a.arr, b.arr, n)), a.mat, a.tr)
            raise Unsupported("derivative operation")
        if isinstance(op, ast.FloorDiv):
            x, y = lift(simplify(self.num(a))), lift(simplify(self.num(b)))
            return x * y.power(-1)
        return self.binop_num(op, a, b, n)

    def open_bare(self, c, other):
        """a coefficient used in a contraction is a vector even if it was never indexed"""
        if isinstance(c, Coef) and not c.order and not c.idx and not c.is_scalar():
            o = other
            if not isinstance(o, Coef):
                o = self.num(o)
                if o.axes:
                    return Coef(c.key, c.tag, c.vec, (("o", 0),), (("o", 0),), c.scale)
        return c

    def matmul(self, a, b):
        a, b = self.open_bare(a, b), self.open_bare(b, a)
        if isinstance(a, Coef) and a.order and not isinstance(b, Coef):
            b = self.num(b)
            if len(a.order) == 1 and not a.vec and isinstance(b.axes[0], C):
                a = self.coef_array(a, {a.order[0][1]: b.axes[0].n})
        if isinstance(b, Coef) and b.order and not isinstance(a, Coef):
            a = self.num(a)
            if len(b.order) == 1 and not b.vec and isinstance(a.axes[-1], C):
                b = self.coef_array(b, {b.order[0][1]: a.axes[-1].n})
        a, b = self.num(a), self.num(b)
        return simplify(AA.matmul(a, b))

    def e_Compare(self, n, env):
        if len(n.ops) != 1:
            parts = []
            left = n.left
            for op, r in zip(n.ops, n.comparators):
                parts.append(self.e_Compare(ast.copy_location(ast.Compare(left, [op], [r]), n), env))
                left = r
            cs = [self.cond(p) for p in parts]
            if any(c is False for c in cs):
                return False
            cs = [c for c in cs if c is not True]
            if not cs:
                return True
            if any(c is None for c in cs):
                return self.top("condition", n)
            return BoolC("and", cs)
        op = n.ops[0]
        a, b = self.expr(n.left, env), self.expr(n.comparators[0], env)
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Top) else b
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None:
                r = a is None and b is None
            elif isinstance(a, Obj) and isinstance(b, Obj):
                r = a == b
            elif isinstance(a, bool) or isinstance(b, bool):
                r = a is b
            else:
                raise Unsupported("identity comparison")
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, dict):
                r = a in b
            elif isinstance(b, (list, tuple)):
                if any(isinstance(x, Top) for x in b):
                    raise Unsupported("membership")
                r = any((x == a) for x in b if type(x) is type(a))
            elif isinstance(b, Obj) and b.kind == "spaces":
                r = a in self.inst["fields"]
            else:
                raise Unsupported("membership")
            return r if isinstance(op, ast.In) else not r
        if isinstance(a, (str, Obj, type(None), list, tuple)) or isinstance(b, (str, Obj, type(None), list, tuple)):
            if isinstance(op, (ast.Eq, ast.NotEq)):
                r = (a == b)
                return r if isinstance(op, ast.Eq) else not r
            raise Unsupported("comparison")
        x, y = simplify(self.num(a)), simplify(self.num(b))
        if isinstance(x, Array) or isinstance(y, Array):
            ops = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
            return Obj("condarr", op=ops[type(op)], l=as_array(x), r=as_array(y))
        d = x - y
        sym = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}[type(op)]
        if d.is_const():
            c = d.constval()
            return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[sym]
        if d.top:
            raise Unsupported("comparison")
        # sizes of symbolic ranges are positive
        return Cmp(sym, x, y)

    # -- comprehension -----------------------------------------------------------
    def e_ListComp(self, n, env):
        return self.comp(n.generators, n.elt, env, n)

    def e_GeneratorExp(self, n, env):
        return self.comp(n.generators, n.elt, env, n)

    def e_SetComp(self, n, env):
        return self.comp(n.generators, n.elt, env, n)

    def e_DictComp(self, n, env):
        if len(n.generators) != 1:
            raise Unsupported("dict comprehension")
        g = n.generators[0]
        it = self.iterate(self.expr(g.iter, env), n)
        if not isinstance(it, list):
            raise Unsupported("dict comprehension")
        out = {}
        for v in it:
            e = Env(env)
            self.assign(g.target, v, e)
            if all(self.cond(self.expr(c, e)) is True for c in g.ifs):
                out[self.expr(n.key, e)] = self.expr(n.value, e)
        return out

    def comp(self, gens, elt, env, node):
        g = gens[0]
        it = self.iterate(self.expr(g.iter, env), node)
        rest = gens[1:]
        if isinstance(it, list):
            out = []
            for v in it:
                e = Env(env)
                self.assign(g.target, v, e)
                keep = True
                for c in g.ifs:
                    r = self.cond(self.expr(c, e))
                    if r is True:
                        continue
                    if r is False:
                        keep = False
                        break
                    raise Unsupported("filtered comprehension")
                if not keep:
                    continue
                if rest:
                    sub = self.comp(rest, elt, e, node)
                    if isinstance(sub, SymSeq):
                        raise Unsupported("mixed comprehension")
                    out.extend(sub)
                else:
                    out.append(self.expr(elt, e))
            return out
        e = Env(env)
        self.assign(g.target, it.elem, e)
        if rest:
            raise Unsupported("nested symbolic comprehension")
        dom = it.dom
        if g.ifs:
            if dom.kind == "el":
                sel = []
                for c in g.ifs:
                    r = self.cond(self.expr(c, e))
                    if r is True:
                        continue
                    raise Unsupported("element selection")
                dom = Dom("el", space=dom.space, sel="filtered")
            else:
                raise Unsupported("filtered symbolic comprehension")
        self.loopstack.append(dom)
        try:
            v = self.expr(elt, e)
        finally:
            self.loopstack.pop()
        if isinstance(v, Top):
            return v
        return SymSeq(dom, v)

    # -- attributes --------------------------------------------------------------
    def e_Attribute(self, n, env):
        o = self.expr(n.value, env)
        return self.attr(o, n.attr, n)

    def attr(self, o, name, n):
        if isinstance(o, Top):
            return o
        if isinstance(o, ModRef):
            if o.name == "numpy" or o.name.startswith("numpy."):
                pre = "" if o.name == "numpy" else o.name[6:] + "."
                if name == "newaxis":
                    return None
                if name == "pi":
                    return Poly.a(("pi",))
                if name in ("float64", "int64", "double", "float32"):
                    return NpFn("dtype")
                if pre == "" and name in ("linalg",):
                    return ModRef("numpy.linalg")
                return NpFn(pre + name)
            if o.name in self.p.modules:
                r = self.p.resolve_member(o.name, name)
                if r is not None:
                    return self.from_resolved(r)
            if o.name + "." + name in self.p.modules:
                return ModRef(o.name + "." + name)
            return NpFn("ext." + o.name + "." + name)
        if isinstance(o, (Array, Poly, int, float, Fraction)) and not isinstance(o, bool):
            a = as_array(o)
            if name == "T":
                return simplify(AA.transpose(a)) if a.axes else o
            if name == "val":
                return o
            if name == "der":
                return Der(as_array(o))
            if name == "shape":
                return tuple(AA.axis_len(x) for x in a.axes)
            if name == "size":
                t = ONE
                for x in a.axes:
                    t = t * lift(AA.axis_len(x))
                return t
            if name == "ndim":
                return a.ndim
            return Bound(o, name)
        if isinstance(o, Der):
            if name == "T":
                if o.mat:
                    return Der(o.arr, True, not o.tr)
                return Der(AA.transpose(o.arr))
            if name == "shape":
                raise Unsupported("shape of derivative")
            return Bound(o, name)
        if isinstance(o, Coef):
            if name == "T":
                if not o.order:
                    return o
                if o.vec:
                    raise Unsupported("transpose of coefficient table")
                return Coef(o.key, o.tag, o.vec, o.idx, tuple(reversed(o.order)))
            if name == "shape":
                raise Unsupported("coefficient shape")
            return Bound(o, name)
        if isinstance(o, SymSeq):
            return Bound(o, name)
        if isinstance(o, ClsRef):
            m = self.p.lookup_method(o.ci, name)
            if m is not None:
                return Fn(m)
            if name in o.ci.class_attrs:
                return self.expr(o.ci.class_attrs[name], Env(None))
            raise Unsupported("class attribute %s" % name)
        if isinstance(o, Obj):
            return self.obj_attr(o, name, n)
        if isinstance(o, (list, dict, tuple, str)):
            return Bound(o, name)
        if isinstance(o, NpFn):
            return NpFn(o.name + "." + name)
        raise Unsupported("attribute %s of %r" % (name, o))

    def obj_attr(self, o, name, n):
        k = o.kind
        if k == "form":
            st = o.a["store"]
            if name in st:
                return st[name]
            if name in ("space", "_space"):
                return o.a["space"]
            if name in ("functions", "_functions"):
                return Obj("functions")
            ci = o.a["cls"]
            m = self.p.lookup_method(ci, name)
            if m is not None:
                if m.is_property():
                    return self.call_fn(m.node, m.module, m.cls, [o], {}, None)
                return Fn(m, o if not m.is_static() else None)
            for c in self.p.mro(ci):
                if name in c.class_attrs:
                    return self.expr(c.class_attrs[name], Env(None))
                init = c.methods.get("__init__")
                if init is not None:
                    for s in ast.walk(init.node):
                        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Attribute) \
                                and s.targets[0].attr == name:
                            return self.expr(s.value, Env(None))
            raise Unsupported("attribute self.%s" % name)
        if k == "pspace":
            if name in ("discrete_spaces", "_discrete_spaces"):
                return Obj("spaces")
            if name in ("quadrature", "_quadrature"):
                return Obj("rules", which="int")
            if name in ("bc_quadrature", "_bc_quadrature"):
                return Obj("rules", which="bc")
            if name in ("discrete_spaces_destination_indexes", "discrete_spaces_bc_destination_indexes",
                        "destination_indexes", "bc_destination_indexes"):
                return Bound(o, name)
            if name == "n_dof":
                return Poly.a(("ndofglobal",))
        if k == "spaces":
            return Bound(o, name)
        if k == "functions":
            return Bound(o, name)
        if k == "space":
            f = o.a["f"]
            if name == "n_comp":
                return self.inst["fields"][f][1]
            if name == "elements":
                return Obj("elements", f=f)
            if name == "bc_elements":
                return Obj("bc_elements", f=f)
            if name == "family":
                return Obj("family", name=self.inst["fields"][f][0])
            if name == "dof_map":
                return Obj("dofmap", f=f)
            if name == "id_to_element":
                return Obj("id_to_element", f=f)
            if name == "name":
                return f
            if name == "mesh_topology":
                return Obj("meshtopo")
            if name == "dimension":
                return self.inst["dim"]
        if k == "dofmap" and name == "mesh_topology":
            return Obj("meshtopo")
        if k == "elem":
            if name == "data":
                return Obj("data", f=o.a["f"], tag=o.a["tag"])
            if name in ("evaluate_mapping", "evaluate_basis"):
                return Bound(o, name)
        if k == "data":
            t = o.a["tag"]
            if name == "cell":
                return Obj("cell", tag=t)
            if name == "mesh":
                return Obj("mesh")
            if name == "dof":
                return Obj("dof", f=o.a["f"], tag=t)
            if name in ("quadrature", "mapping"):
                self.event("stale", "element data '%s' is read but never filled by the library" % name, n)
                return Top("stale " + name)
        if k == "dof" and name == "entity_dofs":
            return Obj("entity_dofs", f=o.a["f"], tag=o.a["tag"])
        if k == "dof" and name == "n_dof":
            return nphi(self.fkey(o.a["f"], o.a["tag"]))
        if k == "cell":
            if name == "dimension":
                return self.celldim(o.a["tag"])
            if name == "id":
                return Obj("cellid", tag=o.a["tag"])
            if name == "sub_cells_ids":
                return Obj("subcells", tag=o.a["tag"])
        if k in ("subcell_list", "subcell_arr") and name == "tolist":
            return Bound(o, name)
        if k in ("subcell_list",) and name == "index":
            return Bound(o, name)
        if k == "points":
            if name == "shape":
                return (NQ, Top("point dimension"))
        return self.obj_method(o, name, n)

    def obj_method(self, o, name, n):
        raise Unsupported("attribute %s of %s" % (name, o.kind))

    def celldim(self, tag):
        return {"E": self.inst["dim"], "B": self.inst["dim"] - 1, "N": self.inst["dim"]}[tag]

    def fkey(self, f, tag):
        return f if tag == self.inst["tag"] else f + "@" + tag

    # -- subscripts ---------------------------------------------------------------
    def e_Subscript(self, n, env):
        o = self.expr(n.value, env)
        if isinstance(o, Top):
            return o
        idx = self.expr(n.slice, env)
        return self.subscript(o, idx, n)

    def subscript(self, o, idx, n):
        if isinstance(idx, Top):
            return idx
        if isinstance(idx, tuple) and any(isinstance(i, Top) for i in idx):
            return [i for i in idx if isinstance(i, Top)][0]
        if isinstance(o, Coef):
            return self.coef_index(o, idx, n)
        if isinstance(o, Array):
            return AA.getitem(o, self.fix_index(idx))
        if isinstance(o, dict):
            k = idx
            ki = to_int(idx) if not isinstance(idx, (str, Obj, tuple)) else None
            if ki is not None and ki in o:
                k = ki
            if k in o:
                return o[k]
            raise Unsupported("key %r" % (idx,))
        if isinstance(o, (list, tuple, str)):
            if isinstance(idx, slice):
                b = [None if x is None else to_int(x) for x in (idx.start, idx.stop, idx.step)]
                return o[slice(*b)]
            k = to_int(idx)
            if k is None:
                raise Unsupported("list index %r" % (idx,))
            if not -len(o) <= k < len(o):
                raise Mismatch("shape", "index %d out of range for a sequence of %d" % (k, len(o)))
            return o[k]
        if isinstance(o, SymSeq):
            if o.dom.kind == "q" and isinstance(idx, QIdx):
                return o.elem
            if o.dom.kind == "d" and isinstance(idx, Poly):
                raise Unsupported("sequence index")
            raise Unsupported("symbolic sequence index")
        if isinstance(o, Obj):
            return self.getitem_obj(o, idx, n)
        if isinstance(o, Der):
            raise Unsupported("derivative index")
        raise Unsupported("subscript of %r" % (o,))

    def fix_index(self, idx):
        if isinstance(idx, tuple):
            return tuple(self.fix_index(i) for i in idx)
        if isinstance(idx, Array) and not idx.axes:
            return idx.get(())
        return idx

    def getitem_obj(self, o, idx, n):
        k = o.kind
        if k == "spaces":
            if isinstance(idx, str):
                if idx in self.inst["fields"]:
                    return Obj("space", f=idx)
                raise Unsupported("field %s" % idx)
        if k == "functions":
            if isinstance(idx, str):
                self.coefs_used.add(idx)
                return CoefFn(idx)
            if isinstance(idx, Obj):
                raise Unsupported("functions key")
        if k == "rules":
            d = to_int(idx)
            if d is None:
                raise Unsupported("rule index")
            tag = self.inst["tag"]
            dim = self.inst["dim"]
            want = ("int", dim) if tag == "E" else ("bc", dim - 1)
            which = o.a["which"]
            if (which, d) == want:
                t = tag
            else:
                self.event("quadrature", "%s rule of dimension %s is used for cells of dimension %d"
                           % ("boundary" if which == "bc" else "interior", d, want[1]), n)
                t = "bad"
            return (Obj("points", tag=t), Array([Q()], {("q",): Poly.a(("W", t))}, role=("W", t)))
        if k in ("elements", "bc_elements"):
            f = o.a["f"]
            tag = "E" if k == "elements" else "B"
            if isinstance(idx, Obj) and idx.kind == "elemidx":
                if idx.a["tag"] == "N" and k == "elements":
                    if idx.a["f"] != f:
                        pass
                    return Obj("elem", f=f, tag="N", iel="neigh")
                if idx.a["tag"] == "N":
                    self.event("kind", "position of an interior element used in the boundary element list", n)
                    return Top("kind")
                if idx.a.get("src") in (None, tag):
                    if self.inst["tag"] == tag:
                        return Obj("elem", f=f, tag=tag, iel=idx.a["name"])
                    self.event("kind", "element position of the %s elements used in the %s element list"
                               % ("interior" if self.inst["tag"] == "E" else "boundary",
                                  "interior" if tag == "E" else "boundary"), n)
                    return Top("kind")
            if isinstance(idx, Obj) and idx.kind in ("cellid", "gnode", "gdim"):
                self.event("kind", "%s used as a position in the element list" % KINDNAME[idx.kind], n)
                return Top("kind")
            raise Unsupported("element index")
        if k == "id_to_element":
            if isinstance(idx, Obj) and idx.kind == "cellid":
                return Obj("elemidx", tag=idx.a["tag"], f=o.a["f"], name="via id")
            if isinstance(idx, Obj) and idx.kind in ("gnode", "elemidx", "gdim"):
                self.event("kind", "%s used as a cell identifier" % KINDNAME[idx.kind], n)
                return Top("kind")
        if k == "neighs":
            if to_int(idx) is not None:
                return Obj("gnode", tag="N")
        if k == "gnode":
            i = to_int(idx)
            if i in (1, -1):
                return Obj("cellid", tag=o.a["tag"])
            if i in (0, -2):
                return Obj("gdim", tag=o.a["tag"])
        if k == "subcells":
            if to_int(idx) is not None:
                d = to_int(idx)
                return Obj("subcell_arr", tag=o.a["tag"], d=d)
            if isinstance(idx, Obj) and idx.kind == "gdim":
                return Top("x")
        if k == "entity_dofs":
            d = to_int(idx)
            if d is not None:
                return Obj("entity_dofs_d", f=o.a["f"], tag=o.a["tag"], d=d)
        if k == "entity_dofs_d":
            if isinstance(idx, Obj) and idx.kind == "facetidx":
                okk = idx.a["own"] == o.a["tag"] and o.a["d"] == self.celldim("B") and idx.a["d"] == o.a["d"]
                if not okk:
                    self.event("kind", "facet number of another entity dimension or cell selects the trace unknowns", n)
                    return Top("facet")
                return FacetDofs(self.fkey(o.a["f"], "N"), self.fkey(o.a["f"], "B"))
        if k == "cellid" or k == "elemidx":
            raise Unsupported("subscript of identifier")
        if k == "points":
            if isinstance(idx, QIdx):
                return Obj("point", tag=o.a["tag"])
        if k == "destmap":
            if isinstance(idx, str):
                return Obj("dest", f=idx)
        if k == "galpha" and isinstance(idx, Obj) and idx.kind == "dest":
            f = idx.a["f"]
            d = D([(f, self.inst["fields"][f][1])])
            return Array([d], {((f, c),): Poly.a(("al", "alpha", f, c, d.var)) for c in range(self.inst["fields"][f][1])})
        raise Unsupported("subscript of %s" % k)

    def store(self, t, v, env, mode):
        o = self.expr(t.value, env)
        idx = self.expr(t.slice, env)
        if isinstance(o, dict):
            k = to_int(idx) if not isinstance(idx, (str, Obj, tuple)) else idx
            if k is None:
                raise Unsupported("dict key")
            if mode == "set":
                o[k] = v
            else:
                o[k] = self.binop({"add": ast.Add(), "sub": ast.Sub(), "mul": ast.Mult(), "div": ast.Div()}[mode],
                                  o[k], v, t)
            return
        if isinstance(o, list):
            k = to_int(idx)
            if k is None:
                raise Unsupported("list store")
            if mode == "set":
                o[k] = v
            else:
                cur = o[k]
                new = self.binop({"add": ast.Add(), "sub": ast.Sub(), "mul": ast.Mult(), "div": ast.Div()}[mode],
                                 cur, v, t)
                if isinstance(cur, Array) and isinstance(new, Array) and len(cur.axes) == len(new.axes):
                    self.inplace(cur, new)
                else:
                    o[k] = new
            return
        if isinstance(o, Top):
            return
        if not isinstance(o, Array):
            raise Unsupported("store into %r" % (o,))
        if o.role is not None:
            self.event("mutate", "%s is modified in place" % (o.role,), t)
            o.role = None
        try:
            if isinstance(v, Top) or isinstance(idx, Top) or (isinstance(idx, tuple) and any(isinstance(i, Top) for i in idx)):
                raise Unsupported("unknown value")
            if isinstance(v, Coef):
                v = self.num(v)
            if isinstance(v, (list, tuple, SymSeq)):
                v = self.num(v)
            AA.setitem(o, self.fix_index(idx), v, mode)
        except Mismatch as e:
            self.event(e.kind, str(e), t)
            self.poison(o, "mismatch")
        except Unsupported as e:
            self.top(str(e), t)
            try:
                axes, sel, ren = AA.plan_index(o, self.fix_index(idx))
                AA.setitem(o, self.fix_index(idx), topp(str(e)), "set")
            except (Unsupported, Mismatch):
                self.poison(o, str(e))

    def poison(self, o, why):
        for k in o.keys():
            o.el[k] = topp(why)

    # -- calls ------------------------------------------------------------------
    def e_Call(self, n, env):
        # super().__init__ and friends are irrelevant
        f = self.expr(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, env)
                if isinstance(v, Array) and v.axes and isinstance(v.axes[0], C):
                    v = self.iterate(v, n)
                if not isinstance(v, (list, tuple)):
                    raise Unsupported("starred call")
                args.extend(v)
            else:
                args.append(self.expr(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.expr(k.value, env)
                if not isinstance(v, dict):
                    raise Unsupported("double star")
                kw.update(v)
            else:
                kw[k.arg] = self.expr(k.value, env)
        return self.call(f, args, kw, n, env)

    def call(self, f, args, kw, n, env=None):
        if isinstance(f, Top):
            return f
        if isinstance(f, Fn):
            r = self.api(f.fi, args, kw, n)
            if r is not NotImplemented:
                return r
            a = ([f.self_obj] if f.self_obj is not None else []) + args
            try:
                return self.call_fn(f.fi.node, f.fi.module, f.fi.cls, a, kw, None)
            except RaiseEx:
                raise Unsupported("call raises")
        if isinstance(f, Closure):
            return self.call_fn(f.node, f.module, f.cls, args, kw, f.env)
        if isinstance(f, Partial):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.fn, list(f.args) + args, k2, n, env)
        if isinstance(f, CoefFn):
            return self.call_coef(f, args, n)
        if isinstance(f, NpFn):
            return self.call_np(f.name, args, kw, n)
        if isinstance(f, Bound):
            return self.call_bound(f, args, kw, n)
        if isinstance(f, ClsRef):
            raise Unsupported("constructor %s" % f.ci.name)
        raise Unsupported("call of %r" % (f,))

    def call_coef(self, f, args, n):
        self.coefs_used.add(f.key)
        if any(isinstance(a, Top) for a in args):
            return [a for a in args if isinstance(a, Top)][0]
        tag = None
        vec = None
        okk = len(args) == 3
        for k, a in enumerate(args):
            if isinstance(a, Poly):
                pt, p = True, a
            elif isinstance(a, Array) and len(a.axes) == 1 and isinstance(a.axes[0], Q):
                pt, p = False, a.get(("q",))
            else:
                raise Unsupported("coefficient argument")
            if p.top:
                raise Unsupported("coefficient argument")
            if vec is None:
                vec = not pt
            elif vec != (not pt):
                okk = False
            at = list(p.t.items())
            good = False
            if len(at) == 1 and at[0][1] == 1 and len(at[0][0]) == 1 and at[0][0][0][1] == 1:
                x = atom_of(at[0][0][0][0])
                if x[0] == "x" and x[2] == k:
                    good = True
                    if tag is None:
                        tag = x[1]
                    elif tag != x[1]:
                        good = False
            if not good:
                okk = False
        if not okk:
            self.event("coords", "coefficient %s is not evaluated at the coordinates of the integration "
                       "point in order" % f.key, n)
            tag = "badx"
        shapes = self.inst.get("shapes")
        if shapes is not None:
            # given functions whose values have a known shape
            if f.key not in shapes:
                self.event("function", "the function %s is not one of the given ones" % f.key, n)
                return Top("function")
            keys = [()]
            for d in shapes[f.key]:
                keys = [k + (i,) for k in keys for i in range(d)]
            el = {k + (("q",) if vec else ()): Poly.a(("coef", f.key, tag, k)) for k in keys}
            return simplify(Array([C(d) for d in shapes[f.key]] + ([Q()] if vec else []), el))
        return Coef(f.key, tag, bool(vec))

    def api(self, fi, args, kw, n):
        nm = fi.name
        if nm == "find_higher_dimension_neighs":
            c = args[0] if args else kw.get("cell")
            if isinstance(c, Obj) and c.kind == "cell" and c.a["tag"] == "B":
                return Obj("neighs", tag="N")
            raise Unsupported("neighbours of %r" % (c,))
        if nm == "transform_lower_to_higher":
            vals = list(args) + [kw[k] for k in fi.params[len(args):] if k in kw]
            if len(vals) == 3 and all(isinstance(v, Obj) for v in vals):
                p, d1, d0 = vals
                if p.kind == "points" and d1.kind == "data" and d0.kind == "data":
                    if p.a["tag"] == "B" and d1.a["tag"] == "B" and d0.a["tag"] == "N":
                        self.facts.append("transform_lower_to_higher at %s" % loc(self.mod, n))
                        return Obj("points", tag="N")
                    self.event("trace", "boundary points are mapped with the wrong cells or points", n)
                    return Obj("points", tag="bad")
            raise Unsupported("transform_lower_to_higher")
        if nm == "normal" and fi.module.name.endswith("compute_normal"):
            vals = list(args) + [kw[k] for k in fi.params[len(args):] if k in kw]
            if len(vals) == 3 and all(isinstance(v, Obj) for v in vals):
                m, c0, c1 = vals
                if c0.kind == "cell" and c1.kind == "cell":
                    okk = c0.a["tag"] == "N" and c1.a["tag"] == "B"
                    if not okk:
                        self.event("trace", "the normal is not computed for (neighbour cell, boundary cell)", n)
                    nm_ = "nrm" if okk else "nrmbad"
                    return Array([C(3)], {(i,): Poly.a((nm_, i)) for i in range(3)})
            raise Unsupported("normal")
        if nm == "family_by_name":
            v = args[0] if args else kw.get("family")
            if isinstance(v, str):
                return Obj("family", name=v)
            raise Unsupported("family")
        if nm in ("type_by_dimension", "basis_variant"):
            raise Unsupported(nm)
        return NotImplemented

    def points_tag(self, o):
        return o.a["tag"] if isinstance(o, Obj) and o.kind == "points" else None

    def call_bound(self, f, args, kw, n):
        r, name = f.recv, f.name
        if isinstance(r, Obj):
            return self.call_obj(r, name, args, kw, n)
        if isinstance(r, list):
            if name == "append":
                r.append(args[0])
                return None
            if name == "insert":
                r.insert(to_int(args[0]), args[1])
                return None
            if name == "extend":
                if isinstance(args[0], (list, tuple)):
                    r.extend(args[0])
                    return None
            if name == "index":
                return r.index(args[0])
            if name == "copy":
                return list(r)
            if name == "pop":
                return r.pop(*[to_int(a) for a in args])
            raise Unsupported("list.%s" % name)
        if isinstance(r, dict):
            if name == "items":
                return list(r.items())
            if name == "keys":
                return list(r.keys())
            if name == "values":
                return list(r.values())
            if name == "get":
                return r.get(args[0], args[1] if len(args) > 1 else None)
            if name == "__setitem__":
                r[args[0]] = args[1]
                return None
            if name == "__getitem__":
                return r[args[0]]
            if name == "update":
                r.update(args[0])
                return None
            raise Unsupported("dict.%s" % name)
        if isinstance(r, str):
            return "<str>"
        if isinstance(r, tuple):
            if name == "index":
                return r.index(args[0])
            raise Unsupported("tuple.%s" % name)
        if isinstance(r, Der):
            if name == "reshape":
                shp = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
                if len(shp) == 2 and len(r.arr.axes) in (1, 2):
                    L = ONE
                    for ax in r.arr.axes:
                        L = L * lift(AA.axis_len(ax))
                    a0, a1 = lift(shp[0]), lift(shp[1])
                    minus = lambda q: q.is_const() and q.constval() == -1
                    if (minus(a0) or (a0 - L).is_zero()) and (minus(a1) or (a1 - L).is_zero()):
                        return Der(r.arr, True, r.tr)
                raise Unsupported("derivative reshape")
            if name in ("copy", "squeeze"):
                return Der(r.arr, r.mat, r.tr)
            if name == "trace":
                return Der(as_array(self.np_trace([r.arr], kw)))
            raise Unsupported("derivative.%s" % name)
        # arrays, scalars, coefficients
        if name == "reshape":
            shp = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
            return simplify(AA.reshape(self.num(r), list(shp)))
        if name in ("ravel", "flatten"):
            return simplify(AA.ravel(self.num(r)))
        if name == "copy":
            return r.copy() if isinstance(r, Array) else r
        if name == "astype":
            return r
        if name == "squeeze":
            a = self.num(r)
            keep = [i for i, ax in enumerate(a.axes) if not (isinstance(ax, C) and ax.n == 1)]
            return simplify(Array([a.axes[i] for i in keep], {tuple(k[i] for i in keep): v for k, v in a.el.items()}))
        if name == "tolist":
            return r
        if name == "item":
            return simplify(self.num(r))
        if name in ("dot", "sum", "trace", "transpose", "mean", "repeat", "conj", "swapaxes"):
            return self.call_np(name, [r] + list(args), kw, n)
        if name == "fill" and isinstance(r, Array):
            v = lift(args[0])
            for k in r.keys():
                r.el[k] = v
            return None
        raise Unsupported("method %s" % name)

    def call_obj(self, r, name, args, kw, n):
        k = r.kind
        if k == "spaces":
            fs = list(self.inst["fields"])
            if name == "items":
                return [(f, Obj("space", f=f)) for f in fs]
            if name == "values":
                return [Obj("space", f=f) for f in fs]
            if name == "keys":
                return fs
            if name == "get" and isinstance(args[0], str) and args[0] in fs:
                return Obj("space", f=args[0])
        if k == "functions":
            if name == "get" and args and isinstance(args[0], str):
                self.coefs_used.add(args[0])
                return CoefFn(args[0])
        if k == "elem":
            f, tag = r.a["f"], r.a["tag"]
            if name == "evaluate_mapping":
                P = args[0] if args else kw.get("points")
                pt = self.points_tag(P)
                if pt is None:
                    raise Unsupported("mapping at %r" % (P,))
                t = tag
                if pt != tag:
                    if pt != "bad":
                        self.event("pairing", "mapping of a %s cell evaluated at %s points"
                                   % (TAGNAME[tag], TAGNAME.get(pt, pt)), n)
                    t = "%s|%s" % (tag, pt)
                self.facts.append("evaluate_mapping at %s" % loc(self.mod, n))
                d = self.celldim(tag)
                x = Array([Q(), C(3)], {("q", i): Poly.a(("x", t, i)) for i in range(3)}, ("x", t))
                jac = Array([Q(), C(3), C(d)], {("q", i, j): Poly.a(("Jac", t, i, j)) for i in range(3)
                                                for j in range(d)}, ("jac", t))
                dj = Array([Q()], {("q",): Poly.a(("J", t))}, ("det_jac", t))
                ij = Array([Q(), C(d), C(3)], {("q", i, j): Poly.a(("iJ", t, i, j)) for i in range(d)
                                               for j in range(3)}, ("inv_jac", t))
                return (x, jac, dj, ij)
            if name == "evaluate_basis":
                fi = None
                names = ["points", "jac", "det_jac", "inv_jac"]
                vals = list(args) + [kw[q] for q in names[len(args):] if q in kw]
                if len(vals) != 4:
                    self.event("arity", "evaluate_basis called with %d argument(s)" % len(vals), n)
                    return Top("arity")
                if any(isinstance(v, Top) for v in vals):
                    return [v for v in vals if isinstance(v, Top)][0]
                pt = self.points_tag(vals[0])
                if pt is None:
                    raise Unsupported("basis at %r" % (vals[0],))
                bad = False
                if pt != tag:
                    bad = True
                    if pt != "bad":
                        self.event("pairing", "basis of a %s element evaluated at %s points"
                                   % (TAGNAME[tag], TAGNAME.get(pt, pt)), n)
                for role, v in zip(names[1:], vals[1:]):
                    if not isinstance(v, Array) or v.role is None:
                        raise Unsupported("mapping data of unknown origin")
                    if v.role != (role, tag):
                        bad = True
                        if v.role[0] != role:
                            self.event("pairing", "argument %s of evaluate_basis receives %s" % (role, v.role[0]), n)
                        elif "|" not in v.role[1] and v.role[1] != "bad":
                            self.event("pairing", "%s of a %s cell passed to the basis of a %s element"
                                       % (role, TAGNAME.get(v.role[1], v.role[1]), TAGNAME[tag]), n)
                self.facts.append("evaluate_basis at %s" % loc(self.mod, n))
                fam = self.inst["fields"][f][0]
                d = self.celldim(tag)
                nc = 1 if fam == "Lagrange" else 3
                t = tag if not bad else tag + "!"
                lay = (self.fkey(f, tag), 1)
                dax = D([lay])
                el = {}
                for dd in range(1 + d):
                    for c in range(nc):
                        el[(dd, "q", (lay[0], 0), c)] = Poly.a(("phi", f, t, dd, c, dax.var))
                return Array([C(1 + d), Q(), dax, C(nc)], el, ("basis", f))
        if k in ("subcell_arr",) and name == "tolist":
            return Obj("subcell_list", **r.a)
        if k == "subcell_list" and name == "index":
            c = args[0]
            if isinstance(c, Obj) and c.kind == "cellid":
                return Obj("facetidx", own=r.a["tag"], d=r.a["d"], cell=c.a["tag"])
            if isinstance(c, Obj) and c.kind in ("elemidx", "gnode"):
                self.event("kind", "%s looked up among sub-cell identifiers" % KINDNAME[c.kind], n)
                return Top("kind")
        if k == "pspace" and name == "discrete_spaces_destination_indexes":
            i = args[0]
            if isinstance(i, Obj) and i.kind == "elemidx":
                return Obj("destmap")
        raise Unsupported("%s.%s" % (k, name))

    # numpy ---------------------------------------------------------------------
    def call_np(self, name, args, kw, n):
        if name.startswith("ext."):
            return self.call_ext(name[4:], args, kw, n)
        if name.startswith("builtin."):
            return self.call_builtin(name[8:], args, kw, n)
        if any(isinstance(a, Top) for a in args):
            return [a for a in args if isinstance(a, Top)][0]
        m = getattr(self, "np_" + name.replace(".", "_"), None)
        if m is None:
            raise Unsupported("numpy.%s" % name)
        r = m(list(args), kw)
        return r

    def call_ext(self, name, args, kw, n):
        if name.endswith("AutoDiff"):
            a = args[0]
            if isinstance(a, Top):
                return a
            if isinstance(a, Array) and a.role == ("state", "alpha"):
                self.ad_state = "caller"
            elif isinstance(a, Array):
                zero = all(p.is_zero() for p in a.el.values()) and len(a.axes) == 1
                same = False
                if len(a.axes) in (1, 2):
                    same = all(len(p.t) == 1 and atom_of(list(p.t)[0][0][0])[0] == "al" for p in a.el.values()
                               if not p.top and p.t) and bool(a.el) and not zero
                if same and not a.has_top():
                    self.ad_state = "caller"
                elif a.has_top():
                    self.ad_state = None
                else:
                    self.ad_state = "other"
                    self.event("state", "the form is differentiated at a vector that is not the caller's state", n)
            # differentiation variable: generic state with row layout
            return Obj("autodiff", arr=self.state_row())
        if name.endswith("VecValDer"):
            v, d = args[0], args[1]
            if isinstance(v, Top) or isinstance(d, Top):
                return v if isinstance(v, Top) else d
            if isinstance(d, Der):
                va = self.num(v)
                try:
                    df = AA.diff_arrays(va, d.arr)
                    okk = all(is_identically_zero(p) is not False for p in df.el.values())
                except Mismatch:
                    okk = False
                if not okk:
                    self.event("valder", "value and derivative of one quantity are built from different "
                               "expressions", n)
                return simplify(va)
            raise Unsupported("VecValDer")
        if name.endswith("functools.partial") or name == "functools.partial":
            return Partial(args[0], args[1:], kw)
        raise Unsupported("call %s" % name)

    def state_row(self):
        lay = [(self.fkey(f, self.inst["tag"]), k) for f, (fam, k) in self.inst["fields"].items()]
        d = D(lay)
        el = {}
        for f, (fam, k) in self.inst["fields"].items():
            for c in range(k):
                el[(0, (self.fkey(f, self.inst["tag"]), c))] = Poly.a(("al", "alpha", f, c, d.var))
        return Array([C(1), d], el)

    def state_vec(self, nm="alpha", role=True):
        a = self.state_row()
        d = a.axes[1]
        el = {}
        for f, (fam, k) in self.inst["fields"].items():
            for c in range(k):
                el[((self.fkey(f, self.inst["tag"]), c),)] = Poly.a(("al", nm, f, c, d.var))
        return Array([d], el, ("state", nm) if role else None)

    def call_builtin(self, name, args, kw, n):
        if name == "range":
            vals = [to_int(a) for a in args]
            if all(v is not None for v in vals):
                return range(*vals)
            if len(args) == 2 and to_int(args[0]) == 0:
                args = args[1:]
            if len(args) == 1:
                p = args[0]
                if isinstance(p, Top):
                    return p
                p = lift(p)
                if (p - NQ).is_zero():
                    return SymSeq(Dom("q"), QIdx())
                if len(p.t) == 1:
                    (m, c), = p.t.items()
                    if c == 1 and len(m) == 1 and m[0][1] == 1 and atom_of(m[0][0])[0] == "n":
                        f = atom_of(m[0][0])[1]
                        v = fresh_var()
                        return SymSeq(Dom("d", f, v), Poly.a(("idx", f, v)))
            raise Unsupported("range")
        if name == "len":
            a = args[0]
            if isinstance(a, (list, tuple, dict, str, range)):
                return len(a)
            if isinstance(a, Array) and a.axes:
                return AA.axis_len(a.axes[0])
            if isinstance(a, Obj) and a.kind == "points":
                return NQ
            if isinstance(a, Obj) and a.kind == "neighs":
                return Poly.a(("nneigh",))
            if isinstance(a, SymSeq) and a.dom.kind == "q":
                return NQ
            if isinstance(a, SymSeq) and a.dom.kind == "d":
                return nphi(a.dom.f)
            if isinstance(a, Coef) and a.vec and not a.idx:
                raise Unsupported("len of coefficient")
            raise Unsupported("len")
        if name == "enumerate":
            it = self.iterate(args[0], n)
            start = to_int(args[1]) if len(args) > 1 else to_int(kw.get("start", 0))
            if isinstance(it, list):
                return [(i + start, v) for i, v in enumerate(it)]
            if it.dom.kind == "q" and start == 0:
                return SymSeq(it.dom, (QIdx(), it.elem))
            if it.dom.kind == "d" and start == 0:
                return SymSeq(it.dom, (Poly.a(("idx", it.dom.f, it.dom.v)), it.elem))
            if it.dom.kind == "el" and start == 0:
                return SymSeq(it.dom, (Obj("elemidx", tag="E", f=it.dom.space, name="loop"), it.elem))
            raise Unsupported("enumerate")
        if name == "zip":
            its = [self.iterate(a, n) for a in args]
            if all(isinstance(i, list) for i in its):
                return [tuple(t) for t in zip(*its)]
            if all(isinstance(i, SymSeq) and i.dom.kind == "q" for i in its):
                return SymSeq(its[0].dom, tuple(i.elem for i in its))
            raise Unsupported("zip")
        if name in ("list", "tuple"):
            if not args:
                return [] if name == "list" else ()
            it = self.iterate(args[0], n)
            if isinstance(it, list):
                return list(it) if name == "list" else tuple(it)
            return it
        if name == "map":
            it = self.iterate(args[1], n)
            if len(args) != 2:
                raise Unsupported("map")
            if isinstance(it, list):
                return [self.call(args[0], [v], {}, n) for v in it]
            self.loopstack.append(it.dom)
            try:
                v = self.call(args[0], [it.elem], {}, n)
            finally:
                self.loopstack.pop()
            if isinstance(v, Top):
                return v
            return SymSeq(it.dom, v)
        if name == "slice":
            a = list(args)
            if len(a) == 1:
                return slice(None, a[0], None)
            return slice(*a)
        if name == "float" or name == "int":
            return args[0]
        if name == "sum":
            it = self.iterate(args[0], n)
            acc = args[1] if len(args) > 1 else 0
            if isinstance(it, list):
                for v in it:
                    acc = self.binop(ast.Add(), acc, v, n)
                return acc
            return self.binop(ast.Add(), acc, self.sum_seq(it), n)
        if name == "abs":
            return simplify(AA.unary(lambda p: Poly.a(("abs", repr(p))) if not p.is_const()
                                     else Poly.const(abs(p.constval())), self.num(args[0])))
        if name == "dict":
            if not args:
                return dict(kw)
            if isinstance(args[0], list):
                return dict(args[0])
            if isinstance(args[0], dict):
                return dict(args[0])
        if name == "isinstance":
            raise Unsupported("isinstance")
        if name == "print":
            return None
        if name in ("min", "max") and all(to_int(a) is not None for a in args) and args:
            return (min if name == "min" else max)(to_int(a) for a in args)
        if name == "reversed":
            it = self.iterate(args[0], n)
            if isinstance(it, list):
                return list(reversed(it))
        if name == "pow":
            return self.binop(ast.Pow(), args[0], args[1], n)
        if name in ("sorted",):
            it = self.iterate(args[0], n)
            if isinstance(it, list) and all(isinstance(x, (int, str)) for x in it):
                return sorted(it)
        if name in ("any", "all"):
            it = self.iterate(args[0], n)
            if isinstance(it, list):
                cs = [self.cond(x) for x in it]
                if all(isinstance(c, bool) for c in cs):
                    return any(cs) if name == "any" else all(cs)
                if all(c is not None for c in cs):
                    return BoolC("or" if name == "any" else "and", cs)
        if name == "str":
            return "<str>"
        if name == "super":
            return Top("super")
        raise Unsupported("builtin %s" % name)

    def sum_seq(self, seq):
        v = self.num(seq.elem)
        if seq.dom.kind == "q":
            return simplify(AA.unary(lambda p: p * SUM, v))
        if seq.dom.kind == "el":
            es = Poly.a(("ESUM",))
            return simplify(AA.unary(lambda p: p * es, v))
        return simplify(AA.unary(lambda p: AA.contract_var(p, seq.dom.v, seq.dom.f), v))

    # numpy function models
    def np_array(self, args, kw):
        v = args[0]
        return self.to_arr(v)

    np_asarray = np_array

    def to_arr(self, v):
        if isinstance(v, Array):
            return v.copy() if v.axes else v
        if isinstance(v, (int, float, Fraction, Poly)) and not isinstance(v, bool):
            return lift(v)
        if isinstance(v, Coef):
            return v
        if isinstance(v, SymSeq):
            if isinstance(v.elem, Coef):
                if v.dom.kind == "q":
                    c = v.elem
                    # stacking point values puts the point axis first
                    return CoefStack(c)
                raise Unsupported("array of coefficients")
            e = self.to_arr(v.elem)
            if isinstance(e, Top):
                return e
            e = as_array(e)
            if v.dom.kind == "q":
                return AA.add_axis0(e, Q())
            if v.dom.kind == "d":
                return AA.add_axis0(e, D([(v.dom.f, 1)], v.dom.v))
            raise Unsupported("array over elements")
        if isinstance(v, (list, tuple)):
            if any(isinstance(x, Top) for x in v):
                return [x for x in v if isinstance(x, Top)][0]
            if any(isinstance(x, (str, bool, Obj)) for x in v):
                raise Unsupported("array of objects")
            parts = [self.to_arr(x) for x in v]
            for x in parts:
                if isinstance(x, Top):
                    return x
            parts = [self.num(x) if isinstance(x, Coef) else as_array(x) for x in parts]
            return AA.stack(parts)
        if isinstance(v, Top):
            return v
        if isinstance(v, Der):
            raise Unsupported("array of derivatives")
        raise Unsupported("array from %r" % (v,))

    def shape_axes(self, shp):
        if not isinstance(shp, (tuple, list)):
            shp = (shp,)
        axes = []
        fields = self.inst["fields"]
        for s in shp:
            k = to_int(s)
            if k is not None:
                axes.append(C(k))
                continue
            p = lift(s)
            if p.top:
                raise Unsupported("array of unknown length")
            if (p - NQ).is_zero():
                axes.append(Q())
                continue
            lay = {}
            for m, c in p.t.items():
                if len(m) != 1 or m[0][1] != 1 or atom_of(m[0][0])[0] != "n" or c.denominator != 1 or c < 1:
                    raise Unsupported("array of length %r" % p)
                lay[atom_of(m[0][0])[1]] = int(c)
            order = [self.fkey(f, self.inst["tag"]) for f in fields]
            order += [f + "@" + t for f in fields for t in ("E", "B", "N")]
            axes.append(D([(f, lay[f]) for f in order if f in lay]))
        return axes

    def np_zeros(self, args, kw):
        shp = args[0] if args else kw["shape"]
        return Array(self.shape_axes(shp), {})

    def np_empty(self, args, kw):
        a = Array(self.shape_axes(args[0]), {})
        for k in a.keys():
            a.el[k] = topp("uninitialised")
        return a

    def np_ones(self, args, kw):
        a = Array(self.shape_axes(args[0]), {})
        for k in a.keys():
            a.el[k] = ONE
        return a

    def np_full(self, args, kw):
        a = Array(self.shape_axes(args[0]), {})
        for k in a.keys():
            a.el[k] = lift(args[1])
        return a

    def np_zeros_like(self, args, kw):
        a = self.num(args[0])
        return Array(a.axes, {}).refreshed()

    def np_ones_like(self, args, kw):
        a = self.num(args[0])
        return Array(a.axes, {k: ONE for k in a.keys()}).refreshed()

    def np_identity(self, args, kw):
        k = to_int(args[0])
        if k is None:
            raise Unsupported("identity")
        return Array([C(k), C(k)], {(i, i): ONE for i in range(k)})

    def np_eye(self, args, kw):
        return self.np_identity(args, kw)

    def np_diag(self, args, kw):
        a = self.num(args[0])
        if a.ndim == 1 and isinstance(a.axes[0], C):
            return Array([a.axes[0], a.axes[0]], {(k[0], k[0]): p for k, p in a.el.items()})
        raise Unsupported("diag")

    def derwrap(self, args, f):
        """apply f to arrays, mapping derivatives alongside"""
        flat = args
        if any(isinstance(x, Der) for x in flat):
            if not all(isinstance(x, Der) for x in flat):
                raise Unsupported("value mixed with derivative")
            return Der(as_array(f([x.arr for x in flat])))
        return simplify(f([self.num(x) for x in flat]))

    def seq_list(self, v):
        if isinstance(v, (list, tuple)):
            if any(isinstance(x, Top) for x in v):
                raise Unsupported("unknown part")
            return list(v)
        if isinstance(v, Array) and v.axes and isinstance(v.axes[0], C):
            return [AA.getitem(v, i) for i in range(v.axes[0].n)]
        raise Unsupported("sequence %r" % (v,))

    def np_vstack(self, args, kw):
        def f(xs):
            ys = []
            for x in xs:
                x = as_array(x)
                if x.ndim == 0:
                    x = Array([C(1), C(1)], {(0, 0): x.get(())})
                elif x.ndim == 1:
                    x = Array([C(1)] + x.axes, {(0,) + k: p for k, p in x.el.items()})
                ys.append(x)
            return AA.concat(ys, 0)
        return self.derwrap(self.seq_list(args[0]), f)

    np_row_stack = np_vstack

    def np_hstack(self, args, kw):
        def f(xs):
            ys = []
            for x in xs:
                x = as_array(x)
                if x.ndim == 0:
                    x = Array([C(1)], {(0,): x.get(())})
                ys.append(x)
            return AA.concat(ys, 0 if ys[0].ndim == 1 else 1)
        return self.derwrap(self.seq_list(args[0]), f)

    def np_concatenate(self, args, kw):
        ax = kw.get("axis", args[1] if len(args) > 1 else 0)
        return self.derwrap(self.seq_list(args[0]), lambda xs: AA.concat(xs, to_int(ax)))

    def np_column_stack(self, args, kw):
        def f(xs):
            ys = []
            for x in xs:
                if x.ndim == 1:
                    x = Array(x.axes + [C(1)], {k + (0,): p for k, p in x.el.items()})
                ys.append(x)
            return AA.concat(ys, 1)
        return self.derwrap(self.seq_list(args[0]), f)

    def np_stack(self, args, kw):
        ax = to_int(kw.get("axis", args[1] if len(args) > 1 else 0))

        def f(xs):
            s = AA.stack(xs)
            if ax == 0:
                return s
            n = s.ndim
            perm = list(range(1, n))
            perm.insert(ax % n, 0)
            return AA.transpose(s, tuple(perm))
        v = args[0]
        if isinstance(v, SymSeq) and ax == 0:
            return self.to_arr(v)
        return self.derwrap(self.seq_list(v), f)

    def np_trace(self, args, kw):
        a = self.num(args[0])
        i = to_int(kw.get("axis1", args[2] if len(args) > 2 else 0))
        j = to_int(kw.get("axis2", args[3] if len(args) > 3 else 1))
        if i > j:
            i, j = j, i
        n1, n2 = a.axes[i], a.axes[j]
        if isinstance(n1, C) and isinstance(n2, C) and n1.n != n2.n:
            m = min(n1.n, n2.n)
            idx = [slice(None)] * a.ndim
            idx[i] = slice(0, m)
            idx[j] = slice(0, m)
            a = AA.getitem(a, tuple(idx))
        return simplify(AA.contract(a, i, j))

    def np_dot(self, args, kw):
        a, b = args
        if not isinstance(a, Coef) and not isinstance(b, Coef):
            x, y = self.num(a), self.num(b)
            if not x.axes or not y.axes:
                return self.binop(ast.Mult(), a, b, None)
        return self.matmul(a, b)

    def np_matmul(self, args, kw):
        return self.matmul(args[0], args[1])

    def np_inner(self, args, kw):
        a, b = self.num(args[0]), self.num(args[1])
        return simplify(AA.contract_pair(a, a.ndim - 1, b, b.ndim - 1))

    def np_vdot(self, args, kw):
        return self.np_dot(args, kw)

    def np_outer(self, args, kw):
        a, b = args
        if isinstance(a, Coef) and len(a.order) == 1 and not a.vec:
            b = self.num(b)
            if b.ndim == 1 and isinstance(b.axes[0], C):
                a = self.coef_array(a, {a.order[0][1]: b.axes[0].n})
        if isinstance(b, Coef) and len(b.order) == 1 and not b.vec:
            a = self.num(a)
            if a.ndim == 1 and isinstance(a.axes[0], C):
                b = self.coef_array(b, {b.order[0][1]: a.axes[0].n})
        a, b = self.num(a), self.num(b)
        flat = []
        for x in (a, b):
            if x.ndim == 0:
                x = Array([C(1)], {(0,): x.get(())})
            if x.ndim != 1:
                x = as_array(AA.ravel(x))
            flat.append(x)
        return AA.outer_product(*flat)

    def np_multiply(self, args, kw):
        return self.binop(ast.Mult(), args[0], args[1], None)

    def np_add(self, args, kw):
        return self.binop(ast.Add(), args[0], args[1], None)

    def np_subtract(self, args, kw):
        return self.binop(ast.Sub(), args[0], args[1], None)

    def np_divide(self, args, kw):
        return self.binop(ast.Div(), args[0], args[1], None)

    def np_negative(self, args, kw):
        return simplify(AA.unary(lambda p: -p, self.num(args[0])))

    def np_reciprocal(self, args, kw):
        return self.binop(ast.Div(), 1, args[0], None)

    def np_power(self, args, kw):
        return self.binop(ast.Pow(), args[0], args[1], None)

    def np_square(self, args, kw):
        return self.binop(ast.Mult(), args[0], args[0], None)

    def np_sqrt(self, args, kw):
        return simplify(AA.unary(lambda p: p.power(Fraction(1, 2)), self.num(args[0])))

    def np_tensordot(self, args, kw):
        a, b = self.num(args[0]), self.num(args[1])
        ax = kw.get("axes", args[2] if len(args) > 2 else 2)
        k = to_int(ax) if not isinstance(ax, (tuple, list)) else None
        if k == 0:
            return AA.outer_product(a, b)
        if k == 1:
            return simplify(AA.contract_pair(a, a.ndim - 1, b, 0))
        if isinstance(ax, (tuple, list)) and len(ax) == 2:
            i, j = ax
            if isinstance(i, (list, tuple)):
                if len(i) != 1:
                    raise Unsupported("tensordot")
                i, j = i[0], j[0]
            return simplify(AA.contract_pair(a, to_int(i) % a.ndim, b, to_int(j) % b.ndim))
        raise Unsupported("tensordot")

    def np_transpose(self, args, kw):
        perm = None
        rest = args[1:]
        if "axes" in kw:
            perm = kw["axes"]
        elif rest:
            perm = rest[0] if isinstance(rest[0], (tuple, list)) else rest
        if isinstance(args[0], Coef) and perm is None:
            return self.attr(args[0], "T", None)
        return simplify(AA.transpose(self.num(args[0]), tuple(to_int(x) for x in perm) if perm else None))

    def np_swapaxes(self, args, kw):
        a = self.num(args[0])
        i, j = to_int(args[1]) % a.ndim, to_int(args[2]) % a.ndim
        p = list(range(a.ndim))
        p[i], p[j] = p[j], p[i]
        return AA.transpose(a, tuple(p))

    def np_moveaxis(self, args, kw):
        a = self.num(args[0])
        i, j = to_int(args[1]) % a.ndim, to_int(args[2]) % a.ndim
        p = [x for x in range(a.ndim) if x != i]
        p.insert(j, i)
        return AA.transpose(a, tuple(p))

    def np_reshape(self, args, kw):
        shp = args[1] if isinstance(args[1], (tuple, list)) else [args[1]]
        return simplify(AA.reshape(self.num(args[0]), list(shp)))

    def np_ravel(self, args, kw):
        return simplify(AA.ravel(self.num(args[0])))

    def np_squeeze(self, args, kw):
        return self.call_bound(Bound(args[0], "squeeze"), [], {}, None)

    def np_expand_dims(self, args, kw):
        a = self.num(args[0])
        ax = to_int(args[1] if len(args) > 1 else kw["axis"]) % (a.ndim + 1)
        idx = [slice(None)] * a.ndim
        idx.insert(ax, None)
        return AA.getitem(a, tuple(idx))

    def np_atleast_2d(self, args, kw):
        a = self.num(args[0])
        while a.ndim < 2:
            a = Array([C(1)] + a.axes, {(0,) + k: v for k, v in a.el.items()})
        return a

    def np_sum(self, args, kw):
        v = args[0]
        if isinstance(v, SymSeq):
            if v.dom.kind == "el":
                return self.sum_seq(v)
            v = self.to_arr(v)
        a = self.num(v)
        ax = kw.get("axis", args[1] if len(args) > 1 else None)
        if ax is None:
            while a.axes:
                a = AA.contract(a, 0)
            return simplify(a)
        axs = sorted([to_int(x) % a.ndim for x in (ax if isinstance(ax, (tuple, list)) else [ax])], reverse=True)
        for x in axs:
            a = AA.contract(a, x)
        return simplify(a)

    def np_cumsum(self, args, kw):
        v = self.seq_list(args[0])
        acc, out = None, []
        for x in v:
            acc = x if acc is None else self.binop(ast.Add(), acc, x, None)
            out.append(acc)
        return out

    def np_add_accumulate(self, args, kw):
        return self.np_cumsum(args, kw)

    def np_take(self, args, kw):
        if len(args) == 2 and not kw:
            return self.subscript(args[0], args[1], None)
        return Top("take")

    def np_append(self, args, kw):
        a, b = args
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return list(a) + list(b)
        if isinstance(a, (list, tuple)) and (to_int(b) is not None or isinstance(b, Poly)):
            return list(a) + [b]
        raise Unsupported("append")

    def np_insert(self, args, kw):
        a, i, v = args[:3]
        if isinstance(a, (list, tuple)) and to_int(i) is not None:
            a = list(a)
            a.insert(to_int(i), v)
            return a
        raise Unsupported("insert")

    def np_split(self, args, kw):
        a = self.num(args[0])
        if a.ndim == 1 and isinstance(a.axes[0], D) and len(a.axes[0].layout) == 1:
            f, k = a.axes[0].layout[0]
            p = lift(args[1])
            if (p - nphi(f)).is_zero():
                r = AA.reshape(a, [nphi(f), k])
                v = fresh_var()
                return SymSeq(Dom("d", f, v), AA.getitem(r, Poly.a(("idx", f, v))))
            if to_int(args[1]) is not None and to_int(args[1]) == k and k > 1:
                raise Mismatch("layout", "components split into contiguous parts, but unknowns are interleaved")
        raise Unsupported("split")

    def np_array_split(self, args, kw):
        return self.np_split(args, kw)

    def np_isclose(self, args, kw):
        return Cmp("close", lift(simplify(self.num(args[0]))), lift(simplify(self.num(args[1]))))

    def np_where(self, args, kw):
        c, a, b = args
        if isinstance(c, Obj) and c.kind == "condarr":
            L, R = AA.broadcast(lambda x, y: x, c.a["l"], c.a["r"]), AA.broadcast(lambda x, y: y, c.a["l"], c.a["r"])
            gates = Array(L.axes, {})
            for k in L.keys():
                g = self.gate_of(Cmp(c.a["op"], L.get(k), R.get(k)))
                if g is None:
                    raise Unsupported("where")
                gates.el[k] = g
            x, y = self.num(a), self.num(b)
            t1 = AA.broadcast(lambda p, q: p * q, gates, x)
            t2 = AA.broadcast(lambda p, q: (ONE - p) * q, gates, y)
            return simplify(AA.broadcast(lambda p, q: p + q, t1, t2))
        if isinstance(c, (Cmp, BoolC)):
            g = self.gate_of(c)
            return self.merge_values(g, a, b)
        raise Unsupported("where")

    def np_maximum(self, args, kw):
        raise Unsupported("maximum")

    def np_cross(self, args, kw):
        a, b = self.num(args[0]), self.num(args[1])
        if a.ndim == b.ndim == 1 and isinstance(a.axes[0], C) and a.axes[0].n == 3 and b.axes[0].n == 3:
            g = lambda x, i: x.get((i,))
            el = {}
            for i in range(3):
                j, k = (i + 1) % 3, (i + 2) % 3
                el[(i,)] = g(a, j) * g(b, k) - g(a, k) * g(b, j)
            return Array([C(3)], el)
        raise Unsupported("cross")

    def np_block(self, args, kw):
        v = args[0]
        # nested symbolic lists over basis indices: rows -> axis0, columns -> axis1
        if isinstance(v, SymSeq) and isinstance(v.elem, SymSeq):
            rows, cols = v.dom, v.elem.dom
            e = self.num(v.elem.elem)
            if rows.kind == cols.kind == "d" and e.ndim == 2:
                a0 = D([(rows.f, 1)], rows.v)
                a1 = D([(cols.f, 1)], cols.v)
                big = Array([a0, e.axes[0], a1, e.axes[1]],
                            {((rows.f, 0), k[0], (cols.f, 0), k[1]): p for k, p in e.el.items()})
                l0 = lift(AA.axis_len(a0)) * lift(AA.axis_len(e.axes[0]))
                l1 = lift(AA.axis_len(a1)) * lift(AA.axis_len(e.axes[1]))
                return AA.reshape(big.refreshed(), [l0, l1])
        if isinstance(v, SymSeq) and isinstance(v.elem, list) or \
                isinstance(v, list) and any(isinstance(x, SymSeq) for x in v):
            raise Unsupported("mixed block")
        if isinstance(v, list) and all(isinstance(x, list) for x in v):
            rows = [AA.concat([self.num(y) for y in x], 1) for x in v]
            return AA.concat(rows, 0)
        if isinstance(v, list):
            return AA.concat([self.num(y) for y in v], -1)
        raise Unsupported("block")

    def np_kron(self, args, kw):
        a, b = self.num(args[0]), self.num(args[1])
        if a.ndim == b.ndim == 2:
            o = AA.outer_product(a, b)   # i j k l -> (i k) (j l)
            o = AA.transpose(o, (0, 2, 1, 3))
            L = [AA.axis_len(x) for x in o.axes]
            return AA.reshape(o, [lift(L[0]) * lift(L[1]), lift(L[2]) * lift(L[3])])
        raise Unsupported("kron")

    def np_einsum(self, args, kw):
        spec = args[0]
        if not isinstance(spec, str) or "..." in spec:
            raise Unsupported("einsum")
        spec = spec.replace(" ", "")
        ins, out = (spec.split("->") + [None])[:2] if "->" in spec else (spec, None)
        ins = ins.split(",")
        arrs = [self.num(a) for a in args[1:]]
        if len(ins) != len(arrs):
            raise Unsupported("einsum")
        if out is None:
            letters = "".join(ins)
            out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
        cur, lab = None, ""
        for s, a in zip(ins, arrs):
            if len(s) != a.ndim:
                raise Mismatch("shape", "einsum operand rank")
            # diagonal inside one operand
            while True:
                dup = [c for c in s if s.count(c) > 1]
                if not dup:
                    break
                i = s.index(dup[0])
                j = s.index(dup[0], i + 1)
                a = diag(a, i, j)
                s = s[:j] + s[j + 1:]
            if cur is None:
                cur, lab = a, s
                continue
            # align: elementwise on the union of labels
            union = lab + "".join(c for c in s if c not in lab)
            A = expand(cur, lab, union)
            B = expand(a, s, union)
            cur = AA.broadcast(lambda x, y: x * y, A, B)
            lab = union
        for c in [x for x in lab if x not in out]:
            i = lab.index(c)
            cur = AA.contract(cur, i)
            lab = lab[:i] + lab[i + 1:]
        perm = tuple(lab.index(c) for c in out)
        if perm:
            cur = AA.transpose(cur, perm)
        return simplify(cur)

    def np_linalg_norm(self, args, kw):
        a = self.num(args[0])
        s = ZERO
        b = AA.broadcast(lambda x, y: x * y, a, a)
        while b.axes:
            b = AA.contract(b, 0)
        return b.get(()).power(Fraction(1, 2))

    def np_count_nonzero(self, args, kw):
        raise Unsupported("count_nonzero")

    def np_arange(self, args, kw):
        return self.call_builtin("range", args, {}, None)

    def np_copy(self, args, kw):
        return self.to_arr(args[0])

    def np_float64(self, args, kw):
        return args[0]


class CoefStackErr(Exception):
    pass


def CoefStack(c):
    raise Unsupported("stack of coefficient values")


def diag(a, i, j):
    ax, ren = AA.unify_axis(a.axes[i], a.axes[j])
    axes = [x for k, x in enumerate(a.axes) if k != j]
    el = {}
    for k, p in a.el.items():
        if k[i] != k[j]:
            continue
        if ren:
            p = p.rename(*ren)
        el[tuple(x for n, x in enumerate(k) if n != j)] = p
    return Array(axes, el)


def expand(a, lab, union):
    perm = sorted(range(len(lab)), key=lambda i: union.index(lab[i]))
    if perm != list(range(len(lab))):
        a = AA.transpose(a, tuple(perm))
        lab = "".join(lab[i] for i in perm)
    axes, pos = [], []
    it = 0
    for c in union:
        if c in lab:
            axes.append(a.axes[it])
            pos.append(it)
            it += 1
        else:
            axes.append(C(1))
            pos.append(None)
    el = {}
    for k, p in a.el.items():
        el[tuple(0 if q is None else k[q] for q in pos)] = p
    return Array(axes, el)


def _deep(i):
    a = atom_of(i)
    out = {i}
    if a[0] == "P":
        for m, c in a[1]:
            for j, e in m:
                out |= _deep(j)
    return out


KINDNAME = {"cellid": "a cell identifier", "gnode": "a graph node (dimension, identifier)",
            "gdim": "a dimension", "elemidx": "an element position"}
TAGNAME = {"E": "interior", "B": "boundary", "N": "neighbour", "bad": "wrong-rule"}
BUILTINS = {"range", "len", "enumerate", "zip", "list", "tuple", "map", "slice", "float", "int", "sum", "abs",
            "dict", "isinstance", "print", "min", "max", "reversed", "pow", "sorted", "any", "all", "str", "set",
            "super", "getattr", "hasattr", "round"}


class Env:
    def __init__(self, parent=None):
        self.own = {}
        self.parent = parent
        self.nonlocals = set()

    def __contains__(self, n):
        e = self
        while e is not None:
            if n in e.own:
                return True
            e = e.parent
        return False

    def __getitem__(self, n):
        e = self
        while e is not None:
            if n in e.own:
                return e.own[n]
            e = e.parent
        raise KeyError(n)

    def __setitem__(self, n, v):
        if n in self.nonlocals and self.parent is not None:
            e = self.parent
            while e is not None:
                if n in e.own:
                    e.own[n] = v
                    return
                e = e.parent
        self.own[n] = v

    def clone(self, memo):
        e = Env(self.parent)
        self._index = {}
        e.nonlocals = set(self.nonlocals)
        for n, v in self.own.items():
            e.own[n] = self._copy(v, memo)
        return e

    def _copy(self, v, memo):
        if isinstance(v, Array):
            if id(v) not in memo:
                memo[id(v)] = v.copy()
                self._index[id(v)] = v
            return memo[id(v)]
        if isinstance(v, list):
            return [self._copy(x, memo) for x in v]
        if isinstance(v, tuple):
            return tuple(self._copy(x, memo) for x in v)
        if isinstance(v, dict):
            return {k: self._copy(x, memo) for k, x in v.items()}
        return v

    def find(self, oid):
        return getattr(self, "_index", {}).get(oid)
