"""Interpretation of mesh edits: a mesh is a list of cells and a list of points of unknown lengths N and P that grow.

Cells made by the code are records (`("ref", number, loop indices)`): one record stands for the cells that one allocation
site makes in all rounds of its loops, and its attributes are terms over these loop indices. The cells the mesh had before
are `cells[i]`; they hold the invariant that is being proved, so `cells[i].id` is `i`."""
import ast

from .vn import Interp, K, L, D, O, Tup, View, Ext, NONE, Unknown, Raised, freeze, subst, add, mul, has, is_k, is_splice, get_term, _mons, neg

S = lambda x: ("sym", x)
CELLS, POINTS = S("cells"), S("points")
N, P = ("len", CELLS), ("len", POINTS)
SIZES = {CELLS: N, POINTS: P}


class Record:
    def __init__(self, cls, binders, guards, origin, node, module):
        self.cls, self.binders, self.guards, self.origin = cls, binders, guards, origin
        self.node, self.module = node, module
        self.attrs = {}
        self.subs = {}           # dimension -> list of identifiers
        self.shared = set()      # attributes whose lists are those of the original
        self.over = []
        self.loops = {}          # index of a later loop over the cells -> index of the record


class MInterp(Interp):
    def __init__(self, program, decisions=(), mesh_cls=None, cell_cls=None, **kw):
        super().__init__(program, decisions, **kw)
        self.cell_cls = cell_cls
        self.mesh_cls = mesh_cls
        self.records = []
        self.mesh = None
        self.counts = {}
        self.seqs = []           # sequences of unknown selection: the k-th is named ("seq", k)
        self.names = {}
        self.used = set()
        self.guardsets = {}
        self.iters = 0
        self.breaks = []         # (frame, loop, condition, node) of loops left under a condition
        self.outer = {}          # growing list inside a loop -> the list before the loop
        self.rounds = ()         # symbols that mark the rounds of the outer loop
        self.round = 0
        self.idlists = set()     # lists of identifiers
        self.dims = {}           # lists of identifiers of cells of a known dimension
        self.first = (0, 0)      # records and cell writes before the current round

    # ---- set-up -----------------------------------------------------------
    def new_mesh(self, dimension):
        m = O(self.mesh_cls)
        self.mesh = m
        for name, sym in (("cells", CELLS), ("points", POINTS)):
            b = self.fresh(SIZES[sym])
            m.attrs[name] = self.mk([((b,), (), get_term(sym, ("bv", b[0])))], True)
        m.attrs["dimension"] = K(dimension)
        return m

    def fresh(self, count):
        b = super().fresh(count)
        self.counts[b[0]] = count
        return b

    # ---- rounds of the outer loop ---------------------------------------------
    def assign(self, target, v, n):
        if self.round < len(self.rounds) and isinstance(v, (tuple, Tup)) and has(freeze(v), self.rounds[self.round]):
            if self.round:
                self.next_round()
            self.round += 1
        super().assign(target, v, n)

    def next_round(self):
        """the mesh that a round leaves is the mesh of unknown size the next one starts from"""
        ends = {}
        for name, sym in (("cells", CELLS), ("points", POINTS)):
            v = self.mesh.attrs[name]
            if not isinstance(v, L):
                raise Unknown("the %s of the mesh are not followed" % name, None)
            end = self.length(v, None)
            if isinstance(end, tuple):
                ends[end] = ("@", sym)
        old = {CELLS: S("old cells"), POINTS: S("old points")}
        new = {("@", CELLS): N, ("@", POINTS): P}
        env = self.fr.env
        for k, v in list(env.items()):
            if isinstance(v, tuple):
                env[k] = subst(subst(ends.get(v, v), old), new)
        for h in self.heap + [v for _, v in self.seqs if isinstance(v, L)]:
            if isinstance(h, L):
                h.segs = [(tuple((b, subst(c, old)) for b, c in bs), tuple(subst(g, old) for g in gs), subst(v, old)) for bs, gs, v in h.segs]
            else:
                h.entries = [(tuple((b, subst(c, old)) for b, c in bs), tuple(subst(g, old) for g in gs), subst(k, old), subst(v, old)) for bs, gs, k, v in h.entries]
        self.facts = {subst(k, old) if isinstance(k, tuple) else k: v for k, v in self.facts.items()}
        self.store = {tuple(subst(x, old) if isinstance(x, tuple) else x for x in k) if isinstance(k, tuple) else k: v for k, v in self.store.items()}
        self.names.clear()
        self.outer.clear()
        del self.effects[:]
        del self.calls[:]
        self.first = (len(self.records), 0)
        for name, sym in (("cells", CELLS), ("points", POINTS)):
            b = self.fresh(SIZES[sym])
            self.mesh.attrs[name] = self.mk([((b,), (), get_term(sym, ("bv", b[0])))], True)

    def graph(self, d, c):
        base = self.mesh.attrs["cells"]
        pure = isinstance(base, L) and len(base.segs) == 1 and not any(
            e["kind"] == "sublist" or e["kind"] == "=" and isinstance(e["target"], tuple) for e in self.effects)
        return ("graph", self.round, freeze(d), freeze(c), pure)

    # ---- what is a cell -----------------------------------------------------
    def is_ref(self, t):
        return isinstance(t, tuple) and len(t) == 3 and t[0] == "ref"

    def is_cell(self, t):
        if self.is_ref(t):
            return True
        if isinstance(t, tuple) and len(t) == 3 and t[0] == "get":
            if t[1] == CELLS:
                return not (isinstance(t[2], tuple) and t[2] and t[2][0] in ("slice", "list", "tup"))
            return self.holds_cells(t[1])
        return False

    def holds_cells(self, t):
        if not isinstance(t, tuple):
            return False
        if t == CELLS:
            return True
        if t and t[0] == "seq":
            kind, v = self.seqs[t[1]]
            return isinstance(v, L) and bool(v.segs) and all(self.is_cell(x) or (is_splice(x) and self.holds_cells(x[1])) for _, _, x in v.segs) or \
                isinstance(v, tuple) and self.holds_cells(v)
        if t and t[0] == "get" and len(t) == 3 and self.holds_cells(t[1]) and isinstance(t[2], tuple) and self.many(t[2]):
            return True
        return False

    def many(self, idx):
        """an index that selects several elements"""
        return idx in self.idlists or idx[0] in ("slice", "list", "call", "not", "lt", "eq", "ite", "m", "and", "or") or \
            idx[0] == "get" and isinstance(idx[1], tuple) and (idx[1][0] == "call" and idx[1][1] != "np.unique" or
                                                               idx[1][0] == "seq" and isinstance(idx[2], tuple) and self.many(idx[2]))

    # ---- records --------------------------------------------------------------
    def alloc(self, cls, origin, n):
        r = Record(cls, tuple(self.binders), tuple(self.guards), origin, n, self.fr.f.module)
        self.records.append(r)
        return ("ref", len(self.records) - 1, tuple(("bv", b) for b, _ in r.binders))

    def construct(self, cls, pos, kw, n):
        if cls is self.cell_cls:
            ref = self.alloc(cls, None, n)
            init = self.p.lookup_method(cls, "__init__")
            self.call_function(init, pos, kw, n, self_=ref)
            return ref
        return super().construct(cls, pos, kw, n)

    def there(self, ref):
        """loop indices of the record -> indices of the reference"""
        r = self.records[ref[1]]
        return {("bv", b): i for (b, _), i in zip(r.binders, ref[2])}

    def back(self, ref):
        """the inverse, when every index is a loop index of now; else None"""
        r = self.records[ref[1]]
        live = {("bv", b) for b, _ in self.binders}
        if len(set(ref[2])) != len(ref[2]) or any(i not in live for i in ref[2]):
            return None
        return {i: ("bv", b) for (b, _), i in zip(r.binders, ref[2])}

    def whole_write(self, ref, n):
        """the write happens for every cell of the record, with the loop indices of the record"""
        m = self.back(ref)
        if m is None:
            if not self.records[ref[1]].binders:
                m = {}
            else:
                raise Unknown("write to one cell of many", n)
        r = self.records[ref[1]]
        here = [g for g in self.guards if subst(g, m) not in r.guards]
        if here:
            raise Unknown("write to a new cell under a condition", n)
        r.loops.update({k: v for k, v in m.items() if k != v})
        return m

    def attr(self, base, name, n):
        if self.is_cell(base):
            if self.is_ref(base):
                r = self.records[base[1]]
                if name == "sub_cells_ids":
                    return ("subs", base)
                if name in r.attrs:
                    v = self.reach(r.attrs[name], self.there(base))
                    if isinstance(v, L):
                        v.of = (base, name)
                    return v
                m = self.p.lookup_method(r.cls, name)
                if m is None and r.origin is not None:
                    v = self.attr(subst(r.origin, self.there(base)), name, n)
                    if isinstance(v, L):
                        v.of = (base, name)
                    return ("attr", base, name) if name == "node_tags" and not isinstance(v, L) else v
            else:
                if name == "id":
                    if base[1] == CELLS:
                        return base[2]
                if name == "sub_cells_ids":
                    return ("subs", base)
                if name == "dimension" and base[1] == CELLS:
                    d = self.known_dimension(base[2])
                    if d is not None:
                        return d
                if name == "node_tags" and self.vertexlike(base):
                    v = self.mk([((), (), get_term(("attr", base, "node_tags"), K(0)))], True)
                    v.of = (base, name)
                    return v
            m = self.p.lookup_method(self.cell_cls, name)
            if m is not None:
                if m.is_property():
                    return self.call_function(m, [], {}, n, self_=base)
                from .vn import Fn
                return Fn(m, None, None if m.is_static() else base)
            return ("attr", base, name)
        if isinstance(base, tuple) and base and base[0] == "subs":
            raise Unknown("attribute of the identifier lists", n)
        return super().attr(base, name, n)

    def reach(self, v, m):
        if isinstance(v, L):
            r = subst(v, m)
            r = self.mk(r.segs, r.arr)
            r.of = getattr(v, "of", None)
            return r
        return subst(v, m) if isinstance(v, (tuple, Tup, D)) else v

    def known_dimension(self, idx):
        for base, d in self.dims.items():
            if isinstance(idx, tuple) and idx[:2] == ("get", base):
                return d
        ds = self.subdims(idx)
        return ds.pop() if len(ds) == 1 and is_k(list(ds)[0]) else None

    def vertexlike(self, cell):
        """a vertex of another cell, hence of dimension 0"""
        if cell[0] != "get":
            return False
        if cell[1] == CELLS:
            idx = cell[2]
            if self.known_dimension(idx) == K(0):
                return True
            dims = self.subdims(idx)
            return bool(dims) and dims == {K(0)}
        if isinstance(cell[1], tuple) and cell[1][0] == "seq":
            kind, l = self.seqs[cell[1][1]]
            return isinstance(l, L) and all(self.is_cell(v) and not self.is_ref(v) and self.vertexlike(v) for _, _, v in l.segs)
        return False

    def subdims(self, t):
        """dimensions of the identifier lists an identifier was taken from"""
        out = set()
        if not isinstance(t, tuple):
            return {None}
        if is_splice(t):
            return self.listdims(t[1])
        if len(t) == 3 and t[0] == "get":
            return self.listdims(t[1])
        return {None}

    def listdims(self, t):
        if isinstance(t, tuple) and t:
            if len(t) == 3 and t[0] == "get" and isinstance(t[1], tuple) and t[1] and t[1][0] == "subs":
                return {t[2]}
            if t[0] == "seq":
                v = self.seqs[t[1]][1]
                out = set()
                for x in ([x for _, _, x in v.segs] if isinstance(v, L) else []):
                    out |= self.subdims(x)
                return out if isinstance(v, L) else self.listdims(v)
            if t[0] == "list":
                out = set()
                for _, _, x in t[1]:
                    out |= self.subdims(x)
                return out
        return {None}

    def set_attr(self, base, name, v, n):
        if self.is_ref(base):
            for c in self.p.mro(self.records[base[1]].cls):
                if name in c.setters:
                    self.call_function(c.setters[name], [v], {}, n, self_=base)
                    return
            m = self.whole_write(base, n)
            r = self.records[base[1]]
            if name in r.shared and not self.still_shared(n):
                r.shared.discard(name)
            if name == "sub_cells_ids":
                if v in (("subs", base), ("subs", subst(r.origin, self.there(base)) if r.origin is not None else None)):
                    return
                if isinstance(v, L) and len(v.segs) == 1 and len(v.segs[0][0]) == 1 and not v.segs[0][1]:
                    x = v.segs[0][2]
                    if isinstance(x, tuple) and len(x) == 3 and x[0] == "get" and x[2] == ("bv", v.segs[0][0][0][0]) and x[1] in (
                            ("subs", base), ("subs", subst(r.origin, self.there(base)) if r.origin is not None else None)):
                        return
                if isinstance(v, L) and v.plain():
                    r.subs = {K(i): self.reach(x, m) for i, (_, _, x) in enumerate(v.segs)}
                    return
                raise Unknown("identifier lists replaced", n)
            r.attrs[name] = self.reach(v, m)
            return
        super().set_attr(base, name, v, n)

    def still_shared(self, n):
        """the assigned value holds the same inner lists: a plain attribute or a copy of the outer list only"""
        e = n.value if isinstance(n, (ast.Assign, ast.AnnAssign)) else None
        if e is None:
            raise Unknown("attribute of a copied cell", n)
        nodes = isinstance(n.targets[0] if isinstance(n, ast.Assign) else n.target, ast.Attribute) and (n.targets[0] if isinstance(n, ast.Assign) else n.target).attr == "node_tags"
        if any(isinstance(x, (ast.Name, ast.Attribute)) and (x.id if isinstance(x, ast.Name) else x.attr) == "deepcopy" for x in ast.walk(e)):
            return False
        if isinstance(e, (ast.Attribute, ast.Name)):
            return True
        if nodes:
            return False
        if isinstance(e, ast.ListComp):
            return not isinstance(e.elt, ast.Call)
        if isinstance(e, ast.Call) and not any(isinstance(x, (ast.ListComp, ast.GeneratorExp)) for x in ast.walk(e)):
            return True
        if isinstance(e, ast.Subscript):
            return True
        raise Unknown("attribute of a copied cell", n)

    def subscript(self, base, idx, n):
        if isinstance(base, tuple) and base and base[0] == "subs" and len(base) == 2:
            ref = base[1]
            k = freeze(idx)
            if self.is_ref(ref):
                r = self.records[ref[1]]
                for d in self.dims_of(k, ref):
                    if d in r.subs:
                        return self.reach(r.subs[d], self.there(ref))
                if r.origin is None and not isinstance(k, tuple):
                    raise Raised("IndexError", n, self.fr.f.module)
            return ("get", base, k)
        row = self.row(base, idx)
        if row is not None:
            return row
        if isinstance(base, L) and base in (self.mesh.attrs.get("cells"), self.mesh.attrs.get("points")) or \
                isinstance(base, tuple) and base and base[0] == "phi" and base[2] in (".cells", ".points"):
            return self.at(base, CELLS if base is self.mesh.attrs.get("cells") or isinstance(base, tuple) and base[2] == ".cells" else POINTS, idx, n)
        if isinstance(base, D) and len(base.entries) == 1 and base.entries[0][0] and not base.entries[0][1]:
            b, _, k, v = base.entries[0]
            if len(b) == 1:
                m = self.match_bv(freeze(k), freeze(idx), b[0])
                if m is not None and all(self.counts.get(x[1]) == b[0][1] for x in m.values() if isinstance(x, tuple) and x[0] == "bv"):
                    return subst(v, m)
            return ("get", freeze(base), freeze(idx))
        return super().subscript(base, idx, n)

    def row(self, base, idx):
        """the list at position i of a list of lists, one for each round of a loop"""
        if not (isinstance(base, L) and len(base.segs) == 1 and isinstance(idx, tuple) and idx and idx[0] == "bv"):
            return None
        bs, gs, v = base.segs[0]
        if len(bs) != 1 or gs or not isinstance(v, L) or self.counts.get(idx[1]) != bs[0][1] or idx[1] not in [b for b, _ in self.binders]:
            return None
        rows = base.__dict__.setdefault("rows", {})
        if idx not in rows:
            if rows or v.segs:
                return None
            rows[idx] = self.mk([], True)
        return rows[idx]

    def dims_of(self, k, ref):
        """the same dimension, written as a number or as the dimension of the cell"""
        out = [k]
        d = self.attr(ref, "dimension", None)
        if k == freeze(d):
            out += [freeze(d)]
        return out

    def is_new(self, idx, sym):
        return _mons(idx).get((SIZES[sym],), 0) != 0 if isinstance(idx, tuple) else False

    def at(self, base, sym, idx, n):
        if isinstance(idx, (L, Tup)):
            els = self.elements(idx, n)
            return self.mk([(b, g, self.at(base, sym, v, n) if not is_splice(v) else ("splice", get_term(sym, v[1]))) for b, g, v in els], True)
        if isinstance(idx, tuple) and idx and idx[0] == "slice":
            return super().subscript(base, idx, n)
        if not self.is_new(idx, sym):
            return get_term(sym, freeze(idx))
        while isinstance(base, tuple) and base in self.outer:
            base = self.outer[base]
        if not isinstance(base, L):
            raise Unknown("element of a growing list", n)
        off = K(0)
        for bs, gs, v in base.segs:
            if gs or len(bs) > 1 or is_splice(v):
                raise Unknown("element of a list with unknown positions", n)
            rel = add(idx, off, -1)
            cnt = bs[0][1] if bs else K(1)
            if rel == K(0) and not bs:
                return v
            if bs and isinstance(rel, tuple) and rel[0] == "bv" and self.counts.get(rel[1]) == cnt:
                return subst(v, {("bv", bs[0][0]): rel})
            off = add(off, cnt)
        return ("?", "element at an unknown position")

    def store_sub(self, base, idx, v, n):
        if isinstance(base, tuple) and base and base[0] == "subs" and len(base) == 2:
            ref = base[1]
            if self.is_ref(ref):
                m = self.whole_write(ref, n)
                self.records[ref[1]].subs[freeze(idx)] = self.reach(v, m)
                return
            self.effect("sublist", ref, freeze(idx), v, n)
            return
        if isinstance(base, L) and getattr(base, "of", None) is not None:
            ref, name = base.of
            if self.is_ref(ref) and base.plain() and is_k(idx):
                v2 = self.mk(base.segs, True)
                v2.segs[idx[2]] = ((), (), v)
                self.set_attr(ref, name, v2, n)
                return
            self.effect("=", ("attr", ref, name), idx, v, n)
            return
        super().store_sub(base, idx, v, n)

    def leave(self, st, c, env, n):
        if st[0] == "break" and self.binders:
            self.breaks.append((self.fr, self.binders[-1], c, n))
            self.fr.conts.append((c, env))
            return
        super().leave(st, c, env, n)

    # ---- copies -------------------------------------------------------------
    def x_copy_deepcopy(self, pos, kw, n):
        if self.is_cell(pos[0]):
            return self.copied(pos[0], False, n)
        return super().x_copy_deepcopy(pos, kw, n)

    def x_copy_copy(self, pos, kw, n):
        if self.is_cell(pos[0]):
            return self.copied(pos[0], True, n)
        return super().x_copy_copy(pos, kw, n)

    def copied(self, cell, shallow, n):
        ref = self.alloc(self.cell_cls, None if self.is_ref(cell) else cell, n)
        r = self.records[ref[1]]
        r.shared = {"node_tags", "sub_cells_ids"} if shallow else set()
        if self.is_ref(cell):
            o = self.records[cell[1]]
            m = self.there(cell)
            r.origin = subst(o.origin, m) if o.origin is not None else None
            r.attrs = {k: self.reach(v, m) for k, v in o.attrs.items()}
            r.subs = {k: self.reach(v, m) for k, v in o.subs.items()}
        return ref

    # ---- sequences ------------------------------------------------------------
    def x_builtins_zip(self, pos, kw, n):
        self.iters += 1
        return ("iter", self.iters, super().x_builtins_zip(pos, kw, n))

    def elements(self, v, n):
        if isinstance(v, tuple) and v and v[0] == "iter":
            if v[1] in self.used:
                return []
            self.used.add(v[1])
            return self.elements(v[2], n)
        if isinstance(v, L) and not v.over and any(gs or len(bs) > 1 for bs, gs, _ in v.segs):
            t = self.named(v)
            b = self.fresh(("len", t))
            return [((b,), (), ("get", t, ("bv", b[0])))]
        out = super().elements(v, n)
        for bs, _, _ in out:
            for b, c in bs:
                self.counts[b] = c
        return out

    def sub_list(self, base, idx, n):
        if not base.over and any(gs or len(bs) > 1 for bs, gs, _ in base.segs) and isinstance(idx, tuple) and not (idx and idx[0] == "slice"):
            return ("get", self.named(base), freeze(idx))
        if isinstance(idx, tuple) and not is_k(idx) and idx and idx[0] != "slice" and len(base.segs) > 1:
            off = K(0)
            for bs, gs, v in base.segs:
                if gs or len(bs) > 1 or is_splice(v):
                    break
                rel = add(idx, off, -1)
                cnt = bs[0][1] if bs else K(1)
                if bs and isinstance(rel, tuple) and rel[0] == "bv" and self.counts.get(rel[1]) == cnt:
                    return subst(v, {("bv", bs[0][0]): rel})
                if rel == K(0) and not bs:
                    return v
                off = add(off, cnt)
        return super().sub_list(base, idx, n)

    def x_np_vstack(self, pos, kw, n):
        return self.x_np_concatenate(pos, kw, n)

    def x_np_empty_like(self, pos, kw, n):
        return None

    def length(self, v, n):
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "phi" and v[2] in (".cells", ".points"):
            return ("len", v)
        if isinstance(v, L) and any(gs or len(bs) > 1 for bs, gs, _ in v.segs):
            return ("len", self.named(v))
        return super().length(v, n)

    def named(self, v, kind="list"):
        t = (kind, freeze(v))
        if t not in self.names:
            self.names[t] = ("seq", len(self.seqs))
            if isinstance(v, L):
                r = L(v.segs, v.arr, v.depth)
                r.over = list(v.over)
                v = r
            self.seqs.append((kind, v))
        return self.names[t]

    def x_np_unique(self, pos, kw, n):
        if not kw and len(pos) == 1:
            return self.named(pos[0], "unique")
        return None

    def x_builtins_set(self, pos, kw, n):
        if len(pos) == 1 and isinstance(pos[0], L) and not pos[0].plain():
            return self.named(pos[0], "unique")
        return super().x_builtins_set(pos, kw, n)

    def x_np_append(self, pos, kw, n):
        a, b = pos[0], pos[1]
        if self.is_cell(b):
            out = list(a.segs) if isinstance(a, L) else [((), (), ("splice", freeze(a)))]
            return self.mk(out + [((), (), b)], True)
        return super().x_np_append(pos, kw, n)

    def e_Call(self, n):
        if len(n.args) == 1 and isinstance(n.args[0], ast.Starred) and not n.keywords:
            fn = self.ev(n.func)
            if isinstance(fn, Ext) and fn.name == "itertools.chain":
                return self.chained(self.ev(n.args[0].value), n)
        return super().e_Call(n)

    def x_itertools_chain_from_iterable(self, pos, kw, n):
        return self.chained(pos[0], n)

    def chained(self, v, n):
        out = []
        rows = getattr(v, "rows", None)
        if rows:
            (i, row), = rows.items()
            return self.mk([(((i[1], v.segs[0][0][0][1]),), (), ("splice", row))], True)
        for bs, gs, x in self.elements(v, n):
            if is_splice(x):
                raise Unknown("chained sequences", n)
            out.append((bs, gs, ("splice", x)))
        return self.mk(out, True)

    # ---- look-ups ---------------------------------------------------------------
    def method(self, base, name, pos, kw, n):
        if isinstance(base, D) and name == "get" and self.contains(pos[0], base, n) not in (K(True), K(False)):
            return ("getd", freeze(base), freeze(pos[0]), freeze(pos[1]) if len(pos) > 1 else NONE)
        return super().method(base, name, pos, kw, n)

    # ---- loops --------------------------------------------------------------------
    def generic(self, bs, gs, n, v):
        """a loop that is left under a condition: what it does depends on the rounds before"""
        before, self.breaks = self.breaks, []
        e0 = len(self.effects)
        env0 = {k: v for k, v in self.fr.env.items()}
        self.whole_loop(bs, gs, n, v)
        mine, self.breaks = self.breaks, before
        if not mine:
            return
        if len(mine) > 1 or any(e["kind"] not in ("=", "sublist") for e in self.effects[e0:]) or len(self.effects) == e0:
            raise Unknown("break inside a loop over an unknown sequence", n)
        names = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        if any(k in env0 and k not in names and self.fr.env.get(k) is not x and self.fr.env.get(k) != x for k, x in env0.items()):
            raise Unknown("break inside a loop over an unknown sequence", n)
        for e in self.effects[e0:]:
            e["guards"] = tuple(e["guards"]) + (("upto", mine[0][2]),)

    def whole_loop(self, bs, gs, n, v):
        bid = bs[-1][0] if bs else None
        saved = {}
        for name in ("cells", "points"):
            saved[name] = self.mesh.attrs[name]
            self.mesh.attrs[name] = ("phi", bid, "." + name)
            self.outer[("phi", bid, "." + name)] = saved[name]
        super().generic(bs, gs, n, v)
        sub = {}
        for name in ("cells", "points"):
            phi = ("phi", bid, "." + name)
            v0, v1 = saved[name], self.mesh.attrs[name]
            if v1 == phi:
                self.mesh.attrs[name] = v0
                sub[("len", phi)] = self.length(v0, n)
                continue
            cat = self.grown(v1, phi)
            if cat is None:
                self.mesh.attrs[name] = ("?", "cells or points rewritten in a loop")
                continue
            if gs or len(bs) != 1 or any(b or g for b, g, _ in cat):
                sub[("len", phi)] = ("?", "length of a list growing under a condition")
            else:
                sub[("len", phi)] = add(self.length(v0, n), mul(K(len(cat)), ("bv", bid)))
            lst = self.mk(list(v0.segs), True)
            lst.cuts = len(cat)
            if len(cat) > 1:
                lst.segs.append((tuple(bs), tuple(gs), ("row", tuple(freeze(x) for _, _, x in cat))))
            else:
                for b, g, x in cat:
                    lst.segs.append((tuple(bs) + tuple(b), tuple(gs) + tuple(g), x))
            self.mesh.attrs[name] = lst
        if sub:
            self.substitute(sub, 0, 0)

    def grown(self, v1, phi):
        if isinstance(v1, L) and v1.segs and v1.segs[0][2] == ("splice", phi) and not v1.segs[0][0]:
            return v1.segs[1:]
        return None

    def substitute(self, m, e0, c0):
        ok = {k: v for k, v in m.items() if isinstance(v, tuple)}
        for r in self.records:
            own = {k: subst(v, r.loops) for k, v in ok.items()}
            r.attrs = {k: self.inplace(v, own) for k, v in r.attrs.items()}
            r.subs = {k: self.inplace(v, own) for k, v in r.subs.items()}
        super().substitute(m, e0, c0)

    def inplace(self, v, ok):
        if isinstance(v, L):
            r = L([(tuple((b, subst(c, ok)) for b, c in bs), tuple(subst(g, ok) for g in gs), subst(x, ok)) for bs, gs, x in v.segs], v.arr, v.depth)
            return r
        return subst(v, ok) if isinstance(v, (tuple, Tup, D)) else v
