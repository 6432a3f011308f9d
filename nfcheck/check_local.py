"""P08: the local numbering of vertices, edges and faces is the same one everywhere.

The reference tables (vertices of the edges and faces of a simplex, in the order of the element library) are compared with
what the mesh builder stores, with what the orientation code looks up and with what the trace map uses. Node numbers are
symbols; everything the code does with them depends on their relative order only, so one run of the value-term domain per
order type covers every mesh."""
import itertools

from .core import AnchorMissing, loc
from .vn import Interp, K, L, D, O, Tup, NONE, TRUE, FALSE, explore, freeze, add, mul, has, is_k, atoms, get_term, neg
from .check_scatter import with_frame, show

S = lambda x: ("sym", x)
M = S("mesh")
CELLS = ("attr", M, "cells")
PHI = S("phi")
DOF = S("dof")
GIVEN = ("eq",) + tuple(sorted((S("tag"), NONE), key=repr))
SUB = {
    0: {0: [[0]]},
    1: {0: [[0], [1]], 1: [[0, 1]]},
    2: {0: [[0], [1], [2]], 1: [[1, 2], [0, 2], [0, 1]], 2: [[0, 1, 2]]},
    3: {0: [[0], [1], [2], [3]], 1: [[2, 3], [1, 3], [1, 2], [0, 3], [0, 2], [0, 1]],
        2: [[1, 2, 3], [0, 2, 3], [0, 1, 3], [0, 1, 2]], 3: [[0, 1, 2, 3]]},
}
CELLTYPE = {"point": 0, "interval": 1, "triangle": 2, "tetrahedron": 3}
WORD = {0: (0, 0), 1: (0, 1), 2: (2, 1), 3: (1, 0), 4: (2, 0), 5: (1, 1)}  # position of the ordering -> (rotations, reflections)
PERM = (3, 0, 5, 1, 4, 2)
ROT, REF = (1, 2, 0), (0, 2, 1)
INSERT = ("insert_vertex", "insert_edge", "insert_polygon", "insert_polyhedron")
BAD = {"?", "ite", "last", "phi", "opaque", "in", "chunk", "all", "any", "psum", "sum", "fold"}


def comp(p, q):
    return tuple(p[i] for i in q)


def word(rot, ref):
    r = (0, 1, 2)
    for _ in range(rot):
        r = comp(ROT, r)
    for _ in range(ref):
        r = comp(REF, r)
    return r


def clean(*ts):
    return not any(atoms(t) & BAD for t in ts)


def plain_id(t):
    """an identifier looked up for given nodes, or a given node"""
    if isinstance(t, tuple) and t[0] == "get" and t[1][0] == "attr" and t[1][1] == M and t[1][2].startswith("entities_"):
        return t[2][0] == "sym" or t[2][0] == "tup" and all(x[0] == "sym" for x in t[2][1:])
    return isinstance(t, tuple) and (t[0] == "sym" or is_k(t))


class LocalCheck:
    def __init__(self, program, res):
        self.p, self.res = program, res
        self.mesh = program.find_class("Mesh")
        self.cell = program.find_class("MeshCell")
        self.data = program.find_class("ElementData")
        if None in (self.mesh, self.cell, self.data):
            raise AnchorMissing("Mesh/MeshCell/ElementData")

    def func(self, name, module):
        for f in self.p.functions():
            if f.cls is None and f.name == name and f.module.name.endswith(module):
                return f
        raise AnchorMissing("%s.%s" % (module, name))

    def outcomes(self, outs, rule, construct):
        good = []
        for oc in outs:
            if oc.kind == "value":
                good.append(oc)
            elif oc.kind == "raise":
                self.res.bad(rule, construct, "raises %s for a supported configuration" % oc.value,
                             loc(oc.module, oc.node) if oc.module is not None and oc.node is not None else "")
            else:
                self.res.unknown(rule, construct, oc.why)
        return good

    def at(self, f):
        return loc(f.module, f.node)

    # ---- entities of the cells made by the mesh ---------------------------------
    def insertion(self):
        for d, name in enumerate(INSERT):
            f = self.p.lookup_method(self.mesh, name)
            if f is None:
                raise AnchorMissing("Mesh." + name)
            for ranks in itertools.permutations(range(d + 1)):
                nodes = [S("n%d" % i) for i in range(d + 1)]

                def run(it, f=f, d=d, nodes=nodes, ranks=ranks):
                    it.order.update(zip(nodes, ranks))
                    it.facts[GIVEN] = False
                    # identifiers of edges and faces are numbers in no particular order
                    ids = [self.ident([nodes[i] for i in l], dict(zip(nodes, ranks))) for k in range(1, d + 1) for l in SUB[d][k]]
                    it.order.update((t, 1000 + (7 * i + 3) % 11) for i, t in enumerate(ids))
                    it.memory[CELLS] = {None: lambda k: NONE}
                    arg = nodes[0] if d == 0 else it.concrete(nodes, True)
                    return it.call_function(f, [arg, S("tag")], {}, None, self_=M)

                outs = explore(lambda dec: Interp(self.p, dec, types={M: self.mesh}), lambda it: with_frame(it, f, run), limit=4)
                for oc in self.outcomes(outs, "sub-entities", name):
                    self.made(oc, f, d, name, dict(zip(nodes, ranks)), nodes)
            # an entity that is already there only takes the tag
            nodes = [S("n%d" % i) for i in range(d + 1)]
            old = {}

            def again(it):
                it.order.update((n, i) for i, n in enumerate(nodes))
                it.facts[GIVEN] = False
                o = O(self.cell)
                o.attrs["material_id"] = S("old")
                old["o"] = o
                it.memory[CELLS] = {None: lambda k: o}
                return it.call_function(f, [nodes[0] if d == 0 else it.concrete(nodes, True), S("tag")], {}, None, self_=M)

            outs = explore(lambda dec: Interp(self.p, dec, types={M: self.mesh}), lambda it: with_frame(it, f, again), limit=4)
            for oc in self.outcomes(outs, "tag", name):
                got = freeze(old["o"].attrs.get("material_id", NONE))
                if got == S("tag"):
                    self.res.ok("tag", "%s gives the tag of the block to an entity that exists" % name)
                elif clean(got):
                    self.res.bad("tag", name, "an entity that exists keeps the tag %s" % show(got), self.at(f))
                else:
                    self.res.unknown("tag", name, show(got)[:100])

    def same_id(self, got, want, n):
        """vertex identifiers are numbered like the nodes"""
        return got == want or n is not None and got == n

    def ident(self, ns, rank):
        d = len(ns) - 1
        table = ("attr", M, "entities_%dd" % d)
        if d == 0:
            return get_term(table, ns[0])
        return get_term(table, ("tup",) + tuple(sorted(ns, key=lambda x: rank[x])))

    def made(self, oc, f, d, name, rank, nodes):
        mem = {k: v for k, v in oc.it.memory[CELLS].items() if k is not None}
        top = self.ident(nodes, rank)
        if freeze(oc.value) != top:
            self.emit("sub-entities", name, freeze(oc.value), top, f, "returned identifier")
        want = set()
        for k in range(d + 1):
            for loc_ in SUB[d][k]:
                want.add(self.ident([nodes[i] for i in loc_], rank))
        missing = want - set(mem)
        extra = set(mem) - want
        extra = {k for k in extra if not (k in nodes and self.ident([k], rank) in missing)}
        if missing - {self.ident([n], rank) for n in mem if n in nodes} or extra:
            ok = all(plain_id(k) for k in mem)
            msg = "the cells stored are not the sub-entities of the simplex (%d missing, %d unexpected)" % (len(missing), len(extra))
            if ok:
                self.res.bad("sub-entities", name, msg, self.at(f))
            else:
                self.res.unknown("sub-entities", name, msg)
            return
        for key, c in mem.items():
            if not isinstance(c, O):
                self.res.unknown("sub-entities", name, "stored cell %s" % show(freeze(c))[:80])
                continue
            self.one_cell(key, c, f, name, rank, nodes, top)

    def emit(self, rule, construct, got, want, f, sample):
        if got == want:
            self.res.ok(rule, sample)
        elif plain_id(got):
            self.res.bad(rule, construct, "%s: %s instead of %s" % (sample, show(got)[:200], show(want)[:200]), self.at(f))
        else:
            self.res.unknown(rule, construct, "%s %s" % (sample, show(got)[:100]))

    def seq(self, v):
        if isinstance(v, L) and v.plain() and not v.over:
            return [freeze(x) for _, _, x in v.segs]
        if isinstance(v, Tup):
            return [freeze(x) for x in v.items]
        t = freeze(v)
        if isinstance(t, tuple) and t[0] == "list" and all(x[:2] == ((), ()) for x in t[1]):
            return [x[2] for x in t[1]]
        if isinstance(t, tuple) and t[0] == "tup":
            return list(t[1:])
        return None

    def one_cell(self, key, c, f, name, rank, nodes, top):
        ns = self.seq(c.attrs.get("node_tags"))
        if ns is None or not all(n in rank for n in ns) or len(set(ns)) != len(ns):
            self.res.unknown("sub-entities", name, "node tags of a stored cell")
            return
        dim = len(ns) - 1
        what = "%s of a %s" % (("vertex", "edge", "face", "volume")[dim], ("vertex", "edge", "triangle", "tetrahedron")[len(nodes) - 1])
        self.emit("sub-entities", name, freeze(c.attrs.get("dimension", NONE)), K(dim), f, "%s: dimension" % what)
        own = self.ident(ns, rank)
        if key != own and not (dim == 0 and key == ns[0]):
            self.emit("sub-entities", name, key, own, f, "%s: place in the cell list" % what)
        got = freeze(c.attrs.get("id", NONE))
        if not (dim == 0 and got == ns[0]):
            self.emit("sub-entities", name, got, own, f, "%s: identifier" % what)
        tag = freeze(c.attrs.get("material_id", NONE))
        self.emit("tag", name, tag, S("tag") if key in (top, nodes[0] if len(nodes) == 1 else top) else NONE, f, "%s: physical tag" % what)
        subs = c.attrs.get("sub_cells_ids")
        rows = [x for _, _, x in subs.segs] if isinstance(subs, L) and subs.plain() and not subs.over else \
            list(subs.items) if isinstance(subs, Tup) else None
        if rows is None or len(rows) != dim + 1:
            self.res.unknown("sub-entities", name, "sub-entity table of a stored cell")
            return
        for k in range(dim + 1):
            ids = self.seq(rows[k])
            want = [self.ident([ns[i] for i in l], rank) for l in SUB[dim][k]]
            if ids is None:
                self.res.unknown("sub-entities", name, "sub-entities of dimension %d" % k)
                continue
            good = len(ids) == len(want) and all(a == b or k == 0 and a == ns[i] for i, (a, b) in enumerate(zip(ids, want)))
            if good:
                self.res.ok("sub-entities", "%s: entities of dimension %d in the reference order" % (what, k))
            elif all(plain_id(x) for x in ids):
                bad = next((i for i, (a, b) in enumerate(zip(ids, want)) if a != b and not (k == 0 and a == ns[i])), len(want))
                self.res.bad("sub-entities", name, "%s: entity %d of dimension %d is not the reference entity" % (what, bad, k), self.at(f))
            else:
                self.res.unknown("sub-entities", name, "sub-entities of dimension %d" % k)

    # ---- one block of cells --------------------------------------------------------
    def blocks(self):
        f = self.p.lookup_method(self.mesh, "insert_simplex_cell_from_block")
        if f is None:
            raise AnchorMissing("Mesh.insert_simplex_cell_from_block")
        block, phys = S("block"), S("physical")
        data = ("attr", block, "data")
        for d in range(4):
            seen = []

            def native(k):
                def call(it, pos, kw, n):
                    a = list(pos)
                    if a and freeze(a[0]) == M:
                        a = a[1:]
                    g = self.p.lookup_method(self.mesh, INSERT[k])
                    names = [x for x in g.params if x != "self"] if hasattr(g, "params") else ["node_tag" if k == 0 else "node_tags", "physical_tag"]
                    vals = dict(zip(names, [freeze(x) for x in a]))
                    vals.update({x: freeze(v) for x, v in kw.items()})
                    seen.append((k, vals.get(names[0]), vals.get(names[1], NONE), tuple(it.binders), tuple(it.guards)))
                    return ("id", K(k))
                return call

            nat = {self.p.lookup_method(self.mesh, n).id: native(k) for k, n in enumerate(INSERT)}

            def run(it):
                seen.clear()
                it.store[(block, "dim")] = K(d)
                return it.call_function(f, [block, phys], {}, None, self_=M)

            outs = explore(lambda dec: Interp(self.p, dec, types={M: self.mesh}, natives=nat), lambda it: with_frame(it, f, run), limit=4)
            for oc in self.outcomes(outs, "blocks", "insert_simplex_cell_from_block"):
                good = len(seen) == 1
                if good:
                    k, node, tag, bs, gs = seen[0]
                    row = ("get", data, ("bv", bs[0][0])) if len(bs) == 1 else None
                    good = k == d and len(bs) == 1 and not gs and tag == ("get", phys, ("bv", bs[0][0])) and \
                        node == (get_term(row, K(0)) if d == 0 else row)
                if good:
                    self.res.ok("blocks", "cells of dimension %d: inserted as such with the tag of their position" % d)
                elif all(clean(*[x for x in s[1:3] if x is not None], *s[4]) for s in seen):
                    self.res.bad("blocks", "insert_simplex_cell_from_block", "cells of dimension %d are not inserted one by one with their tag" % d, self.at(f))
                else:
                    self.res.unknown("blocks", "insert_simplex_cell_from_block", "dimension %d" % d)

    # ---- the registered entities ------------------------------------------------------
    def registration(self):
        f = self.p.lookup_method(self.mesh, "build_conformal_mesh")
        if f is None:
            raise AnchorMissing("Mesh.build_conformal_mesh")

        def osort(it, pos, kw, n):
            v = pos[0]
            if isinstance(v, Tup):
                v = it.concrete(v.items)
            if isinstance(v, L) and v.plain():
                leaves = set()
                for _, _, x in v.segs:
                    x = freeze(x)
                    leaves |= set(x[1]) if isinstance(x, tuple) and x[0] == "ord" else {x}
                ts = tuple(sorted(leaves, key=repr))
                if len(ts) == len(v.segs):
                    return it.concrete([("ord", ts, K(i)) for i in range(len(ts))], True)
            if isinstance(v, tuple) and v[0] == "get" and isinstance(v[2], tuple) and v[2][0] == "list" and all(x[:2] == ((), ()) for x in v[2][1]):
                return osort(it, [it.concrete([get_term(v[1], x[2]) for x in v[2][1]], True)], {}, n)
            return ("sorted", freeze(v))

        nat = {"np.sort": osort, "builtins.sorted": osort}
        block = self.p.lookup_method(self.mesh, "insert_simplex_cell_from_block")
        if block is not None:
            nat[block.id] = lambda it, pos, kw, n: NONE

        def run(it):
            return it.call_function(f, [], {}, None, self_=M)

        outs = explore(lambda dec: Interp(self.p, dec, types={M: self.mesh}, natives=nat), lambda it: with_frame(it, f, run), limit=8)
        kinds = {"tetra": 3, "triangle": 2, "line": 1}
        for oc in self.outcomes(outs, "registration", "build_conformal_mesh"):
            got, odd = set(), []
            for e in oc.it.effects:
                if e["kind"] != "=" and e["kind"] != "dictset":
                    continue
                t = freeze(e["target"]) if not isinstance(e["target"], (L, D)) else None
                tables = {("attr", M, "entities_%dd" % d): d for d in (1, 2, 3)}
                if t not in tables:
                    continue
                key = freeze(e["idx"])
                ent = self.entity_of(key, e["binders"], kinds)
                if ent is None:
                    odd.append(e)
                    continue
                if ent == "unsorted":
                    self.res.bad("registration", "build_conformal_mesh", "entities of dimension %d are registered under unsorted vertices" % tables[t],
                                 loc(e["module"], e["node"]))
                    continue
                gs = [g for g in e["guards"] if not self.absent(g, t, key)]
                if gs:
                    odd.append(e)
                    continue
                got.add((tables[t],) + ent)
            want = set()
            for kind, d in kinds.items():
                for k in range(1, d + 1):
                    for l in SUB[d][k]:
                        want.add((k, kind, tuple(l)))
            for w in sorted(want):
                what = "%s %s of every %s" % (("", "edge", "face", "volume")[w[0]], list(w[2]), w[1])
                if w in got:
                    self.res.ok("registration", "%s has a number" % what)
                elif odd:
                    self.res.unknown("registration", "build_conformal_mesh", what)
                else:
                    self.res.bad("registration", "build_conformal_mesh", "%s gets no number" % what, self.at(f))
            for w in sorted(got - want):
                self.res.bad("registration", "build_conformal_mesh", "%s of a %s is registered as an entity of dimension %d" % (list(w[2]), w[1], w[0]), self.at(f))

    def entity_of(self, key, binders, kinds):
        """(cell kind, local numbers) of a sorted key"""
        if not binders:
            return None
        src = None
        for b, c in binders:
            if c[0] == "len" and c[1][0] == "m" and c[1][1] == "get_cells_type" and len(c[1][3]) == 1 and is_k(c[1][3][0]):
                src = (c[1], b, c[1][3][0][2])
        if src is None or len(binders) != 1 or src[2] not in kinds:
            return None
        row = ("get", src[0], ("bv", src[1]))
        d = kinds[src[2]]
        if key == ("astuple", ("sorted", row)):
            return (src[2], tuple(range(d + 1)))
        if key == ("astuple", row) or key[0] == "tup" and all(x[0] == "get" and x[1] == row and is_k(x[2]) for x in key[1:]):
            return "unsorted"
        if key[0] == "tup" and all(x[0] == "ord" for x in key[1:]) and len(set(x[1] for x in key[1:])) == 1 and \
                [x[2] for x in key[1:]] == [K(i) for i in range(len(key) - 1)] and len(key[1][1]) == len(key) - 1:
            ls = []
            for x in key[1][1]:
                if x[0] == "get" and x[1] == row and is_k(x[2]) and isinstance(x[2][2], int):
                    ls.append(x[2][2] % (d + 1))
                else:
                    return None
            return (src[2], tuple(sorted(ls)))
        return None

    def absent(self, g, t, key):
        get = ("m", "get", t, (key, NONE), ())
        get1 = ("m", "get", t, (key,), ())
        for x in (get, get1):
            if g == ("eq",) + tuple(sorted((x, NONE), key=repr)):
                return True
        return g in (neg(("in", key, t)), neg(("in", key, ("m", "keys", t, (), ()))))

    # ---- orientation of shared entities --------------------------------------------------
    def orientation(self):
        f = self.func("permute_and_transform", "permute_and_transform")
        for d in (0, 1):
            for oc in self.oriented(f, d, tuple(range(d + 1)), {}, False, {}):
                if self.transforms(oc) == {}:
                    self.res.ok("orientation", "nothing is transformed on cells of dimension %d" % d)
                else:
                    self.res.bad("orientation", f.name, "shape functions are transformed on a cell of dimension %d" % d, self.at(f))
        for d in (2, 3):
            for oc in self.oriented(f, d, tuple(range(d + 1)), {}, True, {}):
                if self.transforms(oc) == {}:
                    self.res.ok("orientation", "dimension %d: nothing is transformed where the element says so" % d)
                else:
                    self.res.bad("orientation", f.name, "shape functions are transformed although the element needs no transformation", self.at(f))
        rule = {}
        ne = {2: 3, 3: 6}
        for d in (2, 3):
            patterns = list(itertools.product((False, True), repeat=3)) if d == 2 else \
                [tuple(False for _ in range(6)), tuple(True for _ in range(6))] + [tuple(i == j for j in range(6)) for i in range(6)]
            for ranks in itertools.permutations(range(d + 1)):
                for pat in patterns if d == 2 or ranks in ((0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1)) else patterns[:1]:
                    for oc in self.oriented(f, d, ranks, pat, False, {}):
                        tr = self.transforms(oc)
                        if tr is None:
                            self.res.unknown("orientation", f.name, "the transformations applied are not recognised")
                            continue
                        self.judge(f, d, ranks, pat, tr, rule, {})
        for bc in range(4):
            for ranks in itertools.permutations(range(4)):
                for oc in self.oriented(f, 3, ranks, tuple(False for _ in range(6)), False, {bc: True}):
                    tr = self.transforms(oc)
                    if tr is None:
                        self.res.unknown("orientation", f.name, "the transformations applied are not recognised")
                        continue
                    self.judge(f, 3, ranks, tuple(False for _ in range(6)), tr, rule, {bc: True})
        for d, r in rule.items():
            if r and len(r) == 1:
                self.res.ok("orientation", "dimension %d: every edge is compared with the same shared direction" % d)

    def oriented(self, f, d, ranks, stored, identity, bc):
        nodes = [S("n%d" % i) for i in range(d + 1)]
        rank = dict(zip(nodes, ranks))

        def cell(it, dim, ident, ns, subs):
            o = O(self.cell)
            o.attrs.update({"dimension": K(dim), "id": K(ident), "node_tags": it.concrete(ns, True), "material_id": NONE,
                            "sub_cells_ids": it.concrete([it.concrete(x, True) for x in subs])})
            return o

        def run(it):
            it.order.update(rank)
            it.facts[("attr", DOF, "transformations_are_identity")] = identity
            mem = {}
            ids = {}
            nid = 10
            for k in range(0, d):
                for i, l in enumerate(SUB[d][k]):
                    nid += 1
                    ids[(k, i)] = nid
                    ns = sorted((nodes[j] for j in l), key=lambda x: rank[x])
                    if k == 1 and stored and stored[i]:
                        ns.reverse()
                    mem[K(nid)] = cell(it, k, nid, ns, [[] for _ in range(k + 1)])
            subs = [[K(ids[(k, i)]) for i in range(len(SUB[d][k]))] for k in range(d)] + [[K(1)]]
            c = cell(it, d, 1, nodes, subs)
            mem[K(1)] = c
            it.memory[CELLS] = mem
            data = O(self.data)
            data.attrs.update({"cell": c, "mesh": M, "dof": DOF,
                               "bc_entities": it.concrete([TRUE if bc.get(i) else FALSE for i in range(d + 1)], True)})
            return it.call_function(f, [PHI, data], {}, None)

        return self.outcomes(explore(lambda dec: Interp(self.p, dec, types={M: self.mesh}), lambda it: with_frame(it, f, run), limit=4),
                             "orientation", f.name)

    def transforms(self, oc):
        """{(entity dimension, index): group element}"""
        out = {}
        if freeze(oc.value) != PHI:
            return None
        for e in oc.it.effects:
            if freeze(e["target"]) != PHI:
                continue
            if e["kind"] != "=" or e["guards"]:
                return None
            idx = freeze(e["idx"])
            bs = dict(e["binders"])
            v = freeze(e["value"])
            if not (isinstance(idx, tuple) and idx[0] == "tup" and len(idx) == 5):
                return None
            a, s, dofs, b = idx[1:]
            if not (a[0] == "bv" and b[0] == "bv" and s == ("slice", NONE, NONE, NONE) and len(bs) == 2 and
                    bs.get(a[1]) == ("shape", PHI, K(0)) and bs.get(b[1]) == ("shape", PHI, K(3))):
                bs_ok = {bs.get(x[1]) for x in (a, b) if x[0] == "bv"} == {("shape", PHI, 0), ("shape", PHI, 3)}
                if not bs_ok or s != ("slice", NONE, NONE, NONE):
                    return None
            if not (dofs[0] == "get" and dofs[1][0] == "get" and dofs[1][1] == ("attr", DOF, "entity_dofs") and is_k(dofs[1][2]) and is_k(dofs[2])):
                return None
            who = (dofs[1][2][2], dofs[2][2])
            fac = self.factors(v)
            if fac is None or fac[-1] != ("get", PHI, idx):
                return None
            g = out.get(who, ((0, 1, 2), 0, set()))
            p, flips, kinds = g
            for t in reversed(fac[:-1]):
                w = self.letter(t)
                if w is None:
                    return None
                kinds = kinds | {w[0]}
                if w[1] == "flip":
                    flips += 1
                elif w[1] == "rot":
                    p = comp(ROT, p)
                elif w[1] == "ref":
                    p = comp(REF, p)
            out[who] = (p, flips % 2, kinds)
        return {k: v for k, v in out.items() if v[0] != (0, 1, 2) or v[1] or len(v[2] - {None}) > 1}

    def factors(self, t):
        if t[0] == "MatMult":
            a, b = self.factors(t[1]), self.factors(t[2])
        elif t[0] == "call" and t[1] in ("np.dot", "np.matmul") and len(t[2]) == 2:
            a, b = self.factors(t[2][0]), self.factors(t[2][1])
        elif t[0] == "call" and t[1] == "np.linalg.matrix_power" and len(t[2]) == 2 and is_k(t[2][1]):
            a, b = [t[2][0]] * t[2][1][2], []
        else:
            return [t]
        return None if a is None or b is None else a + b

    def letter(self, t):
        if t[0] == "call" and t[1] in ("np.identity", "np.eye"):
            return (None, "id")
        tr = ("attr", DOF, "transformations")
        if t[0] == "get" and t[1][0] == "get" and t[1][1] == tr and is_k(t[1][2]) and is_k(t[2]):
            kind, i = t[1][2][2], t[2][2]
            if kind == "interval" and i == 0:
                return (kind, "flip")
            if kind == "triangle" and i in (0, 1):
                return (kind, ("rot", "ref")[i])
        return None

    def judge(self, f, d, ranks, pat, tr, rule, bc):
        edges = SUB[d][1]
        for i, (a, b) in enumerate(edges):
            up = ranks[a] < ranks[b]
            agree = up != pat[i]
            got = tr.pop((1, i), None)
            if got is not None and (got[2] - {None} != {"interval"} or not got[1]):
                self.res.bad("orientation", f.name, "the unknowns of edge %d are transformed with %s" % (i, sorted(x for x in got[2] if x)), self.at(f))
                continue
            turned = got is not None
            fits = {r for r, same in (("stored", agree), ("ascending", up)) if turned == (not same)}
            left = rule.setdefault(d, {"stored", "ascending"}) & fits
            if not left:
                self.res.bad("orientation", f.name, "dimension %d: edge %d is %s, which disagrees with the direction shared with the other elements "
                             "(vertices %s)" % (d, i, "reflected" if turned else "not reflected", [a, b]), self.at(f))
                continue
            rule[d] = left
            self.res.ok("orientation", "dimension %d: edge %d is reflected exactly where its direction differs from the shared one" % (d, i))
        if d == 3:
            for i, l in enumerate(SUB[3][2]):
                rs = [ranks[j] for j in l]
                order = sorted(rs)
                pos = list(itertools.permutations(range(3))).index(tuple(order.index(x) for x in rs))
                rot, ref = WORD[pos]
                if bc.get(i) and i in (1, 3):
                    ref = 1
                got = tr.pop((2, i), ((0, 1, 2), 0, {"triangle"}))
                if got[1] or got[2] - {None} - {"triangle"}:
                    self.res.bad("orientation", f.name, "the unknowns of face %d are transformed with %s" % (i, sorted(x for x in got[2] if x)), self.at(f))
                elif got[0] == word(rot, ref):
                    self.res.ok("orientation", "face %d: turned by the permutation of its vertices" % i)
                else:
                    self.res.bad("orientation", f.name, "face %d with vertices ordered %s%s is not turned by %d rotation(s) and %d reflection(s)"
                                 % (i, rs, " on the boundary" if bc.get(i) else "", rot, ref), self.at(f))
        if tr:
            self.res.bad("orientation", f.name, "unknowns of other entities are transformed: %s" % sorted(tr), self.at(f))

    # ---- points of a facet in the element behind it -------------------------------------------
    def traces(self):
        f = self.func("transform_lower_to_higher", "parametric_transformation")
        PTS = S("points")
        for d0 in (1, 2, 3):
            d1 = d0 - 1
            for i, l in enumerate(SUB[d0][d1]):
                for order in itertools.permutations(l):
                    if d0 == 1 and order != tuple(l):
                        continue
                    nodes = [S("n%d" % j) for j in range(d0 + 1)]

                    def run(it):
                        it.order.update((n, j) for j, n in enumerate(nodes))
                        c0, c1 = O(self.cell), O(self.cell)
                        subs = []
                        for k in range(d0 + 1):
                            subs.append(it.concrete([K(10 * (k + 1) + j) for j in range(len(SUB[d0][k]))], True))
                        c0.attrs.update({"dimension": K(d0), "id": K(10 * (d0 + 1)), "node_tags": it.concrete(nodes, True),
                                         "sub_cells_ids": it.concrete(subs)})
                        c1.attrs.update({"dimension": K(d1), "id": K(10 * (d1 + 1) + i), "node_tags": it.concrete([nodes[j] for j in order], True)})
                        a, b = O(self.data), O(self.data)
                        a.attrs.update({"cell": c1, "mesh": M})
                        b.attrs.update({"cell": c0, "mesh": M})
                        return it.call_function(f, [PTS, a, b], {}, None)

                    def kind(t):
                        t = freeze(t)
                        n = str(t[-1]) if t[0] in ("ext", "attr") else ""
                        return CELLTYPE.get(n.split(".")[-1])

                    def conn(it, pos, kw, n):
                        c = kind(pos[0])
                        if c is None:
                            return None
                        return it.concrete([it.concrete([it.concrete([it.concrete([K(x) for x in l2])] + [K("other")] * 3) for l2 in SUB[c][k]]) for k in range(c + 1)])

                    def topo(it, pos, kw, n):
                        c = kind(pos[0])
                        if c is None:
                            return None
                        return it.concrete([it.concrete([it.concrete([K(x) for x in l2]) for l2 in SUB[c][k]]) for k in range(c + 1)])

                    nat = {"basix.cell.sub_entity_connectivity": conn, "basix.cell.topology": topo, "basix.topology": topo,
                           "basix.geometry": lambda it, pos, kw, n: ("geom", kind(pos[0])),
                           "basix.cell.geometry": lambda it, pos, kw, n: ("geom", kind(pos[0]))}
                    outs = explore(lambda dec: Interp(self.p, dec, types={M: self.mesh}, natives=nat), lambda it: with_frame(it, f, run), limit=4)
                    for oc in self.outcomes(outs, "trace", f.name):
                        self.point(f, oc, d0, i, order, PTS)

    def point(self, f, oc, d0, i, order, PTS):
        what = "dimension %d, facet %d%s" % (d0, i, "" if list(order) == SUB[d0][d0 - 1][i] else " seen in another order")
        v = oc.value
        ok = isinstance(v, L) and len(v.segs) == 1 and not v.segs[0][1] and len(v.segs[0][0]) == 1 and v.segs[0][0][0][1] == ("len", PTS)
        if not ok:
            self.res.unknown("trace", f.name, "%s: %s" % (what, show(freeze(v))[:100]))
            return
        b = ("bv", v.segs[0][0][0][0])
        pt = ("get", PTS, b)
        got = freeze(v.segs[0][2])
        geom = lambda j: ("get", ("geom", d0), K(j))
        if d0 == 1:
            wants = [mul(geom(order[0]), pt), geom(order[0]), mul(geom(order[0]), get_term(pt, K(0)))]
        elif d0 == 2:
            wants = []
            for xi in (pt, get_term(pt, K(0))):
                wants.append(add(mul(geom(order[0]), add(K(1), xi, -1)), mul(geom(order[1]), xi)))
        else:
            xi, eta = get_term(pt, K(0)), get_term(pt, K(1))
            wants = [add(add(mul(geom(order[0]), add(add(K(1), xi, -1), eta, -1)), mul(geom(order[1]), xi)), mul(geom(order[2]), eta))]
        if got in wants:
            self.res.ok("trace", "%s: every point of the facet is placed at its own vertices" % what)
        elif clean(got) and atoms(got) <= atoms(("poly", wants[0], geom(0), pt)) | {"poly", "k", "get", "bv", "sym", "geom", "points", "float", "int"}:
            self.res.bad("trace", f.name, "%s: the points of the facet are placed at %s instead of %s" % (what, show(got)[:160], show(wants[0])[:160]), self.at(f))
        else:
            self.res.unknown("trace", f.name, "%s: %s" % (what, show(got)[:120]))

    # ---- the order in which the graph lists the entities ---------------------------------------
    def graph(self):
        f = self.p.lookup_method(self.mesh, "gather_graph_edges")
        if f is None:
            raise AnchorMissing("Mesh.gather_graph_edges")
        for d in range(1, 4):
            for k in range(0, d + 1):
                def run(it):
                    mem = {}
                    subs = []
                    for kk in range(d + 1):
                        ids = [100 * (kk + 1) + PERM[j] for j in range(len(SUB[d][kk]))]
                        subs.append(it.concrete([K(x) for x in ids], True))
                        for x in ids:
                            o = O(self.cell)
                            o.attrs.update({"dimension": K(kk), "id": K(x)})
                            mem[K(x)] = o
                    c = mem[K(100 * (d + 1) + PERM[0])]
                    c.attrs["sub_cells_ids"] = it.concrete(subs)
                    it.memory[CELLS] = mem
                    out = it.concrete([])
                    it.out = out
                    it.call_function(f, [K(k), c, out], {}, None, self_=M)
                    return out

                outs = explore(lambda dec: Interp(self.p, dec, types={M: self.mesh}), lambda it: with_frame(it, f, run), limit=4)
                for oc in self.outcomes(outs, "graph", "gather_graph_edges"):
                    got = self.seq(oc.value)
                    me = ("tup", K(d), K(100 * (d + 1) + PERM[0]))
                    want = [("tup", me, ("tup", K(k), K(100 * (k + 1) + PERM[j]))) for j in range(len(SUB[d][k]))]
                    what = "dimension %d: the entities of dimension %d are listed in local order" % (d, k)
                    if got == want:
                        self.res.ok("graph", what)
                    elif got is not None and clean(*got):
                        self.res.bad("graph", "gather_graph_edges", "not so: " + what, self.at(f))
                    else:
                        self.res.unknown("graph", "gather_graph_edges", what)


def run(program, res, tier):
    c = LocalCheck(program, res)
    for part in (c.insertion, c.blocks, c.registration, c.orientation, c.traces, c.graph):
        try:
            part()
        except AnchorMissing as e:
            res.unknown("anchor", str(e), "not found")
