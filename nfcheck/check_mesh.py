"""P15: mesh edits keep cells, points and references consistent.

The conformity cuts are interpreted on a mesh with N cells and P points (both unknown) that satisfies the property, for one
fracture (the fractures are cut one after the other, so one cut is the step of an induction). The cells and points that the
edit adds, and every write to an identifier list or to node tags, are then compared with the property."""
import ast

from .core import AnchorMissing, loc
from .meshvn import MInterp, CELLS, POINTS, N, P
from .vn import (K, L, D, O, Tup, NONE, explore, freeze, subst, add, mul, has, is_k, is_splice, get_term, neg, Unknown, _mons)
from .check_scatter import rename

S = lambda x: ("sym", x)
OPAQUE = {"build_graph", "build_graph_from_cell_ids", "build_graph_on_physical_tags", "build_graph_on_materials",
          "compute_fracture_normals", "compute_normals_on_embed_shapes", "barycenter", "points_line_intersection",
          "points_line_argsort", "cell_centroid"}
ELEM = ("elem",)
LINE_TAG = ("get", S("tags"), K("line"))


class Segment:
    """cells (or points) added by one append: offset, count, value at index ("bv", "i")"""
    def __init__(self, off, count, value, k):
        self.off, self.count, self.value, self.k = off, count, value, k


I = ("bv", "i")


def segments(lst, sym, size):
    """[base, segments] of a grown list, or a reason why the list cannot be read"""
    if not isinstance(lst, L) or not lst.segs:
        return "the list is not followed"
    bs, gs, v = lst.segs[0]
    if len(bs) != 1 or gs or v != get_term(sym, ("bv", bs[0][0])) or bs[0][1] != size:
        return "the list does not start with what it held before"
    off, out = size, []
    for k, (bs, gs, v) in enumerate(lst.segs[1:]):
        if len(bs) > 1 or gs:
            return "added under a condition"
        if is_splice(v):
            cnt = ("len", v[1])
            out.append(Segment(off, cnt, ("get", v[1], I), k))
            off = add(off, cnt)
            continue
        cnt = bs[0][1] if bs else K(1)
        rows = v[1] if isinstance(v, tuple) and v and v[0] == "row" else None
        if rows is not None:
            return "several added in one round"
        out.append(Segment(off, cnt, subst(v, {("bv", bs[0][0]): I}) if bs else v, k))
        off = add(off, cnt)
    return out


class Checker:
    def __init__(self, name, f, o, res):
        self.name, self.f, self.res = name, f, res
        self.it, self.value = o.it, o.value
        self.cells = self.points = None
        self.bad_ = set()
        self.by_vertex = False   # the elements of the cut edges are found at the vertices of these edges

    def where(self, node=None, module=None):
        return loc(module or self.f.module, node if node is not None else self.f.node)

    def bad(self, rule, what, msg, node=None, module=None):
        if (rule, what) not in self.bad_:
            self.bad_.add((rule, what))
            self.res.bad(rule, self.name + "|" + what, msg, self.where(node, module))

    def unknown(self, rule, what, why):
        self.res.unknown(rule, self.name + "|" + what, why)

    def ok(self, rule, sample=None):
        self.res.ok(rule, sample)

    # ---- the lists ----------------------------------------------------------
    def lists(self):
        for name, sym, size, rule in (("cells", CELLS, N, "id"), ("points", POINTS, P, "point")):
            s = segments(self.it.mesh.attrs.get(name), sym, size)
            if isinstance(s, str):
                v = self.it.mesh.attrs.get(name)
                if isinstance(v, L) and "start" in s:
                    self.bad(rule, name, "the %s of the mesh are not kept in front of what is added" % name)
                else:
                    self.unknown(rule, name, s)
                return False
            setattr(self, name, s)
        return True

    def seg_at(self, segs, pos):
        """segment and index of a position"""
        for s in segs:
            rel = add(pos, s.off, -1)
            if isinstance(rel, tuple) and rel[0] == "bv" or is_k(rel) and s.count == K(1) and rel == K(0):
                return s, rel
        return None, None

    def cell_of(self, seg, idx):
        return subst(seg.value, {I: idx})

    # ---- new cells ------------------------------------------------------------
    def new_cells(self):
        seen = {}
        for s in self.cells:
            v = s.value
            if not self.it.is_ref(v):
                self.unknown("id", "added cell", "added cell is not followed") if not (isinstance(v, tuple) and v[0] == "get" and v[1] == CELLS) else \
                    self.bad("stored-once", "added cell", "a cell that the mesh already has is stored a second time")
                continue
            r = self.it.records[v[1]]
            what = "cell added at line %d" % r.node.lineno
            label = self.label(r)
            if v[1] in seen or v[2] not in ((I,), ()) or (v[2] == () and s.count != K(1)):
                self.bad("stored-once", label, "the same new cell is stored at more than one position of the cell list", r.node, r.module)
                continue
            seen[v[1]] = s
            self.ok("stored-once", "%s: %s appended once" % (self.name, label))
            pos = add(s.off, I) if v[2] else s.off
            cid = r.attrs.get("id")
            here = {("bv", b): I for b, _ in r.binders}
            cid = subst(cid, here) if isinstance(cid, tuple) else cid
            if isinstance(cid, tuple) and cid and cid[0] == "?" or atoms_unknown(cid):
                self.unknown("id", label, "identifier not followed")
                continue
            if cid is None and r.origin is None or cid == NONE:
                self.bad("id", label, "the new cell is stored without an identifier", r.node, r.module)
            elif cid != pos:
                self.bad("id", label, "the identifier of the new cell is %s but it is stored at position %s" % (show(cid) if cid is not None else "that of its original", show(pos)), r.node, r.module)
            else:
                self.ok("id", "%s: %s has identifier = position %s" % (self.name, label, show(pos)))
            if r.shared:
                self.bad("copy", label, "the copied cell shares its %s with its original" % " and ".join(
                    {"node_tags": "node tags", "sub_cells_ids": "identifier lists"}[x] for x in sorted(r.shared, reverse=True)), r.node, r.module)
            elif r.origin is not None:
                self.ok("copy")
            self.own_entry(s, r, label, pos, here)
        self.by_record = {self.it.records[k]: s for k, s in seen.items()}
        self.stored = seen
        for k, r in enumerate(self.it.records):
            if k >= self.it.first[0] and k not in seen and r.attrs.get("id") is not None:
                self.bad("stored-once", self.label(r), "a new cell receives an identifier but is not stored in the cell list", r.node, r.module)

    def label(self, r):
        k = [x for x in self.it.records[self.it.first[0]:] if (x.origin is None) == (r.origin is None)].index(r)
        return "%s cell %d" % ("duplicated" if r.origin is not None else "created", k + 1)

    def dimension(self, r, idx=None):
        """dimension of a record: constant, or term of its original"""
        d = r.attrs.get("dimension")
        if d is not None:
            return d
        if r.origin is not None:
            return self.dim_of(r.origin)
        return None

    def dim_of(self, cell):
        it = self.it
        if it.is_ref(cell):
            return self.dimension(it.records[cell[1]])
        if it.vertexlike(cell):
            return K(0)
        x = cell
        for _ in range(4):
            if isinstance(x, tuple) and len(x) == 3 and x[0] == "get" and isinstance(x[1], tuple) and x[1][0] == "get" and it.many(x[1][2]):
                x = ("get", x[1][1], x[2])
            if not (isinstance(x, tuple) and x and x[0] == "get" and isinstance(x[1], tuple) and x[1][0] == "seq"):
                break
            kind, l = it.seqs[x[1][1]]
            if not isinstance(l, L) or len(l.segs) != 1:
                break
            bs, gs, v = l.segs[0]
            for g in conj(gs):
                if g[0] == "eq" and ("attr", v, "material_id") in g[1:] and LINE_TAG in g[1:]:
                    return K(1)
                if g[0] == "eq" and ("attr", v, "dimension") in g[1:]:
                    o = [y for y in g[1:] if y != ("attr", v, "dimension")]
                    if o and is_k(o[0]):
                        return o[0]
            x = v
        return ("attr", cell, "dimension")

    def own_entry(self, s, r, label, pos, here):
        dim = self.dimension(r)
        keys = [dim] if dim is not None else []
        if r.origin is not None:
            keys.append(("attr", r.origin, "dimension"))
        lst = None
        for k in r.subs:
            if k in keys or (is_k(k) and is_k(dim) and k == dim):
                lst = r.subs[k]
        if lst is None:
            odd = [k for k in r.subs if not is_k(k) or not is_k(dim)] if dim is None or not is_k(dim) else []
            if odd:
                self.unknown("own-id", label, "dimension of the list not followed")
            else:
                self.bad("own-id", label, "the list of identifiers of the own dimension of the new cell does not hold its new identifier", r.node, r.module)
            return
        lst = subst(lst, here)
        ids = [x for _, _, x in lst.segs] if isinstance(lst, L) and lst.plain() else None
        if ids is None:
            self.unknown("own-id", label, "list not followed")
        elif not ids or ids[0] != pos:
            self.bad("own-id", label, "the list of identifiers of the own dimension of the new cell starts with %s, its identifier is %s" % (show(ids[0]) if ids else "nothing", show(pos)), r.node, r.module)
        else:
            rest = [x for x in ids[1:] if not self.is_origin_id(x, r, here)]
            if rest:
                self.bad("own-id", label, "the list of identifiers of the own dimension holds %s" % show(rest[0]), r.node, r.module)
            else:
                self.ok("own-id", "%s: %s lists itself in its own dimension" % (self.name, label))

    def is_origin_id(self, x, r, here):
        return r.origin is not None and x in (self.id_of(subst(r.origin, here)),)

    def id_of(self, cell):
        return cell[2] if cell[0] == "get" and cell[1] == CELLS else ("attr", cell, "id")

    # ---- points of new vertices -------------------------------------------------
    def new_vertices(self):
        used = {}
        for s in self.cells:
            if not self.it.is_ref(s.value):
                continue
            r = self.it.records[s.value[1]]
            if self.dimension(r) != K(0):
                continue
            label = self.label(r)
            here = {("bv", b): I for b, _ in r.binders}
            tags = r.attrs.get("node_tags")
            tags = subst(tags, here) if tags is not None else None
            if tags is None:
                self.bad("point", label, "the new vertex keeps the node of its original", r.node, r.module)
                continue
            if not (isinstance(tags, L) and tags.plain() and len(tags.segs) == 1):
                self.unknown("point", label, "node tags not followed")
                continue
            tag = tags.segs[0][2]
            if atoms_unknown(tag):
                self.unknown("point", label, "node tag not followed")
                continue
            ps, idx = self.seg_at(self.points, tag)
            if ps is None:
                self.bad("point", label, "the node tag %s of the new vertex is not the position of a point that the edit added" % show(tag), r.node, r.module)
                continue
            if idx != I and s.count != K(1) or ps.count != s.count:
                self.bad("point", label, "the node tags of the new vertices do not run over the points that were added for them", r.node, r.module)
                continue
            if ps.k in used:
                self.bad("point", label, "two new vertices use the same added point", r.node, r.module)
                continue
            used[ps.k] = (s, r)
            if r.origin is not None:
                old = self.point_source(ps)
                own = get_term(("attr", subst(r.origin, here), "node_tags"), K(0))
                if old is None:
                    self.unknown("point", label, "source of the added point not followed")
                    continue
                if old != own:
                    self.bad("point", label, "the point of the duplicated vertex is a copy of point %s, not of that of its original" % show(old), r.node, r.module)
                    continue
            s.tag, s.point = tag, ps
            self.ok("point", "%s: %s has its own point at position %s" % (self.name, label, show(tag)))
        for ps in self.points:
            if ps.k not in used:
                if any(self.it.is_ref(s.value) and not hasattr(s, "tag") for s in self.cells if self.it.is_ref(s.value) and self.dimension(self.it.records[s.value[1]]) == K(0)):
                    continue
                self.bad("point", "added points %d" % (ps.k + 1), "points are added that no new vertex uses")

    # ---- updates ------------------------------------------------------------------
    def events(self):
        """writes to identifier lists and node tags: dict(cell=, kind=("sub", d)|("node",), map=, key=, elem=, node=, effect=)"""
        out = []
        for e in self.it.effects:
            t = e["target"]
            kind = None
            if e["kind"] == "=" and isinstance(t, tuple) and t:
                if t[0] == "get" and isinstance(t[1], tuple) and t[1] and t[1][0] == "subs":
                    cell, kind = t[1][1], ("sub", t[2])
                elif t[0] == "attr" and t[2] == "node_tags":
                    cell, kind = t[1], ("node",)
            elif e["kind"] == "sublist":
                cell, kind = t, ("list", e["idx"])
            elif e["kind"] == "setattr" and isinstance(t, tuple) and self.it.is_cell(t) and e["idx"][2] in ("id", "dimension", "sub_cells_ids", "node_tags", "perm"):
                if e["idx"][2] == "perm":
                    continue
                cell, kind = t, ("attr", e["idx"][2])
            if kind is None or not self.it.is_cell(cell):
                if kind is not None:
                    self.unknown("reference", "write", "the written cell is not followed")
                continue
            out.append((cell, kind, e))
        return out

    def parse_map(self, t):
        """(key, value, count) at index I of a dictionary that was filled by one loop"""
        if isinstance(t, tuple) and t and t[0] == "dict" and len(t[1]) == 1:
            cnt, gs, k, v = t[1][0]
            if len(cnt) == 1 and not gs:
                return opened(k), opened(v), cnt[0]
        return None

    def updates(self):
        ups = []
        for cell, kind, e in self.events():
            t, node, mod = e["target"], e["node"], e["module"]
            if kind[0] in ("attr", "list"):
                if kind[0] == "list":
                    u = self.rebuilt(cell, kind, e)
                    if u is not None:
                        ups.append(u)
                        continue
                what = "identifier" if kind[1] == "id" else "references"
                if kind[0] == "attr" and kind[1] in ("node_tags", "sub_cells_ids") or kind[0] == "list":
                    self.unknown("reference", "write", "%s replaced as a whole" % what)
                else:
                    self.bad("reference", "write of %s" % kind[1], "the %s of a cell that the mesh already has is replaced" % kind[1], node, mod)
                continue
            elem = get_term(t, freeze(e["idx"]))
            v = e["value"]
            if not (isinstance(v, tuple) and v and v[0] in ("get", "getd") and isinstance(v[1], tuple) and v[1] and v[1][0] == "dict"):
                if isinstance(v, tuple) and v and v[0] == "?" or not isinstance(v, tuple):
                    self.unknown("reference", "update", "value not followed")
                else:
                    s, _ = self.seg_at(self.cells if kind[0] == "sub" else self.points, v)
                    if s is None:
                        self.unknown("reference", "update", "value not followed: %s" % show(v))
                    else:
                        self.unknown("reference", "update", "single reference written")
                continue
            mp = self.parse_map(v[1])
            if mp is None:
                if v[1][1] == ():
                    continue
                self.unknown("reference", "update", "map not followed")
                continue
            same = v[2] == elem
            if not same and self.it.is_cell(cell) and kind[0] == "node":
                same = v[2] == get_term(("attr", cell, "node_tags"), freeze(e["idx"]))
            if not same:
                self.bad("reference", "entry", "an entry is replaced by the duplicate of another entry: %s instead of %s" % (show(v[2]), show(elem)), node, mod)
                continue
            keep = v[0] == "getd" and v[3] == elem
            if not keep and not self.guarded(e["guards"], v[1], elem):
                self.bad("reference", "entry", "an entry that has no duplicate is overwritten", node, mod)
                continue
            left = [g[1] for g in conj(e["guards"]) if g[0] == "upto"]
            if left and all(self.guarded((g,), v[1], elem) for g in left):
                self.bad("reference", "all entries", "only the first entry that has a duplicate is replaced, the others keep the old %s" % (
                    "node" if kind[0] == "node" else "cell"), node, mod)
                continue
            if left:
                self.unknown("reference", "update", "loop left early")
                continue
            self.ok("entry", "%s: only entries with a duplicate are replaced" % self.name)
            ups.append((cell, kind, mp, e))
        return ups

    def rebuilt(self, cell, kind, e):
        """cell.sub_cells_ids[d] = [map.get(x, x) for x in cell.sub_cells_ids[d]]"""
        v = e["value"]
        if not (isinstance(v, L) and len(v.segs) == 1 and len(v.segs[0][0]) == 1 and not v.segs[0][1]):
            return None
        x = v.segs[0][2]
        old = ("get", ("subs", cell), kind[1])
        el = get_term(old, ("bv", v.segs[0][0][0][0]))
        if isinstance(x, tuple) and x and x[0] == "getd" and x[2] == el and x[3] == el and self.parse_map(x[1]):
            return (cell, ("sub", kind[1]), self.parse_map(x[1]), e)
        return None

    def guarded(self, guards, mp, elem):
        for g in conj(guards):
            if g[0] == "not" and g[1][0] == "eq":
                xs = g[1][1:]
                if NONE in xs and any(isinstance(x, tuple) and x and x[0] in ("get", "getd") and x[1] == mp and x[2] == elem for x in xs):
                    return True
            if g[0] == "in" and g[1] == elem:
                return True
        return False

    def plain_cell(self, cell):
        """cells[ids[mask]][i] -> cells[ids[mask][i]]"""
        if cell[0] == "get" and isinstance(cell[1], tuple) and len(cell[1]) == 3 and cell[1][:2] == ("get", CELLS):
            return ("get", CELLS, ("get", cell[1][2], cell[2]))
        return cell

    def side(self, cell):
        """conditions under which the cells were selected, written for ELEM"""
        it = self.it
        cell = self.plain_cell(cell)
        x = cell[2] if cell[0] == "get" and cell[1] == CELLS else cell
        out = set()
        for _ in range(6):
            if not (isinstance(x, tuple) and len(x) == 3 and x[0] == "get" and isinstance(x[1], tuple)):
                break
            if x[1][0] == "get" and len(x[1]) == 3 and it.many(x[1][2]):
                for g, v in self.mask(x[1][2], x[1][1]):
                    out.add((g, v))
                x = ("get", x[1][1], x[2])
                continue
            if x[1][0] != "seq":
                break
            kind, l = it.seqs[x[1][1]]
            if not isinstance(l, L) or len(l.segs) != 1:
                break
            bs, gs, v = l.segs[0]
            for g in conj(gs):
                sg = True
                while g[0] == "not":
                    g, sg = g[1], not sg
                m = {v: ELEM}
                if isinstance(v, tuple) and v[0] == "get" and v[1] == CELLS:
                    m[v[2]] = ELEM
                    m[v] = ("get", CELLS, ELEM)
                g = rename(g, m)
                if has(g, ELEM):
                    out.add(signed(g, sg))
            x = v
        return out

    def mask(self, m, base):
        sg = True
        if m[0] == "call" and m[1] == "np.where" and len(m[2]) == 3 and m[2][1:] in ((K(True), K(False)), (K(False), K(True))):
            sg = m[2][1] == K(True)
            m = m[2][0]
        while m[0] == "not":
            m, sg = m[1], not sg
        m = rename(m, {base: ELEM})
        return [signed(m, sg)] if has(m, ELEM) else []

    def check_updates(self, need_vertices):
        ups = self.updates()
        per = []
        for cell, kind, (key, val, cnt), e in ups:
            node, mod = e["node"], e["module"]
            line = "update of %s" % ("node tags" if kind[0] == "node" else "%sd references" % (kind[1][2] if is_k(kind[1]) else "?"))
            if kind[0] == "sub":
                s, idx = self.seg_at(self.cells, val)
                if atoms_unknown(val):
                    self.unknown("reference", line, "new identifier not followed")
                    continue
                if s is None or not self.it.is_ref(s.value):
                    self.bad("reference", line, "a reference is replaced by %s, which is not the identifier of a cell that the edit added" % show(val), node, mod)
                    continue
                if idx != I and s.count != K(1) or s.count != cnt:
                    self.bad("reference", line, "the new identifiers are not those of all duplicates, one for each original", node, mod)
                    continue
                r = self.it.records[s.value[1]]
                d = self.dimension(r)
                dk = kind[1]
                if is_k(dk) and is_k(d) and dk != d:
                    self.bad("reference", line, "an identifier in the list of dimension %s is replaced by that of a cell of dimension %s" % (dk[2], d[2]), node, mod)
                    continue
                org = self.original(s, r)
                if org is None:
                    self.unknown("reference", line, "original of the new cell not followed")
                    continue
                if key not in org:
                    self.bad("reference", line, "the reference to %s is replaced by the duplicate of %s" % (show(key), show(org[0])), node, mod)
                    continue
                self.ok("reference", "%s: %s of %s -> duplicate at %s" % (self.name, line, show(cell), show(val)))
                per.append((cell, "sub", d, s, e))
            else:
                ps, idx = self.seg_at(self.points, val)
                if atoms_unknown(val):
                    self.unknown("reference", line, "new node tag not followed")
                    continue
                if ps is None:
                    self.bad("reference", line, "a node tag is replaced by %s, which is not the position of an added point" % show(val), node, mod)
                    continue
                if idx != I and ps.count != K(1) or ps.count != cnt:
                    self.bad("reference", line, "the new node tags are not those of all added points, one for each original", node, mod)
                    continue
                old = self.point_source(ps)
                if old is None:
                    self.unknown("reference", line, "source of the added point not followed")
                    continue
                if key != old:
                    self.bad("reference", line, "node tag %s is replaced by the copy of point %s" % (show(key), show(old)), node, mod)
                    continue
                vs = [s for s in self.cells if getattr(s, "point", None) is ps]
                self.ok("reference", "%s: %s of %s -> point at %s" % (self.name, line, show(cell), show(val)))
                per.append((cell, "node", K(0), vs[0] if vs else None, e))
        self.sides(per)
        return per

    def point_source(self, ps):
        """node tag of which an added point is a copy"""
        v = ps.value
        if isinstance(v, tuple) and v and v[0] == "get" and v[1] == POINTS:
            return v[2]
        return None

    def original(self, s, r):
        """accepted keys for the original of a new cell"""
        here = {("bv", b): I for b, _ in r.binders}
        if r.origin is not None:
            o = subst(r.origin, here)
            return [self.id_of(o)]
        ps = getattr(s, "point", None)
        if ps is None:
            return None
        old = self.point_source(ps)
        if isinstance(old, tuple) and old[0] == "get" and old[2] == K(0) and isinstance(old[1], tuple) and old[1][0] == "attr" and old[1][2] == "node_tags":
            return [self.id_of(old[1][1])]
        return None

    def sides(self, per):
        """the two sides of the cut refer to different duplicates, each to one set of them"""
        groups = {}              # selection of mesh cells -> {(kind, dim): {segment index}}
        signs = {}
        refs = {}                # new cells -> ...
        for cell, kind, d, s, e in per:
            if s is None:
                continue
            if self.it.is_ref(cell):
                refs.setdefault(cell[1], {}).setdefault((kind, d), set()).add(s.k)
            else:
                sd = self.side(cell)
                for g, sg in sd:
                    signs.setdefault(g, set()).add(sg)
                groups.setdefault((frozenset(sd), cell_key(cell)), {}).setdefault((kind, d), set()).add(s.k)
        if not groups:
            return
        split = [g for g, v in signs.items() if len(v) == 2 and g[0] in ("lt", "eq")]
        if len(split) != 1:
            if len(per) and not split:
                self.bad("sides", "selection", "the cells on the two sides of the cut are not told apart by the sign of one expression")
            else:
                self.unknown("sides", "selection", "more than one condition separates the cells")
            return
        g = split[0]
        use = {True: {}, False: {}}
        self.coverage(per, g)
        for (sd, ck), m in groups.items():
            sg = [x for y, x in sd if y == g]
            if len(sg) != 1:
                self.unknown("sides", "selection", "cells without a side")
                return
            for k, v in m.items():
                use[sg[0]].setdefault(k, set()).update(v)
            kinds = {(k, d) for k, d in m}
            if (("sub", K(0)) in kinds) != (("node", K(0)) in kinds):
                self.bad("sides", "nodes", "cells of the mesh receive duplicated vertices without the node tags of these vertices, or the reverse")
        dims = {k for m in use.values() for k in m}
        for k in sorted(dims, key=repr):
            a, b = use[True].get(k, set()), use[False].get(k, set())
            what = "%s of dimension %s" % ("node tags" if k[0] == "node" else "references", k[1][2] if is_k(k[1]) else "?")
            if not a or not b:
                self.bad("sides", what, "only the cells on one side of the cut receive duplicates (%s)" % what)
            elif a & b:
                self.bad("sides", what, "cells on both sides of the cut are connected to the same duplicate (%s)" % what)
            elif len(a) > 1 or len(b) > 1:
                self.bad("sides", what, "cells on one side of the cut are connected to the duplicates of both sides (%s)" % what)
            else:
                self.ok("sides", "%s: %s differ on the two sides" % (self.name, what))
        for sg in (True, False):
            v, t = use[sg].get(("sub", K(0))), use[sg].get(("node", K(0)))
            if v and t and v != t:
                self.bad("sides", "vertices and nodes", "the cells on one side receive the vertices of one side and the points of the other")
        # the duplicated cells of a side refer to the vertices of the same side
        side_of = {}
        for sg in (True, False):
            for k, v in use[sg].items():
                if k[0] == "sub":
                    for x in v:
                        side_of[x] = sg
        vsegs = {x for sg in use for k, v in use[sg].items() if k == ("sub", K(0)) for x in v}
        for s in self.cells:
            if not self.it.is_ref(s.value) or s.k not in side_of:
                if self.it.is_ref(s.value):
                    self.bad("sides", self.label(self.it.records[s.value[1]]), "no cell of the mesh refers to the duplicate")
                continue
            r = self.it.records[s.value[1]]
            d = self.dimension(r)
            if d == K(0) or not vsegs:
                continue
            m = refs.get(s.value[1], {})
            for k, what in ((("sub", K(0)), "vertices"), (("node", K(0)), "nodes")):
                got = m.get(k, set())
                if not got:
                    self.bad("sides", "%s, %s" % (self.label(r), what), "the duplicate keeps the %s of its original where these were duplicated" % what, r.node, r.module)
                elif any(side_of.get(x, None) != side_of[s.k] for x in got):
                    self.bad("sides", "%s, %s" % (self.label(r), what), "the duplicate refers to %s on the other side of the cut" % what, r.node, r.module)
                else:
                    self.ok("sides", "%s: %s has the %s of its side" % (self.name, self.label(r), what))
        self.side_of = side_of
        pos = self.positive(g)
        self.plus = {x for x, sg in side_of.items() if sg == pos} if pos is not None else None

    # ---- the cells that are updated ------------------------------------------------
    def sources(self, x, guards):
        """graph look-ups an identifier was taken from: (graph, dimension, identifier) or None where it is not followed"""
        it = self.it
        if isinstance(x, tuple) and len(x) == 3 and x[0] == "get" and isinstance(x[1], tuple) and x[1]:
            b = x[1]
            if b == CELLS:
                return self.sources(x[2], guards)
            if b[0] == "seq":
                l = it.seqs[b[1]][1]
                if not isinstance(l, L):
                    return [None]
                out = []
                for _, gs, v in l.segs:
                    for y in gs:
                        guards.append((y, v))
                    out += self.sources(v[1] if is_splice(v) else v, guards)
                return out
            if x[2] == K(1) and b[0] == "get" and isinstance(b[1], tuple) and b[1][0] == "seq":
                l = it.seqs[b[1][1]][1]
                if not isinstance(l, L):
                    return [None]
                out = []
                for _, gs, v in l.segs:
                    for y in gs:
                        guards.append((y, v))
                    out += self.sources(("get", ("get", v[1], ("bv", "*")) if is_splice(v) else v, K(1)), guards)
                return out
            if x[2] == K(1) and b[0] == "get" and isinstance(b[1], tuple) and b[1][:2] == ("m", "predecessors"):
                g, arg = b[1][2], b[1][3]
                if g[0] == "graph" and len(arg) == 1 and arg[0][0] == "tup" and len(arg[0]) == 3:
                    return [(g, arg[0][1], arg[0][2])]
                if g[0] == "graph" and len(arg) == 1 and arg[0][0] == "tup" and len(arg[0]) == 2 and len(arg[0][1]) == 2:
                    return [(g,) + tuple(arg[0][1])]
                return [None]
            if it.many(x[2]):
                return [None]
            return self.sources(b, guards)
        return [None]

    def coverage(self, per, g):
        """every cell that holds a duplicated cell is among the updated ones"""
        want = {K(0): {(2, 2), (1, 1)}, K(1): {(2, 2) if self.by_vertex else (2, 1)}}
        got = {}
        dup = [self.original(s, self.it.records[s.value[1]]) for s in self.cells if self.it.is_ref(s.value)]
        dup = [o for l in dup for o in (l or ())]
        for cell, kind, d, s, e in per:
            if s is None or self.it.is_ref(cell) or d not in want:
                continue
            what = "%s of dimension %s" % ("node tags" if kind == "node" else "references", d[2])
            guards, excluded = [], False
            src = self.sources(self.plain_cell(cell), guards)
            for y, v in guards:
                for c in conj((y,)):
                    m = {v: ELEM}
                    c2 = c
                    while c2[0] == "not":
                        c2 = c2[1]
                    if isinstance(v, tuple) and v[0] == "get" and v[1] == CELLS:
                        m[v[2]] = ELEM
                        m[v] = ("get", CELLS, ELEM)
                    if signed(rename(c2, m), True)[0] == g:
                        continue
                    if c[0] == "not" and c2[0] == "in" and self.members(c2[2]) in dup:
                        excluded = True
                        continue
                    if c[0] == "not" and c2[0] == "in" and isinstance(v, tuple) and c2[1] == ("attr", ("get", CELLS, v), "material_id") and \
                            len(self.it.rounds) > 1 and all(has(c2[2], t) for t in self.it.rounds):
                        self.bad("covered", what, "cells on other cuts than the present one are left out of the update", e["node"], e["module"])
                        return
                    src.append(None)
            if None in src:
                self.unknown("covered", what, "the selection of the updated cells is not followed")
                return
            org = self.original(s, self.it.records[s.value[1]])
            if self.by_vertex and d == K(1):
                org = [o for y in self.cells if self.it.is_ref(y.value) and self.dimension(self.it.records[y.value[1]]) == K(0)
                       for o in (self.original(y, self.it.records[y.value[1]]) or ())]
            for gr, dim, ident in src:
                if dim[0] == "attr" and dim[2] == "dimension":
                    dim = self.dim_of(dim[1])
                if not (is_k(gr[2]) and is_k(gr[3])) or not gr[4]:
                    self.unknown("covered", what, "the graph is not followed")
                    return
                if gr[1] != self.it.round:
                    self.bad("covered", what, "the cells are looked up in a graph of the mesh before the previous cut", e["node"], e["module"])
                    return
                if dim != (K(0) if self.by_vertex else d) or not any(self.same_selection(ident, o) for o in org):
                    self.bad("covered", what, "the cells are looked up with (%s, %s), which is not the duplicated cell" % (show(dim), show(ident)), e["node"], e["module"])
                    return
                if gr[2] == K(1) and not excluded:
                    self.bad("covered", "originals", "the cells on the cut are not excluded from the cells whose references are replaced")
                    return
                sg = [x for y, x in self.side(cell) if y == g]
                got.setdefault((sg[0] if sg else None, kind, d), set()).add((gr[2][2], gr[3][2]))
        for (sg, kind, d), have in sorted(got.items(), key=repr):
            what = "%s of dimension %s" % ("node tags" if kind == "node" else "references", d[2])
            miss = want[d] - have
            if miss:
                self.bad("covered", what, "the cells of dimension %s that hold the duplicated cells are not updated" % sorted(miss)[0][0])
            else:
                self.ok("covered", "%s: %s of all cells that hold a duplicated cell" % (self.name, what))

    def members(self, t):
        if isinstance(t, tuple) and t and t[0] == "list" and len(t[1]) == 1 and len(t[1][0][0]) == 1 and not t[1][0][1]:
            return opened(t[1][0][2])
        if isinstance(t, tuple) and t and t[0] == "seq":
            return ("get", t, I)
        return None

    def same_selection(self, ident, org):
        bvs = {x for x in walk(ident) if len(x) == 2 and x[0] == "bv"}
        return len(bvs) == 1 and subst(ident, {list(bvs)[0]: I}) == org

    def edges(self, lst, d, c, extra):
        """(cell of dimension d, its sub-cell of dimension d - c) for every sub-cell of the selected cells"""
        it = self.it
        flat = []
        for bs, gs, v in lst.segs:
            if is_splice(v) and isinstance(v[1], L):
                flat += [(tuple(bs) + tuple(b), tuple(gs) + tuple(g), y) for b, g, y in v[1].segs]
            elif isinstance(v, tuple) and v[:1] == ("get",) and isinstance(v[1], tuple) and v[1][0] == "seq" and isinstance(it.seqs[v[1][1]][1], L) and bs and bs[-1][1] == ("len", v[1]):
                flat += it.seqs[v[1][1]][1].segs
            else:
                flat.append((bs, gs, v))
        segs = [x for x in flat if not any(self.impossible(g) for g in conj(x[1]))]
        if len(segs) != 1:
            if any(self.followed(x) for x in segs) or not segs:
                self.unknown("graph", "edges", "%d kinds of edges" % len(segs))
            else:
                self.unknown("graph", "edges", "edges not followed")
            return
        bs, gs, v = segs[0]
        ends = v.items if isinstance(v, Tup) and len(v.items) == 2 else None
        ends = [freeze(x) for x in ends] if ends else None
        if ends is None or any(not (isinstance(x, tuple) and x and x[0] == "tup") for x in ends):
            self.unknown("graph", "edges", "edges not followed")
            return
        (d0, i0), (d1, i1) = [x[1:] if len(x) == 3 else x[1] for x in ends]
        if not (isinstance(i1, tuple) and len(i1) == 3 and i1[0] == "get" and isinstance(i1[1], tuple) and i1[1][0] == "get" and i1[1][1][0] == "subs"):
            if isinstance(i1, tuple) and len(i1) == 3 and i1[0] == "get" and isinstance(i1[1], tuple) and i1[1][0] == "attr" and i1[1][2] == "node_tags":
                self.bad("graph", "edges", "an edge leads to a node tag instead of the identifier of a sub-cell: %s" % show(i1))
                return
            self.unknown("graph", "edges", "the identifier of the sub-cell is not followed: %s" % show(i1))
            return
        top, k = i1[1][1][1], i1[1][2]
        dim = lambda x: self.dim_of(x[1]) if isinstance(x, tuple) and x[0] == "attr" and x[2] == "dimension" else x
        if k != K(d - c):
            self.bad("graph", "edges", "edges lead to the sub-cells of dimension %s instead of %d" % (show(k), d - c))
            return
        if i0 != self.id_of(top) or dim(d0) != K(d) or dim(d1) != K(d - c):
            self.bad("graph", "edges", "an edge connects (%s, %s) with (%s, %s) instead of a cell of dimension %d with its sub-cell of dimension %d" % (
                show(dim(d0)), show(i0), show(dim(d1)), show(i1), d, d - c))
            return
        rest = [g for g in conj(gs) if not self.trivial(g)]
        sel = []
        x = top
        while isinstance(x, tuple) and x[0] == "get" and isinstance(x[1], tuple) and x[1][0] == "seq":
            l = it.seqs[x[1][1]][1]
            if not isinstance(l, L) or len(l.segs) != 1:
                self.unknown("graph", "cells", "selection not followed")
                return
            _, g2, x = l.segs[0]
            sel += [(y, x) for y in conj(g2)]
        x = self.plain_ids(x)
        full = x[:2] == ("get", CELLS) and (x[2][0] == "bv" or "ids" in extra and x[2][:2] == ("get", S("ids")))
        if rest or not full:
            self.unknown("graph", "cells", "selection not followed")
            return
        got = set()
        for g, y in sel:
            if g[0] == "eq" and K(d) in g[1:] and ("attr", y, "dimension") in g[1:]:
                got.add("dimension")
            elif g[0] == "in" and g[1:] == (("attr", y, "material_id"), S("tags")):
                got.add("tags")
            elif g[0] == "not" and g[1][0] == "eq" and NONE in g[1][1:]:
                if ("attr", y, "material_id") in g[1][1:]:
                    got.add("material")
            else:
                self.unknown("graph", "cells", "selection not followed: %s" % show(g))
                return
        if "dimension" not in got:
            self.bad("graph", "cells", "cells of other dimensions than %d are in the graph" % d)
        elif ("tags" in extra) != ("tags" in got) or self.f.name.endswith("on_materials") != ("material" in got):
            self.bad("graph", "cells", "the graph is not restricted to the requested cells" if "tags" in extra or self.f.name.endswith("on_materials") else "the graph leaves out cells of dimension %d" % d)
        else:
            self.ok("graph", "%s: (cell of dimension %d, its sub-cells of dimension %d)" % (self.name, d, d - c))

    def plain_ids(self, x):
        if x[0] == "get" and isinstance(x[1], tuple) and x[1] == ("get", CELLS, S("ids")):
            return ("get", CELLS, ("get", S("ids"), x[2]))
        return x

    def followed(self, seg):
        return isinstance(seg[2], Tup)

    def trivial(self, g):
        """identifiers of cells are not None"""
        if g[0] == "not" and isinstance(g[1], tuple):
            if g[1][0] == "eq" and NONE in g[1][1:]:
                return True
            if g[1][0] == "and":
                return any(x[0] == "eq" and NONE in x[1:] and any(isinstance(y, tuple) and (y[0] == "bv" or y[0] == "attr" and y[2] == "id" or y[0] == "get") for y in x[1:]) for x in g[1][1:])
        return False

    def impossible(self, g):
        return g[0] == "eq" and NONE in g[1:] and any(isinstance(y, tuple) and y[0] == "attr" and y[2] == "id" for y in g[1:])

    def positive(self, g):
        """truth value of the condition on the side the normal points to, None if this is not clear"""
        if g[0] == "lt" and g[1] == K(0) and isinstance(g[2], tuple) and g[2][:2] == ("call", "np.dot") and len(g[2][2]) == 2:
            for x in g[2][2]:
                if has(x, ELEM):
                    if x[0] == "list" and len(x[1]) == 1:
                        x = x[1][0][2]
                    cs = [c for m, c in _mons(x).items() if any(has(a, ELEM) or has(a, ("bv", "#0")) for a in m)]
                    if len(cs) == 1:
                        return cs[0] > 0
        return None


def signed(g, sg):
    """(0 < x, truth value) for the comparisons of x with 0"""
    zero = lambda t: is_k(t) and t[2] == 0
    if g[0] == "lt" and zero(g[1]):
        return ("lt", K(0), g[2]), sg
    if g[0] == "lt" and zero(g[2]):
        return ("lt", K(0), g[1]), not sg
    return g, sg


def opened(t):
    """the element of a frozen list or dictionary at index I; lists inside it bind their own index"""
    if isinstance(t, tuple):
        if t == ("bv", "#0"):
            return I
        if t and t[0] in ("list", "dict"):
            return t
        return tuple(opened(x) for x in t)
    return t


def walk(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from walk(x)


def cell_key(cell):
    return repr(strip(cell))


def strip(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "bv":
            return ("bv",)
        return tuple(strip(x) for x in t)
    return t


def conj(gs):
    out = []
    for g in gs:
        if isinstance(g, tuple) and g and g[0] == "and":
            out += conj(g[1:])
        elif isinstance(g, tuple) and g:
            out.append(g)
    return out


def atoms_unknown(t):
    if isinstance(t, tuple):
        if t and t[0] == "?":
            return True
        return any(atoms_unknown(x) for x in t)
    return False


def show(t, n=0):
    if not isinstance(t, tuple):
        return str(t)
    if is_k(t):
        return str(t[2])
    if t[0] == "sym":
        return t[1]
    if t == I:
        return "i"
    if t[0] == "bv":
        return "j%s" % t[1]
    if t[0] == "seq":
        return "selection%d" % t[1]
    if t[0] == "poly":
        return " + ".join(("%s*" % c if c != 1 or not m else "") + "*".join(show(a) for a in m) if m else str(c) for m, c in t[1])
    if t[0] == "get" and len(t) == 3:
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if t[0] == "attr" and len(t) == 3:
        return "%s.%s" % (show(t[1]), t[2])
    if t[0] == "len":
        return "len(%s)" % show(t[1])
    if t[0] == "subs":
        return "%s.sub_cells_ids" % show(t[1])
    if t[0] == "ref":
        return "new cell %d" % t[1]
    s = repr(t)
    return s if len(s) < 90 else s[:90] + "..."


# ---- the cuts -------------------------------------------------------------------------
def natives(program, mesh):
    f = program.lookup_method(mesh, "build_graph")
    if f is None:
        raise AnchorMissing("Mesh.build_graph")

    def build_graph(it, pos, kw, n):
        names = [a.arg for a in f.node.args.args][1:]
        v = dict(zip(names, pos[1:]))
        v.update(kw)
        if len(names) != 2 or any(x not in v for x in names):
            raise Unknown("arguments of build_graph", n)
        return it.graph(v[names[0]], v[names[1]])
    return {f.id: build_graph}


CUTS = (("cut_conformity_on_fractures_mds_ec", "fracture_normals"), ("cut_conformity_on_embed_shapes", "embed_shape_normals"))


def fails(res, rule, name, f, outs):
    """no input is processed: every path ends with an error"""
    if outs and all(o.kind == "raise" for o in outs):
        o = outs[0]
        res.bad(rule, name, "the edit fails with %s for every input" % (o.why or o.value or "an error"), loc(o.module or f.module, o.node if o.node is not None else f.node))
        return True
    return False


def check_cut(program, res, mesh, cell, name, normals):
    f = program.lookup_method(mesh, name)
    if f is None:
        raise AnchorMissing("%s.%s" % (mesh.name, name))

    def make(dec):
        it = MInterp(program, dec, mesh_cls=mesh, cell_cls=cell, opaque=OPAQUE, natives=natives(program, mesh))
        it.rounds = (S("tag1"), S("tag2"))
        return it

    def run(it):
        m = it.new_mesh(2)
        d = it.mkd()
        d.entries = [((), (), S("tag%d" % k), Tup((S("normal%d" % k), S("centre%d" % k)))) for k in (1, 2)]
        m.attrs[normals] = d
        return it.call_function(f, [], {}, None, self_=m)

    outs = explore(make, run)
    full = False
    for o in outs:
        if o.kind == "unknown":
            res.unknown("cut", name, "%s (%s)" % (o.why, loc(o.module, o.node) if o.node is not None and o.module is not None else ""))
            continue
        if o.kind == "raise":
            continue
        c = Checker(name, f, o, res)
        if not c.lists():
            continue
        c.new_cells()
        c.new_vertices()
        c.check_updates(False)
        c.returned = pairs_returned(c, o.value)
        full = full or any(getattr(s, "tag", None) is not None for s in c.cells)
    if outs and not any(o.kind == "unknown" for o in outs):
        if full:
            res.ok("vertices", "%s duplicates the vertices of the cut" % name)
        else:
            res.bad("vertices", name, "the vertices of the cut are not duplicated", loc(f.module, f.node))


def pairs_returned(c, value):
    """original -> (positive duplicate, negative duplicate)"""
    if not isinstance(value, D):
        c.unknown("pairs", "result", "result not followed")
        return
    ents = [e for e in value.entries if not has(freeze(Tup(tuple(e[2:]))), S("old cells"))]
    if len(ents) == 1 and len(value.entries) == 1 and c.it.round > 1:
        c.bad("pairs", "result", "the result does not hold the pairs of the cuts before the last one")
        return
    if len(ents) != 1 or len(ents[0][0]) != 1 or ents[0][1]:
        c.unknown("pairs", "result", "result not followed")
        return
    (b,), _, k, v = ents[0]
    m = {("bv", b[0]): I}
    k, v = subst(k, m), subst(v, m)
    if not isinstance(v, Tup) or len(v.items) != 2:
        c.unknown("pairs", "result", "pair not followed")
        return
    segs = []
    for x in v.items:
        s, idx = c.seg_at(c.cells, x)
        if s is None or not c.it.is_ref(s.value) or idx != I or s.count != b[1]:
            c.bad("pairs", "result", "the result names %s, which is not the identifier of the duplicate of the same original" % show(x))
            return
        r = c.it.records[s.value[1]]
        org = c.original(s, r)
        if org is None or k not in org:
            c.bad("pairs", "result", "the result gives the duplicate of another cell for %s" % show(k))
            return
        segs.append(s)
    if segs[0] is segs[1]:
        c.bad("pairs", "result", "the result names one duplicate twice")
        return
    plus = getattr(c, "plus", None)
    if plus and (segs[0].k not in plus or segs[1].k in plus):
        c.bad("pairs", "result", "the result does not give the duplicate on the positive side first")
        return
    c.ok("pairs", "%s returns original -> (positive, negative) duplicate" % c.name)


# ---- the cut along a line ----------------------------------------------------------------
LINE = "mesh.mesh_operations:cut_conformity_along_c1_line"
PAIRS = "mesh.mesh_operations:update_cells_with_cell_pairs"


def function(program, fid):
    for f in program.functions():
        if f.id == fid:
            return f
    raise AnchorMissing(fid)


def check_line(program, res, mesh, cell):
    f, g = function(program, LINE), function(program, PAIRS)
    names = [a.arg for a in g.node.args.args]

    def make(dec):
        nat = natives(program, mesh)
        nat[PAIRS] = update
        it = MInterp(program, dec, mesh_cls=mesh, cell_cls=cell, opaque=OPAQUE, natives=nat)
        it.updates = []
        return it

    def update(it, pos, kw, n):
        v = dict(zip(names, pos))
        v.update(kw)
        if len(names) != 3 or any(x not in v for x in names):
            raise Unknown("arguments of the update", n)
        cells, pairs = v[names[0]], v[names[1]]
        cs = it.elements(cells, n)
        if not (isinstance(pairs, L) and pairs.plain()):
            raise Unknown("pairs of cells", n)
        ps = [None if x == NONE else it.elements(x, n) for _, _, x in pairs.segs]
        it.updates.append((cs, ps, n, it.fr.f.module))
        return NONE

    def run(it):
        m = it.new_mesh(2)
        args = [a.arg for a in f.node.args.args]
        return it.call_function(f, [], {args[0]: S("line"), args[1]: S("tags"), args[2]: m}, None)

    outs = explore(make, run)
    done = False
    for o in outs:
        if o.kind == "unknown":
            res.unknown("cut", f.name, "%s (%s)" % (o.why, loc(o.module, o.node) if o.node is not None and o.module is not None else ""))
            continue
        if o.kind == "raise" or not o.it.updates and isinstance(o.it.mesh.attrs["cells"], L) and len(o.it.mesh.attrs["cells"].segs) == 1:
            continue
        c = Checker(f.name, f, o, res)
        c.by_vertex = True
        if not c.lists():
            continue
        c.new_cells()
        c.new_vertices()
        c.sides(c.updates() and [] or paired(c))
        interface(c, o.value)
        done = done or any(getattr(s, "tag", None) is not None for s in c.cells)
    if outs and not any(o.kind == "unknown" for o in outs):
        if done:
            res.ok("vertices", "%s duplicates the vertices of the cut" % f.name)
        else:
            res.bad("vertices", f.name, "the vertices of the cut are not duplicated", loc(f.module, f.node))


def paired(c):
    """what the updates with pairs of cells do: see check_pairs for the update itself"""
    it, per = c.it, []
    for cs, ps, node, mod in it.updates:
        for bs, gs, cell in cs:
            if not it.is_cell(cell) or gs or len(bs) != 1:
                c.unknown("reference", "updated cells", "the updated cells are not followed")
                continue
            guards = []
            if it.is_ref(cell):
                dim = c.dim_of(cell)
            else:
                ds = {g[2] if g else None for g in ((x and x[0]) for x in c.sources(c.plain_cell(cell), guards))}
                dim = ds.pop() if len(ds) == 1 else None
            if dim is None or not is_k(dim):
                c.unknown("reference", "updated cells", "dimension of the updated cells not followed")
                continue
            if len(ps) < dim[2] + 1:
                c.bad("reference", "pairs", "no pairs for co-dimension %d of updated cells of dimension %d" % (len(ps), dim[2]), node, mod)
                continue
            for co in range(1, dim[2] + 1):
                what = "pairs of co-dimension %d of cells of dimension %d" % (co, dim[2])
                if not ps[co]:
                    c.bad("reference", what, "there are no pairs left to update references with (the iterator was used before)", node, mod)
                    continue
                for pb, pg, pair in ps[co]:
                    if not isinstance(pair, Tup) and not (isinstance(pair, tuple) and pair and pair[0] == "tup"):
                        c.unknown("reference", what, "pair not followed")
                        continue
                    old, new = pair.items if isinstance(pair, Tup) else (pair[1:] if len(pair) == 3 else pair[1])
                    if pg or len(pb) != 1 or not it.is_cell(old):
                        c.unknown("reference", what, "pair not followed")
                        continue
                    m = {("bv", pb[0][0]): I}
                    old, new = subst(old, m), subst(new, m)
                    if not it.is_ref(new) or new[1] not in c.stored:
                        c.bad("reference", what, "references are replaced by a cell that the edit did not add", node, mod)
                        continue
                    s, r = c.stored[new[1]], it.records[new[1]]
                    if new[2] not in ((I,), ()) or s.count != pb[0][1]:
                        c.bad("reference", what, "the pairs do not name all duplicates, one for each original", node, mod)
                        continue
                    org = subst(r.origin, {("bv", b): I for b, _ in r.binders}) if r.origin is not None else None
                    if org is None:
                        c.unknown("reference", what, "original of the new cell not followed")
                        continue
                    if old != org:
                        c.bad("reference", what, "references to %s are replaced by the duplicate of %s" % (show(old), show(org)), node, mod)
                        continue
                    d = c.dimension(r)
                    if is_k(d) and d[2] != dim[2] - co:
                        c.bad("reference", what, "the pairs of co-dimension %d of cells of dimension %d are cells of dimension %d" % (co, dim[2], d[2]), node, mod)
                        continue
                    c.ok("reference", "%s: %s of %s -> duplicates" % (c.name, what, show(cell)))
                    e = {"node": node, "module": mod}
                    per.append((cell, "sub", d, s, e))
                    if d == K(0):
                        per.append((cell, "node", d, s, e))
    return per


def position(t):
    """(list, entry) of the first position of an entry in a list, None where there is none"""
    if isinstance(t, tuple) and len(t) == 4 and t[0] == "ite" and t[3] == NONE and isinstance(t[1], tuple) and t[1][0] == "lt":
        w = t[2][1] if isinstance(t[2], tuple) and t[2][0] == "get" and t[2][2] == K(0) else None
        if w is not None and t[1][1:] in ((K(0), ("attr", w, "size")), (K(0), ("len", w)), (K(0), ("shape", w, 0))):
            if w[0] == "get" and w[2] == K(0) and w[1][:2] == ("call", "np.where") and len(w[1][2]) == 1:
                c = w[1][2][0]
                if c[0] == "eq":
                    return c[1:]
    return None


def check_pairs(program, res, mesh, cell):
    """the update with pairs of cells: in every cell, references to the old cell become references to the new cell"""
    f = function(program, PAIRS)
    names = [a.arg for a in f.node.args.args]
    byids = program.lookup_method(mesh, "build_graph_from_cell_ids")
    if byids is None:
        raise AnchorMissing("Mesh.build_graph_from_cell_ids")
    idnames = [a.arg for a in byids.node.args.args][1:]

    def constant(it, pos, kw, n):
        v = pos[0]
        if len(pos) == 1 and not kw and isinstance(v, L) and len(v.segs) == 1 and is_k(v.segs[0][2]):
            return v.segs[0][2]
        return None

    for dim in (1, 2, 3):
        state = {}

        def idgraph(it, pos, kw, n):
            v = dict(zip(idnames, pos[1:]))
            v.update(kw)
            return ("idgraph",) + tuple(freeze(v[x]) for x in idnames)

        def digraph(it, pos, kw, n):
            it.digraphs.append([])
            return ("digraph", len(it.digraphs) - 1)

        def add_edges(it, pos, kw, n):
            if isinstance(pos[0], tuple) and pos[0][0] == "digraph" and not it.binders and not it.guards:
                it.digraphs[pos[0][1]].append(freeze(pos[1]))
                return NONE
            raise Unknown("edges of a graph", n)

        def make(dec):
            nat = natives(program, mesh)
            nat.update({"np.max": constant, "np.min": constant, "builtins.max": constant, "builtins.min": constant, byids.id: idgraph, "nx.DiGraph": digraph,
                        "networkx.DiGraph": digraph, ".add_edges_from": add_edges})
            it = MInterp(program, dec, mesh_cls=mesh, cell_cls=cell, opaque=OPAQUE, natives=nat)
            it.digraphs = []
            return it

        def run(it):
            m = it.new_mesh(dim)
            it.dims = {S("ids"): K(dim)}
            b = it.fresh(("len", S("ids")))
            cells = it.mk([((b,), (), ("get", CELLS, ("get", S("ids"), ("bv", b[0]))))], True)
            ps = [NONE]
            for co in range(1, dim + 1):
                b = it.fresh(("len", S("pairs%d" % co)))
                o, w = S("old%d" % co), S("new%d" % co)
                it.dims[o] = it.dims[w] = K(dim - co)
                ps.append(it.mk([((b,), (), Tup((("get", CELLS, ("get", o, ("bv", b[0]))), ("get", CELLS, ("get", w, ("bv", b[0]))))))], True))
            return it.call_function(f, [], {names[0]: cells, names[1]: it.mk([((), (), x) for x in ps], True), names[2]: m}, None)

        name = "%s, cells of dimension %d" % (f.name, dim)
        outs = explore(make, run)
        fails(res, "update", name, f, outs)
        for o in outs:
            if o.kind == "unknown":
                res.unknown("update", name, "%s (%s)" % (o.why, loc(o.module, o.node) if o.node is not None and o.module is not None else ""))
                continue
            if o.kind == "value":
                Pairs(name, f, o, res).run(dim)


class Pairs(Checker):
    def run(self, dim):
        it = self.it
        found = set()
        follow = True
        for cell, kind, e in self.events():
            node, mod = e["node"], e["module"]
            if kind[0] not in ("sub", "node"):
                follow = False
                continue
            v, idx = e["value"], freeze(e["idx"])
            cos = {co for co in range(1, dim + 1) for x in (S("new%d" % co), S("old%d" % co)) if has(v, x)}
            if len(cos) != 1:
                follow = False
                continue
            co = cos.pop()
            old, new = S("old%d" % co), S("new%d" % co)
            bvs = [("bv", b) for b, c in e["binders"] if c == ("len", S("pairs%d" % co))]
            what = "%s of co-dimension %d" % ("node tags" if kind[0] == "node" else "references", co)
            if len(bvs) != 1:
                follow = False
                continue
            i = bvs[0]
            oc, nc = ("get", CELLS, ("get", old, i)), ("get", CELLS, ("get", new, i))
            if kind[0] == "sub":
                target, entry, want = [("get", ("subs", cell), K(dim - co))], [oc[2]], [nc[2]]
            else:
                tags = lambda c: get_term(("attr", c, "node_tags"), K(0))
                target, want = [("attr", cell, "node_tags")], [tags(nc)]
                entry = [tags(oc), ("attr", oc, "node_tags")]
                entry.append(freeze(it.mk([((), (), tags(oc))], True)))
            if e["target"] not in target:
                if kind[0] == "sub" and is_k(kind[1]):
                    self.bad("update", what, "the identifier of a cell of dimension %d is written to the list of dimension %s" % (dim - co, kind[1][2]), node, mod)
                else:
                    follow = False
                continue
            if v not in want:
                self.bad("update", what, "the entry becomes %s instead of %s" % (show(v), show(want[0])), node, mod)
                continue
            p = position(idx)
            if p is None and is_k(idx) and dim > 1:
                self.bad("update", what, "entry %s is replaced whatever it refers to" % show(idx), node, mod)
                continue
            if p is None:
                follow = False
                continue
            if not any(x in target and y in entry for x, y in (p, p[::-1])):
                self.bad("update", what, "the entry that is replaced is not the one that refers to the old cell: %s in %s" % (show(p[1]), show(p[0])), node, mod)
                continue
            rest = [g for g in conj(e["guards"]) if not self.present(g)]
            if rest:
                follow = False
                continue
            src = self.where_from(cell, oc, dim, co)
            if src is None:
                follow = False
                continue
            if src is not True:
                self.bad("update", what, src, node, mod)
                continue
            found.add((kind[0], co))
            self.ok("update", "%s: %s become those of the new cell of the pair" % (self.name, what))
        if not follow:
            self.unknown("update", self.name, "writes not followed")
            return
        for co in range(1, dim + 1):
            if ("sub", co) not in found and not self.bad_:
                self.bad("update", "references of co-dimension %d" % co, "references of co-dimension %d are not updated" % co)
        if ("node", dim) not in found and not self.bad_:
            self.bad("update", "node tags", "node tags of the cells are not updated with their vertices")

    def present(self, g):
        if g[0] == "not" and g[1][0] == "eq" and NONE in g[1][1:]:
            return any(position(x) is not None for x in g[1][1:])
        return False

    def where_from(self, cell, oc, dim, co):
        x = cell[2] if cell[1] == CELLS else None
        if isinstance(x, tuple) and x[:2] == ("get", S("ids")):
            return True
        if isinstance(x, tuple) and len(x) == 3 and x[0] == "get" and x[2] == K(1) and x[1][0] == "get" and x[1][1][:2] == ("m", "predecessors"):
            m = x[1][1]
            arg = m[3][0]
            arg = arg[1:] if len(arg) == 3 else arg[1]
            if arg != (K(dim - co), oc[2]):
                return "the cells are looked up with %s, which is not the old cell of the pair" % show(arg)
            g = m[2]
            if g[0] == "digraph":
                gs = self.it.digraphs[g[1]]
            else:
                return None
            for x in gs:
                if isinstance(x, tuple) and x[:2] == ("m", "edges") and x[2][0] == "idgraph" and x[2][2:] == (K(dim), K(co)):
                    if members_of(x[2][1]) == ("get", S("ids"), I):
                        return True
                    return None
            if all(isinstance(x, tuple) and x[:2] == ("m", "edges") and x[2][0] == "idgraph" for x in gs):
                return "the graph in which the cells are looked up does not hold co-dimension %d" % co
        return None


def members_of(t):
    if t == S("ids"):
        return ("get", S("ids"), I)
    if isinstance(t, tuple) and t and t[0] == "list" and len(t[1]) == 1 and len(t[1][0][0]) == 1 and not t[1][0][1]:
        return opened(t[1][0][2])
    return None


# ---- graphs --------------------------------------------------------------------------------
GRAPHS = {"build_graph": (), "build_graph_on_physical_tags": ("tags",), "build_graph_from_cell_ids": ("ids",), "build_graph_on_materials": ()}


def check_graphs(program, res, mesh, cell):
    """the edges of a graph are the pairs (cell of dimension d, its sub-cell of dimension d - c)"""
    for name, extra in GRAPHS.items():
        f = program.lookup_method(mesh, name)
        if f is None:
            continue
        names = [a.arg for a in f.node.args.args][1:]
        for d in (1, 2, 3):
            for c in range(1, d + 1):
                graph(program, res, mesh, cell, f, names, extra, d, c)


def graph(program, res, mesh, cell, f, names, extra, d, c):
    what = "%s(%d, %d)" % (f.name, d, c)

    def edges(it, pos, kw, n):
        it.edges.append(pos[0])
        return ("graph", len(it.edges) - 1)

    def make(dec):
        it = MInterp(program, dec, mesh_cls=mesh, cell_cls=cell, natives={"nx.from_edgelist": edges, "networkx.from_edgelist": edges},
                     opaque={x for x in OPAQUE if x not in GRAPHS})
        it.edges = []
        it.idlists.add(S("ids"))
        it.facts[("call", "isinstance", (S("ids"), ("ext", "np.ndarray")), ())] = True
        return it

    def run(it):
        m = it.new_mesh(d)
        kw = dict(zip(names, [S(x) for x in extra] + [K(d), K(c)]))
        return it.call_function(f, [], kw, None, self_=m)

    outs = explore(make, run)
    fails(res, "graph", what, f, outs)
    for o in outs:
        if o.kind == "unknown":
            res.unknown("graph", what, "%s (%s)" % (o.why, loc(o.module, o.node) if o.node is not None and o.module is not None else ""))
            continue
        if o.kind == "raise":
            continue
        g = Checker(what, f, o, res)
        v = o.value
        if not (isinstance(v, tuple) and v[0] == "graph" and isinstance(o.it.edges[v[1]], L)):
            g.unknown("graph", "edges", "edges not followed")
            continue
        g.edges(o.it.edges[v[1]], d, c, extra)


def interface(c, value):
    if not isinstance(value, D):
        c.unknown("pairs", "result", "result not followed")
        return
    got = {}
    for bs, gs, k, v in value.entries:
        if not bs and not gs and is_k(k) and isinstance(v, (L, Tup)):
            got[k[2]] = [x for _, _, x in v.segs] if isinstance(v, L) and v.plain() else list(v.items) if isinstance(v, Tup) else None
    for key, dim in (("c1", K(1)), ("c2", K(0))):
        ls = got.get(key)
        if ls is None or len(ls) != 3:
            c.unknown("pairs", key, "result not followed")
            continue
        segs, ok = [], True
        for x in ls[1:]:
            els = c.it.elements(x, None)
            if len(els) != 1 or len(els[0][0]) != 1 or els[0][1] or not c.it.is_ref(els[0][2]):
                c.unknown("pairs", key, "list of duplicates not followed")
                ok = False
                break
            s = c.stored.get(els[0][2][1])
            if s is None or c.dimension(c.it.records[els[0][2][1]]) != dim:
                c.bad("pairs", key, "the result names cells that are not the duplicates of dimension %d" % dim[2])
                ok = False
                break
            segs.append(s)
        if not ok:
            continue
        els = c.it.elements(ls[0], None)
        v = els[0][2] if len(els) == 1 and len(els[0][0]) == 1 else None
        orgs = set()
        for s in segs:
            r = c.it.records[s.value[1]]
            orgs.add(subst(r.origin, {("bv", b): I for b, _ in r.binders}))
        if v is None:
            c.unknown("pairs", key, "list of originals not followed")
            continue
        v = subst(v, {("bv", els[0][0][0][0]): I})
        if orgs != {v}:
            c.bad("pairs", key, "the originals in the result are not those of the duplicates")
        elif segs[0] is segs[1]:
            c.bad("pairs", key, "the result names the duplicates of one side twice")
        elif getattr(c, "plus", None) and (segs[0].k not in c.plus or segs[1].k in c.plus):
            c.bad("pairs", key, "the result does not give the duplicates on the positive side first")
        else:
            c.ok("pairs", "%s: %s = originals, positive and negative duplicates" % (c.name, key))


def run(program, res, tier):
    mesh, cell = program.find_class("Mesh"), program.find_class("MeshCell")
    if mesh is None or cell is None:
        raise AnchorMissing("Mesh, MeshCell")
    for name, normals in CUTS:
        check_cut(program, res, mesh, cell, name, normals)
    check_line(program, res, mesh, cell)
    check_pairs(program, res, mesh, cell)
    check_graphs(program, res, mesh, cell)
