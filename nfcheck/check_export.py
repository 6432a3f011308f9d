"""P18: the arrays of an exported file describe the same entities in the same order.

The export functions are interpreted in the value-term domain on small meshes that contain every kind of cell an export can
meet (each dimension, with and without a physical tag, with tags in and out of the fields' tags, in an order in which cell
identifiers and node numbers differ). What reaches the file writer is compared row by row."""
import itertools

from .core import AnchorMissing, loc
from .vn import Interp, K, L, D, O, Tup, NONE, TRUE, FALSE, explore, freeze, is_k, Unknown, Raised
from .check_scatter import with_frame, show

S = lambda x: ("sym", x)
TYPES = {0: "vertex", 1: "line", 2: "triangle", 3: "tetra"}
DIM = {v: k for k, v in TYPES.items()}
FN = S("functions")


class Model:
    """a mesh: cells with (dimension, tag, nodes), and the fields that live on it"""
    def __init__(self, dim, cells, n_points, fields, what):
        self.dim, self.cells, self.n_points, self.fields, self.what = dim, cells, n_points, fields, what
        self.vertex = {}      # node -> id of the vertex cell
        for i, (d, t, nodes) in enumerate(cells):
            if d == 0:
                self.vertex[nodes[0]] = i

    def field_cells(self, name):
        f = self.fields[name]
        return [i for i, (d, t, _) in enumerate(self.cells) if d == f["dim"] and t in f["tags"]]

    def near(self, name, vertex):
        node = self.cells[vertex][2][0]
        return [i for i in self.field_cells(name) if node in self.cells[i][2]]

    def vertices(self, name):
        nodes = {v for i in self.field_cells(name) for v in self.cells[i][2]}
        return [self.vertex[n] for n in sorted(nodes, reverse=True) if n in self.vertex]


def simplices(dim, tags):
    """a strip of simplices; vertices are cells too, in an order that differs from that of the nodes"""
    n = dim + len(tags)
    top = [(dim, t, tuple(range(i + dim, i - 1, -1))) for i, t in enumerate(tags)]
    verts = [(0, (None, 7)[k % 3 == 0], (k,)) for k in range(n)]
    low = [(d, t, tuple(range(i, i + d + 1))) for d in range(1, dim) for i, t in enumerate((5, None, 6))]
    cells = [top[0]] + list(reversed(verts))[:2] + low[:1] + top[1:2] + list(reversed(verts))[2:] + low[1:] + top[2:]
    return cells, n


class ExportCheck:
    def __init__(self, program, res):
        self.p, self.res = program, res

    def cls(self, name):
        c = self.p.find_class(name)
        if c is None:
            raise AnchorMissing(name)
        return c

    def func(self, name, module=None):
        for f in self.p.functions():
            if f.cls is None and f.name == name and (module is None or f.module.name.endswith(module)):
                return f
        raise AnchorMissing(name)

    def at(self, f):
        return loc(f.module, f.node)

    # ---- the abstract world --------------------------------------------------------
    def world(self, it, m):
        """mesh and product space objects of a model"""
        mesh = O(self.cls("Mesh"))
        mesh.attrs["dimension"] = K(m.dim)
        mesh.attrs["points"] = it.concrete([Tup([S("%s%d" % (c, i)) for c in "xyz"]) for i in range(m.n_points)], True)
        cells = []
        cc = self.cls("MeshCell")
        for i, (d, t, nodes) in enumerate(m.cells):
            o = O(cc)
            o.attrs.update({"dimension": K(d), "id": K(i), "material_id": K(t), "type": K(TYPES[d]), "physical_name": S("name%d" % i),
                            "node_tags": it.concrete([K(n) for n in nodes], True)})
            o.attrs["perm"] = it.concrete([K(j) for j in sorted(range(len(nodes)), key=lambda j: nodes[j])], True)
            o.attrs["sub_cells_ids"] = S("sub%d" % i)
            cells.append(o)
        mesh.attrs["cells"] = it.concrete(cells, True)
        it.cells = cells
        return mesh

    def product(self, it, m, mesh, names):
        ps = O(self.cls("ProductSpace"))
        sp = it.mkd()
        tags = it.mkd()
        for name in names:
            f = m.fields[name]
            s = O(self.cls("DiscreteSpace"))
            top = O(self.cls("MeshTopology"))
            top.attrs.update({"mesh": mesh, "dimension": K(f["dim"])})
            ids = it.mkd()
            ids.entries.append(((), (), K(0), it.concrete([K(v) for v in m.vertices(name)])))
            top.attrs["entity_ids"] = ids
            top.attrs["entity_maps"] = it.concrete([S("graph%d:%s" % (d, name)) for d in range(f["dim"] + 1)])
            s.attrs.update({"dimension": K(f["dim"]), "n_comp": K(f["n"]), "generator_family": ("ext", "basix.ElementFamily." + f["family"]),
                            "mesh_topology": top, "name": K(name), "element_type": ("ext", "basix.CellType"), "k_order": K(1)})
            sp.entries.append(((), (), K(name), s))
            tags.entries.append(((), (), K(name), it.concrete([K(t) for t in f["tags"]])))
            ids = [i for i in m.field_cells(name)]
            els = []
            for j, i in enumerate(reversed(ids)):
                els.append(S("el:%s:%d" % (name, i)))
            s.attrs["elements"] = it.concrete(els)
            s.attrs["element_ids"] = it.concrete([K(i) for i in reversed(ids)])
            mp = it.mkd()
            for j, i in enumerate(reversed(ids)):
                mp.entries.append(((), (), K(i), K(j)))
                data = S("data:%s:%d" % (name, i))
                it.store[(els[j], "data")] = data
                it.store[(data, "cell")] = it.cells[i]
            s.attrs["id_to_element"] = mp
        ps.attrs.update({"discrete_spaces": sp, "fields_physical_tags": tags, "names": it.concrete([K(n) for n in names])})
        return ps

    def natives(self, m):
        def has_node(it, pos, kw, n):
            g, v = freeze(pos[0]), pos[1]
            name = self.graph(g)
            if name is None or not isinstance(v, Tup) or len(v.items) != 2 or not all(is_k(freeze(x)) for x in v.items):
                return None
            d, i = [freeze(x)[2] for x in v.items]
            return K(d == 0 and i in m.vertices(name))

        def near(it, pos, kw, n):
            g, v = freeze(pos[0]), pos[1]
            name = self.graph(g)
            if name is None or not isinstance(v, Tup) or len(v.items) != 2 or not all(is_k(freeze(x)) for x in v.items):
                return None
            d, i = [freeze(x)[2] for x in v.items]
            if d != 0 or i not in m.vertices(name):
                raise Raised("NetworkXError", n, it.fr.f.module)
            return it.concrete([Tup([K(m.fields[name]["dim"]), K(j)]) for j in m.near(name, i)])

        def rows(it, pos, kw, n):
            shape = pos[0] if pos else kw.get("shape")
            dims = [freeze(x) for x in it_items(shape)]
            if not dims or not all(is_k(x) and isinstance(x[2], int) for x in dims) or dims[0][2] > 64:
                return None
            u = next(it.bid)
            it.shapes = getattr(it, "shapes", {})
            v = it.concrete([("row", K(u), K(i)) for i in range(dims[0][2])], True)
            it.shapes[id(v)] = (v, [x[2] for x in dims])
            return v

        def stack(it, pos, kw, n):
            if pos and isinstance(pos[0], (L, Tup)):
                return it.concrete([it_value for it_value in it_items(pos[0])], True)
            return None

        def writer(it, pos, kw, n):
            a = dict(zip(("points", "cells", "point_data", "cell_data"), pos))
            a.update(kw)
            it.files.append(a)
            return S("file%d" % (len(it.files) - 1))

        def written(it, pos, kw, n):
            it.written.append((pos[0], pos[1]))
            return NONE

        def direct(it, pos, kw, n):
            a = dict(zip(("file", "points", "cells", "point_data", "cell_data"), pos))
            a.update(kw)
            it.files.append(a)
            it.written.append((a.get("file"), S("file%d" % (len(it.files) - 1))))
            return NONE

        def write(it, pos, kw, n):
            if isinstance(pos[0], tuple) and pos[0][0] == "sym" and pos[0][1].startswith("file"):
                it.written.append((pos[1], pos[0]))
                return NONE
            return None

        return {".has_node": has_node, ".predecessors": near, "np.zeros": rows, "np.full": rows, "np.empty": rows, "np.ones": rows,
                "np.vstack": stack, "np.stack": stack, "meshio.Mesh": writer, "meshio.write": written,
                "meshio.write_points_cells": direct, ".write": write}

    def graph(self, g):
        if isinstance(g, tuple) and g[0] == "sym" and g[1].startswith("graph0:"):
            return g[1][7:]
        return None

    # ---- comparison ------------------------------------------------------------------
    def rows_of(self, v):
        """items of an array, None when they are not known one by one"""
        if isinstance(v, L) and v.plain() and not v.over:
            return [x for _, _, x in v.segs]
        if isinstance(v, Tup):
            return list(v.items)
        return None

    def pairs(self, v):
        if isinstance(v, D) and all(not b and not g for b, g, _, _ in v.entries):
            return [(freeze(k), x) for _, _, k, x in v.entries]
        if isinstance(v, (L, Tup)):
            out = []
            for x in self.rows_of(v) or []:
                i = self.rows_of(x)
                if i is None or len(i) != 2:
                    return None
                out.append((freeze(i[0]), i[1]))
            return out
        return None

    def blocks(self, it, m, a, f, rule, what):
        """cells in a file: list of their ids; None when unknown"""
        blocks = self.pairs(a.get("cells")) if a.get("cells") is not None else None
        pts = self.rows_of(a.get("points"))
        want = [tuple(freeze(S("%s%d" % (c, i))) for c in "xyz") for i in range(m.n_points)]
        if pts is None:
            self.res.unknown(rule, f.name, "points of the file (%s)" % what)
        else:
            got = [tuple(freeze(c) for c in it_items(x)) if isinstance(x, (Tup, L)) else None for x in pts]
            if got == want:
                self.res.ok(rule, "%s (%s): the points are those of the mesh" % (f.name, what))
            elif None not in got:
                self.res.bad(rule, f.name + " points", "%s: the points of the file are not the points of the mesh in their order" % what, self.at(f))
            else:
                self.res.unknown(rule, f.name, "points of the file (%s)" % what)
        if blocks is None or len(blocks) != 1:
            self.res.unknown(rule, f.name, "cell blocks (%s)" % what)
            return None
        name, con = blocks[0]
        rows = self.rows_of(con)
        if rows is None or not (is_k(name) and name[2] in DIM):
            self.res.unknown(rule, f.name, "cells of the file (%s)" % what)
            return None
        index = {}
        for i, (d, t, nodes) in enumerate(m.cells):
            index[nodes] = i
        ids = []
        for r in rows:
            nodes = tuple(freeze(x) for x in it_items(r)) if isinstance(r, (L, Tup)) else None
            if nodes is None or not all(is_k(x) for x in nodes):
                self.res.unknown(rule, f.name, "nodes of a cell (%s)" % what)
                return None
            nodes = tuple(x[2] for x in nodes)
            if nodes not in index:
                self.res.bad(rule, f.name + " cells", "%s: a cell of the file has the nodes %s, which are those of no cell" % (what, nodes), self.at(f))
                return None
            ids.append(index[nodes])
        d = DIM[name[2]]
        wrong = [i for i in ids if m.cells[i][0] != d]
        if wrong:
            self.res.bad(rule, f.name + " cells", "%s: cells of dimension %d are exported as %s cells" % (what, m.cells[wrong[0]][0], name[2]), self.at(f))
            return None
        self.res.ok(rule, "%s (%s): %d cells exported with their own nodes as %s" % (f.name, what, len(ids), name[2]))
        return ids, d

    def aligned(self, it, m, ids, key, v, f, what, marks):
        """cell data: row k is about cell ids[k]"""
        rule = "cell data"
        con = "%s %s" % (f.name, key)
        blocks = self.rows_of(v)
        if blocks is None or len(blocks) != 1:
            self.res.unknown(rule, con, "%s: blocks of cell data" % what)
            return
        rows = self.rows_of(blocks[0])
        if rows is None:
            self.res.unknown(rule, con, "%s: rows of cell data %s" % (what, show(freeze(blocks[0]))[:80]))
            return
        if len(rows) != len(ids):
            self.res.bad(rule, con, "%s: %d rows for %d cells" % (what, len(rows), len(ids)), self.at(f))
            return
        for k, (r, i) in enumerate(zip(rows, ids)):
            self.row(m, r, i, marks, rule, con, "%s: row %d, cell %d" % (what, k, i), f, lambda x: x)
        self.columns(it, m, blocks[0], key, rule, con, what, f)

    def row(self, m, r, want, marks, rule, con, what, f, name):
        t = freeze(r)
        found, rest = [], []
        collect(t, found, rest)
        if isinstance(t, tuple) and t[0] == "row" and not found:
            if marks.get("empty", lambda i: False)(want):
                self.res.ok(rule, "%s has no value" % what)
            else:
                self.res.bad(rule, con, "%s is never written" % what, self.at(f))
            return
        wrong = [x for x in found if marks["entity"](x) not in (None, want)]
        if wrong:
            self.res.bad(rule, con, "%s holds a value of %s" % (what, show_mark(wrong[0])), self.at(f))
            return
        kinds = {marks["kind"](x) for x in found} - {None}
        if kinds - marks["kinds"]:
            self.res.bad(rule, con, "%s holds %s instead of %s" % (what, ", ".join(map(str, sorted(kinds - marks["kinds"], key=repr))),
                                                                 ", ".join(map(str, sorted(marks["kinds"], key=repr)))), self.at(f))
        elif kinds == marks["kinds"] and not rest:
            self.res.ok(rule, "%s holds a value of its own" % what)
        elif is_k(t) or not rest and found:
            self.res.bad(rule, con, "%s: %s is missing in %s" % (what, ", ".join(map(str, sorted(marks["kinds"] - kinds, key=repr))), show(t)[:80]), self.at(f))
        else:
            self.res.unknown(rule, con, "%s: %s" % (what, show(t)[:100]))

    def columns(self, it, m, v, key, rule, con, what, f):
        known = getattr(it, "shapes", {}).get(id(v))
        if known is None or len(known[1]) < 2:
            return
        name = key.rsplit("_", 1)[0]
        if name not in m.fields:
            return
        x = m.fields[name]
        n = 1 if key.endswith("_error") else x["n"] * (m.dim if x["family"] != "P" and x["dim"] > 1 else 1)
        if known[1][1] == n:
            self.res.ok(rule, "%s: %d columns" % (what, n))
        else:
            self.res.bad(rule, con, "%s: %d columns for %d values" % (what, known[1][1], n), self.at(f))

    # ---- solution exports --------------------------------------------------------------
    def solutions(self):
        specs = [("write_vtk_file", ("h",), False), ("write_vtk_file_with_exact_solution", ("h", "e"), False),
                 ("write_fe_spaces_on_vtk_file_with_exact_solution", ("h", "e"), True), ("write_vtk_file_pointwise_l2_error", ("error",), False)]
        for name, kinds, many in specs:
            try:
                f = self.func(name)
            except AnchorMissing as e:
                self.res.unknown("anchor", str(e), "not found")
                continue
            for m, names, centered in self.solution_models(many):
                self.solution(f, m, names, centered, kinds, many)
        try:
            self.exact(self.func("write_vtk_file_exact_solution"))
        except AnchorMissing as e:
            self.res.unknown("anchor", str(e), "not found")

    def solution_models(self, many):
        for dim in (1, 2, 3):
            fields = {"a": {"dim": dim, "n": 2, "family": "P", "tags": [1, 3]}, "b": {"dim": dim, "n": 1, "family": "RT", "tags": [3, 1]}}
            for centered in ((), ("a",), ("b",), ("a", "b")):
                cells, n = simplices(dim, (3, 1, 3))
                yield Model(dim, cells, n, fields, "fields on the whole mesh of dimension %d, cell centred: %s" % (dim, ", ".join(centered) or "none")), ("a", "b"), centered
            for x in ("a", "b"):
                cells, n = simplices(dim, (3, 1))
                yield Model(dim, cells, n, {x: fields[x]}, "the field %s on a mesh of dimension %d, cell centred" % (x, dim)), (x,), (x,)
            # part of the cells
            part = {"a": {"dim": dim, "n": 2, "family": "P", "tags": [1, 3]}, "b": {"dim": dim, "n": 1, "family": "BDM", "tags": [1] if many else [3, 1]}}
            for centered in ((), ("a", "b")):
                cells, n = simplices(dim, (2, 1, 3))
                yield Model(dim, cells, n, part, "fields on parts of a mesh of dimension %d%s" % (dim, ", cell centred" if centered else "")), ("b", "a") if not centered else ("a", "b"), centered
        for dim in (2, 3):
            low = {"a": {"dim": dim - 1, "n": 1, "family": "P", "tags": [5]}, "b": {"dim": dim - 1, "n": 1, "family": "P", "tags": [5]}}
            cells, n = simplices(dim, (1, 1))
            cells = [(d, 8 if d < dim - 1 and t is not None else t, v) for d, t, v in cells]
            yield Model(dim, cells, n, low, "fields of dimension %d in a mesh of dimension %d" % (dim - 1, dim)), ("a", "b"), ()

    def solution(self, f, m, names, centered, kinds, many):
        nat = self.natives(m)
        node_q, cell_q, centroid = self.func("node_average_quatity"), self.func("cell_centered_quatity"), self.func("cell_centroid")

        def args(info, pos, kw):
            a = dict(zip(info.params, pos))
            a.update(kw)
            return [a.get(x) for x in info.params]

        def cell_of(it, x, n):
            for i, o in enumerate(it.cells):
                if o is x:
                    return i
            raise Unknown("a cell", n)

        def field(x, n):
            if not (is_k(freeze(x)) and freeze(x)[2] in m.fields):
                raise Unknown("name of a field", n)
            return freeze(x)[2]

        def node_value(it, pos, kw, n):
            node, near, space, name, alpha = args(node_q, pos, kw)
            name = field(name, n)
            rows = self.rows_of(near)
            if rows is None or not is_k(freeze(node)):
                raise Unknown("neighbours of a node", n)
            ids = []
            for x in rows:
                y = it_items(x)
                if len(y) != 2 or not is_k(freeze(y[1])):
                    raise Unknown("neighbours of a node", n)
                ids.append(freeze(y[1])[2])
            node = freeze(node)[2]
            v = m.vertex.get(node)
            want = m.near(name, v) if v is not None else []
            good = [i for i in ids if 0 <= i < len(m.cells) and m.cells[i][1] in m.fields[name]["tags"]]
            it.averages.append((node, name, sorted(good) == sorted(want) and all(node in m.cells[i][2] for i in good), n, it.fr.f))
            return ("node", K(node), K(name), freeze(alpha))

        def cell_value(it, pos, kw, n):
            cell, space, name, alpha = args(cell_q, pos, kw)
            name = field(name, n)
            i = cell_of(it, cell, n)
            if i not in m.field_cells(name):
                raise Raised("KeyError", n, it.fr.f.module)
            return ("cellvalue", K(i), K(name), freeze(alpha))

        def center(it, pos, kw, n):
            i = cell_of(it, args(centroid, pos, kw)[0], n)
            return Tup([S("c%s%d" % (c, i)) for c in "xyz"])

        nat.update({node_q.id: node_value, cell_q.id: cell_value, centroid.id: center})

        def run(it):
            it.files, it.written, it.averages = [], [], []
            mesh = self.world(it, m)
            if many:
                space = it.concrete([self.product(it, m, mesh, [x]) for x in names])
            else:
                space = self.product(it, m, mesh, names)
            pos = {"file_name": S("file_name"), "gmesh": mesh, "fe_space": space, "fe_spaces": space, "functions": FN, "alpha": S("alpha"),
                   "cell_centered": it.concrete([K(x) for x in centered])}
            a = [pos[x] if x in pos else S(x) for x in f.params]
            it.mesh = mesh
            it.call_function(f, a, {}, None)

        outs = explore(lambda dec: Interp(self.p, dec, natives=nat), lambda it: with_frame(it, f, run), limit=8)
        partial = "parts" in m.what
        for oc in outs:
            if oc.kind == "raise":
                if partial and centered and not many and f.name != "write_vtk_file_with_exact_solution":
                    self.res.ok("cells", "%s (%s): no file for a field that does not live on every cell" % (f.name, m.what))
                else:
                    self.res.bad("cells", f.name, "%s: raises %s" % (m.what, oc.value), loc(oc.module, oc.node) if oc.module is not None else self.at(f))
                continue
            if oc.kind != "value":
                self.res.unknown("cells", f.name, "%s: %s" % (m.what, oc.why))
                continue
            it = oc.it
            for node, name, good, n, g in it.averages:
                if good:
                    self.res.ok("point data", "%s (%s): the average at node %d of %s is over the cells around it" % (f.name, m.what, node, name))
                else:
                    self.res.bad("point data", f.name + " neighbours", "%s: the value of %s at node %d is averaged over other cells than those around it"
                                 % (m.what, name, node), loc(g.module, n))
            if len(it.files) != 1:
                self.res.unknown("cells", f.name, "%d files" % len(it.files))
                continue
            self.target(it, f, S("file_name"), m.what)
            a = it.files[0]
            b = self.blocks(it, m, a, f, "cells", m.what)
            if b is None:
                continue
            ids, d = b
            fd = max(m.fields[x]["dim"] for x in names)
            if d in (fd, m.dim):
                self.res.ok("cells", "%s (%s): cells of the fields or of the mesh" % (f.name, m.what))
            else:
                self.res.bad("cells", f.name + " cells", "%s: cells of dimension %d are exported" % (m.what, d), self.at(f))
            if d == fd:
                need = {i for x in names for i in m.field_cells(x)}
                if need <= set(ids) and len(ids) == len(set(ids)):
                    self.res.ok("cells", "%s (%s): every cell of the fields is exported once" % (f.name, m.what))
                else:
                    self.res.bad("cells", f.name + " cells", "%s: cells %s carry a field and are not exported once" % (m.what, sorted(need - set(ids))), self.at(f))
            self.data(it, m, f, a, ids, names, centered, kinds)

    def target(self, it, f, name, what):
        for i in range(len(it.files)):
            hits = [n for n, x in it.written if freeze(x) == S("file%d" % i)]
            if len(hits) == 1 and freeze(hits[0]) == name:
                self.res.ok("file", "%s (%s): written to the given file" % (f.name, what))
            elif not hits:
                self.res.bad("file", f.name, "%s: the mesh is never written" % what, self.at(f))
            else:
                self.res.unknown("file", f.name, "name of the file")

    def data(self, it, m, f, a, ids, names, centered, kinds):
        pd = dict(self.pairs(a["point_data"]) or []) if a.get("point_data") is not None else {}
        cd = dict(self.pairs(a["cell_data"]) or []) if a.get("cell_data") is not None else {}
        want = {K("%s_%s" % (x, k)): (x, k) for x in names for k in kinds}
        for key, (x, k) in want.items():
            con = "%s %s_%s" % (f.name, "field", k)
            mine, other = (cd, pd) if x in centered else (pd, cd)
            if key not in mine:
                if all(is_k(y) for y in list(pd) + list(cd)):
                    self.res.bad("names", con, "%s: the values %s of the field are missing" % (m.what, key[2]), self.at(f))
                else:
                    self.res.unknown("names", con, m.what)
                continue
            self.res.ok("names", "%s (%s): %s" % (f.name, m.what, key[2]))
            if x in centered:
                home = m.field_cells(x)
                marks = {"entity": self.cell_entity, "kind": self.kind, "kinds": self.kinds(x, k), "empty": lambda i: i not in home}
                self.aligned(it, m, ids, key[2], mine[key], f, m.what, marks)
            else:
                rows = self.rows_of(mine[key])
                if rows is None:
                    self.res.unknown("point data", con, "%s: rows %s" % (m.what, show(freeze(mine[key]))[:80]))
                    continue
                if len(rows) != m.n_points:
                    self.res.bad("point data", con, "%s: %d rows for %d points" % (m.what, len(rows), m.n_points), self.at(f))
                    continue
                nodes = {m.cells[v][2][0] for v in m.vertices(x)}
                marks = {"entity": self.node_entity, "kind": self.kind, "kinds": self.kinds(x, k), "empty": lambda i: i not in nodes}
                for i, r in enumerate(rows):
                    self.row(m, r, i, marks, "point data", con, "%s: row %d of %s" % (m.what, i, key[2]), f, None)
                self.columns(it, m, mine[key], key[2], "point data", con, m.what, f)
        extra = [y for y in list(pd) + list(cd) if y not in want]
        for y in extra:
            self.res.unknown("names", f.name, "%s: data %s" % (m.what, show(y)))

    def kinds(self, x, k):
        out = set()
        if k in ("h", "error"):
            out.add("the discrete " + x)
        if k in ("e", "error"):
            out.add("the exact " + x)
        return out

    def kind(self, t):
        if t[0] in ("node", "cellvalue"):
            return "the discrete " + t[2][2]
        if t[0] == "call" and isinstance(t[1], tuple) and t[1][:2] == ("get", FN) and is_k(t[1][2]):
            return "the exact " + str(t[1][2][2])
        return None

    def node_entity(self, t):
        if t[0] == "node":
            return t[1][2]
        if t[0] == "cellvalue":
            return -1
        if t[0] == "call" and len(t[2]) == 3 and all(x[0] == "sym" for x in t[2]):
            ids = [x[1] for x in t[2]]
            if [x[:1] for x in ids] == ["x", "y", "z"] and len({x[1:] for x in ids}) == 1:
                return int(ids[0][1:])
            return -1
        return None

    def cell_entity(self, t):
        if t[0] == "cellvalue":
            return t[1][2]
        if t[0] == "node":
            return -1
        if t[0] == "call" and len(t[2]) == 3 and all(x[0] == "sym" for x in t[2]):
            ids = [x[1] for x in t[2]]
            if [x[:2] for x in ids] == ["cx", "cy", "cz"] and len({x[2:] for x in ids}) == 1:
                return int(ids[0][2:])
            return -1
        return None

    def exact(self, f):
        for dim in (1, 2, 3):
            cells, n = simplices(dim, (1, 2))
            m = Model(dim, cells, n, {}, "exact values on a mesh of dimension %d" % dim)

            def run(it):
                it.files, it.written = [], []
                mesh = self.world(it, m)
                d = it.mkd()
                d.entries += [((), (), K("a"), K(2)), ((), (), K("b"), K(3))]
                pos = {"file_name": S("file_name"), "gmesh": mesh, "name_to_fields": d, "functions": FN}
                it.call_function(f, [pos[x] if x in pos else S(x) for x in f.params], {}, None)

            outs = explore(lambda dec: Interp(self.p, dec, natives=self.natives(m)), lambda it: with_frame(it, f, run), limit=8)
            for oc in outs:
                if oc.kind != "value" or len(oc.it.files) != 1:
                    if oc.kind == "raise":
                        self.res.bad("cells", f.name, "%s: raises %s" % (m.what, oc.value), self.at(f))
                    else:
                        self.res.unknown("cells", f.name, "%s: %s" % (m.what, oc.why))
                    continue
                it = oc.it
                self.target(it, f, S("file_name"), m.what)
                b = self.blocks(it, m, it.files[0], f, "cells", m.what)
                if b is None:
                    continue
                if b[1] != dim or sorted(b[0]) != [i for i, c in enumerate(cells) if c[0] == dim]:
                    self.res.bad("cells", f.name + " cells", "%s: not the cells of the mesh" % m.what, self.at(f))
                pd = dict(self.pairs(it.files[0].get("point_data")) or [])
                for x, nd in (("a", 2), ("b", 3)):
                    rows = self.rows_of(pd.get(K(x + "_e")))
                    if rows is None:
                        self.res.unknown("point data", f.name, "%s: values of %s" % (m.what, x))
                        continue
                    if len(rows) != n:
                        self.res.bad("point data", f.name, "%s: %d rows for %d points" % (m.what, len(rows), n), self.at(f))
                        continue
                    marks = {"entity": self.node_entity, "kind": self.kind, "kinds": {"the exact " + x}}
                    for i, r in enumerate(rows):
                        self.row(m, r, i, marks, "point data", f.name + " field_e", "%s: row %d of %s_e" % (m.what, i, x), f, None)
                    known = getattr(it, "shapes", {}).get(id(pd[K(x + "_e")]))
                    if known is not None and len(known[1]) > 1:
                        if known[1][1] == nd:
                            self.res.ok("point data", "%s: %d columns" % (m.what, nd))
                        else:
                            self.res.bad("point data", f.name, "%s: %d columns for %d values" % (m.what, known[1][1], nd), self.at(f))

    # ---- export of the mesh -----------------------------------------------------------
    def mesh_file(self):
        f = self.p.lookup_method(self.cls("Mesh"), "write_vtk")
        if f is None:
            raise AnchorMissing("Mesh.write_vtk")
        color = self.func("coloring_mesh_by_co_dimension")
        for dim in (1, 2, 3):
            for paint in (False, True):
                for named in (False, True):
                    cells, n = simplices(dim, (2, None, 1))
                    m = Model(dim, cells, n, {}, "mesh of dimension %d%s" % (dim, ", coloured" if paint else ""))
                    nat = self.natives(m)

                    def colors(it, pos, kw, n_):
                        a = dict(zip(color.params, pos))
                        a.update(kw)
                        d, c = freeze(a.get("dim")), freeze(a.get("sub_entity_co_dim"))
                        if not (is_k(d) and is_k(c)):
                            return None
                        mp = it.mkd()
                        for i, (x, t, nodes) in enumerate(m.cells):
                            if x == d[2]:
                                mp.entries.append(((), (), K(i), ("color", K(i), c)))
                        return Tup([mp, S("entities")])

                    nat[color.id] = colors

                    def run(it):
                        it.files, it.written = [], []
                        it.mesh = mesh = self.world(it, m)
                        it.call_function(f, [], {"file_name": K("out") if named else NONE, "coloring_mesh_q": K(paint)}, None, self_=mesh)

                    outs = explore(lambda dec: Interp(self.p, dec, natives=nat), lambda it: with_frame(it, f, run), limit=8)
                    for oc in outs:
                        if oc.kind == "raise":
                            self.res.bad("cells", f.name, "%s: raises %s" % (m.what, oc.value), loc(oc.module, oc.node))
                        elif oc.kind != "value":
                            self.res.unknown("cells", f.name, "%s: %s" % (m.what, oc.why))
                        else:
                            self.mesh_files(oc.it, m, f, paint, named)

    def mesh_files(self, it, m, f, paint, named):
        seen = set()
        for k, a in enumerate(it.files):
            b = self.blocks(it, m, a, f, "cells", m.what)
            if b is None:
                continue
            ids, d = b
            seen.add(d)
            want = [i for i, (x, t, _) in enumerate(m.cells) if x == d and t is not None]
            if sorted(ids) == want:
                self.res.ok("cells", "%s (%s): every cell of dimension %d with a physical tag is exported once" % (f.name, m.what, d))
            else:
                self.res.bad("cells", "write_vtk cells", "%s: the cells %s of dimension %d are exported, those with a physical tag are %s" % (m.what, ids, d, want), self.at(f))
            names = [n for n, x in it.written if freeze(x) == S("file%d" % k)]
            if len(names) == 1 and is_k(freeze(names[0])):
                text = freeze(names[0])[2]
                if text == "%s_%dd.vtk" % ("out" if named else "geometric_mesh", d):
                    self.res.ok("file", "%s (%s): cells of dimension %d in %s" % (f.name, m.what, d, text))
                else:
                    self.res.bad("file", "write_vtk file", "%s: cells of dimension %d are written to %s" % (m.what, d, text), self.at(f))
            elif not names:
                self.res.bad("file", "write_vtk file", "%s: the file of dimension %d is not written" % (m.what, d), self.at(f))
            elif all(is_k(freeze(x)) for x in names):
                self.res.bad("file", "write_vtk file", "%s: cells of dimension %d are written to %s" % (m.what, d, " and ".join(freeze(x)[2] for x in names)), self.at(f))
            else:
                self.res.unknown("file", f.name, "%s: name of the file" % m.what)
            cd = self.pairs(a.get("cell_data"))
            if cd is None:
                self.res.unknown("cell data", f.name, m.what)
                continue
            need = {"physical_tag": lambda i: K(m.cells[i][1]), "entity_tag": lambda i: K(i)}
            if paint:
                need.update({"c%d_colors" % c: (lambda i, c=c: ("color", K(i), K(c))) for c in range(1, d + 1)})
            cd = dict(cd)
            for key, val in need.items():
                con = "write_vtk %s" % key
                if K(key) not in cd:
                    self.res.bad("names", con, "%s: %s of the cells of dimension %d is missing" % (m.what, key, d), self.at(f))
                    continue
                bl = self.rows_of(cd[K(key)])
                rows = self.rows_of(bl[0]) if bl is not None and len(bl) == 1 else None
                if rows is None:
                    self.res.unknown("cell data", con, "%s: %s" % (m.what, show(freeze(cd[K(key)]))[:80]))
                    continue
                rows = [freeze(r) for r in rows]
                if len(rows) != len(ids):
                    self.res.bad("cell data", con, "%s: %s has %d rows for %d cells of dimension %d" % (m.what, key, len(rows), len(ids), d), self.at(f))
                    continue
                wrong = [(r, i) for r, i in zip(rows, ids) if r != val(i)]
                if not wrong:
                    self.res.ok("cell data", "%s (%s): row k of %s is about cell k of dimension %d" % (f.name, m.what, key, d))
                elif all(is_k(r) or r[0] == "color" for r, _ in wrong):
                    self.res.bad("cell data", con, "%s: %s of cell %d of dimension %d is %s" % (m.what, key, wrong[0][1], d, show(wrong[0][0])), self.at(f))
                else:
                    self.res.unknown("cell data", con, "%s: %s" % (m.what, show(wrong[0][0])[:80]))
        missing = {d for d, t, _ in m.cells if t is not None} - seen
        if missing and len(it.files) < len({d for d, t, _ in m.cells if t is not None}):
            self.res.bad("cells", "write_vtk cells", "%s: the cells of dimension %s are not exported" % (m.what, sorted(missing)), self.at(f))

    def conformal(self):
        """export of the mesh as read: cells and tags of one block type together"""
        f = self.p.lookup_method(self.cls("Mesh"), "conformal_mesh_write_vtk")
        if f is None:
            return
        m = Model(2, [], 0, {}, "mesh as read")
        C = S("conformal_mesh")

        def run(it):
            it.files, it.written = [], []
            mesh = O(self.cls("Mesh"))
            mesh.attrs.update({"dimension": K(2), "conformal_mesh": C})
            it.call_function(f, [], {}, None, self_=mesh)

        outs = explore(lambda dec: Interp(self.p, dec, natives=self.natives(m)), lambda it: with_frame(it, f, run), limit=4)
        for oc in outs:
            if oc.kind != "value":
                self.res.unknown("cells", f.name, oc.why or oc.value)
                continue
            for k, a in enumerate(oc.it.files):
                if freeze(a.get("points")) == ("attr", C, "points"):
                    self.res.ok("cells", "conformal mesh: its own points")
                else:
                    self.res.unknown("cells", f.name, "points")
                bl = self.pairs(a.get("cells"))
                cd = self.pairs(a.get("cell_data"))
                if bl is None or len(bl) != 1 or cd is None:
                    self.res.unknown("cells", f.name, "blocks")
                    continue
                name, con = bl[0]
                con = freeze(con)
                if con[0] == "m" and con[1] == "get_cells_type" and con[2] == C:
                    kind = con[3][0]
                    if kind == name:
                        self.res.ok("cells", "conformal mesh: cells of type %s" % show(name))
                    elif is_k(kind):
                        self.res.bad("cells", "conformal_mesh_write_vtk cells", "cells of type %s are exported as %s" % (kind[2], show(name)), self.at(f))
                    for key, v in cd:
                        rows = self.rows_of(v)
                        t = freeze(rows[0]) if rows and len(rows) == 1 else None
                        if t is not None and t[0] == "m" and t[1] == "get_cell_data" and t[2] == C and len(t[3]) == 2:
                            if t[3][1] == kind:
                                self.res.ok("cell data", "conformal mesh: tags of the cells of type %s" % show(kind))
                            else:
                                self.res.bad("cell data", "conformal_mesh_write_vtk %s" % show(key), "tags of %s cells for %s cells" % (show(t[3][1]), show(kind)), self.at(f))
                        else:
                            self.res.unknown("cell data", f.name, "tags")
                else:
                    self.res.unknown("cells", f.name, "cells")

    # ---- values of a field at a node and in a cell ----------------------------------------
    def quantities(self):
        shapes, mapping = self.func("evaluate_linear_shapes"), self.func("evaluate_mapping")
        dest = self.p.lookup_method(self.cls("ProductSpace"), "discrete_spaces_destination_indexes")
        if dest is None:
            raise AnchorMissing("discrete_spaces_destination_indexes")
        for fname in ("node_average_quatity", "cell_centered_quatity"):
            try:
                f = self.func(fname)
            except AnchorMissing as e:
                self.res.unknown("anchor", str(e), "not found")
                continue
            for dim in (1, 2, 3):
                for fam in ("P", "RT"):
                    for n_comp in (1, 2):
                        if n_comp > dim and fam == "P":
                            continue
                        self.quantity(f, fname.startswith("node"), dim, fam, n_comp, shapes, mapping, dest)

    def quantity(self, f, node_q, dim, fam, n_comp, shapes, mapping, dest):
        cells, n = simplices(dim, (1, 2, 1, 1))
        fields = {"b": {"dim": dim, "n": 1, "family": "P", "tags": [1]}, "a": {"dim": dim, "n": n_comp, "family": fam, "tags": [1]}}
        m = Model(dim, cells, n, fields, "%s field with %d components, dimension %d" % ("vector" if fam != "P" else "scalar", n_comp, dim))
        nat = self.natives(m)
        index = {j: i for i, j in enumerate(reversed(m.field_cells("a")))}

        def named(info, pos, kw):
            a = dict(zip(info.params, pos))
            a.update(kw)
            return tuple(freeze(a.get(x)) for x in info.params)

        def dests(it, pos, kw, n_):
            d = it.mkd()
            i = freeze(pos[1] if len(pos) > 1 else list(kw.values())[0])
            for x in fields:
                d.entries.append(((), (), K(x), ("dest", i, K(x))))
            return d

        nat[shapes.id] = lambda it, pos, kw, n_: ("shapes",) + named(shapes, pos, kw)
        nat[mapping.id] = lambda it, pos, kw, n_: Tup([(x,) + named(mapping, pos, kw) for x in ("x", "jac", "det", "inv")])
        nat[dest.id] = dests
        nat["basix.geometry"] = lambda it, pos, kw, n_: S("geometry")
        points = {i: freeze(Tup([S("%s%d" % (c, i)) for c in "xyz"])) for i in range(n)}
        if node_q:
            cases = [(v, m.near("a", v), True) for v in m.vertices("a")]
        else:
            cases = [(i, [i], False) for i in m.field_cells("a")]
        for entity, want, _ in cases:
            node = m.cells[entity][2][0]

            def run(it):
                mesh = self.world(it, m)
                space = self.product(it, m, mesh, ["b", "a"])
                # all neighbours in the mesh, with and without the tags of the field
                near = [i for i, (d, t, v) in enumerate(m.cells) if d == dim and node in v]
                pos = {"node_idx": K(node), "cell_idxs": it.concrete([Tup([K(dim), K(i)]) for i in near]), "fe_space": space, "name": K("a"),
                       "alpha": S("alpha"), "cell": it.cells[entity]}
                return it.call_function(f, [pos.get(x, S(x)) for x in f.params], {}, None)

            outs = explore(lambda dec: Interp(self.p, dec, natives=nat), lambda it: with_frame(it, f, run), limit=8)
            for oc in outs:
                if oc.kind == "raise":
                    self.res.bad("value", f.name, "%s: raises %s" % (m.what, oc.value), loc(oc.module, oc.node))
                elif oc.kind != "value":
                    self.res.unknown("value", f.name, "%s: %s" % (m.what, oc.why))
                else:
                    t = freeze(oc.value)
                    self.value(f, m, t, want, node, index, points, node_q)

    def value(self, f, m, t, want, node, index, points, node_q):
        what = "%s: %s" % (m.what, "node %d" % node if node_q else "cell %d" % want[0])
        basis, dests = [], []
        walk(t, lambda x: basis.append(x) if x[:2] == ("m", "evaluate_basis") else dests.append(x) if x[0] == "dest" else None)
        basis, dests = list(dict.fromkeys(basis)), list(dict.fromkeys(dests))
        els = {}
        for x in basis:
            e = x[2]
            if not (e[0] == "sym" and e[1].startswith("el:")):
                self.res.unknown("value", f.name, "%s: element %s" % (what, show(e)[:60]))
                return
            els[e[1]] = x
        names = {"el:a:%d" % i for i in want}
        if set(els) == names:
            self.res.ok("value", "%s: uses the elements of the field around it" % what)
        else:
            self.res.bad("value", f.name + " elements", "%s: uses the elements %s instead of %s" % (what, sorted(els), sorted(names)), self.at(f))
            return
        ids = {(K(index[i]), K("a")) for i in want}
        if {(x[1], x[2]) for x in dests} == ids:
            self.res.ok("value", "%s: uses the unknowns of these elements and the field" % what)
        elif all(is_k(x[1]) and is_k(x[2]) for x in dests):
            self.res.bad("value", f.name + " unknowns", "%s: uses the unknowns %s instead of %s" %
                         (what, sorted((x[1][2], x[2][2]) for x in dests), sorted((a[2], b[2]) for a, b in ids)), self.at(f))
            return
        else:
            self.res.unknown("value", f.name, "%s: unknowns" % what)
            return
        # one value per element, each with its own unknowns
        items = None
        if node_q:
            if t[:2] == ("call", "np.mean") and len(t[2]) == 1 and t[3] == (("axis", K(0)),) and t[2][0][0] in ("list", "array") and \
                    all(s[:2] == ((), ()) for s in t[2][0][1]):
                items = [s[2] for s in t[2][0][1]]
            elif t[:2] == ("call", "np.mean") and t[2] and t[2][0][0] in ("list", "array"):
                self.res.bad("value", f.name + " mean", "%s: the mean is not over the elements" % what, self.at(f))
                return
        else:
            items = [t]
        if items is None:
            self.res.unknown("value", f.name, "%s: mean of %s" % (what, show(t)[:80]))
            return
        seen = []
        for x in items:
            e, d = [], []
            walk(x, lambda y: e.append(y[2][1]) if y[:2] == ("m", "evaluate_basis") else d.append(y[1][2]) if y[0] == "dest" else None)
            if len(set(e)) == 1 and len(set(d)) == 1:
                i = int(e[0].split(":")[2])
                seen.append(i)
                if d[0] == index[i]:
                    self.res.ok("value", "%s: element %d with its own unknowns" % (what, i))
                else:
                    self.res.bad("value", f.name + " unknowns", "%s: element %d with the unknowns of element number %d" % (what, i, d[0]), self.at(f))
            else:
                self.res.unknown("value", f.name, "%s: a value of several elements" % what)
                return
        if sorted(seen) == sorted(want):
            self.res.ok("value", "%s: each element once" % what)
        else:
            self.res.bad("value", f.name + " elements", "%s: the elements %s are averaged instead of %s" % (what, sorted(seen), sorted(want)), self.at(f))
        for e, x in els.items():
            i = int(e.split(":")[2])
            self.placed(f, m, x, i, node, points, node_q, what)

    def placed(self, f, m, x, i, node, points, node_q, what):
        """shape functions at the right point, with the geometry of the element at that point"""
        args = list(x[3])
        if len(args) != 4 or x[4]:
            self.res.unknown("value", f.name, "%s: arguments of evaluate_basis" % what)
            return
        pt, geo = args[0], args[1:]
        nodes = m.cells[i][2]
        G = S("geometry")
        if node_q:
            k = nodes.index(node)
            good = pt[0] == "get" and pt[1] == G and index_of(pt[2]) == [k]
            known = pt[0] == "get" and pt[1] == G and index_of(pt[2]) is not None
        else:
            good = pt in self.means(G)
            known = pt[0] == "get" and pt[1] == G or pt == G
        if good:
            self.res.ok("value", "%s: at the %s of element %d" % (what, "node" if node_q else "centre", i))
        elif known:
            self.res.bad("value", f.name + " point", "%s: element %d is evaluated at %s" % (what, i, show(pt)[:80]), self.at(f))
        else:
            self.res.unknown("value", f.name, "%s: point %s" % (what, show(pt)[:80]))
        for kind, g in zip(("jac", "det", "inv"), geo):
            if not (isinstance(g, tuple) and g[0] in ("x", "jac", "det", "inv") and len(g) == 4):
                self.res.unknown("value", f.name, "%s: %s" % (what, show(g)[:60]))
                continue
            d, sh, pts = g[1:]
            con = f.name + " mapping"
            if g[0] != kind:
                self.res.bad("value", con, "%s: %s is given for %s" % (what, g[0], kind), self.at(f))
            elif d != K(m.dim):
                self.emit(con, what, "dimension %s" % show(d), is_k(d), f)
            elif sh[0] == "shapes" and (sh[1] != pt or sh[2] != S("data:a:%d" % i)):
                self.emit(con, what, "shapes at %s of %s for element %d" % (show(sh[1])[:60], show(sh[2])[:60], i),
                          sh[2][0] == "sym" and atoms_known(sh[1]), f)
            elif not (pts[0] in ("list", "array") and [s[2] for s in pts[1]] == [points[v] for v in nodes]):
                self.emit(con, what, "points %s for element %d" % (show(pts)[:80], i), pts[0] in ("list", "array") and all(s[2] in points.values() for s in pts[1]), f)
            else:
                self.res.ok("value", "%s: %s of element %d at that point" % (what, kind, i))

    def means(self, G):
        c = lambda *pos, **kw: ("call", "np.mean", pos, tuple(kw.items()))
        one = [c(G, axis=K(0)), c(G, K(0)), ("m", "mean", G, (), (("axis", K(0)),)), ("m", "mean", G, (K(0),), ())]
        out = list(one)
        for x in one:
            out += [("list", (((), (), x),)), ("list", (((), (), ("splice", x)),)), ("array", (((), (), x),))]
        return out

    def emit(self, con, what, text, known, f):
        if known:
            self.res.bad("value", con, "%s: %s" % (what, text), self.at(f))
        else:
            self.res.unknown("value", con, "%s: %s" % (what, text))


def it_items(v):
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, L) and v.plain() and not v.over:
        return [x for _, _, x in v.segs]
    if isinstance(v, tuple) and v and v[0] == "tup":
        return list(v[1:])
    return [v] if is_k(freeze(v)) else []


WRAP = {"ravel"}


def collect(t, found, rest):
    """values of entities in a term; what cannot be told goes to rest"""
    if not isinstance(t, tuple) or is_k(t) or not t:
        return
    if t[0] in ("node", "cellvalue"):
        found.append(t)
        return
    if t[0] == "call" and isinstance(t[1], tuple) and t[1][:1] == ("get",) and t[1][1] == FN:
        found.append(t)
        return
    if t[0] in ("?", "ite", "phi", "last", "opaque", "bv", "sym"):
        rest.append(t)
        return
    if t[0] == "row":
        return
    for x in t:
        if isinstance(x, tuple):
            collect(x, found, rest)


def walk(t, f):
    if isinstance(t, tuple) and t and not is_k(t):
        if isinstance(t[0], str):
            f(t)
        for x in t:
            if isinstance(x, tuple):
                walk(x, f)


def index_of(t):
    if is_k(t):
        return [t[2]]
    if t[0] in ("list", "array") and len(t) > 1 and all(s[:2] == ((), ()) and is_k(s[2]) for s in t[1]):
        return [s[2][2] for s in t[1]]
    if t[0] == "slice" and is_k(t[1]) and is_k(t[2]) and t[3] == NONE and isinstance(t[1][2], int) and isinstance(t[2][2], int):
        return list(range(t[1][2], t[2][2]))
    return None


def atoms_known(t):
    bad = []
    walk(t, lambda x: bad.append(x) if x[0] in ("?", "ite", "phi", "last") else None)
    return not bad


def show_mark(t):
    if t[0] == "node":
        return "node %d" % t[1][2]
    if t[0] == "cellvalue":
        return "cell %d" % t[1][2]
    return "another place: %s" % show(t)[:60]


def run(program, res, tier):
    c = ExportCheck(program, res)
    for part in (c.solutions, c.quantities, c.mesh_file, c.conformal):
        try:
            part()
        except AnchorMissing as e:
            res.unknown("anchor", str(e), "not found")
