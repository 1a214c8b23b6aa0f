"""Histories of mesh edits: materials and data stay with their cells."""
import copy

import numpy as np
import toughio

from ..engine import Driver, Violation
from .. import long as Z
from .. import mesh_common as M

ASSUMPTIONS = ["material ids are integers"]


class Model:
    """One record per cell and per point, keyed by geometry."""

    def __init__(self, mesh):
        self.mats = None


def pts(m):
    return [tuple(q) for q in np.asarray(m.points).tolist()]


def keys(m):
    p = pts(m)
    return [(c.type, sorted(p[i] for i in x)) for c in m.cells for x in np.asarray(c.data).tolist()]


def start(ch):
    kind = ch.free("start", ["grid", "library", "gmsh-like", "unused names"])
    if kind == "grid":
        m = toughio.meshmaker.structured_grid([1.0, 2.0], [1.0], [1.0, 1.0])
        mats = ["dfalt"] * 4
    elif kind == "library":
        p, c = M.LIB["tower"]()
        m = M.build(M.ints(p), M.group([(t, tuple(v)) for t, v in c], True), cell_data={"material": np.array([2, 1, 1, 5])}, field_data={"a": np.array([1, 3]), "bb": np.array([2, 3]), "c": np.array([5, 3])})
        mats = ["bb", "a", "a", "c"]
    elif kind == "gmsh-like":
        p, c = M.LIB["2 wedges"]()
        m = M.build(M.ints(p), M.group([(t, tuple(v)) for t, v in c], True), cell_data={"material": np.array([1, 2])}, field_data={"vol1": np.array([1, 3]), "top": np.array([1, 2]), "vol2": np.array([2, 3]), "side": np.array([3, 2])})
        mats = ["vol1", "vol2"]
    else:
        p, c = M.LIB["2 wedges"]()
        m = M.build(M.ints(p), M.group([(t, tuple(v)) for t, v in c], True), cell_data={"material": np.array([1, 1])}, field_data={"used": np.array([1, 3]), "unused": np.array([2, 3]), "far": np.array([9, 3])})
        mats = ["used", "used"]
    return kind, m, mats


def selections(n):
    return [("first", [0]), ("last two", np.array([n - 2, n - 1])), ("all tuple", tuple(range(n))), ("mask", np.arange(n) % 2 == 0), ("bool list", [i == 0 for i in range(n)]),
            ("bool tuple", tuple(i == n - 1 for i in range(n))), ("empty", []), ("empty array", np.array([], dtype=int)), ("no cell", np.zeros(n, dtype=bool)), ("int32", np.array([0], dtype=np.int32)), ("repeated", [0, 0])]


def chosen(sel, n):
    s = list(sel)
    if s and isinstance(s[0], (bool, np.bool_)):
        return [i for i, b in enumerate(s) if b]
    return [int(i) for i in s]


BAD = [("negative", [-1], ValueError), ("too large", lambda n: [n], ValueError), ("short mask", lambda n: [True] * (n - 1), ValueError), ("floats", [0.0], TypeError), ("strings", ["a"], TypeError), ("mixed", [0, 1.5], TypeError)]


def history(ch):
    kind, m, mats = start(ch)
    n = len(mats)
    names = ["dfalt", "bb", "new1", "new2", "unused", "vol2", "top", "side"]
    cdata, pdata = {}, {}
    depth = 3 if ch.tier == "quick" else 4
    for k in range(depth):
        op = ch.choose("step {}".format(k), ["stop", "set", "cell data", "point data", "copy", "bad set", "bad data", "write", "set twice", "prune", "meshio", "pyvista", "pickle file", "other mesh"])
        if op == "stop":
            break
        if op in ("set", "set twice"):
            
            name = ch.choose("material {}".format(k), names[2:] + names[:2])
            what, sel = ch.choose("cells {}".format(k), selections(n))
            arr = copy.deepcopy(sel)
            known = {x: np.asarray(v).tolist() for x, v in m.field_data.items() if x != name}
            ch.call("set_material", m.set_material, name, sel)
            if op == "set twice":
                ch.call("set_material", m.set_material, name, sel)
            ch.check(M.snap(sel) == M.snap(arr), "set_material modified its argument")
            left = {x: np.asarray(v).tolist() for x, v in m.field_data.items() if x != name}
            ch.check(left == known, "set_material({!r}) changed other names from {} to {}", name, known, left)
            for i in chosen(sel, n):
                mats[i] = name
        elif op == "cell data":
            nm = ch.choose("name {}".format(k), ["v", "w", "porosity"])
            v = ch.choose("data {}".format(k), [[float(i * 10 + k) for i in range(n)], np.arange(3.0 * n).reshape(n, 3) + k, tuple(range(n))])
            ch.call("add_cell_data", m.add_cell_data, nm, v)
            cdata[nm] = np.asarray(v).tolist()
        elif op == "point data":
            v = [float(i * 10 + k) for i in range(m.n_points)]
            ch.call("add_point_data", m.add_point_data, "t", v)
            pdata["t"] = v
        elif op == "copy":
            old, before = m, M.snap(m)
            m = copy.deepcopy(m)
            m.set_material("other", [0])
            ch.check(M.snap(old) == before, "editing a copy modified the original")
            m = old
        elif op == "bad set":
            what, sel, err = ch.choose("cells {}".format(k), BAD)
            before = M.snap(m)
            ch.raises("set_material " + what, (err,), m.set_material, "x", sel(n) if callable(sel) else sel)
            ch.check(M.snap(m) == before, "a refused set_material modified the mesh")
        elif op == "bad data":
            before = M.snap(m)
            f, a, err = ch.choose("data {}".format(k), [("add_cell_data", ("v", [1.0] * (n + 1)), ValueError), ("add_cell_data", (1, [1.0] * n), TypeError), ("add_cell_data", ("v", 1.0), TypeError),
                                                        ("add_point_data", ("v", [1.0]), ValueError), ("add_point_data", (None, [1.0] * m.n_points), TypeError), ("add_point_data", ("v", "a" * m.n_points), TypeError)])
            ch.raises(f, (err,), getattr(m, f), *a)
            ch.check(M.snap(m) == before, "a refused {} modified the mesh", f)
        elif op == "write":
            before = M.snap(m)
            fmt = ch.choose("format {}".format(k), ["tough", "avsucd", "tecplot", "flac3d", "pickle"])
            ch.call("write", m.write, ch.path("out"), file_format=fmt)
            ch.check(M.snap(m) == before, "writing {} modified the mesh", fmt)
        elif op in ("prune", "meshio", "pyvista", "pickle file"):
            old, oldp, before = keys(m), pts(m), M.snap(m)
            src = m
            if op == "prune":
                m = ch.call("prune_duplicates", m.prune_duplicates, inplace=False)
            elif op == "meshio":
                m = ch.call("from_meshio", toughio.from_meshio, ch.call("to_meshio", m.to_meshio))
            elif op == "pyvista":
                m = ch.call("from_pyvista", toughio.from_pyvista, ch.call("to_pyvista", m.to_pyvista))
            else:
                f = ch.path("mesh")
                ch.call("write", m.write, f, file_format="pickle")
                m = ch.call("read_mesh", toughio.read_mesh, f, file_format="pickle")
            ch.check(M.snap(src) == before, "{} modified the mesh", op)
            new, newp = keys(m), pts(m)
            ch.check(sorted(map(repr, new)) == sorted(map(repr, old)) and sorted(newp) == sorted(oldp), "{}: cells or points changed", op)
            o = [old.index(x) for x in new]
            mats = [mats[i] for i in o]
            cdata = {a: [v[i] for i in o] for a, v in cdata.items()}
            pdata = {a: [v[oldp.index(x)] for x in newp] for a, v in pdata.items()}
            if op == "pyvista":  # PyVista stores no names
                m.field_data = copy.deepcopy(src.field_data)
        elif op == "other mesh":
            before = M.snap(m)
            x = toughio.Mesh(np.array(m.points), [(c.type, np.array(c.data)) for c in m.cells])
            ch.check(not (x.cell_data or x.point_data or x.field_data or x.point_sets or x.cell_sets) and x.label_length is None, "a new mesh has data of another one")
            x.add_cell_data("material", [1] * n)
            x.add_point_data("q", [0.0] * x.n_points)
            x.set_material("other", [0])
            x.label_length = 7
            ch.check(M.snap(m) == before, "editing another mesh modified this one")
        got = [str(x) for x in ch.call("materials", lambda: m.materials)]
        ch.check(got == mats, "materials are {} instead of {}", got, mats)
        ids = {}
        for a, b in zip(m.cell_data["material"], mats):
            ids.setdefault(b, set()).add(int(a))
        ch.check(all(len(v) == 1 for v in ids.values()) and len({next(iter(v)) for v in ids.values()}) == len(ids), "ids of materials {}", ids)
        for nm, v in cdata.items():
            ch.check(np.asarray(m.cell_data[nm]).tolist() == v, "cell data {} changed to {}", nm, m.cell_data[nm])
        for nm, v in pdata.items():
            ch.check(np.asarray(m.point_data[nm]).tolist() == v, "point data {} changed", nm)
        ch.check(set(m.cell_data) == {"material"} | set(cdata), "cell data are {}", list(m.cell_data))
        ch.state((kind, got, sorted(cdata), M.snap(m.field_data)))


def materials(ch):
    """The materials property for every arrangement of ids and names."""
    n = 3
    p, c = M.LIB["4 wedges"]()
    cells = M.group([(t, tuple(v)) for t, v in c][:n], True)
    have = ch.free("names", [(), (1,), (1, 2), (1, 2, 3), (2, 7)])
    d2 = ch.free("surface names", [(), (1,), (1, 2, 9)])
    first = ch.free("order", ["volumes first", "surfaces first"])
    ids = [ch.free("cell {}".format(i), [1, 2, 7]) for i in range(n)]
    vol = [("vol%d" % i, np.array([i, 3])) for i in have]
    sur = [("sur%d" % i, np.array([i, 2])) for i in d2]
    fd = dict(vol + sur if first == "volumes first" else sur + vol)
    nodata = ch.flag("no material data")
    m = M.build(M.ints(p), cells, cell_data={} if nodata else {"material": np.array(ids)}, field_data=fd)
    got = np.asarray(ch.call("materials", lambda: m.materials)).tolist()
    if nodata:
        want = [1] * n
    elif fd and all(i in have for i in ids):
        want = ["vol%d" % i for i in ids]
    elif not fd or not all(i in have or i in d2 for i in ids):
        want = ids
    else:
        return      # an id that only names a surface: not specified
    ch.check(got == want, "materials are {} instead of {}", got, want)
    ch.state((fd.keys(), ids, got))


def many(ch):
    """Many cells, many materials."""
    n = ch.free("size", Z.sizes(ch.tier, 2049 * (1 if ch.tier == "quick" else 8), 2))
    nm = ch.free("materials", Z.some(n, [20, 2, 300]))
    how = ch.free("selection", ["indices", "mask", "list"])
    p, c = M.strip("hexahedron", n)
    m = M.build(p, [("hexahedron", [x for _, x in c])], cell_data={"material": np.ones(n, dtype=int), "v": np.arange(n)}, field_data={"first": np.array([1, 3])})
    mats = ["first"] * n
    for k in range(nm):
        sel = [i for i in range(n) if i % (nm + 1) == k or i % 53 == k]
        arg = np.array(sel, dtype=int) if how == "indices" else np.isin(np.arange(n), sel) if how == "mask" else list(sel)
        ch.call("set_material", m.set_material, "M{}".format(k), arg)
        for i in sel:
            mats[i] = "M{}".format(k)
    got = [str(x) for x in ch.call("materials", lambda: m.materials)]
    bad = [i for i in range(n) if got[i] != mats[i]]
    ch.check(len(got) == n and not bad, "{} of {} materials are wrong, first {!r} instead of {!r}", len(bad), n, bad and got[bad[0]], bad and mats[bad[0]])
    ch.check(m.cell_data["v"].tolist() == list(range(n)), "cell data changed")
    ch.state((n, nm, how))


def drivers(tier):
    b = 4 if tier == "quick" else 5
    return [Driver("history", history, b, what="every history of edits up to the depth", bounds={"depth": 3 if tier == "quick" else 4}), Driver("materials", materials, 1), Driver("many", many, 0, "many cells, many materials", cpu=120)]
