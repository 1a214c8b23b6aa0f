"""Conversions to and from meshio and PyVista, and the files meshio writes."""
import copy

import meshio
import numpy as np
import pyvista
import toughio

from ..engine import Driver
from .. import long as Z
from .. import mesh_common as M
from .c28 import surfaces, SURF, data, num

ASSUMPTIONS = [
    "first-order cells; data of one or several columns; names without '/'",
    "PyVista: point data become floats, points become 3D, blanks in names become underscores; field data and sets are not converted",
    "files: vtk, vtu and xdmf as written and read by meshio",
]


def make(ch, surf=tuple(SURF), names=("T", "liquid sat")):
    p, blocks = M.topology(ch, ["tower", "2x2x2", "2 wedges", "6 tetras", "6 pyramids", "hexahedron"])
    p, tr = M.transform(ch, p, ["identity", "rotate", "large"])
    sf = surfaces(p, M.flat(blocks), SURF[ch.choose("other cells", list(surf))])
    blocks = sf + blocks if sf and ch.flag("other cells first") else blocks + sf
    n = len(M.flat(blocks))
    cd, pd, fd = {}, {}, {}
    mats = ch.choose("materials", ["material", "absent", "gmsh:physical", "medit:ref", "flac3d:group"])
    if mats != "absent":
        cd[mats] = np.array([1 + i % 3 for i in range(n)])
    for k, nm in enumerate(names):
        v = data(ch, n, "cell data {}".format(k))
        if v is not None:
            cd[nm] = np.array(v)
        v = data(ch, len(p), "point data {}".format(k))
        if v is not None:
            pd[nm] = np.array(v)
    fk = ch.choose("field data", ["none", "volumes", "volumes and surfaces", "surfaces only"])
    if "volumes" in fk:
        fd["rock"] = np.array([1, 3])
        fd["sand"] = np.array([5, 3])
    if "surfaces" in fk:
        fd["skin"] = np.array([9, 2])
    return p, blocks, mats, cd, pd, fd


def same(ch, g, blocks, merge=False):
    got = [(c.type, tuple(int(x) for x in v)) for c in g.cells for v in np.asarray(c.data).tolist()]
    ch.check(got == M.flat(blocks), "cells are {} instead of {}", got, M.flat(blocks))
    if not merge:
        ch.check([c.type for c in g.cells] == [t for t, _ in blocks], "blocks are {}", [c.type for c in g.cells])


def check_material(ch, g, mats, cd, fd, default, n):
    if mats == "absent":
        used = [int(v[0]) for v in fd.values() if v[1] == 3]
        x = [int(i) for i in g.cell_data["material"]]
        ch.check(len(x) == n and len(set(x)) == 1 and x[0] not in used, "material of a mesh without materials is {} (names {})", x, fd)
        ch.check(int(g.field_data[default][0]) == x[0] and int(g.field_data[default][1]) == 3, "field data {}", g.field_data)
    else:
        num(ch, g.cell_data["material"], cd[mats], 0, "material")


def mio(ch):
    p, blocks, mats, cd, pd, fd = make(ch)
    n = len(M.flat(blocks))
    sizes = np.cumsum([len(c) for _, c in blocks])[:-1]
    psets = {"a": np.array([0, 2])} if ch.flag("point sets") else {}
    m = meshio.Mesh(np.array(p), [(t, np.array(c)) for t, c in blocks], point_data=dict(pd), cell_data={k: np.split(v, sizes) for k, v in cd.items()}, field_data=dict(fd), point_sets=dict(psets))
    before = M.snap([m.points, [(c.type, c.data) for c in m.cells], m.point_data, m.cell_data, m.field_data, m.point_sets])
    name = ch.choose("default material", [None, "ROCKX"])
    g = ch.call("from_meshio", toughio.from_meshio, m, **({} if name is None else {"material": name}))
    after = M.snap([m.points, [(c.type, c.data) for c in m.cells], m.point_data, m.cell_data, m.field_data, m.point_sets])
    ch.check(M.eq(before, after), "from_meshio modified its input")
    same(ch, g, blocks)
    num(ch, g.points, p, 0, "points")
    ch.check(set(g.point_data) == set(pd), "point data {}", list(g.point_data))
    ch.check(set(g.cell_data) == {k for k in cd if k != mats} | {"material"}, "cell data {}", list(g.cell_data))
    for k, v in pd.items():
        num(ch, g.point_data[k], v, 0, k)
    for k, v in cd.items():
        if k != mats:
            num(ch, g.cell_data[k], v, 0, k)
    check_material(ch, g, mats, cd, fd, name or "dfalt", n)
    for k, v in fd.items():
        ch.check([int(x) for x in g.field_data[k]] == [int(x) for x in v], "field data {}", g.field_data)
    ch.check({k: list(v) for k, v in g.point_sets.items()} == {k: list(v) for k, v in psets.items()}, "point sets {}", g.point_sets)
    # and back
    s = M.snap(g)
    h = ch.call("Mesh.to_meshio", g.to_meshio)
    ch.check(M.eq(M.snap(g), s), "to_meshio modified the mesh")
    same(ch, h, blocks)
    num(ch, h.points, p, 0, "points")
    ch.check(set(h.cell_data) == set(g.cell_data) and set(h.point_data) == set(g.point_data), "data {} {}", list(h.cell_data), list(h.point_data))
    for k in g.cell_data:
        ch.check([len(x) for x in h.cell_data[k]] == [len(c) for _, c in blocks], "blocks of cell data {}", k)
        num(ch, np.concatenate(h.cell_data[k]), g.cell_data[k], 0, k)
    for k in g.point_data:
        num(ch, h.point_data[k], g.point_data[k], 0, k)
    ch.check({k: [int(x) for x in v] for k, v in h.field_data.items()} == {k: [int(x) for x in v] for k, v in g.field_data.items()}, "field data {}", h.field_data)
    ch.state(s)


def pv(ch):
    p, blocks, mats, cd, pd, fd = make(ch)
    n = len(M.flat(blocks))
    if mats != "absent" and mats != "material":
        cd["material"] = cd.pop(mats)
        mats = "material"
    m = M.build(p, blocks, how=M.arrays(ch), cell_data=cd, point_data=pd, field_data=fd)
    before = M.snap(m)
    g = ch.call("Mesh.to_pyvista", m.to_pyvista)
    ch.check(M.eq(M.snap(m), before), "to_pyvista modified the mesh")
    num(ch, g.points, p, 0, "points")
    code = {"vertex": 1, "line": 3, "triangle": 5, "quad": 9, "tetra": 10, "hexahedron": 12, "wedge": 13, "pyramid": 14}
    flat = M.flat(blocks)
    ch.check([int(x) for x in g.celltypes] == [code[t] for t, _ in flat], "VTK types {}", list(g.celltypes))
    ch.check([int(x) for x in g.cells] == [x for _, c in flat for x in (len(c),) + c], "VTK cells {}", list(g.cells))
    for k, v in cd.items():
        num(ch, g.cell_data[k], v, 0, k)
    for k, v in pd.items():
        num(ch, g.point_data[k], v, 0, k)
    ch.check(set(g.cell_data.keys()) == set(cd) and set(g.point_data.keys()) == set(pd), "data {} {}", g.cell_data.keys(), g.point_data.keys())
    name = ch.choose("default material", [None, "ROCKX"])
    h = ch.call("from_pyvista", toughio.from_pyvista, g, **({} if name is None else {"material": name}))
    same(ch, h, blocks, merge=True)
    num(ch, h.points, p, 0, "points")
    ch.check(set(h.point_data) == {k.replace(" ", "_") for k in pd}, "point data {}", list(h.point_data))
    ch.check(set(h.cell_data) == {k.replace(" ", "_") for k in cd} | {"material"}, "cell data {}", list(h.cell_data))
    for k, v in pd.items():
        num(ch, h.point_data[k.replace(" ", "_")], v, 0, k)
    for k, v in cd.items():
        num(ch, h.cell_data[k.replace(" ", "_")], v, 0, k)
    check_material(ch, h, mats, cd, {}, name or "dfalt", n)
    ch.state(M.snap(h))


VOX = {8: (0, 1, 3, 2), 11: (0, 1, 3, 2, 4, 5, 7, 6)}


def pv_foreign(ch):
    """Grids made with PyVista: any sequence of cell types, pixels and voxels included."""
    P = np.array([[x, y, z] for z in (0.0, 1.0) for y in (0.0, 1.0) for x in (0.0, 1.0, 2.0)])
    kinds = {"hexahedron": (12, (0, 1, 4, 3, 6, 7, 10, 9)), "voxel": (11, (1, 2, 4, 5, 7, 8, 10, 11)), "pixel": (8, (0, 1, 3, 4)), "quad": (9, (1, 2, 5, 4)), "tetra": (10, (0, 1, 3, 6)),
             "wedge": (13, (0, 1, 3, 6, 7, 9)), "pyramid": (14, (0, 1, 4, 3, 7)), "triangle": (5, (0, 1, 3)), "line": (3, (0, 7)), "vertex": (1, (4,)), "tetra10": (24, tuple(range(10)))}
    names = {12: "hexahedron", 11: "hexahedron", 8: "quad", 9: "quad", 10: "tetra", 13: "wedge", 14: "pyramid", 5: "triangle", 3: "line", 1: "vertex", 24: "tetra10"}
    seq = [ch.free("cell {}".format(i), ([] if i == 0 else [None]) + list(kinds)) for i in range(3)]
    seq = [s for s in seq if s]
    cells, types, want = [], [], []
    for s in seq:
        t, c = kinds[s]
        cells += [len(c)] + list(c)
        types.append(t)
        want.append((names[t], tuple(c[i] for i in VOX[t]) if t in VOX else c))
    g = pyvista.UnstructuredGrid(np.array(cells), np.array(types), P)
    g.cell_data["my data"] = np.arange(len(types)) * 2.0
    m = ch.call("from_pyvista", toughio.from_pyvista, g)
    got = [(c.type, tuple(int(x) for x in v)) for c in m.cells for v in np.asarray(c.data).tolist()]
    ch.check(got == want, "cells are {} instead of {}", got, want)
    num(ch, m.cell_data["my_data"], np.arange(len(types)) * 2.0, 0, "cell data")
    ch.state(got)


def files(ch):
    ext = ch.free("format", ["vtu", "vtk", "xdmf"])
    p, blocks, mats, cd, pd, fd = make(ch, ([None, "faces"] if ext == "xdmf" else list(SURF)), ("T", "liquid_sat" if ext == "vtk" else "liquid sat"))
    n = len(M.flat(blocks))
    if mats not in ("absent", "material"):
        cd["material"] = cd.pop(mats)
        mats = "material"
    m = M.build(p, blocks, how=M.arrays(ch), cell_data=cd, point_data=pd, field_data=fd)
    before = M.snap(m)
    f = ch.path("mesh." + ext)
    how = ch.choose("call", ["Mesh.write", "write_mesh"])
    kw = {"file_format": {"vtu": "vtu", "vtk": "vtk", "xdmf": "xdmf"}[ext]} if ch.flag("format given") else {}
    if how == "Mesh.write":
        ch.call(how, m.write, f, **kw)
    else:
        ch.call(how, toughio.write_mesh, f, m, **kw)
    ch.check(M.eq(M.snap(m), before), "writing modified the mesh")
    g = ch.call("read_mesh", toughio.read_mesh, f, **kw)
    same(ch, g, blocks, merge=True)
    num(ch, g.points, p, 0, "points")
    ch.check(set(g.point_data) == set(pd), "point data {}", list(g.point_data))
    ch.check(set(g.cell_data) == set(cd) | {"material"}, "cell data {}", list(g.cell_data))
    for D, W, lab in ((g.point_data, pd, "point data "), (g.cell_data, cd, "cell data ")):
        for k, v in W.items():
            w = np.asarray(v, dtype=float)
            if ext == "vtk" and w.ndim == 2 and w.shape[1] == 2:      # VTK files hold vectors of 3 components
                w = np.column_stack([w, np.zeros(len(w))])
            num(ch, D[k], w, 0, lab + k)
    check_material(ch, g, mats, cd, {}, "dfalt", n)
    ch.state(M.snap(g))


def many(ch):
    """Many cells."""
    how = ch.free("through", ["meshio", "pyvista", "vtu", "vtk", "xdmf"])
    kind = ch.free("cells", ["hexahedron", "mixed", "tetra"])
    p, c = M.strip(kind, ch.free("size", Z.sizes(ch.tier, 1025 * (1 if ch.tier == "quick" else 8), 2 * (kind == "hexahedron"))))
    mix = ch.free("blocks", ["by type", "runs"] if how in ("meshio", "pyvista") and kind == "mixed" else ["by type"])
    blocks = M.group(c, mix == "by type")
    cells = M.flat(blocks)
    n = len(cells)
    v, w, mat = [1.5 * i for i in range(n)], [0.5 * i for i in range(len(p))], [1 + (i * 7) % 11 for i in range(n)]
    m = M.build(p, blocks, cell_data={"material": np.array(mat), "v": np.array(v)}, point_data={"w": np.array(w)})
    if how == "meshio":
        g = ch.call("from_meshio", toughio.from_meshio, ch.call("to_meshio", m.to_meshio))
    elif how == "pyvista":
        g = ch.call("from_pyvista", toughio.from_pyvista, ch.call("to_pyvista", m.to_pyvista))
    else:
        f = ch.path("mesh." + how)
        ch.call("Mesh.write", m.write, f)
        g = ch.call("read_mesh", toughio.read_mesh, f)
    got = [(b.type, tuple(int(x) for x in r)) for b in g.cells for r in np.asarray(b.data).tolist()]
    ch.check(got == cells, "cells differ")
    num(ch, g.points, p, 0, "points")
    num(ch, g.cell_data["material"], mat, 0, "material")
    num(ch, g.cell_data["v"], v, 0, "cell data")
    num(ch, g.point_data["w"], w, 0, "point data")
    ch.state((how, kind, n, mix))


def drivers(tier):
    b = 2 if tier == "quick" else 4
    return [Driver("meshio", mio, b), Driver("pyvista", pv, b), Driver("pyvista foreign", pv_foreign, b), Driver("files", files, b if tier == "quick" else b - 1), Driver("many", many, 0, "many cells", cpu=120)]
