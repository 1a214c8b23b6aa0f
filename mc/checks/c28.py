"""Mesh files (AVS-UCD, FLAC3D, Tecplot, pickle) give back the mesh that was written."""
import struct

import numpy as np
import toughio

from ..engine import Driver
from .. import long as Z
from .. import mesh_common as M

ASSUMPTIONS = [
    "AVS-UCD and Tecplot: data names without commas or quotes (blanks become underscores); integer materials; 3D points (AVS-UCD appends 0)",
    "FLAC3D: group names without quotes or repeated blanks; meshes with at least one 3D cell; right- or left-handed cells come back with the same vertices and faces",
    "Tecplot: mixed meshes and wedges/pyramids come back as degenerate hexahedra with the same vertices",
]

SURF = {  # 2D and lower-dimensional blocks added to a 3D mesh
    None: [],
    "faces": ["quad", "triangle"],
    "all": ["vertex", "line", "triangle", "quad"],
}


def surfaces(p, cells, kinds):
    out = []
    fs = []
    for t, c in cells:
        for vs, _, _ in M.cell_faces(p, (t, c)):
            fs.append(vs)
    for k in kinds:
        if k == "vertex":
            out.append((k, [(cells[0][1][0],), (cells[-1][1][1],)]))
        elif k == "line":
            out.append((k, [tuple(cells[0][1][:2])]))
        else:
            n = 3 if k == "triangle" else 4
            sel = [f for f in fs if len(f) == n][:2]
            if sel:
                out.append((k, [tuple(f) for f in sel]))
    return out


def make(ch, surf=True, names=None):
    p, blocks = M.topology(ch, names or ["tower", "2x2x2", "2 wedges", "6 tetras", "6 pyramids", "tower and pair", "hexahedron"])
    p, tr = M.transform(ch, p, ["identity", "rotate", "mirror", "large", "projective"])
    if surf:
        extra = surfaces(p, M.flat(blocks), SURF[ch.choose("other cells", list(SURF))])
        blocks = extra + blocks if extra and ch.flag("other cells first") else blocks + extra
    return p, blocks


def data(ch, n, label, kinds=("ramp", "ints", "vector", "extreme", "two columns")):
    k = ch.choose(label, [None] + list(kinds))
    if k is None:
        return None
    if k == "ramp":
        return [1.5 * i - 2.0 for i in range(n)]
    if k == "ints":
        return [(7 * i) % 5 - 1 for i in range(n)]
    if k == "vector":
        return [[float(i), -0.1 * i, 1e5 + i] for i in range(n)]
    if k == "two columns":
        return [[float(i), -3.0] for i in range(n)]
    return [[1e-300, -1.2345678901234567e+200, 0.1, -0.0, 1e22, 3.0][i % 6] for i in range(n)]


def same_cells(ch, got, blocks):
    g = [(c.type, tuple(int(x) for x in v)) for c in got.cells for v in np.asarray(c.data).tolist()]
    ch.check(g == M.flat(blocks), "cells are {} instead of {}", g, M.flat(blocks))


def num(ch, got, want, rel, what):
    g = np.asarray(got, dtype=float)
    w = np.asarray(want, dtype=float)
    ch.check(g.shape == w.shape, "{} has shape {} instead of {}", what, g.shape, w.shape)
    bad = np.abs(g - w) > rel * np.abs(w)
    ch.check(not bad.any(), "{} is {} instead of {}", what, g[bad][:3], w[bad][:3])


def avs(ch):
    p, blocks = make(ch)
    n = len(M.flat(blocks))
    cd = {}
    mats = ch.choose("materials", [None, "ramp", "large"])
    if mats:
        cd["material"] = np.array([(1 + i % 3) if mats == "ramp" else 10 ** (i % 7) for i in range(n)])
    names = ch.choose("names", [("T", "P"), ("X (m)", "liquid sat"), ("a-b_c", "x")])
    want_c, want_p = {}, {}
    for k in range(2):
        v = data(ch, n, "cell data {}".format(k))
        if v is not None:
            cd[names[k]] = np.array(v)
            want_c[names[k].replace(" ", "_")] = v
    pd = {}
    for k in range(2):
        v = data(ch, len(p), "point data {}".format(k))
        if v is not None:
            pd[names[k]] = np.array(v)
            want_p[names[k].replace(" ", "_")] = v
    if mats and ch.flag("material last"):
        cd["material"] = cd.pop("material")
    m = M.build(p, blocks, how=M.arrays(ch), cell_data=cd, point_data=pd)
    before = M.snap(m)
    f = ch.path(ch.choose("file", ["m.avs", "m.dat"]))
    fmt = "avsucd"
    ch.call("Mesh.write", m.write, f, file_format=fmt)
    ch.check(M.eq(M.snap(m), before), "writing modified the mesh")
    g = ch.call("read_mesh", toughio.read_mesh, f, file_format=fmt)
    same_cells(ch, g, blocks)
    num(ch, g.points, p, 0, "points")
    ch.check(set(g.point_data) == set(want_p), "point data {} instead of {}", list(g.point_data), list(want_p))
    ch.check(set(g.cell_data) == set(want_c) | {"material"}, "cell data {}", list(g.cell_data))
    for k, v in want_p.items():
        num(ch, g.point_data[k], v, 1e-14, "point data " + k)
    for k, v in want_c.items():
        num(ch, g.cell_data[k], v, 1e-14, "cell data " + k)
    num(ch, g.cell_data["material"], cd["material"] if mats else [0] * n, 0, "material")
    f2 = ch.path("again.avs")
    ch.call("Mesh.write", g.write, f2, file_format=fmt)
    h = ch.call("read_mesh", toughio.read_mesh, f2, file_format=fmt)
    same_cells(ch, h, blocks)
    ch.state(open(f).read())


def faceset(cells):
    """Cells as sets of faces: what survives a change of the order of vertices."""
    out = []
    for t, c in cells:
        if t in M.FACES:
            out.append((t, frozenset(_ring(tuple(c[i] for i in f)) for f in M.FACES[t])))
        elif t == "quad":
            out.append((t, _ring(c)))
        else:
            out.append((t, frozenset(c)))
    return out


def _ring(f):
    return frozenset(frozenset(e) for e in zip(f, f[1:] + f[:1]))


def flac(ch):
    p, blocks = make(ch)
    binary = ch.free("binary", [False, True])
    n = len(M.flat(blocks))
    kind = ch.choose("materials", ["names", "absent", "integers", "some names", "zero"])
    cells = M.flat(blocks)
    dims = {"vertex": 0, "line": 1, "triangle": 2, "quad": 2}
    dim = [dims.get(t, 3) for t, _ in cells]
    cd, fd = {}, {}
    nm = ch.choose("names", [("ROCK1", "SAND", "CLAY"), ("B 12", "A", "rock with spaces"), ("émail", "SAND", "A"), ("SLOT", "Z", "12"), ("Default", "SLOT 1", "*")])
    if kind != "absent":
        ids = ch.choose("ids", [(1, 2, 3), (30, 2, 7), (3, 1, 2)])
        mat = [ids[i % 3] for i in range(n)]
        for i in (0, n - 1):
            mat[i] = ch.choose("material of cell {}".format(i), [mat[i]] + [x for x in ids if x != mat[i]])
        if kind == "zero":
            mat = [0 if i % 2 else x for i, x in enumerate(mat)]
        if kind in ("names", "some names", "zero"):
            for k in (0, 1, 2):
                if kind != "some names" or k != 1:
                    fd[nm[k]] = np.array([ids[k], 3])
            if ch.flag("face names"):
                fd["face one"] = np.array([ids[0], 2])
        cd["material"] = np.array(mat)
        if ch.flag("other data"):
            cd["T"] = np.arange(n) * 1.5
        name3 = {int(v[0]): k for k, v in fd.items() if v[1] == 3}
        name2 = {int(v[0]): k for k, v in fd.items() if v[1] == 2}
        want = [{3: name3, 2: name2}.get(d, {}).get(x, "None" if x == 0 else str(x)) for d, x in zip(dim, mat)]
    m = M.build(p, blocks, how=M.arrays(ch), cell_data=cd, field_data=fd)
    before = M.snap(m)
    f = ch.path(ch.choose("file", ["m.f3grid", "m.dat", "M.F3GRID"]))
    fmt = None if f.lower().endswith(".f3grid") else "flac3d"
    kw = {"binary": True} if binary else {} if not ch.flag("binary=False") else {"binary": False}
    ff = ch.choose("float_fmt", [None, ".16e", ".3f", "20.10g", ""])
    if ff is not None:
        kw["float_fmt"] = ff
    ch.call("Mesh.write", m.write, f, file_format=fmt, **kw)
    ch.check(M.eq(M.snap(m), before), "writing modified the mesh")
    g = ch.call("read_mesh", toughio.read_mesh, f, file_format=fmt)
    num(ch, g.points, p if binary or ff is None else [[float(format(float(x), ff)) for x in q] for q in p], 0, "points")
    z = [i for i in range(n) if dim[i] == 3] + [i for i in range(n) if dim[i] == 2]
    got = [(c.type, tuple(int(x) for x in v)) for c in g.cells for v in np.asarray(c.data).tolist()]
    a, b = faceset(got), faceset([cells[i] for i in z])
    ch.check(a == b, "cells are {} instead of {}", got, [cells[i] for i in z])
    if kind == "absent":
        ch.check(not g.cell_data and not g.field_data, "cell data {} and field data {}", g.cell_data, g.field_data)
    else:
        ch.check(set(g.cell_data) == {"material"}, "cell data {}", list(g.cell_data))
        names = {int(v[0]): k for k, v in g.field_data.items()}
        gm = [names.get(int(x)) for x in g.cell_data["material"]]
        ch.check(gm == [want[i] for i in z], "materials are {} instead of {}", gm, [want[i] for i in z])
        vol = {want[i] for i in z if dim[i] == 3}
        if all(d == 3 for d in dim):
            mats = [str(x) for x in ch.call("materials", lambda: g.materials)]
            ch.check(mats == [want[i] for i in z], "materials are {} instead of {}", mats, want)
        ch.check(all(int(g.field_data[k][1]) == 3 for k in vol), "field data of zone groups {}", g.field_data)
    if not binary:      # the first four vertices of a zone form a right-handed system
        for line in open(f).read().splitlines():
            w = line.split()
            if w[:1] == ["Z"]:
                q = [p[int(i) - 1] for i in w[3:7]]
                det = M.dot(M.cross(M.sub(q[1], q[0]), M.sub(q[2], q[0])), M.sub(q[3], q[0]))
                ch.check(det > 0, "zone {} is left-handed", line)
    ch.state((got, M.snap(g.cell_data)))


def flac_foreign(ch):
    """Grids written by another program: sparse ids, groups in any order, cells in no group."""
    p, blocks = make(ch, surf=False, names=["tower", "2 wedges"])
    cells = M.flat(blocks)
    step = ch.choose("point ids", [1, 10])
    cid0 = ch.choose("first cell id", [1, 100])
    perm = {"tetra": [0, 1, 2, 3], "pyramid": [0, 1, 3, 4, 2], "wedge": [0, 1, 3, 2, 4, 5], "hexahedron": [0, 1, 3, 4, 2, 7, 5, 6]}
    code = {"tetra": "T4", "pyramid": "P5", "wedge": "W6", "hexahedron": "B8"}
    sep = ch.choose("separator", [" ", "\t", "   "])
    L = ["* comment"] if ch.flag("comment first") else []
    gp = [sep.join(["G", str(step * (i + 1))] + [repr(x) for x in q]) for i, q in enumerate(p)]
    if ch.flag("points reversed"):
        gp.reverse()
    L += gp
    zones = [sep.join(["Z", code[t], str(cid0 + 3 * k)] + [str(step * (c[i] + 1)) for i in perm[t]]) for k, (t, c) in enumerate(cells)]
    L += zones
    L += ch.choose("between zones and faces", [[], ["* FACES", "*"], [""], ["  "]])
    fs = [f for f in surfaces(p, cells, ["quad"])[0][1]] if any(t in ("hexahedron", "wedge") for t, _ in cells) else []
    nfaces = ch.choose("faces", [0, len(fs)])
    for k in range(nfaces):
        L.append(sep.join(["F", "Q4", str(1 + k)] + [str(step * (i + 1)) for i in fs[k]]))
    group = [ch.choose("group of zone {}".format(k), [k % 2, 1 - k % 2, None]) for k in range(len(cells))]
    quote = ch.choose("quotes", ['"', ""])
    slot = ch.choose("slot", ["", " SLOT 1", " SLOT Default"])
    for g in ch.choose("group order", [[0, 1], [1, 0]]):
        ids = [str(cid0 + 3 * k) for k in range(len(cells)) if group[k] == g]
        L.append("ZGROUP {0}{1}{0}{2}".format(quote, "AB"[g], slot))
        w = ch.choose("ids per line", [20, 1])
        L += [" " + " ".join(ids[i:i + w]) for i in range(0, len(ids), w)]
        L += ch.choose("after group {}".format(g), [[], ["*"], [""], ["*comment"]])
    fnames = []
    for k in range(nfaces):
        nm = ch.choose("name of face group {}".format(k), ["F{}".format(k), "A"]) if k == 0 else "F1"
        fnames.append(nm)
        L.append("FGROUP {0}{1}{0}{2}".format(quote, nm, slot))
        L.append(" {}".format(1 + k))
    f = ch.path("g.f3grid")
    with open(f, "w") as o:
        o.write("\n".join(L) + "\n")
    m = ch.call("read_mesh", toughio.read_mesh, f)
    got = [(c.type, tuple(tuple(float(x) for x in m.points[i]) for i in v)) for c in m.cells for v in np.asarray(c.data).tolist()]
    want = [(t, tuple(p[i] for i in c)) for t, c in cells] + [("quad", tuple(p[i] for i in fs[k])) for k in range(nfaces)]
    ch.check(got == want, "cells are {} instead of {}", got, want)
    names = {int(v[0]): k for k, v in m.field_data.items()}
    gm = [names.get(int(x)) for x in m.cell_data["material"]] if "material" in m.cell_data else [None] * len(want)
    wm = [None if g is None else "AB"[g] for g in group] + fnames
    ch.check(gm == wm, "groups are {} instead of {}", gm, wm)
    ch.state((got, gm))


def flac_binary(ch):
    """Binary grids written by another program, degenerate bricks, several slots."""
    p, cells = M.LIB["tower"]()
    p = M.ints(p)
    fs = surfaces(p, cells, ["quad"])[0][1]
    perm = {"tetra": [0, 1, 2, 3], "pyramid": [0, 1, 3, 4, 2], "wedge": [0, 1, 3, 2, 4, 5], "hexahedron": [0, 1, 3, 4, 2, 7, 5, 6]}
    code = {"tetra": "T4", "pyramid": "P5", "wedge": "W6", "hexahedron": "B8"}
    binary = ch.free("binary", [True, False])
    step = ch.choose("point ids", [10, 1])
    cid0 = ch.choose("first cell id", [100, 1, 70000])
    zones, want = [], []
    for k, (t, c) in enumerate(cells):
        v = [c[i] for i in perm[t]]
        b7 = t == "hexahedron" and ch.flag("degenerate brick")
        if b7:      # the last two vertices are one
            want.append((t, frozenset(v[:7])))
        else:
            want.append((t, tuple(c)))
        zones.append((("B7" if b7 else code[t]), cid0 + 3 * k, v[:7] if b7 else v))
    if ch.flag("zones reversed"):
        zones.reverse()
        want.reverse()
    nf = ch.choose("faces", [0, 1, len(fs)])
    faces = [("Q4", 1 + k, list(fs[k])) for k in range(nf)]
    want += [("quad", tuple(fs[k])) for k in range(nf)]
    ngr = ch.choose("groups", [2, 0, 1, 3])
    owner = {z[1]: ch.choose("group of zone {}".format(i), list(range(ngr)) + [None]) if ngr else None for i, z in enumerate(zones)}
    slots = ch.choose("slots", [["1", "1", "1"], ["", "", ""], ["Default", "Default", "Default"], ["1", "2", "1"]])
    names = ch.choose("names", [["A", "B", "C"], ["a b", "B 2", "\u00e9"]])
    groups = [(names[g], slots[g], [c for c in owner if owner[c] == g]) for g in range(ngr)]
    fgroups = [("F", slots[0], [f[1] for f in faces])] if faces and ch.flag("face group") else []
    f = ch.path("g.f3grid")
    if binary:
        with open(f, "wb") as o:
            o.write(struct.pack("<2I", 1375135718, 3))
            o.write(struct.pack("<I", len(p)))
            for i in (range(len(p) - 1, -1, -1) if ch.flag("points reversed") else range(len(p))):
                o.write(struct.pack("<I3d", step * (i + 1), *p[i]))
            for cc, gg in ((zones, groups), (faces, fgroups)):
                o.write(struct.pack("<I", len(cc)))
                for _, cid, v in cc:
                    o.write(struct.pack("<{}I".format(2 + len(v)), cid, len(v), *[step * (i + 1) for i in v]))
                o.write(struct.pack("<I", len(gg)))
                for nm, sl, ids in gg:
                    for x in (nm, sl):
                        x = x.encode("utf-8")
                        o.write(struct.pack("<H", len(x)) + x)
                    o.write(struct.pack("<{}I".format(1 + len(ids)), len(ids), *ids))
    else:
        L = ["G {} {!r} {!r} {!r}".format(step * (i + 1), *q) for i, q in enumerate(p)]
        for key, cc, gg in (("Z", zones, groups), ("F", faces, fgroups)):
            L += [" ".join([key, t, str(cid)] + [str(step * (i + 1)) for i in v]) for t, cid, v in cc]
            for nm, sl, ids in gg:
                L.append('{}GROUP "{}"{}'.format(key, nm, " SLOT " + sl if sl else ""))
                L += [" ".join(str(x) for x in ids)] if ids else []
        with open(f, "w") as o:
            o.write("\n".join(L) + "\n")
    used = {g[1] for g in groups}
    if len(used) > 1:
        ch.raises("read_mesh of a grid with two slots", ValueError, toughio.read_mesh, f)
        return
    m = ch.call("read_mesh", toughio.read_mesh, f)
    at = {tuple(map(float, q)): i for i, q in enumerate(p)}
    got = [(c.type, tuple(at[tuple(float(x) for x in m.points[i])] for i in v)) for c in m.cells for v in np.asarray(c.data).tolist()]
    ok = len(got) == len(want) and all(a[0] == b[0] and (a[1] == b[1] if isinstance(b[1], tuple) else set(a[1]) == b[1]) for a, b in zip(got, want))
    ch.check(ok, "cells are {} instead of {}", got, want)
    nm = {int(v[0]): k for k, v in m.field_data.items()}
    gm = [nm.get(int(x)) for x in m.cell_data["material"]] if "material" in m.cell_data else [None] * len(want)
    wm = [None if owner[z[1]] is None else names[owner[z[1]]] for z in zones] + ["F" if fgroups else None] * nf
    ch.check(gm == wm, "groups are {} instead of {}", gm, wm)
    ch.state((got, gm))


def tec(ch):
    flat2d = ch.free("mesh of", ["volumes", "surfaces"]) == "surfaces"
    if flat2d:
        p = [(0.0, 0.0), (2.0, 0.0), (2.0, 3.0), (0.0, 3.0), (5.0, 1.0), (1.0, 5.0)]
        blocks = ch.free("cells", [[("quad", [(0, 1, 2, 3)]), ("triangle", [(1, 4, 2), (3, 2, 5)])], [("triangle", [(1, 4, 2), (3, 2, 5)])], [("quad", [(0, 1, 2, 3)])]])
        if ch.flag("3D points"):
            p = [q + (1.5,) for q in p]
    else:
        p, blocks = make(ch)
    cells = M.flat(blocks)
    n = len(cells)
    d = [{"vertex": 0, "line": 0, "triangle": 2, "quad": 2}.get(t, 3) for t, _ in cells]
    top = max(d)
    keep = [i for i in range(n) if d[i] == top]
    types = {cells[i][0] for i in keep}
    cd, pd, want_c, want_p = {}, {}, {}, {}
    if ch.choose("materials", [True, False]):
        cd["material"] = np.array([1 + i % 3 for i in range(n)])
        want_c["material"] = [1 + i % 3 for i in range(n)]
    names = ch.choose("names", [("T", "P"), ("liquid sat", "x_1"), ("a-b", "P(1)")])
    for k in range(2):
        for D, W, size, lab in ((cd, want_c, n, "cell"), (pd, want_p, len(p), "point")):
            v = data(ch, size, "{} data {}".format(lab, k))
            if v is not None:
                nm = ("n " if " " in names[0] else "n") + names[k] if lab == "point" else names[k]
                D[nm] = np.array(v)
                key = nm.replace(" ", "_")
                if np.ndim(v) == 1:
                    W[key] = v
                else:
                    for j in range(len(v[0])):
                        W["{}_{}".format(key, j)] = [r[j] for r in v]
    m = M.build(p, blocks, how=M.arrays(ch), cell_data=cd, point_data=pd)
    before = M.snap(m)
    f = ch.path(ch.choose("file", ["m.tec", "m.dat", "m.x", "a.b.TEC"]))
    fmt = "tecplot" if f.endswith(".x") else None
    ch.call("Mesh.write", m.write, f, file_format=fmt)
    ch.check(M.eq(M.snap(m), before), "writing modified the mesh")
    g = ch.call("read_mesh", toughio.read_mesh, f, file_format=fmt)
    num(ch, g.points, p, 0, "points")
    out = [(c.type, tuple(int(x) for x in v)) for c in g.cells for v in np.asarray(c.data).tolist()]
    ch.check(len(out) == len(keep), "{} cells instead of {}", len(out), len(keep))
    for (t, c), i in zip(out, keep):
        w = cells[i]
        if len({x[0] for x in cells}) == 1 and w[0] in ("triangle", "quad", "tetra", "hexahedron") or w[0] in ("quad", "hexahedron"):
            ch.check((t, c) == w, "cell {} instead of {}", (t, c), w)
        elif (t, c) != w:
            ch.check(t == {2: "quad", 3: "hexahedron"}[top] and set(c) == set(w[1]), "cell {} instead of {}", (t, c), w)
            if top == 3:       # every face of the cell is a face of the degenerate hexahedron
                got = {_clean_ring([c[j] for j in fc]) for fc in M.FACES["hexahedron"]}
                ref = {_clean_ring([w[1][j] for j in fc]) for fc in M.FACES[w[0]]}
                ch.check(ref <= got, "cell {} has lost faces of {}", (t, c), w)
    ch.check(set(g.point_data) == set(want_p), "point data {} instead of {}", list(g.point_data), list(want_p))
    ch.check(set(g.cell_data) == set(want_c), "cell data {} instead of {}", list(g.cell_data), list(want_c))
    for k, v in want_p.items():
        num(ch, g.point_data[k], v, 0, "point data " + k)
    for k, v in want_c.items():
        num(ch, g.cell_data[k], [v[i] for i in keep], 0, "cell data " + k)
    ch.state(open(f).read())


def tec_foreign(ch):
    """Tecplot grids written by another program."""
    zt = ch.free("zone type", ["FEBRICK", "FETETRAHEDRON", "FEQUADRILATERAL", "FETRIANGLE"])
    if zt in ("FEBRICK", "FETETRAHEDRON"):
        p, cells = M.LIB["2 hexahedra" if zt == "FEBRICK" else "6 tetras"]()
        p, cells = M.ints(p), [c for _, c in cells]
    else:
        p = [(0.0, 0.0), (2.0, 0.0), (2.0, 3.0), (0.0, 3.0), (5.0, 1.0), (1.0, 5.0)]
        cells = [(0, 1, 2, 3), (1, 4, 2, 5)] if zt == "FEQUADRILATERAL" else [(1, 4, 2), (3, 2, 5), (0, 1, 2)]
    dim = len(p[0])
    nv, nc = len(p), len(cells)
    old = ch.choose("dialect", ["new", "old"]) == "old"
    pack = ch.choose("packing", ["BLOCK", "POINT"])
    names = list("XYZ"[:dim]) if ch.choose("axes", ["upper", "lower"]) == "upper" else list("xyz"[:dim])
    cols = [[q[k] for q in p] for k in range(dim)]
    npd = ch.choose("point data", [0, 1, 2])
    ncd = ch.choose("cell data", [0, 1, 3]) if pack == "BLOCK" else 0
    for k in range(npd):
        names.append("P {}".format(k) if ch.flag("name with a blank {}".format(k)) else "P{}".format(k))
        cols.append([1.5 * i - k for i in range(nv)])
    for k in range(ncd):
        names.append("C{}".format(k))
        cols.append([-10.0 * k + i + 0.25 for i in range(nc)])
    quoted = ch.choose("quotes", [True, False]) or any(" " in x for x in names)
    sep = ch.choose("separator", [", ", " ", ","])
    L = []
    if ch.choose("title", [True, False]):
        L.append('TITLE = "a title"')
    L.append(ch.choose("keyword", ["VARIABLES", "Variables"]) + ch.choose("equals", [" = ", "="]) + sep.join('"{}"'.format(x) if quoted else x for x in names))
    parts = []
    t = ch.choose("zone title", [None, 'T="zone 1"', 'T = "N=3, E=(2)"'])
    if t:
        parts.append(t)
    parts.append("{}={}".format("N" if ch.choose("N", ["NODES", "N"]) == "N" else "NODES", nv))
    parts.append("{} = {}".format("E" if ch.choose("E", ["ELEMENTS", "E"]) == "E" else "ELEMENTS", nc))
    if old:
        parts += ["F=FE" + pack, "ET=" + {"FEBRICK": "BRICK", "FETETRAHEDRON": "TETRAHEDRON", "FEQUADRILATERAL": "QUADRILATERAL", "FETRIANGLE": "TRIANGLE"}[zt]]
    else:
        parts += ["DATAPACKING=" + pack, "ZONETYPE = " + zt]
    if ncd:
        i = dim + npd
        style = ch.choose("location", ["range", "each", "NV", "nodal too"])
        if style == "NV":
            parts.append("NV={}".format(i))
        else:
            rng = "[{}-{}]".format(i + 1, i + ncd) if ncd > 1 else "[{}]".format(i + 1)
            v = "({}=CELLCENTERED)".format(rng)
            if style == "each":
                v = "({})".format(", ".join("[{}] = CELLCENTERED".format(i + 1 + k) for k in range(ncd)))
            elif style == "nodal too":
                v = "([1-{}]=NODAL, {}=CELLCENTERED)".format(i, rng)
            parts.append("VARLOCATION = " + v)
    how = ch.choose("zone lines", ["one", "one each", "leading comma"])
    if how == "one":
        L.append("ZONE " + ", ".join(parts))
    elif how == "one each":
        L += ["ZONE " + parts[0] + ","] + [x + "," for x in parts[1:-1]] + [parts[-1]]
    else:
        L += ["ZONE " + parts[0]] + [", " + x for x in parts[1:]]
    fmt = ch.choose("notation", ["{!r}", "{:.6e}", "{:+.4f}"])
    if pack == "BLOCK":
        w = ch.choose("values per line", [5, 1, 100])
        for c in cols:
            L += [" ".join(fmt.format(x) for x in c[i:i + w]) for i in range(0, len(c), w)]
    else:
        L += ["  " + "  ".join(fmt.format(c[i]) for c in cols) for i in range(nv)]
    L += [ch.choose("indent", ["", "  "]) + " ".join(str(i + 1) for i in c) for c in cells]
    if ch.flag("second zone"):
        L += ["ZONE NODES=1, ELEMENTS=0"]
    f = ch.path("g.tec")
    with open(f, "w") as o:
        o.write("\n".join(L) + ("" if ch.flag("no newline at the end") else "\n"))
    m = ch.call("read_mesh", toughio.read_mesh, f)
    num(ch, m.points, p, 0, "points")
    got = [(c.type, tuple(int(x) for x in v)) for c in m.cells for v in np.asarray(c.data).tolist()]
    want = [({"FEBRICK": "hexahedron", "FETETRAHEDRON": "tetra", "FEQUADRILATERAL": "quad", "FETRIANGLE": "triangle"}[zt], tuple(c)) for c in cells]
    ch.check(got == want, "cells are {} instead of {}", got, want)
    ch.check(list(m.point_data) == [x.replace(" ", "_") for x in names[dim:dim + npd]], "point data {}", list(m.point_data))
    ch.check(list(m.cell_data) == names[dim + npd:], "cell data {}", list(m.cell_data))
    for k in range(npd):
        num(ch, list(m.point_data.values())[k], cols[dim + k], 0, "point data")
    for k in range(ncd):
        num(ch, list(m.cell_data.values())[k], cols[dim + npd + k], 0, "cell data")
    ch.state(L)


def avs_foreign(ch):
    """AVS-UCD grids written by another program: comments, sparse ids, data of any widths."""
    p, blocks = M.topology(ch, ["tower", "2 wedges", "2x2x2"])
    cells = M.flat(blocks)
    code = {"tetra": "tet", "pyramid": "pyr", "wedge": "prism", "hexahedron": "hex"}
    perm = {"tetra": [0, 1, 3, 2], "pyramid": [4, 0, 1, 2, 3], "wedge": [3, 4, 5, 0, 1, 2], "hexahedron": [4, 5, 6, 7, 0, 1, 2, 3]}
    ps, cs = ch.choose("point ids", [1, 7]), ch.choose("cell ids", [1, 5])
    wp = ch.choose("point data", [[], [1], [3, 1]])
    wc = ch.choose("cell data", [[], [1], [1, 3, 1]])
    L = ["# comment"] * ch.choose("comments", [0, 1, 3])
    L.append("{} {} {} {} 0".format(len(p), len(cells), sum(wp), sum(wc)))
    sep = ch.choose("separator", [" ", "   ", "\t"])
    L += [sep.join([str(10 + ps * i)] + [repr(x) for x in q]) for i, q in enumerate(p)]
    mats = [(3 * i) % 4 for i in range(len(cells))]
    L += [sep.join([str(2 + cs * k), str(mats[k]), code[t]] + [str(10 + ps * c[i]) for i in perm[t]]) for k, (t, c) in enumerate(cells)]
    want = []
    for n, widths, i0, st, lab in ((len(p), wp, 10, ps, "P"), (len(cells), wc, 2, cs, "C")):
        if not widths:
            want.append([])
            continue
        L.append(" ".join(str(x) for x in [len(widths)] + widths))
        unit = ch.choose("unit", [", K", ",", ", no unit"])
        L += ["{}{}{}".format(lab, k, unit) for k in range(len(widths))]
        rows = [[10.0 * i + j + 0.5 for j in range(sum(widths))] for i in range(n)]
        order = list(range(n))
        if ch.flag("rows of {} reversed".format(lab)):
            order.reverse()
        L += [sep.join([str(i0 + st * i)] + [repr(x) for x in rows[i]]) for i in order]
        out, j = [], 0
        for k, w in enumerate(widths):
            out.append(("{}{}".format(lab, k), [r[j] if w == 1 else r[j:j + w] for r in rows]))
            j += w
        want.append(out)
    f = ch.path("g.inp")
    with open(f, "w") as o:
        o.write("\n".join(L) + "\n")
    m = ch.call("read_mesh", toughio.read_mesh, f, file_format="avsucd")
    num(ch, m.points, p, 0, "points")
    same_cells(ch, m, blocks if False else M.group(cells, False))
    ch.check(list(m.point_data) == [k for k, _ in want[0]], "point data {}", list(m.point_data))
    ch.check(set(m.cell_data) == {k for k, _ in want[1]} | {"material"}, "cell data {}", list(m.cell_data))
    for k, v in want[0]:
        num(ch, m.point_data[k], v, 0, "point data " + k)
    for k, v in want[1]:
        num(ch, m.cell_data[k], v, 0, "cell data " + k)
    num(ch, m.cell_data["material"], mats, 0, "material")
    ch.state(L)


def _clean_ring(f):
    r = [x for i, x in enumerate(f) if x != f[i - 1]]
    return frozenset(frozenset(e) for e in zip(r, r[1:] + r[:1])) if len(set(r)) > 2 else None


def pick(ch):
    kind = ch.free("mesh", ["library", "cylindric", "structured"])
    if kind == "library":
        p, blocks = make(ch)
        n = len(M.flat(blocks))
        cd = {"material": np.arange(1, n + 1)} if ch.choose("materials", [True, False]) else {}
        v = data(ch, n, "cell data")
        if v is not None:
            cd["some data"] = np.array(v)
        w = data(ch, len(p), "point data")
        m = M.build(p, blocks, cell_data=cd, point_data={} if w is None else {"w": np.array(w)}, field_data={"rock": np.array([1, 3])} if ch.flag("names") else {},
                    point_sets={"a": np.array([0, 1])} if ch.flag("point sets") else {}, cell_sets={"b": [np.array([0])]} if ch.flag("cell sets") else {})
    elif kind == "cylindric":
        m = toughio.meshmaker.cylindric_grid([1.0, 0.5], [2.0, 1.0])
    else:
        m = toughio.meshmaker.structured_grid([1.0, 0.5], [2.0, 1.0], [1.0])
    m.label_length = ch.choose("label length", [None, 5, 8])
    before = M.snap(m)
    proto = ch.choose("protocol", [None, 0, 2, 4])
    f = ch.path(ch.choose("file", ["m.pickle", "m.pkl", "m.dat"]))
    fmt = None if not f.endswith(".dat") else "pickle"
    ch.call("Mesh.write", m.write, f, file_format=fmt, **({} if proto is None else {"protocol": proto}))
    g = ch.call("read_mesh", toughio.read_mesh, f, file_format=fmt)
    ch.check(type(g) is type(m), "a {} came back as a {}", type(m), type(g))
    ch.check(M.eq(M.snap(g), before) and M.eq(M.snap(m), before), "the mesh came back different")
    ch.check(list(g.labels) == list(m.labels), "labels changed")
    if kind == "cylindric":
        ch.check(np.array_equal(g.volumes, m.volumes) and M.snap(g.face_areas) == M.snap(m.face_areas), "volumes changed")
    ch.state(before)


def many(ch):
    """Many cells, many groups."""
    fmt = ch.free("format", ["avsucd", "flac3d", "flac3d binary", "tecplot", "pickle"])
    kind = ch.free("cells", ["hexahedron", "mixed", "tetra"])
    n = ch.free("size", Z.sizes(ch.tier, 1025 * (1 if ch.tier == "quick" else 8), 2 * (kind == "hexahedron")))
    ng = ch.free("groups", Z.some(n, [2, 40]))
    p, c = M.strip(kind, n)
    blocks = M.group(c, True)
    cells = M.flat(blocks)
    n = len(cells)
    p = M.ints(p)
    mat = [(i * 7 + i // 50) % ng + 1 for i in range(n)]
    v = [1.5 * i - 2.0 for i in range(n)]
    w = [2.5 * i + 0.5 for i in range(len(p))]
    m = M.build(p, blocks, cell_data={"material": np.array(mat), "v": np.array(v)}, point_data={"w": np.array(w)}, field_data={"G{}".format(k): np.array([k, 3]) for k in range(1, ng + 1)})
    f = ch.path("m.dat")
    kw = {"binary": True} if fmt.endswith("binary") else {}
    name = fmt.split()[0]
    ch.call("Mesh.write", m.write, f, file_format=name, **kw)
    g = ch.call("read_mesh", toughio.read_mesh, f, file_format=name)
    num(ch, g.points, p, 0, "points")
    got = [(b.type, tuple(int(x) for x in r)) for b in g.cells for r in np.asarray(b.data).tolist()]
    ch.check(len(got) == n, "{} cells instead of {}", len(got), n)
    if name == "flac3d":
        ch.check(faceset(got) == faceset(cells), "cells differ")
    elif name == "tecplot" and kind == "mixed":
        ch.check([set(x) for _, x in got] == [set(x) for _, x in cells], "cells differ")
    else:
        ch.check(got == cells, "cells differ")
    if name == "flac3d":
        names = {int(x[0]): k for k, x in g.field_data.items()}
        ch.check([names[int(x)] for x in g.cell_data["material"]] == ["G{}".format(x) for x in mat], "groups differ")
    else:
        num(ch, g.cell_data["material"], mat, 0, "material")
        num(ch, g.cell_data["v"], v, 0, "cell data")
        num(ch, g.point_data["w"], w, 0, "point data")
    ch.state((fmt, kind, n, ng))


def drivers(tier):
    b = 2 if tier == "quick" else 4
    return [Driver("avsucd", avs, b), Driver("flac3d", flac, b), Driver("flac3d foreign", flac_foreign, b), Driver("flac3d binary", flac_binary, b + 1), Driver("avsucd foreign", avs_foreign, b), Driver("tecplot", tec, b), Driver("tecplot foreign", tec_foreign, b), Driver("pickle", pick, b), Driver("many", many, 0, "many cells, many groups", cpu=120)]
