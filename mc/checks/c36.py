"""toughio-export: simulator results to files for visualization."""
import itertools
import os

import meshio
import numpy as np
import toughio

from ..engine import Driver
from .. import long as Z
from .. import mesh_common as M
from .. import output_common as O
from .. import ref_output as R

ASSUMPTIONS = [
    "the simulator prints the same points in the same order at every step when no mesh is given",
    "variable names without blanks; clouds to voxelize are full grids of cells centered on the points (above the origin)",
    "the values of X, Y, Z and of the mesh's own data in the exported file are not judged",
]

EXT = {"vtk": ".vtk", "vtu": ".vtu", "tecplot": ".dat", "xdmf": ".xdmf"}
NAMES = ["P", "SAT_G", "T1"]


def steps_of(ch):
    ns = ch.choose("steps", [2, 1, 3])
    return ns, [0.0, 2.5e7, 3.0e9][:ns]


def value(j, s, i):
    return [1e5, 0.0, -20.0][j] + (i + 1) * 1.125 + 64.0 * s * (j + 1)


def write_source(ch, fmt, rows, tags=("plain",)):
    """rows: [(t, labels, data)]"""
    f = ch.path({"csv": "OUT.csv", "petrasim": "PETRA.csv", "tecplot": "OUT.tec", "listing": "run.out"}[fmt])
    num = "{:24.16E}"
    if fmt == "csv":
        text = R.enc_csv(rows, num=num, pad=26)
    elif fmt == "petrasim":
        text = R.enc_petrasim(rows, num=num, pad=26)
    elif fmt == "tecplot":
        text = R.enc_tecplot(rows, num=num)
    else:
        text = R.enc_listing(rows, None, L=len(rows[0][1][0]), w=20, d=12)
    with open(f, "w") as g:
        g.write(text)
    return f


def command(ch, f, fmt, ns, extra):
    """Run toughio-export; returns (file, step exported)."""
    argv = [f] + extra
    given = ch.choose("output file", ["given", "default", "relative"])
    os.chdir(ch.scratch)
    if given == "default":
        target = os.path.splitext(f)[0] + EXT[fmt]
    else:
        target = (os.path.join(ch.scratch, "vis" + EXT[fmt])) if given == "given" else "rel" + EXT[fmt]
        argv += ["-o", target]
    if fmt != "vtk" or ch.flag("format given"):
        argv += ["-f", fmt]
    t = ch.choose("time step", [None] + list(range(-ns, ns)))
    if t is not None:
        argv += ["-t" if t >= 0 else "--time-step", str(t)]
    ch.call("toughio-export", toughio._cli.export, argv)
    target = os.path.join(ch.scratch, target)
    ch.check(os.path.isfile(target), "file {} was not written", target)
    return target, (ns - 1 if t is None else t % ns)


def load(ch, fmt, target, times, step):
    """[(step, points, [(type, vertices)], point data, cell data)]"""
    out = []
    if fmt == "xdmf":
        with meshio.xdmf.TimeSeriesReader(target) as r:
            pts, cells = r.read_points_cells()
            ch.check(r.num_steps == len(times), "{} steps in the file instead of {}", r.num_steps, len(times))
            flat = [(c.type, tuple(int(x) for x in v)) for c in cells for v in c.data]
            for k in range(len(times)):
                t, pd, cd = r.read_data(k)
                ch.check(float(t) == times[k], "time {} instead of {}", t, times[k])
                out.append((k, np.asarray(pts), flat, pd, {a: np.concatenate(b) for a, b in cd.items()}))
        return out
    if fmt == "tecplot":
        m = ch.call("read_mesh", toughio.read_mesh, target)
        cd = m.cell_data
        cells = m.cells
    else:
        m = meshio.read(target)
        cd = {a: np.concatenate(b) for a, b in m.cell_data.items()}
        cells = m.cells
    flat = [(c.type, tuple(int(x) for x in v)) for c in cells for v in c.data]
    return [(step, np.asarray(m.points), flat, m.point_data, cd)]


def corners(points, c):
    return sorted({tuple(float(x) for x in points[i]) for i in c[1]})


def with_mesh(ch):
    p, blocks = M.topology(ch, ["tower", "2x2x2", "2 wedges", "6 pyramids", "12 tetras"], renumber=False)
    fmt = ch.free("to", ["vtk", "vtu", "tecplot", "xdmf"])
    src = ch.choose("from", ["csv", "petrasim", "listing"])
    n = len(M.flat(blocks))
    m = M.build(p, blocks, cell_data={"material": np.arange(n) % 2 + 1, "P": np.full(n, -1.0)} if ch.flag("cell data") else {"material": np.ones(n, dtype=int)})
    if ch.flag("point data"):
        m.point_data["pd"] = np.arange(len(p)) * 1.0
    L = ch.choose("label length", [None, 7])
    m.label_length = L
    labs = [str(x) for x in m.labels]
    mf = ch.path("mesh.pickle")
    m.write(mf)
    ns, times = steps_of(ch)
    rows = []
    for s in range(ns):
        order = ch.choose("order of rows, step {}".format(s), [tuple(range(n)), tuple(range(n))[::-1], tuple(range(1, n)) + (0,)])
        data = {}
        if src != "listing":
            data = {k: [10.0 * i + j for i in order] for j, k in enumerate("XYZ")}
        for j, k in enumerate(NAMES):
            data[k] = [value(j, s, i) for i in order]
        rows.append((times[s], [labs[i] for i in order], data))
    f = write_source(ch, src, rows)
    extra = ["-m" if ch.choose("-m", [True, False]) else "--mesh", mf]
    if ch.flag("--voxelize is ignored"):
        extra.append("-v")
    target, k = command(ch, f, fmt, ns, extra)
    cells = M.flat(blocks)
    for s, pts, got, pd, cd in load(ch, fmt, target, times, k):
        ch.check(len(got) == n, "{} cells instead of {}", len(got), n)
        for a in NAMES:
            ch.check(a in cd, "cell data {} is missing: {}", a, list(cd))
        for i in range(n):
            ch.check(corners(pts, got[i]) == sorted({tuple(float(x) for x in p[v]) for v in cells[i][1]}), "cell {} has corners {}", i, corners(pts, got[i]))
            for j, a in enumerate(NAMES):
                ch.check(O.same(cd[a][i], value(j, s, i), 1e-9), "step {}: {} of cell {} is {} instead of {}", s, a, labs[i], cd[a][i], value(j, s, i))
    ch.state((src, fmt, n, [r[1] for r in rows], k))


def cloud_rows(ch, pts, ns, times, L, dims, const):
    n = len(pts)
    labs = ["A{}{}".format("ABCDEFGHIJ"[i // 10], str(i % 10).rjust(3, "0" if L > 5 else " ") + "0" * (L - 5)) for i in range(n)]
    rows = []
    for s in range(ns):
        data = {k: [q[a] for q in pts] for a, k in enumerate("XYZ") if k in dims}
        for j, k in enumerate(NAMES):
            data[k] = [value(j, s, i) for i in range(n)]
        rows.append((times[s], labs, data))
    return rows


def voxels(ch):
    nx = ch.free("nx", [2, 1, 3])
    ny = ch.free("ny", [1, 2])
    nz = ch.free("nz", [3, 1, 2])
    layer = ch.free("layer", [False, True])
    fmt = ch.free("to", ["vtu", "vtk", "tecplot", "xdmf"])
    src = ch.choose("from", ["csv", "petrasim", "tecplot"])
    w = [[2.0, 0.5, 1.0][:nx], [1.0, 4.0][:ny], [4.0, 1.0, 0.5][:nz]]
    o = ch.choose("origin", [[0.0, 0.0, 0.0], [10.0, -20.0, -100.5], [512000.0, 4000000.0, -3000.5]])
    e = [[o[k] + sum(d[:i]) for i in range(len(d) + 1)] for k, d in enumerate(w)]
    pts = [tuple((e[a][x] + e[a][x + 1]) / 2 for a, x in enumerate(ijk)) for ijk in itertools.product(range(nx), range(ny), range(nz))]
    ndim = sum(len(d) > 1 for d in w)
    how = ch.choose("point order", ["x first", "z first", "reversed", "shuffle", "by layers"])
    if how == "z first":
        pts.sort(key=lambda q: (q[2], q[1], q[0]))
    elif how == "reversed":
        pts = pts[::-1]
    elif how == "shuffle":
        pts = pts[1::2] + pts[::2][::-1]
    elif how == "by layers":
        pts.sort(key=lambda q: (-q[2], q[1], q[0]))
    if ndim == 0:
        return
    dims = "XYZ"
    if ndim < 3 and src != "tecplot" and ch.flag("constant coordinates are not printed"):
        dims = "".join(k for k, d in zip("XYZ", w) if len(d) > 1)
    ns, times = steps_of(ch)
    rows = cloud_rows(ch, pts, ns, times, ch.choose("label length", [5, 7]), dims, None)
    f = write_source(ch, src, rows)
    extra = ["-v"] if ndim > 1 or ch.choose("-v", [True, False]) else []
    extra += ["--origin"] + [repr(x) for x in o] + (["--layer"] if layer else [])
    if src == "tecplot" and ch.flag("mesh is ignored"):
        mf = ch.path("mesh.pickle")
        with open(mf, "w") as g:
            g.write("not a mesh")
        extra += ["-m", mf]
        # with a mesh, Tecplot results are exported as if no mesh was given
    target, k = command(ch, f, fmt, ns, extra)
    # widths of dimensions with a single coordinate are unknown: 1
    for a in range(3):
        if len(w[a]) == 1:
            e[a] = [o[a], o[a] + 1.0]
    boxes = {}
    for i, q in enumerate(pts):
        b = []
        for a in range(3):
            x = [x for x in range(len(e[a]) - 1) if e[a][x] < q[a] < e[a][x + 1]][0] if len(e[a]) > 2 else 0
            b.append((e[a][x], e[a][x + 1]))
        boxes[tuple(b)] = i
    for s, P, got, pd, cd in load(ch, fmt, target, times, k):
        ch.check(len(got) == len(pts) and all(t == "hexahedron" for t, _ in got), "cells {}", got)
        seen = set()
        for c, (t, v) in enumerate(got):
            b = tuple((min(float(P[i][a]) for i in v), max(float(P[i][a]) for i in v)) for a in range(3))
            hit = [i for bb, i in boxes.items() if all(abs(x - y) < 1e-9 for u, w2 in zip(b, bb) for x, y in zip(u, w2))]
            ch.check(len(hit) == 1, "cell {} is {}", c, b)
            i = hit[0]
            seen.add(i)
            for j, a in enumerate(NAMES):
                ch.check(a in cd and O.same(cd[a][c], value(j, s, i), 1e-9), "step {}: {} of the cell at {} is {} instead of {}", s, a, pts[i], cd.get(a, {c: None})[c], value(j, s, i))
        ch.check(len(seen) == len(pts), "cells are missing")
    ch.state((pts, layer, fmt, src, k, dims))


CLOUDS = {
    "xy": [(0.0, 0.0, 5.0), (1.0, 0.25, 5.0), (2.0, 0.0, 5.0), (0.5, 1.0, 5.0), (1.5, 1.5, 5.0)],
    "xz": [(0.0, 2.0, -1.0), (1.0, 2.0, -1.5), (2.0, 2.0, -1.0), (0.5, 2.0, -3.0)],
    "yz": [(7.0, 0.0, -1.0), (7.0, 1.0, -1.5), (7.0, 2.0, -1.0), (7.0, 0.5, -3.0)],
    "xyz": [(0.0, 0.0, 0.0), (1.0, 0.0, 0.125), (0.0, 1.0, 0.25), (1.0, 1.0, 0.5), (0.25, 0.5, 1.0), (0.5, 0.25, -2.0)],
}


def cloud(ch):
    name = ch.free("cloud", list(CLOUDS))
    fmt = ch.free("to", ["vtk", "vtu", "tecplot", "xdmf"])
    src = ch.free("from", ["csv", "petrasim", "tecplot"])
    pts = list(CLOUDS[name])
    how = ch.choose("point order", ["as is", "reversed", "rotated"])
    pts = pts[::-1] if how == "reversed" else pts[1:] + pts[:1] if how == "rotated" else pts
    dims = "XYZ"
    if len(name) < 3 and src != "tecplot" and ch.flag("constant coordinates are not printed"):
        dims = name.upper()
    ns, times = steps_of(ch)
    rows = cloud_rows(ch, pts, ns, times, ch.choose("label length", [5, 7]), dims, None)
    f = write_source(ch, src, rows)
    extra = []
    if src == "tecplot" and ch.flag("mesh is ignored"):
        mf = ch.path("mesh.pickle")
        with open(mf, "w") as g:
            g.write("not a mesh")
        extra = ["-m", mf]
    target, k = command(ch, f, fmt, ns, extra)
    axes = ["xyz".index(a) for a in name]
    want = [[q[a] for a in axes] for q in pts]
    for s, P, got, pd, cd in load(ch, fmt, target, times, k):
        ch.check(len(P) == len(pts), "{} points", len(P))
        for i in range(len(pts)):
            g = [float(x) for x in P[i]]
            ch.check(all(O.same(a, b, 1e-9) for a, b in zip(g, want[i] + [0.0])), "point {} is {} instead of {}", i, g, want[i])
            for j, a in enumerate(NAMES):
                ch.check(a in pd and O.same(pd[a][i], value(j, s, i), 1e-9), "step {}: {} at {} is {} instead of {}", s, a, pts[i], pd.get(a, {i: None})[i], value(j, s, i))
        ch.check({v for _, c in got for v in c} == set(range(len(pts))), "points are not all in cells")
        ch.check({t for t, _ in got} == {"triangle" if len(name) < 3 else "tetra"} or fmt == "tecplot", "cells are {}", {t for t, _ in got})
    ch.state((name, fmt, src, k, want))


def many(ch):
    """Many cells or steps."""
    what = ch.free("without / with a mesh", ["mesh", "voxelize", "steps"])
    n = ch.free("size", Z.sizes(ch.tier, (129 if what == "steps" else 513) * (1 if ch.tier == "quick" else 8), what == "mesh"))
    fmt = "xdmf" if what == "steps" else ch.free("to", ["vtk", "vtu", "tecplot", "xdmf"])
    k, ns = (2, n) if what == "steps" else (n, 2)
    times = [100.0 * (s + 1) for s in range(ns)]
    p, c = M.strip("hexahedron", k)
    cen = [M.mean([p[i] for i in x]) for _, x in c] if what != "voxelize" else [(i + 0.5, j + 0.5, 0.5) for i in range(k) for j in range(2)]
    perm = sorted(range(len(cen)), key=lambda i: (i * 7919) % 100003)
    m = M.build(p, [("hexahedron", [x for _, x in c])])
    labs = [str(x) for x in m.labels] if what != "voxelize" else Z.labels(len(cen))
    rows = [(t, [labs[i] for i in perm], dict([(a, [cen[i][j] for i in perm]) for j, a in enumerate("XYZ")] + [(a, [value(j, s % 50, i) for i in perm]) for j, a in enumerate(NAMES)])) for s, t in enumerate(times)]
    f, o = write_source(ch, "csv", rows), ch.path("vis" + EXT[fmt])
    argv = [f, "-o", o, "-f", fmt]
    if what == "voxelize":
        argv += ["-v", "--origin", "0.0", "0.0", "0.0"]
    else:
        m.write(ch.path("mesh.pickle"))
        argv += ["-m", ch.path("mesh.pickle")]
    ch.call("toughio-export", toughio._cli.export, argv)
    for s, P, got, pd, cd in load(ch, fmt, o, times, ns - 1):
        ch.check(len(got) == len(cen), "{} cells instead of {}", len(got), len(cen))
        where = {tuple(round(x, 6) for x in q): i for i, q in enumerate(cen)}
        for j, (t, x) in enumerate(got):
            i = where.get(tuple(round(float(y), 6) for y in np.asarray(P)[list(x)].mean(axis=0)))
            ch.check(i is not None and all(O.same(cd[a][j], value(q, s % 50, i), 1e-9) for q, a in enumerate(NAMES)), "step {}: values of cell {} are wrong", s, j)
    ch.state((what, n, fmt))


def refuse(ch):
    why, err = ch.free("reason", [("no results", ValueError), ("no mesh", ValueError), ("no origin", ValueError), ("short origin", ValueError), ("1D without origin", ValueError), ("1D short origin", ValueError), ("time step", ValueError),
                                  ("negative time step", ValueError), ("no coordinates", ValueError), ("mesh cannot be read", ValueError), ("not a full grid", ValueError), ("origin inside", ValueError)])
    fmt = ch.free("to", ["vtk", "vtu", "tecplot", "xdmf"])
    pts = [(0.5, 0.5, -z) for z in (0.5, 1.5)] if why.startswith("1D") else [(x, 0.5, z) for x in (0.5, 1.5) for z in (-0.5, -1.5)]
    if why == "not a full grid":
        pts = pts[:-1]
    rows = cloud_rows(ch, pts, 2, [0.0, 1.0], 5, "" if why == "no coordinates" else "XYZ", None)
    f = write_source(ch, "csv", rows)
    o = ch.path("vis" + EXT[fmt])
    extra = {"no mesh": ["-m", ch.path("none.pickle")], "no origin": ["-v"], "short origin": ["-v", "--origin", "0.0", "1.0"], "1D short origin": ["--origin", "0.0"], "time step": ["-t", "2"], "negative time step": ["-t", "-3"],
             "mesh cannot be read": ["-m", f], "not a full grid": ["-v", "--origin", "0.0", "0.0", "-2.0"], "origin inside": ["-v", "--origin", "0.0", "0.0", "-1.0"]}.get(why, [])
    if why == "no results":
        os.unlink(f)
    if fmt == "xdmf" and "time step" in why:
        return
    with open(o, "w") as g:
        g.write("precious\n")
    ch.raises("toughio-export", (err,), toughio._cli.export, [f, "-o", o, "-f", fmt] + extra)
    ch.check(open(o).read() == "precious\n", "the refused command wrote its target")
    ch.state((why, fmt))


def drivers(tier):
    b = 2 if tier == "quick" else 4
    return [Driver("mesh", with_mesh, b + 1, "with a mesh"), Driver("voxelize", voxels, b, "without a mesh, cells rebuilt from their centers"), Driver("triangulate", cloud, b + 1, "without a mesh, points"), Driver("refuse", refuse, 0), Driver("many", many, 0, "many cells or steps", cpu=120)]
