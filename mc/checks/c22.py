"""Structured grids, voxelized and triangulated point clouds."""
import itertools

import numpy as np
import toughio

from ..engine import Driver
from .. import long as Z
from .. import mesh_common as M

ASSUMPTIONS = ["spacings and coordinates that are exact in binary; clouds to triangulate are in general enough position (small integer sets)"]

DXS = [[1.0], [2.0, 0.5], [1.0, 4.0, 0.25], [1, 2], [100, 200, 50], [0.5, 0.5, 0.5, 3.0]]


def boxes(dx, dy, dz, origin):
    e = [[origin[k] + s for s in itertools.accumulate(d, initial=0)] for k, d in enumerate((dx, dy, dz))]
    return e


def order3(nx, ny, nz, layer):
    if layer:
        return [(i, j, k) for k in range(nz - 1, -1, -1) for j in range(ny) for i in range(nx)]
    return [(i, j, k) for i in range(nx) for j in range(ny) for k in range(nz - 1, -1, -1)]


def check_grid3(ch, m, e, layer, material="dfalt", tol=(0.0, 0.0, 0.0)):
    nx, ny, nz = (len(x) - 1 for x in e)
    ch.check(m.n_points == (nx + 1) * (ny + 1) * (nz + 1), "{} points", m.n_points)
    ch.check(len({tuple(p) for p in np.asarray(m.points).tolist()}) == m.n_points, "points are not unique")
    ch.check([c.type for c in m.cells] == ["hexahedron"] and m.n_cells == nx * ny * nz, "cells are {}", [(c.type, len(c.data)) for c in m.cells])
    pts = np.asarray(m.points).tolist()
    for c, (i, j, k) in zip(m.cells[0].data.tolist(), order3(nx, ny, nz, layer)):
        ps = [pts[v] for v in c]
        want = [(e[0][i + a], e[1][j + b], e[2][k + g]) for a, b, g in [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]]
        ok = len({tuple(p) for p in ps}) == 8 and all(any(all(abs(x - y) <= t for x, y, t in zip(p, w, tol)) for p in ps) for w in want)
        ch.check(ok, "cell ({}, {}, {}) has corners {}", i, j, k, ps)
        det = M.dot(M.sub(ps[1], ps[0]), M.cross(M.sub(ps[3], ps[0]), M.sub(ps[4], ps[0])))
        ch.check(det > 0, "cell ({}, {}, {}) is not oriented: {}", i, j, k, ps)
    vol = [(e[0][i + 1] - e[0][i]) * (e[1][j + 1] - e[1][j]) * (e[2][k + 1] - e[2][k]) for i, j, k in order3(nx, ny, nz, layer)]
    got = ch.call("volumes", lambda: m.volumes)
    ch.check(all(M.close(float(a), b, 1e-7 if any(tol) else 1e-9, 0) for a, b in zip(got, vol)), "volumes {} instead of {}", got, vol)
    mats = [str(x) for x in ch.call("materials", lambda: m.materials)]
    ch.check(mats == [material] * m.n_cells, "materials {}", mats)
    ijk = order3(nx, ny, nz, layer)
    ind = {x: n for n, x in enumerate(ijk)}
    conn = ch.call("connections", lambda: m.connections)
    for n, (i, j, k) in enumerate(ijk):
        want = sorted(ind[x] for x in ((i + 1, j, k), (i - 1, j, k), (i, j + 1, k), (i, j - 1, k), (i, j, k + 1), (i, j, k - 1)) if x in ind)
        ch.check(sorted(int(x) for x in conn[n] if x >= 0) == want, "cell ({}, {}, {}) is connected to {}", i, j, k, conn[n])


def arg(ch, label, v):
    return ch.choose(label, [list, tuple, np.array, small])(v)


def small(v):
    """In the smallest type that holds the numbers: sums may need a larger one."""
    a = np.asarray(v)
    if not np.all(a == np.round(a)):
        return a.astype(np.float32) if np.all(a.astype(np.float32) == a) else a
    if np.any(np.abs(a) >= 2 ** 15):
        return a
    return a.astype(np.uint8) if np.all(a >= 0) and np.all(a < 256) else a.astype(np.int16)


def grid3(ch):
    dx = ch.free("dx", DXS)
    dy = ch.free("dy", DXS[:4])
    dz = ch.free("dz", DXS[:3])
    layer = ch.free("layer", [False, True])
    origin = ch.choose("origin", [None, [10.0, -20.0, -100.5], (0, 0, 0), np.array([1.0, 2.0, 3.0])])
    material = ch.choose("material", ["dfalt", "ROCK1"])
    o = origin if origin is not None else (0.0, 0.0, -float(sum(dz)))
    a = [arg(ch, n, v) for n, v in (("dx as", dx), ("dy as", dy), ("dz as", dz))]
    before = M.snap(a)
    kw = {} if origin is None and ch.flag("defaults") else {"origin": origin}
    if material != "dfalt":
        kw["material"] = material
    m = ch.call("structured_grid", toughio.meshmaker.structured_grid, *a, layer=layer, **kw)
    ch.check(M.snap(a) == before, "structured_grid modified its arguments")
    check_grid3(ch, m, boxes(dx, dy, dz, o), layer, material)
    ch.state(M.snap(m))


def grid2(ch):
    dx = ch.free("dx", DXS)
    dy = ch.free("dy", DXS)
    layer = ch.free("layer", [False, True])
    origin = ch.choose("origin", [None, [10.0, -20.0], (0.5, 0.25)])
    o = origin if origin is not None else (0.0, 0.0)
    m = ch.call("structured_grid", toughio.meshmaker.structured_grid, arg(ch, "dx as", dx), arg(ch, "dy as", dy), origin=origin, layer=layer)
    nx, ny = len(dx), len(dy)
    ex = [o[0] + sum(dx[:i]) for i in range(nx + 1)]
    ey = [o[1] + sum(dy[:i]) for i in range(ny + 1)]
    pts = np.asarray(m.points).tolist()
    ch.check(len(pts) == (nx + 1) * (ny + 1) == len({tuple(p) for p in pts}), "{} points", len(pts))
    ch.check([c.type for c in m.cells] == ["quad"] and m.n_cells == nx * ny, "cells are {}", m.cells)
    order = [(i, j) for j in range(ny) for i in range(nx)] if layer else [(i, j) for i in range(nx) for j in range(ny)]
    for c, (i, j) in zip(m.cells[0].data.tolist(), order):
        want = [(ex[i], ey[j], 0.0), (ex[i + 1], ey[j], 0.0), (ex[i + 1], ey[j + 1], 0.0), (ex[i], ey[j + 1], 0.0)]
        ps = [tuple(pts[v]) for v in c]
        k = ps.index(want[0]) if want[0] in ps else 0
        ch.check(ps[k:] + ps[:k] == want, "cell ({}, {}) has corners {}", i, j, ps)
    ch.check([str(x) for x in m.materials] == ["dfalt"] * m.n_cells, "materials {}", m.materials)
    ch.state(M.snap(m))


def refuse(ch):
    sg, vx, tr, cg = toughio.meshmaker.structured_grid, toughio.meshmaker.voxelize, toughio.meshmaker.triangulate, toughio.meshmaker.cylindric_grid
    P = [[0.5, 0.5, 0.5], [1.5, 0.5, 0.5]]
    f, a, kw, err = ch.free("call", [
        (sg, (1.0, [1.0]), {}, TypeError), (sg, ([1.0], "a"), {}, TypeError), (sg, ([1.0], [1.0], 3.0), {}, TypeError), (sg, ([1.0], [1.0]), {"origin": [0.0, 0.0, 0.0]}, ValueError),
        (sg, ([1.0], [1.0], [1.0]), {"origin": [0.0, 0.0]}, ValueError), (sg, ([1.0], [1.0], [1.0]), {"material": 1}, TypeError), (sg, ([1.0], [1.0], [1.0]), {"origin": 1.0}, ValueError),
        (vx, ("a", [0, 0, 0]), {}, TypeError), (vx, ([1.0, 2.0], [0, 0, 0]), {}, ValueError), (vx, (P + [[2.5, 1.5, 0.5]], [0, 0, 0]), {}, ValueError), (vx, (P, [0.5, 0, 0]), {}, ValueError), (vx, (P, [1.0, 0, 0]), {}, ValueError),
        (tr, (3,), {}, TypeError), (tr, ([1.0, 2.0],), {}, ValueError), (tr, ([[1.0], [2.0]],), {}, ValueError), (tr, ([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]],), {"material": 1}, TypeError),
        (cg, (1.0, [1.0]), {}, TypeError), (cg, ([1.0], 1.0), {}, TypeError), (cg, ([1.0, 0.0], [1.0]), {}, ValueError), (cg, ([1.0], [-1.0]), {}, ValueError), (cg, ([1.0], [1.0]), {"origin_z": "a"}, TypeError), (cg, ([1.0], [1.0]), {"material": 2}, TypeError)])
    ch.raises(f.__name__, (err,), f, *a, **kw)
    ch.state((f.__name__, repr(a), repr(kw)))


def voxel(ch):
    dx = ch.free("dx", [[2.0, 0.5], [1.0], [1.0, 4.0, 0.25]])
    dy = ch.free("dy", [[1.0], [2.0, 1.0]])
    dz = ch.free("dz", [[4.0, 1.0, 0.5], [1.0], [100, 200]])
    layer = ch.free("layer", [False, True])
    o = ch.choose("origin", [[0.0, 0.0, 0.0], [10.0, -20.0, -100.5]])
    # a single coordinate tells nothing about the width: voxelize makes it 1
    e = [[o[k] + sum(d[:i]) for i in range(len(d) + 1)] for k, d in enumerate((dx, dy, dz))]
    # cells of any size: a nanometer, a third, kilometers
    s = ch.choose("unit", [1.0, 2.0 ** -28, 1.0 / 3.0, 1.1e5])
    if s != 1.0:
        e = [[s * x for x in d] if len(d) > 2 else d for d in e]
    pts = [[(e[0][i] + e[0][i + 1]) / 2, (e[1][j] + e[1][j + 1]) / 2, (e[2][k] + e[2][k + 1]) / 2] for i in range(len(dx)) for j in range(len(dy)) for k in range(len(dz))]
    how = ch.choose("point order", ["x first", "z first", "reversed", "swap ends", "shuffle"])
    if how == "z first":
        pts.sort(key=lambda p: (p[2], p[1], p[0]))
    elif how == "reversed":
        pts = pts[::-1]
    elif how == "swap ends":
        pts[0], pts[-1] = pts[-1], pts[0]
    elif how == "shuffle":
        pts = pts[1::2] + pts[::2][::-1]
    arr = ch.choose("as", [np.array, list, small])(pts)
    before = M.snap(arr)
    m = ch.call("voxelize", toughio.meshmaker.voxelize, arr, ch.choose("origin as", [list, np.array])([d[0] for d in e]), layer=layer)
    ch.check(M.snap(arr) == before, "voxelize modified its arguments")
    check_grid3(ch, m, e, layer, tol=[max(1e-13 * max(abs(x) for x in d), 1e-9 * min(b - a for a, b in zip(d, d[1:]))) for d in e])
    ch.state(M.snap(m))


def hull2(ps):
    ps = sorted(set(ps))

    def half(ps):
        h = []
        for p in ps:
            while len(h) > 1 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]

    h = half(ps) + half(ps[::-1])
    return abs(sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(h, h[1:] + h[:1]))) / 2


GRID = [(float(x), float(y) + (0.125 if x == 1 else 0.0)) for x in range(3) for y in range(3)]


def tri(ch):
    """Every subset of a (slightly skewed) 3x3 cloud that spans an area."""
    sel = [p for p in GRID if ch.free("point {}".format(p), [True, False])]
    if len(sel) < 3 or hull2(sel) == 0:
        return
    m = ch.call("triangulate", toughio.meshmaker.triangulate, ch.choose("as", [np.array, list])(sel))
    ch.check([c.type for c in m.cells] == ["triangle"], "cells are {}", [c.type for c in m.cells])
    ch.check(np.asarray(m.points).tolist() == [list(p) for p in sel], "points changed")
    area = 0.0
    edges = {}
    for c in m.cells[0].data.tolist():
        a, b, d = (sel[v] for v in c)
        area += abs((b[0] - a[0]) * (d[1] - a[1]) - (b[1] - a[1]) * (d[0] - a[0])) / 2
        for e in itertools.combinations(sorted(c), 2):
            edges[e] = edges.get(e, 0) + 1
    ch.check(abs(area - hull2(sel)) < 1e-9, "triangles cover {} of {}", area, hull2(sel))
    ch.check(max(edges.values()) <= 2, "an edge is shared by {} triangles", max(edges.values()))
    ch.check({v for c in m.cells[0].data.tolist() for v in c} == set(range(len(sel))), "points are left out")
    ch.check([str(x) for x in m.materials] == ["dfalt"] * m.n_cells, "materials {}", m.materials)
    ch.state(M.snap(m))


def many(ch):
    """Many cells along an axis, or clouds of many points."""
    what = ch.free("long", ["x", "y", "z", "xy", "voxelize", "quads", "triangulate"])
    n = ch.free("size", Z.sizes(ch.tier, 1025 * (1 if ch.tier == "quick" else 5), what in ("x", "z", "voxelize", "xy", "quads")))
    layer = ch.free("layer", [False, True])
    a = int(n ** 0.5) + 1
    shape = {"x": (n, 1, 2), "y": (1, n, 1), "z": (2, 1, n), "voxelize": (n, 2, 1)}.get(what, (a, a, 1))
    d = [[0.5 * (1 + i % 3) for i in range(k)] for k in shape]
    e = boxes(*d, (0.0, 0.0, 0.0))
    if what == "triangulate":
        # a ring and its center: no four points of the lattice on an empty circle
        pts = [(float(i), (i * i) / (4.0 * n)) for i in range(n)] + [(n / 2.0, 2.0 * n)]
        m = ch.call("triangulate", toughio.meshmaker.triangulate, pts)
        used = {v for c in m.cells for v in c.data.ravel().tolist()}
        A = sum(abs((pts[b][0] - pts[a][0]) * (pts[c][1] - pts[a][1]) - (pts[b][1] - pts[a][1]) * (pts[c][0] - pts[a][0])) / 2 for a, b, c in m.cells[0].data.tolist())
        ch.check(used == set(range(n + 1)) and m.n_points == n + 1, "points are left out")
        ch.check(abs(A - hull2(pts)) < 1e-6 * A, "triangles cover {} of {}", A, hull2(pts))
    elif what == "quads":
        m = ch.call("structured_grid", toughio.meshmaker.structured_grid, d[0], d[1], layer=layer)
        order = [(i, j) for j in range(a) for i in range(a)] if layer else [(i, j) for i in range(a) for j in range(a)]
        pts = np.asarray(m.points).tolist()
        ch.check(m.n_points == (a + 1) ** 2 and m.n_cells == a * a, "{} points, {} cells", m.n_points, m.n_cells)
        for c, (i, j) in zip(m.cells[0].data.tolist(), order):
            ch.check({tuple(pts[v][:2]) for v in c} == {(x, y) for x in e[0][i : i + 2] for y in e[1][j : j + 2]}, "cell ({}, {}) has corners {}", i, j, [pts[v] for v in c])
    elif what == "voxelize":
        c = [[(x + y) / 2 for x, y in zip(k, k[1:])] for k in e]
        pts = [[x, y, z] for x in c[0] for y in c[1] for z in c[2]]
        m = ch.call("voxelize", toughio.meshmaker.voxelize, pts, [0.0, 0.0, 0.0], layer=layer)
        check_grid3(ch, m, [e[0], e[1], [0.0, 1.0]], layer, tol=(1e-9, 1e-9, 1e-9))
    else:
        m = ch.call("structured_grid", toughio.meshmaker.structured_grid, *d, origin=[0.0, 0.0, 0.0], layer=layer)
        check_grid3(ch, m, e, layer)
    ch.state((what, n, layer))


def drivers(tier):
    b = 2 if tier == "quick" else 4
    return [Driver("grid3", grid3, b, what="full product of spacings and orders"), Driver("grid2", grid2, b), Driver("voxelize", voxel, b + 3), Driver("triangulate", tri, b + 1), Driver("refuse", refuse, 0), Driver("many", many, 0, "many cells", cpu=120)]
