"""Interpolating cell data to points and point data to cells."""
import numpy as np

from ..engine import Driver
from .. import long as Z
from .. import mesh_common as M

ASSUMPTIONS = ["every point belongs to a cell; tolerance 1e-9"]

TOPO = ["tower", "tower and pair", "2x2x2", "6 tetras", "6 pyramids", "wedge+tetra", "hexahedron", "2 hexahedra"]


def value(ch, label, n, kind):
    if kind == "constant":
        return [4.5] * n
    if kind == "vector":
        return [[float(i), 10.0 - i * i, 1e6 * i] for i in range(n)]
    if kind == "tensor":
        return [[[float(i), 1.0], [2.0 - i, 0.5 * i * i]] for i in range(n)]
    if kind == "one column":
        return [[float(i * i)] for i in range(n)]
    if kind == "bytes":  # sums do not fit in their type
        return np.array([200 + (7 * i) % 50 for i in range(n)], dtype=np.uint8)
    if kind == "integers":
        return [(7 * i) % 5 for i in range(n)]
    if kind == "spike":
        k = ch.choose("spike in " + label, list(range(min(n, 5))))
        return [1e5 if i == k else -1.0 for i in range(n)]
    return [float(i) * 1.25 - 3.0 for i in range(n)]


KINDS = ["ramp", "constant", "vector", "integers", "spike", "tensor", "one column", "bytes"]


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * (1.0 + np.abs(b))))


def interp(ch):
    p, blocks = M.topology(ch, TOPO)
    used = sorted({i for _, c in M.flat(blocks) for i in c})
    if len(used) < len(p):
        return
    p, tr = M.transform(ch, p, ["identity", "scale", "rotate", "shear"])
    cells = M.flat(blocks)
    n, npt = len(cells), len(p)
    which = ch.free("direction", ["cells to points", "points to cells", "there and back"])
    c1 = value(ch, "cell data", n, ch.choose("cell data", KINDS))
    p1 = value(ch, "point data", npt, ch.choose("point data", KINDS))
    clash = ch.flag("same name")
    m = M.build(p, blocks, how=M.arrays(ch, ["floats, int64", "coordinates int32", "cells uint64", "read-only"]), cell_data={"c": np.array(c1), "material": np.ones(n, dtype=int)}, point_data={("c" if clash else "p"): np.array(p1)})
    pts, cls = M.snap(np.asarray(m.points)), [(c.type, M.snap(np.asarray(c.data))) for c in m.cells]
    vol = [M.volume(p, c) for c in cells]

    def topoint(v):
        v = np.asarray(v, dtype=float)
        out = []
        for i in range(npt):
            ks = [k for k in range(n) if i in cells[k][1]]
            out.append(sum(v[k] * vol[k] for k in ks) / sum(vol[k] for k in ks))
        return out

    def tocell(v):
        v = np.asarray(v, dtype=float)
        return [sum(v[i] for i in c) / len(c) for _, c in cells]

    if which != "points to cells":
        ch.call("cell_data_to_point_data", m.cell_data_to_point_data)
        ch.check(m.cell_data == {}, "cell data remain: {}", list(m.cell_data))
        ch.check(set(m.point_data) == {"c", "p", "material"} - ({"p"} if clash else set()), "point data are {}", list(m.point_data))
        ch.check(close(m.point_data["c"], topoint(c1)), "interpolated {} instead of {}", m.point_data["c"], topoint(c1))
        ch.check(close(m.point_data["material"], [1.0] * npt), "a constant became {}", m.point_data["material"])
        if not clash:
            ch.check(close(m.point_data["p"], p1), "existing point data changed")
        ch.state(M.snap(m.point_data))
    if which == "points to cells":
        ch.call("point_data_to_cell_data", m.point_data_to_cell_data)
        ch.check(m.point_data == {}, "point data remain: {}", list(m.point_data))
        k = "c" if clash else "p"
        ch.check(set(m.cell_data) == {"c", "material", k}, "cell data are {}", list(m.cell_data))
        ch.check(close(m.cell_data[k], tocell(p1)), "interpolated {} instead of {}", m.cell_data[k], tocell(p1))
        ch.check(close(m.cell_data["material"], [1] * n), "materials changed")
        if not clash:
            ch.check(close(m.cell_data["c"], c1), "existing cell data changed")
        ch.state(M.snap(m.cell_data))
    if which == "there and back":
        ch.call("point_data_to_cell_data", m.point_data_to_cell_data)
        ch.check(close(m.cell_data["c"], tocell(topoint(c1))), "interpolated back {} instead of {}", m.cell_data["c"], tocell(topoint(c1)))
        ch.check(m.point_data == {}, "point data remain")
        ch.state(M.snap(m.cell_data))
    ch.check(M.snap(np.asarray(m.points)) == pts and [(c.type, M.snap(np.asarray(c.data))) for c in m.cells] == cls, "interpolation moved points or cells")


def many(ch):
    """Many cells."""
    kind = ch.free("cells", ["hexahedron", "mixed", "tetra", "fan"])
    n = ch.free("size", Z.sizes(ch.tier, 1025 * (1 if ch.tier == "quick" else 5), kind == "hexahedron"))
    p, c = M.strip(kind, n)
    blocks = M.group(c, True)
    cells = M.flat(blocks)
    n = len(cells)
    v = [float((i * 37) % 101) for i in range(n)]
    w = [float((i * 53) % 97) for i in range(len(p))]
    m = M.build(p, blocks, cell_data={"c": np.array(v)}, point_data={"p": np.array(w)})
    if ch.free("direction", ["cells to points", "points to cells"]) == "cells to points":
        ch.call("cell_data_to_point_data", m.cell_data_to_point_data)
        up, down = [0.0] * len(p), [0.0] * len(p)
        for x, cell in zip(v, cells):
            vol = M.volume(p, cell)
            for i in cell[1]:
                up[i] += x * vol
                down[i] += vol
        ch.check(close(m.point_data["c"], [a / b for a, b in zip(up, down)]) and close(m.point_data["p"], w), "interpolated point data are wrong")
    else:
        ch.call("point_data_to_cell_data", m.point_data_to_cell_data)
        ch.check(close(m.cell_data["p"], [sum(w[i] for i in x) / len(x) for _, x in cells]) and close(m.cell_data["c"], v), "interpolated cell data are wrong")
    ch.state((kind, n))


def drivers(tier):
    return [Driver("many", many, 0, "many cells", cpu=120), Driver("interpolate", interp, 4 if tier == "quick" else 5)]
