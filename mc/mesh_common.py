"""Library of conformal meshes, independent geometry oracle, comparison helpers.

A model mesh is (points, blocks): points is a list of float triples, blocks a list of
(cell type, list of vertex tuples).  Faces are written here as vertex sets of the VTK/meshio
numbering; their orientation, area and normal are derived from the coordinates.
"""
import itertools
import math

import numpy as np
import toughio

FACES = {  # face order of the documented `faces` property: see order_of_faces
    "tetra": [(1, 2, 3), (0, 3, 2), (0, 1, 3), (0, 2, 1)],
    "pyramid": [(0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4), (0, 3, 2, 1)],
    "wedge": [(0, 2, 1), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (0, 3, 5, 2)],
    "hexahedron": [(0, 3, 2, 1), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (0, 4, 7, 3)],
}
NV = {"tetra": 4, "pyramid": 5, "wedge": 6, "hexahedron": 8, "triangle": 3, "quad": 4, "line": 2, "vertex": 1}


# ---------------------------------------------------------------- vector helpers
def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def mul(a, s):
    return tuple(x * s for x in a)


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def norm(a):
    return math.sqrt(dot(a, a))


def mean(ps):
    return tuple(math.fsum(p[k] for p in ps) / len(ps) for k in range(len(ps[0])))


# ---------------------------------------------------------------- oracle
def flat(blocks):
    return [(t, tuple(c)) for t, cs in blocks for c in cs]


def vector_area(ps):
    """Half the sum of cross products around the polygon (any planar polygon)."""
    c = mean(ps)
    s = (0.0, 0.0, 0.0)
    for a, b in zip(ps, ps[1:] + ps[:1]):
        s = add(s, cross(sub(a, c), sub(b, c)))
    return mul(s, 0.5)


def cell_faces(points, cell):
    """[(vertex tuple, center, outward vector area)] of one cell."""
    t, c = cell
    g = mean([points[i] for i in c])
    out = []
    for f in FACES[t]:
        vs = tuple(c[i] for i in f)
        ps = [points[i] for i in vs]
        a = vector_area(ps)
        fc = mean(ps)
        if dot(a, sub(fc, g)) < 0:
            a = mul(a, -1.0)
        out.append((vs, fc, a))
    return out


def volume(points, cell):
    t, c = cell
    g = mean([points[i] for i in c])
    return math.fsum(abs(dot(sub(fc, g), a)) / 3.0 for _, fc, a in cell_faces(points, cell))


def adjacency(points, blocks):
    """{(i, j): face vertices} for every pair i < j of cells that share a face."""
    cells = flat(blocks)
    own = {}
    for i, (t, c) in enumerate(cells):
        for f in FACES[t]:
            own.setdefault(frozenset(c[k] for k in f), []).append(i)
    out = {}
    for s, o in own.items():
        assert len(o) < 3
        if len(o) == 2:
            assert tuple(o) not in out
            out[tuple(o)] = s
    return out


def connection(points, blocks, i, j, shared, cells=None):
    """Reference geometry of a connection between cells i and j."""
    cells = cells or flat(blocks)
    ci = mean([points[k] for k in cells[i][1]])
    cj = mean([points[k] for k in cells[j][1]])
    for vs, fc, a in cell_faces(points, cells[i]):
        if frozenset(vs) == shared:
            break
    area = norm(a)
    n = mul(a, 1.0 / area)
    line = sub(cj, ci)
    L = norm(line)
    t = dot(sub(fc, ci), n) / dot(line, n)
    return dict(area=area, normal=n, line=(abs(t) * L, abs(1.0 - t) * L), orthogonal=(abs(dot(sub(ci, fc), n)), abs(dot(sub(cj, fc), n))),
                beta=-line[2] / L, dir=line, length=L, quality=abs(dot(line, n)) / L)


def close(a, b, rel=1e-9, tol=1e-12):
    return abs(a - b) <= tol + rel * max(abs(a), abs(b))


# ---------------------------------------------------------------- library
def hexgrid(nx, ny, nz, xs=None, ys=None, zs=None):
    xs = xs or [float(i) for i in range(nx + 1)]
    ys = ys or [float(i) for i in range(ny + 1)]
    zs = zs or [float(i) for i in range(nz + 1)]
    ind = lambda i, j, k: i + (nx + 1) * (j + (ny + 1) * k)
    pts = [(xs[i], ys[j], zs[k]) for k in range(nz + 1) for j in range(ny + 1) for i in range(nx + 1)]
    cells = []
    for k in range(nz):
        for j in range(ny):
            for i in range(nx):
                cells.append((ind(i, j, k), ind(i + 1, j, k), ind(i + 1, j + 1, k), ind(i, j + 1, k),
                              ind(i, j, k + 1), ind(i + 1, j, k + 1), ind(i + 1, j + 1, k + 1), ind(i, j + 1, k + 1)))
    return pts, cells


def hex_to_wedges(c):
    return [("wedge", (c[0], c[1], c[2], c[4], c[5], c[6])), ("wedge", (c[0], c[2], c[3], c[4], c[6], c[7]))]


def hex_to_pyramids(c, center):
    return [("pyramid", tuple(c[i] for i in f[::-1]) + (center,)) for f in FACES["hexahedron"]]


KUHN = [(0, 1, 2, 6), (0, 2, 3, 6), (0, 3, 7, 6), (0, 7, 4, 6), (0, 4, 5, 6), (0, 5, 1, 6)]


def hex_to_tetras(c):
    return [("tetra", tuple(c[i] for i in t)) for t in KUHN]


def group(cells, sort):
    """Blocks of a list of (type, vertices): consecutive runs, or gathered by type."""
    if sort:
        order = []
        for t, _ in cells:
            if t not in order:
                order.append(t)
        cells = [c for t in order for c in cells if c[0] == t]
    out = []
    for t, c in cells:
        if out and out[-1][0] == t:
            out[-1][1].append(c)
        else:
            out.append((t, [c]))
    return out


def _single(t):
    P = {"tetra": [(0, 0, 0), (2, 0, 0), (0, 3, 0), (0.5, 0.5, 4)],
         "pyramid": [(0, 0, 0), (2, 0, 0), (2, 3, 0), (0, 3, 0), (1, 2, 5)],
         "wedge": [(0, 0, 0), (2, 0, 0), (0, 3, 0), (0, 0, 4), (2, 0, 4), (0, 3, 4)],
         "hexahedron": [(0, 0, 0), (2, 0, 0), (2, 3, 0), (0, 3, 0), (0, 0, 4), (2, 0, 4), (2, 3, 4), (0, 3, 4)]}[t]
    return P, [(t, tuple(range(len(P))))]


def _grid(nx, ny, nz, **k):
    p, c = hexgrid(nx, ny, nz, **k)
    return p, [("hexahedron", x) for x in c]


def _wedges(nx, ny, nz):
    p, c = hexgrid(nx, ny, nz)
    return p, [w for x in c for w in hex_to_wedges(x)]


def strip(kind, n):
    """
    n hexahedra in a row, whole or cut into wedges or tetrahedra, or every other one cut into wedges.

    "fan": n wedges around an axis that they all share.
    """
    if kind == "fan":
        ring = [(3.0 * math.cos(2 * math.pi * (i + 0.25) / n), 3.0 * math.sin(2 * math.pi * (i + 0.25) / n)) for i in range(n)]
        p = [q + (z,) for z in (0.0, 2.0) for q in [(0.0, 0.0)] + ring]
        base = lambda i: (0, 1 + i, 1 + (i + 1) % n)
        return p, [("wedge", base(i) + tuple(j + n + 1 for j in base(i))) for i in range(n)]
    p, c = hexgrid(n, 1, 1, xs=[0.5 * i + 0.125 * (i % 3) for i in range(n + 1)], zs=[-2.0, 0.0])
    cut = {"hexahedron": lambda i, x: [("hexahedron", x)], "wedge": lambda i, x: hex_to_wedges(x), "tetra": lambda i, x: hex_to_tetras(x),
           "mixed": lambda i, x: hex_to_wedges(x) if i % 2 else [("hexahedron", x)]}[kind]
    return p, [w for i, x in enumerate(c) for w in cut(i, x)]


def _pyramids():
    p, c = hexgrid(1, 1, 1)
    return p + [(0.5, 0.5, 0.5)], hex_to_pyramids(c[0], 8)


def _tetras(nx=1):
    p, c = hexgrid(nx, 1, 1)
    return p, [t for x in c for t in hex_to_tetras(x)]


def _octahedron():
    return [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0.5, 0.5, 1), (0.5, 0.5, -2)], [("pyramid", (0, 1, 2, 3, 4)), ("pyramid", (0, 3, 2, 1, 5))]


def _twotets():
    return [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0.25, 0.25, 1), (0.5, 0.25, -2)], [("tetra", (0, 1, 2, 3)), ("tetra", (0, 2, 1, 4))]


def _tower():
    """Hexahedron, pyramid on top of it, tetrahedron on a pyramid side, wedge on a hexahedron side, and a cell apart."""
    p = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1), (0.5, 0.5, 2), (1.75, 0.5, 1.75), (2, 0.5, 0), (2, 0.5, 1)]
    c = [("hexahedron", tuple(range(8))), ("pyramid", (4, 5, 6, 7, 8)), ("tetra", (5, 6, 8, 9)), ("wedge", (1, 10, 2, 5, 11, 6))]
    return p, c


def _tower2():
    p, c = _tower()
    q, d = _single("hexahedron")
    n = len(p)
    p = p + [add(x, (10.0, 0.0, 0.0)) for x in q]
    q2 = [(14, 0, 0), (14, 3, 0), (14, 0, 4), (14, 3, 4)]
    m = len(p)
    p = p + q2
    a = d[0][1]
    b = tuple(n + i for i in a)
    c2 = ("hexahedron", (b[1], m, m + 1, b[2], b[5], m + 2, m + 3, b[6]))
    return p, [c[0], c[1], ("hexahedron", b), c[2], c2, c[3]]


def _wedge_tet():
    return [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1), (0.25, 0.25, 2)], [("wedge", (0, 1, 2, 3, 4, 5)), ("tetra", (3, 4, 5, 6))]


LIB = {
    "tetra": lambda: _single("tetra"),
    "pyramid": lambda: _single("pyramid"),
    "wedge": lambda: _single("wedge"),
    "hexahedron": lambda: _single("hexahedron"),
    "2 tetras": _twotets,
    "2 pyramids": _octahedron,
    "2 wedges": lambda: _wedges(1, 1, 1),
    "2 hexahedra": lambda: _grid(2, 1, 1, xs=[0.0, 1.0, 3.5]),
    "wedge+tetra": _wedge_tet,
    "6 pyramids": _pyramids,
    "6 tetras": _tetras,
    "tower": _tower,
    "tower and pair": _tower2,
    "4 wedges": lambda: _wedges(1, 1, 2),
    "2x2x2": lambda: _grid(2, 2, 2, xs=[0.0, 1.0, 3.0], ys=[-1.0, 0.5, 1.0], zs=[-3.0, -1.0, 0.0]),
    "graded": lambda: _grid(3, 2, 1, xs=[0.0, 1.0e-6, 1.0, 1.0e6], ys=[0.0, 1.0e-4, 1.0e4]),
    "12 tetras": lambda: _tetras(2),
    "3x2x1": lambda: _grid(3, 2, 1),
}
CONNECTED = [k for k in LIB if k not in ("tetra", "pyramid", "wedge", "hexahedron")]

TRANSFORMS = {
    "identity": lambda p: p,
    "scale": lambda p: (2.0 * p[0] + 7.0, 3.0 * p[1] - 5.0, 0.5 * p[2] - 100.0),
    "rotate z": lambda p: (0.6 * p[0] - 0.8 * p[1], 0.8 * p[0] + 0.6 * p[1], p[2]),
    "rotate": lambda p: (0.6 * p[0] - 0.8 * p[2], p[1], 0.8 * p[0] + 0.6 * p[2]),
    "swap": lambda p: (p[1], p[2], p[0]),
    "shear": lambda p: (p[0] + 0.5 * p[1] + 0.25 * p[2], p[1] + 0.125 * p[2], p[2]),
    "projective": lambda p: tuple(x / (1.0 + 0.03125 * p[2] + 0.0625 * p[0]) for x in p),
    "large": lambda p: (1.0e4 * p[0] + 5.0e5, 1.0e4 * p[1] + 4.0e6, 1.0e2 * p[2] - 2.0e3),
    "mirror": lambda p: (-p[0], p[1], p[2]),
    "tiny": lambda p: (2.0e-6 * p[0], 1.0e-6 * p[1] - 3.0e-6, 1.0e-6 * p[2]),
}

ROT = {  # orientation-preserving renumberings of each cell type
    "tetra": [(0, 1, 2, 3), (1, 2, 0, 3), (0, 2, 3, 1), (3, 1, 0, 2), (1, 0, 3, 2)],
    "pyramid": [(0, 1, 2, 3, 4), (1, 2, 3, 0, 4), (3, 0, 1, 2, 4)],
    "wedge": [(0, 1, 2, 3, 4, 5), (1, 2, 0, 4, 5, 3), (3, 5, 4, 0, 2, 1)],
    "hexahedron": [tuple(range(8)), (1, 2, 3, 0, 5, 6, 7, 4), (0, 4, 5, 1, 3, 7, 6, 2), (4, 7, 6, 5, 0, 3, 2, 1), (6, 5, 4, 7, 2, 1, 0, 3)],
}


def ints(p):
    return [tuple(float(x) for x in q) for q in p]


def topology(ch, names=None, renumber=True, label="mesh"):
    name = ch.free(label, list(names or LIB))
    p, c = LIB[name]()
    p = ints(p)
    c = [(t, tuple(v)) for t, v in c]
    if renumber:
        how = ch.choose("point numbers", ["as is", "reversed", "unused point first"])
        if how == "reversed":
            n = len(p)
            p = p[::-1]
            c = [(t, tuple(n - 1 - i for i in v)) for t, v in c]
        elif how == "unused point first":
            p = [(-50.0, 30.0, 20.0)] + p
            c = [(t, tuple(i + 1 for i in v)) for t, v in c]
        how = ch.choose("cell order", ["as is", "reversed", "rotated"])
        c = c[::-1] if how == "reversed" else c[1:] + c[:1] if how == "rotated" else c
        for k in sorted({0, len(c) - 1}):
            r = ch.choose("vertex order of cell {}".format(k), ROT[c[k][0]])
            c[k] = (c[k][0], tuple(c[k][1][i] for i in r))
        sort = ch.choose("blocks", ["runs", "by type", "one cell each"])
    else:
        sort = "by type"
    blocks = [(t, [v]) for t, v in c] if sort == "one cell each" else group(c, sort == "by type")
    return p, blocks


def transform(ch, p, names=None):
    tr = ch.choose("transform", list(names or TRANSFORMS))
    return [TRANSFORMS[tr](q) for q in p], tr


ARRAYS = ["floats, int64", "coordinates in lists", "coordinates int64", "coordinates int32", "cells int32", "cells uint64", "cells uint8", "Fortran order", "strided", "read-only"]


def arrays(ch, names=None):
    """How the coordinates and the connectivity are stored."""
    return ch.choose("arrays", list(names or ARRAYS))


def build(points, blocks, cls=None, how=None, **kw):
    p = np.array(points, dtype=float)
    c = [np.array(c) for _, c in blocks]
    if how == "coordinates in lists":
        p = p.tolist()
    elif how in ("coordinates int64", "coordinates int32") and (p == np.round(p)).all() and (abs(p) < 2 ** 31).all():
        p = p.astype(how.split()[1])
    elif how in ("cells int32", "cells uint64", "cells uint8"):
        c = [x.astype(how.split()[1]) if how != "cells uint8" or x.max() < 256 else x for x in c]
    elif how == "Fortran order":
        p, c = np.asfortranarray(p), [np.asfortranarray(x) for x in c]
    elif how == "strided":
        p, c = np.repeat(p, 2, axis=0)[::2], [np.repeat(x, 2, axis=1)[:, ::2] for x in c]
    elif how == "read-only":
        p.flags.writeable = False
        for x in c:
            x.flags.writeable = False
    return (cls or toughio.Mesh)(p, [(t, x) for (t, _), x in zip(blocks, c)], **kw)


# ---------------------------------------------------------------- snapshots
def snap(x):
    if isinstance(x, toughio.Mesh):
        return ("mesh", snap(np.asarray(x.points)), [(c.type, snap(np.asarray(c.data))) for c in x.cells], snap(x.point_data), snap(x.cell_data), snap(x.field_data),
                snap(x.point_sets), snap(x.cell_sets), x.label_length)
    if isinstance(x, np.ndarray):
        return (x.shape, x.dtype.kind, x.tolist())
    if isinstance(x, dict):
        return [(str(k), snap(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [snap(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    return x if isinstance(x, (int, float, str, bool, type(None))) else repr(x)


def eq(a, b):
    """Equality where nan equals nan."""
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b and (isinstance(a, str) == isinstance(b, str))
