"""Extruding 2D meshes."""
import itertools

import numpy as np
import toughio

from ..engine import Driver
from .. import long as Z
from .. import mesh_common as M

ASSUMPTIONS = ["2D meshes of triangles and quadrilaterals (plus edges and vertices, which extrusion drops)"]

P2 = [(0.0, 0.0), (2.0, 0.0), (2.0, 3.0), (0.0, 3.0), (5.0, 1.0), (1.0, 5.0), (10.0, 0.0), (12.0, 0.0), (12.0, 3.0), (10.0, 3.0)]
CELLS = {
    "triangle": [("triangle", [(1, 4, 2)])],
    "quad": [("quad", [(0, 1, 2, 3)])],
    "both": [("quad", [(0, 1, 2, 3)]), ("triangle", [(1, 4, 2), (3, 2, 5)])],
    "both, triangles first": [("triangle", [(1, 4, 2)]), ("quad", [(0, 1, 2, 3)]), ("triangle", [(3, 2, 5)])],
    "with edges": [("line", [(0, 1), (1, 4)]), ("quad", [(0, 1, 2, 3)]), ("triangle", [(1, 4, 2)])],
    "decreasing": [("quad", [(6, 7, 8, 9), (0, 1, 2, 3)]), ("triangle", [(3, 2, 5), (1, 4, 2)])],
    "shuffled": [("triangle", [(1, 4, 2), (7, 6, 9), (3, 2, 5)])],
    "edges last": [("triangle", [(1, 4, 2), (3, 2, 5)]), ("vertex", [(0,)]), ("line", [(0, 1)])],
}
VN = {"triangle": "wedge", "quad": "hexahedron"}


def extrude(ch):
    blocks = CELLS[ch.free("cells", list(CELLS))]
    axis = ch.free("axis", [2, 0, 1])
    dim = ch.choose("points", [2, 3])
    off = ch.choose("offset", [0.0, 7.5]) if dim == 3 else 0.0
    hs = ch.choose("height", [1.0, [2.0, 0.5], 4, (1.0, 2.0, 0.25), np.array([3.0, 1.0]), [5.0], -2.0])
    inplace = ch.choose("inplace", [True, False, "default"])
    others = [k for k in range(3) if k != axis]
    # toughio moves the last column of a 2D mesh out of the way of the axis
    where = {2: (0, 1), 1: (0, 2), 0: (2, 1)}[axis]
    flat = []
    for p in P2:
        q = [off] * 3
        q[where[0]], q[where[1]] = p
        flat.append(tuple(q))
    pts = P2 if dim == 2 else flat
    n2 = sum(len(c) for _, c in blocks)
    cd = {"material": np.arange(1, n2 + 1), "v": np.arange(3 * n2, dtype=float).reshape(n2, 3), "k": np.arange(6.0 * n2).reshape(n2, 2, 3)}
    pd = {"t": np.arange(len(P2)) * 1.5, "w": np.arange(2.0 * len(P2)).reshape(len(P2), 2), "k": np.arange(6.0 * len(P2)).reshape(len(P2), 3, 2)}
    dim0 = ch.choose("dimension of field data", [2, 3])
    fd = {n: np.array([i + 1, dim0]) for i, n in enumerate(["rock", "sand"] + ["rock{}".format(i) for i in range(3, n2 + 1)])}
    # ids are only unique in each dimension
    edges = ch.choose("names of edges", ["none", "first", "last"])
    ed = {"edge": np.array([1, 1]), "border": np.array([2, 1])} if edges != "none" else {}
    fd = dict(list(ed.items()) + list(fd.items())) if edges == "first" else dict(list(fd.items()) + list(ed.items()))
    names = {int(v[0]): k for k, v in fd.items() if k not in ed}
    m = M.build(pts, blocks, how=M.arrays(ch), cell_data=cd, point_data=pd, field_data=fd)
    # a set holding the last cell of the last block, and a set of points
    m.cell_sets = {"s": [np.array([len(c) - 1] if k == len(blocks) - 1 else [], dtype=int) for k, (_, c) in enumerate(blocks)]}
    m.point_sets = {"p": np.array([2, 0])}
    before = M.snap(m)
    kw = {} if inplace == "default" else {"inplace": inplace}
    if not (isinstance(hs, float) and hs == 1.0 and ch.flag("default height")):
        kw["height"] = hs
    if axis != 2 or ch.flag("axis given"):
        kw["axis"] = axis
    out = ch.call("extrude_to_3d", m.extrude_to_3d, **kw)
    if inplace is False:
        ch.check(M.snap(m) == before, "extruding with inplace=False modified the mesh")
        g = out
    else:
        ch.check(out is None, "extruding in place returned {}", type(out))
        g = m
    H = [float(h) for h in (hs if np.ndim(hs) else [hs])]
    lev = [off]
    for h in H:
        lev.append(lev[-1] + h)
    kept = [(t, c, 1 + sum(len(x[1]) for x in blocks[:k])) for k, (t, c) in enumerate(blocks) if t in VN]
    gp = [tuple(p) for p in np.asarray(g.points).tolist()]
    ch.check(len(gp) == len(P2) * len(lev), "{} points", len(gp))
    index = {}
    for i, q in enumerate(flat):
        for z in lev:
            w = list(q)
            w[axis] = z
            ch.check(gp.count(tuple(w)) == 1, "point {} of the extruded mesh is missing or repeated", w)
            j = gp.index(tuple(w))
            index[i, z] = j
            ch.check(np.shape(g.point_data["k"]) == (len(gp), 3, 2) and np.ravel(g.point_data["k"][j]).tolist() == [6.0 * i + x for x in range(6)], "tensors of points are {}", g.point_data["k"])
            ch.check(float(g.point_data["t"][j]) == 1.5 * i and list(map(float, g.point_data["w"][j])) == [2.0 * i, 2.0 * i + 1], "point data of {} are {} {}", w, g.point_data["t"][j], g.point_data["w"][j])
    want = {}
    for t, cs, first in kept:
        for k, c in enumerate(cs):
            for a, b in zip(lev, lev[1:]):
                want[frozenset([index[i, a] for i in c] + [index[i, b] for i in c])] = (VN[t], first + k)
    got = M.flat([(c.type, [tuple(x) for x in c.data.tolist()]) for c in g.cells])
    ch.check(len(got) == len(want) and {frozenset(c) for _, c in got} == set(want), "cells {} instead of {}", got, want)
    inorder = [frozenset([index[i, a] for i in c] + [index[i, b] for i in c]) for t, cs, _ in kept for a, b in zip(lev, lev[1:]) for c in cs]
    ch.check([frozenset(c) for _, c in got] == inorder, "cells are not listed layer after layer: {}", got)
    ch.check(len(g.cell_data["material"]) == len(g.cell_data["v"]) == len(got), "{} cells have {} materials", len(got), len(g.cell_data["material"]))
    vols = ch.call("volumes", lambda: g.volumes)
    ch.check(np.shape(g.cell_data["k"]) == (len(got), 2, 3), "tensors of cells are {}", g.cell_data["k"])
    for n, (t, c) in enumerate(got):
        wt, mat = want[frozenset(c)]
        ch.check(t == wt, "cell {} is a {}", c, t)
        ch.check(int(g.cell_data["material"][n]) == mat and list(map(float, g.cell_data["v"][n])) == [3.0 * (mat - 1) + x for x in range(3)] and np.ravel(g.cell_data["k"][n]).tolist() == [6.0 * (mat - 1) + x for x in range(6)], "cell {} has material {} instead of {}", c, g.cell_data["material"][n], mat)
        # a valid prism: both bases and its sides are the extruded polygon
        nb = len(c) // 2
        base = [gp[i] for i in c[:nb]]
        top = [gp[i] for i in c[nb:]]
        ch.check(all(x[o] == y[o] for x, y in zip(base, top) for o in others) and len({x[axis] for x in base}) == len({x[axis] for x in top}) == 1, "cell {} is not a prism: {} {}", c, base, top)
        v = M.volume(gp, (t, c))
        ch.check(M.close(float(vols[n]), v), "volume of cell {} is {} instead of {}", c, vols[n], v)
    ch.check(M.close(float(sum(vols)), sum(abs(h) for h in H) * sum(6.0 if t == "quad" else {(1, 4, 2): 4.5, (3, 2, 5): 2.0, (7, 6, 9): 3.0}[c] for t, cs, _ in kept for c in cs)), "total volume is {}", sum(vols))
    ch.check(all(len(v) == len(g.points) for v in g.point_data.values()), "{} points have {} values", len(g.points), [len(v) for v in g.point_data.values()])
    S = g.cell_sets["s"]
    ch.check(len(S) == len(g.cells) and all(0 <= int(i) < len(c.data) for c, ii in zip(g.cells, S) for i in ii), "cell set {} does not fit the blocks", S)
    named = {want[frozenset(int(x) for x in c.data[int(i)])] for c, ii in zip(g.cells, S) for i in ii}
    ch.check(named == ({(VN[blocks[-1][0]], n2)} if blocks[-1][0] in VN else set()), "cell set holds {}", named)
    ch.check({tuple(gp[int(i)][o] for o in others) for i in g.point_sets["p"]} == {tuple(flat[i][o] for o in others) for i in (2, 0)}, "point set holds {}", g.point_sets["p"])
    ch.check(all(list(map(int, g.field_data[k])) == [i, 3] for i, k in names.items()), "field data {}", g.field_data)
    mats = [str(x) for x in ch.call("materials", lambda: g.materials)]
    ch.check(mats == [names[want[frozenset(c)][1]] for _, c in got], "materials are {}", mats)
    ch.state(M.snap(g))


def many(ch):
    """Many cells, many layers."""
    what = ch.free("long", ["cells", "layers"])
    n = ch.free("size", Z.sizes(ch.tier, 1025 * (1 if ch.tier == "quick" else 5), 2 * (what == "cells")))
    k = n if what == "cells" else 2
    hs = [0.5 * (1 + i % 3) for i in range(n if what == "layers" else 2)]
    p = [(0.5 * i, float(j)) for i in range(k + 1) for j in range(2)]
    p += [(-1.0, -2.0)] * ch.free("unused", [1, 0])  # a point that no cell uses
    quad = lambda i: (2 * i, 2 * i + 2, 2 * i + 3, 2 * i + 1)
    nq = k - k // 2
    blocks = [("quad", [quad(i) for i in range(nq)]), ("triangle", [t for i in range(nq, k) for t in (quad(i)[:3], (quad(i)[0],) + quad(i)[2:])])]
    n2 = sum(len(c) for _, c in blocks)
    m = M.build(p, blocks, how=ch.free("arrays", ["floats, int64", "cells uint8"]), cell_data={"material": np.arange(1, n2 + 1)}, point_data={"t": np.arange(len(p)) * 1.5})
    ch.call("extrude_to_3d", m.extrude_to_3d, height=hs)
    lev = list(itertools.accumulate(hs, initial=0))
    gp = [tuple(q) for q in np.asarray(m.points).tolist()]
    ch.check(sorted(gp) == sorted(q + (z,) for q in p for z in lev), "the points are not those of the mesh at every level")
    ind = {q: i for i, q in enumerate(p)}
    ch.check(all(float(v) == 1.5 * ind[q[:2]] for q, v in zip(gp, m.point_data["t"])) and len(m.point_data["t"]) == len(gp), "point data are misplaced")
    want, first = [], 1
    for t, cs in blocks:
        want += [(VN[t], sorted(p[i] + (z,) for i in c for z in ab), first + j) for ab in zip(lev, lev[1:]) for j, c in enumerate(cs)]
        first += len(cs)
    got = M.flat([(c.type, c.data.tolist()) for c in m.cells])
    ch.check(len(got) == len(want) == len(m.cell_data["material"]), "{} cells instead of {}", len(got), len(want))
    for i, ((t, c), w, v) in enumerate(zip(got, want, m.cell_data["material"])):
        ch.check((t, sorted(gp[j] for j in c), int(v)) == w, "cell {} is {} of material {} instead of {}", i, (t, [gp[j] for j in c]), v, w)
    ch.state((what, n))


def refuse(ch):
    what = ch.free("what", ["axis", "axis -1", "not flat x", "not flat y"])
    pts = [(0.0, 0.0, 1.0), (1.0, 0.0, 1.0), (0.0, 1.0, 1.0)]
    m = M.build(pts, [("triangle", [(0, 1, 2)])], cell_data={"material": np.ones(1, dtype=int)})
    before = M.snap(m)
    ch.raises("extrude_to_3d", (ValueError,), m.extrude_to_3d, axis={"axis": 3, "axis -1": -1, "not flat x": 0, "not flat y": 1}[what], inplace=ch.free("inplace", [True, False]))
    ch.check(M.snap(m) == before, "the refused extrusion modified the mesh")


def drivers(tier):
    return [Driver("extrude", extrude, 6 if tier == "quick" else 9), Driver("refuse", refuse, 0), Driver("many", many, 0, "many cells or layers", cpu=120)]
