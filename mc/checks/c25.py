"""Pruning duplicate points and cells."""
import itertools

import numpy as np
import toughio

from ..engine import Driver
from .. import long as Z
from .. import mesh_common as M

ASSUMPTIONS = ["duplicate points have identical coordinates; duplicate cells have the same vertices and type"]


def copies(ch):
    """A mesh in which chosen cells are repeated and chosen cells have their own copies of points."""
    name = ch.free("mesh", ["2 wedges", "2x2x2", "tower", "6 tetras", "quads", "hexahedron", "2 hexahedra"])
    if name == "quads":
        p = [(0.0, 0.0), (1.0, 0.0), (2.0, 0.0), (0.0, 1.0), (1.0, 1.0), (2.0, 1.0)]
        cells = [("quad", (0, 1, 4, 3)), ("triangle", (1, 2, 4)), ("triangle", (2, 5, 4))]
    else:
        p, cells = M.LIB[name]()
        p = [tuple(map(float, q)) for q in p]
        cells = [(t, tuple(c)) for t, c in cells]
    n = len(cells)
    out, data = [], []
    for k, (t, c) in enumerate(cells):
        sel = k in (0, 1, n - 1)
        how = ch.choose("cell {}".format(k), ["shared points", "own points", "one own point", "repeated", "repeated with own points", "repeated, other vertex order"]) if sel else "shared points"
        own = []
        if "own point" in how and not how.startswith("repeated"):
            own = c if how == "own points" else c[:1]
        d = list(c)
        for i in own:
            d[c.index(i)] = len(p)
            p = p + [p[i]]
        out.append((t, tuple(d)))
        data.append(k)
        if how.startswith("repeated"):
            d = c
            if "own" in how:
                d = tuple(range(len(p), len(p) + len(c)))
                p = p + [p[i] for i in c]
            elif "order" in how:
                d = c[1:] + c[:1] if t in ("quad", "triangle") else tuple(c[i] for i in M.ROT[t][1])
            out.append((t, tuple(d)))
            data.append(k)
    # point numbers: cells of the same type can share all their smallest ones
    num = ch.choose("point numbers", ["as is", "reversed", "shared first", "shared last"])
    if num != "as is":
        deg = [sum(i in c for _, c in out) for i in range(len(p))]
        o = list(range(len(p)))[::-1] if num == "reversed" else sorted(range(len(p)), key=lambda i: (-deg[i] if num == "shared first" else deg[i], i))
        new = {i: k for k, i in enumerate(o)}
        p = [p[i] for i in o]
        out = [(t, tuple(new[i] for i in c)) for t, c in out]
    # size and place of the mesh: points that are close, coordinates with many digits
    size = ch.choose("coordinates", ["as is", "small", "long", "far"])
    if size != "as is":
        a, b = {"small": (1.0e-7, 0.0), "long": (1.0 / 3.0, 0.0), "far": (2.0 ** -20, 2.0 ** 20)}[size]
        p = [tuple(a * x + b for x in q) for q in p]
    if ch.flag("signed zeros"):
        p = [tuple(-0.0 if x == 0 and (i + k) % 2 else x for k, x in enumerate(q)) for i, q in enumerate(p)]
    where = ch.choose("cell order", ["as is", "reversed", "copies last", "interleaved"])
    idx = list(range(len(out)))
    if where == "reversed":
        idx = idx[::-1]
    elif where == "copies last":
        seen = set()
        idx.sort(key=lambda i: (data[i] in seen or seen.add(data[i]) or False, i))
    elif where == "interleaved":
        idx = idx[::2] + idx[1::2]
    out, data = [out[i] for i in idx], [data[i] for i in idx]
    if ch.choose("extra point", [None, "unused copy", "unused"]):
        p = p + [p[0] if ch.trace[-1][2] == 1 else (99.0,) * len(p[0])]
    how = ch.choose("blocks", ["runs", "by type", "one each"])
    if how == "by type":
        ts = []
        for t, _ in out:
            if t not in ts:
                ts.append(t)
        o = sorted(range(len(out)), key=lambda i: ts.index(out[i][0]))
        out, data = [out[i] for i in o], [data[i] for i in o]
    blocks = [(t, [c]) for t, c in out] if how == "one each" else M.group(out, False)
    return p, blocks, data


def prune(ch):
    p, blocks, data = copies(ch)
    n = len(data)
    pid = {}
    for q in p:
        pid.setdefault(q, len(pid))
    m = M.build(p, blocks, how=M.arrays(ch, ["floats, int64", "coordinates int32", "cells uint64", "read-only"]), cell_data={"material": np.array(data) + 1, "v": np.array([[k, -k] for k in data], dtype=float), "k": np.array([[[k, 1], [2 * k, 0]] for k in data])},
                point_data={"t": np.array([10.0 * pid[q] for q in p]), "k": np.array([[[pid[q], 1], [2, -pid[q]]] for q in p])}, field_data={"rock": np.array([1, 3])})
    before = M.snap(m)
    inplace = ch.choose("inplace", [True, False, "default"])
    out = ch.call("prune_duplicates", m.prune_duplicates, **({} if inplace == "default" else {"inplace": inplace}))
    if inplace is False:
        ch.check(M.snap(m) == before, "pruning with inplace=False modified the mesh")
    else:
        ch.check(out is None, "pruning in place returned {}", out)
    g = out if inplace is False else m
    gp = [tuple(q) for q in np.asarray(g.points).tolist()]
    ch.check(sorted(gp) == sorted(pid), "points {} instead of {}", gp, list(pid))
    for q, v, k in zip(gp, g.point_data["t"], g.point_data["k"]):
        ch.check(float(v) == 10.0 * pid[q] and np.asarray(k).tolist() == [[pid[q], 1], [2, -pid[q]]], "point {} has data {} {}", q, v, k)
    key = lambda t, c, pts: (t, frozenset(pts[i] for i in c))
    want = {key(t, c, p): d for (t, c), d in zip(M.flat(blocks), data)}
    got = M.flat([(c.type, [tuple(x) for x in np.asarray(c.data).tolist()]) for c in g.cells])
    keys = [key(t, c, gp) for t, c in got]
    ch.check(len(keys) == len(set(keys)) and set(keys) == set(want), "cells {} instead of {}", got, want)
    ch.check(len(g.cell_data["material"]) == len(g.cell_data["v"]) == len(keys), "{} cells have {} materials", len(keys), len(g.cell_data["material"]))
    order = {key(t, c, p): [] for t, c in M.flat(blocks)}
    for t, c in M.flat(blocks):
        order[key(t, c, p)].append(tuple(p[i] for i in c))
    for k, (t, c) in enumerate(got):
        d = want[keys[k]]
        ch.check(int(g.cell_data["material"][k]) == d + 1 and list(map(float, g.cell_data["v"][k])) == [d, -d] and np.asarray(g.cell_data["k"][k]).tolist() == [[d, 1], [2 * d, 0]], "cell {} has data of another cell: {}", c, g.cell_data["material"][k])
        ch.check(tuple(gp[i] for i in c) in order[keys[k]], "vertices of cell {} are in an order no copy had", c)
    if len(gp[0]) == 3:
        orig = M.adjacency(gp, [(t, [c]) for t, c in got])
        conn = ch.call("connections", lambda: g.connections)
        pairs = {(min(i, int(j)), max(i, int(j))) for i, r in enumerate(conn) for j in r if j >= 0}
        ch.check(pairs == set(orig), "connections {} instead of {}", pairs, set(orig))
    again = M.snap(g)
    ch.call("prune_duplicates", g.prune_duplicates)
    ch.check(len(g.points) == len(gp) and g.n_cells == len(got), "pruning twice prunes more")
    ch.state(again)


def sets(ch):
    """Sets of points and cells name the same points and cells after pruning."""
    dup = ch.free("duplicates", ["none", "points", "cell of the first block", "cell of the last block", "whole block"])
    p = [(0.0, 0.0), (1.0, 0.0), (2.0, 0.0), (0.0, 1.0), (1.0, 1.0), (2.0, 1.0)]
    blocks = [("quad", [(0, 1, 4, 3)]), ("triangle", [(1, 2, 4), (2, 5, 4)])]
    if dup == "points":
        p = p + [p[4], p[2]]
        blocks = [("quad", [(0, 1, 6, 3)]), ("triangle", [(1, 7, 4), (2, 5, 6)])]
    elif dup == "cell of the first block":
        blocks = [("quad", [(0, 1, 4, 3), (0, 1, 4, 3)]), ("triangle", [(1, 2, 4), (2, 5, 4)])]
    elif dup == "cell of the last block":
        blocks = [("quad", [(0, 1, 4, 3)]), ("triangle", [(1, 2, 4), (1, 2, 4), (2, 5, 4)])]
    elif dup == "whole block":
        blocks = [("quad", [(0, 1, 4, 3)]), ("quad", [(0, 1, 4, 3)]), ("triangle", [(1, 2, 4), (2, 5, 4)])]
    if ch.free("cells listed", ["as is", "backwards"]) == "backwards":
        blocks = [(t, c[::-1]) for t, c in blocks[::-1]]
    what = ch.free("sets", ["points", "cells"])
    key = lambda t, c, pts: (t, frozenset(pts[i] for i in c))
    if what == "points":
        members = ch.free("members", [[4], [0, 5], [], list(range(len(p))), [len(p) - 1]])
        cont = ch.free("container", [np.array, list])
        kw = {"point_sets": {"s": cont(members) if members or cont is list else np.array([], dtype=int), "t": [0]}}
    else:
        last = blocks[-1][1]
        members = ch.free("members", [{len(blocks) - 1: [len(last) - 1]}, {0: [0]}])
        kw = {"cell_sets": {"s": [np.array(members.get(i, []), dtype=int) for i in range(len(blocks))]}}
    m = M.build(p, blocks, cell_data={"material": np.ones(sum(len(c) for _, c in blocks), dtype=int)}, **kw)
    before = M.snap(m)
    inplace = ch.free("inplace", [True, False])
    out = ch.call("prune_duplicates", m.prune_duplicates, inplace=inplace)
    if not inplace:
        ch.check(M.snap(m) == before, "pruning with inplace=False modified the mesh")
    g = m if inplace else out
    gp = [tuple(q) for q in np.asarray(g.points).tolist()]
    if what == "points":
        want = {p[i] for i in members}
        ch.check({gp[int(i)] for i in g.point_sets["s"]} == want, "point set holds {} instead of {}", [gp[int(i)] for i in g.point_sets["s"]], want)
        ch.check({gp[int(i)] for i in g.point_sets["t"]} == {p[0]}, "point set t holds {}", g.point_sets["t"])
    else:
        want = {key(blocks[b][0], blocks[b][1][i], p) for b, ii in members.items() for i in ii}
        s = g.cell_sets["s"]
        ch.check(len(s) == len(g.cells) and all(0 <= int(i) < len(c.data) for c, ii in zip(g.cells, s) for i in ii), "cell set {} does not fit the blocks {}", s, [len(c.data) for c in g.cells])
        got = {key(c.type, c.data[int(i)].tolist(), gp) for c, ii in zip(g.cells, s) for i in ii}
        ch.check(got == want, "cell set holds {} instead of {}", got, want)
    ch.state(M.snap(g))


def many(ch):
    """Many cells, each with points of its own; every tenth cell repeated."""
    kind = ch.free("cells", ["hexahedron", "mixed"])
    n = ch.free("size", Z.sizes(ch.tier, 1025 * (1 if ch.tier == "quick" else 5), 2 * (kind == "hexahedron")))
    own = ch.free("points", ["own", "shared"])
    p, c = M.strip(kind, n)
    p = [tuple(map(float, q)) for q in p]
    c = M.flat(M.group([(t, tuple(v)) for t, v in c], True))
    cells = [(t, v, k) for k, (t, v) in enumerate(c)]
    cells = [x for x in cells for _ in range(2 if x[2] % 10 == 4 else 1)]
    P, out = list(p), []
    if own == "own":
        P = []
        for t, v, k in cells:
            out.append((t, tuple(range(len(P), len(P) + len(v)))))
            P += [p[i] for i in v]
    else:
        out = [(t, v) for t, v, k in cells]
    pid = {q: i for i, q in enumerate(p)}
    m = M.build(P, M.group(out, True), cell_data={"material": np.array([k + 1 for _, _, k in cells])}, point_data={"t": np.array([10.0 * pid[q] for q in P])})
    ch.call("prune_duplicates", m.prune_duplicates)
    gp = [tuple(q) for q in np.asarray(m.points).tolist()]
    ch.check(sorted(gp) == sorted(p), "{} points instead of {}", len(gp), len(p))
    ch.check([float(v) for v in m.point_data["t"]] == [10.0 * pid[q] for q in gp], "point data are misplaced")
    got = M.flat([(b.type, b.data.tolist()) for b in m.cells])
    ch.check(len(got) == len(c) == len(m.cell_data["material"]), "{} cells instead of {}", len(got), len(c))
    want = {(t, frozenset(p[i] for i in v)): k for k, (t, v) in enumerate(c)}
    for i, (t, v) in enumerate(got):
        k = want.get((t, frozenset(gp[j] for j in v)))
        ch.check(k is not None and int(m.cell_data["material"][i]) == k + 1, "cell {} is {} with material {}", i, [gp[j] for j in v], m.cell_data["material"][i])
    ch.state((kind, n, own))


def drivers(tier):
    return [Driver("many", many, 0, "many cells", cpu=120), Driver("sets", sets, 0), Driver("prune", prune, 5 if tier == "quick" else 7)]
