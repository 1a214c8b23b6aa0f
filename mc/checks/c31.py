"""Finding cells: near and filter."""
import math

import numpy as np
import toughio

from ..engine import Driver
from .. import long as Z
from .. import mesh_common as M

ASSUMPTIONS = ["when several centers are equally near any of them is accepted; a box length is given with its origin; coordinates exact in binary for points on the faces of a box"]

LIBS = ["2x2x2", "tower", "tower and pair", "2 wedges", "hexahedron", "6 tetras"]


def flat2d():
    return [(0.0, 0.0), (1.0, 0.0), (2.0, 0.0), (0.0, 1.0), (1.0, 1.0), (2.0, 1.0)], [("quad", [(0, 1, 4, 3)]), ("triangle", [(1, 2, 4), (2, 5, 4)])]


def near(ch):
    if ch.choose("dimension", [3, 2]) == 3:
        p, blocks = M.topology(ch, LIBS)
        p, tr = M.transform(ch, p)
        if ch.flag("small cells far from the origin"):
            p = [(0.01 * q[0] + 5.0e6, 0.01 * q[1] + 4.0e6, 0.01 * q[2]) for q in p]
    else:
        p, blocks = flat2d()
    m = M.build(p, blocks, how=M.arrays(ch))
    nb = len(M.flat(blocks))
    if ch.flag("data with the names of other things"):
        for k, a in (("centers", -np.asarray(m.centers)), ("X", np.ones(nb)), ("labels", np.arange(nb)), ("volumes", np.zeros(nb)), ("material", np.ones(nb, dtype=int))):
            m.add_cell_data(k, a)
    before = M.snap(m)
    dim = len(p[0])
    cells = M.flat(blocks)
    cen = [M.mean([p[i] for i in c]) for _, c in cells]
    lo = [min(q[k] for q in p) for k in range(dim)]
    hi = [max(q[k] for q in p) for k in range(dim)]
    nq = ch.choose("queries", [2, 1, 0, 4])
    qs = []
    for i in range(max(nq, 1)):
        a = ch.choose("query {}".format(i), ["center", "point", "outside", "origin", "inside", "far"])
        qs.append({"center": cen[i % len(cen)], "point": p[i % len(p)], "outside": tuple(h + 1.0 + i for h in hi), "origin": (0.0,) * dim,
                   "inside": tuple(l + (0.25 + 0.1 * i) * (h - l) for l, h in zip(lo, hi)), "far": (1e8,) + (-3e8,) * (dim - 1)}[a])
    kind = ch.choose("type", ["list", "tuple", "array"])
    conv = {"list": lambda v: [list(x) for x in v] if isinstance(v, list) else list(v), "tuple": lambda v: tuple(v), "array": np.array}[kind]
    one = nq == 0
    got = ch.call("near", m.near, conv(qs[0]) if one else conv(qs))
    if one:
        ch.check(np.ndim(got) == 0, "one point gave {}", got)
        got = [got]
    ch.check(len(got) == len(qs), "{} answers for {} points", len(got), len(qs))
    for g, q in zip(got, qs):
        d = [M.norm(M.sub(c, q)) for c in cen]
        scale = max(abs(x) for x in q) + max(abs(x) for c in cen for x in c)
        ch.check(0 <= int(g) < len(cen) and d[int(g)] <= min(d) * (1 + 1e-9) + 1e-12 * scale, "cell {} is near {} at {}, but cell {} is at {}", g, q, d[int(g)], d.index(min(d)), min(d))
    ch.check(M.snap(m) == before, "near modified the mesh")
    ch.state([int(g) for g in got])


def box(ch):
    p, blocks = M.topology(ch, LIBS)
    p, tr = M.transform(ch, p, ["identity", "scale", "swap", "large"])
    m = M.build(p, blocks, how=M.arrays(ch))
    before = M.snap(m)
    cen = np.asarray(m.centers).tolist()
    kw = {}
    lim = []
    for k, a in enumerate("xyz"):
        xs = sorted({c[k] for c in cen})
        o = ch.choose(a + "0", [None, "first", "middle", "last", "beyond", "zero"])
        x0 = {None: None, "first": xs[0], "middle": 0.5 * (xs[0] + xs[-1]), "last": xs[-1], "beyond": xs[-1] + 1.0, "zero": 0}[o]
        if x0 is not None:
            kw[a + "0"] = x0
            d = ch.choose("d" + a, [None, "to last", 0, "small", "integer"])
            dx = {None: None, "to last": xs[-1] - x0, 0: 0.0, "small": 0.125, "integer": 2}[d]
            if dx is not None:
                kw["d" + a] = dx
            lim.append((x0, math.inf if dx is None else x0 + dx))
        else:
            if ch.flag(a + "0=None given"):
                kw[a + "0"] = None
            lim.append((-math.inf, math.inf))
    how = ch.choose("call", ["filter.box", "filter()", "filter('box')"])
    fn = {"filter.box": lambda **k: m.filter.box(**k), "filter()": lambda **k: m.filter(**k), "filter('box')": lambda **k: m.filter("box", **k)}[how]
    got = [int(i) for i in ch.call(how, fn, **kw)]
    want = [i for i, c in enumerate(cen) if all(l <= x <= h for x, (l, h) in zip(c, lim))]
    ch.check(got == want, "box {} selects {} instead of {}", kw, got, want)
    ch.check(M.snap(m) == before, "the filter modified the mesh")
    ch.state((kw, got))


def many(ch):
    """Many cells, many points at once."""
    kind = ch.free("cells", ["hexahedron", "mixed"])
    n = ch.free("size", Z.sizes(ch.tier, 2049 * (1 if ch.tier == "quick" else 8), 2 * (kind == "hexahedron")))
    p, c = M.strip(kind, n)
    blocks = M.group(c, True)
    m = M.build(p, blocks)
    cen = [M.mean([p[i] for i in x]) for _, x in M.flat(blocks)]
    call = ch.free("call", ["near", "between", "box"])
    if call == "between":
        # close to the limit of the zones of two cells
        sel = [(i * 7919) % (len(cen) - 1) for i in range(20)]
        qs = [tuple(0.5 * (a + b) + e * (b - a) for a, b in zip(cen[i], cen[i + 1])) for i, e in zip(sel, [1e-8, -1e-8, 1e-6, -1e-6] * 5)]
        got = [int(i) for i in ch.call("near", m.near, [list(q) for q in qs])]
        C = np.array(cen)
        for g, q in zip(got, qs):
            d = np.sqrt(((C - np.array(q)) ** 2).sum(axis=1))
            ch.check(0 <= g < len(cen) and d[g] <= d.min() + 1e-13 * (max(map(abs, q)) + np.abs(C).max()) + 1e-12, "cell {} is near {} at {}, but cell {} is at {}", g, q, d[g], d.argmin(), d.min())
    elif call == "near":
        k = ch.free("points", [1, 50, 300])
        sel = [(i * 7919) % len(cen) for i in range(k)]
        got = ch.call("near", m.near, [list(M.add(cen[i], (1e-3, -1e-3, 1e-3))) for i in sel])
        ch.check([int(i) for i in got] == sel, "near gives {} instead of {}", list(got)[:5], sel[:5])
        got = sel
    else:
        x0, dx = ch.free("box", [(0.0, 1.0e9), (10.3, 100.0), (n / 4.0, n / 5.0)])
        got = [int(i) for i in ch.call("filter.box", m.filter.box, x0=x0, dx=dx)]
        ch.check(got == [i for i, q in enumerate(cen) if x0 <= q[0] <= x0 + dx], "the box selects {} cells", len(got))
    ch.state((kind, n, got))


def drivers(tier):
    b = 3 if tier == "quick" else 4
    return [Driver("near", near, b), Driver("box", box, b), Driver("many", many, 0, "many cells", cpu=120)]
