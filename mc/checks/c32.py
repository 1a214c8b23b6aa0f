"""Time series of mesh data (XDMF)."""
import itertools
import os

import numpy as np
import toughio

from ..engine import Driver
from .. import long as Z
from .. import mesh_common as M
from .c28 import surfaces, num

ASSUMPTIONS = ["steps at equal times may come in any order; cells of the types meshio's XDMF writer stores in one mesh (no lines or vertices)"]

POOL = [0.0, 10.0, 2.5, 1.0e9, -3.0]


def write(ch):
    p, blocks = M.topology(ch, ["tower", "2x2x2", "2 wedges", "6 tetras"])
    if ch.flag("faces too"):
        blocks = blocks + surfaces(p, M.flat(blocks), ["quad", "triangle"])
    cells = [toughio.CellBlock(t, np.array(c)) for t, c in blocks]
    n = len(M.flat(blocks))
    nt = ch.free("steps", [2, 1, 3, 4])
    order = ch.free("order of times", list(itertools.permutations(range(nt))) if nt < 4 else [(0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2), (2, 0, 3, 1)])
    pool = ch.choose("times", [[0.0, 2.5, 10.0, 1.0e9], [-3.0, 0.0, 1e-9, 1.0], [1, 2, 10, 20], [1.0, 3.0, 3.0, 0.5], [2.0] * 4, [1.0, 1.0 + 1e-12, 1e-30, 1e30]])
    times = [pool[i] for i in order]
    tk = ch.choose("type of times", ["list", "tuple", "array", "not given"])
    with_p = ch.choose("point data", [1, 0, 2])
    with_c = ch.choose("cell data", [1, 2] if not with_p else [1, 0, 2])
    vec = ch.choose("components", [1, 3])
    dtype = ch.choose("type of data", [float, int])

    def arr(size, s, k):
        a = np.array([[(i + 1) * (s + 1) * 1.25 + 100 * k + j for j in range(vec)] for i in range(size)])
        a = a.astype(dtype)
        return a[:, 0] if vec == 1 else a

    pd = [{"P{}".format(k): arr(len(p), s, k) for k in range(with_p)} for s in range(nt)] if with_p else None
    cd = [{"C{}".format(k): arr(n, s, k + 5) for k in range(with_c)} for s in range(nt)] if with_c else None
    if ch.flag("a variable in one step only"):
        (pd or cd)[-1]["extra"] = np.arange(len(p) if pd else n) * 1.0
    if ch.choose("containers", ["list", "tuple"]) == "tuple":
        pd, cd = pd and tuple(pd), cd and tuple(cd)
    kw = {}
    if pd:
        kw["point_data"] = pd
    if cd:
        kw["cell_data"] = cd
    if tk != "not given":
        kw["time_steps"] = {"list": list, "tuple": tuple, "array": np.array}[tk](times)
    else:
        times = list(range(nt))
    P = np.array(p)
    before = M.snap([P, [(c.type, c.data) for c in cells], kw])
    os.chdir(ch.scratch)
    f = ch.choose("file", ["series.xdmf", "x.xdmf"])
    if ch.flag("absolute path"):
        f = os.path.join(ch.scratch, f)
    ch.call("write_time_series", toughio.write_time_series, f, P, cells, **kw)
    ch.check(M.eq(M.snap([P, [(c.type, c.data) for c in cells], kw]), before), "write_time_series modified its arguments")
    gp, gc, gpd, gcd, gt = ch.call("read_time_series", toughio.read_time_series, f)
    idx = sorted(range(nt), key=lambda i: times[i])
    ch.check([float(t) for t in gt] == [float(times[i]) for i in idx], "times are {} instead of {}", list(gt), [times[i] for i in idx])
    num(ch, gp, p, 0, "points")
    got = [(c.type, tuple(int(x) for x in v)) for c in gc for v in np.asarray(c.data).tolist()]
    ch.check(got == M.flat(blocks), "cells are {} instead of {}", got, M.flat(blocks))
    ch.check(len(gpd) == len(gcd) == nt, "{} and {} steps", len(gpd), len(gcd))
    for k, i in enumerate(idx):
        same = [j for j in idx if float(times[j]) == float(times[i])]
        if len(same) > 1:      # steps at the same time may come in any order
            snap = lambda D: sorted((v, np.asarray(a, dtype=float).tolist()) for v, a in D.items())
            at = [j for j in range(nt) if float(gt[j]) == float(times[i])]
            g = sorted((snap(gpd[j]), snap(gcd[j])) for j in at)
            w = sorted((snap(pd[j] if pd else {}), snap(cd[j] if cd else {})) for j in same)
            ch.check(M.eq(M.snap(g), M.snap(w)), "data at time {} are {} instead of {}", times[i], g, w)
            continue
        for G, W, lab in ((gpd[k], pd[i] if pd else {}, "point"), (gcd[k], cd[i] if cd else {}, "cell")):
            ch.check(set(G) == set(W), "{} data at step {}: {} instead of {}", lab, k, list(G), list(W))
            for v in W:
                num(ch, G[v], W[v], 0, "{} data {} at step {}".format(lab, v, k))
    ch.state((got, [float(t) for t in gt], M.snap(gpd), M.snap(gcd)))


def many(ch):
    """Many steps, many cells."""
    what = ch.free("long", ["steps", "cells"])
    n = ch.free("size", Z.sizes(ch.tier, {"steps": 129, "cells": 1025}[what] * (1 if ch.tier == "quick" else 8), 2 * (what == "cells")))
    k, nt = (1, n) if what == "steps" else (n, 3)
    p, c = M.strip(ch.free("kind", ["hexahedron", "mixed"]), k)
    blocks = M.group(c, True)
    nc = len(c)
    order = sorted(range(nt), key=lambda i: (i * 37) % nt if nt % 37 else -i)
    times = [2.5 * i for i in order]
    pd = [{"P": np.arange(len(p)) * 0.5 + i} for i in order]
    cd = [{"C": np.arange(nc) * 0.25 - i} for i in order]
    os.chdir(ch.scratch)
    ch.call("write_time_series", toughio.write_time_series, "s.xdmf", np.array(p), [toughio.CellBlock(t, np.array(x)) for t, x in blocks], pd, cd, times)
    gp, gc, gpd, gcd, gt = ch.call("read_time_series", toughio.read_time_series, "s.xdmf")
    ch.check([float(t) for t in gt] == sorted(times), "times differ")
    num(ch, gp, p, 0, "points")
    ch.check([(b.type, tuple(int(x) for x in v)) for b in gc for v in np.asarray(b.data).tolist()] == M.flat(blocks), "cells differ")
    for i in range(nt):
        num(ch, gpd[i]["P"], np.arange(len(p)) * 0.5 + i, 0, "point data at step {}".format(i))
        num(ch, gcd[i]["C"], np.arange(nc) * 0.25 - i, 0, "cell data at step {}".format(i))
    ch.state((what, n))


def refuse(ch):
    p, c = M.LIB["2 wedges"]()
    P, cells = np.array(M.ints(p)), [toughio.CellBlock("wedge", np.array([v for _, v in c]))]
    pd, cd = [{"P": np.arange(8.0)}] * 2, [{"C": np.arange(2.0)}] * 2
    kw, err = ch.free("argument", [({}, ValueError), ({"point_data": pd, "cell_data": cd[:1]}, ValueError), ({"point_data": pd, "time_steps": [1.0]}, ValueError), ({"cell_data": cd, "time_steps": [1.0, 2.0, 3.0]}, ValueError),
                                   ({"point_data": {"P": np.arange(8.0)}}, TypeError), ({"cell_data": "C"}, TypeError), ({"point_data": pd, "time_steps": 3.0}, TypeError)])
    f = ch.path("precious.xdmf")
    with open(f, "w") as g:
        g.write("precious\n")
    ch.raises("write_time_series", (err,), toughio.write_time_series, f, P, cells, **kw)
    ch.check(open(f).read() == "precious\n", "the refused call overwrote the target")


def drivers(tier):
    b = 2 if tier == "quick" else 3
    return [Driver("series", write, b), Driver("refuse", refuse, 0), Driver("many", many, 0, "many steps or cells", cpu=120)]
