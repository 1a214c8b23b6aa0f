"""Importing simulation results into a mesh."""
import itertools

import numpy as np
import toughio

from ..engine import Driver
from .. import long as Z
from .. import mesh_common as M
from .. import ref_output as RO

ASSUMPTIONS = ["labels of the mesh's own label length; connection outputs name two cells of the mesh whose centers differ"]

Output = None


def output(kind, time, labels, data):
    global Output
    if Output is None:
        from toughio._io.output._common import Output as O
        Output = O
    return Output(kind, "tough", time, np.array(labels), {k: np.array(v) for k, v in data.items()})


def osnap(x):
    if isinstance(x, (list, tuple)) and not hasattr(x, "labels"):
        return [osnap(o) for o in x]
    return (x.type, x.format, x.time, M.snap(np.asarray(x.labels)), M.snap(x.data))


def make(ch, names):
    p, blocks = M.topology(ch, names, renumber=False)
    n = len(M.flat(blocks))
    L = ch.choose("label length", [None, 7])
    cd = {"material": np.arange(1, n + 1), "P": np.full(n, -1.0)} if ch.choose("cell data before", [True, False]) else {}
    m = M.build(p, blocks, how=M.arrays(ch), cell_data=cd)
    m.label_length = L
    return p, blocks, n, m, cd


def wrap(ch, outs, ns, steps_ok=True):
    """How the results are handed over, and which step is asked for."""
    src = ch.choose("results", ["list", "tuple", "Output", "csv file", "petrasim file"] if outs[0].type == "element" else ["list", "tuple", "Output", "csv file"])
    ts = ch.choose("time step", ["default"] + list(range(-ns, ns)))
    k = ns - 1 if ts == "default" else ts % ns
    kw = {} if ts == "default" else {"time_step": ts}
    if src == "Output":
        return src, outs[k], k, {}
    if src == "list":
        return src, list(outs), k, kw
    if src == "tuple":
        return src, tuple(outs), k, kw
    model = [(o.time, [tuple(x) if o.type == "connection" else x for x in o.labels.tolist()], {a: list(b) for a, b in o.data.items()}) for o in outs]
    f = ch.path("OUT.csv")
    if src == "petrasim file":
        text = RO.enc_petrasim(model, num="{:24.16E}", pad=26)
    else:
        text = RO.enc_csv(model, connection=outs[0].type == "connection", num="{:24.16E}", pad=26)
    with open(f, "w") as g:
        g.write(text)
    return src, f, k, kw


def element(ch):
    p, blocks, n, m, cd = make(ch, ["2 wedges", "tower", "hexahedron", "6 pyramids"])
    labels = [str(x) for x in m.labels]
    ns = ch.choose("steps", [2, 1, 3])
    outs = []
    for s in range(ns):
        if s == ns - 1 and n <= 4:
            order = ch.choose("order of rows, last step", list(itertools.permutations(range(n))))
        else:
            order = ch.choose("order of rows, step {}".format(s), [tuple(range(n)), tuple(range(n))[::-1], tuple(range(1, n)) + (0,)])
        col = lambda f: [f(i) for i in order]
        data = {"X": col(lambda i: 0.5 * i), "Y": col(lambda i: 1.0), "Z": col(lambda i: -2.0 * i)} if s == 0 or True else {}
        data["P"] = col(lambda i: 1e5 * (s + 1) + i + 0.125)
        data["T"] = col(lambda i: 20.0 - 3.0 * i - s)
        outs.append((s, order, output("element", 10.0 * s, [labels[i] for i in order], data)))
    outs = [o for _, _, o in outs]
    src, res, k, kw = wrap(ch, outs, ns)
    before = osnap(outs)
    pts = M.snap(np.asarray(m.points))
    for again in range(1 + ch.choose("read twice", [0, 1])):
        ch.call("Mesh.read_output", m.read_output, res, **kw)
    ch.check(osnap(outs) == before, "read_output modified the results")
    ch.check(M.snap(np.asarray(m.points)) == pts and [c.type for c in m.cells] == [t for t, _ in blocks], "read_output modified the mesh")
    want = {"X": [0.5 * i for i in range(n)], "Y": [1.0] * n, "Z": [-2.0 * i for i in range(n)], "P": [1e5 * (k + 1) + i + 0.125 for i in range(n)], "T": [20.0 - 3.0 * i - k for i in range(n)]}
    ch.check(set(m.cell_data) == set(want) | set(cd), "cell data {}", list(m.cell_data))
    for v, w in want.items():
        g = [float(x) for x in m.cell_data[v]]
        ch.check(g == w, "{} at step {} is {} instead of {}", v, k, g, w)
    if cd:
        ch.check(list(m.cell_data["material"]) == list(range(1, n + 1)), "material is {}", m.cell_data["material"])
    # the result does not alias the source
    m.cell_data["P"][0] = 777.0
    ch.check(osnap(outs) == before, "editing the mesh modified the results")
    ch.state((want, src))


def connection(ch):
    p, blocks, n, m, cd = make(ch, ["2 wedges", "tower", "2x2x2", "6 pyramids", "2 tetras"])
    labels = [str(x) for x in m.labels]
    pairs = sorted(M.adjacency(p, blocks))
    keep = ch.choose("connections", ["all", "all but the first", "first only", "reversed order"])
    pairs = {"all": pairs, "all but the first": pairs[1:] or pairs, "first only": pairs[:1], "reversed order": pairs[::-1]}[keep]
    ns = ch.choose("steps", [1, 2])
    swap = [ch.choose("pair {} reversed".format(i), [False, True]) if i in (0, 1, len(pairs) - 1) else i % 2 == 1 for i in range(len(pairs))]
    pr = [(b, a) if s else (a, b) for (a, b), s in zip(pairs, swap)]
    outs, vals = [], []
    for s in range(ns):
        v = [(1 if i % 3 else -1) * (1.5 * i + 0.25 + s) for i in range(len(pr))]
        if s == ns - 1:
            v[0] = ch.choose("flow 0", [v[0], -v[0], 0.0, 1e-20, -3e15])
            v[-1] = ch.choose("flow last", [v[-1], -v[-1], 0.0])
        w = [2.0 * i - 3.0 for i in range(len(pr))]
        vals.append((v, w))
        outs.append(output("connection", float(s), [(labels[a], labels[b]) for a, b in pr], {"FLOH": v, "FLOG": w}))
    src, res, k, kw = wrap(ch, outs, ns)
    if src.endswith("file") and ch.flag("connection=True"):
        kw["connection"] = True
    before = osnap(outs)
    ch.call("Mesh.read_output", m.read_output, res, **kw)
    ch.check(osnap(outs) == before, "read_output modified the results")
    cells = M.flat(blocks)
    cen = [M.mean([p[i] for i in c]) for _, c in cells]
    for name, v in zip(("FLOH", "FLOG"), vals[k]):
        want = [(0.0, 0.0, 0.0)] * n
        for (a, b), x in zip(pr, v):
            d = M.sub(cen[a], cen[b])
            d = M.mul(d, x / M.norm(d))
            into = a if x > 0 else b
            want[into] = M.add(want[into], d)
        g = np.asarray(m.cell_data[name])
        ch.check(g.shape == (n, 3), "{} has shape {}", name, g.shape)
        big = max([1e-12] + [abs(x) for x in v])
        for i in range(n):
            ch.check(all(abs(float(x) - y) <= 1e-12 * big for x, y in zip(g[i], want[i])), "{} of cell {} at step {} is {} instead of {}", name, i, k, g[i].tolist(), want[i])
    ch.check(set(m.cell_data) == set(cd) | {"FLOH", "FLOG"}, "cell data {}", list(m.cell_data))
    if cd:
        ch.check(list(m.cell_data["material"]) == list(range(1, n + 1)), "material is {}", m.cell_data["material"])
    ch.state((pr, vals))


def many(ch):
    """Results of many cells, in another order than the cells."""
    what = ch.free("results", ["element", "connection", "element file"])
    n = ch.free("size", Z.sizes(ch.tier, 2049 * (1 if ch.tier == "quick" else 8), 2))
    order = ch.free("order", ["same", "reversed", "one late", "spread"])
    p, c = M.strip("hexahedron", n)
    m = M.build(p, [("hexahedron", [x for _, x in c])])
    labels = [str(x) for x in m.labels]
    k = n - (what == "connection")
    idx = {"same": list(range(k)), "reversed": list(range(k))[::-1], "one late": [i for i in range(k) if i != 1] + [1], "spread": sorted(range(k), key=lambda i: (i * 7919) % 100003)}[order]
    if what == "connection":
        v = [(1 if i % 3 else -1) * (1.5 * i + 0.25) for i in range(k)]
        res = output("connection", 1.0, [(labels[i], labels[i + 1]) for i in idx], {"F": [v[i] for i in idx]})
    else:
        v = [1.0e5 + i * 0.5 for i in range(k)]
        res = output("element", 1.0, [labels[i] for i in idx], {"F": [v[i] for i in idx]})
    if what == "element file":
        f = ch.path("OUT.csv")
        with open(f, "w") as g:
            g.write(RO.enc_csv([(1.0, [labels[i] for i in idx], {"F": [v[i] for i in idx]})], num="{:24.16E}"))
        res = f
    ch.call("Mesh.read_output", m.read_output, res)
    got = np.asarray(m.cell_data["F"])
    if what == "connection":
        want = [[0.0] * 3 for _ in range(n)]
        cen = [M.mean([p[j] for j in x]) for _, x in c]
        for i, x in enumerate(v):
            d = M.sub(cen[i], cen[i + 1])
            into = i if x > 0 else i + 1
            want[into] = M.add(want[into], M.mul(d, x / M.norm(d)))
        ch.check(got.shape == (n, 3) and np.allclose(got, want, rtol=1e-12, atol=1e-9), "flows of the cells are wrong")
    else:
        ch.check(got.shape == (n,) and got.tolist() == v, "values of the cells are wrong")
    ch.state((what, n, order))


def refuse(ch):
    p, blocks, n, m, cd = make(ch, ["2 wedges", "tower"])
    labels = [str(x) for x in m.labels]
    outs = [output("element", float(s), labels, {"P": [float(i) for i in range(n)]}) for s in range(2)]
    what = ch.free("what", ["step too large", "step too small", "step not an integer", "not results", "too few rows", "too many rows", "another label", "empty list"])
    res, kw, err = outs, {}, (ValueError,)
    if what == "step too large":
        kw = {"time_step": 2}
    elif what == "step too small":
        kw = {"time_step": -3}
    elif what == "step not an integer":
        kw, err = {"time_step": 0.0}, (TypeError,)
    elif what == "not results":
        res, err = 3, (TypeError,)
    elif what == "too few rows":
        res = output("element", 0.0, labels[1:], {"P": [1.0] * (n - 1)})
    elif what == "too many rows":
        res = output("element", 0.0, labels + ["ZZZ99"], {"P": [1.0] * (n + 1)})
    elif what == "another label":
        res, err = output("element", 0.0, labels[1:] + ["ZZZ99"], {"P": [1.0] * n}), (Exception,)
    elif what == "empty list":
        res = []
    before = M.snap(m)
    ch.raises("Mesh.read_output", err, m.read_output, res, **kw)
    ch.check(M.eq(M.snap(m), before), "the refused call modified the mesh")


def drivers(tier):
    b = 4 if tier == "quick" else 6
    return [Driver("element", element, b), Driver("connection", connection, b), Driver("refuse", refuse, 1), Driver("many", many, 0, "many cells", cpu=120)]
