"""toughio-extract: listing + MESH to tables."""
import os

import numpy as np
import toughio

from ..engine import Driver
from .. import long as Z
from .. import output_common as O
from .. import ref_input as RI
from .. import ref_output as R

ASSUMPTIONS = [
    "the listing prints the same cells in the same order at every step; MESH gives the center of every cell",
    "csv / petrasim: variable names without commas; tecplot: without blanks (the simulator prints none)",
]

DEC = {"csv": R.dec_csv, "petrasim": R.dec_petrasim, "tecplot": R.dec_tecplot}
TIME = {"csv": "{:.8e}", "petrasim": "{:.12e}", "tecplot": "{:.7e}"}


def mesh_text(ch, labs, centers, conns, L, where):
    U = {"elements": {l: {"volume": 1.0 + i, "material": "ROCK1", "center": list(c)} for i, (l, c) in enumerate(zip(labs, centers))}}
    if conns:
        U["connections"] = {a + b: {"permeability_direction": 1, "nodal_distances": [1.0, 2.0], "interface_area": 1.5} for a, b in conns}
    block = "mesh"
    if where == "input file":
        U["title"] = "extract"
        U["rocks"] = {"ROCK1": {"density": 2600.0, "porosity": 0.1}}
        block = "all"
    return RI.encode(RI.expected(U, block, L), RI.Style(pad=ch.choose("padded", [True, False]), endcy=block == "all"), L, 2)


def setup(ch, connection):
    L = ch.choose("label length", [5, 6, 7, 8, 9])
    n = ch.choose("cells", [3, 2, 4])
    labs = O.labels(n, L, kind=ch.choose("labels", list(O.ALPHABETS)))
    conns = [(labs[i], labs[i + 1]) for i in range(n - 1)] + ([(labs[-1], labs[0])] if n > 2 else [])
    centers = [[10.0 * i + 0.5, -3.25 + i, -100.0 - 7.5 * i * i] for i in range(n)]
    centers[0] = ch.choose("center", [centers[0], [0.0, 0.0, 0.0], [-1.5, 2e5, 1e-3]])
    order = ch.choose("order in MESH", ["same", "reversed", "rotated", "more cells"])
    mlabs = {"same": labs, "reversed": labs[::-1], "rotated": labs[1:] + labs[:1], "more cells": labs}[order]
    cen = dict(zip(labs, centers))
    if order == "more cells":
        mlabs = ["ZZZ" + "0" * (L - 5) + "98"] + labs + ["ZZZ" + "0" * (L - 5) + "97"]
        for x in (mlabs[0], mlabs[-1]):
            cen[x] = [9.0, 9.0, 9.0]
    where = ch.choose("mesh in", ["MESH", "input file"])
    ns = ch.choose("steps", [2, 1, 3])
    names = ch.choose("variables", [["P", "T"], ["PRES"], ["P", "T", "SG", "X1", "FLOW"]])
    conne = ch.choose("connection table too", [True, False]) or connection
    EM, CM = [], []
    for s in range(ns):
        t = [1.0, 2.5e7, 3.1557e9][s]
        v = lambda i, j: (i + 1) * 1.125 + 100 * j - 7.0 * s + (-500 if j == 1 else 0)
        EM.append((t, labs, {k: [v(i, j) for i in range(n)] for j, k in enumerate(names)}))
        CM.append((t, conns, {k: [v(i, j) + 0.5 for i in range(len(conns))] for j, k in enumerate(["FLOH", "FLOG"])}))
    w, d = 13, 5
    text = R.enc_listing(EM, CM if conne else None, L=L, w=w, d=d, page=ch.choose("rows per page", [0, 2]), extra=ch.choose("other tables", [True, False]))
    f, m = ch.path("run.out"), ch.path(where.replace(" ", "_"))
    with open(f, "w") as g:
        g.write(text)
    with open(m, "w") as g:
        g.write(mesh_text(ch, mlabs, [cen[x] for x in mlabs], conns, L, where))
    E = O.rounded(CM if connection else EM, R.F(w, d), R.F(12, 5))
    pos = []
    for row in E[0][1]:
        ps = [cen[x] for x in (row if connection else [row])]
        pos.append([sum(p[k] for p in ps) / len(ps) for k in range(3)])
    full = [(t, lab, dict([(k, [p[i] for p in pos]) for i, k in enumerate("XYZ")] + list(data.items()))) for t, lab, data in E]
    return L, f, m, full


def extract(connection):
    def fn(ch):
        L, f, m, E = setup(ch, connection)
        fmt = ch.choose("format", ["default", "csv"] + ([] if connection else ["petrasim", "tecplot"]))
        split = ch.choose("split", ["", "--split", "-s"])
        given = ch.choose("output file", ["given", "default", "relative", "two dots", "no extension", "folder with a dot"])
        lab = ch.choose("label length option", [False, True])
        os.chdir(ch.scratch)
        argv = [f, m]
        name = fmt if fmt != "default" else "csv"
        ext = {"csv": ".csv", "petrasim": ".csv", "tecplot": ".tec"}[name]
        if given == "default":
            target = os.path.join(ch.scratch, ("OUTPUT_CONNE" if connection else "OUTPUT_ELEME") + ext)
        else:
            os.mkdir("res.dir")
            target = {"given": os.path.join(ch.scratch, "out" + ext), "relative": "rel" + ext, "two dots": os.path.join(ch.scratch, "out.v1" + ext),
                      "no extension": os.path.join(ch.scratch, "out"), "folder with a dot": os.path.join(ch.scratch, "res.dir", "out")}[given]
            argv += ["-o" if ch.choose("-o", [True, False]) else "--output-file", target]
        if fmt != "default":
            argv += ["--file-format" if ch.flag("long option") else "-f", fmt]
        if split:
            argv.append(split)
        if connection:
            argv.append(ch.choose("-c", ["-c", "--connection"]))
        if lab:
            argv += ["-l", str(L)]
        target = os.path.join(ch.scratch, target)
        src = [open(x).read() for x in (f, m)]
        had = listing(ch.scratch)
        ch.call("toughio-extract", toughio._cli.extract, argv)
        ch.check([open(x).read() for x in (f, m)] == src, "the source files were changed")
        h, x = os.path.splitext(target)
        files = ["{}_{}{}".format(h, i + 1, x) for i in range(len(E))] if split and len(E) > 1 else [target]
        new = sorted(set(listing(ch.scratch)) - set(had))
        ch.check(new == sorted(files), "files {} instead of {}", new, files)
        ch.state((L, E, files))
        W = O.rounded(E, "{:.12e}", TIME[name], ("X", "Y", "Z"))
        got = []
        for k, p in enumerate(files):
            with open(p) as g:
                text = g.read()
            try:
                D = DEC[name](text)
            except (ValueError, IndexError, KeyError) as e:
                ch.check(False, "the file written is not valid {}: {}", name, e)
            want = W if len(files) == 1 else W[k : k + 1]
            ch.check(len(D) == len(want), "{} steps in {}", len(D), p)
            for (t, lab1, d1), (t2, lab2, d2) in zip(D, want):
                ch.check(t == t2, "time {} instead of {}", t, t2)
                ch.check(name == "tecplot" or lab1 == list(lab2), "labels {} instead of {}", lab1, lab2)
                ch.check(list(d1) == list(d2), "variables {} instead of {}", list(d1), list(d2))
                for v in d2:
                    ch.check(len(d1[v]) == len(d2[v]) and all(O.same(a, b, 1e-11 if v in "XYZ" else 0) for a, b in zip(d1[v], d2[v])), "{} is {} instead of {}", v, d1[v], d2[v])
            got += list(ch.call("read_output", toughio.read_output, p))
        O.compare(ch, got, W, connection, "read_output", labels=name != "tecplot", rel=1e-11)

    return fn


def many(ch):
    """Many cells, connections or steps."""
    what = ch.free("long", ["cells", "connections", "steps", "steps, split"])
    n = ch.free("size", Z.sizes(ch.tier, (129 if "split" in what else 1025) * (1 if ch.tier == "quick" else 5)))
    k, ns = (3, n) if "steps" in what else (n, 2)
    conn = what == "connections"
    labs = Z.labels(k + 1)
    conns = list(zip(labs, labs[1:]))
    cen = {x: [float(i), -3.25, -10.0 * i] for i, x in enumerate(labs)}
    rows = conns if conn else labs
    T = [(100.0 * (s + 1), rows, {"P": [1.0e5 + i * 2.0 + s for i in range(len(rows))]}) for s in range(ns)]
    f, m, o = ch.path("run.out"), ch.path("MESH"), ch.path("out.csv")
    with open(f, "w") as g:
        g.write(R.enc_listing(None if conn else T, T if conn else None, w=16, d=8, extra=False))
    U = {"elements": {x: {"volume": 1.0, "material": "ROCK1", "center": cen[x]} for x in labs[::-1]}, "connections": {a + b: {"permeability_direction": 1, "nodal_distances": [1.0, 2.0], "interface_area": 1.5} for a, b in conns}}
    with open(m, "w") as g:
        g.write(RI.encode(RI.expected(U, "mesh", 5), RI.Style(endcy=False), 5, 2))
    ch.call("toughio-extract", toughio._cli.extract, [f, m, "-o", o] + (["-c"] if conn else []) + (["-s"] if "split" in what else []))
    files = [o] if "split" not in what else [o[:-4] + "_{}.csv".format(i + 1) for i in range(ns)]
    D = [x for q in files for x in R.dec_csv(open(q).read())]
    ch.check(len(D) == ns, "{} steps instead of {}", len(D), ns)
    pos = [[sum(cen[x][j] for x in (r if conn else [r])) / (2.0 if conn else 1.0) for r in rows] for j in range(3)]
    for (t, lab, d), (t2, lab2, d2) in zip(D, T):
        ch.check(t == t2 and lab == lab2 and d["P"] == d2["P"], "values at time {} are wrong", t)
        ch.check(all(abs(a - b) < 1e-6 for j in range(3) for a, b in zip(d["XYZ"[j]], pos[j])), "positions at time {} are wrong", t)
    ch.state((what, n))


def listing(d):
    return [os.path.join(a, x) for a, _, fs in os.walk(d) for x in fs]


def refuse(ch):
    """Nothing is written when the command is refused."""
    why = ch.free("reason", ["no listing", "no MESH", "connection to petrasim", "connection to tecplot", "cells missing in MESH", "other names in MESH", "MESH without elements", "csv instead of a listing"])
    conn = ch.free("connection", [False, True])
    split = ch.free("split", [False, True])
    labs = O.labels(3)
    conns = [(labs[0], labs[1]), (labs[1], labs[2])]
    EM = [(float(s), labs, {"P": [1.0, 2.0, 3.0]}) for s in range(2)]
    CM = [(float(s), conns, {"FLOH": [1.0, 2.0]}) for s in range(2)]
    f, m, o = ch.path("run.out"), ch.path("MESH"), ch.path("out.csv")
    with open(f, "w") as g:
        g.write(R.enc_csv(CM if conn else EM, conn) if why == "csv instead of a listing" else R.enc_listing(EM, CM))
    names = {"cells missing in MESH": labs[1:], "other names in MESH": ["BBB 0", "BBB 1", "BBB 2"]}.get(why, labs)
    with open(m, "w") as g:
        if why == "MESH without elements":
            g.write(RI.encode(RI.expected({"title": "x", "rocks": {"ROCK1": {"density": 1.0}}}, "all", 5), RI.Style(), 5, 2))
        else:
            g.write(mesh_text(ch, names, [[1.0, 2.0, 3.0]] * len(names), [], 5, "MESH"))
    for x in {"no listing": [f], "no MESH": [m]}.get(why, []):
        os.unlink(x)
    argv = [f, m, "-o", o] + (["-c"] if conn else []) + (["-s"] if split else [])
    if why.startswith("connection to"):
        argv += ["-f", why.split()[-1]] + ([] if conn else ["-c"])
    old = ch.free("target exists", [True, False])
    if old:
        with open(o, "w") as g:
            g.write("precious\n")
    had = sorted(listing(ch.scratch))
    ch.raises("toughio-extract", (ValueError,), toughio._cli.extract, argv)
    ch.check(sorted(listing(ch.scratch)) == had and (not old or open(o).read() == "precious\n"), "the refused command wrote files")
    ch.state((why, conn, split))


def drivers(tier):
    b = 4 if tier == "quick" else 6
    return [Driver("element", extract(False), b, "toughio-extract of element tables"), Driver("connection", extract(True), b, "toughio-extract -c"), Driver("refuse", refuse, 0, "full product"), Driver("many", many, 0, "many cells, connections or steps", cpu=120)]
