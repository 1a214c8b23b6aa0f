"""INCON files written from a mesh."""
import os

import numpy as np
import toughio

from ..engine import Driver
from .. import long as Z
from .. import mesh_common as M
from .. import mesh_file as F
from .. import ref_input as RI

ASSUMPTIONS = ["unset primary variables are marked by values <= -1.0e9, as meshes do"]

VALS = [1.0e5, 0.0, -5.0, 20.123456789012, 1e-30, -1.0e-12, 9.9e8, -9.0e8, -3.7512345678901234e-120, 1.0e-150, -1.2345678901234567e-101]


def incon(ch, long=False):
    topo = ch.free("mesh", ["2 wedges", "tower", "hexahedron"])
    p, c = M.LIB[topo]()
    blocks = M.group([(t, tuple(v)) for t, v in c], True)
    n = len(M.flat(blocks))
    L = ch.free("label length", [8, 9]) if long else ch.choose("label length", [None, 5, 6, 7])
    k = ch.choose("primary variables", [3, 1, 2, 4, 5, 8, 0])
    rows = []
    for i in range(n):
        row = []
        for j in range(k):
            v = 1.0e5 * (i + 1) + j + 0.125
            if i in (0, n - 1) and j in (0, 1, 4, k - 1):
                v = ch.choose("value {},{}".format(i, j), [v, None] + VALS)
            row.append(v)
        if i in (0, n - 1) and k and ch.flag("nothing set in cell {}".format(i)):
            row = [None] * k
        elif k > 4 and i == n - 1 and ch.flag("first four unset"):
            row[:4] = [None] * 4
        rows.append(row)
    por = ch.choose("porosity", [None, [0.1 + 0.01 * i for i in range(n)], [0.0] * n, [1.2345678901e-101] + [-1.5e-3] * (n - 1)])
    pk = ch.choose("permeability", [None, "1d", "3 columns", "1d tiny", "3 columns tiny"])
    perm = {None: None, "1d": [[1e-12 * (i + 1)] for i in range(n)], "3 columns": [[1e-12 * (i + 1), 2e-13, 5.5e-15] for i in range(n)], "1d tiny": [[1.234e-99] for i in range(n)], "3 columns tiny": [[-1.234e-101, 1.5678e-120, 1.0e-15] for i in range(n)]}[pk]
    cd = {}
    if k:
        cd["initial_condition"] = np.array([[-1.0e9 if v is None else v for v in r] for r in rows])
    else:
        rows = [[None] * 4 for _ in range(n)]
    if por is not None:
        cd["porosity"] = np.array(por)
    if perm is not None:
        cd["permeability"] = np.array([r[0] for r in perm]) if pk.startswith("1d") else np.array(perm)
    m = M.build(M.ints(p), blocks, cell_data=cd)
    m.label_length = L
    before = M.snap(m)
    how = ch.choose("call", ["write_tough(incon)", "write_incon", "write_tough()"])
    d = ch.path("sub")
    os.mkdir(d)
    f = os.path.join(d, "INCON")
    if how == "write_incon":
        f = os.path.join(d, ch.choose("name", ["INCON", "other.txt"]))
        ch.call("write_incon", m.write_incon, f)
    else:
        ch.call("write_tough", m.write_tough, os.path.join(d, "MESH"), incon=how.endswith("(incon)"))
    unset = all(v is None for r in rows for v in r)
    if how == "write_tough()" or unset:
        ch.check(not os.path.exists(f), "INCON written although {}", "not asked for" if not unset else "nothing is set")
        ch.state(None)
    else:
        ch.check(os.path.exists(f), "INCON was not written")
        text = open(f).read()
        D = RI.decode(text, L or 5, nvals=max(k, 1), have_title=False)
        F.check_incon(ch, D, [F.label(i, L or 5) for i in range(n)], rows, por, perm)
        ch.state(text)
    ch.check(M.snap(m) == before, "writing INCON modified the mesh")


def many(ch):
    """Many cells, of which some or all are set."""
    n = ch.free("size", Z.sizes(ch.tier, 2049 * (1 if ch.tier == "quick" else 8), 2))
    some = ch.free("set", Z.some(n, ["all", "every other", "last", "first"]))
    k = ch.free("primary variables", Z.some(n, [3, 6]))
    por, perm = ch.free("properties", Z.some(n, [(True, True), (False, False)]))
    p, c = M.strip("hexahedron", n)
    rows = [[1.0e5 + i + j if {"all": True, "every other": i % 2, "last": i == n - 1, "first": i == 0}[some] else None for j in range(k)] for i in range(n)]
    cd = {"initial_condition": np.array([[-1.0e9 if v is None else v for v in r] for r in rows])}
    P = [0.1 + 0.5 * i / n for i in range(n)] if por else None
    K = [[1e-12 * (i % 97 + 1)] for i in range(n)] if perm else None
    if por:
        cd["porosity"], cd["permeability"] = np.array(P), np.array([x[0] for x in K])
    m = M.build(p, M.group(c, True), cell_data=cd)
    f = ch.path("INCON")
    ch.call("write_incon", m.write_incon, f)
    F.check_incon(ch, RI.decode(open(f).read(), 5, nvals=k, have_title=False), [F.label(i) for i in range(n)], rows, P, K)
    ch.state((n, some, k, por))


def refuse(ch):
    p, c = M.LIB["tower"]()
    blocks = M.group([(t, tuple(v)) for t, v in c], True)
    n = 4
    k, a = ch.free("array", [("porosity", np.ones(3)), ("porosity", np.ones((4, 2))), ("permeability", np.ones(5)), ("permeability", np.ones((4, 2))), ("permeability", np.ones((3, 3))), ("permeability", np.ones((4, 1, 3)))])
    m = M.build(M.ints(p), blocks, cell_data={"initial_condition": np.ones((4, 2)), k: a})
    f = ch.path("INCON")
    ch.raises("write_incon", (ValueError,), m.write_incon, f)
    ch.check(not os.path.exists(f), "INCON was written")


def drivers(tier):
    b = 2 if tier == "quick" else 3
    return [Driver("long labels", lambda ch: incon(ch, True), b - 2), Driver("incon", incon, b), Driver("refuse", refuse, 0), Driver("many", many, 0, "many cells", cpu=120)]
