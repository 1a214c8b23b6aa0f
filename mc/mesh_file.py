"""Reference content of MESH and INCON files written from a mesh."""
import os

import numpy as np
import toughio

from . import mesh_common as M
from . import ref_input as RI

ALNUM = "123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def label(i, L=5):
    n = L - 3
    q, r = divmod(i, 10 ** n)
    q, a = divmod(q, 35)
    q, b = divmod(q, 35)
    return "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[q % 26] + ALNUM[b] + ALNUM[a] + str(r).zfill(n)


def near(ch, got, want, digits, what, tol=0.0, width=10):
    """A number printed with this many digits after the point, fewer when the field is too narrow for them."""
    if want:
        digits = min(digits, width - (want < 0) - len("1.e{:+03d}".format(_exp(want))))
    ch.check(got is not None and abs(got - want) <= 0.51 * 10.0 ** (-digits) * (10.0 ** _exp(want)) * 1.0001 + tol + 1e-9 * abs(want), "{} is {} instead of {}", what, got, want)


def _exp(v):
    return int(np.floor(np.log10(abs(v)))) if v else 0


def check_eleme(ch, D, p, blocks, mats, L, bc=None, rename=None, end=(), coord=False, volumes=None):
    cells = M.flat(blocks)
    n = len(cells)
    names = [(rename or {}).get(m, m) for m in mats]
    order = [i for i in range(n) if mats[i] not in end] + [i for i in range(n) if mats[i] in end]
    labs = [label(i, L) for i in range(n)]
    ch.check(D["elements_order"] == [labs[i] for i in order], "elements are in order {} instead of {}", D["elements_order"], [labs[i] for i in order])
    ch.check(bool(D.get("coordinates")) == coord, "block COORD written: {}", D.get("coordinates"))
    big = max(abs(x) for q in p for x in q)
    for i in range(n):
        e = D["elements"][labs[i]]
        m = names[i]
        ch.check(e["material"] == (m.strip()[:5].strip() if isinstance(m, str) else str(m)), "material of {} is {!r} instead of {!r}", labs[i], e["material"], m)
        v = volumes[i] if volumes is not None else M.volume(p, cells[i])
        if bc is not None and bc[i]:
            v *= 1e50
        near(ch, e["volume"], v, 4, "volume of " + labs[i], 1e-9 * v * big)
        g = M.mean([p[k] for k in cells[i][1]])
        for k in range(3):
            near(ch, e["center"][k], g[k], 13 if coord else 3, "coordinate {} of {}".format(k, labs[i]), 1e-9 * big, 20 if coord else 10)
        ch.check(e["nseq"] is None and e["nadd"] is None and e["heat_exchange_area"] is None and e["permeability_modifier"] is None, "element {} has unexpected fields: {}", labs[i], e)


def check_conne(ch, D, p, blocks, L, how="line", bc=None, areas=None):
    cells = M.flat(blocks)
    adj = M.adjacency(p, blocks)
    n = len(cells)
    labs = [label(i, L) for i in range(n)]
    ind = {l: i for i, l in enumerate(labs)}
    C = D.get("connections", {})
    got = {}
    for lab, c in C.items():
        a, b = lab[:L], lab[L:]
        ch.check(a in ind and b in ind, "connection {!r} between unknown elements", lab)
        i, j = ind[a], ind[b]
        key = (min(i, j), max(i, j))
        ch.check(key not in got, "elements {} and {} are connected twice", a, b)
        got[key] = (i, j, c)
    ch.check(set(got) == set(adj), "connections {} instead of {}", sorted(got), sorted(adj))
    scale = max(abs(x) for q in p for x in q)
    for key, (i, j, c) in got.items():
        r = M.connection(p, blocks, i, j, adj[key], cells)
        what = "connection {}-{}: ".format(labs[i], labs[j])
        tol = 1e-9 * scale
        d1, d2 = r[how]
        if bc is not None:
            d1 = 1e-9 if bc[i] else d1
            d2 = 1e-9 if bc[j] else d2
        near(ch, c["nodal_distances"][0], d1, 4, what + "first distance", tol if d1 != 1e-9 else 0)
        near(ch, c["nodal_distances"][1], d2, 4, what + "second distance", tol if d2 != 1e-9 else 0)
        area = areas[key] if areas is not None else r["area"]
        near(ch, c["interface_area"], area, 4, what + "area", tol * area)
        ch.check(abs((c["gravity_cosine_angle"] or 0.0) - r["beta"]) <= 5.1e-4 * max(abs(r["beta"]), 1e-9), "{}cosine is {} instead of {}", what, c["gravity_cosine_angle"], r["beta"])
        d = r["dir"]
        axis = [k for k in range(3) if abs(d[k]) > 1e-6 * r["length"]]
        iso = c["permeability_direction"]
        exact = all(x == 0.0 or abs(x) > 1e-6 * r["length"] for x in d)
        if exact:
            ch.check(iso == (axis[0] + 1 if len(axis) == 1 else 1), "{}ISOT is {} for direction {}", what, iso, d)
        else:
            ch.check(iso in (1, 2, 3), "{}ISOT is {}", what, iso)
        ch.check(c["nseq"] is None and c["nadd"] == [None, None] and c["radiant_emittance_factor"] is None, "{}unexpected fields {}", what, c)


def check_incon(ch, D, labs, prim, por, perm):
    """prim: rows (value or None), por / perm: rows or None."""
    want = [i for i in range(len(labs)) if any(v is not None for v in prim[i]) or por is not None or perm is not None]
    ch.check(D["initial_conditions_order"] == [labs[i] for i in want], "INCON lists {} instead of {}", D["initial_conditions_order"], [labs[i] for i in want])
    for i in want:
        r = D["initial_conditions"][labs[i]]
        if por is None:
            ch.check(r["porosity"] is None, "{} has porosity {}", labs[i], r["porosity"])
        else:
            near(ch, r["porosity"], por[i], 9, "porosity of " + labs[i], width=15)
        u = [] if perm is None else perm[i]
        ch.check(len(r["userx"]) == len(u), "{} has permeability modifiers {} instead of {}", labs[i], r["userx"], u)
        for a, b in zip(r["userx"], u):
            near(ch, a, b, 3, "permeability modifier of " + labs[i])
        v = RI.trim(prim[i])
        ch.check(len(r["values"]) == len(v), "{} has values {} instead of {}", labs[i], r["values"], v)
        for a, b in zip(r["values"], v):
            if b is None:
                ch.check(a is None, "{} has value {} where none was set", labs[i], a)
            else:
                near(ch, a, b, 13, "primary variable of " + labs[i], width=20)
