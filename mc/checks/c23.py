"""Cylindric grids: annular volumes and areas, in the mesh and in MESH."""
import itertools
import math

import numpy as np
import toughio

from ..engine import Driver
from .. import long as Z
from .. import mesh_common as M
from .. import mesh_file as F
from .. import ref_input as RI
from .c22 import order3, small

ASSUMPTIONS = ["spacings exact in binary"]

DRS = [[1.0], [0.5, 2.0], [1.0, 4.0, 0.25], [2, 3], [100, 200]]
DZS = [[1.0], [2.0, 0.5], [4.0, 1.0, 0.25], [200, 100]]


def reference(dr, dz, z0, layer):
    r = [float(s) for s in itertools.accumulate(dr, initial=0)]
    z = [z0 + float(s) for s in itertools.accumulate(dz, initial=0)]
    cells = [(i, k) for i, _, k in order3(len(dr), 1, len(dz), layer)]
    return r, z, cells


def cyl(ch):
    dr = ch.free("dr", DRS)
    dz = ch.free("dz", DZS)
    layer = ch.free("layer", [False, True])
    oz = ch.choose("origin_z", [None, -100.5, 0, 12.0])
    z0 = -float(sum(dz)) if oz is None else float(oz)
    conv = ch.choose("as", [list, np.array, tuple, small])
    kw = {} if oz is None else {"origin_z": oz}
    material = ch.choose("material", ["dfalt", "ROCK1"])
    if material != "dfalt":
        kw["material"] = material
    adr, adz = conv(dr), conv(dz)
    m = ch.call("cylindric_grid", toughio.meshmaker.cylindric_grid, adr, adz, layer=layer, **kw)
    how = ch.choose("then", ["as is", "deepcopy", "pickle", "label length", "prune", "prune a copy", "lowered", "materials"])
    if not isinstance(adr, tuple) and ch.flag("spacings are used for something else"):
        for a in (adr, adz):
            for i in range(len(a)):
                a[i] = 9
    if how == "deepcopy":
        import copy

        m = copy.deepcopy(m)
    elif how == "pickle":
        f = ch.path("m.pickle")
        ch.call("write", m.write, f)
        m = ch.call("read_mesh", toughio.read_mesh, f)
    elif how == "label length":
        m.label_length = 6
    elif how == "prune":
        ch.call("prune_duplicates", m.prune_duplicates)
    elif how == "prune a copy":
        m = ch.call("prune_duplicates", m.prune_duplicates, inplace=False)
    elif how == "lowered":
        m.points = np.asarray(m.points) - [0.0, 0.0, 1000.0]
        z0 -= 1000.0
    elif how == "materials":
        ch.call("set_material", m.set_material, "other", list(range(m.n_cells)))
        material = "other"
    r, z, cells = reference(dr, dz, z0, layer)
    rings(ch, m, r, z, cells, ch.path("MESH"), 6 if how == "label length" else 5, [material] * len(cells))


def rings(ch, m, r, z, cells, f, L, materials):
    n = len(cells)
    ch.check(m.n_cells == n, "{} cells", m.n_cells)
    cent = np.asarray(ch.call("centers", lambda: m.centers)).tolist()
    vol = ch.call("volumes", lambda: m.volumes)
    area = ch.call("face_areas", lambda: m.face_areas)
    faces = ch.call("faces", lambda: m.faces)
    pts = np.asarray(m.points).tolist()
    vols, face = [], {}
    for n_, (i, k) in enumerate(cells):
        c = ((r[i] + r[i + 1]) / 2, 0.0, (z[k] + z[k + 1]) / 2)
        ch.check(all(abs(a - b) < 1e-12 * max(1, abs(b)) for a, b in zip(cent[n_], c)), "center of ring {} layer {} is {} instead of {}", i, k, cent[n_], c)
        A = math.pi * (r[i + 1] ** 2 - r[i] ** 2)
        H = z[k + 1] - z[k]
        vols.append(A * H)
        ch.check(M.close(float(vol[n_]), A * H), "volume of ring {} layer {} is {} instead of {}", i, k, vol[n_], A * H)
        for fi, fv in enumerate(faces[n_]):
            ps = [pts[v] for v in fv]
            if all(p[2] == ps[0][2] for p in ps):
                want, face[n_, "z", ps[0][2] > c[2]] = A, A
            elif all(p[0] == ps[0][0] for p in ps):
                want = 2 * math.pi * ps[0][0] * H
                face[n_, "r", ps[0][0] > c[0]] = want
            else:
                want = (r[i + 1] - r[i]) * H
            ch.check(M.close(float(area[n_][fi]), want), "area of face {} of ring {} layer {} is {} instead of {}", ps, i, k, area[n_][fi], want)
    mats = [str(x) for x in m.materials]
    ch.check(mats == materials, "materials {}", mats)
    ch.call("write_tough", m.write_tough, f)
    D = RI.decode(open(f).read(), L, have_title=False)
    p = [tuple(q) for q in pts]
    blocks = [("hexahedron", [tuple(c) for c in m.cells[0].data.tolist()])]
    F.check_eleme(ch, D, p, blocks, mats, L, volumes=vols)
    areas = {}
    for (a, b) in M.adjacency(p, blocks):
        (ia, ka), (ib, kb) = cells[a], cells[b]
        areas[a, b] = face[a, "z", True] if ia == ib else face[a, "r", ib > ia]
    F.check_conne(ch, D, p, blocks, L, "line", None, areas)
    ch.state(open(f).read())


def many(ch):
    """Many rings, many layers."""
    what = ch.free("long", ["rings", "layers"])
    n = ch.free("size", Z.sizes(ch.tier, 1025 * (1 if ch.tier == "quick" else 5)))
    layer = ch.free("layer", Z.some(n, [False, True]))
    dr = [0.5 * (1 + i % 3) for i in range(n)] if what == "rings" else [1.0, 2.0]
    dz = [0.25 * (1 + i % 3) for i in range(n)] if what == "layers" else [2.0, 1.0]
    m = ch.call("cylindric_grid", toughio.meshmaker.cylindric_grid, dr, dz, origin_z=0.0, layer=layer)
    rings(ch, m, *reference(dr, dz, 0.0, layer), ch.path("MESH"), 5, ["dfalt"] * (2 * n))
    ch.state((what, n, layer))


def drivers(tier):
    return [Driver("many", many, 0, "many rings or layers", cpu=120), Driver("cylindric", cyl, 6 if tier == "quick" else 9)]
