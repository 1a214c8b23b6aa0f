"""Meshes have no memory: what a mesh says depends on what it holds, not on its history."""
import copy

import meshio
import numpy as np
import toughio

from ..engine import Driver
from .. import mesh_common as M

ASSUMPTIONS = ["arrays are modified through the attributes of the mesh (points, cells, data, label_length) or in place"]

VIEWS = {
    "n_points": lambda m: m.n_points,
    "n_cells": lambda m: m.n_cells,
    "labels": lambda m: np.asarray(m.labels),
    "label_length": lambda m: m.label_length,
    "centers": lambda m: m.centers,
    "volumes": lambda m: m.volumes,
    "materials": lambda m: np.asarray(m.materials),
    "faces": lambda m: m.faces,
    "face_normals": lambda m: m.face_normals,
    "face_areas": lambda m: m.face_areas,
    "connections": lambda m: m.connections,
    "qualities": lambda m: m.qualities,
    "cells_dict": lambda m: m.cells_dict,
    "split": lambda m: m.split(np.arange(m.n_cells)),
    "near": lambda m: int(m.near(m.centers[-1])),
    "repr": repr,
    "filter": lambda m: np.asarray(m.filter.box(x0=0.25)),
    "points": lambda m: m.points,
    "cells": lambda m: [(c.type, c.data) for c in m.cells],
    "point_data": lambda m: m.point_data,
    "cell_data": lambda m: m.cell_data,
    "field_data": lambda m: m.field_data,
}
SCRATCH = {}  # contents -> answers of a mesh made from scratch
D3 = ["volumes", "faces", "face_normals", "face_areas", "connections", "qualities"]


def clone(m):
    """A mesh made from scratch with the same contents."""
    c = lambda x: copy.deepcopy(x)
    x = toughio.Mesh(np.array(m.points), [(b.type, np.array(b.data)) for b in m.cells], c(dict(m.point_data)), c(dict(m.cell_data)), c(dict(m.field_data)), c(dict(m.point_sets)), c(dict(m.cell_sets)))
    x.label_length = m.label_length
    return x


def digest(m, names):
    out = {}
    for k in names:
        try:
            out[k] = M.snap(VIEWS[k](m))
        except (ValueError, IndexError, KeyError, TypeError) as e:
            out[k] = "raises " + type(e).__name__
    return out


def start(ch):
    kind = ch.free("start", ["grid", "tower", "flat", "flat in 3D"])
    if kind == "grid":
        m = toughio.meshmaker.structured_grid([1.0, 2.0], [1.0], [1.0, 1.0])
    elif kind == "tower":
        p, c = M.LIB["tower"]()
        m = M.build(M.ints(p), M.group([(t, tuple(v)) for t, v in c], True), cell_data={"material": np.array([2, 1, 1, 5])}, field_data={"a": np.array([1, 3]), "bb": np.array([2, 3]), "c": np.array([5, 3])})
    else:
        p = [(0.0, 0.0), (1.0, 0.0), (2.0, 0.0), (0.0, 1.0), (1.0, 1.0), (2.0, 1.0)]
        if "3D" in kind:
            p = [q + (0.0,) for q in p]
        m = M.build(p, [("quad", [(0, 1, 4, 3)]), ("triangle", [(1, 2, 4), (2, 5, 4)])], cell_data={"material": np.array([1, 2, 1])}, field_data={"a": np.array([1, 2]), "bb": np.array([2, 2])})
    return kind, m


def is3d(m):
    return all(c.type in M.FACES for c in m.cells)


def apply(ch, k, op, m):
    n = m.n_cells
    if op == "points":
        how = ch.choose("points {}".format(k), ["stretch", "shift"])
        m.points = np.array(m.points) * 2.0 if how == "stretch" else np.array(m.points) + 0.5
    elif op == "points in place":
        m.points[:, 0] *= 3.0
    elif op == "drop last cell":
        last = m.cells[-1]
        cells = [(c.type, c.data) for c in m.cells[:-1]] + ([(last.type, last.data[:-1])] if len(last.data) > 1 else [])
        if not cells:
            return m
        m.cells = cells
        m.cell_data = {a: np.asarray(v)[:-1] for a, v in m.cell_data.items()}
    elif op == "reverse cells":
        m.cells = [(c.type, c.data[::-1]) for c in m.cells[::-1]]
        m.cell_data = {a: np.asarray(v)[::-1] for a, v in m.cell_data.items()}
    elif op == "vertices in place":
        # renumber two points
        a, b = m.cells[0].data[0][0], m.n_points - 1
        for c in m.cells:
            x, y = c.data == a, c.data == b
            c.data[x], c.data[y] = b, a
        m.points[[a, b]] = m.points[[b, a]]
    elif op == "cells as dict":
        if len({c.type for c in m.cells}) == len(m.cells):
            m.cells = {c.type: c.data for c in m.cells}
    elif op == "label length":
        m.label_length = ch.choose("length {}".format(k), [6, 7, None, 5])
    elif op == "material":
        if "material" not in m.cell_data:
            return m
        ch.call("set_material", m.set_material, ch.choose("name {}".format(k), ["new", "a"]), [0])
    elif op == "cell data":
        ch.call("add_cell_data", m.add_cell_data, "v", np.arange(float(n)) + k)
    elif op == "point data":
        ch.call("add_point_data", m.add_point_data, "t", np.arange(float(m.n_points)) + k)
    elif op == "interpolate":
        if not is3d(m) or len({int(i) for c in m.cells for i in np.asarray(c.data).ravel()}) < m.n_points:
            return m
        m.cell_data["w"] = np.arange(float(n))
        ch.call("cell_data_to_point_data", m.cell_data_to_point_data)
    elif op == "extrude":
        if is3d(m) or not all(c.type in ("quad", "triangle") for c in m.cells) or m.points.shape[1] == 3 and len(set(m.points[:, 2])) > 1:
            return m
        ch.call("extrude_to_3d", m.extrude_to_3d, [1.0, 2.0])
    elif op == "prune":
        ch.call("prune_duplicates", m.prune_duplicates)
    elif op == "results":
        outs = [toughio.Output("element", "csv", float(t), np.array(m.labels), {"P": np.arange(float(n)) + t}) for t in range(2)]
        ch.call("read_output", m.read_output, outs)
    elif op == "copy":
        m = copy.deepcopy(m)
    elif op == "meshio":
        m = ch.call("from_meshio", toughio.from_meshio, ch.call("to_meshio", m.to_meshio))
    elif op == "write":
        if is3d(m):
            ch.call("write_tough", m.write_tough, ch.path("MESH"))
    return m


OPS = ["stop", "points", "points in place", "drop last cell", "reverse cells", "vertices in place", "cells as dict", "label length", "material", "cell data", "point data", "interpolate", "extrude", "prune", "results",
       "copy", "meshio", "write"]


def summary(ch, m, text):
    """The printed summary tells what the mesh holds."""
    words = text.replace(",", " ").replace(":", " ").split()
    ch.check(str(len(m.points)) in words, "the summary of {} points is {}", len(m.points), text)
    at = 0
    for c in m.cells:
        i = [j for j in range(at, len(words) - 1) if words[j] == c.type and words[j + 1] == str(len(c.data))]
        ch.check(bool(i), "the summary does not tell {} {}: {}", len(c.data), c.type, text)
        at = i[0] + 1
    for names in (m.point_data, m.cell_data, m.point_sets):
        ch.check(all(k in words for k in names), "the summary does not tell {}: {}", list(names), text)


def history(ch):
    kind, m = start(ch)
    depth = 3 if ch.tier == "quick" else 4
    other = clone(m)
    held = digest(other, VIEWS)
    for k in range(depth + 1):
        names = list(VIEWS) if is3d(m) else [v for v in VIEWS if v not in D3]
        content = M.snap(m)
        mark = repr(content)
        new = mark not in SCRATCH
        if new:
            SCRATCH[mark] = digest(clone(m), names)
        want = SCRATCH[mark]
        got = digest(m, names)
        ch.calls += len(names)
        for v in names:
            ch.check(M.eq(got[v], want[v]), "{} is {} instead of {}", v, got[v], want[v])
        if new:  # the first answers must not change the second ones
            again = digest(m, names[::-1])
            ch.calls += len(names)
            for v in names:
                ch.check(M.eq(again[v], want[v]), "{} asked again is {} instead of {}", v, again[v], want[v])
        ch.check(M.eq(M.snap(m), content), "asking modified the mesh")
        ch.check(len(got["labels"][2]) == len(got["centers"][2]) == got["n_cells"] == sum(len(x) for _, _, x in got["split"]), "views of the mesh have different lengths")
        summary(ch, m, repr(m))
        ch.state((kind, content))
        if k == depth:
            break
        op = ch.choose("step {}".format(k), OPS)
        if op == "stop":
            break
        m = apply(ch, k, op, m)
    ch.check(digest(other, VIEWS) == held, "edits of a mesh modified another one")


def drivers(tier):
    return [Driver("history", history, 3 if tier == "quick" else 5, what="every history of edits up to the depth; every view compared with that of a mesh made from scratch", bounds={"depth": 3 if tier == "quick" else 4})]
