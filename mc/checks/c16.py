"""Output and mesh files cut anywhere: reading ends, complete steps are right."""
import itertools

import numpy as np
import toughio

from ..engine import Driver, Violation
from .. import output_common as O
from .. import ref_output as R

ASSUMPTIONS = ["fault model: the file stops after any byte; mesh files are the ones toughio writes for small meshes"]


def M0(conn=False):
    M = []
    for s in range(2):
        M.append((1.0 + 2e6 * s, O.labels(2, 5, conn), {"X": [1.5 + s, 2.5], "Y": [0.25, -4.0 - s], "PRES": [1e5 + s, -1.125e-3]}))
    return M


def sources():
    out = []
    for f, c, enc in (("csv", False, R.enc_csv), ("csv", True, lambda M: R.enc_csv(M, True)), ("petrasim", False, R.enc_petrasim), ("tecplot", False, R.enc_tecplot),
                      ("tecplot", False, lambda M: R.enc_tecplot(M, title=True))):
        out.append((f, c, enc(M0(c)), O.rounded(M0(c), "{:.12e}", {"csv": "{:.8e}", "petrasim": "{:.12e}", "tecplot": "{:.7e}"}[f])))
    EM, CM = M0(), M0(True)
    text = R.enc_listing(EM, CM)
    from .c13 import expect

    out.append(("tough", False, text, expect(EM, 12, 5)))
    out.append(("tough", True, text, expect(CM, 12, 5)))
    return out


def steps_complete(fmt, conn, text, k):
    """How many leading steps are entirely in text[:k]?"""
    part = text[:k]
    if fmt == "csv":
        marks = [i for i in range(len(text)) if text.startswith('"TIME', i)] + [len(text)]
        return sum(1 for m in marks[1:] if k >= m)
    if fmt == "petrasim":
        lines = part.count("\n")
        return max(0, (lines - 1) // 2)
    if fmt == "tecplot":
        marks = [i for i in range(len(text)) if text.startswith("ZONE", i)] + [len(text)]
        return sum(1 for m in marks[1:] if k >= m)
    n, pos = 0, 0
    key = "ELEM1" if conn else "ELEM."
    while True:
        i = text.find(key, pos)
        if i < 0:
            return n
        j = text.index("@@@@@", i) + 5
        if j > k:
            return n
        n, pos = n + 1, j


def outputs(ch):
    fmt, conn, text, E = ch.free("file", sources())
    k = ch.free("stops after byte", list(range(0, len(text) + 1, 1 if ch.tier != "quick" or fmt != "tough" else 2)))
    p = ch.path("out")
    with open(p, "w") as f:
        f.write(text[:k])
    ch.calls += 1
    try:
        got = toughio.read_output(p, connection=conn)
    except Exception as e:
        if isinstance(e, (MemoryError, RecursionError)):
            raise Violation("reading a truncated file: {}".format(type(e).__name__))
        ch.state((fmt, conn, "refused", type(e).__name__, k))
        ch.validated()
        return
    n = steps_complete(fmt, conn, text, k)
    ch.check(len(got) >= n, "{} complete steps but {} were returned", n, len(got))
    if n:
        O.compare(ch, got[:n], E[:n], conn, "complete steps of a truncated file", labels=fmt != "tecplot")
    ch.state((fmt, conn, n, len(got), k))


HEAD = ["PRES", "TEMP", "FLOW"]
HIST = [(float(i), 1e5 + i, 20.5 - i, -1.25e-3 * i) for i in range(3)]


def others():
    save = ["INCON -- INITIAL CONDITIONS FOR     2 ELEMENTS AT TIME  0.315576E+08"]
    for i, l in enumerate(["AAA 0", "AAA 1"]):
        save += [l.ljust(15) + R.fort(0.1 * (i + 1), 15, 8), "".join(R.fort(v, 20, 13) for v in (1e5 + i, 20.0, 0.5))]
    save += ["+++", "    1    3    1 0.00000000E+00 0.31557600E+08"]
    hist = ",".join('"{:>12}"'.format(h) for h in ["TIME(S)"] + HEAD) + "\n" + "".join(",".join("{:20.12E}".format(x) for x in row) + "\n" for row in HIST)
    return [("SAVE", "\n".join(save) + "\n", toughio.read_output), ("history", hist, toughio.read_history),
            ("history-blank", hist.replace('"', " ").replace(",", " "), toughio.read_history)]


def simple(ch):
    name, text, fn = ch.free("file", others())
    k = ch.free("stops after byte", list(range(len(text) + 1)))
    got = _ends(ch, name, text[:k].encode(), fn, k)
    if got is None:
        return
    lines = text[:k].count("\n")
    if name == "SAVE":
        n = max(0, (lines - 1) // 2)  # records of two lines each
        lab = [str(x) for x in got.labels]
        ch.check(lab[: min(n, 2)] == ["AAA 0", "AAA 1"][:n], "{} complete records but labels are {}", n, lab)
        for i in range(min(n, 2)):
            want = {"X1": 1e5 + i, "X2": 20.0, "X3": 0.5, "porosity": 0.1 * (i + 1)}
            for key, v in want.items():
                ch.check(key in got.data and abs(float(got.data[key][i]) - v) <= 1e-6 * v, "{} of complete record {} is {} instead of {}", key, i, got.data.get(key), v)
    else:
        n = max(0, lines - 1)
        if n:
            ch.check(list(got) == ["TIME"] + HEAD, "columns are {}", list(got))
        for j, key in enumerate(["TIME"] + HEAD if n else []):
            want = [row[j] for row in HIST[:n]]
            ch.check([float(x) for x in got[key]][:n] == want, "{} of {} complete records is {} instead of {}", key, n, got[key], want)


def _ends(ch, name, data, fn, k):
    p = ch.path("file")
    with open(p, "wb") as f:
        f.write(data)
    ch.calls += 1
    try:
        out = fn(p)
        r = "ok"
    except Exception as e:
        if isinstance(e, (MemoryError, RecursionError)):
            raise Violation("reading a truncated {} file: {}".format(name, type(e).__name__))
        out, r = None, type(e).__name__
    ch.validated()
    ch.state((name, k, r))
    return out


_MESH, _FULL = {}, {}


def mesh_files(scratch):
    """Bytes of every mesh format for two small meshes (written once per process)."""
    if _MESH:
        return _MESH
    import os

    hexa = toughio.meshmaker.structured_grid([1.0, 2.0], [1.0], [1.0])
    tri = toughio.meshmaker.triangulate(np.array([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.5]]))
    for mname, m in (("hexa", hexa), ("tri", tri)):
        m.add_cell_data("material", np.ones(m.n_cells, dtype=int))
        m.add_cell_data("a", np.arange(m.n_cells, dtype=float))
        m.add_point_data("b", np.arange(m.n_points, dtype=float))
        for f, ext, kw in (("avsucd", ".avs", {}), ("flac3d", ".f3grid", {}), ("flac3d", ".f3grid", {"binary": True}), ("tecplot", ".tec", {}), ("tough", "", {}), ("pickle", ".pickle", {})):
            if mname == "tri" and f in ("flac3d", "tough"):
                continue
            p = os.path.join(scratch, "m" + ext)
            m.write(p, file_format=f, **kw)
            with open(p, "rb") as h:
                _MESH[(mname, f, "binary" if kw else "")] = h.read()
    return _MESH


def meshes(ch):
    files = mesh_files(ch.scratch)
    key = ch.free("mesh file", sorted(files))
    data = files[key]
    step = 1 if ch.tier != "quick" else 2
    if key[1] == "pickle":
        step *= 7
    k = ch.free("stops after byte", list(range(0, len(data) + 1, step)))
    rd = lambda p: toughio.read_mesh(p, file_format=key[1])
    got = _ends(ch, "{} mesh".format(key[1]), data[:k], rd, k)
    if got is None or isinstance(got, dict):
        return
    if key not in _FULL:
        p = ch.path("full")
        with open(p, "wb") as f:
            f.write(data)
        _FULL[key] = rd(p)
    full = _FULL[key]
    want = [tuple(float(x) for x in q) for q in full.points]
    pts = [tuple(float(x) for x in q) for q in got.points]
    cells = [(b.type, tuple(c)) for b in got.cells for c in np.asarray(b.data).tolist()]
    fcells = [(b.type, tuple(c)) for b in full.cells for c in np.asarray(b.data).tolist()]
    np_, nc = len(want), len(fcells)
    if key[1] == "flac3d":
        # records are lines: those that are complete hold what was written
        if not k:
            np_ = nc = 0  # an empty file is an ASCII file without records
        elif not key[2]:
            rec = data[:k].decode().split("\n")[:-1]
            np_ = sum(1 for r in rec if r.startswith("G "))
            nc = sum(1 for r in rec if r.startswith("Z "))
    ch.check(pts[:np_] == want[:np_], "{} mesh: points of complete records are {}", key[1], pts[:np_])
    ch.check(cells[:nc] == fcells[:nc], "{} mesh: cells of complete records are {}", key[1], cells[:nc])
    if nc == len(fcells) and key[1] != "flac3d":
        for name in full.cell_data:
            ch.check(name in got.cell_data and np.array_equal(got.cell_data[name][:-1], full.cell_data[name][:-1]), "{} mesh: data '{}' of complete records is {}", key[1], name, got.cell_data.get(name))


def drivers(tier):
    return [
        Driver("outputs", outputs, 0, "csv, petrasim, tecplot, listing cut at every byte"),
        Driver("save-history", simple, 0, "SAVE and history files cut at every byte"),
        Driver("meshes", meshes, 0, "AVS-UCD, FLAC3D (ASCII, binary), Tecplot, MESH, pickle files cut at every byte"),
    ]
