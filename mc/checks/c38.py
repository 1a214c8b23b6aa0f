"""File formats: extensions, explicit names, registered readers and writers."""
import itertools
import os

import numpy as np
import toughio

from ..engine import Driver
from .. import mesh_common as M
from .. import ref_output as R

ASSUMPTIONS = ["registered names and extensions are new or replace one another; the formats shipped with toughio are not replaced; extensions are registered in lower case with a dot"]

_N = [0]


def fresh():
    """Registrations last as long as the process: use new names in every execution."""
    _N[0] += 1
    return "{}x{}".format(os.getpid(), _N[0])


def recorder(log, who, mat):
    def reader(filename, **kw):
        log.append(("read", who, filename, kw))
        return payload(who, mat)

    def writer(filename, obj, **kw):
        log.append(("write", who, filename, obj, kw))
        with open(filename, "w") as f:
            f.write("written by {}\n".format(who))

    return reader, writer


KIND = [None]
MESH = [None]


def payload(who, mat):
    if KIND[0] == "mesh":
        m = M.build([(float(i), float(j), float(k)) for k in range(2) for j in range(2) for i in range(3)], [("hexahedron", [(0, 1, 4, 3, 6, 7, 10, 9)]), ("hexahedron", [(1, 2, 5, 4, 7, 8, 11, 10)])])
        m.cell_data = {mat: [np.array([1]), np.array([2])], "P": [np.array([1.5]), np.array([2.5])]}
        return m
    return {"title": who}


def registry(kind):
    """Every history of registrations and calls: the newest registration of an extension or name counts."""

    def fn(ch):
        KIND[0] = kind
        u = fresh()
        names = ["a" + u, "b" + u]
        exts = [".e" + u, ".f" + u]
        log = []
        reg = {"input": toughio.register_input, "mesh": toughio.register_mesh, "output": toughio.register_output}[kind]
        ext_model, rd, wr, mats = {}, {}, {}, {}
        n = ch.free("length", [3, 2, 1] if ch.tier == "quick" and kind == "mesh" else [3, 4, 2, 1] if ch.tier == "quick" or kind == "mesh" else [4, 5, 3, 2, 1])
        m = M.build(*M.LIB["2 wedges"]()[:1], [("wedge", [v for _, v in M.LIB["2 wedges"]()[1]])]) if kind == "mesh" else None
        for step in range(n):
            menu = ["register"] if step == 0 else ["write by extension", "read by extension", "register", "write by name", "read by name", "other format"]
            if step == 0 and n > 3:
                menu = ["register"]
            op = ch.free("op {}".format(step), menu)
            if op == "register":
                k = ch.free("name {}".format(step), [0, 1])
                es = ch.free("extensions {}".format(step), [[0], [1], [0, 1], []] if step else [[0], [0, 1]])
                w = ch.choose("writer {}".format(step), [True, False])
                who = "{}{}{}".format("ab"[k], step, u)
                mat = "other"
                if kind == "mesh" and ch.choose("material {}".format(step), [True, False]):
                    mat = "mat:registered"
                r_, w_ = recorder(log, who, mat)
                cont = ch.choose("extensions as {}".format(step), [list, tuple])
                kw = {} if mat == "other" else {"material": mat}
                mats[who] = "other" if mat == "other" else "material"
                ch.call("register", reg, names[k], cont([exts[i] for i in es]), r_, *([w_] if w else []), **kw)
                for i in es:
                    ext_model[i] = k
                rd[k] = who
                if w:
                    wr[k] = who
                continue
            if op == "other format":
                builtin(ch, kind)
                continue
            do = op.split()[0]
            if kind == "output" and do == "read":
                continue   # outputs are recognized by their content
            if op.endswith("name"):
                if kind == "input":
                    continue   # documented: only 'tough' and 'json' can be named
                have = sorted(rd if do == "read" else wr)
                if not have:
                    continue
                k = ch.free("format {}".format(step), have)
                e = ch.choose("file {}".format(step), ["", ".csv", ".json", ".vtk", exts[0]])
                kw = {"file_format": names[k]}
            else:
                have = [i for i in sorted(ext_model) if ext_model[i] in (rd if do == "read" else wr)]
                if not have:
                    continue
                i = ch.free("extension {}".format(step), have)
                k = ext_model[i]
                e = exts[i]
                e = ch.choose("case {}".format(step), [e, e.upper(), e.title()])
                kw = {}
            opt = ch.choose("option {}".format(step), [{}, {"flag": 3}])
            f = os.path.join(ch.scratch, ch.choose("stem {}".format(step), ["file", "file.csv", "a.json.b"]) + e)
            kw.update(opt)
            log.clear()
            if do == "read":
                want = rd[k]
                if kind == "input":
                    got = ch.call("read_input", toughio.read_input, f, **kw)
                    ch.check(got == {"title": want}, "read by {} instead of {}", got, want)
                else:
                    got = ch.call("read_mesh", toughio.read_mesh, f, **kw)
                    mat = mats[want]
                    ch.check(set(got.cell_data) == {mat, "P"}, "cell data {} instead of {}", list(got.cell_data), [mat, "P"])
                    ch.check(np.asarray(got.cell_data[mat]).tolist() == [1, 2] and np.asarray(got.cell_data["P"]).tolist() == [1.5, 2.5], "cell data {}", got.cell_data)
                ch.check(len(log) == 1 and log[0][:3] == ("read", want, f) and log[0][3] == opt, "calls {} instead of {}", log, ("read", want, f, opt))
            else:
                want = wr[k]
                if kind == "input":
                    obj = {"title": "t"}
                    ch.call("write_input", toughio.write_input, f, obj, **kw)
                    ok = log and log[0][3] == obj
                elif kind == "output":
                    o = toughio.Output("element", None, 1.0, np.array(["AAA 0"]), {"P": np.array([1.0])})
                    ch.call("write_output", toughio.write_output, f, o, **kw)
                    ok = log and list(log[0][3]) == [o]
                else:
                    m.cell_data = {"P": np.array([1.0, 2.0])}
                    before = M.snap(m)
                    ch.call("write_mesh", toughio.write_mesh, f, m, **kw)
                    ok = log and M.snap(np.asarray(log[0][3].points)) == M.snap(np.asarray(m.points)) and [np.asarray(x).tolist() for x in log[0][3].cell_data["P"]] == [[1.0, 2.0]]
                    ch.check(M.snap(m) == before, "write_mesh modified the mesh")
                ch.check(len(log) == 1 and log[0][:3] == ("write", want, f) and log[0][4] == opt, "calls {} instead of {}", [x[:3] for x in log], ("write", want, f, opt))
                ch.check(ok, "the writer was not given what was to be written")
                ch.check(open(f).read() == "written by {}\n".format(want), "file was rewritten")
            ch.state((kind, op, want.replace(u, ""), e.replace(u, ""), opt))
        ch.state(sorted(ext_model.items()))

    return fn


def builtin(ch, kind):
    """The formats shipped with toughio still work."""
    if kind == "input":
        f = ch.path("deck.JSON")
        ch.call("write_input", toughio.write_input, f, {"title": "t"})
        ch.check(open(f).read().lstrip().startswith("{"), "the .json file is not JSON")
        ch.check(ch.call("read_input", toughio.read_input, f)["title"] == "t", "the .json file was not read")
    elif kind == "output":
        f = ch.path("x.csv")
        ch.call("write_output", toughio.write_output, f, toughio.Output("element", None, 1.0, np.array(["AAA 0"]), {"P": np.array([1.0])}))
        ch.check(R.dec_csv(open(f).read()) == [(1.0, ["AAA 0"], {"P": [1.0]})], "the csv file says {}", open(f).read())
    else:
        f = ch.path("m.pickle")
        p, c = M.LIB["2 wedges"]()
        m = M.build(p, [("wedge", [v for _, v in c])])
        ch.call("write_mesh", toughio.write_mesh, f, m)
        ch.check(M.snap(ch.call("read_mesh", toughio.read_mesh, f)) == M.snap(m), "the pickled mesh changed")


def mesh_names(ch):
    """The extension (in any case) and the explicit name select the same format; the name wins."""
    p, c = M.LIB[ch.free("mesh", ["2x2x2", "tower"])]()
    blocks = M.group(c, True)
    n = len(M.flat(blocks))
    m = M.build(M.ints(p), blocks, cell_data={"material": np.ones(n, dtype=int)}, field_data={"ROCK1": np.array([1, 3])})
    fmt, ext = ch.free("format", [("tecplot", ".dat"), ("tecplot", ".tec"), ("flac3d", ".f3grid"), ("pickle", ".pickle"), ("pickle", ".pkl"), ("vtu", ".vtu"), ("vtk", ".vtk"), ("avsucd", None), ("tough", None)])
    if ext is None:
        w = ch.free("file", ["MESH", "x.dat", "x.vtk", "x.pickle"])
        a = ch.path(w)
        kw = {"file_format": fmt}
        ch.call("write", m.write, a, **kw)
    else:
        case = ch.free("case", [str, str.upper, str.title])
        a = ch.path("dir.x" + case(ext))
        kw = {}
        if case is not str and fmt in ("vtu", "vtk"):
            return    # left to meshio
        ch.call("write", m.write, a)
    b = ch.path(ch.free("second file", ["plain", "b.csv", "b.vtk", "b.dat", "b.f3grid", "b.pickle", "pickle", "dat"]))
    ch.call("toughio.write_mesh", toughio.write_mesh, b, m, file_format=fmt)
    rd = lambda f: open(f, "rb").read().replace(a.encode(), b.encode())
    ch.check(rd(a) == rd(b), "{} and {} differ", a, b)
    if fmt == "tough":
        g = ch.call("read_mesh", toughio.read_mesh, b, file_format="tough")
        ch.check(len(g["elements"]) == n, "{} elements", len(g["elements"]))
        ch.state((fmt, sorted(g)))
        return
    g1 = ch.call("read_mesh", toughio.read_mesh, a, **kw)
    g2 = ch.call("read_mesh", toughio.read_mesh, b, file_format=fmt)
    ch.check(M.eq(M.snap(g1), M.snap(g2)), "the two files are read differently")
    ch.check(g1.n_cells == n, "{} cells instead of {}", g1.n_cells, n)
    ch.state(M.snap(g1))


def place(ch, name, ext):
    """A file whose name (or the folder it is in) ends with this."""
    f = ch.path(name + ext)
    if "/" in ext:
        os.makedirs(os.path.dirname(f), exist_ok=True)
    return f


def outputs(ch):
    """write_output goes by the name of the format, else by the extension; read_output by the content."""
    fmt = ch.free("format", ["csv", "petrasim", "tecplot"])
    ext = ch.free("extension", ["", ".csv", ".CSV", ".tec", ".Tec", ".dat", ".json", "/csv", "/tec", ".csv/x", ".tec/x.csv"])
    named = ch.free("named", [True, False])
    f = place(ch, "out", ext)
    o = [toughio.Output("element", None, float(t), np.array(["AAA 0", "AAA 1"]), {"X": np.array([1.0, 2.0]), "Y": np.array([0.0, 2.0]), "P": np.array([3.0, 4.0])}) for t in (1, 2)]
    by = {".csv": "csv", ".tec": "tecplot", ".tec/x.csv": "csv"}.get(ext.lower())
    if not named and by is None:
        return
    ch.call("write_output", toughio.write_output, f, o, **({"file_format": fmt} if named else {}))
    want = fmt if named else by
    got = ch.call("read_output", toughio.read_output, f)
    ch.check([x.format for x in got] == [want] * 2 and [x.type for x in got] == ["element"] * 2, "read as {}", [x[:2] for x in got])
    ch.check([x.time for x in got] == [1.0, 2.0] and all(x.data["P"].tolist() == [3.0, 4.0] for x in got), "data changed")
    ch.state((fmt, ext, want))


def inputs(ch):
    U = {"title": "deck", "rocks": {"ROCK1": {"density": 2600.0}}, "times": [1.0, 2.0]}
    fmt = ch.free("format", ["tough", "json", None])
    ext = ch.free("extension", ["", ".json", ".JSON", ".Json", ".txt", ".csv", ".json.bak", ".vtk", "/json", ".json/deck", ".d/x.json"])
    f = place(ch, "deck", ext)
    ch.call("write_input", toughio.write_input, f, dict(U), **({} if fmt is None else {"file_format": fmt}))
    want = fmt or ("json" if ext.lower().endswith(".json") else "tough")
    text = open(f).read()
    ch.check(text.startswith("{") == (want == "json") and ("ENDCY" in text) == (want == "tough"), "{} is not a {} file", f, want)
    got = ch.call("read_input", toughio.read_input, f, **({} if fmt is None else {"file_format": fmt}))
    ch.check(got["title"] == "deck" and list(got["times"]) == [1.0, 2.0], "read {}", got)
    ch.state((fmt, ext))


def refuse(ch):
    f = ch.path("x")
    with open(f, "w") as g:
        g.write("precious\n")
    o = toughio.Output("element", None, 1.0, np.array(["AAA 0"]), {"P": np.array([1.0])})
    name, fn, a, kw, err = ch.free("call", [
        ("read_input", toughio.read_input, (f,), {"file_format": "xml"}, (ValueError,)), ("read_input", toughio.read_input, (3,), {}, (TypeError,)), ("write_input", toughio.write_input, (f, {}), {"file_format": "xml"}, (ValueError,)),
        ("write_input", toughio.write_input, (3, {}), {}, (TypeError,)), ("write_input", toughio.write_input, (f, []), {}, (TypeError,)), ("write_output", toughio.write_output, (3, o), {}, (TypeError,)), ("write_output", toughio.write_output, (f, {"P": 1}), {}, (TypeError,)),
        ("write_output", toughio.write_output, (f, [o, 1]), {"file_format": "csv"}, (TypeError,)), ("read_output", toughio.read_output, (3,), {}, (TypeError,)), ("read_output", toughio.read_output, (f,), {"labels_order": "AAA 0"}, (TypeError,)),
        ("read_output", toughio.read_output, (f,), {}, (ValueError,)), ("read_mesh", toughio.read_mesh, (3,), {}, (TypeError,)), ("write_mesh", toughio.write_mesh, (3, None), {}, (TypeError,)), ("read_history", toughio.read_history, (3,), {}, (TypeError,)),
        ("read_input", toughio.read_input, (f,), {"label_length": 4}, (ValueError,)), ("read_input", toughio.read_input, (f,), {"label_length": 10}, (ValueError,)), ("read_input", toughio.read_input, (f,), {"label_length": "5"}, (TypeError,)),
        ("write_output", toughio.write_output, (f, o), {"file_format": "xml"}, (KeyError, ValueError))])
    ch.raises(name, err, fn, *a, **kw)
    ch.check(open(f).read() == "precious\n", "the refused call wrote the file")
    ch.state((name, repr(kw)))


def drivers(tier):
    b = 1 if tier == "quick" else 2
    return [Driver("registry-" + k, registry(k), b, "histories of registrations and calls") for k in ("input", "output", "mesh")] + [
        Driver("mesh formats", mesh_names, 0), Driver("output formats", outputs, 0), Driver("input formats", inputs, 0), Driver("refuse", refuse, 0)]
