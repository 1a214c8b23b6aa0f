"""A file says the same with the line ends of another system, with blanks at the ends of lines, with or without a final newline."""
import os

import numpy as np
import toughio

from ..engine import Driver
from .. import mesh_common as M
from .. import ref_input as R
from .. import ref_output as Q
from .c09 import decks
from .c41 import MESH, SAVE, listing, outs, rows

LEVEL = "model_checking"
ASSUMPTIONS = ["text files; line ends are LF or CRLF, the same or not in the whole file", "mesh files are the ones toughio writes for small meshes, binary FLAC3D files excepted"]


def meshes():
    g = toughio.meshmaker.structured_grid([1.0, 2.0], [1.0], [1.0, 2.0])
    g.add_cell_data("v", np.arange(4.0))
    g.add_point_data("t", np.arange(18.0))
    p, c = M.LIB["tower"]()
    t = M.build(M.ints(p), M.group([(k, tuple(v)) for k, v in c], True), cell_data={"material": np.array([2, 1, 1, 5]), "v": np.arange(4.0)}, field_data={"a": np.array([1, 3]), "bb": np.array([2, 3]), "c": np.array([5, 3])})
    return [("grid", g), ("tower", t)]


def _input(**kw):
    return lambda f: M.snap(toughio.read_input(f, **kw))


def _output(**kw):
    return lambda f: outs(toughio.read_output(f, **kw))


def _mesh(fmt):
    return lambda f: M.snap(toughio.read_mesh(f, file_format=fmt))


def sources(ch):
    """(name, file name, text, reader)"""
    D = dict(decks())
    enc = lambda U, b="all", **k: R.encode(R.expected(U, b), R.Style(**k), 5, R.n_values(U))
    out = [("deck " + n + (" padded" if pad else ""), "deck", enc(D[n], pad=pad), _input(file_format="tough")) for n in ("full", "sparse", "other") for pad in (True, False)]
    out += [("blocks " + b, "deck", enc(D["full"], b, pad=False, endcy=False), _input(file_format="tough")) for b in ("mesh", "gener", "incon")]
    out += [("MESH", "MESH", MESH, lambda f: M.snap(toughio.read_mesh(f, file_format="tough"))), ("SAVE as input", "SAVE", SAVE, _input(file_format="tough"))]
    out += [("json", "deck.json", '{\n  "title": "t",\n  "rocks": {\n    "SAND": {\n      "density": 2600.0\n    }\n  },\n  "times": [\n    1.0,\n    2.0\n  ]\n}\n', _input())]
    out += [("csv", "o.csv", Q.enc_csv(rows()), _output()), ("csv without units", "o.csv", Q.enc_csv(rows(), units=False), _output()), ("csv connections", "o.csv", Q.enc_csv(rows(True), True), _output()),
            ("petrasim", "o.csv", Q.enc_petrasim(rows()), _output()), ("tecplot", "o.tec", Q.enc_tecplot(rows()), _output()), ("tecplot with title", "o.tec", Q.enc_tecplot(rows(), title=True), _output()),
            ("listing", "run.out", listing(), _output()), ("listing connections", "run.out", listing(), _output(connection=True)), ("SAVE", "SAVE", SAVE, _output())]
    hist = lambda f: M.snap(toughio.read_history(f))
    out += [("history csv", "FOFT", '"TIME(S)","PRES","TEMP"\n 1.0, 2.0, 5.25\n 3.0, 4.0, 6.75\n', hist), ("history blanks", "FOFT", "TIME(S)  PRES  TEMP\n 1.0  2.0 5.25\n 3.0 4.0 6.75\n", hist)]
    for n, m in meshes():
        for fmt in ("avsucd", "flac3d", "tecplot"):
            f = ch.path("mesh." + {"avsucd": "avs", "flac3d": "f3grid", "tecplot": "dat"}[fmt])
            m.write(f, file_format=fmt)
            with open(f) as g:
                out.append((fmt + " " + n, os.path.basename(f), g.read(), _mesh(fmt)))
            os.unlink(f)
    return out


_SRC = []


def rewrite(text, end, final, pad=0, more=0):
    lines = text.split("\n")
    if lines[-1] == "":
        lines.pop()
    lines = [x + " " * pad for x in lines + [""] * more]
    h = len(lines) // 2
    e = {"LF": "\n", "CRLF": "\r\n"}
    ends = [e[end.split()[0] if i < h else end.split()[-1]] for i in range(len(lines))]
    # an empty record without its newline is no record
    if not final and lines[-1]:
        ends[-1] = ""
    return "".join(a + b for a, b in zip(lines, ends))


def style(ch):
    return (ch.free("line ends", ["LF", "CRLF", "CRLF then LF", "LF then CRLF"]), ch.free("final newline", [True, False]), ch.free("blanks at the end of lines", [0, 1, 7]), ch.free("blank lines at the end", [0, 1, 3]))


def readers(ch):
    if not _SRC:
        _SRC.extend(sources(ch))
    name, fn, text, read = ch.free("file", _SRC)
    new = rewrite(text, *style(ch))
    p, q = ch.path(fn), os.path.join(ch.scratch, "d")
    os.mkdir(q)
    q = os.path.join(q, fn)
    with open(p, "w", newline="") as f:
        f.write(text)
    want = ch.call("read", read, p)
    with open(q, "w", newline="") as f:
        f.write(new)
    got = ch.call("read", read, q)
    ch.check(got == want, "{}: {} instead of {}", name, str(got)[:600], str(want)[:600])
    ch.state(got)


def commands(ch):
    """The commands read such files, too."""
    cmd = ch.free("command", ["merge", "save2incon", "save2incon -r", "extract", "extract -c", "export", "Mesh.read_output"])
    d = os.path.join(ch.scratch, "run")
    os.mkdir(d)
    D = dict(decks())
    files = {"merge": {"INFILE": R.encode(R.expected(D["sparse"]), R.Style(), 5, 1), "MESH": MESH, "INCON": SAVE.split("+++")[0] + "\n"},
             "save2incon": {"SAVE": SAVE}, "extract": {"run.out": listing(), "MESH": MESH}, "export": {"o.csv": Q.enc_csv(rows())},
             "Mesh.read_output": {"o.csv": Q.enc_csv(rows(labs=["A1100", "A1101", "A1102", "A1103"]))}}[cmd.split()[0]]
    which = ch.free("rewritten", ["all"] + sorted(files))
    out = {}
    for how in ("plain", "rewritten"):
        if how == "rewritten":
            new = {}
            lf = style(ch)
            for n, t in files.items():
                new[n] = rewrite(t, *lf) if which in ("all", n) else t
        else:
            new = files
        for n, t in new.items():
            with open(os.path.join(d, n), "w", newline="") as f:
                f.write(t)
        at = lambda n: os.path.join(d, n)
        tgt = os.path.join(ch.scratch, "target")
        A = toughio._cli
        if cmd == "merge":
            ch.call("toughio-merge", A.merge, [at("INFILE"), tgt])
        elif cmd.startswith("save2incon"):
            ch.call("toughio-save2incon", A.save2incon, [at("SAVE"), tgt] + cmd.split()[1:])
        elif cmd.startswith("extract"):
            ch.call("toughio-extract", A.extract, [at("run.out"), at("MESH"), "-o", tgt] + cmd.split()[1:])
        elif cmd == "export":
            ch.call("toughio-export", A.export, [at("o.csv"), "-o", tgt, "-f", "tecplot"])
        else:
            m = toughio.meshmaker.structured_grid([1.0, 2.0], [1.0], [1.0, 2.0])
            m.label_length = 5
            labs = [str(x) for x in m.labels]
            ch.check(labs == ["A1100", "A1101", "A1102", "A1103"], "labels {}", labs)
            ch.call("Mesh.read_output", m.read_output, at("o.csv"))
            with open(tgt, "w") as f:
                f.write(repr(M.snap(m.cell_data)))
        if cmd == "merge":
            got = M.snap(toughio.read_input(tgt, file_format="tough"))
            with open(tgt, "w") as f:
                f.write(repr(got))
        with open(tgt) as f:
            out[how] = [x.rstrip() for x in f.read().split("\n")]
            while out[how] and not out[how][-1]:
                out[how].pop()
        os.unlink(tgt)
    ch.check(out["plain"] == out["rewritten"], "{}: {} instead of {}", cmd, [x for x in out["rewritten"] if x not in out["plain"]][:5], [x for x in out["plain"] if x not in out["rewritten"]][:5])
    ch.state(out["plain"])


def drivers(tier):
    return [Driver("readers", readers, 0, "every text format, every ending"), Driver("commands", commands, 0, "the commands on such files")]
