"""toughio-merge: one input file out of an input file, MESH and INCON."""
import os

import toughio

from ..engine import Driver
from .. import long as Z
from .. import ref_input as R
from .c09 import decks

ASSUMPTIONS = ["MESH and INCON end with a blank record; no record before ENDCY/ENDFI starts with one of these words; text files with LF line ends"]

MESHP = {
    "elements": {"AAA 0": {"volume": 1.5, "material": "SAND", "center": [1.0, 2.0, -3.5]}, "AAA 1": {"volume": 2.0, "material": "CLAY", "center": [4.0, 2.0, -3.5]}},
    "connections": {"AAA 0AAA 1": {"permeability_direction": 1, "nodal_distances": [0.5, 1.5], "interface_area": 3.0, "gravity_cosine_angle": 0.25}},
}
INCON = {"initial_conditions": {"AAA 0": {"values": [1.0e5, 20.0], "porosity": 0.25}, "AAA 1": {"values": [2.0e5, 30.0]}}}


def merge(ch):
    f = dict(decks())
    main = ch.free("input", ["small", "full"])
    U = {"title": "merge", "rocks": {"SAND": {"density": 2600.0, "porosity": 0.25}, "CLAY": {"density": 2.0}}, "options": {"n_cycle": 77, "t_max": 1.0e9}, "times": [1.0, 2.5e7],
         "generators": {"AAA 0": {"type": "MASS", "rates": 1.5}}} if main == "small" else {k: v for k, v in f["full"].items() if k not in ("elements", "connections", "initial_conditions", "elements_order", "connections_order", "initial_conditions_order", "coordinates", "mesh", "minc")}
    incon = ch.free("INCON", [True, False])
    end = ch.free("end", ["ENDCY", "ENDFI", "endcy"])
    pad = ch.choose("padded", [True, False])
    style, style2 = R.Style(pad=pad, endcy=True), R.Style(pad=pad, endcy=False)
    nv = 2 if main == "small" else R.n_values(f["full"])
    if main == "full":
        vals = list(range(1, nv + 1))
        ic = {"initial_conditions": {"AAA 0": {"values": [float(v) for v in vals], "porosity": 0.25}}}
    else:
        ic = INCON
    text = R.encode(R.expected(U, "all", 5), style, 5, nv)
    lines = text.splitlines(True)
    k = [i for i, x in enumerate(lines) if x.startswith("ENDCY")][-1]
    lines[k] = end + lines[k][5:].replace("-", ch.choose("rest of the end record", ["-", " ", "x"]))
    after = ch.choose("after the end", [[], ["some notes\n", "\n", "ENDCY of an older deck\n"], ["ELEME of another mesh\n"], ["no newline"]])
    lines = lines[: k + 1] + after
    if not after and ch.flag("end record without newline"):
        lines[-1] = lines[-1].rstrip("\n")
    mtext = R.encode(R.expected(MESHP, "mesh", 5), style2, 5, nv)
    itext = R.encode(R.expected(ic, "incon", 5), style2, 5, nv)
    if ch.flag("MESH without final newline"):
        mtext = mtext.rstrip("\n ") + "\n" + " " * ch.choose("blanks", [80, 1])
    if ch.flag("INCON without final newline"):
        itext = itext.rstrip("\n ") + "\n" + " "
    folder = ch.choose("folder", ["absolute", "relative", "current"])
    d = os.path.join(ch.scratch, "run")
    os.mkdir(d)
    src = {"INFILE": "".join(lines), "MESH": mtext}
    if incon:
        src["INCON"] = itext
    for n, t in src.items():
        with open(os.path.join(d, n), "w") as g:
            g.write(t)
    # files of the same names in the wrong folder must not be used
    other = ch.path("other")
    os.mkdir(other)
    for n in ("MESH", "INCON"):
        with open(os.path.join(other, n), "w") as g:
            g.write(n + "\nWRONG\n\n" if n == "INCON" else "ELEME\nWRONG\n\n")
    os.chdir({"absolute": other, "relative": ch.scratch, "current": d}[folder])
    infile = {"absolute": os.path.join(d, "INFILE"), "relative": os.path.join("run", "INFILE"), "current": "INFILE"}[folder]
    where = ch.choose("target", ["new", "exists", "onto the input file"])
    out = {"onto the input file": os.path.join(d, "INFILE")}.get(where, os.path.join(ch.scratch, "merged"))
    if where == "exists":
        with open(out, "w") as g:
            g.write("old\n" * 500)
    ch.call("toughio-merge", toughio._cli.merge, [infile, out])
    for n, t in src.items():
        if os.path.join(d, n) != out:
            ch.check(open(os.path.join(d, n)).read() == t, "{} was changed", n)
    got = open(out).read()
    nl = lambda t: t if t.endswith("\n") else t + "\n"
    want = "".join(lines[:k]) + nl(mtext) + (nl(itext) if incon else "") + "".join(lines[k:])
    ch.check(got == want, "records are {} instead of {}", got.splitlines()[-12:], want.splitlines()[-12:])
    ch.state(got)
    # what a reader makes of it: the three files together
    if end == "endcy":
        return
    P = R.norm(ch.call("read_input", toughio.read_input, out, file_format="tough", label_length=5))
    E = R.norm(R.decode(text.replace("\nENDCY", "\n" + mtext + ("" if mtext.endswith("\n") else "\n") + (nl(itext) if incon else "") + "ENDCY", 1), 5, nv))
    m = R.diff(E, P)
    ch.check(m is None, "the merged file reads as {}", m)
    ch.check(set(P["elements"]) == set(MESHP["elements"]) and ("initial_conditions" in P) == incon, "mesh or initial conditions are missing")


def many(ch):
    """Long files, before and after the end record, long MESH and INCON."""
    what = ch.free("long", ["MESH", "INCON", "input", "after the end"])
    n = ch.free("size", Z.sizes(ch.tier, 5001 * (1 if ch.tier == "quick" else 14), 2))
    k = lambda x: n if what == x else 2
    lab = Z.labels(max(k("MESH"), k("INCON")))
    main = ["title", "ROCKS", "SAND     2", ""] + ["PARAM", "    1", "", "GENER"] + ["{}".format(x) for x in Z.labels(k("input"))] + [""]
    end = ["ENDCY"] + ["notes {}".format(i) for i in range(k("after the end"))]
    mesh = ["ELEME"] + lab[: k("MESH")] + ["", "CONNE"] + [a + b for a, b in zip(lab, lab[1 : k("MESH")])] + [""]
    inc = ["INCON"] + [x for a in lab[: k("INCON")] for x in (a, " 1.0")] + [""]
    for name, t in (("INFILE", main + end), ("MESH", mesh), ("INCON", inc)):
        with open(ch.path(name), "w") as g:
            g.write("\n".join(t) + "\n")
    out = ch.path("merged")
    ch.call("toughio-merge", toughio._cli.merge, [ch.path("INFILE"), out])
    ch.check(open(out).read().split("\n") == main + mesh + inc + end + [""], "the merged file does not hold the three files")
    ch.state((what, n))


def refuse(ch):
    why = ch.free("reason", ["no input file", "no MESH", "no ROCKS", "no PARAM", "no end", "empty input", "MESH starts with CONNE", "MESH starts with text", "INCON starts with text"])
    where = ch.free("target", ["exists", "onto the input file", "new"])
    d = ch.scratch
    blocks = ["title\n", "ROCKS\nSAND     2\n\n", "PARAM\n    1\n\n", "ENDCY\n"]
    src = {"INFILE": "".join(b for b in blocks if why != "no " + b[:5] and not (why == "no end" and b == "ENDCY\n")), "MESH": "ELEME\nAAA 0\n\n", "INCON": "INCON\nAAA 0\n 1.0\n\n"}
    if why == "empty input":
        src["INFILE"] = ""
    elif why == "MESH starts with CONNE":
        src["MESH"] = "CONNE\n\n" + src["MESH"]
    elif why == "MESH starts with text":
        src["MESH"] = "mesh\n" + src["MESH"]
    elif why == "INCON starts with text":
        src["INCON"] = "initial\n" + src["INCON"]
    elif why in ("no input file", "no MESH"):
        src.pop("MESH" if why == "no MESH" else "INFILE")
    for n, t in src.items():
        with open(os.path.join(d, n), "w") as g:
            g.write(t)
    out = os.path.join(d, "INFILE" if where == "onto the input file" else "merged")
    if where == "exists":
        with open(out, "w") as g:
            g.write("precious\n")
        src["merged"] = "precious\n"
    ch.raises("toughio-merge", (ValueError,), toughio._cli.merge, [os.path.join(d, "INFILE"), out])
    now = {n: open(os.path.join(d, n)).read() for n in os.listdir(d)}
    ch.check(now == src, "the refused command left {} instead of {}", now, src)
    ch.state((why, where))


def drivers(tier):
    b = 5 if tier == "quick" else 11
    return [Driver("merge", merge, b), Driver("refuse", refuse, 0), Driver("many", many, 0, "long files", cpu=120)]
