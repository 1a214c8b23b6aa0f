"""SAVE files: what read_output, read_input and save2incon make of them."""
import itertools
import os

import numpy as np
import toughio

from ..engine import Driver
from .. import output_common as O
from .. import long as Z
from .. import ref_output as R

ASSUMPTIONS = ["SAVE files list every element once, all with the same number of primary variables; names that are numbers come with a porosity"]

VALUES = [1.5, -2.25, 0.0, 1e-30, -1.0e-100, 9.8765432101234e200]


def save(ch, full=True):
    L = ch.choose("label length", [5, 6, 7, 8, 9])
    n = ch.choose("elements", [3, 1, 2, 4])
    nv = ch.choose("primary variables", [3, 1, 2, 4, 5, 6, 8])
    nu = ch.choose("user values", [0, 1, 3, 5])
    d = ch.choose("digits", [13, 12])
    kind = ch.choose("labels", list(O.ALPHABETS))
    labs = O.labels(n, L, kind=kind)
    # records that some elements leave blank
    blank = ch.choose("blank", [None, "porosity of first", "porosity of last", "porosity of all", "user values of first", "user values of last", "last user value of first"])
    if kind == "numbers" and blank and "porosity" in blank:
        blank = None
    if ch.choose("order in file", ["sorted", "reversed"]) == "reversed":
        labs = labs[::-1]
    rows = []
    k = 0
    for i, lab in enumerate(labs):
        por = ch.choose("porosity {}".format(i), [0.1 + i * 0.05, 0.0, 0.12345678, 1.0]) if i < 2 else 0.3
        vals = []
        for j in range(nv):
            k += 1
            v = 1e5 + k * 1.125
            if i in (0, n - 1) and j in (0, 3, nv - 1):
                v = ch.choose("value {},{}".format(i, j), [v] + VALUES)
            vals.append(v)
        us = [1e-12 * (i + 1) + j for j in range(nu)]
        if blank:
            here = "all" in blank or "of first" in blank and i == 0 or "of last" in blank and i == n - 1
            por = None if here and blank.startswith("porosity") else por
            us = [] if here and blank.startswith("user") else us[:-1] if here and blank.startswith("last user") else us
        rows.append((lab, por, us, vals))
    # a primary variable left blank between others
    hole = ch.choose("blank variable", [None, "second of first", "first of last", "second of all", "fourth of first"])
    if hole:
        j = {"first": 0, "second": 1, "fourth": 3}[hole.split()[0]]
        if j < nv - 1:
            for i in {"all": range(n), "first": [0], "last": [n - 1]}[hole.split()[2]]:
                rows[i][3][j] = None
    head = ch.choose("header", ["INCON -- INITIAL CONDITIONS FOR {:5d} ELEMENTS AT TIME  0.315576E+08", "INCON", "INCON----1----*----2----*----3"])
    end = ch.choose("end", ["+++ and counters", "+++", "blank", "blank and text"])
    out = [head.format(n)]
    for lab, por, us, vals in rows:
        out.append(lab.ljust(15) + (" " * 15 if por is None else R.fort(por, 15, 8)) + "".join(R.fort(u, 10, 3) for u in us))
        for j in range(0, nv, 4):
            out.append("".join(" " * 20 if v is None else R.fort(v, 20, d) for v in vals[j : j + 4]))
    out += {"+++ and counters": ["+++", "    1    3    1 0.00000000E+00 0.31557600E+08"], "+++": ["+++"], "blank": [""], "blank and text": ["", "ENDCY"]}[end]
    f = lambda x, w, dd: float(_e(R.fort(x, w, dd)))
    model = [(lab, None if por is None else f(por, 15, 8), [f(u, 10, 3) for u in us], [None if v is None else f(v, 20, d) for v in vals]) for lab, por, us, vals in rows]
    return "\n".join(out) + "\n", model, end


def _e(s):
    s = s.strip()
    return s if "E" in s else s[:-4] + "E" + s[-4:]


def same(a, b):
    return a != a if b is None else a == b


def check_save(ch, got, model, order=None):
    m = {r[0]: r for r in model}
    labs = order if order is not None else [r[0] for r in model]
    g = list(np.asarray(got.labels))
    ch.check(g == labs, "labels {} instead of {}", g, labs)
    nv, nu = len(model[0][3]), max(len(r[2]) for r in model)
    names = ["X{}".format(i + 1) for i in range(nv)] + ["porosity"] + (["userx"] if nu else [])
    ch.check(sorted(got.data) == sorted(names), "variables {} instead of {}", sorted(got.data), sorted(names))
    for i, lab in enumerate(labs):
        _, por, us, vals = m[lab]
        for j in range(nv):
            x = got.data["X{}".format(j + 1)][i]
            ch.check(same(x, vals[j]), "{} X{} is {} instead of {}", lab, j + 1, x, vals[j])
        ch.check(same(got.data["porosity"][i], por), "{} porosity is {} instead of {}", lab, got.data["porosity"][i], por)
        if nu:
            u = list(got.data["userx"][i])
            ch.check(len(u) == nu and all(same(a, b) for a, b in zip(u, us + [None] * nu)), "{} userx is {} instead of {}", lab, got.data["userx"][i], us)


def read(ch):
    text, model, end = save(ch)
    p = ch.path("SAVE")
    with open(p, "w") as f:
        f.write(text)
    got = ch.call("read_output", toughio.read_output, p)
    ch.check(got.type == "element" and got.format == "save" and got.time is None, "type/format/time {}", got[:3])
    check_save(ch, got, model)
    ch.state(model)
    labs = [r[0] for r in model]
    perm = ch.choose("labels_order", [None, "reversed", "rotated"])
    if perm:
        order = labs[::-1] if perm == "reversed" else labs[1:] + labs[:1]
        arg = ch.choose("container", [list, tuple, np.array])(order)
        got = ch.call("read_output", toughio.read_output, p, labels_order=arg)
        check_save(ch, got, model, order)
    # the same file as initial conditions
    par = ch.call("read_input", toughio.read_input, p, file_format="tough")
    check_input(ch, par, model)


def check_input(ch, par, model):
    ic = par["initial_conditions"]
    ch.check(list(par["initial_conditions_order"]) == [r[0] for r in model], "order {}", par["initial_conditions_order"])
    for lab, por, us, vals in model:
        ch.check(ic[lab].get("porosity") == por, "{} porosity {}", lab, ic[lab].get("porosity"))
        ch.check(list(ic[lab]["values"]) == vals, "{} values {} instead of {}", lab, ic[lab]["values"], vals)
        ch.check(list(ic[lab].get("userx") or []) == us, "{} userx {} instead of {}", lab, ic[lab].get("userx"), us)


def convert(ch):
    """save2incon keeps the records; --reset drops the counters."""
    text, model, end = save(ch)
    p, q = ch.path("SAVE"), ch.path("INCON")
    with open(p, "w") as f:
        f.write(text)
    if ch.choose("target exists", [False, True]):
        with open(q, "w") as f:
            f.write("old\n" * 50)
    reset = ch.choose("reset", ["", "-r", "--reset"])
    ch.call("save2incon", toughio._cli.save2incon, [p, q] + ([reset] if reset else []))
    with open(q) as f:
        out = f.read()
    with open(p) as f:
        ch.check(f.read() == text, "save2incon changed the SAVE file")
    src, dst = text.splitlines(), out.splitlines()
    nrec = 1 + len(model) * (1 + (len(model[0][3]) + 3) // 4)
    ch.check(dst[:nrec] == src[:nrec], "records were changed")
    if not reset:
        ch.check(out == text, "without --reset the file is not the same")
    else:
        ch.check(not any(x.startswith("+++") for x in dst), "--reset left the '+++' record")
        ch.check(end not in ("+++ and counters", "+++") or all(not x.strip() for x in dst[nrec:]), "--reset left the counters")
        ch.check(len(dst) > nrec and not dst[nrec].strip(), "--reset: block is not closed by a blank record")
    got = ch.call("read_output", toughio.read_output, q)
    check_save(ch, got, model)
    check_input(ch, ch.call("read_input", toughio.read_input, q, file_format="tough"), model)
    ch.state((model, reset))


def long(ch):
    """Many elements; conversion included."""
    n = ch.free("elements", Z.sizes(ch.tier, 5001 * (1 if ch.tier == "quick" else 7), 2))
    nv = ch.free("primary variables", Z.some(n, [2, 8]))
    model = []
    out = ["INCON"]
    for i in range(n):
        lab = Z.label(i)
        vals = [1.0e5 + i * 0.5 + j for j in range(nv)]
        model.append((lab, 0.25, [], vals))
        out.append(lab.ljust(15) + R.fort(0.25, 15, 8))
        out += ["".join(R.fort(v, 20, 13) for v in vals[j : j + 4]) for j in range(0, nv, 4)]
    p, q = ch.path("SAVE"), ch.path("INCON")
    with open(p, "w") as f:
        f.write("\n".join(out + ["+++", "    1    3    1 0.00000000E+00 0.31557600E+08"]) + "\n")
    check_save(ch, ch.call("read_output", toughio.read_output, p), model)
    order = [r[0] for r in model][::-1]
    check_save(ch, ch.call("read_output", toughio.read_output, p, labels_order=order), model, order)
    ch.call("save2incon", toughio._cli.save2incon, [p, q, "-r"])
    with open(q) as f:
        dst = f.read().splitlines()
    ch.check(dst[: len(out)] == out and not any(x.strip() for x in dst[len(out) :]), "save2incon changed the records")
    check_input(ch, ch.call("read_input", toughio.read_input, q, file_format="tough"), model)
    ch.state((n, nv))


def refuse(ch):
    """Not a SAVE file: refused, target untouched."""
    bad = ch.free("source", ["missing", "empty-title", "eleme", "blank first"])
    reset = ch.free("reset", [[], ["-r"]])
    p, q = ch.path("SAVE"), ch.path("INCON")
    if bad != "missing":
        with open(p, "w") as f:
            f.write({"empty-title": "some title\nINCON\n\n", "eleme": "ELEME\nAAA 0\n\n", "blank first": "\nINCON\n"}[bad])
    with open(q, "w") as f:
        f.write("precious\n")
    ch.raises("save2incon", (ValueError,), toughio._cli.save2incon, [p, q] + reset)
    with open(q) as f:
        ch.check(f.read() == "precious\n", "a refused conversion overwrote the target")
    ch.state((bad, reset))


def drivers(tier):
    b = 3 if tier == "quick" else 4
    return [
        Driver("read", read, b, "read_output / read_input on independently printed SAVE files"),
        Driver("save2incon", convert, b, "conversion, with and without --reset"),
        Driver("long", long, 0, "many elements", cpu=120),
        Driver("refuse", refuse, 0, "not a SAVE file"),
    ]
