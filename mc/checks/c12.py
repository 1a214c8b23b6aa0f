"""Simulator tables written in csv / petrasim / tecplot form and read back."""
import copy
import itertools

import numpy as np
import toughio

from ..engine import Driver
from .. import output_common as O
from .. import ref_output as R
from .. import long as Z

ASSUMPTIONS = [
    "variable names without commas, quotes or (tecplot) blanks; times increase",
    "csv stores times with 9 significant digits and values with 13; tecplot stores times with 8 digits and no labels",
]

DEC = {"csv": R.dec_csv, "petrasim": R.dec_petrasim, "tecplot": R.dec_tecplot}
TIME = {"csv": "{:.8e}", "petrasim": "{:.12e}", "tecplot": "{:.7e}"}


def outputs(ch, M, connection):
    how = ch.choose("containers", ["array", "list"])
    out = []
    for t, lab, data in M:
        lab = [list(x) for x in lab] if connection else list(lab)
        arr = (lambda x: np.array(x)) if how == "array" else (lambda x: list(x))
        out.append(toughio.Output("connection" if connection else "element", None, t, np.array(lab), {k: arr(v) for k, v in data.items()}))
    return out


def roundtrip(fmt, connection):
    def fn(ch):
        L = ch.choose("label length", [5, 6, 9])
        M = O.model(ch, connection, L, plain=fmt == "tecplot", need=("X", "Y") if fmt == "tecplot" else ())
        if fmt != "petrasim" and len(M) == 1 and ch.choose("time", ["number", "none"]) == "none":
            M = [(None,) + M[0][1:]]
        outs = outputs(ch, M, connection)
        before = repr(outs)
        arg = outs
        if len(outs) == 1:
            arg = ch.choose("single output", [outs, outs[0], tuple(outs)])
        else:
            arg = ch.choose("sequence", [outs, tuple(outs)])
        ext = {"csv": ".csv", "tecplot": ".tec"}.get(fmt)
        how = ch.choose("format", ["explicit"] + (["extension"] if ext else []))
        p = ch.path("out" + (ext if how == "extension" else ch.choose("file name", [".dat", ".csv", ".tec", ""])))
        kw = {"file_format": fmt} if how == "explicit" else {}
        ch.call("write_output", toughio.write_output, p, arg, **kw)
        ch.check(repr(outs) == before, "write_output modified the outputs")
        E = O.rounded(M, "{:.12e}", TIME[fmt], ("X", "Y", "Z"))
        ch.state((fmt, E))
        with open(p) as f:
            text = f.read()
        try:
            if E[0][0] is None:  # nothing to decode independently
                D = E
            else:
                D = DEC[fmt](text)
        except (ValueError, IndexError, KeyError) as e:
            ch.check(False, "the file written is not valid {}: {}", fmt, e)
        ch.check(len(D) == len(E), "{} steps in the file instead of {}", len(D), len(E))
        for (t, lab, d), (t1, lab1, d1) in zip(D, E):
            ch.check(t == t1, "the file says time {} instead of {}", t, t1)
            ch.check(fmt == "tecplot" or lab == list(lab1), "the file says labels {} instead of {}", lab, lab1)
            ch.check(list(d) == list(d1), "the file says variables {} instead of {}", list(d), list(d1))
            ch.check(d == d1, "the file says {} instead of {}", d, d1)
        # what the table is about is in the file
        kw = ch.choose("options", [{}, {"connection": True}, {"label_length": 5}])
        got = ch.call("read_output", toughio.read_output, p, **kw)
        O.compare(ch, got, E, connection, "read_output", labels=fmt != "tecplot")
        for o in got:
            ch.check(o.format == fmt, "format {} instead of {}", o.format, fmt)
        # and once more through another format
        other = ch.choose("then", [None, "csv", "petrasim", "tecplot"])
        if E[0][0] is None and other == "petrasim":
            return
        if other and not (connection and other != "csv") and not (fmt == "tecplot" and other != "tecplot"):
            if other == "tecplot" and (any(" " in k for k in E[0][2]) or "X" not in E[0][2]):
                return
            q = ch.path("again")
            ch.call("write_output", toughio.write_output, q, got, file_format=other)
            E2 = O.rounded(E, "{:.12e}", TIME[other], ("X", "Y", "Z"))
            again = ch.call("read_output", toughio.read_output, q)
            O.compare(ch, again, E2, connection, "converted to " + other, labels="tecplot" not in (fmt, other))

    return fn


def permuted(ch):
    """labels_order rearranges labels and every variable together."""
    fmt = ch.free("format", ["csv", "petrasim"])
    n = ch.free("rows", [1, 2, 3, 4])
    kind = ch.free("labels", list(O.ALPHABETS))
    perm = ch.free("order", list(itertools.permutations(range(n))))
    cont = ch.free("container", [list, tuple, np.array])
    M = []
    names = ["X", "PRES", "T"]
    lab = O.labels(n, kind=kind)
    for s in range(2):
        M.append((float(s + 1), lab, {k: [100.0 * s + 10 * i + j for i in range(n)] for j, k in enumerate(names)}))
    p = ch.path("out")
    with open(p, "w") as f:
        f.write(R.enc_csv(M) if fmt == "csv" else R.enc_petrasim(M))
    order = [lab[i] for i in perm]
    arg = cont(order)
    got = ch.call("read_output", toughio.read_output, p, labels_order=arg)
    O.compare(ch, got, M, False, "labels_order", order=order)
    ch.check(list(arg) == order, "labels_order was modified")
    ch.state((fmt, order))
    if n > 1:
        bad = ch.free("bad order", ["shorter", "longer"])
        b = order[:-1] if bad == "shorter" else order + ["XXX 9"]
        ch.raises("read_output", (ValueError,), toughio.read_output, p, labels_order=b)


def foreign(fmt, connection):
    """Files as the simulators write them (independent encoder)."""

    def fn(ch):
        L = ch.choose("label length", [5, 6, 9])
        M = O.model(ch, connection, L, plain=fmt == "tecplot", need=("X", "Y") if fmt == "tecplot" else ())
        num = ch.choose("number", ["{:20.12E}", "{:.6e}", "{:12.5E}", "{:24.16e}", R.F(20, 12), R.F(13, 5)])
        tfmt = TIME[fmt]
        if fmt == "csv":
            timed = ch.choose("times", [True, False]) if len(M) == 1 else True
            text = R.enc_csv(M, connection, timed=timed, quote=ch.choose("quoted labels", [True, False]), pad=ch.choose("pad", [18, 5, 0]), units=ch.choose("units", [True, False]), num=num)
            if not timed:
                M = [(None,) + M[0][1:]]
        elif fmt == "petrasim":
            text = R.enc_petrasim(M, num=num, pad=ch.choose("pad", [18, 5, 1]))
            tfmt = num
        else:
            z = ch.choose("zone", [0, 1, 2])
            text = R.enc_tecplot(M, quoted=ch.choose("quoted names", [False, True]), title=ch.choose("title", [False, True]), zone=z, num=num)
        end = ch.choose("end", ["newline", "none", "blank line"])
        text = text[:-1] if end == "none" else text + ("\n" if end == "blank line" else "")
        p = ch.path("file")
        with open(p, "w") as f:
            f.write(text)
        E = O.rounded(M, num, tfmt)
        if len({t for t, _, _ in E}) < len(E):  # the numbers written cannot tell the steps apart
            return
        ch.state((fmt, text))
        got = ch.call("read_output", toughio.read_output, p)
        O.compare(ch, got, E, connection, "read_output", labels=fmt != "tecplot")

    return fn


def shape(ch, tops=(5001, 1025, 129)):
    what = ch.free("long", ["rows", "steps", "columns"])
    size = ch.free("size", Z.sizes(ch.tier, tops[["rows", "steps", "columns"].index(what)] * (1 if ch.tier == "quick" else 8), what == "rows"))
    n, ns, nc = (size, 2, 2) if what == "rows" else (2, size, 2) if what == "steps" else (2, 2, size)
    return n, ns, ["V{}".format(i) for i in range(nc)]


def long(fmt, connection):
    def fn(ch):
        n, ns, names = shape(ch)
        M = Z.table(n, ns, ["X", "Y"] + names, connection)
        E = O.rounded(M, "{:.12e}", TIME[fmt], ("X", "Y", "Z"))
        p, q = ch.path("out"), ch.path("foreign")
        outs = [toughio.Output("connection" if connection else "element", None, t, np.array(lab), {k: np.array(v) for k, v in d.items()}) for t, lab, d in M]
        ch.call("write_output", toughio.write_output, p, outs, file_format=fmt)
        D = DEC[fmt](open(p).read())
        ch.check([x[0] for x in D] == [x[0] for x in E], "times in the file differ")
        for (t, lab, d), (_, lab1, d1) in zip(D, E):
            ch.check(fmt == "tecplot" or lab == list(lab1), "labels in the file differ at time {}", t)
            ch.check(list(d) == list(d1), "variables in the file differ at time {}", t)
            for k in d:
                ch.check(d[k] == d1[k], "{} in the file differs at time {}", k, t)
        with open(q, "w") as f:
            f.write(R.enc_csv(M, connection) if fmt == "csv" else R.enc_petrasim(M) if fmt == "petrasim" else R.enc_tecplot(M))
        O.compare(ch, ch.call("read_output", toughio.read_output, p), E, connection, "read_output", labels=fmt != "tecplot")
        O.compare(ch, ch.call("read_output", toughio.read_output, q), E, connection, "read_output of a foreign file", labels=fmt != "tecplot")
        ch.state((fmt, n, ns, len(names)))

    return fn


def drivers(tier):
    b = 3 if tier == "quick" else 4
    cases = [("csv", False), ("csv", True), ("petrasim", False), ("tecplot", False)]
    out = [Driver("roundtrip-{}-{}".format(f, "conne" if c else "eleme"), roundtrip(f, c), b, "write_output, independent decode, read_output") for f, c in cases]
    out += [Driver("foreign-{}-{}".format(f, "conne" if c else "eleme"), foreign(f, c), b, "independently encoded files") for f, c in cases]
    out += [Driver("long-{}-{}".format(f, "conne" if c else "eleme"), long(f, c), 0, "many rows, steps or columns", cpu=120) for f, c in cases]
    out.append(Driver("labels_order", permuted, 0, "every permutation of up to 4 labels"))
    return out
