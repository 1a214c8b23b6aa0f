"""History files (FOFT/COFT/GOFT) give the series they hold."""
import numpy as np
import toughio

from ..engine import Driver
from .. import output_common as O
from .. import long as Z
from .. import ref_output as R

ASSUMPTIONS = ["one header record, one record per time; quoted comma-separated or blank-separated columns"]


def history(ch):
    style = ch.free("style", ["csv", "blank"])
    n = ch.choose("rows", [3, 1, 2, 5])
    ncol = ch.choose("columns", [2, 1, 3, 7])
    pool = ["PRES", "TEMP", "SAT_G", "X(CO2)", "a-b", "FLOW_G", "HEAT"]
    if style == "csv":
        pool[1] = ch.choose("second name", ["TEMP", "GEN RATE", "T  (DEG-C)"])
    names = pool[:ncol]
    num = ch.choose("number", ["{:20.12E}", "{:.6e}", "{:12.5f}", R.F(20, 12), R.F(13, 5)])
    val = lambda x: num.value(x) if hasattr(num, "value") else float(num.format(x))
    cols = []
    for j in range(ncol + 1):
        cols.append([ch.choose("value {},{}".format(i, j), [1.125 * (i + 1) + 100 * j] + O.VALUES) if i in (0, n - 1) and j < 3 else 1.125 * (i + 1) + 100 * j for i in range(n)])
    heads = [ch.choose("time name", ["TIME(S)", "TIME", "TIME [sec]"] if style == "csv" else ["TIME(S)", "TIME"])] + names
    if style == "csv":
        q = ch.choose("pad", [18, 0, 5])
        out = [",".join('"{:>{}}"'.format(h, q) for h in heads)]
        out += [("," + ch.choose("space", ["", " "])).join(num.format(float(cols[j][i])) for j in range(ncol + 1)) for i in range(n)]
    else:
        out = ["  ".join("{:>18}".format(h) for h in heads)]
        out += [" " + " ".join(num.format(float(cols[j][i])) for j in range(ncol + 1)) for i in range(n)]
    end = ch.choose("end", ["newline", "none", "blank line"])
    text = "\n".join(out) + {"newline": "\n", "none": "", "blank line": "\n\n"}[end]
    p = ch.path("FOFT")
    with open(p, "w") as f:
        f.write(text)
    got = ch.call("read_history", toughio.read_history, p)
    ch.check(list(got) == ["TIME"] + names, "series {} instead of {}", list(got), ["TIME"] + names)
    for j, k in enumerate(["TIME"] + names):
        e = [val(x) for x in cols[j]]
        g = [float(x) for x in np.asarray(got[k]).ravel()]
        ch.check(g == e, "{} is {} instead of {}", k, g, e)
    ch.state(text)


def long(ch):
    """Many rows or columns."""
    style = ch.free("style", ["csv", "blank"])
    what = ch.free("long", ["rows", "columns"])
    size = ch.free("size", Z.sizes(ch.tier, {"rows": 5001, "columns": 513}[what] * (1 if ch.tier == "quick" else 14), 2 * (what == "rows")))
    n, nc = (size, 2) if what == "rows" else (3, size)
    names = ["V{}".format(j) for j in range(nc)]
    cols = [[0.5 * (i + 1) + 1000.0 * j for i in range(n)] for j in range(nc + 1)]
    q, s = ('"{}"', ",") if style == "csv" else ("{}", " ")
    out = [s.join(q.format(x) for x in ["TIME(S)"] + names)]
    out += [s.join("{:20.12E}".format(c[i]) for c in cols) for i in range(n)]
    p = ch.path("FOFT")
    with open(p, "w") as f:
        f.write("\n".join(out) + "\n")
    got = ch.call("read_history", toughio.read_history, p)
    ch.check(list(got) == ["TIME"] + names, "series {} instead of {}", list(got), ["TIME"] + names)
    for k, c in zip(["TIME"] + names, cols):
        ch.check([float(x) for x in np.asarray(got[k]).ravel()] == c, "{} differs", k)
    ch.state((style, what, size))


def drivers(tier):
    return [Driver("long", long, 0, "many rows or columns", cpu=120), Driver("history", history, 3 if tier == "quick" else 4, "independently printed history files")]
