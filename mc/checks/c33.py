"""Relative permeability functions."""
import math

import numpy as np
import toughio

from ..engine import Driver
from .. import long as Z

ASSUMPTIONS = ["parameters within the ranges of the TOUGH manual; saturations are scalars or one-dimensional arrays; relative tolerance 1e-9"]

RP = toughio.relative_permeability
S0 = [0.0, 0.05, 0.1, 0.15, 0.2, 0.25, 0.5, 0.75, 0.8, 0.9]


def clamp(x):
    return min(max(x, 0.0), 1.0)


def corey(sl, slr, sgr):
    s = clamp((sl - slr) / (1.0 - slr - sgr))
    return s ** 4, (1 - s) ** 2 * (1 - s * s)


def grant(sl, slr, sgr):
    s = clamp((sl - slr) / (1.0 - slr - sgr))
    return s ** 4, 1 - s ** 4


def fatt(sl, slr):
    s = clamp((sl - slr) / (1.0 - slr))
    return s ** 3, (1 - s) ** 3


def linear(sl, a, b, c, d):
    return clamp((sl - a) / (c - a)), clamp((1.0 - sl - b) / (d - b))


def pickens(sl, x):
    return sl ** x, 1.0


def vgm(sl, m, slr, sls, sgr):
    if sl >= sls:
        return 1.0, 0.0
    s = (sl - slr) / (sls - slr)
    kl = 0.0 if s <= 0.0 else math.sqrt(s) * (1.0 - (1.0 - s ** (1.0 / m)) ** m) ** 2
    if sgr <= 0.0:
        return kl, 1.0 - kl
    h = clamp((sl - slr) / (1.0 - slr - sgr))
    return kl, (1 - h) ** 2 * (1 - h * h)


def verma(sl, slr=0.2, sls=0.895, a=1.259, b=-1.7615, c=0.5089):
    s = clamp((sl - slr) / (sls - slr))
    return s ** 3, clamp(a + b * s + c * s * s)


MODELS = {  # name: (class, IRP, oracle, parameter choices, monotonic)
    "Linear": (RP.Linear, 1, linear, [[0.0, 0.1, 0.25, 0.3, 0.5], [0.0, 0.2, 0.25, 0.5], [0.3, 0.55, 0.8, 1.0], [0.25, 0.6, 1.0]], lambda p: p[0] < p[2] and p[1] < p[3]),
    "Pickens": (RP.Pickens, 2, pickens, [[1.0, 2.0, 0.5, 3, 1]], lambda p: True),
    "Corey": (RP.Corey, 3, corey, [S0, S0], lambda p: p[0] + p[1] < 1.0),
    "Grant": (RP.Grant, 4, grant, [S0, S0], lambda p: p[0] + p[1] < 1.0),
    "FattKlikoff": (RP.FattKlikoff, 6, fatt, [S0 + [0.3, 0.99, 1.0, 1.5]], lambda p: p[0] < 1.0),
    "vanGenuchtenMualem": (RP.vanGenuchtenMualem, 7, vgm, [[0.457, 0.2, 0.5, 0.9], [0.0, 0.15, 0.3], [1.0, 0.9, 0.6], [0.0, 0.1, 0.05]], lambda p: p[1] < p[2] and p[1] + p[3] < 1.0),
    "Verma": (RP.Verma, 8, verma, [[0.2, 0.0, 0.1], [0.895, 1.0, 0.5], [1.259, 1.0], [-1.7615, -1.0], [0.5089, 0.0, 0.25]], lambda p: True),
}


def close(a, b):
    return abs(float(a) - b) <= 1e-12 + 1e-9 * abs(b)


def saturations(p, n=32):
    out = {0.0, 1.0, 1e-12, 1.0 - 1e-12}
    out |= {i / float(n) for i in range(n + 1)}
    for v in p:
        if isinstance(v, (int, float)) and 0.0 <= v <= 1.0:
            for w in (v, 1.0 - v):
                out |= {x for x in (w - 1e-6, w, w + 1e-6) if 0.0 <= x <= 1.0}
    return sorted(out)


def order(ch, sl):
    """Arrays of saturations need not be sorted, and may repeat or be short."""
    how = ch.choose("order", ["increasing", "decreasing", "mixed", "repeated", "one"])
    return {"increasing": sl, "decreasing": sl[::-1], "mixed": sl[1::2] + sl[::2][::-1], "repeated": sl[:5] * 2 + sl[-3:] * 2, "one": sl[3:4]}[how]


def curves(ch):
    name = ch.free("model", list(MODELS))
    cls, irp, ref, alph, valid = MODELS[name]
    p = [ch.free("parameter {}".format(i + 1), a) for i, a in enumerate(alph)]
    if not valid(p):
        if name in ("Linear", "Corey", "Grant", "FattKlikoff"):
            ch.raises(name, (ValueError,), cls, *p)
        return
    kind = ch.choose("construction", ["positional", "parameters set later", "keywords", "defaults"] if name == "Verma" else ["positional", "parameters set later"])
    if kind == "positional":
        f = ch.call(name, cls, *p)
    elif kind == "keywords":
        f = ch.call(name, cls, **dict(zip(("slr", "sls", "a", "b", "c"), p)))
    elif kind == "defaults":
        f = ch.call(name, cls)
        p = [0.2, 0.895, 1.259, -1.7615, 0.5089]
    else:
        q = [[x for x in ([0.0, 0.1, 0.25, 0.5], [0.0], [0.8], [1.0])[i]][0] if name == "Linear" else a[0] for i, a in enumerate(alph)]
        f = ch.call(name, cls, *q)
        f(0.5)
        f.parameters = ch.choose("container", [list, tuple, np.array])(p)
    ch.check([float(x) for x in f.parameters] == [float(x) for x in p], "parameters are {} instead of {}", f.parameters, p)
    ch.check(f.id == irp, "IRP of {} is {} instead of {}", name, f.id, irp)
    text = ch.call("__repr__", repr, f).split("\n")
    ch.check(str(f.id) in text[0].replace(")", " ").split() and f.name in text[0] and [t.split("=")[1].strip() for t in text[1:]] == [str(x) for x in f.parameters], "printed as {}", text)
    sl = saturations(p, 32 if ch.tier == "quick" else 256)
    sl = order(ch, sl)
    arr = ch.call("__call__", f, ch.choose("saturations", [list, tuple, np.array])(sl))
    arr = np.asarray(arr)
    ch.check(arr.shape == (2, len(sl)), "shape {} for {} saturations", arr.shape, len(sl))
    for i, s in enumerate(sl):
        kl, kg = ch.call("__call__", f, s)
        rl, rg = ref(s, *p)
        ch.check(close(kl, rl) and close(kg, rg), "{}{} at {} is {} instead of {}", name, p, s, (kl, kg), (rl, rg))
        ch.check(float(arr[0][i]) == float(kl) and float(arr[1][i]) == float(kg), "{}{} at {}: {} in an array, {} alone", name, p, s, arr[:, i], (kl, kg))
        ch.check(-1e-12 <= kl <= 1.0 + 1e-12 and -1e-12 <= kg <= 1.0 + 1e-12, "{}{} at {} is {}", name, p, s, (kl, kg))
        if i and s >= sl[i - 1]:
            ch.check(kl >= arr[0][i - 1] - 1e-12, "liquid permeability of {}{} decreases at {}", name, p, s)
            if name != "Verma" or p[2:] == [1.259, -1.7615, 0.5089]:
                ch.check(kg <= arr[1][i - 1] + 1e-12, "gas permeability of {}{} increases at {}", name, p, s)
    ch.state((name, p, M_(arr)))


def M_(a):
    return [[float(x) for x in r] for r in a]


BAD = [-1e-9, 1.0 + 1e-9, 2.0, float("nan"), [0.5, 1.5], [-0.1, 0.5], [0.5, float("nan")], (0.2, 0.4, 1.0000001), np.array([0.0, 1.0, -1e-300 - 1e-12])]


def many(ch):
    """Many saturations at once."""
    name = ch.free("model", list(MODELS))
    cls, _, ref, alph, _ = MODELS[name]
    p = [a[0] if name != "Linear" else (0.0, 0.0, 0.8, 1.0)[i] for i, a in enumerate(alph)]
    f = ch.call(name, cls, *p)
    n = ch.free("size", Z.sizes(ch.tier, 5001 * (1 if ch.tier == "quick" else 14), 2))
    sl = [((i * 7919) % 10007) / 10006.0 for i in range(n)]
    got = ch.call("__call__", f, ch.free("saturations", [list, np.array])(sl))
    want = [ref(s, *p) for s in sl]
    ch.check(np.shape(got) == (2, n) and all(close(a, w[0]) and close(b, w[1]) for a, b, w in zip(got[0], got[1], want)), "the curves are wrong")
    ch.state((name, n))


def refuse(ch):
    name = ch.free("model", list(MODELS))
    cls, irp, ref, alph, valid = MODELS[name]
    f = cls(*[a[0] if name != "Linear" else (0.0, 0.0, 0.8, 1.0)[i] for i, a in enumerate(alph)])
    k = ch.free("what", list(range(len(BAD))) + ["too many parameters", "too few parameters"])
    if isinstance(k, int):
        ch.raises(name, (ValueError,), f, BAD[k])
    else:
        before = list(f.parameters)
        p = before + [0.1] if "many" in k else before[:-1]
        ch.raises(name, (ValueError,), lambda: setattr(f, "parameters", p))
        ch.check(list(f.parameters) == before, "refused parameters were set")


def draw(ch):
    """Plots show the curve, in a new figure or in the axes that are given."""
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    name = ch.free("model", list(MODELS))
    f = MODELS[name][0](*[a[0] if name != "Linear" else (0.0, 0.0, 0.8, 1.0)[i] for i, a in enumerate(MODELS[name][3])])
    kw = {}
    n = ch.choose("n", [None, 2, 3, 101])
    if n:
        kw["n"] = n
    size = ch.choose("figsize", ["default", None, (4, 3), [4, 3], np.array([4.0, 3.0])])
    if not isinstance(size, str):
        kw["figsize"] = size
    kws = ch.choose("plt_kws", ["default", None, {}, {"linewidth": 1}, {"linestyle": ":", "color": "red"}])
    if not isinstance(kws, str):
        kw["plt_kws"] = kws
    own = ch.choose("axes", ["new", "None", "given"])
    bad = ch.choose("wrong", [None, ("n", 1), ("n", 2.5), ("n", "a"), ("ax", 3), ("figsize", 3), ("figsize", (1, 2, 3)), ("plt_kws", [1])])
    if own != "new":
        kw["ax"] = None if own == "None" else plt.figure().add_subplot(1, 1, 1)
    before = list(f.parameters)
    figs = len(plt.get_fignums())
    if bad:
        kw[bad[0]] = bad[1]
        ch.raises("plot", (TypeError, ValueError), f.plot, **kw)
        ch.check(len(plt.get_fignums()) == figs, "a refused plot made a figure")
        plt.close("all")
        return
    ax = ch.call("plot", f.plot, **kw)
    ch.check(own != "given" or ax is kw["ax"], "plot returned other axes")
    ch.check(len(plt.get_fignums()) == figs + (own != "given"), "{} figures instead of {}", len(plt.get_fignums()), figs + (own != "given"))
    sl = np.linspace(0.0, 1.0, n or 100)
    want = f(sl)
    lines = ax.get_lines()
    ch.check(len(lines) == len(want), "{} curves", len(lines))
    for line, y in zip(lines, want):
        ch.check(np.array_equal(line.get_xdata(), sl), "saturations of the plot are {}", line.get_xdata())
        ch.check(np.array_equal(line.get_ydata(), y), "curve is {} instead of {}", line.get_ydata(), y)
        if isinstance(kws, dict):
            ch.check(line.get_linewidth() == kws.get("linewidth", 2) and line.get_linestyle() == kws.get("linestyle", "-"), "options of the curve are not {}", kws)
    if own != "given" and isinstance(size, (tuple, list, np.ndarray)):
        ch.check([float(x) for x in ax.figure.get_size_inches()] == [4.0, 3.0], "figure of size {}", ax.figure.get_size_inches())
    ch.check(list(f.parameters) == before, "plot changed the parameters")
    plt.close("all")
    ch.state((name, n, repr(size), repr(kws), own))


def drivers(tier):
    return [Driver("curves", curves, 2 if tier == "quick" else 3, what="full product of models, parameters and saturations"), Driver("refuse", refuse, 0), Driver("many", many, 0, "many saturations", cpu=120), Driver("plot", draw, 2, "curves that are drawn")]
