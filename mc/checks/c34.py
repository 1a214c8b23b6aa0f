"""Capillary pressure functions."""
import math

import numpy as np
import toughio

from ..engine import Driver
from .. import long as Z
from .c33 import BAD, order

ASSUMPTIONS = ["parameters within the ranges of the TOUGH manual (Milly: slr > 0); saturations are scalars or one-dimensional arrays; relative tolerance 1e-9"]

CP = toughio.capillarity


def linear(sl, pmax, smin, smax):
    return -pmax * min(max((smax - sl) / (smax - smin), 0.0), 1.0)


def pickens(sl, p0, slr, sl0, x):
    sl = min(max(sl, 1.001 * slr), 0.999 * sl0)
    A = (1.0 + sl / sl0) * (sl0 - slr) / (sl0 + slr)
    B = 1.0 - sl / sl0
    return -p0 * math.log(A / B * (1.0 + math.sqrt(1.0 - (B / A) ** 2))) ** (1.0 / x)


def ramp(sl):
    return (1.0 - sl) / 0.001 if sl > 0.999 else 1.0


def trust(sl, p0, slr, eta, pe, pmax):
    pc = -pmax if sl <= slr else max(-pmax, -pe - p0 * ((1.0 - sl) / (sl - slr)) ** (1.0 / eta))
    return pc * ramp(sl)


def milly(sl, slr):
    d = max(sl, 1.001 * slr) - slr
    return -97.783 * (1.0 if d >= 0.371 else 10.0 ** (2.26 * (0.371 / d - 1.0) ** 0.25 - 2.0))


def vg(sl, m, slr, alpha, pmax, sls):
    if sl >= min(sls, 1.0):
        return 0.0
    pc = -pmax if sl <= slr else max(-pmax, -1.0 / abs(alpha) * (((sl - slr) / (sls - slr)) ** (-1.0 / m) - 1.0) ** (1.0 - m))
    return pc * ramp(sl)


MODELS = {
    "Linear": (CP.Linear, 1, linear, [[1.0e6, 0.0, 5, 1e-3], [0.0, 0.25, 0.1, 0.5], [0.4, 1.0, 0.25, 0.75]], lambda p: p[1] < p[2]),
    "Pickens": (CP.Pickens, 2, pickens, [[1.0e6, 2.5], [0.3, 0.1, 0.5, 0.0, 1.0], [1.3, 1.0, 2, 0.9, 1.0004], [0.8, 1.0, 2, 0.0]], lambda p: 0.0 < p[1] < 1.0 and p[2] >= 1.0 and p[3] != 0.0),
    "TRUST": (CP.TRUST, 3, trust, [[1.0e6, 10.0], [0.3, 0.0, 0.125, -0.1], [1.3, 0.5, 1, 0.0], [0.8, 0.0, 1e3], [1.0e7, 2.0, 1e5]], lambda p: p[1] >= 0.0 and p[2] != 0.0),
    "Milly": (CP.Milly, 4, milly, [[0.25, 0.1, 0.5, 0.01, 0.9, -0.1]], lambda p: p[0] >= 0.0),
    "vanGenuchten": (CP.vanGenuchten, 7, vg, [[0.457, 0.25, 0.8], [0.0, 0.1, 0.3], [5.105e-4, 1.0, -2e-3], [1.0e7, 0.0, 2.5e3, -1.0], [1.0, 0.9, 0.5, 1.1]], lambda p: p[3] >= 0.0),
}


def saturations(p, n=32):
    out = {0.0, 1.0, 0.999, 0.999 + 1e-6, 0.9999, 0.9985, 1.0 - 1e-12, 1e-9}
    out |= {i / float(n) for i in range(n + 1)}
    for v in p:
        if isinstance(v, (int, float)) and 0.0 <= v <= 1.0:
            out |= {x for x in (v - 1e-6, v, v + 1e-6, 1.001 * v, 1.0005 * v, v + 0.371, v + 0.3705) if 0.0 <= x <= 1.0}
    return sorted(out)


def close(a, b, big):
    return abs(float(a) - b) <= 1e-9 * max(abs(b), 1e-6 * big) + 1e-300


def curves(ch):
    name = ch.free("model", list(MODELS))
    cls, icp, ref, alph, valid = MODELS[name]
    p = [ch.free("parameter {}".format(i + 1), a) for i, a in enumerate(alph)]
    if not valid(p):
        ch.raises(name, (ValueError,), cls, *p)
        return
    if ch.choose("construction", ["positional", "parameters set later"]) == "positional":
        f = ch.call(name, cls, *p)
    else:
        f = ch.call(name, cls, *[a[0] for a in alph])
        f(0.5)
        f.parameters = ch.choose("container", [list, tuple, np.array])(p)
    ch.check([float(x) for x in f.parameters] == [float(x) for x in p], "parameters are {} instead of {}", f.parameters, p)
    ch.check(f.id == icp, "ICP of {} is {} instead of {}", name, f.id, icp)
    text = ch.call("__repr__", repr, f).split("\n")
    ch.check(str(f.id) in text[0].replace(")", " ").split() and f.name in text[0] and [t.split("=")[1].strip() for t in text[1:]] == [str(x) for x in f.parameters], "printed as {}", text)
    sl = saturations(p, 32 if ch.tier == "quick" else 256)
    sl = order(ch, sl)
    arr = np.asarray(ch.call("__call__", f, ch.choose("saturations", [list, tuple, np.array])(sl)))
    ch.check(arr.shape == (len(sl),) and arr.dtype.kind in "fi", "{} values of type {} for {} saturations", arr.shape, arr.dtype, len(sl))
    big = max(abs(p[0]), 1.0)
    for i, s in enumerate(sl):
        v = ch.call("__call__", f, s)
        r = ref(s, *p)
        ch.check(close(v, r, big), "{}{} at {} is {} instead of {}", name, p, s, v, r)
        ch.check(float(arr[i]) == float(v), "{}{} at {}: {} in an array, {} alone", name, p, s, arr[i], v)
        ch.check(v <= 0.0, "{}{} at {} is {}", name, p, s, v)
        lim = {"Linear": 0, "TRUST": 4, "vanGenuchten": 3}.get(name)
        if lim is not None:
            ch.check(v >= -p[lim] * (1 + 1e-12), "{}{} at {} is {}, beyond the maximum", name, p, s, v)
        if i and s >= sl[i - 1] and name in ("Linear", "TRUST", "vanGenuchten"):
            ch.check(v >= arr[i - 1] * (1 + (1e-9 if arr[i - 1] > 0 else -1e-9)) - 1e-9 * abs(arr[i - 1]), "{}{} decreases at {}: {} after {}", name, p, s, v, arr[i - 1])
    ch.state((name, p, [float(x) for x in arr]))


def many(ch):
    """Many saturations at once."""
    name = ch.free("model", list(MODELS))
    cls, _, ref, alph, _ = MODELS[name]
    p = [a[0] for a in alph]
    f = ch.call(name, cls, *p)
    n = ch.free("size", Z.sizes(ch.tier, 5001 * (1 if ch.tier == "quick" else 14), 2))
    sl = [((i * 7919) % 10007) / 10006.0 for i in range(n)]
    got = ch.call("__call__", f, ch.free("saturations", [list, np.array])(sl))
    ch.check(np.shape(got) == (n,) and all(close(a, ref(s, *p), max(abs(p[0]), 1.0)) for a, s in zip(got, sl)), "the curve is wrong")
    ch.state((name, n))


def refuse(ch):
    name = ch.free("model", list(MODELS))
    cls, icp, ref, alph, valid = MODELS[name]
    f = cls(*[a[0] for a in alph])
    k = ch.free("what", list(range(len(BAD))) + ["too many parameters", "too few parameters"])
    if isinstance(k, int):
        ch.raises(name, (ValueError,), f, BAD[k])
    else:
        before = list(f.parameters)
        p = before + [0.1] if "many" in k else before[:-1]
        ch.raises(name, (ValueError,), lambda: setattr(f, "parameters", p))
        ch.check(list(f.parameters) == before, "refused parameters were set")


def draw(ch):
    """Plots show the curve, in a new figure or in the axes that are given."""
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    name = ch.free("model", list(MODELS))
    f = MODELS[name][0](*[a[0] for a in MODELS[name][3]])
    kw = {}
    n = ch.choose("n", [None, 2, 3, 101])
    if n:
        kw["n"] = n
    size = ch.choose("figsize", ["default", None, (4, 3), [4, 3], np.array([4.0, 3.0])])
    if not isinstance(size, str):
        kw["figsize"] = size
    kws = ch.choose("plt_kws", ["default", None, {}, {"linewidth": 1}, {"linestyle": ":", "color": "red"}])
    if not isinstance(kws, str):
        kw["plt_kws"] = kws
    own = ch.choose("axes", ["new", "None", "given"])
    bad = ch.choose("wrong", [None, ("n", 1), ("n", 2.5), ("n", "a"), ("ax", 3), ("figsize", 3), ("figsize", (1, 2, 3)), ("plt_kws", [1])])
    if own != "new":
        kw["ax"] = None if own == "None" else plt.figure().add_subplot(1, 1, 1)
    before = list(f.parameters)
    figs = len(plt.get_fignums())
    if bad:
        kw[bad[0]] = bad[1]
        ch.raises("plot", (TypeError, ValueError), f.plot, **kw)
        ch.check(len(plt.get_fignums()) == figs, "a refused plot made a figure")
        plt.close("all")
        return
    ax = ch.call("plot", f.plot, **kw)
    ch.check(own != "given" or ax is kw["ax"], "plot returned other axes")
    ch.check(len(plt.get_fignums()) == figs + (own != "given"), "{} figures instead of {}", len(plt.get_fignums()), figs + (own != "given"))
    sl = np.linspace(0.0, 1.0, n or 100)
    want = [np.abs(f(sl))]
    lines = ax.get_lines()
    ch.check(len(lines) == len(want), "{} curves", len(lines))
    for line, y in zip(lines, want):
        ch.check(np.array_equal(line.get_xdata(), sl), "saturations of the plot are {}", line.get_xdata())
        ch.check(np.array_equal(line.get_ydata(), y), "curve is {} instead of {}", line.get_ydata(), y)
        if isinstance(kws, dict):
            ch.check(line.get_linewidth() == kws.get("linewidth", 2) and line.get_linestyle() == kws.get("linestyle", "-"), "options of the curve are not {}", kws)
    if own != "given" and isinstance(size, (tuple, list, np.ndarray)):
        ch.check([float(x) for x in ax.figure.get_size_inches()] == [4.0, 3.0], "figure of size {}", ax.figure.get_size_inches())
    ch.check(list(f.parameters) == before, "plot changed the parameters")
    plt.close("all")
    ch.state((name, n, repr(size), repr(kws), own))


def drivers(tier):
    return [Driver("curves", curves, 2 if tier == "quick" else 3, what="full product of models, parameters and saturations"), Driver("refuse", refuse, 0), Driver("many", many, 0, "many saturations", cpu=120), Driver("plot", draw, 2, "curves that are drawn")]
