import math

import numpy as np

NAMES = ["PRES", "SAT_G", "P", "T", "X_WATER_L", "flow (1)", "a", "HEAT", "x", "TEMP", "a_quite_long_variable_name", "ELEMENT_VOL", "TIME_STEP"]
VALUES = [1.5, -2.25, 0.0, 1.0e-30, -1.2345678901234e-100, 3, 9.87654321012e200, -7]


ALPHABETS = {
    "plain": ["AAA 0", "AAA 1", "A1 10", "B  3Z", "ZZZ99"],
    "blanks": ["AA  1", "A A 1", "A  A1", "AAA 1", "A   1"],
    "case": ["aaa 1", "AAA 1", "aAa 1", "AAa 1", "aAA 1"],
    "numbers": ["12345", "1E  5", "00001", "1.0 2", "1E+ 5"],
    "signs": ["A-1 1", "A+1 1", "A_1 1", "A/1 1", "A.1 1"],
    "not sorted": ["ZZZ99", "AAA 0", "aaa 0", "A1 10", "A1  9"],
}


def labels(n, L=5, connection=False, kind="plain"):
    base = ALPHABETS[kind] if L == 5 else ["AAA" + str(i).rjust(L - 3, "0" if L > 5 else " ") for i in range(5)]
    if L != 5 and kind != "plain":
        base = [x + str(i)[0] * (L - 5) for i, x in enumerate(ALPHABETS[kind])]
    return [(base[i], base[i + 1]) for i in range(n)] if connection else base[:n]


def same(a, b, rel=0.0):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return a == b or abs(a - b) <= rel * max(abs(a), abs(b))


def compare(ch, got, M, connection, what, labels=True, rel=0.0, trel=0.0, order=None):
    """got: list of Output; M: expected model (already rounded)."""
    got = list(got)
    ch.check(len(got) == len(M), "{}: {} steps instead of {}", what, len(got), len(M))
    for k, (o, (t, lab, data)) in enumerate(zip(got, M)):
        ch.check(o.type == ("connection" if connection else "element"), "{}: type {}", what, o.type)
        if t is None:
            ch.check(o.time is None, "{}: time {} instead of None", what, o.time)
        else:
            ch.check(o.time is not None and same(o.time, t, trel), "{}: time {} instead of {}", what, o.time, t)
        idx = list(range(len(data[next(iter(data))])))
        if order is not None:
            idx = [list(lab).index(x) for x in order]
        if labels:
            g = np.asarray(o.labels).tolist()
            g = [tuple(x) for x in g] if connection else g
            e = [lab[i] for i in idx]
            ch.check(g == e, "{}: labels {} instead of {}", what, g, e)
        ch.check(list(o.data) == list(data), "{}: variables {} instead of {}", what, list(o.data), list(data))
        for n in data:
            v = list(np.asarray(o.data[n]))
            ch.check(len(v) == len(idx), "{}: {} has {} values instead of {}", what, n, len(v), len(idx))
            for j, i in enumerate(idx):
                ch.check(same(v[j], data[n][i], rel), "{}: step {} {}[{}] is {} instead of {}", what, k, n, j, v[j], data[n][i])


def rounded(M, fmt, tfmt, first=()):
    """The model after formatting (first: names the writer puts first)."""
    out = []
    val = lambda f, x: f.value(x) if hasattr(f, "value") else float(f.format(float(x)))
    for t, lab, data in M:
        names = [n for n in first if n in data] + [n for n in data if n not in first]
        out.append((None if t is None else val(tfmt, t), lab, {n: [val(fmt, v) for v in data[n]] for n in names}))
    return out


def model(ch, connection=False, L=5, plain=False, need=(), nmax=3):
    """A choice-driven table."""
    n = ch.choose("rows", [2, 1, 3, nmax + 1])
    ns = ch.choose("steps", [2, 1, 3])
    names = list(ch.choose("coordinates", [("X", "Y", "Z"), ("X", "Y"), ()] if not need else [("X", "Y", "Z"), ("X", "Y")]))
    pool = [x for x in NAMES if not (plain and (" " in x))]
    extra = ch.choose("variables", [1, 2, 0, 3] if names else [1, 2, 3])
    for i in range(extra):
        nm = ch.choose("name {}".format(i), [x for x in pool if x not in names])
        if ch.choose("before coordinates {}".format(i), [False, True]):
            names.insert(0, nm)
        else:
            names.append(nm)
    kind = ch.choose("labels", list(ALPHABETS))
    times = [1.0, 2.5e7, 3.1557e9]
    times[0] = ch.choose("time 0", [1.0, 0.0, 1.2345678e-5])
    if ns > 1:
        times[1] = ch.choose("time 1", [2.5e7, 1.23456789e1, 2.0, "close", "next"])
        # differences of a few seconds late in a simulation, still representable in every format
        if times[1] == "close":
            times[:] = [3.0e8, 3.0e8 + 1000.0, 3.0e8 + 2000.0]
        elif times[1] == "next":
            times[:] = [1.0e-9, 1.1e-9, 1.2e-9]
    M = []
    k = 0
    for s in range(ns):
        data = {}
        for nm in names:
            col = []
            for i in range(n):
                k += 1
                v = k * 1.125 + 1e-5
                if s == ns - 1 and i == n - 1:
                    v = ch.choose("value {}".format(nm), [v] + VALUES)
                col.append(v)
            data[nm] = col
        M.append((times[s], labels(n, L, connection, kind), data))
    return M
