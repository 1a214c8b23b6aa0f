"""Generators of TOUGH parameter dicts (choice-point driven), one family per group of blocks."""
import numpy as np

REALS = [None, 0.0, -9.81, 1.0e-100, -2.5e-120, 1.23456789e10, 7, np.float32(0.5), np.int64(3), np.float64(6.25e-13)]
FEW = [None, 0.0, -9.81e3, 3.0e-101, 12]
DIGITS = [None, 0, 1, 9, np.int64(4), np.int32(2)]


def real(ch, label, base, alts=REALS):
    return ch.choose(label, [base] + list(alts))


def put(d, key, v):
    """None stands for 'key left out' half of the time the caller asks for it."""
    if v is not None:
        d[key] = v


class NoneKey:
    """Marker: key present with the value None."""


def opt(ch, d, key, label, base, alts):
    """A field: base value, alternatives, absent, or explicitly None."""
    v = ch.choose(label, [base] + list(alts) + [NoneKey])
    if v is NoneKey:
        d[key] = None
    elif v is not None:
        d[key] = v


def seq(ch, label, vals):
    """The same values as list, tuple or array."""
    kind = ch.choose(label + ".type", ["list", "tuple", "array"])
    if kind == "tuple":
        return tuple(vals)
    if kind == "array" and not any(v is None for v in vals):
        return np.array(vals)
    return list(vals)


def model(ch, label, base_n=3, full7=True):
    """{'id', 'parameters'}"""
    n = ch.choose(label + ".n", [base_n, 0, 1, 6, 7])
    p = [round(0.11 * (i + 1), 4) for i in range(n)]
    if n:
        j = ch.choose(label + ".mod", [None, "none-mid", "zero-last", "neg", "exp3", "int"])
        if j == "none-mid" and n >= 3:
            p[1] = None
        elif j == "zero-last":
            p[-1] = 0.0
        elif j == "neg":
            p[0] = -0.125
        elif j == "exp3":
            p[n // 2] = -1.5e-110
        elif j == "int":
            p[0] = 2
    return {"id": ch.choose(label + ".id", [3, 0, 1, 10, np.int64(7)]), "parameters": seq(ch, label, p)}


ROCK1 = {"density": 2600.0, "porosity": 0.15, "conductivity": 2.51, "specific_heat": 920.0}
ROCK2 = {"compressibility": 4.5e-10, "expansivity": 1.5e-5, "conductivity_dry": 1.75, "tortuosity": 0.7,
         "klinkenberg_parameter": 3.3e4, "distribution_coefficient_3": 1.25e-3, "distribution_coefficient_4": 6.5e-4}


def perm(ch, label):
    return ch.choose(label, [1.5e-15, [1.1e-15, 2.2e-15, 3.3e-16], (4.4e-14, 4.4e-14, 4.4e-14),
                             np.array([1.0e-13, 2.0e-13, 1.0e-14]), [1.0e-15, 1.0e-15, 2.0e-15], [1.0e-15, 2.0e-15, 2.0e-15],
                             [0.0, 1.0e-15, -1.0], 0.0, None, 1, np.float32(0.5), [None, 2.5e-15, None]])


def primary(ch, label, n=4):
    """Primary variables; n values with holes allowed."""
    base = [1.01325e5, 0.25, 20.125, -3.75e-120, 1.0e7 / 3.0, 0.1, -1.2345678901234567e-5, 8.0][:n]
    m = ch.choose(label + ".mod", [None, "zero", "none-first", "none-mid", "digits", "int", "zeros", "zeros from fifth"])
    if m == "zero":
        base[0] = 0.0
    elif m == "none-first" and n > 1:
        base[0] = None
    elif m == "none-mid" and n > 2:
        base[n - 2] = None
    elif m == "zeros":
        base = [0.0] * n
    elif m == "zeros from fifth":
        base[4:] = [0.0] * len(base[4:])
    elif m == "digits":
        base[-1] = 1.2345678901234567e8
    elif m == "int":
        base[0] = 100000
    return seq(ch, label, base)


def one_rock(ch):
    """Every field of one material, two bases (full / empty)."""
    full = ch.free("base", [True, False])
    r = {}
    for k, v in {**ROCK1, **ROCK2}.items():
        opt(ch, r, k, k, v if full else None, REALS[(1 if full else 1):] + ([v] if not full else [None]))
    if full:
        r["permeability"] = perm(ch, "permeability")
    else:
        p = ch.choose("permeability?", [None, 1.5e-15, [1e-15, 2e-15, 3e-15]])
        put(r, "permeability", p)
    for k in ("relative_permeability", "capillarity"):
        if ch.choose(k + "?", [full, not full]):
            r[k] = model(ch, k)
    n = ch.choose("ini", [0, 1, 4, 5, 8, 6])
    if n:
        v = primary(ch, "ini", n)
        if ch.flag("ini.pad"):
            v = list(v) + [None] * 2
        r["initial_condition"] = v
    name = ch.choose("name", ["ROCK1", "A", "R2 X", "abcde", "12", "5", "1E5"] if not n else ["ROCK1", "A", "R2 X", "abcde"])
    return {"rocks": {name: r}}, 5


SHAPES = ["plain", "rec2", "relperm", "cap", "both", "bare"]


def rock_shape(i, shape):
    r = {"density": 2000.0 + i, "porosity": 0.1 + 0.01 * i, "permeability": (1.0 + i) * 1e-15, "specific_heat": 900.0 + i}
    if shape == "rec2":
        r["tortuosity"] = 0.5 + 0.01 * i
    elif shape == "relperm":
        r["relative_permeability"] = {"id": 3, "parameters": [0.1 * (i + 1), 0.2]}
    elif shape == "cap":
        r["capillarity"] = {"id": 7, "parameters": [0.3, 0.1 * (i + 1)]}
    elif shape == "both":
        r["compressibility"] = 1e-9 * (i + 1)
        r["relative_permeability"] = {"id": 1 + i, "parameters": [0.1 * (i + 1), 0.2]}
        r["capillarity"] = {"id": 7, "parameters": [0.3, 0.1 * (i + 1), 5.0, 6.0, 7.0, 8.0, 9.0]}
    elif shape == "bare":
        r = {}
    return r


def many_rocks(ch, n=3):
    """Sequences of materials: which optional records each has, order, initial conditions."""
    U = {"rocks": {}}
    names = ["SAND", "CLAY1", "B"][:n]
    for i in range(n):
        U["rocks"][names[i]] = rock_shape(i, ch.free("shape%d" % i, SHAPES))
    order = ch.choose("order", [None, "reversed", "partial", "array", "tuple", "empty"])
    if order == "reversed":
        U["rocks_order"] = names[::-1]
    elif order == "partial":
        U["rocks_order"] = [names[-1]]
    elif order == "array":
        U["rocks_order"] = np.array(names[::-1])
    elif order == "tuple":
        U["rocks_order"] = (names[1], names[0])
    elif order == "empty":
        U["rocks_order"] = []
    ini = ch.choose("ini", [None, "all4", "first", "last", "all5", "middle", "all8", "none-values", "all padded", "only the fifth"])
    k = {"all5": 5, "all8": 8}.get(ini, 4)
    which = {"all4": names, "all5": names, "all8": names, "first": names[:1], "last": names[-1:], "middle": names[1:2]}.get(ini, [])
    for i, nme in enumerate(which):
        U["rocks"][nme]["initial_condition"] = [1e5 + i, 0.5, 20.0 + i, 4.0, 5.5, 6.5, 7.5, 8.5][:k]
    if ini == "none-values":
        U["rocks"][names[0]]["initial_condition"] = [None] * 4
        U["rocks"][names[-1]]["initial_condition"] = [1.0e5, 0.5, None, None]
    if ini == "only the fifth":
        U["rocks"][names[-1]]["initial_condition"] = [None] * 4 + [5.5]
    if ini == "all padded":
        for i, nme in enumerate(names):
            U["rocks"][nme]["initial_condition"] = [1e5 + i, 0.5, 20.0, None, None, None]
    dflt = ch.choose("default", [None, "props", "rpcap", "ini", "fill"])
    if dflt == "props":
        U["default"] = {"density": 2222.0, "porosity": 0.33, "conductivity": 1.99, "tortuosity": 0.44}
    elif dflt == "rpcap":
        U["default"] = {"relative_permeability": {"id": 7, "parameters": [0.457, 0.3, 1.0, 0.05]},
                        "capillarity": {"id": 1, "parameters": []}}
    elif dflt == "ini":
        U["default"] = {"initial_condition": [2.0e5, None, 33.0]}
    elif dflt == "fill":
        U["default"] = {"permeability": [1e-12, 2e-12, 3e-12], "specific_heat": 0.0}
    flac = ch.choose("flac", [None, "empty", "set", "default"])
    if flac is not None:
        U["flac"] = {} if flac == "empty" else {"creep": True, "porosity_model": 2, "version": 1}
        if flac == "set":
            U["rocks"][names[0]]["permeability_model"] = {"id": 5, "parameters": [1.0, 2.0, None, 4.0, 5.0, 6.0, 7.0]}
            U["rocks"][names[-1]]["equivalent_pore_pressure"] = {"id": 2, "parameters": [0.5]}
        if flac == "default":
            U.setdefault("default", {})["permeability_model"] = {"id": 3, "parameters": [0.25]}
            U["rocks"][names[0]]["permeability_model"] = {"id": 11, "parameters": []}
    return U, 5


def models(ch):
    """RPCAP and FLAC parameters."""
    U = {"rocks": {"ROCK1": {"density": 1.0}}, "default": {}}
    if ch.choose("rp?", [True, False]):
        U["default"]["relative_permeability"] = model(ch, "rp")
    if ch.choose("cp?", [True, False]):
        U["default"]["capillarity"] = model(ch, "cp", 2)
    if ch.choose("flac?", [True, False]):
        f = {}
        opt(ch, f, "creep", "creep", False, [True, None])
        opt(ch, f, "porosity_model", "porosity_model", 1, [0, 2, 99999, None])
        opt(ch, f, "version", "version", 1, [0, -1, np.int64(3), None])
        U["flac"] = f
        tgt = ch.choose("flac.where", ["rock", "default"])
        tgt = U["rocks"]["ROCK1"] if tgt == "rock" else U["default"]
        if ch.choose("pm?", [True, False]):
            tgt["permeability_model"] = model(ch, "pm")
        if ch.choose("epp?", [True, False]):
            tgt["equivalent_pore_pressure"] = model(ch, "epp", 1)
    n = ch.choose("ini", [0, 4, 3, 5, 8])
    if n:
        U["default"]["initial_condition"] = primary(ch, "ini", n)
    return U, 5


PARAM_R = {"temperature_dependence_gas": 1.6, "effective_strength_vapor": 0.9, "t_ini": 10.0, "t_max": 3.15576e9,
           "t_step_max": 8.64e6, "gravity": 9.81, "t_reduce_factor": 4.0, "mesh_scale_factor": 1.5,
           "eps1": 1.0e-5, "eps2": 2.0, "w_upstream": 1.25, "w_newton": 0.95, "derivative_factor": 1.0e-7}
PARAM_I = {"n_iteration": (9, 99), "verbosity": (2, -1), "n_cycle": (9999, 0), "n_second": (1200, -999), "n_cycle_print": (100, 1)}


def param(ch):
    full = ch.free("base", [True, False])
    o = {}
    for k, v in PARAM_R.items():
        opt(ch, o, k, k, v if full else None, REALS[1:] + ([None] if full else [v]))
    for k, (v, w) in PARAM_I.items():
        opt(ch, o, k, k, v if full else None, [w, 0, np.int64(3)] + ([None] if full else [v]))
    ts = ch.choose("t_steps", ["one", None, 0, 1, 2, 7, 8, 9, 16, 17, 100, "int", "numpy", "half", "small"])
    if ts == "one":
        o["t_steps"] = 1000.0
    elif ts == "int":
        o["t_steps"] = 5
    elif ts == "numpy":
        o["t_steps"] = np.float64(2.5)
    elif ts == "half":
        o["t_steps"] = 0.5
    elif ts == "small":
        o["t_steps"] = [1.0e-3]
    elif ts:
        o["t_steps"] = seq(ch, "t_steps", [float(1000 + 7 * i) for i in range(ts)])
    U = {"options": o}
    mop = {i + 1: (i * 7 + 3) % 10 for i in range(24)} if full else {}
    k = ch.choose("mop.key", [None, 1, 2, 12, 23, 24])
    if k:
        m = ch.choose("mop.val", [None, 0, 9, np.int64(5)])
        mop[k] = m
    if ch.choose("mop?", [True, False]):
        U["extra_options"] = mop
    if ch.flag("start off"):
        U["start"] = False
    n = ch.choose("ini", [0, 4, 5, 8, 1])
    if n:
        U["default"] = {"initial_condition": primary(ch, "ini", n)}
    return U, 5


def control(ch):
    """Everything else that drives a run; each block on/off with its own parameters."""
    U = {}
    U["title"] = ch.choose("title", ["Sample problem", "", ["one", "two"], ["a", "", "c"], "x" * 80, ("t1", "t2", "t3"),
                                     ["single"], "*Rock-like* title: 123"])
    e = ch.choose("eos", ["eco2n", "", "eos1", "eos2", "eos3", "eos4", "eos5", "eos7", "eos8", "eos9", "eoswasg", "eco2n_v2", "eco2m"])
    if e:
        U["eos"] = e
    put(U, "n_component", ch.choose("nk", [None, 1, 4, np.int64(2)]))
    put(U, "n_phase", ch.choose("nph", [None, 1, 3]))
    put(U, "n_component_mass", ch.choose("nkin", [None, 2]))
    if ch.flag("isothermal"):
        U["isothermal"] = True
    s = ch.choose("solver", ["full", None, "method only", "no method", "precond", "reals"])
    if s == "full":
        U["solver"] = {"method": 5, "z_precond": "Z1", "o_precond": "O4", "rel_iter_max": 0.25, "eps": 1.0e-7}
    elif s == "method only":
        U["solver"] = {"method": 2}
    elif s == "no method":
        U["solver"] = {"eps": 1.0e-8}
    elif s == "precond":
        U["solver"] = {"method": 4, "z_precond": "Z3", "o_precond": "O2"}
    elif s == "reals":
        U["solver"] = {"method": 6, "rel_iter_max": 0.0, "eps": -1.0e-100}
    if ch.flag("nover"):
        U["nover"] = True
    if ch.flag("start off"):
        U["start"] = False
    m = ch.choose("momop", [None, "all", "first", "last", "zero", "nones"])
    if m:
        U["more_options"] = {"all": {i + 1: (3 * i + 1) % 10 for i in range(40)}, "first": {1: 5}, "last": {40: 2},
                             "zero": {7: 0}, "nones": {3: None, 21: 4}}[m]
    t = ch.choose("times", [3, None, 1, 7, 8, 9, 16, 17, 100, "scalar", "int", "big", "zero first", "zero"])
    if t is not None:
        U["times"] = {"scalar": 3600.0, "int": 86400, "big": [1.0e100, 2.5e101, 1.0e-101],
                      "zero first": [0.0] + [10.0 * i for i in range(1, 9)], "zero": 0.0}.get(
            t, None) if isinstance(t, str) else seq(ch, "times", [86400.0 * (i + 1) + 0.5 * i for i in range(t)])
    for k, base, w in (("element_history", ["AAA 0", "AAB12"], 6), ("connection_history", ["AAA 0AAA 1", "AAB12AAC 3"], 12),
                       ("generator_history", ["AAA 0"], 6)):
        c = ch.choose(k, [None, "base", "empty", "six", "nine", "tuple", "array", "many"])
        if c is None:
            continue
        f = 2 if k.startswith("conn") else 1
        U[k] = {"base": base, "empty": [], "six": ["AAA%03d" % i * f for i in (0, 12)], "nine": ["AAA%06d" % i * f for i in (3, 999999)],
                "tuple": tuple(base), "array": np.array(base), "many": ["AB%03d" % i * f for i in range(25)]}[c]
    d = ch.choose("diffusion", [None, "2x2", "array", "1x8", "3x3 neg", "tuple"])
    if d:
        U["diffusion"] = {"2x2": [[2.0e-5, 1.0e-9], [3.0e-5, 4.0e-9]], "array": np.array([[1e-5, 2e-10], [0.0, 3e-10]]),
                          "1x8": [[1e-5 * (i + 1) for i in range(8)]], "3x3 neg": [[-1e-6, None, 2e-6], [3e-6, 4e-6, 5e-6], [0.0, 1e-100, 1.0]],
                          "tuple": ((1e-6, 2e-6),)}[d]
    return U, 5


def selec(ch):
    s = {}
    full = ch.free("base", [True, False])
    ie = {}
    for k in (2, 3, 9, 16):
        opt(ch, ie, k, "IE%d" % k, 10 * k if full else None, [0, 1, 2, -1, 99999, -9999, np.int64(7)] + ([None] if full else [k]))
    i = ch.choose("integers", ["dict", "absent", "none", "empty"])
    if i == "dict":
        s["integers"] = ie
    elif i == "none":
        s["integers"] = None
    elif i == "empty":
        s["integers"] = {}
    f = ch.choose("floats", ["1x3", "absent", "none", "empty", "1x1", "1x8", "2x3", "3x8", "1-in-list", "ragged", "array1", "array2", "tuple"])
    V = [0.5, 1.25, -3.5e-12, 0.0, 2.0e100, -1.0e-110, 7, 8.125]
    tab = {"1x3": V[:3], "none": None, "empty": [], "1x1": [V[1]], "1x8": list(V), "2x3": [V[:3], V[3:6]], "3x8": [list(V), list(V[::-1]), list(V)],
           "1-in-list": [V[:4]], "ragged": [V[:2], list(V), [0.25]], "array1": np.array(V[:5]), "array2": np.array([V[:4], V[4:]]), "tuple": tuple(V[:2])}
    if f != "absent":
        s["floats"] = tab[f]
        if f not in ("none", "empty"):
            m = ch.choose("floats.mod", [None, "None inside", "zero last"])
            if m and f in ("1x3", "1x8"):
                s["floats"][1 if m == "None inside" else -1] = None if m == "None inside" else 0.0
    return {"selections": s}, 5


def outpu(ch):
    o = {}
    fm = ch.choose("format", ["csv", None, "CSV", "TECPLOT", "petrasim"])
    if fm:
        o["format"] = fm
    V = {}
    n = ch.choose("nvars", [3, 0, 1, 2, 5, 12])
    alts = [None, 1, [1, 2], [[1, 2], [3, 4]], [5], [[1], [2]], [[1, 2]], [0], (2, 3), np.array([1, 2]), [[1], [2], [3, 4]], -1, [None, 3], [[], [2]], [[2], []]]
    names = ["pressure", "saturation", "MASS FRACTION IN PHA", "Temperature", "flow", "v6", "v7", "v8", "v9", "v10", "v11", "no heat"]
    for i in range(n):
        V[names[i]] = ch.choose("var%d" % i, alts[i % 3:] + alts[:i % 3]) if i < 5 else None
    if n or ch.flag("empty variables"):
        o["variables"] = V
    # what follows the block matters: it is the only one without a terminator
    U = {"output": o}
    nxt = ch.free("next", ["none", "eleme", "conne", "incon", "nover"])
    if nxt == "eleme":
        U["elements"] = {"AAA 0": {"material": "SAND", "volume": 1.0, "center": [1.0, 2.0, 3.0]}}
    elif nxt == "conne":
        U["connections"] = {"AAA 0AAA 1": {"permeability_direction": 1, "nodal_distances": [1.0, 2.0], "interface_area": 3.0}}
    elif nxt == "incon":
        U["initial_conditions"] = {"AAA 0": {"values": [1.0, 2.0]}}
    elif nxt == "nover":
        U["nover"] = True
    if not o:
        U.pop("output")
    return U, 5


# ---------------------------------------------------------------------------
NUMERIC = {
    # read like numbers, except the first two
    5: ["AAA 0", "AAA 1", "10002", "1E  5", "1 1 1"],
    6: ["AAA000", "AAA001", "100020", "1E  50", "1 1 11"],
    7: ["AAA0000", "AAA0001", "1000200", "1E  500", "1 1 111"],
    8: ["AAA00000", "AAA00001", "10002000", "1E  5000", "1 1 1111"],
    9: ["AAA000000", "AAA000001", "100020000", "1E  50000", "1 1 11111"],
}
LABELS = {
    5: ["AAA 0", "AAA 1", "AAB12", "ZZZ99", "A11 2"],
    6: ["AAA000", "AAA001", "AAB012", "ZZZ999", "A11 23"],
    7: ["AAA0000", "AAA0001", "AAB0012", "ZZZ9999", "A11 234"],
    8: ["AAA00000", "AAA00001", "AAB00012", "ZZZ99999", "A11 2345"],
    9: ["AAA000000", "AAA000001", "AAB000012", "ZZZ999999", "A11 23456"],
}


def labels_of(ch, L):
    """Names of elements of one length: usual ones, or some that read like numbers, or lower case ones."""
    k = ch.choose("names", ["usual", "numeric", "lower", "blanks"])
    if k == "numeric":
        return NUMERIC[L]
    if k == "lower":
        return [x.lower() for x in LABELS[L]]
    if k == "blanks":
        return ["A  %2d%s" % (i + 1, "0123"[:L - 5]) for i in range(5)]
    return LABELS[L]


def imax(w):
    return 10 ** w - 1


def gener_one(ch):
    """All fields of one generator."""
    L = ch.free("label length", [5, 6, 7, 8, 9])
    full = ch.free("base", [True, False])
    w = {5: (5, 5, 5), 6: (6, 4, 4), 7: (5, 4, 4), 8: (4, 4, 4), 9: (5, 3, 3)}[L]
    g = {"type": ch.choose("type", ["MASS", "COM1", "HEAT", "DELV", "F", "WATE"])}
    opt(ch, g, "name", "name", "GEN 1" if full else None, ["A", "W1 2", None, "ABCDE"])
    for k, wi in zip(("nseq", "nadd", "nads"), w):
        opt(ch, g, k, k, 2 if full else None, [0, imax(wi), -1, np.int64(5)] + ([None] if full else [1]))
    shape = ch.free("shape", ["scalar", "table", "table+h"])
    opt(ch, g, "layer_thickness", "layer_thickness", 12.5 if full else None, REALS)
    if shape == "scalar":
        opt(ch, g, "rates", "rates", 1.5e-3 if full else None, REALS)
        opt(ch, g, "specific_enthalpy", "specific_enthalpy", 5.0e5 if full else None, REALS)
    else:
        n = ch.choose("n", [2, 3, 4, 5, 8, 9, 40, 101])
        g["times"] = seq(ch, "times", [100.0 * i for i in range(n)])
        g["rates"] = seq(ch, "rates", [(-1.0) ** i * 0.1 * (i + 1) for i in range(n)])
        if shape == "table+h":
            g["specific_enthalpy"] = seq(ch, "specific_enthalpy", [1.0e5 + 3.0 * i for i in range(n)])
        z = ch.choose("table.mod", [None, "zeros", "exp3", "int"])
        if z == "zeros":
            g["rates"] = [0.0] * n
        elif z == "exp3":
            g["rates"] = [-1.25e-105 * (i + 1) for i in range(n)]
        elif z == "int":
            g["times"] = list(range(n))
    return {"generators": {LABELS[L][0]: g}}, L


def gener_many(ch):
    """Several elements, several generators per element (free products of shapes)."""
    L = ch.choose("label length", [5, 6, 7, 8, 9])
    lb = labels_of(ch, L)
    U = {"generators": {}}
    shapes = ["scalar", "table2", "table5h", "multi2", "multi3", "multi mixed", "multi none", "table4", "one in list", "multi tables", "multi tables h"]
    for i in range(3):
        s = ch.free("g%d" % i, shapes if i < 2 else shapes[:5])
        g = {"type": "COM%d" % (i + 1), "name": "G %d" % i}
        if s == "scalar":
            g.update(rates=0.1 * (i + 1), specific_enthalpy=1.0e5 + i)
        elif s == "table2":
            g.update(times=[0.0, 10.0 + i], rates=[1.0 + i, 2.0])
        elif s == "table4":
            g.update(times=[0.0, 1.0, 2.0, 3.0 + i], rates=[1.0, 2.0, 3.0, 4.0])
        elif s == "table5h":
            g.update(times=[0.0, 1.0, 2.0, 3.0, 4.0 + i], rates=[1.0, 2.0, 3.0, 4.0, 5.0], specific_enthalpy=[5.0, 4.0, 3.0, 2.0, 1.0 + i])
        elif s == "multi2":
            g.update(type=["MASS", "COM2"], name=["A", "B"], rates=[0.5, 0.25 + i])
        elif s == "multi3":
            g.update(type=["COM1", "COM2", "HEAT"], name=None, rates=[1.0, None, 3.0], specific_enthalpy=[None, 2.0e5, 1.0 + i])
        elif s == "multi mixed":
            g.update(type=["COM1", "COM2"], name=["C", None], times=[[0.0, 1.0, 2.0], None], rates=[[1.0, 2.0, 3.0], 5.0 + i],
                     specific_enthalpy=[None, 9.0e4])
        elif s == "multi none":
            g.update(type=["COM1", "COM2"], name=None, rates=None, layer_thickness=[1.0 + i, None])
        elif s == "one in list":
            g.update(type=["COM1"], name=["S"], rates=[7.0])
        elif s == "multi tables":
            g.update(type=("COM1", "COM2"), name=("T", "U"), times=[[0.0, 1.0], [0.0, 1.0, 2.0, 3.0, 4.0]],
                     rates=[[1.0, 2.0], [5.0, 4.0, 3.0, 2.0, 1.0]])
        elif s == "multi tables h":
            g.update(type=["COM1", "COM2"], name=None, times=[[0.0, 1.0], [0.0, 2.0]], rates=[[1.0, 2.0], [3.0, 4.0]],
                     specific_enthalpy=[[1.0e5, 2.0e5], [3.0e5, 4.0e5]])
        U["generators"][lb[i]] = g
    return U, L


GENS = ["mass", "mass h", "none", "table", "table h", "named"]


def gener_stack(ch):
    """Any sequence of up to three (thorough: four) generators in one element, plus a second element."""
    L = ch.choose("label length", [5, 6, 7, 8, 9])
    lb = labels_of(ch, L)
    n = ch.free("n", [1, 2, 3])
    ks = [ch.free("k%d" % i, GENS) for i in range(n)]
    g = {k: [] for k in ("type", "name", "times", "rates", "specific_enthalpy", "layer_thickness")}
    for i, k in enumerate(ks):
        tab = k.startswith("table")
        m = 2 + i
        g["type"].append("COM%d" % (i + 1))
        g["name"].append("G  %2d" % i if k in ("named", "table") else None)
        g["times"].append([10.0 * j for j in range(m)] if tab else None)
        g["rates"].append(None if k == "none" else [0.5 + i + j for j in range(m)] if tab else 1.0 + i)
        g["specific_enthalpy"].append([1.0e5 + 10 * i + j for j in range(m)] if k == "table h" else 5.0e4 + i if k == "mass h" else None)
        g["layer_thickness"].append(2.5 + i if k == "none" else None)
    if n == 1:
        g = {k: v[0] for k, v in g.items() if v[0] is not None}
    else:
        g = {k: None if all(x is None for x in v) else v for k, v in g.items()}
        if ch.flag("leave out unused"):
            g = {k: v for k, v in g.items() if v is not None}
    U = {"generators": {lb[0]: g}}
    s = ch.choose("second", [None, "after", "before"])
    if s == "after":
        U["generators"][lb[2]] = {"type": "HEAT", "rates": 9.0}
    elif s == "before":
        U["generators"] = {lb[1]: {"type": "HEAT", "rates": 9.0}, lb[0]: g}
    return U, L


def eleme(ch):
    """ELEME / COORD records, all label lengths."""
    L = ch.free("label length", [5, 6, 7, 8, 9])
    full = ch.free("base", [True, False])
    w = {5: (5, 5), 6: (5, 4), 7: (4, 4), 8: (4, 3), 9: (3, 3)}[L]
    n = ch.choose("n", [3, 1, 2, 5])
    lb = labels_of(ch, L)
    U = {"elements": {}}
    t = ch.choose("target", list(range(n)))
    coord = ch.free("coord", [False, True])
    for i in range(n):
        e = {"material": "SAND", "volume": 10.0 + i, "center": [1.0 + i, 2.0 + i, -3.0 - i]}
        if full:
            e.update(nseq=1, nadd=2, heat_exchange_area=3.5 + i, permeability_modifier=0.25 + i)
        if i == t:
            # a digit right after the label would make automatic detection of its length ambiguous
            opt(ch, e, "nseq", "nseq", e.get("nseq"), [0, imax(w[0] - 1), -1, np.int64(5)])
            opt(ch, e, "nadd", "nadd", e.get("nadd"), [0, imax(w[1]), -1])
            e["material"] = ch.choose("material", ["SAND", "A", "ROCK1", 1, 2, 12, 12345, np.int64(3), "", "a b", "R-1", "1A"])
            if full is False and ch.flag("no material"):
                e.pop("material")
            for k in ("volume", "heat_exchange_area", "permeability_modifier"):
                opt(ch, e, k, k, e.get(k), REALS)
            e["center"] = seq(ch, "center", ch.choose("center", [[1.5, 2.5, -3.5], [0.0, 0.0, 0.0], [-1.0e-101, 1.0e100, -2.0], [1, 2, 3],
                                                                 [1234.56789, 0.1, -98765.4321]]))
            if not coord and ch.flag("no center"):
                e.pop("center")
        U["elements"][lb[i]] = e
    if coord:
        U["coordinates"] = True
    o = ch.choose("order", [None, "reversed", "partial", "array", "tuple"])
    ks = list(U["elements"])
    if o:
        U["elements_order"] = {"reversed": ks[::-1], "partial": ks[-1:], "array": np.array(ks[::-1]), "tuple": tuple(ks[::-1])}[o]
        if o == "partial":
            pass
    return U, L


def conne(ch):
    L = ch.free("label length", [5, 6, 7, 8, 9])
    full = ch.free("base", [True, False])
    w = {5: (5, 5, 5), 6: (5, 4, 4), 7: (5, 3, 3), 8: (3, 3, 3), 9: (3, 2, 2)}[L]
    n = ch.choose("n", [2, 1, 4])
    t = ch.choose("target", list(range(n)))
    lb = labels_of(ch, L)
    U = {"connections": {}}
    for i in range(n):
        c = {"permeability_direction": 1 + i % 3, "nodal_distances": [0.5 + i, 1.5 + i], "interface_area": 4.0 + i}
        if full:
            c.update(nseq=1, nadd=[2, 3], gravity_cosine_angle=-0.5, radiant_emittance_factor=0.75)
        if i == t:
            opt(ch, c, "nseq", "nseq", c.get("nseq"), [0, imax(w[0] - 1), -1, np.int64(5)])
            opt(ch, c, "nadd", "nadd", c.get("nadd"), [[0, 0], [imax(w[1]), imax(w[2])], [None, 4], [1, None], (5, 6), np.array([7, 8])])
            opt(ch, c, "permeability_direction", "isot", 2, [1, 3, -1, 0, np.int64(2)])
            nd = ch.choose("nodal_distances", [[0.5, 1.5], (2.0, 3.0), np.array([1.0e-9, 4.0]), [0.0, 1.0], [None, 1.0], [2.0, None], [1.0e-101, -1.0], [1, 2]])
            c["nodal_distances"] = nd
            if ch.flag("no distances"):
                c.pop("nodal_distances")
            for k in ("interface_area", "gravity_cosine_angle", "radiant_emittance_factor"):
                opt(ch, c, k, k, c.get(k), REALS)
        U["connections"][lb[i] + lb[(i + 1) % 5]] = c
    o = ch.choose("order", [None, "reversed", "partial", "array", "tuple"])
    ks = list(U["connections"])
    if o:
        U["connections_order"] = {"reversed": ks[::-1], "partial": ks[-1:], "array": np.array(ks[::-1]), "tuple": tuple(ks[::-1])}[o]
    return U, L


def incon(ch):
    L = ch.free("label length", [5, 6, 7, 8, 9])
    n = ch.choose("n", [2, 1, 4])
    t = ch.choose("target", list(range(n)))
    k = ch.free("n primary", [4, 1, 3, 5, 8])
    lb = labels_of(ch, L)
    U = {"initial_conditions": {}}
    for i in range(n):
        e = {"values": [1.0e5 + i, 0.5 + i, 20.0 + i, 4.0, 5.0, 6.0, 7.0, 8.0 + i][:k]}
        if i == t:
            opt(ch, e, "porosity", "porosity", 0.25, REALS)
            u = ch.choose("userx", [None, [1.5], [1.0, 2.0, 3.0, 4.0, 5.0], [None, None, 3.0], [0.0, -2.5e-100, 7], "array", (1.0, 2.0)])
            if isinstance(u, str):
                u = np.array([1.0, 2.5])
            put(e, "userx", u)
            e["values"] = primary(ch, "values", k)
            if ch.flag("pad with None"):
                e["values"] = list(e["values"]) + [None] * (6 - min(k, 5))
        U["initial_conditions"][lb[i]] = e
    o = ch.choose("order", [None, "reversed", "partial", "array", "tuple"])
    ks = list(U["initial_conditions"])
    if o:
        U["initial_conditions_order"] = {"reversed": ks[::-1], "partial": ks[-1:], "array": np.array(ks[::-1]), "tuple": tuple(ks[::-1])}[o]
    return U, L


def big(ch):
    """Large decks: sizes around any batching."""
    n = ch.free("n", [99, 100, 101, 1200])
    L = ch.free("L", [5, 6, 9])
    from itertools import product

    labs = ["%s%0*d" % (a + b + c, L - 3, i % 10 ** (L - 3)) for i, (a, b, c) in zip(range(n), product("ABCDEFGHIJKLMNOP", repeat=3))]
    U = {"rocks": {"R%d" % i: {"density": 1000.0 + i} for i in range(30)},
         "elements": {l: {"material": "R%d" % (i % 30), "volume": 1.0 + i, "center": [float(i), 2.0 * i, -0.5 * i]} for i, l in enumerate(labs)},
         "connections": {a + b: {"permeability_direction": 1 + i % 3, "nodal_distances": [1.0 + i, 2.0 + i], "interface_area": 3.0 + i}
                         for i, (a, b) in enumerate(zip(labs[:-1], labs[1:]))},
         "initial_conditions": {l: {"porosity": 0.1, "values": [1.0e5 + i, 0.25, 20.0 + i]} for i, l in enumerate(labs)},
         "generators": {l: {"type": "COM1", "rates": 0.5 * i} for i, l in enumerate(labs[::7])},
         "coordinates": True}
    return U, L


def recolor(x, how):
    """All reals the same, or the first / last real of every list zero (coincidences of values, zeros anywhere)."""
    if isinstance(x, dict):
        return {k: recolor(v, how) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        y = [recolor(v, how) for v in x]
        if how in ("zero first", "zero last") and y:
            i = 0 if how == "zero first" else -1
            y[i] = 0.0 if isinstance(y[i], (float, np.floating)) else y[i]
        return tuple(y) if isinstance(x, tuple) else y
    if isinstance(x, np.ndarray):
        return np.array(recolor(x.tolist(), how)) if x.dtype.kind == "f" else x
    if isinstance(x, (float, np.floating)) and not isinstance(how, str):
        return type(x)(how)
    return x


def retype(x, how):
    """The same numbers, in NumPy scalars, tuples or arrays."""
    if isinstance(x, dict):
        return {k: retype(v, how) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        y = [retype(v, how) for v in x]
        if how == "arrays" and y and all(isinstance(v, (int, float, np.number)) and not isinstance(v, bool) for v in y):
            return np.array(y)
        return tuple(y) if how == "tuples" else y
    if isinstance(x, bool) or isinstance(x, np.ndarray):
        return x
    if isinstance(x, int):
        return np.int64(x) if how != "int32" else np.int32(x) if abs(x) < 2 ** 31 else np.int64(x)
    if isinstance(x, float):
        return np.float32(x) if float(np.float32(x)) == x else np.float64(x)
    return x


def family(fn):
    def wrapped(ch):
        how = ch.choose("reals", [None, 0.0, 1.0, "zero first", "zero last"])
        types = ch.choose("types", [None, "tuples", "arrays", "int32"])
        U, L = fn(ch)
        U = U if how is None else recolor(U, how)
        return (U if types is None else retype(U, types)), L

    wrapped.__doc__ = fn.__doc__
    return wrapped


FAMILIES = {
    "one_rock": one_rock, "many_rocks": many_rocks, "models": models, "param": param, "control": control, "selec": selec,
    "outpu": outpu, "gener_one": gener_one, "gener_many": gener_many, "gener_stack": gener_stack, "eleme": eleme, "conne": conne, "incon": incon, "big": big,
}

FAMILIES = {k: family(v) for k, v in FAMILIES.items()}
