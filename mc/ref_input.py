"""
Independent model of the TOUGH2 input deck: fixed-column tables (from the TOUGH2 user's
guide and, for long element names, the iTOUGH2 extension), a reference decoder, a
reference encoder, and the normal form two decks are compared in.

Nothing here imports toughio.
"""
import math

import numpy

# ---------------------------------------------------------------------------
# column tables: (field, first column (1-based), width, kind) ; kind: s, i, f<decimals>
# ---------------------------------------------------------------------------
T = {}
T["ROCKS1"] = [
    ("name", 1, 5, "s"), ("nad", 6, 5, "i"),
    ("density", 11, 10, "f4"), ("porosity", 21, 10, "f4"),
    ("k1", 31, 10, "f4"), ("k2", 41, 10, "f4"), ("k3", 51, 10, "f4"),
    ("conductivity", 61, 10, "f4"), ("specific_heat", 71, 10, "f4"),
]
ROCK2 = [
    "compressibility", "expansivity", "conductivity_dry", "tortuosity",
    "klinkenberg_parameter", "distribution_coefficient_3", "distribution_coefficient_4",
]
T["ROCKS2"] = [(n, 1 + 10 * i, 10, "f4") for i, n in enumerate(ROCK2)]
T["MODEL5"] = [("id", 1, 5, "i")] + [("p%d" % i, 11 + 10 * i, 10, "f3") for i in range(7)]
T["MODEL10"] = [("id", 1, 10, "i")] + [("p%d" % i, 11 + 10 * i, 10, "f3") for i in range(7)]
T["FLAC1"] = [("creep", 1, 5, "i"), ("porosity_model", 6, 5, "i"), ("version", 11, 5, "i")]
T["MULTI"] = [("nk", 1, 5, "i"), ("neq", 6, 5, "i"), ("nph", 11, 5, "i"), ("nb", 16, 5, "i"), ("nkin", 21, 5, "i")]
T["SOLVR"] = [("method", 1, 1, "i"), ("z_precond", 4, 2, "s"), ("o_precond", 9, 2, "s"),
              ("rel_iter_max", 11, 10, "f4"), ("eps", 21, 10, "f4")]
T["PARAM1"] = [("n_iteration", 1, 2, "i"), ("verbosity", 3, 2, "i"), ("n_cycle", 5, 4, "i"),
               ("n_second", 9, 4, "i"), ("n_cycle_print", 13, 4, "i"), ("mop", 17, 24, "S"),
               ("temperature_dependence_gas", 51, 10, "f4"), ("effective_strength_vapor", 61, 10, "f4")]
T["PARAM2"] = [("t_ini", 1, 10, "f4"), ("t_max", 11, 10, "f4"), ("delten", 21, 10, "f1"),
               ("t_step_max", 31, 10, "f4"), ("gravity", 51, 10, "f4"),
               ("t_reduce_factor", 61, 10, "f4"), ("mesh_scale_factor", 71, 10, "f4")]
T["E10x8"] = [("v%d" % i, 1 + 10 * i, 10, "f4") for i in range(8)]
T["E10.3x8"] = [("v%d" % i, 1 + 10 * i, 10, "f3") for i in range(8)]
T["PARAM3"] = [("eps1", 1, 10, "f4"), ("eps2", 11, 10, "f4"), ("w_upstream", 31, 10, "f4"),
               ("w_newton", 41, 10, "f4"), ("derivative_factor", 51, 10, "f4")]
T["E20x4"] = [("v%d" % i, 1 + 20 * i, 20, "f13") for i in range(4)]
T["E20x3"] = T["E20x4"][:3]
T["E14x4"] = [("v%d" % i, 1 + 14 * i, 14, "f7") for i in range(4)]
T["I5x16"] = [(i + 1, 1 + 5 * i, 5, "i") for i in range(16)]
T["TIMES1"] = [("n", 1, 5, "i")]
T["OUTPUV"] = [("name", 1, 20, "s"), ("o1", 21, 5, "i"), ("o2", 26, 5, "i")]
T["NAME5"] = [("name", 1, 5, "s")]


def _seq(spec, start=1):
    out = []
    for name, w, kind in spec:
        if name:
            out.append((name, start, w, kind))
        start += w
    return out


_INT3 = {5: (5, 5), 6: (5, 4), 7: (4, 4), 8: (4, 3), 9: (3, 3)}
_CINT = {5: (5, 5, 5), 6: (5, 4, 4), 7: (5, 3, 3), 8: (3, 3, 3), 9: (3, 2, 2)}
_GINT = {5: (5, 5, 5), 6: (6, 4, 4), 7: (5, 4, 4), 8: (4, 4, 4), 9: (5, 3, 3)}
for L in range(5, 10):
    a, b = _INT3[L]
    T["ELEME%d" % L] = _seq([("label", L, "s"), ("nseq", a, "i"), ("nadd", b, "i"), ("material", 5, "s")]) + [
        ("volume", 21, 10, "f4"), ("heat_exchange_area", 31, 10, "f4"), ("permeability_modifier", 41, 10, "f4"),
        ("x", 51, 10, "f3"), ("y", 61, 10, "f3"), ("z", 71, 10, "f3")]
    T["INCON%d" % L] = _seq([("label", L, "s"), ("nseq", a, "i"), ("nadd", b, "i"), ("porosity", 15, "f9")]) + [
        ("u%d" % i, 31 + 10 * i, 10, "f3") for i in range(5)]
    a, b, c = _CINT[L]
    T["CONNE%d" % L] = _seq([("label", 2 * L, "s"), ("nseq", a, "i"), ("nadd1", b, "i"), ("nadd2", c, "i"),
                             ("permeability_direction", 5, "i")]) + [
        ("d1", 31, 10, "f4"), ("d2", 41, 10, "f4"), ("interface_area", 51, 10, "f4"),
        ("gravity_cosine_angle", 61, 10, "f3"), ("radiant_emittance_factor", 71, 10, "f3")]
    a, b, c = _GINT[L]
    T["GENER%d" % L] = _seq([("label", L, "s"), ("name", 5, "s"), ("nseq", a, "i"), ("nadd", b, "i"),
                             ("nads", c, "i"), ("ltab", 5, "i"), (None, 5, "s"), ("type", 4, "s"), ("itab", 1, "s")]) + [
        ("gx", 41, 10, "f3"), ("ex", 51, 10, "f3"), ("hg", 61, 10, "f3")]
    assert T["ELEME%d" % L][3][1] == 16 and T["INCON%d" % L][3][1:3] == (16, 15)
    assert T["CONNE%d" % L][4][1] == 26 and T["GENER%d" % L][5][1] == 26 and T["GENER%d" % L][7][1] == 40

KEYWORDS = ("ROCKS RPCAP FLAC MULTI SOLVR START PARAM SELEC INDOM MOMOP TIMES FOFT COFT GOFT GENER "
            "DIFFU OUTPU ELEME COORD CONNE INCON NOVER ENDCY").split()


class Bad(Exception):
    """The text does not follow the fixed-column format."""


# ---------------------------------------------------------------------------
# decoding
# ---------------------------------------------------------------------------


def fnum(s):
    """Fortran-style real."""
    t = s.strip()
    if " " in t:
        raise Bad("blank inside number {!r}".format(s))
    u = t.lower().replace("d", "e")
    try:
        return float(u)
    except ValueError:
        pass
    for i in range(len(u) - 1, 0, -1):
        if u[i] in "+-" and (u[i - 1].isdigit() or u[i - 1] == "."):
            try:
                return float(u[:i] + "e" + u[i:])
            except ValueError:
                break
    raise Bad("not a number: {!r}".format(s))


def dec(line, table, strict=True):
    """Decode one record; columns that belong to no field must be blank."""
    line = line.rstrip("\n")
    out = {}
    used = bytearray(max(len(line), 80))
    tb = T[table] if isinstance(table, str) else table
    for name, c, w, kind in tb:
        raw = line[c - 1: c - 1 + w]
        for i in range(c - 1, c - 1 + w):
            used[i] = 1
        if kind == "S":
            out[name] = raw.ljust(w)
            continue
        t = raw.strip()
        if not t:
            out[name] = None
        elif kind == "s":
            out[name] = t
        elif kind == "i":
            try:
                out[name] = int(t)
            except ValueError:
                raise Bad("column {}-{} ({}): {!r} is not an integer: {!r}".format(c, c + w - 1, name, raw, line))
        else:
            try:
                out[name] = fnum(t)
            except Bad:
                raise Bad("column {}-{} ({}): {!r} is not a number: {!r}".format(c, c + w - 1, name, raw, line))
    if strict:
        for i, chx in enumerate(line):
            if chx != " " and not used[i]:
                raise Bad("unexpected text in column {}: {!r}".format(i + 1, line))
        if len(line.rstrip()) > 80:
            raise Bad("record longer than 80 columns: {!r}".format(line))
    return out


def trim(seq):
    seq = list(seq)
    while seq and seq[-1] is None:
        seq.pop()
    return seq


def header_of(line):
    for k in KEYWORDS:
        if line.startswith(k) and line[5:9] == "----" and line[len(k):5].strip() == "":
            return k
    return None


def split(text):
    """[(keyword or TITLE, [lines])] in file order."""
    out = [("TITLE", [])]
    if not text:
        return out
    for line in text.split("\n")[:-1] if text.endswith("\n") else text.split("\n"):
        k = header_of(line)
        if k:
            out.append((k, []))
        else:
            out[-1][1].append(line)
    return out


def _data_lines(lines, key):
    """Lines of a block closed by a blank record."""
    for i, x in enumerate(lines):
        if x.startswith("+++"):
            return lines[:i]
    if not lines or lines[-1].strip():
        raise Bad("block {} is not closed by a blank record".format(key))
    body = lines[:-1]
    return body


def _model(line, table):
    d = dec(line, table)
    if d["id"] is None:
        return None
    return {"id": d["id"], "parameters": trim(d["p%d" % i] for i in range(7))}


def decode(text, L=5, nvals=None, have_title=True):
    """
    Reference decoder: input deck -> parameters (normal form is taken by `norm`).

    L: element name length; nvals: number of primary variables (two records if > 4).
    """
    P = {}
    blocks = split(text)
    names = [b[0] for b in blocks[1:]]
    if len(set(names)) != len(names):
        raise Bad("a block is written twice: {}".format(names))
    if have_title:
        title = [x.strip() for x in blocks[0][1]]
        P["title"] = title[0] if len(title) == 1 else title
    elif blocks[0][1]:
        raise Bad("text before the first block: {!r}".format(blocks[0][1][:2]))
    if "ENDCY" in names and names[-1] != "ENDCY":
        raise Bad("ENDCY is not the last block")
    B = dict(blocks[1:])
    two = nvals is not None and nvals > 4

    def nrec(k, n):
        if len(B[k]) != n:
            raise Bad("block {} has {} records, expected {}".format(k, len(B[k]), n))

    if "ROCKS" in B:
        P["rocks"], P["rocks_order"] = {}, []
        it = iter(_data_lines(B["ROCKS"], "ROCKS"))
        for line in it:
            d = dec(line, "ROCKS1")
            if d["name"] is None:
                raise Bad("rock without a name: {!r}".format(line))
            r = {k: d[k] for k in ("density", "porosity", "conductivity", "specific_heat")}
            r["permeability"] = [d["k1"], d["k2"], d["k3"]]
            nad = d["nad"] or 0
            if nad >= 1:
                r.update(dec(next(it), "ROCKS2"))
            if nad >= 2:
                r["relative_permeability"] = _model(next(it), "MODEL5")
                r["capillarity"] = _model(next(it), "MODEL5")
            if d["name"] in P["rocks"]:
                raise Bad("rock {} written twice".format(d["name"]))
            P["rocks"][d["name"]] = r
            P["rocks_order"].append(d["name"])
    default = {}
    if "RPCAP" in B:
        nrec("RPCAP", 2)
        default["relative_permeability"] = _model(B["RPCAP"][0], "MODEL5")
        default["capillarity"] = _model(B["RPCAP"][1], "MODEL5")
    if "FLAC" in B:
        body = _data_lines(B["FLAC"], "FLAC")
        P["flac"] = dec(body[0], "FLAC1")
        if len(body) != 1 + 2 * len(P["rocks_order"]):
            raise Bad("block FLAC has {} records for {} rocks".format(len(body), len(P["rocks_order"])))
        for i, n in enumerate(P["rocks_order"]):
            P["rocks"][n]["permeability_model"] = _model(body[1 + 2 * i], "MODEL10")
            P["rocks"][n]["equivalent_pore_pressure"] = _model(body[2 + 2 * i], "MODEL5")
    if "MULTI" in B:
        nrec("MULTI", 1)
        d = dec(B["MULTI"][0], "MULTI")
        P["n_component"] = d["nk"]
        P["n_phase"] = d["nph"]
        P["isothermal"] = d["neq"] == d["nk"]
        P["n_component_mass"] = d["nkin"]
        P["_neq"] = d["neq"]
        P["_nb"] = d["nb"]
    if "SOLVR" in B:
        nrec("SOLVR", 1)
        P["solver"] = dec(B["SOLVR"][0], "SOLVR")
    if "START" in B:
        # one line, only '----*' rulers and the MOP ruler
        P["start"] = True
        body = B["START"]
        if len(body) > 1:
            raise Bad("block START has {} records".format(len(body)))
    if "PARAM" in B:
        ls = list(B["PARAM"])
        if len(ls) < 3:
            raise Bad("block PARAM has {} records".format(len(ls)))
        d1 = dec(ls.pop(0), "PARAM1")
        mop = d1.pop("mop")
        P["extra_options"] = {i + 1: int(c) for i, c in enumerate(mop) if c != " "}
        o = dict(d1)
        d2 = dec(ls.pop(0), "PARAM2")
        delten = d2.pop("delten")
        o.update(d2)
        if delten is not None and delten < 0:
            o["t_steps"] = []
            for _ in range(int(round(-delten))):
                if not ls:
                    raise Bad("block PARAM is too short")
                d = dec(ls.pop(0), "E10x8")
                o["t_steps"] += trim(d["v%d" % i] for i in range(8))
        else:
            o["t_steps"] = delten
        if not ls:
            raise Bad("block PARAM is too short")
        o.update(dec(ls.pop(0), "PARAM3"))
        ini = []
        if not 1 <= len(ls) <= 2:
            raise Bad("block PARAM has {} records of initial conditions".format(len(ls)))
        for line in ls:
            d = dec(line, "E20x4")
            ini += [d["v%d" % i] for i in range(4)]
        default["initial_condition"] = trim(ini)
        P["options"] = o
    if "SELEC" in B:
        ls = list(B["SELEC"])
        d = dec(ls.pop(0), "I5x16")
        P["selections"] = {"integers": d, "floats": []}
        n = d[1] or 0
        if len(ls) != n:
            raise Bad("block SELEC has {} float records, IE(1)={}".format(len(ls), n))
        for line in ls:
            r = dec(line, "E10.3x8")
            P["selections"]["floats"].append(trim(r["v%d" % i] for i in range(8)))
    if "INDOM" in B:
        ls = _data_lines(B["INDOM"], "INDOM")
        step = 3 if two else 2
        if len(ls) % step:
            raise Bad("block INDOM has {} records".format(len(ls)))
        for i in range(0, len(ls), step):
            n = dec(ls[i], "NAME5")["name"]
            v = []
            for line in ls[i + 1: i + step]:
                d = dec(line, "E20x4")
                v += [d["v%d" % j] for j in range(4)]
            if n not in P["rocks"]:
                raise Bad("INDOM names unknown rock {}".format(n))
            P["rocks"][n]["initial_condition"] = trim(v)
    if "MOMOP" in B:
        nrec("MOMOP", 1)
        P["more_options"] = {i + 1: int(c) for i, c in enumerate(B["MOMOP"][0][:40]) if c != " "}
    if "TIMES" in B:
        ls = list(B["TIMES"])
        n = dec(ls.pop(0), "TIMES1")["n"]
        v = []
        for line in ls:
            d = dec(line, "E10x8")
            v += trim(d["v%d" % i] for i in range(8))
        if len(v) != n:
            raise Bad("block TIMES announces {} times, has {}".format(n, len(v)))
        P["times"] = v
    for k, key in (("FOFT", "element_history"), ("COFT", "connection_history"), ("GOFT", "generator_history")):
        if k in B:
            P[key] = [x.rstrip() for x in _data_lines(B[k], k)]
    if "GENER" in B:
        it = iter(_data_lines(B["GENER"], "GENER"))
        P["generators"] = []
        for line in it:
            d = dec(line, "GENER%d" % L)
            g = {k: d[k] for k in ("name", "nseq", "nadd", "nads", "type")}
            g["layer_thickness"] = d["hg"]
            n = d["ltab"]
            if n and n > 1:
                keys = ["times", "rates"] + (["specific_enthalpy"] if d["itab"] else [])
                for k in keys:
                    tb = []
                    while len(tb) < n:
                        r = dec(next(it), "E14x4")
                        row = trim(r["v%d" % i] for i in range(4))
                        if len(row) != min(4, n - len(tb)):
                            raise Bad("GENER table row has {} values".format(len(row)))
                        tb += row
                    g[k] = tb
            else:
                g["rates"] = d["gx"]
                g["specific_enthalpy"] = d["ex"]
            P["generators"].append((d["label"], g))
    if "DIFFU" in B:
        P["diffusion"] = []
        for line in B["DIFFU"]:
            d = dec(line, "E10.3x8")
            P["diffusion"].append(trim(d["v%d" % i] for i in range(8)))
    if "OUTPU" in B:
        ls = list(B["OUTPU"])
        P["output"] = {}
        if ls and not ls[0].strip().isdigit():
            P["output"]["format"] = ls.pop(0).strip()
        if ls:
            n = int(ls.pop(0)[:15])
            if len(ls) != n:
                raise Bad("block OUTPU announces {} variables, has {}".format(n, len(ls)))
            P["output"]["variables"] = []
            for line in ls:
                d = dec(line, "OUTPUV")
                P["output"]["variables"].append((d["name"].lower(), trim([d["o1"], d["o2"]])))
    if "ELEME" in B:
        P["elements"], P["elements_order"] = {}, []
        for line in _data_lines(B["ELEME"], "ELEME"):
            d = dec(line, "ELEME%d" % L)
            lab = d.pop("label")
            d["center"] = [d.pop("x"), d.pop("y"), d.pop("z")]
            if lab in P["elements"]:
                raise Bad("element {} written twice".format(lab))
            P["elements"][lab] = d
            P["elements_order"].append(lab)
    if "COORD" in B:
        ls = _data_lines(B["COORD"], "COORD")
        if len(ls) != len(P.get("elements_order", [])):
            raise Bad("block COORD has {} records".format(len(ls)))
        for lab, line in zip(P["elements_order"], ls):
            d = dec(line, "E20x3")
            P["elements"][lab]["center"] = [d["v0"], d["v1"], d["v2"]]
        P["coordinates"] = True
    if "CONNE" in B:
        P["connections"], P["connections_order"] = {}, []
        for line in _data_lines(B["CONNE"], "CONNE"):
            d = dec(line, "CONNE%d" % L)
            lab = d.pop("label")
            d["nadd"] = [d.pop("nadd1"), d.pop("nadd2")]
            d["nodal_distances"] = [d.pop("d1"), d.pop("d2")]
            if lab in P["connections"]:
                raise Bad("connection {} written twice".format(lab))
            P["connections"][lab] = d
            P["connections_order"].append(lab)
    if "INCON" in B:
        ls = _data_lines(B["INCON"], "INCON")
        P["initial_conditions"], P["initial_conditions_order"] = {}, []
        step = 3 if two else 2
        if len(ls) % step:
            raise Bad("block INCON has {} records".format(len(ls)))
        for i in range(0, len(ls), step):
            d = dec(ls[i], "INCON%d" % L)
            v = []
            for line in ls[i + 1: i + step]:
                r = dec(line, "E20x4")
                v += [r["v%d" % j] for j in range(4)]
            P["initial_conditions"][d["label"]] = {
                "porosity": d["porosity"], "userx": trim(d["u%d" % j] for j in range(5)), "values": trim(v)}
            P["initial_conditions_order"].append(d["label"])
    if "NOVER" in B:
        P["nover"] = True
    if default or "PARAM" in B:
        P["default"] = default
    P["_blocks"] = names
    return P


# ---------------------------------------------------------------------------
# comparison with tolerance: expected numbers know the field they live in
# ---------------------------------------------------------------------------


class Num:
    """A real number stored in a field of `width` columns with `decimals` decimals."""

    __slots__ = ("v", "w", "d")

    def __init__(self, v, width, decimals):
        self.v, self.w, self.d = float(v), width, decimals

    def tol(self):
        n = len("{:.{}e}".format(self.v, self.d))
        d = self.d - max(0, n - self.w)
        return 0.5001 * 10.0 ** (-d)

    def same(self, x):
        if isinstance(x, bool) or not isinstance(x, (int, float, numpy.integer, numpy.floating)):
            return False
        x = float(x)
        if self.v == 0.0 or x == 0.0:
            return self.v == x
        if math.isnan(self.v):
            return math.isnan(x)
        # the leading digit may be anything from 1 to 9: tolerance is half a unit in the
        # last place the field can hold
        e = math.floor(math.log10(abs(self.v)))
        return abs(x - self.v) <= self.tol() * 10.0 ** e * (1 + 1e-9)

    def __repr__(self):
        return "{!r}".format(self.v)


def num(v, table, field):
    if v is None:
        return None
    for name, _, w, kind in T[table]:
        if name == field:
            if kind == "i":
                return int(v)
            return Num(v, w, int(kind[1:]))
    raise KeyError(field)


def diff(exp, got, path=""):
    """None if equal, else a message."""
    if isinstance(exp, Num):
        return None if exp.same(got) else "{}: expected {!r}, got {!r}".format(path, exp.v, got)
    if isinstance(exp, dict):
        if not isinstance(got, dict):
            return "{}: expected a dict, got {!r}".format(path, got)
        for k in exp:
            if k not in got:
                return "{}: {!r} is missing (expected {!r})".format(path, k, exp[k])
            m = diff(exp[k], got[k], "{}[{!r}]".format(path, k))
            if m:
                return m
        for k in got:
            if k not in exp:
                return "{}: unexpected {!r} = {!r}".format(path, k, got[k])
        return None
    if isinstance(exp, (list, tuple)):
        if not isinstance(got, (list, tuple)):
            return "{}: expected {!r}, got {!r}".format(path, exp, got)
        if len(exp) != len(got):
            return "{}: expected {} values {!r}, got {} {!r}".format(path, len(exp), exp, len(got), got)
        for i, (a, b) in enumerate(zip(exp, got)):
            m = diff(a, b, "{}[{}]".format(path, i))
            if m:
                return m
        return None
    if exp is None or got is None:
        return None if exp is got else "{}: expected {!r}, got {!r}".format(path, exp, got)
    if isinstance(exp, str) or isinstance(got, str):
        return None if (isinstance(exp, str) and isinstance(got, str) and exp == got) else "{}: expected {!r}, got {!r}".format(path, exp, got)
    if isinstance(exp, float) and isinstance(got, (int, float)) and not isinstance(got, bool):
        return None if abs(exp - got) <= 1e-12 * abs(exp) else "{}: expected {!r}, got {!r}".format(path, exp, got)
    return None if exp == got else "{}: expected {!r}, got {!r}".format(path, exp, got)


# ---------------------------------------------------------------------------
# normal form of what a deck says (from any of: user parameters, toughio reader,
# reference decoder)
# ---------------------------------------------------------------------------


def _arr(x):
    if isinstance(x, numpy.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [_arr(y) for y in x]
    if isinstance(x, numpy.generic):
        return x.item()
    return x


def _drop(d):
    return {k: v for k, v in d.items() if v is not None}


def _nmodel(m):
    if m is None:
        return None
    m = {"id": _arr(m.get("id")), "parameters": trim(_arr(m.get("parameters", [])) or [])}
    return m if m["id"] is not None else None


def norm(P):
    """Normal form of a parameter dict as returned by a reader."""
    N = {}
    for k in ("title",):
        if k in P:
            t = P[k]
            t = [t] if isinstance(t, str) else list(t)
            N["title"] = [x.strip() for x in t]
    for k in ("n_component", "n_phase", "n_component_mass"):
        if P.get(k) is not None:
            N[k] = P[k]
    if P.get("n_component") is not None:
        N["isothermal"] = bool(P.get("isothermal"))
    if P.get("start"):
        N["start"] = True
    if P.get("nover"):
        N["nover"] = True
    if "rocks" in P:
        N["rocks"] = {}
        for n, r in P["rocks"].items():
            o = {}
            for k, v in r.items():
                v = _arr(v)
                if k == "permeability":
                    v = v if isinstance(v, list) else [v] * 3
                    o[k] = v if any(x is not None for x in v) else None
                elif k in ("relative_permeability", "capillarity", "permeability_model", "equivalent_pore_pressure"):
                    o[k] = _nmodel(v)
                elif k == "initial_condition":
                    o[k] = trim(v) or None
                else:
                    o[k] = v
            N["rocks"][n] = _drop(o)
        N["rocks_order"] = list(P["rocks_order"])
    if "flac" in P:
        N["flac"] = _drop({"creep": int(bool(P["flac"].get("creep"))), "porosity_model": P["flac"].get("porosity_model"),
                           "version": P["flac"].get("version")})
    if "default" in P:
        d = P["default"]
        N["default"] = _drop({
            "relative_permeability": _nmodel(d.get("relative_permeability")),
            "capillarity": _nmodel(d.get("capillarity")),
            "initial_condition": trim(_arr(d.get("initial_condition", []))) or None,
        })
    if "solver" in P:
        N["solver"] = _drop(P["solver"])
    if "options" in P:
        o = {k: _arr(v) for k, v in P["options"].items()}
        t = o.pop("t_steps", None)
        t = t if isinstance(t, list) else [] if t is None else [t]
        N["options"] = _drop(o)
        N["options"]["t_steps"] = t if t != [0] and t != [0.0] else t
    if "extra_options" in P:
        N["extra_options"] = _drop(P["extra_options"])
    if "more_options" in P:
        N["more_options"] = _drop(P["more_options"])
    if "selections" in P:
        s = P["selections"]
        fl = _arr(s.get("floats")) or []
        if fl and not isinstance(fl[0], list):
            fl = [fl]
        N["selections"] = {"integers": _drop(s.get("integers") or {}), "floats": [trim(x) for x in fl]}
    if "times" in P:
        t = _arr(P["times"])
        N["times"] = t if isinstance(t, list) else [t]
    for k in ("element_history", "connection_history", "generator_history"):
        if k in P and P[k] is not None:
            N[k] = [str(x) for x in P[k]]
    if "generators" in P:
        N["generators"] = norm_gener(P["generators"])
    if "diffusion" in P:
        N["diffusion"] = [trim(x) for x in _arr(P["diffusion"])]
    if "output" in P:
        o = P["output"]
        N["output"] = {}
        if o.get("format"):
            N["output"]["format"] = o["format"].upper()
        if o.get("variables"):
            N["output"]["variables"] = norm_outvars(o["variables"])
    if "elements" in P:
        N["elements"] = {}
        for n, e in P["elements"].items():
            o = {k: _arr(v) for k, v in e.items()}
            c = o.get("center")
            o["center"] = c if c is not None and any(x is not None for x in c) else None
            m = o.get("material")
            o["material"] = None if m is None or str(m).strip() == "" else str(m).strip()
            if o["material"] and o["material"].isdigit():
                o["material"] = str(int(o["material"]))
            N["elements"][n] = _drop(o)
        N["elements_order"] = list(P["elements_order"])
    if P.get("coordinates"):
        N["coordinates"] = True
    if "connections" in P:
        N["connections"] = {}
        for n, e in P["connections"].items():
            o = {k: _arr(v) for k, v in e.items()}
            for k in ("nadd", "nodal_distances"):
                if k in o and (o[k] is None or all(x is None for x in o[k])):
                    o[k] = None
            N["connections"][n] = _drop(o)
        N["connections_order"] = list(P["connections_order"])
    if "initial_conditions" in P:
        N["initial_conditions"] = {}
        for n, e in P["initial_conditions"].items():
            N["initial_conditions"][n] = _drop({
                "porosity": _arr(e.get("porosity")),
                "userx": trim(_arr(e.get("userx")) or []) or None,
                "values": trim(_arr(e.get("values")) if e.get("values") is not None else []) or None,
            })
        N["initial_conditions_order"] = list(P["initial_conditions_order"])
    return N


GKEYS = ("name", "nseq", "nadd", "nads", "type", "times", "rates", "specific_enthalpy", "layer_thickness")


def norm_gener(G):
    """List (in order of first appearance of the element) of (label, [records])."""
    if isinstance(G, list):       # reference decoder: one pair per record
        out = {}
        for lab, g in G:
            out.setdefault(lab, []).append(_drop(g))
        return {k: v for k, v in out.items()}
    out = {}
    for lab, g in G.items():
        g = {k: _arr(v) for k, v in g.items()}
        if isinstance(g.get("type"), list):
            n = len(g["type"])
            out[lab] = [_drop({k: (g[k][i] if g.get(k) is not None else None) for k in GKEYS}) for i in range(n)]
        else:
            out[lab] = [_drop({k: g.get(k) for k in GKEYS})]
    return out


def norm_outvars(V):
    """{name: [[options], ...]} preserving order of names and of repetitions."""
    out = {}
    items = V if isinstance(V, list) else None
    if items is None:
        items = []
        for k, v in V.items():
            v = _arr(v)
            if v is None:
                items.append((k, []))
            elif not isinstance(v, list):
                items.append((k, [v]))
            elif v and isinstance(v[0], list):
                items += [(k, x) for x in v]
            else:
                items.append((k, v))
    for k, v in items:
        out.setdefault(k.lower(), []).append(trim(v))
    return out


EOS = {
    # number of components, equations (non isothermal), phases; TOUGH2 user's guide
    "eos1": (1, 2, 2), "eos2": (2, 3, 2), "eos3": (2, 3, 2), "eos4": (2, 3, 2), "eos5": (2, 3, 2),
    "eos7": (3, 4, 2), "eos8": (3, 4, 3), "eos9": (1, 2, 1), "eoswasg": (3, 4, 3),
    "eco2n": (3, 4, 3), "eco2n_v2": (3, 4, 3), "eco2m": (3, 4, 4),
}


def _m(model, table):
    if model is None or model.get("id") is None:
        return None
    return {"id": int(model["id"]),
            "parameters": [num(v, table, "p%d" % i) for i, v in enumerate(trim(_arr(model.get("parameters", []))))]}


def expected(U, block="all", L=5):
    """Normal form (with field precision) of what the deck written from U must say."""
    N = {}
    D = U.get("default") or {}
    rocks = U.get("rocks") or {}
    order = None
    if block == "all":
        t = U.get("title", "")
        t = [t] if isinstance(t, str) else list(t)
        N["title"] = [x.strip() for x in t]
        N["rocks"] = {}
        order = list(_arr(U.get("rocks_order"))) if U.get("rocks_order") is not None else []
        order += [k for k in rocks if k not in order]
        N["rocks_order"] = order
        indom = False
        for n in order:
            r = dict(rocks[n])
            o = {}
            for k in ("density", "porosity", "conductivity", "specific_heat"):
                v = r[k] if k in r else D.get(k)
                o[k] = num(v, "ROCKS1", k)
            per = _arr(r["permeability"] if "permeability" in r else D.get("permeability"))
            per = per if isinstance(per, list) else [per] * 3
            o["permeability"] = [num(p, "ROCKS1", "k1") for p in per] if any(p is not None for p in per) else None
            for k in ROCK2:
                v = r[k] if k in r else D.get(k)
                o[k] = num(v, "ROCKS2", k)
            for k in ("relative_permeability", "capillarity"):
                o[k] = _m(r.get(k), "MODEL5")
            ini = trim(_arr(r.get("initial_condition")) or [])
            if ini:
                indom = True
                o["initial_condition"] = [None if v is None else Num(v, 20, 13) for v in ini]
            if U.get("flac") is not None:
                for k, t, df in (("permeability_model", "MODEL10", 1), ("equivalent_pore_pressure", "MODEL5", 3)):
                    m = r.get(k) if k in r else D.get(k)
                    m = m if m is not None else {"id": df, "parameters": []}
                    o[k] = _m(m, t)
            N["rocks"][n] = _drop(o)
        if U.get("flac") is not None:
            f = U["flac"]
            N["flac"] = _drop({"creep": int(bool(f.get("creep"))), "porosity_model": f.get("porosity_model"), "version": f.get("version")})
        eos = U.get("eos")
        if eos or (U.get("n_component") and U.get("n_phase")):
            base = EOS[eos] if eos else (None, None, None)
            nk = U.get("n_component") or base[0]
            N["n_component"] = nk
            N["isothermal"] = bool(U.get("isothermal"))
            N["n_phase"] = U.get("n_phase") or base[2]
            if U.get("n_component_mass"):
                N["n_component_mass"] = U["n_component_mass"]
        if U.get("solver"):
            s = dict({"method": 3, "z_precond": "Z0", "o_precond": "O0", "rel_iter_max": 0.1, "eps": 1e-6}, **U["solver"])
            N["solver"] = _drop({"method": s["method"], "z_precond": s["z_precond"], "o_precond": s["o_precond"],
                                 "rel_iter_max": num(s["rel_iter_max"], "SOLVR", "rel_iter_max"),
                                 "eps": num(s["eps"], "SOLVR", "eps")})
        if U.get("start", True):
            N["start"] = True
        if U.get("nover"):
            N["nover"] = True
        # PARAM
        o = {}
        op = U.get("options") or {}
        for t in ("PARAM1", "PARAM2", "PARAM3"):
            for name, _, w, kind in T[t]:
                if name in ("mop", "delten"):
                    continue
                o[name] = num(op.get(name), t, name)
        ts = _arr(op.get("t_steps"))
        ts = ts if isinstance(ts, list) else [] if ts is None else [ts]
        N["options"] = _drop(o)
        N["options"]["t_steps"] = [Num(x, 10, 4) for x in ts]
        N["extra_options"] = {k: v for k, v in (U.get("extra_options") or {}).items() if v is not None}
        ini = trim(_arr(D.get("initial_condition")) or [])
        N["default"] = _drop({
            "relative_permeability": _m(D.get("relative_permeability"), "MODEL5"),
            "capillarity": _m(D.get("capillarity"), "MODEL5"),
            "initial_condition": [None if v is None else Num(v, 20, 13) for v in ini] or None,
        })
        if U.get("selections"):
            s = U["selections"]
            fl = _arr(s.get("floats"))
            fl = [] if fl is None else fl
            if fl and not isinstance(fl[0], list):
                fl = [fl]
            ie = _drop(dict(s.get("integers") or {}))
            if fl:
                ie[1] = len(fl)
            N["selections"] = {"integers": ie, "floats": [[None if v is None else Num(v, 10, 3) for v in trim(r)] for r in fl]}
        if U.get("more_options"):
            N["more_options"] = _drop(U["more_options"])
        if U.get("times") is not None:
            t = _arr(U["times"])
            t = t if isinstance(t, list) else [t]
            N["times"] = [Num(x, 10, 4) for x in t]
        for k in ("element_history", "connection_history", "generator_history"):
            if U.get(k) is not None:
                N[k] = [str(x) for x in U[k]]
        if U.get("diffusion") is not None:
            N["diffusion"] = [[None if v is None else Num(v, 10, 3) for v in trim(r)] for r in _arr(U["diffusion"])]
        if U.get("output"):
            N["output"] = {}
            if U["output"].get("format"):
                N["output"]["format"] = U["output"]["format"].upper()
            if U["output"].get("variables"):
                N["output"]["variables"] = norm_outvars(U["output"]["variables"])
    if block in ("all", "gener") and U.get("generators"):
        N["generators"] = {}
        for lab, recs in norm_gener(U["generators"]).items():
            out = []
            for g in recs:
                o = dict(g)
                tab = isinstance(g.get("times"), list)
                for k, c in (("rates", "gx"), ("specific_enthalpy", "ex"), ("layer_thickness", "hg")):
                    if k in g:
                        o[k] = [Num(v, 14, 7) for v in g[k]] if isinstance(g[k], list) else num(g[k], "GENER5", c)
                if tab:
                    o["times"] = [Num(v, 14, 7) for v in g["times"]]
                out.append(o)
            N["generators"][lab] = out
    if block in ("all", "mesh"):
        if U.get("elements"):
            N["elements"] = {}
            order = list(_arr(U["elements_order"])) if U.get("elements_order") is not None else list(U["elements"])
            N["elements_order"] = order
            coord = bool(U.get("coordinates"))
            for n in order:
                e = U["elements"][n]
                t = "ELEME%d" % L
                o = {k: _arr(e.get(k)) for k in ("nseq", "nadd")}
                for k in ("volume", "heat_exchange_area", "permeability_modifier"):
                    o[k] = num(e.get(k), t, k)
                m = e.get("material")
                m = None if m is None or str(m).strip() == "" else str(m).strip()
                o["material"] = m if not (m and m.isdigit()) else str(int(m))
                c = _arr(e.get("center"))
                o["center"] = None if c is None or all(x is None for x in c) else [
                    None if x is None else Num(x, 20, 13) if coord else Num(x, 10, 3) for x in c]
                N["elements"][n] = _drop(o)
            if coord:
                N["coordinates"] = True
        if U.get("connections"):
            N["connections"] = {}
            order = list(_arr(U["connections_order"])) if U.get("connections_order") is not None else list(U["connections"])
            N["connections_order"] = order
            for n in order:
                e = U["connections"][n]
                t = "CONNE%d" % L
                o = {"nseq": _arr(e.get("nseq")), "permeability_direction": _arr(e.get("permeability_direction"))}
                na = _arr(e.get("nadd"))
                o["nadd"] = None if na is None or all(x is None for x in na) else na
                nd = _arr(e.get("nodal_distances"))
                o["nodal_distances"] = None if nd is None or all(x is None for x in nd) else [num(x, t, "d1") for x in nd]
                for k in ("interface_area", "gravity_cosine_angle", "radiant_emittance_factor"):
                    o[k] = num(e.get(k), t, k)
                N["connections"][n] = _drop(o)
    if block in ("all", "incon") and U.get("initial_conditions"):
        N["initial_conditions"] = {}
        order = (list(_arr(U["initial_conditions_order"])) if U.get("initial_conditions_order") is not None
                 else list(U["initial_conditions"]))
        N["initial_conditions_order"] = order
        for n in order:
            e = U["initial_conditions"][n]
            N["initial_conditions"][n] = _drop({
                "porosity": num(_arr(e.get("porosity")), "INCON%d" % L, "porosity"),
                "userx": [None if v is None else Num(v, 10, 3) for v in trim(_arr(e.get("userx")) or [])] or None,
                "values": [None if v is None else Num(v, 20, 13) for v in trim(_arr(e["values"]) if e.get("values") is not None else [])] or None,
            })
    return N


def n_values(U):
    """Number of primary variables used anywhere (two records when more than four)."""
    n = 0
    for r in (U.get("rocks") or {}).values():
        n = max(n, len(trim(_arr(r.get("initial_condition")) or [])))
    for e in (U.get("initial_conditions") or {}).values():
        n = max(n, len(trim(_arr(e["values"]) if e.get("values") is not None else [])))
    return n


# ---------------------------------------------------------------------------
# reference encoder
# ---------------------------------------------------------------------------

RULER = "----1----*----2----*----3----*----4----*----5----*----6----*----7----*----8"


class Style:
    """How the reference encoder lays out a deck (all are legal TOUGH decks)."""

    def __init__(self, justify="right", real="e", pad=True, nad0=False, ruler=True, endcy=True, plus=False, star=False, end=None, mix=False):
        self.mix = mix
        self.end = end
        self.justify, self.real, self.pad, self.nad0 = justify, real, pad, nad0
        self.ruler, self.endcy, self.plus, self.star = ruler, endcy, plus, star

    def fmt_real(self, v, w, d):
        v = float(v)
        if self.real == "short":
            s = repr(v)
            if len(s) <= w:
                return s
        if self.real == "upper":
            s = "{:.{}E}".format(v, d)
        elif self.real == "nolead" and v != 0:          # 1.0-100 style exponents
            s = "{:.{}e}".format(v, d)
            m, e = s.split("e")
            if len(e) == 4:
                s = m + e
        elif self.real == "fortran":                     # 0.1234E+05
            if v == 0:
                s = "0.{}E+00".format("0" * min(d, w - 7))
            else:
                s0 = "{:.{}e}".format(v, d)
                m, e = s0.split("e")
                neg = m.startswith("-")
                digits = m.lstrip("-").replace(".", "")
                s = "{}0.{}E{:+03d}".format("-" if neg else "", digits, int(e) + 1)
                while len(s) > w and len(digits) > 2:
                    digits = digits[:-1]
                    s = "{}0.{}E{:+03d}".format("-" if neg else "", digits, int(e) + 1)
        else:
            s = "{:.{}e}".format(v, d)
        k = d
        while len(s) > w and k > 0:
            k -= 1
            s = "{:.{}e}".format(v, k)
        return s

    def rec(self, table, vals):
        buf = [" "] * 80
        tb = T[table]
        for name, c, w, kind in tb:
            v = vals.get(name)
            if v is None:
                continue
            if kind in "sS":
                s = str(v)
            elif kind == "i":
                s = str(int(v))
            else:
                x = v.v if isinstance(v, Num) else v
                s = self.fmt_real(x, w, int(kind[1:]))
            if len(s) > w:
                raise Bad("{!r} does not fit in {} columns".format(s, w))
            s = s.ljust(w) if kind in "sS" or self.justify == "left" else s.rjust(w)
            buf[c - 1: c - 1 + w] = s
        line = "".join(buf)
        return line if self.pad else line.rstrip()


def encode(N, style, L=5, nvals=0, order=None):
    """Deck (text) from a normal form N; `order` may permute the blocks."""
    S = style
    B = {}
    two = nvals > 4

    def head(k):
        return "{:5}{}".format(k, RULER if S.ruler else "----")

    def rows(table, vals, per):
        out = []
        for i in range(0, len(vals), per):
            out.append(S.rec(table, {"v%d" % j: v for j, v in enumerate(vals[i: i + per])}))
        return out

    def model(m, table):
        m = m or {}
        d = {"id": m.get("id")}
        d.update({"p%d" % i: v for i, v in enumerate(m.get("parameters", []))})
        return S.rec(table, d)

    def prim(vals):
        vals = list(vals or [])
        out = [S.rec("E20x4", {"v%d" % j: v for j, v in enumerate(vals[:4])})]
        if two:
            out.append(S.rec("E20x4", {"v%d" % j: v for j, v in enumerate(vals[4:8])}))
        return out

    if "rocks" in N:
        out = []
        for n in N["rocks_order"]:
            r = N["rocks"][n]
            nad = 2 if ("relative_permeability" in r or "capillarity" in r) else int(any(k in r for k in ROCK2))
            d = {k: r.get(k) for k in ("density", "porosity", "conductivity", "specific_heat")}
            d["name"] = n
            d["nad"] = nad if nad or S.nad0 else None
            per = r.get("permeability") or [None] * 3
            d["k1"], d["k2"], d["k3"] = per
            out.append(S.rec("ROCKS1", d))
            if nad:
                out.append(S.rec("ROCKS2", r))
            if nad > 1:
                out.append(model(r.get("relative_permeability"), "MODEL5"))
                out.append(model(r.get("capillarity"), "MODEL5"))
        B["ROCKS"] = out + [""]
        if any("initial_condition" in r for r in N["rocks"].values()):
            out = []
            for n in N["rocks_order"]:
                if "initial_condition" in N["rocks"][n]:
                    out.append(S.rec("NAME5", {"name": n}))
                    out += prim(N["rocks"][n]["initial_condition"])
            B["INDOM"] = out + [""]
    D = N.get("default", {})
    if "relative_permeability" in D or "capillarity" in D:
        B["RPCAP"] = [model(D.get("relative_permeability"), "MODEL5"), model(D.get("capillarity"), "MODEL5")]
    if "flac" in N:
        out = [S.rec("FLAC1", N["flac"])]
        for n in N["rocks_order"]:
            out.append(model(N["rocks"][n].get("permeability_model"), "MODEL10"))
            out.append(model(N["rocks"][n].get("equivalent_pore_pressure"), "MODEL5"))
        B["FLAC"] = out + [""]
    if "n_component" in N:
        B["MULTI"] = [S.rec("MULTI", {"nk": N["n_component"], "neq": N["n_component"] + (0 if N["isothermal"] else 1),
                                      "nph": N["n_phase"], "nb": 8 if "diffusion" in N else 6, "nkin": N.get("n_component_mass")})]
    if "solver" in N:
        B["SOLVR"] = [S.rec("SOLVR", N["solver"])]
    if N.get("start") and "options" in N:
        B["START"] = ["----*----1 MOP: 123456789*123456789*1234 ---*----5----*----6----*----7----*----8"] if S.ruler else []
    if "options" in N:
        o = dict(N["options"])
        ts = o.pop("t_steps")
        d1 = dict(o)
        mop = N.get("extra_options", {})
        d1["mop"] = "".join(str(mop.get(i + 1, " ")) for i in range(24))
        out = [S.rec("PARAM1", d1)]
        d2 = dict(o)
        d2["delten"] = Num(-((len(ts) + 7) // 8), 10, 1) if ts else None
        if len(ts) == 1 and N.get("_scalar_step"):
            d2["delten"] = ts[0]
            ts = []
        line = S.rec("PARAM2", d2)
        out.append(line)
        out += rows("E10x8", ts, 8)
        out.append(S.rec("PARAM3", o))
        ini = list(D.get("initial_condition") or [])
        out.append(S.rec("E20x4", {"v%d" % j: v for j, v in enumerate(ini[:4])}))
        if len(ini) > 4:
            out.append(S.rec("E20x4", {"v%d" % j: v for j, v in enumerate(ini[4:])}))
        B["PARAM"] = out
    if "selections" in N:
        s = N["selections"]
        out = [S.rec("I5x16", s["integers"])]
        for r in s["floats"]:
            out.append(S.rec("E10.3x8", {"v%d" % j: v for j, v in enumerate(r)}))
        B["SELEC"] = out
    if "more_options" in N:
        line = "".join(str(N["more_options"].get(i + 1, " ")) for i in range(40))
        B["MOMOP"] = [line.ljust(80) if S.pad else line.rstrip()]
    if "times" in N:
        B["TIMES"] = [S.rec("TIMES1", {"n": len(N["times"])})] + rows("E10x8", N["times"], 8)
    for k, key in (("FOFT", "element_history"), ("COFT", "connection_history"), ("GOFT", "generator_history")):
        if key in N:
            B[k] = [x.ljust(80) if S.pad else x for x in N[key]] + [""]
    if "generators" in N:
        out = []
        pairs = [(lab, j, g) for lab, recs in N["generators"].items() for j, g in enumerate(recs)]
        if S.mix:           # records of one element need not follow each other
            pairs.sort(key=lambda x: x[1])
        for lab, j, g in pairs:
            d = {k: g.get(k) for k in ("name", "nseq", "nadd", "nads", "type")}
            d["label"] = lab
            d["hg"] = g.get("layer_thickness")
            if isinstance(g.get("times"), list):
                d["ltab"] = len(g["times"])
                if "specific_enthalpy" in g:
                    d["itab"] = "1"
            else:
                d["gx"], d["ex"] = g.get("rates"), g.get("specific_enthalpy")
            out.append(S.rec("GENER%d" % L, d))
            if isinstance(g.get("times"), list):
                for k in ("times", "rates", "specific_enthalpy"):
                    if k in g:
                        out += rows("E14x4", g[k], 4)
        B["GENER"] = out + [""]
    if "diffusion" in N:
        B["DIFFU"] = [S.rec("E10.3x8", {"v%d" % j: v for j, v in enumerate(r)}) for r in N["diffusion"]]
    if "output" in N:
        out = []
        o = N["output"]
        if o.get("format"):
            out.append(o["format"].ljust(80) if S.pad else o["format"])
        if o.get("variables"):
            ls = []
            for k, reps in o["variables"].items():
                for v in reps:
                    v = list(v) + [None, None]
                    ls.append(S.rec("OUTPUV", {"name": k.upper(), "o1": v[0], "o2": v[1]}))
            out.append(str(len(ls)).ljust(15) if S.justify == "left" else str(len(ls)).rjust(15))
            out += ls
        B["OUTPU"] = out
    if "elements" in N:
        out, co = [], []
        for lab in N["elements_order"]:
            e = N["elements"][lab]
            d = dict(e)
            d["label"] = lab
            c = d.pop("center", None) or [None] * 3
            d["x"], d["y"], d["z"] = c
            m = d.get("material")
            if m and m.isdigit():
                d["material"] = m.rjust(5)
            out.append(S.rec("ELEME%d" % L, d))
            co.append(S.rec("E20x3", {"v%d" % j: v for j, v in enumerate(c)}))
        B["ELEME"] = out + [""]
        if N.get("coordinates"):
            B["COORD"] = co + [""]
    if "connections" in N:
        out = []
        for lab in N["connections_order"]:
            e = N["connections"][lab]
            d = dict(e)
            d["label"] = lab
            d["nadd1"], d["nadd2"] = d.pop("nadd", None) or [None] * 2
            d["d1"], d["d2"] = d.pop("nodal_distances", None) or [None] * 2
            out.append(S.rec("CONNE%d" % L, d))
        B["CONNE"] = out + ([""] if not S.plus else ["+++", "".join("{:5d}".format(i) for i in range(1, 5)), ""])
    if "initial_conditions" in N:
        out = []
        for lab in N["initial_conditions_order"]:
            e = N["initial_conditions"][lab]
            d = {"label": lab, "porosity": e.get("porosity")}
            d.update({"u%d" % i: v for i, v in enumerate(e.get("userx") or [])})
            out.append(S.rec("INCON%d" % L, d))
            out += prim(e.get("values"))
        B["INCON"] = out + ([""] if not S.plus else ["+++", "   12   34    5 0.00000000E+00 0.86400000E+05"])
    if N.get("nover"):
        B["NOVER"] = []
    names = order(list(B)) if order else [k for k in KEYWORDS if k in B]
    text = "".join(x + "\n" for x in N.get("title", []))
    for k in names:
        text += head(k) + "\n" + "".join(x + "\n" for x in B[k])
    if S.endcy:
        text += head("ENDCY") + ("\n" if S.pad else "")
    return text
