"""Invalid parameters are refused, and refusing leaves the target file alone."""
import copy

import numpy as np
import toughio

from ..engine import Driver
from .c09 import frozen, full

ASSUMPTIONS = ["values of a wrong type, one or two at a time, in a complete deck"]

STR, INT, FLT, LST, DCT, NON, FUN, BOO = "abc", 3, 2.5, [1.0, 2.0], {"a": 1}, None, object, True


def wrong(kind):
    return {
        "scalar": [STR, LST, DCT, (1.0,), np.array([1.0, 2.0]), 1j],
        "int": [STR, FLT, LST, DCT, np.float64(2.0)],
        "str": [INT, FLT, LST, DCT],
        "bool": [INT, STR, LST, FLT],
        "dict": [INT, STR, LST, FLT],
        "array": [INT, STR, FLT, DCT, {1, 2}],
        "scalar_array": [STR, DCT, {1.0}],
        "str_array": [INT, FLT, DCT],
        "str_int": [FLT, LST, DCT],
    }[kind] + {
        # nothing at all, but of a wrong type
        "scalar": ["", [], {}],
        "int": ["", [], 0.0],
        "str": [0, [], {}],
        "bool": [0, "", []],
        "dict": [0, "", [], ()],
        "array": [0, "", {}],
        "scalar_array": ["", {}],
        "str_array": [0, {}],
        "str_int": [0.0, [], {}],
    }[kind]


S = {}


def grp(path, kind, names):
    for n in names.split():
        S[path + (n,)] = kind


grp((), "str", "eos")
grp((), "int", "n_component n_phase n_component_mass")
grp((), "bool", "isothermal start nover coordinates")
grp((), "dict", "flac options extra_options more_options selections solver generators output elements connections initial_conditions")
grp((), "str_array", "title")
grp((), "array", "rocks_order element_history connection_history generator_history diffusion elements_order connections_order initial_conditions_order")
grp((), "scalar_array", "times")
for b in (("rocks", "SAND"), ("default",)):
    grp(b, "scalar", "density porosity conductivity specific_heat compressibility expansivity conductivity_dry tortuosity "
                     "klinkenberg_parameter distribution_coefficient_3 distribution_coefficient_4")
    grp(b, "scalar_array", "permeability")
    grp(b, "array", "initial_condition")
    for m in ("relative_permeability", "capillarity", "permeability_model", "equivalent_pore_pressure"):
        grp(b + (m,), "int", "id")
        grp(b + (m,), "array", "parameters")
grp(("flac",), "int", "porosity_model version")
grp(("flac",), "bool", "creep")
grp(("options",), "int", "n_iteration n_cycle n_second n_cycle_print verbosity")
grp(("options",), "scalar", "temperature_dependence_gas effective_strength_vapor t_ini t_max t_step_max t_reduce_factor gravity mesh_scale_factor "
                            "eps1 eps2 w_upstream w_newton derivative_factor")
grp(("options",), "scalar_array", "t_steps")
for i in (1, 12, 24):
    S[("extra_options", i)] = "int"
for i in (1, 21, 40):
    S[("more_options", i)] = "int"
grp(("selections",), "dict", "integers")
grp(("selections",), "array", "floats")
grp(("solver",), "int", "method")
grp(("solver",), "str", "z_precond o_precond")
grp(("solver",), "scalar", "rel_iter_max eps")
grp(("generators", "AAA 0"), "str_array", "name type")
grp(("generators", "AAA 0"), "scalar_array", "nseq nadd nads times rates specific_enthalpy layer_thickness")
grp(("output",), "str", "format")
grp(("output",), "dict", "variables")
grp(("elements", "AAA 0"), "int", "nseq nadd")
grp(("elements", "AAA 0"), "str_int", "material")
grp(("elements", "AAA 0"), "scalar", "volume heat_exchange_area permeability_modifier")
grp(("elements", "AAA 0"), "array", "center")
grp(("connections", "AAA 0AAA 1"), "int", "nseq permeability_direction")
grp(("connections", "AAA 0AAA 1"), "array", "nadd nodal_distances")
grp(("connections", "AAA 0AAA 1"), "scalar", "interface_area gravity_cosine_angle radiant_emittance_factor")
grp(("initial_conditions", "AAA 0"), "scalar", "porosity")
grp(("initial_conditions", "AAA 0"), "array", "userx values")

# values of the right type that make no sense
BAD = [
    (("eos",), "eos99"), (("eos",), "ECO2N"),
    (("rocks", "SAND", "permeability"), [1.0, 2.0]), (("rocks", "SAND", "permeability"), [1.0, 2.0, 3.0, 4.0]),
    (("selections", "floats"), [1.0] * 9), (("selections", "floats"), [[1.0], [1.0] * 9]),
    (("generators", "AAA 0"), {"type": "COM1", "times": [1.0, 2.0], "rates": [1.0]}),
    (("generators", "AAA 0"), {"type": "COM1", "times": [1.0, 2.0], "rates": 1.0}),
    (("generators", "AAA 0"), {"type": "COM1", "times": [1.0, 2.0], "rates": [1.0, 2.0], "specific_enthalpy": [1.0]}),
    (("generators", "AAA 0"), {"type": "COM1", "times": [1.0, 2.0], "rates": [1.0, 2.0], "specific_enthalpy": 3.0}),
    (("generators", "AAA 0"), {"type": "COM1", "times": [1.0], "rates": [1.0]}),
    (("generators", "AAA 0"), {"type": "COM1", "rates": [1.0, 2.0]}),
    (("generators", "AAA 0"), {"type": "COM1", "specific_enthalpy": [1.0, 2.0]}),
    (("generators", "AAA 0"), {"type": "COM1", "times": [[1.0, 2.0]], "rates": [[1.0, 2.0]]}),
    (("generators", "AAA 0"), {"type": ["COM1", "COM2"], "rates": [1.0]}),
    (("generators", "AAA 0"), {"type": ["COM1", "COM2"], "rates": 1.0}),
    (("generators", "AAA 0"), {"type": ["COM1", "COM2"], "name": "X"}),
    (("generators", "AAA 0"), {"type": ["COM1", "COM2"], "name": ["X"]}),
    (("generators", "AAA 0"), {"type": ["COM1", "COM2"], "nseq": 1}),
]

# more values than the record has fields for (the values of the other fields would be lost)
for _b in (("rocks", "SAND"), ("default",)):
    for _m in ("relative_permeability", "capillarity", "permeability_model", "equivalent_pore_pressure"):
        if _b[0] == "rocks" or _m[0] in "rc":
            BAD += [(_b + (_m,), {"id": 1, "parameters": [0.5] * n}) for n in (8, 9, 16)]
    BAD += [(_b + ("initial_condition",), [1.0e5] * n) for n in (9, 12)]
BAD += [(("initial_conditions", "AAA 0", "values"), [1.0e5] * n) for n in (9, 12)]
BAD += [(("initial_conditions", "AAA 0", "userx"), [1.0] * n) for n in (6, 7)]
BAD += [(("selections", "integers"), {k: 1}) for k in (17, 20)]
BAD += [(("output", "variables"), {"pressure": v}) for v in ([1, 2, 3], [[1, 2, 3]], [[1, 2], [1, 2, 3]])]


def base():
    U = full()
    m = lambda i: {"id": i, "parameters": [0.5]}
    for k in ("relative_permeability", "capillarity", "permeability_model", "equivalent_pore_pressure"):
        U["rocks"]["SAND"][k] = m(2)
        U["default"][k] = m(3)
    return U


def put(U, path, v):
    d = U
    for k in path[:-1]:
        d = d[k]
    d[path[-1]] = v


SENTINEL = "precious data\n"


def types(ch):
    path = ch.free("field", sorted(S, key=str))
    v = ch.free("value", list(range(9)))
    alts = wrong(S[path])
    if v >= len(alts):
        return
    U = base()
    put(U, path, alts[v])
    # slicing a dict is a KeyError on Python >= 3.12 (slices are hashable), a TypeError before
    exc = (TypeError, ValueError, KeyError) if path[-1] == "initial_condition" and isinstance(alts[v], dict) else (TypeError, ValueError)
    _refuse(ch, U, exc)
    ch.state((path, v))


def values(ch):
    path, v = ch.free("value", BAD)
    U = base()
    put(U, path, copy.deepcopy(v))
    _refuse(ch, U, (TypeError, ValueError))
    ch.state((path, repr(v)))


def positions(ch):
    """The invalid entry is one of several, before or after entries that say less or more."""
    path = ch.free("field", sorted((p for p in S if len(p) > 2 and p[0] in ("rocks", "generators", "elements", "connections", "initial_conditions")), key=str))
    v = ch.free("value", [0, 1])
    at = ch.free("position", [0, 1, 2])
    others = ch.free("others", ["empty", "complete", "one each", "nothing"])
    U = base()
    blk, name = path[0], path[1]
    good = U[blk][name]
    bad = copy.deepcopy(good)
    put(bad, path[2:], wrong(S[path])[v])
    if blk == "connections":
        names = ["AAA 0AAA 1", "AAA 1AAA 2", "AAA 2AAA 3"]
    elif blk == "rocks":
        names = ["ROCK1", "ROCK2", "ROCK3"]
    else:
        names = ["AAA 0", "AAA 1", "AAA 2"]
    few = {"rocks": {"density": 2600.0}, "generators": {"type": "COM1", "rates": 1.0}, "elements": {"volume": 1.0, "center": [1.0, 2.0, 3.0]}, "connections": {"nodal_distances": [1.0, 1.0]},
           "initial_conditions": {"values": [1.0e5]}}[blk]
    rest = {"empty": [few, few], "complete": [good, good], "one each": [few, good], "nothing": [None, None] if blk != "rocks" else [few, few]}[others]
    if others == "nothing" and blk == "rocks":
        rest = [dict(few, relative_permeability={"id": 3, "parameters": [0.1]}), dict(few, capillarity={"id": 1, "parameters": [0.1]})]
    elif others == "nothing":
        return
    entries = [copy.deepcopy(x) for x in rest]
    entries.insert(at, bad)
    U[blk] = dict(zip(names, entries))
    for k in ("rocks_order", "elements_order", "connections_order", "initial_conditions_order"):
        U.pop(k, None)
    U.pop("flac", None)
    exc = (TypeError, ValueError, KeyError) if path[-1] == "initial_condition" and isinstance(wrong(S[path])[v], dict) else (TypeError, ValueError)
    if path[-2] in ("permeability_model", "equivalent_pore_pressure"):
        return
    _refuse(ch, U, exc)
    # the entries themselves are fine
    W = dict(U, **{blk: dict(zip(names, [copy.deepcopy(x) for x in rest[:at] + [good] + rest[at:]]))})
    ch.call("write_input", toughio.write_input, ch.path("good"), W, file_format="tough")
    ch.state((path, v, at, others))


def _refuse(ch, U, exc):
    before = frozen(U)
    exists = ch.free("target exists", [True, False])
    p = ch.path("deck")
    if exists:
        with open(p, "w") as f:
            f.write(SENTINEL)
    ch.raises("write_input", exc, toughio.write_input, p, U, file_format="tough")
    import os

    if exists:
        with open(p) as f:
            ch.check(f.read() == SENTINEL, "a refused write overwrote the existing file")
    else:
        ch.check(not os.path.exists(p), "a refused write left a file behind")
    ch.check(frozen(U) == before, "a refused write changed the parameters")


def args(ch):
    """Arguments of the entry points."""
    p = ch.path("deck")
    U = base()
    toughio.write_input(p, U, file_format="tough")
    T, V = (TypeError,), (ValueError,)
    cases = [
        ("filename int", T, lambda: toughio.write_input(3, U)), ("filename None", T, lambda: toughio.write_input(None, U)),
        ("parameters list", T, lambda: toughio.write_input(p, [U])), ("parameters None", T, lambda: toughio.write_input(p, None)),
        ("parameters str", T, lambda: toughio.write_input(p, "x")),
        ("format", V, lambda: toughio.write_input(p, U, file_format="xml")), ("block", V, lambda: toughio.write_input(p, U, file_format="tough", block="eleme")),
        ("block None", V, lambda: toughio.write_input(p, U, file_format="tough", block="")),
        ("read filename", T, lambda: toughio.read_input(3)), ("read None", T, lambda: toughio.read_input(None)),
        ("read format", V, lambda: toughio.read_input(p, file_format="xml")),
        ("label 4", V, lambda: toughio.read_input(p, file_format="tough", label_length=4)),
        ("label 10", V, lambda: toughio.read_input(p, file_format="tough", label_length=10)),
        ("label 0", V, lambda: toughio.read_input(p, file_format="tough", label_length=0)),
        ("label -5", V, lambda: toughio.read_input(p, file_format="tough", label_length=-5)),
        ("label str", T, lambda: toughio.read_input(p, file_format="tough", label_length="5")),
        ("label float", T, lambda: toughio.read_input(p, file_format="tough", label_length=5.0)),
    ]
    name, exc, fn = ch.free("case", cases)
    with open(p) as f:
        t = f.read()
    ch.raises(name, exc, fn)
    with open(p) as f:
        ch.check(f.read() == t, "{}: file changed", name)
    ch.state(name)


def unknown(ch):
    """Unknown names are skipped: the deck is the one written without them."""
    U = base()
    W = base()
    where = [(), ("rocks", "SAND"), ("default",), ("options",), ("extra_options",), ("more_options",), ("solver",), ("selections",), ("flac",),
             ("generators", "AAA 0"), ("elements", "AAA 0"), ("connections", "AAA 0AAA 1"), ("initial_conditions", "AAA 0"), ("output",)]
    for w in where:
        v = ch.choose("unknown in {}".format("/".join(w)), [None, 1, "text", [1.0], {"x": 1}])
        if w in (("extra_options",), ("more_options",)):
            continue
        if v is not None:
            d = W
            for k in w:
                d = d[k]
            d["not_a_parameter"] = v
    p, q = ch.path("a"), ch.path("b")
    ch.call("write_input", toughio.write_input, p, U, file_format="tough")
    ch.call("write_input", toughio.write_input, q, W, file_format="tough")
    with open(p) as f, open(q) as g:
        a, b = f.read(), g.read()
    ch.check(a == b, "an unknown parameter changed the deck")
    ch.state(repr(W))


def drivers(tier):
    return [Driver("types", types, 0, "every field x every wrong type"), Driver("values", values, 0, "inconsistent values"), Driver("positions", positions, 0, "invalid entry among others"),
            Driver("arguments", args, 0, "arguments of read_input / write_input"),
            Driver("unknown", unknown, 2 if tier == "quick" else 3, "unknown names anywhere")]
