"""Writing a deck never changes its parameters, and never depends on earlier calls."""
import copy
import os

import numpy as np
import toughio

from ..engine import Driver
from .. import gen_input as G
from .. import ref_input as R
from .c05 import parts

ASSUMPTIONS = ["history: every sequence of at most `depth` earlier calls from the menu, in one process"]


def frozen(x):
    if isinstance(x, dict):
        return ("d", [(k, frozen(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [frozen(v) for v in x])
    if isinstance(x, np.ndarray):
        return ("a", str(x.dtype), x.shape, x.tolist())
    return (type(x).__name__, repr(x))


def pure(name):
    fam = G.FAMILIES[name]

    def run(ch):
        fmt = ch.free("format", ["tough", "json"])
        U, L = fam(ch)
        before = frozen(U)
        p = ch.path("deck")
        ch.call("write_input", toughio.write_input, p, U, file_format=fmt)
        ch.check(frozen(U) == before, "write_input({}) changed the parameters: {!r}", fmt, U)
        with open(p) as f:
            t1 = f.read()
        ch.call("write_input", toughio.write_input, p, U, file_format=fmt)
        with open(p) as f:
            t2 = f.read()
        ch.check(t1 == t2, "writing the same parameters twice gives different decks")
        ch.state(t1)
        kw = {"label_length": L} if fmt == "tough" else {}
        r1 = ch.call("read_input", toughio.read_input, p, file_format=fmt, **kw)
        with open(p) as f:
            ch.check(f.read() == t1, "read_input changed the file")
        r2 = ch.call("read_input", toughio.read_input, p, file_format=fmt, **kw)
        ch.check(frozen(r1) == frozen(r2), "reading the same deck twice gives different parameters")

    return run


def full():
    U = {"rocks": {"SAND": {"density": 2600.0, "tortuosity": 0.5}, "CLAY": {"density": 2.0}}}
    for n, frag in parts():
        if n in ("ini5", "outpu format", "eleme", "norocks", "start", "indom"):
            continue
        for k, v in frag.items():
            if k == "default":
                U.setdefault("default", {}).update(copy.deepcopy(v))
            else:
                U[k] = copy.deepcopy(v)
    return U


def decks():
    other = {
        "rocks": {"R1": {"relative_permeability": {"id": 1, "parameters": [0.9]}, "initial_condition": [1.0, 2.0, 3.0, 4.0, 5.0]}},
        "rocks_order": ["R1"],
        "default": {"density": 9999.0, "porosity": 0.9, "capillarity": {"id": 8, "parameters": [5.0, 6.0]},
                    "permeability_model": {"id": 7, "parameters": [1.0]}, "equivalent_pore_pressure": {"id": 1, "parameters": [2.0]}},
        "flac": {"porosity_model": 5},
        "solver": {"method": 6, "z_precond": "Z4", "o_precond": "O3", "rel_iter_max": 0.5, "eps": 1e-9},
        "options": {"t_steps": [5.0, 6.0, 7.0], "n_cycle": 77, "eps2": 3.0, "verbosity": 3},
        "extra_options": {i + 1: 9 for i in range(24)},
        "more_options": {i + 1: 8 for i in range(40)},
        "selections": {"integers": {i + 1: 7 for i in range(1, 16)}, "floats": [[9.0] * 8] * 3},
        "generators": {"BBB 1": {"type": ["COM1", "COM2"], "name": ["X", "Y"], "nseq": [5, 6], "nadd": [7, 8], "nads": [9, 9],
                                 "rates": [1.0, 2.0], "specific_enthalpy": [3.0, 4.0], "layer_thickness": [5.0, 6.0]}},
        "output": {"format": "tecplot", "variables": {"a": [1], "b": None}},
        "elements": {"BBB 1": {"nseq": 9, "nadd": 8, "material": "R1", "volume": 7.0, "heat_exchange_area": 6.0, "permeability_modifier": 5.0,
                               "center": [1.0, 2.0, 3.0]}},
        "elements_order": ["BBB 1"],
        "connections": {"BBB 1BBB 2": {"nseq": 9, "nadd": [8, 7], "permeability_direction": 3, "nodal_distances": [1.0, 2.0],
                                       "interface_area": 3.0, "gravity_cosine_angle": 1.0, "radiant_emittance_factor": 4.0}},
        "initial_conditions": {"BBB 1": {"porosity": 0.9, "userx": [1.0, 2.0, 3.0, 4.0, 5.0], "values": [1.0, 2.0, 3.0, 4.0, 5.0]}},
        "times": [1.0], "nover": True, "n_component": 3, "n_phase": 2, "n_component_mass": 1, "diffusion": [[1.0]],
    }
    sparse = {
        "title": "sparse", "rocks": {"A": {}, "B": {"capillarity": {"id": 1, "parameters": []}}}, "flac": {}, "solver": {"method": 2},
        "selections": {"integers": {3: 3}}, "generators": {"AAA 0": {"type": "COM1"}}, "output": {"format": "csv"},
        "elements": {"AAA 0": {"material": "A"}}, "connections": {"AAA 0AAA 1": {}}, "initial_conditions": {"AAA 0": {"values": [1.0]}},
        "options": {"n_cycle": 3}, "extra_options": {2: 2}, "more_options": {3: 3},
    }
    return [("sparse", sparse), ("full", full()), ("other", other), ("empty", {})]


def history(ch):
    """Earlier calls (any), then a write and a read judged against the model."""
    D = dict(decks())
    ops = ["none"] + [(k, n) for k in ("write", "json", "read", "mesh", "bad") for n in ("sparse", "full", "other", "empty")]
    depth = ch.free("depth", [2, 1])
    for i in range(depth):
        op = ch.free("op%d" % i, ops)
        if op == "none":
            continue
        kind, n = op
        U = copy.deepcopy(D[n])
        p = ch.path("h%d" % i)
        if kind == "write":
            ch.call("write_input", toughio.write_input, p, U, file_format="tough")
        elif kind == "json":
            ch.call("write_input", toughio.write_input, p, U, file_format="json")
            ch.call("read_input", toughio.read_input, p, file_format="json")
        elif kind == "read":
            ch.call("write_input", toughio.write_input, p, U, file_format="tough")
            r = ch.call("read_input", toughio.read_input, p, file_format="tough")
            # the caller owns the result: wreck it
            for v in r.values():
                if isinstance(v, dict):
                    for vv in v.values():
                        if isinstance(vv, dict):
                            vv.clear()
                    v.clear()
                elif isinstance(v, list):
                    v.clear()
        elif kind == "mesh":
            ch.call("write_input", toughio.write_input, p, U, file_format="tough", block="mesh")
        elif kind == "bad":
            U["options"] = {"n_cycle": "bad"}
            ch.raises("write_input", (TypeError, ValueError), toughio.write_input, p, U, file_format="tough")
    n = ch.free("final", ["sparse", "full", "other", "empty"])
    U = copy.deepcopy(D[n])
    exp = R.expected(U)
    p = ch.path("final")
    ch.call("write_input", toughio.write_input, p, U, file_format="tough")
    with open(p) as f:
        text = f.read()
    try:
        dec = R.decode(text, 5, R.n_values(U))
    except R.Bad as e:
        ch.check(False, "deck written after other calls: {}", e)
    m = R.diff(exp, R.norm(dec))
    ch.check(m is None, "deck written after other calls: {}", m)
    got = ch.call("read_input", toughio.read_input, p, file_format="tough")
    m = R.diff(exp, R.norm(got))
    ch.check(m is None, "deck read after other calls: {}", m)
    ch.state((n, text))


def drivers(tier):
    q = tier == "quick"
    return [Driver("history", history, 0, "every sequence of two earlier calls out of 21")] + [
        Driver("pure " + n, pure(n), 1 if q else 2, "parameters untouched, same deck twice") for n in G.FAMILIES]
