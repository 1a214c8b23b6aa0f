"""Which blocks appear in a deck, and that each one is independent of the others."""
import copy

import toughio

from ..engine import Driver
from .. import gen_input as G
from .. import ref_input as R
from ..input_common import reads

ASSUMPTIONS = ["block parameters are fixed representative values; C01-C04 vary them"]


def parts():
    els = {"AAA 0": {"material": "SAND", "volume": 1.5, "center": [1.0, 2.0, 3.0]}, "AAA 1": {"material": 2, "volume": 2.5, "center": [4.0, 5.0, 6.0]}}
    return [
        ("title", {"title": ["first", "second"]}),
        ("rpcap", {"default": {"relative_permeability": {"id": 3, "parameters": [0.3, 0.05]}}}),
        ("flac", {"flac": {"creep": True, "porosity_model": 1, "version": 2}}),
        ("multi", {"eos": "eco2n", "isothermal": True}),
        ("solver", {"solver": {"method": 4, "eps": 1.0e-7}}),
        ("start", {"start": False}),
        ("options", {"options": {"n_cycle": 123, "t_steps": [1.0 + i for i in range(9)], "gravity": 9.81, "eps1": 1e-5}}),
        ("mop", {"extra_options": {1: 1, 24: 4}}),
        ("ini4", {"default": {"initial_condition": [1.0e5, 0.5, 20.0]}}),
        ("ini5", {"default": {"initial_condition": [1.0e5, 0.5, 20.0, 7.0, 8.0]}}),
        ("selec", {"selections": {"integers": {2: 5}, "floats": [[1.0, 2.0], [3.0]]}}),
        ("indom", {"_rocks": {"initial_condition": [2.0e5, 0.25, 33.0]}}),
        ("momop", {"more_options": {2: 5, 40: 1}}),
        ("times", {"times": [10.0 * i for i in range(1, 10)]}),
        ("foft", {"element_history": ["AAA 0", "AAA 1"]}),
        ("coft", {"connection_history": ["AAA 0AAA 1"]}),
        ("goft", {"generator_history": ["AAA 0"]}),
        ("gener", {"generators": {"AAA 0": {"type": "COM1", "name": "G 1", "rates": 1.5}}}),
        ("diffu", {"diffusion": [[1e-5, 2e-5], [3e-5, 4e-5]]}),
        ("outpu", {"output": {"format": "csv", "variables": {"pressure": None, "flow": [1, 2]}}}),
        ("outpu format", {"output": {"format": "csv"}}),
        ("eleme", {"elements": els}),
        ("coord", {"coordinates": True, "elements": els}),
        ("conne", {"connections": {"AAA 0AAA 1": {"permeability_direction": 3, "nodal_distances": [0.5, 1.5], "interface_area": 2.0}}}),
        ("incon", {"initial_conditions": {"AAA 0": {"values": [1.0e5, 0.5, 20.0]}, "AAA 1": {"values": [2.0e5, 0.25, 30.0], "porosity": 0.5}}}),
        ("nover", {"nover": True}),
        ("norocks", {"_norocks": True}),
    ]


EXCL = {("ini4", "ini5"), ("outpu", "outpu format"), ("eleme", "coord")}


def make(ch, base_on):
    U = {}
    rock = {"density": 2600.0, "tortuosity": 0.5, "permeability": 1.0e-15}
    norocks = False
    on = []
    for name, frag in parts():
        b = base_on and name not in ("ini5", "outpu format", "eleme", "norocks", "start")
        if not ch.choose(name, [b, not b]):
            continue
        on.append(name)
        for k, v in frag.items():
            if k == "_rocks":
                rock.update(copy.deepcopy(v))
            elif k == "_norocks":
                norocks = True
            elif isinstance(v, dict) and k in U and k == "default":
                U[k].update(copy.deepcopy(v))
            else:
                U[k] = copy.deepcopy(v)
    if not norocks:
        U["rocks"] = {"SAND": rock, "CLAY": {"density": 2.0}}
    if "coord" not in on:
        U.pop("coordinates", None)
    return U, on


def run(ch):
    base_on = ch.free("base", [True, False])
    block = ch.free("block", ["all", "mesh", "gener", "incon"])
    U, on = make(ch, base_on)
    p = ch.path("deck")
    exp = R.expected(U, block)
    ch.call("write_input", toughio.write_input, p, copy.deepcopy(U), file_format="tough", block=block)
    with open(p) as f:
        text = f.read()
    try:
        D = R.decode(text, 5, R.n_values(U), have_title=block == "all")
    except R.Bad as e:
        ch.check(False, "deck with blocks {}: {}", on, e)
    m = R.diff(exp, R.norm(D))
    ch.check(m is None, "blocks of the deck: {}", m)
    want = {"mesh": {"ELEME", "COORD", "CONNE"}, "gener": {"GENER"}, "incon": {"INCON"}}.get(block)
    names = set(D["_blocks"])
    ch.check(want is None or names <= want, "block={!r} also wrote {}", block, names)
    if block == "all":
        need = {"ROCKS", "PARAM", "ENDCY"}
        for n, k in (("rpcap", "RPCAP"), ("flac", "FLAC"), ("multi", "MULTI"), ("solver", "SOLVR"), ("selec", "SELEC"), ("momop", "MOMOP"),
                     ("times", "TIMES"), ("foft", "FOFT"), ("coft", "COFT"), ("goft", "GOFT"), ("gener", "GENER"), ("diffu", "DIFFU"),
                     ("outpu", "OUTPU"), ("outpu format", "OUTPU"), ("eleme", "ELEME"), ("coord", "ELEME"), ("coord", "COORD"),
                     ("conne", "CONNE"), ("incon", "INCON"), ("nover", "NOVER")):
            if n in on:
                need.add(k)
        if "start" not in on:
            need.add("START")
        if "indom" in on and "norocks" not in on:
            need.add("INDOM")
        ch.check(names == need, "blocks written: extra {}, missing {}", sorted(names - need), sorted(need - names))
    if text:
        got = reads(ch, p, U, 5)
        g = R.norm(got)
        if block != "all":
            g.pop("title", None) if g.get("title") == [""] else None
        m = R.diff(exp, g)
        ch.check(m is None, "reading the deck back: {}", m)
    ch.state((block, on))


NAMED = {"rocks", "elements", "connections", "generators", "initial_conditions"}


def shuffle(x, how, named=False):
    """The same parameters, their entries given in another order (names of things excepted: theirs is the order of records)."""
    if not isinstance(x, dict):
        return copy.deepcopy(x)
    keys = list(x)
    if not named:
        keys = {"reversed": keys[::-1], "sorted": sorted(keys, key=str), "rotated": keys[1:] + keys[:1], "last first": keys[-1:] + keys[:-1]}[how]
    return {k: copy.deepcopy(x[k]) if k == "variables" else shuffle(x[k], how, k in NAMED) for k in keys}


LONG = {"many_rocks", "gener_one", "gener_many", "gener_stack", "eleme", "conne", "incon"}


def entries(name):
    fam = G.FAMILIES[name]

    def run(ch):
        U, L = fam(ch)
        how = ch.free("entries", ["reversed"] if name in LONG else ["reversed", "sorted", "rotated", "last first"])
        block = ch.choose("block", ["all", "mesh", "incon", "gener"])
        texts = []
        for V in (U, shuffle(U, how)):
            p = ch.path("deck")
            ch.call("write_input", toughio.write_input, p, V, file_format="tough", block=block)
            with open(p) as f:
                texts.append(f.read())
        ch.check(texts[0] == texts[1], "with entries {}: {} instead of {}", how, [x for x in texts[1].split("\n") if x not in texts[0].split("\n")][:3], [x for x in texts[0].split("\n") if x not in texts[1].split("\n")][:3])
        ch.state(texts[0])

    return run


def drivers(tier):
    return [Driver("entries " + n, entries(n), 1 if tier == "quick" else 2, "entries of the dictionaries in other orders") for n in G.FAMILIES if n != "big"] + [Driver("blocks", run, 3 if tier == "quick" else 4, "presence of every block, from an empty and from a complete deck")]
