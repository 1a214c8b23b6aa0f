"""Every written deck follows the fixed-column format of TOUGH2."""
import toughio

from ..engine import Driver
from .. import gen_input as G
from ..input_common import conform

ASSUMPTIONS = [
    "column tables transcribed from the TOUGH2 user's guide (element names of 6-9 characters: iTOUGH2 layout)",
    "names fit in their fields",
]


def drv(name):
    fam = G.FAMILIES[name]

    def run(ch):
        U, L = fam(ch)
        conform(ch, U, L)

    return run


def limits(ch):
    """Integers at the limits of their fields are written in them, those beyond are refused: nothing is shifted."""
    L = ch.free("label length", [5, 6, 7, 8, 9])
    lb = G.LABELS[L]
    F = {}

    def field(name, width, *path):
        F[name] = (width, path)

    if L == 5:
        for k, w in (("n_iteration", 2), ("verbosity", 2), ("n_cycle", 4), ("n_second", 4), ("n_cycle_print", 4)):
            field(k, w, "options", k)
        for k in (1, 2, 12, 23, 24):
            field("extra_options {}".format(k), 1, "extra_options", k)
        for k in (1, 2, 20, 40):
            field("more_options {}".format(k), 1, "more_options", k)
        for k in (2, 3, 15, 16):
            field("selections {}".format(k), 5, "selections", "integers", k)
        field("solver", 1, "solver", "method")
        for k in ("relative_permeability", "capillarity"):
            field("default " + k, 5, "default", k, "id")
            field("rock " + k, 5, "rocks", "SAND", k, "id")
        field("n_component_mass", 5, "n_component_mass")
        field("n_phase", 5, "n_phase")
    for k, w in zip(("nseq", "nadd", "nads"), {5: (5, 5, 5), 6: (6, 4, 4), 7: (5, 4, 4), 8: (4, 4, 4), 9: (5, 3, 3)}[L]):
        field("generator " + k, w, "generators", lb[0], k)
    for k, w in zip(("nseq", "nadd"), {5: (5, 5), 6: (5, 4), 7: (4, 4), 8: (4, 3), 9: (3, 3)}[L]):
        field("element " + k, w, "elements", lb[1], k)
    wc = {5: (5, 5, 5), 6: (5, 4, 4), 7: (5, 3, 3), 8: (3, 3, 3), 9: (3, 2, 2)}[L]
    field("connection nseq", wc[0], "connections", lb[0] + lb[1], "nseq")
    for i in range(2):
        field("connection nadd {}".format(i), wc[1 + i], "connections", lb[0] + lb[1], "nadd", i)
    field("permeability_direction", 5, "connections", lb[0] + lb[1], "permeability_direction")

    name = ch.free("field", list(F))
    w, path = F[name]
    what = ch.free("value", ["largest", "smallest", "too large", "too small", "far too large"])
    v = {"largest": 10 ** w - 1, "smallest": 1 - 10 ** (w - 1), "too large": 10 ** w, "too small": -(10 ** (w - 1)), "far too large": 10 ** (w + 1) + 5}[what]
    if what == "too small" and w == 1:
        v = -1
    model = lambda: {"id": 1, "parameters": [0.25, 0.5]}
    U = {
        "title": "limits",
        "rocks": {"SAND": {"density": 2600.0, "relative_permeability": model(), "capillarity": model()}},
        "default": {"relative_permeability": model(), "capillarity": model()},
        "options": {"t_max": 1.0e5, "n_second": 7},
        "extra_options": {3: 1},
        "selections": {"integers": {4: 2}},
        "solver": {"method": 5},
        "n_component": 2, "n_phase": 2, "isothermal": True,
        "generators": {lb[0]: {"type": "MASS", "rates": 1.5}},
        "elements": {lb[0]: {"volume": 1.0, "material": "SAND"}, lb[1]: {"volume": 2.0, "material": "SAND", "center": [1.0, 2.0, 3.0]}},
        "connections": {lb[0] + lb[1]: {"nadd": [1, 2], "nodal_distances": [0.5, 0.25], "interface_area": 4.0}},
    }
    if path[0] == "more_options":
        U["more_options"] = {5: 3}
    if ch.flag("alone"):
        U = {k: x for k, x in U.items() if k in ("title", "rocks", path[0]) or path[0].startswith("n_") and k in ("n_component", "n_phase", "isothermal")}
    d = U
    for k in path[:-1]:
        d = d[k] if isinstance(d, list) else d.setdefault(k, {})
    d[path[-1]] = v
    if "large" in what and what != "largest" or what == "too small":
        p = ch.path("old")
        with open(p, "w") as f:
            f.write("old")
        ch.raises("write_input", (ValueError,), toughio.write_input, p, U, file_format="tough")
        with open(p) as f:
            ch.check(f.read() == "old", "the target of the refused deck was overwritten")
        ch.state((L, name, what))
    elif not (w == 1 and what == "smallest"):
        conform(ch, U, L)


def drivers(tier):
    b = 2 if tier == "quick" else 3
    wide = ("many_rocks", "gener_many")     # already a full product of record shapes
    return [Driver("limits", limits, 1)] + [Driver(n, drv(n), b - (n in wide)) for n in G.FAMILIES]
