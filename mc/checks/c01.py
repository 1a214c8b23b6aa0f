"""Materials survive write_input -> read_input."""
from ..engine import Driver
from .. import gen_input as G
from ..input_common import roundtrip

ASSUMPTIONS = [
    "numbers are compared to the precision the fixed-column field can hold",
    "all materials of a deck that set initial conditions use the same number of records for them",
]


def drv(name):
    fam = G.FAMILIES[name]

    def run(ch):
        U, L = fam(ch)
        roundtrip(ch, U, L)

    return run


def drivers(tier):
    q = tier == "quick"
    return [
        Driver("one_rock", drv("one_rock"), 2 if q else 3, "every field of a material"),
        Driver("many_rocks", drv("many_rocks"), 2 if q else 3, "three materials, all record shapes"),
        Driver("models", drv("models"), 2 if q else 4, "RPCAP and FLAC models"),
    ]
