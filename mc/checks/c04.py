"""ELEME, COORD, CONNE and INCON survive write_input -> read_input."""
from ..engine import Driver
from .. import gen_input as G
from ..input_common import roundtrip

ASSUMPTIONS = ["numbers are compared to the precision the fixed-column field can hold"]


def drv(name):
    fam = G.FAMILIES[name]

    def run(ch):
        U, L = fam(ch)
        roundtrip(ch, U, L)

    return run


def drivers(tier):
    q = tier == "quick"
    return [
        Driver("eleme", drv("eleme"), 2 if q else 3),
        Driver("conne", drv("conne"), 2 if q else 3),
        Driver("incon", drv("incon"), 2 if q else 3),
        Driver("big", drv("big"), 2 if q else 3),
    ]
