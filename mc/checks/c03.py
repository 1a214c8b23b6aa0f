"""Generators survive write_input -> read_input."""
from ..engine import Driver
from .. import gen_input as G
from ..input_common import roundtrip

ASSUMPTIONS = ["numbers are compared to the precision the fixed-column field can hold"]


def drv(name):
    fam = G.FAMILIES[name]

    def run(ch):
        U, L = fam(ch)
        roundtrip(ch, U, L)

    return run


def drivers(tier):
    q = tier == "quick"
    return [
        Driver("gener_one", drv("gener_one"), 2 if q else 3),
        Driver("gener_many", drv("gener_many"), 2 if q else 3),
        Driver("gener_stack", drv("gener_stack"), 2 if q else 3),
    ]
