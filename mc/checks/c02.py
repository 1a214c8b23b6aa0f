"""Run-control blocks survive write_input -> read_input."""
from ..engine import Driver
from .. import gen_input as G
from ..input_common import roundtrip

ASSUMPTIONS = ["numbers are compared to the precision the fixed-column field can hold"]


def drv(name):
    fam = G.FAMILIES[name]

    def run(ch):
        U, L = fam(ch)
        roundtrip(ch, U, L)

    return run


def drivers(tier):
    q = tier == "quick"
    return [
        Driver("param", drv("param"), 2 if q else 3),
        Driver("control", drv("control"), 2 if q else 3),
        Driver("selec", drv("selec"), 2 if q else 3),
        Driver("outpu", drv("outpu"), 2 if q else 3),
    ]
