"""The reader understands every conforming deck, whoever wrote it."""
from ..engine import Driver
from .. import gen_input as G
from .. import ref_input as R
from ..input_common import reader

ASSUMPTIONS = [
    "decks come from the reference encoder; its column tables are those of C06",
    "decks where the length of element names cannot be told from the first record are read with label_length given",
]


def style(ch):
    return R.Style(
        justify=ch.choose("justify", ["right", "left"]),
        real=ch.choose("real", ["e", "short", "upper", "nolead", "fortran"]),
        pad=ch.choose("pad", [True, False]),
        nad0=ch.flag("NAD=0"),
        ruler=ch.choose("ruler", [True, False]),
        plus=ch.flag("+++"),
        end=ch.choose("end", [None, "ENDFI", "ENDCY and text", "ENDFI and text"]),
    )


def orders(ch):
    """Blocks may come in any order, except ROCKS before FLAC/INDOM and ELEME before COORD."""
    k = ch.choose("block order", ["usual", "reversed", "alphabetical", "mesh first"])

    def order(names):
        out = [n for n in R.KEYWORDS if n in names]
        if k == "reversed":
            out = out[::-1]
        elif k == "alphabetical":
            out = sorted(out)
        elif k == "mesh first":
            out = [n for n in out if n in ("ELEME", "COORD", "CONNE", "INCON", "GENER")] + [
                n for n in out if n not in ("ELEME", "COORD", "CONNE", "INCON", "GENER")]
        for a, b in (("ROCKS", "FLAC"), ("ROCKS", "INDOM"), ("ELEME", "COORD")):
            if a in out and b in out and out.index(a) > out.index(b):
                out.remove(a)
                out.insert(out.index(b), a)
        return out

    return order


def drv(name):
    fam = G.FAMILIES[name]

    def run(ch):
        S = style(ch)
        order = orders(ch)
        if name in ("gener_many", "gener_stack"):
            S.mix = ch.flag("records of one element apart")
        U, L = fam(ch)
        scalar = ch.flag("scalar step") if name == "param" else False
        reader(ch, U, L, S, order=order, scalar=scalar)

    return run


def partial(ch):
    """MESH, GENER and INCON files: one or few blocks, no title, maybe no ENDCY."""
    S = style(ch)
    S.endcy = ch.choose("endcy", [False, True])
    fam = ch.free("file", ["eleme", "conne", "incon", "gener_one", "gener_many"])
    U, L = G.FAMILIES[fam](ch)
    block = {"eleme": "mesh", "conne": "mesh", "incon": "incon"}.get(fam, "gener")
    reader(ch, U, L, S, block=block)


def drivers(tier):
    b = 2 if tier == "quick" else 3
    wide = ("many_rocks", "gener_many", "gener_stack")     # already a full product of record shapes
    return [Driver(n, drv(n), b - (n in wide)) for n in G.FAMILIES] + [Driver("partial files", partial, b - 1)]
