"""Reading an input deck cut anywhere terminates, and says nothing wrong about complete blocks."""
import copy
import os

import toughio

from ..engine import Driver, Violation
from .. import ref_input as R
from .. import gen_input as G
from .c09 import decks

LEVEL = "model_checking"
ASSUMPTIONS = ["fault model: the file stops after any byte (or line) of a valid deck; blank padding optional"]


def sources():
    out = [(n, "all", U, 5) for n, U in decks() if n != "empty"]
    f = dict(decks())
    out += [("full mesh", "mesh", f["full"], 5), ("full gener", "gener", f["full"], 5), ("full incon", "incon", f["full"], 5)]
    return out


def cut(ch):
    name, block, U, L = ch.free("deck", sources())
    pad = ch.free("padded", [True, False])
    exp = R.expected(U, block, L)
    text = R.encode(exp, R.Style(pad=pad, endcy=block == "all"), L, R.n_values(U))
    lines = text.splitlines(True)
    step = ch.free("cut", ["line", "bytes"])
    if step == "line":
        k = ch.free("at", list(range(len(lines) + 1)))
        part = "".join(lines[:k])
    else:
        # every byte of the 'interesting' first 24 columns and of the end of each record
        offs, pos = [], 0
        for ln in lines:
            n = len(ln)
            offs += [pos + j for j in range(n) if j < 13 or n - j < 3 or j % 20 == 0]
            pos += n
        if ch.tier == "quick":
            offs = offs[::3]
        part = text[: ch.free("at", offs)]
    p = ch.path("deck")
    with open(p, "w") as f:
        f.write(part)
    ch.calls += 1
    try:
        got = toughio.read_input(p, file_format="tough")
    except Exception as e:
        # refusing a truncated deck is fine; hanging or exhausting memory is not
        if isinstance(e, (MemoryError, RecursionError)):
            raise Violation("read_input on a truncated deck: {}".format(type(e).__name__))
        ch.state(("refused", type(e).__name__, len(part)))
        ch.validated()
        return
    g = R.norm(got)
    # every top-level entry whose block is complete in the prefix must be right
    done = complete(part, text)
    e2 = R.norm(R.decode(text, L, R.n_values(U), have_title="title" in exp))
    for key, blk in KEY.items():
        if blk in done and key in e2:
            a, b = e2[key], g.get(key)
            if key in ("rocks",):
                keep = {"ROCKS": R.ROCK2 + ["density", "porosity", "permeability", "conductivity", "specific_heat", "relative_permeability", "capillarity"]}
                a = {n: {k: v for k, v in r.items() if k in keep["ROCKS"]} for n, r in a.items()}
                b = {n: {k: v for k, v in r.items() if k in keep["ROCKS"]} for n, r in (b or {}).items()}
            if key == "elements" and "COORD" not in done:
                a = {n: {k: v for k, v in r.items() if k != "center"} for n, r in a.items()}
                b = {n: {k: v for k, v in r.items() if k != "center"} for n, r in (b or {}).items()}
            m = R.diff(a, b, key)
            ch.check(m is None, "block {} is complete in the prefix but: {}", blk, m)
    ch.state(("read", len(part), sorted(g)))


KEY = {"rocks": "ROCKS", "solver": "SOLVR", "more_options": "MOMOP", "times": "TIMES", "element_history": "FOFT", "connection_history": "COFT",
       "generator_history": "GOFT", "generators": "GENER", "elements": "ELEME", "connections": "CONNE", "initial_conditions": "INCON",
       "selections": "SELEC", "n_component": "MULTI", "options": "PARAM", "extra_options": "PARAM"}


def complete(part, text):
    """Blocks followed by another block header inside the prefix."""
    names = []
    for line in part.splitlines(True):
        k = R.header_of(line)
        if k and line.endswith("\n"):
            names.append(k)
    return set(names[:-1])


def garbage(ch):
    """Short files made of any sequence of block headers, blank and data records."""
    menu = ["", "ROCKS----1", "PARAM----1", "GENER----1", "ELEME----1", "CONNE----1", "INCON----1", "TIMES----1", "SELEC----1", "OUTPU----1",
            "DIFFU----1", "INDOM----1", "FOFT ----1", "FLAC ----1", "MULTI----1", "ENDCY----1", "AAA 0", "    3", "1.0", "+++"]
    n = ch.free("n", [3, 2, 1, 0])
    lines = [ch.free("l%d" % i, menu) for i in range(n)]
    nl = ch.free("last newline", [True, False])
    text = "\n".join(lines) + ("\n" if nl and lines else "")
    p = ch.path("deck")
    with open(p, "w") as f:
        f.write(text)
    ch.calls += 1
    try:
        toughio.read_input(p, file_format="tough")
        ch.state("ok")
    except (MemoryError, RecursionError) as e:
        raise Violation("read_input: {}".format(type(e).__name__))
    except Exception as e:
        ch.state(type(e).__name__)
    ch.validated()


def tail(ch):
    """What follows the record ENDCY or ENDFI is never read."""
    name, block, U, L = ch.free("deck", sources())
    end = ch.free("end record", ["ENDCY", "ENDFI", "ENDCY----1----*----2", "ENDFI----1----*----2"])
    exp = R.expected(U, block, L)
    text = R.encode(exp, R.Style(pad=False, endcy=False), L, R.n_values(U))
    rest = ch.free("then", ["", "notes", "blocks", "rocks", "title", "again", "cut"])
    rest = {"": "", "notes": "TIMES of the next run were changed\n\nELEMENTS\n", "blocks": "TIMES----1\n    1\n 9.000E+00\n", "title": "\n\nanother deck\n",
            "rocks": "ROCKS----1\nOTHER             1.0       0.5\n\nSTART\nNOVER\n", "again": text, "cut": "GENER----1\nAAA 0"}[rest]
    p, q = ch.path("deck"), ch.path("short")
    with open(p, "w") as f:
        f.write(text + end + "\n" + rest)
    with open(q, "w") as f:
        f.write(text + "ENDCY\n")
    ref = ch.call("read_input", toughio.read_input, q, file_format="tough")
    got = ch.call("read_input", toughio.read_input, p, file_format="tough")
    m = R.diff(R.norm(ref), R.norm(got))
    ch.check(m is None and repr(sorted(ref)) == repr(sorted(got)), "lines after {} were read: {}", end, m)
    # a last record without an end of line is a record too
    with open(p, "w") as f:
        f.write(text + end)
    got = ch.call("read_input", toughio.read_input, p, file_format="tough")
    m = R.diff(R.norm(ref), R.norm(got))
    ch.check(m is None, "{} without an end of line: {}", end, m)
    ch.state((name, end, rest))


def drivers(tier):
    return [Driver("tail", tail, 0, "what follows the end record"), Driver("cut", cut, 0, "every cut of seven decks"), Driver("garbage", garbage, 0, "every file of at most 3 records from a menu of 20")]
