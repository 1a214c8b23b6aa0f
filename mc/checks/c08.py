"""JSON decks: same parameters back, and the same TOUGH deck."""
import copy
import json

import toughio

from ..engine import Driver
from .. import gen_input as G
from .. import ref_input as R
from ..input_common import reads

ASSUMPTIONS = ["tuples and arrays come back as lists, numpy scalars as Python scalars"]


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    x = R._arr(x)
    return x


def ints(d):
    return all(isinstance(k, int) for k in d)


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and (list(a) == list(b) or (ints(a) and set(a) == set(b) and ints(b))) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return type(a) in (int, float, str, type(None)) and a == b and (isinstance(a, str) == isinstance(b, str))


def drv(name):
    fam = G.FAMILIES[name]

    def run(ch):
        U, L = fam(ch)
        p = ch.path("deck.json")
        how = ch.choose("format", ["extension", "explicit"])
        kw = {} if how == "extension" else {"file_format": "json"}
        if how == "explicit":
            p = ch.path("deck.dat")
        ch.call("write_input(json)", toughio.write_input, p, copy.deepcopy(U), **kw)
        with open(p) as f:
            json.load(f)
        got = ch.call("read_input(json)", toughio.read_input, p, **kw)
        want = plain(U)
        ch.check(same(want, got), "json: wrote {!r}, read {!r}", want, got)
        # a deck written from what was read says the same as one written directly
        q = ch.path("deck2")
        ch.call("write_input", toughio.write_input, q, got, file_format="tough")
        exp = R.expected(U, "all", L)
        try:
            with open(q) as f:
                D = R.decode(f.read(), L, R.n_values(U))
        except R.Bad as e:
            ch.check(False, "deck written from json: {}", e)
        m = R.diff(exp, R.norm(D))
        ch.check(m is None, "deck written from json: {}", m)
        # and reading a TOUGH deck, saving it as json and reading that is the identity
        r1 = ch.call("read_input", toughio.read_input, q, file_format="tough", label_length=L)
        ch.call("write_input(json)", toughio.write_input, p, r1, **kw)
        r2 = ch.call("read_input(json)", toughio.read_input, p, **kw)
        ch.check(same(plain(r1), r2), "json of a deck that was read: {!r} != {!r}", plain(r1), r2)
        ch.state(exp)

    return run


def drivers(tier):
    q = tier == "quick"
    wide = ("many_rocks", "gener_many", "eleme", "conne", "incon", "gener_one", "param", "one_rock")
    return [Driver(n, drv(n), (1 if n in wide else 2) + (0 if q else 1)) for n in G.FAMILIES]
