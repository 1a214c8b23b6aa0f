"""toughio-co2tab copies the CO2 property table of the package, and nothing else."""
import os

import toughio

from ..engine import Driver

ASSUMPTIONS = ["the table of the working tree (toughio/data/CO2TAB) is the reference; the target directory is writable"]

TABLE = os.path.join(os.path.dirname(toughio.__file__), "data", "CO2TAB")


def tree(d):
    out = {}
    for a, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(a, x), d)] = None
        for x in fs:
            with open(os.path.join(a, x), "rb") as f:
                out[os.path.relpath(os.path.join(a, x), d)] = f.read()
    return out


def copy(ch):
    with open(TABLE, "rb") as f:
        ref = f.read()
    d = os.path.join(ch.scratch, ch.free("directory", ["run", "a run", "run.dir", "x/y"]))
    os.makedirs(d)
    for n, t in ch.free("before", [{}, {"CO2TAB": "old"}, {"INFILE": "deck", "co2tab": "lower case"}, {"CO2TAB": "old" * 10 ** 6, "CO2TAB.bak": "older"}]).items():
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    how = ch.free("path", ["absolute", "with a slash", "relative", "dot"])
    os.chdir(ch.scratch if how == "relative" else d if how == "dot" else "/")
    arg = {"absolute": d, "with a slash": d + "/", "relative": os.path.relpath(d, ch.scratch), "dot": "."}[how]
    before = tree(ch.scratch)
    for _ in range(ch.free("times", [1, 2])):
        ch.call("toughio-co2tab", toughio._cli.co2tab, [arg])
    after = tree(ch.scratch)
    before[os.path.relpath(os.path.join(d, "CO2TAB"), ch.scratch)] = ref
    ch.check(after == before, "files {} instead of {}", {k: v and len(v) for k, v in after.items()}, {k: v and len(v) for k, v in before.items()})
    with open(TABLE, "rb") as f:
        ch.check(f.read() == ref, "the table of the package was changed")
    ch.state((arg.replace(ch.scratch, ""), sorted(after)))


def refuse(ch):
    d = os.path.join(ch.scratch, "file")
    with open(d, "w") as f:
        f.write("precious\n")
    arg = ch.free("path", [d, os.path.join(ch.scratch, "missing"), os.path.join(d, "below a file"), os.path.join(ch.scratch, "a", "b"), ""])
    before = tree(ch.scratch)
    os.chdir(ch.scratch)
    ch.raises("toughio-co2tab", (ValueError,), toughio._cli.co2tab, [arg])
    ch.check(tree(ch.scratch) == before, "the refused command changed files")
    ch.state(arg.replace(ch.scratch, ""))


def drivers(tier):
    return [Driver("copy", copy, 0), Driver("refuse", refuse, 0)]
