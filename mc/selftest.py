"""The reference encoders and decoders against each other, without ToughIO."""
from . import gen_input as G
from . import output_common as O
from . import ref_input as R
from . import ref_output as RO
from .engine import Driver, explore


def deck(name):
    def run(ch):
        style = R.Style(justify=ch.choose("justify", ["right", "left"]), real=ch.choose("real", ["e", "short", "upper", "nolead"]), pad=ch.choose("pad", [True, False]))
        U, L = G.FAMILIES[name](ch)
        exp = R.expected(U, "all", L)
        text = R.encode(exp, style, L, R.n_values(U))
        m = R.diff(exp, R.norm(R.decode(text, L, R.n_values(U), have_title="title" in exp)))
        ch.check(m is None, "decoder disagrees with encoder: {}", m)

    return run


def table(fmt, connection):
    def run(ch):
        M = O.model(ch, connection, 5, plain=fmt == "tecplot", need=("X", "Y") if fmt == "tecplot" else ())
        enc, dec = {"csv": (RO.enc_csv, RO.dec_csv), "petrasim": (RO.enc_petrasim, RO.dec_petrasim), "tecplot": (RO.enc_tecplot, RO.dec_tecplot)}[fmt]
        text = enc(M, connection) if fmt == "csv" else enc(M)
        D = dec(text)
        E = O.rounded(M, "{:.12e}", {"csv": "{:.8e}", "petrasim": "{:.12e}", "tecplot": "{:.7e}"}[fmt])
        ch.check(len(D) == len(E), "{} steps", len(D))
        for (t, lab, d), (t1, lab1, d1) in zip(D, E):
            ch.check(t == t1 and (fmt == "tecplot" or lab == lab1) and d == d1, "decoder disagrees with encoder: {} {}", d, d1)

    return run


def main():
    drivers = [Driver("deck " + n, deck(n), 1) for n in G.FAMILIES]
    drivers += [Driver("table {} {}".format(f, c), table(f, c), 1) for f, c in [("csv", False), ("csv", True), ("petrasim", False), ("tecplot", False)]]
    stats, errors, _ = explore(drivers, "quick", 300)
    bad = [v for s in stats.values() for v in s.violations]
    for e in errors[:3]:
        print("ENGINE ERROR", e)
    for v in bad[:5]:
        print(v["driver"], v["notes"][:10], v["message"])
    print("selftest: {} executions, {} disagreements".format(sum(s.execs for s in stats.values()), len(bad)))
    return 1 if bad or errors else 0
