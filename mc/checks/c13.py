"""Standard TOUGH listings give the tables they print."""
import toughio

from ..engine import Driver
from .. import output_common as O
from .. import long as Z
from .. import ref_output as R

ASSUMPTIONS = [
    "listing layout: one header per table, label in columns 2.., right-justified index, Ew.d columns; element names do not start with 'ELEM'",
    "every step prints the same table",
]

VALUES = [1.5, -2.25, 0.0, 1.0e-30, -1.234567e-30, -1.0e-100, 3.0, 9.87654e200, float("nan")]


def table(ch, what, conn, L, nrow, times, kind):
    ncol = ch.choose(what + " columns", [3, 1, 2, 7])
    names = ["PRES", "T", "X_CO2", "SG", "D(G)", "PCAP", "K"][:ncol] if not conn else ["HEAT", "FLOF", "VEL(1)", "FLO(G)", "V4", "V5", "V6"][:ncol]
    M = []
    k = 0
    for s, t in enumerate(times):
        data = {}
        for j, n in enumerate(names):
            col = []
            for i in range(nrow):
                k += 1
                v = 1e5 + 1.25 * k
                if (i in (0, nrow - 1)) and s in (0, len(times) - 1) and j < 3:
                    v = ch.choose("{} {} row {} step {}".format(what, n, i, s), [v] + VALUES)
                col.append(v)
            data[n] = col
        M.append((t, O.labels(nrow, L, conn, kind), data))
    return M


def expect(M, w, d, zero=True):
    f = lambda x: float("nan") if "*" in R.fort(x, w, d, zero) or x != x else _f(R.fort(x, w, d, zero))
    return [(_f(R.fort(t, 12, 5)), lab, {n: [f(x) for x in v] for n, v in data.items()}) for t, lab, data in M]


def _f(s):
    s = s.strip()
    if "E" in s or s[-4] not in "+-":
        return float(s)
    return float(s[:-4] + "E" + s[-4:])


def listing(ch):
    L = ch.choose("label length", [5, 6, 7, 8, 9])
    ns = ch.choose("steps", [2, 1, 3])
    times = [1.0, 8.64e4, 3.1557e9][:ns]
    nrow = ch.choose("rows", [3, 1, 2, 5])
    tabs = ch.choose("tables", ["both", "element", "connection"])
    # the length of labels is recognized by the digits that follow the fifth character
    kind = ch.choose("labels", [k for k in O.ALPHABETS])
    EM = table(ch, "eleme", False, L, nrow, times, kind) if tabs != "connection" else None
    CM = table(ch, "conne", True, L, nrow if nrow < 5 else 4, times, kind) if tabs != "element" else None
    w, d, zero = ch.choose("format", [(12, 5, True), (13, 5, True), (12, 4, True), (14, 6, True), (11, 4, True), (10, 4, False), (12, 5, False)])
    # an index column that touches the name cannot be told from it when names are not 5 long
    iw = ch.choose("index width", [6, 8, 5, 10])
    page = ch.choose("rows per page", [0, 1, 2])
    head = ch.choose("first lines", ["tough2", "blank"])
    units = ch.choose("units row", [True, False])
    blank = ch.choose("blank after header", [True, False])
    extra = ch.choose("generation table", [True, False])
    indent = ch.choose("indentation", [0, 3, 5, 7, 8])
    text = R.enc_listing(EM, CM, L, iw, w, d, page, head, units, blank, extra=extra, indent=indent, zero=zero)
    ends = ch.choose("end of file", ["normal", "just after the last table"])
    if ends != "normal":
        text = text[: text.rindex(R.LINE)] + R.LINE + "\n"
    p = ch.path("OUTPUT")
    with open(p, "w") as f:
        f.write(text)
    for conn, M in ((False, EM), (True, CM)):
        if M is None:
            continue
        how = ch.choose("label_length", [None, L])
        kw = {} if how is None else {"label_length": how}
        got = ch.call("read_output", toughio.read_output, p, connection=conn, **kw)
        E = expect(M, w, d, zero)
        ch.state((conn, E, page))
        O.compare(ch, got, E, conn, "connection table" if conn else "element table")
        for o in got:
            ch.check(o.format == "tough", "format {}", o.format)
    if tabs == "element":
        ch.raises("read_output", (ValueError,), toughio.read_output, p, connection=True)
    if EM is not None and ch.choose("labels_order", [False, True]):
        order = list(reversed(EM[0][1]))
        got = ch.call("read_output", toughio.read_output, p, labels_order=order)
        O.compare(ch, got, expect(EM, w, d, zero), False, "labels_order", order=order)


def long(ch):
    """Many rows, steps or columns; pages of 1 to many rows."""
    what = ch.free("long", ["rows", "steps", "columns", "pages"])
    size = ch.free("size", Z.sizes(ch.tier, {"rows": 5001, "steps": 513, "columns": 65, "pages": 513}[what] * (1 if ch.tier == "quick" else 4), what == "rows"))
    n, ns, nc = (size, 2, 2) if what in ("rows", "pages") else (2, size, 2) if what == "steps" else (2, 2, size)
    times = [100.0 * (s + 1) for s in range(ns)]
    EM = Z.table(n, ns, ["V{}".format(i) for i in range(nc)], False, times)
    CM = Z.table(n, ns, ["W{}".format(i) for i in range(nc)], True, times)
    p = ch.path("OUTPUT")
    with open(p, "w") as f:
        f.write(R.enc_listing(EM, CM, page=1 if what == "pages" else ch.free("rows per page", Z.some(n, [0, 50])), extra=False))
    for conn, M in ((False, EM), (True, CM)):
        got = ch.call("read_output", toughio.read_output, p, connection=conn)
        O.compare(ch, got, expect(M, 12, 5), conn, "connection table" if conn else "element table")
    ch.state((what, size))


def drivers(tier):
    return [Driver("long", long, 0, "many rows, steps, columns or pages", cpu=120), Driver("listing", listing, 2 if tier == "quick" else 3, "independently printed listings")]
