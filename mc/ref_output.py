"""Independent encoders/decoders of simulator output files.

A model is a list of steps (time, labels, {name: [values]}); labels are strings or pairs of strings.
"""
import csv as _csv
import io


class F:
    """Fortran Ew.d, usable like a format string."""

    def __init__(self, w, d):
        self.w, self.d = w, d

    def format(self, x):
        return fort(float(x), self.w, self.d)

    def value(self, x):
        s = self.format(x).strip()
        return float(s if "E" in s or s == "NaN" else s[:-4] + "E" + s[-4:])

    def __repr__(self):
        return "E{}.{}".format(self.w, self.d)


def enc_csv(M, connection=False, timed=True, quote=True, pad=18, units=True, num="{:20.12E}"):
    names = list(M[0][2])
    q = lambda s: ('"{:>%d}"' % pad).format(s) if quote else s
    heads = (["ELEM1", "ELEM2"] if connection else ["ELEM"]) + names
    out = [",".join('"{:>{}}"'.format(h, pad) for h in heads), ",".join('"{:>{}}"'.format("(U)" if units else "", pad) for h in heads)]
    for t, labels, data in M:
        if timed:
            out.append('"TIME [sec]  {:.8E}"'.format(t))
        for i, lab in enumerate(labels):
            rec = [q(x) for x in (lab if connection else [lab])] + [num.format(data[k][i]) for k in names]
            out.append(",".join(rec))
    return "\n".join(out) + "\n"


def dec_csv(text):
    """Decode with the standard csv module."""
    rows = [[c.strip() for c in r] for r in _csv.reader(io.StringIO(text), skipinitialspace=True)]
    heads, units, rows = rows[0], rows[1], rows[2:]
    n = 2 if heads[0] == "ELEM1" else 1
    if n == 2 and heads[1] != "ELEM2" or n == 1 and heads[0] != "ELEM":
        raise ValueError("header {}".format(heads))
    if len(units) != len(heads):
        raise ValueError("{} units for {} columns".format(len(units), len(heads)))
    M = []
    for r in rows:
        if len(r) == 1 and r[0].startswith("TIME"):
            M.append((float(r[0].split()[-1]), [], {h: [] for h in heads[n:]}))
            continue
        if len(r) != len(heads):
            raise ValueError("row of {} cells for {} columns".format(len(r), len(heads)))
        M[-1][1].append(r[0] if n == 1 else (r[0], r[1]))
        for h, v in zip(heads[n:], r[n:]):
            M[-1][2][h].append(float(v))
    return M


def enc_petrasim(M, num="{:20.12E}", pad=18):
    names = list(M[0][2])
    out = [",".join("{:>{}}".format(h, pad) for h in ["TIME [sec]", "ELEM", "INDEX"] + names)]
    for t, labels, data in M:
        for i, lab in enumerate(labels):
            out.append(",".join([num.format(t), "{:>{}}".format(lab, pad), "{:20d}".format(i + 1)] + [num.format(data[k][i]) for k in names]))
    return "\n".join(out) + "\n"


def dec_petrasim(text):
    rows = [[c.strip() for c in r.split(",")] for r in text.splitlines() if r.strip()]
    heads, rows = rows[0], rows[1:]
    if heads[0].split()[0] != "TIME" or heads[1:3] != ["ELEM", "INDEX"]:
        raise ValueError("header {}".format(heads))
    M = []
    for r in rows:
        if len(r) != len(heads):
            raise ValueError("row of {} cells for {} columns".format(len(r), len(heads)))
        t = float(r[0])
        if not M or M[-1][0] != t:
            M.append((t, [], {h: [] for h in heads[3:]}))
        M[-1][1].append(r[1])
        if int(r[2]) != len(M[-1][1]):
            raise ValueError("INDEX {} at row {}".format(r[2], len(M[-1][1])))
        for h, v in zip(heads[3:], r[3:]):
            M[-1][2][h].append(float(v))
    return M


def enc_tecplot(M, quoted=False, title=False, lower=False, zone=0, num="{:20.12E}"):
    names = list(M[0][2])
    out = ['TITLE = "run"'] if title else []
    if quoted:
        out.append("VARIABLES = " + ", ".join('"{}"'.format(n) for n in names))
    else:
        out.append("{:>18}".format("VARIABLES       =") + "".join(" {:>17}".format(n) for n in names))
    for t, labels, data in M:
        n = len(data[names[0]])
        out.append([' ZONE T="{:14.7E} SEC"  I = {:8d}', 'ZONE T="{:.7E} SEC", I={}', 'ZONE I = {1}, T = "{0:.7E}"'][zone].format(t, n))
        for i in range(n):
            out.append(" " * 18 + " ".join(num.format(data[k][i]) for k in names))
    return "\n".join(out) + "\n"


def dec_tecplot(text):
    lines = text.splitlines()
    if lines[0].split()[:2] != ["VARIABLES", "="]:
        raise ValueError("header {}".format(lines[0]))
    names = lines[0].split("=")[1].split()
    M = []
    for ln in lines[1:]:
        s = ln.strip()
        if s.startswith("ZONE"):
            t = float(s.split('"')[1].split()[0])
            n = int(s.split("I =")[1])
            M.append((t, n, {k: [] for k in names}))
        else:
            v = s.split()
            if len(v) != len(names):
                raise ValueError("row of {} cells for {} variables".format(len(v), len(names)))
            for k, x in zip(names, v):
                M[-1][2][k].append(float(x))
    for t, n, d in M:
        if len(d[names[0]]) != n:
            raise ValueError("zone of {} rows announces I = {}".format(len(d[names[0]]), n))
    return M


# -- standard listing ---------------------------------------------------------


def fort(x, w, d, zero=True):
    """Fortran Ew.d edit descriptor (leading 0 dropped when the field is too short, always by some compilers)."""
    import math

    if x != x:
        return "NaN".rjust(w)
    if x == 0:
        m, e = 0.0, 0
    else:
        s = "{:.{}e}".format(abs(x), d - 1)
        m, e = s.split("e")
        m, e = float(m) / 10, int(e) + 1
    digits = "{:.{}f}".format(m, d)
    neg = "-" if math.copysign(1, x) < 0 and x != 0 else ""
    ex = "E{:+03d}".format(e) if abs(e) < 100 else "{:+04d}".format(e)
    s = neg + digits + ex
    if (len(s) > w or not zero) and digits.startswith("0."):
        s = neg + digits[1:] + ex
    return s.rjust(w) if len(s) <= w else "*" * w


LINE = "@" * 90


def enc_listing(EM, CM, L=5, iw=6, w=12, d=5, page=0, head="tough2", units=True, blank_after=True, order="ec", extra=True, indent=0, zero=True):
    """EM/CM: element / connection models (same times) or None."""
    out = ["", "@@@@@@@@@@ " + "TOUGH LISTING"] if head == "blank" else (["1      @@@@@@@@@@", "some text"] if head == "tough2" else None)
    out += [" ", "  MESH HAS {} ELEMENTS".format(len(EM[0][1]) if EM else 0), ""]
    num = lambda v: fort(v, w, d, zero)

    def table(labels, data, conn):
        names = list(data)
        rows = []

        def heads():
            h = (" ELEM1  ELEM2  INDEX" if conn else " ELEM.  INDEX")
            h += "".join("{:>{}}".format(n, w) for n in (" " + n for n in names))
            r = [h]
            if units:
                r.append(" " * (20 if conn else 14) + "".join("{:>{}}".format("(PA)", w) for n in names))
            if blank_after:
                r.append("")
            return r

        rows += heads()
        for i, lab in enumerate(labels):
            if page and i and i % page == 0:
                rows += [""] + heads()
            t = (" " + lab[0].ljust(L) + "  " + lab[1].ljust(L)) if conn else (" " + lab.ljust(L))
            rows.append(t + "{:{}d}".format(i + 1, iw) + "".join(num(data[n][i]) for n in names))
        rows = [" " * indent + r if r else r for r in rows]
        rows += ["", " " + LINE]
        return rows

    steps = EM or CM
    for s in range(len(steps)):
        t = steps[s][0]
        out += ["", "          OUTPUT DATA AFTER (  {},  3)-2-TIME STEPS".format(s + 1), "", " " + LINE, ""]
        out += [" TOTAL TIME     KCYC   ITER  ITERC   KON            DX1M        DX2M        DX3M         MAX. RES.       NER          KER         DELTEX"]
        out += [fort(t, 12, 5) + "       {}      3      3     2     0.12345E+03 0.1E+01 0.00000E+00   0.123E-09          1            2       0.1E+01".format(s + 1)]
        out += [" " + LINE, ""]
        parts = []
        if EM:
            parts.append(table(EM[s][1], EM[s][2], False))
        if CM:
            parts.append(table(CM[s][1], CM[s][2], True))
        for p in parts:
            out += p + [""]
        if extra:
            out += [" ELEMENT SOURCE INDEX      GENERATION RATE     ENTHALPY", "                            (KG/S) OR (W)      (J/KG)", "", " {}  XXX 1     1     0.10000E+01 0.20000E+01".format("AAA 0"), "", " " + LINE, ""]
    out += [" END OF TOUGH SIMULATION RUN"]
    return "\n".join(out) + "\n"
