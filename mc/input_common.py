"""Three obligations shared by the input-deck properties, on any generated parameter dict."""
import copy

import toughio

from . import ref_input as R


def block_of(U):
    return "all"


def reads(ch, path, U, L, how=None):
    how = ch.choose("label_length", ["given", "auto"]) if how is None else how
    kw = {"label_length": L} if how == "given" else {}
    return ch.call("read_input", toughio.read_input, path, file_format="tough", **kw)


def ambiguous(U, L):
    """Is the length of the names detectable from the first record of every block?"""
    for k, v in (U.get("generators") or {}).items():
        n = v.get("name")
        n = (list(n)[0] if not isinstance(n, str) else n) if n is not None and len(n) else ""
        return bool(n) and str(n)[:1].isdigit()
    return False


def roundtrip(ch, U, L, block="all"):
    p = ch.path("deck")
    exp = R.expected(U, block, L)
    ch.call("write_input", toughio.write_input, p, copy.deepcopy(U), file_format="tough", block=block)
    got = reads(ch, p, U, L, None if not ambiguous(U, L) else "given")
    m = R.diff(exp, R.norm(got))
    ch.state(exp)
    ch.check(m is None, "write_input then read_input: {}", m)
    return got


def conform(ch, U, L, block="all"):
    p = ch.path("deck")
    exp = R.expected(U, block, L)
    ch.call("write_input", toughio.write_input, p, copy.deepcopy(U), file_format="tough", block=block)
    with open(p) as f:
        text = f.read()
    ch.check(text.endswith("\n") or block == "all" or text == "", "last record is not terminated")
    try:
        D = R.decode(text, L, R.n_values(U), have_title=block == "all")
    except R.Bad as e:
        ch.check(False, "the deck is not in the fixed-column format: {}", e)
    ch.state(exp)
    m = R.diff(exp, R.norm(D))
    ch.check(m is None, "columns of the written deck: {}", m)
    if block == "all":
        ch.check("ENDCY" in D["_blocks"], "ENDCY is missing")
        if "_nb" in D:
            ch.check(D["_nb"] == (8 if U.get("diffusion") is not None else 6), "MULTI: NB={} with diffusion={}", D["_nb"], U.get("diffusion"))
    return text


def reader(ch, U, L, style, block="all", order=None, scalar=False):
    exp = R.expected(U, block, L)
    text = R.encode(dict(exp, _scalar_step=scalar), style, L, R.n_values(U), order)
    # what the text says, exactly (the model is also checked against itself)
    said = R.norm(R.decode(text, L, R.n_values(U), have_title="title" in exp))
    if style.real != "fortran":
        assert R.diff(exp, said) is None, R.diff(exp, said)
    exp = said
    k = text.rfind("\nENDCY") + 1
    if k:
        # the decks may end with either word; what follows belongs to nobody
        if style.end == "ENDFI":
            text = text[:k] + "ENDFI" + text[k + 5 :]
        elif style.end:
            text = (text if text.endswith("\n") else text + "\n") + "some notes\n\nELEME----1----*\nOLD 1          ROCK1\n"
            if style.end == "ENDFI and text":
                text = text[:k] + "ENDFI" + text[k + 5 :]
    p = ch.path("deck")
    with open(p, "w") as f:
        f.write(text)
    got = reads(ch, p, U, L, "given" if ambiguous(U, L) or style.justify == "left" else None)
    m = R.diff(exp, R.norm(got))
    ch.state(exp)
    ch.check(m is None, "reading a conforming deck: {}", m)
    return got
