"""Cell labels: valid, unique, stable, of the requested length."""
import numpy as np
import toughio

from ..engine import Driver
from ..mesh_file import label

ASSUMPTIONS = ["a requested label length is one whose 3185000*10^(L-5) labels suffice for the cells"]


def mesh(n):
    return toughio.Mesh(np.zeros((1, 3)), [("vertex", np.zeros((n, 1), dtype=int))])


SIZES = [0, 1, 2, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 3499, 3500, 3501, 9999, 10000, 10001, 122499, 122500, 122501, 350000, 350001]


def sizes(ch):
    n = ch.free("cells", SIZES)
    L = ch.free("label length", [None, 5, 6, 7, 8, 9])
    m = mesh(n)
    earlier = ch.choose("length used before", [None, 5, 7])
    if earlier:
        m.label_length = earlier
        ch.call("labels", lambda: m.labels)
    m.label_length = L
    lab = ch.call("labels", lambda: m.labels)
    ch.check(len(lab) == n, "{} labels for {} cells", len(lab), n)
    k = L or 5
    lab = [str(x) for x in lab]
    ch.check(len(set(lab)) == n, "labels are not unique")
    idx = range(n) if n < 20000 else list(range(0, 5000)) + list(range(5000, n, 97)) + list(range(max(0, n - 5000), n))
    for i in idx:
        if lab[i] != label(i, k):
            ch.check(False, "label {} of {} is {!r} instead of {!r}", i, n, lab[i], label(i, k))
    ch.validated(len(idx))
    ch.state((n, L, lab[-1:]))


def full(ch):
    """The whole range of five-character labels, and the first mesh that needs six."""
    n = ch.free("cells", [3185000, 3185001])
    lab = ch.call("labels", lambda: mesh(n).labels)
    k = 5 if n == 3185000 else 6
    ch.check(len(lab) == n and lab.dtype.itemsize == 4 * k, "{} labels of type {} for {} cells", len(lab), lab.dtype, n)
    b = np.ascontiguousarray(lab).view(np.uint32).reshape(n, k)
    i = np.arange(n)
    A = np.array([ord(c) for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ"])
    N = np.array([ord(c) for c in "123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"])
    w = 10 ** (k - 3)
    want = [A[i // (w * 35 * 35) % 26], N[i // (w * 35) % 35], N[i // w % 35]] + [48 + i // 10 ** d % 10 for d in range(k - 4, -1, -1)]
    for c in range(k):
        bad = np.nonzero(b[:, c] != want[c])[0]
        ch.check(len(bad) == 0, "label {} of {} is {!r}", bad[:1], n, lab[bad[:1]])
    code = np.zeros(n, dtype=np.int64)
    for c in range(k):
        code = code * 128 + b[:, c]
    ch.check(len(np.unique(code)) == n, "labels are not unique")
    ch.state((n, lab[-1]))


def drivers(tier):
    return [Driver("sizes", sizes, 1, what="cell counts around every carry x label length x length used before"),
            Driver("full", full, 0, what="all 3 185 000 labels of five characters; the switch to six")]
