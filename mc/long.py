"""Sizes around which implementations change regime (chunks, powers of two, widths of counters)."""


HUGE = [32769, 65537]


def sizes(tier, top=5001, huge=False):
    q = [10, 16, 17, 32, 33, 64, 65, 99, 100, 101, 128, 129, 255, 256, 257, 500, 512, 513, 999, 1000, 1001, 1024, 1025, 2048, 2049, 4097, 5001]
    t = q + [7, 8, 9, 15, 31, 63, 127, 200, 201, 250, 251, 511, 1023, 2000, 2001, 3000, 4095, 4096, 5000, 8193, 9999, 10000, 10001, 16385, 20001, 32767, 32768, 32769, 65535, 65536, 65537]
    q = sorted(n for n in (q if tier == "quick" else t) if n <= top)
    return q + [n for n in HUGE[: int(huge)] if n not in q]


def label(i, L=5):
    """A distinct name for every i; neither sorted nor all digits."""
    i = (i * 7919) % 1000003  # spread: names do not come in alphabetical order
    s = ""
    for _ in range(3):
        s += "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[i % 26]
        i //= 26
    return s + "{:2d}".format(i % 100) + "7" * (L - 5)


def labels(n, connection=False, L=5):
    l = [label(i, L) for i in range(n + 1)]
    return list(zip(l[:-1], l[1:])) if connection else l[:n]


def table(n, steps, names, connection=False, times=None, L=5):
    lab = labels(n, connection, L)
    M = []
    for s in range(steps):
        data = {k: [((i * 37 + j * 11 + s * 5) % 9973 + 1) * 0.375 * (1 if (i + j) % 3 else -1) for i in range(n)] for j, k in enumerate(names)}
        M.append((times[s] if times else 1.0e3 * (s + 1), lab, data))
    return M


def some(n, options):
    """All options, or the first one only when the size is huge."""
    return options if n < 20000 else options[:1]
