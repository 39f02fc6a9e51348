"""Longest common subsequence length of two lists of lines, bit-parallel (Hyyrö)."""


def lcs(a, b):
    if len(a) > len(b):
        a, b = b, a
    i, n, m = 0, len(a), len(b)
    while i < n and a[i] == b[i]:
        i += 1
    j = 0
    while j < n - i and a[n - 1 - j] == b[m - 1 - j]:
        j += 1
    a, b = a[i:n - j], b[i:m - j]
    if not a:
        return i + j
    pos = {}
    for k, x in enumerate(a):
        pos[x] = pos.get(x, 0) | 1 << k
    full = (1 << len(a)) - 1
    v = full
    for y in b:
        u = v & pos.get(y, 0)
        v = ((v + u) | (v - u)) & full
    return i + j + len(a) - bin(v).count("1")


def text_lines(t):
    """The lines a text diff compares: empty ones do not take part."""
    return [x for x in t.split(b"\n") if x]


def diff_counts(f, t):
    a, b = text_lines(f), text_lines(t)
    k = lcs(a, b)
    return len(b) - k, len(a) - k
