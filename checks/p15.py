"""P15: a text diff counts the fewest lines that have to be added and removed."""
import os
import glob

import vlib
from check import show
from lcs import diff_counts, lcs
from gen import corpus
from vlib import Case, Crash, Skipped

RULE = ("an evaluation is one pair of texts whose diff was compared with the exact longest common subsequence of their non-empty lines (texts over 100000 bytes: with "
        "the edit that made one from the other); non-trivial: the texts differ")


def word(r, v):
    k = r.random()
    if k < .8:
        return b"%d" % r.randrange(v)
    if k < .9:   # lines alike in everything but order, length or one byte
        s = list(b"abcdab")
        r.shuffle(s)
        return bytes(s)
    if k < .95:
        return b"x" * r.choice([1, 2, 3, 31, 32, 33, 255, 256, 257, 4000]) + r.choice([b"", b"y", b" "])
    return r.choice([b" ", b"\t", b"\r", b"a\r", b"a", b"a ", b" a", b"\x01", b"\xff", b"\xff\xff", b"--", b"<", b">", b"\\ No newline at end of file"])


def edit(r, a, v, n):
    b = list(a)
    for _ in range(n):
        k, i = r.random(), r.randrange(len(b) + 1)
        w = r.choice([1, 1, 1, 2, 5, 20])
        if k < .35:
            b[i:i] = [word(r, v) for _ in range(w)]
        elif k < .65:
            del b[i:i + w]
        elif k < .8:
            b[i:i + w] = [word(r, v) for _ in range(w)]
        elif k < .9:   # move
            x = b[i:i + w]
            del b[i:i + w]
            j = r.randrange(len(b) + 1)
            b[j:j] = x
        else:
            b[i:i] = b[max(0, i - w):i]
    return b


def pair(r):
    v = r.choice([1, 2, 3, 5, 10, 30, 1000, 10 ** 9])
    n = r.choice([0, 1, 2, 3, 4, 5, 8, 8, 16, 16, 31, 32, 33, 64, 120, 300])
    a = [word(r, v) for _ in range(n)]
    k = r.random()
    if k < .5:
        b = edit(r, a, v, r.choice([0, 1, 1, 2, 3, 10]))
    elif k < .85:
        b = [word(r, v) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 16, 40, 120]))]
    elif k < .92:
        b = a[::-1]
    else:
        b = sorted(a)
    if r.random() < .5:
        a, b = b, a
    return a, b


def text(r, ls):
    s = b"\n".join(ls)
    k = r.random()
    if k < .7 and ls:
        s += b"\n"
    if k > .9:
        s = s.replace(b"\n", b"\n" * r.choice([2, 3]), r.choice([1, 5, -1]))
    if k > .97:
        s = b"\n" + s
    return s


def big_pair(r):
    """Texts over the size from which they are compared on disk; (from, to, added, removed) by construction."""
    n = r.choice([9000, 14000])
    a = [b"line %d %d %s" % (i, r.randrange(10 ** 6), b"z" * r.choice([0, 3, 20])) for i in range(n)]
    if r.random() < .3:
        a[r.randrange(n)] = b"L" * r.choice([9997, 9998, 9999, 10000, 20001, 120000])
    if r.random() < .3:
        a[r.randrange(n)] = r.choice([b"> greater", b"< less", b"'quote' $(x)", b"---", b"5c5"])
    b, added, removed, i = [], 0, 0, 0
    at = sorted(r.sample(range(n), r.choice([0, 1, 2, 8])))
    for j, p in enumerate(at):
        b += a[i:p]
        i = p
        nxt = at[j + 1] if j + 1 < len(at) else n
        k, w = r.random(), r.choice([1, 1, 3, 50])
        w = min(w, nxt - p)
        if k < .66:   # remove w
            i += w
            removed += w
        if k > .33:
            for _ in range(w):
                b.append(r.choice([b"new %d" % r.randrange(10 ** 9), b"N%d" % r.randrange(10 ** 9) + b"L" * r.choice([9997, 9998, 9999, 10000, 30000]), b"> %d" % r.randrange(10 ** 9), b"< %d" % r.randrange(10 ** 9), b"%d " % r.randrange(10 ** 9) + r.choice([b"<", b">"]) * r.choice([9999, 20000, 40000])]))
                added += 1
    b += a[i:]
    f, t = b"\n".join(a) + b"\n", b"\n".join(b) + b"\n"
    if r.random() < .5:
        return t, f, removed, added
    return f, t, added, removed


def run(ck):
    exe = vlib.build("plain")["driver"]
    cases = []
    r = ck.rng("pairs")
    for _ in range(ck.n(12000, 120000)):
        a, b = pair(r)
        f, t = text(r, a), text(r, b)
        cases.append(Case([("CDIFF", f, t)], f=f, t=t, want=diff_counts(f, t)))
    # every pair of short texts over few lines
    alpha = [b"a", b"b", b"c"]
    words = [[]]
    short = [[]]
    for _ in range(ck.n(4, 5)):
        words = [w + [x] for w in words for x in alpha]
        short += words
    pick = short if ck.tier == "thorough" else short[:40] + r.sample(short[40:], 60)
    for a in short:
        for b in (pick if len(a) > 1 else short):
            f, t = b"".join(x + b"\n" for x in a), b"".join(x + b"\n" for x in b)
            cases.append(Case([("CDIFF", f, t)], f=f, t=t, want=diff_counts(f, t)))
    # real sources, mutated by lines
    cor = [d for _, d in corpus()]
    for _ in range(ck.n(400, 4000)):
        a = r.choice(cor).replace(b"\0", b"").split(b"\n")
        b = edit(r, a, 1000, r.choice([1, 3, 10])) if r.random() < .7 else r.choice(cor).replace(b"\0", b"").split(b"\n")
        f, t = b"\n".join(a), b"\n".join(b)
        if len(f) < 99000 and len(t) < 99000:
            cases.append(Case([("CDIFF", f, t)], f=f, t=t, want=diff_counts(f, t)))
    # about as large as is compared in memory
    for n in (99990, 100000):
        ls = [b"%d" % i for i in range(16000)]
        f = b"\n".join(ls)[:n - 1] + b"\n"
        t = b"\n".join(edit(r, ls, 10 ** 6, 8))[:n - 1] + b"\n"
        cases.append(Case([("CDIFF", f, t)], f=f, t=t, want=diff_counts(f, t)))
    before = set(glob.glob("/tmp/ohcount_diff_*"))
    ndisk = ck.n(60, 400)
    for _ in range(ndisk):
        f, t, ad, rm = big_pair(r)
        cases.append(Case([("CDIFF", f, t)], f=f, t=t, want=(ad, rm), disk=1))
    for _ in range(ck.n(6, 30)):   # one side small
        f, t, ad, rm = big_pair(r)
        s = b"\n".join(f.split(b"\n")[:3]) + b"\n"
        a, b = (s, f) if r.random() < .5 else (f, s)
        cases.append(Case([("CDIFF", a, b)], f=a, t=b, want=diff_counts(a, b), disk=1))
        cases.append(Case([("CDIFF", b"", f)], f=b"", t=f, want=diff_counts(b"", f), disk=1))
    for c, o in zip(cases, vlib.run_cases(exe, cases, san=False)):
        if isinstance(o, Skipped):
            continue
        f, t = c.meta["f"], c.meta["t"]
        if isinstance(o, Crash):
            ck.crash(o, c)
            continue
        ck.evaluated((f, t), f != t)
        ck.saw("on disk" if c.meta.get("disk") else "in memory")
        if c.meta["want"][0] and c.meta["want"][1]:
            ck.saw("both added and removed")
        g = (o[0]["added"], o[0]["removed"])
        if g != c.meta["want"]:
            j = {"ops": [["CDIFF", f.decode("latin-1"), t.decode("latin-1")]]} if len(f) + len(t) < 50000 else {"ops": "texts of %d and %d bytes" % (len(f), len(t))}
            ck.violation("disk" if c.meta.get("disk") else "memory", f"from {show(f, 200)} to {show(t, 200)}: added, removed = {g}, the fewest are {c.meta['want']}", j, len(f) + len(t))
        elif 2 < len(f) < 30 and 2 < len(t) < 30:
            ck.sample({"from": show(f), "to": show(t), "added, removed": g})
    ck.require("in memory", 10000)
    ck.require("on disk", 40)
    ck.require("both added and removed", 3000)
