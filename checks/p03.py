"""P03: any order of API calls leaves nothing behind: no use after free, no double free, no leak, no open descriptor, no temporary file."""
import os

import vlib
from check import ops_of, show
from gen import LANGS, corpus, mutate, soup
from vlib import Case, Crash, Skipped

RULE = ("a case is a random history of API calls on up to three source files, file lists, counts and deltas (in memory and on disk, with "
        "languages set, changed and detected), everything freed at the end, under AddressSanitizer with a leak check and a count of open "
        "descriptors and of temporary files after every history; non-trivial: distinct histories of at least six calls")

CALLS = ["LINES", "ENTS", "PARSE", "LOC", "LIC", "GETLANG", "GETCONT", "DIFF", "CDELTA", "CONT", "LANG", "DETECT", "NOCB", "CDIFF", "DISK"]


def history(r, cor, wd, k):
    o = []
    nfile = r.choice([2, 2, 3])
    for i in range(nfile):
        name, d = r.choice(cor) if i == 0 or r.random() < .4 else (name, d)
        m = mutate(r, d[:5000])
        disk = os.path.join(wd, f"{k}_{i}_" + name)
        v = r.random()
        if v < .25:
            if r.random() < .15:
                m = m[:40] + b"\0" + m[40:]
            o += [("WRITE", disk, m), ("NEW", i, disk)]
        elif v < .4:
            o += [("WRITE", disk, m), ("NEW", i, name), ("DISK", i, disk)]
        elif v < .46:
            o += [("NEW", i, disk + ".missing" + os.path.splitext(name)[1])]
        else:
            o += [("NEW", i, name), ("CONT", i, m)]
    for _ in range(r.randrange(1, 12)):
        x = r.choice(CALLS) if r.random() < .996 else "DIFF!"
        i = r.randrange(nfile)
        if x == "CONT":
            o.append((x, i, mutate(r, r.choice(cor)[1][:2000])))
        elif x == "DIFF!":
            o += [("CONT", i, mutate(r, d[:300]) + b"x = 1;\n" * 14400), ("DIFF", i, (i + 1) % nfile)]
        elif x == "DISK":
            disk = os.path.join(wd, f"{k}_o{r.randrange(3)}.c")
            o += [("WRITE", disk, mutate(r, d[:500])), (x, i, disk)]
        elif x == "LANG":
            o.append((x, i, r.choice(LANGS)))
        elif x == "DIFF":
            o.append((x, i, (i + r.randrange(1, nfile)) % nfile))
        elif x == "CDELTA":
            o.append((x, i, (i + 1) % nfile, r.choice(LANGS)))
        elif x == "NOCB":
            o.append((x, i, r.randrange(2)))
        elif x == "CDIFF":
            a, b = mutate(r, b"a\nb\nc\nd\n"), mutate(r, b"a\nb\nc\ne\n")
            if r.random() < .15:   # compared on disk
                a, b = r.sample([a + b"line\n" * 21000, b + b"line\n" * r.choice([0, 21000])], 2)
            o.append((x, a, b))
        else:
            o.append((x, i))
    for i in range(nfile):
        o.append(("FREE", i))
    if r.random() < .3:  # file lists
        o.append(("LNEW", 0))
        for i in range(r.randrange(0, 5)):
            p = os.path.join(wd, f"{k}_l{i}_" + r.choice(cor)[0])
            o += [("WRITE", p, mutate(r, r.choice(cor)[1][:1500])), ("LFILE", 0, p)]
        if r.random() < .3:
            o.append(("LFILE", 0, os.path.join(wd, "missing.c")))
        if r.random() < .4:
            dd = os.path.join(wd, f"d{k}")
            os.makedirs(os.path.join(dd, "sub", ".hid"))
            for i in range(r.randrange(0, 4)):
                with open(os.path.join(dd, r.choice(["", "sub", "sub/.hid"]), f"f{i}." + r.choice(["c", "h", "py", "png", "m"])), "wb") as f:
                    f.write(soup(r, 20).replace(b"\0", b""))
            o.append(("LDIR", 0, dd))
        for _ in range(r.randrange(0, 3)):
            o.append((r.choice(["LANA", "LLOC", "LDUMP"]), 0))
        o.append(("LFREE", 0))
    if r.random() < .3:  # counts
        o += [("OLNEW", 0), ("OLNEW", 1)]
        for _ in range(r.randrange(0, 6)):
            o.append(("OLADD", r.randrange(2), r.choice(["c", "ruby", "java"]), r.randrange(9), r.randrange(9), r.randrange(9), 1))
        o += [("OLADDL", 0, 1), ("OLCOMPACT", 2, 0), ("OLGET", 0, "c"), ("OLDUMP", 2), ("OLFREE", 2), ("OLFREE", 1), ("OLFREE", 0)]
    if r.random() < .3:
        o += [("DLNEW", 0), ("DLNEW", 1)]
        for _ in range(r.randrange(0, 6)):
            o.append(("DLADD", r.randrange(2), r.choice(["c", "ruby", "java"]), *[r.randrange(4) for _ in range(6)]))
        o += [("DLADDL", 0, 1), ("DLCOMPACT", 2, 0), ("DLGET", 0, "c"), ("DLDUMP", 2), ("DLFREE", 2), ("DLFREE", 1), ("DLFREE", 0)]
    o += [("FDS",), ("LEAK",)]
    return Case(o)


def run(ck):
    exe = vlib.build("asan")["driver"]
    r = ck.rng("gen")
    cor = corpus()
    wd = vlib.scratch("p03")
    cases = [history(r, cor, wd, k) for k in range(ck.n(5000, 40000))]
    base = None
    for c, o in zip(cases, vlib.run_cases(exe, cases, per_proc=60)):
        if isinstance(o, Skipped):
            continue
        ck.evaluated(repr(c.ops).encode(), len(c.ops) >= 6)
        if isinstance(o, Crash):
            ck.crash(o, c)
            continue
        for x in o:
            ck.saw(x["op"])
        fds = ops_of(o, "FDS")["fds"]
        base = fds if base is None else base
        if fds != base:
            ck.violation("open descriptors", f"{fds} descriptors after a history that freed everything, {base} after another: {[x[0] for x in c.ops]}", c.to_json())
        ck.saw("leak checks")
        ck.saw("temporary files", ops_of(o, "FDS")["temps"])
        if ops_of(o, "FDS")["left"]:
            ck.violation("temporary files", f"{ops_of(o, 'FDS')['left']} temporary files left after a history that freed everything: {[x[0] for x in c.ops]}", c.to_json())
        if len(c.ops) < 14:
            ck.sample([[x[0]] + [show(vlib.b(a), 24) for a in x[1:]] for x in c.ops])
    ck.require("leak checks", 500)
    ck.require("DIFF", 200)
    ck.require("LIC", 200)
    ck.assumptions.append("a leak is memory unreachable at the end of a history, as LeakSanitizer sees it")
