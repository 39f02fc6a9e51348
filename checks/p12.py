"""P12: an answer depends on the file alone, not on what was asked before or how often."""
import os

import vlib
from check import show
from gen import LANGS, corpus, mutate
from vlib import Case, Crash, Skipped
from workload import well_formed, wild

RULE = ("an evaluation is one answer (language, line events, entity events, accumulated text, counts, licences, delta) given late in a long history of other calls in "
        "one process, compared with the answer of a process that did nothing else; non-trivial: distinct questions")


SETUP = ("NEW", "FREE", "CONT", "DISK", "FNAMES", "LANG", "GETCONT")


def question(r, cor, wd, k):
    """Ops that ask about one file in registers 0 and 1, and how many of the records are answers."""
    name, d = r.choice(cor)
    v = r.random()
    setl = None
    if v < .35:
        d = mutate(r, d[:6000])
    elif v < .8:
        setl = r.choice(LANGS)
        d = well_formed(r, setl).bytes if r.random() < .6 else wild(r, setl)[1]
    else:
        d = d[:20000]
    d = d.replace(b"\0", b"")
    o, again = [("NEW", 0, name)], False
    if r.random() < .3:
        p = os.path.join(wd, f"q{k}_{name}")
        with open(p, "wb") as f:
            f.write(d)
        o.append(("DISK", 0, p))
    else:
        o.append(("CONT", 0, d))
        again = r.random() < .3
    if r.random() < .3:
        o.append(("FNAMES", 0, *r.sample(["foo.m", "a.cpp", "b.c", "x.vb", "y.frm", "z.pl"], r.randrange(4))))
    if setl:
        o.append(("LANG", 0, setl))
    ask = r.choice([["GETLANG"], ["LINES"], ["ENTS"], ["PARSE"], ["LOC"], ["LIC"], ["LINES", "ENTS", "LOC"], ["ENTS", "LINES", "PARSE"], ["LIC", "PARSE"], ["GETLANG", "LINES"], ["SIZE", "PARSE"], ["DIFF"]])
    for a in ask:
        if a == "DIFF":
            n2, d2 = r.choice(cor)
            o += [("NEW", 1, n2), ("CONT", 1, d2[:5000].replace(b"\0", b"")), ("DIFF", 0, 1), ("FREE", 1)]
        else:
            o.append((a, 0))
    o.append(("FREE", 0))
    plain = list(o)
    if again:
        # other contents set, and possibly looked at, before: they leave nothing behind
        e = r.choice([b"", b"x", d + b"int a;\n", d[:len(d) // 2], r.choice(cor)[1][:3000].replace(b"\0", b"")])
        at = next(i for i, x in enumerate(o) if x[0] == "CONT")
        o[at:at] = [("CONT", 0, e)] + r.choice([[], [("GETCONT", 0)]])
    return o, plain


def answers(recs):
    return [{k: v for k, v in x.items()} for x in recs]


def run(ck):
    exe = vlib.build("plain")["driver"]
    r = ck.rng("q")
    wd = vlib.scratch("p12")
    cor = corpus()
    qs, plain = map(list, zip(*[question(r, cor, wd, k) for k in range(ck.n(1500, 9000))]))
    # alone: each in a process of its own
    alone = vlib.run_cases(exe, [Case(q) for q in plain], san=False, per_proc=1, env={"MALLOC_PERTURB_": "0"})
    hist, where = [], []
    order = list(range(len(qs)))
    for rep in range(ck.n(6, 12)):
        r.shuffle(order)
        for i in range(0, len(order), 60):
            ops, w = [], []
            for q in order[i:i + 60]:
                again = r.choice([1, 1, 1, 2, 3])
                for _ in range(again):
                    w.append((q, len(ops), len(qs[q])))
                    ops += qs[q]
            hist.append(Case(ops))
            where.append(w)
    for c, w, o in zip(hist, where, vlib.run_cases(exe, hist, san=False, per_proc=4)):
        if isinstance(o, Skipped):
            continue
        if isinstance(o, Crash):
            ck.crash(o, c)
            continue
        for n, (q, at, ln) in enumerate(w):
            if isinstance(alone[q], (Crash, Skipped)):
                continue
            ck.evaluated(b"%d" % q)
            late = [g for g, op in zip(o[at:at + ln], qs[q]) if op[0] not in SETUP]
            first = [(g, op) for g, op in zip(alone[q], plain[q]) if op[0] not in SETUP]
            ck.saw("contents set twice", qs[q] != plain[q])
            for (x, op), g in zip(first, late):
                ck.saw(op[0])
                if x != g:
                    key = next((k for k in x if x[k] != g.get(k)), "?")
                    # keep only what came shortly before
                    small = [y for z in w[max(0, n - 3):n + 1] for y in qs[z[0]]]
                    ck.violation(f"{op[0]} {key}", f"after {n} other questions {op[0]} answers {show(repr(g.get(key)).encode(), 200)}, alone {show(repr(x.get(key)).encode(), 200)}; question {show(repr(qs[q]).encode(), 300)}",
                                 Case(small).to_json(), len(repr(small)))
                    break
        if len(ck.samples) < 3:
            ck.sample({"history": [list(map(lambda a: str(a)[:40], y)) for y in c.ops[:12]]})
    ck.require("contents set twice", 300)
    for k in ("LINES", "ENTS", "PARSE", "LOC", "LIC", "GETLANG", "DIFF"):
        ck.require(k, 300)

