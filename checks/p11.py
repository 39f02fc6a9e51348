"""P11: the accumulated text and the counts of a source file are those of its reported lines."""
import vlib
from check import show, u
from gen import LANGS
from vlib import Case, Crash, Skipped
from workload import huge, well_formed, wild

RULE = ("an evaluation is one document whose line events, accumulated code and comment text per language, counts and Loc list were all recorded; the text has to be "
        "the concatenation of the lines of that kind without their leading blanks, the counts the number of events, the languages in order of first appearance; "
        "non-trivial: at least two lines")


def ops(lang, d):
    return [("NEW", 0, "x"), ("CONT", 0, d), ("LANG", 0, lang), ("LINES", 0), ("PARSE", 0), ("LOC", 0), ("PARSE", 0), ("FREE", 0)]


def expect(d, ev):
    out = {}
    for l, k, s, e in ev:
        x = out.setdefault(l, [0, 0, 0, bytearray(), bytearray()])
        t = d[s:e].lstrip(b" \t")
        if k == "lcode":
            x[0] += 1
            x[3] += t
        elif k == "lcomment":
            x[1] += 1
            x[4] += t
        else:
            x[2] += 1
    return [[l, c, m, b, bytes(x), bytes(y)] for l, (c, m, b, x, y) in out.items()]


def run(ck):
    exe = vlib.build("plain")["driver"]
    cases = []
    for lang in LANGS:
        r = ck.rng(lang)
        for i in range(ck.n(60, 500)):
            v = r.random()
            if v < .45:
                d = well_formed(r, lang, nl=r.choice([b"\n"] * 4 + [b"\r\n", b"\r", b"\f"])).bytes
            else:
                d = wild(r, lang)[1]
            if r.random() < .05:
                d = d * r.choice([2, 7, 30])
            cases.append(Case(ops(lang, d), lang=lang, doc=d))
    # the accumulation limits: all code, all comment, one long line
    r = ck.rng("limits")
    for n in list(range(1, 40)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 100000, 300000] + [r.randrange(40, 9000) for _ in range(20)]:
        for nl in (b"\n", b"\r\n", b""):
            for t in (b"x" * n, b"//" + b"y" * n, b"x\n" * (n // 2), b"// c\n" * (n // 5), b" " * n + b"z"):
                if len(t) < 400000:
                    cases.append(Case(ops("c", t + nl), lang="c", doc=t + nl))
    for lang, d in huge(ck.rng("huge")):
        cases.append(Case(ops(lang, d), lang=lang, doc=d))
        ck.saw("documents over a megabyte")
    for c, o in zip(cases, vlib.run_cases(exe, cases, san=False, per_proc=200)):
        if isinstance(o, Skipped):
            continue
        lang, d = c.meta["lang"], c.meta["doc"]
        if isinstance(o, Crash):
            ck.crash(o, c, lang)
            continue
        ev = o[3]["ev"]
        want = expect(d, ev)
        got = [[x[0], x[1], x[2], x[3], u(x[4]), u(x[5])] for x in o[4]["pl"]]
        ck.evaluated((lang, d), len(ev) > 1)
        ck.saw("line events", len(ev))
        ck.saw("files of several languages", len(want) > 1)
        tot = [sum(x[i] for x in want) for i in (1, 2, 3)]
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            g, w = (got + [None])[i], (want + [None])[i]
            if g is None or w is None or g[0] != w[0]:
                k = "languages"
            else:
                k = "counts" if g[1:4] != w[1:4] else "code text" if g[4] != w[4] else "comment text"
            ck.violation(k, f"{lang}: {show(repr(g).encode(), 300)} but the lines say {show(repr(w).encode(), 300)}; document {show(d)}", c.to_json(), len(d))
        elif o[5]["loc"] != [[x[0], x[1], x[2], x[3], 1] for x in want]:
            ck.violation("loc", f"{lang}: Loc list {o[5]['loc']} but the lines say {[x[:4] for x in want]}; document {show(d)}", c.to_json(), len(d))
        elif o[5]["totals"] != tot + [sum(tot), len(want)]:
            ck.violation("totals", f"{lang}: totals {o[5]['totals']}, languages {o[5]['loc']}", c.to_json(), len(d))
        elif o[6]["pl"] != o[4]["pl"]:
            ck.violation("again", f"{lang}: asking again gives another answer; document {show(d)}", c.to_json(), len(d))
        elif len(want) > 1 and len(d) < 120:
            ck.sample({"language": lang, "document": show(d), "counts": [x[:4] for x in want]})
    ck.require("line events", 20000)
    ck.require("files of several languages", 300)
