"""P16: the diff of two source files says, per language, what changed in its code, its comments and its blank lines."""
import vlib
from check import show, u
from gen import LANGS
from lcs import diff_counts, text_lines
from syntax import SYN
from vlib import Case, Crash, Skipped
from workload import well_formed, wild

RULE = ("an evaluation is one pair of source files whose delta list was compared with the exact diff of their accumulated texts per language, with the delta of each "
        "language taken alone, with the diff the other way round and of each file with itself; non-trivial: the contents differ")


def ops(la, a, lb, b):
    o = [("NEW", 0, "x"), ("CONT", 0, a), ("LANG", 0, la), ("NEW", 1, "y"), ("CONT", 1, b), ("LANG", 1, lb)]
    return o + [("DIFF", 0, 1), ("PARSE", 0), ("PARSE", 1), ("DIFF", 1, 0), ("DIFF", 0, 0), ("DIFF", 1, 1), ("LOC", 0), ("LOC", 1)]


def edit(r, d, lang):
    ls = d.splitlines(True) or [b""]
    for _ in range(r.choice([1, 1, 2, 5])):
        i = r.randrange(len(ls) + 1)
        w = r.choice([1, 1, 2, 6])
        k = r.random()
        if k < .3:
            del ls[i:i + w]
        elif k < .6:
            ls[i:i] = well_formed(r, lang).bytes.splitlines(True)[:w]
        elif k < .7:
            ls[i:i] = [b"\n"] * w
        elif k < .8:
            ls[i:i] = ls[max(0, i - w):i]
        elif k < .9:
            ls[i:i + 1] = [b"  " + x for x in ls[i:i + 1]]
        else:
            ls[i:i + w] = ls[i:i + w][::-1]
    return b"".join(ls)


def expect(pa, pb):
    """[[language, code +, code -, comments +, comments -, blanks +, blanks -]] of two accumulated lists."""
    fa = {x[0]: x for x in pa}
    fb = {x[0]: x for x in pb}
    out = []
    for l in list(fa) + [x for x in fb if x not in fa]:
        a, b = fa.get(l, [l, 0, 0, 0, "", ""]), fb.get(l, [l, 0, 0, 0, "", ""])
        n = b[3] - a[3]
        out.append([l, *diff_counts(u(a[4]), u(b[4])), *diff_counts(u(a[5]), u(b[5])), max(n, 0), max(-n, 0)])
    return out


def run(ck):
    exe = vlib.build("plain")["driver"]
    cases = []
    for lang in LANGS:
        r = ck.rng(lang)
        for i in range(ck.n(40, 300)):
            k = r.random()
            if k < .7:
                a = well_formed(r, lang).bytes
                b = edit(r, a, lang) if r.random() < .8 else well_formed(r, lang).bytes
            else:
                a, b = wild(r, lang)[1], wild(r, lang)[1]
            if r.random() < .05:
                b = b""
            if r.random() < .5:
                a, b = b, a
            lb = lang if r.random() < .9 else r.choice(LANGS)
            a, b = a[:60000], b[:60000]
            cases.append(Case(ops(lang, a, lb, b) + [("CDELTA", 0, 1, x) for x in r.sample(LANGS, 1) + [lang, "html", "javascript", "css"]], la=lang, lb=lb, a=a, b=b))
    r = ck.rng("large")
    for i in range(ck.n(12, 60)):     # over the size from which texts are compared on disk
        n = r.choice([4000, 9000, 14000])
        ls = [b"int v%d_%d;\n" % (j, r.randrange(99)) if r.random() < .6 else b"// note %d\n" % j if r.random() < .9 else b"\n" for j in range(n)]
        ms = [x for x in ls if r.random() > .001]
        for _ in range(r.randrange(4)):
            j = r.randrange(len(ms))
            ms[j:j] = [b"new_%d();\n" % r.randrange(10 ** 9), b"/* fresh %d */\n" % r.randrange(10 ** 9), b"\n"][:r.randrange(1, 4)]
        a, b = b"".join(ls), b"".join(ms)
        if r.random() < .2:
            a = b"int x;\n"
        if r.random() < .5:
            a, b = b, a
        ck.saw("large pairs")
        cases.append(Case(ops("c", a, "c", b) + [("CDELTA", 0, 1, x) for x in ("c", "html")], la="c", lb="c", a=a, b=b))
    for c, o in zip(cases, vlib.run_cases(exe, cases, san=False)):
        if isinstance(o, Skipped):
            continue
        m = c.meta
        if isinstance(o, Crash):
            ck.crash(o, c, m["la"])
            continue
        fwd, pa, pb, back, same0, same1 = o[6]["delta"], o[7]["pl"], o[8]["pl"], o[9]["delta"], o[10]["delta"], o[11]["delta"]
        want = expect(pa, pb)
        ck.evaluated((m["la"], m["lb"], m["a"], m["b"]), m["a"] != m["b"])
        ck.saw("languages compared", len(want))
        ck.saw("languages only in one file", len({x[0] for x in pa} ^ {x[0] for x in pb}))
        ck.saw("changed languages", sum(any(x[1:]) for x in want))
        n = lambda k, t: ck.violation(k, f"{t}; from {m['la']} {show(m['a'], 200)} to {m['lb']} {show(m['b'], 200)}", c.to_json(), len(m["a"]) + len(m["b"]))
        tot = [sum(x[i] for x in fwd) for i in range(1, 7)]
        net = [tot[0] - tot[1], tot[2] - tot[3], tot[4] - tot[5]]
        rev = {x[0]: [x[0], x[2], x[1], x[4], x[3], x[6], x[5]] for x in back}
        loc = lambda rec: {x[0]: x[1:4] for x in rec["loc"]}
        if fwd != want:
            i = next((i for i, (x, y) in enumerate(zip(fwd, want)) if x != y), min(len(fwd), len(want)))
            n("delta", f"delta {fwd[i:i + 1]} but {want[i:i + 1]} by the texts")
        elif o[6]["totals"] != tot + net + [sum(net)]:
            n("totals", f"totals {o[6]['totals']} of {fwd}")
        elif {x[0]: x for x in fwd} != rev:
            n("reverse", f"{fwd} one way, {back} the other")
        elif any(any(x[1:]) for x in same0 + same1):
            n("self", f"a file differs from itself: {same0} {same1}")
        else:
            by = {x[0]: x for x in want}
            for q, rec in zip(c.ops[14:], o[14:]):
                l = q[3]
                if rec["delta"] != by.get(l, [l] + [0] * 6):
                    n("one language", f"delta of {l} alone {rec['delta']}, in the diff {by.get(l)}")
            whole = lambda pl: all(len(text_lines(u(x[4]))) == x[1] and len(text_lines(u(x[5]))) == x[2] for x in pl)
            if whole(pa) and whole(pb):
                la, lb = loc(o[12]), loc(o[13])
                for x in fwd:
                    d = [q - p for p, q in zip(la.get(x[0], [0] * 3), lb.get(x[0], [0] * 3))]
                    ck.saw("nets compared with counts")
                    if [x[1] - x[2], x[3] - x[4], x[5] - x[6]] != d:
                        n("net", f"{x} but the counts changed by {d}")
            if len(want) > 1 and len(m["a"]) + len(m["b"]) < 150:
                ck.sample({"from": show(m["a"]), "to": show(m["b"]), "delta": fwd})
    ck.require("languages only in one file", 100)
    ck.require("nets compared with counts", 1000)
    ck.require("changed languages", 1000)

