"""P26: the Ruby objects say what the library says, for as long as they are held."""
import os

import vlib
from check import show
from detect import EXT
from gen import LANGS, corpus
from p17 import choose, document
from vlib import Case, Crash, Skipped
from workload import well_formed, wild

RULE = ("an evaluation is one history of calls on Ruby objects over source files and lists, with collections, compactions, allocations and dropped owners between the calls, under AddressSanitizer or with GC after "
        "every allocation; each answer has to be that of the C library for the same file, also when asked later and through parts held on to; non-trivial: distinct histories")
LANGEXT = {}
for _e, _v in sorted(EXT.items()):
    if _v and not _v.startswith("?"):
        LANGEXT.setdefault(_v, []).append(_e)


def spec(r, cor, i):
    """(path, contents, names or None)"""
    k = r.random()
    names = None
    if k < .3:
        lang = r.choice(sorted(LANGEXT))
        d = well_formed(r, lang).bytes
        path = "f%d." % i + r.choice(LANGEXT[lang])
    elif k < .5:
        n, d = r.choice(cor)
        path = n
    elif k < .6:
        lang, d = document(r, choose(r))
        path = "l%d." % i + r.choice(LANGEXT.get(lang, ["c"]))
    elif k < .7:
        lang = r.choice(sorted(LANGEXT))
        d = wild(r, lang)[1]
        path = "w." + r.choice(LANGEXT[lang])
    elif k < .85:
        path = r.choice(["a/b/foo.m", "foo.m", "Foo.M", "x.h", "f.b", "f.bas", "f.bi", "a.bas"])
        d = r.choice([b"x = 1\n", b"\n", b"% c\nx = [1 2];\n", b"' c\n Dim x\n", b"int a;\n", b"class X {};\n"])
        base = path.rsplit("/", 1)[-1].rsplit(".", 1)[0]
        names = [r.choice([base + ".h", base, "other.h", "x.frm", "y.frx", "z.vbp", "w.vb", "v.cls", "u.m", "", "a very long file name in the same directory, number %d.c" % r.randrange(10 ** 9)])
                 for _ in range(r.choice([0, 1, 2, 3, 8, 40]))]
    else:
        path = r.choice(["README", "x.png", "noext", "e.c", "é.py", "Makefile", "a.html"])
        d = r.choice([b"", b"\n", b"x", b"#!/bin/sh\necho\n", b"-*- ruby -*-\n", b"<script>\nvar x;\n</script>\n", "héé\n".encode(), b"\xff\xfe\n"])
    if r.random() < .3 and names is None:
        names = ["n%d.c" % j for j in range(r.randrange(4))]
    return path.encode("utf-8") if not isinstance(path, bytes) else path, d.replace(b"\0", b"")[:20000], None if names is None else [n.encode() for n in names]


def nl(names):
    return b"\0".join(names) + b"\0" if names else b""


def c_case(s):
    path, d, names = s
    return Case([("NEW", 0, path), ("CONT", 0, d)] + ([("FNAMES", 0, *names)] if names else []) + [("GETCONT", 0), ("GETLANG", 0), ("PARSE", 0), ("LOC", 0), ("LIC", 0)], spec=s)


def disturb(r, gc):
    """Operations that change nothing."""
    k = r.random()
    if k < .35:
        return []
    if not gc:
        return [("JUNK", 10)]
    return [("JUNK", r.choice([50, 500]))] if k < .5 else [("GC",), ("JUNK", 300)] if k < .75 else [("COMPACT",), ("JUNK", 300)] if k < .85 else [("GC",)]


def run(ck):
    plain = vlib.build("plain")["driver"]
    rubies = [("asan", vlib.build_ruby("asan")), ("plain", vlib.build_ruby("plain"))]
    cor = corpus()
    r = ck.rng("specs")
    specs = [spec(r, cor, i) for i in range(ck.n(900, 6000))]
    facts = []
    for c, o in zip([None] * len(specs), vlib.run_cases(plain, [c_case(s) for s in specs], san=False)):
        facts.append(o if isinstance(o, list) else None)
    ok = [i for i, f in enumerate(facts) if f is not None]

    def fact(i, op):
        return next(q for q in facts[i] if q["op"] == op)

    pairs = {}
    todo = sorted({(r.choice(ok), r.choice(ok)) for _ in range(len(specs))})
    dc = []
    for a, b in todo:
        o = []
        for slot, i in ((0, a), (1, b)):
            p, d, names = specs[i]
            o += [("NEW", slot, p), ("CONT", slot, d)] + ([("FNAMES", slot, *names)] if names else [])
        dc.append(Case(o + [("DIFF", 0, 1)]))
    for k, o in zip(todo, vlib.run_cases(plain, dc, san=False)):
        if isinstance(o, list):
            pairs[k] = [x[:7] for x in next(q["delta"] for q in o if q["op"] == "DIFF")]
    by_a = {}
    for a, b in sorted(pairs):
        by_a.setdefault(a, []).append(b)

    # a directory tree and what the C library says of it
    wd = vlib.scratch("p26").encode()
    lists, lc = [], []
    for k in range(ck.n(24, 120)):
        base = os.path.join(wd, b"t%d" % k)
        os.makedirs(os.path.join(base, b"sub"))
        fs = []
        for j in range(r.choice([0, 1, 3, 8])):
            p, d, _ = specs[r.choice(ok)]
            f = os.path.join(base, r.choice([b"", b"sub"]), b"%d_" % j + p.replace(b"/", b"_"))
            with open(f, "wb") as h:
                h.write(d)
            fs.append(f)
        arg = [b"p" + base] if r.random() < .7 else []
        if not arg or r.random() < .4:
            arg += [b"f" + f for f in (r.sample(fs, r.randrange(len(fs) + 1)) if fs else [])] + ([b"f" + base + b"/missing.c"] if r.random() < .3 else [])
        add = [b"f" + r.choice(fs)] if fs and r.random() < .5 else [b"p" + base] if r.random() < .2 else []
        o = [("LNEW", 0)] + [("LDIR" if x[:1] == b"p" else "LFILE", 0, x[1:]) for x in [x for x in arg if x[:1] == b"p"] + [x for x in arg if x[:1] == b"f"] + add]
        lists.append((arg, add, fs + [base + b"/missing.c"]))
        o += [("LDUMP", 0), ("LLOC", 0), ("LANA", 0), ("LFREE", 0)]
        for i, f in enumerate(fs + [base + b"/missing.c"]):
            o += [("NEW", 0, f), ("GETLANG", 0), ("PARSE", 0), ("LOC", 0), ("FREE", 0)]
        lc.append(Case(o))
    lfacts = []
    for (arg, add, fs), o in zip(lists, vlib.run_cases(plain, lc, san=False)):
        if not isinstance(o, list):
            lfacts.append(None)
            continue
        lang, pl, loc = ([q for q in o if q["op"] == x] for x in ("GETLANG", "PARSE", "LOC"))
        per = {f.decode("latin-1"): (lang[i]["lang"], pl[i]["pl"], loc[i]["loc"]) for i, f in enumerate(fs)}
        lfacts.append((next(q["files"] for q in o if q["op"] == "LDUMP"), per, next(q for q in o if q["op"] == "LANA")))
    lok = [i for i, f in enumerate(lfacts) if f]

    def loc6(x):
        return [*x[:5], x[1] + x[2] + x[3]]

    for variant, rb in rubies:
        r = ck.rng("histories", variant)
        cases = []
        for k in range(ck.n(2000 if variant == "asan" else 700, 16000 if variant == "asan" else 3000)):
            stress = variant == "plain" and k % 25 == 0
            ops, want, slots, held, used = [], [], {}, {}, set()

            def do(op, w=None):
                ops.append(op)
                want.append(w)
            if stress:
                do(("STRESS", 1))
            for step in range(r.choice([3, 6, 12, 25]) if not stress else 4):
                q = r.random()
                if q < .25 or not slots:
                    s = "s%d" % r.randrange(4)
                    i = r.choice(ok)
                    p, d, names = specs[i]
                    how = r.random()
                    if how < .6:
                        opt = [b"c" + d]
                        if names is not None:
                            opt += [b"n" + x for x in names] or [b"N"]
                        do(("SF", s, p, *opt))
                    elif how < .85:
                        do(("SF", s, p))
                        do(("SETC", s, d))
                        if names is not None:
                            if r.random() < .3:
                                do(("SETN", s, "before.c", "that.h"))
                            do(("SETN", s, *names))
                    else:
                        f = os.path.join(wd, b"d%s%d_%d" % (variant.encode(), k, step))
                        with open(f, "wb") as h:
                            h.write(d)
                        do(("SF", s, p, b"d" + f, *([b"n" + x for x in names] or [b"N"] if names is not None else [])))
                        ck.saw("on disk under another name")
                    slots[s] = [i, False, how >= .85]
                elif q < .6:
                    s = r.choice(sorted(slots))
                    i, parsed, disk = slots[s]
                    w = r.choice(["INFO", "NAMES", "EACH", "CONT", "LANG", "LANGS", "BREAK", "BREAK1", "LOC", "LIC", "DIFF", "HOLD", "HOLD"])
                    if w == "INFO":
                        p = specs[i][0].decode("latin-1")
                        do((w, s), {"filepath": p, "filename": p.rsplit("/", 1)[-1]})
                    elif w in ("NAMES", "EACH"):
                        do((w, s), {"names": [x.decode("latin-1") for x in specs[i][2] or []]})
                    elif w == "CONT":
                        if not parsed and (specs[i][1] or not disk):   # an empty file on disk has no contents or empty ones
                            do((w, s), {"contents": specs[i][1].decode("latin-1"), "size": len(specs[i][1]), "enc": "UTF-8"})
                        else:
                            do((w, s), {})
                            if r.random() < .3:
                                do(("SF", "s8", wd + b"/missing/f.c"))
                                do(("CONT", "s8"), {"contents": None, "size": 0})
                                do(("BREAK", "s8"), {"pl": []})
                    elif w == "LANG":
                        do((w, s), {"lang": fact(i, "GETLANG")["lang"]})
                    elif w == "LANGS":
                        do((w, s), {"langs": [x[0] for x in fact(i, "PARSE")["pl"]]})
                    elif w == "BREAK":
                        do((w, s), {"pl": fact(i, "PARSE")["pl"]})
                    elif w == "BREAK1":
                        pl = fact(i, "PARSE")["pl"]
                        l = r.choice([x[0] for x in pl] + ["c", r.choice(LANGS), "nothing"])
                        do((w, s, l, r.choice("sn")), {"pl": next((x for x in pl if x[0] == l), None)})
                    elif w == "LOC":
                        do((w, s), {"loc": [loc6(x) for x in fact(i, "LOC")["loc"]]})
                    elif w == "LIC":
                        do((w, s), {"lic": fact(i, "LIC")["lic"]})
                    elif w == "DIFF":
                        if i in by_a and specs[i][0] != b"":
                            b = r.choice(by_a[i])
                            p, d, names = specs[b]
                            do(("SF", "s7", p, b"c" + d, *([b"n" + x for x in names] if names else [])))
                            do((w, s, "s7"), {"delta": pairs[i, b]})
                    else:
                        h = "h%d" % r.randrange(4)
                        w = r.choice(["pl", "loc", "one", "names", "lic"])
                        do(("HOLD", h, w, s))
                        pl = fact(i, "PARSE")["pl"]
                        held[h] = {"pl": pl, "loc": [loc6(x) for x in fact(i, "LOC")["loc"]], "lic": fact(i, "LIC")["lic"],
                                   "names": [x.decode("latin-1") for x in specs[i][2] or []], "one": [x for x in pl if x[0] == fact(i, "GETLANG")["lang"]]}[w]
                    if w not in ("INFO", "NAMES", "EACH", "CONT", "LANG", "names"):
                        slots[s][1] = True
                elif q < .68 and by_a:
                    a = r.choice(sorted(by_a))
                    b = r.choice(by_a[a])
                    for s, i in (("s5", a), ("s6", b)):
                        p, d, names = specs[i]
                        do(("SF", s, p, b"c" + d, *([b"n" + x for x in names] if names else [])))
                    do(("HOLD", "h5", "delta", "s5", "s6"))
                    held["h5"] = pairs[a, b]
                    do(("DROP", "s5"))
                    do(("DROP", "s6"))
                elif q < .78 and lok and not stress:
                    j = r.choice(lok)
                    arg, add, _ = lists[j]
                    files, per, ana = lfacts[j]
                    do(("LNEW", "l", *arg))
                    for x in add:
                        do(("LDIR" if x[:1] == b"p" else "LFILE", "l", x[1:]))
                    for w in r.sample(["LSIZE", "LEACH", "LFILES", "LANA", "HF", "HP", "LSIZE"], r.choice([1, 2, 4, 7])):
                        if w == "LSIZE":
                            do((w, "l"), {"size": len(files)})
                        elif w == "LEACH":
                            do((w, "l"), {"names": [x.rsplit("/", 1)[-1] for x in files]})
                        elif w == "LFILES":
                            do((w, "l"), {"files": [[x, per[x][0], per[x][1], [loc6(y) for y in per[x][2]]] for x in files if per[x][0]]})
                        elif w == "LANA":
                            do((w, "l"), {"loc": [loc6(x) for x in ana["loc"]], "totals": ana["totals"]})
                            ck.saw("lists analysed")
                        elif w == "HF":
                            do(("HOLD", "h6", "files", "l"))
                            held["h6"] = [[x, per[x][0], per[x][1]] for x in files if per[x][0]]
                        else:
                            do(("HOLD", "h7", "paths", "l"))
                            held["h7"] = [x.rsplit("/", 1)[-1] for x in files]
                        for x in disturb(r, not stress):
                            do(x)
                    do(("DROP", "l"))
                elif q < .86 and held:
                    h = r.choice(sorted(held))
                    do(("HELD", h), {"items": held[h]})
                    ck.saw("parts read")
                elif q < .92:
                    s = r.choice(sorted(slots))
                    do(("DROP", s))
                    del slots[s]
                    ck.saw("owners dropped")
                elif q < .96:
                    n = r.choice(sorted(EXT)) if r.random() < .7 else "zzz"
                    do(("ISBIN", r.choice(["a.", "b/", "c.d."]) + n))
                else:
                    do(("NAME", r.choice(LANGS + ["nope", "C", "", "rub", "ruby "])))
                for x in disturb(r, not stress):
                    do(x)
            for h in sorted(held):
                do(("HELD", h), {"items": held[h]})
                ck.saw("parts read")
            if stress:
                do(("STRESS", 0))
                ck.saw("histories with a collection at every allocation")
            cases.append(Case(ops, want=want))
        # the names asked for, answered by the C library
        names = sorted({(o[0], o[1]) for c in cases for o in c.ops if o[0] in ("ISBIN", "NAME")})
        table = {}
        for n, o in zip(names, vlib.run_cases(plain, [Case([n]) for n in names], san=False)):
            if isinstance(o, list):
                table[n] = {"ret": bool(o[0]["ret"])} if n[0] == "ISBIN" else {x: o[0][x] for x in ("name", "nice", "cat")}
        rb = dict(rb)
        for c, o in zip(cases, vlib.run_cases(rb.pop("exe"), cases, per_proc=100, timeout=300, **rb)):
            if isinstance(o, Skipped):
                continue
            if isinstance(o, Crash):
                ck.crash(o, c, "ruby")
                continue
            ck.evaluated(repr(c.ops))
            ck.saw("histories under " + variant)
            if len(o) != len(c.ops):
                raise vlib.HarnessError(f"{len(o)} records of {len(c.ops)}")
            for op, w, q in zip(c.ops, c.meta["want"], o):
                if "error" in q:
                    ck.violation(f"{op[0]} raises {q['error']}", f"{op[0]}: {q['error']}: {q['text']} at {q['at']}", c.to_json())
                    break
                if op[0] in ("ISBIN", "NAME"):
                    w = table.get((op[0], op[1]))
                if w is None:
                    continue
                ck.saw("answers: " + op[0])
                bad = [x for x in w if q.get(x) != w[x]]
                if bad:
                    ck.violation(f"{op[0]} {bad[0]}", f"{op[0]} {show(repr(op[1:]).encode(), 200)}: Ruby says {show(repr(q.get(bad[0])).encode(), 300)}, the library {show(repr(w[bad[0]]).encode(), 300)}", c.to_json())
                    break
            if len(c.ops) < 10:
                ck.sample({"ops": [[str(x)[:60] for x in op] for op in c.ops]})
    for k in ("histories under asan", "histories under plain", "parts read", "owners dropped"):
        ck.require(k, 200)
    for k in ("BREAK", "LOC", "LIC", "NAMES", "CONT", "LANG", "DIFF", "LFILES", "LANA", "HELD", "ISBIN", "NAME"):
        ck.require("answers: " + k, 20)
    ck.require("histories with a collection at every allocation", 15)
