"""P08: in the languages with a full entity parser the entities cover the document without gaps and are named by what they are."""
import json
import os
import re

import vlib
from check import show
from monitor import entity_faults
from vlib import VERIF, Case, Crash, Skipped
from workload import well_formed, wild

RULE = ("an evaluation is one document in a language with a full entity parser: for arbitrary bytes the recorded entities tile the document and each name fits its "
        "bytes (identifiers and keywords are whole words, numbers hold a digit, operators no word or white space, a word is always keyword or always not); for "
        "constructed sequences of known tokens the entities are exactly those tokens; non-trivial: at least two entities")

KW = {l: set(w.encode() for w in ws) for l, ws in json.load(open(os.path.join(VERIF, "data", "keywords.json"))).items()}
LANG8 = sorted(KW)
OPS = [b"+", b"*", b"=", b">", b"(", b")", b"{", b"}", b"[", b"]", b",", b"-", b"/", b"%", b"^", b".", b";", b":"]
NEAR = [b"s", b"_", b"2", b"X"]


def ops(lang, d):
    return [("NEW", 0, "x"), ("CONT", 0, d), ("LANG", 0, lang), ("ENTS", 0), ("FREE", 0)]


def fault(lang, d, ev, words):
    f = entity_faults(lang, d, ev)
    if f:
        return f
    p = 0
    for l, k, s, e in ev:
        if s != p:
            return "gap", f"bytes [{p},{s}) {d[p:s][:40]!r} belong to no entity"
        p = e
        t, nx = d[s:e], d[e:e + 1]
        if k in ("identifier", "keyword") and t != b"=>":
            if not re.fullmatch(rb"[A-Za-z_]\w*", t):
                return "name", f"{k} {t[:40]!r}"
            if re.match(rb"[0-9A-Za-z_]", nx):
                return "name", f"{k} {t[:40]!r} ends inside a word (before {nx!r})"
            words.setdefault((lang, t), k)
            if words[lang, t] != k:
                return "name", f"{t!r} is {k} here and {words[lang, t]} elsewhere"
            if (t in KW[lang]) != (k == "keyword"):
                return "keyword", f"{t!r} is called {k}"
        elif k == "number" and not re.search(rb"[0-9]", t):
            return "name", f"number {t[:40]!r}"
        elif k == "operator" and re.search(rb"[0-9A-Za-z_\s]", t):
            return "name", f"operator {t[:40]!r}"
        elif k == "space" and re.match(rb"[ \t\v\r\n\f]", nx):
            return "name", f"space [{s},{e}) ends before more white space"
    if p != len(d):
        return "gap", f"bytes [{p},{len(d)}) {d[p:][:40]!r} belong to no entity"
    return None


def tokens(r, lang):
    """(document, [(kind, start, end)]) of a sequence of known tokens."""
    buf, want = bytearray(), []
    kw = sorted(KW[lang])
    for _ in range(r.randrange(1, 30)):
        k = r.random()
        if k < .25:
            t, kind = r.choice(kw), "keyword"
        elif k < .6:
            m = r.random()
            w = r.choice(kw)
            t = (w + r.choice(NEAR) if m < .3 else b"_" + w if m < .4 else w.upper() if m < .5 else w[:-1] if m < .6 else
                 bytes(r.choice(b"abcdefghijklmnopqrstuvwxyzABCXYZ_") for _ in range(1)) + bytes(r.choice(b"abcxyzABC_0189") for _ in range(r.choice([0, 1, 5, 30, 300]))))
            if t in KW[lang] or not t or t[:1].isdigit():
                continue
            kind = "identifier"
        elif k < .75:
            t, kind = r.choice([str(r.choice([0, 1, 7, 42, 65536, 10 ** 12])).encode(), b"0x%X" % r.randrange(1 << r.choice([3, 8, 32]))]), "number"
        elif k < .8:
            t, kind = r.choice([b"1.5", b"0.25"]), None
        else:
            t, kind = r.choice(OPS), "operator"
        if buf:
            ws = r.choice([b" ", b" ", b"  ", b"\t", b"\n", b"\r\n", b" \n "])
            want.append(("space", len(buf), len(buf) + len(ws)))
            buf += ws
        want.append((kind, len(buf), len(buf) + len(t)))
        buf += t
    return bytes(buf), want


def run(ck):
    exe = vlib.build("plain")["driver"]
    cases = []
    for lang in LANG8:
        r = ck.rng(lang)
        for _ in range(ck.n(900, 9000)):
            k = r.random()
            if k < .4:
                d, want = wild(r, lang)[1], None
            elif k < .55:
                d, want = well_formed(r, lang).bytes, None
            else:
                d, want = tokens(r, lang)
            cases.append(Case(ops(lang, d), lang=lang, doc=d, want=want))
    words = {}
    for c, o in zip(cases, vlib.run_cases(exe, cases, san=False)):
        if isinstance(o, Skipped):
            continue
        lang, d = c.meta["lang"], c.meta["doc"]
        if isinstance(o, Crash):
            ck.crash(o, c, lang)
            continue
        ev = o[3]["ev"]
        ck.evaluated((lang, d), len(ev) > 1)
        for e in ev:
            ck.saw(e[1])
        f = fault(lang, d, ev, words)
        if f:
            ck.violation(f"{lang}: {f[0]}", f"{f[1]}; document {show(d)}", c.to_json(), len(d))
            continue
        if c.meta["want"] is not None:
            ck.saw("token sequences")
            w, g = c.meta["want"], [(e[1], e[2], e[3]) for e in ev]
            # a fraction may be taken apart
            num = [x for x in w if x[0] is None]
            w = [x for x in w if x[0] is not None]
            g = [x for x in g if not any(n[1] <= x[1] < n[2] for n in num)]
            if w != g:
                a = next(((x, y) for x, y in zip(w, g) if x != y), (w[len(g):][:1], g[len(w):][:1]))
                ck.violation(f"{lang}: tokens", f"token {a[0]} reported as {a[1]}; document {show(d)}", c.to_json(), len(d))
            elif 3 < len(w) < 9:
                ck.sample({"language": lang, "document": show(d), "entities": g})
    ck.saw("distinct words", len(words))
    ck.require("token sequences", 1000)
    ck.require("keyword", 1000)
