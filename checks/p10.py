"""P10: the comments (and, where a language reports them, the strings) of a document are reported as entities with exactly their bytes."""
import vlib
from check import show
from embed import LANGS_E, make_embedded
from syntax import SYN, make_doc
from vlib import Case, Crash, Skipped

RULE = ("an evaluation is one constructed document whose comments and strings were written at known byte ranges; the recorded comment entities have to be exactly "
        "the comments, under the language they are written in, and for languages that report strings the string entities exactly the strings (there strings may hold comment openers and the reverse); "
        "non-trivial: at least one comment or string")

# languages whose entity parsers report strings; the others report only white space and comments
STRINGS = set("c cpp csharp cuda ec genie vala glsl golang fsharp rust limbo stratego modula2 modula3 oberon rebol lua kotlin".split())
NONE = {"factor", "vim"}
EMBEDDED = [x for x in LANGS_E if x not in ("coffeescript", "haml")]   # their entity parsers report no comments of the languages inside
HALF = {"haxe"}   # continuation of a line comment is not part of its entity


def ops(lang, d):
    return [("NEW", 0, "x"), ("CONT", 0, d), ("LANG", 0, lang), ("ENTS", 0), ("FREE", 0)]


def run(ck):
    exe = vlib.build("plain")["driver"]
    cases = []
    for lang in sorted(SYN):
        if lang in NONE:
            continue
        r = ck.rng(lang)
        for i in range(ck.n(330, 3000) if lang in STRINGS else ck.n(130, 1500)):
            d = make_doc(r, lang, nl=r.choice([b"\n"] * 5 + [b"\r\n"] * 3 + [b"\r", b"\f"]), tame=lang not in STRINGS, big=.02)
            if d.bytes and not (lang in HALF and "continued" in d.features):
                cases.append(Case(ops(lang, d.bytes), lang=lang, doc=d))
    for lang in EMBEDDED:
        r = ck.rng("embedded", lang)
        for i in range(ck.n(150, 1500)):
            d = make_embedded(r, lang, nl=r.choice([b"\n"] * 5 + [b"\r\n"] * 3 + [b"\r", b"\f"]), tame=True, big=.01)
            if d.bytes:
                cases.append(Case(ops(lang, d.bytes), lang=lang, doc=d))
    seen = set()
    for c, o in zip(cases, vlib.run_cases(exe, cases, san=False)):
        if isinstance(o, Skipped):
            continue
        lang, doc = c.meta["lang"], c.meta["doc"]
        if isinstance(o, Crash):
            ck.crash(o, c, lang)
            continue
        ev = o[3]["ev"]
        n = 0
        for kind in ("comment", "string"):
            if kind == "string" and lang not in STRINGS:
                continue
            owner = getattr(doc, "owner", lambda s: doc.lang)
            want = [(s, e, owner(s)) for k, s, e in doc.ents if k == kind]
            got = [(e[2], e[3], e[0]) for e in ev if e[1] == kind]
            n += len(want)
            ck.saw(kind + "s", len(want))
            if want:
                seen.add((lang, kind))
            if want != got:
                i = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
                w, g = want[i:i + 1], got[i:i + 1]
                what = "missing" if not g or (w and w[0][0] < g[0][0]) else "extra" if not w or g[0][0] < w[0][0] else "extent"
                t = lambda x: show(doc.bytes[x[0][0]:x[0][1]], 60) if x else "nothing"
                ck.violation(f"{lang}: {kind} {what}", f"{kind} {i + 1} is {w} {t(w)}, reported {g} {t(g)}; document {show(doc.bytes, 300)}", c.to_json(), len(doc.bytes))
        ck.evaluated((lang, doc.bytes), n > 0)
        if 1 < n < 4 and len(doc.bytes) < 60:
            ck.sample({"language": lang, "document": show(doc.bytes), "entities": doc.ents})
    ck.saw("languages with comments", len({l for l, k in seen if k == "comment"}))
    ck.saw("languages with strings", len({l for l, k in seen if k == "string"}))
    ck.require("languages with comments", len(SYN) - len(NONE) + len(EMBEDDED))
    ck.require("languages with strings", len(STRINGS))
