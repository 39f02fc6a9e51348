"""P09: where languages are mixed, every line is attributed to the language it is written in."""
import vlib
from check import show
from embed import EMB, LANGS_E, make_embedded
from p07 import verify
from vlib import Case, Crash, Skipped

RULE = ("an evaluation is one constructed document of a language that holds others (markup with style, script and server code, MXML, Nix, Haml, CoffeeScript, "
        "Metapost with TeX) or in which every character is either instruction or comment: the language and label of each line are known by construction, "
        "the recorded events have to be exactly those; non-trivial: a distinct document of at least two lines")


def ops(lang, d):
    return [("NEW", 0, "x"), ("CONT", 0, d), ("LANG", 0, lang), ("LINES", 0), ("LOC", 0), ("FREE", 0)]


def run(ck):
    exe = vlib.build("plain")["driver"]
    cases = []
    for lang in LANGS_E:
        r = ck.rng(lang)
        for i in range(ck.n(1300, 14000)):
            d = make_embedded(r, lang, nl=r.choice([b"\n"] * 5 + [b"\r\n"] * 3 + [b"\r", b"\f"]), n=r.choice([1, 1, 2, 3]) if i % 2 else None, big=.012)
            if d.bytes:
                cases.append(Case(ops(lang, d.bytes), lang=lang, doc=d))
    feats, pairs = set(), set()
    for c, o in zip(cases, vlib.run_cases(exe, cases, san=False)):
        if isinstance(o, Skipped):
            continue
        lang, doc = c.meta["lang"], c.meta["doc"]
        if isinstance(o, Crash):
            ck.crash(o, c, lang)
            continue
        verify(ck, c, o, feats, doc, lang)
        for l in doc.lines:
            pairs.add((lang, l[0], l[1]))
        if 2 < len(doc.lines) < 6 and len({l[0] for l in doc.lines}) > 1 and len(doc.bytes) < 90:
            ck.sample({"language": lang, "document": show(doc.bytes), "lines": [l[:2] for l in doc.lines]})
    ck.saw("distinct (parser, language, label) triples", len(pairs))
    ck.saw("documents in each mixed language", min(sum(1 for c in cases if c.meta["lang"] == l) for l in LANGS_E))
    for lang in EMB:
        for s in EMB[lang][4]:
            if (lang, "section " + s.child) not in feats:
                ck.require(f"{lang} section {s.child}", 1)
