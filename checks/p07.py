"""P07: in every language a line with code is code, a line with only comment is comment, any other is blank."""
import vlib
from check import show
from syntax import SYN, make_doc
from vlib import Case, Crash, Skipped

RULE = ("an evaluation is one constructed document of one of the languages with its own comments and strings: whoever wrote each piece knows whether it is code, "
        "comment, string or white space, so the label, the language and the byte range of every line are known without parsing; the recorded line events "
        "have to be exactly those. Pieces hold each other's delimiters (comment openers in strings, quotes in comments, near misses, escapes, nesting, "
        "continuation, very long and very many parts) and every newline form; non-trivial: a distinct document of at least two lines")


def ops(lang, d):
    return [("NEW", 0, "x"), ("CONT", 0, d), ("LANG", 0, lang), ("LINES", 0), ("LOC", 0), ("FREE", 0)]


def compare(doc, ev):
    """First disagreement between what was written and what was reported."""
    for i, (lang, lab, s, first, e) in enumerate(doc.lines):
        if i >= len(ev):
            return "missing", f"line {i + 1} ({lang} {lab}) is not reported"
        g = ev[i]
        if g[3] != e:
            return "range", f"line {i + 1} ends at {e}, reported as {g}"
        if (g[0], g[1]) != (lang, "l" + lab):
            return f"{lab} as {g[1][1:]}" + ("" if g[0] == lang else f" of {g[0]}"), f"line {i + 1} {bytes(doc.buf[s:e])[:80]!r} is {lang} {lab}, reported as {g[0]} {g[1][1:]}"
        if lang == "php" and g[2] == first + 1 and doc.buf[first:g[2]] == b"?":
            continue   # the line of a closing tag is reported from its '>', as the project's own expectations have it
        if g[2] < s or (lab != "blank" and g[2] > max(first, s)):
            return "range", f"line {i + 1} begins at {s} (text at {first}), reported as {g}"
    if len(ev) > len(doc.lines):
        return "extra", f"{len(ev)} lines reported, {len(doc.lines)} written; first extra {ev[len(doc.lines)]}"
    return None


def verify(ck, c, o, feats, doc, lang):
    """Judge one observed parse of a constructed document."""
    ev = o[3]["ev"]
    f = compare(doc, ev)
    ck.evaluated((lang, doc.bytes), len(doc.lines) > 1)
    ck.saw("lines", len(doc.lines))
    for x in doc.features:
        feats.add((lang, x))
        if x.startswith("big ") or ":" not in x:
            ck.saw("feature " + x)
    if f:
        ck.violation(f"{lang}: {f[0]}", f"{f[1]}; document {show(doc.bytes, 400)}", c.to_json(), len(doc.bytes))
        return
    got = {l[0]: dict(code=l[1], comment=l[2], blank=l[3]) for l in o[4]["loc"]}
    if got != doc.totals():
        ck.violation(f"{lang}: counts", f"counts {got}, written {doc.totals()}; document {show(doc.bytes, 300)}", c.to_json(), len(doc.bytes))
    for l in doc.lines:
        ck.saw(l[1])


def run(ck):
    exe = vlib.build("plain")["driver"]
    cases = []
    for lang in sorted(SYN):
        r = ck.rng(lang)
        for i in range(ck.n(230, 2600)):
            k = r.random()
            d = make_doc(r, lang, nl=r.choice([b"\n"] * 6 + [b"\r\n"] * 3 + [b"\r", b"\f"]), big=.02, n=1 if k < .2 else None)
            if d.bytes:
                cases.append(Case(ops(lang, d.bytes), lang=lang, doc=d))
    feats = set()
    for c, o in zip(cases, vlib.run_cases(exe, cases, san=False)):
        if isinstance(o, Skipped):
            continue
        lang, doc = c.meta["lang"], c.meta["doc"]
        if isinstance(o, Crash):
            ck.crash(o, c, lang)
            continue
        verify(ck, c, o, feats, doc, lang)
        if 2 < len(doc.lines) < 5 and len(doc.bytes) < 70:
            ck.sample({"language": lang, "document": show(doc.bytes), "lines": [l[1] for l in doc.lines]})
    ck.saw("distinct (language, construct) pairs", len(feats))
    ck.saw("languages", len({f[0] for f in feats}))
    ck.require("languages", len(SYN))
    # every comment and string form of every language was written at least once
    for lang, syn in SYN.items():
        for x in syn.com:
            n = x.open.decode("latin-1")
            if not any((lang, p) in feats for p in ("line:" + n, "block:" + n, "block:" + n + ":multi")):
                ck.require(f"{lang} comment {n}", 1)
        for x in syn.strs:
            n = x.open.decode("latin-1")
            if not any((lang, p) in feats for p in ("string:" + n, "char:" + n, "string:" + n + ":multi")):
                ck.require(f"{lang} string {n}", 1)
    ck.assumptions.append("the tables of lib/syntax.py say what each language's comments and strings are, as far as ohcount claims to know them")
