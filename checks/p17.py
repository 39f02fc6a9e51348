"""P17: the licences a file's comments state are reported, each once, and no others."""
import re

import vlib
from check import show
from licences import ALL, BLOCKS, CODE, FAMILY, LINES, SIMPLE, comment, filler, render
from vlib import Case, Crash, Skipped

RULE = ("an evaluation is one file whose comments hold a chosen set of licence notices, in any case, over any line breaks and comment decoration, among other text; "
        "the reported licences have to be exactly those the notices stand for; non-trivial: at least one notice")


def choose(r):
    """[(notice, licences)] that do not influence each other."""
    n = r.choice([0, 1, 1, 1, 1, 2, 2, 3, 5, 9])
    out = []
    for k in r.sample(sorted(SIMPLE) + sorted(FAMILY) * 3, n):
        if k in SIMPLE:
            if all(x[2] != k for x in out):
                out.append((r.choice(SIMPLE[k]), {k}, k))
        elif all(x[2] != k for x in out):
            out.append((*r.choice(FAMILY[k]), k))
    return out


def body(r, notices, wrap):
    """Text of the notices among filler; notices that look at what is near them stand apart."""
    t = ""
    ns = list(notices)
    for i, (x, s, fam) in enumerate(ns):
        apart = 40
        long = fam in FAMILY or (i and ns[i - 1][2] in FAMILY)
        t += filler(r, apart if long else r.choice([1, 1, 2, 6, 20]), .15) if i or long or r.random() < .6 else ""
        if x.startswith("#"):
            t = t.rstrip() + "\n" + render(r, x).rstrip("\n") + "\n"
        else:
            t += render(r, x, wrap)
            t += r.choice([" ", "\n", ". ", ", ", ") ", "\n\n", "; "]) if not (fam in ("eiffel", "lucent", "apache", "cecill")) else r.choice([" ", "\n"])
    if ns and (ns[-1][2] in FAMILY or r.random() < .6):
        t += filler(r, 45 if ns[-1][2] in FAMILY and r.random() < .5 else 6, .15)
    if not ns:
        t = filler(r, 12)
    return t.rstrip("\n ")


def document(r, notices):
    """(language, bytes): the notices spread over one or several comments."""
    wrap = r.choice([0, .1, .3, .9])
    style = r.choice(LINES + BLOCKS)
    lang = style[0]
    nl = r.choice([b"\n", b"\n", b"\n", b"\r\n"])
    code = CODE.get(lang, b"zork")
    out = b""
    if r.random() < .4:
        out += code + nl
    groups = [notices]
    if len(notices) > 1 and r.random() < .4:
        k = r.randrange(1, len(notices))
        groups = [notices[:k], notices[k:]]
    for i, g in enumerate(groups):
        if i:
            # keep the two texts apart in what they say
            out += comment(r, style, filler(r, 45, .1).rstrip("\n "), nl) + code + nl
        out += comment(r, style, body(r, g, wrap), nl)
        if r.random() < .5:
            out += nl * r.randrange(3) + code + nl
    if r.random() < .15 and notices:   # the whole again: each is still reported once
        g = [x for x in notices if x[2] not in FAMILY]
        if g:
            out += comment(r, style, filler(r, 45).rstrip("\n ") , nl) + comment(r, style, body(r, g, wrap), nl)
    return lang, out


def embedded(r, notices):
    """Notices spread over the languages of an HTML or PHP file."""
    nl = b"\n"
    lang = r.choice(["html", "php"])
    parts = {0: [], 1: [], 2: [], 3: []}
    for x in notices:
        parts[r.randrange(4 if lang == "php" else 3)].append(x)
    sty = [(("html", b"<!--", b"-->"), b"", b""), (("css", b"/*", b"*/"), b"<style type=\"text/css\">\n", b"</style>\n"), (("javascript", b"/*", b"*/"), b"<script type=\"text/javascript\">\n", b"</script>\n"), (("php", b"/*", b"*/"), b"<?php\n", b"?>\n")]
    order = list(parts)
    r.shuffle(order)
    out = b""
    for k in order:
        if parts[k] or r.random() < .5:
            style, a, b = sty[k]
            out += a + comment(r, style, body(r, parts[k], .2), nl) + b
    return lang, out


def run(ck):
    exe = vlib.build("plain")["driver"]
    cases = []
    r = ck.rng("notices")

    def add(notices, emb=False):
        lang, d = (embedded if emb else document)(r, notices)
        want = set().union(*[s for _, s, _ in notices]) if notices else set()
        if {"gpl3", "gpl3_or_later"} & want:
            want -= {"gpl"}
        if "gpl3_or_later" in want:
            want -= {"gpl3"}
        if "bsd_ish" in want:
            want -= {"bsd_2clause_ish"}
        cases.append(Case([("NEW", 0, "x"), ("CONT", 0, d), ("LANG", 0, lang), ("LIC", 0), ("LIC", 0), ("FREE", 0)], lang=lang, doc=d, want=want, notices=[x[0] for x in notices], emb=emb))

    for rep in range(ck.n(9, 60)):        # every notice by itself
        for k, v in SIMPLE.items():
            for x in v:
                add([(x, {k}, k)])
        for k, v in FAMILY.items():
            for x, s in v:
                add([(x, s, k)])
    for _ in range(ck.n(4000, 40000)):
        add(choose(r))
    for _ in range(ck.n(700, 7000)):
        add(choose(r), emb=True)
    # a specific licence in one language of a file takes the place of the general one in another
    pairs = [("GPL", {"gpl"}, "gpl"), ("GNU GPL v3", {"gpl3"}, "gpl"), ("GPL 3 or later", {"gpl3_or_later"}, "gpl")]
    for _ in range(ck.n(150, 1500)):
        lang, d = "html", b""
        two = r.sample(pairs, 2)
        texts = [(("html", b"<!--", b"-->"), b"", b""), (("javascript", b"/*", b"*/"), b"<script type=\"text/javascript\">\n", b"</script>\n"), (("css", b"/*", b"*/"), b"<style type=\"text/css\">\n", b"</style>\n")]
        r.shuffle(texts)
        for x, (style, a, b) in zip(two, texts):
            d += a + comment(r, style, body(r, [x], .1), b"\n") + b
        want = {"gpl3_or_later"} if any("gpl3_or_later" in x[1] for x in two) else {"gpl3"}
        cases.append(Case([("NEW", 0, "x"), ("CONT", 0, d), ("LANG", 0, lang), ("LIC", 0), ("LIC", 0), ("FREE", 0)], lang=lang, doc=d, want=want, notices=[x[0] for x in two], emb=True))
    seen = set()
    for c, o in zip(cases, vlib.run_cases(exe, cases, san=False)):
        if isinstance(o, Skipped):
            continue
        if isinstance(o, Crash):
            ck.crash(o, c)
            continue
        m = c.meta
        got = o[3]["lic"]
        ck.evaluated(m["doc"], bool(m["notices"]))
        ck.saw("notices", len(m["notices"]))
        ck.saw("files of several languages", bool(m["emb"]))
        seen |= set(got)
        if len(got) != len(set(got)) or set(got) != m["want"] or o[4]["lic"] != got:
            w, g = m["want"] - set(got), set(got) - m["want"]
            key = f"missing {sorted(w)[0]}" if w else f"extra {sorted(g)[0]}" if g else "twice"
            ck.violation(key, f"notices {m['notices']} in {m['lang']}: reported {got}, expected {sorted(m['want'])}; document {show(m['doc'], 500)}", c.to_json(), len(m["doc"]))
        elif 1 < len(m["notices"]) < 4 and len(m["doc"]) < 400:
            ck.sample({"document": show(m["doc"], 400), "licences": got})
    ck.saw("different licences reported", len(seen))
    ck.require("notices", 3000)
    if not ck.viol:
        ck.require("different licences reported", len(ALL))
