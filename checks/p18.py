"""P18: what is not a licence notice in a comment states no licence; how the comment is laid out does not matter."""
import os
import re
import string

import vlib
from check import show, u
from licences import ALL, BLOCKS, CODE, FAMILY, LINES, SIMPLE, comment, filler, render
from p17 import body, choose
from vlib import Case, Crash, Skipped

RULE = ("an evaluation is either one file with near misses of notices in comments, or notices outside of comments, of which no licence may be reported; or one comment text (of a constructed notice, or of a "
        "fixture) laid out anew (other language, comment marks, decoration, indentation, line breaks, letter case, newline form, code and blank lines between), of which the same licences have to be reported as of the original; "
        "non-trivial: distinct files")


def rx(notice):
    """What an independent reader takes for the notice, generously."""
    if notice.startswith("#"):
        return r"redistribution\s+and\s+use"
    return "".join(r"[\s,]*" if ch in "_+ ," else re.escape(ch) for ch in notice)


ANY = re.compile("|".join(sorted({rx(n) for v in SIMPLE.values() for n in v} | {rx(n) for v in FAMILY.values() for n, _ in v} | {r"apache", r"\bgpl", r"regents"})), re.I)
WORDS = ["frob", "quux", "not", "open", "my", "source", "foo", "bar", "the", "and", "x", "old"]


def near(r):
    """Text that resembles a notice and is none."""
    while True:
        k = r.choice(sorted(SIMPLE))
        w = re.split(r"[_+ ]", r.choice(SIMPLE[k]))
        v = r.random()
        kind = "foreign word"
        if v < .4 and len(w) > 1:
            w.insert(r.randrange(1, len(w)), r.choice(WORDS))
        elif v < .55 and len(w) > 2:
            kind = "dropped word"
            del w[r.randrange(len(w))]
        elif v < .65 and len(w) > 1:
            kind = "swapped words"
            i = r.randrange(len(w) - 1)
            w[i], w[i + 1] = w[i + 1], w[i]
        elif v < .75:
            kind = "misspelt word"
            i = r.randrange(len(w))
            j = r.randrange(len(w[i]))
            c = w[i][j]
            if not c.isalnum():
                continue
            w[i] = w[i][:j] + r.choice([x for x in string.ascii_lowercase if x != c.lower()]) + w[i][j + (r.random() < .5):]
        elif v < .85:
            kind = "glued in front"
            w[0] = r.choice("qzx7") + w[0]
            if ANY.search(" ".join(w[1:])):
                continue
            return kind, render(r, "+".join(w), .2)
        elif v < .95:
            kind = "glued behind"
            w[-1] += r.choice("qzx7")
            return kind, render(r, "+".join(w), .2)
        else:
            kind = "only words of it"
            w = r.sample(w, r.randrange(1, len(w) + 1)) if len(w) > 1 else ["li" + "cense"]
        t = render(r, "+".join(w), .2)
        # also over the line breaks it was given, and without separators
        if not ANY.search(t) and not ANY.search(re.sub(r"\s+", "", t)):
            return kind, t


def join(r, parts):
    t = ""
    for x in parts:
        t += filler(r, r.choice([2, 5, 12]), .15) + x + r.choice([" ", "\n", "; "])
    return (t + filler(r, 3)).rstrip()


def elsewhere(r, notices):
    """A document whose notices all lie on lines of code."""
    style = r.choice(LINES + BLOCKS)
    lang = style[0]
    code = CODE.get(lang, b"zork")
    out = b""
    for x, _, _ in notices:
        for line in render(r, x, .1).replace("\t", " ").split("\n"):
            if not line.strip():
                continue
            b = line.encode()
            if b.endswith(b"\\"):
                continue
            if len(style) == 2:
                out += code + b" " + style[1] + b" " + b + b"\n"
            elif lang == "php":
                out += b"<?php zork /* " + b + b" */ ?>\n"
            else:
                out += code + b" " + style[1] + b" " + b + b" " + style[2] + b"\n"
        if r.random() < .3:
            out += b"\n" + comment(r, style, filler(r, 5).rstrip("\n "), b"\n")
    return lang, out


def literal(r, notices):
    """Notices in string literals and as names."""
    lang, q = r.choice([("c", b'"'), ("java", b'"'), ("python", b'"'), ("ruby", b"'"), ("javascript", b"'"), ("perl", b'"'), ("golang", b'"'), ("csharp", b'"'), ("php", b'"')])
    out = b""
    for x, _, _ in notices:
        if x.startswith("#"):
            continue
        t = re.sub(r"\s+", " ", render(r, x, 0)).encode()
        out += b"x = " + q + t + q + b"\n" if r.random() < .7 else b"f(1, " + q + b"the " + t + q + b")\n"
    return lang, (b"<?php\n" + out + b"?>\n") if lang == "php" else out


def relayout(r, lines, allow_case=True):
    """The same text (line contents as the comment has them, marks and leading punctuation included) in another layout."""
    norm = []
    for x in lines:
        t = x.lstrip(b" \t" + string.punctuation.encode())
        norm.append(t)
    # one text: lines joined by single blanks; breaks may go wherever a single blank stands before a letter or digit
    text = b" ".join(norm)
    if r.random() < .7:
        p = r.choice([0, .05, .2, .8])
        broken = re.sub(rb"(?<=[^\s]) (?=[A-Za-z0-9])", lambda m: b"\n" if r.random() < p else b" ", text)
        ls = broken.split(b"\n")
    else:
        ls = norm
    if allow_case and r.random() < .6:
        f = r.choice([bytes.upper, bytes.lower, bytes.swapcase])
        ls = [f(x) for x in ls]
    return ls


def write(r, ls, nl):
    """The lines as line comments of some language, with code and blank lines between."""
    lang, mark = r.choice([x for x in LINES if x[0] not in ("make", "fortranfree", "matlab", "tex", "haskell", "eiffel", "r", "tcl", "assembler")])
    code = CODE.get(lang, b"zork")
    p = r.choice([0, 0, .1, .4])
    deco = r.choice([b" ", b" ", b"  ", b"\t", b" * ", b" -- ", b" | "])
    if lang == "lua":
        deco = b" " + deco
    out = b""
    for x in ls:
        if r.random() < p:
            out += r.choice([nl, code + nl, b"  " + nl, nl + code + nl])
        y = x.rstrip(b"\\")
        out += r.choice([b"", b"", b"  ", b"\t"]) + mark + deco + y + nl
    return lang, out


def run(ck):
    exe = vlib.build("plain")["driver"]
    r = ck.rng("near")
    cases = []
    ask = lambda d, lang: [("NEW", 0, "x"), ("CONT", 0, d), ("LANG", 0, lang), ("LIC", 0), ("FREE", 0)]
    for _ in range(ck.n(20000, 100000)):
        ps = [near(r) for _ in range(r.choice([1, 1, 2, 4]))]
        t = join(r, [x for _, x in ps])
        if ANY.search(re.sub(r"\n+", " ", t)):
            # parts that meet
            if not any(k.startswith("glued") for k, _ in ps):
                continue
        style = r.choice(LINES + BLOCKS)
        d = comment(r, style, t, r.choice([b"\n", b"\n", b"\r\n"]))
        if r.random() < .4:
            d += CODE.get(style[0], b"zork") + b"\n"
        cases.append(Case(ask(d, style[0]), doc=d, lang=style[0], want=[], kinds=[k for k, _ in ps], what=[x for _, x in ps]))
    for _ in range(ck.n(6000, 40000)):
        ns = choose(r)
        if not ns:
            continue
        lang, d = (elsewhere if r.random() < .65 else literal)(r, ns)
        cases.append(Case(ask(d, lang), doc=d, lang=lang, want=[], kinds=["outside of comments"], what=[x for x, _, _ in ns]))
    for c, o in zip(cases, vlib.run_cases(exe, cases, san=False)):
        if isinstance(o, Skipped):
            continue
        if isinstance(o, Crash):
            ck.crash(o, c)
            continue
        m = c.meta
        got = o[3]["lic"]
        ck.evaluated(m["doc"])
        for k in m["kinds"]:
            ck.saw(k)
        if got:
            ck.violation(f"{m['kinds'][0]}: {got[0]}", f"{m['what']} in {m['lang']} is taken for {got}; document {show(m['doc'], 400)}", c.to_json(), len(m["doc"]))
        elif len(m["doc"]) < 160:
            ck.sample({"document": show(m["doc"], 200), "licences": got, "near miss": m["kinds"]})

    # layout
    texts = []
    root = os.path.join(vlib.REPO, "test/src_licenses")
    first = []
    for f in sorted(os.listdir(root)):
        p = os.path.join(root, f)
        if os.path.isfile(p):
            d = open(p, "rb").read()
            if b"\0" not in d:
                first.append(Case([("NEW", 0, f), ("CONT", 0, d), ("GETLANG", 0), ("PARSE", 0), ("LIC", 0), ("FREE", 0)], name=f))
    r = ck.rng("texts")
    for i in range(ck.n(500, 4000)):
        ns = choose(r)
        if ns:
            style = r.choice(LINES + BLOCKS)
            d = comment(r, style, body(r, ns, .2), b"\n")
            first.append(Case([("NEW", 0, "x"), ("CONT", 0, d), ("LANG", 0, style[0]), ("PARSE", 0), ("LIC", 0), ("FREE", 0)], name=f"notices {[x[0] for x in ns]}"))
    for c, o in zip(first, vlib.run_cases(exe, first, san=False)):
        if isinstance(o, (Skipped, Crash)):
            continue
        pls = next(x for x in o if x["op"] == "PARSE")["pl"]
        lic = next(x for x in o if x["op"] == "LIC")["lic"]
        com = [x for x in pls if x[5]]
        if len(com) != 1:
            continue
        t = u(com[0][5])
        if t.count(b"\r") != t.count(b"\r\n") or b"\f" in t:
            continue
        ls = re.split(rb"\r?\n", t[:-1] if t.endswith(b"\n") else t)
        texts.append((c.meta["name"], [x.rstrip(b"\r") for x in ls if x.strip()], lic))
        ck.saw("texts with a licence", bool(lic))
    cases = []
    for name, ls, lic in texts:
        fixture = not name.startswith("notices")
        cased = b"Redistribution and use" in b" ".join(ls)   # the long texts are known in their own letter case
        for _ in range(ck.n(25, 250) if fixture else ck.n(4, 12)):
            x = relayout(r, ls, not cased)
            lang, d = write(r, x, r.choice([b"\n", b"\n", b"\r\n"]))
            cases.append(Case(ask(d, lang), doc=d, lang=lang, want=lic, name=name))
    for c, o in zip(cases, vlib.run_cases(exe, cases, san=False)):
        if isinstance(o, Skipped):
            continue
        if isinstance(o, Crash):
            ck.crash(o, c)
            continue
        m = c.meta
        got = o[3]["lic"]
        ck.evaluated(m["doc"])
        ck.saw("texts laid out anew")
        if got != m["want"]:
            d = sorted(set(got) ^ set(m["want"])) or ["order"]
            ck.violation(f"layout: {d[0]}", f"{m['name']} laid out anew in {m['lang']}: {got}, before {m['want']}; document {show(m['doc'], 600)}", c.to_json(), len(m["doc"]))
    for k in ("foreign word", "dropped word", "swapped words", "misspelt word", "glued in front", "glued behind"):
        ck.require(k, 200)
    ck.require("outside of comments", 1000)
    ck.require("texts laid out anew", 2000)
    ck.require("texts with a licence", 150)
