"""P29: how lines end, whether the last one does, and what complete text stands before decide nothing."""
import json
import os

import vlib
from check import show
from gen import LANGS
from vlib import VERIF, Case, Crash, Skipped
from workload import well_formed, wild

RULE = ("an evaluation is one pair of parses of related documents, in one language, of arbitrary bytes: the same lines ended by LF and by CR LF, CR or FF; the same "
        "document with and without the newline behind its last line of text; a document alone and behind one or many complete documents. The recorded line events "
        "have to be the same lines with the same language and label, shifted by what stands before, and so the entities (for the newline forms in every language, "
        "behind other text in the languages with a full entity parser); non-trivial: a distinct pair with at least two lines")

FULL = set(json.load(open(os.path.join(VERIF, "data", "keywords.json"))))
FORMS = {"CR LF": b"\r\n", "CR": b"\r", "FF": b"\f"}
# their entity machines let a string run over or end in the middle of a newline, whose bytes are then shared out by its form
NOENT = {"rebol", "stratego"}
INDENT = {"haml"}   # what belongs to a comment is said by the indentation of what follows


def ops(lang, d):
    return [("NEW", 0, "x"), ("CONT", 0, d), ("LANG", 0, lang), ("LINES", 0), ("ENTS", 0), ("FREE", 0)]


def lines(o):
    return [tuple(e) for e in o[3]["ev"]]


def ents(o):
    """Entities, neighbouring white space joined."""
    out = []
    for e in o[4]["ev"]:
        if e[1] == "space" and out and out[-1][:2] == e[:2] and out[-1][3] == e[2]:
            out[-1] = out[-1][:3] + [e[3]]
        else:
            out.append(list(e))
    return out


def shift(ev, f):
    return [[e[0], e[1], f(e[2]), f(e[3])] for e in ev]


def first(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if list(x) != list(y)), min(len(a), len(b)))
    return i, (a[i:i + 1] or ["nothing"])[0], (b[i:i + 1] or ["nothing"])[0]


def run(ck):
    exe = vlib.build("plain")["driver"]
    groups = []
    for lang in LANGS:
        r = ck.rng(lang)
        for i in range(ck.n(150, 1500)):
            m = r.random()
            if m < .45:
                kind, d = wild(r, lang)
                d = d.replace(b"\r", b"").replace(b"\f", b"")
                f = r.choice(sorted(FORMS))
                g = ("newline form", f, [d, d.replace(b"\n", FORMS[f])])
            elif m < .7:
                kind, d = wild(r, lang)
                d = d.rstrip(b" \t\v\r\n\f")
                if not d or (lang == "dcl" and d.endswith(b"$")):
                    continue
                nl = r.choice([b"\n", b"\n", b"\r\n", b"\f"])
                g = ("final newline", repr(nl), [d, d + nl])
            else:
                if lang in INDENT:
                    continue
                a = well_formed(r, lang, nl=r.choice([b"\n", b"\n", b"\n", b"\r\n", b"\f"])).bytes
                if not a.endswith((b"\n", b"\r", b"\f")):
                    a += b"\n"
                if a.endswith(b"\r"):
                    continue
                k = r.choice([1, 1, 1, 2, 5, 30])
                if r.random() < .02 and len(a) < 9000:
                    k = 66_000 // len(a) + 1
                elif len(a) * k > 40000:
                    k = 1
                kind, d = wild(r, lang)
                g = ("behind other text", str(k), [a, d, a * k + d])
            groups.append((lang, kind, g, [Case(ops(lang, x), lang=lang) for x in g[2]]))
    outs = vlib.run_cases(exe, [c for g in groups for c in g[3]], san=False)
    p = 0
    langs = set()
    for lang, kind, (rel, how, ds), cs in groups:
        os_ = outs[p:p + len(cs)]
        p += len(cs)
        bad = [(o, c) for o, c in zip(os_, cs) if isinstance(o, Crash)]
        if bad:
            ck.crash(bad[0][0], bad[0][1], lang)
            continue
        if any(isinstance(o, Skipped) for o in os_):
            continue
        L, E = [lines(o) for o in os_], [ents(o) for o in os_]
        if rel == "behind other text":
            n, k = len(ds[0]), int(how)
            want = [e for j in range(k) for e in shift(L[0], lambda x: x + j * n)] + shift(L[1], lambda x: x + k * n)
            got = L[2]
            ew = eg = None
            if lang in FULL:
                join = [{"ev": [e for j in range(k) for e in shift(os_[0][4]["ev"], lambda x: x + j * n)] + shift(os_[1][4]["ev"], lambda x: x + k * n)}]
                ew, eg = ents([None] * 4 + join), E[2]
            case, two = cs[2], ds[2]
        else:
            d = ds[0]
            f = lambda x: x
            if how == "CR LF":
                m = [0] * (len(d) + 1)
                for j in range(len(d)):
                    m[j + 1] = m[j] + 1 + (d[j] == 10)
                f = m.__getitem__
            want, got = shift(L[0], f), L[1]
            ew, eg = shift(E[0], f), E[1]
            if rel == "final newline":
                end = len(ds[1])
                want = [e[:3] + [end if e[3] == len(d) else e[3]] for e in want]
                ew = eg = None
            elif lang in NOENT:
                ew = eg = None
            case, two = cs[1], ds[1]
        want, got = [tuple(e) for e in want], [tuple(e) for e in got]
        ck.evaluated((lang, rel, how) + tuple(ds), len(got) > 1)
        ck.saw(f"{rel} {how if rel != 'behind other text' or int(how) < 31 else 'beyond 16 bits'}")
        ck.saw("line events", len(got))
        for e in got:
            ck.saw(e[1])
        langs.add((lang, rel))
        if want != got:
            i, w, g = first(want, got)
            ck.violation(f"{lang}: lines, {rel}", f"{rel} ({how}): line {i + 1} of {show(two, 300)} should be {w}, as told by {[show(x, 200) for x in ds[:-1]]}; it is {g}", case.to_json(), len(two))
        elif ew is not None:
            ck.saw("entities", len(eg))
            if ew != eg:
                i, w, g = first(ew, eg)
                ck.violation(f"{lang}: entities, {rel}", f"{rel} ({how}): entity {i + 1} of {show(two, 300)} should be {w}, as told by {[show(x, 200) for x in ds[:-1]]}; it is {g}", case.to_json(), len(two))
        if want == got and 2 < len(got) < 5 and len(two) < 60:
            ck.sample({"language": lang, "relation": rel, "how": how, "documents": [show(x) for x in ds], "lines": [e[:2] for e in got]})
    ck.saw("pairs of language and relation", len(langs))
    ck.require("pairs of language and relation", 3 * len(LANGS) - 3)
    ck.assumptions.append("a last line of white space alone (or of DCL's bare '$') without a newline need not be reported as a line; in Haml what follows a comment says how far it goes")
