"""P05: every line of the document is reported exactly once, in order, as one language's code, comment or blank line."""
import hashlib
import os

import vlib
from check import show
from gen import LANGS
from monitor import line_faults, split_lines
from shrink import shrink
from vlib import Case, Crash, Skipped
from workload import huge, wild

RULE = ("an evaluation is one document (arbitrary bytes, NUL from files on disk: token soup, mutated samples, cut and joined well-formed documents, unterminated "
        "constructs, every newline form) parsed in one language, its recorded line events checked against the document's own line structure: "
        "as many events as lines, each ending where its line ends and leaving out nothing but white space before, in order, of a language the parser knows, "
        "blank exactly for white-space lines; non-trivial: a distinct document of at least two lines")

WD = []


def ops(lang, d):
    """A document with NUL bytes can only come from a file."""
    if b"\0" in d:
        p = os.path.join(WD[0], hashlib.md5(d).hexdigest())
        return [("NEW", 0, "x"), ("WRITE", p, d), ("DISK", 0, p), ("LANG", 0, lang), ("LINES", 0), ("UNLINK", p), ("FREE", 0)]
    return [("NEW", 0, "x"), ("CONT", 0, d), ("LANG", 0, lang), ("LINES", 0), ("FREE", 0)]


def events(o):
    return next(x["ev"] for x in o if x["op"] == "LINES")


def run(ck):
    exe = vlib.build("plain")["driver"]
    WD[:] = [vlib.scratch("nul")]
    cases = []
    for lang in LANGS:
        r = ck.rng(lang)
        for _ in range(ck.n(420, 5000)):
            kind, d = wild(r, lang)
            if r.random() < .08:
                for _ in range(r.choice([1, 2, 5])):
                    at = r.randrange(len(d) + 1)
                    d = d[:at] + b"\0" + d[at:]
                ck.saw("documents with NUL bytes")
            cases.append(Case(ops(lang, d), lang=lang, kind=kind, doc=d))
    for lang, d in huge(ck.rng("huge")):
        cases.append(Case(ops(lang, d), lang=lang, kind="huge", doc=d))
        ck.saw("documents over a megabyte")
    langs = set()
    for c, o in zip(cases, vlib.run_cases(exe, cases, san=False)):
        if isinstance(o, Skipped):
            continue
        lang, d = c.meta["lang"], c.meta["doc"]
        if isinstance(o, Crash):
            ck.crash(o, c, lang)
            continue
        ev = events(o)
        ck.evaluated((lang, d), len(ev) > 1)
        ck.saw("events", len(ev))
        ck.saw("documents " + c.meta["kind"])
        for e in ev:
            ck.saw(e[1])
        if len(ev) > 1:
            langs.add(lang)
        if not d.endswith((b"\n", b"\r", b"\f")):
            ck.saw("documents without a final newline")
        f = line_faults(lang, d, ev)
        if f:
            key = f"{lang}: {f[0]}"
            if key not in ck.viol:
                d2 = d if len(d) > 500_000 else shrink(exe, d, lambda x: ops(lang, x), lambda res, x: (line_faults(lang, x, events(res)) or (0,))[0] == f[0])
                ck.violation(key, f"{f[1]}; document {show(d2)}", Case(ops(lang, d2), lang=lang).to_json() if len(d2) < 500_000 else None, len(d2))
        elif 2 < len(ev) < 5 and len(d) < 60:
            ck.sample({"language": lang, "document": show(d), "events": ev})
    ck.saw("languages", len(langs))
    ck.require("documents with NUL bytes", 1000)
    ck.require("languages", len(LANGS) - 1)
    ck.require("events", 100000)
    ck.assumptions.append("white space at the very end without a newline need not be reported as a line; in DCL a '$' is line prefix, in Haml an evaluator "
                          "with nothing after it may count as blank, in PHP a line that begins with the closing '?>' is reported from its '>' (as the tests of the repository have it)")
