"""P06: entities lie inside the document, in order, without overlap; what is called space is white space and all white space is covered or inside an entity."""
import hashlib
import os

import vlib
from check import show
from gen import LANGS
from monitor import entity_faults
from shrink import shrink
from vlib import Case, Crash, Skipped
from workload import huge, wild

RULE = ("an evaluation is one document (arbitrary bytes) parsed for entities in one language: every entity non-empty and inside the document, each beginning "
        "at or after the end of the one before, reported for a language the parser knows, white space where it is called space, and (for parsers that do not skip embedding tags) no white space outside every entity; "
        "non-trivial: at least two entities")

WD = []


def ops(lang, d):
    """A document with NUL bytes can only come from a file."""
    if b"\0" in d:
        p = os.path.join(WD[0], hashlib.md5(d).hexdigest())
        return [("NEW", 0, "x"), ("WRITE", p, d), ("DISK", 0, p), ("LANG", 0, lang), ("ENTS", 0), ("UNLINK", p), ("FREE", 0)]
    return [("NEW", 0, "x"), ("CONT", 0, d), ("LANG", 0, lang), ("ENTS", 0), ("FREE", 0)]


def events(o):
    return next(x["ev"] for x in o if x["op"] == "ENTS")


def run(ck):
    exe = vlib.build("plain")["driver"]
    WD[:] = [vlib.scratch("nul")]
    cases = []
    for lang in LANGS:
        r = ck.rng(lang)
        for _ in range(ck.n(260, 3000)):
            kind, d = wild(r, lang)
            if r.random() < .08:
                for _ in range(r.choice([1, 2, 5])):
                    at = r.randrange(len(d) + 1)
                    d = d[:at] + b"\0" + d[at:]
                ck.saw("documents with NUL bytes")
            cases.append(Case(ops(lang, d), lang=lang, kind=kind, doc=d))
    for lang, d in huge(ck.rng("huge")):
        cases.append(Case(ops(lang, d), lang=lang, kind="huge", doc=d))
        ck.saw("documents over a megabyte")
    langs = set()
    for c, o in zip(cases, vlib.run_cases(exe, cases, san=False)):
        if isinstance(o, Skipped):
            continue
        lang, d = c.meta["lang"], c.meta["doc"]
        if isinstance(o, Crash):
            ck.crash(o, c, lang)
            continue
        ev = events(o)
        ck.evaluated((lang, d), len(ev) > 1)
        ck.saw("entities", len(ev))
        for e in ev:
            ck.saw("entity " + e[1])
        if len(ev) > 1:
            langs.add(lang)
        f = entity_faults(lang, d, ev)
        if f:
            key = f"{lang}: {f[0]}"
            if key not in ck.viol:
                d2 = d if len(d) > 500_000 else shrink(exe, d, lambda x: ops(lang, x), lambda res, x: (entity_faults(lang, x, events(res)) or (0,))[0] == f[0])
                ck.violation(key, f"{f[1]}; document {show(d2)}", Case(ops(lang, d2), lang=lang).to_json() if len(d2) < 500_000 else None, len(d2))
        elif 3 < len(ev) < 9 and len(d) < 50:
            ck.sample({"language": lang, "document": show(d), "entities": ev})
    ck.saw("languages", len(langs))
    ck.require("documents with NUL bytes", 1000)
    ck.require("languages", len(LANGS) - 4)
