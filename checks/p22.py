"""P22: a file name is binary exactly if its extension is that of binary files."""
import vlib
from detect import EXT, by_extension
from vlib import Case, Crash, Skipped

RULE = "an evaluation is one file name asked for being binary, compared with the table in data/names.json, and with what detection of a file of that name says; non-trivial: distinct names"


def run(ck):
    exe = vlib.build("plain")["driver"]
    r = ck.rng("names")
    stems = ["foo", "a.b", "", "x/y", "a.png/b", "foo.c", "/usr/lib/x", "a b", "x" * 300, ".", "a\\b", "\xe9", "png", "..", "a.tar"]
    names = []
    for rep in range(ck.n(60, 600)):
        for e in EXT:
            k = r.random()
            x = e if k < .4 else e.upper() if k < .6 else "".join(r.choice([c.upper(), c.lower()]) for c in e) if k < .7 else r.choice([e + "x", "x" + e, e[:-1], e + " ", e + e, e + ".c", e + ".", e + ".gif", e + ".o.h"])
            names.append(r.choice(stems) + (r.choice([".", ".", ".", "..", "/", ""])) + x)
        names += ["", ".", "foo", "png", "/", "foo.", "a.b/"]
    cases = [Case([("ISBIN", n)] + ([("NEW", 0, n), ("CONT", 0, b""), ("DETECT", 0), ("FREE", 0)] if i % 3 == 0 else []), name=n) for i, n in enumerate(names)]
    for c, o in zip(cases, vlib.run_cases(exe, cases, san=False)):
        if isinstance(o, Skipped):
            continue
        if isinstance(o, Crash):
            ck.crash(o, c)
            continue
        n = c.meta["name"]
        ext = n.rsplit(".", 1)[1] if "." in n else ""
        want = by_extension(ext) is None
        got = bool(o[0]["ret"])
        ck.evaluated(n)
        ck.saw("binary" if got else "not binary")
        ck.saw("in a case not of the table", ext not in EXT and ext.lower() in EXT)
        if got != want:
            ck.violation(f"{'missed' if want else 'wrongly'} {ext[-10:]}", f"{n!r}: {'binary' if got else 'not binary'}, but its extension is {'' if want else 'not '}that of binary files", c.to_json(), len(n))
        elif len(o) > 1 and want and "/" not in ext and "\\" not in ext:
            lang = next(q["lang"] for q in o if q["op"] == "DETECT")
            if lang is not None:
                ck.violation("binary with a language", f"{n!r} is binary and detected as {lang}", c.to_json(), len(n))
        if len(n) < 20:
            ck.sample({"name": n, "binary": got})
    ck.require("binary", 500)
    ck.require("in a case not of the table", 300)
