"""P21: a file without a telling extension has the language of its Emacs mode line, else of its name, else of its #! line or XML/PHP opening."""
import os

import vlib
from check import show
from detect import EXT, FILES, by_extension, extension
from gen import LANGS
from vlib import Case, Crash, Skipped

RULE = ("an evaluation is one file whose extension says nothing and whose first lines hold a mode line, a #! line, both or neither, in any spelling; "
        "the detected language compared with the one the lines were built from; non-trivial: distinct (name, contents)")
# interpreters libmagic names
SHEBANG = {"sh": "shell", "bash": "shell", "ksh": "shell", "csh": "shell", "perl": "perl", "python": "python", "python3": "python", "ruby": "ruby", "php": "php", "awk": "awk", "gawk": "awk", "lua": "lua",
           "groovy": "groovy", "scala": "scala", "rexx": "rexx"}
NAMES = ["foo", "script", "src/run", "a.b/tool", "README", "x y", "foo.xyzzy", "bar.in.qqq", "Foo", ".profile", "a.py/x", "noext."]
COMMENT = [("# ", ""), ("/* ", " */"), ("// ", ""), (";; ", ""), ("", ""), ("<!-- ", " -->"), ("% ", ""), ("-- ", ""), ("(* ", " *)"), ("\" ", ""), ("\t# ", ""), ("#", "")]


def modes(r):
    """(spelled name, language)"""
    k = r.random()
    if k < .15:
        return r.choice(["c", "C"]), "c"
    if k < .5:
        n = r.choice([x for x in LANGS if x not in ("c",)])
        return spell(r, n), n
    if k < .8:
        # an extension that is no language name
        e = r.choice([e for e, v in EXT.items() if v and not v.startswith("?") and e not in ALIAS and e.lower() == e and e not in FILES and ";" not in e])
        v = EXT[e]
        s = spell(r, e) if r.random() < .4 else e
        return s, by_extension(s) if s in EXT else v
    return r.choice([("C++", "cpp"), ("c++", "cpp"), ("Perl", "perl"), ("Python", "python"), ("Ruby", "ruby"), ("Java", "java"), ("Lisp", "lisp"), ("Scheme", "scheme"), ("Shell", "shell"), ("tcl", "tcl"), ("TCL", "tcl")])


ALIAS = set(LANGS) | {"bash", "dtx"}


def spell(r, n):
    k = r.random()
    return n if k < .5 else n.upper() if k < .7 and n.upper() not in EXT else n.capitalize() if n.capitalize() not in EXT else n


def modeline(r, name):
    a, b = r.choice(COMMENT)
    k = r.random()
    if k < .4:
        s = r.choice(["-*- {} -*-", "-*-{}-*-", "-*- {}-*-", "-*-\t{}\t-*-", "-*-  {}  -*-", "-*- {}"])
        if s == "-*- {}":
            b = ""
    else:
        key = r.choice(["mode", "Mode", "MODE", "mOdE"])
        s = "-*-" + r.choice([" ", "", "\t"]) + key + r.choice([": ", ":", " : ", " :\t"]) + "{}" + r.choice(["", "; tab-width: 4", "; Package: FOO", ";coding:utf-8;"]) + r.choice([" -*-", "-*-" if b == "" else " -*-"])
    return a + s.format(name) + b


def shebang(r, who):
    p = r.choice(["#!/usr/bin/env {}", "#!/usr/bin/{}", "#! /usr/bin/env {}", "#!/usr/local/bin/{}", "#!/bin/{}"])
    if who == "gawk":   # libmagic knows it by this path only
        p = "#!/usr/bin/{}"
    elif who in ("sh", "bash", "ksh", "csh"):
        p = r.choice(["#!/bin/{}", "#! /bin/{}"])
    elif "local" in p and who not in ("perl", "python", "ruby", "php"):
        p = "#!/usr/bin/{}"
    elif p == "#!/bin/{}":
        p = "#!/usr/bin/{}"
    return p.format(who)


def run(ck):
    exe = vlib.build("plain")["driver"]
    r = ck.rng("heads")
    wd = vlib.scratch("p21")
    cases = []
    words = ["some words", "x = 1", "", "mode: perl", "  text", "foo bar baz"]

    def add(name, lines, want, kind):
        nl = r.choice(["\n", "\n", "\n", "\r\n"]) if "shebang alone" not in kind else "\n"
        d = (nl.join(lines) + (nl if r.random() < .8 or "shebang alone" in kind else "")).encode("latin-1")
        ops = [("NEW", 0, name)]
        if r.random() < .7:
            ops.append(("CONT", 0, d))
        else:
            p = os.path.join(wd, f"f{len(cases)}" + r.choice(["", ".c", ".py"]))
            ops += [("WRITE", p, d), ("DISK", 0, p)]
        cases.append(Case([*ops, ("DETECT", 0), ("GETLANG", 0), ("FREE", 0)], path=name, doc=d, want=want, kind=kind))

    plain_files = [f for f in FILES if by_extension(extension(f)) == ""]
    for _ in range(ck.n(12000, 120000)):
        name = r.choice(NAMES)
        rest = [r.choice(words) for _ in range(r.randrange(4))]
        m, lang = modes(r)
        k = r.random()
        if k < .3:
            ml = modeline(r, m)
            if len(ml) > 80:
                continue
            add(name, [ml] + rest, lang, "mode line")
        elif k < .45:      # second line after #!
            add(name, [shebang(r, r.choice(sorted(SHEBANG))), modeline(r, m)] + rest, lang, "mode line after #!")
        elif k < .55:      # stands above the name
            add(r.choice(["", "src/"]) + r.choice(plain_files), [modeline(r, m)] + rest, lang, "mode line in a file of known name")
        elif k < .62:      # too late to count
            add(name, [r.choice(["some words", "# comment"]), modeline(r, m)] + rest, None, "mode line on the second line")
        elif k < .66:
            add(name, ["some words " + "x" * r.choice([71, 75, 90, 200]) + " " + modeline(r, m)], None, "mode line beyond column 80")
        elif k < .72:
            bad = r.choice(["fundamental", "Text", "org", "x", "nosuchmode", "coding: utf-8", "tab-width: 4; mode: perl", "perlish", "pyth on"])
            add(name, ["## " + f"-*- {bad} -*-", *rest], None, "mode line of no language")
        elif k < .76:
            f = r.choice(plain_files)
            add(f, ["## -*- fundamental -*-", *rest], FILES[f], "known name and mode line of no language")
        elif k < .8:       # an extension that says something is above a mode line
            e = r.choice([e for e, v in EXT.items() if not (v or "").startswith("?")])
            add("foo." + e, [modeline(r, m)] + rest, EXT[e], "mode line in a file of known extension")
        elif k < .82:
            e = r.choice([e for e, v in EXT.items() if v is None])
            add(name, [f"# -*- {e} -*-"] + rest, None, "mode line of a binary extension") if e not in ALIAS else None
        elif k < .84:
            add(name, [f"# -*- {r.choice(['h', 'H'])} -*-", *r.choice([(["class Foo {"]), (["int x;"])])], "*", "ambiguous")
            c = cases[-1].meta
            c["want"] = "cpp" if b"H -" in c["doc"] or b"class" in c["doc"] else "c"
        elif k < .96:
            who = r.choice(sorted(SHEBANG))
            add(name, [shebang(r, who), *rest], SHEBANG[who], "shebang alone")
        else:
            add(name, r.choice([["<?php echo 1; ?>"], ["<?php", "echo 1;"]]), "php", "shebang alone, php") if r.random() < .5 else add(name, ["<?xml version=\"1.0\"?>", "<a/>"], "xml", "shebang alone, xml")
    langs = set()
    for c, o in zip(cases, vlib.run_cases(exe, cases, san=False)):
        if isinstance(o, Skipped):
            continue
        if isinstance(o, Crash):
            ck.crash(o, c)
            continue
        x = c.meta
        got = [q["lang"] for q in o if q["op"] in ("DETECT", "GETLANG")]
        ck.evaluated((x["path"], x["doc"]))
        ck.saw(x["kind"])
        langs.add(got[0])
        if got != [x["want"]] * 2:
            ck.violation(f"{x['kind']}: {x['want']} taken for {got[0]}", f"{x['path']}: detected {got}, it is {x['want']}; contents {show(x['doc'], 300)}", c.to_json(), len(x["doc"]))
        elif x["kind"] not in {s["kind"] for s in ck.samples}:
            ck.sample({"kind": x["kind"], "path": x["path"], "contents": show(x["doc"], 100), "language": got[0]}, 8)
    ck.saw("different languages", len(langs))
    ck.require("different languages", 90)
    for k in ("mode line", "mode line after #!", "shebang alone", "mode line in a file of known name"):
        ck.require(k, 100)
