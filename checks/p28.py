"""P28: every language anything is reported for is known by its name, with its English name and category; no other name is known."""
import json
import os

import vlib
from check import show, u
from detect import EXT, FILES
from gen import LANGS
from monitor import NOT_OWN, may_report
from vlib import VERIF, Case, Crash, Skipped
from workload import well_formed, wild

RULE = ("an evaluation is one name looked up (the 125 known ones; and names near them: other case, cut, lengthened, joined, with the letters a perfect hash looks at kept and the "
        "others changed, random), one language set by such a name, or one document parsed or detected whose every reported language is looked up; the answers are compared with "
        "a table kept outside the code; non-trivial: a distinct name or document")

REG = {k: tuple(v) for k, v in json.load(open(os.path.join(VERIF, "data", "registry.json"))).items()}
NONE = (None, None, -1)


def near(r):
    n = r.choice(sorted(REG))
    k = r.randrange(12)
    c = r.choice("abcdefghijklmnopqrstuvwxyz_0129 -+#.")
    i = r.randrange(len(n))
    return [lambda: n.upper(), lambda: n.capitalize(), lambda: n[:-1], lambda: n[1:], lambda: n + c, lambda: c + n, lambda: n[:i] + c + n[i + 1:], lambda: n[:i] + n[i].upper() + n[i + 1:],
            lambda: n + r.choice(sorted(REG)), lambda: n[0] + "".join(r.choice("abcdefghijklmnopqrstuvwxyz_") for _ in n[1:-1]) + n[-1:],
            lambda: n[:i] + r.choice(sorted(REG))[i:], lambda: "".join(r.choice("abcdefghijklmnopqrstuvwxyz_") for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8, 30, 300])))][k]()


def run(ck):
    exe = vlib.build("asan")["driver"]
    cases = []
    r = ck.rng("names")
    names = sorted(REG) + [near(r) for _ in range(ck.n(30000, 400000))]
    for i in range(0, len(names), 200):
        part = names[i:i + 200]
        cases.append(Case([("NAME", n) for n in part], names=part))
    r = ck.rng("set")
    for i in range(ck.n(3000, 30000)):
        n = r.choice(sorted(REG)) if r.random() < .4 else near(r)
        path, was = r.choice([("a.py", "python"), ("b.rb", "ruby"), ("c.unknown", None), ("x", None)])
        first = r.choice([None, None, "lua", "nosuch"])
        o = [("NEW", 0, path), ("CONT", 0, b"x\n")] + ([("LANG", 0, first)] if first else []) + ([("GETLANG", 0)] if r.random() < .5 else []) + [("LANG", 0, n), ("GETLANG", 0), ("FREE", 0)]
        cases.append(Case(o, set=n, want=REG[n][0] if n in REG else "lua" if first == "lua" else was))
    for lang in LANGS:
        r = ck.rng("doc", lang)
        for i in range(ck.n(25, 250)):
            d = well_formed(r, lang).bytes if i % 2 else wild(r, lang)[1]
            cases.append(Case([("NEW", 0, "x"), ("CONT", 0, d), ("LANG", 0, lang), ("LINES", 0), ("ENTS", 0), ("LOC", 0), ("FREE", 0)], lang=lang, doc=d))
        for a in [k for k, v in REG.items() if v[0] == lang]:
            # each name leads to the machine of its language: a line of it is counted for a language that may appear there
            cases.append(Case([("NEW", 0, "x"), ("CONT", 0, b"x y\n"), ("LANG", 0, a), ("LINES", 0), ("ENTS", 0), ("LOC", 0), ("FREE", 0)], lang=lang, doc=b"x y\n", least=1))
    r = ck.rng("detect")
    for i in range(ck.n(3000, 30000)):
        e = r.choice(sorted(EXT)) if r.random() < .8 else None
        path = f"a.{e}" if e else r.choice(sorted(FILES))
        cases.append(Case([("NEW", 0, path), ("CONT", 0, wild(r, r.choice(LANGS))[1] or b"x"), ("GETLANG", 0), ("FREE", 0)], path=path))
    reported = set()
    for c, o in zip(cases, vlib.run_cases(exe, cases)):
        if isinstance(o, Skipped):
            continue
        m = c.meta
        if isinstance(o, Crash):
            ck.crash(o, c, "")
            continue
        if "names" in m:
            for n, g in zip(m["names"], o):
                want = REG.get(n, NONE)
                got = (g["name"], g["nice"], g["cat"])
                ck.evaluated(("name", n))
                ck.saw("known names looked up" if n in REG else "unknown names looked up")
                if want != got:
                    ck.violation(f"name {n if n in REG else '(unknown)'}", f"{n!r} is {got}, not {want}", Case([("NAME", n)]).to_json(), len(n))
        elif "set" in m:
            got = [x for x in o if x["op"] == "GETLANG"][-1]["lang"]
            ck.evaluated(("set", tuple(c.ops)))
            ck.saw("languages set")
            if got != m["want"]:
                ck.violation("set language", f"after {c.ops} the language is {got!r}, not {m['want']!r}", c.to_json(), len(m["set"]))
        elif "path" in m:
            got = o[2]["lang"]
            ck.evaluated(("detect", tuple(c.ops)), got is not None)
            if got is not None:
                ck.saw("languages detected")
                if got not in LANGS and not (got == "\x01" and m["path"].endswith(".dat")):  # a data file that is not AMPL; a test of the repository asks for it
                    ck.violation(f"detected {got}", f"{m['path']} is of {got!r}, which no table knows", c.to_json())
        else:
            ev, en = o[3]["ev"], o[4]["ev"]
            got = {e[0] for e in ev} | {e[0] for e in en} | {l[0] for l in o[5]["loc"]}
            ck.evaluated(("doc", m["lang"], m["doc"]), bool(got))
            ck.saw("events", len(ev) + len(en))
            reported |= got
            for l in got - may_report(m["lang"]):
                ck.violation(f"{m['lang']}: reported {l}", f"a document of {m['lang']} is reported for {l!r}: {show(m['doc'], 200)}", c.to_json(), len(m["doc"]))
            if len(ev) < m.get("least", 0):
                ck.violation(f"{m['lang']}: no parser", f"{show(m['doc'])} set to {c.ops[2][2]!r} has no line", c.to_json())
    for l in sorted(reported):
        if l not in REG or not REG[l][1]:
            ck.violation(f"reported {l}", f"{l!r} is reported and has no English name in the table")
    ck.saw("languages reported", len(reported))
    ck.require("languages reported", len(LANGS) - len(NOT_OWN))
    ck.require("unknown names looked up", 10000)
    ck.sample({"name": "bash", "language": REG["bash"]})
