"""P20: an ambiguous extension is settled by what the contents and the files beside it say."""
import os

import vlib
from check import show
from detect import EXT, FILES, MAKERS
from vlib import Case, Crash, Skipped

RULE = ("an evaluation is one file with an ambiguous extension whose lines and companions were chosen so that the language is known; "
        "asked from memory or from disk, in any of the directories and letter cases of the extension; non-trivial: distinct contents or companions")
DIRS = ["", "", "src/", "/usr/src/", "a.h/", "x/.y/", "../", "a b/", "c:\\x\\"]


def norm(x):
    return None if x in (None, "\1") else x


def run(ck):
    exe = vlib.build("plain")["driver"]
    r = ck.rng("makers")
    wd = vlib.scratch("p20")
    cases = []

    def add(idn, k):
        names, lines, comp, want = MAKERS[idn](r)
        nl = r.choice(["\n", "\n", "\n", "\r\n", "\r"])
        d = nl.join(x.replace("\n", nl) for x in lines).encode("latin-1") + (nl.encode() if r.random() < .7 else b"")
        if not d:
            d = nl.encode()
        name = r.choice(names)
        if r.random() < .15 and name.rsplit(".", 1)[1].upper() not in EXT and idn != "h":
            name = name.rsplit(".", 1)[0] + "." + name.rsplit(".", 1)[1].upper()
        if r.random() < .12:
            name += ".in"
            if r.random() < .3:
                name += ".in"
        path = r.choice(DIRS) + name
        if name.endswith(".in") and idn == "h" and want == "objective_c":
            path = name
        ops = [("NEW", 0, path)]
        if r.random() < .75:
            ops.append(("CONT", 0, d))
        else:
            p = os.path.join(wd, f"f{k}")
            ops += [("WRITE", p, d), ("DISK", 0, p)]
        if comp is not None:
            ops.append(("FNAMES", 0, *comp))
        ops += [("DETECT", 0), ("GETLANG", 0), ("FREE", 0)]
        cases.append(Case(ops, id=idn, path=path, doc=d, comp=comp, want=want))

    ids = sorted(MAKERS)
    for k in range(ck.n(60000, 500000)):
        add(ids[k % len(ids)], k)
    # .in: as the name without it
    for k in range(ck.n(600, 6000)):
        e = r.choice([x for x in EXT if not (EXT[x] or "").startswith("?")])
        name, want = r.choice([("foo." + e, EXT[e]), ("a.b/foo." + e, EXT[e]), (r.choice([x for x in FILES if "." not in x]), "*")])
        if want == "*":
            want = FILES[name]
        cases.append(Case([("NEW", 0, name + r.choice([".in", ".in", ".IN"])), ("CONT", 0, b"some words\n"), ("DETECT", 0), ("GETLANG", 0), ("FREE", 0)], id="in", path=name, doc=b"some words\n", comp=None, want=want))
    seen = set()
    for c, o in zip(cases, vlib.run_cases(exe, cases, san=False)):
        if isinstance(o, Skipped):
            continue
        if isinstance(o, Crash):
            ck.crash(o, c)
            continue
        x = c.meta
        got = [norm(q["lang"]) for q in o if q["op"] in ("DETECT", "GETLANG")]
        ck.evaluated((x["path"], x["doc"], str(x["comp"])))
        ck.saw("decisions about ." + x["id"])
        seen.add((x["id"], got[0]))
        if got != [x["want"]] * 2:
            ck.violation(f"{x['id']}: {x['want']} taken for {got[0]}", f"{x['path']} beside {x['comp']}: detected {got}, it is {x['want']}; contents {show(x['doc'], 300)}", c.to_json(), len(x["doc"]) + 10 * len(x["comp"] or []))
        elif len(x["doc"]) < 90 and len(x["doc"]) > 20 and (x["id"], got[0]) not in {tuple(s["k"]) for s in ck.samples}:
            ck.sample({"path": x["path"], "contents": show(x["doc"]), "companions": x["comp"], "language": got[0], "k": [x["id"], got[0]]})
    ck.saw("different answers", len(seen))
    ck.require("different answers", 40)
