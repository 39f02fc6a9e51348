"""P24: the command line tool says what the library says, about every path given to it."""
import os
import re
import struct
from concurrent.futures import ThreadPoolExecutor

import vlib
from check import show
from detect import EXT
from embed import EMB, make_embedded
from gen import corpus
from p17 import choose, document
from vlib import Case, Crash, Skipped
from workload import well_formed

RULE = ("an evaluation is one run of the command line tool on a set of paths (files, directories, missing ones, none) with one of its options; its output has to consist of what the library's callbacks, counts, "
        "languages and licences say of the same files, in order, the annotated lines have to make up the files, and the summary has to be the sum; non-trivial: distinct options and contents")
OPTS = ["-a", "--annotate", "-d", "--detect", "-i", "--individual", "-l", "--license", "-re", "-s", "--summary", None, None]
LANGEXT = {}
for _e, _v in sorted(EXT.items()):
    if _v and not _v.startswith("?"):
        LANGEXT.setdefault(_v, []).append(_e)


def content(r, cor):
    """(name, bytes)"""
    k = r.random()
    if k < .35:
        lang = r.choice(sorted(LANGEXT))
        d = well_formed(r, lang, nl=r.choice([b"\n", b"\n", b"\n", b"\r\n", b"\r"]))
        d = d.bytes
        if r.random() < .2:
            d = d.rstrip(b"\r\n")
        return b"f." + r.choice(LANGEXT[lang]).encode("latin-1"), d
    if k < .6:
        n, d = r.choice(cor)
        return n.encode("latin-1", "replace"), d
    if k < .75:
        lang, d = document(r, choose(r))
        return b"l." + r.choice(LANGEXT.get(lang, ["c"])).encode("latin-1"), d
    if k < .8:
        return r.choice([b"x.png", b"README", b"unknown.zzz", b"noext"]), r.choice([b"", b"words\n", b"%PDF-1.4\n", b"\x89PNG\r\n"])
    if k < .85:
        return r.choice([b"e.c", b"e.py", b"e.html"]), r.choice([b"", b"\n", b"x", b" ", b"\n\n\n", b"//", b"\r", b"int a;\n  "])
    return r.choice([b"a.html", b"a.php", b"a.erb"]), b"<p>\n<script type=\"text/javascript\">\n// c\nvar x;\n\n</script>\n<style type=\"text/css\">\n/* c */\np { }\n</style>\n<?php\n# c\necho 1;\n?>\n</p>\n" * r.choice([1, 3])


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def percent(com, code):
    return 100.0 * com / (com + code)


NUM = r" +(-?\d+)"


class Bad(Exception):
    pass


def need(cond, key, detail):
    if not cond:
        raise Bad((key, detail))


def rows_ok(code, com, blank, pct, total, what):
    need(total == code + com + blank, "row total", f"{what}: {code}+{com}+{blank} is not {total}")
    if code + com > 0:
        need(pct is not None and abs(float(pct) - percent(com, code)) < .0501, "percentage", f"{what}: {pct}% of {com} comments and {code} code")


def parse_summary(out, nfiles, want):
    m = re.match(rb"Examining (\d+) file\(s\)\n", out)
    need(m and int(m[1]) == nfiles, "number of files", f"{out[:60]!r}, {nfiles} files")
    body = out.split(b"\n")
    rule = [i for i, x in enumerate(body) if re.fullmatch(rb"-+( +-+)+", x)]
    need(len(rule) == 2, "table", out[:300].decode("latin-1"))
    need(body[rule[0] - 1].split() == b"Language Files Code Comment Comment % Blank Total".split(), "names of columns", repr(body[rule[0] - 1]))
    rows = []
    for x in body[rule[0] + 1:rule[1]] + [body[rule[1] + 1]]:
        q = re.fullmatch(r"(\S+)" + NUM + NUM + NUM + r" +([\d.]+)%" + NUM + NUM, x.decode("latin-1"))
        need(q, "row", repr(x))
        rows.append([q[1]] + [int(q[i]) for i in (2, 3, 4)] + [q[5], int(q[6]), int(q[7])])
    *rows, tot = rows
    got = {}
    for l, f, code, com, pct, bl, t in rows:
        need(l not in got, "language twice", l)
        got[l] = [code, com, bl, f]
        rows_ok(code, com, bl, pct, t, l)
    need(got == want, "sums", f"printed {got}, the files say {want}")
    codes = [x[2] for x in rows]
    need(codes == sorted(codes, reverse=True), "order", f"rows are not in descending order of code: {codes}")
    s = [sum(x[i] for x in want.values()) for i in range(4)]
    need(tot[0] == "Total" and [tot[2], tot[3], tot[5], tot[1]] == s, "Total", f"{tot}, expected {s}")
    rows_ok(tot[2], tot[3], tot[5], tot[4], tot[6], "Total")
    need(body[rule[1] + 2:] == [b""], "after the table", repr(body[rule[1] + 2:]))


def parse_individual(out, files):
    m = re.match(rb"Examining (\d+) file\(s\)\n", out)
    need(m and int(m[1]) == len(files), "number of files", f"{out[:60]!r}, {len(files)} files")
    at = out.find(b"\n-----")
    need(at >= 0, "table", out[:300].decode("latin-1"))
    head = out[:at].rsplit(b"\n", 1)[-1]
    need(head.split() == b"Language Code Comment Comment % Blank Total File".split(), "names of columns", repr(head))
    rest = out[out.index(b"\n", at + 1) + 1:]
    for path, loc in files:
        for l, code, com, bl, _ in sorted(loc, key=lambda x: x[0].encode("latin-1")):
            q = re.match((r"(\S+)" + NUM + NUM + r"(?: +([\d.]+)%| +)" + NUM + NUM + "  ").encode(), rest)
            need(q, "row", f"{show(rest, 120)} where {path} {l} should stand")
            need(rest[q.end():].startswith(path.encode("latin-1") + b"\n"), "path of a row", f"{show(rest, 200)} where {path} should stand")
            g = [q[1].decode()] + [int(q[i]) for i in (2, 3, 5)]
            need(g == [l, code, com, bl], "individual counts", f"{path}: printed {g}, the file says {[l, code, com, bl]}")
            rows_ok(code, com, bl, q[4], int(q[6]), path)
            rest = rest[q.end() + len(path.encode("latin-1")) + 1:]
    need(rest == b"", "after the table", show(rest))


def run(ck):
    bld = vlib.build("plain")
    asan = vlib.build("asan")
    r = ck.rng("runs")
    cor = corpus()
    wd = vlib.scratch("p24").encode()
    plans, cases = [], []
    for k in range(ck.n(1200, 9000)):
        base = os.path.join(wd, b"t%d" % k)
        os.makedirs(base)
        dirs = [base]
        for _ in range(r.choice([0, 0, 1, 3])):
            d = os.path.join(r.choice(dirs), r.choice([b"src", b"lib", b"x y", b"d.c", b"..d", b"n\nl", b".hid", b"%s"]))
            os.makedirs(d, exist_ok=True)
            dirs.append(d)
        files = []
        for i in range(r.choice([0, 1, 1, 2, 4, 9])):
            n, d = content(r, cor)
            if r.random() < .1:
                for _ in range(r.choice([1, 3])):
                    at = r.randrange(len(d) + 1)
                    d = d[:at] + b"\0" + d[at:]
            p = os.path.join(r.choice(dirs), r.choice([b"", b"", b"%d" % i, b"%s%n ", b"x y "]) + n)
            with open(p, "wb") as f:
                f.write(d)
            files.append(p)
        if r.random() < .25:
            os.symlink(r.choice(files or [b"x"]), base + b"/link.c")
        if r.random() < .3:
            os.symlink(b".", base + b"/loop")
        # what is asked for
        opt = OPTS[k % len(OPTS)]
        args = []
        for _ in range(r.choice([0, 1, 1, 1, 2, 4])):
            v = r.random()
            if v < .35 or not files and v < .8:
                args.append(r.choice(dirs) + r.choice([b"", b"", b"/"]))
            elif v < .8:
                args.append(r.choice(files))
            elif v < .9:
                args.append(base + r.choice([b"/missing.c", b"/no/such", b"/%s"]))
            else:
                args.append(os.path.join(b".", os.path.relpath(r.choice(files or dirs), base)))
        if opt is None and args and args[0].startswith(b"-"):
            args[0] = b"./" + args[0]
        ops, bad = [("LNEW", 0)], []
        for a in args or [b"."]:
            full = os.path.join(base, a)
            if os.path.isdir(full):
                ops.append(("LDIR", 0, a))
            elif os.path.exists(full):
                ops.append(("LFILE", 0, a))
            else:
                bad.append(a)
        plans.append(dict(opt=opt, args=args, bad=bad, base=base, case=Case(ops + [("LDUMP", 0), ("LLOC", 0), ("LFREE", 0)])))
    # the library's word on each
    for p in plans:
        o = vlib.run_cases(bld["driver"], [p["case"]], jobs=1, san=False, cwd=p["base"])[0]
        if isinstance(o, Crash):
            ck.crash(o, p["case"], "counting")
            p["files"] = None
            continue
        p["files"] = [x["files"] for x in o if x["op"] == "LDUMP"][0]
        p["loc"] = [x["files"] for x in o if x["op"] == "LLOC"][0]
    index = []
    for p in plans:
        for f in p["files"] or []:
            full = os.path.join(p["base"], f.encode("latin-1")).decode("latin-1")
            index.append((p, f, Case([("NEW", 0, f), ("DISK", 0, full), ("GETLANG", 0), ("LINES", 0), ("ENTS", 0), ("LIC", 0), ("FREE", 0)])))
    for (p, f, c), o in zip(index, vlib.run_cases(bld["driver"], [c for _, _, c in index], san=False)):
        if isinstance(o, (Crash, Skipped)):
            p["files"] = None
            continue
        p.setdefault("say", {})[f] = {x["op"]: x for x in o}

    endless = []

    def go(p):
        argv = ([p["opt"]] if p["opt"] else []) + [a.decode("latin-1").encode("latin-1") for a in p["args"]]
        exe = asan["cli"] if p.get("san") else bld["cli"]
        if len(endless) > 3:
            return None
        q = vlib.bounded([exe, *argv], cwd=p["base"], env=dict(vlib.ENV, **vlib.SAN_ENV))
        if q[0] in ("timeout", -25):   # SIGXFSZ: output without end
            endless.append(p)
        return q

    ok = [p for p in plans if p["files"] is not None]
    for i, p in enumerate(ok):
        p["san"] = i % 3 == 0
    with ThreadPoolExecutor(vlib.JOBS) as ex:
        outs = list(ex.map(go, ok))
    for p, q in zip(ok, outs):
        if q is None:
            continue
        rc, out, err = q
        opt = p["opt"] or "(none)"
        kind = {"-a": "annotate", "-d": "detect", "-i": "individual", "-l": "license", "-s": "summary"}.get(opt[:2] if opt[1] != "-" else "-" + opt[2], "summary") if opt not in ("-re", "(none)") else "raw entities" if opt == "-re" else "summary"
        say = p.get("say", {})
        contents = {f: open(os.path.join(p["base"], f.encode("latin-1")), "rb").read() for f in p["files"]}
        ck.evaluated((opt, str([(f, contents[f]) for f in p["files"]])))
        ck.saw("runs: " + kind)
        ck.saw("files examined", len(p["files"]))
        ck.saw("files with NUL bytes", sum(b"\0" in x for x in contents.values()))
        size = sum(map(len, contents.values())) + 50 * len(p["args"])
        rep = {"option": opt, "args": [show(a, 300) for a in p["args"]], "files": {f: contents[f].decode("latin-1")[:5000] for f in p["files"][:8]}}
        try:
            need(rc == 0, "exit status", f"{rc}: {err[-1500:].decode('latin-1')}")
            pre = b"".join(b"Bad argument: " + a + b"\n" for a in p["bad"])
            need(out.startswith(pre), "missing paths", f"{show(out)} should begin with {show(pre)}")
            ck.saw("missing paths", len(p["bad"]))
            out = out[len(pre):]
            if kind == "annotate":
                want = b""
                for f in p["files"]:
                    d, at = contents[f], 0
                    for l, e, s, t in say[f]["LINES"]["ev"]:
                        want += l.encode() + b"\t" + e.encode() + b"\t" + d[s:t]
                        ck.saw("annotated lines")
                need(out == want, "annotated lines", f"printed {show(out, 200)}, the lines are {show(want, 200)}")
                if len(p["files"]) == 1:
                    d = contents[p["files"][0]]
                    if say[p["files"][0]]["GETLANG"]["lang"] and b"?>" not in d and b"\0" not in d:
                        back = re.sub(rb"(?m)^[a-z0-9_+]+\tl(code|comment|blank)\t", b"", out) if b"\r" not in d.replace(b"\r\n", b"") and b"\f" not in d else None
                        if back is not None and not re.search(rb"(?m)^[a-z0-9_+]+\tl(code|comment|blank)\t", d):
                            ck.saw("files put together again")
                            d = bare(d)
                            back = bare(back)
                            need(back == d or back + re.search(rb"[ \t\v]*$", d)[0] == d, "annotated file", f"the annotated lines make up {show(back, 300)}, the file is {show(d, 300)}")
            elif kind == "detect":
                want = b"".join((say[f]["GETLANG"]["lang"] or "(null)").encode() + b"\t" + f.encode("latin-1") + b"\n" for f in p["files"])
                need(out == want, "detected languages", f"printed {show(out, 300)}, expected {show(want, 300)}")
            elif kind == "license":
                want = b""
                for f in p["files"]:
                    lic = say[f]["LIC"]["lic"]
                    n = f.replace("\\", "/").rsplit("/", 1)[-1].encode("latin-1")
                    for i, x in enumerate(lic):
                        want += x.encode() + (b", " if i < len(lic) - 1 else b" ") + n + b"\n"
                    ck.saw("licences printed", len(lic))
                need(out == want, "licences", f"printed {show(out, 300)}, expected {show(want, 300)}")
            elif kind == "raw entities":
                want = b"".join(f"{l}\t{e}\t{s}\t{t}\n".encode() for f in p["files"] for l, e, s, t in say[f]["ENTS"]["ev"])
                ck.saw("entities printed", want.count(b"\n"))
                need(out == want, "entities", f"printed {show(out, 300)}, expected {show(want, 300)}")
            else:
                own = [[f, fold(say[f]["LINES"]["ev"])] for f in p["files"]]
                need([[f, sorted(l)] for f, l in p["loc"]] == [[f, sorted(l)] for f, l in own], "counts of a list", f"{p['loc']} and {own}"[:600])
                if kind == "individual":
                    parse_individual(out, own)
                else:
                    tot = {}
                    for _, loc in own:
                        for l, *x in loc:
                            tot[l] = [a + b for a, b in zip(tot.get(l, [0] * 4), x)]
                    parse_summary(out, len(p["files"]), tot)
            if len(p["files"]) == 1 and len(out) < 400 and out:
                ck.sample({"option": opt, "args": rep["args"], "printed": show(out, 400)})
        except Bad as e:
            key, detail = e.args[0]
            ck.violation(f"{kind}: {key}", f"ohcount {opt} {rep['args']}: {detail}", rep, size)
    if not endless:
        fixed_runs(ck, bld["cli"], wd)
    for k in ("annotate", "detect", "individual", "license", "raw entities", "summary"):
        ck.require("runs: " + k, 15)
    ck.require("files put together again", 3)
    ck.require("missing paths", 10)
    ck.require("files with NUL bytes", 30)
    ck.require("licences printed", 5)


def bare(d):
    """Lines of white space are reported without it."""
    return re.sub(rb"(?m)^[ \t\v]+(?=\r?\n)", b"", d)


def fold(ev):
    out = {}
    for l, k, _, _ in ev:
        x = out.setdefault(l, [0, 0, 0, 1])
        x[{"lcode": 0, "lcomment": 1, "lblank": 2}[k]] += 1
    return [[l, *x] for l, x in out.items()]


def fixed_runs(ck, cli, wd):
    """Long lines, odd sizes, the help text, a whole tree."""
    d = os.path.join(wd, b"fixed")
    os.mkdir(d)

    def call(*a):
        return vlib.bounded([cli, *a], cwd=d, env=vlib.ENV)[:2]

    for n in (1, 4095, 4096, 65536, 1 << 20, 12_000_000):
        for name, line in ((b"a.c", b"x" * n), (b"a.py", b"#" + b"y" * n), (b"a.rb", b" " * n)):
            t = b"int a;\n" + line + b"\nz\n"
            with open(os.path.join(d, name), "wb") as f:
                f.write(t)
            rc, out = call("-a", name)
            back = re.sub(rb"(?m)^[a-z]+\tl(code|comment|blank)\t", b"", out)
            ck.evaluated(("long line", n, name))
            ck.saw("long lines annotated")
            if rc or bare(back) != bare(t):
                ck.violation("annotate: long line", f"a line of {n} bytes in {name}: exit {rc}, {len(back)} of {len(t)} bytes come back", {"bytes": n})
            rc, out = call("-s", name)
            if rc or not re.search(rb"Total +1 +\d+", out):
                ck.violation("summary: long line", f"a line of {n} bytes in {name}: exit {rc}, {show(out[-100:])}", {"bytes": n})
                if rc == "timeout":
                    return
    for o in ("-h", "--help"):
        rc, out = call(o)
        ck.evaluated(("help", o))
        if rc or not out.startswith(b"Usage: ohcount") or not all(x in out for x in (b"--annotate", b"--detect", b"--individual", b"--license", b"-re", b"--summary")) or b"Examining" in out or b"----" in out or call(o, b"a.c", b"a.py") != (rc, out):
            ck.violation("help", f"{o}: exit {rc}, {show(out)}", {})
    # many paths, few descriptors
    paths, n = [], 0
    for i in range(60):
        os.mkdir(os.path.join(d, b"m%d" % i))
        for f in (b"m%d/x.c" % i, b"y%d.py" % i):
            with open(os.path.join(d, f), "wb") as q:
                q.write(b"x = 1;\n")
        paths += [b"m%d" % i, b"y%d.py" % i]
    for o in ("-s", "-d", "-a", "-i", "-l", "-re"):
        for some in (paths, paths[::2], paths[1::2]):
            rc, out = vlib.bounded(["prlimit", "--nofile=20", cli, o, *some], cwd=d, env=vlib.ENV)[:2]
            want = call(o, *some)
            ck.evaluated(("few descriptors", o, len(some)))
            ck.saw("paths given with few descriptors", len(some))
            said = out.count(b"x = 1;\n") if o == "-a" else out.count(b"\n") if o == "-d" else len(some) if b"Examining %d " % len(some) in out or o in ("-l", "-re") else 0
            if rc or out != want[1] or said != len(some):
                ck.violation("few descriptors", f"{o} on {len(some)} paths with 20 descriptors: exit {rc}, {show(out[:200])}", {"option": o})
