"""P25: a file or directory that cannot be read, vanishes or changes counts as what could be read of it, and disturbs nothing else."""
import os
import shutil

import vlib
from check import show
from vlib import Case, Crash, Skipped

RULE = ("an evaluation is one history run as an unprivileged user on files that are unreadable, missing, directories, devices, or vanish, shrink, grow or change between the calls; counts, lines and contents have to be those of a "
        "state the file had (nothing when it could not be read), the other files have to be counted as if it were not there, and no descriptor may stay open; non-trivial: at least one such file")
NOBODY = 65534


def make(r):
    """(bytes, [code, comments, blanks]): distinct counts per content."""
    c, m, b = r.randrange(12), r.randrange(12), r.randrange(6)
    ls = [b"int a%d;" % i for i in range(c)] + [b"// c%d" % i for i in range(m)] + [b""] * b
    r.shuffle(ls)
    return b"".join(x + b"\n" for x in ls), [c, m, b]


def vanishing(r, wd, k):
    """A history of calls on files that change between them; per call the contents the file had so far."""
    paths, ops, cur, had, allow = [], [], {}, {}, []

    def op(*a, of=None):
        ops.append(a)
        allow.append(None if of is None else list(had[of]))

    op("FDS")
    for i in range(r.choice([1, 2, 3])):
        p = os.path.join(wd, f"v{k}_{i}.c")
        d, n = make(r)
        had[i] = []
        if r.random() < .8:
            op("WRITE", p, d)
            had[i].append(d)
        else:
            had[i].append(b"")
        op("NEW", i, p if r.random() < .5 else f"x{i}.c")
        op("DISK", i, p)
        paths.append(p)
    parsed = set()
    for _ in range(r.choice([2, 4, 8, 14])):
        i = r.randrange(len(paths))
        v = r.random()
        if v < .2:
            op("UNLINK", paths[i])
            had[i].append(b"")
        elif v < .4:
            d, n = make(r)
            op("WRITE", paths[i], d)
            had[i].append(d)
        else:
            if r.random() < .4:
                now = had[i][-1]
                if r.random() < .6:      # it changes just when it is read
                    d, n = make(r)
                    if r.random() < .3:
                        d = now[:r.randrange(len(now) + 1)]
                    op("ATREAD", paths[i], d)
                    had[i] += [d, d[:len(now)]]
                else:                    # it is read only so far
                    k = r.choice([0, 1, len(now) // 2, max(len(now) - 1, 0)])
                    op("READFAIL", paths[i], k)
                    had[i] += [b"", now[:k]]
            q = r.choice(["LINES", "ENTS", "LOC", "PARSE", "GETCONT", "SIZE", "LIC", "GETLANG", "DETECT"])
            op(q, i, of=i)
            op("ATHITS")
    for i in range(len(paths)):
        op("FREE", i)
        op("UNLINK", paths[i])
    op("FDS")
    return Case(ops, allow=allow)


def count(d):
    ls = d.split(b"\n")
    if not ls[-1]:
        ls.pop()
    return [sum(bool(x) and not x.startswith(b"//") for x in ls), sum(x.startswith(b"//") for x in ls), sum(not x for x in ls)]


def judge_vanishing(ck, c, o):
    if o[0]["fds"] != o[-1]["fds"]:
        ck.violation("descriptors", f"{o[-1]['fds'] - o[0]['fds']} descriptors stay open after {c.ops}", c.to_json(), len(c.ops))
    for op, a, g in zip(c.ops, c.meta["allow"], o):
        if op[0] == "ATHITS":
            ck.saw("files changing or failing just when they are read", g["hits"])
        if a is None:
            continue
        ck.saw("answers about changing files")
        n = [count(x) for x in a]
        if op[0] == "LINES":
            ev = g["ev"]
            got = [sum(e[1] == q for e in ev) for q in ("lcode", "lcomment", "lblank")]
            ok = got in n
        elif op[0] in ("LOC", "PARSE"):
            rows = g["loc"] if op[0] == "LOC" else [[x[0], *x[1:4]] for x in g["pl"]]
            got = [0, 0, 0] if not rows else rows[0][1:4]
            ok = got in n and len(rows) < 2 and all(x[0] == "c" for x in rows)
        elif op[0] == "GETCONT":
            got = (g["contents"] or "").encode("latin-1")
            ok = got in a and (g["contents"] is None) == (g["size"] == 0) and (g["contents"] is None or g["nul"] == 1)
        elif op[0] == "SIZE":
            got = g["size"]
            ok = got in [len(x) for x in a]
        elif op[0] in ("GETLANG", "DETECT"):
            got = g["lang"]
            ok = got == "c"
        elif op[0] == "LIC":
            got = g["lic"]
            ok = got == []
        else:
            continue
        if not ok:
            ck.violation(f"{op[0]} of a changing file", f"{op[0]} gives {show(repr(got).encode())}; the file had {[show(x, 60) for x in a]}; history {[x for x in c.ops][:20]}"[:1500], c.to_json(), len(c.ops))
            return
    if len(c.ops) < 14:
        ck.sample({"history": [show(repr(x).encode(), 80) for x in c.ops]})


def permissions(ck, r, exe, cli, san, wd, k):
    """A tree with things an unprivileged user cannot read."""
    base = os.path.join(wd, f"p{k}")
    os.makedirs(base)
    want, listed, missing = {}, [], []

    def fill(d, depth, visible):
        for i in range(r.choice([1, 2, 4])):
            p = f"{d}/f{i}." + "c"
            data, n = make(r)
            v = r.random()
            if v < .6:
                open(p, "wb").write(data)
                os.chmod(p, 0o644)
                if visible:
                    listed.append(p)
                    want[p] = [["c", *n, 1]] if sum(n) else []
            elif v < .85:
                open(p, "wb").write(data)
                os.chmod(p, r.choice([0, 0o200, 0o700, 0o600]))
                if visible:
                    listed.append(p)
                    want[p] = []
                    missing.append(p)
            else:
                open(p, "wb").close()
                os.chmod(p, 0o644)
                if visible:
                    listed.append(p)
                    want[p] = []
        if depth:
            for i in range(r.choice([0, 1, 2])):
                p = f"{d}/d{i}"
                os.mkdir(p)
                mode = r.choice([0o755, 0o755, 0o700, 0, 0o744, 0o711])   # only the first can be entered and listed
                fill(p, depth - 1, visible and mode == 0o755)
                os.chmod(p, mode)
                if mode != 0o755:
                    ck.saw("closed directories")

    os.chmod(base, 0o755)
    fill(base, r.choice([0, 1, 2]), True)
    # files named explicitly: unreadable ones, a directory, a device, a missing one
    extra = []
    for p in r.sample([f"{base}/none.c", base, "/dev/null", "/proc/self/stat", f"{base}/f0.c/x.c", "/proc/self/fd"], r.choice([0, 0, 1, 3])):
        extra.append(p)
    ops = [("FDS",), ("LNEW", 0), ("LDIR", 0, base)] + [("LFILE", 0, p) for p in extra] + [("LDUMP", 0), ("LLOC", 0), ("LANA", 0), ("LFREE", 0)]
    regs = []
    for i, p in enumerate(extra + missing[:2]):
        name = r.choice(["x.c", "noext", "y.h", "z.m", "Makefile.in", "q.pl"])
        regs.append(i)
        ops += [("NEW", i, name), ("DISK", i, p), ("DETECT", i), ("LINES", i), ("LIC", i), ("LOC", i), ("FREE", i)]
    ops.append(("FDS",))
    c = Case(ops, want=want)
    o = vlib.run_cases(exe, [c], san=san, jobs=1, uid=NOBODY)[0]
    ck.evaluated(("permissions", k, san), bool(missing))
    ck.saw("unreadable files", len(missing))
    ck.saw("odd files named", len(extra))
    if isinstance(o, Crash):
        ck.crash(o, c, "unreadable files")
        return
    rep = {"ops": [list(map(str, x)) for x in c.ops], "want": want}
    dump = next(x["files"] for x in o if x["op"] == "LDUMP")
    loc = next(x["files"] for x in o if x["op"] == "LLOC")
    ana = next(x for x in o if x["op"] == "LANA")
    if sorted(dump) != sorted(listed + extra):
        ck.violation("list", f"the list of a tree with unreadable parts is {sorted(x[len(base):] for x in dump)}, expected {sorted(x[len(base):] for x in listed)} and {extra}", rep, len(listed))
        return
    for p, l in loc:
        if l != want.get(p, []):
            if p in extra and p.startswith("/proc"):
                continue
            ck.violation("counts beside unreadable files", f"{p}: counted {l}, expected {want.get(p, [])}", rep, len(listed))
            return
    tot = [0, 0, 0, 0]
    for l in want.values():
        for x in l:
            tot = [a + b for a, b in zip(tot, x[1:])]
    if ana["loc"] != ([["c", *tot]] if tot[3] else []):
        ck.violation("sums beside unreadable files", f"the list sums to {ana['loc']}, expected {tot}", rep, len(listed))
    f = [x["fds"] for x in o if x["op"] == "FDS"]
    if f[0] != f[-1]:
        ck.violation("descriptors of unreadable files", f"{f[-1] - f[0]} descriptors stay open", rep, len(listed))
    for x in o:
        if x["op"] == "LINES" and x["ev"] and not any(e.startswith("/proc") for e in extra):
            ck.violation("lines of an unreadable file", f"{x['ev'][:3]}", rep, len(listed))
        if x["op"] == "LIC" and x["lic"]:
            ck.violation("licences of an unreadable file", f"{x['lic']}", rep, len(listed))
    # the command line tool
    rc, out, err = vlib.bounded([cli, "-s", base, *[f"{base}/none.c"]], user=NOBODY, group=NOBODY, extra_groups=[], env=dict(vlib.ENV, **vlib.SAN_ENV))
    out = out.decode("latin-1").split("\n")
    t = [x.split() for x in out if x.startswith("Total")]
    ck.saw("command line runs")
    if rc or not t or [int(t[0][1]), int(t[0][2]), int(t[0][3]), int(t[0][5])] != [tot[3], tot[0], tot[1], tot[2]] or out[0] != f"Bad argument: {base}/none.c":
        ck.violation("command line beside unreadable files", f"exit {rc}, total {t}, expected {tot}; {err[-600:].decode('latin-1')}", rep, len(listed))


def directories(ck, exe, san, r, wd):
    """Directories of every kind of file system given as source files: what seeking in them yields differs."""
    dirs = ["/", "/usr", "/etc", "/usr/lib", "/usr/include", "/tmp", "/proc", "/proc/self", "/proc/self/fd", "/dev", "/dev/shm", "/sys", "/var/tmp", wd]
    cases = []
    for _ in range(ck.n(400, 4000)):
        d = r.choice(dirs)
        name = r.choice(["x.c", "noext", "y.h", "z.m", "Makefile.in", "q.pl", "a.st", "b.b", "c.inc", "d.asx", "e.pro", "f.mod"])
        ask = [r.choice(["LINES", "ENTS", "LOC", "PARSE", "GETCONT", "SIZE", "LIC", "GETLANG", "DETECT"]) for _ in range(r.choice([1, 2, 4]))]
        direct = r.random() < .3
        ops = [("FDS",), ("NEW", 0, d if direct else name)] + ([] if direct else [("DISK", 0, d)]) + ([("LANG", 0, r.choice(["c", "python", "html"]))] if r.random() < .6 else [])
        cases.append(Case(ops + [(a, 0) for a in ask] + [("FREE", 0), ("FDS",)], dir=d))
    for c, o in zip(cases, vlib.run_cases(exe, cases, san=san, uid=NOBODY)):
        if isinstance(o, Skipped):
            continue
        ck.evaluated(c.script())
        if isinstance(o, Crash):
            ck.crash(o, c, "a directory as a source file")
            continue
        ck.saw("directories as source files")
        if o[0]["fds"] != o[-1]["fds"]:
            ck.violation("descriptors of directories", f"{o[-1]['fds'] - o[0]['fds']} descriptors stay open", c.to_json(), 1)
        for op, g in zip(c.ops, o):
            bad = {"LINES": lambda: g["ev"], "ENTS": lambda: g["ev"], "LOC": lambda: g["loc"], "PARSE": lambda: g["pl"], "LIC": lambda: g["lic"],
                   "SIZE": lambda: g["size"] != 0, "GETCONT": lambda: g["contents"] is not None or g["size"] != 0}.get(op[0], lambda: None)()
            if bad:
                ck.violation(f"{op[0]} of a directory", f"{op[0]} of {c.meta['dir']}: {show(repr(g).encode(), 200)}", c.to_json(), len(c.ops))


def log_closed(ck, exe, r):
    """A diff does not need its log: run by a user who cannot write it."""
    log = "/tmp/ohcount.log"
    if not os.path.exists(log):
        open(log, "ab").close()
        os.chmod(log, 0o644)
    cases = []
    for _ in range(ck.n(60, 400)):
        (a, n), (b, m) = make(r), make(r)
        ops = [("FDS",), ("NEW", 0, "a.c"), ("CONT", 0, a), ("NEW", 1, "b.c"), ("CONT", 1, b), ("DIFF", 0, 1), ("FREE", 0), ("FREE", 1), ("FDS",)]
        cases.append(Case(ops, a=n, b=m))
    for c, o, p in zip(cases, vlib.run_cases(exe, cases, san=True, uid=NOBODY), vlib.run_cases(exe, cases, san=True)):
        if isinstance(o, (Skipped,)) or isinstance(p, (Crash, Skipped)):
            continue
        ck.evaluated((c.script()))
        if isinstance(o, Crash):
            ck.crash(o, c, "a diff without its log")
            continue
        ck.saw("diffs without a log")
        if o[5] != p[5] or o[0]["fds"] != o[-1]["fds"]:
            ck.violation("diff without a log", f"{o[5]}, with a log {p[5]}", c.to_json(), 1)


def run(ck):
    asan, plain = vlib.build("asan"), vlib.build("plain")
    wd = vlib.scratch("p25")
    os.chmod(wd, 0o777)
    bins = os.path.join(wd, "bin")     # readable by everyone, wherever /verif lies
    os.mkdir(bins)
    for n, b in (("asan", asan), ("plain", plain)):
        for w in ("driver", "cli"):
            shutil.copy(b[w], os.path.join(bins, f"{n}-{w}"))
            os.chmod(os.path.join(bins, f"{n}-{w}"), 0o755)
    os.chmod(bins, 0o755)
    r = ck.rng("changing")
    vd = os.path.join(wd, "changing")
    os.mkdir(vd)
    os.chmod(vd, 0o777)
    cases = [vanishing(r, vd, k) for k in range(ck.n(5000, 60000))]
    for san, cs in ((False, cases), (True, [vanishing(r, vd, f"s{k}") for k in range(ck.n(1200, 10000))])):
        for c, o in zip(cs, vlib.run_cases(os.path.join(bins, "asan-driver" if san else "plain-driver"), cs, san=san, uid=NOBODY)):
            if isinstance(o, Skipped):
                continue
            ck.evaluated(c.script())
            if isinstance(o, Crash):
                ck.crash(o, c, "changing files")
                continue
            judge_vanishing(ck, c, o)
    r = ck.rng("permissions")
    for k in range(ck.n(150, 1500)):
        san = k % 2 == 0
        n = "asan" if san else "plain"
        permissions(ck, r, os.path.join(bins, n + "-driver"), os.path.join(bins, n + "-cli"), san, wd, k)
    for n in ("asan", "plain"):
        directories(ck, os.path.join(bins, n + "-driver"), n == "asan", ck.rng("dir", n), wd)
    log_closed(ck, os.path.join(bins, "asan-driver"), ck.rng("log"))
    ck.require("answers about changing files", 3000)
    ck.require("files changing or failing just when they are read", 100)
    ck.require("unreadable files", 50)
    ck.require("closed directories", 20)
    ck.require("diffs without a log", 40)
    ck.require("directories as source files", 400)
