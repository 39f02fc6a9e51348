"""P23: a directory is examined by looking once at every regular file in it, at any depth, and at nothing else."""
import os
import socket
import stat

import vlib
from check import show
from vlib import Case, Crash, Skipped

RULE = ("an evaluation is one file list filled from files and directories of random trees (hidden files and directories, symbolic links to anything, pipes, sockets, odd names, deep and wide); "
        "its paths have to be those of an independent walk of the tree, each once per time its directory was added, and no descriptor may stay open; non-trivial: at least one file")
NAMES = [b"a.c", b"b.py", b"Makefile", b"README", b"x y.rb", b"-i", b"new\nline.c", b"tab\t.c", b"\xff\xfe.c", "héé.py".encode(), b"..c", b"...", b"..x", b"a" * 255, b"%s%n.c", b"*.c", b"~", b"$HOME", b"'q'.c", b'"', b"\\x.c", b"c", b"h.in",
         b"#a#", b"a~", b"CMakeLists.txt", b"x.", b"x..", b"foo.png", b"core", b"Z", b" ", b"  .c", b"-", b"--help", b"a;b.c"]
HIDDEN = [b".a.c", b".profile", b".x", b"..hidden.py", b".gitignore"]
DIRS = [b"src", b"d.c", b"lib", b"x y", b"..d", b"...", b"-s", b"nl\nd", b"\xe9", b"a" * 200, b"deep", b"Makefile", b".git", b".hidden", b"..h", b"CVS", b".svn", b"build"]


def tree(r, root, depth, budget, st):
    """Fill root."""
    used = set()
    for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
        if budget[0] <= 0:
            return
        budget[0] -= 1
        k = r.random()
        if k < .45 or depth <= 0 and k < .75:
            n = r.choice(NAMES) if r.random() < .7 else r.choice(HIDDEN) if r.random() < .5 else b"f%d.%s" % (r.randrange(99), r.choice([b"c", b"h", b"py", b"zzz"]))
            if n in used:
                continue
            used.add(n)
            p = os.path.join(root, n)
            with open(p, "wb") as f:
                f.write(r.choice([b"", b"x\n", b"int a;\n// c\n\n"]))
            if r.random() < .05:
                os.chmod(p, 0)
            st["regular files"] += 1
            if n.startswith(b"."):
                st["hidden files"] += 1
        elif k < .75:
            n = r.choice(DIRS)
            if n in used:
                continue
            used.add(n)
            p = os.path.join(root, n)
            os.mkdir(p)
            st["directories"] += 1
            if n.startswith(b"."):
                st["hidden directories"] += 1
            tree(r, p, depth - 1, budget, st)
        else:
            n = r.choice(NAMES + DIRS + HIDDEN)
            if n in used:
                continue
            used.add(n)
            p = os.path.join(root, n)
            v = r.random()
            if v < .2:
                os.symlink(r.choice([b"/etc/passwd", b"a.c", b"../a.c", b"b.py"]), p)
            elif v < .5:
                os.symlink(r.choice([b".", b"..", b"/", b"src", root, b"../..", b"/etc"]), p)
            elif v < .6:
                os.symlink(r.choice([b"nowhere", n, b"/no/such/file.c"]), p)
            elif v < .75:
                os.mkfifo(p)
            elif v < .85:
                if len(p) < 100:
                    s = socket.socket(socket.AF_UNIX)
                    s.bind(p)
                    s.close()
            else:
                others = [os.path.join(root, x) for x in used if os.path.isfile(os.path.join(root, x)) and not os.path.islink(os.path.join(root, x))]
                if others:
                    os.link(r.choice(others), p)      # a second name of a regular file is a file of its own
                    st["hard links"] += 1
            st["links, pipes, sockets"] += 1


def walk(d):
    """The paths of the regular files below d, as d + '/' + what follows."""
    out = []
    for n in os.listdir(d):
        p = d + b"/" + n
        if len(p) + 1 > 4096:
            continue
        m = os.lstat(p).st_mode
        if stat.S_ISREG(m):
            out.append(p)
        elif stat.S_ISDIR(m) and not n.startswith(b"."):
            out += walk(p)
    return out


def run(ck):
    exe = vlib.build("plain")["driver"]
    asan = vlib.build("asan")["driver"]
    r = ck.rng("trees")
    wd = vlib.scratch("p23").encode()
    st = {k: 0 for k in ("regular files", "hidden files", "directories", "hidden directories", "links, pipes, sockets", "hard links")}
    cases = []
    for i in range(ck.n(1500, 12000)):
        base = os.path.join(wd, b"t%d" % i)
        os.mkdir(base)
        roots, files = [], []
        for j in range(r.choice([1, 1, 1, 2, 3])):
            root = os.path.join(base, r.choice([b"r%d", b"r %d", b".r%d", b"r%d.c", b"r\n%d"]) % j)
            os.mkdir(root)
            tree(r, root, r.choice([0, 1, 3, 6]), [r.choice([0, 3, 12, 40])], st)
            roots.append(root)
        if r.random() < .05:
            p = roots[0]
            for _ in range(r.choice([20, 60])):
                p = os.path.join(p, b"d" * r.choice([1, 30, 60]))
                if len(p) > 3900:
                    break
                os.mkdir(p)
                if r.random() < .3:
                    open(os.path.join(p, b"x.c"), "wb").write(b"x\n")
            st["deep chains"] = st.get("deep chains", 0) + 1
        if r.random() < .05:
            n = r.choice([100, 500])
            for q in range(n):
                open(os.path.join(roots[0], b"many%d.c" % q), "wb").close()
            st["wide directories"] = st.get("wide directories", 0) + 1
        ops, want = [("FDS",), ("LNEW", 0), ("LDUMP", 0)], []
        for root in roots:
            for _ in range(r.choice([1, 1, 1, 2])):
                v = r.random()
                if v < .7:
                    ops.append(("LDIR", 0, root))
                    want += walk(root)
                elif v < .8:
                    ops.append(("LDIR", 0, root + b"/"))     # as given, then '/'
                    want += walk(root + b"/")
                elif v < .9:
                    f = walk(root)
                    if f:
                        p = r.choice(f)
                        ops.append(("LFILE", 0, p))
                        want.append(p)
                else:
                    ops.append(("LDIR", 0, root + r.choice([b"/no such", b"/../none"])))
        ops += [("LDUMP", 0), ("FDS",), ("LFREE", 0)]
        cases.append(Case(ops, want=sorted(want), base=base.decode("latin-1")))
    for san, which in ((False, cases), (True, cases[:ck.n(200, 1500)])):
        for c, o in zip(which, vlib.run_cases(asan if san else exe, which, san=san)):
            if isinstance(o, Skipped):
                continue
            if isinstance(o, Crash):
                ck.crash(o, c)
                continue
            judge(ck, c, o)
    chain(ck, exe, asan)
    for k, v in st.items():
        ck.saw(k, v)
    for k in st:
        ck.require(k, 30)
    ck.require("paths reported", 5000)


def judge(ck, c, o):
    base = c.meta["base"]
    dumps = [x["files"] for x in o if x["op"] == "LDUMP"]
    fds = [x["fds"] for x in o if x["op"] == "FDS"]
    want = [x.decode("latin-1") for x in c.meta["want"]]
    got = sorted(dumps[-1])
    ck.evaluated(repr(sorted(x[len(base):] for x in want)), bool(want))
    ck.saw("paths reported", len(got))
    adds = [(x[0], x[2]) for x in c.ops if x[0] in ("LDIR", "LFILE")]
    if dumps[0]:
        ck.violation("new list", f"a new list holds {dumps[0]}", None)
    if got != want:
        miss, extra = [x for x in want if x not in got], [x for x in got if x not in want]
        k = "missed" if miss else "extra" if extra else "number of times"
        what = (miss or extra or [x for x in want if want.count(x) != got.count(x)])[0]
        try:
            m = os.lstat(what.encode("latin-1")).st_mode
            kind = "link" if stat.S_ISLNK(m) else "directory" if stat.S_ISDIR(m) else "pipe" if stat.S_ISFIFO(m) else "file" if stat.S_ISREG(m) else "other"
        except OSError:
            kind = "nothing"
        hid = "hidden " if any(x.startswith(".") for x in what[len(base):].split("/")[2:]) else ""
        ck.violation(f"{k} {hid}{kind}", f"after adding {adds}: {k} {what!r}; {len(want)} expected, {len(got)} reported", {"adds": [(a, show(b)) for a, b in adds], "want": want[:200], "got": got[:200]}, len(want))
    elif fds[0] != fds[-1]:
        ck.violation("descriptors", f"after adding {adds}: {fds[-1] - fds[0]} more descriptors are open", None, len(want))
    elif 1 < len(want) < 5:
        ck.sample({"added": [show(b[len(base):]) for _, b in adds], "files": [x[len(base):] for x in want]})


def chain(ck, exe, asan):
    """Paths around and beyond the longest that can be opened: files that fit are reported, nothing breaks."""
    wd = vlib.scratch("p23c").encode()
    for k, total in enumerate([4000, 4090, 4093, 4094, 4095, 4096, 4097, 4100, 4300, 5000, 8300]):
        base = os.path.join(wd, b"c%d" % k)
        os.mkdir(base)
        want = []
        fd = os.open(base, os.O_RDONLY)
        n = len(base)
        while n < total:
            part = min(200, total - n - 1)
            if part <= 0:
                break
            name = b"d" * part
            os.mkdir(name, dir_fd=fd)
            f2 = os.open(name, os.O_RDONLY, dir_fd=fd)
            os.close(fd)
            fd = f2
            n += part + 1
            for f in (b"a.c", b"b" * 50, b"c"):
                q = os.open(f, os.O_CREAT | os.O_WRONLY, dir_fd=fd)
                os.write(q, b"x\n")
                os.close(q)
                if n + 1 + len(f) + 1 <= 4096:
                    want.append(n + 1 + len(f))
        os.close(fd)
        for san in (False, True):
            o = vlib.run_cases(asan if san else exe, [Case([("FDS",), ("LNEW", 0), ("LDIR", 0, base), ("LDUMP", 0), ("LLOC", 0), ("FDS",), ("LFREE", 0)])], san=san)[0]
            ck.evaluated(("chain", total, san))
            ck.saw("over-long chains")
            if isinstance(o, Crash):
                ck.crash(o, Case([("LDIR", 0, base)]), f"a path of {total} bytes")
                continue
            lens = sorted(len(x) for x in o[3]["files"])
            if lens != sorted(want):
                ck.violation("long paths", f"a chain of directories of {total} bytes: {len(lens)} files reported, longest {lens[-1:]}; expected {len(want)}, longest {max(want)}", None, total)
            elif [x for x in o[4]["files"] if x[1] and x[1][0][:2] != ["c", 1]]:
                ck.violation("long paths counted", "files of long paths are counted wrongly", None, total)
            elif o[0]["fds"] != o[5]["fds"]:
                ck.violation("descriptors of long paths", f"{total} bytes: descriptors stay open", None, total)
    spelt(ck, exe, asan)


def spelt(ck, exe, asan):
    """Directories given as strings around the longest that can be opened, of directories there are and of such as there are not."""
    base = vlib.scratch("p23d").encode()
    names = (b"c", b"a.c", b"b" * 50, b"sub/x.c")
    os.mkdir(base + b"/sub")
    for f in names:
        with open(base + b"/" + f, "wb") as q:
            q.write(b"x\n")
    cases = []
    for n in list(range(4030, 4110)) + [4200, 5000, 8191, 8192, 8193, 20000]:
        pad = n - len(base)
        there = base + b"/." * (pad // 2) + b"/" * (pad % 2)
        for d in (there, b"x" * n, base + b"/" + b"y" * (pad - 1)):
            want = [d + b"/" + f for f in names if d is there and len(d) + 1 + len(f) <= 4095]
            cases.append(Case([("FDS",), ("LNEW", 0), ("LDIR", 0, d), ("LDUMP", 0), ("LLOC", 0), ("FDS",), ("LFREE", 0)], want=sorted(want), n=n))
    for san in (False, True):
        for c, o in zip(cases, vlib.run_cases(asan if san else exe, cases, san=san)):
            ck.evaluated(("spelt", c.ops[2][2], san), bool(c.meta["want"]))
            ck.saw("over-long directory strings")
            if isinstance(o, Skipped):
                continue
            if isinstance(o, Crash):
                ck.crash(o, c, f"a directory given in {c.meta['n']} bytes")
                continue
            got = sorted(x.encode("latin-1") for x in o[3]["files"])
            if got != c.meta["want"]:
                ck.violation("long directory strings", f"a directory given in {c.meta['n']} bytes: {len(got)} files reported, {len(c.meta['want'])} expected", None, c.meta["n"])
            elif o[0]["fds"] != o[5]["fds"]:
                ck.violation("descriptors of long directory strings", f"{c.meta['n']} bytes: descriptors stay open", None, c.meta["n"])
