"""P13: counts add up: lists of counts, and the totals of many files, are sums per language."""
import os

import vlib
from check import show
from gen import corpus, mutate
from vlib import Case, Crash, Skipped

RULE = ("an evaluation is one history of operations on counts and lists of counts (adding, merging, compacting, looking up, comparing, totals) whose every result was "
        "compared with a dictionary of sums, or one list of files whose analysis was compared with the sum of the files' own counts; non-trivial: at least three operations")

NAMES = ["c", "cpp", "html", "c++", "C", "", "ruby", "rubyx", "rub", "x" * 40] + [f"lang{i}" for i in range(30)]
BIG = [0, 0, 1, 1, 2, 3, 10, 255, 256, 65536, 10 ** 6, -1, -5]

HEAVY = 2 ** 29   # lists are merged only while no sum of their figures can leave an int


def four(r):
    return [r.choice(BIG) for _ in range(4)]


class Model:
    """An ordered list of [language, code, comments, blanks, files]."""

    def __init__(self):
        self.rows = []

    def add(self, row):
        for x in self.rows:
            if x[0] == row[0]:
                for i in range(1, len(row)):
                    x[i] += row[i]
                return
        self.rows.append(list(row))

    def weight(self):
        return sum(abs(v) for x in self.rows for v in x[1:])

    def totals(self):
        c, m, b, f = [sum(x[i] for x in self.rows) for i in range(1, 5)]
        return [c, m, b, c + m + b, f]


def history(r):
    """ops and, per op, the record fields expected of it."""
    n = r.choice([1, 2, 3])
    names = r.sample(NAMES, r.choice([1, 2, 3, 5, 12, 40]))
    o, want, lists = [], [], []
    for i in range(n):
        o.append(("OLNEW", i))
        want.append({})
        lists.append(Model())
    for _ in range(r.choice([1, 3, 8, 20, 60])):
        i = r.randrange(len(lists))
        k = r.random()
        if k < .5:
            l, v = r.choice(names), four(r)
            o.append(("OLADD", i, l, *v))
            want.append({"total": v[0] + v[1] + v[2]})
            lists[i].add([l] + v)
        elif k < .6:
            j = r.randrange(len(lists))
            if lists[i].weight() + lists[j].weight() > HEAVY:
                continue
            o.append(("OLADDL", i, j))
            want.append({})
            for x in list(lists[j].rows):
                lists[i].add(x)
        elif k < .7 and len(lists) < 9:
            o.append(("OLCOMPACT", len(lists), i))
            want.append({})
            m = Model()
            for x in lists[i].rows:
                if x[1] + x[2] + x[3]:
                    m.add(x)
            lists.append(m)
        elif k < .8:
            l = r.choice(names + ["absent"])
            o.append(("OLGET", i, l))
            want.append({"loc": next((list(x) for x in lists[i].rows if x[0] == l), None)})
        elif k < .9:
            a, b = [r.choice(names)] + four(r), [r.choice(names)] + four(r)
            if r.random() < .4:
                b = list(a)
                if r.random() < .7:
                    q = r.randrange(5)
                    b[q] = r.choice(names) if q == 0 else b[q] + r.choice([0, 1, -1, 256])
            op = r.choice(["OADD", "OEQ"])
            o.append((op, *a, *b))
            if op == "OADD" and a[0] == b[0]:
                a = [a[0]] + [x + y for x, y in zip(a[1:], b[1:])]
            want.append({"eq": int(a == b), "loc": a, "total": a[1] + a[2] + a[3]})
        else:
            o.append(("OLDUMP", i))
            want.append({"loc": [list(x) for x in lists[i].rows], "totals": lists[i].totals()})
    for i in range(len(lists)):
        o.append(("OLDUMP", i))
        want.append({"loc": [list(x) for x in lists[i].rows], "totals": lists[i].totals()})
    for i in range(len(lists)):
        o.append(("OLFREE", i))
        want.append({})
    return o, want


def run(ck):
    exe = vlib.build("plain")["driver"]
    cases = []
    r = ck.rng("algebra")
    for _ in range(ck.n(6000, 60000)):
        o, w = history(r)
        cases.append(Case(o, want=w))
    for c, o in zip(cases, vlib.run_cases(exe, cases, san=False)):
        if isinstance(o, Skipped):
            continue
        if isinstance(o, Crash):
            ck.crash(o, c)
            continue
        ck.evaluated(c.script(), len(c.ops) > 3)
        for op, w, g in zip(c.ops, c.meta["want"], o):
            ck.saw(op[0])
            bad = [k for k in w if g.get(k) != w[k]]
            if bad:
                ck.violation(f"{op[0]} {bad[0]}", f"{op} gave {bad[0]}={g.get(bad[0])}, expected {w[bad[0]]}; history {c.ops[:c.ops.index(op) + 1]}", c.to_json(), len(c.ops))
                break
        else:
            if 6 < len(c.ops) < 12:
                ck.sample({"history": [list(map(str, x)) for x in c.ops]})
    files_part(ck, exe)
    ck.require("OLDUMP", 5000)
    ck.require("OLCOMPACT", 500)
    ck.require("files summed", 500)


def files_part(ck, exe):
    r = ck.rng("files")
    wd = vlib.scratch("p13")
    cor = corpus()
    cases = []
    for k in range(ck.n(150, 1200)):
        root = os.path.join(wd, str(k))
        os.makedirs(root)
        paths = []
        for i in range(r.choice([0, 1, 2, 5, 12, 30])):
            name, d = r.choice(cor)
            sub = os.path.join(root, *[r.choice("abc") for _ in range(r.randrange(3))])
            os.makedirs(sub, exist_ok=True)
            if r.random() < .3:
                d = mutate(r, d[:4000])
            if r.random() < .1:
                d = b""
            p = os.path.join(sub, f"f{i}_" + name) if r.random() < .8 else os.path.join(sub, name)
            with open(p, "wb") as f:
                f.write(d)
            paths.append(p)
        if r.random() < .3:
            open(os.path.join(root, "unknown.qqq"), "w").write("hello\n")
        if r.random() < .5 or not paths:
            add = [("LDIR", 0, root)]
        else:
            paths += [r.choice(paths)] if r.random() < .3 else []     # a file named twice counts twice
            add = [("LFILE", 0, p) for p in paths]
        cases.append(Case([("LNEW", 0), *add, ("LLOC", 0), ("LANA", 0), ("LANA", 0), ("LFREE", 0),
                           ("LNEW", 1), *[(x[0], 1, x[2]) for x in add], ("LANA", 1), ("LFREE", 1)], k=k))
    for c, o in zip(cases, vlib.run_cases(exe, cases, san=False, per_proc=20)):
        if isinstance(o, Skipped):
            continue
        if isinstance(o, Crash):
            ck.crash(o, c)
            continue
        files = next(x for x in o if x["op"] == "LLOC")["files"]
        anas = [x for x in o if x["op"] == "LANA"]
        m = Model()
        for p, rows in files:
            ck.saw("files summed")
            for row in rows:
                m.add(row)
        ck.evaluated(c.script(), len(files) > 1)
        for a in anas:
            if a["loc"] != m.rows or a["totals"] != m.totals():
                ck.violation("files", f"{len(files)} files sum to {m.rows} but analysing them gives {a['loc']} totals {a['totals']}", c.to_json(), len(c.ops))
                break
