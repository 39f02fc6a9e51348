"""P14: deltas add up: lists of deltas are sums per language, nets are added minus removed."""
import vlib
from vlib import Case, Crash, Skipped

RULE = ("an evaluation is one history of operations on deltas and lists of deltas (adding, merging, compacting, looking up, comparing, net and total figures) whose "
        "every result was compared with a dictionary of sums; non-trivial: at least three operations")

NAMES = ["c", "cpp", "html", "c++", "C", "", "ruby", "rubyx", "rub", "x" * 40] + [f"lang{i}" for i in range(30)]
BIG = [0, 0, 0, 0, 1, 1, 2, 3, 10, 255, 256, 65536, 10 ** 6, -1, -5]

HEAVY = 2 ** 29   # lists are merged only while no sum of their figures can leave an int


def six(r):
    k = r.random()
    if k < .15:
        return [0] * 6
    if k < .35:   # a single figure
        v = [0] * 6
        v[r.randrange(6)] = r.choice([1, 2, -1, 256])
        return v
    if k < .5:    # added and removed cancel
        a, b, c = (r.choice(BIG) for _ in range(3))
        return [a, a, b, b, c, c]
    return [r.choice(BIG) for _ in range(6)]


class Model:
    def __init__(self):
        self.rows = []

    def add(self, row):
        for x in self.rows:
            if x[0] == row[0]:
                for i in range(1, 7):
                    x[i] += row[i]
                return
        self.rows.append(list(row))

    def weight(self):
        return sum(abs(v) for x in self.rows for v in x[1:])

    def totals(self):
        t = [sum(x[i] for x in self.rows) for i in range(1, 7)]
        n = [t[0] - t[1], t[2] - t[3], t[4] - t[5]]
        return t + n + [sum(n)]

    def dump(self):
        return [list(x) for x in self.rows]


def history(r):
    names = r.sample(NAMES, r.choice([1, 2, 3, 5, 12, 40]))
    o, want, lists = [], [], []
    for i in range(r.choice([1, 2, 3])):
        o.append(("DLNEW", i))
        want.append({})
        lists.append(Model())
    for _ in range(r.choice([1, 3, 8, 20, 60])):
        i = r.randrange(len(lists))
        k = r.random()
        if k < .5:
            l, v = r.choice(names), six(r)
            o.append(("DLADD", i, l, *v))
            n = [v[0] - v[1], v[2] - v[3], v[4] - v[5]]
            want.append({"changed": int(any(v)), "net": n + [sum(n)]})
            lists[i].add([l] + v)
        elif k < .6:
            j = r.randrange(len(lists))
            if lists[i].weight() + lists[j].weight() > HEAVY:
                continue
            o.append(("DLADDL", i, j))
            want.append({})
            for x in list(lists[j].rows):
                lists[i].add(x)
        elif k < .7 and len(lists) < 9:
            o.append(("DLCOMPACT", len(lists), i))
            want.append({})
            m = Model()
            for x in lists[i].rows:
                if any(x[1:]):
                    m.add(x)
            lists.append(m)
        elif k < .8:
            l = r.choice(names + ["absent"])
            o.append(("DLGET", i, l))
            want.append({"delta": next((list(x) for x in lists[i].rows if x[0] == l), None)})
        elif k < .9:
            a, b = [r.choice(names)] + six(r), [r.choice(names)] + six(r)
            if r.random() < .5:
                b = list(a)
                if r.random() < .8:
                    q = r.randrange(7)
                    b[q] = r.choice(names) if q == 0 else b[q] + r.choice([0, 1, -1, 256])
            op = r.choice(["DADD", "DEQ"])
            o.append((op, *a, *b))
            if op == "DADD" and a[0] == b[0]:
                a = [a[0]] + [x + y for x, y in zip(a[1:], b[1:])]
            want.append({"eq": int(a == b), "delta": a})
        else:
            o.append(("DLDUMP", i))
            want.append({"delta": lists[i].dump(), "totals": lists[i].totals()})
    for i in range(len(lists)):
        o.append(("DLDUMP", i))
        want.append({"delta": lists[i].dump(), "totals": lists[i].totals()})
    for i in range(len(lists)):
        o.append(("DLFREE", i))
        want.append({})
    return o, want


def run(ck):
    exe = vlib.build("plain")["driver"]
    cases = []
    r = ck.rng("algebra")
    for _ in range(ck.n(8000, 80000)):
        o, w = history(r)
        cases.append(Case(o, want=w))
    for c, o in zip(cases, vlib.run_cases(exe, cases, san=False)):
        if isinstance(o, Skipped):
            continue
        if isinstance(o, Crash):
            ck.crash(o, c)
            continue
        ck.evaluated(c.script(), len(c.ops) > 3)
        for op, w, g in zip(c.ops, c.meta["want"], o):
            ck.saw(op[0])
            bad = [k for k in w if g.get(k) != w[k]]
            if bad:
                ck.violation(f"{op[0]} {bad[0]}", f"{op} gave {bad[0]}={g.get(bad[0])}, expected {w[bad[0]]}; history {c.ops[:c.ops.index(op) + 1]}", c.to_json(), len(c.ops))
                break
        else:
            if 6 < len(c.ops) < 12:
                ck.sample({"history": [list(map(str, x)) for x in c.ops]})
    ck.require("DLDUMP", 5000)
    ck.require("DLCOMPACT", 500)
