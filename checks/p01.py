"""P01: parsing never leaves defined behaviour, whatever the bytes, the language and the mode."""
import vlib
from check import show
from gen import LANGS, NLS, TOKENS, corpus, mutate, soup
from syntax import SYN, make_doc
from vlib import Case, Crash, Skipped

RULE = ("a case is one document (token soup, mutated sample, truncated or spliced well-formed document, long line, many lines, single "
        "byte patterns) parsed in one language for lines, entities, accumulated text and counts under AddressSanitizer and "
        "UndefinedBehaviorSanitizer; non-trivial: at least one event was reported")


def ops(lang, d, leak=False):
    o = [("NEW", 0, "x/foo"), ("CONT", 0, d), ("LANG", 0, lang), ("LINES", 0, 1), ("ENTS", 0, 1), ("PARSE", 0), ("LOC", 0), ("FREE", 0)]
    return o


def own_tokens(lang):
    syn = SYN.get(lang)
    if not syn:
        return TOKENS
    t = []
    for c in syn.com:
        t += [c.open, c.close or b"\n"]
    for s in syn.strs:
        t += [s.open, s.close, s.esc]
    t = [x for x in t if x]
    return t * 3 + [b"x", b"= 1", b"(", b")", b"\\", b"\xff", b"0", b"_"] + TOKENS[:40]


def docs(ck, lang):
    r = ck.rng(lang)
    cor = corpus()
    mine = [d for n, d in cor]
    n = ck.n(60, 600)
    own = own_tokens(lang)
    for _ in range(n):
        yield "soup", soup(r, r.randrange(1, 60))
    for _ in range(n):
        yield "own", soup(r, r.randrange(1, 40), own)
    for _ in range(n):
        yield "mutant", mutate(r, r.choice(mine)[:3000])
    if lang in SYN:
        for _ in range(n):
            d = make_doc(r, lang, nl=r.choice([b"\n", b"\r\n"])).bytes
            k = r.randrange(len(d) + 1)
            m = r.random()
            if m < .5:
                yield "cut", d[:k]
            elif m < .7:
                yield "tail", d[k:]
            elif m < .9:
                e = make_doc(r, lang).bytes
                yield "splice", d[:k] + e[r.randrange(len(e) + 1):]
            else:
                yield "doc", d
    # every byte by itself, in runs, and at the very end
    for _ in range(ck.n(4, 40)):
        c = bytes([r.randrange(1, 256)])
        yield "byte", r.choice([c, c * 2, c * 3, b"x" + c, b"\n" + c, c + b"\n", b" " + c, c * r.choice([79, 80, 81, 255, 256, 257])])
    # an opener alone, at the end, before a newline
    for t in r.sample(own, min(len(own), ck.n(10, 60))):
        yield "opener", r.choice([t, b"\n" + t, t + b"\n", b"x " + t, t + t, t + b"\\", t + b"\\\n", b"x" * 200 + t, t + b" " + t + b"\r"])
    yield "empty", b""
    # long lines, long tokens, many lines, deep nesting
    big = ck.n(1, 4)
    for _ in range(big):
        t = r.choice(own)
        N = r.choice([5000, 20000, ck.n(30000, 300000)])
        yield "long", r.choice([
            lambda: t * (N // max(1, len(t))),
            lambda: (t + b"\n") * (N // (len(t) + 1)),
            lambda: b"x" * N + t + b"\n" + t,
            lambda: t + b"y" * N,
            lambda: (b" " + t + b" z") * (N // (len(t) + 3)),
            lambda: b"\n" * N,
            lambda: b"\r\n" * (N // 2),
        ])()


def run(ck):
    exe = vlib.build("asan")["driver"]
    cases = []
    for lang in LANGS:
        for kind, d in docs(ck, lang):
            d = d.replace(b"\0", b"")
            cases.append(Case(ops(lang, d), lang=lang, kind=kind, doc=d))
    ck.rng("order").shuffle(cases)
    res = vlib.run_cases(exe, cases)
    ums = [c for i, c in enumerate(cases) if i % ck.n(6, 3) == 0 and len(c.meta["doc"]) < 20000]
    for c, o in zip(ums, vlib.run_cases(vlib.build("msan")["driver"], ums)):
        if isinstance(o, Skipped):
            continue
        if isinstance(o, Crash):
            ck.crash(o, c, c.meta["lang"])
        ck.saw("documents under MemorySanitizer")
    langs = set()
    for c, o in zip(cases, res):
        if isinstance(o, Skipped):
            continue
        if isinstance(o, Crash):
            ck.crash(o, c, c.meta["lang"])
            ck.evaluated((c.meta["lang"], c.meta["doc"]))
            continue
        ev = o[3].get("n", 0) + o[4].get("n", 0)
        ck.saw("events", ev)
        ck.saw("documents " + c.meta["kind"])
        ck.saw("bytes", len(c.meta["doc"]))
        if ev:
            langs.add(c.meta["lang"])
        ck.evaluated((c.meta["lang"], c.meta["doc"]), ev > 0)
        if len(c.meta["doc"]) < 60 and ev > 3:
            ck.sample({"language": c.meta["lang"], "kind": c.meta["kind"], "document": show(c.meta["doc"]), "events": ev})
    ck.saw("languages", len(langs))
    ck.require("languages", len(LANGS) - 2)
    ck.require("events", 10000)
    ck.assumptions.append("redzone sanitizers see an access outside an allocation or object, not one inside another live object")
