"""Documents for checks whose oracle needs no knowledge of what the document means."""
from embed import EMB, LANGS_E, make_embedded
from gen import NLS, TOKENS, corpus, mutate, soup
from syntax import SIZES, SYN, make_doc

_own = {}


def own_tokens(lang):
    if lang in _own:
        return _own[lang]
    t = []
    if lang in EMB:
        for s in EMB[lang][4]:
            t += (s.opens + s.closes) * 3
            sub = SYN.get(s.child)
            if sub:
                t += [c.open for c in sub.com] + [x.open for x in sub.strs]
        t += [b"</script\n>", b"</style \r\n >", b"<style\ntype=\"text/css\"\n>", b"<script\r\n type='text/javascript' \n>", b"<!--", b"-->", b"'", b'"']
    syn = SYN.get(lang)
    if syn:
        for c in syn.com:
            t += [c.open, c.close or b"\n"]
        for s in syn.strs:
            t += [s.open, s.close, s.esc]
    t = [x for x in t if x]
    t = t * 3 + [b"x", b"= 1", b"(", b")", b"\\", b"\\\n", b"\xff", b"0", b"_"] + TOKENS[:40] if t else TOKENS
    _own[lang] = t
    return t


_cor = []


def samples():
    if not _cor:
        _cor.extend(corpus())
    return _cor


def well_formed(r, lang, nl=b"\n", **k):
    if lang in EMB and (lang not in SYN or r.random() < .5) or lang in ("haml", "bfpp", "brainfuck"):
        return make_embedded(r, lang, nl=nl, big=.004)
    return make_doc(r, lang, nl=nl, big=.004, **k)


def wild(r, lang):
    """(kind, bytes): anything goes, without NUL."""
    m = r.random()
    own = own_tokens(lang)
    if m < .3:
        return "own", soup(r, r.randrange(1, 40), own).replace(b"\0", b"")
    if m < .45:
        return "soup", soup(r, r.randrange(1, 50)).replace(b"\0", b"")
    if m < .62:
        return "mutant", mutate(r, r.choice(samples())[1][:2500])
    if m < .9:
        d = well_formed(r, lang, nl=r.choice([b"\n", b"\n", b"\r\n", b"\r", b"\f"])).bytes
        if r.random() < .5:
            return "mutant doc", mutate(r, d, toks=own)
        k = r.randrange(len(d) + 1)
        if r.random() < .5:
            return "cut doc", d[:k]
        return "joined docs", d[:k] + well_formed(r, lang).bytes
    if m < .95:
        t = r.choice(own)
        return "opener", r.choice([t, b"\n" + t, t + b"\n", b"x " + t, t + t, t + b"\\", t + b"\\\n", b"x" * 200 + t, t + b" " + t + b"\r", b" " + t + b"\n\n" + t])
    t = r.choice(own)
    n = r.choice(SIZES)
    return "long", r.choice([t * (1 + n // len(t)), (t + b"\n") * min(n, 200), b"x" * n + t + b"\n" + t, t + b"y" * n, b"\n" * min(n, 300) + t, b" " * n + t + b"\n x"])


def huge(r):
    """(language, document): texts so long that offsets do not fit in 16, 20 or 24 bits, in few and in many lines."""
    out = []
    for lang, mark in (("c", b"//"), ("python", b"#"), ("sql", b"--")):
        ls = []
        while sum(map(len, ls)) < 17_500_000:
            n = r.choice([1, 300, 60_000, 65_535, 70_000, 300_000])
            ls.append(r.choice([b"x" * n, mark + b"y" * n, b" " * 9 + b"z" * n, b"", b" " * n]))
        out.append((lang, r.choice([b"\n", b"\r\n"]).join(ls) + b"\n"))
        out.append((lang, b"".join(r.choice([b"ab = 1;\n", mark + b" c\n", b"\n", b"  y\n", b"word " * 9 + b"\n"]) for _ in range(110_000))))
    return out
