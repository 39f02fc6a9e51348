"""Workload generators: corpus, mutators, token soups. Deterministic from a random.Random."""
import glob
import os
import re

from vlib import REPO, VERIF

CORPUS_DIR = os.path.join(REPO, "test", "src_dir")

# Frozen: every language name the product knows (parsers are selected by these names).
LANGS = [l.strip() for l in open(os.path.join(VERIF, "data", "languages.txt")) if l.strip()]

TOKENS = [
    b"//", b"/*", b"*/", b"/**", b"/+", b"+/", b"#", b"##", b"###", b"--", b"{-", b"-}", b"{", b"}", b"(*", b"*)", b"(", b")", b";", b";;",
    b"%", b"%%", b"%{", b"%}", b"'", b"''", b"'''", b'"', b'""', b'"""', b"`", b"\\", b"\\\\", b"\\\"", b"\\'", b"\\\n", b"<!--", b"-->",
    b"<%", b"%>", b"<%=", b"<%#", b"<%--", b"--%>", b"<?php", b"<?", b"?>", b"<?cs", b"<script>", b"</script>", b"<style>", b"</style>",
    b"<script language=\"php\">", b"<script type=\"text/javascript\">", b"<style type=\"text/css\">", b"<![CDATA[", b"]]>", b"<a b=\"c\">", b"</a>", b"<a/>",
    b"=begin", b"=end", b"=pod", b"=cut", b"__END__", b"__DATA__", b"dnl ", b"rem ", b"REM ", b"C ", b"c ", b"* ", b"!", b"@c ", b"@ignore", b"@end ignore",
    b"btex", b"etex", b"verbatimtex", b"<<EOF", b"EOF", b"<<-'E'", b"E", b"[[", b"]]", b"--[[", b"--[==[", b"]==]", b"[=[", b"]=]", b"#|", b"|#", b"#{", b"#;", b"#=", b"=#",
    b"#[", b"]#", b"\\begin{comment}", b"\\end{comment}", b"\\ ", b"\\( ", b"|", b"||", b":", b"::", b"=", b"==", b"-", b"+", b"*", b"/", b".", b",", b"<", b">", b"&", b"@", b"$", b"^", b"~", b"?", b"_",
    b"x", b"foo", b"if", b"end", b"0", b"1.5e3", b"0x1F", b"implement", b"comment", b"begin", b"def", b"class", b"#if", b"#endif", b"#define X", b"r\"", b"q{", b"q(", b"%q(", b"%w[", b"s/a/b/",
    b"<mx:Script>", b"</mx:Script>", b"<mx:Style>", b"</mx:Style>", b"{ ", b" }", b"''sh", b"= \"", b"rebol", b"REBOL", b"comment {", b"/// ", b"!! ", b"*> ", b"      *", b"      -", b"\t*",
]
NLS = [b"\n", b"\n", b"\n", b"\n", b"\r\n", b"\r", b"\f", b"\n\n", b"\v", b"\n \n", b"\n\t\n"]
WS = [b" ", b" ", b"  ", b"\t", b" \t", b""]


def corpus():
    """[(basename, bytes without NUL)] of the project's sample sources."""
    out = []
    for f in sorted(glob.glob(os.path.join(CORPUS_DIR, "*"))):
        if os.path.isfile(f):
            d = open(f, "rb").read()
            if b"\0" not in d:
                out.append((os.path.basename(f), d))
    return out


def soup(r, n, toks=TOKENS, nls=NLS):
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.62:
            out.append(r.choice(toks))
        elif k < 0.8:
            out.append(r.choice(nls))
        elif k < 0.95:
            out.append(r.choice(WS))
        elif k < 0.98:
            out.append(bytes([r.randrange(1, 256)]))
        else:
            out.append(bytes(r.randrange(1, 256) for _ in range(r.randrange(1, 6))))
    return b"".join(out)


def mutate(r, d, rounds=None, toks=TOKENS):
    d = bytearray(d)
    for _ in range(rounds or r.choice([1, 1, 2, 3, 5, 8])):
        k = r.randrange(9)
        n = len(d)
        i = r.randrange(n + 1)
        if k == 0 and n:
            del d[i:i + r.choice([1, 1, 2, 4, 16, 64])]
        elif k == 1:
            d[i:i] = r.choice(toks)
        elif k == 2:
            d[i:i] = r.choice(NLS)
        elif k == 3 and n:
            d[r.randrange(n)] = r.randrange(1, 256)
        elif k == 4 and n:
            j = r.randrange(n)
            d[i:i] = d[j:j + r.choice([1, 4, 16, 64])]
        elif k == 5 and n:
            d = d[:i] if r.random() < 0.5 else d[i:]
        elif k == 6:
            lines = bytes(d).splitlines(True)
            if lines:
                a = r.randrange(len(lines))
                b = r.randrange(len(lines))
                lines[a], lines[b] = lines[b], lines[a]
                d = bytearray(b"".join(lines))
        elif k == 7:
            d[i:i] = soup(r, r.randrange(1, 8), toks)
        elif k == 8 and d.endswith((b"\n", b"\r")):
            del d[-1:]
    return bytes(x for x in d if x)
