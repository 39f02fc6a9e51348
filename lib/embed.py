"""Documents of the languages that hold other languages, constructed piece by piece so that the language and the label
of every line are known without parsing."""
import re

from syntax import HUGE, SIZES, SYN, Com, Doc, Str, Syn, element, write_block_comment, write_line_comment

HTMLCODE = [b"<p>", b"</p>", b"<a href=x>", b"text here", b"<br/>", b"&amp;", b"<td>cell</td>", b"<h1>Title</h1>", b"x < y", b"<b>bold</b>", b"(1)",
            b"<input name=q>", b"a - b", b"semi;colon", b"50% off", b"what?", b"$5", b"<", b">", b"</", b"#id"]


class Sec:
    """A section in another language: delimiters, the language inside, whether a line that holds a whole section is the inner language's."""

    def __init__(self, opens, closes, child, inline="child", last="child", alone="parent", end="parent", ban=(), name=None, body=None):
        self.opens, self.closes, self.child = opens, closes, child
        self.inline = inline      # 'child': a line holding opener, code and closer is the inner language's code
        self.last = last          # the line with inner code and the closer
        self.alone = alone        # whose code a line holding only the opener is
        self.end = end            # whose code a line holding only the closer is
        self.ban = list(ban)
        self.name = name or child
        self.body = body


TAGCSS = Sec([b'<style type="text/css">', b"<STYLE type='text/css' media=all>", b'<style media="x" type="text/css" >'],
             [b"</style>", b"</STYLE>", b"</style >"], "css", ban=[b"</style", b"<"])
TAGJS = Sec([b'<script type="text/javascript">', b'<SCRIPT type="text/javascript" defer>', b"<script language='x' type='text/javascript'>"],
            [b"</script>", b"</SCRIPT>", b"</script\t>"], "javascript", ban=[b"</script", b"<"])
HTMLCSS = Sec(TAGCSS.opens, TAGCSS.closes, "css", inline="parent", last="parent", ban=TAGCSS.ban)
HTMLJS = Sec(TAGJS.opens, TAGJS.closes, "javascript", inline="parent", last="parent", ban=TAGJS.ban)
HTMLCOM = Com(b"<!--", b"-->")

# language name given to the parser -> (name its lines are reported under, comments, strings, code, sections)
EMB = {
    "html": ("html", [HTMLCOM], True, HTMLCODE, [HTMLCSS, HTMLJS]),
    "php": ("html", [HTMLCOM], True, [c for c in HTMLCODE if b"?" not in c],
            [TAGCSS, TAGJS, Sec([b"<?php", b"<?"], [b"?>"], "php", alone="child", end="child", ban=[b"?>", b"<"])]),
    "rhtml": ("html", [HTMLCOM], True, HTMLCODE, [TAGCSS, TAGJS, Sec([b"<%"], [b"%>"], "ruby", ban=[b"%>", b"<"])]),
    "jsp": ("html", [HTMLCOM], True, HTMLCODE, [TAGCSS, TAGJS, Sec([b"<%"], [b"%>"], "java", ban=[b"%>", b"<"])]),
    "cs_aspx": ("html", [HTMLCOM], True, HTMLCODE, [TAGCSS, TAGJS, Sec([b"<%"], [b"%>"], "csharp", ban=[b"%>", b"<"])]),
    "vb_aspx": ("html", [HTMLCOM], True, HTMLCODE, [TAGCSS, TAGJS, Sec([b"<%"], [b"%>"], "visualbasic", ban=[b"%>", b"<"])]),
    "clearsilver_template": ("html", [HTMLCOM], True, HTMLCODE, [TAGCSS, TAGJS, Sec([b"<?cs "], [b"?>"], "clearsilver", ban=[b"?>", b"<"])]),
    "mxml": ("mxml", [HTMLCOM], True, HTMLCODE,
             [Sec([b"<mx:Style>"], [b"</mx:Style>"], "css", inline="parent", last="parent", ban=[b"</mx:", b"<"]),
              Sec([b"<mx:Script>"], [b"</mx:Script>"], "actionscript", inline="parent", last="parent", ban=[b"</mx:", b"<"])]),
    "metapost_with_tex": ("metapost", [Com(b"%")], False, [b"draw p;", b"beginfig(1)", b"x1 = y1", b"(0,0)--(1,1)", b"endfig;"],
                          [Sec([b"btex", b"verbatimtex"], [b"etex"], "tex", inline="parent", last="parent", ban=[b"etex", b"btex"])]),
    "nix": ("nix", [Com(b"#"), Com(b"/*", b"*/")], False, [b"x = 1;", b"{ pkgs }:", b"rec {", b"};", b"with lib;", b"a.b", b"[ p q ]", b"f x", b"a - b"],
            [Sec([b'"'], [b'"'], "shell", inline="parent", last="parent", ban=[b'"', b"'", b"${"]),
             Sec([b"''"], [b"''"], "shell", inline="parent", last="parent", ban=[b"'", b'"', b"${"])]),
}
EMB["coffeescript"] = ("coffeescript", [Com(b"#")], False, [b"x = 1", b"f = (y) -> y", b"if a", b"b.c()", b"[1..3]"],
                       [Sec([b"`"], [b"`"], "javascript", inline="parent", last="parent", ban=[b"`"])])
PHP = Syn([Com(b"//"), Com(b"#"), Com(b"/*", b"*/")], [Str(b"'", nl="raw"), Str(b'"', nl="raw")])


class EDoc(Doc):
    """Its entities also name the language they are written in."""

    def owner(self, s):
        return next((lang for a, b, lang in self.kids if a <= s < b), self.host)


def _child(r, d, sec, n=None):
    """Whole lines in the inner language, without the delimiters of the section."""
    syn = PHP if sec.child == "php" else SYN[sec.child]
    for _ in range(200):
        t = Doc(sec.child, d.nl_bytes, d.tame)
        for _ in range(n if n is not None else r.randrange(1, 5)):
            element(t, r, syn, sec.child)
        low = t.bytes.lower()
        if any(b_.lower() in low for b_ in sec.ban):
            continue
        if not t.bytes:
            continue
        return t
    t = Doc(sec.child, d.nl_bytes)
    t.put("code", b"x")
    t.nl()
    return t


def _append(d, t):
    off = len(d.buf)
    assert d.fresh()
    d.buf += t.buf
    for lang, lab, s, f, e in t.lines:
        d.lines.append((lang, lab, s + off, f + off, e + off))
    for k, s, e in t.ents:
        d.ents.append((k, s + off, e + off))
    d.kids.append((off, len(d.buf), t.lang))
    d.features |= t.features
    d._start = len(d.buf)


INNER = {"css": [b"a { b: c }", b"p { }"], "javascript": [b"x = 1;", b"f(y)"], "php": [b"echo 1;", b"$x = 2"], "ruby": [b"x.each", b"= name"], "java": [b"int x = 1;", b"= y"],
         "csharp": [b"int x;", b"= y"], "visualbasic": [b"Dim x", b"= y"], "clearsilver": [b"var:x", b"set:y = 1"], "actionscript": [b"var x:int;"], "tex": [b"$x$", b"a b"], "shell": [b"foo", b"bar baz"]}


def pelement(d, r, cfg):
    parent, coms, strs, code, secs = cfg
    k = r.random()
    d.lang = parent
    ind = r.choice([b"", b"", b"  ", b"\t"])
    syn = Syn(coms, [])
    if k < 0.1:
        if r.random() < .5:
            d.put("ws", b"  ")
        d.nl()
    elif k < 0.2:
        c = r.choice(coms)
        d.put("ws", ind)
        if c.close is None:
            write_line_comment_tame(d, r, c)
        else:
            comment_tame(d, r, c)
            d.nl()
        d.features.add("parent comment")
    elif k < 0.45:
        d.put("ws", ind)
        d.put("code", r.choice(code))
        for _ in range(r.randrange(0, 3)):
            d.put("code", b" " + r.choice(code))
        if strs and r.random() < .4:
            q = r.choice([b"'", b'"'])
            d.put("code", b" <a b=" + q)
            if r.random() < .3:
                d.put("code", b"one")
                d.nl()
                if r.random() < .3:
                    d.nl()
                d.put("code", b" two")
            else:
                d.put("code", r.choice([b"v", b"a b", b"--", b"1 < 2", b"%", b"x > y", b"\\" + q]))
            d.put("code", q + b">")
            d.features.add("attribute")
        d.nl()
    elif k < 0.82:
        # a section on lines of its own
        sec = r.choice(secs)
        before = r.random() < .3
        d.put("ws", ind)
        if before:
            d.put("code", r.choice(code) + b" ")
        op = r.choice(sec.opens)
        if b" " in op.strip() and r.random() < .25:
            # the opening tag over two lines
            i = op.index(b" ")
            d.put("code", op[:i])
            d.nl()
            op = r.choice([b"", b"   "]) + op[i:]
            d.features.add("tag over lines")
        d.put("code", op)
        if r.random() < .2:
            d.put("ws", b" ")
        d.lang = sec.child if sec.alone == "child" else parent
        d.nl()
        t = _child(r, d, sec)
        if r.random() < .08:
            t = None   # nothing inside
        if t is not None:
            _append(d, t)
        d.put("ws", ind)
        cl = r.choice(sec.closes)
        if sec.opens[0][:2] in (b"<s", b"<S") and r.random() < .12:
            d.put("code", cl.rstrip(b"> \t"))
            d.lang = parent
            d.nl()
            cl = b">"
            d.features.add("end tag over lines")
        d.put("code", cl)
        d.lang = parent if sec.end == "parent" else sec.child
        if d.lang == parent and r.random() < .3:
            d.put("code", b" " + r.choice(code))
        d.nl()
        d.lang = parent
        d.features.add("section " + sec.child)
    elif k < 0.93:
        # a whole section in a line
        sec = r.choice(secs)
        d.put("ws", ind)
        if r.random() < .6:
            d.put("code", r.choice(code))
        d.put("code", r.choice(sec.opens) + b" " + r.choice(INNER[sec.child]) + b" " + r.choice(sec.closes))
        if r.random() < .6:
            d.put("code", b" " + r.choice(code))
        d.lang = sec.child if sec.inline == "child" else parent
        d.nl()
        d.lang = parent
        d.features.add("inline " + sec.child)
    else:
        # inner code beside the opener and beside the closer
        sec = r.choice(secs)
        d.put("ws", ind)
        d.put("code", r.choice(sec.opens) + b" " + r.choice(INNER[sec.child]))
        d.lang = sec.child
        d.nl()
        if r.random() < .5:
            _append(d, _child(r, d, sec))
        d.put("code", r.choice(INNER[sec.child]) + b" " + r.choice(sec.closes))
        d.lang = sec.child if sec.last == "child" else parent
        d.nl()
        d.lang = parent
        d.features.add("beside " + sec.child)


def big_pelement(d, r, cfg):
    """Something unusually long or frequent: sections, lines of a section, lines of a comment, or a line."""
    parent, coms, _strs, code, secs = cfg
    N = r.choice(SIZES if r.random() < .98 else HUGE) + r.choice([0, 0, -1, 1, 2])
    k = r.choice(["sections", "inner", "innerline", "line", "indent", "blanks", "comment", "commentlines", "inline"])
    d.features.add("big " + k)
    d.lang = parent
    if k == "sections":
        for _ in range(min(N, 140)):
            pelement(d, r, cfg)
        return
    if k in ("inner", "innerline"):
        sec = r.choice(secs)
        d.put("code", r.choice(sec.opens))
        d.lang = sec.child if sec.alone == "child" else parent
        d.nl()
        if k == "inner":
            for _ in range(min(N, 130)):
                _append(d, _child(r, d, sec))
        else:
            d.lang = sec.child
            d.put("ws", r.choice([b"", b" " * N]))
            d.put("code", b"w" * N)
            d.nl()
        d.put("code", r.choice(sec.closes))
        d.lang = parent if sec.end == "parent" else sec.child
    elif k == "line":
        d.put("code", b"w" * N)
    elif k == "indent":
        d.put("ws", r.choice([b" ", b"\t", b" \t"]) * N)
        d.put("code", r.choice(code))
    elif k == "blanks":
        for _ in range(r.choice([min(N, 600), N])):
            d.nl()
        d.put("code", r.choice(code))
    elif k == "inline":
        sec = r.choice(secs)
        for _ in range(min(N, 130)):
            d.put("code", r.choice(sec.opens) + b" " + r.choice(INNER[sec.child]) + b" " + r.choice(sec.closes) + b" ")
        d.put("code", r.choice(code))
        d.lang = sec.child if sec.inline == "child" else parent
    else:
        c = r.choice(coms)
        s = len(d.buf)
        d.put("comment", c.open + b" ")
        if k == "comment" or c.close is None:
            d.put("comment", b"z" * N)
        else:
            for i in range(r.choice([min(N, 300), N])):
                d.put("comment", b"z" if i % 4 else b"")
                d.nl()
        if c.close:
            d.put("comment", b" " + c.close)
        d.ents.append(("comment", s, len(d.buf)))
    d.nl()
    d.lang = parent


WORDS = [b"note", b"a-b", b"x -- y", b"it's", b'"q"', b"10%", b"# no", b"// no", b"50 < 60", b"TODO", b"<b>", b"<p>", b"&lt;", b"- item", b"(see)"]


def comment_tame(d, r, c):
    s = len(d.buf)
    d.put("comment", c.open + b" " + b" ".join(r.sample(WORDS, r.randrange(0, 3))))
    if r.random() < .4:
        d.nl()
        for _ in range(r.randrange(0, 3)):
            if r.random() < .75:
                d.put("comment", r.choice([b"", b"  "]) + r.choice(WORDS))
            d.nl()
    d.put("comment", b" " + c.close)
    d.ents.append(("comment", s, len(d.buf)))


def write_line_comment_tame(d, r, c):
    s = len(d.buf)
    d.put("comment", c.open + b" " + b" ".join(w for w in r.sample(WORDS, 2) if b"'" not in w and b'"' not in w) + b" .")
    d.ents.append(("comment", s, len(d.buf)))
    d.nl()


BF_OPS = {"brainfuck": b"+-<>.,[]", "bfpp": b"+-<>.,[]%!#^:;"}


def bf_doc(r, lang, nl):
    d = Doc(lang, nl)

    def words(text):
        # every word is a comment of its own
        d.ents += [("comment", len(d.buf) + m.start(), len(d.buf) + m.end()) for m in re.finditer(rb"\S+", text)]
        d.put("comment", text)

    for _ in range(r.randrange(1, 9)):
        k = r.random()
        d.put("ws", r.choice([b"", b" ", b"\t"]))
        if k < .2:
            pass
        elif k < .5:
            d.put("code", bytes(r.choice(BF_OPS[lang]) for _ in range(r.randrange(1, 9))))
        elif k < .75:
            words(r.choice([b"loop here", b"word", b"(x)", b"cell 0 is n", b"a\tb", b"@"]))
        elif lang == "bfpp" and k < .85:
            d.ents.append(("comment", len(d.buf), 0))
            d.put("comment", b"= " + r.choice([b"text", b"+ and -", b"a = b", b"@include(x)", b""]))
            d.ents[-1] = ("comment", d.ents[-1][1], len(d.buf))
        elif lang == "bfpp" and k < .92:
            d.put("code", b"@include(lib)")
        else:
            words(r.choice([b"move right ", b"move"]))
            d.put("code", bytes(r.choice(BF_OPS[lang]) for _ in range(3)))
            words(r.choice([b" done", b"done it"]))
        d.nl()
    return d


def haml_doc(r, nl):
    d = Doc("haml", nl)
    deep = None
    for _ in range(r.randrange(1, 9)):
        k = r.random()
        ind = b"  " * r.choice([0, 0, 1, 2])
        d.lang = "haml"
        if k >= .15 and deep is not None and len(ind) > deep:
            # what is indented below a comment belongs to it
            d.put("comment", ind + r.choice([b"%p", b"= foo", b"words", b"/ more"]))
            d.nl()
            d.features.add("nested comment")
            continue
        if k >= .15:
            deep = len(ind) if .8 <= k < .9 else None
        if k < .15:
            d.nl()
            continue
        if k < .4:
            d.put("code", ind + r.choice([b"%p", b"%div.cls", b"#id", b".cls", b"%a{:href => 'x'} link", b"%ul", b"%li text here", b"%img[foo]/"]))
        elif k < .6:
            d.put("code", ind + r.choice([b"plain text", b"Hello, world", b"some words: here"]))
        elif k < .8:
            d.put("code", ind + r.choice([b"= foo", b"- bar.each do |x|", b"== text", b"~ pre"]))
            d.lang = "ruby"
        elif k < .9:
            d.put("comment", ind + r.choice([b"/ a comment", b"-# silent", b"/ x"]))
        else:
            d.put("code", ind + b"%p= name")
            d.lang = "ruby"
        d.nl()
    return d


def make_embedded(r, lang, nl=b"\n", n=None, tame=False, big=0.0):
    if lang in BF_OPS:
        return bf_doc(r, lang, nl)
    if lang == "haml":
        return haml_doc(r, nl)
    cfg = EMB[lang]
    d = EDoc(cfg[0], nl, tame)
    d.host, d.kids = cfg[0], []
    for _ in range(n if n is not None else r.choice([1, 2, 3, 4, 6, 9])):
        big_pelement(d, r, cfg) if big and r.random() < big else pelement(d, r, cfg)
    return d


LANGS_E = sorted(EMB) + ["bfpp", "brainfuck", "haml"]
