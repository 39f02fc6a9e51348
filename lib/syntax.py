"""What a language's lines mean, written down independently of the parsers: for every language its comments and
strings, and for the languages that embed others, what surrounds the embedded part.

docs are *constructed*: the builder knows the kind of every piece it writes, so each line's expected label (and each
comment's and string's expected byte range) is known by construction, without parsing anything.
"""


class Com:
    """A comment: a line comment (close is None) or a block comment."""

    def __init__(self, open, close=None, nest=False, cont=False, lead=b" ", bol=False, ci=False, prefix=b"", bare=True):
        self.open, self.close, self.nest = open, close, nest
        self.cont = cont        # a backslash before the newline continues a line comment
        self.lead = lead        # what has to follow the opener of a line comment
        self.bol = bol          # opener (and closer) only at the beginning of a line
        self.ci = ci            # opener in any case
        self.prefix = prefix    # has to come before the opener (line number)


class Str:
    def __init__(self, open, close=None, esc=b"\\", nl="none", blank="blank", minlen=0, maxlen=None, ws=True, nest=False,
                 swallow=False, reach=False):
        self.open, self.close, self.esc = open, close or open, esc
        self.nl = nl            # 'none': one line; 'esc': over a backslash-newline; 'raw': over newlines
        self.blank = blank      # label of an empty line inside
        self.minlen, self.maxlen = minlen, maxlen
        self.ws = ws            # may hold white space
        self.nest = nest        # balanced delimiters inside
        self.reach = reach      # runs to the last closer of the line: one per line


SL = lambda **k: Com(b"//", **k)
HASH = lambda **k: Com(b"#", **k)
CB = lambda **k: Com(b"/*", b"*/", **k)
SQ = lambda **k: Str(b"'", **k)
DQ = lambda **k: Str(b'"', **k)
BT = lambda **k: Str(b"`", **k)
E = dict(nl="esc")
R = dict(nl="raw")
N = dict(esc=b"")

DEFAULT_CODE = [b"alpha", b"beta = gamma", b"x9", b"delta + 42", b"(omega)", b"item[3]", b"done;", b"{", b"}", b"a.b", b"k: v", b"n < m", b"u > v", b"p & q", b"@w", b"~t",
                b"j | i", b"y, z", b"m * n", b"q / r", b"g - h", b"$v", b"5 % 3", b"!f", b"back\\slash", b"\xc3\xa9t\xc3\xa9", b"1.5e3", b"0x1F", b"a == b", b"_u_", b"?", b"^up"]


class Syn:
    def __init__(self, com=(), strs=(), code=None, word_ok=True, nocode=()):
        self.com, self.strs = list(com), list(strs)
        self._code = code
        self.nocode = list(nocode)

    def openers(self):
        return [c.open for c in self.com] + [s.open for s in self.strs]

    def code(self):
        """Code fragments that hold no delimiter of this language, not even its first byte."""
        if self._code is not None:
            return self._code
        out = []
        bad = [o.lower() for o in self.openers()] + [n.lower() for n in self.nocode]
        for c in DEFAULT_CODE:
            l = c.lower()
            if any(o in l or (not o[:1].isalnum() and o[:1] in l) for o in bad):
                continue
            out.append(c)
        return out

    def near(self):
        """Code that holds a delimiter's beginning but not the delimiter."""
        out = []
        ops = [o.lower() for o in self.openers()]
        for o in ops:
            if len(o) > 1 and not o[:1].isalnum():
                for k in range(1, len(o)):
                    t = o[:k] + b" x"
                    if not any(q in t for q in ops) and not any(q in t.lower() for q in self.nocode):
                        out.append(t)
        return sorted(set(out))


def clike(extra=(), strs=None, **k):
    return Syn([SL(cont=True), CB(), *extra], strs if strs is not None else [SQ(**E), DQ(**E)], **k)


LISP = Syn([Com(b";"), Com(b'"""', b'"""')], [DQ(nl="raw", minlen=1)])
XMLCOM = Com(b"<!--", b"-->")
XML = Syn([XMLCOM], [SQ(**N), DQ(**N), Str(b"<![CDATA[", b"]]>", esc=b"", nl="raw")], code=None)
NESTML = Com(b"(*", b"*)", nest=True)
HASHQ = Syn([HASH()], [SQ(), DQ()])
REMCODE = [c for c in DEFAULT_CODE if b"rem" not in c.lower()]
HAS = Syn([Com(b"--"), Com(b"{-", b"-}", nest=True)], [Str(b"'", minlen=1, maxlen=1), DQ(**E)])

SYN = {
    "actionscript": Syn([SL(), CB()], [SQ(), DQ(), Str(b"<![CDATA[", b"]]>", esc=b"", nl="raw")]),
    "ada": Syn([Com(b"--")], [DQ(**N)]),
    "ampl": Syn([HASH(), CB()], []),
    "assembler": Syn([SL(), Com(b";"), Com(b"!"), CB()], [DQ()]),
    "augeas": Syn([NESTML], [DQ()]),
    "autoconf": Syn([Com(b"dnl")], [Str(b"[", b"]", esc=b"", nl="raw", nest=True)]),
    "automake": HASHQ,
    "awk": Syn([HASH()], [DQ(), Str(b"/")]),
    "bat": Syn([Com(b"rem", ci=True), Com(b"@rem", ci=True), Com(b"::")], [], nocode=[b"rem"]),
    "blitzmax": Syn([Com(b"'"), Com(b"rem", b"end rem", ci=True), Com(b"rem", b"endrem", ci=True)], [DQ()], nocode=[b"rem"]),
    "boo": Syn([HASH(), SL(), CB(nest=True), Com(b'"""', b'"""')], [Str(b"'", minlen=1, maxlen=1), DQ(minlen=1), Str(b"/", minlen=1)]),
    "c": clike(),
    "chaiscript": Syn([SL(), CB()], [SQ(**E), DQ(**E), Str(b"/", minlen=1)]),
    "cmake": Syn([HASH()], [DQ(**R)]),
    "classic_basic": Syn([Com(b"'", prefix=b"10 "), Com(b"rem", prefix=b"20 ", ci=True)], [DQ()], nocode=[b"rem"]),
    "clearsilver": Syn([HASH()], [DQ()]),
    "coffeescript": Syn([HASH(), Com(b"###", b"###")], [SQ(**R), DQ(**R), Str(b"'''", esc=b"", nl="raw"), Str(b'"""', esc=b"", nl="raw")], nocode=[b"`"]),
    "coq": Syn([NESTML], [DQ(esc=b"", nl="raw", blank="code")]),
    "crystal": Syn([HASH(), Com(b"=begin", b"=end", bol=True)],
                   [DQ(**R), Str(b"%q(", b")", nl="raw"), Str(b"%Q[", b"]", nl="raw"), Str(b"%{", b"}", nl="raw"), BT(**R), Str(b"/"), Str(b"%w(", b")", nl="raw"), Str(b"%r{", b"}", nl="raw"), Str(b"%x[", b"]", nl="raw")]),
    "css": Syn([CB()], [SQ(**R), DQ(**R)]),
    "dart": clike(strs=[], nocode=[b"'", b'"']),
    "dcl": Syn([Com(b"!")], [DQ()], nocode=[b"$"]),
    "dmd": clike(extra=[Com(b"/+", b"+/", nest=True)], strs=[SQ(**E), DQ(**E), BT(**E)]),
    "dylan": Syn([SL(), CB()], [Str(b"'", minlen=1, maxlen=1), DQ()]),
    "ebuild": HASHQ,
    "eiffel": Syn([Com(b"--")], [DQ(**N)]),
    "elm": HAS,
    "erlang": Syn([Com(b"%")], [SQ(), DQ()]),
    "exheres": HASHQ,
    "factor": Syn([Com(b"!")], [DQ(**R)]),
    "forth": Syn([Com(b"\\"), Com(b"(", b")")], [DQ(**N)]),
    "fortranfixed": Syn([Com(b"C", bol=True)], [], nocode=[b"C", b"'", b'"'], code=[b"      ALPHA = 1", b"      x = y + 2", b"      END", b"   10 FORMAT(A)", b"      DO 20 I=1,N"]),
    "fortranfree": Syn([Com(b"!")], [SQ(esc=b"", nl="raw"), DQ(esc=b"", nl="raw")]),
    "fsharp": Syn([SL(cont=True), Com(b"(*", b"*)")], [SQ(**E), DQ(**E)]),
    "grace": Syn([SL()], [DQ(**R)]),
    "haskell": HAS,
    "haxe": Syn([SL(cont=True), CB()], [SQ(), DQ()]),
    "idl_pvwave": Syn([Com(b";")], []),
    "jam": Syn([HASH()], [SQ(**R), DQ(**R)]),
    "java": Syn([SL(), CB()], [SQ(), DQ()]),
    "javascript": Syn([SL(), CB()], [SQ(**E), DQ(**E), Str(b"/", minlen=1)]),
    "julia": Syn([HASH(), Com(b"#=", b"=#"), Com(b"'''", b"'''"), Com(b'"""', b'"""')], [SQ(minlen=1), DQ(minlen=1)]),
    "kotlin": Syn([SL(), CB(nest=True)], [DQ(minlen=1), Str(b'"""', esc=b"", nl="raw")]),
    "limbo": Syn([HASH()], [SQ(ws=False), DQ(ws=False)]),
    "lisp": LISP,
    "livecode": Syn([Com(b"--"), HASH(), SL(), CB()], [DQ()]),
    "logtalk": Syn([Com(b"%"), CB()], [SQ(), DQ()]),
    "lua": Syn([Com(b"--"), Com(b"--[[", b"]]"), Com(b"--[=[", b"]=]"), Com(b"--[==[", b"]==]")],
               [SQ(**R), DQ(**R), Str(b"[[", b"]]", esc=b"", nl="raw"), Str(b"[=[", b"]=]", esc=b"", nl="raw"), Str(b"[==[", b"]==]", esc=b"", nl="raw")]),
    "make": HASHQ,
    "mathematica": Syn([NESTML], [DQ(esc=b"", minlen=1, maxlen=1)]),
    "matlab": Syn([Com(b"%"), Com(b"..."), Com(b"%{", b"%}")], [SQ(), DQ()]),
    "metafont": Syn([Com(b"%")], [DQ()]),
    "metapost": Syn([Com(b"%")], [DQ()]),
    "modelica": Syn([SL(), CB()], [DQ(**R)]),
    "modula2": Syn([NESTML], [SQ(**N), DQ(**N)]),
    "modula3": Syn([NESTML], [SQ(**E), DQ(**E)]),
    "nsis": Syn([HASH(), Com(b";"), CB()], [BT(), SQ(), DQ()]),
    "oberon": Syn([NESTML], [SQ(**N), DQ(**N)]),
    "objective_c": Syn([SL(cont=True), CB()], [SQ(), DQ()]),
    "ocaml": Syn([NESTML], [DQ()]),
    "octave": Syn([Com(b"%"), Com(b"..."), HASH(), Com(b"%{", b"%}")], [SQ(), DQ()]),
    "pascal": Syn([SL(), Com(b"(*", b"*)"), Com(b"{", b"}")], [SQ(**R)]),
    "perl": Syn([HASH(), Com(b"=pod", b"=cut", bol=True), Com(b"=head1", b"=cut", bol=True)], [SQ(**R), DQ(**R), BT(**R), Str(b"/")], nocode=[b"="]),
    "pike": Syn([SL(), CB()], [SQ(), DQ()]),
    "postscript": Syn([Com(b"%")], [Str(b"(", b")", esc=b"", reach=True)]),
    "powershell": Syn([HASH(), Com(b"<#", b"#>")], [SQ(**R), DQ(**R)]),
    "prolog": Syn([Com(b"%"), CB()], [SQ(), DQ()]),
    "puppet": Syn([HASH(), CB()], [SQ(**R)]),
    "python": Syn([HASH(), Com(b"'''", b"'''"), Com(b'"""', b'"""')], [SQ(minlen=1), DQ(minlen=1)], nocode=[b"/"]),
    "r": HASHQ,
    "rebol": Syn([Com(b";")], [DQ(esc=b"^"), Str(b"{", b"}", esc=b"^", nl="raw", blank="code", nest=True)]),
    "rexx": Syn([CB(nest=True)], [SQ(), DQ()]),
    "ruby": Syn([HASH(), Com(b"=begin", b"=end", bol=True)],
                [SQ(**R), DQ(**R), Str(b"%q(", b")", nl="raw"), Str(b"%Q[", b"]", nl="raw"), Str(b"%{", b"}", nl="raw"), BT(**R), Str(b"/"), Str(b"%w(", b")", nl="raw"), Str(b"%r{", b"}", nl="raw"), Str(b"%x[", b"]", nl="raw")]),
    "rust": clike(strs=[DQ(**E)]),
    "scala": Syn([SL(), CB()], [SQ(), DQ()]),
    "scilab": Syn([SL()], [SQ(), DQ()]),
    "shell": Syn([HASH()], [SQ(**R), DQ(**R)]),
    "smalltalk": Syn([Com(b'"', b'"')], [SQ(**N)]),
    "sql": Syn([Com(b"--"), HASH(), SL(), CB(), Com(b"{", b"}")], [SQ(), DQ()]),
    "stratego": Syn([SL(cont=True), CB()], [DQ(**E), Str(b"'", esc=b"", minlen=1, maxlen=1)]),
    "structured_basic": Syn([Com(b"'"), Com(b"rem", ci=True)], [DQ()], nocode=[b"rem"]),
    "tcl": Syn([HASH(cont=True)], [DQ(**E)]),
    "tex": Syn([Com(b"%")], []),
    "tex_dtx": Syn([Com(b"%%")], []),
    "umple": Syn([SL(), CB()], [SQ(), DQ()]),
    "unrealscript": Syn([SL(), CB()], [SQ(**E), DQ(**E)]),
    "vhdl": Syn([Com(b"--")], [Str(b"'", esc=b"", minlen=1, maxlen=1), DQ(**N)]),
    "vim": Syn([Com(b'"')], [SQ()]),
    "visualbasic": Syn([Com(b"'"), Com(b"rem", ci=True)], [DQ()], nocode=[b"rem"]),
    "xml": XML,
    "xaml": XML,
    "xmlschema": Syn([XMLCOM], [SQ(), DQ(), Str(b"<![CDATA[", b"]]>", esc=b"", nl="raw")]),
    "xslt": Syn([XMLCOM], [SQ(), DQ(), Str(b"<![CDATA[", b"]]>", esc=b"", nl="raw")]),
}
for a, b_ in {"cpp": "c", "csharp": "c", "cuda": "c", "ec": "c", "genie": "c", "vala": "c", "glsl": "c", "golang": "c", "groovy": "c",
              "clojure": "lisp", "emacslisp": "lisp", "racket": "lisp", "scheme": "lisp", "qml": "javascript", "typescript": "javascript",
              "objective_j": "objective_c", "swift": "dart"}.items():
    SYN[a] = SYN[b_]

HAZ = [b'"', b"'", b"`", b"/*", b"*/", b"//", b"#", b"--", b"{", b"}", b"(*", b"*)", b"<!--", b"-->", b";", b"%", b"!", b"$", b"[[", b"]]", b"<?", b"?>", b"=", b"word", b"two words",
       b"it's", b'"quoted"', b"http://x.y/z", b"C", b"rem", b"dnl", b"=begin", b"=end", b"/+", b"+/", b"\\n", b"\\", b"*", b"**", b"<%", b"%>", b"{-", b"-}", b"#=", b"=#", b"'''", b'"""', b"|", b"\xe2\x82\xac",
       b"</script>", b"<a b='c'>", b"TODO: fix", b"(c) 2024", b"x = 1;", b"(", b")", b"[", b"]", b"@", b"&", b"~", b"^", b"::", b"%{", b"%}", b"]]>", b"###", b"endrem"]


class Doc:
    """A document under construction, with what is true of it."""

    def __init__(self, lang, nl=b"\n", tame=False):
        self.lang, self.nl_bytes, self.tame = lang, nl, tame
        self.buf = bytearray()
        self.lines = []       # (language, label, start, first non-blank, end)
        self.ents = []        # (kind, start, end)
        self._start = 0
        self._first = None
        self._code = self._com = False
        self._over = None
        self.features = set()

    def put(self, kind, data):
        """kind: 'code', 'comment' or 'ws'; white space never makes a line code or comment."""
        assert b"\n" not in data and b"\r" not in data and b"\f" not in data, data
        if data.strip(b" \t\v"):
            if self._first is None:
                self._first = len(self.buf) + (len(data) - len(data.lstrip(b" \t\v")))
            if kind == "code":
                self._code = True
            elif kind == "comment":
                self._com = True
        self.buf += data
        return self

    def force(self, label):
        """The line counts as label although nothing but white space is on it."""
        self._over = label

    def nl(self, last=False):
        lab = "code" if self._code else "comment" if self._com else (self._over or "blank")
        if not last:
            self.buf += self.nl_bytes
        end = len(self.buf)
        if end > self._start and not (last and lab == "blank"):
            self.lines.append((self.lang, lab, self._start, self._first if self._first is not None else end, end))
        self._start, self._first, self._code, self._com, self._over = end, None, False, False, None

    @property
    def bytes(self):
        return bytes(self.buf)

    def fresh(self):
        """Nothing but white space on this line so far."""
        return self._first is None

    def totals(self):
        t = {}
        for lang, lab, *_ in self.lines:
            d = t.setdefault(lang, {"code": 0, "comment": 0, "blank": 0})
            d[lab] += 1
        return t


def near_closes(c):
    out = []
    for k in range(1, len(c)):
        out.append(c[:k] + b" ")
    return out


def body(r, n, close, ban=(), extra=(), esc=b"", ws=True):
    """Hazardous text for the inside of a comment or string that ends in close (None: at the end of the line)."""
    for _ in range(60):
        parts = []
        for _ in range(n):
            k = r.random()
            if k < 0.55:
                p = r.choice(HAZ)
            elif k < 0.75 and extra:
                p = r.choice(extra)
            elif close and k < 0.85:
                p = r.choice(near_closes(close) or [b"w"])
            else:
                p = r.choice([b"lorem", b"ipsum", b"42"])
            parts.append(p)
        sp = b" " if r.random() < .7 else r.choice([b"\t", b"\t", b" \t", b"  ", b"\t\t "])
        t = sp.join(parts) if ws else b"".join(parts).replace(b" ", b"_")
        if any(x in t for x in ban):
            parts = [p for p in parts if not any(x in p for x in ban)]
            t = (sp if ws else b"").join(parts)
            if not ws:
                t = t.replace(b" ", b"_")
            if any(x in t for x in ban):
                continue
        if close:
            if (t.lower() + close.lower()).find(close.lower()) != len(t):
                parts = [p for p in parts if close.lower() not in p.lower() and not p.lower().endswith(close[:1].lower())]
                t = (sp if ws else b"").join(parts)
                if not ws:
                    t = t.replace(b" ", b"_")
                if (t.lower() + close.lower()).find(close.lower()) != len(t):
                    continue
        return t
    return b"plain"


def write_line_comment(d, r, syn, c, stats=None):
    fx = c.prefix
    if fx:
        if not d.fresh():
            return False
        d.put("ws", b"")
    if c.bol and (len(d.buf) != d._start):
        return False
    s = len(d.buf) + len(fx)
    op = c.open
    if c.ci:
        op = r.choice([op, op.upper(), op.capitalize()])
    # a line comment's text must not turn its opener into another one
    t = c.lead + body(r, r.randrange(0, 5), None, extra=[o for x in syn.com for o in (x.open, x.close or b"")] + [x.open for x in syn.strs])
    if c.cont or t.endswith(b"\\"):
        t = t.rstrip(b"\\")
        if not c.cont and r.random() < 0.5:
            t += b" \\"   # not a continuation here
            d.features.add("backslash-at-end")
    if not t.strip() and r.random() < 0.5:
        t = b""
    if b"dnl" == c.open and not t.strip():
        t = b""
    d.put("comment", fx + op + t)
    d.features.add("line:" + c.open.decode("latin-1"))
    if c.cont and r.random() < 0.3:
        d.buf += b"\\"
        d.nl()
        d.put("comment", b" " + body(r, 2, None).rstrip(b"\\") + b" z")
        d.features.add("continued")
    d.ents.append(("comment", s, len(d.buf)))
    d.nl()
    return True


def write_block_comment(d, r, syn, c, multi=None):
    """Leaves the line open after the comment (unless the comment takes whole lines)."""
    if c.bol and len(d.buf) != d._start:
        return False
    s = len(d.buf)
    op, cl = c.open, c.close
    if c.ci:
        op, cl = r.choice([(op, cl), (op.upper(), cl.upper())])
    multi = r.random() < 0.45 if multi is None else multi
    if c.bol:
        multi = True
    ban = [x.close for x in syn.com if x.open == c.open and x.close and x is not c]
    if c.nest:
        ban += [c.open, c.close]
    d.put("comment", op)
    d.features.add("block:" + c.open.decode("latin-1") + (":multi" if multi else ""))
    # nothing may extend the opener into something else or close too early
    starts = b" "

    def seg(n):
        ex = [x.open for x in syn.strs] + [x.open for x in syn.com if not c.nest or x.open != c.open]
        t = body(r, n, c.close, ban, extra=ex)
        if c.nest and r.random() < 0.35:
            inner = body(r, 2, c.close, ban)
            t = t + b" " + c.open + b" " + inner + b" " + c.close + b" after"
            d.features.add("nested")
            if r.random() < 0.3:
                t = t + b" " + c.open + b" " + c.open + b" deep " + c.close + b" " + c.close + b" x"
        return t

    if not multi:
        d.put("comment", starts + seg(r.randrange(0, 4)) + b" " + cl)
    else:
        d.put("comment", starts + seg(r.randrange(0, 3)))
        d.nl()
        for _ in range(r.randrange(0, 4)):
            k = r.random()
            if k < 0.25:
                if k < 0.12:
                    d.put("ws", r.choice([b" ", b"\t", b"   "]))
                d.nl()
                d.features.add("blank-in-comment")
            else:
                ind = r.choice([b"", b" ", b" * ", b"\t"])
                if c.bol and ind == b"":
                    ind = b" "
                if c.close.startswith(b"*") or b"*" not in c.close:
                    pass
                txt = seg(r.randrange(1, 4))
                if c.close and (ind + txt + b" " + c.close).lower().find(c.close.lower()) < len(ind + txt) and not c.nest:
                    ind = b" "
                d.put("comment", ind + txt)
                d.nl()
        if c.bol:
            d.put("comment", cl)
        else:
            d.put("comment", r.choice([b"", b" ", b"  last "]) + cl)
    d.ents.append(("comment", s, len(d.buf)))
    return True


def write_string(d, r, syn, st, multi=None):
    s = len(d.buf)
    if d.tame:
        if not st.ws:
            d.put("code", st.open + b"word" + st.close)
        else:
            d.put("code", st.open + (b"w" if st.maxlen == 1 else b"some word") + st.close)
        d.ents.append(("string", s, len(d.buf)))
        return True
    haz = [c.open for c in syn.com] + [c.close for c in syn.com if c.close]
    multi = (st.nl != "none" and r.random() < 0.4) if multi is None else multi
    if st.maxlen == 1:
        ch = r.choice([x for x in (b"a", b";", b"#", b"(", b"/", b"-", b"{", b"%", b"*", b"!") if x not in st.close])
        if st.esc and r.random() < 0.3:
            ch = st.esc + r.choice([b"n", st.close, st.esc])
        d.put("code", st.open + ch + st.close)
        d.ents.append(("string", s, len(d.buf)))
        d.features.add("char:" + st.open.decode("latin-1"))
        return True
    ban = [st.esc] if st.esc else []
    if st.nest:
        ban += [st.open, st.close]
    # a bracketed literal of the ruby family ends at any closing bracket
    if st.open.startswith(b"%"):
        ban += [b")", b"]", b"}"]

    # openers of comments whose first byte is the escaped delimiter
    escaped = [h for h in haz if h[:1] == st.close[:1] and st.close[:1] not in h[1:]]

    def seg(n):
        t = body(r, n, st.close, ban, extra=haz, ws=st.ws)
        if st.open == b'"' and st.minlen == 2:
            t = b"ab" + t
        if st.esc and r.random() < 0.5:
            e = st.esc + r.choice([st.close[:1], st.esc, b"n"] + escaped) if st.esc != b"^" else st.esc + r.choice([st.close[:1]])
            t = t + (b" " if st.ws else b"_") + e + r.choice([b"", b"q"])
            d.features.add("escape")
        if st.nest and r.random() < 0.4:
            t = t + b" " + st.open + b" in " + st.close + b" x"
            d.features.add("nested-string")
        if st.minlen and not t:
            t = b"s"
        if st.close[:1] == b"/" and t[:1] in (b"*", b"/", b" ", b""):
            t = b"s" + t
        return t

    d.put("code", st.open)
    d.features.add("string:" + st.open.decode("latin-1") + (":multi" if multi else ""))
    t = seg(r.randrange(0, 4))
    if st.open == b'"' and st.minlen and t.startswith(b'"'):
        t = b"s" + t
    if t.startswith(b"=") and st.open.startswith(b"["):
        t = b"s" + t
    if st.close == b"/" and t[:1] in (b"*", b"/"):
        t = b"s" + t
    d.put("code", t)
    if multi:
        for _ in range(r.randrange(1, 4)):
            if st.nl == "esc":
                d.buf += b"\\"
                d._code = True
                if d._first is None:
                    d._first = len(d.buf) - 1
                d.nl()
                d.put("code", r.choice([b"", b"  ", b"\t"]) + seg(r.randrange(1, 3)) + b"w")
            else:
                d.nl()
                if r.random() < 0.25:
                    if st.blank == "code":
                        d.force("code")
                    d.nl()
                    d.features.add("blank-in-string")
                tt = seg(r.randrange(1, 3))
                d.put("code", r.choice([b"", b"  ", b"\t"]) + (tt if tt.strip() else b"w"))
        if st.nl == "raw" and r.random() < 0.3:
            d.nl()
    d.put("code", st.close)
    d.ents.append(("string", s, len(d.buf)))
    return True


def write_code(d, r, syn):
    toks = syn.code()
    near = syn.near()
    n = r.choice([1, 1, 2, 3])
    for i in range(n):
        if i:
            d.put("ws", b" ")
        if near and r.random() < 0.12:
            d.put("code", r.choice(near))
            d.features.add("near-miss")
        else:
            d.put("code", r.choice(toks))


def element(d, r, syn, lang):
    """One or more whole lines."""
    k = r.random()
    line = [c for c in syn.com if c.close is None]
    block = [c for c in syn.com if c.close is not None]
    if k < 0.12:
        for _ in range(r.choice([1, 1, 2])):
            if r.random() < 0.4:
                d.put("ws", r.choice([b" ", b"\t", b"    ", b" \t "]))
            d.nl()
        return
    ind = r.choice([b"", b"", b"  ", b"\t"]) if lang != "fortranfixed" else b""
    if k < 0.34 and line:
        c = r.choice(line)
        if not c.bol:
            d.put("ws", ind)
        if write_line_comment(d, r, syn, c):
            return
        d.nl()
        return
    if k < 0.52 and block:
        c = r.choice(block)
        if not c.bol:
            d.put("ws", ind)
        write_block_comment(d, r, syn, c)
        if not c.bol and r.random() < 0.25:
            d.put("ws", b" ")
            write_code(d, r, syn)
            d.features.add("code-after-comment")
        d.nl()
        return
    d.put("ws", ind)
    if k < 0.78 or not syn.strs:
        write_code(d, r, syn)
    else:
        write_code(d, r, syn)
        done_reach = False
        for _ in range(r.choice([1, 1, 2, 3])):
            st = r.choice(syn.strs)
            if st.reach:
                if done_reach:
                    continue
                done_reach = True
            d.put("ws", b" ")
            write_string(d, r, syn, st)
            if done_reach and st.reach:
                break
        if r.random() < 0.5:
            d.put("ws", b" ")
            write_code(d, r, syn) if not done_reach else d.put("code", syn.code()[0])
        if done_reach:
            d.nl()
            return
    t = r.random()
    if t < 0.15 and line:
        c = r.choice(line)
        if not c.bol and not c.prefix and not (lang == "vim"):
            d.put("ws", b" ")
            write_line_comment(d, r, syn, c)
            d.features.add("trailing-comment")
            return
    elif t < 0.3 and block:
        c = r.choice(block)
        if not c.bol:
            d.put("ws", b" ")
            write_block_comment(d, r, syn, c)
            d.features.add("comment-after-code")
            if r.random() < 0.3:
                d.put("ws", b" ")
                write_code(d, r, syn)
    d.nl()


HUGE = [12000, 16384, 32768, 65536, 70000]
SIZES = [63, 64, 65, 79, 80, 81, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192]


def big_element(d, r, syn, lang):
    """Whole lines in which something is unusually long, deep or frequent."""
    line = [c for c in syn.com if c.close is None and not c.bol and not c.prefix]
    block = [c for c in syn.com if c.close is not None and not c.bol]
    strs = [s for s in syn.strs if s.maxlen is None and not s.reach]
    N = r.choice(SIZES if r.random() < .98 else HUGE) + r.choice([0, 0, -1, 1, 2])
    if lang == "fortranfixed":
        d.put("code", b"      " + b"X" * N)
        d.nl()
        return
    kinds = ["code", "indent", "blanks", "many"] + ["line"] * bool(line) + ["block", "blocklines", "blocks"] * bool(block) + \
        ["str", "strs"] * bool(strs) + ["deep"] * any(c.nest for c in block) + ["rawlines"] * any(s.nl == "raw" for s in strs)
    k = r.choice(kinds)
    d.features.add("big " + k)
    if k == "code":
        d.put("code", b"w" * N)
    elif k == "indent":
        d.put("ws", r.choice([b" ", b"\t", b" \t"]) * N)
        if line and r.random() < .5:
            s = len(d.buf)
            d.put("comment", r.choice(line).open + b" z")
            d.ents.append(("comment", s, len(d.buf)))
        elif r.random() < .7:
            write_code(d, r, syn)
    elif k == "blanks":
        for _ in range(r.choice([min(N, 600), N])):
            d.nl()
        write_code(d, r, syn)
    elif k == "many":
        for i in range(r.choice([min(N, 400), min(N, 400), N])):
            write_code(d, r, syn) if i % 3 else None
            d.nl()
        return
    elif k == "line":
        c = r.choice(line)
        s = len(d.buf)
        d.put("comment", c.open + c.lead + b"z" * N)
        d.ents.append(("comment", s, len(d.buf)))
    elif k in ("block", "blocklines"):
        c = r.choice(block)
        s = len(d.buf)
        d.put("comment", c.open + b" ")
        if k == "block":
            d.put("comment", b"z" * N)
        else:
            for i in range(r.choice([min(N, 300), min(N, 300), N])):
                d.put("comment", b"z" if i % 4 else b"")
                d.nl()
        d.put("comment", b" " + c.close)
        d.ents.append(("comment", s, len(d.buf)))
        if r.random() < .4:
            d.put("ws", b" ")
            write_code(d, r, syn)
    elif k == "blocks":
        c = r.choice(block)
        for _ in range(min(N, 130)):
            s = len(d.buf)
            d.put("comment", c.open + b" y " + c.close)
            d.ents.append(("comment", s, len(d.buf)))
            d.put("ws", b" ")
        if r.random() < .5:
            write_code(d, r, syn)
    elif k == "deep":
        c = r.choice([c for c in block if c.nest])
        m = r.choice([2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33, 64, 100, 127, 128, 129, 130, 255, 256, 257, 300, 511, 513])
        s = len(d.buf)
        for _ in range(m):
            d.put("comment", c.open + b" ")
            if r.random() < .1:
                d.nl()
        d.put("comment", b"mid")
        for _ in range(m):
            if r.random() < .1:
                d.nl()
            d.put("comment", b" " + c.close)
        d.ents.append(("comment", s, len(d.buf)))
        d.put("ws", b" ")
        write_code(d, r, syn)
    elif k in ("str", "strs", "rawlines"):
        st = r.choice([s for s in strs if k != "rawlines" or s.nl == "raw"])
        write_code(d, r, syn)
        d.put("ws", b" ")
        if k == "strs":
            for _ in range(min(N, 130)):
                s = len(d.buf)
                d.put("code", st.open + b"sss" + st.close)
                d.ents.append(("string", s, len(d.buf)))
                d.put("ws", b" ")
        else:
            s = len(d.buf)
            d.put("code", st.open)
            if k == "str":
                d.put("code", b"s" * N)
            else:
                for i in range(r.choice([min(N, 300), min(N, 300), N])):
                    d.put("code", b"s")
                    d.nl()
                d.put("code", b"s")
            d.put("code", st.close)
            d.ents.append(("string", s, len(d.buf)))
    d.nl()


def make_doc(r, lang, n=None, nl=b"\n", syn=None, final_newline=None, tame=False, big=0.0):
    """tame: nothing in a string looks like anything else. big: how likely an unusually large part is."""
    syn = syn or SYN[lang]
    d = Doc(lang, nl, tame)
    for _ in range(n if n is not None else r.choice([1, 2, 3, 4, 6, 9, 14])):
        if big and r.random() < big:
            big_element(d, r, syn, lang)
        else:
            element(d, r, syn, lang)
    if final_newline is False or (final_newline is None and r.random() < 0.2):
        # a last line without its newline
        write_code(d, r, syn)
        d.nl(last=True)
        d.features.add("no-final-newline")
    return d
