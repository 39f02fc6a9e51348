"""P27: the gestalts of a set of files are exactly those that their definitions entail, whatever the order and what was analysed before."""
import os
import re

import vlib
from check import show, u
from gestalts import DEFS, TOOLS, Facts, gestalts, instance, rx
from vlib import Case, Crash, Skipped

RULE = ("an evaluation is one project (files of many languages, built to meet or just miss definitions) whose gestalts, found by the Ruby engine over a directory, over the same files in another order, over single files and again "
        "later in the same process, were compared with those an independent table of definitions entails from the recorded code text; non-trivial: distinct projects")
EXTS = {"c": "c", "cpp": "cpp", "java": "java", "php": "php", "html": "html", "xml": "xml", "ruby": "rb", "python": "py", "perl": "pm", "csharp": "cs", "objective_c": "mm", "visualbasic": "vb", "assembler": "asm",
        "make": None, "autoconf": "ac", "javascript": "js", "sql": "sql", "actionscript": "as", "mxml": "mxml", "dmd": "d", "fortranfree": "f90", "haskell": "hs", "cobol": "cob", "css": "css", "xaml": "xaml", "shell": "sh"}
LINEC = {"c": "//", "cpp": "//", "java": "//", "php": "#", "ruby": "#", "python": "#", "perl": "#", "csharp": "//", "objective_c": "//", "visualbasic": "'", "assembler": ";", "make": "#", "autoconf": "dnl", "javascript": "//",
         "sql": "--", "actionscript": "//", "dmd": "//", "fortranfree": "!", "haskell": "--", "shell": "#"}
BLOCKC = {"html": ("<!--", "-->"), "xml": ("<!--", "-->"), "mxml": ("<!--", "-->"), "xaml": ("<!--", "-->"), "css": ("/*", "*/"), "c": ("/*", "*/"), "java": ("/*", "*/")}
EVIL = [b'<?xml version="1.0" encoding="nonsense-8"?>\n<project/>\n', b"<project>&#xffffffff;</project>\n", b'<?xml version="1.0" encoding="UTF-8"?>\n<project name="\xff\xfe">\n\xe9</project>\n', b"<project><dependency><groupId/></dependency></project>\n",
        b"<groupId/>", b"</project>\n", b"<project", b"<", b"<project><a></b></project>\n", b"<project>&undefined;</project>\n", b"words\n", b"<project><plugin><artifactId/></plugin></project>\n", b"<?xml version=\"1.0\" encoding=\"\"?>\n<a/>\n",
        b'<Project><Import Project="\xff"/></Project>\n', b"<Project><Import/></Project>\n"]


def code_line(r, lang, w):
    f = {"c": ["  %s(x);", "int a = %s;", "x(\"%s\");", "%s y; // note", "#define A %s"], "java": ["  %s x;", "    @Foo %s", "call(%s);"], "php": ["%s($x);", "  $a = %s;"], "html": ['<script src="%s"></script>', "<p>%s</p>", '<%s id="1">'],
         "xml": ['<a href="%s"/>', "<b>%s</b>"], "make": ["\t%s -o $@ $<", "CC = %s", "all: %s"], "assembler": ["  %s r0, r1", "%s"], "ruby": ["  x = %s", "%s"], "python": ["%s", "  %s"], "perl": ["use %s;", "%s->new();"],
         "visualbasic": ["Imports %s", "  Dim x As %s"]}
    return (r.choice(f.get("c" if lang in ("cpp", "csharp", "objective_c") else lang, ["%s"])) % w if "%" not in w else w).encode("latin-1")


def miss(r, w):
    """A word that is nearly w."""
    if not w:
        return "x"
    i = r.randrange(len(w))
    k = r.random()
    if k < .25:
        return w[:i] + w[i + 1:]
    if k < .45:
        return w[:i] + r.choice("xX_ .") + w[i:]
    if k < .6:
        return w.swapcase()
    if k < .75:
        return r.choice("xX_9") + w
    if k < .9:
        return w + r.choice("xX_9")
    return w.replace(".", r.choice(["/", "x", ""]), 1)


class Project:
    def __init__(self, r, ck):
        self.r, self.ck = r, ck
        self.files = {}       # path -> list of lines, or bytes
        self.n = 0

    def lines(self, lang, fresh=.4):
        have = [p for p in self.files if isinstance(self.files[p], list) and self.files[p][0] == lang]
        if have and self.r.random() > fresh:
            return self.files[self.r.choice(have)]
        self.n += 1
        e = EXTS.get(lang, "txt")
        name = "f%d.%s" % (self.n, e) if e else self.r.choice(["Makefile", "d%d/Makefile" % self.n, "f%d.mk" % self.n])
        if self.r.random() < .3:
            name = self.r.choice(["src/", "a b/", "org/x/", "test.d/"]) + name
        self.files.setdefault(name, [lang])
        return self.files[name] if isinstance(self.files[name], list) else [lang]

    def word(self, lang, w, count=1):
        r = self.r
        for _ in range(count):
            ls = self.lines(lang)
            k = r.random()
            if k < .12:
                w2 = miss(r, w)
                self.ck.saw("near misses of words")
                ls.append(code_line(r, lang, w2))
                continue
            if k < .2 and (lang in LINEC or lang in BLOCKC):
                self.ck.saw("words in comments")
                if lang in LINEC and (lang not in BLOCKC or r.random() < .6):
                    ls.append((LINEC[lang] + " " + w).encode("latin-1"))
                else:
                    o, c = BLOCKC[lang]
                    ls.append(f"{o} {w} {c}".encode("latin-1") if r.random() < .5 else f"{o}\n {w}\n{c}".encode("latin-1"))
                continue
            ls.append(code_line(r, lang, w))

    def ballast(self, lang, n):
        r = self.r
        t = {"c": b"int a%d;", "html": b"<p>%d</p>", "xml": b"<a>%d</a>", "mxml": b"<a>%d</a>", "xaml": b"<a>%d</a>", "css": b"p%d { }", "php": b"$a = %d;", "make": b"A = %d", "autoconf": b"AC_FOO(%d)", "haskell": b"f x = %d", "cobol": b"           MOVE %d TO X.",
             "visualbasic": b"Dim x%d", "ruby": b"x = %d", "python": b"x = %d", "shell": b"echo %d", "fortranfree": b"x = %d", "sql": b"SELECT %d;", "perl": b"$x = %d;"}.get(lang, b"x = %d;")
        ls = self.lines(lang, .7)
        for i in range(n):
            ls.append(t % i)
        if r.random() < .3 and lang in LINEC:
            ls.append((LINEC[lang] + " words").encode())
        if r.random() < .3:
            ls.append(b"")

    def threshold(self):
        """A project of two languages and markup, one of them just at, below or above its share."""
        r = self.r
        self.files.clear()
        lang, pct = r.choice([("java", 15), ("ruby", 15), ("php", 15), ("python", 15), ("perl", 20), ("javascript", 20), ("visualbasic", 5), ("actionscript", 1), ("csharp", 10), ("c", 5), ("dmd", 5), ("haskell", 5), ("mxml", 1)])
        k = r.choice([1, 2, 3, 5, 5, 13, 40])
        unit = {15: (3, 17), 20: (1, 4), 5: (1, 19), 1: (1, 99), 10: (1, 9)}[pct]
        if lang == "mxml":
            unit = (1, 100)     # markup is not in the sum
        other = r.choice([x for x in ("shell", "sql", "actionscript", "dmd") if x != lang])
        for l, n in ((lang, unit[0] * k), (other, unit[1] * k + r.choice([-1, 0, 0, 0, 1]))):
            self.files["only." + EXTS[l]] = b"".join({"php": b"<?php echo %d; ?>\n", "mxml": b"<a>%d</a>\n", "javascript": b"x = %d;\n", "shell": b"echo %d\n", "visualbasic": b"Dim x%d\n"}.get(l, b"x = %d;\n") % i for i in range(n))
        for l in r.sample(["html", "xml", "css"], r.randrange(3)):
            self.files["m." + l] = b"<a>\n" * r.choice([1, 10, 100])
        self.ck.saw("shares of a language at the threshold")

    def pom(self, kind, g, a):
        r = self.r
        pos = [p for p in self.files if isinstance(self.files[p], dict)]
        if pos and r.random() < .6:
            d = self.files[r.choice(pos)]
        else:
            self.n += 1
            d = {"items": [], "n": self.n, "ns": r.choice(["", ' xmlns="http://maven.apache.org/POM/4.0.0"', ' xmlns="http://maven.apache.org/POM/4.0.0" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"', ' xmlns="http://example.org/other"'] if r.random() < .5 else [""])}
            self.files[r.choice(["pom.xml", "m%d/pom.xml" % self.n, "m%d/pom.xml" % self.n, "not%d/xpom.xml" % self.n, "a%d/pom.xml.xml" % self.n, "b%d/parent-pom.xml" % self.n] if r.random() < .4 else ["m%d/pom.xml" % self.n])] = d
        d["items"].append((kind, g, a))

    def render_pom(self, d):
        r = self.r
        sep = r.choice(["\n", "\n", "\n  ", "", "\r\n"])
        out = [r.choice(["", '<?xml version="1.0" encoding="UTF-8"?>\n', '<?xml version="1.0"?>\n']) + f"<project{d['ns']}>"]

        def el(kind, g, a, depth=0):
            ids = [f"<groupId>{g}</groupId>", f"<artifactId>{a}</artifactId>"]
            if r.random() < .2:
                ids.reverse()
            k = r.random()
            if k < .06:
                ids.pop()
            elif k < .12:
                ids[0] = ids[0].replace(">" + g, "> ${x}" + g) if r.random() < .5 else "<groupId/>"
            elif k < .2:
                ids[0] = ids[0].replace(">" + g + "<", ">\n      " + g + "\n   <")
            out.append(f"<{kind}>")
            inner = []
            if depth < 2 and r.random() < .35:
                self.ck.saw("elements within a dependency or plugin")
                q = r.random()
                if q < .4:
                    inner = ["ex"]
                elif kind == "plugin":
                    inner = ["dep"]
                else:
                    inner = ["ex", "ex"]
            if r.random() < .3:
                out.append("<version>1.0</version>")
            if inner and r.random() < .3:
                out.extend(ids)
                ids = []
            elif not inner or r.random() < .7:
                out.extend(ids)
                ids = []
            for i in inner:
                g2, a2 = self.coordinates()
                if i == "ex":
                    out.append(f"<exclusions><exclusion><groupId>{g2}</groupId><artifactId>{a2}</artifactId></exclusion></exclusions>")
                else:
                    out.append("<dependencies>")
                    el("dependency", g2, a2, depth + 1)
                    out.append("</dependencies>")
            out.extend(ids)
            out.append(f"</{kind}>")
        for kind, g, a in d["items"]:
            if r.random() < .12:
                self.ck.saw("dependencies in comments")
                out.append(f"<!--\n<{kind}>\n<groupId>{g}</groupId>\n<artifactId>{a}</artifactId>\n</{kind}>\n-->")
                if sep == "":
                    out[-1] = "\n" + out[-1] + "\n"
            else:
                el(kind, g, a)
        out.append("</project>")
        t = sep.join(out)
        if r.random() < .08:
            t = t[:r.randrange(len(t))]
            self.ck.saw("cut off XML")
        return t.encode() + b"\n"

    def coordinates(self):
        r = self.r
        ms = MAVEN if r.random() < .7 else [("dependency", "org.example", "thing")]
        _, g, a = r.choice(ms)
        g, a = instance(r, g).strip("^$") or "g", instance(r, a) if a != ".*" else r.choice(["core", "api", "jasperreports"])
        k = r.random()
        if k < .2:
            g = g + r.choice([".sub", "x", "-more"])
        elif k < .3:
            g = miss(r, g)
        return "".join(c for c in g if c not in "<>&\"") or "g", a

    def satisfy(self, rule, depth=0):
        r, k = self.r, rule[0]
        if k == "or":
            for x in r.sample(rule[1], min(len(rule[1]), r.choice([1, 1, 1, 2]))):
                self.satisfy(x, depth + 1)
        elif k == "and":
            for x in rule[1]:
                if r.random() > .07:
                    self.satisfy(x, depth + 1)
        elif k == "gestalt":
            self.satisfy(DEFS[rule[1]], depth + 1)
        elif k == "header":
            h = r.choice(rule[1])
            h = r.choice([h, h, h, h.upper(), h.swapcase(), miss(r, h)])
            q = r.choice(["<%s>", '"%s"', "<%s>", "'%s'", "<%s", "%s", "<x/%s>"] if r.random() < .3 else ["<%s>", '"%s"'])
            self.lines(r.choice(["c", "cpp", "c", "java", "objective_c"] if r.random() < .2 else ["c", "cpp"])).append((r.choice(["#include ", "#include ", "#include  ", "# include ", "#include", "//#include ", "#Include "] if r.random() < .3 else ["#include "]) + q % h).encode("latin-1"))
        elif k == "word":
            lang = rule[1] if rule[1] not in (None, "c|cpp") else r.choice(["c", "cpp"]) if rule[1] else r.choice(["java", "xml", "html", "ruby", "c", "make", "sql"])
            n = rule[3]
            n = n if r.random() < .7 else max(0, n + r.choice([-1, 1]))
            for _ in range(n):
                self.word(lang, instance(r, r.choice(rule[2])))
            self.ck.saw("words wanted several times", rule[3] > 1)
        elif k == "lang":
            if rule[1] in EXTS or rule[1] == "fortran":
                self.ballast(rule[1] if rule[1] in EXTS else "fortranfree", r.choice([1, 2, 3, 5, 10, 20]))
        elif k == "path" or k == "name":
            p = instance(r, r.choice(rule[1]) if k == "path" else rule[1])
            if r.random() < .15:
                p = miss(r, p)
            p = r.choice(["", "", "lib/", "a-", "x.", "deep/er/", "w"]) + p + r.choice(["", "", "", ".bak", "/inner.c"] if r.random() < .3 else [""])
            p = p.replace("//", "/").strip("/") or "p"
            if not any(q == p or q.startswith(p + "/") or p.startswith(q + "/") for q in self.files) and ".." not in p and "\0" not in p:
                self.files[p] = r.choice([b"", b"text\n", b"<a/>\n"])
        elif k == "import":
            w = instance(r, rule[1].replace("^", "").replace(r"\b", "")) + r.choice(["", ".", ".*", ".Foo", ".foo.Bar", "x", ".a-b"])
            if r.random() < .12:
                w = miss(r, w)
            if w.endswith("."):
                w += "Foo"
            if "*" in w and w.count(".") < 4:
                w = w.replace("*", "Foo")
            self.lines("java").append((r.choice(["import ", "import ", "import ", "  import ", "import static ", "import\t", "// import ", "importx ", "x import "] if r.random() < .4 else ["import "]) + w + r.choice([";", ";", "", " ;"])).encode("latin-1"))
        elif k == "using":
            w = instance(r, rule[1].replace("^", "").replace(r"\b", "")) + r.choice(["", "", ".Foo", "x"])
            self.lines("csharp").append((r.choice(["using ", "using ", "  using ", "//using ", "using x = "]) + w + r.choice([";", ";", ";", " ;", ""])).encode("latin-1"))
        elif k == "project import":
            self.n += 1
            w = instance(r, rule[1].replace(r"\b", ""))
            w = r.choice([w, "$(Path)\\" + w + "\\x.targets", w + "x", "x" + w, "Other"])
            ns = r.choice(["", ' xmlns="http://schemas.microsoft.com/developer/msbuild/2003"', ' xmlns="http://example.org/x"'])
            self.files[r.choice(["p%d.csproj", "p%d.csproj", "p%d.xml", "p%d.csproj.user"]) % self.n] = f'<Project{ns}>\n  <Import Project="{w}" />\n</Project>\n'.encode()
        elif k == "maven":
            g, a = instance(r, rule[2]), instance(r, rule[3]) if rule[3] != ".*" else "core"
            q = r.random()
            if q < .15:
                g = miss(r, g)
            elif q < .4:
                g += r.choice([".sub", "x", "-y"])
            elif q < .5:
                a = miss(r, a)
            clean = lambda s: "".join(c for c in s if c not in "<>&\"") or "g"
            self.pom(rule[1] if r.random() < .9 else {"dependency": "plugin", "plugin": "dependency"}[rule[1]], clean(g), clean(a))

    def exact(self, leaf, near=False):
        """This one fact and nothing else of a definition; or all but one letter of it."""
        r, k = self.r, leaf[0]
        w = instance(r, {"header": lambda: leaf[1].replace(".", r"\."), "word": lambda: leaf[2], "path": lambda: leaf[1], "name": lambda: leaf[1], "import": lambda: leaf[1].replace("^", "").replace(r"\b", ""),
                         "using": lambda: leaf[1].replace("^", "").replace(r"\b", ""), "project import": lambda: leaf[1], "maven": lambda: leaf[2], "lang": lambda: ""}[k]())
        if near:
            w = miss(r, w)
        if k == "lang":
            if leaf[1] in EXTS or leaf[1] == "fortran":
                self.ballast(leaf[1] if leaf[1] in EXTS else "fortranfree", r.choice([1, 3, 20]))
        elif k == "header":
            self.lines(r.choice(["c", "cpp"]), 1).append((r.choice(['#include <%s>', '#include "%s"']) % w).encode("latin-1"))
        elif k == "word":
            for _ in range(leaf[3] - (near and leaf[3] > 1)):
                self.lines(leaf[1], r.choice([0, 1])).append(code_line(r, leaf[1], w if leaf[3] == 1 else instance(r, leaf[2])))
        elif k in ("path", "name"):
            w = w.strip("/") or "p"
            if not any(q == w or q.startswith(w + "/") or w.startswith(q + "/") for q in self.files):
                self.files[w] = b""
        elif k == "import":
            self.lines("java").append(b"import " + w.encode("latin-1") + r.choice([b".Foo;", b".foo.Bar;"]))
        elif k == "using":
            self.lines("csharp").append(b"using " + w.encode("latin-1") + b";")
        elif k == "project import":
            self.n += 1
            self.files["p%d.csproj" % self.n] = f'<Project>\n  <Import Project="{w}" />\n</Project>\n'.encode()
        else:
            a = instance(r, leaf[3]) if leaf[3] != ".*" else "core"
            self.n += 1
            self.files["m%d/pom.xml" % self.n] = f"<project>\n<{leaf[1]}>\n<groupId>{w}</groupId>\n<artifactId>{a}</artifactId>\n</{leaf[1]}>\n</project>\n".encode()

    def misses(self, leaf):
        """Many strings that all but make the fact, together: none of them does."""
        r, k = self.r, leaf[0]
        pat = {"header": lambda: "^(" + leaf[1] + ")$", "word": lambda: leaf[2], "path": lambda: leaf[1], "name": lambda: leaf[1], "import": lambda: leaf[1], "using": lambda: leaf[1], "project import": lambda: leaf[1], "maven": lambda: leaf[2]}[k]()
        near = set()
        for _ in range(3):
            w = instance(r, leaf[1].replace(".", r"\.") if k == "header" else pat.replace("^", "").replace(r"\b", ""))
            near |= {w[:i] + w[i + 1:] for i in range(len(w))} | {w[:i] + "x" + w[i + 1:] for i in range(len(w)) if not w[i].isalnum()} | {w[:i] + w[i].swapcase() + w[i + 1:] for i in range(len(w))}
            near |= {a + w + b for a in ("", "x", "x.", "x_", "9", "a-") for b in ("", "x", "_x", "9", "s", "-b")}
        if k == "maven":
            near |= {w + ".x", "org." + w}
        near = sorted(x for x in near if x.strip() and not rx(pat, re.I if k == "header" else 0).search(x.encode("latin-1")) and not set(x) & set("\n\r<>&\"'"))
        for w in r.sample(near, min(len(near), 12 if k in ("path", "name") else 45)):
            if k == "header":
                self.lines(r.choice(["c", "cpp"]), 0).append(b"#include <" + w.encode("latin-1") + b">")
            elif k == "word":
                self.lines(leaf[1], 0).append(code_line(r, leaf[1], w))
            elif k in ("path", "name"):
                w = w.strip("/") or "p"
                if w not in (".", "..") and "/../" not in w and not any(q == w or q.startswith(w + "/") or w.startswith(q + "/") for q in self.files):
                    self.files[w] = b""
            elif k == "import":
                self.lines("java", 0).append(b"import " + w.encode("latin-1") + b";")
            elif k == "using":
                self.lines("csharp", 0).append(b"using " + w.encode("latin-1") + b";")
            elif k == "project import":
                self.n += 1
                self.files["p%d.csproj" % self.n] = f'<Project>\n  <Import Project="{w}" />\n</Project>\n'.encode()
            else:
                a = instance(r, leaf[3]) if leaf[3] != ".*" else "core"
                self.n += 1
                self.files["m%d/pom.xml" % self.n] = f"<project>\n<{leaf[1]}>\n<groupId>{w}</groupId>\n<artifactId>{a}</artifactId>\n</{leaf[1]}>\n</project>\n".encode()
        self.ck.saw("strings that all but make a fact", len(near))

    def write(self, base):
        r = self.r
        out = []
        for p in list(self.files):
            d = self.files[p]
            if isinstance(d, dict):
                d = self.render_pom(d)
            elif isinstance(d, list):
                lang, ls = d[0], d[1:]
                if lang == "java":    # imports first, mostly
                    ls = [x for x in ls if b"import" in x] + [x for x in ls if b"import" not in x] if r.random() < .7 else ls
                elif r.random() < .3:
                    r.shuffle(ls)
                if lang == "php":
                    ls = [b"<?php"] + ls + [b"?>"]
                if lang == "csharp" and r.random() < .9:
                    ls = [b"using System;"] + ls
                d = r.choice([b"\n", b"\n", b"\n", b"\r\n"]).join(ls) + b"\n"
                if r.random() < .05:
                    d += b"\xff\xe9 x\n"
            f = os.path.join(base, p.encode("latin-1"))
            os.makedirs(os.path.dirname(f), exist_ok=True)
            if os.path.exists(f):
                continue
            with open(f, "wb") as h:
                h.write(d)
            out.append(f)
        return out


def _mavens(rule):
    if rule[0] == "maven":
        return [rule[1:]]
    return [m for x in (rule[1] if rule[0] in ("or", "and") else []) for m in _mavens(x)]


def plans(rule):
    """The least sets of single facts that make the rule hold, each fact standing in one of them."""
    k = rule[0]
    if k == "or":
        return [p for x in rule[1] for p in plans(x)]
    if k == "gestalt":
        return plans(DEFS[rule[1]])[:1]
    if k == "and":
        parts = [plans(x) for x in rule[1]]
        out = []
        for i, ps in enumerate(parts):
            for p in ps if i or len(parts) == 1 else ps[:1]:
                out.append([q for j, qs in enumerate(parts) for q in (p if i == j else qs[0])])
        return out
    if k == "not":
        return [[]]
    if k == "header" or k == "path":
        return [[(k, h)] for h in rule[1]]
    if k == "word":
        return [[(k, lang, w, rule[3])] for lang in (["c", "cpp"] if rule[1] == "c|cpp" else ["ruby", "xml", "make"] if rule[1] is None else [rule[1]]) for w in rule[2]]
    return [[rule]]


def _many(leaf):
    """How many instances of a fact are worth making: one, or one for each of its alternatives."""
    t = " ".join(map(str, leaf[1:]))
    return 1 + 2 * (t.count("|") + t.count("?"))


MAVEN = [m for d in DEFS.values() for m in _mavens(d)]


def run(ck):
    plain = vlib.build("plain")["driver"]
    rb = vlib.build_ruby("plain")
    wd = vlib.scratch("p27").encode()
    r = ck.rng("projects")
    every = sorted(DEFS) + ["tool:" + t for t in sorted(TOOLS)]
    projects, cases = [], []
    alone, done = [], set()
    for n in every:
        for p in plans(TOOLS[n[5:]] if n.startswith("tool:") else DEFS[n]):
            for i, x in enumerate(p):
                if x[0] != "lang" and (x, len(p)) not in done:
                    done.add((x, len(p)))
                    alone.append((p, ("all", i)))
            alone += [(p, None)] * max([_many(x) for x in p] or [1]) * ck.n(1, 3) + [(p, i) for i in range(len(p)) for _ in range(ck.n(1, 4))]
    for k in range(len(alone) + ck.n(1500, 10000)):
        base = os.path.join(wd, b"t%d" % k)
        os.makedirs(base)
        pr = Project(r, ck)
        if k < len(alone):
            plan, near = alone[k]
            for i, x in enumerate(plan):
                if near == ("all", i):
                    pr.misses(x)
                else:
                    pr.exact(x, i == near)
            ck.saw("one fact alone" if near is None else "one fact nearly")
            try:
                fs = pr.write(base)
            except OSError:
                fs = []
            if fs:
                projects.append((base, fs))
                cases.append(Case([("LNEW", 0), ("LDIR", 0, base), ("LDUMP", 0), ("LFREE", 0)] + [q for f in fs for q in (("NEW", 0, f), ("GETLANG", 0), ("PARSE", 0), ("FREE", 0))]))
            continue
        for n in [every[k % len(every)]] + r.sample(every, r.choice([0, 1, 2, 4, 8])):
            pr.satisfy(TOOLS[n[5:]] if n.startswith("tool:") else DEFS[n])
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            pr.ballast(r.choice(sorted(EXTS)), r.choice([1, 2, 3, 4, 5, 7, 10, 15, 30, 80]))
        if r.random() < .5:
            pr.ballast("java", r.choice([1, 3, 10, 40]))
        if r.random() < .25:
            pr.threshold()
        if r.random() < .12:
            pr.files[r.choice(["evil/pom.xml", "evil.csproj"])] = r.choice(EVIL)
            ck.saw("XML no parser takes")
        try:
            fs = pr.write(base)
        except OSError:
            fs = []
        if not fs:
            continue
        projects.append((base, fs))
        cases.append(Case([("LNEW", 0), ("LDIR", 0, base), ("LDUMP", 0), ("LFREE", 0)] + [q for f in fs for q in (("NEW", 0, f), ("GETLANG", 0), ("PARSE", 0), ("FREE", 0))]))
    facts = []
    for (base, fs), o in zip(projects, vlib.run_cases(plain, cases, san=False)):
        if not isinstance(o, list):
            facts.append(None)
            continue
        lang, pl = ([q for q in o if q["op"] == x] for x in ("GETLANG", "PARSE"))
        by = {f: (f, lang[i]["lang"], {x[0]: (x[1], u(x[4])) for x in pl[i]["pl"]}) for i, f in enumerate(fs)}
        facts.append((by, [u(f) for f in next(q["files"] for q in o if q["op"] == "LDUMP")]))
    rcases = []
    for (base, fs), f in zip(projects, facts):
        if f is None:
            continue
        by, listed = f
        ops, want = [], []

        def expect(files, op):
            fx = Facts([by[x] for x in files])
            a, b = gestalts(fx), gestalts(fx, loose=True)
            want.append((op, sorted(a) if a == b else None))
        ops.append(("LNEW", "l", b"p" + base))
        want.append(None)
        expect(listed, "directory")
        ops.append(("LGEST", "l"))
        if r.random() < .5:
            ops.append(("SORT", "l"))
            expect(listed, "sorted")
        if r.random() < .5:
            some = r.sample(fs, len(fs)) if r.random() < .5 else r.sample(fs, r.randrange(1, len(fs) + 1)) + r.sample(fs, r.randrange(2))
            ops.append(("LNEW", "m"))
            want.append(None)
            if r.random() < .3:
                ops.append(("LGEST", "m"))
                expect([], "empty")
            for x in some:
                ops.append(("LFILE", "m", x))
                want.append(None)
            ops.append(("LGEST", "m"))
            expect(some, "other order or selection")
        if r.random() < .3:
            ops.append(("FIND", "l"))
            expect(listed, "find_gestalts")
        if r.random() < .4:
            x = r.choice(fs)
            ops += [("SF", "s", x), ("GEST", "s")]
            want.append(None)
            expect([x], "single file")
        if r.random() < .2:
            ops += [("LNEW", "n", b"p" + base), ("ANALYZE", "n", "language"), ("ANALYZE", "n", *r.choice([["gestalt"], [], ["gestalt", "language"]]))]
            want.append(None)
            want.append(("languages only", "none"))
            expect(listed, "analyze")
        if r.random() < .4:
            ops.append(("LGEST", "l"))
            expect(listed, "again")
        rcases.append(Case(ops, want=want, base=base.decode()))
    rb = dict(rb)
    r.shuffle(rcases)
    for c, o in zip(rcases, vlib.run_cases(rb.pop("exe"), rcases, per_proc=150, timeout=300, **rb)):
        if isinstance(o, Skipped):
            continue
        if isinstance(o, Crash):
            ck.crash(o, c, "ruby")
            continue
        ck.evaluated(c.meta["base"])
        for op, w, q in zip(c.ops, c.meta["want"], o):
            if "error" in q:
                ck.violation(f"raises {q['error']}", f"{op[0]}: {q['error']}: {q['text']} at {q['at']} {c.meta['base']}", keep(c))
                break
            if w is None:
                continue
            what, w = w
            if w == "none":
                if q["gestalts"] is not None:
                    ck.violation("gestalts not asked for", f"{q['gestalts']}", keep(c))
                continue
            if w is None:
                ck.saw("left open")
                continue
            got = sorted((t, n) for t, n, _ in q["gestalts"])
            ck.saw("answers: " + what)
            for t, n in got:
                ck.saw("seen " + n)
            if got != w:
                for x in sorted(set(w) - set(got)):
                    ck.violation(f"missing {x[1]}", f"{what}: {x} is missing from {got}, entailed: {w} ({c.meta['base']})", keep(c))
                for x in sorted(set(got) - set(w)):
                    ck.violation(f"extra {x[1]}", f"{what}: {x} is not entailed by the files; entailed: {w} ({c.meta['base']})", keep(c))
                for x in sorted(set(got)):
                    if got.count(x) > 1:
                        ck.violation(f"twice {x[1]}", f"{what}: {x} is reported {got.count(x)} times", keep(c))
                break
            if what == "sorted" and [(t, n) for t, n, _ in q["gestalts"]] != w:
                ck.violation("order", f"sorted as {q['gestalts']}", keep(c))
            if any(x[2] != 1 for x in q["gestalts"]):
                ck.violation("count", f"{q['gestalts']}", keep(c))
    script(ck, rb, r.sample([(b, fs, f[0]) for (b, fs), f in zip(projects, facts) if f is not None], ck.n(40, 400)), r)
    # every definition must have been entailed in some project and not in others
    for n in sorted(DEFS) + sorted(TOOLS):
        if n != "native_code":
            ck.require("seen " + n, 3)
    ck.require("runs of gestalt.rb", 20)
    ck.require("shares of a language at the threshold", 100)
    for k in ("directory", "other order or selection", "find_gestalts", "single file", "again", "analyze", "sorted"):
        ck.require("answers: " + k, 100)


def script(ck, rb, projects, r):
    """gestalt.rb as a program: of the paths given, or of the directory it is run in."""
    for base, fs, by in projects:
        k = r.randrange(3)
        seen = [f for f in fs if b"/." not in os.path.dirname(f)[len(base):]]   # walks pass by hidden directories
        args, files = [([], seen), ([base], seen), (lambda x: (x, x))(r.sample(fs, r.randrange(1, len(fs) + 1)))][k]
        here = [(b"." + by[f][0][len(base):],) + by[f][1:] if k == 0 else by[f] for f in files]
        a, b = gestalts(Facts(here)), gestalts(Facts(here), loose=True)
        if a != b:
            continue
        rc, out, err = vlib.bounded([*rb["prefix"], os.path.join(vlib.source_tree(), "ruby", "gestalt.rb"), *args], cwd=base, env={**vlib.ENV, **rb["env"]})
        want = [b"Examining %d file(s) for gestalts." % len(files)] + [b"%s\t%s\t%s" % (t.encode(), b"1".rjust(8), n.encode()) for t, n in sorted(a)]
        got = out.split(b"\n")[:-1]
        ck.evaluated(b"script %d " % k + base)
        ck.saw("runs of gestalt.rb")
        if rc or got != want:
            ck.violation("gestalt.rb", f"gestalt.rb of {['the current directory', 'a directory', 'files'][k]} ended with {rc} and printed {got}, entailed: {want} {show(err, 200)}", {"args": [x.decode("latin-1") for x in args], "cwd": base.decode()})


def keep(c):
    """The files of a project, to replay it."""
    out = {}
    base = c.meta["base"].encode()
    for d, _, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, base).decode("latin-1")] = h.read(4000).decode("latin-1")
    return {"ops": [[str(x) for x in op] for op in c.ops], "files": out}
