"""What the gestalts of a set of files are, written down independently of ruby/gestalt: definitions as a table, and their meaning on recorded facts."""
import re
import xml.parsers.expat

try:
    import re._parser as sre
except ImportError:  # pragma: no cover
    import sre_parse as sre

MARKUP = {"css", "haml", "html", "metafont", "metapost", "mxml", "postscript", "qml", "tex", "tex_dtx", "xaml", "xml", "xmlschema"}


def H(*hs):
    return ("header", list(hs))


def K(lang, *ws, min=1):
    return ("word", lang, list(ws), min)


def C(*ws, min=1):
    return ("word", "c|cpp", list(ws), min)


def L(lang, pct=0):
    return ("lang", lang, pct)


def F(*rs):
    return ("path", list(rs))


def N(r):
    return ("name", r)


def J(r):
    return ("import", r)


def U(r):
    return ("using", r)


def PI(r):
    return ("project import", r)


def M(kind, group, artifact=".*"):
    return ("maven", kind, group, artifact)


def G(*names):
    return ("or", [("gestalt", n) for n in names])


def A(*rs):
    return ("and", list(rs))


def O(*rs):
    return ("or", list(rs))


def JAVA(*rs):
    return A(G("java"), O(*rs))


def PHP(*rs):
    return A(G("php"), O(*rs))


NBTK = (r"\bnbtk_[a-z]+", r"\bNbtk[A-Z][a-z]+")
DEFS = {
    "posix": O(H("pthread.h", "xstrtol.h", "xreadlink.h", "fatal-signal.h", "diacrit.h", "syslog.h", "sys/stat.h"), L("autoconf")),
    "win32": O(H("windows.h"), C("WM_PAINT", "ReleaseDC", "WndProc", min=2)),
    "visualbasic": L("visualbasic", 5), "ruby": L("ruby", 15), "java": L("java", 15), "javascript": L("javascript", 20), "php": L("php", 15), "python": L("python", 15), "perl": L("perl", 20), "sql": L("sql"),
    "rails": A(G("ruby"), K("ruby", "RAILS_ROOT")),
    "jquery": F(r"jquery-\d.\d.\d.min.js$"),
    "mootools": F(r"\bmootools-\d(\.\d)*(-core)?(-..)?\.js$"),
    "prototype": F(r"\bprototype(-\d+(\.\d)+)?.js$"),
    "yui": O(F(r"\byahoo-min\.js$"), K("html", r"\byahoo-min\.js\b")),
    "dojo": O(F(r"\bdojo\.js$"), K("html", r"\bdojo\.xd\.js\b")),
    "flash": O(L("actionscript", 1), A(G("java"), J(r"^(flash)\..+"))),
    "flex": O(L("mxml", 1), A(G("java"), J(r"^(mx)\..+"))),
    "xwindows": H("Xlib.h", "X11/xpm.h", "X11/Xlib.h"),
    "mac": O(C("AppleEvent", "AEBuildAppleEvent"), F(r"\.plist")),
    "wxwidgets": H("wx/window.h"),
    "zendframework": PHP(K("php", "Zend_Controller_Action")),
    "symfony": PHP(K("php", "sfCore", "sfConfig")),
    "pear": PHP(F(r"\bpackage\.xml(\.tpl)?$"), K("xml", r"pear\.php\.net/dtd/package\-2\.0")),
    "moodle": PHP(K("php", "moodle")),
    "mysql": K("php", "mysql_connect"), "postgresql": K("php", "pg_connect"),
    "scripting": G("javascript", "perl", "php", "python", "ruby"),
    "cakephp": PHP(K("php", "CAKE_CORE_INCLUDE_PATH")),
    "kde": H("KDEInit.h", "kdeversion.h"),
    "gtk": C("gtk_init", "gtk_main", "gtk_window_new", "GtkWidget"),
    "drupal": PHP(K("php", "drupal_set_message"), K("php", "drupal_render"), K("php", "Drupal", min=3)),
    "msdos": C("__MSDOS__", "MSDOS", min=2),
    "eclipseplatform": J(r"org\.eclipse\."),
    "arm": O(H("arm4.h", "arm3.h"), C("arm_int32_t", "arm_start_application", "__arm__"), K("make", r"\b\-mabi\b", r"\barmcc\b"), K("java", r"\barm\-eabi"),
             K("assembler", r"\bsmlal\b", r"\bsmulw\b", r"\borrs\b"), G("arm_neon"), J(r"org\.opengroup\.arm")),
    "arm_neon": O(K("assembler", r"\bvld1\.\d\d\b", r"\bvmov\b", r"\bvmov\.u8\b"), K("make", r"\bneon\b", r"\bNEON\b")),
    "sse3_atom_flag": K("make", "SSE3_ATOM"), "xl_flag": K("make", r"\bxL\b", r"\/QxL\b"), "atom": G("sse3_atom_flag", "xl_flag"),
    "intel_compiler": K("make", r"\bicc\b"), "gcc": K("make", r"\bgcc\b"),
    "clutter": O(*[f for l in ("c|cpp", "csharp") for f in [K(l, "ClutterActor", r"\bclutter_actor_", "ClutterStage", "ClutterBehavior", "clutter_main")]],
                 K("perl", "Clutter::Behavior", "Clutter::Actor", "Clutter::Stage"), K("java", "ClutterActor", "ClutterStage", "ClutterShader"),
                 K("ruby", "Clutter::Actor", "Clutter::Stage", "Clutter::Shader", "Clutter::Cairo")),
    "moblin_misc": O(C(r'"org\.moblin\.', "MOBLIN_NETBOOK_SYSTEM_TRAY_H", "org_Moblin_", r'"org\.Moblin\.', 'url="http://moblin.org">http://moblin.org</ulink>'),
                     K("make", "org.moblin.", "moblin-netbook"), F("moblin-netbook-system-tray.h$")),
    "nbtk": O(C(*NBTK), K("java", *NBTK), K("ruby", *NBTK), F("nbtk/nbtk.h")),
    "moblin": G("clutter", "moblin_misc", "nbtk"),
    "android": J(r"\bandroid\."),
    "iphone": K("objective_c", r"\bUIApplicationMain", r"\bUIWindow", r"\bUIView", r"\bUIResponder"),
    "hildon": O(C(r"\bHildonFile", r"\bhildon_file_", r"\bHildonProgram", r"\bHildonWindow", r"\bhildon_window"), H("hildon/hildon.h"), A(K("python", r"\bimport hildon"), K("python", r"\bimport gtk"))),
    "maemo": G("hildon"),
    "mid_combined": G("clutter", "nbtk", "moblin", "maemo", "android", "iphone"),
    "windows_ce_incomplete": O(*[K(l, r"Microsoft\.WindowsCE", r"Microsoft\.WindowsMobile") for l in ("csharp", "visualbasic")]),
    "native_code": O(*[L(x, 5) for x in ("c", "cpp", "dmd", "fortran", "haskell", "cobol")]),
    # .NET
    "dot_net": O(L("csharp", 10), G("asp_net", "wpf", "silverlight")),
    "asp_net": F(r"\.(aspx|ascx|ashx|asax|axd)$"),
    "wpf": F(r"\.xaml$"),
    "silverlight": O(U(r"^System.Web.Silverlight\b"), K("html", r"\basp:Silverlight\b"), PI(r"\bSilverlight\b"), A(G("asp_net"), G("wpf"))),
    # Java
    "glassfish": JAVA(N(r"\b(sun\-web|sun\-ejb\-jar|sun\-application(\-client))\.xml\b"), M("dependency", r"^org.glassfish\b")),
    "jboss": JAVA(N(r"\bjboss(\-app|cmp\-jdbc|\-web|\-build|\-client)\.xml\b"), M("dependency", r"^org.jboss\b")),
    "weblogic": JAVA(N(r"\bweblogic(\-ejb\-jar|\-ra|\-application|\-cmp\-rdbms\-jar)\.xml\b"), M("plugin", r"^org\.codehaus\.mojo\b", r"^weblogic\-maven\-plugin\b")),
    "jonas": JAVA(N(r"\bjonas\-ejb\-jar\.xml\b")),
    "websphere": JAVA(N(r"\bibm\-(application|web|webservices|webservicesclient)\-.+\.xmi$")),
    "tomcat": JAVA(J(r"^org\.apache\.tomcat\b"), M("dependency", r"^org\.apache\.tomcat\b")),
    "appserver": G("glassfish", "jboss", "weblogic", "tomcat", "jonas", "websphere"),
    "ejb2": JAVA(N(r"(.+\-)ejb\-jar\.xml\b"), K("java", "EJBHome", "EJBRemote", "SessionBean")),
    "ejb3.1": JAVA(K("java", "@Schedule", "@Singleton", "@Asynchronous"), K("java", r'@EJB\(.*\bmappedName\s*=\s*"java:(global|app|module)\/.+".*\)'),
                   K("java", r'\blookup\(\s*"java:(global|app|module)\/.+"\s*\)')),
    "ejb3+": JAVA(G("ejb3.1"), K("java", "@EJB", "@Stateless", "@Statefull", "@Entity", "@Remote", "@Local", "@BusinessMethod"), J(r"^javax\.persistence\b")),
    "ejb3.0": A(G("ejb3+"), ("not", ("gestalt", "ejb3.1"))),
    "servlet": JAVA(J(r"^javax\.servlet\b"), M("dependency", r"^javax\.servlet\b")),
    "struts": JAVA(F(r"\bstruts(\-config)?\.xml$", r"\bstruts\.jar$"), J(r"^org\.apache\.struts\b"), M("dependency", r"^org\.apache\.struts\b")),
    "springframework": JAVA(F(r"spring\.jar$"), J(r"^org\.springframework\b"), M("dependency", r"^org\.springframework\b")),
    "jsf": JAVA(J(r"^javax\.faces\b"), M("dependency", r"^javax\.faces\b")),
    "googlewebtoolkit": JAVA(J(r"^com\.google\.gwt\b")),
    "hibernate": JAVA(F(r"\bhibernate\d\.jar$"), J(r"^org\.hibernate\b"), M("dependency", r"^org\.hibernate$")),
    "jpa": JAVA(J(r"^javax\.persistence\b")), "toplink": JAVA(J(r"^oracle\.toplink\b")), "castor": JAVA(J(r"^org\.exolab\.castor\b")), "db4o": JAVA(J(r"^com\.db4o\b")),
    "openesb": JAVA(J(r"^org\.openesb\b")), "muleesb": JAVA(J(r"^org\.mule\b")),
    "servicemix": JAVA(J(r"^org\.apache\.servicemix\b"), M("dependency", r"^org.apache.servicemix\b")),
    "jbossesb": JAVA(J(r"^org\.jboss\.soa\.esb\b")),
    "opensso": JAVA(F(r"\bopensso\.war$"), J(r"^com\.sun\.identity\.(authentication|agents)\b")),
    "maven": JAVA(N(r"\bpom\.xml$")),
    # Jaspersoft
    "jaspersoft": G("jaspersoft_keyword", "jasper_reports", "jasper_server", "jasper_ireport", "jasper_intelligence"),
    "jaspersoft_keyword": K(None, r"(?i:jaspersoft)"),
    "jasper_reports": G("jasper_reports_keyword", "jasper_reports_java"),
    "jasper_reports_keyword": K(None, r"(?i:jasper[ _-]?reports?)"),
    "jasper_reports_java": O(M("dependency", "jasperreports"), K("java", r"\bnet\.sf\.jasperreports\b")),
    "jasper_server": G("jasper_server_keyword", "jasper_server_java"),
    "jasper_server_keyword": K(None, r"(?i:jasper[ _-]?server)"),
    "jasper_server_java": K("java", r"\bcom\.jaspersoft\.jasperserver\b"),
    "jasper_intelligence": K("java", r"\bcom\.jaspersoft\.ji"),
    "jasper_ireport": A(K(None, r"(?i:jasper)"), K(None, r"(?i:ireport)")),
}
TOOLS = {
    "visualstudio": F(r"\.(sln|vcproj|vsproj|csproj|vbproj|vbp)$"),
    "eclipse": F(r"\.(project|classpath)$"),
    "netbeans": F(r"\bnbplatform\b", r"\.nbm$"),
}

_rx = {}


def rx(p, flags=0):
    k = (p, flags)
    if k not in _rx:
        _rx[k] = re.compile(p.encode(), flags | re.M)
    return _rx[k]


class Facts:
    """What is known of a list of files: [(path, language, {language: (code lines, code text)})], bytes."""

    def __init__(self, files):
        self.files = files
        self.lines = {}
        for _, _, br in files:
            for l, (n, _) in br.items():
                self.lines[l] = self.lines.get(l, 0) + n
        self.total = sum(n for l, n in self.lines.items() if l not in MARKUP)

    def texts(self, lang):
        for _, _, br in self.files:
            if lang is None:
                for l in br:
                    yield br[l][1]
            elif lang == "c|cpp":
                for l in ("c", "cpp"):
                    if l in br:
                        yield br[l][1]
                        break
            elif lang in br:
                yield br[lang][1]

    def poms(self):
        for p, _, br in self.files:
            if re.search(rb"\bpom\.xml$", p.rsplit(b"/", 1)[-1], re.M) and "xml" in br:
                yield from maven(br["xml"][1])

    def csprojs(self):
        for p, _, br in self.files:
            if re.search(rb"\.csproj$", p.rsplit(b"/", 1)[-1], re.M) and "xml" in br:
                yield from csproj(br["xml"][1])


def _walk(text, start, end, data):
    p = xml.parsers.expat.ParserCreate()
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, data
    p.buffer_text = True
    try:
        p.Parse(text, True)
    except (xml.parsers.expat.ExpatError, LookupError, ValueError):
        pass


def maven(text):
    """(kind, group, artifact) of the dependencies and plugins of a POM, as far as it is well-formed."""
    out, stack, pom = [], [], [False]

    def start(n, a):
        if n == "project":
            pom[0] = "xmlns" not in a or a["xmlns"].startswith("http://maven.apache.org/POM/")
        stack.append([n, {}, ""])

    def end(n):
        _, of, text = stack.pop()
        if n in ("groupId", "artifactId") and stack:
            stack[-1][1][n] = re.sub(r"\$\{.*\}", "", text.strip())
        if n in ("dependency", "plugin") and pom[0] and len(of) == 2:
            out.append((n, of["groupId"].encode("utf-8"), of["artifactId"].encode("utf-8")))

    def data(t):
        if stack:
            stack[-1][2] += t
    _walk(text, start, end, data)
    return out


def csproj(text):
    out, ok = [], [False]

    def start(n, a):
        if n == "Project":
            ok[0] = "xmlns" not in a or a["xmlns"].startswith("http://schemas.microsoft.com/developer/")
        elif n == "Import" and ok[0] and "Project" in a:
            out.append(a["Project"].encode("utf-8"))
    _walk(text, start, lambda n: None, lambda t: None)
    return out


def holds(rule, fx, have, loose=False):
    k = rule[0]
    if k == "or":
        return any(holds(x, fx, have, loose) for x in rule[1])
    if k == "and":
        return all(holds(x, fx, have, loose) for x in rule[1])
    if k == "not":
        return not holds(rule[1], fx, have, loose)
    if k == "gestalt":
        return rule[1] in have
    if k == "header":
        p = rx(("include\\s+" if loose else "include +") + "['<\"](" + "|".join(rule[1]) + ")[\">']", re.I)
        return any(p.search(br[l][1]) for _, lang, br in fx.files if lang in ("c", "cpp") for l in ("c", "cpp") if l in br)
    if k == "word":
        p = rx("|".join(f"(?:{w})" for w in rule[2]))
        return sum(sum(1 for _ in p.finditer(t)) for t in fx.texts(rule[1])) >= rule[3]
    if k == "lang":
        n = fx.lines.get(rule[1])
        if n is None:
            return False
        if fx.total == 0:
            return n > 0
        if n == 0 and loose:
            return False
        return 100.0 * n / fx.total >= rule[2]
    if k == "path":
        return any(rx(r).search(p) for r in rule[1] for p, _, _ in fx.files)
    if k == "name":
        return any(rx(rule[1]).search(p.rsplit(b"/", 1)[-1]) for p, _, _ in fx.files)
    if k == "import":
        return any(rx(rule[1]).search(m) for t in fx.texts("java") for m in rx(r"^\s*import\s+([a-zA-Z][\w.*\-]*)\b").findall(t))
    if k == "using":
        return any(rx(rule[1]).search(m) for t in fx.texts("csharp") for m in rx(r"^\s*using\s+([a-zA-Z][\w.*\-]*)\s*;").findall(t))
    if k == "project import":
        return any(rx(rule[1]).search(m) for m in fx.csprojs())
    if k == "maven":
        return any(kind == rule[1] and rx(rule[2]).search(g) and rx(rule[3]).search(a) for kind, g, a in fx.poms())
    raise ValueError(rule)


def gestalts(fx, loose=False):
    """The (type, name) pairs of the facts."""
    have = set()
    last = {"ejb3.0"}          # says that something is not the case: once that is settled
    for layer in (set(DEFS) - last, last):
        grew = True
        while grew:
            grew = False
            for n in layer - have:
                if holds(DEFS[n], fx, have, loose):
                    have.add(n)
                    grew = True
    return {("platform", n) for n in have} | {("tool", n) for n in TOOLS if holds(TOOLS[n], fx, set(), loose)}


def instance(r, pattern):
    """A random string that matches the pattern (the subset of syntax used above)."""
    ci = [False]

    def ch(c):
        c = chr(c)
        return r.choice([c.upper(), c.lower()]) if ci[0] else c

    def seq(items):
        out = ""
        for op, av in items:
            op = str(op)
            if op == "LITERAL":
                out += ch(av)
            elif op == "ANY":
                out += r.choice("x.0_")
            elif op == "IN":
                o, a = r.choice(av)
                o = str(o)
                out += chr(a) if o == "LITERAL" else chr(r.randint(*a)) if o == "RANGE" else {"CATEGORY_DIGIT": "7", "CATEGORY_SPACE": " ", "CATEGORY_WORD": "w"}[str(a)]
            elif op in ("MAX_REPEAT", "MIN_REPEAT"):
                lo, hi, sub = av
                out += "".join(seq(sub) for _ in range(r.randint(lo, min(int(hi), lo + 2))))
            elif op == "SUBPATTERN":
                old = ci[0]
                ci[0] = ci[0] or bool(av[1] & re.I)
                out += seq(av[3])
                ci[0] = old
            elif op == "BRANCH":
                out += seq(r.choice(av[1]))
            elif op == "AT":
                pass
            else:
                raise ValueError(op)
        return out
    return seq(sre.parse(pattern))
