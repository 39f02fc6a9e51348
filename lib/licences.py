"""Licence notices, independently of the patterns in the code.

A notice is words with separators: '_' any white space or none, '+' at least some, ' ' exactly one space or one line break.
Each notice has the set of licences it stands for; notices of one family influence each other and appear at most once per text.
"""

SIMPLE = {
    "academic": ["Academic_Free_License"], "adaptive": ["Adaptive_Public_License"], "affero": ["GNU+Affero+General+Public+License"],
    "apple_open_source": ["Apple_Public_Source_License"], "artistic": ["artistic_license"], "attribution_assurance": ["attribution_assurance_license", "attribution_assurance_licenses"],
    "boost": ["boost_software_license"], "computer_associates_trusted": ["computer_associates_trusted_open_source_license"],
    "common_development_and_distribution": ["common_development_and_distribution_license"], "common_public": ["common_public_license"], "cua_office": ["CUA_office_public_license"],
    "eu_datagrid": ["eu_datagrid_software_license"], "eclipse": ["eclipse_public_license"], "educational": ["educational_community_license"], "entessa": ["entessa_public_license"],
    "fair": ["fair_license"], "frameworx": ["frameworx_license"], "historical": ["historical_permission_notice_and_disclaimer"], "i9_license": ["i9_license"], "ibm_public": ["ibm_public_license"],
    "intel_open_source": ["intel_open_source_license"], "jabber_open_source": ["jabber_open_source_license"], "mit": ["mit_license", "MIT/X11_license", "MIT/X11_licensed"],
    "mitre": ["mitre_collaborative_virtual_workspace_license"], "motosoto": ["motosoto_license"], "nasa_open": ["nasa_open_source_agreement"], "naumen": ["naumen_public_license"],
    "nethack": ["nethack_general_public_license"], "nokia_open_source": ["nokia_open_source_license"], "oclc_research": ["oclc_research_public_license"],
    "open_group_test": ["open_group_test_suite_license"], "open_software": ["open_software_license"], "php_license": ["php_license"], "python_license": ["python_license"],
    "python_software_foundation": ["python_software_foundation_license"], "qt_public": ["qt_public_license"], "realnetworks_public_source": ["realnetworks_public_source_license"],
    "reciprocal_public": ["reciprocal_public_license"], "ricoh_source": ["ricoh_source_code_public_license"], "sleepycat": ["sleepycat_license"],
    "sugarcrm_1_1_3": ["sugar_public_license_version_1.1.3"], "sun_industry_standards": ["sun_industry_standards_source_license"], "sun_public": ["sun_public_license"],
    "sybase_open_watcom": ["sybase_open_watcom_public_license"], "u_of_i_ncsa": ["university_of_illinois/ncsa_open_source_license"], "vovida_software": ["vovida_software_license"],
    "w3c": ["w3c_license"], "wx_windows": ["wxwindows_library_license"], "x_net": ["x.net_license"], "zope": ["zope_public_license"], "zlib_libpng": ["zlib/libpng_license"],
    "wtfpl_2": ["wtfpl", "wtf_public_license", "do_what_the_fuck_public_license", "what_the_fuck_public_license"],
}

BSD_HEAD = """Copyright (c) {year} {who}
All rights reserved.

Redistribution and use in source and binary forms, with or without
modification, are permitted provided that the following conditions
are met:

- Redistributions of source code must retain the above copyright
  notice, this list of conditions and the following disclaimer.
- Redistributions in binary form must reproduce the above copyright
  notice, this list of conditions and the following disclaimer in the
  documentation and/or other materials provided with the distribution.
"""
BSD_NAME = """- The name of the author may not be used to endorse or promote products
  derived from this software without specific prior written permission.
"""
BSD_NAME2 = """- The names of the contributors may not be used to endorse or promote
  products derived from this software without specific prior written
  permission.
"""
BSD_TAIL = """
THIS SOFTWARE IS PROVIDED BY THE AUTHOR AND ANY EXPRESS OR
IMPLIED WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE IMPLIED WARRANTIES
OF MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE ARE DISCLAIMED.
IN NO EVENT SHALL THE AUTHOR BE LIABLE FOR ANY DIRECT, INDIRECT,
INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT
NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE,
DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY
THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
(INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF
THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
"""

# family -> [(notice, licences)]
FAMILY = {
    "apache": [("Apache_Software_License", {"apache"}), ("apache_license", {"apache"}), ("Apache License, Version 2.0", {"apache_2"}), ("Apache+License+2.0", {"apache_2"}),
               ("apache+software+license version 2", {"apache_2"}), ("apache software license, version 2.0", {"apache_2"}), ("an Apache-style open license", {"apache_ish"}),
               ("apache-style license", {"apache_ish"}), ("the apache-like license", {"apache_ish"})],
    "bsd": [("bsd_license", {"bsd"}), ("The Regents of the University of California", {"bsd"}), ("#bsd3", {"bsd_ish"}), ("#bsd3b", {"bsd_ish"}), ("#bsd2", {"bsd_2clause_ish"})],
    "cecill": [("CeCILL", {"cecill"}), ("cecill-b", {"cecill_b"}), ("cecill-c", {"cecill_c"})],
    "eiffel": [("eiffel_forum_license", {"eiffel"}), ("Eiffel Forum License V2", {"eiffel_2"}), ("Eiffel Forum License, V 2", {"eiffel_2"}), ("eiffel forum license 2", {"eiffel_2"})],
    "gpl": [("GPL", {"gpl"}), ("GPLv2", {"gpl"}), ("GNU_General_Public_License", {"gpl"}), ("see www.gnu.org/licenses/gpl.txt", {"gpl"}),
            ("GNU GPL v3", {"gpl3"}), ("GNU General Public License Version 3", {"gpl3"}), ("GNU GENERAL PUBLIC LICENSE as published by the Foundation, version 3", {"gpl3"}),
            ("GPL 3 or later", {"gpl3_or_later"}), ("GNU General Public License, Version 3 or any later version", {"gpl3_or_later"}), ("GPL Version 3 or (at your option) any later version", {"gpl3_or_later"}),
            ("LGPL", {"lgpl"}), ("GNU_Lesser_General_Public_License", {"lgpl"}), ("GNU_Library_General_Public_License", {"lgpl"}), ("GNU_Lesser_Public_License", {"lgpl"}),
            ("Lesser_GPL", {"lgpl"}), ("library_gpl", {"lgpl"}), ("LGPL version 3", {"lgpl3"}), ("GNU Lesser General Public License, version 3.0", {"lgpl3"}), ("LGPL 3", {"lgpl3"})],
    "lucent": [("lucent_public_license_(plan9", {"lucent_plan9"}), ("Lucent Public License Version 1.02", {"lucent_public"}), ("lucent_public_license+1", {"lucent_public"})],
    "mozilla": [("mozilla_public_license", {"mozilla_public_1"}), ("Mozilla_Public_License 1.1", {"mozilla_public_1_1"})],
}
ALL = set(SIMPLE) | set().union(*[s for v in FAMILY.values() for _, s in v])

FILLER = """this file is part of frobnicator see the manual page for details do not edit by hand written during a long winter and kept ever since
tables are sorted ascending buffers grow when needed callers own what they pass nothing here is thread aware please report bugs upstream naturally quux waldo
thud grault""".split()


def case_of(r, w):
    k = r.random()
    return w if k < .4 else w.upper() if k < .6 else w.lower() if k < .8 else "".join(r.choice([c.upper(), c.lower()]) for c in w)


def render(r, notice, wrap=.25):
    """Text of the notice with '\n' where it is broken over lines."""
    if notice.startswith("#"):
        t = BSD_HEAD + (BSD_NAME if notice == "#bsd3" else BSD_NAME2 if notice == "#bsd3b" else "") + BSD_TAIL
        return t.format(year=r.choice(["2001", "2004-2006", "1999"]), who="".join(r.choice(["A", "Jo ", "Smith", "Zed ", "Lee "]) for _ in range(r.randrange(1, 5))).strip())
    out, word = [], ""
    for ch in notice + "\0":
        if ch in "_+ \0":
            out.append(case_of(r, word))
            word = ""
            if ch == " ":
                out.append("\n" if r.random() < wrap else " ")
            elif ch in "_+":
                out.append(r.choice([" ", " ", "  ", "\t", "   "] + ([""] if ch == "_" else [])) if r.random() > wrap else r.choice(["\n", "\n", "\n\n"]))
        else:
            word += ch
    return "".join(out)


def filler(r, n, wrap=.1):
    return "".join(r.choice(FILLER) + ("\n" if r.random() < wrap else " ") for _ in range(n))


# comment styles: language, (line prefix) or (open, close), decorations of the lines inside a block
LINES = [("c", b"//"), ("cpp", b"//"), ("ruby", b"#"), ("python", b"#"), ("shell", b"#"), ("perl", b"#"), ("java", b"//"), ("javascript", b"//"), ("tcl", b"#"), ("lua", b"--"), ("ada", b"--"),
         ("sql", b"--"), ("haskell", b"-- "), ("lisp", b";"), ("scheme", b";"), ("erlang", b"%%"), ("tex", b"%"), ("matlab", b"%"), ("fortranfree", b"!"), ("visualbasic", b"'"), ("assembler", b";"),
         ("clojure", b";"), ("rust", b"//"), ("golang", b"//"), ("make", b"#"), ("r", b"#"), ("awk", b"#"), ("eiffel", b"--"), ("csharp", b"//"), ("scala", b"//")]
BLOCKS = [("c", b"/*", b"*/"), ("cpp", b"/*", b"*/"), ("java", b"/*", b"*/"), ("css", b"/*", b"*/"), ("csharp", b"/*", b"*/"), ("golang", b"/*", b"*/"), ("pascal", b"{", b"}"), ("pascal", b"(*", b"*)"),
          ("ocaml", b"(*", b"*)"), ("haskell", b"{-", b"-}"), ("html", b"<!--", b"-->"), ("xml", b"<!--", b"-->"), ("php", b"<?php\n/*", b"*/\n?>"), ("javascript", b"/*", b"*/"), ("dmd", b"/+", b"+/"),
          ("dmd", b"/*", b"*/"), ("sql", b"/*", b"*/"), ("kotlin", b"/*", b"*/"), ("rust", b"/*", b"*/"), ("groovy", b"/*", b"*/")]
DECO = [b"", b" * ", b"*", b" ** ", b"\t", b"  ", b" | ", b" . ", b" # ", b" =  ", b" ~~ ", b"\t* "]
CODE = {"html": b"<p>zork</p>", "xml": b"<p>zork</p>", "php": b"zork", "css": b"p { color: red; }", "make": b"all: zork", "tex": b"zork", "lisp": b"(zork)", "scheme": b"(zork)", "clojure": b"(zork)"}


def comment(r, style, text, nl):
    """A comment in that style holding the lines of text."""
    ls = [x.encode() for x in text.split("\n")]
    if len(style) == 2:
        gap = r.choice([b" ", b" ", b"  ", b"\t"])
        return b"".join(r.choice([b"", b"", b"  "]) * (style[0] not in ("make", "fortranfree")) + style[1] + gap + x + nl for x in ls)
    lang, o, c = style
    deco = r.choice(DECO)
    if lang in ("html", "xml"):
        deco = r.choice([b"", b" ", b"\t", b" * "])
    out = o + (nl if r.random() < .5 else b" ")
    for i, x in enumerate(ls):
        out += (deco if i or out.endswith(nl) else b"") + x + (nl if i < len(ls) - 1 else b"")
    return out + r.choice([b" ", nl, nl + b" "]) + c + nl
