#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVENTS = "the callbacks of ohcount_sourcefile_parse_with_callback / _parse_entities_with_callback as recorded by harness/driver.c"
PARSERS = ["src/parser.c", "src/parsers/common.rl", "src/parsers/*.rl", "src/parser_macros.h"]


def m(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]


PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, title
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                       anchors=dict(files=files, mechanism=mech, observe_at=observe or [EVENTS], hook_needed=None)), technique, note))


SAMPLES = "Exploration: the property held on every execution produced; nothing is said about inputs not generated. "

prop("P01", "Parsing any bytes in any language stays inside its memory",
     "Counting lines, reporting entities, accumulating text and counting totals of a source file never read or write outside a live object, never use an uninitialised or freed value, "
     "never overflow an integer or shift out of range, and always come to an end, for every contents without a NUL byte, every supported language, and both with and without a callback.",
     ["inputs", "configurations"], "every byte string (truncated, malformed, unterminated, huge lines, any newline form) × each of the 123 parsers × the modes lines, entities, accumulate, count",
     "The tests parse a few hundred well-formed files; a parser's buffer and state handling on cut or hostile text, and on sizes near its limits, is not reached.",
     PARSERS + ["src/sourcefile.c", "src/parsed_language.c"],
     m(("callback queue and line states", "src/parsers/common.rl"), ("buffer growth of accumulated code and comments", "src/parsed_language.c"), ("parser dispatch", "src/parser.c ohcount_parse")),
     "AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and valgrind memcheck over hostile documents",
     SAMPLES + "Trusts clang's sanitizers and valgrind; accesses inside the red zones' blind spots (intra-object) are not seen.", ["sanitizer reports of the driver process", EVENTS])
prop("P02", "Detecting a language or licence of any file stays inside its memory",
     "Naming a file's language and its licences, and telling whether a name is binary, never read or write outside a live object or leak, and always come to an end, "
     "whatever the file name, the contents (NUL bytes included), and the names of the files beside it.",
     ["inputs", "configurations"], "every (path, contents, companion names) triple",
     "The detector tests use about two hundred tame fixtures; the fixed-size line buffers and backwards scans are only stressed by long, cut and adversarial ones.",
     ["src/detector.c", "src/licenses.c", "src/sourcefile.c"],
     m(("disambiguators and their line buffers", "src/detector.c disambiguate_*"), ("Emacs mode line scan", "src/detector.c ohcount_detect_language"), ("comment stripping and regular expressions", "src/licenses.c")),
     "AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and valgrind memcheck over hostile names and contents",
     SAMPLES + "libmagic and pcre themselves are not instrumented by the sanitizers (memcheck sees them).", ["sanitizer reports of the driver process"])
prop("P03", "Any history of API calls leaves no memory or descriptor behind",
     "After any order of creating source files, file lists, counts and deltas, setting contents, disk path, language and file names, detecting, parsing, diffing and counting, and freeing them all, "
     "no memory allocated by the library is still held, no file descriptor is still open, no temporary file is left, and at no point was freed memory used or freed again.",
     ["histories", "inputs"], "every finite sequence of public API calls in which an object is used only between its creation and its release",
     "Each test makes one object, calls one operation and frees it; mixed and repeated orders (setting contents twice, parsing after diffing) never occur.",
     ["src/sourcefile.c", "src/parsed_language.c", "src/loc.c", "src/diff.c", "src/licenses.c", "src/detector.c"],
     m(("ownership of contents, language and parsed lists", "src/sourcefile.c"), ("list free functions", "src/loc.c, src/parsed_language.c, src/sourcefile.c"), ("temporary files of a disk diff", "src/diff.c")),
     "AddressSanitizer with a leak check and a descriptor and temporary-file count after every random API history",
     SAMPLES + "A history is at most about 40 calls on up to three files.", ["LeakSanitizer at the end of each history", "/proc/self/fd"])
prop("P05", "Every line is reported exactly once, in order, whatever the bytes",
     "For any contents in any language the line callback is called exactly once per line, in order: the n-th call ends where the n-th line ends and begins no later than the line's first non-white-space byte, "
     "names a language that the parser may report, and says blank exactly if the line holds nothing but white space (a last line of white space without a newline may go unreported).",
     ["inputs"], "every byte string (NUL only in files on disk: a text set as contents ends there) × each of the 123 parsers; a line ends with LF, CR LF, CR or FF",
     "Tests compare a handful of well-formed files; losing or doubling a line takes an unterminated construct, an unusual newline, or a token cut at the end of the file.",
     PARSERS, m(("newline and internal newline handling", "src/parser_macros.h std_newline, std_internal_newline, emb_newline"), ("end of file handling", "src/parser_macros.h process_last_line"), ("callback queue for text that turns out not to be a comment", "src/parsers/common.rl")),
     "online conservation monitor over the recorded line events of hostile documents",
     SAMPLES + "php's closing tag line, dcl's bare $ and haml's empty evaluators are exempt from the blank/begin rule, as DESIGN.md says.")
prop("P06", "Entity events are in range, in order, disjoint, and miss no white space",
     "For any contents in any language, the reported entities are non-empty byte ranges of the contents in increasing order without overlap, each of a language the parser may report; an entity called space holds only white space, "
     "and outside markup languages all white space of the document lies in some entity.",
     ["inputs"], "every byte string (NUL only in files on disk) × each of the 123 entity parsers",
     "The entity tests look at one or two entities of a short line.",
     PARSERS, m(("entity machines", "src/parsers/*.rl"), ("offsets of scanned tokens", "src/parser_macros.h cint")),
     "online range/order monitor over the recorded entity events of hostile documents", SAMPLES + "factor and vim report no entities by design.")
prop("P07", "Each line is labelled by what stands on it, by the language's own rules",
     "A line that holds any code, string text included, is code; otherwise a line that holds any part of a comment is comment; otherwise it is blank. "
     "This holds whatever comments and strings contain (openers of each other, escapes, nested comments where the language nests them), wherever they begin and end, however long they are, for every newline form.",
     ["inputs", "programs"], "every document built from code, comments and strings of one of 110 languages, in any order and layout",
     "Per language the tests have one short sample and a few one-line parses; interactions (comment opener in a string after an escape, code after a multi-line comment's end, long tokens) are not covered.",
     PARSERS, m(("comment and string patterns of each language", "src/parsers/*.rl"), ("code beats comment beats blank", "src/parser_macros.h code, comment, std_newline")),
     "documents built with known labels, compared with the recorded line events",
     SAMPLES + "The meaning of each language (its comment and string syntax) is written down in lib/syntax.py, independently of the parsers.")
prop("P08", "Full entity parsers name every byte by what it is",
     "In the languages with a full entity parser (C and its relatives, C#, CUDA, eC, F#, Genie, GLSL, Go, Kotlin, Limbo, Lua, Rust, Vala) the entities cover the contents without a gap, whatever the bytes. "
     "A maximal word is one entity, keyword if and only if it is a keyword of the language; whole decimal and hexadecimal numbers are numbers, and single operator characters operators.",
     ["inputs", "programs"], "every byte string, and every sequence of words, numbers, operators and white space, in 14 languages",
     "The entity tests check one comment and one keyword of each language.",
     ["src/parsers/c.rl", "src/parsers/fsharp.rl", "src/parsers/glsl.rl", "src/parsers/golang.rl", "src/parsers/kotlin.rl", "src/parsers/limbo.rl", "src/parsers/lua.rl", "src/parsers/rust.rl", "src/parsers/common.rl"],
     m(("entity scanners", "src/parsers/*.rl *_entity"), ("numbers", "src/parsers/common.rl")),
     "tiling and naming monitor over recorded entities of hostile documents and of constructed token sequences",
     SAMPLES + "The keyword tables are in data/keywords.json; fractions may be taken apart.")
prop("P09", "Embedded languages: each line goes to the language it is written in",
     "In HTML, PHP, RHTML, JSP, ASP.NET, ClearSilver, MXML, Nix, HAML, CoffeeScript, TeX-in-MetaPost and BFPP documents each line is reported for the embedded language while inside its opening and closing marks and for the host outside, "
     "with the code, comment or blank label of that language; markers inside the host's comments or the embedded language's strings and comments do not switch where the language says they do not.",
     ["inputs", "programs"], "every document made of host and embedded sections, in any order, with markers alone on a line or beside other text",
     "The tests have one sample per host language.",
     ["src/parsers/html.rl", "src/parsers/php.rl", "src/parsers/rhtml.rl", "src/parsers/jsp.rl", "src/parsers/cs_aspx.rl", "src/parsers/vb_aspx.rl", "src/parsers/clearsilver_template.rl", "src/parsers/mxml.rl", "src/parsers/nix.rl", "src/parsers/haml.rl", "src/parsers/coffeescript.rl", "src/parsers/metapost_with_tex.rl", "src/parser_macros.h"],
     m(("entry and return of embedded machines", "src/parser_macros.h CHECK_BLANK_ENTRY, emb_newline"), ("embedding", "src/parsers/compile")),
     "documents built with known language and label per line, compared with the recorded line events", SAMPLES + "What each host embeds, and where, is written down in lib/embed.py.")
prop("P10", "Comments and strings are reported as entities with exactly their bytes",
     "Every comment of a document is reported as one comment entity of the language it is written in, from its first opening byte to its last byte (the newline that ends a line comment excluded), and nothing else is called comment; "
     "in the languages whose entity parsers know strings the same holds for strings, including openers of each other inside them, escapes and nesting.",
     ["inputs", "programs"], "every document built from code, comments and strings of one of 108 languages, or of a language that holds others (HTML with its styles, scripts and server code, MXML, nix, MetaPost with TeX), brainfuck included",
     "The entity tests check one comment per language on one line.",
     PARSERS, m(("comment and string entities", "src/parsers/*.rl *_comment_entity, *_string_entity")),
     "documents built with known comment and string extents, compared with the recorded entity events", SAMPLES + "factor and vim report no entities; for languages without string entities comment openers are kept out of strings.")

from docs_more import more  # noqa: E402
more(globals())

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, _, _ in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "checks": [{"property": p["id"], "quick_cmd": f"python3 checks/run.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 checks/run.py {p['id']}",
                    "technique": t, "level": "exploration", "level_note": n} for p, t, n in PROPS],
        "not_applicable": [],
        "notes": "No hooks in /repo: everything is observed through the public API, the command line, the Ruby binding, the file system and sanitizers.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")
    for p, _, _ in PROPS:
        assert os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")), p["id"]
    print(len(PROPS), "properties")
