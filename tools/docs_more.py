def more(g):
    prop, m, SAMPLES = g["prop"], g["m"], g["SAMPLES"]
    API = ["the structures returned by the public API as recorded by harness/driver.c"]
    prop("P11", "Accumulated text and counts are exactly those of the reported lines",
         "For every file the code text and the comment text kept per language are the concatenation, in order, of the reported code and comment lines of that language without their leading spaces and tabs; "
         "its code, comment and blank counts are the numbers of those lines, its languages stand in order of first appearance, and the Loc list says the same with a file count of one per language.",
         ["inputs"], "every byte string without NUL × each of the 123 parsers, with lines and accumulated text of any length",
         "Tests compare counts of small fixtures; growth of the buffers, lines longer than a buffer, and several languages in one file meet only in large or odd inputs.",
         ["src/sourcefile.c", "src/parsed_language.c", "src/parser.c", "src/loc.c"],
         m(("accumulation of lines", "src/sourcefile.c parser_callback"), ("growth of the text buffers", "src/parsed_language.c ohcount_parsed_language_add_code/_add_comment"), ("counts to Loc list", "src/sourcefile.c ohcount_sourcefile_get_loc_list")),
         "recorded accumulated text and counts compared with a fold over the recorded line events", SAMPLES + "Lines up to some hundred kilobytes.", API)
    prop("P12", "An answer depends on the file alone, never on earlier calls",
         "The language, line events, entities, accumulated text, counts, licences and deltas of a file are the same in a fresh process, after any history of other calls on other files, "
         "and when asked for again; contents read from disk and contents set from memory give the same answers.",
         ["histories", "inputs"], "every history of API calls before, between and after the questions, each question asked once or more",
         "A test process asks each question once in a fixed order; global scanner state, cached regexps and lazily read contents only show under other orders.",
         ["src/parser.c", "src/sourcefile.c", "src/licenses.c", "src/detector.c", "src/parsers/common.rl", "src/parser_macros.h"],
         m(("global scanner and callback queue state", "src/parsers/common.rl"), ("cached contents, language and parse", "src/sourcefile.c"), ("licence map compiled once", "src/licenses.c compile_regexps")),
         "answers at the end of long random histories compared with those of a process that asked nothing else", SAMPLES + "Histories of some dozen files in one process.", API)
    prop("P13", "Counts add up: lists of counts and totals of files are sums per language",
         "After any history of adding counts to lists, merging lists and compacting them, a list holds per language exactly the sum of what was added; totals are the sums over its languages, "
         "compacting drops exactly the languages without any lines, and the analysis of a list of files is the sum of the files' own counts with the number of files per language.",
         ["histories", "inputs"], "every sequence of list operations over any languages (equal prefixes, many, empty names), negative and large figures",
         "The loc tests add two or three entries once; dropping at the head, tail or several in a row and names that are prefixes of each other are not tried.",
         ["src/loc.c", "src/sourcefile.c"], m(("loc list add, merge, compact, totals", "src/loc.c"), ("analysis of a file list", "src/sourcefile.c ohcount_sourcefile_list_analyze_languages")),
         "every result of random histories compared with a dictionary of sums", SAMPLES + "Histories of up to some dozen operations.", API)
    prop("P14", "Deltas add up: lists of deltas are sums per language, nets are differences",
         "After any history of adding deltas to lists, merging lists and compacting them, a list holds per language exactly the sums of what was added; net figures are added minus removed, "
         "totals are sums over the languages, comparing tells equal from different in every figure, and compacting drops exactly the languages in which nothing changed.",
         ["histories"], "every sequence of delta list operations over any languages and figures",
         "The diff tests add two deltas once.",
         ["src/diff.c"], m(("delta list add, merge, compact, nets, totals, equality", "src/diff.c")),
         "every result of random histories compared with a dictionary of sums", SAMPLES + "Histories of up to some dozen operations.", API)
    prop("P15", "A text diff counts the fewest added and removed lines",
         "For any two texts the numbers of added and removed lines are those of a shortest edit between their sequences of non-empty lines (for texts over 100000 bytes, those of an edit between them); "
         "equal texts give none, and the roles swap when the texts do.",
         ["inputs"], "every pair of texts: any number of repeated, moved, similar and empty lines, with and without a final newline",
         "The diff tests compare two pairs of small files; a candidate chain that is cut wrongly still gives the right answer on most.",
         ["src/diff.c"], m(("Hunt-McIlroy candidates and binary search", "src/diff.c ohcount_calc_diff"), ("diff through temporary files", "src/diff.c ohcount_calc_diff_with_disk")),
         "counts compared with an exact longest common subsequence", SAMPLES + "The exact reference runs up to some hundred lines per text; beyond that, on edits of known size.", API)
    prop("P16", "A file diff says per language what changed in code, comments and blanks",
         "The delta list of two revisions has, per language of either, the added and removed lines of a minimal edit of its accumulated code and of its comments, and the growth or shrinkage of its blank lines; "
         "a language in which nothing changed is absent, a new or vanished one counts in full, a file compared with itself gives an empty list, and swapping the files swaps added and removed.",
         ["inputs", "programs"], "every pair of files in any of the 123 languages, same or different, including files of several languages",
         "Two diff fixtures; languages that appear or vanish in the middle of the list, and equal counts with changed text, are not covered.",
         ["src/sourcefile.c", "src/diff.c", "src/parsed_language.c"], m(("diff of two files over their languages", "src/sourcefile.c ohcount_sourcefile_diff"), ("delta of one language", "src/sourcefile.c ohcount_sourcefile_calc_diff")),
         "delta lists compared with the exact diff of the recorded accumulated texts", SAMPLES + "Texts small enough for the exact reference.", API)
    prop("P17", "Every licence a file's comments state is reported, once, and no other",
         "A file whose comments hold notices of any of the 72 known licences, in any letter case, over any line breaks and behind any comment marks and line decorations, in one or several of its languages, "
         "is reported with exactly those licences, each once; where one notice is contained in another, or a version 3 GPL or a three-clause BSD text stands beside its general form, the more specific one is reported alone.",
         ["inputs", "programs"], "every selection of notices × comment style × layout × language",
         "One fixture per licence, nearly all in one language and layout; combinations and most spellings are never tried.",
         ["src/licenses.c", "src/licenses.h", "src/sourcefile.c"], m(("licence patterns", "src/licenses.c license_map"), ("comment text to searched text", "src/licenses.c ohcount_detect_license"), ("containment and override rules", "src/licenses.c OVERRIDE_LICENSE")),
         "files built from a known set of notices, compared with the reported licences", SAMPLES + "The wording of each notice is written down in lib/licences.py.", API)
    prop("P18", "Near misses and text outside comments state no licence; layout is immaterial",
         "Text that merely resembles a notice (a foreign, missing, misspelt, exchanged or glued word), and notices that stand in code, strings or behind code on a line, are reported as no licence. "
         "The licences reported depend only on the words of the comments: other comment marks, decoration, indentation, line breaks, newline form, and code or blank lines in between change nothing, "
         "nor does letter case except in the long BSD texts.",
         ["inputs", "programs"], "every near miss of a notice, every placement outside whole-line comments, every layout of the same words in any language",
         "The tests have positive fixtures only, each in one layout.",
         ["src/licenses.c", "src/sourcefile.c"], m(("licence patterns and their word boundaries", "src/licenses.c license_map"), ("what text is searched", "src/licenses.c ohcount_detect_license"), ("which lines are comments", "src/sourcefile.c parser_callback")),
         "negative oracle on constructed near misses, and equality of the licences of differently laid out texts", SAMPLES, API)
    prop("P19", "A known file name decides the language, whatever the file holds",
         "A file whose extension belongs to one language is of that language, and one whose extension is that of binary files has none, whatever its contents, directory and companions; "
         "the extension is looked up as written and then in lower case, and only in the last component of the path. A file whose whole name is known has the language of that name, and a name that is merely similar has none.",
         ["inputs"], "every path with any directory, stem, extension of the table in any letter case, or whole name of the table × any contents × any companions",
         "One fixture per extension at most; directories with dots, letter case and contradicting contents are not tried.",
         ["src/detector.c", "src/hash/extensions.gperf", "src/hash/filenames.gperf", "src/sourcefile.c"],
         m(("order of the questions", "src/detector.c ohcount_detect_language"), ("tables of extensions and names", "src/hash/extensions.gperf, src/hash/filenames.gperf"), ("name and extension of a path", "src/sourcefile.c ohcount_sourcefile_new")),
         "detected language of every name compared with a table kept outside the code", SAMPLES, API)
    prop("P20", "An ambiguous extension is settled by the contents and the files beside it",
         "For an extension shared by several languages the detected language is the one the telling lines say, wherever among other lines, in whatever newline form and from disk or memory alike, or the one a companion file says (a .m beside a .h, a Visual Basic file beside .bas, .cls, .frm); "
         "lines that only resemble telling ones decide nothing, and the default of the extension holds without any. A name ending in .in is judged without it.",
         ["inputs"], "every file of an ambiguous extension (about twenty kinds) with any number and order of telling and neutral lines and any companions",
         "One or two fixtures per kind, with the telling line where it is expected.",
         ["src/detector.c", "src/hash/disambiguatefuncs.gperf", "src/hash/cppheaders.gperf"],
         m(("disambiguation per extension", "src/detector.c disambiguate_*"), ("companions", "src/detector.c disambiguate_h, disambiguate_m, disambiguate_basic over SourceFile.filenames"), ("standard C++ headers", "src/hash/cppheaders.gperf")),
         "files built around known telling lines, detected language compared", SAMPLES, API)
    prop("P21", "Without a telling extension the mode line, the name, then the #! line decide",
         "A file whose extension says nothing has the language of its Emacs mode line (on the first line, or the second after #!), in either form and any letter case, by language name or by extension; "
         "failing that the language of its known whole name; failing that the one of its #! line or PHP or XML opening. Mode lines further down, beyond column 80 or of no known language say nothing.",
         ["inputs"], "every first lines with a mode line in any spelling, a #! line of any interpreter known to libmagic, both or neither",
         "A handful of fixtures.",
         ["src/detector.c", "src/hash/languages.gperf"], m(("mode line", "src/detector.c ohcount_detect_language"), ("libmagic wording", "src/detector.c magic_parse"), ("language names", "src/hash/languages.gperf")),
         "files built from a known mode or #! line, detected language compared", SAMPLES, API)
    prop("P22", "A file name is binary exactly if its extension is that of binary files",
         "ohcount_is_binary_filename answers true for exactly the names whose extension, in any letter case, is in the table of binary extensions, and a file of such a name is given no language.",
         ["inputs"], "every file name", "Five names are tested.",
         ["src/detector.c", "src/hash/extensions.gperf"], m(("binary test", "src/detector.c ohcount_is_binary_filename"), ("table", "src/hash/extensions.gperf")),
         "answers compared with a table kept outside the code", SAMPLES, API)
    prop("P23", "A directory counts as every regular file in it, once, and nothing else",
         "Adding a directory to a file list adds every regular file at any depth below it exactly once per addition, hidden files and files of any name included, under the path of the directory, a slash and the way to it; "
         "hidden directories, symbolic links (to files, directories or back up), pipes, sockets and what lies behind them are not looked at, and a path too long to open disturbs nothing else. No descriptor stays open.",
         ["inputs", "histories"], "every directory tree: any names, hidden entries, links, special files, depth and width, added any number of times among other files",
         "The list test adds one directory of three files.",
         ["src/sourcefile.c", "src/ohcount.c"], m(("directory walk", "src/sourcefile.c ohcount_sourcefile_list_add_directory"), ("files added singly", "src/sourcefile.c ohcount_sourcefile_list_add_file")),
         "paths of the filled list compared with an independent walk of random trees, descriptors of the process watched", SAMPLES, API)
    prop("P24", "The command line tool says what the library says, of every path given",
         "For any paths and any option the tool's output consists of what the library reports of the same files: every line annotated with its language and label in order (so that the annotated lines make up the file), the entities, the detected language, the licences, the counts per file, "
         "and the summary, which is their sum per language in descending order of code. A path that does not exist and an unknown option are named in a message.",
         ["inputs", "programs"], "every set of files, directories and missing paths × every option, files of any language, size and line length",
         "The tests never run the tool.",
         ["src/ohcount.c", "src/sourcefile.c", "src/loc.c"], m(("options and reports", "src/ohcount.c"), ("analysis of lists", "src/sourcefile.c ohcount_sourcefile_list_analyze_languages")),
         "the tool's output taken apart and compared with recorded library events of the same files", SAMPLES, "Trusted: the harness's recording of the library; the layout of each report.")
    prop("P25", "Unreadable, vanishing and changing files count as what could be read",
         "A file that cannot be read, does not exist, is a directory or vanishes counts nothing, and one that changes between calls counts as one of the states it had; no call crashes, hangs or leaves a descriptor open, "
         "and the other files of a list or a directory are counted as if the unreadable one were not there. A diff works when its log cannot be written.",
         ["histories", "faults"], "every history of calls on files that are unreadable, missing, of an odd kind, or change, shrink, grow and vanish between the calls, as an unprivileged user",
         "No test touches a file that cannot be read.",
         ["src/sourcefile.c", "src/detector.c", "src/log.c", "src/ohcount.c"], m(("contents from disk", "src/sourcefile.c ohcount_sourcefile_get_contents, get_contentsize"), ("detection from disk", "src/detector.c"), ("log", "src/log.c")),
         "recorded answers compared with those of the states each file had, crash and descriptor monitors", SAMPLES + "Faults are those an unprivileged user can meet; read errors of a device are not injected.", API)
    prop("P26", "The Ruby objects say what the library says, for as long as they are held",
         "Every answer of the Ruby binding about a source file or a list (path, contents, companions, language, breakdowns, counts, licences, diff, totals, binary test, language names) is the C library's answer for the same file, in the same order. "
         "It stays so whatever Ruby collects, moves or allocates in between, and through parts (breakdowns, counts, deltas, files of a list) that outlive the variables they came from; a file without contents or companions has nil and none.",
         ["programs", "histories", "inputs"], "every history of calls, dropped references and collections over any files and directories",
         "The Ruby tests hold every object until the end and never run the collector.",
         ["ruby/ohcount.rb", "ruby/ohcount.i", "src/sourcefile.c"], m(("objects and lists", "ruby/ohcount.rb"), ("conversion and lifetime", "ruby/ohcount.i")),
         "answers compared with recorded library answers, under AddressSanitizer and forced collections", SAMPLES + "Misuse (nil for a path or contents) is not exercised.", API)
    prop("P27", "The gestalts of files are exactly those their definitions entail",
         "A platform or tool is reported for a set of files, once, exactly if its definition follows from them: words in code (not comments) of the named language, C headers, Java imports, C# usings, file names, Maven and project files, shares of languages (markup left out), and other gestalts, with the stated counts and percentages. "
         "The order of the files, of earlier analyses and of asking again changes nothing, and a file no XML parser takes adds nothing and stops nothing.",
         ["inputs", "programs", "histories"], "every set of files of any names and contents, in any order, analysed as a directory, a list or one by one, after any other analyses",
         "One fixture per definition at most, each analysed alone; thresholds, combinations, near misses and malformed XML are not tried.",
         ["ruby/gestalt.rb", "ruby/gestalt/gestalt_engine.rb", "ruby/gestalt/definition.rb", "ruby/gestalt/definitions.rb", "ruby/gestalt/java_definitions.rb", "ruby/gestalt/jasper_definitions.rb", "ruby/gestalt/dot_net_definitions.rb", "ruby/gestalt/rules"],
         m(("engine and language shares", "ruby/gestalt/gestalt_engine.rb"), ("rules", "ruby/gestalt/rules/*.rb"), ("definitions", "ruby/gestalt/*definitions.rb")),
         "the engine's gestalts compared with those an independent table entails from recorded code text", SAMPLES + "Where a header directive has a tab, or a language only comments, either answer passes.", "Trusted: lib/gestalts.py, which transcribes the definitions; Ruby, REXML and expat.")
    prop("P28", "Every language reported is known by name, with English name and category",
         "The 125 language names lead to their language, its English name and its category (code, markup or build), an alias to the language it stands for; no other name, however near, is known, and setting a file to an unknown one changes nothing. "
         "Whatever language a line, an entity, a count or a detection is reported for is one of them and may appear in a document of the language parsed; each name set on a file leads to the parser of its language.",
         ["inputs"], "every string as a name; every document of each language and every detectable path",
         "The tests look up no name that is not a language, and no reported language's English name.",
         ["src/languages.h", "src/hash/languages.gperf", "src/hash/parsers.gperf", "src/sourcefile.c", "src/parser.c"],
         m(("names, English names, categories", "src/hash/languages.gperf and src/languages.h"), ("language set on a file", "src/sourcefile.c ohcount_sourcefile_set_language"), ("language to parser", "src/hash/parsers.gperf, src/parser.c")),
         "look-ups and every recorded reported language compared with a table kept outside the code", SAMPLES + "A .dat file that is not AMPL is detected as the string \\1, which a test of the repository asks for.", API + ["data/registry.json"])
    prop("P29", "Newline form, final newline and complete text before decide no label",
         "A document whose newlines are \\r\\n or whose last newline is missing has the lines, languages, labels and entities of the same document with \\n; "
         "a document that stands behind complete documents of its language has those it has alone, shifted.",
         ["inputs", "programs"], "every well-formed document × newline form × final newline × any number of complete documents before it, in each of the 123 languages",
         "Every fixture ends in a newline, nearly all use \\n, and each is parsed alone.",
         ["src/parser.c", "src/parser_macros.h", "src/parsers/common.rl", "src/parsers/*.rl"],
         m(("line scanning and last line", "src/parser_macros.h, src/parser.c"), ("newline machine", "src/parsers/common.rl")),
         "the recorded events of a document compared with those of its variants", SAMPLES + "Entities behind text only in the languages with string entities; haml and a bare $ of dcl are left out of the behind-text relation.", API)
