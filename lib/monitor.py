"""Online checkers of the event stream: what has to be true of the events of any parse, whatever the bytes."""
import re

NL = (b"\n", b"\r", b"\f")
WSB = b" \t\v"

# languages that may appear in the events of a parser, beyond the one it was asked for (None: exactly its own name)
ALSO = {
    "html": ["css", "javascript"], "php": ["html", "css", "javascript"], "rhtml": ["html", "css", "javascript", "ruby"],
    "jsp": ["html", "css", "javascript", "java"], "cs_aspx": ["html", "css", "javascript", "csharp"],
    "vb_aspx": ["html", "css", "javascript", "visualbasic"], "clearsilver_template": ["html", "css", "javascript", "clearsilver"],
    "mxml": ["css", "actionscript"], "metapost_with_tex": ["metapost", "tex"], "nix": ["shell"], "haml": ["ruby"], "coffeescript": ["javascript"],
}
# not an own name in the event stream
NOT_OWN = {"rhtml", "jsp", "cs_aspx", "vb_aspx", "clearsilver_template", "metapost_with_tex"}


def split_lines(d):
    """[(start, end)] of the lines, the newline included; newline is CRLF, LF, FF or CR."""
    out, i, n, s = [], 0, len(d), 0
    while i < n:
        c = d[i]
        if c in (10, 12) or (c == 13 and not (i + 1 < n and d[i + 1] == 10)):
            out.append((s, i + 1))
            s = i + 1
        i += 1
    if s < n:
        out.append((s, n))
    return out


def may_report(lang):
    a = set(ALSO.get(lang, ()))
    if lang not in NOT_OWN:
        a.add(lang)
    return a


def line_faults(lang, d, ev, blank_any=frozenset()):
    """First thing wrong with a line event stream, or None: (kind, detail)."""
    allowed = may_report(lang)
    lines = split_lines(d)
    ended = lambda s, e: d[e - 1:e] in NL
    k = 0
    n = len(d)
    for i, (l, lab, s, e) in enumerate(ev):
        if not 0 <= s < e <= n:
            return "range", f"event {i} {lab} covers [{s},{e}) of {n} bytes"
        if lab not in ("lcode", "lcomment", "lblank"):
            return "label", f"event {i} is called {lab!r}"
        if l not in allowed:
            return "language", f"event {i} is reported for {l!r}"
        if i >= len(lines):
            return "extra", f"event {i} {lab} [{s},{e}): the document has only {len(lines)} lines"
        ls, le = lines[i]
        if e != le:
            return "end", f"event {i} {lab} [{s},{e}): line {i + 1} is [{ls},{le})"
        if s < ls:
            return "overlap", f"event {i} {lab} [{s},{e}) begins before line {i + 1} [{ls},{le})"
        text = d[ls:le].strip(WSB + b"\r\n\f")
        lead = d[ls:s].strip(WSB)
        if lang == "php" and lead == b"?":
            lead = b""
        if lang == "dcl":
            lead, text = lead.strip(b"$ \t\v"), text.strip(b"$ \t\v")
        if lang == "haml" and lab == "lblank":
            continue   # an evaluator without an expression
        if lead.strip(b"\r\n\f"):
            return "start", f"event {i} {lab} [{s},{e}) leaves out the beginning of line {i + 1} [{ls},{le})"
        if lab == "lblank" and text:
            return "blank", f"line {i + 1} {d[ls:le]!r} is called blank"
        if lab != "lblank" and not text and lang not in ("coq", "rebol", "haml") and b"\v" not in d[ls:le]:
            return "notblank", f"line {i + 1} {d[ls:le]!r} is called {lab[1:]}"
        k += 1
    missing = lines[len(ev):]
    if missing:
        s, e = missing[0]
        last_ws = len(missing) == 1 and e == n and d[e - 1:e] not in NL and not d[s:e].strip(WSB + (b"$" if lang == "dcl" else b""))
        if lang == "haml" and len(missing) == 1 and d[e - 1:e] not in NL and d[e - 1:e] in (b" ", b"\t", b"\v"):
            last_ws = True   # an evaluator without an expression
        if not last_ws:
            return "missing", f"line {len(ev) + 1} {d[s:e][:60]!r} of {len(lines)} is not reported"
    return None


NO_ENTITIES = {"factor", "vim"}                  # their entity parsers report nothing
HTMLISH = {"html", "php", "rhtml", "jsp", "cs_aspx", "vb_aspx", "clearsilver_template"}   # an opening tag is no entity
_ws = re.compile(rb"[ \t\v\r\n\f]")


def entity_faults(lang, d, ev):
    allowed = may_report(lang)
    n, last = len(d), 0
    for i, (l, ent, s, e) in enumerate(ev):
        if not 0 <= s < e <= n:
            return "range", f"entity {i} {ent} covers [{s},{e}) of {n} bytes"
        if s < last:
            return "order", f"entity {i} {ent} [{s},{e}) begins before the end {last} of the one before"
        if l not in allowed:
            return "language", f"entity {i} {ent} is reported for {l!r}"
        if ent == "space" and d[s:e].strip(b" \t\v\r\n\f"):
            return "space", f"entity {i} space [{s},{e}) holds {d[s:e][:40]!r}"
        last = e
    if lang not in NO_ENTITIES and lang not in HTMLISH:
        i = 0
        for l, ent, s, e in ev + [["", "", n, n]]:
            if d[i:s].strip(b" \t\v\r\n\f") != d[i:s] or _ws.search(d, i, s):
                return "white space", f"white space in [{i},{s}) {d[i:s][:40]!r} belongs to no entity"
            i = e
    return None
