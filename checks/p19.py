"""P19: a file whose name is known has the language of its name, whatever it holds and wherever it lies."""
import os

import vlib
from check import show
from detect import EXT, FILES, by_extension, extension
from gen import TOKENS, corpus, mutate, soup
from vlib import Case, Crash, Skipped

RULE = ("an evaluation is one file name of which extension or whole name decide the language, with contents, companions and directory that must not matter; detected language compared "
        "with the table in data/names.json; non-trivial: distinct (name, contents)")
STEMS = ["foo", "Foo.bar", "a.b.c", "README", "x y", "", ".hidden", "-", "Makefile", "CMakeLists.txt", "foo.py", "foo.h", "foo.m", "foo.png", "configure", "1", "\xe9", "a" * 200, "foo.", "..", "C", "foo.tar"]
DIRS = ["", "", "src/", "/a.py/", "a.h/b.c/", ".git/", "../", "./", "//", "a\\", "C:\\src.c\\", "x.png/", "a b/c/", "Makefile/", "foo.rb/foo/"]
CONT = [b"", b"x\n", b"#!/usr/bin/perl\n", b"#!/bin/sh\n# -*- ruby -*-\n", b"-*- mode: lisp -*-\n", b"/* -*- C -*- */\n", b"<?xml version=\"1.0\"?>\n<a/>\n", b"<?php echo 1; ?>\n", b"\x7fELF\x01\x01", b"%PDF-1.4\n", b"class Foo {\n", b"\xff\xfe\xff", b"# -*- python -*-\n", b"<?cs ?>\n"]


def run(ck):
    exe = vlib.build("plain")["driver"]
    r = ck.rng("names")
    cor = corpus()
    wd = vlib.scratch("p19")
    sure = [e for e, v in EXT.items() if not (v or "").startswith("?")]
    plain_files = [f for f in FILES if by_extension(extension(f)) == ""]
    cases = []

    def contents():
        k = r.random()
        return r.choice(CONT) if k < .5 else soup(r, r.randrange(20), TOKENS) if k < .75 else mutate(r, r.choice(cor)[1][:800])

    def add(path, want, kind, d=None):
        d = contents() if d is None else d
        ops = [("NEW", 0, path)]
        k = r.random()
        if k < .7:
            ops.append(("CONT", 0, d))
        elif k < .85:
            p = os.path.join(wd, f"f{len(cases)}" + r.choice(["", ".c", ".py", ".png", ".h"]))
            ops += [("WRITE", p, d), ("DISK", 0, p)]
        else:
            ops.append(("CONT", 0, d))
        if r.random() < .4:
            ops.append(("FNAMES", 0, *[r.choice(["foo.m", "foo.h", "a.cpp", "x.frm", "Makefile", "foo.c"]) for _ in range(r.randrange(4))]))
        ops += [("DETECT", 0), ("GETLANG", 0), ("GETLANG", 0), ("FREE", 0)]
        cases.append(Case(ops, path=path, doc=d, want=want, kind=kind))

    for rep in range(ck.n(40, 300)):
        for e in sure:
            v = r.random()
            x, kind = (e, "extension") if v < .6 else (e.upper(), "upper case") if v < .8 else ("".join(r.choice([c.upper(), c.lower()]) for c in e), "mixed case")
            want = by_extension(x)
            if (want or "").startswith("?"):
                continue
            add(r.choice(DIRS) + r.choice(STEMS) + "." + x, want, kind)
        # case decides where the table has both
        for x in ("C", "H", "c", "S", "s", "M4", "R", "r"):
            want = by_extension(x)
            if not (want or "").startswith("?"):
                add(r.choice(DIRS) + r.choice(STEMS) + "." + x, want, "letter case")
        for f in plain_files:
            # the name decides only for contents that say nothing of themselves
            add(r.choice(DIRS) + f, FILES[f], "whole name", r.choice([b"", b"x\n", b"#!/usr/bin/perl\nx\n", b"#!/bin/sh\n", b"words of text\n", b"<?php echo 1; ?>\n"]))
        # names near the known ones say nothing
        for _ in range(60):
            f = r.choice(plain_files)
            x = r.choice([f.lower() if f.lower() not in FILES else f + "x", f.upper() if f.upper() not in FILES else "x" + f, "x" + f, f + "2", f[:-1], "." + f, f + "~x"])
            if x not in FILES and by_extension(extension(x)) == "":
                add(r.choice(DIRS) + x, None, "unknown name", b"words of text\n")
            e = r.choice(sure)
            x = r.choice([e + "x", "x" + e, e[:-1], e + "_", e + e, " " + e, e + " "])
            if by_extension(x) == "":
                add(r.choice(DIRS) + "foo." + x, None, "unknown extension", b"words of text\n")
            e = r.choice(sure)
            if e not in FILES and r.random() < .4:
                add(r.choice(["", "src/", "a.b/"]) + e, None, "extension without a dot", b"words of text\n")
                add("foo." + e + "/bar", None, "extension of the directory", b"words of text\n")
    langs = set()
    for c, o in zip(cases, vlib.run_cases(exe, cases, san=False)):
        if isinstance(o, Skipped):
            continue
        if isinstance(o, Crash):
            ck.crash(o, c)
            continue
        x = c.meta
        got = [q["lang"] for q in o if q["op"] in ("DETECT", "GETLANG")]
        ck.evaluated((x["path"], x["doc"]))
        ck.saw("by " + x["kind"])
        langs.add(got[0])
        if got != [x["want"]] * 3:
            ck.violation(f"{x['kind']}: {extension(x['path'])[:12] or x['path'][-20:]}", f"{x['path']}: detected {got}, its name says {x['want']}; contents {show(x['doc'], 200)}", c.to_json(), len(x["doc"]) + len(x["path"]))
        elif len(x["path"]) < 30:
            ck.sample({"path": x["path"], "contents": show(x["doc"], 60), "language": got[0]})
    ck.saw("different languages", len(langs))
    ck.require("different languages", 95)
    ck.require("by whole name", 300)
