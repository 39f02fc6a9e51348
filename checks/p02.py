"""P02: naming a file's language and licences never leaves defined behaviour, whatever the name, contents and companions."""
import os

import vlib
from check import show
from gen import TOKENS, corpus, mutate, soup
from vlib import Case, Crash, Skipped

RULE = ("a case is one (file name, contents, companion file names) given to detection, licence matching and the binary-name test under "
        "AddressSanitizer and UndefinedBehaviorSanitizer, part of them again under valgrind memcheck; non-trivial: distinct name or contents")

AMB = "h in for ftn f f77 f90 f95 f03 pl pm pp st asx aspx r mod pro fs cs b def rs inc bas bi dat m rb t ch inl F H C M R G".split()
EXT = """ada adb ads as asm awk bat bfpp boo c c++ cc cmake com coffee cpp css d dtx e ebuild el erl exheres-0 factor frx gd go groovy h hpp hs htm
html hx icl in ini java jl js jsp kt lisp lua m4 mak make ml mli mm mp mxml nix nse nsi oct pas php3 pike py qml rex rexx rkt s S sc scala
sci sh sql ss str tcl tex tpl ts umple vala vb vhd vim xaml xml xsd xsl z80 ~ png jpg gz o so exe zip tar jar class pdf""".split()
STEMS = ["foo", "x/foo", ".", "", "a.b/c", "Makefile", "configure", "CMakeLists", "a\\b", "..", "/", "//", "foo.", "./-", "\xe9t\xe9", "a" * 300, "x" * 5000, "a/" * 200 + "f", "a b", "$(x)", "*", "'", "CMakeLists.txt", "Gemfile", ".hidden", "foo.h.in", "foo.c.h"]
DT = [b"#!/bin/sh", b"#!/usr/bin/env perl -w", b"#!", b"#!/usr/bin/python3", b"-*- ", b"-*-", b"mode: ", b" c++ ", b"perl", b";", b"\n", b"\n", b"\n", b"include ", b'"foo.m";', b'"',
      b"#include <string>", b"#include \"a.hpp\"", b"#include <sys/types.h>", b"#include", b"class ", b"class Foo ", b"template<", b"typename ", b"namespace ", b"return", b"implement ", b"implement Foo",
      b"<%@ Page Language=\"VB\"%>", b"<%@ Page Language=\"C#\"", b"<%@ Page", b"%>", b"10 print", b"20 goto 10", b"script text executable for ", b"<?php", b"<?xml", b"<?xml version=\"1.0\"?>", b"data", b":= [", b"].",
      b"%", b"function (", b": module", b": ", b"&", b"(*", b"param", b"#pragma version", b"rebol", b"REBOL []", b":- ", b"SOURCES +=", b"define foo (", b"class bar {", b"     +", b"     1x", b"      x&", b"C comment", b"! free",
      b"A" * 79, b"A" * 80, b"A" * 81, b"A" * 82, b"x" * 200, b"x" * 5000, b" " * 81, b"\t" * 90, b"@end", b"@implementation", b"- (void)", b"+ (id)", b"[", b"]", b"clear all", b"%%", b"end", b"function y = f(x)",
      b"QT +=", b"pro foo", b"endif", b"#!/usr/bin/env php", b"use strict;", b"sub f {", b"module Foo", b"open System", b"let x =", b"{", b"}", b"fn main()", b"use std::io;", b"println", b"\\ x", b"a constant b",
      b"DEFINITION MODULE", b"LIBRARY", b"EXPORTS", b"MODULE Foo;", b"END Foo.", b"inherit foo", b"DESCRIPTION = \"x\"", b"'REM", b"Option Explicit", b"VERSION 1.0 CLASS", b"\r\n", b"\r", b"\xef\xbb\xbf", b"\xff\xfe", b"%PDF-1.4", b"\x7fELF", b"GIF89a"]
LICW = [b"GNU General Public License", b"version 2", b"or later", b"version 3", b"Permission is hereby granted, free of charge, to any person", b"Redistribution and use in source and binary forms",
        b"Mozilla Public License", b"Apache License, Version 2.0", b"under the terms of the", b"GPL", b"LGPL", b"BSD", b"MIT", b"AS IS", b"either version 2 of the License, or (at your option) any later version",
        b"/*", b"*/", b" * ", b"//", b"# ", b"\n", b"\n * ", b"\n# ", b"Boost Software License", b"Common Public License", b"zlib", b"Artistic License", b"(c) 2001", b"public domain"]
COMP = ["foo.m", "foo.cc", "x.vb", "a.frm", "b", "", ".", "foo.c", "foo.h", "a.cpp", "x/foo.m", "m", ".m", "foo.vbp", "foo.cls", "z.mm", "\\", "x" * 300, "foo.M", "/"]


def gen_case(r, cor, wd, k):
    e = r.choice(AMB) if r.random() < .6 else r.choice(EXT)
    name = r.choice(STEMS) + (r.choice([".", "."] + ["", ".."]) + r.choice([e, e, e, e.upper(), e.capitalize(), e + ".in", e + "x"]) if r.random() < .93 else "")
    m = r.random()
    if m < .45:
        d = soup(r, r.randrange(0, 30), DT + TOKENS)
    elif m < .6:
        d = soup(r, r.randrange(1, 12), DT)
    elif m < .72:
        d = b" ".join(r.choice(LICW) for _ in range(r.randrange(1, 40)))
        if r.random() < .6:
            d = b"/* " + d.replace(b"/*", b"").replace(b"*/", b"") + b" */\nint x;\n"
    elif m < .76:
        d = b""
    elif m < .8:
        d = r.choice(DT) * r.randrange(1, 40)
    else:
        d = mutate(r, r.choice(cor)[1][:r.choice([200, 1500, 6000])])
    d = d.replace(b"\0", b"")
    o = [("NEW", 0, name)]
    via = r.random()
    if via < .75:
        o.append(("CONT", 0, d))
    elif via < .92:
        p = os.path.join(wd, f"c{k}" + r.choice(["", ".h", ".pl", "." + e.replace("/", "")])[:60])
        o += [("WRITE", p, d), ("DISK", 0, p)]
    if r.random() < .5:
        o.append(("FNAMES", 0, *[r.choice(COMP) for _ in range(r.randrange(5))]))
    rest = [("DETECT", 0), ("GETLANG", 0), ("LIC", 0), ("ISBIN", name), ("LOC", 0), ("LIC", 0)]
    if r.random() < .3:
        r.shuffle(rest)
    o += rest[:r.randrange(2, 7)] + [("FREE", 0)]
    return Case(o, name=name[:80], doc=d)


def run(ck):
    exe = vlib.build("asan")["driver"]
    r = ck.rng("gen")
    cor = corpus()
    wd = vlib.scratch("p02")
    cases = [gen_case(r, cor, wd, k) for k in range(ck.n(14000, 110000))]
    names, langs = set(), set()
    for c, o in zip(cases, vlib.run_cases(exe, cases)):
        if isinstance(o, Skipped):
            continue
        ck.evaluated((c.meta["name"], c.meta["doc"]))
        if isinstance(o, Crash):
            ck.crash(o, c)
            continue
        for x in o:
            ck.saw(x["op"])
            if x["op"] in ("DETECT", "GETLANG") and x.get("lang"):
                langs.add(x["lang"])
            if x["op"] == "LIC":
                ck.saw("licences reported", len(x["lic"]))
        if len(c.meta["doc"]) < 80:
            ck.sample({"name": c.meta["name"], "contents": show(c.meta["doc"])})
    # lines and directives larger than the stack
    plain = vlib.build("plain")["driver"]
    giants = []
    for i, t in enumerate([b"x", b" ", b"\n", b"#include <", b"%", b"(*", b"class ", b"-", b"\"", b"x" * 79 + b"\n", b"/*"]):
        for j, (head, tail) in enumerate([(b"", b"\n"), (b"#!/bin/", b"\nx\n"), (b"<%@ Page Language=\"", b"\" %>\n"), (b"#include <", b">\n"), (b"x = '", b"'; % y\n"), (b"-*- ", b" -*-\n"), (b"10 ", b"\n20 x\n")]):
            if j and i % 4:
                continue
            p = os.path.join(wd, f"giant{i}_{j}")
            with open(p, "wb") as f:
                f.write(head + t * (9500000 // len(t)) + tail)
            for e in sorted(set(ck.rng("giant", i, j).sample(AMB, ck.n(9, len(AMB)))) | ({"aspx"} if j == 2 else set())):
                giants.append(Case([("NEW", 0, "foo." + e), ("DISK", 0, p), ("DETECT", 0), ("FREE", 0)], name="foo." + e, head=head.decode(), unit=t.decode(), tail=tail.decode(), times=9500000 // len(t)))
    for c, o in zip(giants, vlib.run_cases(plain, giants, san=False, timeout=300)):
        if isinstance(o, Skipped):
            continue
        ck.evaluated((c.meta["name"], c.meta["head"], c.meta["unit"]))
        ck.saw("files of ten megabytes")
        if isinstance(o, Crash):
            ck.crash(o, c, f"{c.meta['name']} of {c.meta['head']!r} and {c.meta['times']} times {c.meta['unit']!r}")
    # uninitialised reads, through the uninstrumented libmagic and pcre as well
    vg = vlib.build("vg", want=("driver",))["driver"]
    k = ck.n(320, 3000)
    sub = [c for c in cases if len(c.meta["doc"]) < 3000][-k:]
    pre = ("valgrind", "-q", "--error-exitcode=88", "--exit-on-first-error=yes", "--child-silent-after-fork=yes", "--leak-check=no")
    for c, o in zip(sub, vlib.run_cases(vg, sub, san=False, prefix=pre, timeout=400)):
        if isinstance(o, Skipped):
            continue
        if isinstance(o, Crash):
            ck.crash(o, c, "valgrind")
        ck.saw("cases under memcheck")
    ck.saw("languages detected", len(langs))
    ck.require("languages detected", 40)
    ck.require("licences reported", 100)
