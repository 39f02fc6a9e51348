"""What a file's name and contents say about its language, written down independently of the detector."""
import json
import os

from vlib import VERIF

_t = json.load(open(os.path.join(VERIF, "data", "names.json")))
EXT = _t["extensions"]      # extension -> language | None (binary) | "?id" (contents decide)
FILES = _t["filenames"]     # whole file name -> language
IDS = sorted({v[1:] for v in EXT.values() if v and v.startswith("?")})
CPP_HEADERS = """algorithm bitset cassert cctype cerrno cfloat climits clocale cmath csetjmp csignal cstdarg cstddef cstdio cstdlib cstring ctime cwchar cwctype deque exception
fstream functional iomanip ios iosfwd iostream istream iterator limits list locale map memory new numeric ostream queue random regex set sstream stack stdexcept streambuf string tuple
typeinfo type_traits unordered_map unordered_set utility valarray vector array tr1/memory tr1/tuple tr1/regex tr1/unordered_map tr1/array""".split()


def extension(path):
    """The part after the last dot of the last component of a path, or ''."""
    base = path.replace("\\", "/").rsplit("/", 1)[-1]
    return base.rsplit(".", 1)[1] if "." in base else ""


def basename(path):
    return path.replace("\\", "/").rsplit("/", 1)[-1]


def by_extension(ext):
    """'' when the extension says nothing, else its entry."""
    if ext in EXT:
        return EXT[ext]
    return EXT.get(ext.lower(), "")


def shuffled(r, *groups):
    out = [x for g in groups for x in g]
    r.shuffle(out)
    return out


def few(r, pool, lo=0, hi=5):
    return [r.choice(pool) for _ in range(r.randint(lo, hi))]


def some(r, pool, lo=0, hi=5):
    n = r.randint(lo, hi)
    if hi >= 5 and r.random() < .08:  # the telling line far from the start; a .pp file is looked at up to 10000 bytes
        n = r.choice([30, 80, 150])
    return [r.choice(pool) for _ in range(n)]


# Each maker returns (extensions or names, list of lines, companion names, language or None).

HN = ["int foo(int a);", "#include <stdio.h>", "#include <sys/types.h>", "struct classy x;", "int class_of;", "#define NAMESPACE 1", "/* nothing */", "  myclass x;", '#include "foo.h"', "", "\t", "int CLASS;",
      "typedef struct subclass_t subclass_t;", "extern templates_t t1;", "#define string vector", "int vector, map, set;", "# define list 1", "// <string>", "int x; /* #include <string> */", "class1 y;", '#include "vector.h"',
      "#include <strings.h>", "#include <string.h>", "a_namespace b;", "_template c;", "Class d;", "char *s = 0;", "#ifdef __cplusplus", "#endif", '#include "a/map.h"', "x" * 78, 'clas x;', 'classs x;', 'class_ x;', '_class y;', '1class y;', 'x_class y;', 'Class Foo {', 'CLASS Foo {', 'template1 y;', 'typenam y;', 'typename_ q;', 'namespaces x;', 'Namespace x;', 'templat t;', '#include <vecto>', '#include <vectors>', '#include <Vector>', '#includes <vector>', '#includ <vector>', '#include "x.hp"', '#include "x.hx"', '#include a.hpp', '#define x.hpp', '#include <list.h>']


def h(r):
    k = r.random()
    name = r.choice(["foo", "foo", "Bar", "a.b", "x-y", "h", "m"])
    comp, want = some(r, ["foo.c", "foo.mm", "xfoo.m", "a/foo.m", "foo.M", "foo.h", "oo.m", "Foo.m", "foo.m.in"], 0, 4), "c"
    mark = []
    if k < .45:
        want = "cpp"
        hd = r.choice(CPP_HEADERS)
        mark = [r.choice(["class Foo {", "  class Foo;", "namespace a {", "template <class T>", "template<typename X>", "friend class A;", "typename X::y z;", "using namespace std;", "x;class Y;", "/*class*/", "};namespace{",
                          f"#include <{hd}>", f"#  include   <{hd}>", f'#include "{hd}"', f"#\tinclude\t<{hd}>", '#include "a.hpp"', '#include "b/a.hh"', "#include <x.hxx>", '#include "c.h++"', "#include <q.H>"])]
    if k > .75:
        want = "objective_c"
        comp.append(name + ".m")
        mark = some(r, ["class Foo {", "#include <string>"], 0, 1)
    r.shuffle(comp)
    return [name + ".h"], shuffled(r, some(r, HN, 0, 8), mark), comp if comp or r.random() < .5 else None, want


PAS = ["program foo;", "uses crt;", "begin", "  writeln('content');", "end.", "var source: integer;", "procedure define;", "unit classes;", "x := ensure;", "{ class }", "type node = record", "  importx: char;", 'clas foo {', 'Class foo {', 'classs foo {', 'class;', 'defin a(', 'defines a(', 'Define a (', 'define a', 'Node default {', 'nod default {', 'nodes default {', 'imports "foo"', 'impor "foo"', 'import foo', 'includes foo', 'includ foo', 'Include foo', 'ensured => 1;', 'ensur => 1;', 'Ensure => 1;', 'ensure = 1;', 'contents => 1;', 'conten => 1;', 'sources => 1;', 'notif => 1;', 'require=>1;', 'requires => 1;', 'x ensure => 1;']


def pp(r):
    n = some(r, PAS, 0, 8)
    if r.random() < .4:
        return ["foo.pp"], n, None, "pascal"
    m = r.choice(["class foo {", "class foo::bar inherits foo {", "class foo(", "define foo::bar(", "define a (", "node 'x.example.org' {", "node default {", 'import "foo"', "include foo", "  include 'x'", "  ensure => present,",
                  "\tcontent  => 'x',", "    source => 'y',", "  notify => Service['x'],", "  require   => Package['x'],"])
    return ["foo.pp"], shuffled(r, n, [m]), None, "puppet"


def pl(r):
    perl = some(r, ["use strict;", "my $x = 1;", "print \"a\";", "# prolog :-", "$x ->{y};", "sub foo { }", "a:-b.", "x :-y", "", ':-\tq', ': - ', 'a : -b'], 0, 7)
    pro = some(r, ["foo(X) :- bar(X).", ":- module(a, []).", "a(b).", "p :-\n    q."], 0, 3)
    pro = [x for x in pro if ":-" in x or r.random() < .5]
    sheb = ["#!/usr/bin/perl -w", "#!/usr/bin/env perl", "#! /opt/Perl/bin/perl5"] if r.random() < .4 else []
    lines = shuffled(r, perl, pro)
    if sheb:
        return ["foo.pl"], [r.choice(sheb)] + lines, None, "perl"
    # ':- ' or ':-' at the end of a line is a rule
    lines = [x for x in lines if x]
    want = "prolog" if any(":- " in x + "" or ":-\n" in x for x in lines) or any(x.endswith(":-") for x in lines[:-1]) else "perl"
    if lines and lines[-1].endswith(":-"):
        lines.append("end")
        want = "prolog"
    return ["foo.pl"], lines, None, want


def pro(r):
    n = some(r, ["pro foo", "x = 1", "SOURCES = a.c", "CONFIG", "HEADERS += a.h", "end", "; comment", "sources += 1", "TEMPLATE = app", "CONFIG  += x", 'Sources += a.c', 'SOURCE += a.c', 'CONFIG =+ x', 'config += x', 'CONFI+= x', 'SOURCES\t+= x', 'SOURCES + = x', 'CONFIG -= x'], 0, 7)
    if r.random() < .5:
        return ["foo.pro"], n, None, "idl_pvwave"
    return ["foo.pro"], shuffled(r, n, [r.choice(["SOURCES += a.c", "SOURCES+=a.c", "CONFIG += qt", "  CONFIG+=qt"])]), None, "make"


def rr(r):
    n = some(r, ["x <- 1", "# comment", "plot(x)", "re bol", "rebo", "REBO L", "function(a) a", 'rebal', 'rbol', 'Rebo', 're-bol', 'ebol'], 0, 7)
    if r.random() < .5:
        return ["foo.r", "foo.R"], n, None, "r"
    return ["foo.r", "foo.R"], shuffled(r, n, [r.choice(["REBOL [", "Rebol []", "#!/usr/bin/rebol -q", "; rebol", "xREBOLx", "rebol"])]), None, "rebol"


def rs(r):
    n = some(r, ["fn main() {}", "// #pragma version(1)", "use std::io;", "#pragma once", " #pragma version(1)", "let x = 1;", "", '#pragma versio', '# pragma version(1)', '#pragmaversion(1)', '#pragma  version(1)', 'pragma version(1)'], 0, 7)
    if r.random() < .5:
        while n and not n[0]:
            n.pop(0)
        return ["foo.rs"], n, None, "rust"
    return ["foo.rs"], shuffled(r, n, [r.choice(["#pragma version(1)", "#pragma version(2)", "#pragma version (1)"])]), None, None


def st(r):
    parts = {"a": ["x := 3.", "x:= 3.", "| y | y := 4."], "b": ["foo do: [ x", "a ifTrue:[ b", "x:\t[ y"], "c": ["  foo ].", "x ]. y", "]."]}
    n = some(r, ["state 1", "x = 4", "foo [ ]", "x : y", "] .", "[ a ]", "a =: b", "x :a = b", ""], 0, 6)
    have = [k for k in "abc" if r.random() < .8]
    m = [r.choice(parts[k]) for k in have]
    if r.random() < .3 and len(have) == 3:
        m = ["x := y do: [ :z | z ]."]
    return ["foo.st"], shuffled(r, n, m), None, "smalltalk" if len(have) == 3 else None


def asx(r):
    lead = some(r, ["", "  ", "\t"], 0, 3)
    k = r.random()
    if k < .45:
        return ["foo.asx"], lead + [r.choice(["<ASX version=\"3\">", "  <asx>", "<", "\t<!-- ; -->", "\xef\xbb\xbf<asx>", "\xff\xfe<"])] + some(r, ["x", "; y", "<z>"]), None, None
    if k < .9:
        return ["foo.asx"], lead + [r.choice(["; comment", "  LDA #1", "start: NOP", "* = $c000", "x <"])] + some(r, ["<asx>", "; y", "<z>"]), None, "assembler"
    return ["foo.asx"], lead, None, "assembler"


def aspx(r):
    n = some(r, ["<html>", "Language=\"VB\"", "<%@ Control Language=\"VB\" %>", "<%@ Page Language=\"C#\" %>", "<% page language=\"vb\" %>", "<%@ Import Namespace=\"x\" %>", "<p>Page</p>", "", "<%@ Page %>", "<%= Language=\"VB\" %>",
                 "<%@ Register Page Language=\"vb\" %>", '<%@ Pag Language="VB" %>', '<%@ Page Language="VBX" %>', "<%@ Page Language='VB' %>", '<%@ Page Languag="VB" %>', '<% @ Page Language="VB" %>', '<@ Page Language="VB" %>', '<%@ Page Language=VB %>'], 0, 7)
    ext = [f"foo.{e}" for e in EXT if EXT[e] == "?aspx"]
    if r.random() < .5:
        return ext, n, None, "cs_aspx"
    return ext, shuffled(r, n, [r.choice(["<%@ Page Language=\"VB\" %>", "<%@Page language=\"vb\"%>", "<%@  PAGE x=\"1\" LANGUAGE=\"VB\" y=\"2\" %>", "<p><%@ page Language=\"Vb\" AutoEventWireup=\"false\"%>", "<%@\tPage\n  Language=\"VB\" %>"])]), None, "vb_aspx"


VBC = ["a.frm", "x.frx", "foo.vba", "foo.vbp", "b.vbs"]
VBN = ["a.vb", "frm", "vbs", "x.frms", "a.bas", "a.frm.txt", "vbp.x", "README", "a.FRM"]
BASN = ["PRINT \"x\"", "' comment", "x = 10", "  10 PRINT", "10: x", "10", "LET a = 5", "", "a10 b", "10\t", "10PRINT", "SUB foo", "5,6", '10 ?x', '10 "x"', '10 (a)', "10 'x", 'x 10 y']


def basic(r, ext=("bas", "bi"), extra=()):
    n, want, comp = some(r, BASN + list(extra), 0, 8), "structured_basic", None
    k = r.random()
    if k < .7:
        comp = some(r, VBN, 0, 4)
        if k < .35:
            comp.append(r.choice(VBC))
            want = "visualbasic"
        r.shuffle(comp)
    if r.random() < .4:
        n = shuffled(r, n, [r.choice(["10 PRINT \"x\"", "10\tGOTO 20", "1   REM x", "65535 END", "007 x", "20 2"])])
        want = "classic_basic"
    return ["foo." + e for e in ext], n, comp, want


BN = ["RETURN", "Return x;", "retur;", "retur n;", "rETURN x;", "brea;", "BREAK;", "Break;", "brea k;", "continu;", "Continue;", "continu e x;", "pic{", "Pick {", "pic k {", "cas{", "Case x {", "cas e {", "implemen Foo;", "implementx;", "Implement Foo;",
      "includ \"a\";", "include \"a\"", "include x;", "includes \"b\";", "INCLUDE \"c\";", ";", "{", "x;", "} ;", "include 'a';"]


def b(r):
    k = r.random()
    if k < .45:
        return basic(r, ["b"], BN)
    m = {0: "implement Foo;", 1: "include \"sys.m\";", 2: "return 1;", 3: "\tbreak;", 4: "case x { 1 => y; }", 5: "pick p := q {", 6: "  continue;", 7: "include\t\"draw.m\";", 8: "implement\tBar;", 9: "case x{", 10: "pick p := q{1 => 2;}",
         11: "return;", 12: "x:return 1 ;", 13: "continue loop;", 14: "break  ;", 15: "case\t(x)\t{", 16: "include  \"a b.m\";", 17: "pick{"}[r.randrange(18)]
    n, comp = some(r, BASN + BN, 0, 5), r.choice([None, ["a.frm"], ["x"]])
    return ["foo.b"], shuffled(r, [x for x in n if not x[:1].isdigit()], [m]), comp, "limbo"


def cs(r):
    n = some(r, ["class Foo {}", "<cs", "<? cs", "<?CS", "using System;", "<p>", "// <?", "x <?c s", '<?c', '< ?cs', '<?Cs', '<%cs', '?cs'], 0, 8)
    if r.random() < .5:
        return ["foo.cs"], n, None, "csharp"
    return ["foo.cs"], shuffled(r, n, [r.choice(["<?cs var:x ?>", "a<?cs if:y ?>", "<?csx"])]), None, "clearsilver_template"


def dat(r):
    lead, rest = some(r, ["", "  ", "\t"], 0, 3), some(r, ["data;", "param x := 1;", "set S := a;", "# c", "/* c */", "1 2 3", "foo"], 0, 4)
    if r.random() < .55:
        return ["foo.dat"], lead + [r.choice(["data;", "param x := 1;", "set S := a b;", "# comment", "/* comment */", "  set T;", "\tparam y;"])] + rest, None, "ampl"
    return ["foo.dat"], lead + [r.choice(["1 2 3", "x", "par x", "dat", "se t", "/ * x", "//", "DATA", "\x01\x02", "<x>", 'Data;', 'Param x', 'SET S', 'para m', 'dta', 'dat a', '/x', 'st'])] + rest, None, None


def def_(r):
    lead, rest = some(r, ["", "  ", "\t"], 0, 3), some(r, ["DEFINITION MODULE x;", "(* c *)", "EXPORTS", "END x."], 0, 4)
    if r.random() < .5:
        return ["foo.def"], lead + [r.choice(["DEFINITION MODULE Foo;", "(* comment *)", "  DEFINITION FOR C MODULE a;", "\t(* x"])] + rest, None, "modula2"
    return ["foo.def"], lead + [r.choice(["LIBRARY foo", "EXPORTS", "; x", "Definition module x", "( * x", "DEF x", "MODULE x;", "#define X", 'DEFINITIO MODULE x', 'DEFINE x', '(x)', '(', 'definition MODULE x'])] + rest, None, None


def mod(r):
    lead, rest = some(r, ["", "  ", "\t"], 0, 3), some(r, ["MODULE x;", "(* c *)", "param x;", "END x."], 0, 4)
    k = r.random()
    if k < .4:
        return ["foo.mod"], lead + [r.choice(["MODULE Foo;", "IMPLEMENTATION MODULE Foo;", "(* comment *)", "  MODULE x;", "\t(*"])] + rest, None, "modula2"
    if k < .8:
        return ["foo.mod"], lead + [r.choice(["param x;", "set S;", "# c", "/* c */", "var y;", "module x", "DEFINITION MODULE x;"])] + rest, None, "ampl"
    if k < .9:
        return ["foo.mod"], lead + [r.choice(["( x )", "Mod", "MODUL", "Important", "IMPL", 'IMPLEMENTATIO', 'IMPLEMENTATIo', 'MODULe', 'MOD ULE'])] + rest, None, None
    return ["foo.mod"], lead, None, None


def fs(r):
    f = some(r, ["\\ comment", ": square dup * ;", "  : cube ;", "\t\\ x"], 0, 5)
    s = some(r, ["let x = 1", "  | A -> 1", "// comment", "type T = int", "\tlet y = 2", "||"], 0, 5)
    n = some(r, ["x", "letx = 1", ":foo", "\\", "typed", "/ /", "a | b", "a // b", "", "let", "open System", 'Let x = 1', 'le t x', 'typ e', 'Type X', 'types y', 'lets z', ':\tx', ':', '/x', '\\x'], 0, 5)
    return ["foo.fs"], shuffled(r, f, s, n), None, "forth" if len(f) > len(s) else "fsharp" if len(s) > len(f) else None


FIX = ["C comment & more", "c comment", "* comment", "! comment", "      x = 1", "     &  + 2", "     1  + 3", "10    continue", "  100 format('a & b')", "      y = \"q & r\"", "\tz = 4", "      end", "      w = 5 ! and & comment", "      call foo(a,", "     + b)",
       "      s = 'it & is' // \"a & b\"", "      do 10 i = 1, 5", " 5    goto 10", "      a = b" + " " * 62 + "&", "99999 stop", ""]


def ampersand(r, col):
    """A statement with a string, and an ampersand in that column."""
    q = r.choice("\"'")
    t = "      s = " + r.choice([q + "b" * r.randrange(0, 30) + q, q + "a & b" + q, q + q, "y", q + "x" + q + " // " + q + "& z" + q])
    return t + r.choice([" ", "+"]) * (col - 1 - len(t)) + "&" + r.choice(["", " ", "x"])


def fortran(r):
    n = some(r, FIX, 0, 9)
    if r.random() < .25:   # beyond column 72 nothing counts
        n.insert(r.randrange(len(n) + 1), ampersand(r, r.choice([73, 73, 74, 75, 80])))
    ext = [f"foo.{e}" for e in EXT if EXT[e] == "?fortran"]
    if r.random() < .5:
        return ext, n, None, "fortranfixed"
    m = r.choice(["program foo", "module bar", "  integer :: i", "      x = y + &", "      call foo(a, & ! b", " x = 1", "real z", "subroutine s", "10 x = 5", "   end if", "      s = 'a' // &", "10   5 x", "#include \"x\"", "      x = 'a & b' &"])
    if r.random() < .12:
        m = ampersand(r, r.choice([72, 72, 71, 70, 60]))
    return ext, shuffled(r, n, [m]), None, "fortranfree"


def inc(r):
    n = some(r, ["<? php", "?ph", "int x;", "# define", "PHP", "<?PHP", "? php", "<?", '<?hp', '?Php', '?ph p', '<php'], 0, 8)
    if r.random() < .5:
        return ["foo.inc"], n, None, None
    return ["foo.inc"], shuffled(r, n, [r.choice(["<?php", "<?php echo 1; ?>", "x?phpy", "?php"])]), None, "php"


MN = ["functio (a)", "Function (x)", "function x(a)", "functions (a)", "#impor <a>", "#Import <a>", "@interfac X", "@implement X", "@Interface X", "@", "includ \"a.m\";", "include \"a.M\";", "include \"m\";", "include a.m", "include \"a.mm\";", "x: modul {",
      "x: Module {", "x: ad {", "x: adts {", "x: f (", "x: fun(", "x: co 1", "x: con1", "x: cons 1", "x:module {", "x::module {", "A::adt {", "x:=fn (y)", "::con 1", "x : ", "x endwhil", "x endwhiles", "x EndWhile", "x endif", "x end_try", "x endfunctions", "x1endwhile", "x end_unwind",
      "a & b, c", "( *x", "(x*)", "/ .", "@ @", "_ _", "a&b", "x/y.z", "* /", "!x", "$ x", "a ;"]
# .m: each line speaks for one language
MS = {"matlab": ["% comment", "  % comment", "function (a)", "function  (b, c)"], "objective_c": ["#import <a.h>", "// comment", "/* comment */", "- (void)foo;", "+ (id)bar;", "@interface X", "@implementation Y : Z", "  // x"],
      "mathematica": ["(* comment *)", "x /. y -> 1", "f @@ g", "f[#1 &, x]", "f[# & ]", "x__"], "limbo": ["Foo: module", "a: adt {", "f: fn(x: int)", "g: fn (y)", "c: con 1;", "include \"sys.m\";", "  include \"draw.m\";"],
      "": ["x = 1", "", "foo bar", "y", "end", "a: b", "f: fnord", "x: modules", "include \"sys.h\"", "functional", "a@b", "x = y'", "  z", "endfunction", "x / y", "a_b", "&x", "includes \"a.m\""] + MN}
OCT = ["x = 1 endwhile", "  endfunction", "\tend_try_catch", "  end_unwind_protect;", "a; endwhile"]


def m(r):
    sc = {}
    lines = few(r, MS[""], 0, 5)
    for k in ("matlab", "objective_c", "mathematica", "limbo"):
        sc[k] = r.choice([0, 0, 1, 2, 3, 6])
        lines += few(r, MS[k], sc[k], sc[k])
    octave = False
    if r.random() < .3:
        k = r.randint(1, 3)
        for _ in range(k):
            if r.random() < .5:
                lines.append(r.choice(["# comment", "## comment", "  # x", "#\ty"]))
                sc["limbo"] += 1
                sc["matlab"] += 1
            else:
                lines.append(r.choice(OCT))
        octave = True
    comp = None
    if r.random() < .5:
        comp = few(r, ["x.py", "README", "foo.m", "h", "c", "xh", "Makefile"], 0, 3)
        heads, srcs = few(r, ["foo.h", "a.h"], 0, 1), few(r, ["a.c", "foo.cpp", "x.cc", "y.C", "z.cxx", "w.c++"], 0, 1)
        comp = shuffled(r, comp, heads, srcs)
        if heads and not srcs:
            sc["objective_c"] += 5
    a, o, t, li = sc["matlab"], sc["objective_c"], sc["mathematica"], sc["limbo"]
    want = "limbo" if li > max(a, o, t) else "objective_c" if o > max(a, t) else "mathematica" if t > a else "octave" if octave else "matlab"
    r.shuffle(lines)
    return ["foo.m"], lines, comp, want


MAKERS = {"h": h, "pp": pp, "pl": pl, "pro": pro, "r": rr, "rs": rs, "st": st, "asx": asx, "aspx": aspx, "basic": basic, "b": b, "cs": cs, "dat": dat, "def": def_, "mod": mod, "fs": fs, "fortran": fortran, "inc": inc, "m": m}
assert set(MAKERS) | {"in"} == set(IDS), (set(MAKERS) ^ set(IDS))
