"""Shared machinery: builds of /repo's current sources, the case runner, sanitizer report parsing, verdicts.

Nothing here looks at how the code is written; builds take src/*.c as they are, and observations come from the
public API through harness/driver.c, from the command line tool, or from sanitizer reports.
"""
import fcntl
import glob
import hashlib
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
JOBS = int(os.environ.get("VP_JOBS", "8"))

ENV = dict(os.environ)
ENV.update(HOME=os.environ.get("HOME", "/root"), LANG="C.UTF-8", LC_ALL="C.UTF-8")
for k in ("MAKEFLAGS", "CFLAGS", "CPPFLAGS", "LDFLAGS", "RUBYOPT", "RUBYLIB", "LD_PRELOAD"):
    ENV.pop(k, None)

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=1:leak_check_at_exit=0:handle_abort=1:detect_stack_use_after_return=1:"
    "strict_string_checks=0:symbolize=1:allocator_may_return_null=1:max_allocation_size_mb=4096:hard_rss_limit_mb=3500",
    "MSAN_OPTIONS": "abort_on_error=1:halt_on_error=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "LSAN_OPTIONS": "report_objects=0:max_leaks=20:print_suppressions=0",
}


class HarnessError(Exception):
    """The check itself could not work; never a verdict."""


def sh(cmd, **kw):
    kw.setdefault("env", ENV)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


# ---------------------------------------------------------------------------------------------- builds

SRC_SKIP = re.compile(r"(^|/)(parsers/[^/]*\.h|hash/[^/]*_hash\.h|hash/language_hash\.c|.*\.o)$")


def repo_sources():
    """(relative path, bytes) of what a build of the library depends on, generated files left out."""
    out = []
    for sub in ("src", "ruby"):
        for d, dirs, files in os.walk(os.path.join(REPO, sub)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, REPO)
                if sub == "src" and SRC_SKIP.search(os.path.relpath(p, os.path.join(REPO, "src"))):
                    continue
                if os.path.islink(p) or not os.path.isfile(p) or f.endswith((".so", ".o", ".log")):
                    continue
                out.append((rel, open(p, "rb").read()))
    return out


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


_tree = {}


def source_tree():
    """Copy /repo's sources to a content-addressed directory and run the project's generators there."""
    if "dir" in _tree:
        return _tree["dir"]
    files = repo_sources()
    key = _hash(*[x for f in files for x in f])
    d = os.path.join(BUILD, "tree2-" + key)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock-tree2-" + key), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, ".ok")):
            shutil.rmtree(d, ignore_errors=True)
            for rel, data in files:
                p = os.path.join(d, rel)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(data)
                if os.access(os.path.join(REPO, rel), os.X_OK):
                    os.chmod(p, 0o755)
            for sub, script in (("hash", "generate_headers"), ("parsers", "compile")):
                r = sh(["bash", "./" + script], cwd=os.path.join(d, "src", sub))
                if r.returncode:
                    raise HarnessError(f"{script} failed:\n{r.stdout.decode(errors='replace')[-2000:]}")
            for rl in glob.glob(os.path.join(d, "src/parsers/*.rl")):
                h = rl[:-3] + ".h"
                if os.path.basename(rl) != "common.rl" and not (os.path.exists(h) and os.path.getsize(h)):
                    raise HarnessError(f"ragel produced nothing for {rl}")
            open(os.path.join(d, ".ok"), "w").close()
    _tree["dir"], _tree["key"] = d, key
    _prune()
    return d


def _prune():
    """Keep disk use bounded: drop trees and builds not used for a while (never the current ones)."""
    ents = [e for e in glob.glob(os.path.join(BUILD, "tree*-*")) + glob.glob(os.path.join(BUILD, "out-*"))]
    ents.sort(key=lambda e: os.path.getmtime(e), reverse=True)
    for e in ents[24:]:
        if time.time() - os.path.getmtime(e) > 3600 and e != _tree.get("dir"):
            shutil.rmtree(e, ignore_errors=True)


VARIANTS = {
    # address+undefined: memory errors and UB are fatal
    "asan": ("clang", "-O0 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all "
             "-fno-sanitize=shift-base,function,pointer-overflow -DVP_LSAN"),
    # for behaviour and CLI work: glibc's checks of object sizes and the stack protector, as the distribution builds by default
    "plain": ("gcc", "-O1 -g1 -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=3 -fstack-protector-strong -DVP_MEMLIMIT"),
    # uninitialised reads; only for histories that stay out of the uninstrumented pcre and magic
    "msan": ("clang", "-O0 -g1 -fno-omit-frame-pointer -fsanitize=memory -fno-sanitize-recover=all"),
    # valgrind runs on this one
    "vg": ("gcc", "-O0 -g"),
}
LIBS = ["-lpcre", "-lmagic"]


def _run_cc(cmd, cwd):
    r = sh(cmd, cwd=cwd)
    return r.returncode, " ".join(cmd), r.stdout.decode(errors="replace")


def build(variant="plain", want=("driver", "cli")):
    """Compile /repo's current sources and the harness; returns {name: path}."""
    tree = source_tree()
    cc, flags = VARIANTS[variant]
    harness = sorted(glob.glob(os.path.join(VERIF, "harness", "*.[ch]")))
    key = _hash(_tree["key"], cc, flags, *[open(h, "rb").read() for h in harness])
    d = os.path.join(BUILD, f"out-{variant}-{key}")
    outs = {w: os.path.join(d, w) for w in ("driver", "cli", "libohcount.so")}
    with open(os.path.join(BUILD, f"lock-{variant}-{key}"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, ".ok")):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            srcs = sorted(glob.glob(os.path.join(tree, "src/*.c"))) + [os.path.join(tree, "src/hash/language_hash.c")]
            main = os.path.join(tree, "src/ohcount.c")
            jobs, objs = [], []
            for s in srcs:
                o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
                f = flags.split()
                if os.path.basename(s) == "parser.c" and variant == "plain":
                    f = [x for x in f if not x.startswith("-O")] + ["-O0"]
                jobs.append([cc, *f, "-w", "-fPIC", "-I" + os.path.join(tree, "src"), "-c", s, "-o", o])
                if s != main:
                    objs.append(o)
            drv = os.path.join(d, "driver_main.o")
            jobs.append([cc, *flags.split(), "-w", "-fPIC", "-I" + os.path.join(tree, "src"), "-c",
                         os.path.join(VERIF, "harness/driver.c"), "-o", drv])
            # biggest translation unit first
            jobs.sort(key=lambda j: 0 if j[-3].endswith("parser.c") else 1)
            with ThreadPoolExecutor(JOBS) as ex:
                for rc, cmd, out in ex.map(lambda j: _run_cc(j, d), jobs):
                    if rc:
                        raise HarnessError(f"compile failed: {cmd}\n{out[-3000:]}")
            links = [[cc, *flags.split(), drv, *objs, "-o", outs["driver"], *LIBS],
                     [cc, *flags.split(), os.path.join(d, "ohcount.o"), *objs, "-o", outs["cli"], *LIBS]]
            if variant == "plain":
                links.append([cc, *flags.split(), "-shared", *objs, "-o", outs["libohcount.so"], *LIBS])
            for j in links:
                rc, cmd, out = _run_cc(j, d)
                if rc:
                    raise HarnessError(f"link failed: {cmd}\n{out[-3000:]}")
            open(os.path.join(d, ".ok"), "w").close()
    os.utime(d)
    return outs


def build_ruby(variant="plain"):
    """The Ruby binding over the objects of `variant` (plain or asan): keyword arguments that make run_cases run harness/driver.rb."""
    outs = build(variant)
    d, tree = os.path.dirname(outs["driver"]), source_tree()
    cc, flags = VARIANTS[variant]
    so = os.path.join(d, "ruby", "ohcount.so")
    with open(os.path.join(BUILD, "lock-ruby-" + os.path.basename(d)), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(so):
            os.makedirs(os.path.dirname(so), exist_ok=True)
            wrap = os.path.join(d, "ohcount_wrap.c")
            inc = sh(["ruby", "-rrbconfig", "-e", 'print RbConfig::CONFIG["rubyhdrdir"], "\n", RbConfig::CONFIG["rubyarchhdrdir"]'], cwd=d).stdout.decode().split("\n")
            objs = [o for o in sorted(glob.glob(os.path.join(d, "*.o"))) if os.path.basename(o) not in ("driver_main.o", "ohcount.o", "ohcount_wrap.o")]
            for cmd in (["swig", "-ruby", "-o", wrap, "ruby/ohcount.i"],
                        [cc, *flags.split(), "-w", *(["-Wno-incompatible-function-pointer-types"] if cc == "clang" else []), "-fPIC", "-Iruby", *["-I" + i for i in inc], "-c", wrap, "-o", wrap[:-2] + ".o"],
                        [cc, *flags.split(), "-shared", wrap[:-2] + ".o", *objs, "-o", so + ".tmp", *LIBS]):
                rc, cmd, out = _run_cc(cmd, tree)
                if rc:
                    raise HarnessError(f"building the Ruby binding failed: {cmd}\n{out[-3000:]}")
            os.rename(so + ".tmp", so)
    env = {}
    if variant == "asan":
        rt = sh(["clang", "-print-file-name=libclang_rt.asan-x86_64.so"], cwd=d).stdout.decode().strip()
        env = dict(LD_PRELOAD=rt, ASAN_OPTIONS=SAN_ENV["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0").replace("detect_stack_use_after_return=1", "detect_stack_use_after_return=0")
                   + ":use_sigaltstack=0:handle_segv=0")
    else:
        env = dict(MALLOC_PERTURB_="85")
    return dict(exe=os.path.join(VERIF, "harness", "driver.rb"), prefix=("ruby", "-W0", "-I", os.path.dirname(so), "-I", os.path.join(tree, "ruby")), env=env, san=variant == "asan")


def bounded(cmd, timeout=40, limit=256 << 20, **kw):
    """Run a program that may loop or print without end: (exit status or "timeout", stdout, stderr)."""
    with tempfile.TemporaryFile(dir=_scratch_base()) as out, tempfile.TemporaryFile(dir=_scratch_base()) as err:
        try:
            rc = subprocess.run(["prlimit", f"--fsize={limit}", "--core=0", *cmd], stdin=subprocess.DEVNULL, stdout=out, stderr=err, timeout=timeout, **kw).returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        got = []
        for f in (out, err):
            f.seek(0)
            got.append(f.read(limit if rc == 0 else 1 << 20))
    return rc, *got


# ---------------------------------------------------------------------------------------------- cases


def b(x):
    return x if isinstance(x, bytes) else str(x).encode("latin-1")


class Case:
    """One scripted history: a list of (op, args...) plus whatever the oracle wants to remember."""

    __slots__ = ("ops", "meta")

    def __init__(self, ops, **meta):
        self.ops, self.meta = ops, meta

    def script(self):
        out = [b"CASE 0\n"]
        for op, *args in self.ops:
            out.append(b"%s %d\n" % (op.encode(), len(args)))
            for a in args:
                a = b(a)
                out.append(b"%d\n%s\n" % (len(a), a))
        return b"".join(out)

    def to_json(self):
        return {"ops": [[op, *[b(a).decode("latin-1") for a in args]] for op, *args in self.ops],
                "meta": {k: v for k, v in self.meta.items() if isinstance(v, (str, int, float, list, dict, bool, type(None)))}}


class Crash:
    def __init__(self, kind, site, report, rc):
        self.kind, self.site, self.report, self.rc = kind, site, report, rc

    @property
    def key(self):
        return f"{self.kind} at {self.site}"


_frame = re.compile(r"#(\d+) 0x[0-9a-f]+ in (\S+)(?: \([^)]*\))?(?: (\S+?))?(?::(\d+))?(?::\d+)?(?: |$|\n)")


def parse_report(text):
    """(kind, site) of a sanitizer report. site = innermost function of the code under test."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m:
        kind = m[1]
        a = re.search(r"\b(READ|WRITE) of size", text)
        if a:
            kind += "-" + a[1].lower()
    m = re.search(r"runtime error: (.*)", text)
    if not kind and m:
        kind = "ub-" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m[1])[:60].strip().replace(" ", "_")
    m = re.search(r"WARNING: MemorySanitizer: ([\w-]+)", text)
    if not kind and m:
        kind = m[1]
    m = re.search(r"== (Conditional jump|Use of uninitialised value|Invalid read|Invalid write|Invalid free|Syscall param)", text)
    if not kind and m:
        kind = "memcheck-" + m[1].lower().replace(" ", "-")
    m = re.search(r"ERROR: LeakSanitizer", text)
    if not kind and m:
        kind = "leak"
    site = None
    for line in text.splitlines():
        m = re.match(r"\s*#\d+ 0x[0-9a-f]+ in (\S+)(.*)", line)
        if m:
            loc = m[2]
            if "/.build/" in loc and "(/" not in loc:
                site = m[1]
                break
    return kind or "abort", site or "unknown"


class Skipped:
    """Not executed, because this run already had enough crashes or hangs to report."""
    kind = "skipped"


MAX_CRASHES = 24


def run_cases(exe, cases, jobs=JOBS, timeout=90, workdir=None, env=None, per_proc=400, san=True, prefix=(), cwd=None, uid=None):
    """Execute the cases; returns a list of results: list of op records, a Crash, or Skipped, one per case."""
    n = len(cases)
    results = [None] * n
    own = workdir is None
    wd = workdir or tempfile.mkdtemp(prefix="vp_", dir=_scratch_base())
    e = dict(ENV)
    if san:
        e.update(SAN_ENV)
    else:
        e.update(MALLOC_PERTURB_="165")  # glibc fills new and freed blocks: what is read from them shows
    if env:
        e.update(env)
    if n < per_proc * jobs:
        per_proc = max(1, (n + jobs - 1) // jobs)
    chunks = [list(range(i, min(n, i + per_proc))) for i in range(0, n, per_proc)]
    state = {"crashes": 0, "hung": 0}
    who = {} if uid is None else dict(user=uid, group=uid, extra_groups=[])
    if uid is not None:
        os.chmod(wd, 0o777)
    tag = f"{threading.get_ident()}_{next(_serial)}"

    def execute(idx, sf, of, skip, limit):
        """Run the script from case `skip` on; fills results; returns (index reached, ended, rc, stderr)."""
        if os.path.exists(of):
            os.unlink(of)
        try:
            r = subprocess.run([*prefix, exe, sf, of, str(skip)], cwd=cwd or wd, env=e, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, **who)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired as t:
            rc, err = "timeout", (t.stderr or b"")
        if rc in (98, 99):
            raise HarnessError(f"driver error: {err[-500:]!r}")
        cur, ended = None, False
        if os.path.exists(of):
            with open(of, "rb") as f:
                data = f.read()
            os.unlink(of)
            if len(data) > 200 << 20:   # runaway output, ended by the limit: all that matters is whose it is
                cur = json.loads(data[data.rindex(b'{"case"'):][:40].split(b"\n")[0])["case"]
                results[idx[cur]] = []
                data = b""
            for line in data.split(b"\n"):
                if not line:
                    continue
                try:
                    o = json.loads(line)
                except ValueError:
                    continue  # torn last record of a crashed process
                if "case" in o:
                    cur = o["case"]
                    results[idx[cur]] = []
                elif "end" in o:
                    ended = True
                elif cur is not None:
                    results[idx[cur]].append(o)
        if cur is None and not ended:
            raise HarnessError(f"driver did not start: rc={rc} {err[-800:]!r}")
        return cur, ended, rc, err.decode(errors="replace")

    def work(ci):
        idx = chunks[ci]
        sf = os.path.join(wd, f"s{tag}_{ci}.txt")
        of = os.path.join(wd, f"o{tag}_{ci}.txt")

        def rest(k):
            for i in idx[k:]:
                if not isinstance(results[i], Crash):
                    results[i] = Skipped()

        try:
            if state["crashes"] > MAX_CRASHES or state["hung"]:
                return rest(0)
            with open(sf, "wb") as f:
                for i in idx:
                    f.write(cases[i].script())
            skip = 0
            while skip < len(idx):
                if state["crashes"] > MAX_CRASHES or state["hung"]:
                    return rest(skip)
                cur, ended, rc, text = execute(idx, sf, of, skip, timeout)
                if ended and rc == 0:
                    return
                if rc == "timeout":  # once more, alone, before calling it a hang
                    one = [idx[cur]]
                    with open(sf + ".1", "wb") as f:
                        f.write(cases[idx[cur]].script())
                    _, ended, rc, text = execute(one, sf + ".1", of, 0, timeout)
                    os.unlink(sf + ".1")
                    if ended and rc == 0:
                        skip = cur + 1
                        continue
                if ended:
                    cur = len(idx) - 1
                if rc == "timeout":
                    results[idx[cur]] = Crash("hang", "timeout", text, rc)
                    state["hung"] += 1
                else:
                    kind, site = parse_report(text)
                    if kind == "abort" and isinstance(rc, int) and rc < 0:
                        kind = f"signal{-rc}"
                    elif kind == "abort":
                        kind = f"exit{rc}"
                    results[idx[cur]] = Crash(kind, site, text, rc)
                    state["crashes"] += 1
                skip = cur + 1
        finally:
            for f in (sf, of):
                if os.path.exists(f):
                    os.unlink(f)

    try:
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(work, range(len(chunks))))
    finally:
        if own:
            shutil.rmtree(wd, ignore_errors=True)
    return results


_serial = itertools.count()
_sb = []


def _scratch_base():
    """A scratch directory of this run, removed at exit."""
    if not _sb:
        import atexit
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        d = tempfile.mkdtemp(prefix="vp_run_", dir=base)
        os.chmod(d, 0o755)
        _sb.append(d)
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    return _sb[0]


def scratch(name="w"):
    return tempfile.mkdtemp(prefix=name + "_", dir=_scratch_base())
