"""What every check shares: counters of what was observed, violations, known findings, replay files, evidence."""
import hashlib
import json
import os
import random
import re
import sys
import time
import traceback

import vlib
from vlib import SEED, TIER, VERIF, Crash, HarnessError

KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")


def known_findings(pid):
    """[(pattern, text)]: a finding is 'property=<id> key=<exact key> :: <what fails>'."""
    out = []
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE, encoding="utf-8"):
            line = line.strip()
            m = re.match(r"property=(\S+) key=(.*?) :: (.*)$", line)
            if m and m[1] == pid:
                out.append((m[2], m[3]))
    return out


class Check:
    def __init__(self, pid, rule):
        self.pid, self.rule = pid, rule
        self.t0 = time.time()
        self.evaluations = 0
        self._distinct = set()
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.viol = {}            # key -> (detail, replay dict, size)
        self.seen_known = {}
        self.known = known_findings(pid)
        self.inconclusive = []
        self.need = []            # (name, minimum)
        self.tier, self.seed = TIER, SEED

    # -- workload
    def rng(self, *parts):
        return random.Random("/".join(map(str, (self.pid, SEED) + parts)))

    def n(self, quick, thorough=None):
        return quick if TIER == "quick" else (thorough if thorough is not None else quick * 8)

    # -- observation
    def saw(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def evaluated(self, ident=None, nontrivial=True):
        """One evaluation of the oracle on an observed execution."""
        self.evaluations += 1
        if nontrivial and ident is not None:
            if not isinstance(ident, bytes):
                ident = repr(ident).encode("utf-8", "surrogatepass")
            self._distinct.add(hashlib.blake2b(ident, digest_size=8).digest())

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def require(self, name, minimum):
        """The monitor has to have observed at least this many; otherwise the run says nothing."""
        self.need.append((name, minimum))

    # -- verdict
    def violation(self, key, detail, replay=None, size=None):
        for k, text in self.known:
            if k == key:
                self.seen_known.setdefault(k, text)
                return
        size = len(json.dumps(replay, default=str)) if size is None and replay is not None else (size or 0)
        old = self.viol.get(key)
        if old is None or size < old[2]:
            self.viol[key] = (detail, replay, size)

    def crash(self, c, case, what=""):
        """A crash is a violation of whatever property was being exercised."""
        self.violation(f"crash {c.kind} at {c.site}{(' in ' + what) if what else ''}",
                       f"{c.kind} at {c.site}: {c.report[-3000:]}", case.to_json() if case is not None else None)

    def finish(self):
        wall = time.time() - self.t0
        if os.environ.get("VP_MARGIN"):
            print("MARGIN", self.pid, [(n, m, self.counts.get(n, 0)) for n, m in self.need if self.counts.get(n, 0) < 1.6 * m])
        starved = [(n, m, self.counts.get(n, 0)) for n, m in self.need if self.counts.get(n, 0) < m]
        ev = {
            "property": self.pid, "tier": TIER, "seed": SEED, "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations, "distinct_nontrivial": len(self._distinct), "rule": self.rule,
                "samples": self.samples or ["(none)"], "observed": dict(sorted(self.counts.items())),
                "inconclusive": self.inconclusive[:20],
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": [{"key": k, "detail": v[0][:600]} for k, v in list(self.viol.items())[:50]],
            "known_findings": sorted(self.seen_known),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, text in self.known:
            if k in self.seen_known:
                print(f"KNOWN-FINDING: property={self.pid} {text}")
        if self.viol:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            for i, (k, (detail, replay, _)) in enumerate(sorted(self.viol.items(), key=lambda x: x[1][2])[:12]):
                p = os.path.join(d, f"{self.pid}-{i}.json")
                with open(p, "w") as f:
                    json.dump({"property": self.pid, "key": k, "detail": detail, "seed": SEED, "tier": TIER, "replay": replay}, f,
                              indent=1, default=str)
                print(f"VIOLATION property={self.pid} replay={p}")
                print(f"  {k}: {detail[:500]}")
            print(f"{self.pid}: {len(self.viol)} kinds of violation")
            return 1
        if starved:
            raise HarnessError(f"observed too little: {starved}")
        if not self.evaluations:
            raise HarnessError("nothing was evaluated")
        print(f"{self.pid}: held on {self.evaluations} evaluations ({len(self._distinct)} distinct) in {wall:.0f}s; "
              + " ".join(f"{k}={v}" for k, v in sorted(self.counts.items())[:14]))
        return 0


def main(pid, rule, body):
    try:
        ck = Check(pid, rule)
        body(ck)
        sys.stdout.flush()
        rc = ck.finish()
    except HarnessError as e:
        print(f"{pid}: harness error: {e}", file=sys.stderr)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 4
    sys.stdout.flush()
    sys.exit(rc)


def ops_of(res, op, which=0):
    """The which-th record of that operation."""
    k = 0
    for o in res:
        if o.get("op") == op:
            if k == which:
                return o
            k += 1
    raise HarnessError(f"no {op} record in {str(res)[:300]}")


def u(s):
    """A driver string as bytes."""
    return s.encode("latin-1") if s is not None else None


def show(b_, n=160):
    r = repr(bytes(b_))
    return r if len(r) <= n else r[:n] + f"...({len(b_)} bytes)"
