"""Reduce a failing document, for the report only."""
import vlib
from vlib import Case, Crash, Skipped


def shrink(exe, d, mk, bad, rounds=60):
    for _ in range(rounds):
        cand = []
        for w in (256, 64, 16, 8, 4, 2, 1):
            if w < len(d):
                step = max(1, w // 2) if len(d) < 400 else w
                cand += [d[:i] + d[i + w:] for i in range(0, len(d) - w + 1, step)]
            if len(cand) > 1500:
                break
        if not cand:
            return d
        res = vlib.run_cases(exe, [Case(mk(x)) for x in cand], san=False)
        good = [x for x, o in zip(cand, res) if not isinstance(o, (Crash, Skipped)) and bad(o, x)]
        if not good:
            return d
        d = min(good, key=len)
    return d
