#!/usr/bin/env python3
"""checks/run.py <property id>: decide one property on /repo's current working tree."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(os.path.dirname(HERE), "lib"), HERE]

import check  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    sys.path.insert(0, HERE)
    try:
        mod = importlib.import_module(pid.lower())
    except ImportError as e:
        print(f"no check for {pid}: {e}", file=sys.stderr)
        sys.exit(3)
    check.main(pid, mod.RULE, mod.run)
