#!/usr/bin/env python3
"""tools/mkbug.py SPEC.py: SPEC defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=str, files={name: text})]; writes seeded/<id>/."""
import json, os, runpy, shutil, subprocess, sys

def main(spec, only):
    for b in runpy.run_path(spec)["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = "/verif/seeded/" + b["id"]
        os.makedirs(d, exist_ok=True)
        t = f"/tmp/mkbug"
        shutil.rmtree(t, ignore_errors=True)
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
        os.makedirs(t)
        for f, old, new in b["edits"]:
            p = os.path.join(t, f)
            if not os.path.exists(p):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                shutil.copy("/repo/" + f, p)
            s = open(p, encoding="latin-1", newline="").read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w", encoding="latin-1", newline="").write(s.replace(old, new))
        diff = b""
        for f in dict.fromkeys(e[0] for e in b["edits"]):
            r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/repo/" + f, os.path.join(t, f)], stdout=subprocess.PIPE)
            diff += r.stdout
        open(d + "/patch.diff", "wb").write(diff)
        open(d + "/demo.sh", "w").write("#!/bin/bash\n" + b["demo"].lstrip("\n"))
        os.chmod(d + "/demo.sh", 0o755)
        for n, x in b.get("files", {}).items():
            open(os.path.join(d, n), "wb").write(x if isinstance(x, bytes) else x.encode())
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        shutil.rmtree(t)
        print(b["id"], len(diff))
main(sys.argv[1], sys.argv[2:])
