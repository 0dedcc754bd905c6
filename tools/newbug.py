#!/usr/bin/env python3
"""newbug.py SPEC.py: writes /verif/seeded/<id>/ from a small spec."""
import json, os, runpy, shutil, subprocess, sys
for spec in sys.argv[1:]:
    S = runpy.run_path(spec)
    for id, b in S["BUGS"].items():
        d = "/verif/seeded/" + id
        os.makedirs(d, exist_ok=True)
        w = "/tmp/newbug"
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(["git", "worktree", "prune"], cwd="/repo")
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=w)
        for f, old, new in b["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True,
                              text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        shutil.rmtree(w)
        json.dump({"property": b["property"], "needs": b["needs"],
                   "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        open(d + "/demo.sh", "w").write(
            '#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\n'
            'PYTHONPATH="$d" exec python3 -B "$d/demo.py"\n')
        shutil.copy("/verif/tools/mini.py", d + "/mini.py")
        open(d + "/demo.py", "w").write("from mini import *\n" + b["demo"])
