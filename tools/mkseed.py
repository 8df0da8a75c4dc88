#!/usr/bin/env python3
"""mkseed.py <id>: write seeded/<id>/patch.diff from seeded/<id>/edit.py (a dict EDITS of file -> [(old, new)]),
using a scratch clone of /repo. edit.py is not committed."""
import os, subprocess, sys, shutil, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for sid in sys.argv[1:]:
    d = os.path.join(VERIF, "seeded", sid)
    ns = {}
    exec(open(os.path.join(VERIF, "work", "edits", sid + ".py")).read(), ns)
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", tmp + "/r"])
        for f, reps in ns["EDITS"].items():
            p = os.path.join(tmp, "r", f)
            t = open(p).read()
            for old, new in reps:
                assert t.count(old) == 1, (sid, f, t.count(old), old[:80])
                t = t.replace(old, new)
            open(p, "w").write(t)
        diff = subprocess.check_output(["git", "diff"], cwd=tmp + "/r", text=True)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        import json
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        print(sid, len(diff))
    finally:
        shutil.rmtree(tmp)
