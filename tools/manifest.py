#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and the table below."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props

# property -> (technique, level, level_note)
CLAIMS = {}
def claim(id, technique, note, level="model_checking"):
    CLAIMS[id] = (technique, level, note)

exec(open(os.path.join(HERE, "claims.py")).read())

NOT_APPLICABLE = globals().get("NOT_APPLICABLE", {})

def main():
    root = os.path.dirname(HERE)
    keep = [p for p in props.PROPS if p["id"] in CLAIMS or p["id"] in NOT_APPLICABLE]
    missing = [p["id"] for p in props.PROPS if p not in keep]
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in keep:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in keep:
        if p["id"] not in CLAIMS:
            continue
        tech, level, note = CLAIMS[p["id"]]
        checks.append({"property": p["id"],
                       "quick_cmd": "python3 bin/check.py %s" % p["id"],
                       "thorough_cmd": "python3 bin/check.py %s" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": tech, "level": level, "level_note": note})
    m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
         "hooks": {"guard": HOOKS["guard"], "enable": HOOKS["enable"], "source_commits": HOOKS["commits"]},
         "checks": checks,
         "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
         "notes": "TLA+ specifications in spec/, judged with TLC; Rust drivers in harness/ link /repo's crates by path. See DESIGN.md."}
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print("claimed", len(checks), "not yet built:", missing)

main()
