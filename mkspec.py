"""Write properties.jsonl and MANIFEST.json from specs.py."""
import json
import os

from specs import ALL

HERE = os.path.dirname(os.path.abspath(__file__))
props, checks, na = [], [], []
for p, na_reason, c in ALL:
    props.append(p)
    if na_reason:
        na.append({"property": p["id"], "reason": na_reason})
        continue
    checks.append(
        {
            "property": p["id"],
            "quick_cmd": "/opt/venv/bin/python check.py %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python check.py %s" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": c["technique"],
            "level": c["level"],
            "level_note": c["level_note"],
        }
    )
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '/repo/src'); import diffpy.srmise, numpy, scipy\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every check drives the public Python interface of the working tree under /repo/src. "
    "The checks are pure Python, use all 8 cores, and contain no randomness. See DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(props), "properties,", len(checks), "checks")
