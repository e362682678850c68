"""Regenerate DESIGN.md from design.txt, specs.py, the checks' scenarios, known-findings.txt and seeded/.

Run as: PYTHONPATH=/repo/src /opt/venv/bin/python mkdesign.py
"""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ["MPLBACKEND"] = "Agg"


def main():
    notes = {}
    parts = re.split(r"^@@ (\S+)\n", open(os.path.join(HERE, "design.txt")).read(), flags=re.M)
    for k, v in zip(parts[1::2], parts[2::2]):
        notes[k] = v.strip()
    props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
    manifest = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    level = {c["property"] if "property" in c else c.get("id"): c for c in manifest["checks"]}
    fixes, known = {}, {}
    for line in open(os.path.join(HERE, "known-findings.txt")):
        m = re.match(r"(fixed|known): property=(\S+) (.*)", line)
        if m:
            (fixes if m.group(1) == "fixed" else known).setdefault(m.group(2), []).append(m.group(3))
    seeded = {}
    root = os.path.join(HERE, "seeded")
    for d in sorted(os.listdir(root)):
        meta = json.load(open(os.path.join(root, d, "meta.json")))
        seeded.setdefault(meta["property"], []).append((d, meta))
    out = [notes["intro"], ""]
    for p in props:
        pid = p["id"]
        check = importlib.import_module("mc.checks." + pid.lower()).CHECK
        out += ["### %s  %s" % (pid, p["title"]), "", p["statement"], ""]
        out += ["Level: `%s`. Explored by `mc/checks/%s.py`:" % (check.level, pid.lower()), ""]
        for sc in check.scenarios:
            out.append("* **%s**: %s." % (sc.name, (sc.doc or (sc.run.__doc__ or "see the code").strip().split("\n")[0]).rstrip(".")))
        out += ["", "Oracle: %s." % check.rule.rstrip("."), ""]
        if pid in notes:
            out += [notes[pid], ""]
        if pid in seeded:
            out += ["Planted: " + "; ".join("`%s` (%s)" % (d, str(m["needs"]).rstrip(".")) for d, m in seeded[pid]) + ".", ""]
        if pid in known:
            out += ["Known findings: " + "; ".join(known[pid]) + ".", ""]
        if pid in fixes:
            out += ["Defects found by it and repaired: " + "; ".join(f.split(" ", 1)[1] + " (" + f.split(" ", 1)[0] + ")" for f in fixes[pid]) + ".", ""]
    out += [notes["end"], ""]
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))


main()
