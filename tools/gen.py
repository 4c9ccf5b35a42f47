"""Write properties.jsonl and MANIFEST.json from tools/properties.py (run from /verif)."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
import re

import properties

NA = getattr(properties, "NOT_APPLICABLE", [])


def level(pid):
    f = [m for m in os.listdir(os.path.join(ROOT, "mc", "checks")) if m.startswith(pid.lower() + "_")][0]
    return re.search(r'^LEVEL = "(\w+)"', open(os.path.join(ROOT, "mc", "checks", f)).read(), re.M).group(1)


with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in sorted(properties.P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"])
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mechanism"]}}) + "\n")
claimed = [p for p in sorted(properties.P, key=lambda p: p["id"]) if p["id"] not in dict(NA)]
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c \"import mc.core\"",
     "checks": [{"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
                 "technique": p["technique"], "level": level(p["id"]), "level_note": p["note"]} for p in claimed],
     "not_applicable": [{"property": a, "reason": b} for a, b in NA],
     "notes": "No hooks: /repo carries only fix: commits. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(claimed), "checks")


def const(pid, what):
    f = [m for m in os.listdir(os.path.join(ROOT, "mc", "checks")) if m.startswith(pid.lower() + "_")][0]
    import ast
    for node in ast.parse(open(os.path.join(ROOT, "mc", "checks", f)).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == what:
            return ast.literal_eval(node.value)
    return None


def read(name):
    p = os.path.join(ROOT, "tools", name)
    return open(p).read() if os.path.exists(p) else ""


out = [read("design_head.md"), "\n## Properties\n"]
for p in claimed:
    out.append("### {} {}\n\n{}\n".format(p["id"], p["title"], p["statement"]))
    out.append("* Decided by: {}.\n* Enumerated and compared: {}.\n* Bounds: {}\n* Why tests do not settle it: {}".format(
        p["technique"], const(p["id"], "RULE"), p["note"], p["why"]))
    for a in const(p["id"], "ASSUMPTIONS") or []:
        out.append("* Assumes: {}.".format(a))
    out.append("")
out.append("## Planted bugs\n")
caught = json.loads(read("caught.json") or "{}")
seeded = os.path.join(ROOT, "seeded")
for s in sorted(os.listdir(seeded)):
    if os.path.exists(os.path.join(seeded, s, "meta.json")):
        meta = json.load(open(os.path.join(seeded, s, "meta.json")))
        out.append("* `{}` ({}): {}. Needs {}. Caught by: {}.".format(s, meta["property"], meta["what_it_breaks"], meta["needs"], caught.get(s, "not recorded")))
out.append("")
out.append(read("design_tail.md"))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
