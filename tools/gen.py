#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.props import PROPS, EXTRA, NOT_APPLICABLE  # noqa: E402

lines, checks, na = [], [], []
for p in sorted(PROPS + [e + ("",) for e in EXTRA]):
    pid, title, st, over, text, why, files, mech, tech = p
    assert len(title) <= 80, title
    lines.append({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}})
    mod = os.path.join(HERE, "analyzer", "props", pid.lower() + ".py")
    if os.path.exists(mod):
        src = open(mod).read()
        level = "proof"
        for ln in src.splitlines():
            if ln.startswith("LEVEL = "):
                level = ln.split('"')[1]
        note = src.split('"""')[1].strip().replace("\n", " ")
        note = note.split(": ", 1)[1]
        checks.append({"property": pid, "quick_cmd": "python3 check.py %s quick" % pid, "thorough_cmd": "python3 check.py %s thorough" % pid,
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, "no check built yet")})
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in lines:
        f.write(json.dumps(x) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
