#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.dont_write_bytecode = True
sys.path.insert(0, str(V / "tools"))
from props import NOTE, PROPS, TECH  # noqa: E402

with open(V / "properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"],
                                             mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                             observe_at=p["obs"], hook_needed=None))) + "\n")
        assert len(p["title"]) <= 80, p["title"]
checks, na = [], []
for p in PROPS:
    if (V / "checks" / f"{p['id'].lower()}.py").exists():
        checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']} quick",
                           thorough_cmd=f"./check {p['id']} thorough", technique=TECH.format(p["spec"]),
                           level="model_checking", level_note=NOTE.format(p["spec"]) + p.get("note", "")))
    else:
        na.append(dict(property=p["id"], reason=p.get("reason", "its check is not built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every abstract state is observable through the public API.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(PROPS), "properties,", len(checks), "claimed")
