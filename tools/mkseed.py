#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines id, property, needs, what, edits [(file, old, new)], demo (python)."""
import json
import subprocess
import sys
from pathlib import Path

V = Path(__file__).resolve().parents[1]
for f in sys.argv[1:]:
    ns = {}
    exec(Path(f).read_text(), ns)
    for b in ns["bugs"]:
        d = V / "seeded" / b["id"]
        d.mkdir(parents=True, exist_ok=True)
        assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout.strip()
        for path, old, new in b["edits"]:
            p = Path("/repo") / path
            s = p.read_text()
            assert s.count(old) == 1, (b["id"], path, s.count(old), old)
            p.write_text(s.replace(old, new))
        (d / "patch.diff").write_text(subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout)
        subprocess.run("git -C /repo checkout -- .", shell=True)
        (d / "demo.py").write_text(b["demo"].lstrip("\n"))
        (d / "demo.sh").write_text('#!/bin/bash\nexport JAX_PLATFORMS=cpu\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        (d / "meta.json").write_text(json.dumps(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what"]), indent=1) + "\n")
        print(d)
