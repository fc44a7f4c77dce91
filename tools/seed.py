#!/usr/bin/env python3
"""Confirm planted bugs: tools/seed.py ID.. [--notests]   (works on /repo, undone afterwards)

For each seeded/<ID>: demo on the clean tree (0), patch, build, demo (not 0), stable tests
(all pass), the property's check (1 and a VIOLATION line), undo."""
import json
import subprocess
import sys
import tempfile
from pathlib import Path

V = Path(__file__).resolve().parents[1]


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main(args):
    tests = "--notests" not in args
    base = set(json.loads(Path("/opt/vp/BASELINE.json").read_text())["stable"]) if tests else set()
    for sid in [a for a in args if not a.startswith("-")]:
        d = V / "seeded" / sid
        meta = json.loads((d / "meta.json").read_text())
        if sh("git -C /repo status --porcelain").stdout.strip():
            print("/repo is not clean")
            return 1
        r = dict(clean=sh(f"bash {d}/demo.sh", cwd="/repo").returncode)
        p = sh(f"git -C /repo apply {d}/patch.diff")
        if p.returncode:
            print(sid, "does not apply", p.stderr)
            continue
        try:
            r["build"] = sh("bash /opt/vp/build.sh").returncode
            q = sh(f"bash {d}/demo.sh", cwd="/repo")
            r["demo"] = q.returncode
            if tests:
                with tempfile.NamedTemporaryFile(suffix=".json") as f:
                    sh(f"bash /opt/vp/test.sh {f.name}")
                    res = json.loads(Path(f.name).read_text())
                    passed = set(res.get("passed", []))
                    r["tests"] = sorted(base - passed)[:5]
            c = sh(f"VERIF_SEED=1 {V}/check {meta['property']} quick", cwd=str(V))
            r["check"] = c.returncode
            r["line"] = [x[:160] for x in c.stdout.splitlines() if x.startswith(("  clause", "VIOLATION"))][:2]
            if c.returncode not in (0, 1):
                r["err"] = c.stderr[-500:]
        finally:
            sh("git -C /repo checkout -- .")
        ok = r["clean"] == 0 and r["build"] == 0 and r["demo"] and not r.get("tests") and r["check"] == 1
        print(sid, "OK" if ok else "NOT OK", json.dumps(r), flush=True)


main(sys.argv[1:])
