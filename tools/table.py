"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
from pathlib import Path

V = Path(__file__).resolve().parents[1]
p = V / "DESIGN.md"
s = p.read_text()
head = "| seed | caught by | what breaks | needs |\n|---|---|---|---|\n"
a, b = s.split(head)
rows = ""
for d in sorted(V.glob("seeded/*/meta.json")):
    m = json.loads(d.read_text())
    rows += f"| {d.parent.name} | {m['property']} | {m['what_it_breaks'].replace('|', '/')} | {m['needs'].replace('|', '/')} |\n"
p.write_text(a + head + rows + "\n" + b.split("\n\n", 1)[1])
