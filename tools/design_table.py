#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
from pathlib import Path

R = Path(__file__).resolve().parent.parent
by: dict = {}
for d in sorted((R / "seeded").iterdir()):
    by.setdefault(json.loads((d / "meta.json").read_text())["property"], []).append(d.name.split("-", 1)[1])
out = ["| caught by | planted bugs |", "|---|---|"]
out += [f"| {k} | {', '.join(v)} |" for k, v in sorted(by.items())]
p = R / "DESIGN.md"
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
s = p.read_text()
i, j = s.index(a) + len(a), s.index(b)
p.write_text(s[:i] + "\n".join(out) + "\n" + s[j:])
print(sum(map(len, by.values())))
