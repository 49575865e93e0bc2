#!/usr/bin/env python3
"""Rewrites the list of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
MISSED = {"b24-local": "missed at first: no module of the project had such a name", "b30-stem": "missed at first: no test had a dot in its name"}
MISSED |= json.loads((V / "tools/missed.json").read_text()) if (V / "tools/missed.json").exists() else {}
t = (V / "DESIGN.md").read_text()
head = t[: t.index("All are caught by the check of their property:")] + "All are caught by the check of their property:\n"
for d in sorted(V.glob("seeded/*/")):
    m = json.loads((d / "meta.json").read_text())
    head += f"* `{d.name}` ({m['property']}): {m['what_it_breaks']}" + (f" *({MISSED[d.name]})*" if d.name in MISSED else "") + "\n"
(V / "DESIGN.md").write_text(head)
