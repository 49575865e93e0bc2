#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py, so the two never drift apart."""

import json
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent
VERIF = HERE.parent
sys.path.insert(0, str(HERE))
from fixed import FIXED  # noqa: E402
from props import PROPS  # noqa: E402

lines, checks, na = [], [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    lines.append(
        json.dumps(
            {
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["for_all"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                },
            },
            ensure_ascii=False,
        )
    )
    if (VERIF / "checks" / f"{p['id'].lower()}.py").exists():
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": f"./run_check.py {p['id']} --tier quick",
                "thorough_cmd": f"./run_check.py {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"],
                "level": p.get("level", "exploration"),
                "level_note": p["note"],
            }
        )
    else:
        na.append({"property": p["id"], "reason": p.get("na", "The check of this property is not built yet.")})
(VERIF / "properties.jsonl").write_text("\n".join(lines) + "\n", encoding="utf-8")
(VERIF / "MANIFEST.json").write_text(
    json.dumps(
        {
            "version": 1,
            "setup_cmd": "true",
            "checks": checks,
            "not_applicable": na,
            "notes": "Checks import /repo's working tree directly; there is nothing to build. See DESIGN.md.",
        },
        indent=1,
    )
    + "\n",
    encoding="utf-8",
)
kf_path = VERIF / "known_findings.json"
kf = json.loads(kf_path.read_text(encoding="utf-8"))
kf["fixed"] = [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]
kf_path.write_text(json.dumps(kf, indent=1, ensure_ascii=False) + "\n", encoding="utf-8")
print(len(lines), "properties,", len(checks), "claimed")
