#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path[:0] = [str(ROOT), str(ROOT / "meta")]
from checks import CHECKS  # noqa: E402
from props import PROPS  # noqa: E402

with open(ROOT / "properties.jsonl", "w") as f:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }, ensure_ascii=False) + "\n")
checks, na = [], []
for p in sorted(PROPS, key=lambda p: p["id"]):
    if p["id"] in CHECKS:
        units = ", ".join(u["harness"] + ":" + u["prop"] for u in CHECKS[p["id"]]["units"])
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 run.py {p['id']} quick",
            "thorough_cmd": f"python3 run.py {p['id']} thorough",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"] or f"Generated cases only ({units}); sizes are bounded as DESIGN.md states; no claim beyond what was explored.",
        })
    else:
        na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
man = {"version": 1, "setup_cmd": "python3 run.py build", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: the harnesses use the public headers. Known findings and repaired defects are in known_findings.json."}
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1, ensure_ascii=False) + "\n")
assert set(CHECKS) <= {p["id"] for p in PROPS}
