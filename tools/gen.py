"""Writes properties.jsonl and MANIFEST.json from tools/props.py (kept in step by construction)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import NOT_APPLICABLE, PROPS  # noqa: E402

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE:
        continue
    cmd = f"python3-vt -B -W ignore checks/{p['id']}.py"
    checks.append({
        "property": p["id"],
        "quick_cmd": cmd + " quick",
        "thorough_cmd": cmd + " thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"],
        "level": "model_checking",
        "level_note": p["level_note"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3-vt -B -W ignore -c \"from mc import env; import metalift.ir\"",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
    "notes": "No hooks in /repo: the checks drive the modules through their public surface and replace only process "
             "start and mypy's build entry point by stand-ins (validated against the real ones).",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
