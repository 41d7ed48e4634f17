"""Writes properties.jsonl and MANIFEST.json from the entries below (run after adding a property)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.meta import META, NA  # noqa: E402

checks = []
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for m in META + NA:
        assert len(m["title"]) <= 80, m["title"]
        f.write(json.dumps({
            "id": m["id"], "title": m["title"], "statement": m["statement"],
            "quantifier": {"over": m["over"], "text": m["forall"]},
            "why_tests_cant": m["tests"],
            "anchors": {"files": m["files"], "mechanism": [{"name": n, "where": w} for n, w in m["mech"]]},
        }) + "\n")
for m in META:
    checks.append({"property": m["id"], "quick_cmd": f"./check.py {m['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check.py {m['id']}",
                   "technique": "TLA+ specification model-checked with TLC; model behaviours and random histories replayed into the code and validated against the specification by TLC",
                   "level": "model_checking", "level_note": m["note"]})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "java -version && /opt/venv/bin/python -c 'import edk2toollib'", "checks": checks,
               "not_applicable": [{"property": m["id"], "reason": m["reason"]} for m in NA]}, f, indent=1)
    f.write("\n")
