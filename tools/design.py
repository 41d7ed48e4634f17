"""Writes DESIGN.md from design_text.md, how.py, the areas, the planted bugs and the findings."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.how import FALSE, HOW, MISSED, OPEN  # noqa: E402
from tools.meta import META, NA  # noqa: E402
from vf.props import PROPS  # noqa: E402

out = open(os.path.join(HERE, "tools/design_text.md")).read()
props = []
for m in META:
    a = PROPS[m["id"]]
    props.append(f"**{m['id']} — {m['title']}.**  Area `{', '.join(a['areas'])}`.  " + " ".join(HOW[m["id"]].split())
                 + ("  *Assumed:* " + "; ".join(a["assumptions"]) + "." if a["assumptions"] else ""))
for m in NA:
    props.append(f"**{m['id']} — {m['title']}.**  Not applicable: {m['reason']}")
rows = ["| property | models (quick / thorough) | what is enumerated |", "|---|---|---|"]
for m in META:
    for an in PROPS[m["id"]]["areas"]:
        area = importlib.import_module("vf.areas." + an)
        q, t = area.models("quick", m["id"]), area.models("thorough", m["id"])
        for i, x in enumerate(t):
            qq = q[i] if i < len(q) else None
            k = lambda y: "" if y is None else " ".join(f"{a}={b}" for a, b in (y.get("consts") or {}).items())
            rows.append(f"| {m['id']} | {x['module']} ({k(qq)} / {k(x)}) | {x.get('what', '')} |")
fnd = json.load(open(os.path.join(HERE, "known_findings.json")))
miss = {i.strip() for k, _ in MISSED for i in k.split(",")}
seeds = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    d = json.load(open(os.path.join(HERE, "seeded", s, "meta.json")))
    by = "not caught" if s in dict(OPEN) else d["property"] + (" (strengthened)" if s in miss else "")
    seeds.append(f"| {s} | {d['what_it_breaks']} | {d['needs']} | {by} |")
rep = {"PROPERTIES": "\n\n".join(props), "CHECKS": "\n".join(rows), "FIXED": "\n".join("* " + x[7:] for x in fnd["fixed"]),
       "FINDINGS": "\n".join(f"* {x['property']}: {x['what']}" for x in fnd["findings"]), "FALSE": "\n".join("* " + x for x in FALSE),
       "SEEDS": "\n".join(seeds), "MISSED": "\n".join(f"* {k}: {v}" for k, v in MISSED),
       "OPEN": "\n".join(f"* {k}: {v}" for k, v in OPEN)}
for k, v in rep.items():
    out = out.replace("{{" + k + "}}", v)
open(os.path.join(HERE, "DESIGN.md"), "w").write(out)
