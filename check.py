#!/opt/venv/bin/python
"""check.py PROPERTY [--replay FILE]: decide one property of /repo's working tree.

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=.. replay=..": broken.
Any other exit is a failure of the machinery.
"""

import collections
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core  # noqa: E402
from vf.props import PROPS  # noqa: E402


def main():
    pid = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = PROPS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"vf-{pid}-")
    try:
        return decide(pid, prop, tier, seed, scratch, t0, replay)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(pid, prop, tier, seed, scratch, t0, replay):
    with open(os.path.join(core.VERIF, "known_findings.json")) as f:
        known = [k for k in json.load(f)["findings"] if k["property"] == pid]
    known_keys = {(k["area"], k["case"]): k for k in known}
    found_known = {}
    violations = []
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0,
           "model_behaviours_replayed": 0, "random_histories": 0, "samples": [], "models": [], "classes": {}}
    evdir = os.path.join(core.VERIF, "evidence")
    rdir = os.path.join(evdir, "replay")
    os.makedirs(rdir, exist_ok=True)
    for area_name in prop["areas"]:
        area = importlib.import_module("vf.areas." + area_name)
        cases = []
        nmodel = 0
        if replay:
            with open(replay) as f:
                rp = json.load(f)
            if rp["area"] != area_name:
                continue
            cases = [rp["case"]]
        else:
            # 1. the specification itself: exhaustive within its constants, invariants in every state
            for m in area.models(tier, pid):
                r = core.model_check(m["module"], m["cfg"], scratch, extra=m.get("extra", ()), env=m.get("env"),
                                     workers=m.get("workers", 6), timeout=m.get("timeout", 800), heap=m.get("heap", "4g"), consts=m.get("consts"))
                docs = r.emitted
                cov["states"] += r.distinct or r.generated
                cov["transitions"] += r.generated
                cov["models"].append({"module": m["module"], "cfg": m["cfg"], "distinct": r.distinct, "generated": r.generated,
                                      "behaviours": len(docs), "wall_s": round(r.wall, 1), "what": m.get("what", "")})
                if m.get("min_behaviours", 0) > len(docs):
                    raise core.MachineryError(f"{m['module']}: only {len(docs)} behaviours emitted")
                # 2. its behaviours, to be replayed into the real code
                got = []
                for d in docs:
                    got += area.from_model(d, m, pid)
                lim = m.get("limit")
                if lim and len(got) > lim:
                    core.rng_for(seed, m["cfg"]).shuffle(got)
                    got = got[:lim]
                cases += got
                nmodel += len(got)
            # 3. histories of larger size, drawn at random
            rnd = area.gen(core.rng_for(seed, f"{pid}/{area_name}"), tier, pid)
            cov["random_histories"] += len(rnd)
            cov["model_behaviours_replayed"] += nmodel
            cases += rnd
        results = core.run_impl(area_name, cases, scratch, seed, timeout=getattr(area, "IMPL_TIMEOUT", 500))
        tr = area.TRACE
        mism, nev, st = core.conform(tr[0], tr[1], results, scratch)
        cov["events_validated"] += nev
        cov["traces_validated_against_impl"] += sum(1 for r in results if r and "events" in r)
        cov["states"] += st
        cov["transitions"] += st
        cl = collections.Counter()
        if hasattr(area, "classify"):
            for c, r in zip(cases, results):
                if r and "events" in r:
                    for t in area.classify(c, r["events"]):
                        cl[t] += 1
        for k, v in sorted(cl.items()):
            cov["classes"][f"{area_name}:{k}"] = v
        if not replay:
            want = getattr(area, "REQUIRED_CLASSES", {})
            want = want.get(pid, want.get("*", ())) if isinstance(want, dict) else want
            missing = [w for w in want if not cl.get(w)]
            if missing and not mism:
                raise core.MachineryError(f"{area_name}: no case exercised {missing}")
        for c, r in list(zip(cases, results))[:1] + list(zip(cases, results))[-2:]:
            s = json.dumps({"case": c, "events": (r or {}).get("events", [])[:2]})
            cov["samples"].append(json.loads(s) if len(s) < 3000 else {"case_prefix": json.dumps(c)[:1500]})
        mism = [m for m in mism if area.relevant(pid, cases[m.case_idx], m)] if hasattr(area, "relevant") else mism
        seen_cases = set()
        bad = []
        for m in mism:
            c = cases[m.case_idx]
            key = (area_name, c.get("probe"))
            if key in known_keys:
                found_known[key] = known_keys[key]
                continue
            if m.case_idx in seen_cases:
                continue
            seen_cases.add(m.case_idx)
            bad.append(m)
        bad.sort(key=lambda m: len(json.dumps(cases[m.case_idx])))
        for m in bad[:3]:
            c = cases[m.case_idx]
            path = os.path.join(rdir, f"{pid}-{area_name}-{len(violations)}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "area": area_name, "case": c, "event": m.event, "expected": m.expected,
                           "why": m.why, "result": results[m.case_idx],
                           "how": f"cd /verif && ./check.py {pid} --replay {path}"}, f, indent=1)
            violations.append((path, m, area_name))
        if len(bad) > 3:
            cov.setdefault("more_violations", 0)
            cov["more_violations"] += len(bad) - 3
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": prop["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    if not replay:
        with open(os.path.join(evdir, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k in known:
        if (k["area"], k["case"]) in found_known:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"{pid}: states={cov['states']} behaviours={cov['model_behaviours_replayed']} random={cov['random_histories']} "
          f"events={cov['events_validated']} violations={len(violations)} wall={time.time() - t0:.1f}s")
    for path, m, a in violations:
        print("  ", a, m.why, json.dumps(m.event)[:200], "\n    observed:", json.dumps(m.event.get("obs"))[:400],
              "\n    expected:", json.dumps(m.expected)[:400])
        print(f"VIOLATION property={pid} replay={path}")
    return 1 if violations else 0


if __name__ == "__main__":
    try:
        rc = main()
    except core.MachineryError as e:
        print("MACHINERY:", e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
