#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, checks, na = [], [], []
for p in PROPS:
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p.get("state"): a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
    a["observe_at"] = p["observe"]; a["hook_needed"] = None
    assert len(p["title"]) <= 80, p["id"]
    out.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a})
    if os.path.exists(f"{root}/checks/{p['id']}.json"):
        checks.append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p.get("technique", "symbolic execution of the repository's Go SSA with SMT (z3) and partial-order-reduced scheduling; native replay of counterexamples"),
            "level": "model_checking", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check yet")})
open(f"{root}/properties.jsonl", "w").write("".join(json.dumps(o) + "\n" for o in out))
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses and instrumentation shims enter through build overlays generated on each run. See DESIGN.md."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1); open(f"{root}/MANIFEST.json", "a").write("\n")
print(len(out), "properties,", len(checks), "claimed,", "NA:", [x["property"] for x in na])
