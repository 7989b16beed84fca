#!/usr/bin/env python3
"""rewrites MANIFEST.json from properties.jsonl and the registered checks"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = {"version": 1,
       "setup_cmd": "python3 tools/setup.py",
       "checks": [], "not_applicable": [],
       "notes": "TLA+ specifications in spec/, Go driver in harness/ (built against /repo's working tree), run.py runs TLC and the driver. No hooks in /repo."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        out["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                              "technique": "TLA+ specification checked with TLC; " + checks.TECHNIQUE[i],
                              "level": "model_checking", "level_note": checks.NOTE[i]})
    else:
        out["not_applicable"].append({"property": i, "reason": "the check of this property is being built"})
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not claimed")
