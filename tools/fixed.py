"""fixed.py PROPERTY COMMIT WHAT: record a repaired defect in known_findings.json."""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
prop, commit, what = sys.argv[1:]
d["findings"].append({"property": prop, "status": "fixed", "what": f"fixed: property={prop} {commit} {what}"})
json.dump(d, open(p, "w"), indent=1)
