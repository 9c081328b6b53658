"""Records a repaired defect: python3 tools/record.py PROPERTY COMMIT TEXT."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(p))
pr, c, t = sys.argv[1:4]
k.append({"status": "fixed", "property": pr, "text": "fixed: property=%s %s %s" % (pr, c, t)})
json.dump(k, open(p, "w"), indent=1)
