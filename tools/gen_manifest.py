"""Regenerates MANIFEST.json from the checks present (run: python3 tools/gen_manifest.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/veriftools/pyvenv/bin/python -B -m symex.run"
TECH = {"default": "symbolic execution of the Python sources (path exploration, z3), solver-decided assertions, counterexample replay"}
TECH["C25"] = TECH["C26"] = "symbolic execution of the C++ extension's LLVM IR and of the Python sources (path exploration, z3), solver-decided assertions, counterexample replay"
NOTE = {"default": "Bounded: every path of each harness within its stated bounds, decided by z3 over exact reals/integers; "
                   "trusts the symbolic numpy/struct stand-ins (validated by running path witnesses on the real package) and the real-arithmetic idealisation of floats."}
NA = {
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")) and i not in NA:
        checks.append({"property": i, "quick_cmd": "%s %s --tier quick" % (PY, i), "thorough_cmd": "%s %s --tier thorough" % (PY, i),
                       "technique": TECH.get(i, TECH["default"]), "level": "model_checking", "level_note": NOTE.get(i, NOTE["default"])})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "/opt/veriftools/pyvenv/bin/python -B -c \"import z3, numpy\"", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
