"""Regenerates BOUNDS.md, the list of harnesses with their bounds (run: python3-vt tools/gen_bounds.py)."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from symex import ctx
out = ["# Harnesses and their bounds", "",
       "Generated from the checks by tools/gen_bounds.py. Each line is one harness: what is symbolic, what is a configuration, and what is asserted of it; "
       "`q+t` is the number of configurations in the quick tier and of further ones in the thorough tier. Inputs named there range over the whole stated interval at once "
       "(solver variables); configurations are decided one by one.", ""]
for p in [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]:
    i = p["id"]
    mod = importlib.import_module("checks." + i.lower())
    out += ["## %s %s" % (i, p["title"]), ""]
    for h in ctx.HARNESSES[i].values():
        out.append("- `%s` (%d+%d): %s" % (h.name, 0 if h.tier == "thorough" else len(h.configs), len(h.thorough) + (len(h.configs) if h.tier == "thorough" else 0), h.bounds))
    a = getattr(mod, "ASSUMPTIONS", [])
    if a:
        out.append("- assumed: " + "; ".join(a))
    out.append("")
open(os.path.join(ROOT, "BOUNDS.md"), "w").write("\n".join(out))
