"""Fills the lists of DESIGN.md between its markers (run: python3 tools/gen_design.py)."""
import json, os, re, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(ROOT, "DESIGN.md")
s = open(f).read()
k = json.load(open(os.path.join(ROOT, "known_findings.json")))
fix = "\n".join("- " + re.sub(r"^fixed: property=(\S+) (\S+) ", r"\1 (`\2`): ", x["text"]) for x in k if x["status"] == "fixed")
opn = "\n".join("- %s, harness `%s`: %s" % (x["property"], x["harness"], x["what"]) for x in k if x["status"] != "fixed")
rows = []
for m in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["what_it_breaks"]))
tab = "\n| bug | caught by | what it breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n"
for name, text in (("FIXLIST", fix), ("OPENLIST", opn), ("SEEDTABLE", tab)):
    b, e = "<!-- %s -->" % name, "<!-- end %s -->" % name
    if b not in s:
        s = s.replace("\n%s\n" % name, "\n%s\n%s\n" % (b, e))
    s = re.sub(re.escape(b) + r".*?" + re.escape(e), lambda _: b + "\n" + text + "\n" + e, s, flags=re.S)
open(f, "w").write(s)
