"""Make and confirm a planted bug: seed.py ID  (reads /verif/seeded/ID/edit.json? no: spec module given on stdin).

Spec (python literal on stdin): dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source).
"""
import ast, json, os, shutil, subprocess, sys

spec = ast.literal_eval(sys.stdin.read())
ID = spec["id"]
W = "/tmp/seedrepo-" + ID
subprocess.run(["rm", "-rf", W])
subprocess.run(["cp", "-a", "/repo", W], check=True)
d = "/verif/seeded/" + ID
os.makedirs(d, exist_ok=True)
for f, old, new in spec["edits"]:
    p = os.path.join(W, f)
    s = open(p, encoding="latin-1").read()
    n = s.count(old)
    if n != 1:
        sys.exit("%s: %d occurrences of %r" % (f, n, old))
    open(p, "w", encoding="latin-1").write(s.replace(old, new))
patch = subprocess.run(["git", "-C", W, "diff"], capture_output=True).stdout
open(d + "/patch.diff", "wb").write(patch)
open(d + "/demo.py", "w").write(spec["demo"].lstrip("\n"))
open(d + "/demo.sh", "w").write('#!/bin/bash\n# run in /repo\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
run = lambda cwd: subprocess.run(["bash", d + "/demo.sh"], cwd=cwd, capture_output=True, text=True, timeout=200)
a = run("/repo")
if any(f.endswith(".cpp") or f.endswith(".hpp") for f, _, _ in spec["edits"]):
    subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "setup.py", "-q", "build_ext", "--inplace", "--force"], cwd=W, check=True)
b = run(W)
t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--maxfail=0", "-n", "4", "tests"], cwd=W, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=W))
print(ID, "clean", a.returncode, "patched", b.returncode, "|", t.stdout.strip().splitlines()[-1])
if a.returncode:
    print(a.stdout[-1500:], a.stderr[-1500:])
if not b.returncode:
    print("NOT SHOWN", b.stdout[-500:])
else:
    print("   ", (b.stderr.strip() or b.stdout.strip()).splitlines()[-1][:300])
shutil.rmtree(W)
