"""python3-vt -m symex.run C09 [--harness NAME] [--config I] [-v]

Explores every harness of the property symbolically, replays witnesses and
counterexamples on the real package, writes evidence/<id>.json."""
from __future__ import annotations
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from .stub import CLIPPER_STUB

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GDSPY_REPO", "/repo")
PY = "/opt/venv/bin/python"
FIRST = "--first" in sys.argv
warnings.simplefilter("ignore")


# ------------------------------------------------------------------ real package


def build_real(dest, need_clipper):
    """Copy the working tree's package to dest; build (or stub) the extension."""
    pk = os.path.join(dest, "gdspy")
    os.makedirs(pk)
    src = os.path.join(REPO, "gdspy")
    for f in os.listdir(src):
        p = os.path.join(src, f)
        if os.path.isdir(p):
            if f not in ("__pycache__",):
                shutil.copytree(p, os.path.join(pk, f))
        elif f.endswith((".py", ".cpp", ".hpp")):
            shutil.copy(p, pk)
    if need_clipper:
        inc = subprocess.check_output([PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"], text=True).split()
        cmd = ["g++", "-O1", "-shared", "-fPIC", "-w", "-std=c++11", "-I" + inc[0], "-I" + pk, os.path.join(pk, "clipper.cpp"), "-o", os.path.join(pk, "clipper" + inc[1])]
        subprocess.run(cmd, check=True)
    else:
        with open(os.path.join(pk, "clipper.py"), "w") as f:
            f.write(CLIPPER_STUB)
    # tkinter-dependent viewer is not under test
    return dest


def conc_env(dest):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR", "VERIF_SEED", "VERIF_TIER")}
    env.update(PYTHONPATH=dest, REALPKG=dest, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    return env


def replay(prop, jobs, dest, timeout=None):
    if not jobs:
        return []
    t = timeout or (60 + 25 * len(jobs))
    try:
        p = subprocess.run([PY, os.path.join(ROOT, "symex", "conc.py")], input=json.dumps({"prop": prop, "jobs": jobs}),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=conc_env(dest), cwd=dest, timeout=t)
        out = [json.loads(l) for l in p.stdout.splitlines() if l.startswith("{")]
        err = p.stderr[-2000:] if p.returncode else ""
        rc = p.returncode
    except subprocess.TimeoutExpired as e:
        o = e.stdout.decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
        out = [json.loads(l) for l in o.splitlines() if l.startswith("{")]
        err, rc = "time limit", -1
    if len(out) < len(jobs):
        # the process died on a job: a crash (negative return code) or hang is a failure of the real code
        k = len(out)
        st = {"status": "fail" if rc < 0 else "error", "msg": "replay process ended (%s): %s" % (rc, err)}
        out.append(st)
        if k + 1 < len(jobs):
            out += replay(prop, jobs[k + 1:], dest, timeout)
    return out


# ------------------------------------------------------------------ one job

def run_job(prop, hname, config, tier, seed, dest, budget, verbose=False):
    """Explore one harness/config. Returns a result dict."""
    from . import core, loader
    from .explore import Engine
    from .ctx import SymCtx, Violation, HARNESSES
    import z3
    t0 = time.time()
    rnd = random.Random("%s/%s/%s/%s" % (seed, prop, hname, config))
    h = HARNESSES[prop][hname]
    eng = Engine(timeout_ms=h.solver_ms or (20000 if tier == "quick" else 120000), max_paths=h.max_paths or 20000, seed=seed)
    core.ENGINE = eng
    gds = loader.gdspy()
    funcs = set()
    res = dict(harness=hname, config=config, paths=0, completed=0, infeasible=0, inconclusive=[], violations=[], errors=[],
               replayed=0, witnesses=0, samples=[], decisions=0, checks=0, incomplete=None)
    pend = []

    def model_of(extra):
        z = extra.z if extra is not None else z3.BoolVal(True)
        ats = extra.atoms if extra is not None else frozenset()
        r, m = eng.check(z, ats, full=True)
        if r == z3.sat:
            try:
                return eng.model_inputs(m)
            except core.Unsupported:
                return None
        return None

    def random_model():
        """Model of the path with as many inputs as possible at random (generic) values."""
        from fractions import Fraction as F
        want = []
        for n, pl in eng.inputs.items():
            a = pl["atoms"][0]
            lo, hi = eng.bounds[a]
            if len(pl["atoms"]) > 1:
                c, s = pl["atoms"][1:3] if len(pl["atoms"]) == 3 else (None, None)
                if c is not None:
                    t = F(rnd.randint(-40, 40), rnd.randint(1, 20))
                    want.append(z3.And(c.z == core.zval((1 - t * t) / (1 + t * t)), s.z == core.zval(2 * t / (1 + t * t))))
                continue
            if a.isint:
                v = F(rnd.randint(int(lo), int(hi)))
            else:
                w = hi - lo
                v = lo + w * F(rnd.randint(1, 1023), 1024)
                if rnd.random() < 0.5 and w > 64:
                    v = F(round(v))
            want.append(a.z == (z3.IntVal(int(v)) if a.zi else core.zval(v)))
        rnd.shuffle(want)
        ats = set()
        for _, x in eng.constraints:
            ats |= x
        for pl in eng.inputs.values():
            ats |= set(pl["atoms"])
        cons, _ = eng.closure(ats)
        kept, todo, m, n = [], [want], None, 0
        tl = time.time()
        while todo and n < 14 and time.time() - tl < 6:
            w = todo.pop()
            n += 1
            r, mm = eng._solve(cons + kept + w, 1000, True)
            if r == z3.sat:
                kept += w
                m = mm
            elif len(w) > 1:
                todo += [w[:len(w) // 2], w[len(w) // 2:]]
        if m is None:
            return model_of(None)
        try:
            return eng.model_inputs(m)
        except core.Unsupported:
            return model_of(None)

    def spec(inputs):
        return {"harness": hname, "config": config, "inputs": inputs, "tier": tier}

    def prof(frame, ev, arg):
        if ev == "call":
            c = frame.f_code
            if c.co_filename.startswith("<llvm "):
                funcs.add("clipper.cpp:" + c.co_filename[6:-1])
            elif "/gdspy/" in c.co_filename:
                funcs.add("%s:%s" % (os.path.basename(c.co_filename), c.co_qualname))

    def on_alarm(*a):
        raise core.Hang()

    signal.signal(signal.SIGALRM, on_alarm)
    deadline = t0 + budget
    stop = False
    while eng.worklist and not stop:
        if time.time() > deadline or res["paths"] >= eng.max_paths:
            res["incomplete"] = "%d branches left when the %s ran out" % (len(eng.worklist), "time budget" if time.time() > deadline else "path limit")
            break
        prefix = eng.worklist.pop()
        eng.reset_path(prefix)
        reset_globals(gds)
        loader.VFS.files = {}
        cx = SymCtx(eng, gds)
        cx.tier = tier
        res["paths"] += 1
        cand = None        # (kind, msg, extra condition)
        trace = res["paths"] <= 3 or rnd.random() < 0.02
        if trace:
            sys.setprofile(prof)
        signal.alarm(int(max(5, min(deadline - time.time() + 5, 180))))
        try:
            h.fn(cx, config) if config is not None else h.fn(cx)
            cx.flush()
            signal.alarm(0)
            sys.setprofile(None)
            res["completed"] += 1
            cand = ("inexact", "concretised values", None) if eng.inexact else ("ok", "", None)
        except core.PathInfeasible:
            res["infeasible"] += 1
        except Violation as v:
            if isinstance(v.cond, tuple):
                cand = ("unknown", "solver gave no answer: " + v.msg, v.cond[1])
            else:
                cand = ("violation", v.msg, v.cond)
        except core.Unsupported as e:
            cand = ("unsupported", "not encodable: %s" % e, None)
            if verbose:
                traceback.print_exc()
        except core.LimitReached as e:
            cand = ("unsupported", str(e), None)
        except core.Hang:
            cand = ("hang", "no end of the path within its time limit", None)
            if verbose:
                traceback.print_exc()
        except core.PathDone:
            pass
        except RecursionError:
            cand = ("exception", "RecursionError", None)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            cand = ("exception", "%s: %s (%s)" % (type(e).__name__, e, "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])), None)
            if verbose:
                traceback.print_exc()
        finally:
            signal.alarm(0)
            sys.setprofile(None)
        res["decisions"] += len(eng.trail)
        res["checks"] += cx.nchecks
        if cand is None:
            continue
        kind, msg, extra = cand
        want = kind != "ok" or res["witnesses"] < 4 or rnd.random() < 0.05 and res["witnesses"] < 40
        if not want:
            continue
        signal.alarm(120)
        try:
            inp = random_model() if extra is None else model_of(extra if isinstance(extra, core.SymBool) else None)
        except core.Hang:
            inp = None
        finally:
            signal.alarm(0)
        if inp is None:
            if kind == "ok":
                res.setdefault("nomodel", 0)
                res["nomodel"] += 1
            else:
                res["inconclusive"].append("%s [no model of the path]" % msg)
            continue
        if kind == "ok":
            res["witnesses"] += 1
            pend.append(("ok", msg, inp))
            if len(res["samples"]) < 2:
                res["samples"].append({"harness": hname, "config": config, "inputs": inp})
            continue
        r = replay(prop, [spec(inp)], dest, timeout=90)[0]
        if verbose:
            print("   candidate", kind, msg, inp, "->", r, flush=True)
        res["replayed"] += 1
        if r["status"] == "fail":
            res["violations"].append({"msg": r.get("msg", msg), "symbolic": msg, "spec": spec(inp)})
            if len(res["violations"]) >= 3:
                stop = True
            if FIRST and match_known(prop, res["violations"][-1], known_findings()) is None:
                stop = True
        elif kind == "violation":
            # the model disagrees with the code: nothing is claimed for this path
            res["inconclusive"].append("SPURIOUS counterexample does not reproduce: %s with %s (replay: %s)" % (msg, inp, r))
            if len(res["inconclusive"]) > 20:
                res["incomplete"] = "too many inconclusive paths"
                stop = True
        else:
            res["inconclusive"].append(msg)
            if len(res["inconclusive"]) > 60:
                res["incomplete"] = "too many inconclusive paths"
                stop = True
    rs = replay(prop, [spec(i) for _, _, i in pend], dest)
    okw = 0
    for (k, m, i), r in zip(pend, rs):
        res["replayed"] += 1
        if r["status"] == "ok":
            okw += 1
        elif r["status"] == "fail":
            res["violations"].append({"msg": r.get("msg"), "symbolic": "witness of a path that holds symbolically fails concretely", "spec": spec(i)})
        else:
            res["errors"].append("witness replay: %s with %s" % (r, i))
    res["witness_ok"] = okw
    res["stats"] = eng.stats.dict()
    res["notes"] = eng.notes
    res["functions"] = sorted(funcs)
    res["wall"] = time.time() - t0
    return res


def reset_globals(gds):
    from . import loader
    lib = loader.loader().load("gdspy.library")
    if hasattr(gds, "current_library"):
        gds.current_library = None
    for m in (lib,):
        if hasattr(m, "use_current_library"):
            m.use_current_library = False


def job_main(q, args):
    try:
        sys.setrecursionlimit(5000)
        q.put(run_job(*args))
    except BaseException as e:
        q.put(dict(harness=args[1], config=args[2], crash="".join(traceback.format_exception(e))[-3000:]))


def known_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(p):
        out = json.load(open(p))
    return out


def match_known(prop, v, known):
    for k in known:
        if k.get("status") != "open" or k["property"] != prop or k["harness"] != v["spec"]["harness"]:
            continue
        if "config" in k and k["config"] != v["spec"]["config"]:
            continue
        return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--harness")
    ap.add_argument("--config", type=int)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--first", action="store_true", help="stop at the first violation that is not listed as known")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    total = a.budget or (780 if tier == "quick" else 6 * 3600)
    sys.path.insert(0, ROOT)
    mod = importlib.import_module("checks." + prop.lower())
    from .ctx import HARNESSES
    from . import loader
    work = tempfile.mkdtemp(prefix="gdspy-verif-")
    rc = 0
    try:
        dest = build_real(os.path.join(work, "pkg"), getattr(mod, "NEED_CLIPPER", False))
        loader.gdspy()
        if hasattr(mod, "prepare"):
            mod.prepare(work)
        jobs = []
        for h in HARNESSES[prop].values():
            if a.harness and h.name != a.harness:
                continue
            if h.tier == "thorough" and tier != "thorough":
                continue
            cfgs = h.configs + (h.thorough if tier == "thorough" else [])
            for i, c in enumerate(cfgs):
                if a.config is not None and i != a.config:
                    continue
                jobs.append((h, c))
        results, crashed = [], []
        if a.v and len(jobs) == 1:
            h, c = jobs[0]
            results.append(run_job(prop, h.name, c, tier, seed, dest, h.timeout or 600, True))
        else:
            ctx = mp.get_context("fork")
            pending = list(jobs)
            running = []
            while pending or running:
                while pending and len(running) < a.jobs:
                    h, c = pending.pop(0)
                    left = total - (time.time() - t0)
                    b = min(h.timeout or (420 if tier == "quick" else 3 * 3600), max(left - 30, 5))
                    q = ctx.SimpleQueue()
                    p = ctx.Process(target=job_main, args=(q, (prop, h.name, c, tier, seed, dest, b)))
                    p.start()
                    running.append((p, q, min(time.time() + b + 240, max(t0 + total + 60, time.time() + b + 20)), h.name, c))
                for it in list(running):
                    p, q, dl, hn, c = it
                    if not q.empty():
                        results.append(q.get())
                        p.join()
                        running.remove(it)
                        if a.first and any(match_known(prop, v, known_findings()) is None for v in results[-1].get("violations", ())):
                            pending = []
                            for o in running:
                                o[0].kill()
                            running = []
                            break
                    elif not p.is_alive():
                        if not q.empty():
                            continue
                        results.append(dict(harness=hn, config=c, crash="worker ended with %s" % p.exitcode))
                        running.remove(it)
                    elif time.time() > dl:
                        p.kill()
                        results.append(dict(harness=hn, config=c, crash="worker exceeded its time limit"))
                        running.remove(it)
                time.sleep(0.02)
        rc = report(prop, tier, seed, mod, results, t0, HARNESSES[prop], a.v, bool(a.harness))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def report(prop, tier, seed, mod, results, t0, hs, verbose, partial):
    known = known_findings()
    errors, viol, incon = [], [], []
    tot = dict(paths=0, completed=0, decisions=0, checks=0, replayed=0, witness_ok=0, infeasible=0)
    st = {}
    funcs = set()
    samples, per = [], []
    seen_known = {}
    notes = {}
    for r in sorted(results, key=lambda r: (r["harness"], str(r["config"]))):
        if "crash" in r:
            (incon if "time limit" in r["crash"] else errors).append("%s %s: %s" % (r["harness"], r["config"], r["crash"]))
            continue
        for k in tot:
            tot[k] += r.get(k, 0)
        for k, v in r["stats"].items():
            st[k] = st.get(k, 0) + v
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
        funcs.update(r["functions"])
        samples += r["samples"][:1]
        tag = "%s %s" % (r["harness"], json.dumps(r["config"])) if r["config"] is not None else r["harness"]
        for v in r["violations"]:
            k = match_known(prop, v, known)
            if k is not None:
                seen_known.setdefault(json.dumps(k), []).append(v)
            else:
                viol.append((tag, v))
        errors += ["%s: %s" % (tag, e) for e in r["errors"]]
        incon += ["%s: %s" % (tag, e) for e in r["inconclusive"]]
        if r["incomplete"]:
            incon.append("%s: incomplete: %s" % (tag, r["incomplete"]))
        if not r["violations"] and not r["errors"] and r["checks"] == 0:
            errors.append("%s: no assertion was reached" % tag)
        if not r["violations"] and not r["errors"] and not r["witness_ok"] and not r["inconclusive"]:
            errors.append("%s: no path witness could be validated on the real code" % tag)
        per.append(dict(harness=r["harness"], config=r["config"], bounds=hs[r["harness"]].bounds, paths=r["paths"],
                        completed=r["completed"], decisions=r["decisions"], assertions=r["checks"], witnesses_validated=r["witness_ok"],
                        inconclusive=len(r["inconclusive"]), complete=not r["incomplete"] and not r["inconclusive"],
                        queries=r["stats"]["queries"], solver_s=round(r["stats"]["solver_s"], 2), wall_s=round(r["wall"], 1)))
        if verbose or True:
            print("%-34s paths %5d checks %6d queries %6d solver %6.1fs wall %6.1fs witnesses %d%s%s" % (
                tag[:60], r["paths"], r["checks"], r["stats"]["queries"], r["stats"]["solver_s"], r["wall"], r["witness_ok"],
                " VIOLATIONS %d" % len(r["violations"]) if r["violations"] else "", " INCOMPLETE" if r["incomplete"] or r["inconclusive"] else ""))
    rdir = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for k, vs in seen_known.items():
        kk = json.loads(k)
        print("KNOWN-FINDING: property=%s %s" % (prop, kk["what"]))
    for kk in known:
        if kk.get("status") == "open" and kk["property"] == prop and json.dumps(kk) not in seen_known and not partial:
            print("KNOWN-FINDING: property=%s %s (not reproduced in this run)" % (prop, kk["what"]))
    for i, (tag, v) in enumerate(viol[:20]):
        p = os.path.join(rdir, "%s-%d.json" % (prop, i))
        with open(p, "w") as f:
            json.dump({"prop": prop, "jobs": [v["spec"]], "message": v["msg"], "run": "PYTHONPATH=/repo /opt/venv/bin/python %s/symex/conc.py < %s" % (ROOT, p)}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("   %s: %s" % (tag, v["msg"]))
        print("   inputs %s" % json.dumps(v["spec"]["inputs"]))
    for e in errors[:10]:
        print("ERROR", e)
    for e in incon[:10]:
        print("INCONCLUSIVE", e)
    if not partial:
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
                  coverage=dict(states=tot["paths"], transitions=tot["decisions"], traces_validated_against_impl=tot["witness_ok"],
                                samples=samples[:6], exhaustive=False,
                                explanation="states = symbolic paths explored, transitions = branch decisions on them, "
                                            "traces = path witnesses from solver models run on the unmodified package",
                                functions_encoded=sorted(funcs), assertions=tot["checks"],
                                assertions_by_canonical_form=st.get("identities", 0), solver_queries=st.get("queries", 0),
                                solver_sat=st.get("sat", 0), solver_unsat=st.get("unsat", 0), solver_unknown=st.get("unknown", 0),
                                decided_by_interval=st.get("interval", 0), solver_seconds=round(st.get("solver_s", 0), 2),
                                complete_within_bounds=not incon and not errors, inconclusive=incon[:50], engine_notes=notes,
                                harnesses=per),
                  assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON, wall_s=round(time.time() - t0, 2), violations=len(viol))
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if viol:
        return 1
    if errors:
        return 2
    print("%s: held on everything explored%s (%d paths, %d queries, %.0f s)" % (prop, "" if not incon else " (NOT exhaustive: see INCONCLUSIVE)", tot["paths"], st.get("queries", 0), time.time() - t0))
    return 0


COMMON = [
    "floating-point arithmetic is modelled by exact real arithmetic (counterexamples and path witnesses are re-run in IEEE doubles, compared with tolerance 1e-6 relative)",
    "angles are modelled by their sine and cosine (c^2+s^2=1, tied to the quadrant of the angle); pi by a constant bounded to 14 digits",
    "numpy and struct are replaced by element-wise symbolic stand-ins; files by in-memory byte sequences",
    "bounds of each harness are listed under coverage.harnesses; nothing is claimed outside them",
]

if __name__ == "__main__":
    main()
