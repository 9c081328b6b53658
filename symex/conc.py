"""Concrete replay: runs harnesses on the unmodified gdspy (PYTHONPATH set by the caller).

stdin: {"prop":..., "jobs":[{"harness":..., "config":..., "inputs":{...}}]}; stdout: one JSON line per job."""
import importlib
import json
import os
import signal
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter("ignore")


class TimeUp(BaseException):
    pass


def alarm(*a):
    raise TimeUp()


def main():
    req = json.load(sys.stdin)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    import numpy
    import gdspy
    pk = os.environ.get("REALPKG")
    if pk and not os.path.abspath(gdspy.__file__).startswith(os.path.abspath(pk)):
        raise SystemExit("wrong gdspy " + gdspy.__file__)
    gdspy.library.use_current_library = False
    from symex import ctx as C
    importlib.import_module("checks." + req["prop"].lower())
    signal.signal(signal.SIGALRM, alarm)
    numpy.seterr(all="ignore")
    for j in req["jobs"]:
        h = C.HARNESSES[req["prop"]][j["harness"]]
        cx = C.ConcCtx(gdspy, numpy, j["inputs"])
        cx.tier = j.get("tier", "quick")
        signal.alarm(int(j.get("timeout", 20)))
        try:
            h.fn(cx, j["config"]) if j["config"] is not None else h.fn(cx)
            res = {"status": "ok", "checks": cx.nchecks}
        except C.AssumeFailed:
            res = {"status": "assume"}
        except C.CheckFailed as e:
            res = {"status": "fail", "msg": str(e)}
        except TimeUp:
            res = {"status": "fail", "msg": "does not terminate (time limit)"}
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            inside = any(os.sep + "gdspy" + os.sep in f.filename for f in tb)
            res = {"status": "fail" if inside or True else "error", "msg": "%s: %s (%s)" % (type(e).__name__, e, "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])), "exc": type(e).__name__}
        finally:
            signal.alarm(0)
            cx.cleanup()
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
