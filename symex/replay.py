"""Concrete replay of assignments on the unpatched code.

usage: replay.py JOBS.json OUT.json      (batch, used by the checks)
       replay.py --show REPLAY.json      (one stored counterexample)
"""
import contextlib
import importlib
import io
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symex.ctx import ConcCtx, CheckFailed, Skip  # noqa: E402


def dec(v):
    a, b = v.split("/")
    return int(a) / int(b)


def one(job):
    mod = importlib.import_module("checks." + job["property"].lower())
    env = {k: dec(v) for k, v in job["env"].items()}
    ctx = ConcCtx(env)
    import warnings

    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            mod.run(ctx, job["cfg"])
    except Skip:
        return {"status": "skip"}
    except CheckFailed as e:
        return {"status": "violation", "detail": str(e)}
    except Exception as e:
        return {
            "status": "violation",
            "detail": "raised %s: %s" % (type(e).__name__, e),
            "trace": traceback.format_exc(limit=-3),
        }
    return {"status": "ok", "outs": ctx.outs, "n": ctx.n}


def main():
    if sys.argv[1] == "--show":
        job = json.load(open(sys.argv[2]))
        r = one(job)
        r.pop("outs", None)
        print(json.dumps({"cfg": job["cfg"], "env": {k: dec(v) for k, v in job["env"].items()}, "result": r}, indent=1))
        return 1 if r["status"] == "violation" else 0
    jobs = json.load(open(sys.argv[1]))
    out = [one(j) for j in jobs]
    json.dump(out, open(sys.argv[2], "w"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
