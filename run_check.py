#!/usr/bin/env python3
"""run_check.py P01 [--tier quick|thorough] [--only SUBSTR] [-v]

exit 0: held on everything explored; exit 1: VIOLATION printed; exit 2: no answer.
"""
import argparse
import contextlib
import importlib
import io
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
os.environ["MPLBACKEND"] = "Agg"
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"

LEVEL = "model_checking"


def _work(a):
    prop, cfg, limits = a
    from symex import worker

    mod = importlib.import_module("checks." + prop.lower())
    lim = dict(limits)
    lim.update(cfg.get("limits", {}))
    try:
        with contextlib.redirect_stdout(io.StringIO()):  # the code under test prints warnings
            return worker.run_config(mod.run, cfg, lim)
    except Exception as e:  # a defect of the machinery itself
        import traceback

        return {
            "cfg": cfg,
            "crash": "%s: %s" % (type(e).__name__, e),
            "trace": traceback.format_exc(),
        }


def close(a, b):
    if a is None or b is None:
        return a is None and b is None or (a != a if a is not None else b != b)
    if isinstance(a, str) or isinstance(b, str):
        return True  # text cells carry tokens in the symbolic run
    if isinstance(a, list) != isinstance(b, list):
        a = a if isinstance(a, list) else [a, 0.0]
        b = b if isinstance(b, list) else [b, 0.0]
    xs = a if isinstance(a, list) else [a]
    ys = b if isinstance(b, list) else [b]
    for x, y in zip(xs, ys):
        if x != x or y != y:
            if (x != x) != (y != y):
                return False
            continue
        if x == y:
            continue
        if abs(x - y) > 1e-6 * max(1.0, abs(x), abs(y)):
            return False
    return True


def outs_match(a, b, scale=None):
    if len(a) != len(b):
        return False
    for r, s in zip(a, b):
        if len(r) != len(s):
            return False
        m = 0.0
        for x in r:
            for y in x if isinstance(x, list) else [x]:
                if isinstance(y, float) and y == y and abs(y) != float("inf"):
                    m = max(m, abs(y))
        for x, y in zip(r, s):
            if not close(x, y):
                # cancellation: compare to the scale of the row
                xs = x if isinstance(x, list) else [x]
                ys = y if isinstance(y, list) else [y]
                if any(
                    isinstance(u, str) or isinstance(v, str) or u is None or v is None
                    for u, v in zip(xs, ys)
                ):
                    return False
                if len(xs) != len(ys) or any(
                    not abs(u - v) <= 1e-9 * max(1.0, m) for u, v in zip(xs, ys)
                ):
                    return False
    return True


def replay(jobs, scratch):
    """run jobs on the unpatched code, in chunks, in fresh processes."""
    if not jobs:
        return []
    n = max(1, min(6, len(jobs) // 20 + 1))
    procs = []
    for k in range(n):
        part = jobs[k::n]
        ji = os.path.join(scratch, "jobs%d.json" % k)
        jo = os.path.join(scratch, "out%d.json" % k)
        json.dump(part, open(ji, "w"))
        p = subprocess.Popen(
            [sys.executable, os.path.join(HERE, "symex", "replay.py"), ji, jo],
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            cwd=scratch,
        )
        procs.append((k, p, jo))
    res = [None] * len(jobs)
    for k, p, jo in procs:
        try:
            out, _ = p.communicate(timeout=600)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
        try:
            part = json.load(open(jo))
        except Exception:
            part = [{"status": "error", "detail": out.decode()[-2000:]}] * len(
                jobs[k::n]
            )
        res[k::n] = part
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=0)
    args = ap.parse_args()
    prop = args.property.upper()
    tier = args.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="scidt_")
    os.environ["MPLCONFIGDIR"] = scratch
    os.environ["HOME"] = scratch
    try:
        return body(args, prop, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def body(args, prop, tier, seed, t0, scratch):
    import warnings

    warnings.simplefilter("ignore")
    from symex import worker

    mod = importlib.import_module("checks." + prop.lower())
    cfgs = mod.configs(tier)
    if args.only:
        cfgs = [c for c in cfgs if args.only in json.dumps(c)]
    cfgs = list({c["name"]: c for c in cfgs}.values())
    names = [c["name"] for c in cfgs]
    limits = {
        "config_s": 150 if tier == "quick" else 1200,
        "max_paths": 400 if tier == "quick" else 5000,
        "seed": seed,
        "witnesses": 2 if tier == "quick" else 4,
    }
    limits.update(getattr(mod, "LIMITS", {}).get(tier, {}))
    # overall budget for the symbolic phase
    budget = limits.get("total_s", 600 if tier == "quick" else 9000)
    import_err = None
    try:
        worker.warm()
    except Exception as e:
        import traceback

        import_err = traceback.format_exc()
    known = load_known(prop)
    results = []
    if import_err is None:
        nproc = args.jobs or min(8, os.cpu_count() or 1, len(cfgs))
        ctxm = mp.get_context("fork")
        with ctxm.Pool(nproc, maxtasksperchild=12) as pool:
            todo = sorted(cfgs, key=lambda c: -c.get("cost", 1))
            pend = [pool.apply_async(_work, ((prop, c, limits),)) for c in todo]
            for c, p in zip(todo, pend):
                left = max(5, budget - (time.time() - t0))
                try:
                    results.append(p.get(timeout=left))
                except mp.TimeoutError:
                    results.append({"cfg": c, "crash": "time budget exhausted"})
            pool.terminate()
    else:
        # the code cannot be imported with the encoding: probe it concretely
        for c in cfgs:
            results.append(
                {"cfg": c, "crash": "import: " + import_err[-500:], "probes": [["import", {}]]}
            )
    # ---- concrete replays -------------------------------------------------
    jobs, meta = [], []

    def add(kind, res, env, info=None, outs=None):
        jobs.append({"property": prop, "cfg": res["cfg"], "env": env})
        meta.append((kind, res, info, outs))

    for r in results:
        for l, env in r.get("candidates", []):
            add("cand", r, env, l)
        for l, env in r.get("probes", []):
            add("probe", r, env, l)
        for w in r.get("witness", []):
            add("wit", r, w["env"], None, w["outs"])
        if r.get("crash") and not r.get("probes"):
            add("probe", r, {}, "crash")
    outs = replay(jobs, scratch)
    violations = {}
    validated = mismatched = skipped = 0
    mism = []
    for j, (kind, r, info, wo), o in zip(jobs, meta, outs):
        st = o["status"]
        if st == "violation":
            violations.setdefault(r["cfg"]["name"], []).append((j, o, kind, info))
        elif st == "error":
            mism.append((r["cfg"]["name"], "replay error: " + o["detail"][-300:]))
        elif kind == "wit":
            if st == "skip":
                skipped += 1
            elif outs_match(wo, o["outs"]):
                validated += 1
            else:
                mismatched += 1
                mism.append((r["cfg"]["name"], "symbolic and concrete outputs differ"))
    # ---- verdict ----------------------------------------------------------
    edir = os.path.join(HERE, "evidence")
    rdir = os.path.join(edir, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    nviol = 0
    kf = []
    for name in names:
        vs = violations.get(name)
        if not vs:
            continue
        j, o, kind, info = vs[0]
        path = os.path.join(rdir, "%s-%s.json" % (prop, safe(name)))
        json.dump(dict(j, detail=o.get("detail"), statement=info), open(path, "w"), indent=1)
        k = known.get(name)
        if k is not None and k["detail"] in (o.get("detail") or ""):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            kf.append(name)
            continue
        nviol += 1
        if nviol <= 5:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  configuration %s: %s" % (name, o.get("detail")))
            print("  statement: %s" % info)
            print("  inputs: %s" % show_env(j["env"]))
    obl = sum(r.get("obligations", 0) for r in results)
    dis = sum(r.get("discharged", 0) for r in results)
    undecided = []
    for r in results:
        n = r["cfg"]["name"]
        if n in violations:
            continue
        if r.get("crash"):
            undecided.append([n, r["crash"][:300]])
        for m, tb in r.get("errors", [])[:2]:
            undecided.append([n, m[:300]])
            if args.v:
                print(n, m, tb)
        for u in r.get("undecided", [])[:2]:
            undecided.append([n, u])
        if r.get("unexplored"):
            undecided.append([n, "%d branches beyond the path bound" % r["unexplored"]])
        if r.get("obligations", 0) > r.get("discharged", 0) and not r.get("undecided"):
            undecided.append([n, "counterexample of the encoding not reproduced on the code: %s" % sorted({c[0] for c in r["candidates"]})])
        if not r.get("crash") and r.get("obligations", 0) == 0:
            undecided.append([n, "vacuous: no statement reached"])
    for n, m in mism:
        undecided.append([n, m])
    st = {}
    for r in results:
        for k, v in r.get("stats", {}).items():
            st[k] = st.get(k, 0) + v
    funcs = sorted({f for r in results for f in r.get("functions", [])})
    samples = []
    for r in results[:200]:
        if r.get("witness") and len(samples) < 4:
            samples.append(
                {
                    "configuration": r["cfg"],
                    "inputs": show_env(r["witness"][0]["env"]),
                    "statements": r["labels"],
                }
            )
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": LEVEL,
        "coverage": {
            "states": st.get("paths", 0),
            "transitions": st.get("decisions", 0) ,
            "traces_validated_against_impl": validated,
            "samples": samples,
            "explanation": "states = symbolic paths executed through the real code; transitions = branch conditions on symbolic data put to the solver; every path stands for all values of its inputs within the bounds",
            "configurations": len(cfgs),
            "obligations": obl,
            "discharged": dis,
            "solver_queries": st.get("queries", 0) + st.get("feas_queries", 0),
            "solver_queries_nonlinear_exact": st.get("exact", 0),
            "solver_s": round(st.get("solver_s", 0.0), 3),
            "symbolic_inputs": sum(r.get("nvars", 0) for r in results),
            "witness_mismatches": mismatched,
            "witness_outside_after_rounding": skipped,
            "undecided": undecided[:60],
            "functions_encoded": funcs,
            "bounds": getattr(mod, "BOUNDS", ""),
            "configuration_names": names,
            "known_findings_reproduced": kf,
        },
        "assumptions": ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    json.dump(ev, open(os.path.join(edir, prop + ".json"), "w"), indent=1)
    for n, m in undecided[:40] if args.v else undecided[:8]:
        print("UNDECIDED %s: %s" % (n, m))
    if args.v:
        for r in sorted(results, key=lambda r: -r.get("wall", 0))[:15]:
            print(
                "  %6.1fs %4d paths %4d/%d obligations %s"
                % (r.get("wall", 0), r.get("paths", 0), r.get("discharged", 0), r.get("obligations", 0), r["cfg"]["name"])
            )
    print(
        "%s %s: %d configurations, %d paths, %d/%d obligations discharged, %d solver queries (%.1fs), %d traces validated, %d undecided, %d violations, %.1fs"
        % (
            prop,
            tier,
            len(cfgs),
            st.get("paths", 0),
            dis,
            obl,
            st.get("queries", 0) + st.get("feas_queries", 0),
            st.get("solver_s", 0.0),
            validated,
            len(undecided),
            nviol,
            time.time() - t0,
        )
    )
    if nviol:
        return 1
    if dis == 0 or dis < 0.5 * obl:
        print("no answer: the encoding decided too little")
        return 2
    return 0


ASSUMPTIONS = [
    "floating point numbers are treated as real numbers; a difference below the stated tolerance is rounding",
    "numpy, scipy, json and math behave as modelled in symex/shims.py (validated on replayed traces)",
    "arguments of sqrt/abs/log10/atan2/... that differ by less than 1e-10 relative to their range are identified",
]


def show_env(env):
    out = {}
    for k, v in env.items():
        a, b = v.split("/")
        out[k] = int(a) / int(b)
    return out


def safe(s):
    return "".join(c if c.isalnum() or c in "-_." else "_" for c in s)[:80]


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {k["configuration"]: k for k in d.get("findings", []) if k["property"] == prop}


if __name__ == "__main__":
    sys.exit(main())
