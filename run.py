#!/opt/venv/bin/python
"""Check one property:  run.py C05 [--tier quick|thorough] [--only NAME] [--replay FILE] [-v]

exit 0  the property held on everything explored
exit 1  a counterexample of the solver reproduced on the real code (VIOLATION line)
exit 2  error of the check itself
"""
import argparse
import atexit
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "4")
os.environ.setdefault("NUMEXPR_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)
warnings.simplefilter("ignore")


def known_findings():
    p = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("fixed:") and line.startswith("{"):
                out.append(json.loads(line))
    return out


def run_one(args):
    """worker: run one harness, return a plain dict"""
    prop, name, tier, deadline = args
    t0 = time.time()
    try:
        from symx import engine, patch

        m = importlib.import_module("props." + prop)
        h = next(x for x in m.HARNESSES if x.name == name)
        left = deadline - time.time()
        if left < 2:
            return {"name": name, "skipped": True, "wall": 0.0}
        if h.custom:
            r = h.custom(tier, min(left, h.budget(tier)))
            r.update(name=name, wall=time.time() - t0)
            return r
        if h.setup:
            h.setup()
        p = patch.Patcher(overrides=h.overrides() if h.overrides else None, extra_modules=h.extra() if h.extra else ())
        ex = engine.Explorer(h.fn, p, name=name, budget_s=min(left, h.budget(tier)), max_paths=h.max_paths,
                             prove_timeout=h.prove_timeout, batch=h.batch)
        ex.prepare = getattr(m, "PREPARE", None)
        ex.run()
        return {
            "name": name,
            "stats": ex.stats.as_dict(),
            "labels": ex.labels,
            "violation": ex.violation,
            "unreproduced": ex.unreproduced,
            "complete": ex.complete,
            "reached_end": ex.reached_end,
            "witness": ex.witness,
            "bounds": h.bounds,
            "functions": h.functions,
            "wall": time.time() - t0,
        }
    except BaseException as e:  # noqa
        return {"name": name, "error": "".join(traceback.format_exception(e))[-3000:], "wall": time.time() - t0}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--func", help="only the harnesses that list this function (for tools/mutate.py)")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vp_run_")
    os.environ["VERIF_SCRATCH"] = scratch
    atexit.register(lambda pid=os.getpid(): os.getpid() == pid and shutil.rmtree(scratch, ignore_errors=True))
    total = 780.0 if a.tier == "quick" else 3 * 3600.0
    m = importlib.import_module("props." + a.prop)
    if a.replay:
        from symx import engine

        d = json.load(open(a.replay))
        h = next(x for x in m.HARNESSES if x.name == d["harness"])
        if h.custom:
            r = h.replay(d)
        else:
            if h.setup:
                h.setup()
            if getattr(m, "PREPARE", None):
                m.PREPARE()
            r = engine.run_concrete(h.fn, d["values"])
        print("replay of %s: %s" % (a.replay, "REPRODUCED %s: %s" % r if r else "not reproduced"))
        sys.exit(1 if r else 0)
    hs = [h for h in m.HARNESSES if (a.tier in h.tiers) and (not a.only or a.only in h.name)]
    if a.func:
        hs = [h for h in hs if any(f.split(".")[-1] == a.func for f in h.functions)]
    deadline = t0 + total
    jobs = [(a.prop, h.name, a.tier, deadline) for h in sorted(hs, key=lambda h: -h.weight)]
    results = []
    if a.jobs == 1 or len(jobs) == 1:
        for j in jobs:
            results.append(run_one(j))
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(a.jobs, len(jobs)), maxtasksperchild=1) as pool:
            it = pool.imap_unordered(run_one, jobs)
            known = known_findings()
            stop = None
            while True:
                # once a violation is found, the rest gets a short while only
                try:
                    r = it.next(None if stop is None else max(stop - time.time(), 0.01))
                except (StopIteration, mp.TimeoutError):
                    break
                results.append(r)
                v = r.get("violation")
                if v and stop is None and a.tier == "quick" and not any(k["property"] == a.prop and k["harness"] == r["name"] and k["label"] == v["label"] for k in known):
                    stop = time.time() + float(os.environ.get("VERIF_STOP_S", "45"))
    results.sort(key=lambda r: r["name"])
    kf = known_findings()
    rc = 0
    violations = 0
    known_hit = []
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    for r in results:
        if a.v:
            s = r.get("stats", {})
            print("%-40s %6.1fs paths=%s obl=%s/%s norm=%s q=%s solver=%.1fs incon=%s complete=%s%s" % (
                r["name"], r["wall"], s.get("paths"), s.get("discharged"), s.get("obligations"), s.get("by_norm"),
                s.get("queries"), s.get("solver_s", 0), s.get("n_inconclusive"), r.get("complete"),
                " SKIPPED" if r.get("skipped") else ""))
            for i in s.get("inconclusive", [])[:3]:
                print("      inconclusive:", json.dumps(i, default=str)[:300])
        if r.get("error"):
            print("ERROR in harness %s:\n%s" % (r["name"], r["error"]))
            rc = rc or 2
            continue
        v = r.get("violation")
        if v:
            hit = [k for k in kf if k["property"] == a.prop and k["harness"] == r["name"] and k["label"] == v["label"]]
            if hit:
                known_hit.append(hit[0])
                continue
            p = os.path.join(HERE, "evidence", "replay", "%s-%s.json" % (a.prop, r["name"]))
            json.dump({"property": a.prop, "harness": r["name"], "label": v["label"], "detail": v["detail"],
                       "why": v.get("why"), "values": v["values"],
                       "cmd": "%s %s --replay %s" % (os.path.join(HERE, "run.py"), a.prop, p)}, open(p, "w"), indent=1)
            print("harness %s: %s: %s\n   input %s" % (r["name"], v["label"], v["detail"], json.dumps(v["values"])[:1500]))
            print("VIOLATION property=%s replay=%s" % (a.prop, p))
            violations += 1
            rc = 1
        for u in r.get("unreproduced", []):
            print("UNREPRODUCED counterexample in %s: %s" % (r["name"], json.dumps(u)[:600]))
        if not v and not r.get("skipped") and not r.get("custom") and not r.get("reached_end") and not r["stats"]["n_inconclusive"] and not r.get("unreproduced"):
            print("ERROR: harness %s is vacuous (no path reached its end)" % r["name"])
            rc = rc or 2
    for k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    ob = sum(r.get("stats", {}).get("obligations", 0) for r in results)
    di = sum(r.get("stats", {}).get("discharged", 0) for r in results)
    inc = [dict(i, harness=r["name"]) for r in results for i in r.get("stats", {}).get("inconclusive", [])]
    inc += [dict(u, harness=r["name"]) for r in results for u in r.get("unreproduced", [])]
    inc += [{"harness": r["name"], "why": "not started: time budget"} for r in results if r.get("skipped")]
    ev = {
        "property": a.prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution of the real functions (imported from %s, source read on this run); "
            "each path condition and assertion decided by z3 (CBMC for C code). Counts measured on this run." % REPO,
            "functions_encoded": sorted({f for r in results for f in (r.get("functions") or [])}),
            "paths": sum(r.get("stats", {}).get("paths", 0) for r in results),
            "branch_points": sum(r.get("stats", {}).get("branches", 0) for r in results),
            "obligations": ob,
            "discharged": di,
            "discharged_by_polynomial_normalisation": sum(r.get("stats", {}).get("by_norm", 0) for r in results),
            "solver_queries": sum(r.get("stats", {}).get("queries", 0) for r in results),
            "solver_seconds": round(sum(r.get("stats", {}).get("solver_s", 0) for r in results), 2),
            "inconclusive": inc[:50],
            "n_inconclusive": len(inc),
            "abstractions": sorted({x for r in results for x in r.get("stats", {}).get("abstractions", [])}),
            "harnesses": [
                {
                    "name": r["name"],
                    "bounds": r.get("bounds"),
                    "complete": r.get("complete"),
                    "paths": r.get("stats", {}).get("paths"),
                    "obligations": r.get("stats", {}).get("obligations"),
                    "discharged": r.get("stats", {}).get("discharged"),
                    "reachability_witness": r.get("witness"),
                    "wall_s": round(r["wall"], 2),
                    "labels": r.get("labels"),
                    **({"detail": r["detail"]} if r.get("detail") else {}),
                }
                for r in results
            ],
        },
        "assumptions": list(getattr(m, "ASSUMPTIONS", [])) + GENERAL_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    if not a.only and not a.func:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", a.prop + ".json"), "w"), indent=1, default=str)
    print("%s: %d harnesses, %d paths, %d/%d obligations discharged, %d inconclusive, %.1fs" % (
        a.prop, len(results), ev["coverage"]["paths"], di, ob, len(inc), time.time() - t0))
    sys.exit(rc)


GENERAL_ASSUMPTIONS = [
    "unless a harness says otherwise floating-point numbers are treated as exact reals; comparisons of computed reals allow 1e-9",
    "numpy/scipy/xraylib behave as documented (their functions are modelled by contract, see symx/arr.py and symx/patch.py)",
    "sizes are the concrete sizes listed per harness; larger sizes are outside the claim",
]

if __name__ == "__main__":
    main()
