#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decides one property on /repo's current tree."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"
if os.environ.get("PYTHONHASHSEED") != "0" or not os.path.realpath(sys.prefix).startswith("/opt/veriftools"):
    os.environ["PYTHONHASHSEED"] = "0"
    if not os.environ.get("VERIF_EXECED"):
        os.environ["VERIF_EXECED"] = "1"
        os.execv(VT, [VT] + sys.argv)

import argparse
import importlib
import json
import multiprocessing as mp
import time

sys.dont_write_bytecode = True
sys.path.insert(0, HERE)


def work(a):
    prop, case, tier, seed, deadline, stop_first = a
    from symx.symapi import Job
    try:
        job = Job(prop, case, tier, seed, min(deadline, time.time() + case.get("opts", {}).get("wall", 1e9)))
        job.stop_first = stop_first
        return job.run()
    except BaseException as e:                      # an engine failure is an error of the check
        import traceback
        return {"case": case["name"], "complete": False, "error": traceback.format_exc(), "paths": 0,
                "decisions": 0, "queries": 0, "unknown": 0, "solver_s": 0, "checks": 0, "trivial": 0,
                "aborted": 0, "labels": {}, "violations": [], "unreproduced": [], "inconclusive": [],
                "samples": [], "functions": [], "wall_s": 0}


def diff(batch):
    from symx.symapi import replay_batch
    return replay_batch([s["item"] for s in batch], timeout=300)


def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: ") and f"property={prop} " in l + " ":
                parts = dict(x.split("=", 1) for x in l[9:].split(" | ")[0].split() if "=" in x)
                out.append((parts, l[9:].split(" | ", 1)[1] if " | " in l else ""))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="setup: the tools are present and work")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--only", help="run only cases whose name contains this")
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--keep", action="store_true", help="do not stop at the first violation")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.selftest:
        import subprocess
        import z3
        s = z3.Solver()
        x = z3.Real("x")
        s.add(x * x == 2, x > 0)
        assert s.check() == z3.sat
        subprocess.run([sys.executable, os.path.join(HERE, "tools", "selftest.py")], check=True)
        subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, matplotlib"], check=True)
        print("setup ok, z3", z3.get_version_string())
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prop = a.prop
    m = importlib.import_module("props." + prop)
    cases = m.cases(tier, seed)
    if a.only:
        cases = [c for c in cases if a.only in c["name"]]
    names = [c["name"] for c in cases]
    assert len(set(names)) == len(names), "duplicate case names"
    budget = getattr(m, "BUDGET", {}).get(tier, 600 if tier == "quick" else 5400)
    deadline = t0 + budget
    results = []
    stopped = False
    ctx = mp.get_context("fork")
    with ctx.Pool(a.jobs, maxtasksperchild=20) as pool:
        stop_first = not a.keep and not known(prop)
        it = pool.imap_unordered(work, [(prop, c, tier, seed, deadline, stop_first) for c in cases])
        for r in it:
            results.append(r)
            if a.verbose:
                print(f"  {r['case']}: paths={r['paths']} queries={r['queries']} unknown={r['unknown']} "
                      f"solver={r['solver_s']} wall={r['wall_s']} complete={r['complete']} "
                      f"viol={len(r['violations'])} unrep={len(r['unreproduced'])} inc={len(r['inconclusive'])}",
                      flush=True)
                if r["error"]:
                    print(r["error"][-600:])
                for x in r["inconclusive"][:3] + r["unreproduced"][:2]:
                    print("    ", str(x)[:700], (x.get("tb", "") if isinstance(x, dict) else "")[-300:])
            if r["violations"] and not a.keep and not all(is_known(prop, v) for v in r["violations"]):
                pool.terminate()
                stopped = True
                break
        # differential validation of the symbolic execution against the real code
        samples = [s for r in results for s in r["samples"]]
        validated = mism = harness_fail = 0
        bad = []
        if not stopped and samples:
            step = max(1, min(40, (len(samples) + a.jobs - 1) // a.jobs))
            batches = [samples[i:i + step] for i in range(0, len(samples), step)]
            for b, rs in zip(batches, pool.imap(diff, batches)):
                from symx.api import same
                for s, r in zip(b, rs):
                    if r["status"] == "ok":
                        validated += 1
                        if not same(s["observed"], r["observed"]):
                            mism += 1
                            bad.append({"item": s["item"], "symbolic": s["observed"], "real": r["observed"]})
                    elif r["status"] == "violation" and not r.get("harness_error"):
                        it = dict(s["item"], label=r["label"], detail=r["detail"], case="validation sample",
                                  symbolic_label="(found while validating a path against the real code)")
                        results[0]["violations"].append(it)
                        harness_fail += 1
                    else:
                        mism += r["status"] != "skip"
                        if r["status"] != "skip":
                            bad.append({"item": s["item"], "status": r["status"], "label": r["label"], "detail": r["detail"]})
    viol = [v for r in results for v in r["violations"]]
    new = [v for v in viol if not is_known(prop, v)]
    errors = [r["error"] for r in results if r["error"]]
    unrep = [dict(u, case=r["case"]) for r in results for u in r["unreproduced"]]
    inc = [f"{r['case']}: {x}" for r in results for x in r["inconclusive"]]
    incomplete = [r["case"] for r in results if not r["complete"]]
    labels = {}
    for r in results:
        for l, n in r["labels"].items():
            labels[l] = labels.get(l, 0) + n
    missing = [] if (a.only or stopped) else [l for l in getattr(m, "LABELS", []) if l not in labels]
    tot = lambda k: sum(r[k] for r in results)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("decisions"),
            "traces_validated_against_impl": validated,
            "samples": [s["item"] for s in samples[:3]] or [{"case": c} for c in names[:3]],
            "explanation": "states = feasible symbolic paths of the real source explored to the end; "
                           "transitions = branch decisions put to the solver; traces = path models re-run "
                           "on the real interpreter and compared with the symbolic outputs",
            "exhaustive": not incomplete and not inc and not stopped,
            "cases": len(results), "cases_planned": len(cases),
            "solver_queries": tot("queries"), "solver_unknown": tot("unknown"),
            "solver_seconds": round(tot("solver_s"), 2),
            "assertions_decided": tot("checks"), "assertions_decided_by_normal_form": tot("trivial"),
            "assertion_labels": labels,
            "functions_encoded": sorted({f for r in results for f in r["functions"]}),
            "bounds": getattr(m, "BOUNDS", {}).get(tier, getattr(m, "BOUNDS", {})) if isinstance(getattr(m, "BOUNDS", None), dict) else getattr(m, "BOUNDS", ""),
            "trace_mismatches": mism, "mismatch_examples": bad[:2],
            "incomplete_cases": incomplete[:20], "inconclusive": inc[:20],
            "unreproduced_candidates": len(unrep),
        },
        "assumptions": list(getattr(m, "ASSUME", [])) + COMMON,
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    printed = set()
    for v in viol:
        k = is_known(prop, v)
        if k and k not in printed:
            printed.add(k)
            print(f"KNOWN-FINDING: property={prop} {k}")
    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for v in new[:5]:
            i = 0
            while True:
                path = os.path.join(HERE, "replays", f"{prop}-{os.getpid()}-{i}.json")
                if not os.path.exists(path):
                    break
                i += 1
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  case {v['case']}: {v['symbolic_label']}; replayed on the real code: {v['label']} {v['detail']}")
            print(f"  inputs: {v['params']} {v['values']}")
        return 1
    line = (f"{prop} {tier}: {len(results)} cases, {tot('paths')} paths, {tot('queries')} queries "
            f"({tot('unknown')} unknown), {tot('checks')} assertions, solver {tot('solver_s'):.1f}s, "
            f"{validated} traces validated, {mism} mismatches, wall {time.time()-t0:.1f}s")
    print(line)
    ok = True
    if errors:
        print("ERROR", errors[0])
        ok = False
    if unrep:
        print("ERROR: counterexample does not reproduce on the real code:", json.dumps(unrep[0], default=str)[:3000])
        ok = False
    if missing:
        print("ERROR: assertions never reached:", missing)
        ok = False
    if tot("checks") == 0:
        print("ERROR: vacuous run")
        ok = False
    if mism > max(2, 0.05 * max(1, validated)):
        print("ERROR: symbolic and real outputs differ:", json.dumps(bad[0], default=str)[:3000])
        ok = False
    if inc or incomplete:
        print(f"INCONCLUSIVE: {len(inc)} assertions/paths and {len(incomplete)} unfinished cases are outside the claim")
        for x in inc[:5] + incomplete[:5]:
            print("   ", x)
        if len(inc) > 0.05 * max(1, tot("paths")) or len(incomplete) > 0.2 * len(cases):
            print("ERROR: too much of the exploration gave no answer")
            ok = False
    return 0 if ok else 2


COMMON = [
    "numbers are exact rationals: IEEE rounding is not modelled (every reported violation is reproduced in floating point)",
    "tolerances up to 1e-6 in the code are read as exact equality: inputs for which an intermediate value is nonzero but below the tolerance are outside the claim",
    "numpy, math, random and matplotlib are replaced by exact stand-ins; a sample of every run's paths is re-executed on the real interpreter and compared",
    "step texts and program renderings are formatting and have empty bodies",
]


def is_known(prop, v):
    for parts, text in known(prop):
        if parts.get("case") and parts["case"] != v["case"]:
            continue
        if parts.get("fn") and parts["fn"] != v["fn"]:
            continue
        if parts.get("label") and parts["label"].replace("_", " ") not in v["label"]:
            continue
        if parts.get("key") and parts["key"] != json.dumps(v["params"], sort_keys=True).replace(" ", ""):
            continue
        return text or " ".join(f"{k}={x}" for k, x in parts.items())
    return None


if __name__ == "__main__":
    sys.exit(main())
