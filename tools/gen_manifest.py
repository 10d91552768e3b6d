"""Writes MANIFEST.json from the harness modules present in props/."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
NA = {
}
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    if not os.path.exists(os.path.join(HERE, "props", i + ".py")):
        na.append({"property": i, "reason": "no check built yet"})
        continue
    m = importlib.import_module("props." + i)
    b = getattr(m, "BOUNDS", {})
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": getattr(m, "TECHNIQUE", "symbolic execution of the real source with SMT (z3) path and assertion queries"),
        "level": "model_checking",
        "level_note": (getattr(m, "NOTE", "") + " " if getattr(m, "NOTE", "") else "") +
            "Bounded: holds for every value within: " + (b["quick"] if isinstance(b, dict) else b) +
            ". Exact rational arithmetic in place of IEEE floats; counterexamples are replayed on the real interpreter before being reported.",
    })
json.dump({"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na,
           "notes": "Everything is interpreted; setup only checks that the tools are present. See DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
