"""Writes /verif/MANIFEST.json from lib/jobs.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import jobs
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
checks = []
for p in props:
    if p["id"] in jobs.PROPS:
        checks.append(dict(
            property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
            technique="symbolic execution of the compiled LLVM IR of the real code, SMT (z3) decides every branch, memory access and assertion",
            level="model_checking",
            level_note=jobs.NOTE.get(p["id"], "Every path and every input value within the bounds: " + jobs.bounds(p["id"], "quick") +
                                     " Trusts rustc's IR, the engine's IR semantics (cross-checked natively on each run), z3 and the stated assumptions."),
        ))
na = [dict(property=p["id"], reason=NA.get(p["id"], "check under construction")) for p in props if p["id"] not in jobs.PROPS]
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the harness crates in /verif use the public API only."), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
