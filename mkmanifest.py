#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import checks
props = [json.loads(l) for l in open("properties.jsonl")]
m = dict(version=1, setup_cmd="bash engine/build.sh && python3 setup_cache.py", checks=[], not_applicable=[],
         notes="Every check symbolically executes the LLVM IR of /repo's current sources (engine/), see DESIGN.md. No hooks in /repo.")
for p in props:
    c = checks.CHECKS.get(p["id"])
    if c is None:
        m["not_applicable"].append(dict(property=p["id"], reason=checks.NOT_APPLICABLE.get(p["id"], "no check yet")))
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd="./check %s --tier quick" % p["id"], thorough_cmd="./check %s --tier thorough" % p["id"],
        technique="symbolic execution of the compiled sources (LLVM IR) with SMT solving (Z3); counterexamples replayed natively",
        level="model_checking", level_note=c.get("note", "Holds for every value of the symbolic inputs within the stated bounds; assumes the engine, the modelled I/O library and Z3.")))
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
