#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and the harness modules."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Holds for every real value of the symbolic inputs, and every structural choice, within the bounds stated per "
        "harness (doc comments in engine/%s, repeated in the evidence). Floating point is idealised as reals "
        "with a tolerance of 2e-4 on computed quantities%s; trusted: rustc, the IR instrumentation and runtime in engine/, Z3.")
UF = {"C08", "C14", "C15"}
NA = []
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    py = os.path.exists(os.path.join(V, "engine", "pyharness", i.lower() + ".py"))
    if not py and not os.path.exists(os.path.join(V, "engine", "harness", i.lower() + ".rs")):
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 bin/check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 bin/check.py {i} --thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "bounded symbolic execution of the Python package and its extension's LLVM IR (from rustc, per run) with Z3; counterexamples replayed natively" if py else "bounded symbolic execution of the crate's LLVM IR (from rustc, per run) with Z3; counterexamples replayed natively",
        "level": "other",
        "level_note": NOTE % ("pyharness/%s.py" % i.lower() if py else "harness/%s.rs" % i.lower(), ", exp and ln as uninterpreted functions with axioms where their argument is symbolic" if i in UF else ""),
    })
m = {"version": 1,
     "setup_cmd": "python3 bin/setup.py",
     "checks": checks,
     "not_applicable": json.load(open(os.path.join(V, "not_applicable.json"))),
     "notes": "No hooks in /repo: the checks compile /repo/src as it is, with the harness modules beside it. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
