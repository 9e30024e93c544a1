#!/usr/bin/env python3
"""Regenerate MANIFEST.json from checks/*.json (development helper; no check runs it)."""
import json, os
root = os.path.dirname(os.path.abspath(__file__))
NA = {"C18": "Which trait bounds an impl demands is a question about which programs type-check: the deciding procedure is rustc's trait solver on "
             "each program, there is no execution whose inputs could be made symbolic, and running the compiler on sample programs is the testing this family excludes."}
TODO = "no check built yet"
checks, na = [], []
for line in open(f"{root}/properties.jsonl"):
    p = json.loads(line)["id"]
    f = f"{root}/checks/{p}.json"
    if not os.path.exists(f):
        na.append({"property": p, "reason": NA.get(p, TODO)})
        continue
    c = json.load(open(f))
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                   "evidence_file": f"evidence/{p}.json", "technique": "symbolic execution of the compiled LLVM IR, decided by z3",
                   "level": "model_checking",
                   "level_note": "Every input within the stated bound is covered, for each type of the corpus: " + c["bound"] + ". Outside: " + c["outside"] +
                                 ". Trusts the engine's LLVM semantics (sampled paths are replayed natively on every run), rustc, z3 and the oracle in the harness."})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the harnesses use the public API; kernels over macro internals compile a mirror of the current sources outside /repo."},
          open(f"{root}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
