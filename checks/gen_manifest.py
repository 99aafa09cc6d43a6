#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/spec.py and properties.jsonl."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(D)
sys.path.insert(0, D)
import spec

NA = {
    "C25": "a fact about which trait implementations exist and about variance/auto traits: it is decided by the type "
           "checker, there is no execution to encode symbolically",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in spec.PROPS:
        checks.append({
            "property": p,
            "quick_cmd": "python3 check.py %s quick" % p,
            "thorough_cmd": "python3 check.py %s thorough" % p,
            "technique": "symbolic execution of the compiled LLVM IR of the real code, decided by Z3 bit-vector queries",
            "level": "model_checking",
            "level_note": "Bounded: holds for every value of the symbolic inputs (keys, sizes, fault points, panic points, "
                          "comparison answers) on the listed shapes and operation sequences. " + spec.PROPS[p].get("bounds", "") +
                          " Outside: " + spec.PROPS[p].get("outside", "") +
                          " Trusted: the executor (engine/), rustc and LLVM's front half, Z3; counterexamples and sampled "
                          "paths are replayed against the natively compiled code.",
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "not claimed yet: its check is not built")})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: harness crates reach everything through the public interface. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
