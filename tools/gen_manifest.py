#!/usr/bin/env python3
"""MANIFEST.json from bin/specs.py (run after changing the checks)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import specs
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = getattr(specs, "NOT_APPLICABLE", {})
BMC = "bounded symbolic model checking of the real C sources (CBMC, SAT)"
SYM = "symbolic execution of the LLVM IR of the real sources, every path decided by SMT (Z3), counterexamples replayed natively"
NB = ("Every assertion of the harness, and every memory-safety check CBMC generates for the encoded functions, is decided by the solver for all "
      "inputs within the bounds stated in the evidence; trusts CBMC, goto-cc and the stated stand-ins for library calls.")
NS = ("Every path of the harness and the encoded functions is followed symbolically, every branch, memory access and assertion decided by Z3 for "
      "all inputs within the bounds stated in the evidence; trusts clang's IR, the executor in bin/ (cross-checked by running the natively compiled "
      "harness on solver-chosen inputs) and the stated stand-ins for library calls.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.CHECKS:
        kinds = {type(c).__name__ for c in specs.CHECKS[i]["harnesses"]}
        tech = SYM if kinds == {"S"} else BMC if "S" not in kinds else BMC + "; " + SYM
        note = NS if kinds == {"S"} else NB if "S" not in kinds else NB + " " + NS
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i,
                       "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": specs.TECH.get(i, tech),
                       "level": "model_checking", "level_note": specs.NOTE.get(i, note)})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Each check re-encodes its functions (goto binaries, LLVM IR) from /repo's working tree; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
