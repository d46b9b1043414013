#!/usr/bin/env python3
"""Writes MANIFEST.json from the contract files present and the notes below."""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification: contracts on the real functions, VCs from LLVM IR of /repo's current source, z3/cvc5"
exec(open(os.path.join(HERE, "tools", "notes.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in NOTE and glob.glob(os.path.join(HERE, "contracts", p + "_*.cc")):
        checks.append({"property": p, "quick_cmd": "python3-vt engine/check.py " + p,
                       "thorough_cmd": "VERIF_TIER=thorough python3-vt engine/check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": TECH,
                       "level": "proof", "level_note": NOTE[p]})
    else:
        na.append({"property": p, "reason": NA[p]})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3' && mkdir -p out evidence",
     "hooks": {"guard": "SST_CORE_VERIF", "enable": "the checks compile /repo's sources with -DSST_CORE_VERIF (loop-invariant annotations only)", "source_commits": HOOKS},
     "checks": checks, "not_applicable": na,
     "notes": "Engine: engine/core.py (symbolic execution / VC generation over LLVM IR), contracts in contracts/*.cc, see DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
