#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "../driver"))
import spec
from about import ABOUT
NA = {}
checks = []
for p in sorted(spec.PROPS):
    checks.append({
        "property": p,
        "quick_cmd": "python3 driver/check.py %s quick" % p,
        "thorough_cmd": "python3 driver/check.py %s thorough" % p,
        "technique": "symbolic execution of the LLVM IR of the real crates (own engine), every branch and assertion decided by Z3 over all values within bounds; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Holds for every value of the free bytes, cuts, delays and decisions within these bounds: " + ABOUT[p]["bounds"] + ". Nothing is said beyond them. Trusted: the executor (cross-checked against native runs each time), rustc's lowering to LLVM IR, Z3, and the reference in harness/src.",
    })
m = {"version": 1,
     "setup_cmd": "bash setup.sh",
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "hooks": {"guard": "cfg(yuubind_verif)", "enable": "harness-queue/.cargo/config.toml passes --cfg yuubind_verif to rustc; the hook exports the trait FoundInflightMail, without which no Storage can be written outside smtp-queue", "source_commits": ["4f610cbabed99bdfd78203fc6e1399e500702069"]},
     "notes": "harness/ uses the public API of smtp-message and smtp-server only. See DESIGN.md."}
with open(os.path.join(HERE, "../MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(NA), "not applicable")
