#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (python3 tools/mkmanifest.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
try:
    from checks import CHECKS
except ImportError:
    CHECKS = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
REASON = {
 "P40": "Pure function of (reference element, degree): no schedule, clock, fault or I/O for it to depend on.",
 "P41": "Pure function of nodes and local coordinates: nothing for a simulator to decide. (The lazily initialised state behind it is covered by P05/P12.)",
 "P42": "Pure function of element type, degree and point: nothing for a simulator to decide.",
 "P43": "Pure function of entity, coefficients and rule: nothing for a simulator to decide.",
 "P44": "Pure pointwise arithmetic; sharing, lifetime and concurrency of mesh functions are covered by P05/P11/P14.",
 "P45": "Asymptotic numerical statement without schedule, fault or time dependence.",
 "P46": "Numerical model problems solved sequentially and purely; no nondeterminism for a simulator to control.",
}
m = dict(version=1, setup_cmd="python3 bin/vsim.py setup", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 bin/vsim.py check %s" % i,
            thorough_cmd="VERIF_TIER=thorough python3 bin/vsim.py check %s" % i,
            evidence_file="evidence/%s.json" % i, technique=c["technique"], level="exploration", level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=REASON.get(i, "Check not built yet.")))
m["hooks"] = dict(guard="none", enable="No hooks in /repo: all seams are libc/libstdc++/sanitizer-interface symbols overridden at link time by the harness executables.", source_commits=[])
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "n/a")
