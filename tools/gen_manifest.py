#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOTES, NOT_APPLICABLE

m = {
    "version": 1,
    "setup_cmd": "python3 /verif/check.py --setup",
    "hooks": {"guard": "", "enable": "", "source_commits": []},
    "checks": [{
        "property": p,
        "quick_cmd": "python3 check.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
        "technique": "deterministic simulation with fault injection: " + NOTES[p][0],
        "level": "exploration",
        "level_note": NOTES[p][1],
        "evidence_file": "evidence/%s.json" % p,
    } for p in sorted(CHECKS)],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())],
    "notes": "No hook in /repo is needed: all seams are at link level (wrapped allocator, file and loader functions), in compiler "
             "instrumentation of memory accesses and in the callbacks of the FMI interface. See DESIGN.md.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
