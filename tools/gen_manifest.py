#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_table.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "tools"))
from checks_table import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "C24": "Decided entirely by the compiler: the predicates are evaluated at compile time and leave nothing to execute, so there is no schedule, clock, I/O, allocation or fault a simulator could put between cause and effect. A check would be a static assertion, which is another technique.",
}
checks = []
for p in props:
    if p["id"] in CHECKS:
        c = CHECKS[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
            "technique": "deterministic simulation with fault injection: seeded search over operation histories, schedules and fault sequences against a reference model",
            "level": "exploration",
            "level_note": c.get("note", "Seeded search, not exhaustive: a quiet check means no violation in the sampled histories and fault sequences (%s). " % "numbers in the evidence file") + "Trusts the simulator (heap shadow, access hooks inserted by g++ -fsanitize=thread, interposed seams) and the reference model in checks/%s. %s" % (c["src"], c.get("limits", ""))})
na = [{"property": p["id"], "reason": NA.get(p["id"], "No check yet.")} for p in props if p["id"] not in CHECKS]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
  "notes": "One binary per check, built by check.py from /repo's working tree (cached under build/ by content). No hooks in /repo: every seam is taken at compile time (-fsanitize=thread access callbacks supplied by sim/simrt.cpp), at link time (--wrap, symbol interposition) or through the element, callback and stream parameters of the API."},
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
