#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and the reasons below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
PURE = "A sequential, pure function of its arguments: no scheduling, time, I/O, randomness or fault can influence it, so a simulator has nothing to decide; "
NA = {
    "C20": PURE + "it would be generated-input testing or proof, which this task excludes.",
    "C21": PURE + "it would be generated-input testing or proof, which this task excludes.",
    "C22": PURE + "it would be generated-input testing or proof, which this task excludes.",
    "C23": PURE + "it would be generated-input testing or proof, which this task excludes.",
    "C24": PURE + "it would be generated-input testing or proof, which this task excludes.",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = ("Seeded search over whole executions of the real library code; quiet means no violation in the explored runs (counts in the evidence file). "
        "Trusts the simulator in /verif/sim (scheduler, race detector, disk, allocator) and the oracle in the harness; ")
TECH = "deterministic simulation with fault injection: "
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py " + i + " --thorough",
                           technique=TECH + c["tech"], level="exploration", level_note=NOTE + c["note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "Check under construction.")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the seams are compiler instrumentation (the sanitizer's call-outs go to our runtime), the task-pool header, and link-time replacement of the C library's thread, file, clock and allocation entry points. Replay: python3 check.py <id> --replay <file>.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
