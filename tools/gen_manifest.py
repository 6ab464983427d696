#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = "stateless model checking: exhaustive schedule exploration of the real code under a controlled scheduler, preemption-bounded"
SEQ = "explicit-state enumeration of the real code: all inputs of a bounded alphabet x all outcomes of a random-draw decision tree, against a reference model"
NOTE_SCHED = "All interleavings of the real renderer's worker tasks, channels, locks and clock readings up to the stated preemption bound and sizes; sequential consistency is assumed; rayon's pool and std::sync are replaced by controlled stand-ins with the same interface."
NOTE_SEQ = "Complete enumeration of the stated finite alphabet of inputs and random outcomes on the real code, each compared with an independent reference model; values between the grid points are not covered."
checks = []
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
main = {b: open(os.path.join(V, "mc", b, "src", "main.rs")).read() for b in ("sched", "seq")}
na = []
for i in ids:
    b = next((b for b in ("sched", "seq") if f'"{i}"' in main[b]), None)
    if b is None:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": SCHED if b == "sched" else SEQ,
                   "level": "model_checking", "level_note": NOTE_SCHED if b == "sched" else NOTE_SEQ})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checkers compile its unchanged sources against stand-ins for std (sched), rayon-core, fastrand and oidn."}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
