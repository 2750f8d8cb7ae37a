#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {
    "N01": "A pure function of one decimal constant: no concurrency, time, I/O, faults or history for a simulation to vary (the end effect of the factors is covered by D09).",
    "N03": "A pure function of one string: no concurrency, time, I/O, faults or history for a simulation to vary.",
}
TECH_G = "deterministic simulation of generator processes on a simulated OS: seeded faults, crashes, schedules; oracle over file-system history"
TECH_D = "deterministic discrete-event simulation of a CAN bus of generated drivers: seeded matrices, frame faults, restarts; independent reference model"
NOTE_G = "Seeded search, not exhaustive. Runs the real generator code in-process; trusts the simulated file system, clock and heap model."
NOTE_D = "Seeded search, not exhaustive. Runs the generator's real output compiled by gcc; trusts the bus model and the independent reference codec; domain of matrices as listed in DESIGN.md."
CLAIM = os.environ.get("CLAIM", "").split() or [p["id"] for p in props if p["id"] not in NA]
checks = []
for p in props:
    i = p["id"]
    if i not in CLAIM:
        continue
    g = i[0] == "G"
    checks.append({"property": i, "quick_cmd": "./check.py " + i, "thorough_cmd": "./check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": TECH_G if g else TECH_D, "level": "exploration", "level_note": NOTE_G if g else NOTE_D})
m = {"version": 1, "setup_cmd": "./check.py setup", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check under construction")} for p in props if p["id"] not in CLAIM],
     "notes": "No hooks in /repo: the generator is built as a shared object from /repo/src and its system interface (libc calls, C++ runtime throw of EIO etc.) is bound to the simulator; the generated drivers have seams of their own (tick, hash, monitor functions)."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
