#!/usr/bin/env python3
"""Writes MANIFEST.json: claims every property the simulator has a check for."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
have = subprocess.run([f"{V}/sim/target/release/ksim", "list"], capture_output=True, text=True).stdout.split()
NA = {
 "N01": "date and time conversions are pure functions of one value: no schedule, I/O, time or fault for a simulator to decide, so simulation would only be random testing of a pure function",
 "N02": "character encoders and decoders are pure functions over a byte slice held in memory: no schedule, I/O, time or fault can affect them",
 "N03": "the basic types parse and print values held in memory: no schedule, I/O, time or fault can affect them",
 "N04": "layout declarations are judged by the compiler when the macro is expanded: nothing runs that could be simulated (the records the macro generates are decided under C02)",
 "N05": "the documentation preprocessor is a single pass over one in-memory document: no schedule, fault or history can affect it",
}
NOTES = {}
exec(open(f"{V}/tools/level_notes.py").read())
checks = []
na = []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": "deterministic simulation with fault injection: seeded search over operation histories, read splits, faults and schedules against a reference model",
            "level": "exploration",
            "level_note": NOTES.get(i, "seeded simulated runs; every reported violation replays exactly from its file; a clean run is evidence over the explored histories, not a proof"),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": checks,
    "not_applicable": na,
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
