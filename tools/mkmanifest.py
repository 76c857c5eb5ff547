"""Writes MANIFEST.json for the properties that have a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
TECH = "deterministic simulation with fault injection (seeded search over operations, schedules and faults)"
NOTE = ("Holds on every explored execution; real variantlib code over a simulated machine with injected faults; "
        "not exhaustive. Trusts the reference model in dst/model.py and dst/wheels.py and the stand-ins for process "
        "creation and pip/venv.")
EXTRA = {
    "C16": "Threads are real but run one at a time under a seeded line-level scheduler; switches only at traced lines of variantlib.",
    "C22": "Processes are threads of the simulator with private process state, run one at a time; switches at file-system, listing and spawn events.",
    "C20": "Each plan is executed in two interpreters that differ in hash seed, listing order, clock and temporary names.",
    "C21": "Well-formedness is decided by an independent schema in dst/schema.py; damage includes structural edits and bit rot.",
    "C18": "Each plan is executed in two interpreters that differ in hash seed, listing order, clock and temporary names.",
}
NA = {}
checks = []
for p in props:
    i = p["id"]
    if i in NA or not os.path.exists(f"{V}/dst/props/{i.lower()}.py"):
        continue
    checks.append({
        "property": i, "quick_cmd": f"python3 -m dst.ctl check {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 -m dst.ctl check {i}",
        "technique": TECH, "level": "exploration", "level_note": NOTE + (" " + EXTRA[i] if i in EXTRA else "")})
have = {c["property"] for c in checks} | set(NA)
na = [{"property": k, "reason": v} for k, v in NA.items()]
na += [{"property": p["id"], "reason": "check not written yet"} for p in props if p["id"] not in have]
json.dump({"version": 1, "setup_cmd": "python3 -m dst.setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: all seams are standard-library interfaces replaced in the simulator's process."},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
