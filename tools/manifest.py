#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and tools/na.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sched = "seeded deterministic simulation: callers under a simulated scheduler and clock, every answer judged against a reference model, the race detector on in each run"
disk = "seeded deterministic simulation with fault injection on a simulated disk, streams, clock and process"
note = ("Sampled, not exhaustive: tens of thousands (quick) to millions (thorough) of seeded runs; every failure replays from its file. "
        "Real repository code, instrumented at check time; trusted: the simulator, the stand-ins for packages missing offline, and the reference model. ")
CHECKS = {
 "C01": (sched, "Callers, years and statement-level interleavings are sampled; years 639 to 9999."),
 "C02": (sched, "Angles are compared up to whole turns and 0.001 degree (wider where the rounding of an intermediate step is ambiguous)."),
 "C03": (sched, "Kattika and Asalha dates for years 640 to 4116, the range in which the rules define them."),
 "C04": (sched, "Sampled histories of re-initialisation, copies, JSON round trips and cache-like reuse, with restarts."),
 "C08": (sched, "All embedded files take turns; store operations through every accessor and handle."),
 "C09": (sched + "; embedded records damaged in memory (flips, cuts, drops, duplicates, noise)", "A damaged record may still decode to the exact original bytes, which is accepted."),
 "C10": (disk, "Open, read, stat and close faults, short reads, changing and missing files on the simulated disk."),
 "C11": (sched, "Callers scribble over, grow and keep their bytes while others read."),
}
EXTRA = os.path.join(here, "tools", "checks_extra.json")
if os.path.exists(EXTRA):
    for k, v in json.load(open(EXTRA)).items():
        t = {"sched": sched, "disk": disk}.get(v[0], v[0])
        CHECKS[k] = (t, v[1])
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], json.load(open(os.path.join(here, "tools", "na.json")))
have = {x["property"] for x in na}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, n = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": note + n})
    elif i not in have:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./check.sh warm", "checks": checks, "not_applicable": na,
     "notes": "No hooks are committed in /repo: the checks instrument a copy of the working tree's sources at check time (sim/simctl/instrument.go). Replay a violation with ./check.sh replay FILE; ./check.sh selftest shows that runs are a pure function of their seed."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
