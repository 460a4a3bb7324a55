"""Writes /verif/MANIFEST.json from sim/registry_meta.py and the not-applicable list."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import registry_meta as rm
TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences"
props = [json.loads(l) for l in open("properties.jsonl")]
NA = {
    "C30": "Pure function of its input: no clock, schedule, I/O fault, crash or history takes part, so a simulated environment decides nothing here; a generator plus oracle (property-based testing) would be another technique. Its faulty-I/O and history aspects are decided under C12 and C16.",
    "C31": "Pure translation of one document; needs program equivalence checking, not simulation of an environment. Its determinism and independence are decided under C16, its output files under C08.",
    "C32": "Pure function of the process description; nothing nondeterministic to simulate. Files and history aspects are decided under C08, C09 and C16.",
    "C33": "Pure function of the workflow; no schedule, time or fault takes part. Its independence of earlier operations is decided under C16.",
    "C34": "Pure function of reference and context; no schedule, time or fault takes part (the regex engine does no I/O). The end-to-end value of fields is decided under C05.",
    "C35": "Pure function of two formats and an ontology graph; nothing to schedule, delay or fail.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in rm.META:
        m = rm.META[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick bash run.sh check %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough bash run.sh check %s" % i,
                       "technique": TECH, "level": "exploration", "level_note": m.get("note", rm.NOTE)})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "bash run.sh setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: all seams are at Python standard library level (subprocess, os, select, threading, time, io, urllib, requests)."},
          open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
