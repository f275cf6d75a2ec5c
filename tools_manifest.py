#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/props.py and properties.jsonl (run by hand after adding a property)."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "sim"))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
assert set(ids) == set(PROPS) | set(NOT_APPLICABLE), set(ids) ^ (set(PROPS) | set(NOT_APPLICABLE))
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in ids:
    if p in PROPS:
        m["checks"].append({
            "property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
            "technique": "deterministic simulation with fault injection: " + PROPS[p]["technique"],
            "level": "exploration",
            "level_note": "Seeded search over simulated histories, schedules and faults on the real code; every failure is replayed three times and minimised. A clean batch is evidence, not proof. Trusts the stand-ins named in the evidence file and the reference model (long double, naive formulas)."})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE[p]})
m["notes"] = "No hooks in /repo: the library is header-only and its seams (allocator, callbacks, include paths of dependencies) suffice; code edges become yield points through compiler instrumentation."
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
