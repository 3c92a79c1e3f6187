#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
NOTE = json.load(open(os.path.join(V, "tools", "notes.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bin/setup",
     "checks": [], "not_applicable": []}
TRUST = (" Trusted: the recorder harness/driver.c, TLC's evaluation of the definitions, "
         "the compiler. Bounds: the inputs, scripts and schedules counted in the evidence file.")
for i in ids:
    if i in props.CHECKS:
        m["checks"].append({
            "property": i, "quick_cmd": "bin/check " + i,
            "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
            "technique": NOTE["technique"].get(i, NOTE["technique"]["*"]),
            "level": "model_checking",
            "level_note": NOTE["note"].get(i, NOTE["note"]["*"]) + TRUST})
    else:
        m["not_applicable"].append({"property": i, "reason": "The check is not built yet."})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
