#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from config import PROPS, NOT_APPLICABLE, NOTES
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
               technique="deterministic simulation with fault injection: seeded search over schedules and faults" + (", " + PROPS[p]["oracle"] if PROPS[p].get("oracle") else ""),
               level="exploration",
               level_note=NOTES.get(p) or NOTES["*"]) for p in ids if p in PROPS]
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "no check yet")) for p in ids if p not in PROPS]
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the simulator takes control through compiler instrumentation and interposed OS interfaces, so the shipped build is unchanged."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
