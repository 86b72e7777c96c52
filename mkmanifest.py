#!/usr/bin/env python3
"""Source of MANIFEST.json (regenerate with ./mkmanifest.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import engine

CONF = "TLA+ specification of bfs (spec/Search.tla), checked with TLC; runs of the real binary are validated as behaviours of it"
T = {p: CONF for p in engine.ENGINES}
T.update(engine.TECHNIQUE)
NOTE = "TLC decides for every recorded run of the real binary whether it is a behaviour of the specification; runs are generated (bounded trees and commands), so the binding to the code is sampled, not exhaustive"
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: bfs is observed from outside, or its sources are compiled into harnesses in /verif", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": "./check.py %s quick" % p, "thorough_cmd": "./check.py %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": T[p], "level": "model_checking",
                 "level_note": engine.NOTES.get(p, NOTE)} for p in props if p in engine.ENGINES],
     "not_applicable": [{"property": p, "reason": engine.NA.get(p, "not built yet")} for p in props if p not in engine.ENGINES]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
