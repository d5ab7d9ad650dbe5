#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
CLAIMED = "T01 T02 T03 P01 P02 P03 P04 P05 P06 P07 P08 P09 R01 R02 R03 U01 U02 W01 C01 E01 I01 D01 F01 L01 X01 Q01 T04 K01 S01 B01 Y01 A01 G01".split()
NA = {}
TECH = "symbolic execution of the real code's SSA (regenerated from /repo on every run), path conditions and assertions decided by z3 over all inputs within the stated bounds; counterexamples replayed on the compiled code"
NOTE = "All inputs within each harness's stated bounds (text length, list lengths, nesting, token vocabulary); inputs beyond them are outside. The evidence file lists bounds, encoded functions, queries and solver time per harness."
m = {"version": 1,
     "setup_cmd": "cd engine && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o /dev/null . && cd ../harness && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build ./...",
     "checks": [{"property": p, "quick_cmd": f"bash run.sh {p} quick", "thorough_cmd": f"bash run.sh {p} thorough",
                 "technique": TECH, "level": "model_checking", "level_note": NOTE} for p in CLAIMED],
     "not_applicable": [{"property": p, "reason": NA.get(p, "no check is registered for it yet")} for p in ids if p not in CLAIMED]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
