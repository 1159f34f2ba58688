#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from checks.registry import CHECKS
props = [json.loads(l) for l in open(f"{H}/properties.jsonl")]
T = "stateless model checking of the real code: exhaustive bounded enumeration of inputs, operation sequences and schedules, each execution compared with an independent reference model"
N = "Exhaustive within the bounds stated in DESIGN.md and in the evidence file. Trusts the reference model, the compiler, the sanitizers and the stand-ins in shim/ for the absent libswiftnav and libsbp submodules."
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        ck = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i} --quick", thorough_cmd=f"python3 run.py {i} --thorough", evidence_file=f"evidence/{i}.json", technique=ck.get("technique", T), level=ck.get("level", "model_checking"), level_note=ck.get("note", N)))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 run.py --setup", hooks=dict(guard="GC_VERIF", enable="no hooks: the checks compile /repo's sources as they are", source_commits=[]), checks=checks, not_applicable=na)
json.dump(m, open(f"{H}/MANIFEST.json", "w"), indent=1); open(f"{H}/MANIFEST.json", "a").write("\n")
