#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules present in /verif/checks."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
sys.path.insert(0, os.path.join(V, "engine"))
sys.dont_write_bytecode = True
NA = json.load(open(os.path.join(V, "tool", "not_applicable.json")))
claimed = []
for f in sorted(glob.glob(os.path.join(V, "checks", "c[0-9][0-9].py"))):
    m = importlib.import_module(os.path.basename(f)[:-3])
    pid = os.path.basename(f)[:-3].upper()
    cmd = "python3 checks/run.py " + pid
    claimed.append({"property": pid, "quick_cmd": cmd, "thorough_cmd": cmd + " --tier thorough",
                    "evidence_file": "evidence/%s.json" % pid, "technique": m.TECHNIQUE, "level": m.LEVEL,
                    "level_note": m.NOTE})
ids = [c["property"] for c in claimed]
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [n for n in NA if n["property"] not in ids]
for p in props:
    if p not in ids and p not in [n["property"] for n in na]:
        na.append({"property": p, "reason": "the check for this property is not finished yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": claimed, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(claimed), "claimed;", len(na), "not applicable")
