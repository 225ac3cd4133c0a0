#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties that have a check."""
import json, os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
have = {f[:3].upper() for f in os.listdir(os.path.join(H, "harness/checks")) if re.match(r"c\d\d_test\.go$", f)}
TECH = json.load(open(os.path.join(H, "tools/technique.json")))
LEVEL = {"C12": "fault_enumeration", "C23": "fault_enumeration"}
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": [],
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the exported API, the built command-line tool and crypto/rand.Reader only", "source_commits": []},
     "notes": "check.py ID [quick|thorough] [--replay FILE]; known and fixed defects are in KNOWN_FINDINGS.txt; see DESIGN.md"}
for p in props:
    i = p["id"]
    if i in have:
        t, note = TECH[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
            "technique": t, "level": LEVEL.get(i, "exploration"), "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "checks")
