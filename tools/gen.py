#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/propdefs.py and the harnesses present."""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import propdefs
import levels
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in propdefs.P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        for x in p["anchors"]["files"]:
            assert os.path.exists(os.path.join("/repo", x)), (p["id"], x)
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
have = {os.path.basename(x)[:-4] for x in glob.glob(os.path.join(HERE, "props", "*.cpp"))}
checks, na = [], []
for p in propdefs.P:
    i = p["id"]
    if i in have and i in levels.L:
        t, note = levels.L[i]
        checks.append({"property": i, "quick_cmd": f"python3 run.py check {i} quick", "thorough_cmd": f"python3 run.py check {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": levels.NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the checks compile /repo/src as is (some also with the repository's own TESTS or SPECTRAL defines). "
              "Replays: python3 run.py replay <ID> <file>."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
