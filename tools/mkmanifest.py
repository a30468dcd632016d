"""Regenerates MANIFEST.json from the checks present in props/."""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(V + "/properties.jsonl")]
tech = json.load(open(V + "/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/props/{i.lower()}.py") and i in tech:
        t = tech[i]
        checks.append({"property": i, "quick_cmd": f"/opt/venv/bin/python run.py {i}",
                       "thorough_cmd": f"/opt/venv/bin/python run.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": t[0], "level": "exploration",
                       "level_note": t[1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python lib/build.py opt asan",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check observes the public Python API of a library built from /repo's working tree by lib/build.py into build/ (content-addressed). Replay one failing case with: run.py PID --replay FILE."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "unclaimed")
