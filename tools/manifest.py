"""Source of /verif/MANIFEST.json (run: python3 tools/manifest.py)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props  # noqa: E402
import notes  # noqa: E402

checks, na = [], []
for p in props.P:
    i = p["id"]
    f = os.path.join(V, "checks", i.lower() + ".py")
    if os.path.exists(f):
        cmd = "python3 /verif/checks/%s.py" % i.lower()
        tech, note = notes.NOTES[i]
        checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": cmd + " --thorough", "technique": tech,
                       "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": notes.NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "true", "hooks": {"guard": "COCO_MC", "enable": "not used: the checks need no hooks in /repo", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": notes.GENERAL}
with open(os.path.join(V, "MANIFEST.json"), "w") as g:
    json.dump(m, g, indent=1)
    g.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
