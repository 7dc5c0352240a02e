"""Writes MANIFEST.json from engine/spec.py and the reasons in tools/props.py."""
import json, os, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
os.makedirs(os.path.join(V, "build"), exist_ok=True)
runpy.run_path(os.path.join(V, "tools/props.py"))
import spec
na = json.load(open(os.path.join(V, "build/na.json")))
m = {"version": 1, "setup_cmd": "python3 engine/build.py", "checks": [], "not_applicable": na}
for pid, p in sorted(spec.PROPS.items()):
    m["checks"].append({"property": pid, "quick_cmd": "python3 engine/verify.py quick " + pid, "thorough_cmd": "python3 engine/verify.py thorough " + pid,
                        "evidence_file": "evidence/%s.json" % pid, "technique": p["technique"], "level": p["level"], "level_note": p["level_note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
