"""Regenerates MANIFEST.json from properties.jsonl and the modules in harness/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {}
NOTES = {}
exec(open(V + "/tools/manifest_notes.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/harness/props/{i.lower()}.py"):
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} --tier quick",
            "thorough_cmd": f"bash check.sh {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH.get(i, DEFAULT_TECH),
            "level": "exploration",
            "level_note": NOTES.get(i, DEFAULT_NOTE),
        })
    else:
        na.append({"property": i, "reason": NOT_BUILT.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Runtime monitoring only. Checks import raster_tools from /repo's working tree (pure Python, numba kernels are compiled by the run itself), so there is nothing to rebuild. No hooks were added to /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
