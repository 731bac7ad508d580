"""Regenerates /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os

root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
NOTE = ("Exploration of the real code in /repo: seeded generated {what}; every answer of the library is compared with an "
        "independent model by runtime monitors. No proof outside the generated cases.")
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(root, "vmon", "checks", f"{pid.lower()}.py")):
        checks.append({
            "property": pid,
            "quick_cmd": f"VERIF_TIER=quick ./run.sh {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {pid}",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "runtime monitoring: reference-model monitors, traced sources, logical step budget",
            "level": "exploration",
            "level_note": NOTE.format(what=p["quantifier"]["text"]),
        })
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import dissect.volume.raid.raid'", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public API and the file objects handed to it."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "without")
