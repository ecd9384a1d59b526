"""Regenerates MANIFEST.json from the contracts present."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(H, "tools", "level_notes.py")).read(), NOTE)
checks = []
for line in open(os.path.join(H, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if not os.path.exists(os.path.join(H, "contracts", f"c{pid[1:]}.py")):
        continue
    checks.append({
        "property": pid,
        "quick_cmd": f"python3-vt check.py {pid} --tier quick",
        "thorough_cmd": f"python3-vt check.py {pid} --tier thorough",
        "technique": NOTE["TECH"].get(pid, NOTE["TECH"]["*"]),
        "level": "proof",
        "level_note": NOTE["NOTES"].get(pid, NOTE["NOTES"]["*"]),
    })
na = [{"property": json.loads(l)["id"], "reason": NOTE["NA"].get(json.loads(l)["id"], "contracts not built yet")}
      for l in open(os.path.join(H, "properties.jsonl"))
      if not os.path.exists(os.path.join(H, "contracts", f"c{json.loads(l)['id'][1:]}.py"))]
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
