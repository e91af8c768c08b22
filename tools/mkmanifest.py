"""Writes /verif/MANIFEST.json from properties.jsonl and the property modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "level_notes.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(V, "pbt", "props", pid.lower() + ".py")):
        n = NOTES[pid]
        checks.append(dict(
            property=pid,
            quick_cmd=f"/opt/venv/bin/python pbt/run.py {pid}",
            thorough_cmd=f"/opt/venv/bin/python pbt/run.py {pid} --tier thorough",
            evidence_file=f"evidence/{pid}.json",
            technique=n["technique"], level="exploration", level_note=n["note"]))
    else:
        na.append(dict(property=pid, reason="check not built yet (work in progress)"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup_check.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
