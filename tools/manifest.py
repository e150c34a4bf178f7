"""Write /verif/MANIFEST.json from the headers of checks/*.py."""
import ast
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
checks, claimed = [], set()
for f in sorted((V / "checks").glob("c*.py")):
    d = {}
    for n in ast.parse(f.read_text()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception:
                pass
    claimed.add(d["PROPERTY"])
    checks.append({
        "property": d["PROPERTY"],
        "quick_cmd": "%s checks/%s --tier quick" % (PY, f.name),
        "thorough_cmd": "%s checks/%s --tier thorough" % (PY, f.name),
        "evidence_file": "evidence/%s.json" % d["PROPERTY"],
        "technique": d["TECHNIQUE"],
        "level": d.get("LEVEL", "model_checking"),
        "level_note": d["LEVEL_NOTE"],
    })
na = json.loads((V / "tools/not_applicable.json").read_text())
m = {
    "version": 1,
    "setup_cmd": "%s lib/vbuild.py main" % PY,
    "checks": checks,
    "not_applicable": [
        {"property": p["id"], "reason": na.get(p["id"], "no check built yet")}
        for p in props if p["id"] not in claimed],
}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed;", [x["property"] for x in m["not_applicable"]])
