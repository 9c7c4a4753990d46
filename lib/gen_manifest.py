"""Writes MANIFEST.json from properties.jsonl and the property modules present in lib/props."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
NOTES = json.loads((V / "lib" / "level_notes.json").read_text())
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "lib" / "props" / f"{i.lower()}.py").exists():
        n = NOTES.get(i, {})
        checks.append({
            "property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
            "technique": "property-based testing: " + n.get("technique", "generated inputs against an explicit oracle"),
            "level": "exploration",
            "level_note": n.get("note", "Sampled search over generated inputs; no exhaustive claim. Trusts the generator's model of SPL and the recording PySpark stand-in.")})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 lib/build.py", "checks": checks, "not_applicable": na}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed,", len(na), "not")
