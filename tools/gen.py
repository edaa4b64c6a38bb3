"""Generate /verif/properties.jsonl and /verif/MANIFEST.json."""
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from tools.props import P  # noqa: E402

lines, checks, na = [], [], []
for p in sorted(P, key=lambda p: p["id"]):
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p["state"]:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
    if p["observe"]:
        a["observe_at"] = list(p["observe"])
    a["hook_needed"] = None
    lines.append(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False))
    if p["na"] or not (ROOT / "checks" / f"{p['id'].lower()}.py").exists():
        na.append({"property": p["id"], "reason": p["na"] or "no check built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} --tier quick", "thorough_cmd": f"./check {p['id']} --tier thorough",
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
(ROOT / "properties.jsonl").write_text("\n".join(lines) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
print(len(lines), "properties", len(checks), "checks", len(na), "not applicable")
