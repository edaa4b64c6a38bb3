"""tools/costs.json from the evidence of the last quick runs"""
import json
from pathlib import Path

R = Path(__file__).resolve().parent.parent
f = R / "tools/costs.json"
c = json.loads(f.read_text()) if f.exists() else {}
for p in sorted((R / "evidence").glob("C*.json")):
    e = json.loads(p.read_text())
    if e["tier"] == "quick" and not e["violations"]:
        k = e["coverage"]
        c[e["property"]] = {"cases": k.get("cases", k.get("cases_in_space")), "states": k.get("states"), "transitions": k.get("transitions"), "s": round(e["wall_s"]), **({"bounds": k["bounds"]} if e["property"] in ("C12", "C30") else {})}
f.write_text(json.dumps(c, indent=1, sort_keys=True) + "\n")
