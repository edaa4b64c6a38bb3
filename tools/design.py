"""Write DESIGN.md (run with /opt/venv/bin/python)."""
import importlib
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from tools.props import P  # noqa: E402

out = [(ROOT / "tools/design_head.md").read_text().rstrip(), "", "## Properties", "",
       "For each: what is enumerated and against which oracle, the bounds of both tiers, the cost of the quick tier (8 cores), and why this reaches what the tests cannot. Statements: properties.jsonl.", ""]
costs = json.loads((ROOT / "tools/costs.json").read_text())


def short(o, n=700):
    s = o if isinstance(o, str) else "; ".join(f"{k}: {(', '.join(map(str, v)) if isinstance(v, (list, tuple)) else ', '.join(v) if isinstance(v, dict) else v)}" for k, v in o.items())
    return s if len(s) <= n else s[:n].rsplit(" ", 1)[0] + " ..."


seen = {}
for p in sorted(P, key=lambda p: p["id"]):
    m = importlib.import_module(f"checks.{p['id'].lower()}")
    c = costs.get(p["id"], {})
    out += [f"### {p['id']} {p['title']}", "", f"*Decided by*: {p['technique']}.", "", f"*Space and oracle*: {'as in ' + seen[m.RULE] if m.RULE in seen else m.RULE}", ""]
    seen.setdefault(m.RULE, p["id"])
    if p["id"] in ("C12", "C30"):
        b = c.get("bounds", "every fault point / schedule of the listed scenarios")
        out += [f"*Bounds*: {short(b)}", ""]
    elif hasattr(m, "bounds"):
        out += [f"*Bounds, quick*: {short(m.bounds('quick'))}", "", f"*Bounds, thorough*: {short(m.bounds('thorough'))}", ""]
    if c:
        out += [f"*Cost, quick*: {c['cases']} cases, {c['states']} states, {c['transitions']} transitions in {c['s']} s.", ""]
    out += [f"*Assumes*: {'; '.join(getattr(m, 'ASSUMPTIONS', []))}.", "", f"*Why not tests*: {p['why']}", ""]
out += [(ROOT / "tools/design_tail.md").read_text().rstrip(), "", "## Planted bugs", "", (ROOT / "tools/design_seeds.md").read_text().rstrip(), ""]
(ROOT / "DESIGN.md").write_text("\n".join(out))
