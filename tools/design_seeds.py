"""tools/design_seeds.md: the table of planted bugs (run before tools/design.py)."""
import json
from pathlib import Path

R = Path(__file__).resolve().parent.parent
# what the first run of the checks missed, and what was strengthened for it
MISSED = {
    "b13-rpath-substring": "directories whose name starts with that of the library directory (menu r.libs_more, r.libs_less)",
    "b14-whitelist-minor": "libraries named like whitelisted ones with more, less or another end (menu g.wlmore_b, g.wlless_b, g.wlend_b)",
    "b15-dist-info-name": "members named like the .dist-info directory (menu f.di_like, f.di_more, f.di_up)",
    "b17-empty-path": "operation p0 of C16 (an empty search path)",
    "b21-dotdot-link": "wheels and directories given through link/.. (C23)",
    "b26-arm-float": "all combinations of ARM float flags (C18)",
    "b28-shared-tmp": "concurrent commands share a process group, as from one shell (C30)",
}
out = ["Each was written from the statement of a property and the code, verified in a scratch copy (builds, stable tests pass, demonstration fails with it and passes without), "
       "and then the checks were run on it (`tools/seed.py ID [CHECK...]`). *First missed* says what was added to the checks when the first run did not see it.", "",
       "| bug | property, caught by | needs | first missed: strengthened by |", "|---|---|---|---|"]
for d in sorted((R / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    out.append(f"| {d.name} | {m['property']} | {m['needs']} | {MISSED.get(d.name, '')} |")
out += ["", (R / "tools/design_waves.md").read_text().rstrip()]
(R / "tools/design_seeds.md").write_text("\n".join(out) + "\n")
