"""Source of the planted bugs: writes /verif/seeded/<id>/ (tools/seeds.py [ID...])."""
import json
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

V = Path(__file__).resolve().parent.parent
A = "src/auditwheel/"
S = {}


def seed(id, prop, needs, breaks, edits, demo):
    S[id] = (prop, needs, breaks, edits, demo)


exec((V / "tools/seeds_data.py").read_text())


def main(ids):
    for i in ids or S:
        prop, needs, breaks, edits, demo = S[i]
        T = Path(tempfile.mkdtemp(dir="/tmp"))
        try:
            subprocess.check_call(["git", "clone", "-q", __import__("os").environ.get("SEED_BASE", "/repo"), T / "r"])
            R = T / "r"
            for f, old, new in edits:
                p = R / A / f
                t = p.read_text()
                assert t.count(old) == 1, (i, f, old, t.count(old))
                p.write_text(t.replace(old, new))
            d = V / "seeded" / i
            d.mkdir(parents=True, exist_ok=True)
            diff = subprocess.check_output(["git", "-C", R, "diff"], text=True)
            assert diff
            (d / "patch.diff").write_text(diff)
            shutil.copy(V / "tools/demolib.py", d / "demolib.py")
            (d / "demo.py").write_text("from demolib import *  # noqa\n" + demo.strip() + "\nprint('ok')\n")
            (d / "demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
        finally:
            shutil.rmtree(T)


main(sys.argv[1:])
