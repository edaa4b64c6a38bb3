#!/bin/bash
# nothing to build: the checks are Python and run /repo's working tree directly.
# Sanity of the environment only.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:/repo/src"
mkdir -p evidence replays
/opt/venv/bin/python - <<'PY'
from mc import world, elfgen, elfread, menu
world.import_auditwheel()
d = elfgen.build(menu.X(menu.base()))
e = elfread.read(d)
assert e.needed == ["liba.so.1", "libc.so.6"], e
import os
for t in world.TOOLS.values():
    assert os.access(t, os.X_OK), t
print("setup ok")
PY
