import importlib
import os
import sys

from mc.explore import main

if __name__ == "__main__":
    modname = f"checks.{sys.argv[1]}"
    if getattr(importlib.import_module(modname), "PRELOAD", False):
        from mc import fault

        fault.preload()
    for k in ("LD_PRELOAD", "VP_SHIM"):
        os.environ.pop(k, None)
    sys.exit(main(modname, sys.argv[2:]))
