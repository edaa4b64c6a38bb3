"""tools/seed.py ID [CHECK...]: verify a planted bug in a scratch copy of /repo:
patch applies, compiles, tests pass, demo fails with it and passes without;
then run the named checks (default: that of meta.json) on the patched copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

V = Path(__file__).resolve().parent.parent
ident = sys.argv[1]
notest = "--notest" in sys.argv
checks = [a for a in sys.argv[2:] if not a.startswith("--")]
d = V / "seeded" / ident
meta = json.loads((d / "meta.json").read_text())
S = Path(tempfile.mkdtemp(prefix="seed-", dir="/tmp"))
try:
    def env(p):
        return {**os.environ, "PYTHONPATH": f"{p}/src", "PYTHONDONTWRITEBYTECODE": "1"}

    def tenv(p):
        e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTEST", "AUDITWHEEL", "LD_"))}
        return {**e, "HOME": "/root", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
                "PYTHONPATH": f"{p}/src", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}

    R = S / "repo"
    subprocess.check_call(["cp", "-a", os.environ.get("SEED_BASE", "/repo"), R])
    D = S / "demo"
    shutil.copytree(d, D, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = subprocess.run(["bash", D / "demo.sh"], cwd=R, env=env(R), capture_output=True, text=True)
    print(f"{ident}: demo on clean tree: {r.returncode}", r.stdout[-300:] + r.stderr[-300:] if r.returncode else "")
    subprocess.check_call(["git", "-C", R, "apply", d / "patch.diff"])
    r = subprocess.run(["bash", D / "demo.sh"], cwd=R, env=env(R), capture_output=True, text=True)
    print(f"{ident}: demo on patched tree: {r.returncode}", (r.stdout[-200:] + r.stderr[-200:]).strip())
    if not notest:
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "--basetemp", S / "pt",
                        "--ignore=tests/integration/test_manylinux.py", "-o", "junit_family=xunit2", f"--junitxml={S}/j.xml"], cwd=R, env=tenv(R), capture_output=True, text=True)
        subprocess.run(["python3", "/opt/vp/results.py", S / "res.json", f"junit:{S}/j.xml"], capture_output=True)
        res = json.loads((S / "res.json").read_text())
        stable = json.loads(Path("/opt/vp/BASELINE.json").read_text())["stable"]
        bad = [x for x in stable if x not in res["passed"] and "/repo/" not in x]
        print(f"{ident}: tests: {len(bad)} stable tests fail {bad[:3]}")
    for c in checks or [meta["property"]]:
        r = subprocess.run([V / "check", c], env={**os.environ, "VP_REPO": str(R), "VP_OUT": str(S / "o"), "VERIF_SEED": "1"}, capture_output=True, text=True)
        lines = [x for x in r.stdout.splitlines() if x.startswith("  ") or "cases" in x]
        print(f"{ident}: {c}: exit {r.returncode}\n   " + "\n   ".join(x[:260] for x in [*lines[:4], lines[-1] if lines else r.stderr[-300:]]))
finally:
    shutil.rmtree(S, ignore_errors=True)
