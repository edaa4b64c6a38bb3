"""Interpreters with a chosen string-hash seed, to realise different iteration
orders of sets.  Server: python -m mc.zygote; client: ask(seed, request)."""

from __future__ import annotations

import hashlib
import json
import os
import subprocess
import sys

_procs: dict = {}


def ask(seed: int, req: dict) -> dict:
    p = _procs.get(seed)
    if p is None or p.poll() is not None:
        env = {k: v for k, v in os.environ.items()}
        env["PYTHONHASHSEED"] = str(seed)
        p = subprocess.Popen([sys.executable, "-m", "mc.zygote"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True)
        _procs[seed] = p
    p.stdin.write(json.dumps(req) + "\n")
    p.stdin.flush()
    ln = p.stdout.readline()
    if not ln:
        raise RuntimeError("zygote died")
    return json.loads(ln)


def outcome(req: dict) -> dict:
    """run the commands of req in one fresh box; everything that must not vary"""
    from mc import world

    with world.Box(req["spec"]) as b:
        rs = []
        for i, a in enumerate(req["argvs"]):
            rs.append(b.run(a, opts=req.get("opts"), env=req.get("env"), cwd=world.subst(req["cwd"], b.map) if req.get("cwd") else None))
        outs = {}
        for d, _, fs in os.walk(f"{b.root}/{req.get('outdir', 'out')}"):
            for f in sorted(fs):
                p = os.path.join(d, f)
                with open(p, "rb") as fh:
                    outs[os.path.relpath(p, b.root)] = hashlib.sha256(fh.read()).hexdigest()
        keep = []
        if req.get("keep"):
            keep = b.outputs(req.get("outdir", "out"))
        return {"rc": [str(r.rc).replace(b.root, "") for r in rs], "out": [r.out.replace(b.root, "") for r in rs], "err": rs[0].err[-300:], "outs": outs,
                "wheels": keep}


def order(strs) -> list:
    return list(set(strs))


def main():
    from mc import world

    world.import_auditwheel()
    # an in-memory clock, so that the parent's pipe end closes us
    for ln in sys.stdin:
        req = json.loads(ln)
        if "order" in req:
            res = {"order": order(req["order"])}
        else:
            req.pop("keep", None)
            res = outcome(req)
        sys.stdout.write(json.dumps(res) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
