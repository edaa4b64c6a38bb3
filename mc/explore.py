"""The explorer: enumerates the cases of a check, runs each on the real code in
a pool of worker processes, evaluates the oracle on every one, counts states
and transitions, writes evidence, replay files and verdict lines."""

from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import time
import traceback
from dataclasses import dataclass, field
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
OUT = Path(os.environ.get("VP_OUT", ROOT))  # development only
EVID = OUT / "evidence"
REPLAY = OUT / "replays"
KNOWN = ROOT / "known_findings.json"


@dataclass
class CR:
    """result of one case"""

    violations: list = field(default_factory=list)  # (signature, message)
    states: list = field(default_factory=list)  # canonical strings
    transitions: int = 0
    impl: int = 1  # executions of the real code
    nontrivial: bool = True
    info: str = ""


def h(s: str) -> str:
    return hashlib.sha256(s.encode("utf-8", "backslashreplace")).hexdigest()[:16]


_MOD = None


def _init(modname):
    global _MOD
    import resource

    _MOD = importlib.import_module(modname)
    # code that runs wild is stopped, not the machine
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    if hasattr(_MOD, "setup"):
        _MOD.setup()


def _one(case):
    try:
        r = _MOD.run_case(case)
        return case, r.violations, [h(s) for s in r.states], r.transitions, r.impl, r.nontrivial, r.info, None
    except Exception:  # noqa: BLE001
        return case, [], [], 0, 0, False, "", traceback.format_exc()


def _many(cases):
    return [_one(c) for c in cases]


def results(pool, groups):
    """results as they come; a worker that was killed does not block the run"""
    pids = {p.pid for p in pool._pool}
    it = pool.imap_unordered(_many, groups)
    last = time.time()
    while True:
        try:
            rs = it.next(timeout=5)
        except StopIteration:
            return
        except mp.TimeoutError:
            if {p.pid for p in pool._pool} != pids and time.time() - last > 90:
                yield None, [], [], 0, 0, False, "", "a worker process was killed"
                return
            if time.time() - last > 300:
                yield None, [], [], 0, 0, False, "", "cap"
                return
            continue
        last = time.time()
        yield from rs


def known(prop: str) -> list[dict]:
    if not KNOWN.exists():
        return []
    return [k for k in json.loads(KNOWN.read_text()) if k["property"] == prop and k.get("status", "open") == "open"]


def matches(k: dict, case, sig: str) -> bool:
    if k["signature"] != sig:
        return False
    c = json.loads(json.dumps(case))
    names = c.get("names", []) if isinstance(c, dict) else c
    if "needs" in k:  # the finding is identified by the deviations that produce it
        if not any(set(alt) <= set(names) for alt in k["needs"]):
            return False
    if "case" in k and k["case"] != c:
        return False
    return True


def main(modname: str, argv=None) -> int:
    mod = importlib.import_module(modname)
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument("--max", type=int, default=8, help="stop after this many violations")
    ap.add_argument("--all", action="store_true", help="report every violation")
    ap.add_argument("--cap", type=float, default=None)
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    pid = mod.ID
    if a.replay:
        _init(modname)
        case = json.loads(Path(a.replay).read_text())["case"]
        _, viol, *_rest, err = _one(case)
        if err:
            print(err, file=sys.stderr)
            return 2
        for sig, msg in viol:
            print(f"{sig}: {msg}")
        print("violated" if viol else "held")
        return 1 if viol else 0

    os.environ["VP_TIER"] = tier
    cap = a.cap or (780 if tier == "quick" else 6 * 3600)
    cases = list(mod.cases(tier))
    # the seed only permutes the order in which the (fixed) space is visited
    import random

    if getattr(mod, "SHUFFLE", True):
        random.Random(seed).shuffle(cases)
    kf = known(pid)
    kf_hit: dict[int, str] = {}
    viols: list[tuple] = []
    states: set[str] = set()
    trans = impl = evald = nontriv = 0
    errors = []
    samples = []
    capped = False
    REPLAY.mkdir(exist_ok=True, parents=True)
    EVID.mkdir(exist_ok=True, parents=True)
    ctx = mp.get_context("fork")
    chunk = max(1, min(16, len(cases) // (a.jobs * 8) or 1))
    with ctx.Pool(a.jobs, _init, (modname,), maxtasksperchild=None) as pool:
        try:
            for case, v, st, tr, im, nt, info, err in results(pool, [cases[i:i + chunk] for i in range(0, len(cases), chunk)]):
                if err == "cap":
                    capped = True
                    break
                evald += 1
                if err:
                    errors.append((case, err))
                    if len(errors) > 5:
                        break
                    continue
                fresh = not set(st) <= states
                states.update(st)
                trans += tr
                impl += im
                nontriv += bool(nt)
                if len(samples) < 6 and fresh and nt:
                    samples.append({"case": case, "outcome": info})
                for sig, msg in v:
                    for i, k in enumerate(kf):
                        if matches(k, case, sig):
                            kf_hit.setdefault(i, msg)
                            break
                    else:
                        viols.append((case, sig, msg))
                if len(viols) >= a.max and not a.all:
                    break
                if time.time() - t0 > cap:
                    capped = True
                    break
        finally:
            pool.terminate()
            pool.join()
    sweep()
    for i, k in enumerate(kf):
        if i in kf_hit:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    # smallest cases first; one replay file each
    viols.sort(key=lambda x: (len(json.dumps(x[0])), json.dumps(x[0], sort_keys=True), x[1]))
    for n, (case, sig, msg) in enumerate(viols):
        p = REPLAY / f"{pid}-{n}.json"
        p.write_text(json.dumps({"property": pid, "case": case, "signature": sig, "message": msg,
                                 "replay": f"cd {ROOT} && ./check {pid} --replay {p}"}, indent=1))
        if n < 8:
            print(f"  {json.dumps(case)[:300]}\n    {sig}: {msg[:600]}")
        print(f"VIOLATION property={pid} replay={p}")
    cov = {"rule": mod.RULE, "samples": samples, "exhaustive": not capped and not viols and not errors,
           "bounds": mod.bounds(tier) if hasattr(mod, "bounds") else ""}
    if mod.LEVEL == "model_checking":
        cov.update(states=len(states), transitions=trans, traces_validated_against_impl=impl, cases=evald,
                   cases_in_space=len(cases))
    else:
        cov.update(evaluations=evald, distinct_nontrivial=len(states) if states else nontriv, cases_in_space=len(cases),
                   executions=impl)
    if capped:
        cov["capped"] = f"time cap of {cap} s hit after {evald} of {len(cases)} cases"
    ev = {"property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    (EVID / f"{pid}.json").write_text(json.dumps(ev, indent=1, ensure_ascii=True) + "\n")
    print(f"{pid} {tier}: {evald}/{len(cases)} cases, {len(states)} distinct states, {trans} transitions, {impl} executions of the "
          f"code, {len(viols)} violations, {len(kf_hit)} known findings, {time.time() - t0:.1f} s")
    if errors and not viols:
        for case, err in errors[:2]:
            print("ERROR in", json.dumps(case)[:300], "\n", err, file=sys.stderr)
        return 2
    return 1 if viols else 0


def sweep():
    """remove scratch of this run's workers"""
    from mc.world import scratch_root

    base = Path(scratch_root())
    for p in base.glob("vp-aw-*"):
        try:
            owner = int(p.name.split("-")[2])
        except (IndexError, ValueError):
            continue
        if not os.path.exists(f"/proc/{owner}"):
            shutil.rmtree(p, ignore_errors=True)
