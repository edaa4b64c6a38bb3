"""C12: a failed or interrupted repair never leaves a wrong wheel behind."""

from __future__ import annotations

import itertools
import os
from pathlib import Path

from mc import menu, world
from mc.explore import CR
from mc.world import Box, subst

ID = "C12"
LEVEL = "fault_enumeration"
PRELOAD = True
RULE = ("The real command line runs with a fault injector at the libc boundary. The fault-free run of a scenario is recorded as a "
        "sequence of file-system mutations (create, write, rename, mkdir, chmod, unlink, copy, truncate, utime, link); then, for every "
        "index of the sequence and every fault (error on that call; disk full from that call on, with half of the write done; short write; "
        "kill before, after or in the middle of the call; SIGINT; error on reads), the scenario is run again with that fault, and likewise for every invocation "
        "of patchelf and strip failing before, after or in the middle of its work. After each, the whole file system state is compared, and after a kill the command is repeated without fault. "
        "An evaluation is one faulted run; distinct_nontrivial counts distinct (scenario, resulting file system state).")
ASSUMPTIONS = ["a crash keeps the mutations made before it, in order (no reordering by the file system)",
               "patchelf and strip are child processes: faults inside them are modelled as failing before, after or in the middle of their work"]

SDE = {"SOURCE_DATE_EPOCH": "1600000000"}


def _base(names=("g.exe",)):
    s = menu.make(names)
    s["env"].update(SDE)
    return s, menu.argv(s)


def sc_plain():
    return _base(("g.diamond", "f.exec", "f.emptydir"))


def sc_existing():
    s, a = _base()
    s["out"] = {"pkg-1.0-cp312-cp312-manylinux1_x86_64.manylinux_2_5_x86_64.whl": world.text("an older wheel\n" * 400),
                "other-1.0-py3-none-any.whl": world.text("another wheel\n")}
    return s, a


def sc_inplace():
    s, a = _base()
    a[2] = "{IN}"
    return s, a[:-1] + ["--no-update-tags", a[-1]]


def sc_newdir():
    s, a = _base()
    s["rmout"] = True
    a[2] = "{OUT}/deep/er"
    return s, a


def sc_strip():
    s, a = _base(("o.strip", "g.script"))
    return s, a


def sc_pure():
    s = menu.make(())
    w = s["wheels"][0]
    w.update(py="py3", abi="none", plat="any", purelib="true")
    w["files"] = {"pkg/__init__.py": world.text("x = 1\n" * 3000), "pkg/d": {"kind": "big", "data": "0123456789abcdef", "size": 70000, "mode": 0o644}}
    return s, ["repair", "-w", "{OUT}", "--allow-pure-python-wheel", "{IN}/pkg-1.0-py3-none-any.whl"]


def sc_pure_existing():
    s, a = sc_pure()
    s["out"] = {"pkg-1.0-py3-none-any.whl": world.text("an older wheel\n" * 400)}
    return s, a


def sc_two():
    s, a = _base(())
    import copy

    w2 = copy.deepcopy(s["wheels"][0])
    w2["name"] = "pkg2"
    s["wheels"].append(w2)
    return s, [*a, "{IN}/" + world.wheel_filename(w2)]


SC = {"plain": sc_plain, "existing": sc_existing, "inplace": sc_inplace, "newdir": sc_newdir, "strip": sc_strip, "pure": sc_pure,
      "pure_existing": sc_pure_existing, "two": sc_two}
QUICK = {"plain": "full", "existing": "full", "inplace": "some", "newdir": "some", "strip": "some", "pure": "full", "pure_existing": "full", "two": "some"}

FULL = [("err", "EIO"), ("full", "ENOSPC"), ("kill", 0), ("torn_kill", 0), ("short", 0), ("signal", "SIGINT")]
SOME = [("full", "ENOSPC"), ("kill", 0)]
DEEP = [*FULL, ("err", "EACCES"), ("err", "EINTR"), ("err_grow", "EDQUOT"), ("err_all", "EROFS"), ("err_all", "EIO"), ("kill_after", 0), ("signal", "SIGTERM"),
        ("err", "ENOENT")]
_ref: dict = {}


def setup():
    world.import_auditwheel()


def outdir(argv):
    return argv[2]


def snap(b: Box) -> dict:
    d = world.tree_digest(b.root)
    return {k: v for k, v in d.items() if not k.startswith("log/") and k != "log"}


def reference(name, reads=False):
    """(trace, state before, state after) of the fault-free run"""
    if (name, reads) not in _ref:
        s, a = SC[name]()
        with Box(s) as b:
            before = snap(b)
            r = b.run(a, opts={"fault": {"root": b.root, "skip": b.root + "/log", "mode": "record", "reads": reads}})
            assert r.rc == 0, (name, r.rc, r.err[-500:])
            _ref[name, reads] = (r.trace, before, snap(b))
    return _ref[name, reads]


def cases(tier):
    setup()
    out = []
    for name in SC:
        tr, _, _ = reference(name)
        faults = DEEP if tier == "thorough" else FULL if QUICK[name] == "full" else SOME
        for k, ev in enumerate(tr):
            for mode, err in faults:
                if mode in ("torn_kill", "short") and ev[0] not in "WS":
                    continue
                out.append({"sc": name, "mode": mode, "k": k, "err": err})
        out.append({"sc": name, "mode": "kill", "k": len(tr), "err": 0})
        if tier == "thorough" or name in ("plain", "pure"):
            tr, _, _ = reference(name, True)
            seen: dict = {}
            for k, ev in enumerate(tr):
                if ev[0] == "I":
                    seen[ev] = seen.get(ev, 0) + 1
                    if tier == "thorough" or seen[ev] <= 3:
                        out.append({"sc": name, "mode": "err", "k": k, "err": "EIO", "reads": True})
        if tier == "thorough" and name in ("plain", "existing", "pure_existing"):
            # an error, then a kill during the clean-up (or after it)
            n = len(reference(name)[0])
            for k in range(0, n):
                for d in (1, 2, 3, 5, 8):
                    out.append({"sc": name, "mode": "full", "k": k, "err": "ENOSPC", "kill": d})
    for name in ("plain", "existing", "strip", "inplace", "two"):
        for tool in ("patchelf", "strip") if name == "strip" else ("patchelf",):
            for k in range(tool_calls(name, tool)):
                for how in ("before", "after", "torn", "sig"):
                    out.append({"sc": name, "tool": tool, "k": k, "how": how})
    return out


WRAP = """#!/bin/bash
n=$(cat {ROOT}/log/n.%(tool)s 2>/dev/null || echo 0); echo $((n+1)) > {ROOT}/log/n.%(tool)s
if [ "$n" = "%(k)s" ]; then
  f="${@: -1}"
  case %(how)s in
    before) exit 1;;
    after) %(real)s "$@"; exit 3;;
    torn) if [ -f "$f" ]; then printf 'broken' > "$f"; fi; exit 1;;
    sig) kill -9 $$;;
  esac
fi
exec %(real)s "$@"
"""


def tool_calls(name, tool):
    s, a = SC[name]()
    s["bin"] = {tool: WRAP % {"tool": tool, "k": -1, "how": "none", "real": world.TOOLS[tool]}}
    s["env"]["PATH"] = "{ROOT}/bin:/usr/bin:/bin"
    with Box(s) as b:
        r = b.run(a)
        assert r.rc == 0, r.err
        return int(Path(f"{b.root}/log/n.{tool}").read_text())


def relof(a):
    return subst(outdir(a), {"{OUT}": "out", "{IN}": "in"})


def run_case(c):
    s, a = SC[c["sc"]]()
    ref_tr, before, final = reference(c["sc"], bool(c.get("reads")))
    if "tool" in c:
        s["bin"] = {c["tool"]: WRAP % {"tool": c["tool"], "k": c["k"], "how": c["how"], "real": world.TOOLS[c["tool"]]}}
        s["env"]["PATH"] = "{ROOT}/bin:/usr/bin:/bin"
    v = []
    n = 1
    with Box(s) as b:
        opts = {} if "tool" in c else {"fault": {"root": b.root, "skip": b.root + "/log", "mode": c["mode"], "k": c["k"], "err": c["err"],
                                                 "reads": c.get("reads", False), "kill": c.get("kill", 0)}}
        start = {k: x for k, x in snap(b).items() if not k.startswith("bin")}
        r = b.run(a, opts=opts)
        after = {k: x for k, x in snap(b).items() if not k.startswith("bin")}
        ref_after = {k: x for k, x in final.items() if not k.startswith("bin")}
        o = relof(a)
        killed = str(r.rc).startswith(("signal:", "died:"))
        what = "tool" if "tool" in c else c["mode"]
        ev = ref_tr[c["k"]] if "tool" not in c and c["k"] < len(ref_tr) else ""
        where = f"{c} at {ev}: rc={r.rc}"
        for k in sorted(set(start) | set(after) | set(ref_after)):
            x, y, z = start.get(k), after.get(k), ref_after.get(k)
            if y == x or y == z:
                continue
            isdir = (y or "").startswith("dir:")
            if k.startswith("tmp/"):
                continue
            if k.startswith(o + "/") and k.endswith(".whl"):
                sig = "clobbered" if x is not None else "partial"
                v.append((sig, f"{where}: {k} is neither its old nor its complete new content ({(y or 'missing')[:40]})"))
            elif k.startswith(o + "/") or k == o or (isdir and o.startswith(k + "/")) or k == "tmp":
                continue  # judged below
            else:
                v.append(("world", f"{where}: {k} changed or disappeared"))
        if r.rc == 0:
            # success was reported: everything must be as in the fault-free run
            for k in sorted(set(ref_after) | set(after)):
                if k.startswith("tmp/") or after.get(k) == ref_after.get(k):
                    continue
                if k.startswith(o + "/") or k == o:
                    v.append(("lied", f"{where}: success reported but {k} is not as in the fault-free run"))
        if not killed and c.get("mode") not in ("err_all",) and not ev.startswith("U"):
            left = [k for k in after if k.startswith(("tmp/", o + "/")) and k not in start and k not in ref_after]
            if c.get("mode") == "signal":
                left = [k for k in left if not k.startswith("tmp/")]
            if left:
                v.append(("residue", f"{where}: left behind {left[:6]}"))
        st = "\n".join(f"{k}={x[:30]}" for k, x in sorted(after.items()) if x != start.get(k) and not k.startswith("tmp/"))
        # a later run repairs the damage
        if r.rc != 0 and not (c["sc"] == "inplace" and any(after.get(k) != start.get(k) for k in start)):
            if "tool" in c:
                Path(f"{b.root}/log/n.{c['tool']}").write_text("999")
            r2 = b.run(a)
            n += 1
            again = snap(b)
            bad = [k for k in ref_after if k.startswith(o + "/") and again.get(k) != ref_after[k]]
            if r2.rc != 0 or bad:
                v.append(("retry", f"{where}: running the command again gives {r2.rc}, differing {bad}: {r2.err[-200:]}"))
            extra = [k for k in again if k.startswith(o + "/") and k not in ref_after and k not in start and k not in after]
            if extra:
                v.append(("retry-residue", f"{where}: the second run leaves {extra}"))
    return CR(v[:3], [c["sc"] + "|" + str(r.rc)[:40] + "|" + st], 1, n, True, f"{what}: rc={str(r.rc)[:60]}")


def bounds(tier):
    n = {k: len(reference(k)[0]) for k in SC}
    return {"scenarios (number of mutating calls)": n,
            "faults": [f"{m}:{e}" for m, e in (DEEP if tier == "thorough" else FULL)],
            "reduced fault set (quick)": [] if tier == "thorough" else [k for k in QUICK if QUICK[k] == "some"],
            "depth": "one fault per run" + ("; plus a disk-full error followed by a kill 1, 2, 3, 5 or 8 mutating calls later in 3 scenarios" if tier == "thorough" else "")}
