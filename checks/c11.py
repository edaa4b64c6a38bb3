"""C11: the output is a function of the inputs only."""

from __future__ import annotations

import json
import zipfile
from datetime import datetime, timezone
from pathlib import Path

from checks import _worlds
from mc import menu, world, zygote
from mc.explore import CR

ID = "C11"
LEVEL = "model_checking"
PRELOAD = True  # for the clock
RULE = ("For each world of the menu (and a set with package-manager stand-ins), repair and show --json are executed under every listed resolution of the "
        "nondeterminism of the environment: string-hash seeds that realise every iteration order of the tracked three-element sets (sonames, versions, "
        "member names), every permutation (directories of up to three entries; four orders for larger ones) of directory listings, and variations of the clock, time zone, working "
        "directory, names and place of temporary files, home and locale, with SOURCE_DATE_EPOCH set. A state is the outcome of a world; a transition is one execution; each "
        "must give the same bytes, the same JSON and the same exit status, and every archive member must carry the SOURCE_DATE_EPOCH time.")
ASSUMPTIONS = ["the umask is not varied (the permissions of new directories follow it)", "CPython's set order is determined by the hash seed"]

SEEDS = (2, 14, 41, 15, 16, 23, 35, 11)
MORE = tuple(range(100, 124))
TRIOS = [["liba.so.1", "libb.so.2", "libe.so"], ["liba.so.1", "libb.so.2", "libc.so.6"], ["GLIBC_2.2.5", "GLIBC_2.17", "GLIBC_2.12"],
         ["pkg/ext.so", "pkg/sub/ext2.abi3.so", "pkg/bin/tool"], ["libc.so.6", "libm.so.6", "libstdc++.so.6"]]
SDE = 1500000000
SDES = {"": SDE, "sde_old": 100000}

DPKG = """#!/bin/bash
[ "$1" = --version ] && exit 0
f="${2##*/}"
if [ "$1" = -S ]; then case "$f" in %s) echo "${f%%%%.*}-pkg: $2"; exit 0;; esac; exit 1; fi
if [ "$1" = -s ]; then echo "Package: $2"; echo "Version: 1.0-1"; exit 0; fi
exit 2
"""


def setup():
    world.import_auditwheel()


def variants(tier):
    out = [{"env": {"TZ": "Pacific/Kiritimati"}}, {"env": {"TZ": "America/Los_Angeles", "HOME": "/nonexistent", "LANG": "de_DE.UTF-8", "LC_ALL": "C"}},
           {"opts": {"clock": 86400 * 400 + 12345}}, {"opts": {"clock": -86400 * 3000}}, {"opts": {"random_names": True}},
           {"opts": {"names": "zz"}, "cwd": "{SYS}"}, {"cwd": "{ROOT}", "env": {"TMPDIR": "{ROOT}/run"}}]
    out += [{"opts": {"scandir": x}} for x in ("rev", "p0", "p1", "p2", "p3", "p4", "p5", "ha", "hb")]
    out += [{"seed": s} for s in (SEEDS if tier == "quick" else SEEDS + MORE)]
    out += [{"seed": SEEDS[0], "opts": {"scandir": "rev", "clock": 777777}}]
    return out


WORLDS = ["g.direct_b", "g.diamond", "g.cycle", "g.deep", "g.ext2_same", "g.ext2_chain", "g.ext2_diff", "g.ext2_top", "g.ext2_clean", "g.dupsoname", "g.sym_a", "g.two_names",
          "g.inner", "g.inner_pair", "g.inner_same_a", "g.inner_unreached", "g.plugin", "g.plugin_own", "g.exe", "g.exe_own", "g.script", "g.script_two", "g.prelibs", "g.libpython_lib", "g.wl_z",
          "g.wl_a_z", "g.wl_expat", "g.wl_expat_new", "r.mixed", "r.dup", "r.colons", "l.deep", "l.top", "l.unicode", "v.ext_2_17", "v.a_2_35", "v.cxx", "s.black_z", "o.plat=manylinux2014",
          "o.only_plat", "o.noupd", "o.strip", "o.L", "o.L_nested", "o.z9", "x.a", "x.ab", "x.glob_a", "d.dup_dirs", "f.unicode", "f.exec", "f.perm_none", "f.emptydir", "f.alldirs", "f.big", "f.sbom_own",
          "n.multi_py", "n.py2py3", "n.multi_plat", "n.already", "n.any", "f.headers", "f.order", "g.missing_a", "a.aarch64", "a.musl"]
SB = [("g.diamond",), ("g.deep",), ("g.ext2_diff",), ("g.dupsoname",), ("g.two_names",), ("g.script_two",), ("g.libpython_present",), ("g.wl_a_z",)]


def spec_of(case):
    s = menu.make(case["names"])
    if case.get("sbom"):
        s["bin"] = {"dpkg": DPKG % case["sbom"]}
    if case.get("many"):
        # many independent libraries, needed by many files
        f = menu.F(s)
        for i in range(case["many"]):
            n = f"lib{'qwertyuiop'[i]}many.so.{i}"
            s["sys"][f"lib/{n}"] = menu.lib(f"m{i}", [], n)
            menu.X(s)["needed"].insert(0, n)
            f[f"pkg/m{i}.so"] = menu.elf(id=f"ext{i}", needed=[n, "liba.so.1", "libc.so.6"], verneed=[["libc.so.6", ["GLIBC_2.2.5"]], ["libm.so.6", ["GLIBC_2.2.5"]]])
            f[f"pkg/m{i}.so"]["elf"]["needed"].append("libm.so.6")
        if case.get("sbom"):
            s["bin"] = {"dpkg": DPKG % case["sbom"]}
    s["env"]["SOURCE_DATE_EPOCH"] = str(case.get("sde", SDE))
    return s


def cases(tier):
    setup()
    names = [(), *[(n,) for n in WORLDS]]
    if tier == "thorough":
        names += [(n,) for n in menu.DEVS if n not in WORLDS and not n.startswith("o.sde")]
        names += menu.combos(["g.diamond", "g.ext2_same", "g.inner_pair", "g.plugin", "g.exe", "g.script_two", "g.dupsoname", "o.strip", "r.mixed", "x.a", "o.only_plat",
                              "v.ext_2_17", "f.unicode", "n.multi_py", "l.deep"], 2)
    seen = set()
    for c in names:
        c = tuple(sorted(c))
        if c in seen or not menu.compatible(c):
            continue
        seen.add(c)
        yield {"names": list(c)}
    for c in SB:
        for pat in ("*", "liba*", "lib[be]*", "none"):
            yield {"names": list(c), "sbom": pat}
    for m in (3, 6):
        yield {"names": [], "many": m, "sbom": "*"}
        yield {"names": ["g.diamond"], "many": m}
    yield {"names": ["g.diamond"], "sde": 0}
    # around the earliest and the latest date of a zip archive
    for sde in (4102444800, 283996800, 315532799, 315532800, 315532801, 4354819198):
        yield {"names": ["g.diamond"], "sde": sde}
    for c in cross_quick() if tier == "quick" else ():
        yield {"names": list(c)}


def cross_quick():
    return [c for c in menu.cross(["g.diamond", "g.ext2_same", "g.plugin"], ["o.strip", "r.mixed", "x.ab", "f.unicode", "n.multi_py", "o.plat=manylinux2014", "g.script_two", "g.inner_pair"])]


TIER = "quick"


def run_case(c):
    import os

    tier = os.environ.get("VP_TIER", "quick")
    s = spec_of(c)
    a = menu.argv(s)
    sh = ["show", "--json", "--ldpaths", ":".join(s["ldpaths"] or ["/nonexistent"]), a[-1]]
    outdir = s.get("outdir", "{OUT}").replace("{OUT}", "out").replace("{IN}", "in").replace("{ROOT}/", "")
    argvs = [sh, a] if not outdir.startswith("in") else [a]
    req = {"spec": s, "argvs": argvs, "outdir": outdir, "keep": True}
    s["box"] = f"vp-aw-{os.getpid()}-c11"  # the paths of the libraries are an input
    base = zygote.outcome(req)
    v = []
    n = 1
    want = max(int(s["env"]["SOURCE_DATE_EPOCH"]), 315532800)
    exp = datetime.fromtimestamp(want, tz=timezone.utc).timetuple()[:6]
    exp = (*exp[:5], exp[5] // 2 * 2)
    if base["rc"][-1] == "0":
        for w in base["wheels"]:
            if w.filename == world.wheel_filename(s["wheels"][0]) and outdir == "in" and s["update"]:
                continue
            for name, d in zip(w.order, w.dates):
                if tuple(d) != exp:
                    v.append(("date", f"{w.filename}: {name} is dated {d}, expected {exp}"))
                    break
    for var in variants(tier):
        r = dict(req, env=var.get("env"), cwd=var.get("cwd"), opts=var.get("opts"))
        r.pop("keep")
        if "seed" in var:
            if var.get("opts", {}).get("clock"):
                r["opts"] = {k: x for k, x in var["opts"].items() if k != "clock"}
            o = zygote.ask(var["seed"], r)
        else:
            o = zygote.outcome(r)
        n += 1
        if o["rc"] != base["rc"]:
            v.append(("status", f"{var}: exit statuses {o['rc']}, otherwise {base['rc']}: {o['err']}"))
        elif o["outs"] != base["outs"]:
            bad = sorted(k for k in {*o["outs"], *base["outs"]} if o["outs"].get(k) != base["outs"].get(k))
            v.append(("bytes", f"{var}: the output differs: {bad}"))
        elif len(argvs) == 2 and o["out"][0] != base["out"][0]:
            v.append(("json", f"{var}: show --json differs: {o['out'][0][:300]} / {base['out'][0][:300]}"))
    return CR(v[:2], [json.dumps(base["outs"], sort_keys=True) + str(base["rc"])], n, n * len(argvs), base["rc"][-1] == "0", str(base["rc"]))


def bounds(tier):
    orders = {}
    for i, t in enumerate(TRIOS):
        got = {tuple(zygote.order(t))} | {tuple(zygote.ask(s, {"order": t})["order"]) for s in SEEDS}
        orders["/".join(t)] = f"{len(got)} of 6 iteration orders"
    return {"variants per world": len(variants(tier)), "hash seeds": 1 + len(SEEDS) + (len(MORE) if tier == "thorough" else 0), "set orders realised": orders,
            "worlds": "one deviation (listed part of the menu) and listed pairs" if tier == "quick" else "every single deviation of the menu, and pairs of 15"}
