"""C13: one command on several wheels equals one command per wheel."""

from __future__ import annotations

import copy
import itertools
import os

from mc import menu, world
from mc.explore import CR
from mc.world import Box, elf

ID = "C13"
LEVEL = "model_checking"
RULE = ("Every sequence (with repetition) of up to the stated number of wheels of a menu of wheels, including wheels that are refused, wheels "
        "that fail in the middle of the repair, pure wheels, wheels of another libc and wheels with clashing content, is repaired with one command on the real tool, under several options. "
        "A state is (the set of outputs so far, exit status); a transition is the processing of one wheel. The reference is one command per wheel, in a fresh process, until the first that fails.")
ASSUMPTIONS = ["the wheels have distinct project names unless the same wheel is repeated"]

KINDS = {
    "plain": (), "deep": ("g.deep",), "script": ("g.script",), "missing": ("g.missing_b",), "versions": ("v.ext_2_99",), "libpython": ("g.libpython_lib",),
    "clean": (), "pure": (), "any_elf": ("n.any",), "musl": ("a.musl",), "inner": ("g.inner",), "isa": ("i.ext_v3",), "ver17": ("v.ext_2_17",), "tagged": ("n.already",),
    "i686": ("a.i686",), "aarch64": ("a.aarch64",), "lowlib": ("g.direct_b",), "pyfpe": ("s.pyfpe",), "noelf": (),
    "exe_ld": (), "needs_ld": (), "rpathy": (), "needs_priv": (), "ver28": ("v.ext_2_28",), "ucs2": ("s.ucs2",), "black": ("s.black_z",),
}
OWN = ("deep", "libpython", "missing", "i686", "aarch64")  # with libraries of their own
OPTS = {"": [], "strip": ["--strip"], "plat": ["--plat", "manylinux_2_12_x86_64"], "excl": ["--exclude", "libb.so.2"], "noupd": ["--no-update-tags"], "L": ["-L", "/x"], "purepy": ["--allow-pure-python-wheel"],
        "env": None, "noisa": ["--disable-isa-ext-check"], "only": ["--plat", "manylinux_2_17_x86_64", "--only-plat"]}


def setup():
    world.import_auditwheel()


def wheel(i, kind):
    s = menu.make(KINDS[kind])
    w = s["wheels"][0]
    if kind == "clean":
        menu.X(s)["needed"] = ["libc.so.6"]
    if kind == "pure":
        w.update(py="py3", abi="none", plat="any", purelib="true")
        w["files"] = {"pkg/__init__.py": world.text("x = 1\n")}
    x = w["files"].get(s["ext"], {}).get("elf")
    if kind == "exe_ld":  # an executable, listed first, whose loader lives in a directory of its own
        rest = dict(w["files"])
        w["files"].clear()
        w["files"]["pkg/tool"] = elf(id="tool", interp="{SYS}/ld/ld-linux-x86-64.so.2", needed=["libc.so.6"], verneed=copy.deepcopy(menu.GL))
        w["files"].update(rest)
    if kind == "needs_ld":  # a library which is in that directory only
        x["needed"] = ["libonly.so.1", "libc.so.6"]
    if kind == "rpathy":
        x.update(needed=["libpriv.so.1", "libc.so.6"], rpath="{SYS}/priv")
    if kind == "needs_priv":
        x["needed"] = ["libpriv.so.1", "libc.so.6"]
    if kind == "noelf":
        w["files"] = {"pkg/__init__.py": world.text("x = 1\n")}
    w["name"] = f"p{i}{kind.replace('_', '')}"
    if kind in ("plain", "lowlib"):  # equal members, different content
        w["files"]["pkg/data.txt"] = world.text(f"payload of {kind}\n")
    w["files"] = {k.replace("pkg-1.0.data", f"{w['name']}-1.0.data"): v for k, v in w["files"].items()}
    return s, w


def spec(kinds):
    base = menu.make(())
    base["env"]["SOURCE_DATE_EPOCH"] = "1600000000"
    base["wheels"] = []
    names = []
    for i, k in enumerate(kinds):
        s, w = wheel(list(KINDS).index(k), k)
        for p, f in s["sys"].items():
            if k == "missing" or (p in base["sys"] and k != "deep"):
                continue
            if k in OWN:
                # these change liba or libb: under names of their own
                continue
            base["sys"][p] = f
        if k in OWN:
            ren = {n: f"lib{k}{n[3:]}" for n in ("liba.so.1", "libb.so.2")}
            for p, f in s["sys"].items():
                q = "lib/" + ren.get(p[4:], p[4:])
                if f["kind"] == "elf":
                    e = f["elf"]
                    e["needed"] = [ren.get(n, n) for n in e.get("needed", [])]
                    e["id"] = k + e["id"]
                    if e.get("soname") in ren:
                        e["soname"] = ren[e["soname"]]
                if q not in base["sys"]:
                    base["sys"][q] = f
            for f in w["files"].values():
                if f["kind"] == "elf":
                    f["elf"]["needed"] = [ren.get(n, n) for n in f["elf"]["needed"]]
        fn = world.wheel_filename(w)
        names.append(fn)
        if fn not in [world.wheel_filename(x) for x in base["wheels"]]:
            base["wheels"].append(w)
    return base, names


def run(kinds, opt, together=True):
    s, names = spec(kinds)
    allsys, _ = spec(list(KINDS))
    s["sys"] = allsys["sys"]
    s["sys"]["ld/libonly.so.1"] = menu.lib("only", [], "libonly.so.1")
    s["sys"]["ld/ld-linux-x86-64.so.2"] = elf(id="ld", soname="ld-linux-x86-64.so.2")
    s["sys"]["priv/libpriv.so.1"] = menu.lib("priv", [], "libpriv.so.1")
    s["box"] = f"vp-aw-{os.getpid()}-c13"  # the paths of the libraries are an input
    if opt == "env":
        s["env"]["AUDITWHEEL_LD_LIBRARY_PATH"] = "{SYS}/lib"
        cmd = ["repair", "-w", "{OUT}"]
    else:
        cmd = ["repair", "-w", "{OUT}", "--ldpaths", "{SYS}/lib", *OPTS[opt]]
    with Box(s) as b:
        r = b.run([*cmd, *["{IN}/" + n for n in names]], timeout=120)
        outs = {w.filename: w.raw_sha for w in b.outputs()}
        return str(r.rc).replace(b.root, ""), outs, r.cwd_ok, b.tmp_left(), r.err[-300:]


_one: dict = {}


def one(kind, opt):
    if (kind, opt) not in _one:
        _one[kind, opt] = run([kind], opt)
    return _one[kind, opt]


def cases(tier):
    ks = list(KINDS)
    for n in (1, 2):
        for seq in itertools.product(ks, repeat=n):
            for o in OPTS if tier == "thorough" else ("", "env", "plat", "excl"):
                yield {"seq": list(seq), "opt": o}
    if tier == "quick":
        core = ["plain", "deep", "script", "missing", "musl", "pure", "libpython", "ver17", "any_elf", "i686", "exe_ld", "needs_ld"]
        for seq in itertools.product(core, repeat=3):
            if len(set(seq)) > 1:
                yield {"seq": list(seq), "opt": ""}
        for seq in itertools.product(core, repeat=2):
            for o in ("L", "purepy", "noisa", "only", "strip", "noupd"):
                yield {"seq": list(seq), "opt": o}
    else:
        for seq in itertools.product(ks, repeat=3):
            yield {"seq": list(seq), "opt": ""}
            yield {"seq": list(seq), "opt": "purepy"}
        core = ["plain", "deep", "script", "musl", "pure", "ver17", "libpython"]
        for seq in itertools.product(core, repeat=4):
            yield {"seq": list(seq), "opt": "purepy"}


def run_case(c):
    rc, outs, cwd, tmp, err = run(c["seq"], c["opt"])
    exp, erc, n = {}, "0", 0
    for k in c["seq"]:
        o = one(k, c["opt"])
        n += 1
        if o[0] != "0":
            erc = o[0]
            exp.update(o[1])
            break
        exp.update(o[1])
    v = []
    if (rc == "0") != (erc == "0"):
        v.append(("status", f"{c['seq']}: exit status {rc}, one by one {erc}: {err}"))
    for f in sorted({*exp, *outs}):
        if f not in outs:
            v.append(("lost", f"{c['seq']}: {f} is missing ({rc})"))
        elif f not in exp:
            v.append(("extra", f"{c['seq']}: {f} was written after the first failure or under another name ({rc})"))
        elif outs[f] != exp[f]:
            v.append(("content", f"{c['seq']}: {f} depends on the wheels repaired before"))
    if not cwd or tmp:
        v.append(("residue", f"{c['seq']}: working directory restored: {cwd}, temporary files {tmp}"))
    return CR(v, [c["opt"] + ",".join(sorted(outs)) + rc[:60]], n, 1, True, f"{rc[:80]} {sorted(outs)}")


def bounds(tier):
    return {"kinds of wheels": list(KINDS), "options": list(OPTS), "sequence length": "2 over all kinds, 3 over 10 kinds" if tier == "quick" else "3 over all kinds, 4 over 7"}
