"""C18: which ELF files of a wheel count: architecture and libc."""

from __future__ import annotations

import copy
import json
import os

from mc import ref, world
from mc.explore import CR
from mc.world import Box, elf, text

ID, LEVEL = "C18", "model_checking"
RULE = ("Every combination of the platform tags of the file name, one, two or three ELF files (machine x ABI flags x the way the libc shows x extension module or not) in the order of RECORD and the command is executed on the real command line. "
        "Each file needs a library and a symbol version of its own, so that the report and the grafted libraries tell which files counted; the oracle is a small automaton over the file list (states: architecture and libc known so far). "
        "A state is (architecture, libc, counted files, outcome); a transition is one command.")
ASSUMPTIONS = ["the host is x86_64 with glibc and without musl", "extension modules that precede the first file with a libc and have none themselves are outside the space unless no file has one"]
VERS = ["GLIBC_2.28", "GLIBC_2.31", "GLIBC_2.34"]


def vers(kind, i):
    return "GLIBC_2.36" if kind == "L" else ["GLIBC_2.5", "GLIBC_2.12", "GLIBC_2.17"][i] if kind == "P" else VERS[i]


# kind: (counted architecture, libc shown, extension module, file name pattern, elf facts)
PY = "e{i}.abi3.so"
NO = {"needed": []}
K = {
    "x": ("x86_64", "glibc", True, PY, {}),
    "xl": ("x86_64", "glibc", False, "l{i}.so", {}),
    "xd": ("x86_64", "glibc", True, PY, {"needed": ["ld-linux-x86-64.so.2"]}),
    "xD": ("x86_64", "glibc", True, PY, {"needed": ["ld64.so.2"]}),
    "xn": ("x86_64", None, False, "l{i}.so", NO),
    "xe": ("x86_64", None, True, PY, NO),
    "x10": ("x86_64", None, True, "e{i}.cpython-310-x86_64-linux-gnu.so", NO),
    "x39": ("x86_64", None, True, "e{i}.cpython-39-x86_64-linux-gnu.so", NO),
    "x11": ("x86_64", "glibc", True, "e{i}.cpython-311-x86_64-linux-gnu.so", NO),
    "x14": ("x86_64", "glibc", True, "e{i}.cpython-314t-x86_64-linux-gnu.so", NO),
    "x39m": ("x86_64", "musl", True, "e{i}.cpython-39-x86_64-linux-musl.so", NO),
    "xlg": ("x86_64", None, False, "l{i}-linux-gnu.so", NO),
    "xm": ("x86_64", "musl", True, PY, {"needed": ["libc.musl-x86_64.so.1"]}),
    "xml": ("x86_64", "musl", False, "l{i}.so", {"needed": ["libc.musl-x86_64.so.1"]}),
    "xi": ("x86_64", "glibc", False, "b{i}", {"needed": [], "type": "exec", "interp": "/lib64/ld-linux-x86-64.so.2"}),
    "xj": ("x86_64", "musl", False, "b{i}", {"needed": [], "type": "exec", "interp": "/lib/ld-musl-x86_64.so.1"}),
    "i": ("i686", "glibc", True, PY, {"machine": "i686"}),
    "a": ("aarch64", "glibc", True, PY, {"machine": "aarch64"}),
    "am": ("aarch64", "musl", True, PY, {"machine": "aarch64", "needed": ["libc.musl-aarch64.so.1"]}),
    "h": ("armv7l", "glibc", True, PY, {"machine": "armv7l"}),
    "hg": ("armv7l", "glibc", True, "e{i}.cpython-312-arm-linux-gnueabihf.so", {"machine": "armv7l", "needed": []}),
    "hm": ("armv7l", "musl", True, "e{i}.cpython-312-arm-linux-musleabihf.so", {"machine": "armv7l", "needed": []}),
    "hs": (None, "glibc", True, PY, {"machine": "armv7l", "eflags": 0x05000200}),
    "h4": (None, "glibc", True, PY, {"machine": "armv7l", "eflags": 0x04000400}),
    "h0": (None, "glibc", True, PY, {"machine": "armv7l", "eflags": 0x05000000}),
    "hb": ("armv7l", "glibc", True, PY, {"machine": "armv7l", "eflags": 0x05000600}),
    "h8": ("armv7l", "glibc", True, PY, {"machine": "armv7l", "eflags": 0x05800402}),
    "hn": (None, "glibc", True, PY, {"machine": "armv7l", "eflags": 0x00000400}),
    "h6": (None, "glibc", True, PY, {"machine": "armv7l", "eflags": 0x06000400}),
    "h7": (None, "glibc", True, PY, {"machine": "armv7l", "eflags": 0x07000400}),
    "p": ("ppc64le", "glibc", True, PY, {"machine": "ppc64le"}),
    "P": ("ppc64", "glibc", True, PY, {"machine": "ppc64"}),
    "s": ("s390x", "glibc", True, PY, {"machine": "s390x"}),
    "r": ("riscv64", "glibc", True, PY, {"machine": "riscv64"}),
    "L": ("loongarch64", "glibc", True, PY, {"machine": "loongarch64"}),
    "u": (None, "glibc", True, PY, {"machine": "mips"}),
    "r32": (None, "glibc", True, PY, {"machine": "riscv64", "cls": 32}),
    "x32": (None, "glibc", True, PY, {"machine": "x86_64", "cls": 32}),
    "ab": (None, "glibc", True, PY, {"machine": "aarch64", "little": False}),
    "t": ("text",),
}
CORE = ["x", "xn", "xe", "xm", "xi", "i", "a", "hs", "u", "t"]
PLATS = ["linux_x86_64", "linux_i686", "linux_aarch64", "manylinux_2_17_x86_64.manylinux2014_x86_64", "musllinux_1_2_x86_64", "linux_x86_64_v3", "linux_foo", "linux_x86_64.linux_aarch64", "linux_x86_64.linux_foo",
         "manylinux1_x86_64.musllinux_1_1_x86_64", "any", "linux_armv7l", "musllinux_1_2_aarch64", "manylinux_2_28_aarch64", "any.linux_x86_64", "linux_ppc64le", "linux_ppc64", "linux_s390x", "linux_riscv64", "linux_loongarch64"]
ARCHS = ["aarch64", "armv7l", "i686", "loongarch64", "ppc64", "ppc64le", "riscv64", "s390x", "x86_64", "x86_64_v2", "x86_64_v3", "x86_64_v4"]


def setup():
    world.import_auditwheel()


def cases(tier):
    kinds = list(K)
    names = [p for p in PLATS]
    for p in names:
        for a in kinds:
            for c in ("show", "repair", "plat", "only"):
                yield {"plat": p, "files": [a], "cmd": c}
        if tier == "thorough":
            for a in kinds:
                for b in kinds:
                    for c in ("show", "repair", "plat"):
                        yield {"plat": p, "files": [a, b], "cmd": c}
            for a in CORE:
                for b in CORE:
                    for d in CORE:
                        for c in ("show", "repair"):
                            yield {"plat": p, "files": [a, b, d], "cmd": c}
        elif PLATS.index(p) < 11:
            for a in CORE:
                for b in CORE:
                    yield {"plat": p, "files": [a, b], "cmd": "show"}
                    if PLATS.index(p) in (0, 6, 8, 9):
                        yield {"plat": p, "files": [a, b], "cmd": "repair"}
                        if PLATS.index(p) in (0, 6):
                            yield {"plat": p, "files": [a, b], "cmd": "plat"}
            if p in ("linux_foo", "linux_x86_64"):
                for a in kinds:
                    for b in kinds:
                        if not {a, b} <= set(CORE):
                            yield {"plat": p, "files": [a, b], "cmd": "show"}


def spec(c):
    w = world.default_wheel()
    w["plat"] = c["plat"]
    w["files"] = {"pkg/__init__.py": text("x = 1\n")}
    sysd = {"lib/.keep": text("")}
    for i, k in enumerate(c["files"]):
        if k == "t":
            w["files"][f"pkg/e{i}.abi3.so"] = text("not ELF\n")
            continue
        arch, libc, py, pat, e = K[k]
        e = {"machine": "x86_64", **copy.deepcopy(e)}
        need = e.pop("needed", ["libc.so.6"])
        q = f"libq{i}.so.1"
        ver = [["libc.so.6", [vers(k, i)]]] if "libc.so.6" in need else []
        if any("musl" in n for n in need):
            ver = []
        w["files"]["pkg/" + pat.format(i=i)] = elf(id=f"f{i}", needed=[q, *need], verneed=ver, symbols=[[f"PyInit_e{i}", True, "global", "func"]] if py else [[f"f{i}", True, "global", "func"]], **e)
        # a library for exactly this kind of machine
        m = {x: e[x] for x in ("machine", "cls", "little", "eflags") if x in e}
        sysd[f"lib/{q}"] = elf(id=f"q{i}", soname=q, needed=[], **m)
    return {"wheels": [w], "sys": sysd, "env": {}}


def from_name(plat):
    archs, odd = set(), False
    tags = plat.split(".")
    for t in tags:
        hit = [a for a in ARCHS if t.endswith("_" + a)]
        if not hit:
            odd = True
        archs |= {"x86_64" if a.startswith("x86_64") else a for a in hit}
    libcs = {n for t in tags for n, p in (("glibc", "manylinux"), ("musl", "musllinux"), ("android", "android")) if t.startswith(p)}
    return (archs.pop() if len(archs) == 1 and not odd else None), (libcs.pop() if len(libcs) == 1 else None)


def expected(c):
    """(outcome, arch, libc, indexes counted, indexes with another architecture)"""
    arch, libc = from_name(c["plat"])
    if c["cmd"] in ("plat", "only"):
        if arch not in (None, "x86_64") or libc not in (None, "glibc"):
            return ("refused", arch, libc, [], [])
        arch, libc = "x86_64", "glibc"
    counted, foreign = [], []
    for i, k in enumerate(c["files"]):
        if k == "t":
            continue
        a, l, py, _, _ = K[k]
        if a is None or arch not in (None, a):
            foreign.append(i)
            continue
        arch = a
        if l is not None:
            if libc not in (None, l):
                continue
            libc = l
        if py and libc is None:
            # undefined when a later file has a libc
            later = any(x != "t" and K[x][0] == a and K[x][1] for x in c["files"][i + 1:])
            return ("skip" if later else "nolibc", arch, libc, [], [])
        counted.append(i)
    if not counted:
        return ("none", arch, libc, [], foreign)
    return ("ok", arch, libc or "glibc", counted, foreign)


def run_case(c):
    s = spec(c)
    out, arch, libc, counted, foreign = expected(c)
    v = []
    names = [n for n in s["wheels"][0]["files"] if not n.endswith(".py")]
    with Box(s) as b:
        wn = world.wheel_filename(s["wheels"][0])
        src = world.read_wheel(b.wheels[0])
        if c["cmd"] == "show":
            r = b.run(["show", "--json", "--ldpaths", "{SYS}/lib", "{IN}/" + wn])
        else:
            args = {"repair": [], "plat": ["--plat", "manylinux_2_35_x86_64"], "only": ["--plat", "manylinux_2_35_x86_64", "--only-plat"]}[c["cmd"]]
            r = b.run(["repair", "-w", "{OUT}", "--ldpaths", "{SYS}/lib", *args, "{IN}/" + wn])
        o = b.outputs()
    st = f"{out} {arch} {libc} {counted} {c['cmd']} {r.rc}"
    if out == "skip":
        return CR([], [st], 1, 1, False, st)
    if out != "ok":
        if r.rc in (0, None):
            v.append(("accepted", f"{out} ({arch}, {libc}) but exit status 0: {r.out[-200:]} {[w.filename for w in o]}"))
        if isinstance(r.rc, str) and out in ("none", "refused"):
            v.append(("crash", f"{r.rc} instead of a refusal"))
        if o:
            v.append(("accepted", f"{out} but wrote {[w.filename for w in o]}"))
        if out == "none" and r.rc not in (0, None):
            said = r.out + r.err
            if c["cmd"] == "show":
                try:
                    j = json.loads(r.out)
                    if set(j) != {"version", "wheel", "error"} or j["wheel"] != wn:
                        v.append(("message", f"JSON of the refusal: {j}"))
                except ValueError:
                    v.append(("message", f"no JSON document: {r.out[-200:]}"))
            if arch is not None:
                miss = [i for i in foreign if os.path.basename(names[i]) not in said]
                if miss:
                    v.append(("message", f"does not name {[names[i] for i in miss]}: {said[-300:]}"))
        return CR(v, [st], 1, 1, True, st)
    if arch not in ref.MUSL_SO and libc == "musl":
        return CR([], [st], 1, 1, False, st)
    pols = ref.policies(libc, arch)
    vs = sorted({vers(c["files"][i], i) for i in counted if "libc.so.6" in K[c["files"][i]][4].get("needed", ["libc.so.6"])})
    if c["cmd"] == "show":
        if r.rc != 0:
            v.append(("refused", f"{r.rc} {r.out[-200:]}{r.err[-300:]}"))
            return CR(v, [st], 1, 1, True, st)
        j = json.loads(r.out)
        ok = [p for p in pols[1:] if all(p.allows(x) for x in vs)]
        best = max(ok, key=lambda p: p.priority) if ok else pols[0]
        if j["sym_tag"] != best.name or j["overall_tag"] != pols[0].name:
            v.append(("verdict", f"symbol tag {j['sym_tag']}, overall {j['overall_tag']}; counted {[names[i] for i in counted]} of {arch} with {libc}: {best.name}, {pols[0].name}"))
        if j["versioned_symbols"] != ({"libc.so.6": vs} if vs else {}):
            v.append(("counted", f"versions {j['versioned_symbols']}, of the counted files {vs}"))
        got = set(j["external_libs"])
        if got != {f"libq{i}.so.1" for i in counted}:
            v.append(("counted", f"external libraries {sorted(got)}, counted files {counted}"))
        return CR(v, [st + j["sym_tag"]], 1, 1, True, st)
    if r.rc != 0 or len(o) != 1:
        v.append(("refused", f"{r.rc} {[w.filename for w in o]} {r.err[-400:]}"))
        return CR(v, [st], 1, 1, True, st)
    w = o[0]
    tags = w.plat.split(".")
    pre = {"glibc": "manylinux", "musl": "musllinux"}[libc]
    if not all(t.endswith("_" + arch) and t.startswith(pre) for t in tags if t not in c["plat"].split(".")) or not any(t.startswith(pre) and t.endswith("_" + arch) for t in tags):
        v.append(("tag", f"{w.filename}: counted files are {arch} with {libc}"))
    new = [n for n in w.data if n.startswith("pkg.libs/") and not n.endswith("/")]
    got = {n.split("/")[-1].split("-")[0] for n in new}
    if got != {f"libq{i}" for i in counted}:
        v.append(("grafted", f"grafted {sorted(new)}, counted files {counted}"))
    for i, n in enumerate(names):
        if i not in counted and w.data.get(n) != src.data[n]:
            v.append(("touched", f"{n} does not count but was changed"))
        if i in counted and w.data.get(n) == src.data[n]:
            v.append(("grafted", f"{n} counts but was not changed"))
    return CR(v, [st + w.filename], 1, 1, True, st)


def bounds(tier):
    return {"kinds of ELF file": len(K), "file name tags": len(PLATS), "files per wheel": "1 of every kind, 2 of the core kinds (2 of every kind for two names)" if tier == "quick" else "2 of every kind, 3 of the core kinds", "commands": ["show --json", "repair", "repair --plat", "repair --plat --only-plat"]}
