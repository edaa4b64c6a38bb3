"""C27: Android wheels."""

from __future__ import annotations

import itertools
import json
import os
import posixpath
import re
from pathlib import Path

from mc import elfread, world
from mc.explore import CR
from mc.world import Box, elf, text

ID, LEVEL = "C27", "model_checking"
RULE = ("Every pair of deviations of an Android wheel (API level, architecture, each library of the published tables and others, graph and place of the libraries, kind and search path of the ELF file, options, file name tags) is laid out and "
        "`auditwheel show --json` and `repair` (twice) are run on it. A state is the report and the repaired wheel, a transition one run; the libraries grafted, edits, name, tags and exit status are compared with a reference that walks the same files by the rules stated.")
ASSUMPTIONS = ["libraries are found by name in the directories given, in order; the published tables of libraries per API level are those in /verif/ref"]
LIBPY = re.compile(r"libpython\d+\.\d+m?.so(\.\d)*\Z")
TAB = json.load(open(Path(__file__).parent.parent / "ref/android-policy.json"))
LEVELS = {int(p["name"].split("_")[1]): set(p["lib_whitelist"]) for p in TAB if p["name"] != "linux"}
KNOWN = sorted(set().union(*LEVELS.values()))
OTHER = ["libc++_shared.so", "libpython3.13.so", "libpython3.so", "libz.so.1", "libstdc++.so.6", "libssl.so", "liblog.so.1", "ld-android.so"]
ARCH = {"x86_64": "x86_64", "arm64_v8a": "aarch64", "armeabi_v7a": "armv7l", "riscv64": "riscv64"}
API = [1, 20, 21, 22, 23, 24, 25, 26, 27, 28, 33, 35, 100]
SRC = ["ldpaths", "env", "both", "LD", "LDboth", "none", "two", "runpath", "rpath", "libsub", "here"]
KIND = ["ext", "lib", "exe", "script", "pie", "two", "wheelonly"]
OLD = ["none", "in-run", "in-r", "out-run", "out-r", "mix-run", "dup-run"]
OPT = {"": [], "noupd": ["--no-update-tags"], "sdir": ["--lib-sdir", ".deps"], "sdir2": ["--lib-sdir", "/lib/x"], "excl": ["--exclude", "libfoo.so"], "exclbar": ["--exclude", "libbar.so"], "only": ["--only-plat"], "auto": ["--plat", "auto"],
       "isa": ["--disable-isa-ext-check"], "many": ["--plat", "manylinux_2_28_x86_64"], "strip": ["--strip"]}
TAG = ["one", "two", "linux", "any", "anyfirst", "other", "pyabi", "build"]
GRAPH = ["foo", "chain", "pychain", "cycle", "share", "platchain", "selfpy", "rpchain", "wheelchain", "ver"]
DIMS = {"api": API, "arch": list(ARCH), "need": ["foo", *KNOWN, *OTHER], "src": SRC, "kind": KIND, "old": OLD, "opt": list(OPT), "tag": TAG, "graph": GRAPH}
DEF = {"api": 24, "arch": "x86_64", "need": "foo", "src": "ldpaths", "kind": "ext", "old": "none", "opt": "", "tag": "one", "graph": "foo"}


def setup():
    world.import_auditwheel()


def cases(tier):
    seen = set()

    def one(c):
        k = tuple(c.values())
        if k in seen:
            return False
        seen.add(k)
        return True

    for a, b in itertools.combinations(DIMS, 2):
        for x in DIMS[a]:
            for y in DIMS[b]:
                c = {**DEF, a: x, b: y}
                if one(c):
                    yield c
    for api in [21, 23, 24, 26, 27]:
        for n in KNOWN:
            for src in ("none", "ldpaths", "LD"):
                c = {**DEF, "api": api, "need": n, "src": src}
                if one(c):
                    yield c
    if tier == "thorough":
        for k in itertools.product([21, 24, 35], ["x86_64", "arm64_v8a"], ["foo", "libz.so", "libsync.so", "libpython3.13.so"], SRC, KIND, OLD, ["", "sdir", "excl"], GRAPH):
            c = dict(zip(("api", "arch", "need", "src", "kind", "old", "opt", "graph"), k))
            c = {**DEF, **c}
            if one(c):
                yield c


def world_of(c):
    m = ARCH[c["arch"]]
    interp = "/system/bin/linker" + ("" if m == "armv7l" else "64")
    name = "libfoo.so" if c["need"] == "foo" else c["need"]
    g = c["graph"]
    dep = {"foo": [], "chain": ["libbar.so"], "pychain": ["libpython3.13.so", "libbar.so"], "cycle": ["libbar.so"], "share": ["libbar.so"], "platchain": ["libz.so", "libsync.so"], "selfpy": ["libpython3.13.so"],
           "rpchain": ["libbar.so"], "wheelchain": ["libin.so"], "ver": []}[g]
    ver = {"verneed": [["libc.so", ["LIBC", "LIBC_N", "LIBC_Q"]]]} if g == "ver" else {"verneed": [["libc.so", ["LIBC"]]]}

    def E(**kw):
        return elf(machine=m, **kw)

    foo = {"soname": name, "needed": [*dep, "libc.so"], "id": "foo"}
    if g == "rpchain":
        foo["runpath"] = "{SYS}/deep"
    sysf = {}
    libdir = "lib"
    main = {name: foo, "libbar.so": {"soname": "libbar.so", "needed": [*(["libfoo.so"] if g == "cycle" and name == "libfoo.so" else []), "libc.so"], "id": "bar", "rpath": "{SYS}/x"},
            "libsync.so": {"soname": "libsync.so", "needed": ["libc.so"], "id": "sync"}, "libz.so": {"soname": "libz.so", "needed": ["libc.so"], "id": "z"}, "libin.so": {"soname": "libin.so", "needed": ["libc.so"], "id": "sysin"}}
    main.update({name: foo})
    if g == "rpchain":
        sysf["deep/libbar.so"] = E(**main.pop("libbar.so"))
    src = c["src"]
    rp = {}
    dirs = {"ldpaths": ["lib"], "env": ["lib"], "both": ["lib", "env"], "LD": ["lib"], "LDboth": ["lib", "ld"], "none": [], "two": ["lib", "lib2"], "runpath": ["lib"], "rpath": ["lib"], "libsub": ["lib"], "here": ["../run"]}[src]
    for d in dirs:
        for n, e in main.items():
            sysf[f"{d}/{n}"] = E(**{**e, "id": e["id"] + d, "pad": len(d)})
    if src == "libsub":
        sysf = {k.replace("lib/", "lib/sub/") if k.startswith("lib/") else k: v for k, v in sysf.items()}
    if src in ("runpath", "rpath"):
        rp[src] = "{SYS}/lib"
    inw = "$ORIGIN/own"
    old = {"none": [], "in-run": [inw], "in-r": [inw], "out-run": ["/opt/x"], "out-r": ["/opt/x"], "mix-run": ["/opt/x", inw, "{SYS}/none", "$ORIGIN/../other"], "dup-run": [inw, inw]}[c["old"]]
    if old:
        k = "runpath" if c["old"].endswith("run") else "rpath"
        if rp and k not in rp:
            old = []
        else:
            rp[k] = ":".join([*old, *([rp[k]] if k in rp else [])])
    files = {}
    w = world.default_wheel(tags=("cp313", "cp313", "x"))
    need = [name, "libc.so", *(["libbar.so"] if g == "share" else [])]
    kind = c["kind"]
    root = {"needed": need, "id": "ext", **rp, **ver}
    py = [["PyInit_ext", True, "global", "func"]]
    tag = "-linux-android.so"
    if kind in ("ext", "two", "wheelonly"):
        files[f"pkg/ext.cpython-313-{m}{tag}"] = E(**root, symbols=py)
    if kind == "two":
        files[f"pkg/sub/ext2.cpython-313-{m}{tag}"] = E(needed=["libbar.so", "libpython3.13.so", "libc.so"], id="ext2", symbols=[["PyInit_ext2", True, "global", "func"]])
    if kind == "lib":
        files["pkg/libmine.so"] = E(**root, soname="libmine.so")
    if kind in ("exe", "pie"):
        files["pkg/tool"] = E(**root, interp=interp, type="exec" if kind == "exe" else "dyn")
    if kind == "script":
        files["pkg-1.0.data/scripts/tool"] = E(**root, interp=interp)
    if c["old"] in ("in-run", "in-r", "mix-run", "dup-run") and old:
        base = "pkg-1.0.data/scripts" if kind == "script" else "pkg"
        files[f"{base}/own/libin.so"] = E(soname="libin.so", needed=["libc.so"], id="inwheel")
        if kind == "wheelonly":
            files[f"{base}/own/{name}"] = E(soname=name, needed=["libc.so"], id="inwheelfoo")
    files["pkg/__init__.py"] = text("x = 1\n")
    p = f"android_{c['api']}_{c['arch']}"
    w["plat"] = {"two": f"android_{c['api'] + 1}_{c['arch']}.{p}", "linux": f"linux_{m}.{p}", "any": f"{p}.any", "anyfirst": f"any.{p}", "other": f"{p}.android_21_arm64_v8a.android_21_x86_64"}.get(c["tag"], p)
    if c["tag"] == "pyabi":
        w["py"], w["abi"] = "cp312.cp313", "abi3"
    if c["tag"] == "build":
        w["build"] = "7z"
    w["files"] = files
    env = {}
    a = ["--ldpaths", "{SYS}/lib"]
    if src == "env":
        a, env = [], {"AUDITWHEEL_LD_LIBRARY_PATH": "{SYS}/lib"}
    elif src == "both":
        env = {"AUDITWHEEL_LD_LIBRARY_PATH": "{SYS}/env"}
    elif src == "LD":
        a, env = [], {"LD_LIBRARY_PATH": "{SYS}/lib"}
    elif src == "LDboth":
        env = {"LD_LIBRARY_PATH": "{SYS}/ld"}
    elif src in ("none", "runpath", "rpath"):
        a = []
    elif src == "two":
        a = ["--ldpaths", "{SYS}/nothing:{SYS}/lib2:{SYS}/lib"]
    elif src == "here":
        a = ["--ldpaths", ""]  # an empty list is not the current directory
    return {"wheels": [w], "sys": sysf, "env": env}, a


class Ref:
    """which libraries an ELF file needs, and where they are"""

    def __init__(self, root, ldp, env, white, excl):
        self.root, self.white, self.excl = root, white, excl
        self.env, self.conf = [d for d in env if os.path.isdir(d)], [d for d in ldp if os.path.isdir(d)]

    def dirs(self, s, path):
        out = []
        for e in (s or "").split(":") if s else []:
            d = posixpath.normpath(e.replace("$ORIGIN", posixpath.dirname(path)))
            if os.path.isdir(d):
                out.append(d)
        return out

    def tree(self, path):
        top = elfread.read(Path(path).read_bytes())
        top_run = self.dirs(top.runpath, path)
        self.libs = {}
        self.kids = {}
        queue = []

        def visit(p, e, chain):
            r = [*([] if e.runpath is not None else self.dirs(e.rpath, p)), *chain]
            own = e.runpath is not None
            ds = [*([] if own else r), *self.env, *self.dirs(e.runpath, p), *self.conf, *(r if own else []), *top_run]
            out = []
            for n in e.needed:
                if n in self.excl:
                    continue
                out.append(n)
                if n in self.libs:
                    continue
                self.libs[n], self.kids[n] = None, []
                if LIBPY.match(n):
                    continue
                for d in ds:
                    f = f"{d}/{n}"
                    if os.path.isfile(f):
                        x = elfread.read(Path(f).read_bytes())
                        if (x.cls, x.machine) == (top.cls, top.machine):
                            self.libs[n] = f
                            queue.append((n, f, x, r))
                            break
            return out

        need = visit(path, top, [])
        while queue:
            n, f, x, r = queue.pop(0)
            self.kids[n] = visit(f, x, r)
        todo = [n for n in need if n not in self.white and not LIBPY.match(n)]
        got = set()
        while todo:
            n = todo.pop()
            if n not in got:
                got.add(n)
                todo += [k for k in self.kids[n] if k not in self.white and not LIBPY.match(k)]
        return {n: self.libs[n] for n in got if not (self.libs[n] or "").startswith(self.root + "/")}


def run_case(c):
    v = []
    spec, a = world_of(c)
    m = ARCH[c["arch"]]
    opt = OPT[c["opt"]]
    if c["opt"] == "strip" and m != "x86_64":
        return CR([], ["n/a"], 0, 0, False, "strip is that of this machine")
    with Box(spec) as b:
        src = str(b.wheels[0])
        if c["src"] == "here":
            a = ["--ldpaths", ""]
        args = [x.replace("{SYS}", f"{b.root}/sys") for x in a]
        r1 = b.run(["show", "--json", *args, src])
        r2 = b.run(["repair", "-w", "{OUT}", *args, *opt, src])
        outs = sorted(p.name for p in Path(b.root, "out").glob("*"))
        plat = f"android_{c['api']}_{c['arch']}"
        lv = [x for x in LEVELS if x <= c["api"]]
        ok = c["tag"] in ("one", "pyabi", "build") and lv and m in ("x86_64", "aarch64")
        if not ok:
            if r1.rc == 0 or r2.rc == 0 or outs:
                v.append(("refused", f"{spec['wheels'][0]['plat']}: show {r1.rc}, repair {r2.rc} {outs}"))
            return CR(v, [f"refused {c['tag']} {c['api']} {c['arch']}"], 2, 1, True, "")
        white = LEVELS[max(lv)]
        ex = f"{b.root}/x"
        s = world.read_wheel(Path(src))
        for n, d in s.data.items():
            os.makedirs(posixpath.dirname(f"{ex}/{n}"), exist_ok=True)
            Path(ex, n).write_bytes(d)
        e = {k: x.replace("{SYS}", f"{b.root}/sys") for k, x in spec["env"].items()}

        def expect(excl):
            ref = Ref(ex, args[1].split(":") if args and args[1] else [], e.get("AUDITWHEEL_LD_LIBRARY_PATH", "").split(":") if e.get("AUDITWHEEL_LD_LIBRARY_PATH") else [], white, excl)
            return {n: ref.tree(f"{ex}/{n}") for n, d in s.data.items() if elfread.is_elf(d)}

        want = expect(())
        allw = {k: x for t in want.values() for k, x in t.items()}
        if r1.rc != 0:
            v.append(("show", f"{r1.rc} {r1.err[-300:]}"))
        else:
            j = json.loads(r1.out)
            exp = {"overall_tag": plat if not allw else f"linux_{m}", "sym_tag": plat, "external_libs": dict(sorted(allw.items())), "pure": False, "wheel": os.path.basename(src)}
            got = {k: j.get(k) for k in exp}
            if got != exp:
                v.append(("show", f"{got}; expected {exp}"))
        ex_names = {"excl": ["libfoo.so"], "exclbar": ["libbar.so"]}.get(c["opt"], [])
        want = expect(ex_names)
        graft = {x for t in want.values() for x in t.values()}
        bad = c["opt"] == "many" or None in graft or (graft and c["api"] < 24)
        if bad:
            if r2.rc == 0 or outs:
                v.append(("refused", f"repair {r2.rc} {outs} {want}"))
            return CR(v, [f"refused {sorted(map(str, want.items()))}"], 2, 1, True, "")
        if r2.rc != 0 or outs != [os.path.basename(src)]:
            v.append(("repair", f"{r2.rc} {outs} {r2.err[-400:]}"))
            return CR(v, ["failed"], 2, 1, True, "")
        o = world.read_wheel(Path(b.root, "out", outs[0]))
        sdir = {"sdir": ".deps", "sdir2": "/lib/x"}.get(c["opt"], ".libs")
        dest = "pkg" + sdir
        new = {n.rsplit("/", 1)[1]: n for n in o.data if n not in s.data and n.startswith(dest + "/")}
        by = {}
        for nn, n in new.items():
            ids = elfread.read(o.data[n]).vpid
            by[ids] = nn
        wid = {elfread.read(Path(p).read_bytes()).vpid: p for p in graft}
        if set(by) != set(wid):
            v.append(("grafts", f"grafted {sorted(map(str, by))}, expected {sorted(map(str, wid))}"))
            return CR(v, ["grafts"], 2, 1, True, "")
        newname = {p: by[i] for i, p in wid.items()}
        wh = [x for x in o.data["pkg-1.0.dist-info/WHEEL"].decode().splitlines() if x.startswith("Tag:")]
        whs = [x for x in s.data["pkg-1.0.dist-info/WHEEL"].decode().splitlines() if x.startswith("Tag:")]
        if set(wh) != set(whs):
            v.append(("tags", f"{wh}, was {whs}"))
        st = []
        for n, t in want.items():
            nn = n
            if n.startswith("pkg-1.0.data/scripts/") and n.count("/") == 2 and t:
                nn = "pkg.scripts/" + n.rsplit("/", 1)[1]
            x, y = elfread.read(s.data[n]), elfread.read(o.data[nn]) if nn in o.data and elfread.is_elf(o.data[nn]) else None
            if y is None:
                v.append(("edit", f"{nn} is missing"))
                continue
            if not t:
                if o.data[n] != s.data[n] and c["opt"] != "strip":
                    v.append(("edit", f"{n} needs nothing but was changed"))
                continue
            if y.needed != [newname[t[k]] if k in t else k for k in x.needed]:
                v.append(("needed", f"{n}: {y.needed}, was {x.needed}"))
            old = x.runpath if x.runpath is not None else x.rpath
            keep = []
            for k in (old or "").split(":"):
                d = posixpath.normpath(k.replace("$ORIGIN", "/w/" + posixpath.dirname(nn)))
                if k and (d + "/").startswith("/w/") and k not in keep:
                    keep.append(k)
            rel = "$ORIGIN/" + posixpath.relpath(dest, posixpath.dirname(nn))
            if y.rpath is not None or y.runpath != ":".join([*keep, *([rel] if rel not in keep else [])]):
                v.append(("runpath", f"{n}: DT_RPATH {y.rpath}, DT_RUNPATH {y.runpath}, was {old}"))
            st.append((nn, y.needed, y.runpath))
        for t in want.values():
            for k, p in t.items():
                x, y = elfread.read(Path(p).read_bytes()), elfread.read(o.data[new[newname[p]]])
                exp = [newname[t[k]] if k in t else k for k in x.needed]
                if y.needed != exp:
                    v.append(("needed", f"{newname[p]}: {y.needed}, expected {exp}"))
                inner = any(k in t for k in x.needed)
                if y.rpath is not None or (y.runpath or None) != ("$ORIGIN" if inner else None):
                    v.append(("runpath", f"{newname[p]}: DT_RPATH {y.rpath}, DT_RUNPATH {y.runpath}"))
                if y.soname != newname[p]:
                    v.append(("soname", f"{newname[p]}: {y.soname}"))
                st.append((newname[p], y.needed, y.runpath))
        if c["need"] != "foo" and c["src"] != "ldpaths":
            return CR(v, [str(st)], 2, 1, True, "")
        # what was repaired needs nothing more
        r3 = b.run(["repair", "-w", f"{b.root}/out/2", *opt, str(Path(b.root, "out", outs[0]))], env={"AUDITWHEEL_LD_LIBRARY_PATH": ""})
        o2 = sorted(Path(b.root, "out/2").glob("*"))
        if not ex_names and c["graph"] != "wheelchain":
            d2 = world.read_wheel(o2[0]).data if o2 else {}
            if r3.rc != 0 or not o2 or sorted(d2) != sorted(o.data) or (c["opt"] != "strip" and any(d2[k] != o.data[k] for k in d2 if elfread.is_elf(d2[k]))):
                v.append(("again", f"repairing again: {r3.rc} {sorted(set(d2) ^ set(o.data))} {r3.err[-300:]}"))
    return CR(v, [str(st)], 3, 1, True, "")


def bounds(tier):
    return {**{k: x for k, x in DIMS.items()}, "combinations": "all pairs; every API level with its own table times every library of the tables times three sources" + ("" if tier == "quick" else "; all combinations of 3 API levels, 2 architectures, 4 libraries and every source, kind, search path, 3 options and graph")}
