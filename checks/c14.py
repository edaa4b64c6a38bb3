"""C14: library lookup: which file a needed name is resolved to."""

from __future__ import annotations

import fnmatch
import itertools
import json
import os
import posixpath
import re
import sys

from mc import elfread, loader, menu, world
from mc.explore import CR
from mc.world import Box, elf

ID = "C14"
PRELOAD = True
LEVEL = "model_checking"
RULE = ("Every build machine of a bounded space - for each search source (DT_RPATH and DT_RUNPATH of the file asked for and of the library that asks, "
        "environment, --ldpaths) every state of the wanted name there (absent, present, of another architecture, dangling link, link loop, no directory), every combination of tags on three nested files with the name in some of their directories, "
        "every acyclic graph of three libraries that are all in two directories, some of them searching the second first (both confirmed by the real ld.so in trace mode), every NEEDED "
        "graph over up to 3 libraries including cycles, every way three symbolic links can point at each other or at files and directories, and every list of up to two "
        "spellings of a search path entry; and, on a simulated machine whose /etc/ld* and system directories are redirected at the libc boundary, every state of the name in every system directory, "
        "every ld.so.conf of up to three lines of the menu with every content of the included directory in every listing order, and every musl path file of the menu - is laid out on disk and `auditwheel lddtree` is run on it. A state is the dependency tree reported; "
        "a transition is one resolution of a name. The reference walks the same directories by the rules stated and the whole tree is compared.")
ASSUMPTIONS = ["directories of last resort (see the statement) are auditwheel's own, the loader does not search them",
               "search path entries are absolute, empty or start with $ORIGIN; directories are not searched for hardware capability subdirectories"]
LAST = re.compile("/[tab]r(un)?path/libx.so$")
LIBPY = re.compile(r"libpython\d+\.\d+m?.so(\.\d)*\Z")


def setup():
    world.import_auditwheel()
    import auditwheel.main_lddtree  # noqa: F401


# -- reference ---------------------------------------------------------------


def compat(a, b):
    return (a.cls, a.little, a.machine) == (b.cls, b.little, b.machine) and (a.osabi == b.osabi or {a.osabi, b.osabi} <= {0, 3})


SYSDIRS = ("/lib", "/lib64", "/usr/lib", "/usr/lib64", "/usr/local/lib")


def mapped(base):
    """where a path of the simulated machine lives (see mc/shim/vpshim.c)"""

    def f(p):
        if p and base and (p == "/etc" or p.startswith("/etc/ld") or p in SYSDIRS or any(p.startswith(d + "/libvp") for d in SYSDIRS)):
            return base + p
        return p

    return f


def ldconf(m, path="/etc/ld.so.conf"):
    """the directories ld.so.conf lists, in order: ldconfig(8)"""
    out = []
    try:
        lines = open(m(path)).read().split("\n")
    except OSError:
        return out
    for ln in lines:
        words = ln.partition("#")[0].split()
        if not words:
            continue
        if words[0] == "include" and len(words) > 1:
            for w in words[1:]:
                q = w if w.startswith("/") else posixpath.join(posixpath.dirname(path), w)
                d, pat = posixpath.split(q)
                rx = re.compile(fnmatch.translate(pat))
                try:
                    names = os.listdir(m(d) if d != "/etc/ld.so.conf.d" else m("/etc/ld.so.conf.d"))
                except OSError:
                    names = []
                for n in sorted(names, key=os.fsencode):
                    if rx.match(n) and (pat.startswith(".") or not n.startswith(".")):
                        out += ldconf(m, posixpath.join(d, n))
        else:
            out.append(" ".join(words))
    return out


class Ref:
    def __init__(self, cwd, env, conf, m=lambda p: p):
        self.cwd = cwd
        self.m = m
        self.env = self.dirs(env, None)
        self.conf = self.dirs(conf, None)
        self.libs = {}
        self.n = 0

    def dirs(self, s, path):
        out = []
        for e in (s or "").split(":") if s else []:
            if e == "":
                d = self.cwd
            else:
                d = e.replace("${ORIGIN}", "$ORIGIN")
                if "$ORIGIN" in d:
                    d = d.replace("$ORIGIN", posixpath.dirname(path))
            d = posixpath.normpath(d)
            if os.path.isdir(self.m(d)) and d not in out:
                out.append(d)
        return out

    def elf(self, p):
        with open(self.m(p), "rb") as f:
            return elfread.read(f.read())

    def run(self, root):
        top = self.elf(root)
        self.top = top
        self.trp, self.trun = self.tags(top, root)
        self.interp = []
        if top.interp:
            self.libs[posixpath.basename(top.interp)] = (top.interp, os.path.realpath(top.interp), [])
            d = posixpath.dirname(top.interp)
            self.interp = [d, posixpath.normpath("/usr" + d)]
        self.walk(root)
        return {"needed": top.needed, "rpath": self.trp, "runpath": self.trun, "libs": self.libs, "interp": top.interp or None}

    def tags(self, e, path):
        run = self.dirs(e.runpath, path)
        return ([] if e.runpath is not None else self.dirs(e.rpath, path)), run

    def walk(self, root):
        todo = [(root, [])]
        while todo:
            path, chain = todo.pop(0)
            e = self.elf(path)
            rp, run = self.tags(e, path)
            chain = rp + chain
            order = self.env + run + self.conf + self.interp
            order = (order + chain if e.runpath is not None else chain + order) + self.trun
            for n in e.needed:
                if n in self.libs:
                    continue
                self.n += 1
                if LIBPY.match(n):
                    self.libs[n] = (None, None, [])
                    continue
                for d in order:
                    p = posixpath.join(d, n)
                    if os.path.isfile(self.m(p)):
                        o = self.elf(p)
                        if compat(e, o):
                            real = final(p) if self.m(p) == p else p
                            self.libs[n] = (p, real, o.needed)
                            todo.append((real, chain))
                            break
                else:
                    self.libs[n] = (None, None, [])


def final(p):
    """the file a link leads to; directories keep the name they were reached by"""
    full = os.path.realpath(p)
    for _ in range(40):
        if not os.path.islink(p):
            break
        p = posixpath.join(posixpath.dirname(p), os.readlink(p))
    p = posixpath.normpath(p)
    # what counts is the file
    return p if os.path.realpath(p) == full else full


# -- worlds --------------------------------------------------------------------

G = [["libc.so.6", ["GLIBC_2.2.5"]]]


def L(id, needed=(), **kw):
    return elf(id=id, needed=list(needed), **kw)


def put(sys_, where, name, state):
    """state of `name` in directory `where`"""
    q = f"{where}/{name}"
    if state == "-":
        sys_[f"{where}/.keep"] = world.text("")
    elif state == "n":
        pass  # the directory does not exist
    elif state == "y":
        sys_[q] = L(f"{name}@{where}")
    elif state == "a":
        sys_[q] = L(f"{name}@{where}", machine="aarch64")
    elif state == "3":
        sys_[q] = L(f"{name}@{where}", machine="i686")
    elif state == "b":
        sys_[q] = L(f"{name}@{where}", little=False)
    elif state == "c":
        sys_[q] = L(f"{name}@{where}", cls=32)
    elif state == "f":
        sys_[q] = L(f"{name}@{where}", osabi=9)
    elif state == "g":
        sys_[q] = L(f"{name}@{where}", osabi=3)
    elif state == "d":
        sys_[q] = {"kind": "link", "to": "nowhere"}
    elif state == "o":
        sys_[q] = {"kind": "link", "to": name}
    elif state == "s":
        sys_[f"real-{where}/{name}.9"] = L(f"{name}@{where}", ["libr.so"], **{"runpath" if where in ("conf", "rup") else "rpath": "$ORIGIN"})
        sys_[f"real-{where}/libr.so"] = L(f"libr@{where}")
        sys_[q] = {"kind": "link", "to": f"../real-{where}/{name}.9"}
    else:
        raise AssertionError(state)


def spec(c):
    o = {c.get("tag", "rpath"): "$ORIGIN"}
    s = {"wheels": [], "sys": {}, "env": {}, "root": "top/ext.so", "ldpaths": "{SYS}/conf", "cwd": None}
    k = c["kind"]
    y = s["sys"]
    if k == "order":  # the top file asks
        st, tag = c["st"], c["tag"]
        for d, x in zip(("rp", "rup", "env", "conf"), st):
            put(y, d, "libx.so", x)
        y["top/ext.so"] = L("ext", ["libx.so"], **tags("", tag, "{SYS}/rp", "{SYS}/rup"))
        s["env"]["AUDITWHEEL_LD_LIBRARY_PATH"] = "{SYS}/env"
    elif k == "deep":  # a library asks
        st, tag, ltag = c["st"], c["tag"], c["ltag"]
        for d, x in zip(("rp", "rup", "lrp", "lrup", "env", "conf"), st):
            put(y, d, "libx.so", x)
        y["a/liba.so"] = L("a", ["libx.so"], **tags("", ltag, "{SYS}/lrp", "{SYS}/lrup"))
        y["top/ext.so"] = L("ext", ["liba.so"], **tags("", tag, "{SYS}/rp", "{SYS}/rup"))
        s["env"]["AUDITWHEEL_LD_LIBRARY_PATH"] = "{SYS}/a:{SYS}/env"
    elif k == "chain":  # a library of a library asks; the environment instead of the configuration, as the real loader has it
        s["ldpaths"] = ""
        y["env/.keep"] = world.text("")
        for o, t in zip("tab", c["tags"]):
            for d in ("rpath", "runpath"):
                if f"{o}{d}" in c["at"]:
                    put(y, f"{o}{d}", "libx.so", "y")
        if "env" in c["at"]:
            put(y, "env", "libx.so", "y")
        T = {o: tags("", t, f"{{SYS}}/{o}rpath", f"{{SYS}}/{o}runpath") for o, t in zip("tab", c["tags"])}
        y["top/ext.so"] = L("ext", ["liba.so"], **T["t"])
        y["env/liba.so"] = L("a", ["libb.so"], **T["a"])
        y["env/libb.so"] = L("b", ["libx.so"], **T["b"])
        s["env"]["AUDITWHEEL_LD_LIBRARY_PATH"] = "{SYS}/env"
    elif k == "twice":  # every library is in two directories, some of them look in the second one first
        s["ldpaths"] = ""
        names = ["libp.so", "libq.so", "libr.so"]
        need = lambda m: [names[j] for j in range(3) if m >> j & 1]  # noqa: E731
        y["top/ext.so"] = L("ext", need(c["top"]))
        for j, m in enumerate(c["libs"]):
            for i, d in enumerate(("env", "two")):
                y[f"{d}/{names[j]}"] = L(f"{names[j]}@{d}", need(m), **({"rpath": "{SYS}/two"} if c["rp"] >> j & 1 and not i else {}))
        s["env"]["AUDITWHEEL_LD_LIBRARY_PATH"] = "{SYS}/env"
    elif k == "abi":  # every pair of identities
        y["top/ext.so"] = L("ext", ["libx.so"], **c["top"])
        y["env/libx.so"] = L("x1", ["liby.so"], **c["x"])
        y["conf/libx.so"] = L("x2", ["liby.so"], **c["top"])
        y["env/liby.so"] = L("y1", **c["y"])
        y["conf/liby.so"] = L("y2", **c["top"])
        s["env"]["AUDITWHEEL_LD_LIBRARY_PATH"] = "{SYS}/env"
    elif k == "graph":
        names = c.get("names") or ["libp.so", "libq.so", "libr.so", "libs.so"]
        n = len(c["libs"])

        def need(m):
            r = [names[j] for j in range(n) if m >> j & 1]
            return r[::-1] if c.get("rev") else r

        y["top/ext.so"] = L("ext", need(c["top"]) * (2 if c.get("twice") else 1))
        for j, m in enumerate(c["libs"]):
            if m is not None:
                y[f"conf/{names[j]}"] = L(names[j], need(m))
    elif k == "links":
        for n, t in zip(("libx.so", "l1", "sub/l2"), c["to"]):
            y[f"conf/{n}"] = {"kind": "link", "to": t} if t != "=" else L("file-" + n.replace("/", "-"), ["libz.so"], **o)
        y["conf/F"] = L("F", ["libz.so"], **o)
        y["conf/sub/F"] = L("subF", ["libz.so"], **o)
        y["other/F"] = L("otherF", ["libz.so"], **o)
        for d in ("conf/sub", "other"):
            y[f"{d}/libz.so"] = L(f"z@{d}")
        y["late/libx.so"] = L("late")
        y["dlink"] = {"kind": "link", "to": "conf/sub"}
        y["top/ext.so"] = L("ext", ["libx.so"])
        s["ldpaths"] = "{SYS}/conf:{SYS}/late"
    elif k == "dirs":  # the search directory itself is a link
        y["real/sub/F"] = L("F", ["libz.so"], **o)
        y["real/F"] = L("upF", ["libz.so"], **o)
        y["F"] = L("rootF", ["libz.so"], **o)
        y["real/sub/libz.so"] = L("z@real/sub")
        y["real/libz.so"] = L("z@real")
        y["real/sub/libx.so"] = {"kind": "link", "to": c["to"]}
        y["conf"] = {"kind": "link", "to": c["dir"]}
        y["chain"] = {"kind": "link", "to": "real/sub"}
        y["top/ext.so"] = L("ext", ["libx.so"])
    elif k == "spell":
        for d in ("d1", "d2", "top", "top/sub"):
            y[f"{d}/libx.so"] = L(f"x@{d}")
        y["conf/libx.so"] = L("x@conf")
        y["dl"] = {"kind": "link", "to": "d2"}
        v = ":".join(c["list"])
        s["ldpaths"] = "{SYS}/conf"
        if c["where"] in ("rpath", "runpath"):
            y["top/ext.so"] = L("ext", ["libx.so"], **{c["where"]: v})
        else:
            y["top/ext.so"] = L("ext", ["libx.so"])
            if c["where"] == "ldpaths":
                s["ldpaths"] = v
            else:
                s["env"]["AUDITWHEEL_LD_LIBRARY_PATH"] = v
        s["cwd"] = "{SYS}/d2"
    elif k == "name":
        y["top/ext.so"] = L("ext", [c["name"], "libother.so"])
        if "/" not in c["name"]:
            y[f"conf/{c['name']}"] = L("it", ["libdep.so"])
        y["conf/libdep.so"] = L("dep")
    elif k == "interp":
        y["ld/ld-linux-x86-64.so.2"] = L("loader", soname="ld-linux-x86-64.so.2")
        put(y, "ld", "libx.so", c["st"][0])
        put(y, "conf", "libx.so", c["st"][1])
        y["top/ext.so"] = L("exe", c["needed"], interp=c["interp"], **c.get("kw", {}))
    elif k in ("sys", "conf"):  # no --ldpaths: the configuration and the system directories of a simulated machine
        need = {"glibc": ["libc.so.6"], "musl": ["libc.musl-x86_64.so.1"], "none": []}[c["libc"]]
        s["ldpaths"] = "{SYS}/late" if c.get("ldpaths") else None
        s["machine"] = True
        y["m/etc/.keep"] = y["late/.keep"] = world.text("")
        for d in SYSDIRS:
            y[f"m{d}/.keep"] = world.text("")
        at = lambda d: "m" + d if d.startswith("/") else d  # noqa: E731
        for n, t in c.get("etc", {}).items():
            y["m/etc/" + n] = world.text(t) if not t.startswith("->") else {"kind": "link", "to": t[2:]}
        if k == "sys":
            for d, st in zip(c["dirs"], c["st"]):
                put(y, at(d), "libvpx.so", st)
            names = ["libvpx.so"]
        else:  # a library for every pair of directories: the whole order shows
            names = []
            for a, b in itertools.combinations_with_replacement(c["dirs"], 2):
                names.append(f"libvp{len(names)}.so")
                for d in {a, b}:
                    y[f"{at(d)}/{names[-1]}"] = L(f"{names[-1]}@{d}")
        y["top/ext.so"] = L("ext", (need + names if c.get("first") else names + need), **({"interp": c["interp"]} if c.get("interp") else {}))
        for i, n in enumerate(("AUDITWHEEL_LD_LIBRARY_PATH", "LD_LIBRARY_PATH")):
            if c.get("env", 0) >> i & 1:
                put(y, f"e{i}", "libvpx.so", c["est"][i])
                s["env"][n] = f"{{SYS}}/e{i}"
    elif k == "host":  # no --ldpaths: ld.so.conf and the trusted directories of this machine, LD_LIBRARY_PATH
        put(y, "e1", "libx.so", c["st"][0])
        put(y, "e2", "libx.so", c["st"][1])
        y["top/ext.so"] = L("ext", ["libx.so", *c["needed"]])
        s["ldpaths"] = None
        if c["env"] & 1:
            s["env"]["AUDITWHEEL_LD_LIBRARY_PATH"] = "{SYS}/e1"
        if c["env"] & 2:
            s["env"]["LD_LIBRARY_PATH"] = "{SYS}/e2"
    return s


def tags(_, which, rp, rup):
    o = {}
    if which in ("rpath", "both"):
        o["rpath"] = rp
    if which in ("runpath", "both"):
        o["runpath"] = rup
    return o


TAGS = ("none", "rpath", "runpath", "both")
SPELL = ["{SYS}/d1", "{SYS}/d2", "$ORIGIN", "${ORIGIN}/sub", "$ORIGIN/../d1", "", "{SYS}//d1/", "{SYS}/d1/../d2/.", "{SYS}/none", "{SYS}/dl", "{SYS}/top/ext.so", "$ORIGIN/sub/../../d2"]
NAMES = ["libpython3.12.so", "libpython3.12.so.1.0", "libpython2.7.so.1.0", "libpython3.7m.so.1.0", "libpython3.so", "libpython3.12.so.1.0x", "xlibpython3.12.so", "libpython3.12d.so",
         "libpython3.12.a", "libpython3.12.so.10", "libfoo.so", "libfoo", "lib foo.so.1", "libfé.so", "ld-linux-x86-64.so.2", "libc.so.6", "linux-vdso.so.1", "lib+c++.so.6", "[x].so", "libpython3.12.so.1."]
IDS = [{"machine": m} for m in ("x86_64", "i686", "aarch64", "armv7l", "ppc64", "ppc64le", "s390x", "riscv64", "loongarch64")] + [
    {"osabi": 3}, {"osabi": 9}, {"cls": 32}, {"little": False}, {"osabi": 2}, {"machine": "armv7l", "eflags": 0}]
LINKT = {"libx.so": ["F", "l1", "sub/l2", "libx.so", "gone", "../dlink/F", "=", "{SYS}/other/F", "./sub/../F"],
         "l1": ["F", "libx.so", "sub/l2", "l1", "sub/F", "../dlink/l2", "="],
         "sub/l2": ["F", "../l1", "../F", "../libx.so", "l2", "../../other/F", "{SYS}/dlink/F", "="]}


# lines of ld.so.conf
LINES = ["{SYS}/c1", "{SYS}/c2", "  {SYS}/c3\t", "# {SYS}/c4", "{SYS}/c4 # {SYS}/c1", "", "include /etc/ld.so.conf.d/*.conf", "include ld.so.conf.d/*.conf", "include ld.so.conf.d/b.conf",
         "include nothing.conf", "include /etc/ld.so.conf.d/[b-z]*", "{SYS}/none", "/usr/local/lib", "include\t/etc/ld.so.conf.d/a.conf"]
CONFD = [{}, {"a.conf": "{SYS}/c3\n", "b.conf": "{SYS}/c2\n{SYS}/c4\n"}, {"a.conf": "{SYS}/c4", "b.conf": "include ld2/*.conf\n{SYS}/c1", "c.conf": "{SYS}/c2\n", "d.other": "{SYS}/c3\n",
                                                                             ".h.conf": "{SYS}/c3", "ld2/x.conf": "{SYS}/c3\n"}]
MUSL = ["{1}", "{1}:{2}", "{2}:{1}", "{1}\n{2}", "{2}\n{1}\n", "{1}:{2}\n", "", "\n", " {1} : {2} ", ":{2}::{1}:", "{1}\n\n{2}:{3}", "{3}/:{2}", "/usr/lib:{1}", "{1}:/lib\n/usr/local/lib"]
TRUSTED = ["/lib", "/lib64", "/usr/lib", "/usr/lib64"]


def machines(big):
    for lc in ("glibc", "none"):
        for st in itertools.product("-ya", repeat=5):
            yield {"kind": "sys", "libc": lc, "dirs": ["c1", *TRUSTED], "st": "".join(st), "etc": {"ld.so.conf": "{SYS}/c1\n"}}
    for st in itertools.product("-ya" if big else "-y", repeat=4):
        for e in range(4):
            for est in itertools.product("-ya", repeat=2):
                if (e & 1 or est[0] == "-") and (e & 2 or est[1] == "-"):
                    for lp in (False, True):
                        yield {"kind": "sys", "libc": "glibc", "dirs": ["c1", "late", "/lib64", "/usr/lib"], "st": "".join(st), "etc": {"ld.so.conf": "{SYS}/c1\n"}, "env": e, "est": "".join(est), "ldpaths": lp}
    for st in itertools.product("-ya", repeat=5):
        yield {"kind": "sys", "libc": "musl", "dirs": ["/lib", "/usr/local/lib", "/usr/lib", "/lib64", "c1"], "st": "".join(st), "etc": {"ld.so.conf": "{SYS}/c1\n"}, "first": st[0] == "y"}
    for x in ("/lib/ld-musl-x86_64.so.1", "/lib64/ld-linux-x86-64.so.2", "/usr/local/lib/ld-x.so.1"):
        for st in itertools.product("-ya", repeat=5):
            for lp in (False, True):
                yield {"kind": "sys", "libc": "none", "dirs": ["late", "/lib", "/usr/lib", "/lib64", "/usr/local/lib"], "st": "".join(st), "interp": x, "ldpaths": lp}
    all_ = ["c1", "c2", "c3", "c4", "/usr/local/lib", "/lib", "/usr/lib64"]
    for n in (0, 1, 2, 3):
        for ls in itertools.product(LINES, repeat=n):
            if n == 3 and (not big and (len(set(ls)) < 3 or not any(x.startswith("include ") for x in ls) or "" in ls or "{SYS}/none" in ls)):
                continue
            for i, cd in enumerate(CONFD):
                if (i and not any(x.startswith("include") for x in ls)) or (n == 3 and i != 2):
                    continue
                for o in ("fwd", "rev"):
                    if o == "rev" and (not i or n == 3):
                        continue
                    yield {"kind": "conf", "libc": "glibc", "dirs": all_, "scandir": o, "etc": {"ld.so.conf": "\n".join(ls) + "\n" * (n % 2), **{"ld.so.conf.d/" + k: v for k, v in cd.items()}}}
    for i in range(6 if big else 2):  # three files in every order the directory may list them
        yield {"kind": "conf", "libc": "glibc", "dirs": all_, "scandir": f"p{i}", "etc": {"ld.so.conf": "include ld.so.conf.d/*.conf\n", "ld.so.conf.d/a.conf": "{SYS}/c3", "ld.so.conf.d/b.conf": "{SYS}/c1", "ld.so.conf.d/c.conf": "{SYS}/c2"}}
    yield {"kind": "conf", "libc": "none", "dirs": all_}  # no ld.so.conf
    for t in ("->gone", "->ld.so.real"):
        yield {"kind": "conf", "libc": "glibc", "dirs": all_, "etc": {"ld.so.conf": t, "ld.so.real": "{SYS}/c2\n{SYS}/c1\n"}}
    for t in MUSL:
        t = t.replace("{", "{SYS}/c").replace("}/:", "/:")
        import re as r

        t = r.sub(r"c(\d)\}", r"c\1", t)
        for lc in ("musl", "glibc"):
            for x in ("", "/lib/ld-musl-x86_64.so.1"):
                if lc == "musl" or not x:
                    yield {"kind": "conf", "libc": lc, "dirs": all_, "interp": x, "etc": {"ld-musl-x86_64.path": t, "ld.so.conf": "{SYS}/c4\n"}}


def cases(tier):
    big = tier == "thorough"
    yield from machines(big)
    for st in itertools.product("-nyad" + ("3bcfgos" if big else "os"), repeat=4):
        for t in TAGS:
            if (t in ("none", "runpath") and st[0] != "-") or (t in ("none", "rpath") and st[1] != "-"):
                continue
            if not big and sum(x != "-" for x in st) > 3 and st[3] not in "y-":
                continue
            if big and sum(x not in "-y" for x in st) > 2:
                continue
            yield {"kind": "order", "st": "".join(st), "tag": t}
    for st in itertools.product("-y" if not big else "-ya", repeat=6):
        for t in TAGS:
            for lt in TAGS:
                if (t in ("none", "runpath") and st[0] != "-") or (t in ("none", "rpath") and st[1] != "-"):
                    continue
                if (lt in ("none", "runpath") and st[2] != "-") or (lt in ("none", "rpath") and st[3] != "-"):
                    continue
                yield {"kind": "deep", "st": "".join(st), "tag": t, "ltag": lt}
    for a in ("n", "a"):  # directories of a tag that do not exist or hold the wrong thing
        for st in itertools.product("y" + a, repeat=4):
            for t in TAGS:
                for lt in TAGS:
                    yield {"kind": "deep", "st": "".join(st) + "-y", "tag": t, "ltag": lt}
    for t in itertools.product(TAGS, repeat=3):
        at = [f"{o}{d}" for o, x in zip("tab", t) for d in ("rpath", "runpath") if x in (d, "both")] + ["env"]
        for n in range(1 << len(at)):
            if big or n.bit_count() in (0, 1, 2, len(at)):
                yield {"kind": "chain", "tags": t, "at": [x for i, x in enumerate(at) if n >> i & 1]}
    for top in range(1, 8):
        for libs in itertools.product(range(8), repeat=3):
            if big or not (libs[0] & 1 or libs[1] & 3 or libs[2] & 7):
                for rp in range(1, 8):
                    yield {"kind": "twice", "top": top, "libs": list(libs), "rp": rp}
    for a in IDS:
        for b in IDS:
            for y in (IDS if big else [b, a, {}]):
                yield {"kind": "abi", "top": a, "x": b, "y": y}
    n = 3
    for top in range(1, 1 << n):
        for libs in itertools.product(range(1 << n), repeat=n):
            if big or top == 1:
                yield {"kind": "graph", "top": top, "libs": list(libs)}
                if big:
                    yield {"kind": "graph", "top": top, "libs": list(libs), "rev": True}
    for top in range(1, 4):
        for libs in itertools.product([None, 0, 1, 2, 3], repeat=2):
            for rev in (False, True):
                for tw in (False, True):
                    yield {"kind": "graph", "top": top, "libs": list(libs), "rev": rev, "twice": tw}
                    yield {"kind": "graph", "top": top, "libs": list(libs), "rev": rev, "twice": tw, "names": ["libpython3.12.so.1.0", "libq.so"]}
    if big:
        # every graph over four libraries in which each needs at most two, from one root
        for libs in itertools.product([m for m in range(16) if m.bit_count() <= 2], repeat=4):
            if sum(m.bit_count() for m in libs) <= 5:
                yield {"kind": "graph", "top": 1, "libs": list(libs)}
    for to in itertools.product(*LINKT.values()):
        for t in ("rpath", "runpath"):
            yield {"kind": "links", "to": list(to), "tag": t}
    for d in ("real/sub", "chain", "real", "real/sub/../sub", "nowhere", "conf"):
        for to in ("F", "../F", "../../F", "./F", "{SYS}/real/F", "../sub/F", "../../conf/F", "../../real/F"):
            for t in ("rpath", "runpath"):
                yield {"kind": "dirs", "dir": d, "to": to, "tag": t}
    for w in ("rpath", "runpath", "ldpaths", "env"):
        sp = [x for x in SPELL if "ORIGIN" not in x] if w in ("ldpaths", "env") else SPELL
        for n in ((1, 2, 3) if big else (1, 2)):
            for ls in itertools.product(sp, repeat=n):
                yield {"kind": "spell", "where": w, "list": list(ls)}
    for x in NAMES:
        yield {"kind": "name", "name": x}
    for i in ("{SYS}/ld/ld-linux-x86-64.so.2", "/lib64/ld-linux-x86-64.so.2", "{SYS}/gone/ld-musl-x86_64.so.1"):
        for st in itertools.product("-yad", repeat=2):
            for nd in (["libx.so"], ["ld-musl-x86_64.so.1" if "musl" in i else "ld-linux-x86-64.so.2", "libx.so"], ["libx.so", "libx.so", "liby.so"]):
                yield {"kind": "interp", "interp": i, "st": "".join(st), "needed": nd}
    for st in itertools.product("-ya", repeat=2):
        for e in range(4):
            for nd in ([], ["libc.so.6"], ["libm.so.6", "libz.so.1", "libnothere.so.77"], ["libstdc++.so.6", "libgcc_s.so.1"]):
                yield {"kind": "host", "st": "".join(st), "env": e, "needed": nd}


def host_conf():
    from mc import ref

    return ":".join(ref.host_conf_dirs())


def run_case(c):
    s = spec(c)
    with Box(s) as b:
        root = f"{b.root}/sys/{s['root']}"
        cwd = (s["cwd"] or "{ROOT}/run").replace("{SYS}", f"{b.root}/sys").replace("{ROOT}", b.root)
        sub = lambda x: x and x.replace("{SYS}", f"{b.root}/sys")  # noqa: E731
        cmd = ["lddtree", root]
        if s["ldpaths"] is not None:
            cmd += ["--ldpaths", s["ldpaths"]]
        opts = {}
        m_ = lambda p: p  # noqa: E731
        if s.get("machine"):
            opts["machine"] = f"{b.root}/sys/m"
            m_ = mapped(opts["machine"])
            if c.get("scandir"):
                opts["scandir"] = c["scandir"]
        r = b.run(cmd, timeout=30, cwd=cwd, opts=opts)
        e = s["env"]
        if s["ldpaths"] is None and s.get("machine"):
            env = ":".join(x for x in (e.get("AUDITWHEEL_LD_LIBRARY_PATH"), e.get("LD_LIBRARY_PATH")) if x)
            if c["libc"] == "musl" or "musl" in c.get("interp", ""):
                t = c.get("etc", {}).get("ld-musl-x86_64.path")
                conf = ":".join(x for x in (w.strip() for w in re.split("[:\n]", sub(t))) if x) if t is not None else "/lib:/usr/local/lib:/usr/lib"
            else:
                conf = ":".join([*ldconf(m_), *TRUSTED])
        elif s["ldpaths"] is None:
            env = ":".join(x for x in (e.get("AUDITWHEEL_LD_LIBRARY_PATH"), e.get("LD_LIBRARY_PATH")) if x)
            conf = host_conf()
        else:
            env, conf = e.get("AUDITWHEEL_LD_LIBRARY_PATH"), s["ldpaths"]
        f = Ref(cwd, sub(env), sub(conf), m_)
        exp = f.run(root)
        m = re.search(r"^INFO:auditwheel.main_lddtree:(\{.*)", r.err, re.S | re.M)
        v = []
        rel = lambda x: json.dumps(x, default=str).replace(b.root, "")  # noqa: E731
        if r.rc != 0 or not m:
            v.append(("failed", f"lddtree: {str(r.rc).replace(b.root, '')} {r.err[-300:].replace(b.root, '')}"))
            return CR(v, [str(r.rc)[:60]], 1, 1, False, "")
        got = json.JSONDecoder().raw_decode(m[1])[0]
        if got["path"] != root or got["realpath"] != root:
            v.append(("top", f"path {rel(got['path'])}, {rel(got['realpath'])}"))
        if got["interpreter"] != exp["interp"]:
            v.append(("interpreter", f"{rel(got['interpreter'])}, expected {rel(exp['interp'])}"))
        for k in ("needed", "rpath", "runpath"):
            if got[k] != exp[k]:
                v.append((k, f"{k} {rel(got[k])}, expected {rel(exp[k])}"))
        real = lambda p: os.path.realpath(m_(posixpath.normpath(p).replace("//", "/")))  # noqa: E731
        g = {n: (x["path"], x["realpath"], x["needed"]) for n, x in got["libraries"].items()}
        for n in sorted({*g, *exp["libs"]}):
            if n not in g:
                v.append(("lost", f"{n} is not in the tree"))
            elif n not in exp["libs"]:
                v.append(("extra", f"{n} is in the tree: {rel(g[n])}"))
            else:
                x, z = g[n], exp["libs"][n]
                same = (x[0] is None) == (z[0] is None) and (x[0] is None or (real(x[0]) == real(z[0]) and real(x[1]) == real(z[1])))
                if not same:
                    v.append(("resolved", f"{n} is resolved to {rel(x[:2])}, expected {rel(z[:2])}"))
                elif x[2] != z[2]:
                    v.append(("needed", f"{n} needs {x[2]}, expected {z[2]}"))
        if c["kind"] in ("chain", "twice") and loader.available():
            v += witness(root, sub(env), exp["libs"], f.trun, rel)
        return CR(v, [rel(got)], f.n, 1, True, rel(g)[:300])


def witness(root, env, libs, last, rel):
    """the real loader finds the same files; what it does not find is not found
    or in the places of last resort"""
    got = loader.trace(root, env)
    if isinstance(got, str):
        return [("loader", f"ld.so: {got}")]
    v = []
    for n, (p, real, _) in libs.items():
        w = got.get(n)
        if w is not None and (real is None or os.path.realpath(real) != os.path.realpath(w)):
            v.append(("loader", f"{n}: the loader finds {rel(w)}, expected {rel(real)}"))
        elif w is None and n in got and real is not None and not LAST.search(real):
            v.append(("loader", f"{n}: the loader finds nothing, expected {rel(real)}"))
    return v


def bounds(tier):
    return {"states per directory": "- n y a d o s" if tier == "quick" else "all 12, at most 2 unusual", "graphs": "3 libraries, all NEEDED relations" + ("" if tier == "quick" else " and orders; 4 libraries with up to 5 edges"),
            "links": "all functional graphs of 3 links over the listed targets", "search path entries": f"{len(SPELL)} spellings, lists of up to {2 if tier == 'quick' else 3}"}
