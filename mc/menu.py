"""The menu of worlds: one base world (a wheel, a build machine, a command
line) and named deviations from it.  A world is a tuple of deviation names; the
explorer enumerates every set of at most k pairwise compatible deviations."""

from __future__ import annotations

import copy
import hashlib
import itertools

from mc import elfgen
from mc.world import default_wheel, elf, text

EXT = "pkg/ext.cpython-312-x86_64-linux-gnu.so"
PYI = [["PyInit_ext", True, "global", "func"], ["PyModule_Create2", False, "global", "func"]]
GL = [["libc.so.6", ["GLIBC_2.2.5"]]]


def lib(id, needed=(), soname=None, verneed=None, **kw):
    """a system library"""
    d = dict(id=id, needed=[*needed, "libc.so.6"], verneed=copy.deepcopy(GL if verneed is None else verneed), **kw)
    if soname is not None:
        d["soname"] = soname
    return elf(**d)


def base() -> dict:
    w = default_wheel()
    w["files"] = {
        "pkg/__init__.py": text("x = 1\n"),
        EXT: elf(id="ext", needed=["liba.so.1", "libc.so.6"], verneed=copy.deepcopy(GL), symbols=copy.deepcopy(PYI)),
        "pkg/data.txt": text("payload\n"),
    }
    sys_ = {
        "lib/liba.so.1": lib("a", ["libb.so.2"], "liba.so.1"),
        "lib/libb.so.2": lib("b", [], "libb.so.2"),
        "lib/libc.so.6": elf(id="libc", soname="libc.so.6"),
    }
    return {"wheels": [w], "sys": sys_, "env": {}, "ldpaths": ["{SYS}/lib"], "args": [], "plat": None,
            "exclude": [], "update": True, "lib_sdir": ".libs", "opts": {}, "ext": EXT, "notes": []}


# -- helpers on a spec -----------------------------------------------------


def W(s):
    return s["wheels"][0]


def F(s):
    return W(s)["files"]


def X(s):
    return F(s)[s["ext"]]["elf"]


def SL(s, name):
    """elf spec of system library"""
    return s["sys"][name]["elf"]


def move_ext(s, new):
    f = F(s)
    f[new] = f.pop(s["ext"])
    s["ext"] = new


def addver(e, libname, *vers):
    for v in e["verneed"]:
        if v[0] == libname:
            v[1] = v[1] + [x for x in vers if x not in v[1]]
            return
    e["verneed"] = e["verneed"] + [[libname, list(vers)]]


DEVS: dict[str, tuple[str, object]] = {}  # name -> (slot, fn)


def dev(slot, name):
    def deco(fn):
        assert name not in DEVS, name
        DEVS[name] = (slot, fn)
        return fn

    return deco


def setk(path, val):
    return lambda s: None


# -- graph -------------------------------------------------------------------


@dev("g.direct", "g.direct_b")
def _(s):
    X(s)["needed"].insert(1, "libb.so.2")


@dev("g.direct", "g.direct_b_first")
def _(s):
    X(s)["needed"].insert(0, "libb.so.2")


@dev("g.diamond", "g.diamond")
def _(s):
    s["sys"]["lib/libe.so"] = lib("e", [], "libe.so")
    SL(s, "lib/liba.so.1")["needed"].append("libe.so")
    SL(s, "lib/libb.so.2")["needed"].append("libe.so")


@dev("g.cycle", "g.cycle")
def _(s):
    SL(s, "lib/libb.so.2")["needed"].insert(0, "liba.so.1")


@dev("g.deep", "g.deep")
def _(s):
    SL(s, "lib/libb.so.2")["needed"].append("libf.so.1")
    s["sys"]["lib/libf.so.1"] = lib("f", ["libg.so.1"], "libf.so.1")
    s["sys"]["lib/libg.so.1"] = lib("g", ["libh.so.1"], "libg.so.1")
    s["sys"]["lib/libh.so.1"] = lib("h", [], "libh.so.1")


def _ext2(s, needed, path="pkg/sub/ext2.abi3.so"):
    F(s)[path] = elf(id="ext2", needed=[*needed, "libc.so.6"], verneed=copy.deepcopy(GL),
                     symbols=[["PyInit_ext2", True, "global", "func"]])


@dev("g.ext2", "g.ext2_same")
def _(s):
    _ext2(s, ["liba.so.1"])


@dev("g.ext2", "g.ext2_chain")
def _(s):
    _ext2(s, ["libb.so.2"])


@dev("g.ext2", "g.ext2_diff")
def _(s):
    _ext2(s, ["libd.so.4"])
    s["sys"]["lib/libd.so.4"] = lib("d", [], "libd.so.4")


@dev("g.ext2", "g.ext2_top")
def _(s):
    _ext2(s, ["liba.so.1"], "ext2.abi3.so")


@dev("g.ext2", "g.ext2_clean")
def _(s):
    _ext2(s, [])


@dev("g.ext2", "g.dupsoname")
def _(s):
    # two extensions whose RPATHs resolve the same soname to different files
    _ext2(s, ["libs.so.1"])
    F(s)["pkg/sub/ext2.abi3.so"]["elf"]["rpath"] = "{SYS}/d2"
    X(s)["needed"].insert(0, "libs.so.1")
    X(s)["rpath"] = "{SYS}/d1"
    s["sys"]["d1/libs.so.1"] = lib("s1", ["libt.so.1"], "libs.so.1", rpath="{SYS}/d1")
    s["sys"]["d1/libt.so.1"] = lib("t1", [], "libt.so.1")
    s["sys"]["d2/libs.so.1"] = lib("s2", ["libt.so.1"], "libs.so.1", rpath="{SYS}/d2")
    s["sys"]["d2/libt.so.1"] = lib("t2", [], "libt.so.1")
    s["notes"].append("ext.rpath")


def _dup_v(s, n):
    DEVS["g.dupsoname"][1](s)
    addver(s["sys"][f"d{n}/libt.so.1"]["elf"], "libc.so.6", "GLIBC_2.17")


DEVS["g.dupsoname_v1"] = ("g.ext2", lambda s: _dup_v(s, 1))
DEVS["g.dupsoname_v2"] = ("g.ext2", lambda s: _dup_v(s, 2))


def _dup_isa(s, n):
    DEVS["g.dupsoname"][1](s)
    s["sys"][f"d{n}/libt.so.1"]["elf"]["isa"] = 7


DEVS["g.dupsoname_i1"] = ("g.ext2", lambda s: _dup_isa(s, 1))
DEVS["g.dupsoname_i2"] = ("g.ext2", lambda s: _dup_isa(s, 2))


@dev("g.ext2", "g.dup_big")
def _(s):
    # two libraries of one name that differ at the end only
    _ext2(s, ["libs.so.1"])
    F(s)["pkg/sub/ext2.abi3.so"]["elf"]["rpath"] = "{SYS}/d2"
    X(s)["needed"].insert(0, "libs.so.1")
    X(s)["rpath"] = "{SYS}/d1"
    for n in "12":
        s["sys"][f"d{n}/libs.so.1"] = lib("s" + n, [], "libs.so.1", prepad=150000)
    s["notes"].append("ext.rpath")


# one of two extension modules, listed before or after the other, has a property

_SECOND = {
    "ver": lambda s, e: addver(e, "libc.so.6", "GLIBC_2.17"),
    "black2": lambda s, e: (e["needed"].append("libz.so.1"), e["symbols"].extend([["_tr_align", False, "global", "func"], ["zcfree", False, "global", "func"]])),
    "black": lambda s, e: (e["needed"].append("libz.so.1"), e["symbols"].append(["_tr_flush_block", False, "global", "func"])),
    "pyfpe": lambda s, e: e["symbols"].append(["PyFPE_jbuf", False, "global", "notype"]),
    "isa": lambda s, e: e.update(isa=7),
    "missing": lambda s, e: e["needed"].insert(0, "libgone.so.1"),
    "libpython": lambda s, e: e["needed"].insert(0, "libpython3.12.so.1.0"),
    "ucs2": lambda s, e: e["symbols"].append(["PyUnicodeUCS2_FromString", False, "global", "func"]),
}


def _second(s, kind, first):
    path = "pkg/sub/ext9.so"
    if kind == "ucs2":
        _py2(s)
    e = elf(id="ext9", needed=["liba.so.1", "libc.so.6"], verneed=copy.deepcopy(GL),
            symbols=[["initext9" if kind == "ucs2" else "PyInit_ext9", True, "global", "func"]])
    _SECOND[kind](s, e["elf"])
    f = F(s)
    if first:
        rest = dict(f)
        f.clear()
        f[path] = e
        f.update(rest)
    else:
        f[path] = e


for _k in _SECOND:
    for _f in (0, 1):
        DEVS[f"e.{'first' if _f else 'last'}_{_k}"] = ("s.ucs" if _k == "ucs2" else "g.ext9", (lambda k, f: lambda s: _second(s, k, f))(_k, _f))


@dev("g.real_a", "g.sym_a")
def _(s):
    s["sys"]["lib/liba.so.1.2.3"] = s["sys"].pop("lib/liba.so.1")
    s["sys"]["lib/liba.so.1"] = {"kind": "link", "to": "liba.so.1.2.3"}


@dev("g.real_a", "g.symchain_a")
def _(s):
    s["sys"]["real/deep/liba.so.1.2.3"] = s["sys"].pop("lib/liba.so.1")
    s["sys"]["alt/liba.so.1.2"] = {"kind": "link", "to": "../real/deep/liba.so.1.2.3"}
    s["sys"]["lib/liba.so.1"] = {"kind": "link", "to": "{SYS}/alt/liba.so.1.2"}


@dev("g.real_a", "g.two_names")
def _(s):
    # liba is reached under two names that are the same file
    s["sys"]["lib/liba.so.1.2.3"] = s["sys"].pop("lib/liba.so.1")
    s["sys"]["lib/liba.so.1"] = {"kind": "link", "to": "liba.so.1.2.3"}
    s["sys"]["lib/liba.so"] = {"kind": "link", "to": "liba.so.1.2.3"}
    _n = "pkg/sub/ext3.abi3.so"
    F(s)[_n] = elf(id="ext3", needed=["liba.so", "libc.so.6"], verneed=copy.deepcopy(GL),
                   symbols=[["PyInit_ext3", True, "global", "func"]])


# the content hash, or what looks like one, is in the name already
HASHED = {"named": "liba-{h}.so.1", "mid": "liba-{h}-x.so.1", "lead": "{h}-liba.so.1", "nodash": "liba{h}.so.1", "ext": "liba.so-{h}.1", "other": "liba-deadbeef.so.1", "short": "liba-{h7}.so.1"}


def _hashed(s, name):
    from mc.world import content

    f = s["sys"].pop("lib/liba.so.1")
    h = hashlib.sha256(content(f)).hexdigest()[:8]
    n = name.format(h=h, h7=h[:7])
    s["sys"]["lib/" + n] = f
    s["sys"]["lib/liba.so.1"] = {"kind": "link", "to": n}
    s["notes"].append("frozen_a")


HASHNAMED = {f"g.hash{k}_a" for k in HASHED}
for _k, _v in HASHED.items():
    DEVS[f"g.hash{_k}_a"] = ("g.real_a", (lambda v: lambda s: _hashed(s, v))(_v))


@dev("g.real_a", "g.reldotlink_a")
def _(s):
    s["sys"]["store/liba.so.1"] = s["sys"].pop("lib/liba.so.1")
    s["sys"]["lib/liba.so.1"] = {"kind": "link", "to": "./../lib/../store/liba.so.1"}


@dev("g.soname_a", "g.nosoname_a")
def _(s):
    del SL(s, _apath(s))["soname"]


@dev("g.soname_a", "g.othersoname_a")
def _(s):
    SL(s, _apath(s))["soname"] = "libother.so.9"


def _apath(s):
    for k, f in s["sys"].items():
        if f["kind"] == "elf" and f["elf"].get("id") == "a":
            return k
    raise KeyError("a")


def _bpath(s):
    for k, f in s["sys"].items():
        if f["kind"] == "elf" and f["elf"].get("id") == "b":
            return k
    raise KeyError("b")


def _rename_b(s, new):
    p = _bpath(s)
    f = s["sys"].pop(p)
    f["elf"]["soname"] = new
    s["sys"][f"lib/{new}"] = f
    for e in _all_elfs(s):
        if "needed" in e:
            e["needed"] = [new if n == "libb.so.2" else n for n in e["needed"]]


def _all_elfs(s):
    for w in s["wheels"]:
        for f in w["files"].values():
            if f["kind"] == "elf":
                yield f["elf"]
    for f in s["sys"].values():
        if f["kind"] == "elf":
            yield f["elf"]


@dev("g.name_b", "g.nodot_b")
def _(s):
    _rename_b(s, "libb")


@dev("g.name_b", "g.multidot_b")
def _(s):
    _rename_b(s, "libb-1.2.so.3.4")


@dev("g.name_b", "g.plus_b")
def _(s):
    _rename_b(s, "libb++_x86.so.6")


@dev("g.name_b", "g.noversion_b")
def _(s):
    _rename_b(s, "libb.so")


@dev("g.name_b", "g.dash_b")
def _(s):
    _rename_b(s, "libb-2-dev.so")


@dev("g.name_b", "g.wlmore_b")
def _(s):
    # a white-listed name with one more component
    _rename_b(s, "libz.so.1.2")


@dev("g.name_b", "g.wlless_b")
def _(s):
    _rename_b(s, "libgcc_s.so")


@dev("g.name_b", "g.wlend_b")
def _(s):
    _rename_b(s, "mylibz.so.1")


@dev("g.name_b", "g.ldlike_b")
def _(s):
    # contains the name of the loader, but is none
    _rename_b(s, "libbuild-linux.so.2")


@dev("g.name_b", "g.ld64like_b")
def _(s):
    _rename_b(s, "ld64.so.3")


@dev("g.name_b", "g.pylike_b")
def _(s):
    # looks like libpython but is not the interpreter library
    _rename_b(s, "libpython3.12-helper.so.1")


@dev("g.missing", "g.noext")
def _(s):
    # the extension needs no external library
    X(s)["needed"] = [n for n in X(s)["needed"] if n not in ("liba.so.1", "libb.so.2")]


@dev("g.missing", "g.missing_a")
def _(s):
    s["sys"].pop("lib/liba.so.1", None)


@dev("g.missing", "g.missing_b")
def _(s):
    s["sys"].pop(_bpath(s), None)


@dev("g.missing", "g.dangling_a")
def _(s):
    s["sys"]["lib/liba.so.1"] = {"kind": "link", "to": "nowhere.so"}


@dev("g.inner", "g.inner")
def _(s):
    F(s)["pkg/libinner.so.3"] = elf(id="inner", soname="libinner.so.3", needed=["libx.so.1", "libc.so.6"],
                                    verneed=copy.deepcopy(GL))
    X(s)["needed"].insert(0, "libinner.so.3")
    X(s).setdefault("rpath", "$ORIGIN")
    s["sys"]["lib/libx.so.1"] = lib("x", [], "libx.so.1")
    s["notes"].append("ext.rpath")


@dev("g.inner", "g.inner_clean")
def _(s):
    F(s)["pkg/lib/libinner.so.3"] = elf(id="inner", soname="libinner.so.3", needed=["libc.so.6"],
                                        verneed=copy.deepcopy(GL))
    X(s)["needed"].append("libinner.so.3")
    X(s).setdefault("rpath", "$ORIGIN/lib")
    s["notes"].append("ext.rpath")


@dev("g.inner", "g.inner_pair")
def _(s):
    # libinner needs libinner2, found only through the extension's RPATH
    F(s)["pkg/lib/libinner.so.3"] = elf(id="inner", soname="libinner.so.3", needed=["libinner2.so", "libx.so.1", "libc.so.6"],
                                        verneed=copy.deepcopy(GL))
    F(s)["pkg/lib/libinner2.so"] = elf(id="inner2", soname="libinner2.so", needed=["libc.so.6"], verneed=copy.deepcopy(GL))
    X(s)["needed"].append("libinner.so.3")
    X(s)["rpath"] = "$ORIGIN/lib"
    s["sys"]["lib/libx.so.1"] = lib("x", [], "libx.so.1")
    s["notes"].append("ext.rpath")


@dev("g.inner", "g.inner_same_a")
def _(s):
    # an inner library shares the grafted dependency with the extension
    F(s)["pkg/libinner.so.3"] = elf(id="inner", soname="libinner.so.3", needed=["liba.so.1", "libc.so.6"],
                                    verneed=copy.deepcopy(GL), runpath="$ORIGIN")
    X(s)["needed"].append("libinner.so.3")
    X(s).setdefault("rpath", "$ORIGIN")
    s["notes"].append("ext.rpath")


@dev("g.inner", "g.inner_unreached")
def _(s):
    # a bundled library that shares its name with one of the build machine: the
    # extension gets the latter, but the bundled one has dependencies, too
    _inner_unreached(s)


def _inner_unreached(s, own={}, **kw):
    F(s)["pkg/lib/libinner.so.3"] = elf(id="inner", soname="libinner.so.3", needed=["libx.so.1", "libc.so.6"],
                                        verneed=copy.deepcopy(GL), **own)
    s["sys"]["lib/libinner.so.3"] = lib("inner_sys", [], "libinner.so.3")
    s["sys"]["lib/libx.so.1"] = lib("x", [], "libx.so.1", **kw)
    X(s)["needed"].append("libinner.so.3")


DEVS["g.inner_unreached_v"] = ("g.inner", lambda s: _inner_unreached(s, verneed=[["libc.so.6", ["GLIBC_2.17"]]]))
DEVS["g.inner_unreached_i"] = ("g.inner", lambda s: _inner_unreached(s, isa=7))
DEVS["g.inner_unreached_o"] = ("g.inner", lambda s: _inner_unreached(s, own={"isa": 7}))


@dev("g.foreign", "g.foreign_elf")
def _(s):
    # files of another architecture are not looked at
    F(s)["pkg/plugins/foreign.so"] = elf(id="foreign", machine="i686", needed=["libno.so.1", "libc.so.6"],
                                         verneed=[["libc.so.6", ["GLIBC_2.99"]]], rpath="/opt/foreign")


@dev("g.plugin", "g.plugin")
def _(s):
    F(s)["pkg/plugins/plug.so"] = elf(id="plug", needed=["libb.so.2", "libc.so.6"], verneed=copy.deepcopy(GL))


@dev("g.plugin", "g.plugin_own")
def _(s):
    F(s)["pkg/plugins/plug.so"] = elf(id="plug", needed=["libp.so.1", "libc.so.6"], verneed=copy.deepcopy(GL))
    s["sys"]["lib/libp.so.1"] = lib("p", ["libb.so.2"], "libp.so.1")


@dev("g.kind", "g.plugin_only")
def _(s):
    X(s)["symbols"] = [["plugin_entry", True, "global", "func"]]


@dev("g.exe", "g.exe")
def _(s):
    F(s)["pkg/bin/tool"] = elf(id="tool", type="exec", interp="/lib64/ld-linux-x86-64.so.2",
                               needed=["liba.so.1", "libc.so.6"], verneed=copy.deepcopy(GL))


@dev("g.exe", "g.exe_own")
def _(s):
    F(s)["pkg/bin/tool"] = elf(id="tool", interp="/lib64/ld-linux-x86-64.so.2",
                               needed=["libx.so.1", "libc.so.6"], verneed=copy.deepcopy(GL))
    s["sys"]["lib/libx.so.1"] = lib("x", [], "libx.so.1")


def _exe_interp(s, leak):
    # the directory of the loader of an executable is searched for its libraries
    rest = dict(F(s))
    F(s).clear()
    F(s)["pkg/bin/tool"] = elf(id="tool", interp="{SYS}/ld/ld-linux-x86-64.so.2",
                               needed=["libonly.so.1", "libc.so.6"], verneed=copy.deepcopy(GL))
    F(s).update(rest)
    s["sys"]["ld/libonly.so.1"] = lib("only", [], "libonly.so.1")
    if leak:
        X(s)["needed"].append("libonly.so.1")


DEVS["g.exe_interp"] = ("g.exe", lambda s: _exe_interp(s, False))
DEVS["g.exe_interp_leak"] = ("g.exe", lambda s: _exe_interp(s, True))


def _script(s, needed, name="tool", **kw):
    F(s)[f"{W(s)['name']}-{W(s)['ver']}.data/scripts/{name}"] = elf(
        id="script", interp="/lib64/ld-linux-x86-64.so.2", needed=[*needed, "libc.so.6"],
        verneed=copy.deepcopy(GL), **kw)
    s["notes"].append("script")


@dev("g.script", "g.script")
def _(s):
    _script(s, ["liba.so.1"])


@dev("g.script", "g.script_clean")
def _(s):
    _script(s, [])


@dev("g.script", "g.script_two")
def _(s):
    _script(s, ["liba.so.1"], "tool")
    _script(s, ["libb.so.2"], "tool-2")
    F(s)[f"{W(s)['name']}-{W(s)['ver']}.data/scripts/tool-2"]["elf"]["id"] = "script2"


@dev("g.script", "g.script_quote")
def _(s):
    _script(s, ["liba.so.1"], "to'ol \"x\"")


@dev("g.script", "g.script_perm")
def _(s):
    _script(s, ["liba.so.1"])
    F(s)[f"{W(s)['name']}-{W(s)['ver']}.data/scripts/tool"]["mode"] = 0o700


@dev("g.script", "g.script_py")
def _(s):
    F(s)[f"{W(s)['name']}-{W(s)['ver']}.data/scripts/run.sh"] = text("#!/bin/sh\necho hi\n", 0o755)


@dev("g.prelibs", "g.prelibs")
def _(s):
    # the wheel already bundles a library (as a previous repair would have)
    F(s)[f"{W(s)['name']}.libs/libz9-abc12345.so.1"] = elf(id="z9", soname="libz9-abc12345.so.1", needed=["libc.so.6"],
                                            verneed=copy.deepcopy(GL))
    X(s)["needed"].append("libz9-abc12345.so.1")
    X(s)["rpath"] = "$ORIGIN/../pkg.libs"
    s["notes"].append("ext.rpath")


@dev("g.libpython", "g.libpython")
def _(s):
    X(s)["needed"].insert(1, "libpython3.12.so.1.0")


@dev("g.libpython", "g.libpython_present")
def _(s):
    X(s)["needed"].insert(1, "libpython3.12.so.1.0")
    s["sys"]["lib/libpython3.12.so.1.0"] = lib("py", ["libpydep.so.1"], "libpython3.12.so.1.0",
                                               verneed=[["libc.so.6", ["GLIBC_2.39"]]])
    s["sys"]["lib/libpydep.so.1"] = lib("pydep", [], "libpydep.so.1")


@dev("g.libpython", "g.libpython_only")
def _(s):
    X(s)["needed"] = ["libpython3.7m.so.1.0", "libc.so.6"]


for _n, _v in {"plain": ["libpython3.12.so"], "one": ["libpython3.12.so.1"], "m": ["libpython3.7m.so"], "two": ["libpython3.12.so.1.0", "libpython2.7.so"]}.items():
    for _p in (0, 1):
        def _lp(v, p):
            def fn(s):
                for n in v:
                    X(s)["needed"].insert(1, n)
                    if p:
                        s["sys"][f"lib/{n}"] = lib("py" + n[9:12], [], n)
            return fn
        DEVS[f"g.libpython_{_n}" + ("_p" if _p else "")] = ("g.libpython", _lp(_v, _p))


@dev("g.libpython", "g.libpython_lib")
def _(s):
    SL(s, _apath(s))["needed"].insert(0, "libpython3.12.so.1.0")


@dev("g.loader", "g.loader")
def _(s):
    X(s)["needed"].append("ld-linux-x86-64.so.2")
    X(s)["verneed"] = X(s)["verneed"] + [["ld-linux-x86-64.so.2", ["GLIBC_2.39"]]]


@dev("g.wl", "g.wl_z")
def _(s):
    # a whitelisted library whose own dependency is not whitelisted
    X(s)["needed"].append("libz.so.1")
    s["sys"]["lib/libz.so.1"] = lib("z", ["libq.so.1"], "libz.so.1")
    s["sys"]["lib/libq.so.1"] = lib("q", [], "libq.so.1")


@dev("g.wl", "g.wl_a_z")
def _(s):
    SL(s, _apath(s))["needed"].append("libstdc++.so.6")
    addver(SL(s, _apath(s)), "libstdc++.so.6", "GLIBCXX_3.4", "CXXABI_1.3")
    s["sys"]["lib/libstdc++.so.6"] = lib("stdcxx", [], "libstdc++.so.6", verneed=[["libc.so.6", ["GLIBC_2.39"]]])


@dev("g.wl", "g.wl_expat")
def _(s):
    # whitelisted from manylinux_2_12 on only
    X(s)["needed"].append("libexpat.so.1")
    s["sys"]["lib/libexpat.so.1"] = lib("expat", [], "libexpat.so.1")


@dev("g.wl", "g.wl_expat_new")
def _(s):
    X(s)["needed"].append("libexpat.so.1")
    s["sys"]["lib/libexpat.so.1"] = lib("expat", ["libq.so.1"], "libexpat.so.1",
                                        verneed=[["libc.so.6", ["GLIBC_2.28"]]])
    s["sys"]["lib/libq.so.1"] = lib("q", [], "libq.so.1")


@dev("g.wl", "g.wl_mvec")
def _(s):
    # whitelisted from manylinux_2_24 on only
    X(s)["needed"].append("libmvec.so.1")
    s["sys"]["lib/libmvec.so.1"] = lib("mvec", [], "libmvec.so.1")


@dev("g.wl", "g.wl_mvec_missing")
def _(s):
    X(s)["needed"].append("libmvec.so.1")


@dev("g.wl", "g.wl_inner")
def _(s):
    # a whitelisted name that is bundled in the wheel
    F(s)["pkg/libgcc_s.so.1"] = elf(id="gcc_inner", soname="libgcc_s.so.1", needed=["libx.so.1", "libc.so.6"],
                                    verneed=copy.deepcopy(GL))
    s["sys"]["lib/libx.so.1"] = lib("x", [], "libx.so.1")
    X(s)["needed"].append("libgcc_s.so.1")
    X(s).setdefault("rpath", "$ORIGIN")
    s["notes"].append("ext.rpath")


@dev("g.mode_a", "g.ro_a")
def _(s):
    s["sys"][_apath(s)]["mode"] = 0o444


@dev("g.mode_a", "g.noexec_a")
def _(s):
    s["sys"][_apath(s)]["mode"] = 0o644


@dev("g.mode_a", "g.wide_a")
def _(s):
    s["sys"][_apath(s)]["mode"] = 0o777


@dev("g.mode_a", "g.odd_a")
def _(s):
    s["sys"][_apath(s)]["mode"] = 0o517


@dev("g.incompat", "g.incompat_first")
def _(s):
    s["sys"]["lib32/liba.so.1"] = elf(id="a32", machine="i686", soname="liba.so.1", needed=["libno.so"])
    s["ldpaths"].insert(0, "{SYS}/lib32")


@dev("g.incompat", "g.shadow_later")
def _(s):
    s["sys"]["later/liba.so.1"] = lib("a_later", ["libno.so"], "liba.so.1")
    s["sys"]["later/libb.so.2"] = lib("b_later", [], "libb.so.2")
    s["ldpaths"].append("{SYS}/later")


@dev("g.nodyn", "g.static_obj")
def _(s):
    F(s)["pkg/kernel.o"] = elf(id="obj", nodyn=True)


@dev("g.nodyn", "g.static_obj_nolibs")
def _(s):
    F(s)["pkg/tool-static"] = elf(id="statictool", type="exec", nodyn=True)


@dev("g.rpath_a", "g.a_rpath_sys")
def _(s):
    SL(s, _apath(s))["rpath"] = "{SYS}/lib"


@dev("g.rpath_a", "g.a_runpath_origin")
def _(s):
    SL(s, _apath(s))["runpath"] = "$ORIGIN:$ORIGIN/../lib"


@dev("g.rpath_b", "g.b_rpath_opt")
def _(s):
    SL(s, _bpath(s))["rpath"] = "/opt/build/lib:/usr/local/lib"


@dev("g.rpath_b", "g.b_runpath")
def _(s):
    SL(s, _bpath(s))["runpath"] = "/opt/build/lib"


@dev("g.rpath_b", "g.b_private")
def _(s):
    # libb lives in a private directory only reachable through liba's RPATH
    p = _bpath(s)
    s["sys"]["private/" + p.split("/")[-1]] = s["sys"].pop(p)
    SL(s, _apath(s))["rpath"] = "{SYS}/private"


@dev("g.symtab", "g.symtab")
def _(s):
    X(s)["symtab"] = True
    SL(s, _apath(s))["symtab"] = True


# -- the same name in several directories ------------------------------------


def _look(s, libs, ext=(), top=("liblo1.so",)):
    X(s)["needed"] += list(top)
    for k, v in ext:
        X(s)[k] = v
    for at, need, *kw in libs:
        s["sys"][at] = lib(at.replace("/", "_").replace(".so", ""), [*need, "libc.so.6"], **{"soname": at.split("/")[-1], **(kw[0] if kw else {})})
    if ext:
        s["notes"].append("ext.rpath")


_L2 = [("d1/liblo2.so", []), ("d2/liblo2.so", [])]
LOOK = {
    # the search path of the library that asks comes before that of the extension
    "own_rpath": ([("d1/liblo1.so", ["liblo2.so"], {"rpath": "{SYS}/d2"}), *_L2], [("rpath", "{SYS}/d1")]),
    "own_runpath": ([("d1/liblo1.so", ["liblo2.so"], {"runpath": "{SYS}/d2"}), *_L2], [("rpath", "{SYS}/d1")]),
    # DT_RUNPATH does not count for the libraries below
    "top_runpath": ([("d1/liblo1.so", ["liblo2.so"]), ("d1/liblo2.so", []), ("lib/liblo2.so", [])], [("runpath", "{SYS}/d1")]),
    # what the extension needs is looked up before what its libraries need
    "bfs": ([("lib/liblo1.so", ["liblo2.so"], {"rpath": "{SYS}/d2"}), ("lib/liblo2.so", []), ("d2/liblo2.so", [])], [], ("liblo1.so", "liblo2.so")),
    "bfs_deep": ([("lib/liblo1.so", ["liblo3.so"]), ("lib/liblo2.so", ["liblo4.so"]), ("lib/liblo3.so", ["liblo4.so"], {"rpath": "{SYS}/d2"}),
                  ("lib/liblo4.so", []), ("d2/liblo4.so", [])], [], ("liblo1.so", "liblo2.so")),
    # DT_RPATH does count for the libraries below, those of libraries too
    "chain": ([("lib/liblo1.so", ["liblo2.so"], {"rpath": "{SYS}/d2"}), ("d2/liblo2.so", ["liblo3.so"]), ("d2/liblo3.so", [])], []),
    "chain_both": ([("lib/liblo1.so", ["liblo2.so"], {"rpath": "{SYS}/d2"}), ("d2/liblo2.so", ["liblo3.so"]), ("d2/liblo3.so", []), ("lib/liblo3.so", [])], []),
    "chain_runpath": ([("lib/liblo1.so", ["liblo2.so"], {"rpath": "{SYS}/d2"}), ("d2/liblo2.so", ["liblo3.so"], {"runpath": "{SYS}/d3"}),
                       ("d2/liblo3.so", []), ("lib/liblo3.so", [])], []),
    "chain_over": ([("lib/liblo1.so", ["liblo2.so"], {"runpath": "{SYS}/d2"}), ("d2/liblo2.so", ["liblo3.so"]), ("d1/liblo3.so", []), ("lib/liblo3.so", [])],
                   [("rpath", "{SYS}/d1")]),
}
LOOK["alias"] = ([("lib/liblo1.so", ["liblo2.so.2"]), ("lib/liblo2.so", [], {"soname": "liblo2.so.2"}), ("lib/liblo2.so.2", [])], [], ("liblo2.so", "liblo1.so"))
LOOK["alias_only"] = ([("lib/liblo1.so", ["liblo2.so.2"]), ("lib/liblo2.so", [], {"soname": "liblo2.so.2"})], [], ("liblo2.so", "liblo1.so"))
for _n, _a in LOOK.items():
    DEVS[f"k.{_n}"] = ("look", (lambda a: lambda s: _look(s, *a))(_a))


# -- extension RPATH ---------------------------------------------------------

_RP = {
    "r.in": ("rpath", "$ORIGIN/lib"),
    "r.in_deep": ("rpath", "$ORIGIN/../pkg/sub/../lib"),
    "r.brace": ("rpath", "${ORIGIN}/lib"),
    "r.out_abs": ("rpath", "/usr/lib/foo"),
    "r.out_sys": ("rpath", "{SYS}/lib"),
    "r.out_origin": ("rpath", "$ORIGIN/../../.."),
    "r.escape_sibling": ("rpath", "$ORIGIN/../../tmpw0x/lib:$ORIGIN/../../tmpw1x/lib:$ORIGIN/../../tmpw2x:$ORIGIN/../../tmpw3x"),
    "r.dup": ("rpath", "$ORIGIN/lib:$ORIGIN/../pkg.libs:$ORIGIN/lib"),
    "r.mixed": ("rpath", "/usr/lib/foo:$ORIGIN/lib:{SYS}/lib:$ORIGIN/../pkg.libs:$ORIGIN/zz"),
    "r.rel": ("rpath", "lib"),
    "r.rel_dot": ("rpath", "./lib:../lib"),
    "r.empty": ("rpath", ""),
    "r.colons": ("rpath", "$ORIGIN/lib::$ORIGIN/a:"),
    "r.slash": ("rpath", "$ORIGIN/../pkg.libs/:$ORIGIN/lib/"),
    "r.self": ("rpath", "$ORIGIN"),
    "r.libs_more": ("rpath", "$ORIGIN/../pkg.libs_old:$ORIGIN/../pkg.libs/sub"),
    "r.libs_less": ("rpath", "$ORIGIN/../pkg.lib:$ORIGIN/.."),
    "r.run_in": ("runpath", "$ORIGIN/lib"),
    "r.run_out": ("runpath", "/usr/lib/foo"),
    "r.run_mixed": ("runpath", "/usr/lib/foo:$ORIGIN/lib"),
    "r.lib_token": ("rpath", "$ORIGIN/$LIB:/x/$PLATFORM:${ORIGIN}/${LIB}"),
    "r.long": ("rpath", "$ORIGIN/" + "d" * 120 + ":$ORIGIN/e"),
}
for _k, (_a, _v) in _RP.items():
    def _mk(a, v):
        def fn(s):
            X(s).pop("rpath", None)
            X(s)[a] = v
            s["notes"].append("ext.rpath")
        return fn
    DEVS[_k] = ("ext.rpath", _mk(_a, _v))


def _other(name, path, needed=("libc.so.6",), **kw):
    # another ELF file of the wheel with a search path, which needs nothing from outside
    @dev("r.other", name)
    def _(s):
        py = ".abi3." in path
        F(s)[path] = elf(id="other", needed=list(needed), verneed=copy.deepcopy(GL), symbols=[["PyInit_other" if py else "other", True, "global", "func"]], **kw)
        if "libin.so" in needed:
            F(s)["pkg/deps/libin.so"] = lib("in", [], "libin.so", runpath="/opt/own")


_other("r.other_ext", "pkg/other.abi3.so", rpath="/opt/own:$ORIGIN/x")
_other("r.other_run", "pkg/sub/other.abi3.so", runpath="/opt/own")
_other("r.other_in", "pkg/other.abi3.so", ("libin.so", "libc.so.6"), rpath="/opt/own:$ORIGIN/deps")
_other("r.other_lib", "pkg/libother.so", rpath="/opt/own")
_other("r.other_exe", "pkg/bin/other", type="exec", interp="/lib64/ld-linux-x86-64.so.2", rpath="/opt/own")
_other("r.other_script", "pkg-1.0.data/scripts/other", type="exec", interp="/lib64/ld-linux-x86-64.so.2", runpath="/opt/own")


@dev("ext.rpath", "r.both")
def _(s):
    X(s)["rpath"] = "/opt/old:$ORIGIN/old"
    X(s)["runpath"] = "$ORIGIN/new:/opt/new"
    s["notes"].append("ext.rpath")


# -- location of the extension ----------------------------------------------

_LOC = {
    "l.top": "ext.cpython-312-x86_64-linux-gnu.so",
    "l.deep": "pkg/a/b/c/d/ext.cpython-312-x86_64-linux-gnu.so",
    "l.platlib": "pkg-1.0.data/platlib/pkg/ext.cpython-312-x86_64-linux-gnu.so",
    "l.space": "my pkg/ext.cpython-312-x86_64-linux-gnu.so",
    "l.dash": "pkg-plugins/ext.cpython-312-x86_64-linux-gnu.so",
    "l.unicode": "pkg/mödule/ext.cpython-312-x86_64-linux-gnu.so",
    "l.comma": "pkg/a,b/ext.cpython-312-x86_64-linux-gnu.so",
    "l.quote": "pkg/a\"'b/ext.cpython-312-x86_64-linux-gnu.so",
    "l.colon": "pkg/a:b;c/ext.cpython-312-x86_64-linux-gnu.so",
    "l.dollar": "pkg/$x{y}[z]*/ext.cpython-312-x86_64-linux-gnu.so",
    "l.sep": "pkg/a\u2028b/ext.cpython-312-x86_64-linux-gnu.so",
    "l.vt": "pkg/a\x0bb/ext.cpython-312-x86_64-linux-gnu.so",
    "l.nl": "pkg/a\nb/ext.cpython-312-x86_64-linux-gnu.so",
    "l.abi3": "pkg/ext.abi3.so",
    "l.plain": "pkg/ext.so",
    "l.inlibs": "pkg.libs/ext.so",
}
for _k, _v in _LOC.items():
    DEVS[_k] = ("loc", (lambda v: lambda s: move_ext(s, v))(_v))


# -- versions ----------------------------------------------------------------


def _ver(name, slot, fn):
    DEVS[name] = (slot, fn)


for _n, _v in {"v.ext_2_5": "GLIBC_2.5", "v.ext_2_6": "GLIBC_2.6", "v.ext_2_12": "GLIBC_2.12", "v.ext_2_17": "GLIBC_2.17",
               "v.ext_2_28": "GLIBC_2.28", "v.ext_2_41": "GLIBC_2.41", "v.ext_2_99": "GLIBC_2.99",
               "v.ext_priv": "GLIBC_PRIVATE", "v.ext_relr": "GLIBC_ABI_DT_RELR"}.items():
    _ver(_n, "v.ext", (lambda v: lambda s: addver(X(s), "libc.so.6", v))(_v))
for _n, _v in {"v.a_2_17": "GLIBC_2.17", "v.a_2_35": "GLIBC_2.35", "v.a_2_99": "GLIBC_2.99"}.items():
    _ver(_n, "v.a", (lambda v: lambda s: addver(SL(s, _apath(s)), "libc.so.6", v))(_v))
for _n, _v in {"v.b_2_12": "GLIBC_2.12", "v.b_2_99": "GLIBC_2.99"}.items():
    _ver(_n, "v.b", (lambda v: lambda s: addver(SL(s, _bpath(s)), "libc.so.6", v))(_v))
_ver("v.weak", "v.weak", lambda s: addver(X(s), "libc.so.6", "~GLIBC_2.14"))
_ver("v.foo", "v.foo", lambda s: addver(X(s), "liba.so.1", "FOO_1.0", "LIBA_99"))
_ver("v.cxx", "v.cxx", lambda s: (X(s)["needed"].append("libstdc++.so.6"),
                                 addver(X(s), "libstdc++.so.6", "GLIBCXX_3.4.20", "CXXABI_1.3.8")))
_ver("v.cxx_new", "v.cxx", lambda s: (X(s)["needed"].append("libstdc++.so.6"),
                                     addver(X(s), "libstdc++.so.6", "GLIBCXX_3.4.99")))
_ver("v.gcc", "v.gcc", lambda s: (X(s)["needed"].append("libgcc_s.so.1"), addver(X(s), "libgcc_s.so.1", "GCC_4.7.0")))
_ver("v.zlib", "v.zlib", lambda s: (X(s)["needed"].append("libz.so.1"), addver(X(s), "libz.so.1", "ZLIB_1.2.2")))
_ver("v.m", "v.m", lambda s: (X(s)["needed"].append("libm.so.6"), addver(X(s), "libm.so.6", "GLIBC_2.2.5", "GLIBC_2.27")))


# -- forbidden content ---------------------------------------------------------


@dev("s.black", "s.black_z")
def _(s):
    if "libz.so.1" not in X(s)["needed"]:
        X(s)["needed"].append("libz.so.1")
    X(s)["symbols"].append(["_tr_flush_block", False, "global", "func"])


@dev("s.black", "s.black_weak")
def _(s):
    if "libz.so.1" not in X(s)["needed"]:
        X(s)["needed"].append("libz.so.1")
    X(s)["symbols"].append(["_tr_flush_block", False, "weak", "func"])


@dev("s.black", "s.black_nolib")
def _(s):
    X(s)["symbols"].append(["_tr_flush_block", False, "global", "func"])


@dev("s.black", "s.black_defined")
def _(s):
    if "libz.so.1" not in X(s)["needed"]:
        X(s)["needed"].append("libz.so.1")
    X(s)["symbols"].append(["_tr_flush_block", True, "global", "func"])


@dev("s.black", "s.black_c")
def _(s):
    # forbidden up to manylinux_2_17 only
    X(s)["symbols"].append(["__cxa_thread_atexit_impl", False, "global", "func"])


@dev("s.pyfpe", "s.pyfpe")
def _(s):
    X(s)["symbols"].append(["PyFPE_jbuf", False, "global", "notype"])


@dev("s.pyfpe", "s.pyfpe_defined")
def _(s):
    X(s)["symbols"].append(["PyFPE_jbuf", True, "global", "notype"])


@dev("s.pyfpe", "s.pyfpe_func")
def _(s):
    X(s)["symbols"].append(["PyFPE_dummy", False, "global", "func"])


def _py2(s):
    move_ext(s, "pkg/ext.so")
    X(s)["symbols"] = [["initext", True, "global", "func"]]
    W(s).update(py="cp27", abi="cp27mu")


@dev("s.ucs", "s.ucs2")
def _(s):
    _py2(s)
    X(s)["symbols"].append(["PyUnicodeUCS2_FromString", False, "global", "func"])


@dev("s.ucs", "s.ucs4")
def _(s):
    _py2(s)
    X(s)["symbols"].append(["PyUnicodeUCS4_FromString", False, "global", "func"])


@dev("s.ucs", "s.ucs2_py3")
def _(s):
    X(s)["symbols"].append(["PyUnicodeUCS2_FromString", False, "global", "func"])


@dev("s.ucs", "s.ucs2_notype")
def _(s):
    # what present linkers write for a function of the interpreter
    _py2(s)
    X(s)["symbols"].append(["PyUnicodeUCS2_FromString", False, "global", "notype"])


def _uni(s, pyfpe):
    # PEP 489: the init function of a module whose name is not ASCII
    move_ext(s, "pkg/žluť.so")
    X(s)["symbols"] = [["PyInitU_lu_yta1h", True, "global", "func"], ["PyModule_Create2", False, "global", "func"]]
    if pyfpe:
        X(s)["symbols"].append(["PyFPE_jbuf", False, "global", "notype"])


DEVS["s.uni"] = ("s.ucs", lambda s: _uni(s, False))
DEVS["s.uni_pyfpe"] = ("s.ucs", lambda s: _uni(s, True))


def _innerlib(s, at="pkg/lib/libin.so.3", needed=(), rpath="$ORIGIN/lib", **kw):
    F(s)[at] = elf(id="in3", soname="libin.so.3", needed=[*needed, "libc.so.6"], verneed=copy.deepcopy(GL), **kw)
    X(s)["needed"].append("libin.so.3")
    if rpath:
        X(s)["rpath"] = rpath
        s["notes"].append("ext.rpath")


def _innerblack(s, reached=True):
    # a library of the wheel, not the extension, uses a black-listed symbol
    _innerlib(s, needed=["libz.so.1"], symbols=[["_tr_flush_block", False, "global", "func"]])
    s["sys"]["lib/libz.so.1"] = lib("z", [], "libz.so.1")


DEVS["s.inner_black"] = ("g.inner", _innerblack)
DEVS["i.inner_v3"] = ("g.inner", lambda s: _innerlib(s, isa=7))
DEVS["i.inner_base"] = ("g.inner", lambda s: _innerlib(s, isa=1))


@dev("g.inner", "i.inner_hwcaps")
def _(s):
    # the loader prefers the variant on machines that have the instructions only
    _innerlib(s, isa=1)
    F(s)["pkg/lib/glibc-hwcaps/x86-64-v3/libin.so.3"] = elf(id="in3v3", soname="libin.so.3", needed=["libc.so.6"],
                                                           verneed=copy.deepcopy(GL), isa=7)


@dev("g.inner", "i.inner_hwcaps_graft")
def _(s):
    # ... and it needs one more library of the build machine than the base variant
    _innerlib(s, isa=1)
    F(s)["pkg/lib/glibc-hwcaps/x86-64-v3/libin.so.3"] = elf(id="in3v3", soname="libin.so.3", needed=["libx.so.1", "libc.so.6"],
                                                           verneed=copy.deepcopy(GL), isa=7)
    s["sys"]["lib/libx.so.1"] = lib("x", [], "libx.so.1", isa=7)


@dev("g.inner", "i.inner_graft_v3")
def _(s):
    # a library only a library of the wheel needs
    F(s)["pkg/lib/libgcc_s.so.1"] = elf(id="in3", soname="libgcc_s.so.1", needed=["libw.so.1", "libc.so.6"], verneed=copy.deepcopy(GL))
    X(s)["needed"].append("libgcc_s.so.1")
    X(s)["rpath"] = "$ORIGIN/lib"
    s["sys"]["lib/libw.so.1"] = lib("w", [], "libw.so.1", isa=7)
    s["notes"].append("ext.rpath")


def _twonames(s, first, **kw):
    # one file under two names: only one of them is whitelisted (manylinux_2_12 on)
    a, b = ("libexpat.so", "libexpat.so.1") if first else ("libexpat.so.1", "libexpat.so")
    X(s)["needed"].append(a)
    F(s)["pkg/sub/ext8.so"] = elf(id="ext8", needed=[b, "libc.so.6"], verneed=copy.deepcopy(GL), symbols=[["PyInit_ext8", True, "global", "func"]])
    s["sys"]["lib/libexpat.so.1"] = lib("expat", [], "libexpat.so.1", **kw)
    s["sys"]["lib/libexpat.so"] = {"kind": "link", "to": "libexpat.so.1"}
    s["notes"].append("expat")


for _f in (0, 1):
    DEVS[f"g.twonames{_f}"] = ("g.twonames", (lambda f: lambda s: _twonames(s, f))(_f))
    DEVS[f"g.twonames{_f}_v"] = ("g.twonames", (lambda f: lambda s: _twonames(s, f, verneed=[["libc.so.6", ["GLIBC_2.28"]]]))(_f))
    DEVS[f"i.twonames{_f}_v3"] = ("g.twonames", (lambda f: lambda s: _twonames(s, f, isa=7))(_f))


for _n, _v in {"i.ext_base": 1, "i.ext_v2": 3, "i.ext_v3": 7, "i.ext_v4": 15, "i.ext_v3only": 4}.items():
    DEVS[_n] = ("i.ext", (lambda v: lambda s: X(s).update(isa=v))(_v))
DEVS["i.ext_used_v4"] = ("i.ext", lambda s: X(s).update(isa=1, isa_used=15))
DEVS["i.a_v3"] = ("i.a", lambda s: SL(s, _apath(s)).update(isa=7))
DEVS["i.b_v2"] = ("i.b", lambda s: SL(s, _bpath(s)).update(isa=3))


@dev("i.wl", "i.expat_v3")
def _(s):
    X(s)["needed"].append("libexpat.so.1")
    s["sys"]["lib/libexpat.so.1"] = lib("expat", [], "libexpat.so.1", isa=7)
    s["notes"].append("expat")


# -- options -----------------------------------------------------------------

for _p in ("manylinux1", "manylinux_2_5", "manylinux2010", "manylinux_2_12", "manylinux2014", "manylinux_2_17", "manylinux_2_24",
           "manylinux_2_28", "manylinux_2_35", "manylinux_2_41"):
    DEVS[f"o.plat={_p}"] = ("plat", (lambda p: lambda s: s.update(plat=p + "_x86_64"))(_p))
DEVS["o.plat=auto"] = ("plat", lambda s: s.update(plat="auto"))
DEVS["o.only_plat"] = ("only_plat", lambda s: (s["args"].append("--only-plat"), s.update(only_plat=True)))
DEVS["o.noupd"] = ("update", lambda s: (s["args"].append("--no-update-tags"), s.update(update=False)))
DEVS["o.strip"] = ("strip", lambda s: (s["args"].append("--strip"), s.update(strip=True)))
DEVS["o.L"] = ("L", lambda s: (s["args"].extend(["-L", ".bundled"]), s.update(lib_sdir=".bundled")))
DEVS["o.L_nested"] = ("L", lambda s: (s["args"].extend(["--lib-sdir", "/.libs"]), s.update(lib_sdir="/.libs")))
DEVS["o.z0"] = ("z", lambda s: s["args"].extend(["-z", "0"]))
DEVS["o.z9"] = ("z", lambda s: s["args"].extend(["-z", "9"]))
DEVS["o.noisa"] = ("noisa", lambda s: (s["args"].append("--disable-isa-ext-check"), s.update(noisa=True)))
DEVS["o.purepy"] = ("purepy", lambda s: s["args"].append("--allow-pure-python-wheel"))
DEVS["o.inplace"] = ("outdir", lambda s: s.update(outdir="{IN}"))
DEVS["o.newdir"] = ("outdir", lambda s: s.update(outdir="{OUT}/new/dir"))
DEVS["o.sde"] = ("sde", lambda s: s["env"].update(SOURCE_DATE_EPOCH="1700000000"))
DEVS["o.sde_old"] = ("sde", lambda s: s["env"].update(SOURCE_DATE_EPOCH="0"))
DEVS["o.patcher"] = ("patcher", lambda s: s["args"].extend(["--patcher", "patchelf"]))
DEVS["o.patcher_none"] = ("patcher", lambda s: (s["args"].extend(["--patcher", "none"]), s.update(patcher="none")))
DEVS["o.umask"] = ("umask", lambda s: s["opts"].update(umask=0o077))


def _excl(name, *pats):
    DEVS[name] = ("excl", lambda s: s["exclude"].extend(pats))


_excl("x.a", "liba.so.1")
_excl("x.b", "libb.so.2")
_excl("x.ab", "liba.so.1", "libb.so.2")
_excl("x.glob_a", "liba.so*")
_excl("x.glob_all", "lib*")
_excl("x.q", "lib?.so.2")
_excl("x.path_a", "{SYS}/lib/liba.so.1")
_excl("x.path_glob", "{SYS}/*/libb.so*")
_excl("x.nomatch", "libzzz.so", "a.so.1", "liba.so")
_excl("x.libc", "libc.so.6")
_excl("x.cls", "lib[bc].so.2")


def _ld(name):
    def deco(fn):
        DEVS[name] = ("ld", fn)
        return fn
    return deco


@_ld("d.aw_env")
def _(s):
    s["env"]["AUDITWHEEL_LD_LIBRARY_PATH"] = ":".join(s["ldpaths"])
    s["ldpaths"] = None


@_ld("d.ldlp")
def _(s):
    s["env"]["LD_LIBRARY_PATH"] = ":".join(s["ldpaths"])
    s["ldpaths"] = None
    s["sys"].pop("lib/libc.so.6", None)


@_ld("d.aw_env_and_arg")
def _(s):
    s["env"]["AUDITWHEEL_LD_LIBRARY_PATH"] = "{SYS}/first:/nonexistent"
    s["sys"]["first/libb.so.2"] = lib("b_first", [], "libb.so.2")
    s["notes"].append("b_first")


@_ld("d.dup_dirs")
def _(s):
    s["ldpaths"] = ["/nonexistent", *s["ldpaths"], "{SYS}/lib/", "{SYS}/lib/../lib"]


# -- other content of the wheel ---------------------------------------------


def _file(name, path, f, dist=False):
    def fn(s):
        (W(s)["dist_files"] if dist else F(s))[path] = copy.deepcopy(f)
    DEVS[name] = (name, fn)


_file("f.unicode", "pkg/naïve-日本.txt", text("ü\n"))
_file("f.comma", "pkg/a,b.txt", text("comma"))
_file("f.quote", 'pkg/q"uo\'te.txt', text("quote"))
_file("f.space", "pkg/with space.txt", text("space"))
_file("f.exec", "pkg/run.sh", text("#!/bin/sh\n", 0o755))
_file("f.perm_none", "pkg/noperm.txt", text("p", 0o000))
_file("f.perm_odd", "pkg/odd.txt", text("p", 0o4711))
_file("f.perm_ro", "pkg/ro.txt", text("p", 0o444))
_file("f.attr0", "pkg/attr0.txt", text("p", None))


@dev("f.modes", "f.modes")
def _(s):
    # every value of each permission digit
    for m in sorted({b << p | 0o644 & ~(7 << p) for p in (0, 3, 6) for b in range(8)} | {0o666, 0o777, 0o2755, 0o1777, 0o4755}):
        F(s)[f"pkg/modes/m{m:o}"] = text(f"{m}", m)
    F(s)["pkg/modes/ext.abi3.so"] = elf(id="mext", needed=["libc.so.6"], symbols=[["PyInit_ext", True, "global", "func"]], mode=0o777)


_file("f.empty", "pkg/empty.txt", text(""))
_file("f.big", "pkg/big.bin", {"kind": "big", "data": "0123456789abcdef-", "size": 300001, "mode": 0o644})
_file("f.pyelf", "pkg/fake.py", elf(id="fakepy", needed=["libnope.so"]))
_file("f.magic", "pkg/notelf.bin", {"kind": "text", "data": "\x7fELF", "mode": 0o644})
_file("f.jws", "RECORD.jws", text('{"hash": "x"}'), dist=True)
_file("f.p7s", "RECORD.p7s", text("sig"), dist=True)
_file("f.licenses", "licenses/sub/LICENSE", text("lic"), dist=True)
_file("f.sbom_own", "sboms/own.cdx.json", text('{"own": 1}'), dist=True)
_file("f.entry", "entry_points.txt", text("[console_scripts]\nx = pkg:main\n"), dist=True)
_file("f.nested_di", "pkg/_vendor/dep-2.0.dist-info/RECORD", text("dep/__init__.py,,\n"))
_file("f.nested_rec", "pkg/RECORD", text("not a record\n"))
_file("f.data_hdr", "pkg-1.0.data/headers/x.h", text("h"))
_file("f.di_like", "pkg.dist-info.d/x.txt", text("x"))
_file("f.di_more", "pkg-1.0.dist-info2/RECORD", text("x"))
_file("f.di_up", "pkg-1.0.DIST-INFO/y.txt", text("y"))
_file("f.zz", "zz/zz.txt", text("zz"))
_file("f.top_record", "RECORD", text("no record\n"))
_file("f.deep_di", "zz/a.dist-info/RECORD", text("r\n"))
_file("f.dot", ".hidden", text("dot"))
_file("f.libs_file", "pkg.libs/README", text("readme"))


def _simple(name, slot=None):
    def deco(fn):
        DEVS[name] = (slot or name, fn)
        return fn
    return deco


@_simple("f.emptydir")
def _(s):
    W(s)["dirs"].extend(["pkg/emptydir", "pkg/emptydir/deeper"])


@_simple("f.alldirs")
def _(s):
    W(s)["dirs"].extend(["pkg", f"{W(s)['name']}-{W(s)['ver']}.dist-info"])


@_simple("f.norec")
def _(s):
    W(s)["record_drop"].append("pkg/data.txt")


@_simple("f.crlf")
def _(s):
    W(s)["record_eol"] = "\r\n"


@_simple("f.blank")
def _(s):
    W(s)["record_eol"] = "\n\n"


@_simple("f.order")
def _(s):
    W(s)["archive_order"] = "reverse"


@_simple("f.headers")
def _(s):
    W(s)["extra_wheel_headers"].extend(["X-Custom: héllo: wörld", "X-Long: " + "y" * 200])


# -- wheel file name ----------------------------------------------------------


def _name(n_, **kw):
    DEVS[n_] = ("name", lambda s: _rename_wheel(s, **kw))


def _rename_wheel(s, **kw):
    w = W(s)
    old = f"{w['name']}-{w['ver']}.data/"
    w.update(copy.deepcopy(kw))
    new = f"{w['name']}-{w['ver']}.data/"
    w["files"] = {(new + k[len(old):] if k.startswith(old) else k): v for k, v in w["files"].items()}
    if s["ext"].startswith(old):
        s["ext"] = new + s["ext"][len(old):]


_name("n.build", build="7")
_name("n.build_txt", build="2abc")
_name("n.multi_plat", plat="linux_x86_64.manylinux2014_x86_64")
_name("n.linux_plus", plat="linux_x86_64.manylinux1_x86_64.manylinux_2_5_x86_64")
_name("n.linux_plus_multi", py="cp311.cp312", abi="abi3", plat="linux_x86_64.manylinux1_x86_64.manylinux_2_5_x86_64")
_name("n.already", plat="manylinux1_x86_64.manylinux_2_5_x86_64")
_name("n.higher", plat="manylinux_2_35_x86_64")
_name("n.multi_py", py="cp312.cp313", abi="cp312")
_name("n.py2py3", py="py2.py3", abi="none")
_name("n.any", py="py3", abi="none", plat="any", purelib="true")
_name("n.any_linux", py="py3", abi="none", plat="any.linux_x86_64", purelib="true")
_name("n.linux_any", py="py2.py3", abi="none", plat="linux_x86_64.any", purelib="true")
_name("n.name_us", name="my_pkg_x")
_name("n.name_dot", name="my.pkg")
_name("n.name_upper", name="PyPkg")
_name("n.local", ver="1.0+local.2")
_name("n.rc", ver="1!2.0rc1.post2.dev3")
_name("n.abi3", abi="abi3")
_name("n.pyver_digit", name="pkg2")


# -- architectures and libcs --------------------------------------------------

LOWEST = {"i686": "2.0", "aarch64": "2.17", "armv7l": "2.4", "ppc64le": "2.17", "ppc64": "2.3", "s390x": "2.2", "riscv64": "2.27", "loongarch64": "2.36"}


def _arch(a):
    def fn(s):
        s["arch"] = a
        W(s)["plat"] = W(s)["plat"].replace("x86_64", a)
        for e in _all_elfs(s):
            if e.get("machine", "x86_64") == "i686":
                e["machine"] = "x86_64"
                continue
            e["machine"] = a
            for v in e.get("verneed", []):
                v[1] = [f"GLIBC_{LOWEST[a]}" if x == "GLIBC_2.2.5" else x for x in v[1]]
    return fn


for _a in LOWEST:
    DEVS[f"a.{_a}"] = ("arch", _arch(_a))


@dev("arch", "a.musl")
def _(s):
    s["libc"] = "musl"
    lc = "libc.musl-x86_64.so.1"
    for e in _all_elfs(s):
        if "needed" in e:
            e["needed"] = [lc if n == "libc.so.6" else n for n in e["needed"]]
        if e.get("soname") == "libc.so.6":
            e["soname"] = lc
        if e.get("verneed"):
            e["verneed"] = [v for v in e["verneed"] if v[0] != "libc.so.6"]
        if e.get("interp"):
            e["interp"] = "/lib/ld-musl-x86_64.so.1"
    if "lib/libc.so.6" in s["sys"]:
        s["sys"][f"lib/{lc}"] = s["sys"].pop("lib/libc.so.6")


# -- enumeration ----------------------------------------------------------------

INCOMPATIBLE = [
    {"g.missing", "g.real_a"}, {"g.missing", "g.soname_a"}, {"g.missing", "g.mode_a"}, {"g.missing", "g.rpath_a"},
    {"g.missing", "v.a"}, {"g.missing", "i.a"}, {"g.missing", "g.symtab"}, {"g.missing", "v.b"}, {"g.missing", "i.b"},
    {"g.missing", "g.name_b"}, {"g.missing", "g.rpath_b"}, {"g.missing", "g.wl"}, {"g.missing", "g.libpython"},
    {"g.missing", "g.diamond"}, {"g.missing", "g.cycle"}, {"g.missing", "g.deep"},
    {"ld", "g.incompat"}, {"g.real_a", "g.incompat"}, {"loc", "s.ucs"}, {"i.wl", "g.wl"}, {"g.name_b", "excl"},
    {"g.missing", "g.twonames"}, {"g.twonames", "g.wl"}, {"g.twonames", "i.wl"},
]
# ext.rpath is also set by these
RPATH_SETTERS = {"g.dupsoname", "g.dup_big", "g.dupsoname_v1", "g.dupsoname_v2", "g.dupsoname_i1", "g.dupsoname_i2", "g.inner", "g.inner_clean", "g.inner_pair", "g.inner_same_a", "g.prelibs", "g.wl_inner",
                 "k.own_rpath", "k.own_runpath", "k.top_runpath", "k.chain_over", "s.inner_black", "i.inner_v3", "i.inner_base", "i.inner_hwcaps", "i.inner_hwcaps_graft", "i.inner_graft_v3"}


ss_exe = {"g.exe", "g.script"}


def compatible(names) -> bool:
    slots = [DEVS[n][0] for n in names]
    if "arch" in slots:
        if set(slots) & {"plat", "g.incompat", "i.ext", "i.a", "i.b", "i.wl", "s.ucs"} or "d.ldlp" in names:
            return False
        if {"e.first_isa", "e.last_isa", "g.exe_interp", "g.exe_interp_leak", "g.dupsoname_i1", "g.dupsoname_i2", "g.inner_unreached_i", "g.inner_unreached_o", "i.inner_v3", "i.inner_base", "i.inner_hwcaps", "i.inner_hwcaps_graft", "i.inner_graft_v3", "i.twonames0_v3", "i.twonames1_v3"} & set(names):
            return False
        if HASHNAMED & set(names):
            return False
        # limits of this machine's strip and of patchelf, not of auditwheel
        if "o.strip" in names and not {"a.i686", "a.musl"} & set(names):
            return False
        if {"a.ppc64", "a.s390x"} & set(names) and ss_exe & set(slots):
            return False
        if "a.musl" in names and (any(n.startswith(("v.", "s.", "e.", "d.", "g.exe_interp", "g.dupsoname_v", "g.inner_unreached_v", "g.loader", "g.wl"))
                                      for n in names) or {"n.multi_plat", "n.already", "n.higher", "n.linux_plus", "n.linux_plus_multi", "n.any_linux", "n.linux_any"} & set(names)):
            return False
    if len(set(slots)) != len(slots):
        return False
    ss = set(slots)
    for inc in INCOMPATIBLE:
        if inc <= ss:
            return False
    rp = [n for n in names if n in RPATH_SETTERS or DEVS[n][0] == "ext.rpath"]
    if len(rp) > 1:
        return False
    # libs found relative to the extension's place: keep it where it is
    if rp and rp[0] in RPATH_SETTERS and (ss & {"loc", "s.ucs", "name"}):
        return False
    if "g.real_a" in ss and HASHNAMED & set(names) and (ss & {"g.soname_a", "g.diamond", "v.a", "i.a", "g.rpath_a", "g.symtab",
                                                             "g.libpython", "g.wl", "g.name_b", "g.rpath_b"}):
        return False
    if "d.ldlp" in names and ("x.libc" in names):
        return False
    if "g.b_private" in names and ({"g.rpath_a"} & ss):
        return False
    return True


ORDER_FIRST = ("name", "loc", "s.ucs")  # applied before the others
ORDER_LAST = ("g.real_a",)  # then the search directories, then the architecture


def make(names) -> dict:
    s = base()
    key = lambda n: (0 if DEVS[n][0] in ORDER_FIRST else 2 if DEVS[n][0] in ORDER_LAST else
                     3 if DEVS[n][0] == "ld" else 4 if DEVS[n][0] == "arch" else 1, list(DEVS).index(n))
    for n in sorted(names, key=key):
        DEVS[n][1](s)
    s["names"] = sorted(names)
    return s


def argv(s, wheel="{IN}/@") -> list[str]:
    """command line of the repair run of a spec"""
    a = ["repair", "-w", s.get("outdir", "{OUT}")]
    if s["ldpaths"] is not None:
        a += ["--ldpaths", ":".join(s["ldpaths"])]
    if s["plat"] is not None:
        a += ["--plat", s["plat"]]
    for e in s["exclude"]:
        a += ["--exclude", e]
    a += s["args"]
    from mc.world import wheel_filename

    a.append(wheel.replace("@", wheel_filename(s["wheels"][0])))
    return a


def by_prefix(*pfx) -> list[str]:
    return [n for n in DEVS if n.startswith(tuple(pfx))]


def combos(names, k) -> list[tuple]:
    """every compatible set of at most k names, smallest first"""
    out = []
    names = sorted(set(names), key=list(DEVS).index)
    for n in range(k + 1):
        for c in itertools.combinations(names, n):
            if compatible(c):
                out.append(c)
    return out


def cross(a, b) -> list[tuple]:
    """every compatible pair with one name of each list"""
    out = {tuple(sorted({x, y})) for x in a for y in b if x != y}
    return sorted(c for c in out if compatible(c))
