"""C32: --strip removes symbol tables and debug information, and nothing else."""

from __future__ import annotations

import itertools
import struct
from pathlib import Path

from mc import elfread, world
from mc.explore import CR
from mc.world import Box, elf, text

ID, LEVEL = "C32", "model_checking"
RULE = ("Every assignment of symbol tables and debug information to the ELF files of a wheel and of the libraries it needs (one of each role: extension with and without something to graft, bundled library that is needed and that is not, program, static program, scripts, file of another architecture, "
        "grafted library, library of a library, excluded library), with each option, is repaired on the real command line with and without --strip. The output is judged by an ELF reader of its own and the two outputs are compared. A state is an (assignment, option, outcome); a transition is one command.")
ASSUMPTIONS = ["ELF files are synthetic (no machine code); patchelf and strip are the real tools of this machine", "strip understands x86-64 and i686 files only, so wheels for other machines are not enumerated"]
GL = [["libc.so.6", ["GLIBC_2.2.5"]]]
STATES = {"n": {}, "s": {"symtab": True}, "d": {"debug": True}, "b": {"symtab": True, "debug": True}}
WR = ("ext", "ext2", "inner", "lone", "exe", "static", "tool", "plain", "foreign")  # in the wheel
SR = ("a", "b")  # on the build machine
ROLES = (*WR, *SR)
OPTS = {
    "": [], "noupd": ["--no-update-tags"], "L": ["--lib-sdir", ".x/y"], "x": ["--exclude", "libb.so.2"], "xa": ["--exclude", "liba.so.*"], "only": ["--only-plat", "--plat", "manylinux_2_17_x86_64"],
    "plat": ["--plat", "manylinux_2_17_x86_64"], "isa": ["--disable-isa-ext-check"], "z": ["-z", "0"], "pure": ["--allow-pure-python-wheel"],
    "two": [], "again": [], "again2": [], "ro": [], "norec": [], "nothing": [], "i686": [], "data": [], "link": [],
}


def setup():
    world.import_auditwheel()


def cases(tier):
    full = dict.fromkeys(ROLES, "b")
    for bits in itertools.product("nb", repeat=len(ROLES)):
        if tier == "thorough" or sum(x == "b" for x in bits) in (0, 1, 2, 3, len(ROLES) - 2, len(ROLES) - 1, len(ROLES)):
            yield {"st": "".join(bits), "opt": ""}
    for o in OPTS:
        yield {"st": "b" * len(ROLES), "opt": o}
        for i in range(len(ROLES)):
            for x in "nsdb":
                for rest in "bn":
                    yield {"st": "".join(x if j == i else rest for j in range(len(ROLES))), "opt": o}
        if tier == "thorough":
            for i, j in itertools.combinations(range(len(ROLES)), 2):
                for x, y in itertools.product("nsdb", repeat=2):
                    yield {"st": "".join(x if k == i else y if k == j else "b" for k in range(len(ROLES))), "opt": o}
    del full


def spec(c):
    st = dict(zip(ROLES, c["st"]))
    o = c["opt"]
    m = "i686" if o == "i686" else "x86_64"
    ld = "/lib/ld-linux.so.2" if o == "i686" else "/lib64/ld-linux-x86-64.so.2"
    gl = [["libc.so.6", ["GLIBC_2.0"]]] if o == "i686" else GL
    none = o == "nothing"

    def E(r, needed=(), **kw):
        mode = 0o444 if o == "ro" else 0o755
        kw.setdefault("machine", m)
        return elf(id=r, needed=[*needed, "libc.so.6"], verneed=gl, mode=mode, **STATES[st[r]], **{"symbols": [], **kw})

    def ext(r, needed, **kw):
        return E(r, needed, symbols=[[f"PyInit_{r}", True, "global", "func"]], **kw)

    ga = [] if none else ["liba.so.1"]
    w = world.default_wheel(tags=("cp312", "cp312", "linux_i686" if o == "i686" else "linux_x86_64"))
    d = "pkg-1.0.data/"
    exe = dict(type="exec", interp=ld)
    w["files"] = {
        "pkg/__init__.py": text("x = 1\n"),
        "pkg/ext.abi3.so": ext("ext", [*ga, "libinner.so"], rpath="$ORIGIN/libs"),
        "pkg/sub/ext2.abi3.so": ext("ext2", []),
        "pkg/libs/libinner.so": E("inner", [] if none else ["libb.so.2"], soname="libinner.so"),
        "pkg/libs/liblone.so": E("lone", [], soname="liblone.so"),
        ("pkg-1.0.data/data/bin/prog" if o == "data" else "pkg/bin/prog"): E("exe", ga, **exe),
        "pkg/bin/static": elf(id="static", machine=m, needed=[], verneed=[], nodyn=True, type="exec", symbols=[], **STATES[st["static"]]),
        d + "scripts/tool": E("tool", ga, **exe),
        d + "scripts/plain": E("plain", [], **exe),
        "pkg/foreign.so": E("foreign", ga, machine="aarch64"),
    }
    if o == "norec":
        w["record_drop"] = ["pkg/sub/ext2.abi3.so"]
    ws = [w]
    if o == "two":
        w2 = world.default_wheel(name="other")
        w2["files"] = {"other/ext.abi3.so": ext("ext", ["liba.so.1"])}
        ws = [w2, w]
    lm = 0o444 if o == "ro" else 0o755
    sysf = {
        "lib/liba.so.1": {**E("a", ["libb.so.2"], soname="liba.so.1"), "mode": lm},
        "lib/libb.so.2": {**E("b", [], soname="libb.so.2"), "mode": lm},
    }
    if o == "link":
        sysf["real/liba.so.1.2"] = sysf.pop("lib/liba.so.1")
        sysf["lib/liba.so.1"] = {"kind": "link", "to": "../real/liba.so.1.2"}
    return {"wheels": ws, "sys": sysf}


def sections(d: bytes):
    """name -> (type, flags, content)"""
    is64, E = d[4] == 2, "<" if d[5] == 1 else ">"
    if is64:
        (shoff,) = struct.unpack_from(E + "Q", d, 40)
        shent, shnum, shstr = struct.unpack_from(E + "HHH", d, 58)
        f, n = E + "IIQQQQIIQQ", 10
    else:
        (shoff,) = struct.unpack_from(E + "I", d, 32)
        shent, shnum, shstr = struct.unpack_from(E + "HHH", d, 46)
        f, n = E + "IIIIIIIIII", 10
    H = [struct.unpack_from(f, d, shoff + i * shent) for i in range(shnum)]
    so = H[shstr][4]
    del n
    return [(d[so + h[0]:d.index(b"\0", so + h[0])].decode("latin-1"), h[1], h[2], b"" if h[1] == 8 else d[h[4]:h[4] + h[5]]) for h in H[1:]]


def symbols(d):
    return [n for n, t, _, _ in sections(d) if t == 2], [n for n, _, f, _ in sections(d) if n.startswith(".debug") and not f & 2]


def facts(d):
    e = elfread.read(d)
    s = {n: c for n, _, f, c in sections(d) if f & 2}
    names = {}
    if ".dynsym" in s:
        is64, E = d[4] == 2, "<" if d[5] == 1 else ">"
        st, step = s[".dynstr"], 24 if is64 else 16
        names = [(st[v[0]:st.index(b"\0", v[0])], v[1] if is64 else v[3]) for v in (struct.unpack_from(E + ("IBBHQQ" if is64 else "IIIBBH"), s[".dynsym"], i) for i in range(0, len(s[".dynsym"]), step))]
    return {"class": e.cls, "machine": e.machine, "osabi": e.osabi, "needed": e.needed, "soname": e.soname, "rpath": e.rpath, "runpath": e.runpath, "interp": e.interp, "versions": e.verneed, "id": e.vpid, "dynamic": e.dynamic,
            "symbols": names, "content": s.get(".vpid"), "properties": s.get(".note.gnu.property")}


def counts(role):
    return role != "foreign"


def run_case(c):
    sp = spec(c)
    st = dict(zip(ROLES, c["st"]))
    o = c["opt"]
    v, n, outs = [], 0, []
    argv = ["repair", "--ldpaths", "{SYS}/lib", *[x.replace("x86_64", "i686") if o == "i686" else x for x in OPTS[o]]]
    with Box(sp) as b:
        for i, strip in enumerate((False, True)):
            out = f"{b.root}/out{i}"
            src = list(map(str, b.wheels))
            r = b.run([*argv, "-w", out, *(["--strip"] if strip else []), *src])
            n += 1
            if o in ("again", "again2") and r.rc in (0, None):
                # repaired, then repaired again: with --strip the second time, or both times
                if o == "again" and strip:
                    r = b.run([*argv, "-w", f"{b.root}/first", *src])
                    src = [str(p) for p in sorted(Path(b.root, "first").glob("*.whl"))]
                else:
                    src = [str(p) for p in sorted(Path(out).glob("*.whl"))]
                out = f"{b.root}/again{i}"
                r = b.run([*argv, "-w", out, *(["--strip"] if strip else []), *src])
                n += 2
            if r.rc not in (0, None):
                v.append(("status", f"{'--strip' if strip else 'plain'}: {r.rc} {r.exc or ''} {r.err[-200:]}"))
                return CR(v, [f"{o} fails"], n, n, True, "fails")
            outs.append([world.read_wheel(p) for p in sorted(Path(out).glob("*.whl"))])
        src = [world.read_wheel(p) for p in b.wheels]
    if [w.filename for w in outs[0]] != [w.filename for w in outs[1]] or len(outs[0]) != len(sp["wheels"]):
        v.append(("name", f"{[w.filename for w in outs[1]]} with --strip, {[w.filename for w in outs[0]]} without"))
        return CR(v, ["names"], n, n, True, "names")
    foreign = {p: d for w in src for p, d in w.data.items() if p == "pkg/foreign.so"}
    seen = set()
    for a, z in zip(*outs):
        if a.order != z.order or a.mode != z.mode:
            v.append(("members", f"members or modes with --strip: {sorted(set(z.mode.items()) ^ set(a.mode.items()))[:4]}"))
            continue
        for p in a.order:
            if p.endswith("/"):
                continue
            x, y = a.data[p], z.data[p]
            if not elfread.is_elf(x) or not elfread.is_elf(y):
                if x != y and not p.endswith((".dist-info/RECORD", "auditwheel.cdx.json")):
                    v.append(("content", f"{p} differs with --strip"))
                continue
            role = elfread.read(x).vpid
            seen.add(role)
            sym, dbg = symbols(x)
            want = STATES[st[role]]
            if bool(sym) != bool(want.get("symtab")) or bool(dbg) != bool(want.get("debug")):
                v.append(("plain", f"{p}: without --strip it has {sym + dbg}, the original {sorted(want)}"))
            if p in foreign:
                if y != foreign[p]:
                    v.append(("foreign", f"{p}, of another architecture, was changed"))
                continue
            sym, dbg = symbols(y)
            if (sym or dbg) and o != "norec":
                v.append(("kept", f"{p} ({role}): has {sym + dbg} after --strip"))
            fx, fy = facts(x), facts(y)
            for k in fx:
                if fx[k] != fy[k]:
                    v.append(("facts", f"{p} ({role}): {k} is {fy[k]!r} with --strip, {fx[k]!r} without"))
    exp = set(ROLES) - ({"a", "b"} if o == "nothing" else set()) - ({"b"} if o == "x" else set()) - ({"a"} if o == "xa" else set())
    if seen != exp:
        v.append(("roles", f"files of {sorted(seen)} in the output, expected {sorted(exp)}"))
    s = f"{c['st']} {o}"
    return CR(v, [s, s + " strip"], n, n, True, s)


def bounds(tier):
    return {"roles": list(ROLES), "states of a file": {"n": "neither", "s": "symbol table", "d": "debug information", "b": "both"}, "options": list(OPTS),
            "assignments": "all of {neither, both} to all roles" + (" with at most 3 of one kind" if tier == "quick" else "; every pair of roles x every pair of states x every option") + "; every role x every state x every option"}
