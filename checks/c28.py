"""C28: damaged input never passes silently."""

from __future__ import annotations

import base64
import copy
import csv
import hashlib
import io
import itertools
import os
import zipfile
from pathlib import Path

from mc import elfread, menu, world
from mc.explore import CR
from mc.world import Box, text

ID = "C28"
LEVEL = "fault_enumeration"
RULE = ("The input of one repair (and of show) is damaged in every way of a bounded space and the real command line runs on each: the wheel cut at every length, "
        "every byte of the archive changed, every member removed / emptied / given twice / made unreadable, a menu of broken metadata alone and in pairs, and the extension module and "
        "the library of the build machine cut at every length and changed at every byte of their headers, section headers, dynamic section and string and version tables. A state is the outcome (exit status, members "
        "and their digests); a transition is one run. Every outcome is judged: refused without any trace, or a complete wheel.")
ASSUMPTIONS = ["one byte is changed at a time; members are compressed, so that their bytes are covered by the CRC of the archive",
               "a refusal may be a traceback: what counts is the exit status and what is left on disk"]
CHUNK = 24


def setup():
    world.import_auditwheel()


def spec(which="wheel"):
    s = menu.base()
    s["sys"] = {k: v for k, v in s["sys"].items() if k in ("lib/libc.so.6", "lib/liba.so.1")}
    w = s["wheels"][0]
    for k in list(w["files"]):
        if k not in (menu.EXT, "pkg/__init__.py"):
            del w["files"][k]
    w["files"][menu.EXT] = menu.elf(id="ext", needed=["liba.so.1", "libc.so.6"], verneed=[["libc.so.6", ["GLIBC_2.2.5"]]], symbols=[["PyInit_ext", True, "global", "func"]], rpath="$ORIGIN/x")
    w["files"]["pkg/data.txt"] = text("some text\n" * 30)
    s["sys"]["lib/liba.so.1"] = menu.lib("a", ["libc.so.6"], "liba.so.1", verneed=[["libc.so.6", ["GLIBC_2.2.5"]]])
    return s


_base: dict = {}


def base():
    """the intact wheel, library, and what the commands make of them"""
    if not _base:
        s = spec()
        with Box(s) as b:
            name = world.wheel_filename(s["wheels"][0])
            raw = Path(f"{b.root}/in/{name}").read_bytes()
            lib = Path(f"{b.root}/sys/lib/liba.so.1").read_bytes()
            r = b.run(menu.argv(s))
            assert r.rc == 0, r.err
            (o,) = b.outputs()
            r2 = b.run(["show", "{IN}/" + name])
            assert r2.rc == 0, r2.err
            _base.update(name=name, raw=raw, lib=lib, out=o.filename, data=dict(o.data), show=r2.out.replace(b.root, ""), argv=menu.argv(s),
                         mem={i.filename: zipfile.ZipFile(io.BytesIO(raw)).read(i.filename) for i in zipfile.ZipFile(io.BytesIO(raw)).infolist()})
    return _base


# -- damages -------------------------------------------------------------------

DI = "pkg-1.0.dist-info"


def pack(mem) -> bytes:
    """[(name, data)...] -> archive"""
    import warnings

    f = io.BytesIO()
    with zipfile.ZipFile(f, "w", zipfile.ZIP_DEFLATED) as z, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for n, d in mem:
            zi = zipfile.ZipInfo(n, (2020, 2, 2, 2, 2, 2))
            zi.compress_type = zipfile.ZIP_DEFLATED
            zi.external_attr = (0o100755 if n.endswith(".so") else 0o100644) << 16
            z.writestr(zi, d)
    return f.getvalue()


def record(mem) -> bytes:
    out = io.StringIO(newline="")
    w = csv.writer(out, lineterminator="\n")
    for n, d in mem:
        if n != f"{DI}/RECORD":
            w.writerow([n, "sha256=" + base64.urlsafe_b64encode(hashlib.sha256(d).digest()).rstrip(b"=").decode(), len(d)])
    w.writerow([f"{DI}/RECORD", "", ""])
    return out.getvalue().encode()


def rep(n, a, b):
    def f(m):
        return [(k, d.replace(a, b) if k == n else d) for k, d in m]

    return f


def put(n, d):
    def f(m):
        return [x for x in m if x[0] != n] + [(n, d)]

    return f


def drop(n):
    return lambda m: [x for x in m if x[0] != n]


def ren(a, b):
    return lambda m: [((b if k == a else k), d) for k, d in m]


W, M, R = f"{DI}/WHEEL", f"{DI}/METADATA", f"{DI}/RECORD"
META = {
    "no-WHEEL": drop(W), "no-METADATA": drop(M), "no-RECORD": drop(R),
    "empty-WHEEL": put(W, b""), "empty-METADATA": put(M, b""), "empty-RECORD": put(R, b""),
    "no-Tag": lambda m: [(k, b"".join(x for x in d.splitlines(True) if not x.startswith(b"Tag")) if k == W else d) for k, d in m],
    "no-Purelib": rep(W, b"Root-Is-Purelib: false\n", b""), "no-Version": rep(W, b"Wheel-Version: 1.0\n", b""), "version-2": rep(W, b"Wheel-Version: 1.0", b"Wheel-Version: 2.0"),
    "latin-WHEEL": rep(W, b"Generator: vp", b"Generator: v\xe9"), "latin-METADATA": rep(M, b"body", b"b\xf6dy"), "latin-RECORD": rep(R, b"data.txt", b"d\xe4ta.txt"),
    "bad-Tag": rep(W, b"linux_x86_64", b"linux"), "odd-Tag": rep(W, b"Tag: cp312-cp312-linux_x86_64", b"Tag: nonsense"),
    "crlf-WHEEL": lambda m: [(k, d.replace(b"\n", b"\r\n") if k == W else d) for k, d in m], "nul-WHEEL": rep(W, b"Generator", b"Gene\0rator"),
    "bom-WHEEL": lambda m: [(k, b"\xef\xbb\xbf" + d if k == W else d) for k, d in m],
    "record-extra": lambda m: [(k, d + b"pkg/gone.txt,sha256=AAAA,3\n" if k == R else d) for k, d in m],
    "record-short": lambda m: [(k, b"".join(d.splitlines(True)[1:]) if k == R else d) for k, d in m],
    "record-hash": rep(R, b"sha256=", b"sha256=x"), "record-columns": lambda m: [(k, d.replace(b",", b";") if k == R else d) for k, d in m],
    "record-quote": lambda m: [(k, b'"' + d if k == R else d) for k, d in m], "record-nul": lambda m: [(k, b"\0" + d if k == R else d) for k, d in m],
    "record-dup": lambda m: [(k, d + d if k == R else d) for k, d in m],
    "two-dist-info": lambda m: [*m, ("other-2.0.dist-info/METADATA", b"x"), ("other-2.0.dist-info/WHEEL", b"Wheel-Version: 1.0\n")],
    "dist-info-other": lambda m: [(k.replace("pkg-1.0.dist", "pkg-1.1.dist"), d) for k, d in m], "dist-info-file": lambda m: [x for x in m if not x[0].startswith(DI)] + [(DI, b"file")],
    "no-dist-info": lambda m: [x for x in m if not x[0].startswith(DI)], "nested-dist-info": lambda m: [(k.replace(DI, "pkg/" + DI), d) for k, d in m],
    "case-dist-info": lambda m: [(k.replace("pkg-1.0.dist", "PKG-1.0.dist"), d) for k, d in m],
    "twice-WHEEL": lambda m: [*m, (W, dict(m).get(W, b"") + b"\n")], "twice-ext": lambda m: [*m, (menu.EXT, b"not elf")], "twice-data": lambda m: [*m, ("pkg/data.txt", b"other")],
    "file-and-dir": lambda m: [*m, ("pkg/data.txt/inner", b"x")], "dir-member": lambda m: [*m, ("pkg/data.txt/", b"")], "empty-name": lambda m: [*m, ("./", b"")],
    "libs-file": lambda m: [*m, ("pkg.libs", b"a file where the libraries go")], "libs-taken": lambda m: [*m, ("pkg.libs/liba-00000000.so.1", b"taken")],
    "only-dist-info": lambda m: [x for x in m if x[0].startswith(DI)], "empty": lambda m: [], "ext-text": put(menu.EXT, b"text\n"), "ext-empty": put(menu.EXT, b""), "ext-magic": put(menu.EXT, b"\x7fELF"),
    "ext-ar": put(menu.EXT, b"!<arch>\n"), "so-text": put("pkg/zz.so", b"INPUT(liba.so)\n"), "py-elf": lambda m: [*m, ("pkg/thing.dat", dict(m).get(menu.EXT, b""))], "jws": lambda m: [*m, (f"{DI}/RECORD.jws", b"{}")],
}


def elf_regions(d: bytes):
    """offsets that say something to the tool: all but padding and identity"""
    pay = d.find(b"VPID:")
    end = d.find(b";", pay) + 1 if pay >= 0 else 0
    skip = set(range(pay, end))
    # the number of version records is a loop bound of pyelftools: no limit on the time is promised
    shoff, n = int.from_bytes(d[40:48], "little"), int.from_bytes(d[60:62], "little")
    for i in range(n):
        h = shoff + 64 * i
        if int.from_bytes(d[h + 4:h + 8], "little") == 0x6FFFFFFE:
            skip |= {h + 44 + k for k in range(1, 4)}
    return [i for i in range(len(d)) if i not in skip]


def cases(tier):
    big = tier == "thorough"
    b = base()
    n = len(b["raw"])

    def chunks(kind, items, **kw):
        items = list(items)
        for i in range(0, len(items), CHUNK):
            yield {"kind": kind, "at": items[i:i + CHUNK], **kw}

    for cmd in ("repair", "show"):
        yield from chunks("cut", range(n), cmd=cmd)
        for m in (1, 255) if not big else (1, 2, 4, 8, 16, 32, 64, 128, 255):
            if cmd == "repair" or m == 255 or big:
                yield from chunks("flip", range(n), mask=m, cmd=cmd)
        names = list(META)
        for a in names:
            yield {"kind": "meta", "at": [[a]], "cmd": cmd, "fix": True}
            yield {"kind": "meta", "at": [[a]], "cmd": cmd, "fix": False}
        pairs = [list(p) for p in (itertools.permutations if big else itertools.combinations)(names, 2)]
        if big or cmd == "repair":
            yield from chunks("meta", pairs, cmd=cmd, fix=False)
    ext = b["mem"][menu.EXT]
    for where, d in (("ext", ext), ("lib", b["lib"])):
        step = 1 if big else 3
        yield from chunks("elfcut", range(0, len(d), step), where=where, cmd="repair")
        for m in ((255,) if where == "ext" else (1,)) if not big else (1, 2, 4, 8, 16, 32, 64, 128, 255):
            yield from chunks("elfflip", elf_regions(d), where=where, mask=m, cmd="repair")


# -- judging -------------------------------------------------------------------


def judge_wheel(b: Box, mem: dict, c) -> list:
    """the output is a complete wheel: RECORD exact, other members unchanged"""
    outs = sorted(Path(f"{b.root}/out").iterdir())
    if len(outs) != 1:
        return [("count", f"exit 0 and {len(outs)} files in the wheel directory")]
    v = []
    with zipfile.ZipFile(outs[0]) as z:
        if z.testzip():
            return [("crc", "the output is a damaged archive")]
        names = [i.filename for i in z.infolist() if not i.filename.endswith("/")]
        data = {n: z.read(n) for n in names}
    if len(set(names)) != len(names):
        v.append(("twice", f"the output holds members twice: {sorted(n for n in set(names) if names.count(n) > 1)}"))
    rec = [n for n in data if n.endswith(".dist-info/RECORD") and n.count("/") == 1]
    if len(rec) != 1:
        v.append(("record", f"RECORD files in the output: {rec}"))
    else:
        rows = {r[0]: r[1:] for r in csv.reader(io.StringIO(data[rec[0]].decode("utf-8", "replace"))) if r}
        if set(rows) != {n for n in data}:
            v.append(("record", f"RECORD lists {sorted(set(rows) ^ set(data))} differently from the archive"))
        for n, r in rows.items():
            if n in data and n != rec[0] and r != ["sha256=" + base64.urlsafe_b64encode(hashlib.sha256(data[n]).digest()).rstrip(b"=").decode(), str(len(data[n]))]:
                v.append(("record", f"RECORD entry of {n} is wrong: {r}"))
    for n, d in mem.items():
        if n.endswith("/"):
            continue
        if n not in data:
            if not n.endswith((".jws", ".p7s")):
                v.append(("lost", f"{n} is missing in the output"))
        elif data[n] != d and not n.endswith((".dist-info/RECORD", ".dist-info/WHEEL")) and not d.startswith(b"\x7fELF"):
            v.append(("changed", f"{n} changed"))
    return v


def judge_elf(b: Box, mem, libd, c):
    """a module that still asks for the library got it"""
    outs = b.outputs()
    if len(outs) != 1:
        return []
    o = outs[0]
    want = f"liba-{hashlib.sha256(libd).hexdigest()[:8]}.so.1"
    if c["where"] == "ext":
        try:
            e, i = elfread.read(mem[menu.EXT]), elfread.read(base()["mem"][menu.EXT])
        except Exception:  # noqa: BLE001
            return []
        if (e.needed, e.machine, e.cls, e.little) != (i.needed, i.machine, i.cls, i.little):
            return []
    v = []
    if f"pkg.libs/{want}" not in o.data:
        v.append(("not-grafted", f"exit 0 without {want} in the wheel"))
    return v


def run_case(c):
    base_ = base()
    s = spec()
    v, states, n, ok = [], set(), 0, 0
    with Box(s) as b:
        name = base_["name"]
        src = Path(f"{b.root}/in/{name}")
        lib = Path(f"{b.root}/sys/lib/liba.so.1")
        argv = base_["argv"] if c["cmd"] == "repair" else ["show", "{IN}/" + name]
        for at in c["at"]:
            raw, libd, mem = base_["raw"], base_["lib"], None
            if c["kind"] == "cut":
                raw = raw[:at]
            elif c["kind"] == "flip":
                raw = raw[:at] + bytes([raw[at] ^ c["mask"]]) + raw[at + 1:]
            elif c["kind"] == "meta":
                m = list(base_["mem"].items())
                for x in at:
                    m = META[x](m)
                if c["fix"]:
                    m = [(k, record(m) if k == R else d) for k, d in m]
                raw = pack(m)
                mem = dict(m)
            else:
                d = base_["mem"][menu.EXT] if c["where"] == "ext" else libd
                d = d[:at] if c["kind"] == "elfcut" else d[:at] + bytes([d[at] ^ c["mask"]]) + d[at + 1:]
                mem = dict(base_["mem"])
                if c["where"] == "ext":
                    mem[menu.EXT] = d
                    m = [(k, x) for k, x in mem.items()]
                    raw = pack([(k, record(m) if k == R else x) for k, x in m])
                else:
                    libd = d
            src.write_bytes(raw)
            lib.write_bytes(libd)
            before = world.tree_digest(b.root)
            r = b.run(argv, timeout=30)
            n += 1
            after = world.tree_digest(b.root)
            what = f"{c['kind']} {c.get('where', '')} at {at}" + (f" ^ {c['mask']:#x}" if "mask" in c else "")
            loc = lambda t: {k: x for k, x in t.items() if not k.startswith(("log", "out/"))}  # noqa: E731
            if isinstance(r.rc, str) and not r.rc.startswith("exc:") or (isinstance(r.rc, int) and r.rc < 0):
                v.append(("killed", f"{what}: {r.rc}"))
            if loc(before) != loc(after):
                v.append(("left", f"{what}: changed on disk: {sorted(set(loc(before).items()) ^ set(loc(after).items()))[:3]}"))
            left = sorted(os.listdir(f"{b.root}/out"))
            if r.rc != 0:
                if left:
                    v.append(("partial", f"{what}: exit {str(r.rc)[:80]} and {left} in the wheel directory"))
                states.add(f"{c['kind']}:{str(r.rc)[:30]}")
            elif c["cmd"] == "show":
                if c["kind"] in ("cut", "flip") and r.out.replace(b.root, "") != base_["show"]:
                    v.append(("report", f"{what}: show exits 0 with another report"))
                states.add("show ok")
            elif c["kind"] in ("cut", "flip"):
                ok += 1
                outs = b.outputs()
                if len(outs) != 1 or outs[0].filename != base_["out"] or outs[0].data != base_["data"]:
                    v.append(("silent", f"{what}: exit 0 and the output is not that of the intact wheel: {left}"))
                states.add("flip ok")
            else:
                ok += 1
                if not left and c["kind"] == "meta":
                    pass
                if mem is None:
                    mem = base_["mem"]
                v += [(k, f"{what}: {t}") for k, t in judge_wheel(b, mem, c)]
                if c["kind"].startswith("elf"):
                    v += [(k, f"{what}: {t}") for k, t in judge_elf(b, mem, libd, c)]
                states.add(f"{c['kind']} ok")
            for x in left:
                os.unlink(f"{b.root}/out/{x}")
    return CR(v, sorted(states), n, n, True, f"{n} runs, {ok} outputs")


def bounds(tier):
    b = base()
    return {"archive": f"{len(b['raw'])} bytes: every length, every byte x masks {'1, 255' if tier == 'quick' else 'each bit, 255'}", "metadata": f"{len(META)} damages, alone and in pairs{', in both orders' if tier != 'quick' else ''}",
            "ELF": "extension module and library: every " + ("third " if tier == "quick" else "") + "length, every byte but the identity"}
