"""Independent ELF reader used by the oracles (no pyelftools): reads the dynamic
segment the way a loader does (PT_DYNAMIC + PT_LOAD mapping)."""

from __future__ import annotations

import re
import struct
from dataclasses import dataclass, field


@dataclass
class Elf:
    cls: int
    little: bool
    machine: int
    osabi: int
    needed: list = field(default_factory=list)
    soname: str | None = None
    rpath: str | None = None
    runpath: str | None = None
    interp: str | None = None
    dynamic: bool = False
    verneed: list = field(default_factory=list)  # (lib, ver)
    vpid: str | None = None
    has_symtab: bool = False


def is_elf(data: bytes) -> bool:
    return data[:4] == b"\x7fELF"


def read(data: bytes) -> Elf:
    assert is_elf(data)
    is64 = data[4] == 2
    little = data[5] == 1
    E = "<" if little else ">"
    W = "Q" if is64 else "I"
    (etype, em, _v, _entry, phoff, shoff, flags, _eh, phent, phnum, shent, shnum, shstr) = struct.unpack_from(
        E + "HHI" + W * 3 + "IHHHHHH", data, 16)
    e = Elf(64 if is64 else 32, little, em, data[7])
    loads, dyn = [], None
    for i in range(phnum):
        o = phoff + i * phent
        if is64:
            t, fl, off, va, _pa, fsz, msz, al = struct.unpack_from(E + "IIQQQQQQ", data, o)
        else:
            t, off, va, _pa, fsz, msz, fl, al = struct.unpack_from(E + "IIIIIIII", data, o)
        if t == 1:
            loads.append((va, off, fsz))
        elif t == 2:
            dyn = (off, fsz)
        elif t == 3:
            e.interp = data[off:off + fsz].split(b"\0")[0].decode()

    def v2o(va):
        for lva, off, fsz in loads:
            if lva <= va < lva + fsz:
                return va - lva + off
        raise ValueError("unmapped address %x" % va)

    def cstr(o):
        return data[o:data.index(b"\0", o)].decode("utf-8", "surrogateescape")

    if dyn is not None:
        e.dynamic = True
        ents = []
        o = dyn[0]
        step = 16 if is64 else 8
        while o < dyn[0] + dyn[1]:
            t, v = struct.unpack_from(E + W + W, data, o)
            o += step
            if t == 0:
                break
            ents.append((t, v))
        d = dict(ents)
        if 5 in d:
            st = v2o(d[5])
            for t, v in ents:
                if t == 1:
                    e.needed.append(cstr(st + v))
                elif t == 14:
                    e.soname = cstr(st + v)
                elif t == 15:
                    e.rpath = cstr(st + v)
                elif t == 29:
                    e.runpath = cstr(st + v)
            if 0x6FFFFFFE in d:
                o = v2o(d[0x6FFFFFFE])
                for _ in range(d.get(0x6FFFFFFF, 0)):
                    _vv, cnt, fileo, aux, nxt = struct.unpack_from(E + "HHIII", data, o)
                    lib = cstr(st + fileo)
                    a = o + aux
                    for _ in range(cnt):
                        _h, _f, _ot, nm, an = struct.unpack_from(E + "IHHII", data, a)
                        e.verneed.append((lib, cstr(st + nm)))
                        a += an
                        if not an:
                            break
                    o += nxt
                    if not nxt:
                        break
    m = re.search(rb"VPID:([^;]*);", data)
    e.vpid = m.group(1).decode() if m else None
    for i in range(shnum):
        (t,) = struct.unpack_from(E + "I", data, shoff + i * shent + 4)
        if t == 2:
            e.has_symtab = True
    return e
