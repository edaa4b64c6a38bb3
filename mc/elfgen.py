"""Minimal ELF writer: builds shared objects / executables with exactly the
dynamic-linking facts a world asks for (needed, soname, rpath, versioned
references, symbols, x86 ISA note, interpreter), any class / endianness /
machine, in a layout that patchelf, strip, pyelftools and the real glibc
ld.so all accept.  Every object carries an identity payload ``VPID:<id>;``."""

from __future__ import annotations

import struct

MACH = {
    # name: (e_machine, class, little, e_flags)
    "x86_64": (62, 64, True, 0),
    "i686": (3, 32, True, 0),
    "aarch64": (183, 64, True, 0),
    "armv7l": (40, 32, True, 0x05000400),
    "ppc64": (21, 64, False, 1),
    "ppc64le": (21, 64, True, 2),
    "s390x": (22, 64, False, 0),
    "riscv64": (243, 64, True, 5),
    "loongarch64": (258, 64, True, 0x43),
    "mips": (8, 32, False, 0),
}

DT = dict(NULL=0, NEEDED=1, HASH=4, STRTAB=5, SYMTAB=6, STRSZ=10, SYMENT=11, SONAME=14,
          RPATH=15, RUNPATH=29, VERSYM=0x6FFFFFF0, VERNEED=0x6FFFFFFE, VERNEEDNUM=0x6FFFFFFF)
BIND = {"local": 0, "global": 1, "weak": 2}
TYPE = {"notype": 0, "object": 1, "func": 2}


def _elfhash(name: bytes) -> int:
    h = 0
    for c in name:
        h = (h << 4) + c
        g = h & 0xF0000000
        if g:
            h ^= g >> 24
        h &= ~g & 0xFFFFFFFF
    return h


class _Str:
    def __init__(self):
        self.buf = b"\0"
        self.m = {"": 0}

    def add(self, s: str) -> int:
        if s not in self.m:
            self.m[s] = len(self.buf)
            self.buf += s.encode() + b"\0"
        return self.m[s]


def build(spec: dict) -> bytes:
    """spec keys: machine, osabi, eflags, type('dyn'|'exec'), soname, needed[], rpath,
    runpath, verneed [[lib,[ver,...]],...], symbols [[name, defined, bind, type],...],
    interp, isa (int bits or None), id, pad (extra payload bytes), nodyn, cls, little, emachine"""
    em, cls, little, eflags = MACH[spec.get("machine", "x86_64")]
    em = spec.get("emachine", em)
    cls = spec.get("cls", cls)
    little = spec.get("little", little)
    eflags = spec.get("eflags", eflags)
    E = "<" if little else ">"
    is64 = cls == 64
    A = 8 if is64 else 4
    W = "Q" if is64 else "I"

    dynstr = _Str()
    shstr = _Str()
    needed = [dynstr.add(n) for n in spec.get("needed", [])]
    soname = spec.get("soname")
    rpath = spec.get("rpath")
    runpath = spec.get("runpath")
    for s in (soname, rpath, runpath):
        if s is not None:
            dynstr.add(s)

    # symbols -------------------------------------------------------------
    syms = [(0, 0, 0, 0)]
    for name, defined, bind, typ in spec.get("symbols", []):
        syms.append((dynstr.add(name), BIND[bind] << 4 | TYPE[typ], 1 if defined else 0, 0))
    versym = [0] + [1] * (len(syms) - 1)

    # verneed -------------------------------------------------------------
    verneed = b""
    vidx = 2
    vspec = [(l, v) for l, v in (spec.get("verneed") or [])]
    for i, (lib, vers) in enumerate(vspec):
        aux = b""
        for j, v in enumerate(vers):
            nxt = 16 if j + 1 < len(vers) else 0
            flags = 0
            if v.startswith("~"):  # weak version reference
                v, flags = v[1:], 2
            aux += struct.pack(E + "IHHII", _elfhash(v.encode()), flags, vidx, dynstr.add(v), nxt)
            vidx += 1
        nxt = 16 + len(aux) if i + 1 < len(vspec) else 0
        verneed += struct.pack(E + "HHIII", 1, len(vers), dynstr.add(lib), 16, nxt) + aux

    H = "Q" if (em == 22 and is64) else "I"  # s390x: 64-bit hash words
    hash_ = struct.pack(E + H + H, 1, len(syms)) + struct.pack(E + H, 1 if len(syms) > 1 else 0)
    for i in range(len(syms)):
        hash_ += struct.pack(E + H, i + 1 if 0 < i < len(syms) - 1 else 0)

    def symbytes():
        out = b""
        for name, info, shndx, val in syms:
            sec = text_index if shndx else 0
            if is64:
                out += struct.pack(E + "IBBHQQ", name, info, 0, sec, val, 0)
            else:
                out += struct.pack(E + "IIIBBH", name, val, 0, info, 0, sec)
        return out

    ident = b"\0" * spec.get("prepad", 0) + ("VPID:%s;" % spec.get("id", "")).encode() + b"\0" * spec.get("pad", 0)
    if spec.get("padbytes"):
        ident += spec["padbytes"].encode()

    note = b""
    for isa in (spec["isa"] if isinstance(spec.get("isa"), list) else [spec.get("isa")]):
        if isa is None:
            continue
        desc = struct.pack(E + "III", 0xC0008002, 4, isa)
        desc += b"\0" * (-len(desc) % A)
        if spec.get("isa_used") is not None:  # GNU_PROPERTY_X86_ISA_1_USED must not matter
            d2 = struct.pack(E + "III", 0xC0010002, 4, spec["isa_used"])
            desc += d2 + b"\0" * (-len(d2) % A)
        note += struct.pack(E + "III", 4, len(desc), 5) + b"GNU\0" + desc

    # section table ------------------------------------------------------
    # (name, type, flags, data, link, info, align, entsize)
    names = [""]
    secs: list[list] = [[0, 0, 0, b"", 0, 0, 0, 0]]

    def sec(name, typ, flags, data, link=0, info=0, align=1, entsize=0):
        names.append(name)
        secs.append([typ, flags, 0, data, link, info, align, entsize])
        return len(secs) - 1

    interp = spec.get("interp")
    nodyn = spec.get("nodyn", False)
    if interp:
        sec(".interp", 1, 2, interp.encode() + b"\0")
    if note:
        sec(".note.gnu.property", 7, 2, note, align=A)
    if not nodyn:
        i_hash = sec(".hash", 5, 2, hash_, align=A, entsize=struct.calcsize(H))
        i_dynsym = sec(".dynsym", 11, 2, b"\0" * (24 if is64 else 16) * len(syms), info=1, align=A,
                       entsize=24 if is64 else 16)
        i_versym = sec(".gnu.version", 0x6FFFFFFF, 2,
                       b"".join(struct.pack(E + "H", v) for v in versym), align=2, entsize=2)
        i_verneed = sec(".gnu.version_r", 0x6FFFFFFE, 2, verneed, info=len(vspec), align=A) if vspec else None
        i_dynstr = sec(".dynstr", 3, 2, dynstr.buf)
    text_index = sec(".vpid", 1, 2, ident, align=1)
    if not nodyn:
        ndyn = 5 + 1 + len(needed) + (soname is not None) + (rpath is not None) + (runpath is not None) \
            + (3 if vspec else 0)
        # spare DT_NULLs as real linkers emit: patchelf needs room for a new entry
        i_dyn = sec(".dynamic", 6, 3, b"\0" * (2 * A * (ndyn + 4)), align=A, entsize=2 * A)
        secs[i_hash][4] = i_dynsym
        secs[i_dynsym][4] = i_dynstr
        secs[i_versym][4] = i_dynsym
        if i_verneed:
            secs[i_verneed][4] = i_dynstr
        secs[i_dyn][4] = i_dynstr
        secs[i_dynsym][3] = symbytes()
    if spec.get("symtab"):  # a strippable .symtab/.strtab pair
        st = b"\0" * (24 if is64 else 16)
        i_symtab = sec(".symtab", 2, 0, st * 2, info=2, align=A, entsize=24 if is64 else 16)
        i_strtab = sec(".strtab", 3, 0, b"\0dbg\0")
        secs[i_symtab][4] = i_strtab
    if spec.get("debug"):
        sec(".debug_info", 1, 0, b"debug " + ("%s" % spec.get("id", "")).encode() + b"\0" * 32)
        sec(".debug_str", 1, 0x30, b"some name\0", entsize=1)
    i_shstr = sec(".shstrtab", 3, 0, b"")
    shnames = [shstr.add(n) for n in names]
    secs[i_shstr][3] = shstr.buf

    # layout --------------------------------------------------------------
    ehsize = 64 if is64 else 52
    phent = 56 if is64 else 32
    nph = 1 + (0 if nodyn else 1) + (1 if interp else 0) + (1 if note else 0) + 1
    off = ehsize + phent * (nph + 4)
    off += -off % 16
    offs = [0] * len(secs)
    for i, s in enumerate(secs):
        if i == 0:
            continue
        off += -off % max(s[6], 1)
        offs[i] = off
        off += len(s[3])
    alloc_end = max(offs[i] + len(s[3]) for i, s in enumerate(secs) if s[1] & 2)
    # position dependent executables need a real load address
    base = 0x400000 if spec.get("type", "dyn") == "exec" else 0
    addr = {names[i]: offs[i] for i in range(len(secs))}

    if not nodyn:
        d = []
        for n in needed:
            d.append((DT["NEEDED"], n))
        if soname is not None:
            d.append((DT["SONAME"], dynstr.add(soname)))
        if rpath is not None:
            d.append((DT["RPATH"], dynstr.add(rpath)))
        if runpath is not None:
            d.append((DT["RUNPATH"], dynstr.add(runpath)))
        d += [(DT["HASH"], base + addr[".hash"]), (DT["STRTAB"], base + addr[".dynstr"]),
              (DT["SYMTAB"], base + addr[".dynsym"]), (DT["STRSZ"], len(dynstr.buf)),
              (DT["SYMENT"], 24 if is64 else 16)]
        if vspec:
            d += [(DT["VERNEED"], base + addr[".gnu.version_r"]), (DT["VERNEEDNUM"], len(vspec)),
                  (DT["VERSYM"], base + addr[".gnu.version"])]
        data = b"".join(struct.pack(E + W + W, t, v) for t, v in d)
        assert len(data) <= len(secs[i_dyn][3])
        secs[i_dyn][3] = data + b"\0" * (len(secs[i_dyn][3]) - len(data))
        # defined symbols point into .vpid
        secs[i_dynsym][3] = symbytes()

    shoff = off + (-off % 8)
    out = bytearray(shoff)
    for i, s in enumerate(secs):
        out[offs[i]:offs[i] + len(s[3])] = s[3]
    shent = 64 if is64 else 40
    for i, s in enumerate(secs):
        va = base + offs[i] if s[1] & 2 else 0
        if is64:
            out += struct.pack(E + "IIQQQQIIQQ", shnames[i], s[0], s[1], va, offs[i], len(s[3]),
                               s[4], s[5], s[6], s[7])
        else:
            out += struct.pack(E + "IIIIIIIIII", shnames[i], s[0], s[1], va, offs[i], len(s[3]),
                               s[4], s[5], s[6], s[7])

    def ph(t, flags, o, sz, align):
        if is64:
            return struct.pack(E + "IIQQQQQQ", t, flags, o, o + base, o + base, sz, sz, align)
        return struct.pack(E + "IIIIIIII", t, o, o + base, o + base, sz, sz, flags, align)

    phs = []
    if interp:
        phs.append(ph(3, 4, addr[".interp"], len(interp) + 1, 1))
    phs.append(ph(1, 6, 0, alloc_end, 0x1000))
    if not nodyn:
        phs.append(ph(2, 6, addr[".dynamic"], len(secs[i_dyn][3]), A))
    if note:
        phs.append(ph(4, 4, addr[".note.gnu.property"], len(note), A))
    phs.append(ph(0x6474E551, 6, 0, 0, 16))  # GNU_STACK
    assert len(phs) == nph
    etype = 3 if spec.get("type", "dyn") == "dyn" else 2
    ident_b = b"\x7fELF" + bytes([2 if is64 else 1, 1 if little else 2, 1, spec.get("osabi", 0)]) + b"\0" * 8
    hdr = ident_b + struct.pack(E + "HHI" + W * 3 + "IHHHHHH", etype, em, 1, 0, ehsize, shoff, eflags,
                                ehsize, phent, nph, shent, len(secs), i_shstr)
    out[:len(hdr)] = hdr
    p = b"".join(phs)
    out[ehsize:ehsize + len(p)] = p
    if spec.get("nosect"):  # as sstrip leaves it: loadable, but without section headers
        shoff = 0
        out[:len(hdr)] = ident_b + struct.pack(E + "HHI" + W * 3 + "IHHHHHH", etype, em, 1, 0, ehsize, 0, eflags, ehsize, phent, nph, shent, 0, 0)
    return bytes(out)
