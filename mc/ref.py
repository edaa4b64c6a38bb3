"""Reference models used as oracles: the policy data and its order, a model of
the dynamic loader, a model of the documented library search, and a reference
decision procedure for the platform tag.  Written against the documentation,
on top of mc.elfread; nothing here imports auditwheel."""

from __future__ import annotations

import fnmatch
import json
import os
import posixpath
import re
from dataclasses import dataclass, field
from functools import lru_cache
from pathlib import Path

from mc import elfread

REF = Path(__file__).resolve().parent.parent / "ref"
LIBPYTHON = re.compile(r"^libpython\d+\.\d+m?.so(\.\d)*$")


# --------------------------------------------------------------------------
# policies


@dataclass(frozen=True)
class Pol:
    name: str  # with architecture
    aliases: tuple
    priority: int
    versions: dict  # prefix -> set of full version names
    whitelist: frozenset
    blacklist: dict

    def __hash__(self):
        return hash(self.name)

    def allows(self, version: str) -> bool:
        pfx = version.split("_", 1)[0]
        return pfx not in self.versions or version in self.versions[pfx]


MUSL_SO = {"x86_64": "libc.musl-x86_64.so.1", "i686": "libc.musl-x86.so.1", "aarch64": "libc.musl-aarch64.so.1",
           "s390x": "libc.musl-s390x.so.1", "ppc64le": "libc.musl-ppc64le.so.1", "armv7l": "libc.musl-armv7.so.1",
           "riscv64": "libc.musl-riscv64.so.1", "loongarch64": "libc.musl-loongarch64.so.1"}


@lru_cache(None)
def policies(libc="glibc", arch="x86_64") -> tuple[Pol, ...]:
    """lowest priority (linux) first"""
    f = {"glibc": "manylinux", "musl": "musllinux", "android": "android"}[libc]
    out = []
    for p in json.loads((REF / f"{f}-policy.json").read_text()):
        if p["name"] != "linux" and arch not in p["symbol_versions"]:
            continue
        vers = {k: frozenset(f"{k}_{x}" for x in v) for k, v in p["symbol_versions"].get(arch, {}).items()}
        wl = frozenset(MUSL_SO[arch] if (libc == "musl" and x == "libc.so") else x for x in p["lib_whitelist"])
        out.append(Pol(f"{p['name']}_{arch}", tuple(f"{a}_{arch}" for a in p["aliases"]), p["priority"], vers, wl,
                       {k: frozenset(v) for k, v in p["blacklist"].items()}))
    out.sort(key=lambda p: p.priority)
    if libc == "musl":  # no musl libc on this machine: newest known musl policy
        out = out[:2]
    return tuple(out)


def policy(name: str, libc="glibc", arch="x86_64") -> Pol | None:
    for p in policies(libc, arch):
        if p.name == name or name in p.aliases:
            return p
    return None


def is_loader(n: str) -> bool:
    return n.startswith("ld-linux") or n in ("ld64.so.2", "ld64.so.1")


# --------------------------------------------------------------------------
# file systems


class FS:
    """path -> bytes or ('link', target).  Paths below `real` prefixes fall
    through to the real file system (read only)."""

    def __init__(self, real=()):
        self.f: dict[str, object] = {}
        self.real = tuple(real)
        self.dirs: set[str] = set()
        self._elf: dict[str, object] = {}

    def add(self, path, data):
        path = posixpath.normpath(path)
        self.f[path] = data
        while path not in ("/", ""):
            path = posixpath.dirname(path)
            self.dirs.add(path)

    def isdir(self, p):
        p = posixpath.normpath(p)
        return p in self.dirs or (p.startswith(self.real) and os.path.isdir(p)) if self.real else p in self.dirs

    def resolve(self, p) -> str | None:
        """final path of an existing regular file, symlinks followed"""
        for _ in range(40):
            p = posixpath.normpath(p)
            v = self.f.get(p)
            if v is None:
                if self.real and p.startswith(self.real) and os.path.exists(p):
                    return os.path.realpath(p)
                return None
            if isinstance(v, tuple):
                p = posixpath.join(posixpath.dirname(p), v[1])
                continue
            return p
        return None

    def read(self, p) -> bytes:
        if p in self.f:
            return self.f[p]
        return Path(p).read_bytes()

    def elf(self, p):
        if p not in self._elf:
            d = self.read(p)
            self._elf[p] = elfread.read(d) if elfread.is_elf(d) and len(d) > 52 else None
        return self._elf[p]


def host_conf_dirs() -> list[str]:
    out = []

    def parse(f):
        try:
            lines = Path(f).read_text().splitlines()
        except OSError:
            return
        for ln in lines:
            ln = ln.split("#")[0].strip()
            if ln.startswith("include "):
                import glob

                for g in sorted(glob.glob(ln[8:].strip())):
                    parse(g)
            elif ln:
                out.append(ln)

    parse("/etc/ld.so.conf")
    return [*out, "/lib", "/lib64", "/usr/lib", "/usr/lib64"]


HOST = ("/lib/", "/lib64/", "/usr/lib/", "/usr/lib64/", "/usr/local/lib/")


@dataclass
class Machine:
    fs: FS
    env: list = field(default_factory=list)  # (AUDITWHEEL_)LD_LIBRARY_PATH
    conf: list = field(default_factory=list)


def expand(s: str | None, elf_path: str, empty_cwd=None) -> list[str]:
    out = []
    for e in (s or "").split(":") if s else []:
        e = e.replace("${ORIGIN}", "$ORIGIN").replace("$ORIGIN", posixpath.dirname(elf_path))
        if e.startswith("/"):
            out.append(posixpath.normpath(e))
    return out


def compat(a, b) -> bool:
    sysv = {0, 3}
    return a.cls == b.cls and a.little == b.little and a.machine == b.machine and (
        a.osabi == b.osabi or {a.osabi, b.osabi} <= sysv)


def find(m: Machine, like, name, dirs):
    for d in dirs:
        r = m.fs.resolve(posixpath.join(d, name))
        if r is not None:
            e = m.fs.elf(r)
            if e is not None and compat(like, e):
                return r, posixpath.join(d, name)
    return None, None


# --------------------------------------------------------------------------
# the dynamic loader (glibc semantics: breadth first, RPATH of the whole
# loader chain unless the requester has RUNPATH, environment, own RUNPATH,
# system directories)


@dataclass
class Obj:
    path: str
    elf: object
    parent: object
    names: set


def load(m: Machine, root: str, skip=lambda name, path: False, opaque=lambda name, path: False, objects=None):
    """Load `root`; returns (edges, missing): edges are (from_vpid, to_vpid),
    missing are (from_vpid, needed-name).  `skip`: ignore the dependency;
    `opaque`: present on the target, not followed; `objects`: the files loaded
    are added to it."""
    r = m.fs.resolve(root)
    top = Obj(root, m.fs.elf(r), None, {posixpath.basename(root)})
    if top.elf.soname:
        top.names.add(top.elf.soname)
    loaded = [top]
    by_real = {r: top}
    edges, missing = set(), set()
    i = 0
    while i < len(loaded):
        o = loaded[i]
        i += 1
        for n in o.elf.needed:
            if skip(n, None):
                continue
            hit = next((x for x in loaded if n in x.names), None)
            if hit is None:
                dirs = []
                if o.elf.runpath is None:
                    p = o
                    while p is not None:
                        if p.elf.runpath is None:
                            dirs += expand(p.elf.rpath, p.path)
                        p = p.parent
                dirs += m.env
                dirs += expand(o.elf.runpath, o.path)
                dirs += m.conf
                real, path = find(m, o.elf, n, dirs)
                if skip(n, real):
                    continue
                if opaque(n, real):
                    continue
                if real is None:
                    missing.add((o.elf.vpid, n))
                    continue
                hit = by_real.get(real)
                if hit is None:
                    hit = Obj(path, m.fs.elf(real), o, {n})
                    if hit.elf.soname:
                        hit.names.add(hit.elf.soname)
                    loaded.append(hit)
                    by_real[real] = hit
                else:
                    hit.names.add(n)
            edges.add((o.elf.vpid, hit.elf.vpid))
    if objects is not None:
        objects |= set(by_real)
    return edges, missing


# --------------------------------------------------------------------------
# the documented dependency walk


@dataclass
class Tree:
    path: str
    elf: object
    needed: list
    libs: dict  # name -> (realpath | None)
    lneeded: dict  # name -> needed names
    paths: dict = field(default_factory=dict)  # name -> path as found


def tree(m: Machine, path: str, exclude=(), elf_root: str | None = None) -> Tree:
    """Breadth-first walk of DT_NEEDED from one ELF; each name is resolved once."""
    top = m.fs.elf(m.fs.resolve(path))
    t = Tree(path, top, [], {}, {})

    def isdirs(l):
        return [d for d in l if m.fs.isdir(d)]

    last = isdirs(expand(top.runpath, path))  # not used by the loader for other files
    if top.interp:
        n = posixpath.basename(top.interp)
        t.libs[n] = top.interp
        t.lneeded[n] = []
    interp = [posixpath.dirname(top.interp), "/usr" + posixpath.dirname(top.interp)] if top.interp else []
    todo = [(None, m.fs.resolve(path), [])]
    while todo:
        name, real, chain = todo.pop(0)
        e = m.fs.elf(real)
        # $ORIGIN is the directory of the real file
        run = isdirs(expand(e.runpath, real))
        chain = ([] if e.runpath is not None else isdirs(expand(e.rpath, real))) + chain
        dirs = m.env + run + m.conf + interp
        dirs = (dirs + chain if e.runpath is not None else chain + dirs) + last
        excl = set()
        for n in e.needed:
            if n in t.libs:
                continue
            if any(fnmatch.fnmatch(n, x) for x in exclude):
                excl.add(n)
                continue
            if LIBPYTHON.match(n):
                t.libs[n] = None
                t.lneeded[n] = []
                continue
            r, f = find(m, top, n, dirs)
            if r is not None and any(fnmatch.fnmatch(r, x) for x in exclude):
                excl.add(n)
                continue
            t.libs[n] = r
            t.paths[n] = f
            t.lneeded[n] = []
            if r is not None:
                todo.append((n, r, chain))
        need = [n for n in e.needed if n not in excl]
        if name is None:
            t.needed = need
        else:
            t.lneeded[name] = need
    return t


def external(t: Tree, pol: Pol, inside, android=False) -> dict[str, str | None]:
    """libraries outside the wheel that `t` needs and `pol` does not grant"""
    def ok(n):
        return is_loader(n) or n in pol.whitelist or (android and LIBPYTHON.match(n) is not None)

    out, todo = {}, [n for n in t.needed if not ok(n)]
    seen = set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        todo += [d for d in t.lneeded[n] if not ok(d)]
        if t.libs[n] is None or not inside(t.libs[n]):
            out[n] = t.libs[n]
    return out


# --------------------------------------------------------------------------
# reference decision


@dataclass
class WheelRef:
    """The wheel's ELF files on the build machine, with reference answers."""

    m: Machine
    root: str
    elfs: dict  # member -> Elf
    pyext: set
    py2: bool
    trees: dict
    roots: list
    arch: str
    libc: str
    exclude: tuple

    def inside(self, p):
        return p.startswith(self.root + "/")

    def ext(self, pol, members=None):
        out = {}
        for mb in (members if members is not None else self.roots):
            out.update(external(self.trees[mb], pol, self.inside, self.libc == "android"))
        return out


def init_func(member: str, elf_spec_symbols) -> tuple[bool, bool]:
    mod = posixpath.basename(member).split(".", 1)[0]
    uni = "PyInitU_" + mod.encode("punycode").decode().replace("-", "_")
    py3 = any(s[0] in ("PyInit_" + mod, uni) and s[1] and s[3] == "func" for s in elf_spec_symbols)
    py2 = any(s[0] in ("init" + mod, "_cffi_pypyinit_" + mod) and s[1] and s[3] == "func" for s in elf_spec_symbols)
    return py3 or py2, py2


def is_counted_version(lib: str) -> bool:
    return not (lib.startswith("ld-linux") or lib in ("ld64.so.2", "ld64.so.1"))


def versions_of(elf) -> set[str]:
    return {v for lib, v in elf.verneed if is_counted_version(lib)}


MACHINE = {"x86_64": (62, 64, True), "i686": (3, 32, True), "aarch64": (183, 64, True), "armv7l": (40, 32, True),
           "ppc64le": (21, 64, True), "ppc64": (21, 64, False), "s390x": (22, 64, False), "riscv64": (243, 64, True),
           "loongarch64": (258, 64, True)}


def analyse(m: Machine, root: str, members: dict[str, bytes], specs: dict, exclude=(), libc="glibc", arch="x86_64",
            recorded=None) -> WheelRef:
    """members: wheel member -> bytes (already added to m.fs below root);
    specs: member -> elf spec (symbols, isa)"""
    elfs = {}
    for n, d in members.items():
        if elfread.is_elf(d) and len(d) > 52 and not n.endswith(".py") and (recorded is None or n in recorded):
            e = elfread.read(d)
            if (e.machine, e.cls, e.little) == MACHINE[arch]:
                elfs[n] = e
    pyext, py2 = set(), False
    for n in elfs:
        isext, is2 = init_func(n, specs[n].get("symbols", []))
        if isext:
            pyext.add(n)
    trees = {n: tree(m, f"{root}/{n}", exclude) for n in elfs}
    # an inner library that cannot resolve everything by itself borrows the
    # answers of a fully resolved ELF that loads it
    full = [t for t in trees.values() if all(v is not None for v in t.libs.values())]
    for n, t in trees.items():
        if n in pyext or all(v is not None for v in t.libs.values()):
            continue
        donor = next((d for d in full if f"{root}/{n}" in d.libs.values()), None)
        if donor is None:
            continue
        for k in list(t.libs):
            if t.libs[k] is None and k in donor.libs:
                todo = [k]
                while todo:
                    x = todo.pop()
                    if x in donor.libs and (x == k or x not in t.libs):
                        t.libs[x] = donor.libs[x]
                        t.lneeded[x] = donor.lneeded[x]
                        todo += [y for y in donor.lneeded[x] if y not in t.libs]
    needed = {n for t in trees.values() for n in t.needed}
    roots = [n for n in elfs if n in pyext or posixpath.basename(n) not in needed]
    return WheelRef(m, root, elfs, pyext, py2, trees, roots, arch, libc, tuple(exclude))


@dataclass
class Verdict:
    sym: Pol
    ref: Pol
    bl: Pol
    ucs: Pol
    pyfpe: Pol
    isa: Pol
    graft: dict
    pols: tuple
    ext: dict  # policy name -> {lib: path}


def isa_level(spec) -> int:
    """0 none, 2/3/4: x86-64-vN required"""
    v = spec.get("isa")
    if v is None:
        return 0
    v &= ~1
    return 4 if v & 8 else 3 if v & 4 else 2 if v & 2 else 0


def judge(w: WheelRef, specs: dict, sysspec, noisa=False) -> Verdict:
    """sysspec(realpath) -> elf spec of an external library or {}"""
    pols = policies(w.libc, w.arch)
    linux = pols[0]
    nonl = pols[1:]
    ext = {p.name: w.ext(p) for p in nonl}
    own = set()
    for e in w.elfs.values():
        own |= versions_of(e)

    def ok_sym(p):
        vs = set(own)
        for t in w.trees.values():  # every file gets its own grafts
            for path in external(t, p, w.inside, w.libc == "android").values():
                if path is not None:
                    vs |= versions_of(w.m.fs.elf(path))
        return all(p.allows(v) for v in vs)

    def best(ok):
        c = [p for p in nonl if ok(p)]
        return c[-1] if c else linux

    def ok_bl(p):
        for n in w.elfs:
            need = set(w.trees[n].needed)
            und = {s[0] for s in specs[n].get("symbols", []) if not s[1] and s[2] != "weak"}
            for lib, syms in p.blacklist.items():
                if lib in need and syms & und:
                    return False
        return True

    def undef(n, pred):
        return any(not s[1] and pred(s) for s in specs[n].get("symbols", []))

    pyfpe = any(undef(n, lambda s: s[0] in ("PyFPE_jbuf", "PyFPE_dummy", "PyFPE_counter") and s[3] in ("func", "notype"))
                for n in w.pyext)
    ucs = any(init_func(n, specs[n].get("symbols", []))[1]
              and undef(n, lambda s: "PyUnicodeUCS2_" in s[0] and s[3] in ("func", "notype")) for n in w.pyext)
    top = pols[-1]
    isa = top
    if not noisa:
        # files that count: all, but those that another library of the wheel of that name stands in for
        loaded = {x for t in w.trees.values() for x in t.libs.values()}
        standins = {os.path.basename(x) for x in loaded if x is not None and w.inside(x)}
        counted = [n for n in w.elfs if n in w.roots or f"{w.root}/{n}" in loaded or os.path.basename(n) not in standins]
        names = {n for p in nonl for t in w.trees.values() for n, x in external(t, p, w.inside, w.libc == "android").items() if x is not None}
        bad_ext = {n: x for t in w.trees.values() for n, x in t.libs.items()
                   if n in names and x is not None and not w.inside(x) and isa_level(sysspec(x))}
        for n in bad_ext:
            c = [p for p in nonl if n in p.whitelist]
            lim = c[-1] if c else linux
            if lim.priority < isa.priority:
                isa = lim
        if any(isa_level(specs[n]) for n in counted):
            isa = linux
    return Verdict(sym=best(ok_sym), ref=best(lambda p: not ext[p.name]), bl=best(ok_bl), ucs=linux if ucs else top,
                   pyfpe=linux if pyfpe else top, isa=isa, graft={}, pols=pols, ext=ext)


def low(*ps):
    return min(ps, key=lambda p: p.priority)


def decide(v: Verdict, plat: str | None, only_plat=False):
    """reference outcome of a repair: ('error', reason) or ('ok', [policies], primary)"""
    pols = v.pols
    linux = pols[0]
    auto = plat in (None, "auto")
    counts = {p.name: len(v.ext[p.name]) for p in pols[1:]}
    if auto:
        lim = min(counts.values(), default=0)
        req = None
    else:
        req = next((p for p in pols if p.name == plat or plat in p.aliases), None)
        if req is None:
            return ("error", "unknown platform")
        lim = counts[req.name]
    c = [p for p in pols[1:] if counts[p.name] <= lim]
    graft = c[-1] if c else linux
    overall = low(v.sym, v.ucs, v.pyfpe, v.bl, v.isa, graft)
    if auto:
        req = overall if overall is not linux else pols[1]
    for what, lim_p in (("symbols", v.sym), ("ucs2", v.ucs), ("pyfpe", v.pyfpe), ("blacklist", v.bl), ("isa", v.isa)):
        if req.priority > lim_p.priority:
            return ("error", what)
    out = [req]
    if not only_plat and overall.priority > req.priority:
        out = [overall, req]
    missing = [n for n, p in v.ext[out[0].name].items() if p is None and not LIBPYTHON.match(n)]
    # libraries needed by any ELF file of the wheel are grafted
    return ("ok", out, missing)
