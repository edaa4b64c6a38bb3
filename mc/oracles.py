"""Oracles: functions Obs -> [(signature, message)].  Each judges only the
observable outcome of a run (exit status, the wheels written, the file system)."""

from __future__ import annotations

import base64
import csv
import fnmatch
import hashlib
import io
import os
import posixpath
import re
from email.parser import Parser

from mc import elfread, loader, ref
from mc.observe import Obs, as_wheel, elfs_of, installed

HEX8 = re.compile(r"^[0-9a-f]{8}$")


def dist_info(w) -> str:
    c = sorted({n.split("/")[0] for n in w.data if n.split("/")[0].endswith(".dist-info") and "/" in n})
    assert len(c) == 1, c
    return c[0]


def tags_of_filename(fn: str) -> tuple[list, list, list]:
    p = fn[:-4].split("-")
    return p[-3].split("."), p[-2].split("."), p[-1].split(".")


def wheel_headers(w) -> list[tuple[str, str]]:
    d = w.data[dist_info(w) + "/WHEEL"].decode("utf-8", "surrogateescape")
    out = []
    for ln in d.replace("\r\n", "\n").split("\n"):
        if not ln:
            break
        if ln[0] in " \t" and out:
            out[-1] = (out[-1][0], out[-1][1] + ln)
        else:
            k, _, v = ln.partition(":")
            out.append((k, v.strip()))
    return out


def claimed(o: Obs):
    """reference policies claimed by the output (fallback: the decision)"""
    libc, arch = o.spec.get("libc", "glibc"), o.spec.get("arch", "x86_64")
    if not o.spec["update"]:
        d = o.decision()
        return list(d[1]) if d[0] == "ok" else []
    out = []
    for t in tags_of_filename(o.out.filename)[2]:
        p = ref.policy(t, libc, arch)
        if p is not None and p not in out:
            out.append(p)
    return out


def strictest(o: Obs):
    c = claimed(o)
    # tags the input already carried are the producer's claim, not the repair's
    d = o.decision()
    if d[0] == "ok":
        return d[1][0]
    return max(c, key=lambda p: p.priority) if c else None


# --------------------------------------------------------------------------
# C01 / C02: the load graph


def _libs_dir(o: Obs) -> str:
    return posixpath.normpath(o.spec["wheels"][0]["name"] + o.spec["lib_sdir"])


def _graph_before(o: Obs, member: str, wl):
    m = o.machine()
    root_site = "/I"
    inst = installed(o.src)
    for n, d in o.src.data.items():
        m.fs.add(inst[n], d)
    ex = o.spec["exclude"]

    def skip(n, path):
        if ref.is_loader(n) or ref.LIBPYTHON.match(n):
            return True
        if any(fnmatch.fnmatch(n, e) for e in ex):
            return True
        return path is not None and any(fnmatch.fnmatch(path, e) for e in ex)

    def opaque(n, path):
        return n in wl and not (path or "").startswith("/I/")

    return ref.load(m, inst[member], skip, opaque)


def _graph_after(o: Obs, path: str, wl):
    fs = ref.FS()
    w = o.out
    inst = installed(w)
    for n, d in w.data.items():
        fs.add(inst[n], d)
    m = ref.Machine(fs)
    ex = o.spec["exclude"]

    def skip(n, p):
        return ref.is_loader(n) or any(fnmatch.fnmatch(n, e) for e in ex)

    def opaque(n, p):
        # excluded by path: the name is still the original one
        if p is None and any("/" in e for e in ex) and n in o.extra.get("path_excluded", ()):
            return True
        return n in wl and p is None

    return ref.load(m, inst[path], skip, opaque)


def self_contained(o: Obs):
    """every ELF of the output loads exactly the libraries it loaded before"""
    if not o.ok or o.out is None or o.out.bad:
        return []
    p = strictest(o)
    if p is None:
        return []
    v = []
    be, ae = elfs_of(o.src), elfs_of(o.out)
    rec = o.analysis().elfs
    ex = o.spec["exclude"]
    if any("/" in e for e in ex):
        names = set()
        fs = o.machine().fs
        for q in list(fs.f):
            r = fs.resolve(q)
            if r and any(fnmatch.fnmatch(r, x) for x in ex):
                names.add(posixpath.basename(q))
        o.extra["path_excluded"] = names
    by_id = {}
    for n, e in ae.items():
        by_id.setdefault(e.vpid, []).append(n)
    for n, e in be.items():
        if n not in rec:
            continue
        edges, missing = _graph_before(o, n, p.whitelist)
        if missing:
            continue
        after = by_id.get(e.vpid, [])
        if len(after) != 1:
            v.append(("elf-lost", f"{n} (id {e.vpid}) is in the output {len(after)} times"))
            continue
        e2, m2 = _graph_after(o, after[0], p.whitelist)
        if m2:
            v.append(("unresolved-platlib" if ".data/platlib/" in after[0] else "unresolved", f"{after[0]} of {o.out.filename}: on a machine that offers only the libraries "
                      f"{p.name} grants, cannot load {sorted(m2)}"))
        elif e2 != edges:
            v.append(("graph", f"{after[0]}: loads {sorted(e2)} after the repair, {sorted(edges)} before"))
    return v


def real_loader(o: Obs):
    """the real ld.so loads the files the reference loader says, for every ELF
    file of the output installed on this machine"""
    if not o.ok or o.out is None or o.out.bad or not loader.available():
        return []
    v = []
    inst = installed(o.out)
    fs = ref.FS()
    for n, d in o.out.data.items():
        fs.add(inst[n], d)
    m = ref.Machine(fs)
    with loader.Tree({inst[n]: d for n, d in o.out.data.items()}) as t:
        for n, e in elfs_of(o.out).items():
            if (e.machine, e.cls) != (62, 64) or not e.dynamic:
                continue
            want: set = set()
            # what is not in the wheel is this machine's
            ref.load(m, inst[n], lambda k, p: ref.is_loader(k), lambda k, p: p is None, want)
            got, other, err = t.load(inst[n])
            o.extra["loader"] = o.extra.get("loader", 0) + 1
            if "CPU ISA level is lower" in err:
                continue
            if err.startswith("status"):
                v.append(("loader", f"{n}: ld.so: {err}"))
            elif set(got) | {inst[n]} != want:
                v.append(("loader", f"{n}: ld.so loads {sorted(got)}, expected {sorted(want - {inst[n]})}; not in the wheel: {sorted(other)}"))
    return v


def real_loader_before(o: Obs):
    """the same on the build machine: the original wheel, its libraries in place"""
    if o.src is None or o.src.bad or not loader.available() or not os.path.isdir(f"{o.root}/sys"):
        return []
    v = []
    inst = installed(o.src)
    m = o.machine()
    if o.spec["ldpaths"] is not None:  # the real loader has no such option
        m.env = m.env + m.conf
    m.conf = []
    for n, d in o.src.data.items():
        m.fs.add(inst[n], d)
    with loader.Tree({inst[n]: d for n, d in o.src.data.items()}) as t:
        for n, e in elfs_of(o.src).items():
            if (e.machine, e.cls) != (62, 64) or not e.dynamic:
                continue
            want: set = set()
            ref.load(m, inst[n], lambda k, p: ref.is_loader(k), lambda k, p: p is None, want)
            want = {x for x in want if x.startswith(f"{o.root}/") or not x.startswith(ref.HOST)}
            got = loader.trace(t.root + inst[n], ":".join(m.env))
            o.extra["loader"] = o.extra.get("loader", 0) + 1
            if isinstance(got, str):
                if "CPU ISA level is lower" not in got:
                    v.append(("loader", f"{n}: on the build machine: ld.so: {got}".replace(o.root, "")))
                continue
            real = {os.path.realpath(x) for x in got.values() if x}
            real = {x[len(t.root):] if x.startswith(t.root + "/") else x for x in real if x.startswith((t.root + "/", f"{o.root}/"))} | {inst[n]}
            if real != want:
                v.append(("loader", f"{n}: on the build machine: ld.so loads {sorted(real - want)} and not {sorted(want - real)}, {sorted(want & real)}".replace(o.root, "")))
    return v


def grafted(o: Obs) -> dict[str, elfread.Elf]:
    ids = {e.vpid for e in elfs_of(o.src).values()}
    return {n: e for n, e in elfs_of(o.out).items() if e.vpid not in ids}


def closure_exact(o: Obs):
    """grafted = external closure, each once, and nothing else is added"""
    if not o.ok or o.out is None or o.out.bad:
        return []
    p = strictest(o)
    if p is None:
        return []
    a = o.analysis()
    want = {}
    for n, path in a.ext(p, list(a.elfs)).items():
        if path is not None:
            want[path] = o.machine().fs.elf(path).vpid
    # the closure of names can resolve differently per ELF: take each tree
    for n in a.elfs:
        for lib, path in ref.external(a.trees[n], p, a.inside).items():
            if path is not None:
                want[path] = o.machine().fs.elf(path).vpid
    have = sorted(e.vpid or "?" for e in grafted(o).values())
    exp = sorted(want.values())
    v = []
    if have != exp:
        v.append(("closure", f"{o.out.filename}: grafted {have}, external closure under {p.name} is {exp}"))
    return v


# --------------------------------------------------------------------------
# C03 naming


def naming(o: Obs):
    if not o.ok or o.out is None or o.out.bad:
        return []
    v = []
    sysids = {}
    fs = o.machine().fs
    for path, d in fs.f.items():
        if not isinstance(d, tuple) and elfread.is_elf(d):
            sysids.setdefault(elfread.read(d).vpid, []).append((path, d))
    ldir = _libs_dir(o)
    seen = {}
    for n, e in grafted(o).items():
        if e.vpid not in sysids:
            v.append(("unknown", f"{n}: not a copy of any library of the build machine"))
            continue
        if posixpath.dirname(n) != ldir:
            v.append(("place", f"grafted library {n} is not directly in {ldir}/"))
        fn = posixpath.basename(n)
        path, d = sysids[e.vpid][0]
        h = hashlib.sha256(d).hexdigest()[:8]
        srcs = {posixpath.basename(q) for q, _ in sysids[e.vpid]}
        okname = False
        for s in srcs:
            stem, dot, rest = s.partition(".")
            if stem.endswith("-" + h):
                okname |= fn == s
            else:
                okname |= fn == f"{stem}-{h}{dot}{rest}"
        if not okname:
            v.append(("name", f"grafted {n}: expected the original name {sorted(srcs)} with content hash {h}"))
        if e.soname != fn:
            v.append(("soname", f"grafted {n}: SONAME {e.soname!r} differs from its file name"))
        if e.vpid in seen:
            v.append(("dup", f"{path} grafted twice: {n} and {seen[e.vpid]}"))
        seen[e.vpid] = n
        sp = o.sysspec(path)
        mode = next((f.get("mode", 0o755) for k, f in o.spec["sys"].items() if path.endswith("/sys/" + k)), None)
        if mode is not None and (o.out.mode[n] & 0o777) != (mode | 0o200):
            v.append(("mode", f"grafted {n}: mode {o.out.mode[n]:o}, original {mode:o}"))
        del sp
    # consumers refer to the grafted copies by their new names
    new = {posixpath.basename(n) for n in grafted(o)}
    for n, e in elfs_of(o.out).items():
        for x in e.needed:
            if "-" in x and x not in new and re.search(r"-[0-9a-f]{8}\.", x) and x not in {
                    posixpath.basename(q) for q in o.out.data} and x not in {y for z in elfs_of(o.src).values() for y in z.needed}:
                v.append(("dangling", f"{n} needs {x}, which is not in the wheel"))
    for n, e in elfs_of(o.out).items():
        for lib, ver in e.verneed:
            if lib not in e.needed and not ref.is_loader(lib):
                b = next((x for x in elfs_of(o.src).values() if x.vpid == e.vpid), None)
                if b is None:
                    b = next((fs.elf(q) for q, d in sysids.get(e.vpid, [])), None)
                if b is None or lib not in {l for l, _ in b.verneed} or lib in b.needed and not ref.LIBPYTHON.match(lib):
                    v.append(("verneed", f"{n}: version requirement on {lib} but it needs {e.needed}"))
    return v


# --------------------------------------------------------------------------
# C04 RPATH


def rpath_entries(e: elfread.Elf) -> list[str]:
    s = e.runpath if e.runpath is not None else e.rpath
    return s.split(":") if s else []


def _inside(entry: str, member: str) -> bool:
    """does an RPATH entry of `member` denote a place inside the wheel"""
    x = entry.replace("${ORIGIN}", "$ORIGIN").replace("$LIB", "lib64").replace("${LIB}", "lib64") \
        .replace("$PLATFORM", "x86_64").replace("${PLATFORM}", "x86_64")
    base = "/T/R" + "/".join(["", *member.split("/")[:-1]])
    x = x.replace("$ORIGIN", base)
    if not x.startswith("/"):
        return False
    n = posixpath.normpath(x)
    return n == "/T/R" or n.startswith("/T/R/")


def rpaths(o: Obs):
    if not o.ok or o.out is None or o.out.bad:
        return []
    v = []
    p = strictest(o)
    if p is None:
        return []
    a = o.analysis()
    be = {e.vpid: (n, e) for n, e in elfs_of(o.src).items()}
    ldir = _libs_dir(o)
    g = grafted(o)
    gname = {posixpath.basename(n) for n in g}
    for n, e in elfs_of(o.out).items():
        ents = rpath_entries(e)
        if e.rpath is not None and e.runpath is not None and not (
                e.vpid in be and (e.rpath, e.runpath) == (be[e.vpid][1].rpath, be[e.vpid][1].runpath)):
            v.append(("both", f"{n}: both RPATH and RUNPATH"))
        if n in g:
            dep = [x for x in e.needed if x in gname]
            if dep and ents != ["$ORIGIN"]:
                v.append(("lib-rpath", f"grafted {n} needs {dep} but its search path is {ents}"))
            if not dep and ents:
                v.append(("lib-rpath", f"grafted {n} has no bundled dependency but its search path is {ents}"))
            if dep and e.rpath is None:
                v.append(("lib-runpath", f"grafted {n}: not an RPATH"))
            continue
        if e.vpid not in be:
            continue
        bn, b = be[e.vpid]
        ext = ref.external(a.trees[bn], p, a.inside) if bn in a.trees else {}
        if not ext:
            if (e.rpath, e.runpath) != (b.rpath, b.runpath):
                v.append(("untouched", f"{n}: search path changed from {b.rpath or b.runpath} to {e.rpath or e.runpath} "
                          "although it needs nothing from outside"))
            continue
        loc = n  # member path after a possible move
        old = rpath_entries(b)
        want = []
        for x in [*[x for x in old if _inside(x, bn)],
                  posixpath.join("$ORIGIN", posixpath.relpath("/r/" + ldir, "/r/" + posixpath.dirname(loc))).removesuffix("/.")]:
            if x not in want:
                want.append(x)
        if bn != n:  # moved script: entries relative to its old place may be judged from either
            alt = []
            for x in [*[x for x in old if _inside(x, n)], want[-1]]:
                if x not in alt:
                    alt.append(x)
        else:
            alt = want
        if ents not in (want, alt):
            v.append(("ext-rpath", f"{n}: search path {ents}, expected {want} (originally {old})"))
        if e.rpath is None:
            v.append(("ext-runpath", f"{n}: search path is not an RPATH"))
        for x in ents:
            if not _inside(x, n):
                v.append(("outside", f"{n}: search path entry {x!r} leaves the wheel"))
    return v


# --------------------------------------------------------------------------
# C05-C07 tags


def _libc_max(elf, names=("GLIBC_",)):
    out = (0, 0)
    for lib, ver in elf.verneed:
        if ref.is_counted_version(lib) and re.fullmatch(r"GLIBC_\d+(\.\d+)+", ver):
            t = tuple(int(x) for x in ver[6:].split("."))[:2]
            out = max(out, t)
    return out


def tag_sound(o: Obs):
    """the tags added are allowed by what is in the output"""
    if not o.ok or o.out is None or o.out.bad or not o.spec["update"]:
        return []
    v = []
    intags = set(tags_of_filename(o.src.filename)[2])
    libc, arch = o.spec.get("libc", "glibc"), o.spec.get("arch", "x86_64")
    rec = o.analysis().elfs
    ids = {e.vpid for e in rec.values()} | {e.vpid for e in grafted(o).values()}
    for t in tags_of_filename(o.out.filename)[2]:
        if t in intags:
            continue
        p = ref.policy(t, libc, arch)
        if p is None:
            v.append(("foreign-tag", f"{o.out.filename}: {t} is not a known platform"))
            continue
        mm = re.match(r"manylinux_(\d+)_(\d+)_", p.name)
        for n, e in elfs_of(o.out).items():
            if e.vpid not in ids:
                continue
            bad = sorted(x for x in ref.versions_of(e) if not p.allows(x))
            if bad:
                v.append(("versions", f"{o.out.filename} claims {t} but {n} requires {bad}"))
            if mm and arch != "aarch64" and _libc_max(e) > (int(mm[1]), int(mm[2])):
                v.append(("pep600", f"{o.out.filename} claims {t} but {n} requires glibc {_libc_max(e)}"))
    return v


def forbidden(o: Obs):
    """no platform tag is added that the wheel's content forbids"""
    if not o.ok or o.out is None or not o.spec["update"]:
        return []
    v = []
    libc, arch = o.spec.get("libc", "glibc"), o.spec.get("arch", "x86_64")
    intags = set(tags_of_filename(o.src.filename)[2])
    j = o.verdict()
    for t in tags_of_filename(o.out.filename)[2]:
        p = ref.policy(t, libc, arch)
        if t in intags or p is None:
            continue
        for what, lim in (("ucs2", j.ucs), ("pyfpe", j.pyfpe), ("blacklist", j.bl), ("isa", j.isa)):
            if p.priority > lim.priority:
                v.append((what, f"{o.out.filename} claims {t}, but its content ({what}) allows at most {lim.name}"))
    return v


def tag_exact(o: Obs):
    """outcome and tags are those of the reference decision procedure"""
    d = o.decision()
    v = []
    if d[0] == "error":
        if o.ok:
            v.append(("accepted", f"repair succeeded ({[w.filename for w in o.outs]}) although it must be refused: {d[1]}"))
        return v
    if not o.ok:
        v.append(("refused", f"repair failed ({o.res.rc}: {o.res.err[-200:]!r}) although {[p.name for p in d[1]]} is attainable"))
        return v
    if o.out is None:
        v.append(("no-output", f"repair wrote {[w.filename for w in o.outs]}"))
        return v
    if not o.spec["update"]:
        return v
    intags = tags_of_filename(o.src.filename)[2]
    want = []
    for p in d[1]:
        want += [p.name, *p.aliases]
    linux = f"linux_{o.spec.get('arch', 'x86_64')}"
    exp = sorted({*[t for t in intags if t != linux], *want} - {"any"})
    have = tags_of_filename(o.out.filename)[2]
    if sorted(have) != exp:
        v.append(("tags", f"tagged {have}, expected {exp}"))
    return v


def no_partial(o: Obs):
    """a failed repair leaves nothing behind and damages nothing"""
    if o.ok:
        return []
    v = []
    for k in sorted(set(o.before) | set(o.after)):
        if k.startswith(("log/", "tmp/")) or k in ("log", "tmp", "out"):
            continue
        if o.before.get(k) != o.after.get(k):
            if k not in o.before and (o.after[k].startswith("dir:")):
                continue  # the requested output directory may have been created
            v.append(("residue", f"failed repair ({o.res.rc}) {'created' if k not in o.before else 'changed'} {k}"))
    return v


# --------------------------------------------------------------------------
# C08 file name and WHEEL agree


def names_agree(o: Obs):
    if not o.ok or o.out is None or o.out.bad:
        return []
    w, s = o.out, o.src
    v = []
    py, abi, plat = tags_of_filename(w.filename)
    if not o.spec["update"]:
        if w.filename != s.filename:
            v.append(("renamed", f"--no-update-tags, but {s.filename} became {w.filename}"))
        if w.data.get(dist_info(w) + "/WHEEL") != s.data[dist_info(s) + "/WHEEL"]:
            v.append(("wheel-touched", "--no-update-tags, but WHEEL changed"))
        return v
    hs, hw = wheel_headers(s), wheel_headers(w)
    tags = [x for k, x in hw if k == "Tag"]
    exp = {f"{a}-{b}-{c}" for a in py for b in abi for c in plat}
    if len(tags) != len(set(tags)):
        v.append(("dup-tag", f"duplicate Tag lines {tags}"))
    if set(tags) != exp:
        v.append(("mismatch", f"{w.filename}: WHEEL has {sorted(tags)}"))
    if w.filename.rsplit("-", 1)[0] != s.filename.rsplit("-", 1)[0]:
        v.append(("prefix", f"{s.filename} became {w.filename}"))
    if plat != sorted(set(plat)):
        v.append(("unsorted", f"platform tags of {w.filename} are not sorted and unique"))
    if d := [t for t in plat if t == "any" or t == f"linux_{o.spec.get('arch', 'x86_64')}"]:
        v.append(("stale", f"{w.filename} still carries {d}"))
    was_any = "any" in tags_of_filename(s.filename)[2]
    keep = lambda h: [(k, x) for k, x in h if k != "Tag" and not (was_any and k.lower() == "root-is-purelib")]
    if keep(hs) != keep(hw):
        v.append(("headers", f"other WHEEL fields changed: {keep(hs)} -> {keep(hw)}"))
    pl = [x.lower() for k, x in hw if k.lower() == "root-is-purelib"]
    if was_any and pl != ["false"]:
        v.append(("purelib", f"formerly pure wheel still says Root-Is-Purelib: {pl}"))
    return v


# --------------------------------------------------------------------------
# C09 RECORD


def record_ok(w, label="output"):
    v = []
    if w.bad:
        return [("broken", f"{label} {w.filename} is not a readable archive: {w.bad}")]
    di = dist_info(w)
    rp = di + "/RECORD"
    if rp not in w.data:
        return [("no-record", f"{label} {w.filename}: no RECORD")]
    rows = [r for r in csv.reader(io.StringIO(w.data[rp].decode(), newline="")) if r]
    seen = {}
    for r in rows:
        if len(r) != 3:
            v.append(("row", f"RECORD row {r}"))
            continue
        if r[0] in seen:
            v.append(("dup", f"RECORD lists {r[0]} twice"))
        seen[r[0]] = r
    if len(w.data) != len([n for n in w.order if not n.endswith("/")]):
        v.append(("dup-member", f"{w.filename}: duplicate archive members"))
    for n in w.data:
        if n in (rp + ".jws", rp + ".p7s"):
            continue
        if n not in seen:
            v.append(("missing", f"{n} is not in RECORD"))
            continue
        _, h, size = seen.pop(n)
        if n == rp:
            if (h, size) != ("", ""):
                v.append(("self", f"RECORD has a hash for itself: {h} {size}"))
            continue
        exp = "sha256=" + base64.urlsafe_b64encode(hashlib.sha256(w.data[n]).digest()).rstrip(b"=").decode()
        if h != exp or size != str(len(w.data[n])):
            v.append(("hash", f"RECORD says {n} is {h} {size}; it is {exp} {len(w.data[n])}"))
    for n in seen:
        v.append(("extra", f"RECORD lists {n}, which is not in the archive"))
    for sig in (".jws", ".p7s"):
        if rp + sig in w.data:
            v.append(("signature", f"stale signature {rp}{sig} kept"))
    return v


def record(o: Obs):
    if not o.ok:
        return []
    out = []
    for w in o.outs:
        out += record_ok(w)
    return out


# --------------------------------------------------------------------------
# C10 frame


def _perm(m: int) -> int:
    return (m & 0o777) | 0o600


def frame(o: Obs):
    """only what must change changes"""
    v = []
    outrel = {f"{o.outdir}/{w.filename}" for w in o.outs} if o.ok else set()
    for k in sorted(set(o.before) | set(o.after)):
        if k.startswith("log/") or k in ("log", "tmp") or k in outrel:
            continue
        if k.startswith("tmp/"):
            v.append(("temp", f"temporary {k} left behind"))
            continue
        if o.before.get(k) != o.after.get(k):
            if k not in o.before and o.after[k].startswith("dir:") and (o.outdir == k or o.outdir.startswith(k + "/")):
                continue
            if not o.ok:
                continue  # judged by no_partial
            v.append(("world", f"{k} {'changed' if k in o.before and k in o.after else 'created' if k in o.after else 'deleted'}"))
    if not o.res.cwd_ok:
        v.append(("cwd", "working directory not restored"))
    if not o.ok:
        return v
    if len(o.outs) != 1:
        v.append(("outputs", f"{len(o.outs)} files written: {[w.filename for w in o.outs]}"))
        return v
    w, s = o.out, o.src
    if w.bad:
        return [*v, ("broken", w.bad)]
    di = dist_info(s)
    p = strictest(o)
    a = o.analysis()
    g = set(grafted(o))
    changed_ok = {f"{di}/RECORD"} | ({f"{di}/WHEEL"} if o.spec["update"] else set())
    gone_ok = {f"{di}/RECORD.jws", f"{di}/RECORD.p7s"}
    new_ok = set(g)
    moved = {}
    if p is not None:
        for n in a.elfs:
            ext = ref.external(a.trees[n], p, a.inside)
            if ext:
                changed_ok.add(n)
                parts = n.split("/")
                if len(parts) == 3 and parts[0].endswith(".data") and parts[1] == "scripts":
                    nn = f"{s.filename.split('-')[0]}.scripts/{parts[2]}"
                    new_ok.add(nn)
                    moved[n] = nn
            elif o.spec.get("strip") and n in a.elfs:
                changed_ok.add(n)
    new_ok.add(f"{di}/sboms/auditwheel.cdx.json")
    for n, d in s.data.items():
        if n not in w.data:
            if n not in gone_ok:
                v.append(("lost", f"{n} is missing from the output"))
            continue
        if n not in changed_ok and w.data[n] != d:
            v.append(("content", f"{n} changed"))
        want = _perm(s.mode[n]) if s.mode[n] else 0o644
        if o.spec["opts"].get("umask") and not s.mode[n]:
            continue
        if n in moved:
            pass
        if (w.mode[n] & 0o777) != want:
            v.append(("perm", f"{n}: mode {w.mode[n]:o}, was {s.mode[n]:o}"))
    for n in w.data:
        if n not in s.data and n not in new_ok:
            v.append(("added", f"unexpected new file {n}"))
    for n, nn in moved.items():
        mo = _perm(s.mode[n]) if s.mode[n] else 0o644
        if nn in w.data and (w.mode[nn] & 0o777) != mo | (mo & 0o444) >> 2:  # executable, as installers make scripts
            v.append(("perm", f"{nn}: mode {w.mode[nn]:o}, was {s.mode[n]:o} as {n}"))
    have_dirs = {n for n in w.order if n.endswith("/")}
    want_dirs = {n for n in s.order if n.endswith("/")}
    for n in s.data:
        q = posixpath.dirname(n)
        while q:
            want_dirs.add(q + "/")
            q = posixpath.dirname(q)
    if lost := want_dirs - have_dirs:
        v.append(("dirs", f"directories lost: {sorted(lost)}"))
    # archive order recommended by the wheel specification
    idx = [i for i, n in enumerate(w.order) if n.startswith(di + "/")]
    if idx and idx != list(range(len(w.order) - len(idx), len(w.order))):
        v.append(("order", f"{di} is not at the end of the archive: {w.order}"))
    return v


def record_last(o: Obs):
    return []


# --------------------------------------------------------------------------
# C15 / C24


def excluded_absent(o: Obs):
    """nothing that matches --exclude is grafted or renamed"""
    if not o.ok or o.out is None or o.out.bad or not o.spec["exclude"]:
        return []
    v = []
    ex = o.spec["exclude"]
    fs = o.machine().fs
    ids = {}
    for q, d in fs.f.items():
        if not isinstance(d, tuple) and elfread.is_elf(d):
            ids[elfread.read(d).vpid] = q
    be = {e.vpid: e for e in elfs_of(o.src).values()}
    for e in [elfread.read(d) for d in fs.f.values() if not isinstance(d, tuple) and elfread.is_elf(d)]:
        be.setdefault(e.vpid, e)
    for n, e in elfs_of(o.out).items():
        b = be.get(e.vpid)
        if b is None:
            continue
        for x in b.needed:
            if any(fnmatch.fnmatch(x, p) for p in ex) and x not in e.needed:
                v.append(("renamed", f"{n} no longer needs excluded {x}: {e.needed}"))
    for n, e in grafted(o).items():
        q = ids.get(e.vpid)
        if q and any(fnmatch.fnmatch(q, p) for p in ex):
            v.append(("grafted", f"{q} is excluded by path but was grafted as {n}"))
        names = {posixpath.basename(q)} if q else set()
        if q and e.vpid and b is not None:
            links = {posixpath.basename(k) for k, d in fs.f.items() if fs.resolve(k) == q}
            if all(any(fnmatch.fnmatch(x, p) for p in ex) for x in links | names):
                v.append(("grafted", f"{q}: every name is excluded but it was grafted as {n}"))
    return v


def no_libpython(o: Obs):
    if not o.ok or o.out is None or o.out.bad or o.spec.get("libc") == "android":
        return []
    v = []
    rec = o.analysis().elfs
    ids = {e.vpid for e in rec.values()} | {e.vpid for e in grafted(o).values()}
    for n, e in elfs_of(o.out).items():
        bad = [x for x in e.needed if ref.LIBPYTHON.match(x)]
        ex = o.spec["exclude"]
        bad = [x for x in bad if not any(fnmatch.fnmatch(x, p) for p in ex)]
        if bad and e.vpid in ids:
            v.append(("libpython", f"{n} of {o.out.filename} still needs {bad}"))
    for n in o.out.data:
        if n not in o.src.data and "libpython" in posixpath.basename(n) and "helper" not in n:
            v.append(("libpython-copied", f"{n} was copied into the wheel"))
    return v


def canon(o: Obs) -> str:
    """canonical observable outcome, for counting distinct states"""
    if not o.ok:
        err = str(o.res.rc)
        return "fail:" + re.sub(r"/\S+", "P", err)[:120] + "|" + ",".join(w.filename for w in o.outs)
    parts = []
    for w in o.outs:
        if w.bad:
            parts.append("bad:" + w.bad)
            continue
        for n in w.order:
            d = w.data.get(n)
            if d is not None and elfread.is_elf(d) and len(d) > 52:
                e = elfread.read(d)
                parts.append(f"{n}:{e.vpid}:{e.soname}:{e.needed}:{e.rpath}:{e.runpath}:{w.mode[n]:o}")
            else:
                parts.append(f"{n}:{w.mode[n]:o}")
        parts.append(w.filename)
    return "\n".join(parts)
