"""C16: queued ELF edits are applied together, exactly, once."""

from __future__ import annotations

import itertools
import os
from pathlib import Path

from mc import elfgen, elfread, world
from mc.explore import CR
from mc.world import Box

ID = "C16"
LEVEL = "model_checking"
RULE = ("Every sequence up to the stated length of operations of the ELF patcher (replace, remove, soname, set and clear the search path, query it, rename the file, "
        "apply) on two ELF files, one of them also reached through a symbolic link, is executed on the real patcher with the real patchelf, for each patcher and platform. "
        "A state is (pending edits, content of the files); a transition is one operation. After every operation the real files and answers are compared with an abstract state machine.")
ASSUMPTIONS = ["the real patchelf of this machine; a replacement is queued at most once per name before it is applied"]

BASE = {"A": dict(id="A", needed=["liba.so.1", "libb.so.2", "libm.so.6"], rpath="/r0", soname="libA.so", verneed=[["liba.so.1", ["A_1"]], ["libm.so.6", ["GLIBC_2.2.5"]]]),
        "B": dict(id="B", needed=["liba.so.1"], runpath="/q0"),
        "E": dict(id="E", needed=["libb.so.2"], interp="/lib64/ld-linux-x86-64.so.2")}
OPS = {
    "ra": ("rep", "A", ("liba.so.1", "libx-12345678.so.1")), "rb": ("rep", "A", ("libb.so.2", "liby.so")),
    "rab": ("rep", "L", ("liba.so.1", "libxx.so"), ("libb.so.2", "liba.so.1.9")),
    "ma": ("rem", "A", "liba.so.1"), "mm": ("rem", "L", "libm.so.6"), "mno": ("rem", "A", "libnone.so"), "mx": ("rem", "A", "libx-12345678.so.1"),
    "mbm": ("rem", "A", "libb.so.2", "libm.so.6"),
    "s1": ("son", "A", "libA-1.so"), "s2": ("son", "L", "libA-2.so"),
    "p1": ("rp", "A", "$ORIGIN/../pkg.libs"), "p2": ("rp", "L", "$ORIGIN:/r0"), "pe": ("rp", "A", "/r0"), "p0": ("rp", "A", ""),
    "c": ("clr", "A"), "cl": ("clr", "L"), "g": ("get", "A"), "gl": ("get", "L"),
    "mv": ("mv", "A"), "ap": ("apply",),
    "Bra": ("rep", "B", ("liba.so.1", "libx.so")), "Bma": ("rem", "B", "liba.so.1"), "Bp": ("rp", "B", "$ORIGIN/b"), "Bc": ("clr", "B"), "Bg": ("get", "B"),
    "Er": ("rep", "E", ("libb.so.2", "libz9.so")), "Ep": ("rp", "E", "$ORIGIN/e"),
}
FIRST = tuple(OPS)
CONF = [("patchelf", ""), ("patchelf", "manylinux_2_17_x86_64"), ("patchelf", "android_24_x86_64"), ("patchelf", "android_21_x86_64"), ("none", "")]
_blob: dict = {}


def setup():
    world.import_auditwheel()
    import auditwheel.patcher  # noqa: F401

    _blob.update({k: elfgen.build(v) for k, v in BASE.items()})


class Model:
    """abstract state: per file its dynamic entries and its pending edits"""

    def __init__(self, kind, plat):
        self.kind, self.android = kind, plat.startswith("android")
        self.low = self.android and int(plat.split("_")[1]) < 24
        self.f = {}
        for k, v in BASE.items():
            self.f[k] = dict(needed=list(v["needed"]), soname=v.get("soname"), rpath=v.get("rpath"), runpath=v.get("runpath"), ver=sorted({x[0] for x in v.get("verneed", [])}))
        self.q = {}
        self.order = []

    def pend(self, k):
        if k not in self.q:
            self.q[k] = dict(rep=[], rem=[], son=None, rp=None, clr=False)
        return self.q[k]

    def op(self, name, *a):
        """-> (outcome, answer)"""
        if name == "apply":
            if self.kind == "none":
                bad = any(p["rep"] or p["rem"] or p["son"] is not None or p["rp"] is not None or p["clr"] for p in self.q.values())
                self.q = {}
                return ("NotImplementedError" if bad else "ok"), None
            for k, p in self.q.items():
                f = self.f[k]
                f["needed"] = [n for n in f["needed"] if n not in p["rem"]]
                m = dict(p["rep"])
                f["needed"] = [m.get(n, n) for n in f["needed"]]
                f["ver"] = sorted(m.get(n, n) for n in f["ver"])
                if p["son"] is not None:
                    f["soname"] = p["son"]
                if p["rp"] is not None:
                    f["rpath"], f["runpath"] = (None, p["rp"]) if self.android else (p["rp"], None)
                elif p["clr"]:
                    f["rpath"] = f["runpath"] = None
            self.q = {}
            return "ok", None
        k = "A" if a[0] == "L" else a[0]
        if name == "get":
            p = self.q.get(k)
            if p and p["rp"] is not None:
                return "ok", p["rp"]
            if p and p["clr"]:
                return "ok", ""
            if self.kind == "none":
                return "NotImplementedError", None
            return "ok", self.f[k]["runpath"] or self.f[k]["rpath"] or ""
        if name == "mv":
            return "ok", None
        if name == "rep":
            p = self.pend(k)
            if any(x in p["rem"] for pair in a[1:] for x in pair):
                return "ValueError", None
            p["rep"] += a[1:]
        if name == "rem":
            p = self.pend(k)
            if any(x in pair for pair in p["rep"] for x in a[1:]):
                return "ValueError", None
            p["rem"] += a[1:]
        if name == "son":
            self.pend(k)["son"] = a[1]
        if name == "rp":
            if self.low:
                return "ValueError", None
            self.pend(k)["rp"] = a[1]
        if name == "clr":
            self.pend(k)["clr"] = True
        return "ok", None

    def possible(self, name, *a):
        """not: a second replacement of one name"""
        if name == "rep":
            k = "A" if a[0] == "L" else a[0]
            old = {x[0] for x in self.q.get(k, {"rep": []})["rep"]}
            return not old & {x[0] for x in a[1:]}
        return True


def setup_files(d: Path):
    for k, b in _blob.items():
        (d / f"{k}.so").write_bytes(b)
    for p in ("L.so",):
        if not (d / p).is_symlink():
            (d / p).symlink_to("A.so")


def sequence(d: Path, kind, plat, seq, viols, states):
    from auditwheel.patcher import ElfPatcher

    for x in d.iterdir():
        x.unlink()
    setup_files(d)
    p = ElfPatcher.get_patcher(kind, plat)
    m = Model(kind, plat)
    where = {"A": d / "A.so", "L": d / "L.so", "B": d / "B.so", "E": d / "E.so"}
    moved = 0
    n = 0

    def same(applied):
        for k in BASE:
            e = elfread.read(where[k].read_bytes())
            f = m.f[k]
            got = dict(needed=e.needed, soname=e.soname, rpath=e.rpath, runpath=e.runpath, ver=sorted({x[0] for x in e.verneed}))
            # an empty search path is as good as none
            if any((got[x] or None) != (f[x] or None) for x in f):
                viols.append(("content", f"{kind}/{plat} {seq}: {k} is {got}, expected {f}"))

    for name in [*seq, "ap", "ap"]:
        op = OPS[name]
        if not m.possible(*op):
            return None
        n += 1
        before = {k: (where[k].stat().st_mtime_ns, where[k].stat().st_ino, where[k].read_bytes()) for k in BASE}
        pend = {k for k in m.q}
        exp, ans = m.op(*op)
        got, val = "ok", None
        try:
            f = where.get(op[1]) if len(op) > 1 else None
            match op[0]:
                case "rep":
                    p.replace_needed(f, *op[2:])
                case "rem":
                    p.remove_needed(f, *op[2:])
                case "son":
                    p.set_soname(f, op[2])
                case "rp":
                    p.set_rpath(f, op[2])
                case "clr":
                    p.clear_rpath(f)
                case "get":
                    val = p.get_rpath(f)
                case "mv":
                    moved += 1
                    new = d / f"A{moved}.so"
                    old = where["A"]
                    # like the rename of a file in a wheel: a copy that takes over
                    new.write_bytes(old.read_bytes())
                    p.update_elf_path(old, new)
                    where["A"] = new
                    where["L"].unlink()
                    where["L"].symlink_to(new.name)
                case "apply":
                    p.apply_updates()
        except (ValueError, NotImplementedError) as e:
            got = type(e).__name__
        if got != exp:
            viols.append(("outcome", f"{kind}/{plat} {seq}: {name} gives {got}, expected {exp}"))
        if op[0] == "get" and got == "ok" and val != ans:
            viols.append(("answer", f"{kind}/{plat} {seq}: search path answered {val!r}, expected {ans!r}"))
        if op[0] == "apply":
            same(True)
        for k in BASE:
            st = (where[k].stat().st_mtime_ns, where[k].stat().st_ino, where[k].read_bytes())
            if op[0] == "mv" and k == "A":
                continue
            touched = op[0] == "apply" and k in pend and kind != "none"
            if not touched and st != before[k]:
                viols.append(("touched", f"{kind}/{plat} {seq}: {name} changes {k}"))
        states.add(repr((sorted((k, repr(v)) for k, v in m.q.items()), sorted((k, repr(v)) for k, v in m.f.items()))))
        if viols:
            return n
    return n


VERSIONS = [("patchelf 0.14.5", 1), ("patchelf 0.14.4", 0), ("patchelf 0.14.10", 1), ("patchelf 0.9", 0), ("patchelf 0.15.0", 1), ("patchelf 0.14", 0), ("patchelf 0.13.9", 0), ("patchelf 1.0", 1),
            ("patchelf 0.18.0", 1), ("patchelf 0.17.2.20230101", 1), ("patchelf 0.100", 1), ("patchelf 0", 0), ("patchelf 1", 1), ("", 0), ("0.18.0", 0), ("lief 0.18", 0), ("patchelf x", 0), ("patchelf 0.8.20170101", 0), (None, 0), ("fail", 0)]


def cases(tier):
    # a prefix of the sequence per case; all continuations are explored in it
    pre = 2
    for i, (kind, plat) in enumerate(CONF):
        rest = 1 if tier == "quick" else 2
        if i > 1 and tier == "quick":
            rest = 1
        if i == 1 and tier == "quick":
            continue
        for pr in itertools.product(FIRST, repeat=pre):
            yield {"kind": kind, "plat": plat, "prefix": list(pr), "rest": rest}
    # longer ones over the operations that interact
    core = ["ra", "ma", "p1", "c", "g", "mv", "ap", "rb"]
    n = 4 if tier == "quick" else 6
    for pr in itertools.product(core, repeat=n - 2):
        yield {"kind": "patchelf", "plat": "", "prefix": list(pr), "rest": 2, "core": core}
    for v, _ in VERSIONS:
        yield {"kind": "version", "version": v}


def run_version(c):
    v = c["version"]
    ok = dict(VERSIONS)[v]
    s = {"wheels": [], "sys": {"A.so": world.elf(**BASE["A"])}}
    if v is None:
        s["no_tools"] = ["patchelf"]
    elif v == "fail":
        s["bin"] = {"patchelf": "#!/bin/bash\nexit 3\n"}
    else:
        s["bin"] = {"patchelf": f"#!/bin/bash\nif [ \"$1\" = --version ]; then echo '{v}'; else echo '/from/fake'; fi\n"}

    with Box(s) as b:
        def fn():
            from auditwheel.patcher import ElfPatcher

            p = ElfPatcher.get_patcher("patchelf", "")
            return 0, p.get_rpath(Path(b.root) / "sys/A.so")

        r = b.run(fn, timeout=30)
    viol = []
    if (r.rc == 0) != bool(ok) or (r.rc != 0 and not str(r.rc).startswith("exc:ValueError")):
        viol.append(("version", f"patchelf that says {v!r}: {r.rc}, expected {'accepted' if ok else 'ValueError'}"))
    elif ok and r.extra != "/from/fake":
        viol.append(("version", f"answer {r.extra!r}"))
    return CR(viol, [f"{v}{r.rc}"[:80]], 1, 1, True, str(r.rc)[:80])


def run_case(c):
    if c["kind"] == "version":
        return run_version(c)
    alpha = c.get("core") or FIRST
    with Box({"wheels": [], "sys": {}}) as b:
        def fn():
            d = Path(b.root) / "run" / "elf"
            d.mkdir()
            viols, states, tr, runs = [], set(), 0, 0
            for suf in itertools.product(alpha, repeat=c["rest"]):
                n = sequence(d, c["kind"], c["plat"], [*c["prefix"], *suf], viols, states)
                if n is not None:
                    tr += n
                    runs += 1
                if len(viols) > 5:
                    break
            return 0, (viols, sorted(states), tr, runs)

        r = b.run(fn, timeout=600)
    if r.rc != 0:
        return CR([("crash", f"{c}: {r.rc} {(r.extra or r.err)[-600:]}")], [], 0, 1, False, "")
    v, st, tr, runs = r.extra
    return CR(v, st, tr, runs, bool(runs), f"{runs} sequences")


def bounds(tier):
    return {"operations": list(OPS), "sequence length": "3 over all, 4 over 8 operations, then apply twice" if tier == "quick" else "4 over all, 6 over 8 operations, then apply twice",
            "patchers and platforms": [f"{a} {b}" for a, b in CONF], "patchelf versions": len(VERSIONS)}
