"""Run one repair world on the real tool and record everything observable."""

from __future__ import annotations

import os
import posixpath
from dataclasses import dataclass, field
from pathlib import Path

from mc import elfread, menu, ref, world
from mc.world import Box, content, subst, wheel_filename, wheel_members


@dataclass
class Obs:
    names: tuple
    spec: dict
    argv: list
    res: world.Result
    src: world.Wheel
    outs: list
    before: dict  # digests of the whole box
    after: dict
    outdir: str
    root: str
    tmp: list
    extra: dict = field(default_factory=dict)

    @property
    def ok(self) -> bool:
        return self.res.rc == 0

    @property
    def out(self):
        return self.outs[0] if len(self.outs) == 1 else None

    # -- reference objects, built lazily --

    def machine(self) -> ref.Machine:
        s = self.spec
        fs = ref.FS(real=ref.HOST)
        for rel, f in s["sys"].items():
            p = f"{self.root}/sys/{rel}"
            fs.add(p, ("link", f["to"]) if f["kind"] == "link" else content(f))
        env = [d for k in ("AUDITWHEEL_LD_LIBRARY_PATH",) for d in s["env"].get(k, "").split(":") if d]
        if s["ldpaths"] is None:
            env += [d for d in s["env"].get("LD_LIBRARY_PATH", "").split(":") if d]
            conf = ref.host_conf_dirs()
        else:
            conf = s["ldpaths"]
        norm = lambda l: [posixpath.normpath(x) for x in l]
        return ref.Machine(fs, norm(env), norm(conf))

    def specs(self) -> dict:
        return {n: f["elf"] for n, f in self.spec["wheels"][0]["files"].items() if f["kind"] == "elf"}

    def sysspec(self, real: str) -> dict:
        pfx = f"{self.root}/sys/"
        f = self.spec["sys"].get(real[len(pfx):]) if real.startswith(pfx) else None
        return f["elf"] if f and f["kind"] == "elf" else {}

    def analysis(self) -> ref.WheelRef:
        if "analysis" not in self.extra:
            m = self.machine()
            root = f"{self.root}/tmp/W"
            for n, d in self.src.data.items():
                m.fs.add(f"{root}/{n}", d)
            rec = set(recorded(self.src))
            self.extra["analysis"] = ref.analyse(m, root, self.src.data, self.specs(), self.spec["exclude"],
                                                 self.spec.get("libc", "glibc"), self.spec.get("arch", "x86_64"), rec)
        return self.extra["analysis"]

    def verdict(self) -> ref.Verdict:
        if "verdict" not in self.extra:
            self.extra["verdict"] = ref.judge(self.analysis(), self.specs(), self.sysspec, self.spec.get("noisa", False))
        return self.extra["verdict"]

    def decision(self):
        if "decision" not in self.extra:
            d = ref.decide(self.verdict(), self.spec["plat"], self.spec.get("only_plat", False))
            if d[0] == "ok":
                allx = self.analysis().ext(d[1][0], list(self.analysis().elfs))
                miss = [n for n, p in allx.items() if p is None and not ref.LIBPYTHON.match(n)]
                if self.spec.get("patcher") == "none" and allx:
                    d = ("error", "no patcher")
                if miss:
                    d = ("error", "missing " + ",".join(sorted(miss)))
            self.extra["decision"] = d
        return self.extra["decision"]


def recorded(w: world.Wheel) -> list[str]:
    import csv
    import io

    name = next(n for n in w.data if n.endswith(".dist-info/RECORD") and n.count("/") == 1)
    return [r[0] for r in csv.reader(io.StringIO(w.data[name].decode(), newline="")) if r]


def as_wheel(w: dict) -> world.Wheel:
    o = world.Wheel(wheel_filename(w), [], {}, {}, [], "")
    for d in w["dirs"]:
        o.order.append(d.rstrip("/") + "/")
        o.mode[d.rstrip("/") + "/"] = 0o40755
    mem = wheel_members(w)
    for n, d, mode in mem[::-1] if w.get("archive_order") == "reverse" else mem:
        o.order.append(n)
        o.data[n] = d
        o.mode[n] = 0 if mode is None else 0o100000 | mode
    return o


def observe(names, spec=None, argv=None, keep=None, timeout=60, post=None) -> Obs:
    """keep(box, obs): optional further work while the box exists"""
    spec = spec or menu.make(names)
    with Box(spec) as b:
        a = argv or menu.argv(spec)
        a = subst(a, b.map)
        outdir = subst(spec.get("outdir", "{OUT}"), b.map)
        before = world.tree_digest(b.root)
        r = b.run(a, timeout=timeout)
        after = world.tree_digest(b.root)
        outs = []
        pre = outdir[len(b.root) + 1:]
        if os.path.isdir(outdir):
            for p in sorted(Path(outdir).iterdir()):
                rel = f"{pre}/{p.name}"
                if before.get(rel) != after.get(rel) and not p.is_dir():
                    outs.append(world.read_wheel(p))
        o = Obs(tuple(names), b.spec, a, r, as_wheel(b.spec["wheels"][0]), outs, before, after, pre, b.root, b.tmp_left())
        if keep:
            keep(b, o)
    return o


def elfs_of(w: world.Wheel) -> dict[str, elfread.Elf]:
    return {n: elfread.read(d) for n, d in w.data.items() if elfread.is_elf(d) and len(d) > 52}


def installed(w: world.Wheel) -> dict[str, str]:
    """member -> installed path (platlib under /I/site, scripts under /I/bin)"""
    out = {}
    for n in w.data:
        parts = n.split("/")
        if len(parts) > 2 and parts[0].endswith(".data"):
            base = {"platlib": "/I/site", "purelib": "/I/site", "scripts": "/I/bin", "headers": "/I/include",
                    "data": "/I"}.get(parts[1], "/I/x")
            out[n] = base + "/" + "/".join(parts[2:])
        else:
            out[n] = "/I/site/" + n
    return out
