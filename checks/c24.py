"""C24: command line before environment before default."""

from __future__ import annotations

import itertools
import zipfile
import zlib

from mc import menu, ref, world
from mc.explore import CR
from mc.world import Box, elf, text

ID, LEVEL = "C24", "model_checking"
RULE = ("Every pair of a value of the command line option and a value of its environment variable (unset, empty, every valid one, invalid ones), for --plat, -z and --patcher, and every combination of the three at their main values, is executed on the real command line for a wheel that needs edits and one that does not. "
        "The effective value is computed by precedence; the result is compared with the command line that states it explicitly, and with absolute facts (tags, the size zlib gives each member, whether edits are possible). A state is (effective values, outcome).")
ASSUMPTIONS = ["the optional lief-patchelf is not installed"]
PLAT = ["auto", "manylinux_2_35_x86_64", "manylinux2014_x86_64", "manylinux_2_17_x86_64", "manylinux1_x86_64"]
BADPLAT = ["foo", "", "musllinux_1_2_x86_64", "manylinux_2_17_aarch64", " manylinux_2_35_x86_64", "MANYLINUX1_X86_64", "linux_x86_64", "auto,manylinux1_x86_64"]
ZIP = [str(i) for i in range(10)]
BADZIP = ["-1", "10", "x", "", "1.0", "0x1", "99999999999999999999"]
PATCHER = ["patchelf", "none", "lief-patchelf"]
BADPATCHER = ["", "foo", "Patchelf", "patchelf "]
ENV = ("AUDITWHEEL_PLAT", "AUDITWHEEL_ZIP_COMPRESSION_LEVEL", "AUDITWHEEL_PATCHER")
OPT = ("--plat", "-z", "--patcher")
OPTS = (PLAT, ZIP, PATCHER)
BAD = (BADPLAT, BADZIP, BADPATCHER)
DEF = ("auto", None, "patchelf")


def setup():
    world.import_auditwheel()


def cases(tier):
    n = (None, None, None)

    def put(i, x):
        return [*n[:i], x, *n[i + 1:]]

    for i in range(3):
        for e in [None, *OPTS[i], *BAD[i]]:
            for c in [None, *OPTS[i], *BAD[i]]:
                if c in BAD[i] and e is not None:
                    continue
                for w in ("edit", "plain"):
                    if i == 1 and w == "plain" and tier == "quick":
                        continue
                    yield {"env": put(i, e), "cli": put(i, c), "wheel": w}
    vals = ([None, "manylinux_2_35_x86_64", "foo"], [None, "0", "9", "x"], [None, "none", "patchelf"])
    if tier == "thorough":
        vals = ([None, "manylinux_2_35_x86_64", "manylinux1_x86_64", "auto", "foo"], [None, "0", "9", "6", "", "x"], [None, "none", "patchelf", "lief-patchelf", ""])
    cvals = ([None, "manylinux_2_17_x86_64"], [None, "1"], [None, "none", "patchelf"])
    for e in itertools.product(*vals):
        for c in itertools.product(*cvals):
            for w in ("edit", "plain"):
                yield {"env": list(e), "cli": list(c), "wheel": w}


def spec(kind):
    if kind == "edit":
        s = menu.make(())
    else:
        s = menu.base()
        s["sys"] = {"lib/.k": text("")}
        f = s["wheels"][0]["files"]
        f[menu.EXT] = elf(id="ext", needed=["libc.so.6"], verneed=[["libc.so.6", ["GLIBC_2.2.5"]]], symbols=menu.PYI, machine="x86_64")
    f = s["wheels"][0]["files"]
    f["pkg/big.txt"] = {"kind": "big", "data": "abcdefghij klmno pqrst uvwxyz 0123456789 the quick brown fox ", "size": 6000, "mode": 0o644}
    f["pkg/mix.txt"] = text("".join(f"{i * i * 7919 % 1009} {i % 13}\n" for i in range(1500)))
    s["env"]["SOURCE_DATE_EPOCH"] = "1600000000"
    return s


def run_one(s, env, cli):
    e = {k: v for k, v in zip(ENV, env) if v is not None}
    a = [x for o, v in zip(OPT, cli) if v is not None for x in ([f"{o}={v}"] if o.startswith("--") else [f"{o}{v}"])]
    with Box(s) as b:
        r = b.run(["repair", "-w", "{OUT}", "--ldpaths", "{SYS}/lib", *a, str(b.wheels[0])], env=e)
        o = b.outputs()
        comp = []
        for w in o:
            with zipfile.ZipFile(f"{b.root}/out/{w.filename}") as z:
                comp = [(i.filename, i.compress_type, i.compress_size, z.read(i)) for i in z.infolist() if not i.is_dir()]
    return r, o, comp


def run_case(c):
    s = spec(c["wheel"])
    eff = [x if x is not None else y if y is not None else d for x, y, d in zip(c["cli"], c["env"], DEF)]
    bad = any(v in BAD[i] for i in range(3) for v in (c["cli"][i], c["env"][i]) if v is not None)
    r, o, comp = run_one(s, c["env"], c["cli"])
    v = []
    st = f"{eff} {c['wheel']} {bad} {r.rc if isinstance(r.rc, int) else 'exc'} {[w.filename for w in o]}"
    refuse = bad or eff[2] == "lief-patchelf" or (eff[2] == "none" and c["wheel"] == "edit")
    if refuse:
        if r.rc in (0, None) or o:
            v.append(("accepted", f"effective {eff}: {r.rc} {[w.filename for w in o]}"))
        return CR(v, [st], 1, 1, True, st)
    if r.rc != 0 or len(o) != 1:
        v.append(("refused", f"effective {eff}: {r.rc} {r.err[-300:]}"))
        return CR(v, [st], 1, 1, True, st)
    tags = o[0].plat.split(".")
    p = next((p for p in ref.policies("glibc", "x86_64") if eff[0] in (p.name, *p.aliases)), None)
    if p and p.name not in tags:
        v.append(("plat", f"effective {eff[0]}: {tags}"))
    lvl = -1 if eff[1] is None else int(eff[1])
    for n, t, size, data in comp:
        z = zlib.compressobj(lvl, zlib.DEFLATED, -15)
        want = len(z.compress(data) + z.flush())
        if t != zipfile.ZIP_DEFLATED or size != want:
            v.append(("level", f"{n}: method {t}, {size} bytes; level {lvl} gives {want}"))
            break
    r2, o2, _ = run_one(s, (None, None, None), eff if eff[1] is not None else [eff[0], None, eff[2]])
    if r2.rc != 0 or [(w.filename, w.raw_sha) for w in o2] != [(w.filename, w.raw_sha) for w in o]:
        v.append(("differs", f"effective {eff}: {[w.filename for w in o]} but explicitly {r2.rc} {[w.filename for w in o2]}"))
    return CR(v, [st], 2, 2, True, st)


def bounds(tier):
    return {"values": {e: [None, *OPTS[i], *BAD[i]] for i, e in enumerate(ENV)}, "combinations": "all pairs of command line and environment per option; all combinations of the main values of the three"}
