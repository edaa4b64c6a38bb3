"""C29: wheels without ELF files, and --allow-pure-python-wheel."""

from __future__ import annotations

import itertools
import json
import os
from pathlib import Path

from mc import world
from mc.explore import CR
from mc.world import Box, elf, text

ID, LEVEL = "C29", "model_checking"
RULE = ("Every combination of file name tags, content (no ELF file, things that only look like one, an ELF file that does not count, one below a purelib folder, one that counts), option, place of the output and what is already there is executed on the real command line, "
        "and every sequence of such wheels with a platform wheel in one command. The oracle says for each: repaired, copied unchanged, or refused. A state is (wheel kind, option, outcome, output); a transition is one command.")
ASSUMPTIONS = ["zip archives of a few kilobytes"]
X = {"machine": "x86_64", "needed": ["libc.so.6"], "verneed": [], "symbols": [["PyInit_e", True, "global", "func"]]}
NAMES = {"any": "any", "linux": "linux_x86_64", "any+linux": "any.linux_x86_64", "foo": "linux_foo", "win": "win_amd64", "many": "manylinux_2_17_x86_64"}
# content: (class, files)
CONT = {
    "empty": ("none", {}),
    "py": ("none", {"pkg/a.py": text("y = 1\n")}),
    "textso": ("none", {"pkg/e.abi3.so": text("not ELF\n"), "pkg/e.so": text("")}),
    "short": ("none", {"pkg/e.so": {"kind": "text", "data": "\x7fELF", "mode": 0o644}}),
    "archive": ("none", {"pkg/lib.a": text("!<arch>\n")}),
    "macho": ("none", {"pkg/e.abi3.so": text("\x7f\x45\x4c")}),
    "pyelf": ("none", {"pkg/e.py": elf(id="e", **X)}),
    "arm": ("foreign", {"pkg/e.abi3.so": elf(id="e", **{**X, "machine": "armv7l", "eflags": 0x05000200})}),
    "mips": ("foreign", {"pkg/e.abi3.so": elf(id="e", **{**X, "machine": "mips"})}),
    "purelib": ("purelib", {"pkg-1.0.data/purelib/pkg/e.abi3.so": elf(id="e", **X)}),
    "purelib2": ("purelib", {"pkg/f.abi3.so": elf(id="f", **X), "pkg-1.0.data/purelib/e.abi3.so": elf(id="e", **X)}),
    "purelib3": ("purelib", {"pkg-1.0.data/purelib/e.abi3.so": elf(id="e", **X), "pkg/f.abi3.so": elf(id="f", **X)}),
    "purelibm": ("purelib", {"pkg-1.0.data/purelib/e.abi3.so": elf(id="e", **{**X, "machine": "mips"})}),
    "puretext": ("none", {"pkg-1.0.data/purelib/pkg/a.py": text("z = 1\n"), "pkg-1.0.data/purelib/pkg/e.so": text("no\n")}),
    "pureplat": ("ok", {"pkg-1.0.data/purelib/pkg/a.py": text("z = 1\n"), "pkg-1.0.data/platlib/pkg/e.abi3.so": elf(id="e", **X)}),
    "near": ("ok", {"pkg/purelib2/e.abi3.so": elf(id="e", **X), "pkg/purelib.py": text("")}),
    "ext": ("ok", {"pkg/e.abi3.so": elf(id="e", **X)}),
    "lib": ("ok", {"pkg/libe.so.1": elf(id="e", machine="x86_64", needed=["libc.so.6"], verneed=[], symbols=[["f", True, "global", "func"]])}),
    "exe": ("ok", {"pkg/bin/tool": elf(id="e", machine="x86_64", needed=["libc.so.6"], verneed=[], type="exec", interp="/lib64/ld-linux-x86-64.so.2", symbols=[])}),
    "static": ("ok", {"pkg/bin/tool": elf(id="e", machine="x86_64", needed=[], verneed=[], type="exec", nodyn=True, symbols=[])}),
    "script": ("ok", {"pkg-1.0.data/scripts/tool": elf(id="e", machine="x86_64", needed=["libc.so.6"], verneed=[], type="exec", interp="/lib64/ld-linux-x86-64.so.2", symbols=[])}),
    "data": ("ok", {"pkg-1.0.data/data/lib/libe.so": elf(id="e", machine="x86_64", needed=["libc.so.6"], verneed=[], symbols=[["f", True, "global", "func"]])}),
}
PLACES = ("out", "same", "there", "link", "hard")
EXTRA = {"": [], "upd": ["--no-update-tags"], "plat": ["--plat", "manylinux_2_35_x86_64"], "strip": ["--strip"], "lib": ["--lib-sdir", "/x"], "v": []}


def setup():
    world.import_auditwheel()


def cases(tier):
    for n in NAMES:
        for c in CONT:
            for allow in (False, True):
                yield {"kind": "show", "name": n, "cont": c, "allow": allow}
                for place in PLACES if tier == "thorough" or n in ("any", "linux") else PLACES[:1]:
                    yield {"kind": "repair", "name": n, "cont": c, "allow": allow, "place": place, "extra": ""}
                if tier == "thorough" or n in ("any", "linux"):
                    for e in EXTRA:
                        if e and e != "lib":
                            yield {"kind": "repair", "name": n, "cont": c, "allow": allow, "place": "out", "extra": e}
    W = [("any", "py"), ("any", "ext"), ("linux", "ext"), ("linux", "py"), ("any", "purelib"), ("any", "mips")]
    for k in (2, 3) if tier == "quick" else (2, 3, 4):
        for seq in itertools.product(W, repeat=k):
            for allow in (False, True):
                yield {"kind": "seq", "seq": [list(x) for x in seq], "allow": allow}


def wheel(n, c, i=0, mode=None):
    w = world.default_wheel(name=f"pkg{i}" if i else "pkg")
    w["plat"] = NAMES[n]
    if n == "any":
        w["py"], w["abi"], w["purelib"] = "py3", "none", "true"
    d = f"{w['name']}-1.0.data/"
    w["files"] = {p.replace("pkg-1.0.data/", d): f for p, f in {"pkg/__init__.py": text("x = 1\n"), **CONT[c][1]}.items()}
    return w


def outcome(n, c, allow, plat=False):
    k = CONT[c][0]
    if k in ("none", "foreign"):
        return "copied" if allow and n == "any" else "refused"
    if k == "purelib":
        return "refused"
    return "ok"


def run_case(c):
    v = []
    if c["kind"] == "seq":
        ws = [wheel(n, k, i + 1) for i, (n, k) in enumerate(c["seq"])]
        with Box({"wheels": ws, "sys": {"lib/.k": text("")}}) as b:
            src = {p.name: p.read_bytes() for p in b.wheels}
            r = b.run(["repair", "-w", "{OUT}", "--ldpaths", "{SYS}/lib", *(["--allow-pure-python-wheel"] if c["allow"] else []), *map(str, b.wheels)])
            got = {p.name: p.read_bytes() for p in Path(b.root, "out").iterdir()}
            after = {p.name: p.read_bytes() for p in b.wheels}
        exp, bad = [], False
        for w, (n, k) in zip(ws, c["seq"]):
            o = outcome(n, k, c["allow"])
            if o == "refused":
                bad = True
                break
            exp.append((w, o))
        if (r.rc in (0, None)) == bad:
            v.append(("status", f"{r.rc}, a wheel is refused: {bad}"))
        if len(got) != len(exp):
            v.append(("output", f"{sorted(got)} instead of {len(exp)} wheels"))
        for w, o in exp:
            f = world.wheel_filename(w)
            if o == "copied" and got.get(f) != src[f]:
                v.append(("copy", f"{f} is not copied unchanged"))
            if o == "ok" and not any(g.startswith(w["name"] + "-") and "manylinux" in g for g in got):
                v.append(("output", f"{f} is not repaired: {sorted(got)}"))
        if after != src:
            v.append(("source", "an input wheel was changed"))
        st = f"{c['seq']} {c['allow']} {r.rc if isinstance(r.rc, int) else 'exc'} {sorted(got)}"
        return CR(v, [st], 1, 1, True, st[:150])
    n, k = c["name"], c["cont"]
    w = wheel(n, k)
    o = outcome(n, k, c["allow"])
    opt = ["--allow-pure-python-wheel"] if c["allow"] else []
    f = world.wheel_filename(w)
    with Box({"wheels": [w], "sys": {"lib/.k": text("")}}) as b:
        p = b.wheels[0]
        p.chmod(0o640)
        os.utime(p, (1600000000, 1600000000))
        raw = p.read_bytes()
        if c["kind"] == "show":
            r1 = b.run(["show", "--json", "--ldpaths", "{SYS}/lib", *opt, str(p)])
            r2 = b.run(["show", "--ldpaths", "{SYS}/lib", *opt, str(p)])
            want = o != "refused"
            for r in (r1, r2):
                if (r.rc == 0) != want:
                    v.append(("status", f"show: {r.rc}, {o}"))
            if CONT[k][0] != "purelib":
                try:
                    j = json.loads(r1.out)
                except ValueError:
                    j = None
                    v.append(("json", f"not one JSON document: {r1.out[-200:]!r}"))
                if j is not None:
                    keys = set(j)
                    if j.get("version") != 1 or j.get("wheel") != f:
                        v.append(("json", f"{j}"))
                    if o == "copied" and (keys != {"version", "wheel", "pure"} or j["pure"] is not True):
                        v.append(("json", f"pure wheel: {j}"))
                    if o == "refused" and (keys != {"version", "wheel", "error"} or not j["error"]):
                        v.append(("json", f"refusal: {j}"))
                    if o == "ok" and (j.get("pure") is not False or not j.get("overall_tag")):
                        v.append(("json", f"platform wheel: {j}"))
                    if CONT[k][0] == "foreign" and n in ("linux", "many") and o == "refused" and "e.abi3.so" not in j["error"]:
                        v.append(("json", f"does not name the file: {j}"))
            if p.read_bytes() != raw or os.listdir(f"{b.root}/out") or os.listdir(f"{b.root}/run"):
                v.append(("source", "show changed a file"))
            st = f"{c} {r1.rc if isinstance(r1.rc, int) else 'exc'} {r1.out[:100]}"
            return CR(v, [st], 2, 2, True, st[:150])
        out = {"same": f"{b.root}/in"}.get(c["place"], f"{b.root}/out")
        dst = Path(out, f)
        if c["place"] == "there":
            dst.write_bytes(b"old")
        if c["place"] == "link":
            dst.symlink_to(p)
        if c["place"] == "hard":
            os.link(p, dst)
        a = ["-v"] if c["extra"] == "v" else []
        r = b.run([*a, "repair", "-w", out, "--ldpaths", "{SYS}/lib", *EXTRA[c["extra"]], *opt, str(p)])
        if (r.rc == 0) != (o != "refused"):
            v.append(("status", f"{r.rc}, {o}: {r.err[-300:]}"))
        names = sorted(os.listdir(out))
        if o == "refused":
            was = {"out": [], "same": [f]}.get(c["place"], [f])
            if names != was or (c["place"] == "there" and dst.read_bytes() != b"old"):
                v.append(("output", f"refused, but {names}"))
        elif o == "copied":
            if names != [f] or dst.read_bytes() != raw:
                v.append(("copy", f"{names}, unchanged: {dst.exists() and dst.read_bytes() == raw}"))
            elif c["place"] in ("out", "there") and (dst.stat().st_mode & 0o777) != 0o640:
                v.append(("copy", f"permissions of the copy {dst.stat().st_mode:o}"))
            if c["place"] == "link" and not dst.is_symlink():
                v.append(("copy", "the link to the wheel itself was replaced"))
        else:
            tagged = [x for x in names if "manylinux" in x]
            if c["extra"] != "upd" and not tagged and CONT[k][0] == "ok":
                v.append(("output", f"not repaired: {names}"))
            if c["extra"] == "upd" and names != [f]:
                v.append(("output", f"--no-update-tags: {names}"))
        inplace = n == "many" and o == "ok" and c["place"] in ("same", "link", "hard") or (o == "ok" and c["extra"] == "upd" and c["place"] == "same")
        if p.read_bytes() != raw and not inplace and c["place"] != "same":
            v.append(("source", "the input wheel was changed"))
        if c["place"] == "same" and o != "ok" and p.read_bytes() != raw:
            v.append(("source", "the input wheel was changed"))
        left = b.tmp_left()
        if left or any(x.startswith(".") for x in names):
            v.append(("leftover", f"{left} {names}"))
    st = f"{c} {r.rc if isinstance(r.rc, int) else 'exc'} {names}"
    return CR(v, [st], 1, 1, True, st[:150])


def bounds(tier):
    return {"file names": list(NAMES), "contents": list(CONT), "places": list(PLACES), "sequences": "of 2 and 3 wheels out of 6" if tier == "quick" else "of 2 to 4 wheels out of 6"}
