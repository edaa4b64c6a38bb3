"""C19: the software bill of materials of the grafted libraries."""

from __future__ import annotations

import base64
import hashlib
import itertools
import json
from importlib import metadata

from mc import menu, world
from mc.explore import CR
from mc.world import Box, elf, text

ID, LEVEL = "C19", "model_checking"
RULE = ("Every combination of the package manager of the build machine (none, dpkg, rpm, apk, apt-file, dpkg with apt-file as fallback; stand-ins that answer from a table in the manager's own format), who owns each of up to three libraries (nobody, one package, a shared one, names and versions with every kind of special character), "
        "which libraries are grafted, wheel name and version, and failures of the manager is executed on the real command line; the SBOM in the output is compared field by field with one computed from the table. A state is the SBOM.")
ASSUMPTIONS = ["the package managers are stand-ins that answer in the format of the real ones; only one of dpkg, rpm and apk is on the machine; /etc/os-release is that of the sandbox"]
PK = {  # owner: (package, version) per manager
    "-": None,
    "p": {"deb": ("libfoo1", "1.2-3"), "rpm": ("libfoo", ("1.2", "3.el8")), "apk": ("libfoo", "1.2-r3")},
    "q": {"deb": ("libbar-dev", "1:2.3~rc1+b1-0ubuntu1.1"), "rpm": ("bar-libs", ("2.3~rc1", "1.el8_6.2")), "apk": ("xz-libs", "5.4.5-r0")},
    "r": {"deb": ("libstdc++6", "13.2.0-23ubuntu4"), "rpm": ("libstdc++", ("8.5.0", "20.el8^git")), "apk": ("libstdc++", "13.2.1_git20231014-r0")},
    "d": {"deb": ("g++-13-lib32", "4:13~x"), "rpm": ("a.b_c-d-e", ("1", "0.1")), "apk": ("so-a-b2-c", "0.1_rc2-r12")},
}
MGR = ("none", "dpkg", "rpm", "apk", "apt", "dpkg+apt", "broken")
BAD = ("version", "fail", "garbage", "empty", "bytes", "noexec", "kill")  # what can be wrong with a manager
LIBS = ("a", "b", "c")
PATH = {"a": "lib/liba.so.1", "b": "lib/libb.so.2", "c": "lib/c++/libc c.so"}
WHEELS = {"plain": {}, "plus": {"ver": "1.0+cu118.x"}, "name": {"name": "My_pkg.x"}, "build": {"build": "1abc"}, "epoch": {"ver": "1!2.0"}}


def distro():
    for l in open("/etc/os-release"):
        if l.startswith("ID="):
            return l.strip()[3:].strip('"')
    return None


def setup():
    world.import_auditwheel()


def cases(tier):
    full = tier == "thorough"
    for m in MGR:
        for own in itertools.product(PK, repeat=3):
            if not full and len({*own} - {"-"}) == 3 and own[0] != "p":
                continue
            yield {"mgr": m, "own": own, "need": "abc", "wheel": "plain", "opt": ""}
        for w in WHEELS:
            for own in (("p", "q", "-"), ("r", "r", "d"), ("-", "-", "-")):
                for need in ("", "a", "ab", "abc", "b2", "excl"):
                    for opt in ("", "strip", "noupd", "only"):
                        if opt and w != "plain" and not full:
                            continue
                        yield {"mgr": m, "own": own, "need": need, "wheel": w, "opt": opt}
        for own in (("p", "q", "r"), ("p", "p", "-"), ("-", "d", "q")):
            for f in ("version", "fail", "garbage", "extra", "empty", "show", "sboms", "multi", "again", "bytes", "noexec", "kill", *(x + "1" for x in BAD if m == "dpkg+apt")):
                yield {"mgr": m, "own": own, "need": "abc", "wheel": "plain", "opt": f}


def spec(c):
    s = menu.base()
    need = {"": [], "a": ["a"], "ab": ["a", "b"], "abc": ["a", "b", "c"], "b2": ["b"], "excl": ["a", "b"]}[c["need"]]
    w = s["wheels"][0]
    w.update(WHEELS[c["wheel"]])
    son = {"a": "liba.so.1", "b": "libb.so.2", "c": "libc c.so"}
    s["sys"] = {PATH[x]: elf(id=x, soname=son[x], needed=["libc.so.6"], verneed=[], machine="x86_64") for x in LIBS}
    e = {"needed": [*[son[x] for x in need], "libc.so.6"], "verneed": [], "machine": "x86_64"}
    w["files"] = {"pkg/__init__.py": text("x = 1\n"), "pkg/ext.abi3.so": elf(id="ext", symbols=[["PyInit_ext", True, "global", "func"]], **e)}
    if c["need"] == "b2":  # two files need the same library
        w["files"]["pkg/ext2.abi3.so"] = elf(id="ext2", symbols=[["PyInit_ext2", True, "global", "func"]], **e)
    if c["opt"] == "sboms":
        w["dist_files"]["sboms/other.cdx.json"] = text("{}\n")
    grafted = [x for x in need if not (c["need"] == "excl" and x == "b")]
    args = ["--exclude", "libb.so.2"] if c["need"] == "excl" else []
    args += {"strip": ["--strip"], "noupd": ["--no-update-tags"], "only": ["--only-plat", "--plat", "manylinux_2_35_x86_64"]}.get(c["opt"], [])
    s["env"]["SOURCE_DATE_EPOCH"] = "1600000000"
    kind = {"dpkg": "deb", "apt": "deb", "dpkg+apt": "deb", "rpm": "rpm", "apk": "apk"}.get(c["mgr"])
    s["bin"] = scripts(c, kind)
    s["no_tools"] = []
    return s, grafted, args, kind


def scripts(c, kind):
    """stand-ins for the package managers"""
    if c["opt"].endswith("1"):  # only dpkg is in trouble, apt-file knows
        good = scripts({**c, "opt": ""}, kind)
        return {**good, "dpkg": scripts({**c, "opt": c["opt"][:-1]}, kind)["dpkg"]}
    if c["opt"] in ("bytes", "noexec", "kill"):
        head = "#!/nowhere/sh\n" if c["opt"] == "noexec" else "#!/bin/bash\n"
        body = "kill -9 $$\n" if c["opt"] == "kill" else '[ "$1" = --version ] && exit 0\nprintf \'lib\\377\\376: %s is owned by \\351-1-r1 2 3 4\\n\' "$2"\n'
        return {n: head + body for n in scripts({**c, "opt": ""}, kind)}
    own = dict(zip(LIBS, c["own"]))
    opt = c["opt"]
    out = {}
    full = {x: "{SYS}/" + PATH[x] for x in LIBS}

    def case(var, rows, default):
        return f'case "{var}" in\n' + "".join(f'"{k}") {v} ;;\n' for k, v in rows) + f"*) {default} ;;\nesac\n"

    head = "#!/bin/bash\n" + ('[ "$1" = --version ] && exit 3\n' if opt == "version" else '[ "$1" = --version ] && { echo v1; exit 0; }\n')
    fail = "echo trouble >&2; exit 2\n"
    dpkg_own = {x: o for x, o in own.items() if o != "-"}
    if c["mgr"] == "dpkg+apt":
        dpkg_own.pop("b", None)
    if c["mgr"] in ("dpkg", "dpkg+apt"):
        rows = []
        for x, o in dpkg_own.items():
            p = PK[o]["deb"][0]
            arch = ":amd64, " + p + ":i386" if opt == "multi" else ":amd64" if o in ("p", "r") else ""
            rows.append((full[x], f"echo '{p}{arch}: {full[x]}'"))
        shows = [(PK[o]["deb"][0], f"echo 'Package: {PK[o]['deb'][0]}'; echo 'Status: install ok installed'; echo 'Version: {PK[o]['deb'][1]}'; echo 'Depends: libc6 (>= 2.14)'") for o in sorted({*dpkg_own.values()})]
        body = head
        if opt == "fail":
            body += fail
        if opt == "garbage":
            body += "echo; echo ': :'; exit 0\n"
        if opt == "empty":
            body += "exit 0\n"
        body += '[ "$1" = -S ] && {\n' + case("$2", rows, 'echo "dpkg-query: no path found matching pattern $2" >&2; exit 1') + "exit 0; }\n"
        if opt == "show":
            body += fail
        body += '[ "$1" = -s ] && {\n' + case("$2", shows, "exit 1") + "exit 0; }\nexit 9\n"
        out["dpkg"] = body
    if c["mgr"] in ("apt", "dpkg+apt"):
        aown = {x: o for x, o in own.items() if o != "-"}
        body = "#!/bin/bash\n" + ('[ "$1" = --version ] && exit 2\n' if opt != "version" else '[ "$1" = --version ] && exit 3\n')
        if opt == "fail":
            body += fail
        if opt == "garbage":
            body += "echo; echo ': :'; exit 0\n"
        if opt == "empty":
            body += "exit 0\n"
        body += "echo 'Finding relevant cache files to search ...'\n[ \"$*\" = 'search --from-file -' ] || exit 9\nwhile IFS= read -r p || [ -n \"$p\" ]; do\n"
        rows = []
        for x, o in aown.items():
            ex = f"echo 'libfoo-dbg: {full[x]}.debug'; echo 'other-pkg: /opt{full[x]}'; " if opt == "extra" else ""
            rows.append((full[x], f"{ex}echo '{PK[o]['deb'][0]}: {full[x]}'" + ("; echo 'zz-dbg: " + full[x] + ".1'" if opt == "extra" else "")))
        out["apt-file"] = body + case("$p", rows, ":") + "done\nexit 0\n"
        shows = [(PK[o]["deb"][0], f"echo 'Package: {PK[o]['deb'][0]}'; echo 'Version: {PK[o]['deb'][1]}'; echo; echo 'Version: 0.0'") for o in sorted({*aown.values()})]
        out["apt"] = "#!/bin/bash\n[ \"$1\" = --version ] && exit 0\n" + (fail if opt == "show" else "") + '[ "$1" = show ] || exit 9\n' + case("$2", shows, "exit 100") + "exit 0\n"
    if c["mgr"] == "rpm":
        rows = [(full[x], "printf '%s %s %s %s' " + f"'{PK[o]['rpm'][0]}' '{PK[o]['rpm'][1][0]}' '{PK[o]['rpm'][1][1]}' x86_64" + ("; printf '%s' 'zz 9 9 i686'" if opt == "multi" else "")) for x, o in own.items() if o != "-"]
        body = head + (fail if opt in ("fail", "show") else "echo garbage; exit 0\n" if opt == "garbage" else "exit 0\n" if opt == "empty" else "")
        out["rpm"] = body + '[ "$1" = -qf ] || exit 9\nf="${@: -1}"\n' + case("$f", rows, 'echo "file $f is not owned by any package"; exit 1') + "exit 0\n"
    if c["mgr"] == "apk":
        rows = [(full[x], f"echo '{full[x]} is owned by {PK[o]['apk'][0]}-{PK[o]['apk'][1]}'") for x, o in own.items() if o != "-"]
        body = head + (fail if opt in ("fail", "show") else "echo garbage; exit 0\n" if opt == "garbage" else "exit 0\n" if opt == "empty" else "")
        out["apk"] = body + '[ "$1 $2" = "info --who-owns" ] || exit 9\n' + case("$3", rows, 'echo "ERROR: $3: Could not find owner package"; exit 1') + "exit 0\n"
    if c["mgr"] == "broken":
        for n in ("dpkg", "rpm", "apk", "apt", "apt-file"):
            out[n] = "#!/bin/bash\nexit 1\n"
    return out


SAFE = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~")


def q(s):
    return "".join(ch if ch in SAFE else "".join(f"%{b:02X}" for b in ch.encode()) for ch in s)


def expected(c, grafted, kind, root, outname):
    own = dict(zip(LIBS, c["own"]))
    opt = c["opt"]
    quiet = opt in BAD or (opt == "show" and kind in ("deb", "rpm", "apk"))
    comps = {}
    for x in grafted:
        if own[x] == "-" or kind is None or quiet:
            continue
        n, v = PK[own[x]][kind]
        if kind == "rpm":
            v = f"{v[0]}-{v[1]}"
        path = f"{root}/sys/{PATH[x]}"
        purl = f"pkg:{kind}/{q(distro())}/{q(n)}@{q(v)}"
        comps[x] = {"type": "library", "bom-ref": purl + "#" + hashlib.sha256(path.encode()).hexdigest(), "name": n, "version": v, "purl": purl}
    if not comps:
        return None
    w = {**world.default_wheel(), **WHEELS[c["wheel"]]}
    purl = f"pkg:pypi/{q(w['name'])}@{q(w['ver'])}?file_name={q(outname)}"
    me = {"type": "library", "bom-ref": purl, "name": w["name"], "version": w["ver"], "purl": purl}
    refs = sorted(x["bom-ref"] for x in comps.values())
    return {"bomFormat": "CycloneDX", "specVersion": "1.4", "version": 1, "metadata": {"component": me, "tools": [{"name": "auditwheel", "version": metadata.version("auditwheel")}]},
            "components": [me, *sorted(comps.values(), key=lambda x: x["bom-ref"])], "dependencies": [{"ref": purl, "dependsOn": refs}, *[{"ref": r} for r in refs]]}


def norm(j):
    j = json.loads(json.dumps(j))
    j["components"][1:] = sorted(j["components"][1:], key=lambda x: x["bom-ref"])
    j["dependencies"][0]["dependsOn"].sort()
    j["dependencies"][1:] = sorted(j["dependencies"][1:], key=lambda x: x["ref"])
    return j


def run_case(c):
    s, grafted, args, kind = spec(c)
    v = []
    with Box(s) as b:
        # the host's own package manager must not answer
        r = b.run(["repair", "-w", "{OUT}", "--ldpaths", "{SYS}/lib:{SYS}/lib/c++", *args, str(b.wheels[0])])
        o = b.outputs()
        root = b.root
        if r.rc != 0 or len(o) != 1:
            return CR([("refused", f"{r.rc} {r.err[-400:]}")], [f"{c} {r.rc}"], 1, 1, True, "")
        if c["opt"] == "again":  # repairing the result again keeps it
            r2 = b.run(["repair", "-w", "{OUT}/2", str(b.root) + "/out/" + o[0].filename])
            o2 = b.outputs("out/2")
            k = [n for n in o[0].data if "/sboms/" in n]
            if r2.rc != 0 or len(o2) != 1 or any(o2[0].data.get(n) != o[0].data[n] for n in k):
                v.append(("again", f"{r2.rc}: repairing the result changed the SBOM"))
    w = o[0]
    di = next(n for n in w.data if n.endswith(".dist-info/RECORD"))[: -len("RECORD")]
    name = di + "sboms/auditwheel.cdx.json"
    exp = expected(c, grafted, kind, root, w.filename)
    sb = sorted(n for n in w.data if ".cdx.json" in n or "sboms" in n)
    want = sorted(([name] if exp else []) + ([di + "sboms/other.cdx.json"] if c["opt"] == "sboms" else []))
    if sb != want:
        v.append(("present", f"SBOM files {sb}, expected {want}"))
    if exp and name in w.data:
        try:
            j = json.loads(w.data[name])
            if norm(j) != exp:
                a, e = norm(j), exp
                d = [k for k in {*a, *e} if a.get(k) != e.get(k)]
                v.append(("content", f"{d}: {[(a.get(k), e.get(k)) for k in d][:1]}"[:900]))
            refs = [x["bom-ref"] for x in j["components"]]
            if len(set(refs)) != len(refs) or j["components"][0] != j["metadata"]["component"]:
                v.append(("refs", f"bom-ref not unique or the wheel not first: {refs}"))
        except ValueError as e:
            v.append(("content", f"not JSON: {e}"))
        row = f"{name},sha256={base64.urlsafe_b64encode(hashlib.sha256(w.data[name]).digest()).rstrip(b'=').decode()},{len(w.data[name])}"
        if row not in w.data[di + "RECORD"].decode().splitlines():
            v.append(("record", "the SBOM is not in RECORD"))
    st = json.dumps(exp).replace(root, "") if exp else f"none {c['mgr']} {c['opt']}"
    return CR(v, [st], 1, 1, True, f"{len(exp['components']) - 1 if exp else 0} components")


def bounds(tier):
    return {"managers": list(MGR), "packages": PK, "libraries": 3, "wheels": WHEELS, "failures": [*BAD, "extra", "show", "multi"], "dpkg in trouble, apt-file not": list(BAD)}
