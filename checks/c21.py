"""C21: the platform policies, as seen through the command line."""

from __future__ import annotations

import json
import re

from mc import menu, ref, world
from mc.explore import CR
from mc.world import Box, elf

ID = "C21"
LEVEL = "model_checking"
RULE = ("Every policy fact is a transition of the real command line: for every architecture, every symbol version of the policy tables and the first ones beyond them, every library and every black-listed symbol of the tables is put into "
        "an ELF file of a wheel of that architecture and the verdict of `auditwheel show --json` is compared with the reference tables and, for glibc, with the rule of PEP 600; every platform name and alias, of this and of "
        "other architectures, is used with `repair --plat`. A state is the verdict.")
ASSUMPTIONS = ["mc/../ref/*.json is the snapshot of the published policies that counts as the specification; manylinux_2_17_aarch64 lists GLIBC_2.18 (as published)"]
ARCH = ("x86_64", "i686", "aarch64", "armv7l", "ppc64", "ppc64le", "s390x", "riscv64", "loongarch64")
OWNER = {"GLIBC": "libc.so.6", "GLIBCXX": "libstdc++.so.6", "CXXABI": "libstdc++.so.6", "GCC": "libgcc_s.so.1", "ZLIB": "libz.so.1", "LIBATOMIC": "libatomic.so.1", "OPENSSL": "libssl.so.3"}
MORE = {"GLIBC": ["GLIBC_2.42", "GLIBC_2.100", "GLIBC_3.0", "GLIBC_PRIVATE", "GLIBC_2.5.1"], "GLIBCXX": ["GLIBCXX_3.4.99", "GLIBCXX_4"], "CXXABI": ["CXXABI_1.3.99", "CXXABI_2"], "GCC": ["GCC_99.0.0"],
        "ZLIB": ["ZLIB_9.9"], "LIBATOMIC": ["LIBATOMIC_9.9"]}
NEAR = ["manylinux", "linux_x86_64", "manylinux3_x86_64", "manylinux_2_5", "manylinux2014", "manylinux_2_18_x86_64", "manylinux_2_42_x86_64", "MANYLINUX1_X86_64", "musllinux_1_2_x86_64", "manylinux_2_17_x86_64_v2", "win_amd64", "auto2", "manylinux1_x86_64.", "any"]


def setup():
    world.import_auditwheel()


def all_versions(arch):
    out = {}
    for a in (arch,) if arch else ARCH:
        for p in ref.policies("glibc", a):
            for k, v in p.versions.items():
                out.setdefault(k, set()).update(v)
    return out


def wheel(arch, plat=None, **e):
    s = menu.base()
    s["sys"] = {"lib/.keep": world.text("")}
    w = s["wheels"][0]
    w["plat"] = plat or f"linux_{arch}"
    n = "pkg/ext.abi3.so"
    w["files"] = {"pkg/__init__.py": world.text("x = 1\n"),
                  n: elf(id="ext", machine=arch, **{"needed": ["libc.so.6"], "verneed": [], "symbols": [["PyInit_ext", True, "global", "func"]], **e})}
    return s


def cases(tier):
    for a in ARCH:
        vs = all_versions(a)
        for k in sorted(vs):
            for v in sorted({*vs[k], *MORE.get(k, [])}):
                yield {"kind": "version", "arch": a, "v": [v]}
        foreign = all_versions(None)
        for k in sorted(foreign):
            for v in sorted(foreign[k] - vs.get(k, set())):
                if tier == "thorough" or a in ("aarch64", "x86_64"):
                    yield {"kind": "version", "arch": a, "v": [v]}
        yield {"kind": "version", "arch": a, "v": ["FOO_1"]}
        yield {"kind": "libs", "arch": a, "libc": "glibc", "lib": None}
        yield {"kind": "black", "arch": a, "libc": "glibc", "sym": None}
        names = sorted({n for p in ref.policies("glibc", a) for n in p.whitelist})
        if tier == "thorough" or a in ("x86_64", "aarch64"):
            for n in names:
                yield {"kind": "libs", "arch": a, "libc": "glibc", "lib": n}
        bl = sorted({(k, s) for p in ref.policies("glibc", a) for k, v in p.blacklist.items() for s in v})
        for k, s in bl:
            if tier == "thorough" or a == "x86_64" or hash_(s) % 12 == ARCH.index(a):
                yield {"kind": "black", "arch": a, "libc": "glibc", "sym": [k, s]}
    for a in ref.MUSL_SO:
        yield {"kind": "libs", "arch": a, "libc": "musl", "lib": None}
        yield {"kind": "black", "arch": a, "libc": "musl", "sym": None}
        for n in sorted({n for p in ref.policies("musl", a) for n in p.whitelist}):
            yield {"kind": "libs", "arch": a, "libc": "musl", "lib": n}
    if tier == "thorough":
        # every pair of a version of one prefix with one of another
        x = all_versions("x86_64")
        ks = sorted(x)
        for i, k in enumerate(ks):
            for l in ks[i + 1:]:
                for v in sorted(x[k]):
                    for u in sorted(x[l]):
                        yield {"kind": "version", "arch": "x86_64", "v": [v, u]}
    else:
        edge = ["GLIBC_2.5", "GLIBC_2.17", "GLIBC_2.28", "GLIBCXX_3.4.9", "GLIBCXX_3.4.19", "CXXABI_1.3.3", "CXXABI_1.3.9", "GCC_4.5.0", "GCC_7.0.0", "ZLIB_1.2.2", "ZLIB_1.2.9"]
        for i, u in enumerate(edge):
            for v in edge[i + 1:]:
                yield {"kind": "version", "arch": "x86_64", "v": [u, v]}
    for p in ref.policies("glibc", "x86_64")[1:]:
        for al in p.aliases:
            yield {"kind": "alias", "a": p.name, "b": al}
    names = {n for a in ARCH for p in ref.policies("glibc", a)[1:] for n in (p.name, *p.aliases)} | {p.name for p in ref.policies("android", "x86_64")} | set(NEAR) | {"auto"}
    for n in sorted(names):
        yield {"kind": "plat", "name": n}
    yield {"kind": "help"}


def hash_(s):
    return sum(map(ord, s))


def glibc_rule(v, arch):
    """PEP 600: manylinux_X_Y may need at most glibc X.Y"""
    m = re.fullmatch(r"GLIBC_(\d+)\.(\d+)(\.\d+)?", v)
    return m and tuple(int(x) for x in (m[1], m[2]))


def show(s):
    with Box(s) as b:
        r = b.run(["show", "--json", "--ldpaths", "{SYS}/lib", "{IN}/" + world.wheel_filename(s["wheels"][0])])
    if r.rc != 0:
        raise RuntimeError(f"show: {r.rc} {r.err[-500:]}")
    return json.loads(r.out)


def run_case(c):
    v = []
    k = c["kind"]
    if k == "version":
        ver = []
        for x in c["v"]:
            ver.append([OWNER.get(x.split("_")[0], "libc.so.6"), [x]])
        s = wheel(c["arch"], needed=["libc.so.6", *sorted({x[0] for x in ver} - {"libc.so.6"})], verneed=ver)
        j = show(s)
        ps = ref.policies("glibc", c["arch"])
        ok = [p for p in ps[1:] if all(p.allows(x) for x in c["v"])]
        best = max(ok, key=lambda p: p.priority) if ok else ps[0]
        if j["sym_tag"] != best.name:
            v.append(("version", f"{c['v']} on {c['arch']}: {j['sym_tag']}, policy tables: {best.name}"))
        for x in c["v"]:
            t = glibc_rule(x, c["arch"])
            m = re.match(r"manylinux_(\d+)_(\d+)_", j["sym_tag"])
            if t and m and t > (int(m[1]), int(m[2])) and not (x == "GLIBC_2.18" and c["arch"] == "aarch64"):
                v.append(("pep600", f"{x} on {c['arch']} is consistent with {j['sym_tag']}"))
            if t and x in all_versions(c["arch"])["GLIBC"] and len(c["v"]) == 1:
                # a version that exists is admitted by the oldest platform whose glibc has it
                fits = [p for p in ps[1:] if tuple(int(z) for z in p.name.split("_")[1:3]) >= t]
                want = max(fits, key=lambda p: p.priority) if fits else ps[0]
                if j["sym_tag"] != want.name and not (x == "GLIBC_2.18" and c["arch"] == "aarch64"):
                    v.append(("pep600", f"{x} on {c['arch']}: {j['sym_tag']}, by PEP 600 {want.name}"))
        return CR(v, [j["sym_tag"] + c["v"][0]], 1, 1, True, j["sym_tag"])
    if k == "libs":
        ps = ref.policies(c["libc"], c["arch"])
        names = sorted({n for l in ("glibc", "musl", "android") for a in ARCH for p in ref.policies(l, a) for n in p.whitelist}) + ["libother.so.1", "ld-linux-x86-64.so.2", "ld64.so.1", "ld-linux.so.3x", "libpython3.so"]
        if c["libc"] == "musl":
            names = [n for n in names if not ref.is_loader(n) and not n.startswith(("libc.musl", "ld-musl")) and n != "libc.so.6"] + [ref.MUSL_SO[c["arch"]]]
        else:
            names = [n for n in names if not n.startswith(("libc.musl", "ld-musl"))]
        need = names if c["lib"] is None else [c["lib"]]
        if c["lib"] is None:
            # names alike are not listed
            near = {f(n) for n in names for f in (lambda n: n + ".1", lambda n: n + "x", lambda n: n[:-1], lambda n: n.rpartition(".")[0], lambda n: n.split(".")[0], lambda n: "x" + n, lambda n: n[1:], lambda n: n.upper(),
                                                 lambda n: n.replace(".so", "-2.so"), lambda n: n.replace(".so", "_so"), lambda n: "libbui" + n)}
            need = sorted({*names, *(n for n in near if n and (ref.is_loader(n) or not n.startswith("ld-linux")) and not ref.LIBPYTHON.match(n) and not n.startswith(("libc.musl", "ld-musl"))
                                     and (c["libc"] == "glibc" or not n.startswith(("ld-", "ld64")) and n != "libc.so.6"))})
        if c["lib"] and c["libc"] == "glibc" and "libc.so.6" not in need:
            need = [*need, "libc.so.6"]
        if c["lib"] and c["libc"] == "musl" and ref.MUSL_SO[c["arch"]] not in need:
            need = [*need, ref.MUSL_SO[c["arch"]]]
        s = wheel(c["arch"], needed=need)
        j = show(s)
        miss = {p.name: sorted(n for n in need if n not in p.whitelist and not ref.is_loader(n)) for p in ps[1:]}
        good = [p for p in ps[1:] if not miss[p.name]]
        best = max(good, key=lambda p: p.priority) if good else ps[0]
        if j["overall_tag"] != best.name:
            v.append(("library", f"{c['arch']} needs {c['lib'] or 'all'}: {j['overall_tag']}, policy tables: {best.name}"))
        for p in ps[1:]:
            if p.priority > best.priority:
                g = j["policy_upgrades"].get(p.name, {}).get("libs_to_eliminate", [])
                if g != miss[p.name]:
                    v.append(("library", f"{p.name}: to eliminate {sorted(set(g) ^ set(miss[p.name]))} differ from the tables"))
        return CR(v, [json.dumps(j["policy_upgrades"])], 1, 1, True, j["overall_tag"])
    if k == "black":
        ps = ref.policies(c["libc"], c["arch"])
        bl = sorted({(x, s) for p in ps for x, y in p.blacklist.items() for s in y})
        use = bl if c["sym"] is None else [tuple(c["sym"])]
        libc = "libc.so.6" if c["libc"] == "glibc" else ref.MUSL_SO[c["arch"]]
        need = [libc, *sorted({x for x, _ in use} - {libc})]
        s = wheel(c["arch"], needed=need, symbols=[["PyInit_ext", True, "global", "func"], *[[y, False, "global", "func"] for y in sorted({y for _, y in use})]])
        j = show(s)
        und = {y for _, y in use}
        hit = {p.name: {x: sorted(y & und) for x, y in sorted(p.blacklist.items()) if x in need and y & und} for p in ps[1:]}
        miss = {p.name: [n for n in need if n not in p.whitelist] for p in ps[1:]}
        good = [p for p in ps[1:] if not miss[p.name] and not hit[p.name]]
        # forbidden by one platform is forbidden by every better one
        if c["sym"] and any(hit[p.name] and not hit[q.name] for p in ps[1:] for q in ps[1:] if q.priority > p.priority and c["sym"][0] in q.blacklist and c["sym"][0] in p.blacklist):
            pass
        okbl = [p for p in ps[1:] if not hit[p.name]]
        okref = [p for p in ps[1:] if not miss[p.name]]
        best = min((max(x, key=lambda p: p.priority) if x else ps[0] for x in (okbl, okref)), key=lambda p: p.priority)
        if j["overall_tag"] != best.name:
            v.append(("symbol", f"{c['arch']} uses {c['sym'] or 'all'}: {j['overall_tag']}, policy tables: {best.name}"))
        for p in ps[1:]:
            if p.priority > best.priority:
                g = j["policy_upgrades"].get(p.name, {}).get("blacklisted_symbols", {})
                if g != hit[p.name]:
                    v.append(("symbol", f"{p.name}: black-listed {g}, by the tables {hit[p.name]}"[:400]))
        return CR(v, [json.dumps(j["policy_upgrades"])], 1, 1, True, j["overall_tag"])
    if k == "alias":
        res = []
        for n in (c["a"], c["b"]):
            s = menu.make(("g.direct_b",))
            s["env"]["SOURCE_DATE_EPOCH"] = "1600000000"
            with Box(s) as b:
                r = b.run(["repair", "-w", "{OUT}", "--ldpaths", "{SYS}/lib", "--plat", n, "--only-plat", "{IN}/" + world.wheel_filename(s["wheels"][0])])
                o = b.outputs()
                res.append((str(r.rc), [(w.filename, w.raw_sha) for w in o]))
        if res[0] != res[1] or res[0][0] != "0":
            v.append(("alias", f"--plat {c['a']} and --plat {c['b']} give {res}"))
        else:
            tags = set(res[0][1][0][0][:-4].split("-")[-1].split("."))
            p = ref.policy(c["a"])
            if tags != {p.name, *p.aliases}:
                v.append(("alias", f"--plat {c['a']} --only-plat gives the tags {sorted(tags)}"))
        return CR(v, [str(res)], 2, 2, True, str(res)[:200])
    if k == "plat":
        n = c["name"]
        s = menu.make(())
        p = next((p for p in ref.policies("glibc", "x86_64")[1:] if n in (p.name, *p.aliases)), None)
        with Box(s) as b:
            r = b.run(["repair", "-w", "{OUT}", "--ldpaths", "{SYS}/lib", "--plat", n, "{IN}/" + world.wheel_filename(s["wheels"][0])])
            o = b.outputs()
        if p is None and n != "auto":
            if r.rc in (0, None) or o:
                v.append(("name", f"--plat {n} is accepted: {[w.filename for w in o]}"))
        elif r.rc != 0 or len(o) != 1 or (p and p.name not in o[0].filename[:-4].split("-")[-1].split(".")):
            v.append(("name", f"--plat {n}: {r.rc} {[w.filename for w in o]} {r.err[-200:]}"))
        return CR(v, [f"{n} {r.rc}"[:100]], 1, 1, True, str(r.rc)[:60])
    with Box({"wheels": [], "sys": {}}) as b:
        r = b.run(["repair", "--help"], env={"COLUMNS": "200"})
    got = set(re.findall(r"^- (\S+)(?: \(aliased by ([^)]*)\))?$", r.out, re.M))
    exp = {(p.name, ", ".join(p.aliases)) for p in ref.policies("glibc", "x86_64")}
    if got != exp:
        v.append(("help", f"repair --help lists {sorted(got ^ exp)} differently"))
    return CR(v, [str(sorted(got))], 1, 1, True, "")


def bounds(tier):
    return {"architectures": list(ARCH), "symbol versions": "every listed one per architecture and the first unlisted ones; pairs at the edges" if tier == "quick" else "every listed one of any architecture; every pair of two prefixes for x86_64",
            "libraries": "all together for every architecture and libc, each alone for x86_64, aarch64 and musl" if tier == "quick" else "all together and each alone", "symbols": "all together everywhere; each alone for x86_64, a twelfth elsewhere" if tier == "quick" else "all together and each alone"}
