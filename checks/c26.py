"""C26: nothing outside the scratch directory and the wheel directory is touched, whatever the wheel contains."""

from __future__ import annotations

import copy
import itertools
import os
import stat
import zipfile

from mc import world
from mc.explore import CR
from mc.world import Box, cli, elf, subst, text

ID, LEVEL = "C26", "model_checking"
RULE = ("Every hostile name of the menu (parent directories, absolute paths, empty and dot components, back slashes, links, names of existing files outside) as archive member, RECORD entry, member and RECORD entry, needed library, soname of a system library and search path, alone and in pairs, with each command, "
        "is executed on the real command line by an unprivileged user in a scratch directory full of decoys. The whole directory is compared before and after: only the output wheel may be new, and neither it nor the report may contain anything of a decoy. A state is (case, exit status, output members).")
ASSUMPTIONS = ["the command runs as an unprivileged user (where the tree is world readable) below a scratch directory; hostile names climb at most two levels, or are absolute names inside that directory"]
NOBODY = 65534
CMDS = {"show": ["show", "--json"], "repair": ["repair", "-w", "{OUT}"], "strip": ["repair", "-w", "{OUT}", "--strip"], "keep": ["repair", "-w", "{OUT}", "--no-update-tags"]}
EX = {"machine": "x86_64", "needed": ["liba.so.1", "libc.so.6"], "verneed": [["libc.so.6", ["GLIBC_2.2.5"]]], "rpath": "{SYS}/lib"}
# hostile names of an ELF file
NAMES = {
    "up1": "../decoy.so", "up2": "../../decoy.so", "sub1": "pkg/../../decoy.so", "sub2": "pkg/sub/../../../../decoy.so", "abs": "{ROOT}/decoy.so", "abs2": "/{ROOT}/run/decoy.so", "in": "pkg/../decoy.so", "dot": "./decoy.so",
    "dots": "pkg/./x/../decoy.so", "empty": "pkg//decoy.so", "back": "..\\..\\decoy.so", "out": "../../out/decoy.so", "self": "../../in/{WHEEL}", "sys": "{SYS}/lib/liba.so.1", "tmp": "{TMP}/decoy.so", "cwd": "../../run/decoy.so",
    "script": "pkg-1.0.data/scripts/../../../decoy.so", "libs": "pkg.libs/../../decoy.so", "dist": "pkg-1.0.dist-info/../../decoy.so", "new": "../fresh.so", "new2": "../../fresh.so", "newabs": "{ROOT}/fresh.so", "dir": "..", "dir2": "pkg/..",
    "empty0": "", "space": " ../decoy.so", "pct": "%2e%2e/decoy.so", "home": "~/decoy.so", "env": "$TMPDIR/decoy.so", "url": "file://{ROOT}/decoy.so",
}
WHERE = ("member", "record", "both", "dirmember", "linkmember", "link")
OTHER = {
    "needed_up": ("needed", "../liba.so.1"), "needed_abs": ("needed", "{SYS}/lib/liba.so.1"), "needed_dir2": ("needed", "../lib/liba.so.1"), "needed_dir": ("needed", "../../sys/lib/liba.so.1"), "soname_up": ("soname", "../../fresh.so"), "soname_abs": ("soname", "{ROOT}/fresh.so"),
    "soname_dash": ("soname", "--output={ROOT}/fresh.so"), "needed_dash": ("needed", "--output"), "rpath_up": ("rpath", "{SYS}/lib:$ORIGIN/../../.."), "rpath_dash": ("rpath", "--output {ROOT}/fresh:{SYS}/lib"),
    "name_dash": ("file", "pkg/--output.so"), "name_semi": ("file", "pkg/a;touch ..fresh.so"), "name_nl": ("file", "pkg/a b$(touch x).so"), "name_glob": ("file", "pkg/[a-z]*.so"),
    "shim_quote": ("file", "pkg-1.0.data/scripts/a'b.so"), "libdir_link": ("link", "pkg.libs", "{ROOT}/run"), "libdir_link_up": ("link", "pkg.libs", "../../run"), "sub_link": ("link", "pkg/sub", "{ROOT}/run"),
    "dist_link": ("link", "pkg-1.0.dist-info/sboms", "{ROOT}/run"), "wheel_link": ("link", "pkg-1.0.data/purelib", "{ROOT}/run"), "two_dist": ("dist", "evil-1.0.dist-info"), "setuid": ("mode", 0o106755), "dev": ("mode", 0o020666), "nomode": ("mode", 0),
}


def setup():
    world.import_auditwheel()
    global USER
    USER = True
    p = os.path.realpath(world.REPO_SRC)
    while True:
        if not os.stat(p).st_mode & 0o005:
            USER = False
        if p == "/":
            break
        p = os.path.dirname(p)
    for t in world.TOOLS.values():
        USER = USER and bool(os.stat(os.path.realpath(t)).st_mode & 0o001)


def cases(tier):
    for n in NAMES:
        for w in WHERE:
            for c in CMDS:
                yield {"names": [[n, w]], "cmd": c}
    for o in OTHER:
        for c in CMDS:
            yield {"names": [[o, "other"]], "cmd": c}
    names = list(NAMES) if tier == "thorough" else ["up1", "up2", "sub1", "abs", "in", "new", "libs", "dir"]
    others = list(OTHER)
    for o in others:
        for n in names:
            for w in WHERE if tier == "thorough" else ("record", "both"):
                for c in CMDS if tier == "thorough" else ("repair",):
                    yield {"names": [[n, w], [o, "other"]], "cmd": c}
    for a, b in itertools.combinations(names, 2):
        for w in itertools.product(WHERE, repeat=2) if tier == "thorough" else (("member", "record"), ("record", "record"), ("record", "member")):
            yield {"names": [[a, w[0]], [b, w[1]]], "cmd": "repair"}
    if tier == "thorough":
        for a, b in itertools.combinations(others, 2):
            for c in CMDS:
                yield {"names": [[a, "other"], [b, "other"]], "cmd": c}


def build(c, b: Box):
    """write the wheel; returns its path"""
    w = world.default_wheel()
    wn = world.wheel_filename(w)
    m = {**b.map, "{WHEEL}": wn}
    ext = copy.deepcopy(EX)
    extname = "pkg/ext.cpython-312-x86_64-linux-gnu.so"
    fmode, members, record, dirs, links = 0o100755, [], [], [], []
    for n, where in c["names"]:
        if where != "other":
            name = subst(NAMES[n], m)
            if where in ("record", "both"):
                record.append(name)
            if where in ("member", "both"):
                members.append((name, world.content(elf(id="hostile", symbols=[["PyInit_decoy", True, "global", "func"]], **subst(EX, m))), 0o100755))
            if where == "dirmember" and name:
                members.append((name.rstrip("/") + "/", b"", 0o040755))
            if where == "link" and name:
                members.append(("pkg/link.so", name.encode(), 0o120777))
                record.append("pkg/link.so")
            if where == "linkmember" and name:
                members.append(("pkg/link", subst(name, m).encode(), 0o120777))
                members.append(("pkg/link/decoy.so", world.content(elf(id="hostile", symbols=[["PyInit_decoy", True, "global", "func"]], **subst(EX, m))), 0o100755))
            continue
        o = OTHER[n]
        if o[0] == "needed":
            ext["needed"] = [o[1], *[x for x in ext["needed"] if x != "liba.so.1"]]
        elif o[0] == "soname":
            pass
        elif o[0] == "rpath":
            ext["rpath"] = o[1]
        elif o[0] == "file":
            extname = o[1]
        elif o[0] == "mode":
            fmode = o[1]
        elif o[0] == "link":
            members.append((o[1], subst(o[2], m).encode(), 0o120777))
        elif o[0] == "dist":
            members.append((o[1] + "/METADATA", b"Metadata-Version: 2.1\nName: evil\nVersion: 1.0\n", 0o100644))
    w["files"] = {"pkg/__init__.py": text("x = 1\n"), "pkg/sub/y.py": text("y = 1\n")}
    w["record_extra"] = [*record, *([extname] if extname else [])]
    mem = [(n, d, stat.S_IFREG | md) for n, d, md in world.wheel_members(w)]
    mem.insert(2, (extname, world.content(elf(id="ext", symbols=[["PyInit_ext", True, "global", "func"]], **subst(ext, m))), fmode))
    mem[-1:-1] = [x for x in members if x[0]]
    p = f"{b.root}/in/{wn}"
    with zipfile.ZipFile(p, "w") as z:
        for n, d, mode in mem:
            zi = zipfile.ZipInfo("x", (2020, 2, 2, 2, 2, 2))
            zi.filename = zi.orig_filename = n
            zi.external_attr = mode << 16
            z.writestr(zi, d)
    return p


def run_case(c):
    soname = next((OTHER[n][1] for n, w in c["names"] if w == "other" and OTHER[n][0] == "soname"), "liba.so.1")
    decoy = elf(id="decoy", symbols=[["PyInit_decoy", True, "global", "func"]], **EX)
    sysd = {"lib/liba.so.1": elf(id="a", soname=soname, needed=["libc.so.6"], verneed=[["libc.so.6", ["GLIBC_2.2.5"]]], machine="x86_64"), "lib/decoy.so": decoy}
    with Box({"wheels": [], "sys": sysd}) as b:
        data = world.content({"kind": "elf", "elf": subst(decoy["elf"], b.map)})
        for d in ("", "tmp/", "run/", "in/", "bin/"):
            with open(f"{b.root}/{d}decoy.so", "wb") as f:
                f.write(data)
        os.makedirs(f"{b.root}/run/keep")
        p = build(c, b)
        argv = [*CMDS[c["cmd"]], "--ldpaths", "{SYS}/lib", p]
        if USER:
            for d, dn, fn in os.walk(b.root):
                for x in (".", *dn, *fn):
                    os.chown(os.path.join(d, x), NOBODY, NOBODY, follow_symlinks=False)
        before = world.tree_digest(b.root)
        inner = cli(subst(argv, b.map))

        def go():
            if USER:
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)
            return inner()

        r = b.run(go)
        after = world.tree_digest(b.root)
        outs = b.outputs()
    v = []
    diff = sorted(k for k in {*before, *after} if before.get(k) != after.get(k) and not k.startswith("log/"))
    ok = {f"out/{w.filename}" for w in outs}
    bad = [k for k in diff if k not in ok]
    if bad:
        v.append(("outside", f"{r.rc}: changed {[(k, before.get(k), after.get(k)) for k in bad[:4]]}"))
    if r.rc == 0 and c["cmd"] != "show" and len(outs) != 1:
        v.append(("output", f"status 0 but outputs {sorted(ok)}"))
    if r.rc != 0 and outs:
        v.append(("output", f"{r.rc} but outputs {sorted(ok)}"))
    if r.rc == "timeout":
        v.append(("hang", "timeout"))
    for w in outs:
        if w.bad:
            v.append(("output", w.bad))
        for n in w.order:
            if n.startswith("/") or ".." in n.split("/"):
                v.append(("member", f"{n!r} in the output"))
        for n, d in w.data.items():
            if b"VPID:decoy;" in d:
                v.append(("leak", f"{n} holds a file from outside the wheel"))
            if n.endswith("dist-info/RECORD") and any(x.startswith("/") or ".." in x.split(",")[0].split("/") for x in d.decode().splitlines()):
                v.append(("record", "an entry outside the wheel in RECORD"))
    st = f"{c} {r.rc if isinstance(r.rc, int) else 'exc'} {[sorted(w.data) for w in outs]}"
    return CR(v, [st], 1, 1, True, f"{r.rc}"[:150])


def bounds(tier):
    return {"hostile names": len(NAMES), "positions": list(WHERE), "other hostile content": list(OTHER), "combinations": "each alone with every command, pairs of the main ones" if tier == "quick" else "each alone and all pairs", "unprivileged": USER if "USER" in globals() else None}
