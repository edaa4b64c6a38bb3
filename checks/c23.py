"""C23: the result does not depend on how the command is written."""

from __future__ import annotations

import itertools
import os
import shutil

from mc import menu, world
from mc.explore import CR
from mc.world import Box

ID, LEVEL = "C23", "model_checking"
RULE = ("Every combination of the way the wheel is named (absolute, relative to several working directories, with dot and dot-dot components, through a linked directory, as a link), the wheel directory is named (absolute, relative, default, nested and not yet there, a link, the input directory), verbosity, temporary directory, "
        "compression level, order and spelling of the options, and the way the library directory is named (option or variable, absolute, relative, through links, in a list) is executed on the real command line for several worlds, and compared with the result of the plainest form: same status, file name, members, modes and contents, in exactly the directory named. A state is (world, outcome).")
ASSUMPTIONS = []
WORLDS = {"base": (), "chain": ("g.direct_b", "o.strip"), "missing": ("g.missing_b",), "script": ("g.script",), "inner": ("g.inner",)}
WHEEL = ("abs", "rel", "dot", "up", "slash", "linkdir", "link", "linkup", "outside", "root")
DIRS = ("abs", "rel", "default", "nested", "link", "slash", "up", "linkup", "input", "dot")
VERB = ((), ("-v",), ("-vv",), ("-v", "-v"))
ZIPL = ((), ("-z", "0"), ("-z9",), ("--zip-compression-level=1",), ("--zip-compression-level", "6"))
STYLE = ("sep", "eq", "after", "mid", "abbr")
LIB = ("rel", "dot", "up", "slash", "linkdir", "linkup", "list", "aenv", "aenv_rel", "aenv_linkup", "lenv", "lenv_rel", "lenv_dot", "both")
TMPD = ("plain", "link", "rel", "same")


def setup():
    world.import_auditwheel()


def cases(tier):
    full = tier == "thorough"
    for wl in WORLDS:
        if wl not in ("base", "missing", "script") and not full:
            continue
        for a, d in itertools.product(WHEEL, DIRS):
            for vb in range(len(VERB)) if full else (0, 1):
                yield {"world": wl, "wheel": a, "dir": d, "v": vb, "z": 0, "style": "sep", "tmp": "plain"}
        for vb, z, s, t in itertools.product(range(len(VERB)), range(len(ZIPL)), STYLE, TMPD):
            if not full and (vb > 1 and z or wl != "base"):
                continue
            yield {"world": wl, "wheel": "rel", "dir": "rel", "v": vb, "z": z, "style": s, "tmp": t}
        if full:
            for a, d, s, t in itertools.product(WHEEL, DIRS, STYLE, TMPD):
                yield {"world": wl, "wheel": a, "dir": d, "v": 0, "z": 0, "style": s, "tmp": t}
        for a in WHEEL:
            for vb in range(len(VERB)):
                yield {"world": wl, "wheel": a, "show": True, "v": vb}
        for lb in LIB:
            for a in WHEEL:
                yield {"world": wl, "wheel": a, "show": True, "v": 0, "lib": lb}
                yield {"world": wl, "wheel": a, "dir": "abs" if a == "root" else "rel", "v": 0, "z": 0, "style": "sep", "tmp": "plain", "lib": lb}
            for s in STYLE:
                yield {"world": wl, "wheel": "rel", "dir": "default", "v": 0, "z": 0, "style": s, "tmp": "rel", "lib": lb}


def spec(c):
    s = menu.make(WORLDS[c["world"]])
    s["env"]["SOURCE_DATE_EPOCH"] = "1600000000"
    s["opts"] = {"names": "tmpw"}
    return s


_CANON: dict[str, tuple] = {}


def view(r, o):
    ok = r.rc if isinstance(r.rc, int) else "exc"
    return ok, [(w.filename, w.order, {k: w.mode[k] for k in w.order}, {k: world.hashlib.sha256(d).hexdigest() for k, d in w.data.items()}, w.bad) for w in o]


def extra(s):
    return [*s["args"], *[x for e in s["exclude"] for x in ("--exclude", e)]]


def libs(form, cwd, R):
    """The options and variables that name the library directory"""
    far = f"{R}/run/far/../sys/lib"
    rel = os.path.relpath(f"{R}/sys/lib", cwd)
    d = {"rel": rel, "dot": f"./{rel}/.", "up": f"{R}/run/deep/er/../../../sys/lib", "slash": f"{R}//sys/lib//", "linkdir": f"{R}/run/syl/lib",
         "linkup": os.path.relpath(f"{R}/run", cwd) + "/far/../sys/lib", "list": f"nowhere:{rel}:{R}/in"}.get(form)
    if d is not None:
        return d, {}
    if form == "both":
        return f"{R}/none", {"AUDITWHEEL_LD_LIBRARY_PATH": f"{R}/nowhere:{rel}"}
    n, d = {"aenv": ("AUDITWHEEL_LD_LIBRARY_PATH", f"{R}/sys/lib"), "aenv_rel": ("AUDITWHEEL_LD_LIBRARY_PATH", rel), "aenv_linkup": ("AUDITWHEEL_LD_LIBRARY_PATH", far),
            "lenv": ("LD_LIBRARY_PATH", f"{R}/sys/lib"), "lenv_rel": ("LD_LIBRARY_PATH", rel), "lenv_dot": ("LD_LIBRARY_PATH", f"nowhere/x:./{rel}")}[form]
    return None, {n: d}


def canon(wl):
    if wl not in _CANON:
        s = spec({"world": wl})
        with Box(s) as b:
            r = b.run(["repair", "-w", "{OUT}", "--plat", "manylinux_2_35_x86_64", "--ldpaths", "{SYS}/lib", *extra(s), str(b.wheels[0])])
            _CANON[wl] = view(r, b.outputs())
        with Box(s) as b:
            r = b.run(["show", "--json", "--ldpaths", "{SYS}/lib", str(b.wheels[0])])
            _CANON[wl + " show"] = (r.rc, r.out.replace(b.root, "<ROOT>"))
    return _CANON[wl]


def run_case(c):
    s = spec(c)
    v = []
    want = canon(c["world"])
    with Box(s) as b:
        R = b.root
        fn = b.wheels[0].name
        cwd = f"{R}/run"
        os.makedirs(f"{R}/run/deep/er")
        os.symlink(f"{R}/in", f"{R}/run/lnk")
        # far/.. is not run
        os.symlink(f"{R}/in", f"{R}/run/far")
        before = b.wheels[0].read_bytes()
        w = {"abs": f"{R}/in/{fn}", "rel": f"../in/{fn}", "dot": f"./.././in/./{fn}", "up": f"deep/er/../../../in/{fn}", "slash": f"{R}//in///{fn}", "linkdir": f"lnk/{fn}", "link": fn, "linkup": f"far/../in/{fn}", "outside": fn, "root": f"{R}/in/{fn}"}[c["wheel"]]
        if c["wheel"] == "link":
            os.symlink(f"../in/{fn}", f"{R}/run/{fn}")
        if c["wheel"] == "outside":
            cwd = f"{R}/in"
        if c["wheel"] == "root":
            cwd = "/"
        verb = list(VERB[c["v"]])
        os.symlink("../sys", f"{R}/run/syl")
        lib, lenv = libs(c["lib"], cwd, R) if c.get("lib") else ("{SYS}/lib", {})
        ldp = ["--ldpaths", lib] if lib else []
        if c.get("show"):
            r = b.run([*verb, "show", "--json", *ldp, w], cwd=cwd, env=lenv)
            got = (r.rc, r.out.replace(f"{R}/run/syl/", f"{R}/sys/").replace(R, "<ROOT>"))
            if got != _CANON[c["world"] + " show"]:
                v.append(("show", f"{got[0]} {got[1][:200]}"))
            return CR(v, [f"{c['world']} show {r.rc}"], 1, 1, True, str(c))
        if c["dir"] == "link":
            os.makedirs(f"{R}/target")
            os.symlink(f"{R}/target", f"{R}/outl")
        d = {"abs": f"{R}/out", "rel": os.path.relpath(f"{R}/out", cwd), "default": None, "nested": f"{R}/out/a/b", "link": f"{R}/outl", "slash": f"{R}/out//", "up": f"{R}/run/../out", "linkup": f"{R}/run/far/../outz", "input": f"{R}/in", "dot": "."}[c["dir"]]
        if c["wheel"] == "root" and c["dir"] in ("default", "dot"):
            return CR([], ["outside"], 0, 0, False, "would write to /")
        real = os.path.realpath(os.path.join(cwd, d if d is not None else "wheelhouse"))
        env = dict(lenv)
        if c["tmp"] == "link":
            os.symlink(f"{R}/tmp", f"{R}/tmpl")
            env["TMPDIR"] = f"{R}/tmpl"
        elif c["tmp"] == "rel":
            env["TMPDIR"] = os.path.relpath(f"{R}/tmp", cwd)
        elif c["tmp"] == "same":
            os.makedirs(real, exist_ok=True)
            env["TMPDIR"] = real
        z = list(ZIPL[c["z"]])
        sd = ["-w", d] if d is not None else []
        if c["style"] == "sep":
            a = ["repair", *sd, "--plat", "manylinux_2_35_x86_64", *ldp, *z, *extra(s), w]
        elif c["style"] == "eq":
            a = ["repair", *([f"--wheel-dir={d}"] if d is not None else []), "--plat=manylinux_2_35_x86_64", *[f"--ldpaths={x}" for x in ldp[1:]], *z, *extra(s), w]
        elif c["style"] == "after":
            a = ["repair", w, *extra(s), *z, *ldp, "--plat", "manylinux_2_35_x86_64", *sd]
        elif c["style"] == "mid":
            a = ["repair", *z, *sd, w, *extra(s), "--plat", "manylinux_2_35_x86_64", *ldp]
        else:
            a = ["repair", *([f"-w{d}"] if d is not None else []), "--pla", "manylinux1_x86_64", "--plat", "manylinux_2_35_x86_64", *[f"--ldpath={x}" for x in ldp[1:]], *z, *extra(s), "--", w]
        r = b.run([*verb, *a], cwd=cwd, env=env)
        src = b.wheels[0].read_bytes() if b.wheels[0].exists() else None
        outs = [world.read_wheel(p) for p in sorted(__import__("pathlib").Path(real).glob("*.whl")) if not (p.name == fn and os.path.realpath(p) == os.path.realpath(b.wheels[0]))] if os.path.isdir(real) else []
        got = view(r, outs)
        stray = sorted(x for x in (os.listdir(real) if os.path.isdir(real) else []) if not x.endswith(".whl") and not (real == cwd and x in ("deep", "lnk", "far", "syl", "wheelhouse")))
        if got != want:
            diff = "status" if got[0] != want[0] else "wheel"
            v.append((diff, f"{got[0]} {[x[0] for x in got[1]]} instead of {want[0]} {[x[0] for x in want[1]]} {r.err[-200:]}"))
        if src != before:
            v.append(("source", "the input wheel was changed"))
        if not r.cwd_ok:
            v.append(("cwd", "the working directory was changed"))
        elsewhere = [p for p in (f"{R}/out", f"{R}/run", f"{R}/in", f"{R}/run/wheelhouse", f"{R}/in/wheelhouse") if os.path.isdir(p) and os.path.realpath(p) != os.path.realpath(real)
                     for x in os.listdir(p) if "manylinux" in x]
        if elsewhere or [x for x in stray if x not in ("sys",)]:
            v.append(("place", f"in {elsewhere} or {stray}"))
        left = [x for x in b.tmp_left()]
        if left:
            v.append(("left", f"{left}"))
    return CR(v, [f"{c['world']} {got[0]} {[x[0] for x in got[1]]}"], 1, 1, True, str(c))


def bounds(tier):
    return {"worlds": list(WORLDS), "wheel": list(WHEEL), "directory": list(DIRS), "verbosity": [list(x) for x in VERB], "level": [list(x) for x in ZIPL], "spelling": list(STYLE), "library directory": ["abs", *LIB], "temporary directory": list(TMPD)}
