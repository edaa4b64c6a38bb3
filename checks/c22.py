"""C22: ELF programs in the scripts folder still run after the repair."""

from __future__ import annotations

import itertools
import os
import shutil
import stat
import subprocess
import tempfile
import zipfile
from pathlib import Path

from mc import elfread, world
from mc.explore import CR
from mc.world import Box

ID, LEVEL = "C22", "model_checking"
RULE = ("Every combination of the name, mode, dependencies and number of ELF programs in the scripts folder, wheel name and version, repair option and wheel layout is repaired on the real command line; the output is installed the way installers do (in a virtual environment) and the program really run, "
        "with each list of arguments and environment; what it prints (arguments, environment, answers of its libraries), its exit status and signals are compared with the original program on the build machine. A state is (layout of the output, output of the program); transitions are the repair, the installation and each run.")
ASSUMPTIONS = ["the programs are compiled with the sandbox's gcc; the installation follows the wheel specification (scripts are made executable, #!python is replaced, other files keep their executable bit)"]
PROG = r"""
#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
#include <string.h>
%(decl)s
int main(int argc, char **argv) {
  printf("argc=%%d\n", argc);
  for (int i = 0; i < argc; i++) { printf("%%d:", (int)strlen(argv[i])); fwrite(argv[i], 1, strlen(argv[i]), stdout); printf("\n"); }
  printf("env=%%s answer=%%d\n", getenv("VP_ENV") ? getenv("VP_ENV") : "-", %(expr)s);
  fflush(stdout);
  if (argc > 1 && !strcmp(argv[1], "--exit")) return atoi(argv[2]);
  if (argc > 1 && !strcmp(argv[1], "--kill")) raise(SIGTERM);
  if (argc > 1 && !strcmp(argv[1], "--stdin")) { int c; while ((c = getchar()) != EOF) putchar(c); }
  return 0;
}
"""
NAMES = {"plain": "tool", "dash": "my-tool", "dot": "tool.bin", "so": "tool.so", "space": "a tool", "quote": "it's", "dquote": 'say"x"', "both": "a'b\"c", "uni": "outil-é", "back": "back\\slash", "dollar": "$HOME", "brace": "{0}%s", "hash": "#x",
         "dashes": "--tool", "upper": "TOOL", "exe": "tool.exe", "num": "7z", "back_n": "a\\nb", "star": "*", "tilde": "~", "comma": "a,b", "long": "t" * 120, "init": "__init__", "tab": "a\tb"}
MODES = {"755": 0o755, "700": 0o700, "555": 0o555, "644": 0o644, "777": 0o777, "none": None, "775": 0o775}
DEPS = {"lib": ["vp"], "chain": ["vp"], "none": [], "two": ["vp", "vq"]}
WH = {"plain": {}, "name": {"name": "My.Pkg_x"}, "ver": {"ver": "1!2.0+a.b"}, "build": {"build": "3x"}, "dotname": {"name": "a.b"}, "quote": {"name": "p_q9"}}
OPTS = {"": [], "strip": ["--strip"], "noupd": ["--no-update-tags"], "sdir": ["--lib-sdir", ".deps"], "sdir2": ["--lib-sdir", "/lib/x"], "excl": ["--exclude", "libvp.so.1"]}
ARGS = [[], ["a"], ["a b", "c'd", 'e"f', "", "é", "\\", "$HOME", "*", "-x", "--", "--help"], ["x"] * 40, ["\n", "\t ", "-c", "import sys"], ["--exit", "7"], ["--kill"], ["--stdin", "-"]]
_BIN: dict = {}


def setup():
    world.import_auditwheel()
    with tempfile.TemporaryDirectory(dir=world.scratch_root(), prefix=f"vp-aw-{os.getpid()}-cc") as d:
        def cc(out, src, *a):
            p = Path(d, "x.c")
            p.write_text(src)
            subprocess.run(["/usr/bin/gcc", "-O1", "-o", f"{d}/{out}", str(p), f"-L{d}", *a], check=True, env={"PATH": "/usr/bin:/bin", "TMPDIR": d})
            _BIN[out] = Path(d, out).read_bytes()

        so = ["-shared", "-fPIC"]
        cc("libvq.so.1", "int vq(void){return 1000;}", *so, "-Wl,-soname,libvq.so.1")
        cc("libvp.so.1", "int vp(void){return 42;}", *so, "-Wl,-soname,libvp.so.1")
        cc("libvp2.so.1", "int vq(void); int vp(void){return 42+vq();}", *so, "-Wl,-soname,libvp.so.1", "-l:libvq.so.1")
        cc("none", PROG % {"decl": "", "expr": "1"})
        cc("lib", PROG % {"decl": "int vp(void);", "expr": "vp()"}, "-l:libvp.so.1", f"-Wl,-rpath-link,{d}")
        cc("two", PROG % {"decl": "int vp(void); int vq(void);", "expr": "vp()+2*vq()"}, "-l:libvp.so.1", "-l:libvq.so.1")
        _BIN["chain"] = _BIN["lib"]


def cases(tier):
    full = tier == "thorough"
    d = {"name": "plain", "mode": "755", "dep": "lib", "wheel": "plain", "opt": "", "lay": "one"}
    dims = {"name": NAMES, "mode": MODES, "dep": DEPS, "wheel": WH, "opt": OPTS, "lay": ["one", "twice", "pair", "text", "data", "deep", "near", "again", "reverse"]}
    seen = set()
    for k1, k2 in itertools.combinations(dims, 2):
        for a in dims[k1]:
            for b in dims[k2]:
                if not full and k1 == "name" and k2 in ("wheel",) and list(NAMES).index(a) > 12 and b != "plain":
                    continue
                c = {**d, k1: a, k2: b}
                key = tuple(c.items())
                if key not in seen:
                    seen.add(key)
                    yield c
    if full:
        for k in itertools.product(NAMES, ["755", "644", "none"], DEPS, OPTS, dims["lay"]):
            c = {**d, **dict(zip(("name", "mode", "dep", "opt", "lay"), k))}
            key = tuple(c.items())
            if key not in seen:
                seen.add(key)
                yield c


def install(wheel: Path, root: str, pyver="python3.12"):
    """install a wheel in a fresh virtual environment, as the specification says"""
    v = Path(root)
    site = v / "lib" / pyver / "site-packages"
    (v / "bin").mkdir(parents=True)
    site.mkdir(parents=True)
    py = os.path.realpath("/opt/venv/bin/python")
    (v / "pyvenv.cfg").write_text(f"home = {os.path.dirname(py)}\ninclude-system-site-packages = false\n")
    (v / "bin/python").symlink_to(py)
    with zipfile.ZipFile(wheel) as z:
        for i in z.infolist():
            if i.is_dir():
                continue
            parts = i.filename.split("/")
            data = z.read(i)
            mode = 0o755 if (i.external_attr >> 16) & 0o111 else 0o644
            if len(parts) > 2 and parts[0].endswith(".data"):
                if parts[1] == "scripts":
                    p = v / "bin" / "/".join(parts[2:])
                    mode = 0o755
                    if data.startswith(b"#!python"):
                        first, _, rest = data.partition(b"\n")
                        data = f"#!{v}/bin/python".encode() + b"\n" + rest
                elif parts[1] == "data":
                    p = v / "/".join(parts[2:])
                else:
                    p = site / "/".join(parts[2:])
            else:
                p = site / i.filename
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(data)
            p.chmod(mode)


def run(cmd, argv, env, cwd):
    p = subprocess.run([cmd, *argv], executable=cmd, env=env, cwd=cwd, input=b"some input\n", capture_output=True, timeout=60)
    return p.returncode, p.stdout, p.stderr[-300:]


def run_case(c):
    v = []
    w = world.default_wheel()
    w.update(WH[c["wheel"]])
    name = NAMES[c["name"]]
    data = f"{w['name']}-{w['ver']}.data"
    progs = {f"{data}/scripts/{name}": c["dep"]}
    if c["lay"] == "pair":
        progs[f"{data}/scripts/other"] = "two"
    if c["lay"] == "twice":
        progs[f"{data}/scripts/{name}2"] = c["dep"]
    other = {}
    if c["lay"] == "data":
        other[f"{data}/data/bin/{name}x"] = "lib"
    if c["lay"] == "deep":
        other[f"{data}/scripts/sub/{name}"] = "lib"
    if c["lay"] == "near":
        other[f"scripts/{name}"] = "lib"
    mem = {}
    with Box({"wheels": [], "sys": {}}) as b:
        os.makedirs(f"{b.root}/sys/lib")
        for n in ("libvp.so.1", "libvq.so.1"):
            Path(b.root, "sys/lib", n).write_bytes(_BIN["libvp2.so.1" if n == "libvp.so.1" and c["dep"] == "chain" else n])
        w["files"] = {"pkg/__init__.py": world.text("x = 1\n")}
        src = b.root + "/in/" + world.wheel_filename(w)
        m = [(n, d, mo) for n, d, mo in world.wheel_members({**w, "record_extra": [*progs, *other]})]
        add = [(n, _BIN[k], MODES[c["mode"]]) for n, k in {**progs, **other}.items()]
        if c["lay"] == "text":
            add.append((f"{data}/scripts/run.sh", b"#!/bin/sh\necho hi\n", 0o755))
            add.append((f"{data}/scripts/run.py", b"#!python\nprint(1)\n", 0o644))
        m = [*add, *m] if c["lay"] != "reverse" else [*m[:-1], *add, m[-1]]
        with zipfile.ZipFile(src, "w") as z:
            for n, d, mo in m:
                zi = zipfile.ZipInfo(n, (2020, 2, 2, 2, 2, 2))
                zi.external_attr = 0 if mo is None else (stat.S_IFREG | mo) << 16
                z.writestr(zi, d)
        a = ["repair", "-w", "{OUT}", "--ldpaths", "{SYS}/lib", *OPTS[c["opt"]], src]
        r = b.run(a)
        outs = sorted(Path(b.root, "out").glob("*.whl"))
        if r.rc != 0 or len(outs) != 1:
            return CR([("repair", f"{r.rc} {r.err[-300:]}")], [str(c)], 1, 1, True, "")
        if c["lay"] == "again":
            r = b.run(["repair", "-w", f"{b.root}/out/2", "--ldpaths", "{SYS}/lib", *OPTS[c["opt"]], str(outs[0])])
            outs = sorted(Path(b.root, "out/2").glob("*.whl"))
            if r.rc != 0 or len(outs) != 1:
                return CR([("repair", f"again: {r.rc} {r.err[-300:]}")], [str(c)], 1, 1, True, "")
        o = world.read_wheel(outs[0])
        s = world.read_wheel(Path(src))
        n_tr = 1
        excl = c["opt"] == "excl"
        for n, k in progs.items():
            base = n.rsplit("/", 1)[1]
            moved = f"{w['name']}.scripts/{base}"
            ext = {x for x in DEPS[k] if not (excl and x == "vp")} | ({"vq"} if k == "chain" else set())
            if excl and k == "chain":
                ext = set()  # reachable through the excluded library only
            if not ext:
                same = o.data.get(n) == s.data[n] if c["opt"] != "strip" else elfread.is_elf(o.data.get(n, b""))
                if not same or moved in o.data:
                    v.append(("kept", f"{n} needs nothing but was changed"))
                continue
            if moved not in o.data or not elfread.is_elf(o.data[moved]) or elfread.is_elf(o.data.get(n, b"\x7fELF")):
                v.append(("shim", f"{n}: no program at {moved} or no shim in its place"))
                continue
            if not o.data[n].startswith(b"#!python\n"):
                v.append(("shim", f"{n} starts with {o.data[n][:20]}"))
            want = s.mode[n] & 0o777 | 0o600 if s.mode[n] else 0o644
            if o.mode[n] & 0o777 != want:
                v.append(("mode", f"{n}: {o.mode[n]:o}, was {s.mode[n]:o}"))
        for n in other:
            if n not in o.data or not elfread.is_elf(o.data[n]):
                v.append(("other", f"{n} is not a script but was replaced"))
        for n in s.data:
            if n.endswith(("run.sh", "run.py")) and o.data.get(n) != s.data[n]:
                v.append(("other", f"{n} was changed"))
        venv = f"{b.root}/venv"
        install(outs[0], venv)
        shutil.move(f"{b.root}/sys", f"{b.root}/gone")  # the user's machine does not have the libraries
        env = {"PATH": "/usr/bin:/bin", "VP_ENV": "x y'z", "LC_ALL": "C.UTF-8"}
        res = []
        args = ARGS if c["name"] == "plain" and c["lay"] == "one" else ARGS[:3]
        for n, k in progs.items():
            base = n.rsplit("/", 1)[1]
            orig = f"{b.root}/orig"
            os.makedirs(orig, exist_ok=True)
            ref = f"{orig}/{base}"
            Path(ref).write_bytes(_BIN[k])
            os.chmod(ref, 0o755)
            e2 = dict(env)
            lib = {"LD_LIBRARY_PATH": f"{b.root}/gone/lib"}
            if excl:
                e2 = {**env, **lib}
            for i, av in enumerate(args):
                # started as the shell does: by path; argv[0] is that path for a shim
                g = run(f"{venv}/bin/{base}", av, e2, f"{b.root}/run")
                x = run(ref, av, {**env, **lib}, f"{b.root}/run")
                n_tr += 1
                go = g[1].replace(f"{len(os.fsencode(venv + '/bin/' + base))}:{venv}/bin/{base}".encode(), b"ARGV0")
                xo = x[1].replace(f"{len(os.fsencode(ref))}:{ref}".encode(), b"ARGV0")
                if (g[0], go) != (x[0], xo):
                    v.append(("run", f"{base} {av}: {g[0]} {go[-200:]} {g[2]}; the original {x[0]} {xo[-200:]}"))
                    break
                res.append((g[0], go))
        st = f"{sorted(x for x in o.data if 'RECORD' not in x)} {res}"
    return CR(v, [st], n_tr, 1, True, f"{len(res)} runs")


def bounds(tier):
    return {"names": NAMES, "modes": list(MODES), "dependencies": list(DEPS), "wheels": WH, "options": OPTS, "argument lists": len(ARGS), "combinations": "all pairs of deviations" if tier == "quick" else "all pairs; all combinations of name, three modes, dependencies, options and layouts"}
