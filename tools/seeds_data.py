seed("b01-hash-prefix", "C03", "two different libraries of the same file name whose first 64 KiB are equal",
     "the short hash in the name of a grafted library is computed from the first block only, so the second library is taken for the first and never copied",
     [("hashfile.py", "while len(buf) > 0:", "if len(buf) > 0:")],
     """
a = so(T / "l1/libbig.so.1", "libbig.so.1", code="const char pad[200000]={1};", flags=["-Wl,--build-id=none"]).read_bytes()
(T / "l2").mkdir()
b = a + b"something else that counts"
(T / "l2/libbig.so.1").write_bytes(b)
(T / "l2/libbig.so.1").chmod(0o755)
e1 = ext("pkg/e1.cpython-312-x86_64-linux-gnu.so", ["libbig.so.1"], runpath=str(T / "l1"))
e2 = ext("pkg/e2.cpython-312-x86_64-linux-gnu.so", ["libbig.so.1"], runpath=str(T / "l2"))
assert a[:65536] == b[:65536] and a != b
r, o = repair(wheel({"pkg/e1.cpython-312-x86_64-linux-gnu.so": e1, "pkg/e2.cpython-312-x86_64-linux-gnu.so": e2}))
must(r)
u = unpack(o[0])
libs = sorted((u / "pkg.libs").iterdir())
if len(libs) != 2:
    fail(f"{len(libs)} libraries grafted")
""")

seed("b02-missing-transitive", "C06", "a library to graft whose own dependency is missing on the build machine",
     "a missing library that is only needed by another external library no longer makes the repair fail; the output wheel cannot be imported",
     [("policy/__init__.py", "                    if dep not in reqs:\n", "                    if dep not in reqs and lddtree.libraries[dep].realpath is not None:\n")],
     """
so(T / "lib/liba.so.1", "liba.so.1", ["libgone.so.3"])
r, o = repair(wheel({EXT: ext(needed=["liba.so.1"])}))
if r.returncode == 0 or o:
    fail(f"repair succeeded without libgone.so.3: {o}")
""")

seed("b03-braces", "C04", "an RPATH entry written ${ORIGIN}/... that leads to a library bundled in the wheel",
     "entries with braces are no longer recognised as pointing into the wheel and are dropped, so the bundled library is not found any more",
     [("repair.py", '        rpath = rpath.replace(f"${{{token}}}", target)  # ${TOKEN}\n', '        if token != "ORIGIN":\n            rpath = rpath.replace(f"${{{token}}}", target)  # ${TOKEN}\n')],
     """
so(T / "lib/liba.so.1", "liba.so.1")
inner = so(T / "src/pkg/deps/libin.so.1", "libin.so.1")
ext(needed=["liba.so.1", "libin.so.1"], rpath="${ORIGIN}/deps")
r, o = repair(wheel({EXT: T / "src" / EXT, "pkg/deps/libin.so.1": inner}))
must(r)
d = dyn(unpack(o[0]) / EXT)
if "ORIGIN}/deps" not in (d["rpath"] or "") and "$ORIGIN/deps" not in (d["rpath"] or ""):
    fail(f"libin.so.1 is not found any more: {d}")
""")

seed("b04-verneed", "C05", "an ELF file whose version requirements list the loader (ld-linux) before libc",
     "the versions required from libraries listed after the loader are not read, so a wheel that needs a new glibc is tagged for an old one",
     [("elfutils.py", '                "ld64.so.1",\n            ]:\n                continue\n', '                "ld64.so.1",\n            ]:\n                break\n')],
     """
import ctypes.util
(T / "v.map").write_text("GLIBC_2.3 { global: *; };")
(T / "c.map").write_text("GLIBC_2.34 { global: *; };")
for n, f, m in (("ld-linux-x86-64.so.2", "__tls_get_addr", "v.map"), ("libc.so.6", "f_c", "c.map")):
    so(T / "src" / n, n, code=f"void {f}(void){{}}", flags=[f"-Wl,--version-script={T / m}"])
e = ext(code="void __tls_get_addr(void);void f_c(void);void q(void){__tls_get_addr();f_c();}", needed=["liba.so.1"],
        flags=[str(T / "src/libc.so.6"), str(T / "src/ld-linux-x86-64.so.2")])
so(T / "lib/liba.so.1", "liba.so.1")
import subprocess
o = subprocess.run(["readelf", "-VW", e], capture_output=True, text=True).stdout
assert o.index("ld-linux") < o.index("libc.so.6"), o
(T / "lib/libc.so.6").write_bytes((T / "src/libc.so.6").read_bytes())
r, o = repair(wheel({EXT: e}))
must(r)
if "manylinux_2_34" not in o[0].name:
    fail(f"an extension that needs GLIBC_2.34 became {o[0].name}")
""")

seed("b05-wheel-tags", "C08", "a wheel that already lists the wanted platform in WHEEL besides the linux one",
     "WHEEL is rewritten only if tags are to be added: tags that only have to be removed stay in WHEEL while the file name drops them",
     [("wheeltools.py", "    if updated_tags != in_info_tags:\n", "    if new_tags:\n")],
     """
so(T / "lib/liba.so.1", "liba.so.1")
tag = "cp312-cp312-linux_x86_64.manylinux1_x86_64.manylinux_2_5_x86_64"
r, o = repair(wheel({EXT: ext(needed=["liba.so.1"])}, tag=tag))
must(r)
u = unpack(o[0])
t = {ln.split("-", 2)[2] for ln in (u / "pkg-1.0.dist-info/WHEEL").read_text().splitlines() if ln.startswith("Tag:")}
if t != set(o[0].stem.rsplit("-", 1)[1].split(".")):
    fail(f"{o[0].name}: {t}")
""")

seed("b06-record-name", "C09", "a data file called RECORD somewhere in the wheel",
     "every file called RECORD, not only that of the .dist-info directory, is listed without hash and size",
     [("wheeltools.py", "        return path == record_relpath\n", "        return path.name == record_relpath.name\n")],
     """
import csv
so(T / "lib/liba.so.1", "liba.so.1")
r, o = repair(wheel({EXT: ext(needed=["liba.so.1"]), "pkg/music/RECORD": b"vinyl"}))
must(r)
for row in csv.reader(open(unpack(o[0]) / "pkg-1.0.dist-info/RECORD")):
    if row[0] == "pkg/music/RECORD" and not row[1]:
        fail(f"no hash: {row}")
""")

seed("b07-strip-ignored", "C12", "a strip invocation that fails (disk full, unreadable file, missing tool output)",
     "a failing strip is ignored: the run reports success but wrote a wheel whose libraries are not stripped",
     [("repair.py", "from subprocess import check_call\n", "from subprocess import call\n"), ("repair.py", '        check_call(["strip", "-s", lib])\n', '        call(["strip", "-s", lib])\n')],
     """
so(T / "lib/liba.so.1", "liba.so.1")
b = T / "bin"
b.mkdir()
(b / "strip").write_text("#!/bin/sh\\nexit 1\\n")
(b / "strip").chmod(0o755)
e = env()
r, o = repair("--strip", wheel({EXT: ext(needed=["liba.so.1"])}), envs={"PATH": f"{b}:{e['PATH']}"})
if r.returncode == 0 or o:
    fail("strip failed, but the repair succeeded")
""")

seed("b08-exclude-link", "C15", "an --exclude pattern with the real path of a library that is reached through a symbolic link",
     "the pattern is matched against the path of the link instead of the file it leads to, so the excluded library is grafted",
     [("lddtree.py", "if realpath is not None and any(fnmatch(str(realpath), e) for e in exclude):", "if realpath is not None and any(fnmatch(str(fullpath), e) for e in exclude):")],
     """
import os
so(T / "real/libcuda_impl.so.1", "liba.so.1")
os.symlink(T / "real/libcuda_impl.so.1", T / "lib/liba.so.1")
so(T / "lib/libb.so.1", "libb.so.1")
r, o = repair("--exclude", str(T / "real") + "/*", wheel({EXT: ext(needed=["liba.so.1", "libb.so.1"])}))
must(r)
n = dyn(unpack(o[0]) / EXT)["needed"]
if "liba.so.1" not in n:
    fail(f"excluded library renamed: {n}")
""")

seed("b09-libpython2", "C25", "a dependency on the libpython of Python 2",
     "libpython2.7 is not recognised; it is grafted or makes the repair fail",
     [("lddtree.py", r'LIBPYTHON_RE = re.compile(r"^libpython\d+\.\d+m?.so(\.\d)*$")', r'LIBPYTHON_RE = re.compile(r"^libpython[3-9]\d*\.\d+m?.so(\.\d)*$")')],
     """
so(T / "lib/liba.so.1", "liba.so.1")
so(T / "lib/libpython2.7.so.1.0", "libpython2.7.so.1.0")
r, o = repair(wheel({EXT: ext(needed=["liba.so.1", "libpython2.7.so.1.0"])}))
must(r)
n = dyn(unpack(o[0]) / EXT)["needed"]
if any("libpython" in x for x in n):
    fail(f"still needs libpython: {n}")
""")

seed("b10-dir-order", "C11", "a directory listing in another order (another file system)",
     "subdirectories are archived in the order the file system lists them, so the same input gives different bytes",
     [("tools.py", "        # will recurse into subdirectories in reproducible order\n        dirnames.sort()\n", "        # will recurse into subdirectories in reproducible order\n        dirnames.sort(key=len)\n")],
     """
import os
(T / "sc").mkdir()
(T / "sc/sitecustomize.py").write_text('''
import os
r = os.scandir
class S:
    def __init__(self, *a):
        with r(*a) as it:
            self.i = iter(sorted(it, key=lambda e: e.name, reverse=os.environ["ORDER"] == "rev"))
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def __iter__(self): return self.i
    def __next__(self): return next(self.i)
    def close(self): pass
os.scandir = S
''')
so(T / "lib/liba.so.1", "liba.so.1")
w = wheel({EXT: ext(needed=["liba.so.1"]), "pkg/aa/x": b"1", "pkg/bb/x": b"2"})
res = []
for order in ("fwd", "rev"):
    pp = str(T / "sc") + (":" + os.environ["PYTHONPATH"] if "PYTHONPATH" in os.environ else "")
    r, o = repair(w, envs={"SOURCE_DATE_EPOCH": 1600000000, "ORDER": order, "PYTHONPATH": pp})
    must(r)
    res.append(o[0].read_bytes())
if res[0] != res[1]:
    fail("output depends on the order of directory listings")
""")

seed("b11-interp-leak", "C13", "several wheels in one command, the first with an executable; no --ldpaths",
     "the search path kept in a cache is modified in place, so the loader's directory of an executable of one wheel is searched for the libraries of the next",
     [("lddtree.py", "                if ldpaths is None:\n                    ldpaths = load_ld_paths(libc).copy()\n                # TODO", "                if ldpaths is None:\n                    ldpaths = load_ld_paths(libc)\n                # TODO")],
     """
so(T / "ld/libonly.so.1", "libonly.so.1")
exe = T / "src/tool"
import subprocess
(T / "e.c").write_text('const char i[] __attribute__((section(".interp"))) = "%s/ld/ld-linux-x86-64.so.2"; int x;' % T)
exe = so(T / "src/tool", needed=["libc.so.6"], code=(T / "e.c").read_text())
w1 = wheel({"pkg/tool": (exe.read_bytes(), 0o755), EXT: ext(needed=["libc.so.6"])}, name="one")
w2 = wheel({EXT: ext(needed=["libonly.so.1", "libc.so.6"])}, name="two")
r, o = repair(w2, libs=False)
assert r.returncode != 0, "libonly is not on the search path"
r, o = repair(w1, w2, libs=False)
if r.returncode == 0:
    fail("the second wheel was repaired only because of the first")
""")

seed("b12-ucs2-last", "C07", "a Python 2 wheel with two extension modules, the first of which was built for UCS2",
     "only the last extension module decides whether the wheel uses UCS2 symbols",
     [("wheel_abi.py", "uses_ucs2_symbols |= any(", "uses_ucs2_symbols = any(")],
     """
so(T / "lib/liba.so.1", "liba.so.1")
u = "extern int PyUnicodeUCS2_Foo(void);int q(void){return PyUnicodeUCS2_Foo();}"
def e(n, code):
    return so(T / "src" / n, needed=["liba.so.1", "libc.so.6"], code=f"void init{n[0]}(void){{}} {code}")
(T / "lib/libc.so.6").write_bytes(so(T / "src/libc.so.6", "libc.so.6").read_bytes())
a, b = e("a.so", u), e("b.so", "int z;")
import subprocess
# an undefined function symbol has no type unless the assembler is told
d = a.read_bytes()
(T / "s.s").write_text(".type PyUnicodeUCS2_Foo,@function\\n.globl inita\\n.type inita,@function\\ninita: call PyUnicodeUCS2_Foo@PLT\\n")
subprocess.check_call(["gcc", "-c", "-o", T / "s.o", T / "s.s"])
so(T / "src/a.so", needed=["liba.so.1", "libc.so.6"], code="int zz;", flags=[str(T / "s.o")])
r, o = repair(wheel({"a.so": a, "b.so": b}, tag="cp27-cp27m-linux_x86_64"), "--plat", "manylinux2014_x86_64")
if r.returncode == 0:
    fail(f"UCS2 extension tagged: {o}")
""")

seed("b13-rpath-substring", "C01", "an extension whose own search path has an entry inside the wheel that begins with the path of the grafted directory",
     "the grafted directory is looked for as a substring of the joined search path: with an entry such as $ORIGIN/../pkg.libs_old it is taken for already present and never added",
     [("repair.py", "    rpaths = unique_by_index([*rpaths, rpath])\n", "    if rpath not in \":\".join(rpaths):\n        rpaths = unique_by_index([*rpaths, rpath])\n")],
     """
so(T / "lib/liba.so.1", "liba.so.1")
inner = so(T / "src/pkg.libs_old/libin.so.1", "libin.so.1")
ext(needed=["liba.so.1", "libin.so.1"], rpath="$ORIGIN/../pkg.libs_old")
r, o = repair(wheel({EXT: T / "src" / EXT, "pkg.libs_old/libin.so.1": inner}))
must(r)
d = dyn(unpack(o[0]) / EXT)
if "$ORIGIN/../pkg.libs" not in d["rpath"].split(":"):
    fail(f"the grafted library is not found: {d}")
""")

seed("b14-whitelist-minor", "C02", "a library whose name extends a white-listed one by a further version component (libz.so.1.2)",
     "a needed library is taken for granted by the policy when its name merely begins with a white-listed name, and is left out of the wheel",
     [("policy/__init__.py", "                if lib in whitelist:\n", "                if lib in whitelist or lib.rpartition(\".\")[0] in whitelist:\n")],
     """
so(T / "lib/libz.so.1.2", "libz.so.1.2")
so(T / "lib/liba.so.1", "liba.so.1", ["libz.so.1.2"])
r, o = repair(wheel({EXT: ext(needed=["liba.so.1"])}))
must(r)
u = unpack(o[0])
libs = sorted(x.name for x in (u / "pkg.libs").iterdir())
if len(libs) != 2:
    fail(f"grafted: {libs}")
""")

seed("b15-dist-info-name", "C10", "a wheel with another directory whose name contains .dist-info, sorted after the metadata directory",
     "every directory with .dist-info in its name is put off to the end of the archive, so the metadata do not come last",
     [("tools.py", "                if dir_.endswith(\".dist-info\"):\n", "                if \".dist-info\" in dir_:\n")],
     """
so(T / "lib/liba.so.1", "liba.so.1")
w = wheel({EXT: ext(needed=["liba.so.1"]), "pkg.dist-info.d/x.txt": b"x"})
r, o = repair(w)
must(r)
n = [x for x in zipfile.ZipFile(o[0]).namelist() if not x.endswith("/")]
if not n[-1].startswith("pkg-1.0.dist-info/"):
    fail(f"{n}")
""")

seed("b16-origin-link", "C14", "a library found through a symbolic link in another directory, that itself finds its dependency by $ORIGIN",
     "$ORIGIN of a library is the directory of the link through which it was found instead of the directory of the real file",
     [("lddtree.py", "runpaths = parse_ld_paths(t.runpath, path=str(path), root=root)", "runpaths = parse_ld_paths(t.runpath, path=display or str(path), root=root)")],
     """
(T / "real").mkdir()
so(T / "real/libb.so.1", "libb.so.1")
so(T / "real/liba.so.1", "liba.so.1", ["libb.so.1"], runpath="$ORIGIN")
(T / "lib/liba.so.1").symlink_to("../real/liba.so.1")
r, o = repair(wheel({EXT: ext(needed=["liba.so.1"])}))
must(r)
n = sorted(x.name.split("-")[0] for x in (unpack(o[0]) / "pkg.libs").iterdir())
if n != ["liba", "libb"]:
    fail(f"grafted: {n}")
""")

seed("b17-empty-path", "C16", "a search path that was set to the empty string and is asked for before the edits are applied",
     "the query answers what the file has now, not what applying the edits will write",
     [("patcher.py", "            if update_info.rpath is not None:\n                return update_info.rpath\n", "            if update_info.rpath:\n                return update_info.rpath\n")],
     """
from auditwheel.patcher import ElfPatcher
os.environ["PATH"] = env()["PATH"]
p = ElfPatcher.get_patcher("patchelf", "manylinux_2_28_x86_64")
f = so(T / "lib/liba.so.1", "liba.so.1", rpath="/opt/old")
p.set_rpath(f, "")
asked = p.get_rpath(f)
p.apply_updates()
d = dyn(f)
if (d["rpath"] or d["runpath"] or "") != asked:
    fail(f"asked: {asked!r}, written: {d}")
""")

seed("b18-text-upgrade", "C20", "show as text of a wheel that needs both an external library and newer symbol versions than the best platforms allow",
     "the text lists libraries to eliminate only for the platforms whose symbol versions suffice not",
     [("main_show.py", "    for p in policies:\n        if p > winfo.overall_policy:\n            libs = winfo", "    for p in policies:\n        if p > winfo.sym_policy:\n            libs = winfo")],
     """
so(T / "lib/liba.so.1", "liba.so.1")
r = aw("-v", "show", "--ldpaths", T / "lib", wheel({EXT: ext(needed=["liba.so.1"])}))
must(r)
if "will need to be eliminated" not in r.stdout or "manylinux_2_17_x86_64" not in r.stdout:
    fail(r.stdout)
""")

seed("b19-musl-armv7", "C21", "a musl wheel for 32-bit ARM",
     "the name of musl's libc on armv7l is misspelt, so that every musllinux wheel for it counts libc itself as an external library",
     [("policy/__init__.py", 'Architecture.armv7l: "libc.musl-armv7.so.1",', 'Architecture.armv7l: "libc.musl-armv7l.so.1",')],
     """
from auditwheel.policy import WheelPolicies
from auditwheel.libc import Libc
from auditwheel.architecture import Architecture
for p in WheelPolicies(libc=Libc.MUSL, arch=Architecture.armv7l, musl_policy="musllinux_1_2"):
    if p.name.startswith("musllinux") and "libc.musl-armv7.so.1" not in p.whitelist:
        fail(f"{p.name}: {sorted(p.whitelist)}")
""")

seed("b20-nested-script", "C22", "an ELF program in a subdirectory of the scripts folder",
     "programs below a subdirectory of the scripts folder are taken for scripts, too, moved by their base name only and overwrite each other",
     [("repair.py", 'return len(components) == 3 and components[0].endswith(".data") and components[1] == "scripts"', 'return components[0].endswith(".data") and components[1] == "scripts"')],
     """
so(T / "lib/liba.so.1", "liba.so.1")
x = ext(needed=["liba.so.1"])
S = "pkg-1.0.data/scripts/sub/prog"
data = Path(x).read_bytes()
r, o = repair(wheel({EXT: x, S: (data, 0o755)}))
must(r)
u = unpack(o[0])
if (u / S).read_bytes()[:4] != b"\\x7fELF" or (u / "pkg.scripts").exists():
    fail("a program that is not a script was moved")
""")

seed("b21-dotdot-link", "C23", "a wheel directory written with .. after a symbolic link",
     "the wheel directory is normalised as text: link/../out names another directory than the system understands",
     [("main_repair.py", "    wheel_dir: Path = args.WHEEL_DIR.absolute()\n", "    wheel_dir: Path = Path(os.path.abspath(args.WHEEL_DIR))\n"),
      ("main_repair.py", "import logging\nimport shutil\n", "import logging\nimport os\nimport shutil\n")],
     """
so(T / "lib/liba.so.1", "liba.so.1")
(T / "far/deep").mkdir(parents=True)
(T / "cwd/link").symlink_to(T / "far/deep")
w = wheel({EXT: ext(needed=["liba.so.1"])})
r = aw("repair", "--ldpaths", T / "lib", "-w", "link/../wh", w)
must(r)
if not list((T / "far/wh").glob("*.whl")):
    fail(f"nothing in far/wh; cwd: {sorted(x.name for x in (T / 'cwd').iterdir())}")
""")

seed("b22-level-zero", "C24", "compression level 0 asked for",
     "level 0 (store) counts as not given and becomes the default level",
     [("main_repair.py", "            zip_compression_level=args.ZIP_COMPRESSION_LEVEL,\n", "            zip_compression_level=args.ZIP_COMPRESSION_LEVEL or zlib.Z_DEFAULT_COMPRESSION,\n")],
     """
so(T / "lib/liba.so.1", "liba.so.1")
w = wheel({EXT: ext(needed=["liba.so.1"]), "pkg/big.txt": b"a" * 100000})
r, o = repair("-z", "0", w)
must(r)
i = zipfile.ZipFile(o[0]).getinfo("pkg/big.txt")
if i.compress_size < i.file_size:
    fail(f"compressed: {i.compress_size} of {i.file_size}")
""")

seed("b23-zip-slip", "C26", "a wheel with a member whose name leads outside (../evil)",
     "members are unpacked by joining names: ../evil is written outside the temporary directory, and stays there",
     [("tools.py", "            extracted_path = Path(z.extract(member, out_dir))\n", """            extracted_path = Path(out_dir) / name
            if member.is_dir():
                extracted_path.mkdir(parents=True, exist_ok=True)
            else:
                extracted_path.parent.mkdir(parents=True, exist_ok=True)
                extracted_path.write_bytes(z.read(member))
""")],
     """
so(T / "lib/liba.so.1", "liba.so.1")
w = wheel({EXT: ext(needed=["liba.so.1"])})
with zipfile.ZipFile(w, "a") as z:
    z.writestr("../evil.txt", b"x")
r, o = repair(w)
if list(T.rglob("evil.txt")):
    fail(f"written outside: {list(T.rglob('evil.txt'))}")
""")

seed("b24-path-list", "C27", "an Android wheel with a library in the second directory of --ldpaths",
     "for Android only the first directory of --ldpaths is searched",
     [("wheel_abi.py", "    if libc == Libc.ANDROID and args_ldpaths is None:\n        args_ldpaths = \"\"\n", "    if libc == Libc.ANDROID:\n        args_ldpaths = (args_ldpaths or \"\").partition(\":\")[0]\n")],
     """
so(T / "lib2/liba.so", "liba.so")
E = "pkg/ext.cpython-313-x86_64-linux-android.so"
w = wheel({E: ext(E, needed=["liba.so"])}, tag="cp313-cp313-android_24_x86_64")
r, o = repair(w, libs=[T / "lib", T / "lib2"])
if r.returncode:
    fail(r.stderr[-300:])
""")

seed("b25-pure-leak", "C29", "repair --allow-pure-python-wheel of several wheels: a pure one, then one with a linux tag but no ELF file",
     "that a wheel is pure is remembered for the next wheel, which is then copied although its tag is not any",
     [("main_repair.py", "        is_pure_python = False\n        try:\n", "        try:\n"),
      ("main_repair.py", "    requested_architecture: Architecture | None = None\n", "    requested_architecture: Architecture | None = None\n    is_pure_python = False\n")],
     """
a = wheel({"pkg/__init__.py": b""}, tag="py3-none-any")
b = wheel({"pkg/__init__.py": b""})
r, o = repair("--allow-pure-python-wheel", a, b)
if r.returncode == 0 or len(o) != 1:
    fail(f"{r.returncode} {o}")
""")

seed("b26-arm-float", "C18", "a 32-bit ARM file that says neither soft nor hard float",
     "32-bit ARM files are refused only if they say soft-float: those that say nothing count as armv7l",
     [("lddtree.py", "        elif (flags & E_FLAGS.EF_ARM_ABI_FLOAT_HARD) != E_FLAGS.EF_ARM_ABI_FLOAT_HARD:\n", "        elif (flags & E_FLAGS.EF_ARM_ABI_FLOAT_SOFT) == E_FLAGS.EF_ARM_ABI_FLOAT_SOFT:\n")],
     """
import struct
def arm(flags):
    eh = b"\\x7fELF\\x01\\x01\\x01" + bytes(9) + struct.pack("<HHIIIIIHHHHHH", 3, 40, 1, 0, 52, 0, flags, 52, 32, 0, 40, 0, 0)
    return eh
import io as _io
from elftools.elf.elffile import ELFFile
from auditwheel.lddtree import _get_platform
for fl, ok in ((0x5000400, True), (0x5000200, False), (0x5000000, False)):
    p = _get_platform(ELFFile(_io.BytesIO(arm(fl))))
    if (p._base_arch is not None) != ok:
        fail(f"{fl:#x}: {p}")
""")

seed("b27-sbom-first", "C19", "a library that no package owns before one that a package owns, asked of a package manager one file at a time",
     "the first file the package manager does not know ends the search: libraries after it are missing in the SBOM",
     [("_vendor/whichprovides/__init__.py", """            if provided_by := cls.whichprovides1(filepath):
                results[filepath] = provided_by
""", """            provided_by = cls.whichprovides1(filepath)
            if provided_by is None:
                break
            results[filepath] = provided_by
""")],
     """
p = T / "bin"
p.mkdir()
(p / "apk").write_text('''#!/bin/sh
[ "$1" = --version ] && exit 0
case "$3" in *libown*) echo "$3 is owned by own-1.2-r3";; *) exit 1;; esac
''')
(p / "apk").chmod(0o755)
for i in ("a", "b", "own"):
    so(T / f"lib/lib{i}.so.1", f"lib{i}.so.1")
w = wheel({EXT: ext(needed=["liba.so.1", "libb.so.1", "libown.so.1"])})
for hs in range(8):
    r, o = repair(w, envs={"PATH": f"{p}:{os.path.dirname(PY)}:/usr/bin:/bin", "PYTHONHASHSEED": hs})
    must(r)
    s = unpack(o[0]) / "pkg-1.0.dist-info/sboms/auditwheel.cdx.json"
    if not s.exists() or "own@1.2-r3" not in s.read_text():
        fail("libown is not in the SBOM")
""")

seed("b28-shared-tmp", "C30", "two processes that have a wheel of the same name unpacked at the same time",
     "the wheel is unpacked to a directory named after the process group, which another run of the same shell shares",
     [("tmpdirs.py", "        self._tmpdir = TemporaryDirectory()\n", "        self._tmpdir = TemporaryDirectory(ignore_cleanup_errors=True)\n        os.rmdir(self._tmpdir.name)\n        self._tmpdir.name = os.path.join(os.path.dirname(self._tmpdir.name), f\"auditwheel-{os.getpgrp()}\")\n        os.makedirs(self._tmpdir.name, exist_ok=True)\n")],
     """
import shutil as sh
import time
so(T / "lib/liba.so.1", "liba.so.1")
p = T / "bin"
p.mkdir()
real = sh.which("patchelf", path=env()["PATH"])
(p / "patchelf").write_text(f'''#!/bin/sh
if [ "$1" != --version ] && [ -n "$WAITFOR" ]; then
  : > "$WAITFOR.seen"
  i=0; while [ ! -e "$WAITFOR" ] && [ $i -lt 300 ]; do sleep 0.1; i=$((i+1)); done
fi
exec {real} "$@"
''')
(p / "patchelf").chmod(0o755)
w = wheel({EXT: ext(needed=["liba.so.1"])})
(T / "o1").mkdir()
(T / "o2").mkdir()
a = subprocess.Popen([PY, "-m", "auditwheel", "repair", "--ldpaths", T / "lib", "-w", T / "o1", w], cwd=T / "cwd",
                     env=env(PATH=f"{p}:{os.path.dirname(PY)}:/usr/bin:/bin", WAITFOR=T / "go"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
for _ in range(300):
    if (T / "go.seen").exists() or a.poll() is not None:
        break
    time.sleep(0.1)
r, o = repair(w, out=T / "o2")
(T / "go").write_text("")
out = a.communicate()[0]
if a.returncode or r.returncode:
    fail(f"{a.returncode} {r.returncode} {out[-500:]} {r.stderr[-500:]}")
if list((T / "o1").glob("*.whl"))[0].name != o[0].name:
    fail("different names")
""")

seed("b29-tag-duplicates", "C17", "repair of a wheel that already has the platform in WHEEL",
     "the order of the Tag lines of WHEEL depends on whether they were there before: repairing the output again changes it",
     [("wheeltools.py", "    updated_tags = [tag for tag in in_info_tags if tag not in unwanted_tags]\n    updated_tags += new_tags\n", "    updated_tags = [tag for tag in in_info_tags if tag not in unwanted_tags]\n    updated_tags = sorted(updated_tags) + new_tags\n")],
     """
so(T / "lib/liba.so.1", "liba.so.1")
r, o = repair(wheel({EXT: ext(needed=["liba.so.1"])}))
must(r)
(T / "o2").mkdir()
r, o2 = repair("--plat", "manylinux_2_5_x86_64", o[0], out=T / "o2")
must(r)
W = "pkg-1.0.dist-info/WHEEL"
a, b = (zipfile.ZipFile(x).read(W) for x in (o[0], o2[0]))
if o[0].name != o2[0].name or a != b:
    fail(f"{a} {b}")
""")

seed("b30-no-crc", "C28", "a byte of a member of the wheel damaged in storage or transfer",
     "members are unpacked without looking at their CRC, so the damage goes into the output wheel, and the new RECORD vouches for it",
     [("tools.py", "            member = z.getinfo(name)\n", "            # the digests in RECORD are stronger, no need to compute the CRC, too\n            member = z.getinfo(name)\n            member.CRC = None  # type: ignore[assignment]\n")],
     """
import zipfile
so(T / "lib/liba.so.1", "liba.so.1")
w = wheel({EXT: ext(needed=["liba.so.1"]), "pkg/data.txt": b"some text that is not changed by anybody"})
raw = w.read_bytes()
with zipfile.ZipFile(w) as z:
    members = {n: z.read(n) for n in z.namelist()}
with zipfile.ZipFile(w, "w", zipfile.ZIP_STORED) as z:
    for n, d in members.items():
        z.writestr(n, d)
raw = w.read_bytes()
at = raw.index(b"some text that")
w.write_bytes(raw[:at] + b"S" + raw[at + 1:])
r, o = repair(w)
if r.returncode == 0 or o:
    fail("a damaged wheel was repaired")
""")

seed("b31-redundant-needed", "C31", "a grafted library that needs two libraries, the second of which needs the first, both defining the same function",
     "a DT_NEEDED entry of a grafted library that another one brings along anyway is dropped, so the libraries are loaded in another order and a call is bound to another definition",
     [("repair.py", "            needed = elf_read_dt_needed(path)  # TODO perf, we already read those at some point\n",
       "            needed = elf_read_dt_needed(path)  # TODO perf, we already read those at some point\n"
       "            # the dependencies of the dependencies are loaded anyway\n"
       "            direct = [path.parent / soname_map[n] for n in needed if n in soname_map]\n"
       "            indirect = {n for lib in direct if lib != path for n in elf_read_dt_needed(lib)}\n"
       "            patcher.remove_needed(path, *[n for n in needed if n in soname_map and n in indirect])\n"
       "            needed = [n for n in needed if n not in indirect]\n")],
     """
import shutil
import subprocess
import sys
so(T / "lib/libc1.so.1", "libc1.so.1", code="int who(void){return 1;}")
so(T / "lib/libb1.so.1", "libb1.so.1", ["libc1.so.1"], code="int who(void){return 2;}")
so(T / "lib/liba1.so.1", "liba1.so.1", ["libc1.so.1", "libb1.so.1"], code="int who(void);int ask(void){return who();}")
e = ext(needed=["liba1.so.1"], code="int ask(void);int answer(void){return ask();}")
def ask(f, **env):
    r = subprocess.run([sys.executable, "-c", f"import ctypes;print(ctypes.CDLL({str(f)!r}).answer())"], capture_output=True, text=True, env=env)
    return r.stdout.strip() or r.stderr
before = ask(e, LD_LIBRARY_PATH=str(T / "lib"))
assert before == "1", before
r, o = repair(wheel({EXT: e}))
must(r)
u = unpack(o[0])
shutil.rmtree(T / "lib")
after = ask(u / EXT)
if after != before:
    fail(f"the extension answered {before} before and {after} after the repair")
""")

seed("b32-strip-moved", "C32", "--strip of a wheel with an ELF program in the scripts folder that needs a grafted library",
     "the programs that were moved out of the scripts folder are left out when the symbols are stripped",
     [("repair.py", "            extensions = [script_shims.get(path, path) for path in external_refs_by_fn]\n",
       "            # there is a shim in the place of a script, and strip understands ELF files only\n"
       "            extensions = [path for path in external_refs_by_fn if path not in script_shims]\n")],
     """
so(T / "lib/liba.so.1", "liba.so.1")
x = ext(needed=["liba.so.1"], code="static int hidden_name(void){return 3;}\\nint f(void){return hidden_name();}")
S = "pkg-1.0.data/scripts/prog"
data = Path(x).read_bytes()
assert b"hidden_name" in data
r, o = repair("--strip", wheel({EXT: x, S: (data, 0o755)}))
must(r)
u = unpack(o[0])
elfs = [f for f in u.rglob("*") if f.is_file() and f.read_bytes()[:4] == b"\\x7fELF"]
bad = [str(f.relative_to(u)) for f in elfs if b"hidden_name" in f.read_bytes() or b".symtab" in f.read_bytes()]
if bad or len(elfs) != 3:
    fail(f"not stripped: {bad} of {elfs}")
""")
