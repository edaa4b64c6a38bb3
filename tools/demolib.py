"""Helper of the demonstrations (a copy lies beside each demo): builds shared
libraries with gcc and wheels in a scratch directory, runs auditwheel there."""
import base64
import csv
import hashlib
import io
import os
import shutil
import subprocess
import sys
import tempfile
import zipfile
from pathlib import Path

T = Path(tempfile.mkdtemp(prefix="demo-"))
import atexit  # noqa: E402

atexit.register(shutil.rmtree, T, True)
for d in ("lib", "out", "tmp", "src", "cwd", "w"):
    (T / d).mkdir()
EXT = "pkg/ext.cpython-312-x86_64-linux-gnu.so"
PY = sys.executable


def so(path, soname=None, needed=(), rpath=None, runpath=None, code="int x_%(n)s(void){return 1;}", flags=()):
    """build a shared library; needed: names of libraries (empty stubs are linked)"""
    path = Path(path)
    path.parent.mkdir(parents=True, exist_ok=True)
    n = "".join(c if c.isalnum() else "_" for c in path.name)
    with tempfile.TemporaryDirectory(dir=T / "tmp") as d:
        c = Path(d) / "a.c"
        c.write_text(code % {"n": n} if "%(n)s" in code else code)
        libs = []
        for i, x in enumerate(needed):
            s = Path(d) / f"stub{i}.so"
            e = Path(d) / f"e{i}.c"
            e.write_text("")
            subprocess.check_call(["gcc", "-shared", "-nostdlib", "-Wl,-soname," + x, "-o", s, e])
            libs.append(str(s))
        a = ["gcc", "-shared", "-fPIC", "-nostdlib", "-Wl,--no-as-needed,--allow-shlib-undefined", "-o", str(path), str(c), *libs, *flags]
        if soname:
            a.append("-Wl,-soname," + soname)
        if rpath:
            a += ["-Wl,--disable-new-dtags", "-Wl,-rpath," + rpath]
        if runpath:
            a += ["-Wl,--enable-new-dtags", "-Wl,-rpath," + runpath]
        subprocess.check_call(a)
    return path


def ext(name=EXT, needed=(), code="", **kw):
    mod = Path(name).name.split(".")[0]
    return so(T / "src" / name, needed=needed, code=f"void *PyInit_{mod}(void){{return 0;}}\n{code}\nint u_{mod};", **kw)


def wheel(files, name="pkg", ver="1.0", tag="cp312-cp312-linux_x86_64", extra=(), wheel_extra="", record_extra=(), purelib="false"):
    """files: member -> path or bytes or (bytes, mode)"""
    di = f"{name}-{ver}.dist-info"
    a, b, c = tag.rsplit("-", 2) if tag.count("-") == 2 else tag.rsplit("-", 3)[1:]
    tags = "".join(f"Tag: {x}-{y}-{z}\n" for x in a.split(".") for y in b.split(".") for z in c.split("."))
    mem = {}
    for k, v in files.items():
        mode = 0o644
        if isinstance(v, tuple):
            v, mode = v
        mem[k] = (Path(v).read_bytes() if isinstance(v, (str, Path)) else v, 0o755 if ".so" in k and mode == 0o644 else mode)
    mem[f"{di}/METADATA"] = (f"Metadata-Version: 2.1\nName: {name}\nVersion: {ver}\n\n".encode(), 0o644)
    mem[f"{di}/WHEEL"] = (f"Wheel-Version: 1.0\nGenerator: demo\nRoot-Is-Purelib: {purelib}\n{tags}{wheel_extra}\n".encode(), 0o644)
    o = io.StringIO(newline="")
    w = csv.writer(o, lineterminator="\n")
    for k, (d, _) in mem.items():
        w.writerow([k, "sha256=" + base64.urlsafe_b64encode(hashlib.sha256(d).digest()).rstrip(b"=").decode(), len(d)])
    for r in record_extra:
        w.writerow(r)
    w.writerow([f"{di}/RECORD", "", ""])
    mem[f"{di}/RECORD"] = (o.getvalue().encode(), 0o644)
    p = T / "w" / f"{name}-{ver}-{tag}.whl"
    with zipfile.ZipFile(p, "w") as z:
        for k, (d, m) in mem.items():
            zi = zipfile.ZipInfo(k, (2020, 2, 2, 2, 2, 2))
            zi.external_attr = (0o100000 | m) << 16
            z.writestr(zi, d)
    return p


def env(**kw):
    e = {"PATH": os.path.dirname(PY) + ":" + os.environ.get("PATH", "/usr/bin:/bin"), "HOME": str(T), "TMPDIR": str(T / "tmp"), "LC_ALL": "C.UTF-8",
         "PYTHONDONTWRITEBYTECODE": "1"}
    if "PYTHONPATH" in os.environ:
        e["PYTHONPATH"] = os.environ["PYTHONPATH"]
    e.update({k: str(v) for k, v in kw.items()})
    return e


def aw(*args, cwd=None, envs=None):
    r = subprocess.run([PY, "-m", "auditwheel", *map(str, args)], cwd=cwd or T / "cwd", env=env(**(envs or {})), capture_output=True, text=True)
    return r


def repair(*args, libs=None, out=None, **kw):
    out = out or T / "out"
    a = ["repair", "-w", out]
    if libs is not False:
        a += ["--ldpaths", ":".join(str(x) for x in (libs or [T / "lib"]))]
    r = aw(*a, *args, **kw)
    outs = sorted(Path(out).glob("*.whl"))
    return r, outs


def must(r):
    if r.returncode:
        print(r.stdout, r.stderr)
        fail(f"auditwheel failed: {r.returncode}")


def fail(msg):
    print("DEMO FAILS:", msg)
    sys.exit(1)


def unpack(whl):
    d = Path(tempfile.mkdtemp(dir=T / "tmp"))
    with zipfile.ZipFile(whl) as z:
        z.extractall(d)
    return d


def dyn(path):
    """needed, soname, rpath, runpath"""
    o = subprocess.run(["readelf", "-dW", str(path)], capture_output=True, text=True, check=True).stdout
    r = {"needed": [], "soname": None, "rpath": None, "runpath": None}
    for ln in o.splitlines():
        for k, t in (("needed", "(NEEDED)"), ("soname", "(SONAME)"), ("rpath", "(RPATH)"), ("runpath", "(RUNPATH)")):
            if t in ln:
                v = ln[ln.index("[") + 1:ln.rindex("]")]
                r[k] = r[k] + [v] if k == "needed" else v
    return r
