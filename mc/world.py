"""Worlds: a declarative description of a wheel + a build machine + a command
line, materialised in a scratch directory, on which the real auditwheel CLI is
run (in a forked child) and everything observable is recorded."""

from __future__ import annotations

import base64
import copy
import csv
import gc
import hashlib
import io
import json
import os
import pickle
import shutil
import signal
import stat
import sys
import time
import traceback
import zipfile
from dataclasses import dataclass, field
from pathlib import Path

from mc import elfgen, elfread, fault

REPO_SRC = os.environ.get("VP_REPO", "/repo") + "/src"  # VP_REPO: development only
TOOLS = {"patchelf": "/opt/venv/bin/patchelf", "strip": "/usr/bin/strip"}


def scratch_root() -> str:
    for base in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize > 1 << 30 and os.access(base, os.W_OK):
                return base
        except OSError:
            continue
    return "/tmp"


# --------------------------------------------------------------------------
# specs


def elf(**kw) -> dict:
    kw.setdefault("machine", "x86_64")
    return {"kind": "elf", "elf": kw, "mode": kw.pop("mode", 0o755)}


def text(data: str, mode: int = 0o644) -> dict:
    return {"kind": "text", "data": data, "mode": mode}


def subst(o, m: dict):
    if isinstance(o, str):
        for k, v in m.items():
            o = o.replace(k, v)
        return o
    if isinstance(o, list):
        return [subst(x, m) for x in o]
    if isinstance(o, dict):
        return {k: subst(v, m) for k, v in o.items()}
    return o


def content(f: dict) -> bytes:
    if f["kind"] == "elf":
        return elfgen.build(f["elf"])
    if f["kind"] == "text":
        return f["data"].encode()
    if f["kind"] == "raw":
        return f["data"]
    if f["kind"] == "big":
        return (f["data"].encode() * (f["size"] // len(f["data"]) + 1))[: f["size"]]
    raise ValueError(f["kind"])


def default_wheel(name="pkg", ver="1.0", tags=("cp312", "cp312", "linux_x86_64"), build="") -> dict:
    return {
        "name": name, "ver": ver, "build": build, "py": tags[0], "abi": tags[1], "plat": tags[2],
        "files": {}, "dirs": [], "purelib": "false", "extra_wheel_headers": [],
        "dist_files": {}, "record_extra": [], "record_drop": [],
    }


def wheel_filename(w: dict) -> str:
    b = f"-{w['build']}" if w["build"] else ""
    return f"{w['name']}-{w['ver']}{b}-{w['py']}-{w['abi']}-{w['plat']}.whl"


def wheel_tags(w: dict) -> list[str]:
    return [f"{p}-{a}-{t}" for p in w["py"].split(".") for a in w["abi"].split(".") for t in w["plat"].split(".")]


def wheel_members(w: dict) -> list[tuple[str, bytes, int]]:
    """(name, data, mode) in archive order, RECORD last."""
    di = f"{w['name']}-{w['ver']}.dist-info"
    mem: list[tuple[str, bytes, int]] = []
    for p, f in w["files"].items():
        mem.append((p, content(f), f.get("mode", 0o644)))
    wh = f"Wheel-Version: 1.0\nGenerator: vp (1)\nRoot-Is-Purelib: {w['purelib']}\n"
    for h in w["extra_wheel_headers"]:
        wh += h + "\n"
    for t in w.get("wheel_tags") or wheel_tags(w):
        wh += f"Tag: {t}\n"
    if w["build"]:
        wh += f"Build: {w['build']}\n"
    wh += "\n"
    mem.append((f"{di}/METADATA", f"Metadata-Version: 2.1\nName: {w['name']}\nVersion: {w['ver']}\n\nbody é\n".encode(), 0o644))
    mem.append((f"{di}/WHEEL", wh.encode(), 0o644))
    for p, f in w["dist_files"].items():
        mem.append((f"{di}/{p}", content(f), f.get("mode", 0o644)))
    out = io.StringIO(newline="")
    wr = csv.writer(out, lineterminator=w.get("record_eol", "\n"))
    for p, d, _ in mem:
        if p in w["record_drop"] or p.endswith((".jws", ".p7s")):
            continue
        h = base64.urlsafe_b64encode(hashlib.sha256(d).digest()).rstrip(b"=").decode()
        wr.writerow([p, f"sha256={h}", len(d)])
    for p in w["record_extra"]:
        wr.writerow([p, "", ""])
    wr.writerow([f"{di}/RECORD", "", ""])
    mem.append((f"{di}/RECORD", out.getvalue().encode(), 0o644))
    return mem


def write_wheel(w: dict, path: Path) -> None:
    with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED) as z:
        for d in w["dirs"]:
            zi = zipfile.ZipInfo(d.rstrip("/") + "/", (2020, 2, 2, 2, 2, 2))
            zi.external_attr = (stat.S_IFDIR | 0o755) << 16 | 0x10
            z.writestr(zi, b"")
        mem = wheel_members(w)
        if w.get("archive_order") == "reverse":
            mem = mem[::-1]
        for n, d, mode in mem:
            zi = zipfile.ZipInfo(n, (2020, 2, 2, 2, 2, 2))
            zi.compress_type = zipfile.ZIP_DEFLATED
            zi.external_attr = 0x20 if mode is None else (stat.S_IFREG | mode) << 16
            z.writestr(zi, d)


# --------------------------------------------------------------------------
# materialise and run


@dataclass
class Wheel:
    """An output wheel as read back from disk."""

    filename: str
    order: list[str]
    data: dict[str, bytes]
    mode: dict[str, int]
    dates: list
    raw_sha: str
    bad: str | None = None

    @property
    def plat(self) -> str:
        return self.filename[:-4].rsplit("-", 1)[1]


def read_wheel(path: Path) -> Wheel:
    raw = path.read_bytes()
    w = Wheel(path.name, [], {}, {}, [], hashlib.sha256(raw).hexdigest())
    try:
        with zipfile.ZipFile(io.BytesIO(raw)) as z:
            for i in z.infolist():
                w.order.append(i.filename)
                w.dates.append(i.date_time)
                w.mode[i.filename] = i.external_attr >> 16
                if not i.filename.endswith("/"):
                    w.data[i.filename] = z.read(i)
    except Exception as e:  # noqa: BLE001
        w.bad = f"{type(e).__name__}: {e}"
    return w


@dataclass
class Result:
    rc: object  # int exit status, or "exc:<Type>: msg", "timeout", "signal:n"
    out: str
    err: str
    cwd_ok: bool = True
    extra: object = None
    wall: float = 0.0
    trace: list | None = None


def import_auditwheel():
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    import auditwheel.main  # noqa: F401
    import auditwheel.main_repair  # noqa: F401
    import auditwheel.repair  # noqa: F401
    import auditwheel.wheel_abi  # noqa: F401

    assert auditwheel.__file__.startswith(REPO_SRC), auditwheel.__file__
    import auditwheel.lddtree  # noqa: F401
    import auditwheel.main_lddtree  # noqa: F401
    import auditwheel.main_show  # noqa: F401
    import auditwheel.sboms  # noqa: F401

    gc.collect()
    gc.freeze()
    return auditwheel


class _Names:
    """Deterministic candidate names for tempfile: tmpw0, tmpw1, ... so that a
    world can talk about the scratch directory the tool is going to use."""

    def __init__(self, prefix="w"):
        self.i = -1
        self.prefix = prefix

    def __iter__(self):
        return self

    def __next__(self):
        self.i += 1
        return f"{self.prefix}{self.i}"


def _own_environment(opts: dict) -> None:
    """Take over the sources of nondeterminism of this (forked) process."""
    import tempfile

    tempfile.tempdir = None
    if not opts.get("random_names"):
        tempfile._name_sequence = _Names(opts.get("names", "w"))
    os.umask(opts.get("umask", 0o022))
    if "clock" in opts:
        fault.lib().vp_clock(opts["clock"])
    if "machine" in opts:
        fault.lib().vp_machine(opts["machine"].encode())
    order = opts.get("scandir")
    if order:
        real = os.scandir

        class Scan:
            def __init__(self, *a):
                with real(*a) as it:
                    self.l = sorted(it, key=lambda e: hashlib.sha256((order + os.fsdecode(e.name)).encode()).digest()
                                    if order.startswith("h") else os.fsdecode(e.name).encode(errors="surrogateescape"), reverse=order == "rev")
                if order.startswith("p"):  # the n-th permutation (Lehmer code)
                    n, src, out = int(order[1:]), self.l, []
                    while src:
                        n, i = divmod(n, len(src))
                        out.append(src.pop(i))
                    self.l = out
                self.i = iter(self.l)

            def __iter__(self):
                return self.i

            def __next__(self):
                return next(self.i)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def close(self):
                pass

        os.scandir = Scan
        reall = os.listdir
        os.listdir = lambda *a: [e.name for e in Scan(*a)] if not (a and isinstance(a[0], int)) else reall(*a)


def run_forked(fn, *, env: dict, cwd: str, out: str, err: str, timeout: float = 60, opts: dict | None = None) -> Result:
    """Run fn() in a forked child with its own env, cwd and stdio.  fn returns a
    picklable (rc, extra)."""
    r, w = os.pipe()
    t0 = time.time()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            # concurrent commands share a session and a process group, as from one shell
            if not (opts and "sched" in opts):
                os.setsid()
            os.close(r)
            fo = os.open(out, os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
            fe = os.open(err, os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
            fi = os.open("/dev/null", os.O_RDONLY)
            os.dup2(fi, 0)
            os.dup2(fo, 1)
            os.dup2(fe, 2)
            sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb", closefd=False), encoding="utf-8", line_buffering=True)
            sys.stderr = io.TextIOWrapper(os.fdopen(2, "wb", closefd=False), encoding="utf-8", errors="backslashreplace", line_buffering=True)
            os.environ.clear()
            os.environ.update(env)
            os.chdir(cwd)
            gc.disable()
            _own_environment(opts or {})
            if opts and "fault" in opts:
                fault.start(opts["fault"])
            if opts and "sched" in opts:
                fault.sched(opts["sched"])
            try:
                res = fn()
            except SystemExit as e:
                c = e.code
                res = (0 if c is None else c if isinstance(c, int) else 1, None)
            except BaseException as e:  # noqa: BLE001
                res = (f"exc:{type(e).__name__}: {e}", traceback.format_exc())
            try:
                same = os.getcwd() == os.path.realpath(cwd)
            except OSError:
                same = False
            sys.stdout.flush()
            sys.stderr.flush()
            import atexit

            atexit._run_exitfuncs()  # what a real process exit would do
            trace = fault.stop() if opts and ("fault" in opts or "sched" in opts) else None
            with os.fdopen(w, "wb") as f:
                pickle.dump((res, same, trace), f)
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
            code = 99
        os._exit(code)
    os.close(w)
    import select

    chunks = []
    deadline = t0 + timeout
    rc = None
    with os.fdopen(r, "rb", buffering=0) as f:
        while True:
            left = deadline - time.time()
            if left <= 0 or not select.select([f], [], [], left)[0]:
                (os.kill if opts and "sched" in opts else os.killpg)(pid, signal.SIGKILL)
                rc = "timeout"
                break
            b = f.read(1 << 16)
            if not b:
                break
            chunks.append(b)
    _, st = os.waitpid(pid, 0)
    o = Path(out).read_text(errors="replace") if os.path.exists(out) else ""
    e = Path(err).read_text(errors="replace") if os.path.exists(err) else ""
    if rc == "timeout":
        return Result("timeout", o, e, wall=time.time() - t0)
    if os.WIFSIGNALED(st):
        return Result(f"signal:{os.WTERMSIG(st)}", o, e, wall=time.time() - t0)
    if not chunks:
        return Result(f"died:{os.WEXITSTATUS(st)}", o, e, wall=time.time() - t0)
    res, same, trace = pickle.loads(b"".join(chunks))
    return Result(res[0], o, e, same, res[1], time.time() - t0, trace)


def cli(argv: list[str]):
    """auditwheel's own entry point, in this process."""

    def run():
        sys.argv = ["auditwheel", *argv]
        from auditwheel.main import main

        rc = main()
        return (0 if rc is None else rc, None)

    return run


def tree_digest(root: str) -> dict[str, str]:
    out = {}
    for d, dn, fn in os.walk(root):
        dn.sort()
        for x in dn:
            p = os.path.join(d, x)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = "link:" + os.readlink(p)
            else:
                out[os.path.relpath(p, root)] = f"dir:{os.stat(p).st_mode:o}"
        for x in sorted(fn):
            p = os.path.join(d, x)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = "link:" + os.readlink(p)
            else:
                out[os.path.relpath(p, root)] = f"{os.stat(p).st_mode:o}:" + hashlib.sha256(Path(p).read_bytes()).hexdigest()
    return out


class Box:
    """Scratch directory of one world."""

    _n = 0

    def __init__(self, spec: dict):
        Box._n += 1
        self.root = f"{scratch_root()}/{spec.get('box') or f'vp-aw-{os.getpid()}-{Box._n}'}"
        shutil.rmtree(self.root, ignore_errors=True)
        for d in ("sys", "in", "out", "tmp", "run", "log", "bin"):
            os.makedirs(f"{self.root}/{d}")
        for n, t in TOOLS.items():
            if n not in spec.get("no_tools", ()):
                os.symlink(t, f"{self.root}/bin/{n}")
        self.map = {"{SYS}": f"{self.root}/sys", "{OUT}": f"{self.root}/out", "{IN}": f"{self.root}/in",
                    "{ROOT}": self.root, "{TMP}": f"{self.root}/tmp"}
        self.spec = subst(copy.deepcopy(spec), self.map)
        for rel, f in self.spec.get("sys", {}).items():
            p = Path(self.root) / "sys" / rel
            p.parent.mkdir(parents=True, exist_ok=True)
            if f["kind"] == "link":
                p.symlink_to(f["to"])
            elif f["kind"] == "dir":
                p.mkdir(exist_ok=True)
            else:
                p.write_bytes(content(f))
                p.chmod(f.get("mode", 0o755))
        self.wheels = []
        for w in self.spec["wheels"]:
            p = Path(self.root) / "in" / wheel_filename(w)
            write_wheel(w, p)
            self.wheels.append(p)
        for rel, f in self.spec.get("out", {}).items():
            p = Path(self.root) / "out" / rel
            p.write_bytes(content(f))
        if self.spec.get("rmout"):
            os.rmdir(f"{self.root}/out")
        for n, body in self.spec.get("bin", {}).items():
            p = Path(self.root) / "bin" / n
            if p.is_symlink():
                p.unlink()
            p.write_text(body)
            p.chmod(0o755)
        self.nrun = 0

    def env(self) -> dict:
        e = {"PATH": f"{self.root}/bin", "HOME": self.root, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
             "TMPDIR": f"{self.root}/tmp", "PYTHONDONTWRITEBYTECODE": "1"}
        e.update(self.spec.get("env", {}))
        return e

    def run(self, fn_or_argv, timeout=60, cwd=None, env=None, opts=None) -> Result:
        self.nrun += 1
        fn_or_argv = subst(fn_or_argv, self.map) if isinstance(fn_or_argv, list) else fn_or_argv
        fn = cli(fn_or_argv) if isinstance(fn_or_argv, list) else fn_or_argv
        return run_forked(fn, env={**self.env(), **subst(env or {}, self.map)}, opts={**self.spec.get("opts", {}), **(opts or {})},
                          cwd=cwd or f"{self.root}/run", out=f"{self.root}/log/{self.nrun}.out",
                          err=f"{self.root}/log/{self.nrun}.err", timeout=timeout)

    def outputs(self, d="out") -> list[Wheel]:
        return [read_wheel(p) for p in sorted((Path(self.root) / d).glob("*.whl"))]

    def tmp_left(self) -> list[str]:
        return sorted(os.listdir(f"{self.root}/tmp"))

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
