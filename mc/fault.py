"""Fault injection at the libc boundary: builds and drives mc/shim/vpshim.c."""

from __future__ import annotations

import ctypes
import errno
import os
import signal
import subprocess
import sys
import tempfile
from pathlib import Path

SRC = Path(__file__).parent / "shim" / "vpshim.c"
MODES = {"record": 0, "err": 1, "err_grow": 2, "err_all": 3, "kill": 4, "kill_after": 5, "torn_kill": 6, "short": 7, "full": 8, "signal": 9}
_lib = None


def preload() -> None:
    """Re-execute this process with the shim preloaded (once)."""
    if os.environ.get("VP_SHIM"):
        os.unlink(os.environ["VP_SHIM"])  # mapped already
        return
    fd, so = tempfile.mkstemp(prefix="vp-aw-shim-", suffix=".so", dir="/tmp")
    os.close(fd)
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", so, str(SRC), "-ldl"], check=True)
    os.environ.update(LD_PRELOAD=so, VP_SHIM=so)
    os.execv(sys.executable, [sys.executable, "-m", "mc.run", *sys.argv[1:]])


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.vp_trace.restype = ctypes.c_char_p
        _lib.vp_clock.argtypes = [ctypes.c_longlong]
    return _lib


def num(e) -> int:
    return e if isinstance(e, int) else getattr(errno, e, None) or getattr(signal, e)


def start(f: dict) -> None:
    lib().vp_start(f["root"].encode(), f.get("skip", "").encode(), MODES[f["mode"]], f.get("k", 0), num(f.get("err", "EIO")),
                   int(f.get("reads", False)), f.get("kill", 0))


def stop() -> list[str]:
    lib().vp_stop()
    return lib().vp_trace().decode("utf-8", "replace").splitlines()


class Schedule:
    """Two or more commands in one box, run under a controlled scheduler: a
    process stops before every operation on the shared directories and goes on
    when it is granted its turn."""

    def __init__(self, box, argvs, shared, tmp):
        import pickle

        self.box = box
        self.procs = []
        for i, argv in enumerate(argvs):
            ev_r, ev_w = os.pipe()
            gr_r, gr_w = os.pipe()
            re_r, re_w = os.pipe()
            pid = os.fork()
            leader = self.procs[0]["pid"] if self.procs else pid
            if pid == 0:
                try:
                    os.setpgid(0, leader)
                    for q in self.procs:
                        for fd in (q["ev"], q["gr"], q["re"]):
                            os.close(fd)
                    for fd in (ev_r, gr_w, re_r):
                        os.close(fd)
                    box.nrun = 100 * (i + 1)
                    r = box.run(argv, opts={"names": f"p{i}x", "sched": (box.root, shared, tmp, ev_w, gr_r)})
                    os.write(ev_w, b"!\n")
                    with os.fdopen(re_w, "wb") as f:
                        pickle.dump(r, f)
                finally:
                    os._exit(0)
            try:
                os.setpgid(pid, leader)
            except OSError:
                pass  # it has done so itself
            for fd in (ev_w, gr_r, re_w):
                os.close(fd)
            self.procs.append({"pid": pid, "ev": ev_r, "gr": gr_w, "re": re_r, "buf": b"", "next": None})
        for q in self.procs:
            self._wait(q)
        self.log = []

    def _wait(self, q):
        while b"\n" not in q["buf"]:
            b = os.read(q["ev"], 4096)
            if not b:
                q["next"] = None
                return
            q["buf"] += b
        ln, q["buf"] = q["buf"].split(b"\n", 1)
        q["next"] = None if ln == b"!" else ln.decode("utf-8", "replace")

    def done(self, i):
        return self.procs[i]["next"] is None

    def step(self, i):
        q = self.procs[i]
        self.log.append(f"{i}:{q['next']}")
        os.write(q["gr"], b"g")
        self._wait(q)

    def results(self):
        import pickle

        out = []
        for q in self.procs:
            with os.fdopen(q["re"], "rb") as f:
                out.append(pickle.load(f))
            os.waitpid(q["pid"], 0)
            os.close(q["ev"])
            os.close(q["gr"])
        return out


def sched(a) -> None:
    root, shared, tmp, out, inn = a
    lib().vp_sched(root.encode(), shared.encode(), tmp.encode(), out, inn)
