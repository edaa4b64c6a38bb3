"""The real dynamic loader of this machine as a witness for the reference
loader of mc/ref.py: the files are laid out as installed and `ld.so` in trace mode
names every object it loads, without running anything."""

from __future__ import annotations

import os
import re
import shutil
import subprocess

from mc import world

LDSO = "/lib64/ld-linux-x86-64.so.2"
_LINE = re.compile(r"^\t(?:((?:(?! => ).)+) => )?(not found|(?:(?! => |\(0x).)+)(?: \(0x[0-9a-f]+\))?\n(?=\t|\Z)", re.M | re.S)


def available() -> bool:
    return os.access(LDSO, os.X_OK)


class Tree:
    """A directory with the files of an installation"""

    def __init__(self, files: dict[str, bytes]):
        self.root = os.path.realpath(world.scratch_root()) + f"/vp-aw-{os.getpid()}-ld"
        shutil.rmtree(self.root, ignore_errors=True)
        for p, d in files.items():
            q = self.root + p
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f:
                f.write(d)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.root, ignore_errors=True)

    def load(self, path: str, env: str = "") -> tuple[dict[str, str], set[str], str]:
        """{path in the tree: name asked for}, names not found or found outside of the tree, complaints"""
        e = {"LC_ALL": "C", "LD_TRACE_LOADED_OBJECTS": "1"}
        if env:
            e["LD_LIBRARY_PATH"] = env
        r = subprocess.run([LDSO, "--glibc-hwcaps-mask", "none", self.root + path], env=e, cwd="/", capture_output=True, text=True, errors="surrogateescape")
        got, other = {}, set()
        if r.returncode != 0:
            return got, other, f"status {r.returncode}: {(r.stderr or r.stdout)[-300:]}".replace(self.root, "")
        for m in _LINE.finditer(r.stdout):
            name, where = m.group(1), m.group(2)
            real = os.path.realpath(where)
            if where != "not found" and real.startswith(self.root + "/"):
                got[real[len(self.root):]] = name or where
            else:
                other.add(name or where)
        return got, other, r.stderr.replace(self.root, "")


def trace(path: str, env: str = "") -> dict[str, str | None] | str:
    """{name asked for: file found} or a complaint, for a file where it lies"""
    e = {"LC_ALL": "C", "LD_TRACE_LOADED_OBJECTS": "1"}
    if env:
        e["LD_LIBRARY_PATH"] = env
    r = subprocess.run([LDSO, "--glibc-hwcaps-mask", "none", path], env=e, cwd="/", capture_output=True, text=True, errors="surrogateescape")
    if r.returncode != 0:
        return f"status {r.returncode}: {(r.stderr or r.stdout)[-300:]}"
    return {m.group(1).rpartition("\n\t")[2]: None if m.group(2) == "not found" else m.group(2) for m in _LINE.finditer(r.stdout) if m.group(1)}
