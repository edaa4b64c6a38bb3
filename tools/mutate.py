"""Mutation campaign (development only): which small changes of the source that
pass the test suite does no check notice?

tools/mutate.py OUT [--files a,b] [--limit N] [--jobs J] [--seed S] [--cap SECONDS] [--per-line K]

Every mutant lives in a scratch copy of /repo; results are appended to OUT (JSON
lines), a rerun continues where it stopped."""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import tempfile
import threading
from pathlib import Path

V = Path(__file__).resolve().parent.parent
BASE = Path(os.environ.get("MUT_BASE", "/repo"))  # a snapshot, if the tree is edited meanwhile
SRC = BASE / "src/auditwheel"
ORDER = {
    "lddtree.py": "C14 C15 C25 C01 C18 C27 C02 C03 C17 C13",
    "wheel_abi.py": "C05 C07 C18 C02 C06 C16 C17 C01 C25 C13 C21 C27",
    "repair.py": "C01 C31 C03 C04 C06 C22 C10 C12 C19 C25 C11 C27",
    "patcher.py": "C31 C04 C01 C24 C12 C27 C22 C25",
    "wheeltools.py": "C08 C09 C10 C26 C18 C12 C29 C27 C11",
    "tools.py": "C10 C11 C12 C24 C23 C09 C26",
    "policy/__init__.py": "C21 C05 C02 C06 C16 C27 C07 C17 C15",
    "main_repair.py": "C06 C23 C12 C20 C29 C18 C13 C24 C08 C30",
    "main_show.py": "C16 C17 C18 C29 C02",
    "main_lddtree.py": "C14", "main.py": "C23 C29 C24", "json.py": "C16 C14", "hashfile.py": "C03", "genericpkgctx.py": "C29 C26 C18",
    "condatools.py": "C29 C26", "options.py": "C24 C23", "error.py": "C18", "architecture.py": "C18 C21 C16", "sboms.py": "C19 C11", "tmpdirs.py": "C12 C23 C30 C13",
    "libc.py": "C18 C21", "elfutils.py": "C05 C07 C18 C25 C01",
}
ALL = [f"C{i:02d}" for i in range(1, 40) if (V / f"checks/c{i:02d}.py").exists()]


class Gen(ast.NodeVisitor):
    """candidate edits (start, end, new text) of a source text"""

    def __init__(self, text):
        self.t = text
        self.off = [0]
        for ln in text.encode().splitlines(keepends=True):
            self.off.append(self.off[-1] + len(ln))
        self.b = text.encode()
        self.out = []

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def src(self, n):
        a, e = self.pos(n)
        return self.b[a:e].decode()

    def rep(self, n, new, why):
        a, e = self.pos(n)
        self.out.append((n.lineno, a, e, new, why))

    def skip(self, n):
        s = self.src(n)
        return s.startswith(("logger.", "log.", "warnings.", "msg ", "raise ", "printp("))

    def visit_If(self, n):
        if self.src(n.test) in ("TYPE_CHECKING", "__name__ == \"__main__\""):
            return
        self.rep(n.test, f"not ({self.src(n.test)})", "negate if")
        self.rep(n.test, "False", "if False")
        if not n.orelse:
            self.rep(n.test, "True", "if True")
        self.generic_visit(n)

    def visit_While(self, n):
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.src(n.left), self.src(n.comparators[0])
            m = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
            for o in m.get(type(n.ops[0]), []):
                self.rep(n, f"{l} {o} {r}", "compare")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        vs = [self.src(v) for v in n.values]
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.rep(n, op.join(f"({v})" for v in vs), "and/or")
        for i in range(len(vs)):
            rest = vs[:i] + vs[i + 1:]
            self.rep(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({v})" for v in rest) + ")", "drop operand")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.rep(n, f"({self.src(n.operand)})", "drop not")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant) or self.skip(n):
            return
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            self.generic_visit(n)
            return
        self.rep(n, "pass", "drop statement")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.rep(n, "pass", "drop statement")
        if isinstance(n.op, ast.BitOr):
            self.rep(n, f"{self.src(n.target)} = {self.src(n.value)}", "|= to =")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if self.skip(n):
            return
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.rep(n, "pass", "drop continue")
        self.rep(n, "break", "continue to break")

    def visit_Break(self, n):
        self.rep(n, "pass", "drop break")

    def visit_Return(self, n):
        if n.value is not None and isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool):
            self.rep(n.value, str(not n.value.value), "return")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.rep(n, str(not n.value), "bool")
        elif isinstance(n.value, int):
            self.rep(n, str(n.value + 1), "int+1")
        elif isinstance(n.value, str) and n.value and "\n" not in n.value and self.src(n)[0] in "\"'r":
            self.rep(n, '"XX"', "string")

    def visit_JoinedStr(self, n):
        pass

    def visit_Raise(self, n):
        self.rep(n, "pass", "drop raise")

    def visit_Assert(self, n):
        return

    def visit_Call(self, n):
        s = self.src(n)
        if s.startswith(("logger.", "log.", "printp(")):
            return
        f = n.func
        if isinstance(f, ast.Name) and f.id in ("sorted", "unique_by_index", "set", "frozenset", "list", "normpath", "reversed") and n.args:
            self.rep(n, self.src(n.args[0]), f"drop {f.id}()")
        if isinstance(f, ast.Name) and f.id in ("any", "all"):
            self.rep(f, "all" if f.id == "any" else "any", "any/all")
        if isinstance(f, ast.Attribute):
            sw = {"startswith": "endswith", "endswith": "startswith", "partition": "rpartition", "rpartition": "partition", "split": "rsplit", "rsplit": "split", "extend": None, "update": None, "append": None, "match": "search", "add": None}
            if sw.get(f.attr):
                a, e = self.pos(f)
                self.out.append((f.lineno, e - len(f.attr), e, sw[f.attr], "method"))
            if f.attr in ("strip", "lstrip", "rstrip", "copy", "resolve", "absolute", "lower", "upper", "removesuffix", "removeprefix"):
                self.rep(n, self.src(f.value), f"drop .{f.attr}()")
        for k in n.keywords:
            if k.arg and len(n.keywords) + len(n.args) > 1:
                a, e = self.pos(k)
                t = self.b[e:].decode()
                if t.lstrip().startswith(","):
                    e += len(t) - len(t.lstrip()) + 1
                    self.out.append((k.lineno, a, e, "", f"drop {k.arg}="))
        self.generic_visit(n)

    def visit_List(self, n):
        self.elts(n)

    def visit_Tuple(self, n):
        if isinstance(n.ctx, ast.Load):
            self.elts(n)

    def elts(self, n):
        if 2 <= len(n.elts) <= 12:
            for i in range(len(n.elts)):
                a, e = self.pos(n.elts[i])
                t = self.b[e:].decode()
                if t.lstrip().startswith(","):
                    e += len(t) - len(t.lstrip()) + 1
                    self.out.append((n.elts[i].lineno, a, e, "", "drop element"))
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.rep(n, self.src(n.body), "ifexp body")
        self.rep(n, self.src(n.orelse), "ifexp else")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        m = {ast.BitAnd: "|", ast.BitOr: "&", ast.Sub: "+", ast.Add: "-"}
        if type(n.op) in m and not isinstance(n.left, ast.Constant):
            self.rep(n, f"{self.src(n.left)}", "drop right")
        self.generic_visit(n)

    def visit_comprehension(self, n):
        for i in n.ifs:
            self.rep(i, "True", "drop filter")
        self.generic_visit(n)

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_FunctionDef(self, n):
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)
        for s in n.body:
            self.visit(s)

    def visit_ClassDef(self, n):
        for s in n.body:
            self.visit(s)


def mutants(name):
    t = (SRC / name).read_text()
    g = Gen(t)
    g.visit(ast.parse(t))
    seen = set()
    for line, a, e, new, why in g.out:
        m = (g.b[:a] + new.encode() + g.b[e:]).decode()
        if m == t or m in seen:
            continue
        seen.add(m)
        try:
            compile(m, name, "exec")
        except SyntaxError:
            continue
        yield {"file": name, "line": line, "a": a, "e": e, "new": new, "why": why, "old": g.b[a:e].decode()[:80]}


ap = argparse.ArgumentParser()
ap.add_argument("out")
ap.add_argument("--files")
ap.add_argument("--limit", type=int, default=10**9)
ap.add_argument("--jobs", type=int, default=6)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--cap", type=float, default=20)
ap.add_argument("--per-line", type=int, default=99)
ap.add_argument("--tests-only", action="store_true")
ap.add_argument("--count", action="store_true")
A = ap.parse_args()
OUT = Path(A.out)
done = set()
if OUT.exists():
    for ln in OUT.read_text().splitlines():
        r = json.loads(ln)
        done.add((r["file"], r["a"], r["e"], r["new"]))
todo = []
names = A.files.split(",") if A.files else list(ORDER)
for n in names:
    todo += list(mutants(n))
random.Random(A.seed).shuffle(todo)
per = {}
sel = []
for m in todo:
    k = (m["file"], m["line"])
    per[k] = per.get(k, 0) + 1
    if per[k] <= A.per_line:
        sel.append(m)
sel = [m for m in sel[: A.limit] if (m["file"], m["a"], m["e"], m["new"]) not in done]
print(len(todo), "mutants,", len(sel), "to run", flush=True)
if A.count:
    raise SystemExit
tls = threading.local()
lock = threading.Lock()
roots = []


def copy():
    if not hasattr(tls, "r"):
        s = Path(tempfile.mkdtemp(prefix="mut-", dir="/tmp"))
        subprocess.check_call(["cp", "-a", BASE, s / "repo"])
        tls.r = s
        roots.append(s)
    return tls.r


def tenv(p):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTEST", "AUDITWHEEL", "LD_"))}
    return {**e, "HOME": "/root", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
            "PYTHONPATH": f"{p}/src", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}


def run(m):
    S = copy()
    R = S / "repo"
    f = R / "src/auditwheel" / m["file"]
    orig = (SRC / m["file"]).read_bytes()
    f.write_bytes(orig[: m["a"]] + m["new"].encode() + orig[m["e"]:])
    try:
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "--basetemp", S / "pt", "--ignore=tests/integration/test_manylinux.py"],
                               cwd=R, env=tenv(R), capture_output=True, text=True, timeout=300)
            ok = t.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        res = {**m, "tests": ok, "caught": None, "checks": {}}
        if ok and not A.tests_only:
            pri = ORDER[m["file"]].split()
            for c in [*pri, *[c for c in ALL if c not in pri]]:
                if c not in ALL:
                    continue
                try:
                    r = subprocess.run([V / "check", c, "--jobs", "1", "--max", "1", "--cap", str(A.cap)], env={**os.environ, "VP_REPO": str(R), "VP_OUT": str(S / "o"), "VERIF_SEED": "1"}, capture_output=True, text=True, timeout=400)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                if rc != 0:
                    res["checks"][c] = rc if rc != 2 else r.stderr[-300:]
                if rc == 1:
                    res["caught"] = c
                    break
    finally:
        f.write_bytes(orig)
    with lock:
        with OUT.open("a") as o:
            o.write(json.dumps(res) + "\n")
    return res


try:
    with cf.ThreadPoolExecutor(A.jobs) as ex:
        for _ in ex.map(run, sel):
            pass
finally:
    for s in roots:
        shutil.rmtree(s, ignore_errors=True)
