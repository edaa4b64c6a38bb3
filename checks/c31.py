"""C31: repaired binaries, really run, do what they did before."""

from __future__ import annotations

import itertools
import os
import shutil
import subprocess
import zipfile
from pathlib import Path

from checks import _worlds as W
from mc import world
from mc.explore import CR
from mc.world import Box

ID, LEVEL = "C31", "model_checking"
RULE = ("Every labelled graph of extension modules and libraries up to isomorphism, within the bounds, is compiled for real (each object logs its constructor, destructor, calls, and which definition of an interposable function, variable, thread-local variable, weak and indirect function it is bound to), "
        "for every way of linking in the menu, packed as a wheel, repaired on the real command line, and then run in a fresh process, the libraries of the build machine being gone: every extension alone and every order of loading two, in local and global scope. What is logged must be what the same process logs with the original wheel and the libraries in place. "
        "A state is (layout of the output, log); transitions are the repair and each run.")
ASSUMPTIONS = ["compiled by the sandbox's gcc with its linkers; x86_64 and glibc of this machine"]
LIBS = W.LIBS
HOLD = "/vp-placeholder-" + "x" * 80 + "/priv"

OBJ = r"""
#define STR2(x) #x
#define STR(x) STR2(x)
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define ME STR(NAME)
#ifdef __cplusplus
struct Err { const char *from; int n; virtual ~Err() {} };
extern "C" {
#endif
void vp_log(const char *, const char *, const char *, int);
const char *who(void);
extern int data_who;
extern __thread int tls_who;
static __thread int mine = IDX + 40;
static int count;
#if !defined(ROOT) || MASK == 0
const char *who(void) { return ME; }
int data_who = IDX;
__thread int tls_who = IDX + 20;
int CAT(opt_, NAME)(void) { return IDX; }
#endif
#ifdef __cplusplus
#define THROWS(x) void CAT(throw_, x)(int);
#define TRY(x) try { CAT(throw_, x)(d); } catch (const Err &e) { vp_log("caught", ME, e.from, e.n); }
void CAT(throw_, NAME)(int d) { Err e; e.from = ME; e.n = d; throw e; }
#else
#define THROWS(x)
#define TRY(x)
#endif
#ifdef WITHLIBM
double cbrt(double);
#define MATH(x) (int)cbrt(x)
#else
#define MATH(x) x
#endif
#define DEP(x) THROWS(x) int CAT(f_, x)(int); extern int CAT(opt_, x)(void) __attribute__((weak)); int CAT(ifn_, x)(void);
DEP(p) DEP(q) DEP(s)
static int impl(void) { return IDX + 100; }
__attribute__((visibility("hidden"))) void *CAT(res_, NAME)(void) { return (void *)impl; }
int CAT(ifn_, NAME)(void) __attribute__((ifunc("res_" STR(NAME))));
static void __attribute__((constructor)) ctor(void) { vp_log("ctor", ME, "", ++count); }
static void __attribute__((destructor)) dtor(void) { vp_log("dtor", ME, "", ++count); }
int CAT(f_, NAME)(int d) {
  int r = MATH(IDX);
  vp_log("call", ME, who(), data_who);
  vp_log("tls", ME, who(), tls_who * 100 + mine++);
  vp_log("weak", ME, "", (opt_p ? 1 : 0) + (opt_q ? 2 : 0) + (opt_s ? 4 : 0));
  if (d <= 0) return r;
#if MASK & 1
  r += 10 * f_p(d - 1) + ifn_p(); TRY(p)
#endif
#if MASK & 2
  r += 20 * f_q(d - 1) + ifn_q(); TRY(q)
#endif
#if MASK & 4
  r += 30 * f_s(d - 1) + ifn_s(); TRY(s)
#endif
  return r;
}
#ifdef ROOT
void *CAT(PyInit_, NAME)(void) { return 0; }
int run(void) { int r = CAT(f_, NAME)(3); vp_log("result", ME, "", r); return r; }
#endif
#ifdef __cplusplus
}
#endif
"""
RUNNER = r"""
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
void vp_log(const char *k, const char *a, const char *b, int n) { printf("%s %s %s %d\n", k, a, b, n); fflush(stdout); }
#ifdef PROG
int run(void);
int main(void) { run(); return 0; }
#else
int main(int argc, char **argv) {
  int mode = argv[1][0] == 'g' ? RTLD_GLOBAL : RTLD_LOCAL;
  for (int i = 2; i < argc; i++) {
    void *h = dlopen(argv[i], RTLD_NOW | mode);
    if (!h) { printf("error %d\n", i); fprintf(stderr, "%s\n", dlerror()); continue; }
    int (*f)(void) = (int (*)(void))dlsym(h, "run");
    f();
  }
  return 0;
}
#endif
"""
# ways of linking: what the compiler, and what the linker is given
LINK = {
    "plain": ([], []),
    "ver": ([], ["VER"]),
    "rpathold": ([], ["-Wl,--disable-new-dtags"]),
    "sysv": ([], ["-Wl,--hash-style=sysv"]),
    "gnu": ([], ["-Wl,--hash-style=gnu"]),
    "now": ([], ["-Wl,-z,now,-z,relro"]),
    "lazy": ([], ["-Wl,-z,lazy,-z,norelro"]),
    "nosep": ([], ["-Wl,-z,noseparate-code"]),
    "big": ([], ["-Wl,-z,max-page-size=0x200000"]),
    "debug": (["-g"], ["VER"]),
    "gold": ([], ["-fuse-ld=gold"]),
    "goldver": ([], ["-fuse-ld=gold", "VER"]),
    "lld": ([], ["-fuse-ld=lld"]),
    "lldver": ([], ["-fuse-ld=lld", "VER"]),
    "relr": ([], ["-Wl,-z,pack-relative-relocs"]),
    "nodelete": ([], ["-Wl,-z,nodelete,-z,initfirst"]),
    "gcs": (["-ffunction-sections"], ["-Wl,--gc-sections,-O2,--as-needed", "VER"]),
    "sym": ([], ["-Wl,-Bsymbolic"]),
    "nobuildid": ([], ["-Wl,--build-id=none"]),
    "longname": ([], ["VER"]),
    "libm": (["-DWITHLIBM"], ["-Wl,--no-as-needed,-lm"]),
    "libmver": (["-DWITHLIBM"], ["-Wl,--no-as-needed,-lm", "VER"]),
    "cxx": (["-xc++", "-fno-builtin"], ["-lstdc++", "-lgcc_s"]),
    "cxxver": (["-xc++", "-fno-builtin"], ["-lstdc++", "-lgcc_s", "VER"]),
    "cxxlld": (["-xc++", "-fno-builtin"], ["-fuse-ld=lld", "-lstdc++", "-lgcc_s"]),
}
OPTS = {"": [], "strip": ["--strip"], "sdir": ["--lib-sdir", "/a/b/c"], "noupd": ["--no-update-tags"]}
_DIR = None
_MADE: dict = {}
_N = itertools.count()
_ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C"}


def setup():
    global _DIR
    world.import_auditwheel()
    _DIR = f"{world.scratch_root()}/vp-aw-{os.getpid()}-c31"
    shutil.rmtree(_DIR, ignore_errors=True)
    os.makedirs(_DIR)


def cc(*a):
    r = subprocess.run(["/usr/bin/gcc", *a], env={**_ENV, "TMPDIR": _DIR}, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(f"gcc {a}: {r.stderr[-2000:]}")


def soname(j, link):
    if link == "longname":
        return f"lib{LIBS[j]}-{'long' * 30}.so.{j}.1.2.3"
    return f"lib{LIBS[j]}.so.{j}"


def obj(name, idx, mask, root, cflags):
    k = ("o", name, mask, root, *cflags)
    if k not in _MADE:
        p = f"{_DIR}/o{next(_N)}"
        Path(p + ".c").write_text(OBJ)
        cc("-c", "-O1", "-fPIC", "-w", *cflags, f"-DNAME={name}", f"-DIDX={idx}", f"-DMASK={mask}", *(["-DROOT"] if root else []), "-o", p + ".o", p + ".c")
        _MADE[k] = p + ".o"
    return _MADE[k]


def runner():
    if "runner" not in _MADE:
        p = f"{_DIR}/runner"
        Path(p + ".c").write_text(RUNNER)
        cc("-O1", "-rdynamic", "-o", p, p + ".c")
        cc("-c", "-O1", "-fPIC", "-DPROG", "-o", p + "-prog.o", p + ".c")
        _MADE["runner"] = p
    return _MADE["runner"]


def shared(j, mask, link, rpath):
    """library j that needs the libraries of mask"""
    k = ("so", j, mask, link, rpath)
    if k not in _MADE:
        cf, lf = LINK[link]
        p = f"{_DIR}/l{next(_N)}/{soname(j, link)}"
        os.makedirs(os.path.dirname(p))
        n = LIBS[j]
        lf = list(lf)
        if "VER" in lf:
            lf.remove("VER")
            Path(p + ".map").write_text(f"V_{n}_1 {{ f_{n}; opt_{n};{' throw_' + n + ';' if '-xc++' in cf else ''} }}; V_{n}_2 {{ who; data_who; tls_who; ifn_{n}; }} V_{n}_1;\n")
            lf.append(f"-Wl,--version-script={p}.map")
        cc("-shared", "-o", p, obj(n, j, mask, False, cf), *lf, f"-Wl,-soname,{soname(j, link)}", *needs(mask, link, rpath))
        _MADE[k] = Path(p).read_bytes()
        _MADE[(k, "file")] = p
    return _MADE[k]


def needs(mask, link, rpath):
    """the libraries of mask, with an interface only"""
    a = ["-Wl,--allow-shlib-undefined", "-Wl,--no-as-needed"]
    for j in range(len(LIBS)):
        if mask >> j & 1:
            shared(j, 0, link, None)
            a.append(_MADE[(("so", j, 0, link, None), "file")])
    if rpath:
        a.append(f"-Wl,-rpath,{rpath}")
    return a


def top(i, mask, link, rpath, kind):
    k = ("top", i, mask, link, rpath, kind)
    if k not in _MADE:
        cf, lf = LINK[link]
        lf = [x for x in lf if x != "VER"]
        p = f"{_DIR}/t{next(_N)}"
        if kind == "ext":
            cc("-shared", "-o", p, obj(f"ext{i}", 7 + i, mask, True, cf), *lf, *needs(mask, link, rpath))
        else:
            cc("-rdynamic", "-no-pie" if kind == "exe-nopie" else "-pie", "-o", p, obj(f"ext{i}", 7 + i, mask, True, cf), runner() + "-prog.o", *lf, "-Wl,--unresolved-symbols=ignore-in-shared-libs", *needs(mask, link, rpath))
        _MADE[k] = Path(p).read_bytes()
    return _MADE[k]


def graphs(roots, libs, opts=((),)):
    for c in W.graphs(roots, libs, opts):
        yield c["graph"]


def cases(tier):
    full = tier == "thorough"
    seen = set()

    def emit(g, link="plain", opt="", kind="ext"):
        c = {"graph": g, "link": link, "opt": opt, "kind": kind}
        k = str(c)
        if k not in seen:
            seen.add(k)
            return [c]
        return []

    small = [*graphs(1, 2), *graphs(1, 2, (("i0",), ("r0",), ("e0",), ("n0",), ("y0",)))]
    for g in graphs(1, 3):
        for link in ("plain", "ver"):
            for opt in ("", "strip"):
                yield from emit(g, link, opt)
    for g in graphs(2, 2, ((), ("i0",), ("r0",), ("e0",), ("n0",), ("y0",))):
        for link in ("plain", "ver"):
            yield from emit(g, link, "")
        yield from emit(g, "plain", "strip")
    for g in small:
        for link in LINK:
            for opt in OPTS:
                for kind in ("ext", "exe", "exe-nopie"):
                    if full or kind == "ext" or opt in ("", "strip") and link in ("plain", "ver", "now", "big", "lld", "libm", "cxx"):
                        yield from emit(g, link, opt, kind)
    if full:
        for g in graphs(1, 3, (("i0",), ("r0",), ("e0",), ("n0",), ("y0",), ("i0", "i1"), ("i0", "r1"), ("e0", "i1"))):
            for link in LINK:
                yield from emit(g, link, "")
                yield from emit(g, link, "strip")
        for g in graphs(2, 3):
            for link in ("plain", "ver"):
                yield from emit(g, link, "strip" if link == "ver" else "")


def place(c):
    """(files of the wheel, of the build machine, libraries the user has)"""
    roots, edges, opts = c["graph"]
    link, kind = c["link"], c["kind"]
    inner, priv, excl, link_, copy = ({int(o[1:]) for o in opts if o[0] == x} for x in "ireny")
    files, sys_, have = {}, {}, {}

    def rp(mask, own):
        r = []
        if any(mask >> j & 1 for j in priv):
            r.append(HOLD)
        if any(mask >> j & 1 for j in inner):
            r.append(own)
        return ":".join(r) or None

    for i, m in enumerate(roots):
        own = ["$ORIGIN/bundled", "$ORIGIN/../bundled"][i]
        p = [f"pkg/ext{i}.abi3.so", f"pkg/sub/ext{i}.abi3.so"][i] if kind == "ext" else [f"pkg/prog{i}", f"pkg/sub/prog{i}"][i]
        files[p] = top(i, m, link, rp(m, own), kind)
    for j in range(len(LIBS)):
        if not any(m >> j & 1 for m in (*roots, *edges)):
            continue
        d = shared(j, edges[j], link, rp(edges[j], "$ORIGIN" if j in inner else None) if edges[j] else None)
        n = soname(j, link)
        if j in inner:
            files[f"pkg/bundled/{n}"] = d
        elif j in link_:
            sys_[f"lib/{n}"] = ("link", f"../real/{n}.9")
            sys_[f"real/{n}.9"] = d
        elif j in copy:
            # the file has quite another name
            sys_[f"lib/{n}"] = ("link", "blob")
            sys_["lib/blob"] = d
        else:
            sys_[("priv/" if j in priv else "lib/") + n] = d
        if j in excl:
            have[n] = d
    return files, sys_, have


def fits(c):
    roots, edges, opts = c["graph"]
    for o in opts:
        j = int(o[1:])
        if o[0] == "e" and (edges[j] or not any(m >> j & 1 for m in (*roots, *edges))):
            return False  # an excluded library that needs nothing
        if o[0] == "r" and any(edges[k] >> j & 1 for k in range(len(LIBS)) if f"i{k}" in opts):
            return False
        if o[0] == "i" and any(edges[k] >> j & 1 for k in range(len(LIBS)) if f"i{k}" not in opts):
            return False  # a library of the machine that needs one of the wheel
    return True


def run_case(c):
    if not fits(c):
        return CR([], ["outside"], 0, 0, False, "")
    files, sys_, have = place(c)
    v, n_tr, logs = [], 1, []
    with Box({"wheels": [], "sys": {}}) as b:
        R = b.root
        priv = f"{R}/sys/priv".encode()
        priv = priv[:-4] + b"/" * (len(HOLD) - len(priv)) + b"priv"

        def put(p, d, mode=0o755):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if isinstance(d, tuple):
                os.symlink(d[1], p)
                return
            Path(p).write_bytes(d.replace(HOLD.encode(), priv))
            os.chmod(p, mode)

        for n, d in sys_.items():
            put(f"{R}/sys/{n}", d)
        w = world.default_wheel()
        w["files"] = {"pkg/__init__.py": world.text("x = 1\n"), **{n: {"kind": "raw", "data": d.replace(HOLD.encode(), priv), "mode": 0o755} for n, d in files.items()}}
        src = Path(R, "in", world.wheel_filename(w))
        world.write_wheel(w, src)
        ex = [x for n in have for x in ("--exclude", n)]
        r = b.run(["repair", "-w", "{OUT}", "--ldpaths", "{SYS}/lib", *OPTS[c["opt"]], *ex, str(src)])
        outs = sorted(Path(R, "out").glob("*.whl"))
        if r.rc != 0 or len(outs) != 1:
            return CR([("repair", f"{r.rc} {r.err[-400:]}")], [f"{c}"], 1, 1, True, "")
        for f, at in ((src, "before"), (outs[0], "after")):
            with zipfile.ZipFile(f) as z:
                for i in z.infolist():
                    if not i.is_dir():
                        put(f"{R}/{at}/{i.filename}", z.read(i), 0o755)
        tops = [n for n in files if not n.startswith("pkg/bundled/")]
        runs = [(m, o) for m in ("l", "g") for k in range(1, len(tops) + 1) for o in itertools.permutations(tops, k)] if c["kind"] == "ext" else [("x", (t,)) for t in tops]

        def go(at, m, o, env):
            cmd = [runner(), m, *[f"{R}/{at}/{x}" for x in o]] if m != "x" else [f"{R}/{at}/{o[0]}"]
            p = subprocess.run(cmd, env={**_ENV, **env}, cwd=f"{R}/run", capture_output=True, text=True, timeout=60)
            return p.returncode, p.stdout, p.stderr

        want = {x: go("before", *x, {"LD_LIBRARY_PATH": f"{R}/sys/lib"}) for x in runs}
        shutil.move(f"{R}/sys", f"{R}/gone")
        for n, d in have.items():
            put(f"{R}/have/{n}", d)
        for x in runs:
            g = go("after", *x, {"LD_LIBRARY_PATH": f"{R}/have"} if have else {})
            n_tr += 1
            if want[x][0] != 0 or "error" in want[x][1]:
                raise RuntimeError(f"the original does not run: {c} {x} {want[x]}")
            if g[:2] != want[x][:2]:
                a, bb = g[1].splitlines(), want[x][1].splitlines()
                k = next((k for k in range(max(len(a), len(bb))) if a[k:k + 1] != bb[k:k + 1]), 0)
                v.append(("run", f"{x}: status {g[0]}, line {k} is {a[k:k + 1]}, with the original wheel status {want[x][0]}, {bb[k:k + 1]}; {g[2][-300:]}"))
            logs.append(g[1])
        st = f"{sorted(world.read_wheel(outs[0]).data)} {logs}"
    return CR(v, [st], n_tr, 1, True, f"{len(logs)} runs")


def bounds(tier):
    return {"graphs": "1 extension x 3 libraries, 2 x 2; plain, bundled, in an RPATH directory, excluded, behind a link, under another name" + ("; 1 x 3 with the same, 2 x 3" if tier == "thorough" else ""),
            "ways of linking": list(LINK), "options": list(OPTS), "programs": ["extension module", "program", "program not position independent"], "runs": "every extension alone, every order of two, local and global scope"}
