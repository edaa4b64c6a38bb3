"""Common shape of the checks that run the real tool on enumerated worlds."""

from __future__ import annotations

import itertools
import json

from mc import menu, observe, oracles, world
from mc.explore import CR

RULE = ("A case is one complete execution of the real command line on one world: a generated wheel, a generated build machine "
        "(ELF files, symlinks, search directories) and options. Worlds are the base world changed by every compatible set of at most k "
        "named deviations of the menu in mc/menu.py (k and the part of the menu: see bounds), and, where stated, every labelled "
        "dependency graph up to isomorphism. A state is the canonical observable outcome (exit status, file name, members, modes, "
        "and per ELF file NEEDED/SONAME/RPATH/RUNPATH); a transition is one run of the tool from a world to its outcome; every "
        "outcome is judged by an independent reference, so every execution is a trace validated against the implementation. "
        "Non-trivial: the run succeeded and wrote a wheel, or was refused as the reference demands.")

ASSUMPTIONS = ["ELF files are synthetic (no machine code); patchelf and strip are the real tools of this machine",
               "glibc build machine; the loader is a reference model of ld.so(8) (mc/ref.py), not the kernel loader"]


def setup():
    world.import_auditwheel()


# -- dependency graphs ------------------------------------------------------

LIBS = ("p", "q", "s")


def graph_spec(g) -> dict:
    """g = [roots, lib_edges, opts]: roots[i] = bitmask of libs needed by
    extension i; lib_edges[j] = bitmask of libs needed by lib j; opts: 'w<j>' lib
    j has a whitelisted name, 'm<j>' lib j is missing, 'i<j>' lib j is bundled in
    the wheel, 'r<j>' lib j sits in a directory reachable by the RPATH of every
    ELF file that needs it"""
    roots, edges, opts = g
    s = menu.base()
    s["sys"] = {"lib/libc.so.6": s["sys"]["lib/libc.so.6"]}
    f = menu.F(s)
    del f[menu.EXT]
    white = {int(o[1:]) for o in opts if o[0] == "w"}
    miss = {int(o[1:]) for o in opts if o[0] == "m"}
    inner = {int(o[1:]) for o in opts if o[0] == "i"}
    priv = {int(o[1:]) for o in opts if o[0] == "r"}
    name = [("libz.so.1" if j in white else f"lib{x}.so.{j}") for j, x in enumerate(LIBS)]

    def need(mask):
        return [name[j] for j in range(len(LIBS)) if mask >> j & 1]

    def rp(mask, own):
        out = []
        if any(mask >> j & 1 for j in priv):
            out.append("{SYS}/priv")
        if inner and own:
            out.append(own)
        return {"rpath": ":".join(out)} if out else {}

    for i, m in enumerate(roots):
        path = [f"pkg/ext{i}.abi3.so", f"pkg/sub/ext{i}.abi3.so", f"ext{i}.abi3.so"][i]
        own = ["$ORIGIN/bundled", "$ORIGIN/../bundled", "$ORIGIN/pkg/bundled"][i]
        f[path] = menu.elf(id=f"ext{i}", needed=[*need(m), "libc.so.6"], verneed=[["libc.so.6", ["GLIBC_2.2.5"]]],
                           symbols=[[f"PyInit_ext{i}", True, "global", "func"]], **rp(m, own))
    for j, m in enumerate(edges):
        if j in miss:
            continue
        spec = menu.lib(LIBS[j], need(m), name[j], **rp(m, "$ORIGIN" if j in inner else None))
        if j in inner:
            f[f"pkg/bundled/{name[j]}"] = spec
        else:
            s["sys"][("priv/" if j in priv else "lib/") + name[j]] = spec
    s["names"] = ["graph"]
    return s


def graphs(nroots, nlibs, opts=((),)):
    """every graph, one per isomorphism class of the libraries"""
    seen = set()
    for roots in itertools.product(range(1 << nlibs), repeat=nroots):
        if not any(roots):
            continue
        for edges in itertools.product(*[[m for m in range(1 << nlibs) if not m >> j & 1] for j in range(nlibs)]):
            for op in opts:
                best = None
                for perm in itertools.permutations(range(nlibs)):
                    mp = lambda m: sum(1 << perm[j] for j in range(nlibs) if m >> j & 1)
                    e2 = [0] * nlibs
                    for j in range(nlibs):
                        e2[perm[j]] = mp(edges[j])
                    o2 = tuple(sorted(o[0] + str(perm[int(o[1:])]) for o in op))
                    c = (tuple(sorted(mp(r) for r in roots)), tuple(e2), o2)
                    best = c if best is None or c < best else best
                if best not in seen:
                    seen.add(best)
                    yield {"graph": [list(best[0]), list(best[1]) + [0] * (len(LIBS) - nlibs), list(best[2])]}


# -- cases --------------------------------------------------------------------


def named(sets):
    seen = set()
    for c in sets:
        c = tuple(sorted(c))
        if c not in seen and menu.compatible(c):
            seen.add(c)
            yield {"names": list(c)}


def singles():
    return [(), *[(n,) for n in menu.DEVS]]


def pairs(*pfx):
    return menu.combos(menu.by_prefix(*pfx), 2)


def triples(*names):
    return menu.combos(names, 3)


def run(case, fns, spec=None):
    if spec is not None:
        o = observe.observe(("spec",), spec=spec)
    elif "graph" in case:
        o = observe.observe(("graph",), spec=graph_spec(case["graph"]))
    else:
        o = observe.observe(tuple(case["names"]), spec=menu.make(case["names"]))
    v = []
    for f in fns:
        v += f(o)
    info = [w.filename for w in o.outs] if o.ok else f"exit {o.res.rc}"[:160]
    return CR(v, [oracles.canon(o)], 1, 1, o.ok or o.decision()[0] == "error", json.dumps(info)), o


CORE = ["g.direct_b", "g.diamond", "g.cycle", "g.deep", "g.ext2_same", "g.ext2_chain", "g.ext2_top", "g.sym_a", "g.two_names",
        "g.inner", "g.inner_pair", "g.plugin", "g.exe", "g.script", "g.prelibs", "g.libpython_lib", "g.wl_z", "g.wl_expat_new",
        "g.nosoname_a", "g.dupsoname", "g.b_private", "x.b", "x.path_a", "r.mixed", "l.deep", "l.top", "o.strip", "o.noupd", "o.L",
        "o.plat=manylinux2014", "d.aw_env_and_arg"]


def bounds_text(tier, quick, thorough):
    return quick if tier == "quick" else thorough
