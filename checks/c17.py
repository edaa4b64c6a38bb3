"""C17: a repaired wheel is a fixed point and show confirms its tag."""
from __future__ import annotations

import json

from checks import _worlds as W
from checks._worlds import ASSUMPTIONS, setup  # noqa: F401
from mc import menu, observe, oracles, ref, world
from mc.explore import CR

ID, LEVEL = "C17", "model_checking"
RULE = ("Every enumerated world (see mc/menu.py) is repaired on the real command line; from the state reached, the transitions `show --json` of the output, `repair` of the output with the same "
        "options and `repair` of the output without --plat are taken on the same build machine. The states reached by the repairs must equal the state they start from, and the tag that show reports must "
        "confirm the claimed one. A state is the canonical content of a wheel; a transition is one command.")


def cases(tier):
    if tier == "quick":
        yield from W.named([*W.singles(), *menu.cross(W.CORE, W.CORE)])
    else:
        yield from W.graphs(2, 3, ((), ("w0",), ("i0",), ("r0",)))
        yield from W.named([*menu.combos(list(menu.DEVS), 2), *W.triples(*W.CORE)])


def content(w):
    # (the modes of directories are those of the scratch directory)
    return {n: (None if n.endswith("/") else w.mode[n], w.data.get(n)) for n in w.order}


def run_case(case):
    v = []
    n = [1]

    def keep(b, o):
        if not o.ok or len(o.outs) != 1 or o.outs[0].bad:
            return
        w = o.outs[0]
        spec = o.spec
        path = f"{b.root}/{o.outdir}/{w.filename}"
        base = [x for x in o.argv if not x.endswith(".whl")]
        for i, drop in enumerate((False, True) if o.spec["plat"] else (False,)):
            a, skip = [], False
            for j, x in enumerate(base):
                if skip:
                    skip = False
                    continue
                if x in ("-w", "--wheel-dir") or (drop and x == "--plat"):
                    skip = True
                    continue
                if drop and x == "--only-plat" or x == "--strip":
                    continue  # (stripping twice moves sections about)
                a.append(x)
            out = f"{b.root}/again{i}"
            r = b.run([*a, "-w", out, path])
            n[0] += 1
            try:
                import os

                got = [world.read_wheel(world.Path(out) / x) for x in sorted(os.listdir(out))]
            except FileNotFoundError:
                got = []
            what = "without --plat" if drop else "with the same options"
            if r.rc != 0 or len(got) != 1:
                v.append(("refused", f"{w.filename} repaired again {what}: {r.rc} {r.err[-200:]}".replace(b.root, "")))
                continue
            g = got[0]
            if not drop and g.filename != w.filename:
                v.append(("name", f"{w.filename} repaired again becomes {g.filename}"))
            if drop:
                # the tag may only get better, and the libraries stay
                old, new = oracles.tags_of_filename(w.filename)[2], oracles.tags_of_filename(g.filename)[2]
                if not set(old) <= set(new):
                    v.append(("name", f"{w.filename} repaired again {what} becomes {g.filename}"))
            di = oracles.dist_info(w)
            c0, c1 = content(w), content(g)
            if not drop or g.filename == w.filename:
                bad = sorted(k for k in {*c0, *c1} if c0.get(k) != c1.get(k))
            else:
                bad = sorted(k for k in {*c0, *c1} if c0.get(k) != c1.get(k) and k not in (f"{di}/WHEEL", f"{di}/RECORD"))
            if bad:
                v.append(("content", f"{w.filename} repaired again {what} changes {bad}"))
        if not spec["exclude"]:
            a = ["show", "--json"]
            if spec["ldpaths"] is not None:
                a += ["--ldpaths", ":".join(spec["ldpaths"])]
            if spec.get("noisa"):
                a.append("--disable-isa-ext-check")
            r = b.run([*a, path])
            n[0] += 1
            try:
                j = json.loads(r.out)
                tag = j["overall_tag"]
            except (ValueError, KeyError):
                v.append(("show", f"{w.filename}: show --json: {r.rc} {r.out[-200:]} {r.err[-200:]}"))
                return
            libc, arch = spec.get("libc", "glibc"), spec.get("arch", "x86_64")
            got = ref.policy(tag, libc, arch)
            d = o.decision()
            for p in [oracles.strictest(o)] if d[0] != "ok" else d[1]:  # (other tags are the claim of who made the wheel)
                if p is not None and (got is None or got.priority < p.priority):
                    v.append(("tag", f"{w.filename}: show says {tag}, the repair claimed {p.name}"))

    if "graph" in case:
        o = observe.observe(("graph",), spec=W.graph_spec(case["graph"]), keep=keep)
    else:
        o = observe.observe(tuple(case["names"]), spec=menu.make(case["names"]), keep=keep)
    info = [w.filename for w in o.outs] if o.ok else f"exit {o.res.rc}"[:160]
    return CR(v, [oracles.canon(o)], n[0], n[0], o.ok, json.dumps(info))


def bounds(tier):
    return W.bounds_text(tier, "every single deviation; every pair of the core",
                         "every pair of the whole menu; every triple of the core; every graph with 2 extensions x 3 libraries and 4 placements")
