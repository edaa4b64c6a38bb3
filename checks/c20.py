"""C20: what show reports."""
from __future__ import annotations

import json
import re

from checks import _worlds as W
from checks._worlds import ASSUMPTIONS, setup  # noqa: F401
from mc import menu, observe, oracles, ref, world
from mc.explore import CR
from mc.world import Box, subst

ID, LEVEL = "C20", "model_checking"
RULE = ("Every enumerated world (see mc/menu.py) is analysed with `auditwheel show --json` and `auditwheel show` (-v for every second world) on the real command line. The verdict, its reasons, the external libraries, "
        "the libraries and symbols to eliminate for each better platform and the symbol versions are compared with the independent reference analysis, the text with the JSON, and the whole file system before and after. "
        "A state is the JSON document; a transition is one command.")


def cases(tier):
    if tier == "quick":
        yield from W.named([*W.singles(), *menu.cross(W.CORE, W.CORE), *menu.cross(menu.by_prefix("s.black"), menu.by_prefix("e.", "s.inner")), *menu.combos(["v.ext_2_17", "v.a_2_35", "v.cxx", "s.black_z", "s.black_c", "s.pyfpe", "s.ucs2", "i.ext_v3", "i.a_v3", "g.missing_b", "g.wl_expat_new", "o.noisa",
                                                                                "g.ext2_chain", "a.musl", "g.noext", "e.last_ver", "e.first_black", "g.inner_unreached_v", "l.deep"], 3)])
    else:
        yield from W.graphs(2, 3, ((), ("w0",), ("i0",), ("m0",), ("r0",)))
        yield from W.named([*menu.combos(list(menu.DEVS), 2), *W.triples(*W.CORE), *W.triples(*menu.by_prefix("v.", "s.", "i."))])


def expected(o):
    a, v = o.analysis(), o.verdict()
    libc, arch = o.spec.get("libc", "glibc"), o.spec.get("arch", "x86_64")
    pols = v.pols
    overall = min((v.sym, v.ucs, v.pyfpe, v.bl, v.isa, v.ref), key=lambda p: p.priority)
    up = {}
    specs = o.specs()
    for p in pols:
        if p.priority <= overall.priority:
            continue
        e = {}
        libs = v.ext.get(p.name, {})
        if libs:
            e["libs_to_eliminate"] = sorted(libs)
        bl = {}
        for n in a.elfs:
            need = set(a.trees[n].needed)
            und = {s[0] for s in specs[n].get("symbols", []) if not s[1] and s[2] != "weak"}
            for lib, syms in p.blacklist.items():
                if lib in need and syms & und:
                    bl.setdefault(lib, set()).update(syms & und)
        if bl:
            e["blacklisted_symbols"] = {k: sorted(x) for k, x in sorted(bl.items())}
        if e:
            up[p.name] = e
    return {"overall_tag": overall.name, "sym_tag": v.sym.name, "pyfpe": v.pyfpe is pols[0], "ucs2": v.ucs is pols[0], "unsupported_isa": v.isa is pols[0], "pure": False, "version": 1,
            "wheel": o.src.filename, "external_libs": dict(sorted(v.ext[pols[-1].name].items())), "policy_upgrades": up}


def run_case(case):
    spec = W.graph_spec(case["graph"]) if "graph" in case else menu.make(case["names"])
    v = []
    # show has no --exclude
    excl = spec["exclude"]
    spec["exclude"] = []
    with Box(spec) as b:
        s = b.spec
        wheel = f"{b.root}/in/{world.wheel_filename(s['wheels'][0])}"
        opts = []
        if s["ldpaths"] is not None:
            opts += ["--ldpaths", ":".join(s["ldpaths"])]
        if s.get("noisa"):
            opts.append("--disable-isa-ext-check")
        before = world.tree_digest(b.root)
        j = b.run(["show", "--json", *opts, wheel])
        t = b.run(["-v", "show", *opts, wheel] if len(str(case)) % 2 else ["show", *opts, wheel])
        after = world.tree_digest(b.root)
        o = observe.Obs(tuple(case.get("names", ())), s, [], j, observe.as_wheel(s["wheels"][0]), [], before, after, "out", b.root, b.tmp_left())
        clean = lambda x: x.replace(b.root, "")  # noqa: E731
        ch = [k for k in sorted({*before, *after}) if before.get(k) != after.get(k) and not k.startswith("log")]
        if ch or o.tmp or not j.cwd_ok:
            v.append(("changed", f"show changed {ch[:5]} {o.tmp}"))
        if j.rc != 0 or t.rc != 0:
            # only a wheel that has nothing to analyse is refused; every world of the menu has
            v.append(("refused", clean(f"show --json: {j.rc}, show: {t.rc}: {j.err[-300:]}")))
            return CR(v, [clean(str(j.rc))[:80]], 2, 2, False, "")
        try:
            got = json.loads(j.out)
        except ValueError:
            v.append(("json", f"not one JSON document: {j.out[:200]}"))
            return CR(v, [], 2, 2, False, "")
        exp = expected(o)
        # two files of the wheel can find different libraries of one name: either may be shown
        any_ = {}
        for r in o.analysis().roots:
            for n, x in ref.external(o.analysis().trees[r], o.verdict().pols[-1], o.analysis().inside, o.analysis().libc == "android").items():
                any_.setdefault(n, set()).add(x)
        for n, x in got.get("external_libs", {}).items():
            if x in any_.get(n, ()):
                exp["external_libs"][n] = x
        for k in sorted({*exp, *got} - {"versioned_symbols"}):
            if got.get(k) != exp.get(k):
                v.append((k, clean(f"{k} is {json.dumps(got.get(k))}, expected {json.dumps(exp.get(k))}")))
        # symbol versions: those of the wheel, and of the libraries to graft
        a = o.analysis()
        own = set().union(*[ref.versions_of(e) for e in a.elfs.values()]) if a.elfs else set()
        vs = {x for vv in got["versioned_symbols"].values() for x in vv}
        allx = set(own)
        for p in o.verdict().pols[1:]:
            for tr in a.trees.values():
                for path in ref.external(tr, p, a.inside, a.libc == "android").values():
                    if path is not None:
                        allx |= ref.versions_of(a.m.fs.elf(path))
        counted = lambda z: {x for x in z}  # noqa: E731
        if not counted(own) <= counted(vs) or not counted(vs) <= counted(allx):
            v.append(("versions", f"versions {sorted(vs)}: of the wheel {sorted(own)}, with libraries {sorted(allx)}"))
        for k, x in got["versioned_symbols"].items():
            if x != sorted(set(x)):
                v.append(("versions", f"{k}: {x} is not sorted and unique"))
        # the text says the same
        flat = re.sub(r"\s+", " ", t.out)
        m = re.search(r'(\S+) is consistent with the following platform tag: "([^"]+)"', flat)
        if not m or m[2] != got["overall_tag"] or m[1] != exp["wheel"]:
            v.append(("text", f"text: {clean(flat[:200])}; JSON: {got['overall_tag']}"))
        for k, phrase in (("pyfpe", "PyFPE_jbuf function"), ("ucs2", "narrow unicode (UCS2)"), ("unsupported_isa", "unsupported ISA extensions")):
            first = next((x for x in ("pyfpe", "ucs2", "unsupported_isa") if got[x]), None)
            verbose = bool(len(str(case)) % 2)
            if (phrase in flat) != (got[k] and (verbose or first == k)):
                v.append(("text", f"text {'mentions' if phrase in flat else 'does not mention'} {phrase}; JSON: {got[k]}"))
        full = len(str(case)) % 2 or not (got["pyfpe"] or got["ucs2"] or got["unsupported_isa"] or got["sym_tag"] != o.verdict().pols[-1].name)
        if full:
            low = o.verdict().ext.get(o.verdict().pols[1].name) if len(o.verdict().pols) > 1 else {}
            for name, e in got["policy_upgrades"].items():
                n = flat.count(f"achieve the tag platform tag '{name}' the following shared library dependencies will need to be eliminated: " + ", ".join(e.get("libs_to_eliminate", ["?"])))
                if n != ("libs_to_eliminate" in e):
                    v.append(("text", f"text and JSON differ about the libraries to eliminate for {name}"))
                n = flat.count(f"achieve the tag platform tag '{name}' the following black-listed symbol dependencies will need to be eliminated: "
                               + " ".join(f"From {k}: " + ", ".join(x) for k, x in e.get("blacklisted_symbols", {"?": []}).items()))
                if n != ("blacklisted_symbols" in e):
                    v.append(("text", f"text and JSON differ about the symbols to eliminate for {name}"))
            if ("requires no external shared libraries" in flat) != (not low):
                v.append(("text", f"text {'denies' if low else 'does not deny'} external libraries: {clean(json.dumps(low))}"))
        return CR(v, [clean(j.out)], 2, 2, True, clean(j.out)[:300])


def bounds(tier):
    return W.bounds_text(tier, "every single deviation; every pair of the core; every triple of 19 deviations that change the verdict",
                         "every pair of the whole menu; every triple of the core and of all deviations of versions, symbols and ISA; every graph with 2 extensions x 3 libraries and 5 placements")
