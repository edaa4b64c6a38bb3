"""C05: every platform tag added is truthful about symbol versions."""
from checks import _worlds as W
from checks._worlds import ASSUMPTIONS, RULE, setup  # noqa: F401
from mc import menu, oracles  # noqa: F401

ID, LEVEL = "C05", "model_checking"


def sectionless(c):
    """an extension or a bundled library without section headers"""
    s = menu.base()
    f = menu.F(s)
    s["sys"] = {"lib/libc.so.6": s["sys"]["lib/libc.so.6"]}
    kw = {"nosect": True, "verneed": [["libc.so.6", [c["ver"]]]]}
    ok = {"verneed": [["libc.so.6", ["GLIBC_2.2.5"]]]}
    f[menu.EXT] = menu.elf(id="ext", needed=["libc.so.6"], symbols=[["PyInit_ext", True, "global", "func"]], **(kw if c["where"] == "ext" else ok))
    if c["where"] == "other":
        f["pkg/other.so"] = menu.elf(id="other", needed=["libc.so.6"], **kw)
    s["names"] = ["nosect"]
    return s


def cases(tier):
    for w in ("ext", "other"):
        for ver in ("GLIBC_2.2.5", "GLIBC_2.17", "GLIBC_2.34"):
            yield {"names": ["nosect"], "where": w, "ver": ver}
    if tier == "quick":
        yield from W.graphs(1, 3)
        yield from W.named([*W.singles(), *W.pairs("v.", "o.plat", "g.wl", "o.only"), *menu.cross(menu.by_prefix("v."), menu.by_prefix("g.", "n.", "x."))])
    else:
        yield from W.graphs(2, 3, ((), ("w0",), ("i0",), ("r0",), ("m0",)))
        yield from W.named([*menu.combos(list(menu.DEVS), 2), *W.triples(*W.CORE), *menu.combos(menu.by_prefix("v.", "o.plat", "g.wl", "o.only"), 3)])


def run_case(case):
    if case.get("names") == ["nosect"]:
        return W.run(case, [oracles.tag_sound], spec=sectionless(case))[0]
    return W.run(case, [oracles.tag_sound])[0]


def bounds(tier):
    return W.bounds_text(tier, "every graph 1 x 3; every single deviation; every pair of versions, platforms and whitelist deviations; versions x (graph, name, exclude)", "every graph with 2 extensions x 3 libraries and 5 placements; every pair of the whole menu; every triple of the core; every triple of versions x platforms x whitelist")
