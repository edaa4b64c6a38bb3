"""C06: acceptance and tags are those of the reference decision."""
from checks import _worlds as W
from checks._worlds import ASSUMPTIONS, RULE, setup  # noqa: F401
from mc import menu, oracles  # noqa: F401

ID, LEVEL = "C06", "model_checking"


def cases(tier):
    if tier == "quick":
        yield from W.graphs(2, 2, ((), ("m0",), ("w0",)))
        yield from W.named([*W.singles(), *W.pairs("v.", "s.", "i.", "o.plat", "o.only", "o.noisa", "g.wl", "n."), *menu.cross(menu.by_prefix("g.", "x."), menu.by_prefix("o.plat", "o.only"))])
    else:
        yield from W.graphs(2, 3, ((), ("w0",), ("i0",), ("r0",), ("m0",)))
        yield from W.named([*menu.combos(list(menu.DEVS), 2), *W.triples(*W.CORE), *menu.combos(menu.by_prefix("v.", "s.", "i.", "o.plat", "g.wl", "o.only"), 3)])


def run_case(case):
    return W.run(case, [oracles.tag_exact])[0]


def bounds(tier):
    return W.bounds_text(tier, "every graph 2 x 2 (plain, missing, whitelisted); every single deviation; every pair of versions, forbidden content, platforms, whitelist and names; graph x platform", "every graph with 2 extensions x 3 libraries and 5 placements; every pair of the whole menu; every triple of the core; every triple of versions x forbidden content x platforms x whitelist")
