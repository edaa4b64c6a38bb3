"""C02: the grafted libraries are exactly the external closure."""
from checks import _worlds as W
from checks._worlds import ASSUMPTIONS, RULE, setup  # noqa: F401
from mc import menu, oracles  # noqa: F401

ID, LEVEL = "C02", "model_checking"


def cases(tier):
    if tier == "quick":
        yield from W.graphs(2, 2, ((), ("w0",), ("i0",), ("w0", "i1")))
        yield from W.graphs(1, 3, ((), ("w0",)))
        yield from W.named([*W.singles(), *W.pairs("g.", "x."), *menu.cross(menu.by_prefix("g."), menu.by_prefix("o.plat", "o.only", "o.noupd", "d.", "n."))])
    else:
        yield from W.graphs(2, 3, ((), ("w0",), ("i0",), ("r0",), ("m0",)))
        yield from W.named([*menu.combos(list(menu.DEVS), 2), *W.triples(*W.CORE)])


def run_case(case):
    return W.run(case, [oracles.closure_exact])[0]


def bounds(tier):
    return W.bounds_text(tier, "every graph with 2 extensions x 2 libraries (plain, whitelisted, bundled) and 1 x 3; every single deviation; every pair of graph and exclude deviations; graph x (platform, directories, name)", "every graph with 2 extensions x 3 libraries and 5 placements; every pair of the whole menu; every triple of the core")
