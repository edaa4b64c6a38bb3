"""C03: grafted libraries are named by content and referred to by that name."""
from checks import _worlds as W
from checks._worlds import ASSUMPTIONS, RULE, setup  # noqa: F401
from mc import menu, oracles  # noqa: F401

ID, LEVEL = "C03", "model_checking"


def cases(tier):
    if tier == "quick":
        yield from W.graphs(2, 2, ((), ("i0",)))
        yield from W.named([*W.singles(), *W.pairs("g."), *menu.cross(W.CORE, menu.by_prefix("o.", "v.", "x."))])
    else:
        yield from W.graphs(2, 3, ((), ("w0",), ("i0",), ("r0",), ("m0",)))
        yield from W.named([*menu.combos(list(menu.DEVS), 2), *W.triples(*W.CORE)])


def run_case(case):
    return W.run(case, [oracles.naming])[0]


def bounds(tier):
    return W.bounds_text(tier, "every graph with 2 extensions x 2 libraries; every single deviation; every pair of graph deviations; core x (options, versions, excludes)", "every graph with 2 extensions x 3 libraries and 5 placements; every pair of the whole menu; every triple of the core")
