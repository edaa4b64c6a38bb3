"""C08: file name tags and WHEEL tags agree."""
from checks import _worlds as W
from checks._worlds import ASSUMPTIONS, RULE, setup  # noqa: F401
from mc import menu, oracles  # noqa: F401

ID, LEVEL = "C08", "model_checking"


def cases(tier):
    if tier == "quick":
        yield from W.named([*W.singles(), *W.pairs("n.", "o.", "f.headers", "f.crlf", "l.", "f.attr0"), *menu.cross(menu.by_prefix("n."), [*W.CORE, *menu.by_prefix("v.", "f.")])])
    else:
        yield from W.graphs(2, 3, ((), ("w0",), ("i0",), ("r0",), ("m0",)))
        yield from W.named([*menu.combos(list(menu.DEVS), 2), *W.triples(*W.CORE), *menu.combos(menu.by_prefix("n.", "o.", "f.headers"), 3)])


def run_case(case):
    return W.run(case, [oracles.names_agree])[0]


def bounds(tier):
    return W.bounds_text(tier, "every single deviation; every pair of names, options and headers; names x (core, versions, files)", "every graph with 2 extensions x 3 libraries and 5 placements; every pair of the whole menu; every triple of the core; every triple of names and options")
