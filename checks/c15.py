"""C15: excluded libraries are neither grafted nor renamed."""
from checks import _worlds as W
from checks._worlds import ASSUMPTIONS, RULE, setup  # noqa: F401
from mc import menu, oracles  # noqa: F401

ID, LEVEL = "C15", "model_checking"


def cases(tier):
    if tier == "quick":
        yield from W.named([*menu.cross(menu.by_prefix("x."), list(menu.DEVS)), *menu.combos(menu.by_prefix("x."), 1)])
    else:
        yield from W.named([(x, *c) for x in menu.by_prefix("x.") for c in menu.combos([n for n in menu.by_prefix("g.", "r.", "d.", "o.", "v.")], 2)])


def run_case(case):
    return W.run(case, [oracles.excluded_absent, oracles.closure_exact])[0]


def bounds(tier):
    return W.bounds_text(tier, "every exclude pattern x every deviation of the menu", "every exclude pattern x every pair of graph, RPATH, directory, option and version deviations")
