"""C25: the result never depends on libpython."""
from checks import _worlds as W
from checks._worlds import ASSUMPTIONS, RULE, setup  # noqa: F401
from mc import menu, oracles  # noqa: F401

ID, LEVEL = "C25", "model_checking"


def cases(tier):
    if tier == "quick":
        yield from W.named([*menu.cross(menu.by_prefix("g.libpython", "g.pylike"), list(menu.DEVS)), *menu.combos(menu.by_prefix("g.libpython", "g.pylike"), 1)])
    else:
        yield from W.named([(x, *c) for x in menu.by_prefix("g.libpython", "g.pylike") for c in menu.combos([n for n in menu.by_prefix("g.", "r.", "d.", "o.", "v.", "x.")], 2)])


def run_case(case):
    r = W.run(case, [oracles.no_libpython, oracles.self_contained])[0]
    # the place of files below .data/platlib and libraries with two names are judged by C01
    r.violations = [v for v in r.violations if v[0] != "unresolved-platlib" and not (v[0] == "graph" and "k.alias" in case["names"])]
    return r


def bounds(tier):
    return W.bounds_text(tier, "every libpython deviation x every deviation of the menu", "every libpython deviation x every pair of graph, RPATH, directory, option and version deviations")
