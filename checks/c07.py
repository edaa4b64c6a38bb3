"""C07: forbidden content caps the platform tags."""
from checks import _worlds as W
from checks._worlds import ASSUMPTIONS, RULE, setup  # noqa: F401
from mc import menu, oracles  # noqa: F401

ID, LEVEL = "C07", "model_checking"


def cases(tier):
    if tier == "quick":
        yield from W.named([*W.singles(), *W.pairs("s.", "i.", "o.plat", "o.only", "o.noisa", "g.wl"), *menu.cross(menu.by_prefix("s.", "i."), list(menu.DEVS))])
    else:
        yield from W.named([*menu.combos(list(menu.DEVS), 2), *menu.combos(menu.by_prefix("s.", "i.", "o.plat", "g.", "o.only", "o.noisa"), 3)])


def run_case(case):
    return W.run(case, [oracles.forbidden])[0]


def bounds(tier):
    return W.bounds_text(tier, "every single deviation; every pair with at least one of the forbidden-content and ISA deviations", "every pair of the whole menu; every triple of forbidden content, ISA, graph and platform deviations")
