"""C09: RECORD lists exactly the content of the archive."""
from checks import _worlds as W
from checks._worlds import ASSUMPTIONS, RULE, setup  # noqa: F401
from mc import menu, oracles  # noqa: F401

ID, LEVEL = "C09", "model_checking"


def cases(tier):
    if tier == "quick":
        yield from W.named([*W.singles(), *W.pairs("f.", "g.script", "o.noupd", "o.strip", "o.L"), *menu.cross(menu.by_prefix("f."), W.CORE)])
    else:
        yield from W.named([*menu.combos(list(menu.DEVS), 2), *menu.combos([*menu.by_prefix("f.", "g.script"), "o.noupd", "o.strip", "o.L"], 3)])


def run_case(case):
    return W.run(case, [oracles.record])[0]


def bounds(tier):
    return W.bounds_text(tier, "every single deviation; every pair of file, script and option deviations; files x core", "every pair of the whole menu; every triple of file, script and option deviations")
