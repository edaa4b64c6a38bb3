"""C10: only what must change changes."""
from checks import _worlds as W
from checks._worlds import ASSUMPTIONS, RULE, setup  # noqa: F401
from mc import menu, oracles  # noqa: F401

ID, LEVEL = "C10", "model_checking"


def cases(tier):
    # every permission of a file
    for lo in range(0, 512, 64):
        yield {"modes": lo}
    if tier == "quick":
        yield from W.named([*W.singles(), *W.pairs("f.", "g.script", "o."), *menu.cross(menu.by_prefix("f.", "o."), W.CORE)])
    else:
        yield from W.graphs(2, 2, ((), ("i0",)))
        yield from W.named([*menu.combos(list(menu.DEVS), 2), *menu.combos([*menu.by_prefix("f.", "g.script"), "o.noupd", "o.strip", "o.L", "o.inplace"], 3)])


def run_case(case):
    if "modes" in case:
        s = menu.make(())
        for m in range(case["modes"], case["modes"] + 64):
            menu.F(s)[f"pkg/m/m{m:03o}"] = menu.text(str(m), m)
        return W.run(case, [oracles.frame], spec=s)[0]
    return W.run(case, [oracles.frame])[0]


def bounds(tier):
    return W.bounds_text(tier, "every single deviation; every pair of file, script and option deviations; (files, options) x core", "every pair of the whole menu; every triple of file, script and option deviations")
