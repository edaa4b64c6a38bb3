"""C01: a repaired wheel is self contained and loads the same library graph."""
from checks import _worlds as W
from checks._worlds import setup  # noqa: F401
from mc import menu, oracles

ID, LEVEL = "C01", "model_checking"
RULE = W.RULE + (" The reference loader (breadth first, RPATH chain, RUNPATH, names already loaded) is itself validated on every execution: the real ld.so of this machine "
                 "loads every x86_64 ELF file of the unpacked input and of the installed output in trace mode, and must load the same files.")
ASSUMPTIONS = [W.ASSUMPTIONS[0], "glibc build machine; the graph before the repair is that of a reference model of ld.so(8) (mc/ref.py), which the real ld.so confirms on the input and on the output"]


def cases(tier):
    yield from W.graphs(2, 2, ((), ("w0",), ("i0",), ("r0",)))
    if tier == "quick":
        yield from W.graphs(1, 3)
        yield from W.named([*W.singles(), *W.pairs("g."), *menu.cross(W.CORE, menu.by_prefix("r.", "l.", "x.", "d.", "o."))])
    else:
        yield from W.graphs(2, 3, ((), ("w0",), ("i0",), ("r0",), ("i0", "r1"), ("w0", "i1"), ("r0", "r1")))
        yield from W.graphs(3, 2, ((), ("i0",), ("r0",)))
        yield from W.named([*menu.combos(list(menu.DEVS), 2), *W.triples(*W.CORE)])


def run_case(case):
    return W.run(case, [oracles.self_contained, oracles.real_loader, oracles.real_loader_before])[0]


def bounds(tier):
    return ("every graph with 2 extensions x 2 libraries (plain, one whitelisted, one bundled, one private) and 1 x 3; every single "
            "deviation; every pair of graph deviations; core x (RPATH, location, exclude, directory, option)") if tier == "quick" else (
        "every graph with 2 extensions x 3 libraries and 3 x 2 with 7 placements; every pair of the whole menu; every triple of the core")
