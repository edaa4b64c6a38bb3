"""C30: concurrent runs do not interfere."""

from __future__ import annotations

import copy
import re

from mc import fault, menu, world
from mc.explore import CR
from mc.world import Box

ID = "C30"
LEVEL = "model_checking"
PRELOAD = True
RULE = ("Two real auditwheel processes run in one directory tree under a controlled scheduler: each stops before every operation (query, create, "
        "write, rename, mkdir, unlink, ...) on the shared output or input directory and on entries of the temporary directory, and goes on only "
        "when granted its turn. A path that only one of the processes ever touches is private, its operations commute with everything of the other process, so a "
        "schedule may only switch at operations on paths that both touch (determined from recorded runs). Every "
        "schedule with at most the stated number of preemptions is executed. A state is a pair (sequence of granted operations' processes, final "
        "file system); a transition is one granted operation. Each execution is compared with the serial ones: both exit statuses and the final file system "
        "must be those of one of the two serial orders, and nothing may be left over.")
ASSUMPTIONS = ["two processes of one user on one file system; operations of libc calls are atomic"]


def setup():
    world.import_auditwheel()


def _two(diff=True, **kw):
    s = menu.make(())
    s["env"]["SOURCE_DATE_EPOCH"] = "1600000000"
    if diff:
        w = copy.deepcopy(s["wheels"][0])
        w["name"] = "pkg2"
        s["wheels"].append(w)
    s.update(kw)
    names = [world.wheel_filename(w) for w in s["wheels"]]
    return s, names[0], names[-1]


def _argv(s, n, out="{OUT}", *extra):
    return ["repair", "-w", out, "--ldpaths", "{SYS}/lib", *extra, "{IN}/" + n]


def sc_newdir():
    s, a, b = _two(rmout=True)
    return s, [_argv(s, a), _argv(s, b)], "out"


def sc_newdir_deep_same():
    s, a, b = _two(diff=False, rmout=True)
    return s, [_argv(s, a, "{OUT}/x/y"), _argv(s, a, "{OUT}/x/y")], "out"


def sc_same():
    s, a, b = _two(diff=False)
    return s, [_argv(s, a), _argv(s, a)], "out"


def sc_existing():
    s, a, b = _two(diff=False)
    s["out"] = {"pkg-1.0-cp312-cp312-manylinux1_x86_64.manylinux_2_5_x86_64.whl": world.text("an older wheel\n" * 400)}
    return s, [_argv(s, a), _argv(s, a)], "out"


def sc_diff():
    s, a, b = _two()
    return s, [_argv(s, a), _argv(s, b)], "out"


def sc_inplace():
    s, a, b = _two()
    return s, [_argv(s, a, "{IN}", "--no-update-tags"), _argv(s, b, "{IN}", "--no-update-tags")], "in"


def sc_strip():
    s, a, b = _two()
    return s, [_argv(s, a, "{OUT}", "--strip"), _argv(s, b, "{OUT}", "--plat", "manylinux2014_x86_64")], "out"


def sc_show():
    s, a, b = _two(diff=False)
    return s, [_argv(s, a), ["show", "--json", "{IN}/" + a]], "out"


def sc_pure():
    s, a, b = _two(diff=False)
    w = s["wheels"][0]
    w.update(py="py3", abi="none", plat="any", purelib="true")
    w["files"] = {"pkg/__init__.py": world.text("x = 1\n" * 3000)}
    v = ["repair", "-w", "{OUT}", "--allow-pure-python-wheel", "{IN}/pkg-1.0-py3-none-any.whl"]
    s["rmout"] = True
    return s, [v, v], "out"


def sc_fail():
    # one of the two fails
    s, a, b = _two()
    for f in s["wheels"][1]["files"].values():
        if f["kind"] == "elf":
            f["elf"]["needed"] = ["libnot.so.1", "libc.so.6"]
    s["rmout"] = True
    return s, [_argv(s, a), _argv(s, b)], "out"


SC = {n[3:]: f for n, f in list(globals().items()) if n.startswith("sc_")}
SAME = ("newdir_deep_same", "same", "existing", "pure")  # two identical commands
DEEP = ("newdir_deep_same", "same")
_serial: dict = {}


def norm(p):
    """random parts of names look alike: such a path counts as shared"""
    return re.sub(r"[0-9a-f]{32}", "*", p)


def state(b, sh):
    return {k: x for k, x in world.tree_digest(b.root).items() if not k.startswith("log/") and k != "log"}


def execute(name, start, segs, visible=None):
    """segs: number of steps of the alternating segments; then each to its end"""
    s, argvs, sh = SC[name]()
    argvs = [list(a) for a in argvs]
    with Box(s) as b:
        from mc.world import subst

        sc = fault.Schedule(b, [subst(a, b.map) for a in argvs], f"{b.root}/{sh}", f"{b.root}/tmp")
        cur = start
        points = []

        def private():
            # up to the next scheduling point
            while not sc.done(cur) and visible is not None and norm(sc.procs[cur]["next"][1:]) not in visible:
                sc.step(cur)

        for n in segs:
            private()
            while n and not sc.done(cur):
                points.append(cur)
                sc.step(cur)
                n -= 1
                private()
            cur = 1 - cur
        while not (sc.done(0) and sc.done(1)):
            if sc.done(cur):
                cur = 1 - cur
            if visible is None or norm(sc.procs[cur]["next"][1:]) in visible:
                points.append(cur)
            sc.step(cur)
        res = sc.results()
        return tuple(str(r.rc).replace(b.root, "") for r in res), state(b, sh), (sc.log, points), [r.err[-300:] for r in res]


def serial(name):
    if name not in _serial:
        a = execute(name, 0, [10**6])
        b = execute(name, 1, [10**6])
        logs = [a[2][0], b[2][0], execute(name, 0, [5, 10**6])[2][0], execute(name, 1, [5, 10**6])[2][0]]
        vis = set()
        for lg in logs:
            ps = [{norm(x[3:]) for x in lg if x.startswith(f"{i}:")} for i in (0, 1)]
            vis |= ps[0] & ps[1]
        n = [max(sum(x.startswith(f"{i}:") and norm(x[3:]) in vis for x in lg) for lg in logs) for i in (0, 1)]
        _serial[name] = ([a[:2], b[:2]], n, vis)
    return _serial[name]


def cases(tier):
    setup()
    out = []
    for name in SC:
        _, n, _ = serial(name)
        for start in (0, 1):
            n0, n1 = n[start], n[1 - start]
            if start and name in SAME:
                continue  # identical commands
            for i in range(n0 + 1):
                if tier == "quick" and name not in DEEP:
                    out.append({"sc": name, "start": start, "segs": [i, 10**6]})
                    continue
                for j in range(1, n1 + 1):
                    out.append({"sc": name, "start": start, "segs": [i, j]})
                    if tier == "thorough" and i and name in DEEP:
                        for k in range(1, n0 + 1 - i):
                            out.append({"sc": name, "start": start, "segs": [i, j, k]})
    return out


def run_case(c):
    ref, _, vis = serial(c["sc"])
    rcs, st, (log, points), err = execute(c["sc"], c["start"], c["segs"], vis)
    v = []
    if (rcs, st) not in [tuple(r) for r in ref]:
        near = min(ref, key=lambda r: (r[0] != rcs) + len({k for k in {*r[1], *st} if r[1].get(k) != st.get(k)}))
        diff = sorted(k for k in {*near[1], *st} if near[1].get(k) != st.get(k))
        v.append(("interference", f"schedule {c['start']}/{c['segs']} gives exit statuses {rcs} and differs from the serial runs ({near[0]}) "
                                  f"in {diff[:5]}; {log[:40]}; {[e[-160:] for e in err]}"))
    return CR(v, [c["sc"] + "".join(map(str, points)) + str(rcs)], len(log), 2, True, f"{rcs}")


def bounds(tier):
    return {"processes": 2, "preemptions": {n: (1 if n not in DEEP else 2) if tier == "quick" else 3 if n in DEEP else 2 for n in SC},
            "scenarios (shared operations of each process)": {k: serial(k)[1] for k in SC}}
