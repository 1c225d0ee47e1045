"""Histories run on the C library (mc/c/driver.c) and on a language interface that executes the same scripts; the answers
and the files written must be the same. A history is a list of (command for C, command for the interface, expected)
where either command may be None and `expected` overrides the answer of C."""
import itertools
import math
import os
import re
import core

_I = {}


class Died(Exception):
    pass


def other(exe):
    d = _I.get(exe)
    if d is None:
        d = _I[exe] = core.Driver(exe)
    return d


def value(s):
    try:
        return float.fromhex(s) if "0x" in s else float(s)
    except ValueError:
        return s


def same(cmd, a, b, q=3):
    """the answers of C and of the interface"""
    k = cmd[0]
    if k == "O":
        return (a == "null") == (b == "null")
    if k == "L":
        return True
    if k == "Q":
        a = "\t".join(a.split("\t")[:q])
    if a == b:
        return True
    fa, fb = a.split("\t"), b.split("\t")
    if len(fa) != len(fb):
        return False
    for u, v in zip(fa, fb):
        u, v = value(u), value(v)
        if u == v or (isinstance(u, float) and isinstance(v, float) and u != u and v != v):
            continue
        return False
    return True


def norm(tree):
    return {k: (v if v is None else re.sub(rb"coco_version = '[^']*'", b"", v)) for k, v in tree.items()}


def play(h, drv, exe, st, viol, what, fresh=False, folders=True, q=3):
    """Runs one history on both; appends to viol what differs."""
    cs = [c for c, _, _ in h if c is not None]
    if fresh:
        drv.close()
    ra = iter(drv.run(cs))
    ans = [next(ra) if c is not None else None for c, _, _ in h]
    st.add("transitions", len(cs))
    if any(a in ("fatal", "abort", "assert") for a in ans):
        st.add("histories_ended_by_the_library")
        return
    if "nop" in ans:  # there is no such problem: its use is left out
        h = [t for t, a in zip(h, ans) if a != "nop"]
        ans = [a for a in ans if a != "nop"]
    tree = norm(core.read_tree(drv.cwd + "/exdata"))
    d = other(exe)
    if fresh:
        d.close()
    js = [i for _, i, _ in h if i is not None]
    rep = {"history": what, "c": cs, "interface": js}
    try:
        rb = d.run(js)
    except core.Died as e:
        if "timeout" in str(e):
            raise
        viol.append(("%s: the interface crashed: %s" % (what, e), rep))
        return
    st.add("transitions", len(js))
    st.add("traces_validated_against_impl")
    it = iter(rb)
    last = "0"
    for (c, i, e), a in zip(h, ans):
        b = next(it) if i is not None else None
        if i is None or (c is None and e is None):
            continue
        want = e if e is not None else a
        if not same(i, want, b, q):
            viol.append(("%s: %r answers %r instead of %r" % (what, i[:200], b[:300], want[:300]), rep))
            return
        if i[0] in "Qq":
            last = b
    st.state((re.sub(r"\d+", "", what.split("|")[0]), last, len(tree)))
    if folders:
        got = norm(core.read_tree(d.cwd + "/exdata"))
        if got != tree:
            k = sorted(f for f in set(got) | set(tree) if got.get(f, 0) != tree.get(f, 0))[0]
            viol.append(("%s: file %s is %r instead of %r" % (what, k, (got.get(k) or b"")[-300:] if k in got else None, (tree.get(k) or b"")[-300:] if k in tree else None), rep))
            return
        st.add("files_compared", len(tree))


def both(*cmds):
    return [(c, c, None) for c in cmds]


def points(dim):
    return {"a": [0.7 - 0.3 * k for k in range(dim)], "b": [-1.5 + 0.9 * k for k in range(dim)], "z": [0.0] * dim,
            "far": [1e3 + k for k in range(dim)], "inf": [1.0] * (dim - 1) + [-math.inf], "nan": [math.nan] + [0.0] * (dim - 1)}


# suite, function, dimension, instance, observers, constraints
CONFIGS = [("bbob", 1, 2, 1, ("bbob", "rw"), 0), ("bbob-constrained", 8, 2, 1, ("bbob", "rw"), 1), ("bbob-mixint", 1, 5, 1, ("bbob",), 0), ("bbob-biobj", 11, 2, 1, ("bi", "rw"), 0),
           ("bbob-boxed", 3, 3, 2, ("bbob",), 0), ("bbob-largescale", 2, 20, 1, ("bbob",), 0), ("toy", 3, 2, 1, ("toy",), 0), ("bbob-biobj-mixint", 2, 5, 1, ("bi",), 0)]
OBS = {"bbob": ("bbob", "result_folder: b algorithm_name: x"), "rw": ("rw", "result_folder: r log_variables: all log_constraints: all"),
       "bi": ("bbob-biobj", "result_folder: d log_nondominated: all log_decision_variables: all"), "toy": ("toy", "result_folder: t"), "none": ("no_observer", "")}
SUITES = {"bbob": (24, (2, 3, 5, 10, 20, 40)), "bbob-boxed": (24, (2, 5, 10)), "bbob-largescale": (24, (20, 40)), "bbob-mixint": (24, (5, 10, 20)),
          "bbob-biobj": (55, (2, 3, 5, 10)), "bbob-biobj-ext": (92, (2, 5)), "bbob-biobj-mixint": (92, (5, 10)), "bbob-constrained": (54, (2, 5, 10)), "toy": (6, (2, 10)),
          "bbob-noisy": (30, (2, 5))}
OPT = {}


def learn(drv):
    """a point of each single-objective configuration that reaches the final target"""
    for suite, f, dim, inst, obs, ncon in CONFIGS:
        if "biobj" not in suite:
            r = drv.run(["S\t0\t%s\tinstances: %d\tdimensions: %d" % (suite, inst, dim), "B\t1\t0\t%d\t%d\t%d" % (f, dim, inst), "K\t1", "F\t1", "f\t0"])
            OPT[suite, f, dim, inst] = [float(v) for v in r[2].split("\t")[1:]]
