"""C27: the rw observer's file for every history of evaluations, runs and option settings."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
from core import THOROUGH  # noqa: E402
from rwmodel import Run, compare, optstr, spec  # noqa: E402

ck = core.Check("C27")

VARS = [None, "none", "low_dim", "all"]
SP = {}


def check(drv, seq, o, st, viol):
    """seq: runs (problem key, operations); one observer for all of them"""
    cmds, marks = [], []
    for s in sorted(set(SP[k]["S"] for k, _ in seq)):
        cmds.append(s)
    cmds.append("O\t0\trw\t" + optstr(o))
    for key, ops in seq:
        sp = SP[key]
        cmds += [sp["G"] % 1, "A\t1\t0"]
        for a, n, *times in ops:
            if a == "T":
                cmds.append("T\t0\t1")
            elif times:
                cmds.append("x\t1\t%s\t%d\t%s" % (a, times[0], sp["xs"][n]))
            elif n in ("nan", "inf"):
                cmds.append("%s\t1\t%s" % (a, "\t".join([n] + ["0"] * (sp["dim"] - 1))))
            else:
                cmds.append("%s\t1\t%s" % (a, sp["xs"][n]))
        cmds.append("F\t1")
    cmds.append("o\t0")
    r = drv.run(cmds)
    rep = {"runs": seq, "options": optstr(o), "commands": cmds}
    who = "rw observer %r, runs %s" % (optstr(o), seq)
    for w in ("fatal", "assert", "abort", "xmodified", "nop"):
        if w in r:
            viol.append(("%s: %s at command %r" % (who, w, cmds[r.index(w)]), rep))
            return
    files = {}
    at = cmds.index("O\t0\trw\t" + optstr(o)) + 1
    for key, ops in seq:
        sp = SP[key]
        run = Run(files, sp, o)
        at += 2
        for a, n, *times in ops:
            if n not in ("nan", "inf"):
                for _ in range(times[0] if times else 1):
                    if a == "E":
                        run.evaluate(n, [float(v) for v in r[at].split("\t")])
                    elif a == "C":
                        run.ng += 1
            at += 1
        at += 1
        st.state((key, optstr(o), run.nf, run.ng, run.best))
    d = compare(files, core.read_tree(drv.cwd + "/exdata/default"), o.get("t"))
    if d:
        viol.append(("%s: %s" % (who, d), rep))
    st.add("transitions", len(cmds))
    st.add("traces_validated_against_impl")


def work(item, drv, st, viol):
    for seq, o in item:
        check(drv, seq, o, st, viol)
        if len(viol) >= 3:
            return


def main():
    exe = core.build_driver()
    drv = core.Driver(exe)
    keys = [("bbob", 1, 2, 1), ("bbob-constrained", 1, 2, 1), ("bbob-constrained", 9, 3, 2), ("bbob-mixint", 3, 5, 1), ("bbob-biobj", 2, 2, 1), ("bbob-biobj-mixint", 2, 5, 1),
            ("bbob-noisy", 101, 2, 1), ("bbob-boxed", 3, 3, 1), ("bbob-largescale", 1, 20, 1), ("bbob", 8, 10, 3), ("bbob", 8, 20, 3), ("bbob", 1, 2, 2), ("bbob-constrained", 4, 10, 1)]
    wide = [("bbob", f, 2, 1) for f in range(1, 25)] + [("bbob-constrained", f, 3, 2) for f in range(1, 55)] + [("bbob-mixint", f, 5, 1) for f in range(1, 25)] + [("bbob-noisy", f, 2, 1) for f in range(101, 131)]
    wide += [("bbob-biobj", f, 2, 1) for f in range(1, 56)]
    try:
        for k in keys + wide:
            SP[k] = spec(drv, *k)
    except (core.Died, ValueError, IndexError) as e:
        ck.violation("problem %s cannot be examined: %s" % (k, e), {})
        ck.finish()
    items = []
    E = [("E", "a"), ("E", "b"), ("E", "far")]
    depth = 6 if THOROUGH else 5
    for key in keys[:6]:
        ops = E + ([("C", "a")] if SP[key]["ncon"] else [("E", "nan")])
        for o in ({}, {"ob": 1}):
            items += [(((key, h),), o) for h in itertools.product(ops, repeat=depth)]
        ck.stats.sample("%s: all sequences of %d of %s with and without log_only_better" % (SP[key]["name"], depth, ops))
    fixed = (("E", "a"), ("C", "b"), ("E", "neg"), ("E", "inf"), ("T", ""), ("E", "b"), ("E", "b"), ("E", "c"))
    # every combination of the options on every kind of problem
    for key in keys:
        h = tuple(x for x in fixed if x[0] != "C" or SP[key]["ncon"])
        for v, c, lv, lc, ob, p, di, t in itertools.product(VARS, VARS, (None, 2, 30), (None, 1), (None, 0, 1), (None, (3, 4, 5)), (None, 0, 1), (None, 1)):
            if not THOROUGH and ((lv and v != "low_dim") or (lc and c != "low_dim") or (t and (p or di))):
                continue
            if c is not None and not SP[key]["ncon"] and not THOROUGH:
                continue
            o = {"v": v, "c": c, "ob": ob, "di": di, "t": t}
            if lv:
                o["lv"] = lv
            if lc:
                o["lc"] = lc
            if p:
                o["px"], o["pf"], o["pg"] = p
            items.append((((key, h),), {k: x for k, x in o.items() if x is not None}))
    # sequences of runs: repeated problems append
    rk = [keys[0], keys[11], keys[1], keys[4]]
    for n in (2, 3):
        for s in itertools.product(rk, repeat=n):
            for ob in ({}, {"ob": 1}):
                items.append((tuple((k, (("E", "a"), ("E", "b")) if j % 2 else (("E", "b"), ("E", "a"))) for j, k in enumerate(s)), ob))
            items.append((tuple((k, (("E", "a"),) if j % 2 else ()) for j, k in enumerate(s)), {}))
    for k in wide:
        for h in itertools.product(E, repeat=2):
            items.append((((k, h),), {"ob": 1}))
    n = 70000 if THOROUGH else 11000
    many = []
    for key in keys[:6]:
        for o in ({}, {"ob": 1}, {"v": "all", "px": 3, "pf": 4, "pg": 5}):
            many.append([(((key, (("E", "a", n), ("E", "b", 5)) + ((("C", "a", n), ("E", "b", n // 4)) if SP[key]["ncon"] else ()) + (("E", "far", n // 4), ("E", "c"))),), o)])
    for o in ({}, {"ob": 1}):  # long experiments: many problems, returns to the same one
        for s in (wide, wide[::-1] + wide[::7], [rk[j % 4] for j in range(120)], [rk[j % 2] for j in range(70)] + [rk[2]] * 40):
            many.append([(tuple((k, (("E", "a"), ("E", "b"), ("E", "c"))[j % 3:]) for j, k in enumerate(s)), o)])
    core.explore(ck, work, many, exe, chunk=1)
    core.explore(ck, work, [items[k:k + 120] for k in range(0, len(items), 120)], exe, chunk=1)
    ck.extra["options_and_histories"] = len(items)
    ck.assumptions.append("the column header line is only checked for its documented beginning; with log_time the last column is only checked to be a number")
    ck.finish()


core.main(main)
