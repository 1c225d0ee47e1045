"""C04: values are a function of (problem, point): all interleavings of two problems and a third one's life."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
from core import THOROUGH  # noqa: E402
import suitemodel as sm  # noqa: E402

ck = core.Check("C04")
PT = {"x": lambda d: [0.25 + 0.1 * k for k in range(d)], "y": lambda d: [-3.5 + (k * 1.7) % 6 for k in range(d)],
      "z": lambda d: [6.5 - (k * 2.3) % 13 for k in range(d)], "o": lambda d: [0.0] * d}


def pid(s, f, d, i):
    return (s, f, d, i)


def create(slot, ss, p):
    s, f, d, i = p
    return ["B\t%d\t%d\t%d\t%d\t%d" % (slot, ss, f, d, i)]


def suite_cmd(ss, *ps):
    s = ps[0][0]
    ins = sorted(set(p[3] for p in ps if p[0] == s))
    return "S\t%d\t%s\tinstances: %s\t" % (ss, s, ",".join(map(str, ins)))


TAB = {}


def table(drv, p, st=None):
    """Values of every point on a problem created afresh for that single evaluation."""
    if p in TAB:
        return TAB[p]
    s, f, d, i = p
    cmds = [suite_cmd(0, p)]
    n0 = len(cmds)
    for k in PT:
        cmds += create(1, 0, p) + ["E\t1\t" + core.xs(PT[k](d)), "F\t1"]
    cons = s.startswith("bbob-constrained")
    if cons:
        for k in PT:
            cmds += create(1, 0, p) + ["C\t1\t" + core.xs(PT[k](d)), "F\t1"]
    cmds += create(1, 0, p) + ["D\t1", "W\t1", "X\t1", "F\t1", "f\t0"]
    fresh = core.Driver(drv.exe)  # a process that has done nothing else
    try:
        r = fresh.run(cmds, timeout=core.limit(120))
    finally:
        fresh.kill()
        os.unlink(fresh.errf)
        os.rmdir(fresh.dir)
    t = {"E" + k: r[n0 + 3 * j + 1] for j, k in enumerate(PT)}
    if cons:
        t.update({"C" + k: r[n0 + 12 + 3 * j + 1] for j, k in enumerate(PT)})
    t["meta"] = r[-5:-2]
    if s == "bbob-noisy":
        t = {"meta": t["meta"]}
    for k, v in t.items():
        if k != "meta" and not ok_number(v):
            raise core.Violation("%s: %s gives %r" % (p, k, v), {"problem": p})
    TAB[p] = t
    return t


def ok_number(v):
    try:
        [float(a) for a in v.split("\t")]
        return True
    except ValueError:
        return False


def pair(item, drv, st, viol):
    p1, p2, p3, depth = item
    t1, t2, t3 = table(drv, p1), table(drv, p2), table(drv, p3)
    ops = ["1x", "1y", "1z", "2x", "2y", "3", "M"]
    if "Cx" in t1:
        ops.append("C")
    ps = {"1": (p1, t1), "2": (p2, t2)}
    X = {(w, k): core.xs(PT[k](p[2])) for w, p in (("1", p1), ("2", p2), ("3", p3)) for k in PT}
    for h in itertools.product(ops, repeat=depth):
        same = p1[0] == p2[0]
        cmds = [suite_cmd(0, p1, p2), suite_cmd(1, p2)] + create(1, 0, p1) + create(2, 0 if same else 1, p2)
        exp = [None] * 4
        for op in h:
            if op == "3":
                cmds += [suite_cmd(3, p3)] + create(3, 3, p3) + ["E\t3\t" + X["3", "y"], "F\t3", "f\t3"]
                exp += [None, None, t3.get("Ey"), None, None]
            elif op == "M":
                cmds.append("M\t1\t" + X["1", "y"])
                exp.append("ok")
            elif op == "C":
                cmds.append("C\t1\t" + X["1", "x"])
                exp.append(t1["Cx"])
            else:
                cmds.append("E\t%s\t%s" % (op[0], X[op[0], op[1]]))
                exp.append(ps[op[0]][1].get("E" + op[1]))
        cmds += ["D\t1", "W\t1", "X\t1", "D\t2", "W\t2", "X\t2", "F\t2"]
        m1, m2 = list(t1["meta"]), list(t2["meta"])
        exp += [None, m1[1], m1[2], None, m2[1], m2[2], "ok"]
        cmds += ["E\t1\t" + X["1", "o"], "F\t1", "f\t0", "f\t1"]
        exp += [t1.get("Eo"), "ok", "ok", "ok"]
        r = drv.run(cmds)
        st.add("transitions", len(h) + 1)
        st.add("traces_validated_against_impl")
        for k, (c, e, a) in enumerate(zip(cmds, exp, r)):
            if e is not None and a != e:
                raise core.Violation("problems %s, %s, %s, history %s: %r gives %r, but %r on a fresh problem"
                                     % (p1, p2, p3, " ".join(h), c, a, e), {"p": [p1, p2, p3], "history": h, "commands": cmds})
    st.state((p1, t1.get("Ex"), t1.get("Ey"), t1.get("Ez")))
    st.state((p1, p2, p3), "triples_of_problems")


def solo(item, drv, st, viol):
    """Every order of three points (with repetitions) on one problem and on a re-creation of it."""
    p = item
    t = table(drv, p)
    if "Ex" not in t:
        return
    X = {k: core.xs(PT[k](p[2])) for k in PT}
    cmds = [suite_cmd(0, p)] + create(1, 0, p)
    exp = [None, None]
    ops = ["E" + k for k in "xyz"] + (["Cx", "Cy"] if "Cx" in t else [])
    seqs = list(itertools.product(ops, repeat=3 if p[2] <= 10 else 2))
    for s in seqs:
        for k in s:
            cmds.append("%s\t1\t%s" % (k[0], X[k[1]]))
            exp.append(t[k])
    cmds += ["F\t1", "f\t0"]
    r = drv.run(cmds, timeout=core.limit(120))
    st.add("transitions", len(cmds))
    st.add("traces_validated_against_impl", len(seqs))
    for c, e, a in zip(cmds, exp, r):
        if e is not None and a != e:
            raise core.Violation("problem %s: %r gives %r within a sequence, but %r on a fresh problem" % (p, c, a, e), {"p": p, "commands": cmds[:200]})
    st.state((p, t["Ex"], t["Ey"], t["Ez"]))
    walk(p, drv, st)
    n = (200000 if THOROUGH else 20000) if p[2] == 2 and p[3] == 1 else 2500 if p[2] < 10 else 0
    if n:  # as often as wanted
        cmds = [suite_cmd(0, p)] + create(1, 0, p) + ["x\t1\t=%s\t%d\t%s" % (k[0], n, X[k[1]]) for k in ops] + ["F\t1", "f\t0"]
        r = drv.run(cmds, timeout=core.limit(120))
        st.add("transitions", n * len(ops))
        for k, v in zip(ops, r[2:]):
            if v != t[k]:
                raise core.Violation("problem %s: %d times %s gives %r, but %r on a fresh problem" % (p, n, k, v, t[k]), {"p": p, "commands": cmds})


def walk(p, drv, st):
    """Points that differ from the one before in exactly one coordinate, there and back, have the values they have after an unrelated point."""
    n = p[2]
    far = core.xs(PT["z"](n))
    w = [PT["x"](n)]
    for k in range(n):
        w.append(w[-1][:k] + [w[-1][k] - 1.9 + 0.37 * k % 1] + w[-1][k + 1:])
    b = w[0]
    for k in range(n - 1):  # neighbours exchanged, signs changed, two coordinates moved against each other
        w.append(b[:k] + [b[k + 1], b[k]] + b[k + 2:])
        w.append(b)
        w.append(b[:k] + [b[k] + 0.5, b[k + 1] - 0.5] + b[k + 2:])
    w += [b, [-v for v in b], b] + [b[:k] + [-b[k]] + b[k + 1:] for k in range(n)] + [b, b[::-1]]
    w = [core.xs(v) for v in w]
    kinds = "EC" if p[0].startswith("bbob-constrained") else "E"
    cmds = [suite_cmd(0, p)] + create(1, 0, p)
    ref, there = {}, []
    for a in kinds:
        for v in dict.fromkeys(w):
            cmds += ["E\t1\t" + far, a + "\t1\t" + v]
            ref[a, v] = len(cmds) - 1
    for a in kinds:
        for v in w + w[::-1]:
            cmds.append(a + "\t1\t" + v)
            there.append((len(cmds) - 1, (a, v)))
    cmds += ["F\t1", "f\t0"]
    r = drv.run(cmds, timeout=core.limit(120))
    st.add("transitions", len(cmds))
    st.add("traces_validated_against_impl")
    for j, a in there:
        if r[j] != r[ref[a]]:
            raise core.Violation("problem %s: %r gives %r after a point near to it in form, but %r after an unrelated point" % (p, cmds[j], r[j], r[ref[a]]), {"p": p, "commands": cmds[:200]})


def main():
    exe = core.build_driver()
    rep = [("bbob", f, 2, 1) for f in range(1, 25)]
    cross = [("bbob", f, d, i) for f, d, i in ((1, 3, 1), (1, 2, 1), (1, 2, 2), (5, 3, 1), (8, 3, 2), (15, 3, 1), (16, 3, 1), (17, 3, 1), (20, 3, 1), (21, 3, 1), (22, 2, 1), (23, 3, 1), (24, 3, 1), (7, 5, 1))]
    cross += [("bbob-boxed", 3, 3, 1), ("bbob-boxed", 21, 2, 1), ("bbob-constrained", 1, 2, 1), ("bbob-constrained", 10, 3, 2), ("bbob-constrained", 52, 2, 1), ("bbob-constrained", 36, 3, 1),
              ("bbob-noisy", 101, 2, 1), ("bbob-noisy", 129, 3, 1), ("bbob-mixint", 2, 5, 1), ("bbob-mixint", 21, 5, 1), ("bbob-biobj", 1, 2, 1), ("bbob-biobj", 55, 3, 2),
              ("bbob-biobj-ext", 60, 2, 3), ("bbob-biobj-mixint", 92, 5, 1), ("bbob-largescale", 2, 20, 1), ("bbob-largescale", 21, 20, 1), ("toy", 1, 2, 1), ("toy", 3, 5, 1)]
    items = []
    d = 4 if THOROUGH else 3
    other = [("bbob-biobj", 23, 2, 1), ("bbob-noisy", 110, 2, 1), ("bbob", 22, 2, 3)]
    for a, b in itertools.product(rep, rep):  # every ordered pair of bbob functions of the same size
        items.append((a, b, other[(a[1] + b[1]) % 3], 2 if not THOROUGH else 3))
    for a, b in itertools.product(cross, cross):
        items.append((a, b, cross[(cross.index(a) + 5) % len(cross)], 2))
    for k, a in enumerate(cross):
        for b in (a, cross[(k + 1) % len(cross)], cross[(k + 9) % len(cross)]):
            items.append((a, b, (a[0], a[1], a[2], a[3]), d))
    core.explore(ck, pair, items, exe, chunk=4)
    allp = []
    for s in sm.NAMES:
        dims, nf, f0, _ = sm.SUITES[s]
        for dim in dims:
            if dim > (160 if THOROUGH else 40):
                continue
            for i in ((1, 2, 7, 51, 101) if THOROUGH else (1, 7)) if dim < 40 else (1,):
                allp += [(s, f0 + k, dim, i) for k in range(nf)]
    core.explore(ck, solo, allp, exe, chunk=20)
    ck.extra["problems_examined_alone"] = len(allp)
    ck.extra["problem_triples"] = len(items)
    ck.assumptions.append("pairs of problems: all histories of 2 operations (%d for selected pairs) over evaluate/constraints/recommend/create-evaluate-free a third; "
                          "single problems: all orders of three points with repetition, and a walk, there and back, that changes one coordinate at a time, then exchanges neighbours and changes signs" % d)
    ck.finish()


core.main(main)
