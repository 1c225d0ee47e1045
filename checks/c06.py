"""C06: every problem of every suite is the published one (fingerprints at the pinned commit, and ties between suites)."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
from core import THOROUGH  # noqa: E402
import suitemodel as sm  # noqa: E402
import biobjmodel as bm  # noqa: E402
import golden  # noqa: E402

ck = core.Check("C06")
TOL = 1e-8


def same(a, b, tol=TOL):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    if min(abs(a), abs(b)) > 1e22:  # far outside, where x^(1 + sqrt(x)) amplifies rounding errors
        return (a > 0) == (b > 0) and abs(math.log10(abs(a)) - math.log10(abs(b))) <= 2
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def gold(item, drv, st, viol):
    (suite, d, f, ins), rows = item
    r = drv.run(golden.command(suite, d, f, ins), timeout=core.limit(300))
    for k, i in enumerate(ins):
        who = "%s f%d d%d i%d" % (suite, f, d, i)
        rep = {"suite": suite, "f": f, "d": d, "i": i}
        try:
            crc, v = golden.parse(r[2 + 3 * k])
        except ValueError:
            raise core.Violation("%s: %r" % (who, r[2 + 3 * k]), rep)
        if crc != rows[k][0]:
            raise core.Violation("%s: id, name, type or shape changed: %s" % (who, r[2 + 3 * k].split("\t")[0]), rep)
        g = rows[k][1]
        if len(g) != len(v):
            raise core.Violation("%s: number of values changed" % who, rep)
        for j, (a, b) in enumerate(zip(v, g)):
            if not same(a, b):
                raise core.Violation("%s: observable %d (0-2 bounds and start, 3-4 optimum, then values at fifteen points) is %.17g, published %.17g"
                                     % (who, j, a, b), rep)
        st.add("transitions", len(v))
        st.state((suite, d, f, i))
    st.add("traces_validated_against_impl", len(ins))


def pts(d, n, scale=4.9):
    return [[scale * math.sin(1.0 + 2.3 * k + 1.9 * i + 0.37 * i * k) for i in range(d)] for k in range(n)]


def tie_biobj(item, drv, st, viol):
    suite, d, f, ins = item
    base = "bbob-mixint" if "mixint" in suite else "bbob"
    for i in ins:
        (f1, i1), (f2, i2) = bm.parts(f, i)
        P = pts(d, 3) + pts(d, 1, 20.0)
        X = [core.xs(p) for p in P]
        a = drv.run(["S\t0\t%s\tinstances: %d,%d\t" % (base, i1, i2), "B\t1\t0\t%d\t%d\t%d" % (f1, d, i1), "B\t2\t0\t%d\t%d\t%d" % (f2, d, i2)]
                    + ["E\t%d\t%s" % (s, x) for x in X for s in (1, 2)] + ["F\t1", "F\t2", "f\t0"])
        b = drv.run(["S\t0\t%s\tinstances: %d\t" % (suite, i), "B\t1\t0\t%d\t%d\t%d" % (f, d, i)] + ["E\t1\t" + x for x in X] + ["F\t1", "f\t0"])
        for k in range(len(X)):
            y = b[2 + k].split("\t")
            for o in (0, 1):
                if not same(float(y[o]), float(a[3 + 2 * k + o])):
                    raise core.Violation("%s f%d d%d i%d: objective %d at %s is %s, but %s for its base problem" % (suite, f, d, i, o + 1, P[k], y[o], a[3 + 2 * k + o]),
                                         {"suite": suite, "f": f, "d": d, "i": i})
        st.add("transitions", 3 * len(X))
        st.state(("tie", suite, d, f, i))
        st.add("traces_validated_against_impl")


PART2 = {}


def opts(drv, d, i):
    cm = ["S\t0\tbbob\tinstances: %d\tdimensions: %d" % (i, d)]
    for f in range(1, 25):
        cm += ["B\t1\t0\t%d\t%d\t%d" % (f, d, i), "v\t1", "K\t1", "F\t1"]
    r = drv.run(cm + ["f\t0"], timeout=core.limit(60))
    return {f: (float(r[4 * f - 2]), r[4 * f - 1].split("\t")[1:]) for f in range(1, 25)}


def at(drv, d, i, xs):
    cm, idx = ["S\t0\tbbob\tinstances: %d\tdimensions: %d" % (i, d)], {}
    for f in range(1, 25):
        cm.append("B\t1\t0\t%d\t%d\t%d" % (f, d, i))
        for g in xs:
            idx[f, g] = len(cm)
            cm.append("E\t1\t" + "\t".join(xs[g]))
        cm.append("F\t1")
    r = drv.run(cm + ["f\t0"], timeout=core.limit(60))
    return {k: float(r[j]) for k, j in idx.items()}


def second(drv, i, dims):
    """The published rule for instances above 15: first part 2 i + 1, second part the next instance for which every pair of functions
    has, in every dimension of the suite, ideal and nadir at least 0.1 and the two optima at least 1e-4 apart."""
    if (i, dims) in PART2:
        return PART2[i, dims]
    i1 = i2 = 2 * i + 1
    near = True
    while near:
        i2 += 1
        if i2 > i1 + 60:
            raise core.Violation("bbob: no instance from %d to %d has optima apart from those of instance %d for all pairs of functions in dimensions %s" % (i1 + 1, i2, i1, dims), {"i1": i1, "dims": dims})
        near = False
        for d in dims:
            o1, o2 = opts(drv, d, i1), opts(drv, d, i2)
            e1, e2 = at(drv, d, i1, {g: o2[g][1] for g in o2}), at(drv, d, i2, {g: o1[g][1] for g in o1})
            for f1 in range(1, 25):
                for f2 in range(f1, 25):
                    if f1 != f2 or f1 in bm.SEL:
                        ideal = math.hypot(e1[f1, f2] - o1[f1][0], e2[f2, f1] - o2[f2][0])
                        optima = math.dist([float(v) for v in o1[f1][1]], [float(v) for v in o2[f2][1]])
                        near = near or ideal < 0.1 or optima < 1e-4
            if near:
                break
    PART2[i, dims] = (i1, i2)
    return PART2[i, dims]


def tie_new(item, drv, st, viol):
    """Problems of instances above 15 asked from one suite in a given order."""
    suite, dims, alld, order = item
    base = "bbob-mixint" if "mixint" in suite else "bbob"
    listed = ",".join(map(str, sorted(set(i for f, d, i in order))))
    x = {d: core.xs(pts(d, 1)[0]) for d in dims}
    cm = ["S\t0\t%s\tinstances: %s\t%s" % (suite, listed, "" if alld else "dimensions: " + ",".join(map(str, dims)))]
    exp = [None]
    for f, d, i in order:
        i1, i2 = second(drv, i, dims) if i > 15 else [q[1] for q in bm.parts(f, i)]
        f1, f2 = bm.PAIRS[f - 1]
        cm += ["B\t1\t0\t%d\t%d\t%d" % (f, d, i), "E\t1\t" + x[d], "F\t1"]
        exp += [None, (f1, i1, f2, i2, d), None]
    r = drv.run(cm + ["f\t0"], timeout=core.limit(200))
    for k, e in enumerate(exp):
        if e:
            f1, i1, f2, i2, d = e
            a = drv.run(["S\t0\t%s\tinstances: %d,%d\t" % (base, i1, i2), "B\t1\t0\t%d\t%d\t%d" % (f1, d, i1), "B\t2\t0\t%d\t%d\t%d" % (f2, d, i2),
                         "E\t1\t" + x[d], "E\t2\t" + x[d], "F\t1", "F\t2", "f\t0"])
            y = r[k].split("\t")
            if len(y) != 2 or not all(same(float(u), float(v)) for u, v in zip(y, a[3:5])):
                raise core.Violation("%s (%s): %r of %s gives %s, but its parts f%d instance %d and f%d instance %d give %s" % (suite, cm[0], cm[k], cm[k - 1], r[k], f1, i1, f2, i2, a[3:5]),
                                     {"suite": suite, "commands": cm[:k + 1]})
            st.add("transitions", 3)
            st.state(("new", suite, e))
    st.add("traces_validated_against_impl")


def tie_boxed(item, drv, st, viol):
    d, f, ins = item
    for i in ins:
        P = pts(d, 4) + [[5.0 if k % 2 else -5.0 for k in range(d)]]
        out = []
        for k in range(d):
            for v in (5 + 1e-9, -5 - 1e-9, 5.5, -70.0):
                x = [0.3] * d
                x[k] = v
                out.append(x)
        b = drv.run(["S\t0\tbbob-boxed\tinstances: %d\t" % i, "B\t1\t0\t%d\t%d\t%d" % (f, d, i)] + ["E\t1\t" + core.xs(x) for x in P + out] + ["F\t1", "f\t0"])
        rep = {"f": f, "d": d, "i": i}
        for k, x in enumerate(P):
            if not math.isfinite(float(b[2 + k])):
                raise core.Violation("bbob-boxed f%d d%d i%d inside the box at %s is %s" % (f, d, i, x, b[2 + k]), rep)
        for k, x in enumerate(out):
            if b[2 + len(P) + k] != "inf":
                raise core.Violation("bbob-boxed f%d d%d i%d outside the box at %s is %s, not inf" % (f, d, i, x, b[2 + len(P) + k]), rep)
        st.add("transitions", 2 * len(P) + len(out))
        st.state(("boxed", d, f, i))
        st.add("traces_validated_against_impl")


def main():
    exe = core.build_driver()
    g = golden.load() + golden.load(golden.LARGE, golden.large)
    g.sort(key=lambda t: -t[0][1])
    core.explore(ck, gold, g, exe, chunk=4)
    lots = list(range(1, 16))
    items = []
    for s in ("bbob-biobj", "bbob-biobj-ext", "bbob-biobj-mixint"):
        dims, nf, f0, _ = sm.SUITES[s]
        for d in dims:
            if d <= 40:
                items += [(s, d, f, lots if THOROUGH or d <= 5 else [1, 2, 9, 15]) for f in range(1, nf + 1)]
    core.explore(ck, tie_biobj, items, exe, chunk=10)
    new = []
    for i in range(16, 200 if THOROUGH else 61):
        new.append(("bbob-biobj", (2,), False, [(1 + (7 * i) % 55, 2, i), (55 - i % 50, 2, i)]))
    for f in range(1, 93):
        new.append(("bbob-biobj-ext", (2,), False, [(f, 2, i) for i in (16, 22, 32)]))
    for o in itertools.permutations((15, 16, 22, 24), 3):
        new.append(("bbob-biobj", (2, 3), False, [(3, 2, o[0]), (55, 3, o[1]), (20, 2, o[2]), (3, 3, o[0]), (11, 3, o[1])]))
    new += [("bbob-biobj-mixint", (5,), False, [(f, 5, i) for f in (1, 30, 92)]) for i in (16, 17, 22, 38)]
    new += [("bbob-biobj", (2, 3, 5, 10, 20, 40), True, [(9, 3, i)]) for i in (16, 22, 34)[:3 if THOROUGH else 1]]
    new.reverse()
    core.explore(ck, tie_new, new, exe, chunk=2)
    core.explore(ck, tie_boxed, [(d, f, (lots if THOROUGH else [1, 4, 15]) + [71, 101]) for d in (2, 3, 5, 10, 20, 40) for f in range(1, 25)], exe, chunk=4)
    ck.extra["problems"] = sum(len(t[0][3]) for t in g)
    ck.assumptions.append("reference values recorded from the pinned commit for %d problems at fifteen points each, compared with relative tolerance 1e-8" % ck.extra["problems"])
    ck.finish()


core.main(main)
