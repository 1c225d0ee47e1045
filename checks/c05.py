"""C05: the declared optimum is attained, admissible and never beaten, for every problem."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
from core import THOROUGH  # noqa: E402
import suitemodel as sm  # noqa: E402
import biobjmodel as bm  # noqa: E402

ck = core.Check("C05")
TOL = 1e-9


def single(item, drv, st, viol):
    suite, dim, f, insts, grid = item
    for i in insts:
        r = drv.run(["S\t0\t%s\tinstances: %d\t" % (suite, i), "B\t1\t0\t%d\t%d\t%d" % (f, dim, i), "V\t1\t%d" % grid, "F\t1", "f\t0"], timeout=core.limit(300))
        who = "%s f%d d%d i%d" % (suite, f, dim, i)
        rep = {"suite": suite, "f": f, "d": dim, "i": i}
        try:
            known, fb, bv, mn, pts, adm, inb, cm, di = [float(v) for v in r[2].split("\t")]
        except ValueError:
            raise core.Violation("%s: scanning the domain ends in %r" % (who, r[2]), rep)
        scale = TOL * max(1.0, abs(bv))
        if not known:
            raise core.Violation("%s: no best parameter" % who, rep)
        cauchy = suite == "bbob-noisy" and (f - 101) % 3 == 2
        if not cauchy and not abs(fb - bv) <= scale + (2e-8 if suite == "bbob-noisy" else 0):
            raise core.Violation("%s: value at the declared optimum is %.17g, declared best value %.17g" % (who, fb, bv), rep)
        if not mn >= bv - scale:
            raise core.Violation("%s: an admissible point has value %.17g, below the declared best value %.17g" % (who, mn, bv), rep)
        if not inb:
            raise core.Violation("%s: the declared optimum is outside the region of interest" % who, rep)
        if not cm <= 1e-12:
            raise core.Violation("%s: the declared optimum violates a constraint by %g" % (who, cm), rep)
        if di > 0:
            raise core.Violation("%s: the declared optimum has a non-integer integer variable (by %g)" % (who, di), rep)
        st.add("transitions", int(pts))
        st.add("admissible_points", int(adm))
        st.add("traces_validated_against_impl")
        st.state((suite, f, dim, i, bv))
        st.sample("%s: best %.6g, %d points, %d admissible, smallest %.6g" % (who, bv, pts, adm, mn))


def biobj(item, drv, st, viol):
    suite, dim, f, insts = item
    base = "bbob-mixint" if "mixint" in suite else "bbob"
    for i in insts:
        (f1, i1), (f2, i2) = bm.parts(f, i)
        who = "%s f%d d%d i%d" % (suite, f, dim, i)
        rep = {"suite": suite, "f": f, "d": dim, "i": i}
        a = drv.run(["S\t0\t%s\tinstances: %d,%d\t" % (base, i1, i2), "B\t1\t0\t%d\t%d\t%d" % (f1, dim, i1), "B\t2\t0\t%d\t%d\t%d" % (f2, dim, i2),
                     "K\t1", "K\t2", "v\t1", "v\t2", "F\t1", "F\t2", "f\t0"])
        x1, x2 = a[3].split("\t")[1:], a[4].split("\t")[1:]
        mid = "\t".join(core.fl(0.5 * (float(p) + float(q))) for p, q in zip(x1, x2))
        b = drv.run(["S\t0\t%s\tinstances: %d\t" % (suite, i), "B\t1\t0\t%d\t%d\t%d" % (f, dim, i), "w\t1", "E\t1\t" + "\t".join(x1), "E\t1\t" + "\t".join(x2), "E\t1\t" + mid, "F\t1", "f\t0"])
        try:
            nad = [float(v) for v in b[2].split("\t")]
            y1 = [float(v) for v in b[3].split("\t")]
            y2 = [float(v) for v in b[4].split("\t")]
            ym = [float(v) for v in b[5].split("\t")]
            ideal = [float(a[5]), float(a[6])]
        except ValueError:
            raise core.Violation("%s: %r %r" % (who, a, b), rep)
        eq = lambda p, q: abs(p - q) <= TOL * max(1.0, abs(p), abs(q))
        if not (eq(y1[0], ideal[0]) and eq(y2[1], ideal[1])):
            raise core.Violation("%s: the objectives' optima evaluate to %.17g, %.17g instead of the ideal values %s" % (who, y1[0], y2[1], ideal), rep)
        if not (eq(nad[0], y2[0]) and eq(nad[1], y1[1])):
            raise core.Violation("%s: the declared nadir is %s, the optima of the single objectives give %s" % (who, nad, [y2[0], y1[1]]), rep)
        if not (nad[0] > ideal[0] and nad[1] > ideal[1]):
            raise core.Violation("%s: nadir %s is not above ideal %s" % (who, nad, ideal), rep)
        for y in (y1, y2, ym):
            for k in (0, 1):
                if not y[k] >= ideal[k] - TOL * max(1, abs(ideal[k])):
                    raise core.Violation("%s: objective %d has value %.17g below its ideal %.17g" % (who, k + 1, y[k], ideal[k]), rep)
        st.add("transitions", 5)
        st.add("traces_validated_against_impl")
        st.state((suite, f, dim, i, tuple(nad)))


def main():
    exe = core.build_driver()
    items, bi = [], []
    lots = list(range(1, 16))
    for suite in sm.NAMES + ["bbob-constrained-active-only", "bbob-constrained-no-disguise"]:
        base = "bbob-constrained" if suite.startswith("bbob-con") else suite
        dims, nf, f0, _ = sm.SUITES[base]
        for d in dims:
            if "biobj" in suite:
                if d <= 40:  # above, the large-scale functions are used
                    ins = lots if THOROUGH or d <= 10 else [1, 2, 9, 15]
                    bi += [(suite, d, f0 + k, ins) for k in range(nf)]
                continue
            cons = base == "bbob-constrained"
            if cons:
                ins = {2: lots, 3: lots[:10], 5: [1, 2, 3, 7]}.get(d, [1] if d <= 10 else [])
                if THOROUGH:
                    ins = lots if d <= 10 else [1, 2]
                if suite != base and not THOROUGH:
                    ins = ins[:2]
            else:
                ins = lots if d <= 20 else [1, 15]
                if d > 160:
                    ins = [1] if THOROUGH else []
                if base in ("bbob", "bbob-boxed") and d <= 10:
                    ins = lots + ([21, 35, 51, 64, 77, 92, 105] if not THOROUGH else list(range(16, 111)))
            grid = (101 if THOROUGH else 41) if d == 2 else 41
            for k in range(nf):
                for c in range(0, len(ins), 8):
                    items.append((suite, d, f0 + k, ins[c:c + 8], grid))
    items.sort(key=lambda t: -t[1] * (8 if "constr" in t[0] else 1))
    core.explore(ck, single, items, exe, chunk=2)
    core.explore(ck, biobj, bi, exe, chunk=10)
    ck.extra["configurations"] = sum(len(t[3]) for t in items) + sum(len(t[3]) for t in bi)
    ck.assumptions.append("'never beaten' is decided on the enumerated points only: full grid (2 and 3 variables), all corner patterns of period 6, "
                          "coordinate and pair stencils of 9 radii around the optimum, the segment from the initial solution to the optimum")
    ck.finish()


core.main(main)
