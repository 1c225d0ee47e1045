"""C20: every problem offers a usable domain, an admissible start point and consistent constraints; values outside are defined."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
import suitemodel as sm  # noqa: E402
from core import THOROUGH  # noqa: E402

ck = core.Check("C20")
ACTIVE = [lambda n: 1, lambda n: 2, lambda n: 6, lambda n: 6 + n // 2, lambda n: 6 + n, lambda n: 6 + 3 * n]
LINEAR = (0, 2, 6)  # sphere, linear slope, different powers
MAG = [0.0, 2.5, 5.0, 5.0000001, 7.3, 1e3, 1e6, 1e10, 1e20, 1e30, 1e50]


def points(dim, lo, hi, grid):
    p = []
    for m in MAG:
        for s in ([1.0] * dim, [-1.0] * dim, [1.0 - 2.0 * (k % 2) for k in range(dim)], [1.0] + [0.0] * (dim - 1), [0.0] * (dim - 1) + [-1.0]):
            p.append([m * a for a in s])
    p += [lo, hi, [0.5 * (a + b) for a, b in zip(lo, hi)], [a if k % 2 else b for k, (a, b) in enumerate(zip(lo, hi))]]
    for k in {0, dim - 1}:
        for t in (1e-9, 1e-300, 1e-12):
            x = [0.0] * dim
            x[k] = t
            p.append(x)
    if grid:
        g = [[a + (b - a) * q / 4.0 for q in range(5)] for a, b in zip(lo, hi)]
        p += [list(x) for x in itertools.product(*g)] if dim == 2 else [[a if b & (1 << (k % 6)) else c for k, (a, c) in enumerate(zip(lo, hi))] for b in range(64)]
    return p


def one(item, drv, st, viol):
    suite, f, dim, insts, grid, eight = item
    cons = suite.startswith("bbob-constrained")
    for inst in insts:
        who = "%s f%d d%d i%d" % (suite, f, dim, inst)
        rep = {"suite": suite, "f": f, "dim": dim, "instance": inst}
        head = ["S\t0\t%s\tinstances: %d\tdimensions: %d" % (suite, inst, dim) if suite != "toy" else "S\t0\ttoy\t\tdimensions: %d" % dim,
                "B\t1\t0\t%d\t%d\t%d" % (f, dim, inst), "W\t1", "X\t1", "B\t2\t0\t%d\t%d\t%d" % (f, dim, inst), "X\t2", "W\t2"]
        tail = ["F\t1", "F\t2", "f\t0"]
        r = drv.run(head + ["K\t2"] + tail)
        d = r[1].split("\t")
        if len(d) != 7 or "fatal" in r or "assert" in r:
            viol.append(("%s: not available (%s)" % (who, r[1]), rep))
            return
        nc, ni = int(d[4]), int(d[5])
        w = [float(v) for v in r[2].split("\t")]
        lo, hi = w[:dim], w[dim:]
        x0 = [float(v) for v in r[3].split("\t")]
        if r[2] != r[6] or r[3] != r[5]:
            viol.append(("%s: two handles of the problem have different bounds or start points" % who, rep))
            return
        if any(not a < b or not math.isfinite(b - a) for a, b in zip(lo, hi)):
            viol.append(("%s: bounds %s..%s" % (who, lo, hi), rep))
            return
        if any(not a <= v <= b for a, v, b in zip(lo, x0, hi)) or any(x0[k] != math.floor(x0[k]) for k in range(ni)):
            viol.append(("%s: start point %s outside the domain" % (who, x0), rep))
            return
        want = 0
        if cons:
            a = ACTIVE[(f - 1) % 6](dim)
            want = a + (0 if "active" in suite else a // 2)
        if nc != want:
            viol.append(("%s: %d constraints instead of %d" % (who, nc, want), rep))
            return
        pts = [x0] + points(dim, lo, hi, grid)
        cmds = list(head)
        at = []
        mo = ""
        if nc:
            xo = [float(v) for v in r[7].split("\t")[1:]]
            pts[1:1] = [xo, [0.5 * (p + q) for p, q in zip(x0, xo)], [2 * p - q for p, q in zip(x0, xo)]]
            if nc > 40 or dim > 10:
                pts = pts[:4] + pts[4::4]
            if suite == "bbob-constrained":
                mo = xo
        for x in pts:
            cmds.append("E\t1\t" + core.xs(x))
            if nc:
                cmds += ["C\t1\t" + core.xs(x), "C\t2\t" + core.xs(x)]
            at.append(len(cmds) - (3 if nc else 1))
        r = drv.run(cmds + tail)
        C = []
        for x, k in zip(pts, at):
            st.add("transitions", 3 if nc else 1)
            if r[k] in ("fatal", "assert", "xmodified"):
                viol.append(("%s at %s: %s" % (who, x, r[k]), dict(rep, x=x)))
                return
            y = [float(v) for v in r[k].split("\t")]
            out = any(not a <= v <= b for a, v, b in zip(lo, x, hi))
            for v in y:
                if suite == "bbob-boxed" and out:
                    if v != math.inf:
                        viol.append(("%s at %s, outside the box: %g" % (who, x, v), dict(rep, x=x)))
                        return
                elif not (math.isfinite(v) or v == math.inf and max(map(abs, x)) > 1e3):  # honest overflow is +inf
                    viol.append(("%s at %s: %g" % (who, x, v), dict(rep, x=x)))
                    return
            if nc:
                if r[k + 1] != r[k + 2] or r[k + 1] in ("fatal", "assert", "xmodified", "nop"):
                    viol.append(("%s at %s: constraint values %s and, on a second handle, %s" % (who, x, r[k + 1], r[k + 2]), dict(rep, x=x)))
                    return
                C.append([float(v) for v in r[k + 1].split("\t")])
                if len(C[-1]) != nc or max(map(abs, x)) <= 1e3 and any(not math.isfinite(v) for v in C[-1]):
                    viol.append(("%s at %s: constraint values %s" % (who, x, r[k + 1]), dict(rep, x=x)))
                    return
        if nc:
            if max(C[0]) > 0:
                viol.append(("%s: the start point violates a constraint by %g" % (who, max(C[0])), rep))
                return
            if mo and max(C[1]) > 1e-9:
                viol.append(("%s: the optimum violates a constraint by %g" % (who, max(C[1])), rep))
                return
            act = sum(abs(v) <= 1e-6 for v in C[1])
            if mo and act != a:
                viol.append(("%s: %d constraints are active at the optimum instead of %d" % (who, act, a), rep))
                return
            # linear constraints (no non-linear transformation of the variables): values at the middle and at the mirror point follow from the two ends
            for j in range(nc if (f - 1) // 6 in LINEAR else 0):
                sc = 1e-6 * (1.0 + abs(C[0][j]) + abs(C[1][j]))
                if abs(C[2][j] - 0.5 * (C[0][j] + C[1][j])) > sc or abs(C[3][j] - (2 * C[0][j] - C[1][j])) > 3 * sc:
                    viol.append(("%s: constraint %d is not linear: %g, %g, %g, %g along a line" % (who, j + 1, C[1][j], C[2][j], C[0][j], C[3][j]), rep))
                    return
                if abs(C[0][j]) <= 1e-12 and abs(C[3][j]) <= 1e-12:
                    viol.append(("%s: constraint %d vanishes" % (who, j + 1), rep))
                    return
        st.state((suite, f, dim, inst))
        st.add("traces_validated_against_impl")


def main():
    exe = core.build_driver()
    jobs = []
    for suite, (dims, nf, f0, _) in sm.SUITES.items():
        for d in dims:
            if d > (640 if THOROUGH else 160):
                continue
            if suite == "toy":
                ins = [1]
            elif THOROUGH:
                ins = list(range(1, 16)) + ([] if d > 40 else [55, 72, 101])
                if "biobj" in suite:
                    ins = list(range(1, 16))
            else:
                ins = list(range(1, 11)) + ([] if "biobj" in suite else [55, 72, 101]) if d <= 3 else [1, 2, 3, 8, 15] if d <= 10 else [1, 4]
            for f in range(f0, f0 + nf):
                if not THOROUGH and d > 40 and f % 4:
                    continue
                if not THOROUGH and "biobj" in suite and d > 5 and f % 5 != d // 5 % 5:
                    continue
                jobs.append((suite, f, d, ins, d <= 3 or THOROUGH, False))
    for suite in ("bbob-constrained-active-only", "bbob-constrained-no-disguise"):
        jobs += [(suite, f, d, [1, 2], False, False) for f in range(1, 55) for d in ((2, 3, 5, 10) if THOROUGH else (2, 5))]
    jobs.sort(key=lambda j: -j[2] * (10 if "cons" in j[0] else 1))
    ck.stats.sample("points per problem: start, domain corners, %s times five sign patterns, lattice in dimensions 2 and 3" % MAG)
    core.explore(ck, one, jobs, exe, chunk=4)
    ck.assumptions.append("coordinates up to 1e50; beyond, some objective functions overflow to NaN and end in an assertion (see DESIGN.md)")
    ck.finish()


core.main(main)
