"""C19: mixed-integer problems: shape, rounding of every integer variable over every boundary, and the mapping onto the continuous function."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
import biobjmodel as bio  # noqa: E402
from core import THOROUGH  # noqa: E402

ck = core.Check("C19")
SCALE = [1, 1e-3, 1e-1, 1e-1, 1, 1e-2, 1, 1e-2, 1e-2, 1e-3, 1e-2, 1e-4, 1e-1, 1, 1e-1, 1, 10, 1, 10, 1e-1, 1, 1, 10, 1e-1]
CARD = [2, 4, 8, 16]


def card(k, dim):
    return CARD[k // (dim // 5)]


def nearest(v, n):
    """Admissible integers a value may count as (two for a tie)."""
    c = min(max(v, -1.0), float(n))
    lo = math.floor(c)
    s = [lo] if c - lo < 0.5 else [lo + 1] if c - lo > 0.5 else [lo, lo + 1]
    return sorted({min(max(int(a), 0), n - 1) for a in s})


def inner(z, n):
    l, u = -4.0, 4.0
    il = l + (u - l) / (n + 1)
    iu = u - (u - l) / (n + 1)
    return il + (iu - il) * z / (n - 1)


def opt_int(xo, n):
    l, u = -4.0, 4.0
    il = l + (u - l) / (n + 1)
    iu = u - (u - l) / (n + 1)
    return min(max(math.floor((n - 1) * (xo - il) / (iu - il) + 1e-7 + 0.5), 0), n - 1)


def mapped(x, dim, xo):
    """The point at which the continuous function is evaluated."""
    r = list(x)
    for k in range(4 * dim // 5):
        n = card(k, dim)
        r[k] = inner(nearest(x[k], n)[0], n) - (inner(opt_int(xo[k], n), n) - xo[k])
    return r


def close(a, b, tol=1e-8):
    return a == b or abs(a - b) <= tol * max(1e-3, abs(a), abs(b))


def values(n, every):
    v = []
    for z in range(-2, n + 2):
        v += [z, z - 0.5, z + 0.499999, z - 0.499999]
        if every:
            v += [z + 0.25, z - 0.25, z + 0.5 - 1e-9, z - 0.5 + 1e-9, z + 1e-12, z - 1e-12]
    return sorted(set(v + [-1e3, 1e3, 1e6, -1e6, 1e12, -1e12, -0.0]))


def one(item, drv, st, viol):
    suite, f, dim, inst, every = item
    two = suite == "bbob-biobj-mixint"
    parts = bio.parts(f, inst) if two else ((f, inst),)
    base = "bbob-largescale" if dim >= 50 else "bbob"
    ni = 4 * dim // 5
    who = "%s f%d d%d i%d" % (suite, f, dim, inst)
    rep = {"suite": suite, "f": f, "dim": dim, "instance": inst}
    cmds = ["S\t0\t%s\tinstances: %d\tdimensions: %d" % (suite, inst, dim), "B\t1\t0\t%d\t%d\t%d" % (f, dim, inst), "W\t1", "X\t1"]
    cmds += ["S\t1\t%s\tinstances: %s\tdimensions: %d" % (base, ",".join(str(i) for i in sorted({p[1] for p in parts})), dim)]
    cmds += ["B\t%d\t1\t%d\t%d\t%d" % (2 + k, p[0], dim, p[1]) for k, p in enumerate(parts)]
    kk = len(cmds)
    cmds += ["K\t%d" % (2 + k) for k in range(len(parts))]
    if not two:
        cmds += ["K\t1", "v\t1"]
    r = drv.run(cmds + ["F\t%d" % k for k in range(1, 2 + len(parts))] + ["f\t0", "f\t1"])
    d = r[1].split("\t")
    if d[0] == "null" or "fatal" in r or "assert" in r:
        viol.append(("%s: not available" % who, rep))
        return
    w = [float(v) for v in r[2].split("\t")]
    lo, hi = w[:dim], w[dim:]
    cb = 100.0 if two else 5.0
    wl = [0.0] * ni + [-cb] * (dim - ni)
    wu = [card(k, dim) - 1.0 for k in range(ni)] + [cb] * (dim - ni)
    if int(d[5]) != ni or lo != wl or hi != wu:
        viol.append(("%s: %s integer variables in %s..%s, expected %d in %s..%s" % (who, d[5], lo, hi, ni, wl, wu), rep))
        return
    x0 = [float(v) for v in r[3].split("\t")]
    if any(not a <= b <= c for a, b, c in zip(lo, x0, hi)) or any(x0[k] != math.floor(x0[k]) for k in range(ni)):
        viol.append(("%s: initial solution %s is not admissible" % (who, x0), rep))
        return
    xos = [[float(v) for v in r[kk + k].split("\t")[1:]] for k in range(len(parts))]
    # points: base points with one variable moved over every boundary, and all combinations of the extremes of a few variables
    B = [x0, [float((3 * k + 1) % card(k, dim)) if k < ni else 0.37 * ((k % 5) - 2) for k in range(dim)]]
    if every:
        B.append([float((5 * k + 2) % card(k, dim)) if k < ni else -1.1 + 0.21 * (k % 11) for k in range(dim)])
        B.append([float(opt_int(xos[0][k], card(k, dim))) if k < ni else xos[0][k] for k in range(dim)])
    moved = range(ni) if dim <= 10 else [k for q in range(4) for k in (q * dim // 5, (q + 1) * dim // 5 - 1)]
    pts = []
    for b in B:
        pts.append((b, None))
        for k in moved:
            for v in values(card(k, dim), every):
                x = list(b)
                x[k] = v
                pts.append((x, k))
        for k in {ni, dim - 1}:
            for v in (-6.1, -5.0, -0.49, 0.49, 0.51, 1.000001, 4.75, 50.5, -99.9):
                x = list(b)
                x[k] = v
                pts.append((x, k))
    q = [0, dim // 5, 2 * dim // 5, 3 * dim // 5]
    for c in itertools.product(*[(-0.7, 0.49, card(k, dim) - 1.4, card(k, dim) + 3.0) for k in q]):
        x = list(B[1])
        for k, v in zip(q, c):
            x[k] = v
        pts.append((x, None))
    cmds = ["S\t0\t%s\tinstances: %d\tdimensions: %d" % (suite, inst, dim), "B\t1\t0\t%d\t%d\t%d" % (f, dim, inst)]
    cmds += ["S\t1\t%s\tinstances: %s\tdimensions: %d" % (base, ",".join(str(i) for i in sorted({p[1] for p in parts})), dim)]
    cmds += ["B\t%d\t1\t%d\t%d\t%d" % (2 + k, p[0], dim, p[1]) for k, p in enumerate(parts)]
    if not two:
        k0 = [float(v) for v in r[kk + 1].split("\t")[1:]]
        want = [float(opt_int(xos[0][k], card(k, dim))) if k < ni else xos[0][k] for k in range(dim)]
        if any(not close(a, b, 1e-12) for a, b in zip(k0, want)):
            viol.append(("%s: the optimum is disclosed as %s, its place on the integer grid is %s" % (who, k0[:ni], want[:ni]), rep))
            return
        pts.append((want, None))
    at = []
    for x, k in pts:
        cand = [x]
        if k is not None and k < ni:
            cand = []
            for z in nearest(x[k], card(k, dim)):
                y = list(x)
                y[k] = float(z)
                cand.append(y)
        cmds.append("E\t1\t" + core.xs(x))
        e = len(cmds) - 1
        cs = []
        for y in cand:
            cmds.append("E\t1\t" + core.xs(y))
            o = [len(cmds) - 1]
            for j in range(len(parts)):
                cmds.append("E\t%d\t%s" % (2 + j, core.xs(mapped(y, dim, xos[j]))))
                o.append(len(cmds) - 1)
            cs.append(o)
        at.append((x, k, e, cs))
    r2 = drv.run(cmds + ["F\t%d" % k for k in range(1, 2 + len(parts))] + ["f\t0", "f\t1"])
    if "fatal" in r2 or "assert" in r2:
        n = [m for m, a in enumerate(r2) if a in ("fatal", "assert")][0]
        viol.append(("%s: error exit at %s" % (who, cmds[n]), dict(rep, commands=cmds)))
        return
    for x, k, e, cs in at:
        st.add("transitions", 1 + len(cs))
        st.state((suite, f, dim, inst, k, x[k] if k is not None else None))
        if r2[e] not in [r2[o[0]] for o in cs]:
            viol.append(("%s at %s: value %s, but %s with variable %d rounded to its nearest admissible integer" % (who, x, r2[e], [r2[o[0]] for o in cs], k), dict(rep, x=x)))
            return
        for o in cs:
            y = [float(v) for v in r2[o[0]].split("\t")]
            for j, (fj, ij) in enumerate(parts):
                if not close(y[j], SCALE[fj - 1] * float(r2[o[1 + j]])):
                    viol.append(("%s at %s: objective %d is %.17g, %g times the value of %s f%d i%d at the mapped point is %.17g" % (who, x, j + 1, y[j], SCALE[fj - 1], base, fj, ij, SCALE[fj - 1] * float(r2[o[1 + j]])), dict(rep, x=x)))
                    return
    if not two:
        v = float(r[kk + 2])
        if not close(float(r2[at[-1][2]]), v):
            viol.append(("%s: value %s at the optimum, best value %.17g" % (who, r2[at[-1][2]], v), rep))
            return
    st.add("traces_validated_against_impl")


def main():
    exe = core.build_driver()
    jobs = []
    I = range(1, 16) if THOROUGH else (1, 2, 3)
    for f in range(1, 25):
        jobs += [("bbob-mixint", f, d, i, d == 5 and (THOROUGH or i == 1)) for d in (5, 10, 20) for i in I if d == 5 or THOROUGH or i == 1 + f % 3]
        jobs += [("bbob-mixint", f, d, i, False) for d in ((40, 80, 160) if THOROUGH else (40, 80)) for i in ((1, 9) if THOROUGH else (1 + f % 7,))]
    for f in range(1, 93):
        jobs += [("bbob-biobj-mixint", f, d, i, THOROUGH and d == 5) for d in (5, 10) for i in (I if THOROUGH else (1 + f % 15,))]
        jobs += [("bbob-biobj-mixint", f, d, i, False) for d in (20, 40) for i in ((1 + f % 15,) if THOROUGH else (1 + f % 15,) if f % 4 == d // 20 else ())]
        if THOROUGH or f % 9 == 0:
            jobs += [("bbob-biobj-mixint", f, 80, 1 + f % 15, False)]
    jobs.sort(key=lambda j: -j[2])
    ck.stats.sample("%d problems; every integer variable over %s (cardinality 4)" % (len(jobs), values(4, True)))
    core.explore(ck, one, jobs, exe, chunk=4)
    ck.assumptions.append("ties between two integers may go either way; doubles within 1e-9 of a tie are left out except the tie itself")
    ck.finish()


core.main(main)
