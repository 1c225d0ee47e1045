"""C18: noisy problems: the noise model for every draw, reproducibility over every interleaving, logging by the noise-free value."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
import bbobmodel as bm  # noqa: E402
import noisymodel as nm  # noqa: E402
from core import THOROUGH  # noqa: E402

ck = core.Check("C18")


def close(a, b, scale=1.0, tol=1e-9):
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b), scale)


def points(dim):
    return {"a": [1.3 - 0.4 * (k % 5) for k in range(dim)], "b": [-2.7 + 0.9 * (k % 6) for k in range(dim)], "lo": [-4.9 + 0.1 * (k % 3) for k in range(dim)],
            "out": [6.5 if k == 0 else (-7.25 if k == dim - 1 else 0.5) for k in range(dim)],
            "far": [3e7 * (1 - 2 * (k % 2)) + k for k in range(dim)]}


def models(item, drv, st, viol):
    """One trio of functions (gaussian, uniform, Cauchy) of a dimension and instance: every evaluation after a reset."""
    f0, dim, inst, reps = item
    pts = points(dim)
    S = "S\t%d\t%s\tinstances: %d\tdimensions: %d"
    cmds = [S % (0, "bbob-noisy", inst, dim), S % (1, "bbob", inst, dim)]
    cmds += ["B\t%d\t0\t%d\t%d\t%d" % (2 + j, f0 + j, dim, inst) for j in range(3)] + ["v\t%d" % (2 + j) for j in range(3)]
    b = nm.base(f0)
    cmds += ["B\t5\t1\t%d\t%d\t%d" % (b or 1, dim, inst), "v\t5", "B\t6\t0\t%d\t%d\t%d" % (f0, dim, inst), "K\t6"]
    n0 = len(cmds)
    r = drv.run(cmds + ["F\t%d" % k for k in range(2, 7)])
    fopt = [float(v) for v in r[5:8]]
    xo = [float(v) for v in r[n0 - 1].split("\t")[1:]]
    pts["opt"] = xo
    pts["near"] = [v + 1e-3 for v in xo]
    names = sorted(pts)
    cmds = cmds[:n0 - 2]
    n1 = len(cmds)
    seq = []
    for n in names:
        cmds.append("E\t5\t" + core.xs(pts[n]))
        cmds.append("Z")
        for j in range(3):
            for k in range(reps):
                cmds.append("E\t%d\t%s" % (2 + j, core.xs(pts[n])))
                seq.append((n, j, k, len(cmds) - 1))
        cmds.append("q\t2")
    r = drv.run(cmds + ["F\t%d" % k for k in range(2, 6)] + ["f\t0", "f\t1"])
    bopt = float(r[n1 - 1])
    s = nm.Seeds()
    g = None
    for n, j, k, at in seq:
        if j == 0 and k == 0:
            s.reset()
            pen = nm.penalty(pts[n])
            t = nm.Seeds()
            g = nm.clean(t, f0, float(r[at]), fopt[0], pen)
            if b and not (nm.group(f0) in nm.NOPEN and n in ("out", "far")):
                gb = float(r[at - 2]) - bopt
                if not close(g, gb, max(1e-3, abs(fopt[0]) * 1e-5, pen * 1e-4), 1e-7):
                    viol.append(("bbob-noisy f%d d%d i%d at %s: noise-free distance %.17g, bbob f%d has %.17g" % (f0, dim, inst, n, g, b, gb), {"commands": cmds}))
                    return
        y = float(r[at])
        pen = nm.penalty(pts[n])
        # the uniform model amplifies the rounding error of the inferred noise-free value: allow the range it spans
        err = 4e-16 * (1.0 + abs(fopt[0]) + pen) + 2e-15 * g
        n0, u0 = s.n, s.u
        es = []
        for gg in (max(0.0, g - err), g + err, g):
            s.n, s.u = n0, u0
            es.append(nm.noisy(s, f0 + j, dim, gg, fopt[j], pen))
        e = es[2]
        tol = 1e-9 * (1.0 + abs(fopt[j]) + pen + abs(e))
        if n == "opt" and j == 1:
            ok = y >= fopt[j]
        else:
            ok = min(es) - tol <= y <= max(es) + tol
        st.add("transitions")
        if not ok:
            viol.append(("bbob-noisy f%d d%d i%d at %s, draw %d after a reset: value %.17g, the %s model gives %.17g (noise-free distance %.9g)" % (f0 + j, dim, inst, n, k, y, nm.kind(f0 + j), e, g), {"commands": cmds}))
            return
    st.state(("m", f0, dim, inst))
    st.add("traces_validated_against_impl")


def extremes(item, drv, st, viol):
    """Walk the noise sequence up to draw nmax; at every rare draw (Cauchy quotient beyond the shift, normal draw beyond
    3.5) each of the three models is evaluated there, so that the clamps of the models are reached."""
    f0, dim, inst, nmax = item
    x = points(dim)["a"]
    S = "S\t0\tbbob-noisy\tinstances: %d\tdimensions: %d" % (inst, dim)
    pre = [S] + ["B\t%d\t0\t%d\t%d\t%d" % (1 + j, f0 + j, dim, inst) for j in range(3)]
    g, _ = distance(drv, f0, dim, inst, x)
    fopt = [float(v) for v in drv.run(pre + ["v\t1", "v\t2", "v\t3"] + ["F\t1", "F\t2", "F\t3", "f\t0"])[4:7]]
    p = 0.05 if f0 <= 106 else 0.2
    s = nm.Seeds()
    cmds, exp = pre + ["Z"], []

    def ev(j):
        n, u = s.n, s.u
        exp.append((len(cmds), j, n, u, nm.noisy(s, f0 + j, dim, g, fopt[j], 0.0)))
        cmds.append("E\t%d\t%s" % (1 + j, core.xs(x)))
    while s.n < nmax:
        q = nm.N(s.n + 1) / abs(nm.N(s.n + 2))
        if abs(q) > 900:
            while nm.U(s.u + 1) >= p:  # until the next Cauchy evaluation is an outlier
                ev(1)
            ev(2)
            st.add("rare_draws")
        else:
            ev(0)
    r = drv.run(cmds + ["F\t1", "F\t2", "F\t3", "f\t0"])
    st.add("transitions", len(exp))
    st.add("traces_validated_against_impl")
    for at, j, n, u, e in exp:
        y = float(r[at])
        if not abs(y - e) <= 1e-8 * (1.0 + abs(fopt[j]) + abs(e)):
            viol.append(("bbob-noisy f%d d%d i%d: evaluation with seeds (%d, %d): value %.17g, the %s model gives %.17g" % (f0 + j, dim, inst, n, u, y, nm.kind(f0 + j), e), {"commands": pre, "evaluation": at}))
            return


def interleave(item, drv, st, viol):
    """Sequences of evaluations, resets and other activity; every value follows from the draws since the last reset."""
    cfg, ops, depth, lo, hi = item
    fs, dim, inst, fopt, gs = cfg["fs"], cfg["dim"], cfg["inst"], cfg["fopt"], cfg["g"]
    pts = points(dim)
    S = "S\t0\tbbob-noisy\tinstances: %d\tdimensions: %d" % (inst, dim)
    pre = [S, "S\t1\tbbob\tinstances: 1\tdimensions: %d" % dim, "S\t2\tbbob-biobj\tinstances: 1\tdimensions: %d" % dim, "O\t0\tbbob\tresult_folder: n", "rn\t0\t5"]
    pre += ["B\t%d\t0\t%d\t%d\t%d" % (1 + k, f, dim, inst) for k, f in enumerate(fs)] + ["B\t5\t1\t8\t%d\t1" % dim, "B\t6\t2\t10\t%d\t1" % dim, "A\t2\t0", "Z"]
    nan = core.xs([float("nan")] * dim)
    seen = {}
    for h in itertools.islice(itertools.product(ops, repeat=depth), lo, hi):
        cmds = list(pre)
        s = nm.Seeds()
        exp = []
        for op in h:
            a = op[0]
            key = None
            if a == "E":
                f = fs[op[1] - 1]
                key = ("n", f, op[2], s.n, s.u)
                e = nm.noisy(s, f, dim, gs[op[2]][nm.group(f)], fopt[f], nm.penalty(pts[op[2]]))
                cmds.append("E\t%d\t%s" % (op[1], core.xs(pts[op[2]])))
                exp.append((len(cmds) - 1, key, e))
            elif a == "Z":
                s.reset()
                cmds.append("Z")
            elif a == "D":  # deterministic problems, user generator
                cmds.append("E\t%d\t%s" % (op[1], core.xs(pts[op[2]])))
                exp.append((len(cmds) - 1, ("d", op[1], op[2]), None))
            elif a == "nan":
                cmds += ["E\t1\t" + nan, "C\t5\t" + nan] if cfg.get("c") else ["E\t1\t" + nan]
            elif a == "life":
                cmds += ["B\t7\t0\t%d\t%d\t%d" % (fs[0], dim, inst), "F\t7", "ru\t0", "rg\t0", "S\t3\tbbob-noisy\tinstances: 2\tdimensions: 3", "N\t7\t3\t-1", "f\t3"]
        cmds += ["F\t2", "F\t1", "F\t3", "F\t5", "F\t6", "o\t0", "f\t0", "f\t1", "f\t2", "rf\t0"]
        r = drv.run(cmds)
        st.add("transitions", len(h))
        st.add("traces_validated_against_impl")
        st.state((cfg["name"], s.n, s.u))
        if "fatal" in r or "assert" in r or "nop" in r:
            w = [x for x in ("fatal", "assert", "nop") if x in r][0]
            viol.append(("%s %s: %s at %r" % (cfg["name"], h, w, cmds[r.index(w)]), {"commands": cmds}))
            return
        for at, key, e in exp:
            if seen.setdefault(key, r[at]) != r[at]:
                viol.append(("%s: %s: value %s of %s, but %s in another history" % (cfg["name"], h, r[at], key, seen[key]), {"commands": cmds}))
                return
            if e is not None and not close(float(r[at]), e, 1.0 + abs(e) * 1e-3):
                viol.append(("%s: %s: value %s of %s, expected %.17g" % (cfg["name"], h, r[at], key, e), {"commands": cmds}))
                return


def lines_close(a, b, fopt):
    """Two log lines agree up to the error of the inferred noise-free value."""
    u, w = a.split(" "), b.split(" ")
    if len(u) != len(w):
        return False
    for p, q in zip(u, w):
        if p == q:
            continue
        try:
            if not close(float(p), float(q), 1.0 + abs(fopt), 2e-9):
                return False
        except ValueError:
            return False
    return True


def logger(item, drv, st, viol):
    spec, opt, ops, depth, lo, hi = item
    P = spec["P"]
    for h in itertools.islice(itertools.product(ops, repeat=depth), lo, hi):
        ob = bm.Observer(**opt[1])
        run = bm.Run(ob, P)
        cmds = [spec["S"], "O\t0\tbbob\t" + opt[0], spec["G"], "A\t1\t0", "Z"]
        best = None
        for n in h:
            if n == "T":
                cmds.append("T\t0\t1")
                run.signal()
            elif n[0] == "R":  # a recommendation is judged by its noise-free value as well
                n = n[1:]
                run.recommend(spec["pts"][n][0], spec["pts"][n][1], None)
                cmds.append("M\t1\t" + core.xs(spec["pts"][n][0]))
            else:
                run.evaluate(spec["pts"][n][0], spec["pts"][n][1], None)
                cmds.append("E\t1\t" + core.xs(spec["pts"][n][0]))
        cmds += ["F\t1", "o\t0", "f\t0"]
        run.free()
        r = drv.run(cmds)
        what = None
        if "fatal" in r or "assert" in r:
            what = "error exit"
        else:
            real = {k: v.decode("latin-1") for k, v in core.read_tree(drv.cwd + "/exdata/default").items() if v is not None}
            for k in sorted(set(real) | set(ob.files)):
                a, b = ob.files.get(k), real.get(k)
                if a is None or b is None:
                    what = "file %s %s" % (k, "unexpected" if a is None else "missing")
                    break
                la, lb = a.split("\n"), b.split("\n")
                if len(la) != len(lb) or any(x != y and not lines_close(x, y, P["best"]) for x, y in zip(la, lb)):
                    d = [(x, y) for x, y in itertools.zip_longest(la, lb) if x != y and (x is None or y is None or not lines_close(x, y, P["best"]))][0]
                    what = "%s: %r, expected %r" % (k, d[1], d[0])
                    break
        st.add("transitions", len(h))
        st.add("traces_validated_against_impl")
        st.state((spec["name"], opt[0], run.best, run.nf))
        if what:
            viol.append(("%s, options %r: evaluations at noise-free distances %s: %s" % (spec["name"], opt[0], [n if n == "T" else n[:-1] + "%.4g" % (spec["pts"][n[-1]][1] - P["best"]) for n in h], what), {"history": h, "commands": cmds}))
            if len(viol) >= 3:
                return


def distance(drv, f, dim, inst, x):
    """Noise-free distance of f at x, through the gaussian function of its trio, and f's optimal value."""
    g0 = nm.group(f)
    r = drv.run(["S\t0\tbbob-noisy\tinstances: %d\tdimensions: %d" % (inst, dim), "B\t1\t0\t%d\t%d\t%d" % (g0, dim, inst), "B\t2\t0\t%d\t%d\t%d" % (f, dim, inst), "v\t1", "v\t2", "Z", "E\t1\t" + core.xs(x), "F\t1", "F\t2", "f\t0"])
    return nm.clean(nm.Seeds(), g0, float(r[6]), float(r[3]), nm.penalty(x)), float(r[4])


def main():
    exe = core.build_driver()
    drv = core.Driver(exe)
    groups = list(range(101, 131, 3))
    dims = (2, 3, 5, 10, 20, 40) if THOROUGH else (2, 3, 5, 10)
    insts = range(1, 16) if THOROUGH else (1, 2, 3)
    mj = [(g, d, i, 25) for g in groups for d in dims for i in insts] + [(g, 2, 7, 4000 if THOROUGH else 500) for g in groups]
    core.explore(ck, models, mj, exe, chunk=2)
    core.explore(ck, extremes, [(g, 2 + k % 2, 1 + k % 5, 60000 if THOROUGH else 12000) for k, g in enumerate(groups)], exe, chunk=1)
    ij, lj = [], []
    if not ck.violations:
        try:
            for fs, dim, inst in (((101, 102, 103), 2, 1), ((107, 108, 109), 3, 2), ((122, 114, 130), 2, 3), ((128, 105, 112), 5, 1)):
                cfg = {"name": "bbob-noisy %s d%d i%d" % (fs, dim, inst), "fs": fs, "dim": dim, "inst": inst, "fopt": {}, "g": {}}
                for n, x in points(dim).items():
                    cfg["g"][n] = {}
                    for f in fs:
                        cfg["g"][n][nm.group(f)], cfg["fopt"][f] = distance(drv, f, dim, inst, x)
                ops = [("E", 1, "a"), ("E", 2, "a"), ("E", 3, "a"), ("E", 1, "b"), ("E", 3, "out"), ("Z",), ("D", 5, "a"), ("D", 6, "b"), ("nan",), ("life",)]
                depth = 5 if THOROUGH else 4
                n = len(ops) ** depth
                ij += [(cfg, ops, depth, k, min(n, k + 2000)) for k in range(0, n, 2000)]
                ck.stats.sample("%s: all sequences of %d of %s" % (cfg["name"], depth, ops))
            for f in range(101, 131):
                for dim, inst in ((2, 1), (5, 2)):
                    S = "S\t0\tbbob-noisy\tinstances: %d\tdimensions: %d" % (inst, dim)
                    G = "B\t1\t0\t%d\t%d\t%d" % (f, dim, inst)
                    xo = [float(v) for v in drv.run([S, G, "K\t1", "F\t1", "f\t0"])[2].split("\t")[1:]]
                    pts = {}
                    for n, t in (("0", 1.9), ("1", 0.83), ("2", 0.13), ("3", 0.011), ("4", 3.1)):
                        x = [a + t * (0.7 if k % 2 else -1.0) for k, a in enumerate(xo)]
                        if n == "4":
                            x[0] = 8.0
                        d, fopt = distance(drv, f, dim, inst, x)
                        if d > 1e-2:
                            pts[n] = (x, fopt + d)
                    spec = {"name": "bbob-noisy f%d d%d i%d" % (f, dim, inst), "S": S, "G": G, "pts": pts, "P": {"suite": "bbob-noisy", "f": f, "i": inst, "dim": dim, "nint": 0, "ncon": 0, "best": fopt}}
                    ops = sorted(pts) + ["T"] + ["R" + n for n in sorted(pts)[:2]]
                    depth = 4 if THOROUGH else 3
                    for o in (("", {}), ("number_target_triggers: 3 base_evaluation_triggers: \"1,3\"", {"ntt": 3, "base": [1, 3]})):
                        lj.append((spec, o, ops, depth, 0, len(ops) ** depth))
        except (core.Died, ValueError, IndexError) as e:
            ck.violation("a problem cannot be examined: %s" % e, {})
            ck.finish()
        core.explore(ck, interleave, ij, exe, chunk=1)
        core.explore(ck, logger, lj, exe, chunk=2)
    ck.assumptions.append("noise-free values are inferred from the gaussian function of each trio (and compared with the bbob function where it is the same)")
    ck.finish()


core.main(main)
