"""C03: counters, best-so-far and target flag after every history of calls."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
from core import THOROUGH  # noqa: E402

ck = core.Check("C03")
EXE = None
DRV = None
INF = float("inf")


def vecs(base, d):
    return "\t".join(core.fl(v) for v in base[:d])


def spec(cfg, edges=False):
    """Everything known about a problem before the histories start, measured on fresh problems."""
    suite, f, dim, inst, obs = cfg
    global DRV
    if DRV is None:
        DRV = core.Driver(EXE)
    drv = DRV
    S = "S\t0\t%s\tinstances: %d\tdimensions: %d" % (suite, inst, dim)
    G = "B\t1\t0\t%d\t%d\t%d" % (f, dim, inst)
    r = drv.run([S, G, "W\t1", "X\t1", "v\t1" if "biobj" not in suite else "D\t1", "K\t1" if "biobj" not in suite and suite != "toy" else "D\t1", "u\t1" if "biobj" not in suite else "D\t1", "F\t1"])
    desc = r[1].split("\t")
    nobj, ncon = int(desc[3]), int(desc[4])
    b = [float(v) for v in r[2].split("\t")]
    lo, hi = b[:dim], b[dim:]
    x0 = [float(v) for v in r[3].split("\t")]
    best = float(r[4]) if "biobj" not in suite else None
    if best is not None and float(r[6]) != best + 1e-8:
        raise core.Violation("%s: the final target is %s, the optimum %s plus 1e-8 is expected" % (cfg, r[6], r[4]), {"problem": cfg, "answers": r})
    pts = {"init": x0, "mid": [l + 0.3 * (h - l) for l, h in zip(lo, hi)], "far": [1000.0 + k for k in range(dim)],
           "inf": [INF] + [1.0] * (dim - 1), "ninf": [1.0] * (dim - 1) + [-INF], "nan": [float("nan")] + [0.0] * (dim - 1),
           "naninf": [float("nan")] * (dim - 1) + [INF]}
    if "biobj" not in suite and suite != "toy":
        k = [float(v) for v in r[5].split("\t")]
        if k[0] == 0 or True:
            xo = k[1:]
            pts["opt"] = xo
            pts["opt+"] = [v + 3e-5 for v in xo]
            pts["opt++"] = [v + 1e-3 for v in xo]
    elif suite == "toy":
        pts["opt"] = [0.0] * dim
    if ncon:  # an infeasible point with a good value: walk from the initial solution through the optimum and beyond
        cand = []
        for t in (1.05, 1.2, 1.5, 2.0, 3.0):
            cand.append([a + t * (c - a) for a, c in zip(x0, pts["opt"])])
        q = drv.run([S, G] + [c for x in cand for c in ("E\t1\t" + core.xs(x), "C\t1\t" + core.xs(x))] + ["F\t1"])
        for k, x in enumerate(cand):
            fv = float(q[2 + 2 * k].split("\t")[0])
            cv = [float(v) for v in q[3 + 2 * k].split("\t")]
            if max(cv) > 0 and (fv < best or "bad" not in pts):
                pts["bad"] = x
                if fv < best:
                    break
        if edges and "bad" in pts:  # the last feasible and the first infeasible point on the way
            p0, p1 = x0, pts["bad"]
            for _ in range(14):
                line = [[a + k / 32.0 * (b - a) for a, b in zip(p0, p1)] for k in range(1, 32)]
                q = drv.run([S, G] + ["C\t1\t" + core.xs(x) for x in line] + ["F\t1"])
                k = next((k for k in range(31) if any(float(v) > 0 for v in q[2 + k].split("\t"))), 31)
                p0, p1 = (line[k - 1] if k else p0), (line[k] if k < 31 else p1)
            pts["edge"], pts["edgef"] = p1, p0
    tab = {}
    for n, x in pts.items():
        c = [S, G, "E\t1\t" + core.xs(x)] + (["C\t1\t" + core.xs(x)] if ncon else []) + ["F\t1"]
        if suite == "bbob-noisy":
            c.insert(2, "Z")
        q = drv.run(c)
        q = [a for a in q if a != "ok"][1:] if suite == "bbob-noisy" else q[2:]
        fv = q[0]
        cv = q[1] if ncon else None
        fin = all(math.isfinite(v) for v in x)
        feas = fin and (not ncon or all(float(v) <= 0 for v in cv.split("\t")))
        if not fin:
            w = "inf" if any(math.isinf(v) for v in x) else "nan"
            wf = "\t".join([w] * nobj)
            wc = "\t".join([w] * ncon) if ncon else None
            if fv.replace("-nan", "nan") != wf or (ncon and cv.replace("-nan", "nan") != wc):
                raise core.Violation("%s: evaluation of %s gives %r %r" % (cfg, x, fv, cv), {"cfg": cfg, "x": x})
        tab[n] = (x, fv, cv, fin, feas)
    return {"cfg": cfg, "S": S, "G": G, "nobj": nobj, "ncon": ncon, "best": best, "tab": tab, "tlo": lo}


def ops_of(sp):
    ops = [("E", n) for n in sp["tab"]]
    if sp["ncon"]:
        ops += [("C", n) for n in ("init", "mid", "bad", "inf", "nan") if n in sp["tab"]]
    ops += [("M", "mid")]
    if "opt" in sp["tab"]:
        ops += [("M", "opt")]
    ops += [("P2", "init")]
    return ops


def work(item, drv, st, viol):
    sp, depth, lo, hi = item
    hists = itertools.islice(itertools.product(ops_of(sp), repeat=depth), lo, hi)
    suite, f, dim, inst, obs = sp["cfg"]
    xs = {n: core.xs(t[0]) for n, t in sp["tab"].items()}
    head = [sp["S"], sp["G"], "B\t2\t0\t%d\t%d\t%d" % (f, dim, inst)]
    if obs:
        head += ["O\t0\t%s\tresult_folder: w" % obs, "A\t1\t0"]
    tail = ["Q\t2", "F\t1", "F\t2"] + (["o\t0"] if obs else []) + ["f\t0"]
    if suite == "bbob-noisy":
        head.append("Z")
    for h in hists:
        cmds = list(head)
        for op, n in h:
            if op == "P2":
                cmds.append("E\t2\t" + xs[n])
            else:
                cmds.append("%s\t1\t%s" % (op, xs[n]))
            cmds.append("Q\t1")
        cmds += tail
        r = drv.run(cmds)
        ne = nc = n2 = 0
        best = INF
        k = len(head)
        for op, n in h:
            x, fv, cv, fin, feas = sp["tab"][n]
            a, q = r[k], r[k + 1].split("\t")
            k += 2
            if op == "E":
                if suite != "bbob-noisy" or not fin:
                    if a != fv:
                        raise core.Violation("%s: history %s: E %s returns %r instead of %r" % (sp["cfg"], h, n, a, fv), {"cfg": sp["cfg"], "history": h, "points": xs})
                if fin:
                    ne += 1
                    v = float(a.split("\t")[0])
                    if feas and v < best:
                        best = v
            elif op == "C":
                if a != cv:
                    raise core.Violation("%s: history %s: C %s returns %r instead of %r" % (sp["cfg"], h, n, a, cv), {"cfg": sp["cfg"], "history": h})
                if fin:
                    nc += 1
            elif op == "P2":
                n2 += 1
            hit = int(sp["best"] is not None and ne > 0 and sp["nobj"] == 1 and best <= sp["best"] + 1e-8)
            gb = float(q[3]) if len(q) > 3 else None
            okb = gb == best or (best == INF and gb >= 1e300)
            if q[:2] != [str(ne), str(nc)] or not okb or q[2] != str(hit):
                raise core.Violation("%s: history %s, after %s %s: (evaluations, constraint evaluations, target hit, best) = %s, expected %s"
                                     % (sp["cfg"], h, op, n, q, [ne, nc, hit, best]), {"cfg": sp["cfg"], "history": h, "points": xs})
            st.state((sp["cfg"], ne, nc, best))
        q = r[len(r) - len(tail)].split("\t")
        if q[0] != str(n2) or q[1] != "0":
            raise core.Violation("%s: history %s: the other problem has counts %s, expected %d" % (sp["cfg"], h, q, n2), {"cfg": sp["cfg"], "history": h})
        st.add("transitions", len(h))
        st.add("traces_validated_against_impl")
    st.add("problems_x_chunks")


def long(item, drv, st, viol):
    """Many calls: counters beyond 16 bits, every evaluation number of a run improving at each call."""
    sp, n, m = item
    suite, f, dim, inst, obs = sp["cfg"]
    xs = {k: core.xs(t[0]) for k, t in sp["tab"].items()}
    rep = {"cfg": sp["cfg"]}
    det = suite != "bbob-noisy"
    cmds = [sp["S"], sp["G"]] + (["O\t0\t%s\tresult_folder: w" % obs, "A\t1\t0"] if obs else [])
    k0 = len(cmds)
    want = {}
    ne, nc = 0, 0
    if not sp["ncon"] and sp["nobj"] == 1 and det:
        cmds += ["k\t1\t%d\t%s\t%s" % (m, xs["opt"], xs["mid"]), "Q\t1"]
        ne += m
        want[len(cmds) - 2] = "0\t"
        want[len(cmds) - 1] = [ne, nc]
    for step, p in (("E", "far"), ("C", "mid"), ("E", "mid"), ("C", "init"), ("E", "far")):
        if step == "C" and not sp["ncon"]:
            continue
        cmds += ["x\t1\t%s%s\t%d\t%s" % ("=" if det else "", step, n, xs[p]), "Q\t1"]
        ne, nc = ne + n * (step == "E"), nc + n * (step == "C")
        want[len(cmds) - 1] = [ne, nc]
        if det:
            want[len(cmds) - 2] = sp["tab"][p][1 if step == "E" else 2]
    cmds += ["F\t1"] + (["o\t0"] if obs else []) + ["f\t0"]
    r = drv.run(cmds, timeout=core.limit(90))
    for k, w in want.items():
        a = r[k]
        if isinstance(w, list):
            q = a.split("\t")
            good = q[:2] == [str(c) for c in w]
        elif cmds[k][0] == "k":
            good = a.startswith(w)
        else:
            good = a == w
        if not good:
            raise core.Violation("%s: %d calls each of %s: %r gives %r, expected %r" % (sp["cfg"], n, [c[:6] for c in cmds[k0:k]], cmds[k][:60], a, w), rep)
    st.add("transitions", ne + nc)
    st.add("traces_validated_against_impl")


def special(cfg, drv, st, viol):
    """Every pattern of finite, infinite and NaN coordinates."""
    suite, f, dim, inst, obs = cfg
    cmds = ["S\t0\t%s\tinstances: %d\tdimensions: %d" % (suite, inst, dim), "B\t1\t0\t%d\t%d\t%d" % (f, dim, inst), "D\t1"] + (["O\t0\t%s\tresult_folder: w" % obs, "A\t1\t0"] if obs else [])
    r = drv.run(cmds[:3] + ["F\t1", "f\t0"])
    d = r[2].split("\t")
    nobj, ncon = int(d[3]), int(d[4])
    vals = (-1.0, 0.5, INF, -INF, float("nan"))
    if dim <= 3:
        vecs_ = list(itertools.product(vals, repeat=dim))
    else:
        vecs_ = []
        for a, b in itertools.combinations(range(dim), 2):
            for u, v in itertools.product(vals, repeat=2):
                for rest in (-1.0, 0.5):
                    x = [rest] * dim
                    x[a], x[b] = u, v
                    vecs_.append(tuple(x))
    ops = "EC" if ncon else "E"
    k0 = len(cmds)
    for x in vecs_:
        for o in ops:
            cmds.append("%s\t1\t%s" % (o, core.xs(list(x))))
        cmds.append("Q\t1")
    cmds += ["F\t1"] + (["o\t0"] if obs else []) + ["f\t0"]
    r = drv.run(cmds)
    n = {"E": 0, "C": 0}
    k = k0
    for x in vecs_:
        fin = all(math.isfinite(v) for v in x)
        w = "inf" if any(math.isinf(v) for v in x) else "nan"
        for o in ops:
            n[o] += fin
            a = r[k].replace("-nan", "nan").split("\t")
            if not fin and a != [w] * (nobj if o == "E" else ncon) or fin and "nan" in a:
                raise core.Violation("%s: %s at %s gives %s" % (cfg, "function" if o == "E" else "constraints", x, a), {"cfg": cfg, "x": x})
            k += 1
        q = r[k].split("\t")
        if q[:2] != [str(n["E"]), str(n["C"])]:
            raise core.Violation("%s: after the evaluation of %s: counts %s, expected %s" % (cfg, x, q[:2], n), {"cfg": cfg, "x": x})
        k += 1
        st.add("transitions", len(ops))
        st.state((cfg, "special", x))
    st.add("traces_validated_against_impl")


def main():
    global EXE
    EXE = core.build_driver()
    obs1 = [None, "bbob", "rw", "toy"]
    deep, wide = [], []
    for suite, f, d, i in (("bbob", 1, 2, 1), ("bbob", 5, 3, 2), ("bbob-constrained", 1, 2, 1), ("bbob-constrained", 10, 3, 4),
                           ("bbob-noisy", 101, 2, 1), ("bbob-mixint", 1, 5, 1), ("bbob-boxed", 2, 2, 1), ("toy", 1, 2, 1)):
        for o in obs1:
            if suite == "toy" and o == "bbob":
                continue
            deep.append((suite, f, d, i, o))
    for o in (None, "bbob-biobj", "rw"):
        deep.append(("bbob-biobj", 3, 2, 1, o))
        deep.append(("bbob-biobj-mixint", 1, 5, 1, o))
    for f in range(1, 25):
        for s in ("bbob", "bbob-boxed"):
            for d in (2, 5):
                wide.append((s, f, d, 3, "bbob" if f % 2 else None))
        wide.append(("bbob-mixint", f, 5, 3, None))
        wide.append(("bbob-largescale", f, 20, 3, None))
    for f in range(1, 55):
        for d in (2, 3):
            wide.append(("bbob-constrained", f, d, 1 + f % 4, "bbob" if f % 3 == 0 else None))
    for f in range(101, 131):
        wide.append(("bbob-noisy", f, 2, 2, None))
    for f in range(1, 56):
        wide.append(("bbob-biobj", f, 2, 1 + f % 5, None))
    jobs, lj = [], []
    nd, nw = (5, 3) if THOROUGH else (4, 2)
    for cfgs, depth in ((deep, nd), (wide, nw)):
        for c in cfgs:
            try:
                sp = spec(c, cfgs is wide)
            except core.Violation as v:
                ck.violation(v.what, v.replay)
                continue
            except (ValueError, IndexError, core.Died) as e:
                ck.violation("%s: problem cannot be examined: %s" % (c, e), {"cfg": c})
                continue
            ops = ops_of(sp)
            if c[4] and depth > 3 and not THOROUGH:
                depth1 = 3
            elif c[4] and depth > 4:
                depth1 = 4
            else:
                depth1 = depth
            if depth1 == 5 and len(ops) > 13:
                depth1 = 4
            n = len(ops) ** depth1
            for k in range(0, n, 500):
                jobs.append((sp, depth1, k, min(n, k + 500)))
            if len(jobs) == 1:
                ck.stats.sample("%s operations %s" % (c, ops))
            if depth == nd or c[4] is None and c[2] < 20 and c[1] % 4 == 0:
                lj.append((sp, 1000000 if THOROUGH else 70000 if depth == nd else 1100, 100000 if THOROUGH else 12000))
    if not ck.violations:
        core.explore(ck, special, [c for c in deep] + [(s, f, d, 1, None) for s, f, d in (("bbob-constrained", 6, 5), ("bbob-constrained", 24, 10), ("bbob", 24, 10), ("bbob-largescale", 17, 20), ("bbob-noisy", 130, 5), ("bbob-biobj", 55, 5), ("bbob-biobj-ext", 90, 3))], EXE, chunk=1)
        core.explore(ck, long, lj, EXE, chunk=1)
        core.explore(ck, work, jobs, EXE, chunk=1)
    ck.extra["problems"] = len(deep) + len(wide)
    ck.assumptions.append("histories of exactly %d calls on %d problem/observer pairs and of %d calls on %d more; values checked after every call"
                          % (nd, len(deep), nw, len(wide)))
    ck.finish()


core.main(main)
