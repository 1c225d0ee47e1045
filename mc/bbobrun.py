"""Run a history of calls under a bbob observer and compare the result folder with bbobmodel."""
import math

import core
import bbobmodel as bm


def spec(drv, suite, f, dim, inst, levels):
    """A problem, and named points with their values measured on the unobserved problem: pK has a distance of about
    levels[K] to the optimal value, bK is infeasible, out is far outside the region of interest."""
    S = "S\t0\t%s\tinstances: %d\tdimensions: %d" % (suite, inst, dim)
    G = "B\t1\t0\t%d\t%d\t%d" % (f, dim, inst)
    r = drv.run([S, G, "v\t1", "K\t1", "X\t1", "F\t1"])
    if r[1] in ("null", "nop"):
        raise ValueError("no problem %s %d %d %d" % (suite, f, dim, inst))
    d = r[1].split("\t")
    ncon, nint = int(d[4]), int(d[5])
    best = float(r[2])
    xo = [float(v) for v in r[3].split("\t")[1:]]
    x0 = [float(v) for v in r[4].split("\t")]
    if ncon == 0:
        y = [1.0 if k % 2 else -0.6 for k in range(dim)]
    else:
        y = [a - b for a, b in zip(x0, xo)]
    ts = [3.0 * 1.17 ** -k for k in range(170)] + [0.0]
    pts = [[a + t * b for a, b in zip(xo, y)] for t in ts]
    cmds = [S, G]
    for x in pts:
        cmds.append("E\t1\t" + core.xs(x))
        if ncon:
            cmds.append("C\t1\t" + core.xs(x))
    r = drv.run(cmds + ["F\t1"])[2:]
    vals = []
    for k, x in enumerate(pts):
        if ncon:
            v, g = float(r[2 * k]), [float(u) for u in r[2 * k + 1].split("\t")]
        else:
            v, g = float(r[k]), []
        vals.append((x, v, g))
    named = {}
    for k, l in enumerate(levels):
        feas = [t for t in vals if not any(c > 0 for c in t[2])] or vals
        named["p%d" % k] = min(feas, key=lambda t: abs(math.log((t[1] - best if t[1] > best else 0) + 1e-13) - math.log(l + 1e-13)))
    if ncon:
        cand = []
        for t in (1.0000001, 1.001, 1.02, 1.5, 4.0):
            cand.append([a + t * (b - a) for a, b in zip(x0, xo)])
        cmds = [S, G]
        for x in cand:
            cmds += ["E\t1\t" + core.xs(x), "C\t1\t" + core.xs(x)]
        r = drv.run(cmds + ["F\t1"])[2:]
        n = 0
        for k, x in enumerate(cand):
            v, g = float(r[2 * k]), [float(u) for u in r[2 * k + 1].split("\t")]
            if any(c > 0 for c in g):
                named["b%d" % n] = (x, v, g)
                n += 1
        # barely infeasible points: sums of violations from far below to far above the feasibility tolerances
        rate = max([c for c in named.get("b0", (0, 0, [0]))[2]]) / 1e-7
        cand = [[a + (1 + w / rate) * (b - a) for a, b in zip(x0, xo)] for w in (4e-10, 5e-9, 3e-7, 5e-4, 0.05)] if rate > 0 else []
        cmds = [S, G]
        for x in cand:
            cmds += ["E\t1\t" + core.xs(x), "C\t1\t" + core.xs(x)]
        r = drv.run(cmds + ["F\t1"])[2:]
        for k, x in enumerate(cand):
            named["t%d" % k] = (x, float(r[2 * k]), [float(u) for u in r[2 * k + 1].split("\t")])
    else:
        x = [7.0 + k for k in range(dim)]
        named["out"] = (x, float(drv.run([S, G, "E\t1\t" + core.xs(x), "F\t1"])[2]), [])
        x = [-3.6 - 0.5 * k for k in range(dim)]
        named["neg"] = (x, float(drv.run([S, G, "E\t1\t" + core.xs(x), "F\t1"])[2]), [])
        if f == 1 and suite == "bbob":  # a finite point whose value overflows
            x = [1e160] * dim
            named["over"] = (x, float(drv.run([S, G, "E\t1\t" + core.xs(x), "F\t1"])[2]), [])
    named["inf"] = ([math.inf] + [0.0] * (dim - 1), None, None)
    named["nan"] = ([0.0] * (dim - 1) + [math.nan], None, None)
    return {"name": "%s f%d d%d i%d" % (suite, f, dim, inst), "S": S, "G": G, "pts": named, "xs": {n: core.xs(t[0]) for n, t in named.items()},
            "P": {"suite": suite, "f": f, "i": inst, "dim": dim, "nint": nint, "ncon": ncon, "best": best}}


def apply(run, spec, op):
    """Advance the model by one call; returns the driver command (with problem slot 1, observer slot 0)."""
    if len(op) == 3:  # the same call op[2] times
        cmd = apply(run, spec, op[:2])
        for _ in range(op[2] - 1):
            apply(run, spec, op[:2])
        return "x\t1\t%s\t%d\t%s" % (op[0], op[2], spec["xs"][op[1]])
    o, n = op
    if o == "T":
        run.signal()
        return "T\t0\t1"
    x, y, g = spec["pts"][n]
    fin = y is not None
    if o == "E":
        if fin:
            run.evaluate(x, y, g if run.P["ncon"] else None)
        return "E\t1\t" + spec["xs"][n]
    if o == "C":
        if fin:
            run.constraint()
        return "C\t1\t" + spec["xs"][n]
    if o == "M":
        if fin:
            run.recommend(x, y, g if run.P["ncon"] else None)
        else:
            inf = any(math.isinf(v) for v in x)
            run.recommend(x, math.inf if inf else math.nan, None)
        return "M\t1\t" + spec["xs"][n]
    raise ValueError(o)


def check_history(drv, spec, optstr, opts, h, st, viol, label=None, pre=()):
    ob = bm.Observer(**opts)
    run = bm.Run(ob, spec["P"])
    cmds = [spec["S"], "O\t0\tbbob\t" + optstr, spec["G"]] + ["%s\t1\t%s" % (o, spec["xs"][n]) for o, n in pre] + ["A\t1\t0"]
    if pre:
        run.ng = sum(o == "C" and n not in ("nan", "inf") for o, n in pre)  # g evaluations are those of the problem, f evaluations those seen by the observer
        label = "%s before the observer is attached, then %s" % (pre, label or h)
    for op in h:
        cmds.append(apply(run, spec, op))
    cmds += ["F\t1", "o\t0", "f\t0"]
    run.free()
    r = drv.run(cmds, timeout=core.limit(60))
    rep = {"problem": spec["name"], "options": optstr, "history": label or h, "points": spec["xs"], "commands": cmds if len(cmds) < 200 else None}
    for w in ("fatal", "assert", "abort", "xmodified", "nop"):
        if w in r:
            viol.append(("%s, options %r, %s: %s at command %r" % (spec["name"], optstr, label or h, w, cmds[r.index(w)]), rep))
            return
    real = core.read_tree(drv.cwd + "/exdata/default")
    d = bm.diff(ob.files, real)
    if d:
        viol.append(("%s, options %r, %s: %s" % (spec["name"], optstr, label or h, d), rep))
    st.state((spec["name"], optstr, run.best, run.nf, run.ng_logged, run.t.exp))
    st.add("transitions", sum(op[2] if len(op) == 3 else 1 for op in h))
    st.add("records", sum(v.count("\n") for v in ob.files.values()))
    st.add("traces_validated_against_impl")
