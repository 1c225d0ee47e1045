"""Run a history of calls under a bbob-biobj observer and compare the result folder with biobjlog."""
import itertools

import core
import biobjlog as bl
import biobjmodel as bp


def spec(drv, suite, f, dim, inst, search=False):
    """A problem and named points with the values measured on the unobserved problem (nothing is assumed about them)."""
    base = "bbob-mixint" if "mixint" in suite else "bbob"
    S = "S\t0\t%s\tinstances: %d\tdimensions: %d" % (suite, inst, dim)
    G = "B\t1\t0\t%d\t%d\t%d" % (f, dim, inst)
    (f1, i1), (f2, i2) = bp.parts(f, inst)
    r = drv.run([S, G, "t\t1", "w\t1", "F\t1", "S\t2\t%s\tinstances: %d,%d\tdimensions: %d" % (base, i1, i2, dim),
                 "B\t3\t2\t%d\t%d\t%d" % (f1, dim, i1), "B\t4\t2\t%d\t%d\t%d" % (f2, dim, i2), "v\t3", "v\t4", "K\t3", "K\t4", "F\t3", "F\t4", "f\t2", "f\t0"])
    d = r[1].split("\t")
    ideal = (float(r[8]), float(r[9]))
    a, b = ([float(v) for v in r[k].split("\t")[1:]] for k in (10, 11))
    if base == "bbob-mixint":  # the bi-objective suite has its own scaling of the continuous variables; any points will do
        n = int(d[5])
        a = [0.0] * n + [v * 3 for v in a[n:]]
        b = [1.0] * n + [v * 3 for v in b[n:]]
    line = lambda t: [u + t * (v - u) for u, v in zip(a, b)]
    off = lambda x, s: [v + s * (1 if k % 2 else -0.7) for k, v in enumerate(x)]
    pts = {"m": line(0.5), "l": line(0.25), "r": line(0.75), "n": line(0.55), "d": off(line(0.5), 0.3), "o": a, "p": b,
           "h": off(line(0.5), 3.0), "k": off(line(0.25), 5.0), "u": line(-0.2), "w": line(1.3), "q": line(0.4), "far": [40.0] * dim}
    r = drv.run([S, G] + ["E\t1\t" + core.xs(x) for x in pts.values()] + ["F\t1"])
    vals = {}
    for (n, x), y in zip(pts.items(), r[2:]):
        vals[n] = (x, tuple(float(v) for v in y.split("\t")))
    nad = tuple(float(v) for v in drv.run([S, G, "w\t1", "F\t1"])[2].split("\t"))
    if search:  # mixed-integer: look for points on and near the front of a grid
        pts = [list(p) for p in itertools.product((0, 1), range(4), range(8), range(0, 16), (-70.0, -30.0, 0.0, 20.0, 45.0))]
        r = drv.run([S, G] + ["E\t1\t" + core.xs(x) for x in pts] + ["F\t1"])[2:-1]
        c = sorted((bl.normalise(tuple(map(float, y.split("\t"))), ideal, nad), tuple(map(float, y.split("\t"))), x) for x, y in zip(pts, r))
        front = [t for t in c if not any(bl.weakly(u[0], t[0]) and u[0] != t[0] for u in c)]
        inner = [t for t in c if bl.in_roi(t[0]) and t not in front]
        pick = lambda l, q: l[min(len(l) - 1, int(q * len(l)))]
        for n, t in zip("mlrdqn", (pick(front, 0.5), pick(front, 0.2), pick(front, 0.8), pick(inner, 0.5), pick(inner, 0.3), pick(inner, 0.7))):
            vals[n] = (t[2], t[1])
    P = {"suite": suite, "id": d[0], "name": d[6], "type": drv.run([S, G, "t\t1", "F\t1"])[2], "index": int(d[1]), "f": f, "i": inst, "dim": dim,
         "nint": int(d[5]), "ideal": ideal, "nadir": nad, "known": suite != "bbob-biobj-mixint"}
    return {"name": "%s f%d d%d i%d" % (suite, f, dim, inst), "S": S, "G": G, "pts": vals, "P": P, "xs": {n: core.xs(v[0]) for n, v in vals.items()}}


def apply(run, sp, op, slot=1, obs=0):
    if len(op) == 3:  # the same evaluation op[2] times
        for _ in range(op[2]):
            apply(run, sp, op[:2], slot, obs)
        return "x\t%d\t%s\t%d\t%s" % (slot, op[0], op[2], sp["xs"][op[1]])
    o, n = op
    if o == "T":
        run.signal()
        return "T\t%d\t%d" % (obs, slot)
    if o == "o":
        return "o\t%d" % obs
    if n in ("nan", "inf"):
        return "%s\t%d\t%s" % (o, slot, "\t".join([n] + ["0"] * (sp["P"]["dim"] - 1)))
    x, y = sp["pts"][n]
    if o == "E":
        run.evaluate(x, y)
    elif o == "M":
        run.recommend(x, y)
    return "%s\t%d\t%s" % (o, slot, sp["xs"][n])


def finish(drv, cmds, ob, rep, who, st, viol, ambiguous, expect_skip=None):
    r = drv.run(cmds, timeout=core.limit(60))
    for w in ("fatal", "assert", "abort", "xmodified", "nop"):
        if w in r:
            viol.append(("%s: %s at command %r" % (who, w, cmds[r.index(w)]), rep))
            return r
    st.add("transitions", len(cmds))
    if ambiguous:
        st.add("skipped_on_rounding_boundary")
        return r
    d = bl.diff(ob.files, core.read_tree(drv.cwd + "/exdata/default"))
    if d:
        viol.append(("%s: %s" % (who, d), rep))
    st.add("records", sum(v.count("\n") for v in ob.files.values()))
    st.add("traces_validated_against_impl")
    return r


def check_history(drv, sp, optstr, opts, h, st, viol):
    ob = bl.Observer(**opts)
    run = bl.Run(ob, sp["P"])
    cmds = [sp["S"], "O\t0\tbbob-biobj\t" + optstr, sp["G"], "A\t1\t0"]
    gone = False
    for op in h:
        if gone and op[0] in "oT":
            continue
        cmds.append(apply(run, sp, op))
        gone = gone or op[0] == "o"
    cmds += ["F\t1"] + ([] if gone else ["o\t0"]) + ["f\t0"]
    run.free()
    finish(drv, cmds, ob, {"problem": sp["name"], "options": optstr, "history": h, "commands": cmds}, "%s, options %r, %s" % (sp["name"], optstr, h), st, viol, run.ambiguous)
    st.state((sp["name"], optstr, run.nf, round(run.overall, 9), len(run.arch), run.t.exp if run.ind else 0))
