"""C14: the files of the bbob-biobj observer for every history of evaluations, recommendations, restarts and runs."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
import biobjlog as bl  # noqa: E402
import biobjrun as br  # noqa: E402
from core import THOROUGH  # noqa: E402

ck = core.Check("C14")
OPTS = [
    ("", {}),
    ("log_nondominated: final log_decision_variables: all precision_x: 3 precision_f: 6", {"nondom": "final", "vars": "all", "px": 3, "pf": 6}),
    ("log_nondominated: none number_target_triggers: 2 lin_target_precision: 1", {"nondom": "none", "ntt": 2, "linp": 1.0}),
    ("compute_indicators: 0 log_decision_variables: none", {"ind": 0, "vars": "none"}),
    ("log_nondominated: final compute_indicators: 0", {"nondom": "final", "ind": 0}),
    ("number_target_triggers: 0 lin_target_precision: 0.05 base_evaluation_triggers: \"1,3\"", {"ntt": 0, "linp": 0.05, "base": (1, 3)}),
    ("log_target_precision: 1e-2 number_target_triggers: 5 lin_target_precision: 10 algorithm_name: AB algorithm_info: \"some info\"",
     {"logp": 1e-2, "ntt": 5, "linp": 10.0, "alg": "AB", "info": "some info"}),
    ("produce_all_data: 1 log_nondominated: none compute_indicators: 0 log_decision_variables: all", {}),
    ("log_discrete_as_int: 1 log_decision_variables: all", {"dint": 1, "vars": "all"}),
]


def work(item, drv, st, viol):
    sp, opt, ops, depth, lo, hi = item
    for h in itertools.islice(itertools.product(ops, repeat=depth), lo, hi):
        br.check_history(drv, sp, opt[0], opt[1], h, st, viol)
        if len(viol) >= 3:
            return


def long(item, drv, st, viol):
    sp, opt, cycle, n = item
    h = tuple(itertools.islice(itertools.cycle(cycle), n))
    br.check_history(drv, sp, opt[0], opt[1], h, st, viol)
    for w, rep in viol:
        rep["history"] = "%s repeated to %d calls" % (cycle, n)
        rep.pop("commands", None)


def runs(item, drv, st, viol):
    """several runs under one observer"""
    specs, optstr, opts, seqs = item
    for seq in seqs:
        ob = bl.Observer(**opts)
        cmds = ["O\t0\tbbob-biobj\t" + optstr]
        for k in range(3):
            cmds.append("S\t%d\t%s\tinstances: 1-3\t" % (k, ("bbob-biobj", "bbob-biobj-ext", "bbob-biobj-mixint")[k]))
        amb = False
        for key, ops in seq:
            sp = specs[key]
            P = dict(sp["P"])
            s = ("bbob-biobj", "bbob-biobj-ext", "bbob-biobj-mixint").index(P["suite"])
            P["index"] = sp["index13"]
            cmds.append("B\t1\t%d\t%d\t%d\t%d" % (s, P["f"], P["dim"], P["i"]))
            cmds.append("A\t1\t0")
            run = bl.Run(ob, P)
            for op in ops:
                cmds.append(br.apply(run, sp, op))
            run.free()
            cmds.append("F\t1")
            amb = amb or run.ambiguous
        cmds += ["o\t0", "f\t0", "f\t1", "f\t2"]
        br.finish(drv, cmds, ob, {"runs": seq, "options": optstr, "commands": cmds}, "runs %s, options %r" % (seq, optstr), st, viol, amb)
        if len(viol) >= 3:
            return


def experiment(item, drv, st, viol):
    """long experiments under one observer: all instances, many returns to a function and dimension"""
    what, suite, keys, o = item
    S = "S\t0\t%s\tinstances: 1-15\t" % suite
    uniq = list(dict.fromkeys(keys))
    r = drv.run([S] + sum((["B\t1\t0\t%d\t%d\t%d" % k, "F\t1"] for k in uniq), []) + ["f\t0"])
    index = {k: int(r[1 + 2 * j].split("\t")[1]) for j, k in enumerate(uniq)}
    specs = {k: br.spec(drv, suite, *k) for k in uniq}
    ob = bl.Observer(**o[1])
    cmds, amb = ["O\t0\tbbob-biobj\t" + o[0], S], False
    for n, k in enumerate(keys):
        sp = specs[k]
        run = bl.Run(ob, dict(sp["P"], index=index[k]))
        cmds += ["B\t1\t0\t%d\t%d\t%d" % k, "A\t1\t0"]
        for op in ((("E", "m"), ("E", "l")), (("E", "h"),), (), (("E", "r"), ("E", "d"), ("E", "q")))[n % 4 if "gaps" in what else n % 2]:
            cmds.append(br.apply(run, sp, op))
        run.free()
        cmds.append("F\t1")
        amb = amb or run.ambiguous
    cmds += ["o\t0", "f\t0"]
    br.finish(drv, cmds, ob, {"runs": keys, "options": o[0], "commands": cmds}, "long experiment: %s, %s, options %r" % (suite, what, o[0]), st, viol, amb)
    st.state((what, suite, o[0]))


def experiments():
    for suite, d1, d2, last in (("bbob-biobj", 2, 3, 55), ("bbob-biobj-ext", 2, 5, 92), ("bbob-biobj-mixint", 5, 10, 92)):
        for o in (OPTS[0], OPTS[1], OPTS[3]):
            yield ("all instances", suite, [(1, d1, i) for i in range(1, 16)], o)
            yield ("all instances falling, gaps", suite, [(last, d1, i) for i in range(15, 0, -1)] + [(1, d2, 3)], o)
            yield ("returns between dimensions", suite, [(2, (d1, d2)[n % 2], n // 2 % 15 + 1) for n in range(60)], o)
            yield ("returns between functions, gaps", suite, [((2, last - 1)[n % 2], d1, n // 2 % 15 + 1) for n in range(60)], o)
            yield ("the same instance again and again", suite, [(3, d1, 4)] * 40, o)
            yield ("every function, both dimensions in turn", suite, [(f, (d1, d2)[(n + f) % 2], n) for n in (1, 2) for f in range(1, last + 1, 1 if THOROUGH else 3)], o)


def refs(item, drv, st, viol):
    """the reference value and identification in the headers, for every problem"""
    suite, dim, f, insts = item
    cmds = ["S\t0\t%s\tinstances: %s\tdimensions: %d" % (suite, ",".join(map(str, insts)), dim), "O\t0\tbbob-biobj\tlog_nondominated: none"]
    for i in insts:
        cmds += ["B\t1\t0\t%d\t%d\t%d" % (f, dim, i), "t\t1", "A\t1\t0", "F\t1"]
    cmds += ["o\t0", "f\t0"]
    r = drv.run(cmds)
    real = core.read_tree(drv.cwd + "/exdata/default")
    ob = bl.Observer(nondom="none")
    for k, i in enumerate(insts):
        d = r[2 + 4 * k].split("\t")
        if len(d) < 7:
            viol.append(("%s f%d d%d i%d cannot be opened: %r" % (suite, f, dim, i, r[2 + 4 * k]), {"commands": cmds}))
            return
        P = {"suite": suite, "id": d[0], "name": d[6], "type": r[3 + 4 * k], "index": int(d[1]), "f": f, "i": i, "dim": dim, "nint": int(d[5]), "ideal": (0, 0), "nadir": (1, 1), "known": "mixint" not in suite}
        bl.Run(ob, P).free()
    d = bl.diff(ob.files, real)
    if d:
        viol.append(("%s f%d d%d instances %s, observed without evaluation: %s" % (suite, f, dim, insts, d), {"commands": cmds}))
    st.add("transitions", len(cmds))
    st.add("traces_validated_against_impl")


def guards(drv):
    """one problem at a time; only bi-objective ones"""
    r = drv.run(["S\t0\tbbob-biobj\t\t", "O\t0\tbbob-biobj\t", "G\t1\t0\t0", "A\t1\t0", "G\t2\t0\t1", "A\t2\t0"])
    if r[-1] != "fatal":
        ck.violation("a second problem observed while the first is open gives %r instead of the error exit" % r[-1], {})
    r = drv.run(["S\t0\tbbob\t\t", "O\t0\tbbob-biobj\t", "G\t1\t0\t0", "A\t1\t0"])
    if r[-1] != "fatal":
        ck.violation("a single-objective problem under the bi-objective observer gives %r instead of the error exit" % r[-1], {})


def main():
    exe = core.build_driver()
    drv = core.Driver(exe)
    try:
        A = br.spec(drv, "bbob-biobj", 1, 2, 1)
        B = br.spec(drv, "bbob-biobj", 11, 5, 2)
        X = br.spec(drv, "bbob-biobj-ext", 70, 3, 3)
        M = br.spec(drv, "bbob-biobj-mixint", 1, 5, 1, search=True)
        W = br.spec(drv, "bbob-biobj", 3, 10, 1)
        wide = [br.spec(drv, "bbob-biobj-ext", f, d, 1 + f % 5) for f in range(1, 93) for d in ((2, 5) if not THOROUGH else (2, 3, 5, 10, 20))]
        wide += [br.spec(drv, "bbob-biobj-mixint", f, 5, 1 + f % 5) for f in range(1, 93)]
        guards(drv)
    except (core.Died, ValueError, IndexError) as e:
        ck.violation("a problem cannot be examined: %s" % e, {})
        ck.finish()
    jobs, lj = [], []

    def hist(sp, opts, ops, depth):
        n = len(ops) ** depth
        for o in opts:
            for k in range(0, n, 800):
                jobs.append((sp, o, ops, depth, k, min(n, k + 800)))
        ck.stats.sample("%s: all sequences of %d of %s under %d option strings" % (sp["name"], depth, ops, len(opts)))

    x = 1 if THOROUGH else 0
    E = lambda s: [("E", c) for c in s]
    hist(A, OPTS[:1], E(["m", "l", "r", "d", "h", "o", "u", "n"]), 4 + x)
    hist(A, OPTS[1:8], E(["m", "l", "r", "d", "h", "u"]), 3 + x)
    hist(A, OPTS[:1] + OPTS[5:6], E(["m", "h", "k", "far"]) + [("E", "nan"), ("E", "inf")], 4)
    hist(A, OPTS[:2], [("T", ""), ("o", ""), ("E", "m"), ("E", "l"), ("M", "r"), ("M", "h")], 4 + x)
    hist(B, OPTS[:3], E(["m", "l", "r", "q", "h"]), 3 + x)
    hist(X, OPTS[:3], E(["m", "l", "r", "q", "h"]), 3 + x)
    hist(M, OPTS[:3] + OPTS[8:], E(["m", "l", "h", "r", "q"]) + [("M", "d")], 3 + x)
    hist(W, OPTS[:2], E(["m", "l", "h", "d"]), 3)
    for s in wide:
        hist(s, OPTS[:1], E(["m", "l", "h", "r", "p"]), 2)
    for c in itertools.product(E(["m", "l", "r", "d", "h", "o"]), repeat=2):
        lj.append((A, OPTS[0], c, 700))
    for c in itertools.permutations(E(["h", "k", "l", "q", "m", "n"])):
        if THOROUGH or c[0] < c[1]:
            lj.append((A, OPTS[0], c, 6))
            lj.append((B, OPTS[1], c, 6))
    N = 3000000 if THOROUGH else 300000
    for sp in (A, B):
        for o in (OPTS[0], OPTS[2], OPTS[5]):
            lj.insert(0, (sp, o, (("E", "h", 7), ("E", "d", N), ("E", "m", N // 3)), 3))
    core.explore(ck, work, jobs, exe, chunk=4)
    core.explore(ck, long, lj[:6], exe, chunk=1)
    core.explore(ck, long, lj[6:], exe, chunk=8)
    # sequences of runs
    keys = [("bbob-biobj", 1, 2, 1), ("bbob-biobj", 1, 2, 2), ("bbob-biobj", 1, 3, 1), ("bbob-biobj", 2, 2, 1), ("bbob-biobj-mixint", 1, 5, 1), ("bbob-biobj-ext", 80, 2, 3)]
    specs = {}
    for k in keys:
        specs[k] = br.spec(drv, *k)
        specs[k]["index13"] = int(drv.run(["S\t0\t%s\tinstances: 1-3\t" % k[0], "B\t1\t0\t%d\t%d\t%d" % k[1:]])[1].split("\t")[1])
    seqs = []
    alpha = [(k, o) for k in keys for o in ((("E", "m"), ("E", "l")), (), (("E", "h"), ("M", "m"), ("E", "r")))]
    small = [(k, (("E", "m"), ("E", "l"))) for k in keys]
    for s in itertools.product(alpha, repeat=2):
        seqs.append(s)
    for s in itertools.product(small, repeat=4 if THOROUGH else 3):
        seqs.append(s)
    rj = [(specs, o[0], o[1], seqs[k:k + 60]) for o in (OPTS[0], OPTS[1], OPTS[3]) for k in range(0, len(seqs), 60)]
    core.explore(ck, runs, rj, exe, chunk=1)
    core.explore(ck, experiment, list(experiments()), exe, chunk=1)
    # every header
    hj = []
    for suite, nf, dims in (("bbob-biobj", 55, (2, 3, 5, 10, 20, 40)), ("bbob-biobj-ext", 92, (2, 3, 5, 10, 20, 40)), ("bbob-biobj-mixint", 92, (5, 10, 20, 40))):
        for d in dims:
            if d <= 5 or THOROUGH:
                ins = list(range(1, 16))
            elif d <= 20:
                ins = [1, 6, 12]
            else:
                ins = [4] if suite == "bbob-biobj" else []
            if ins:
                hj += [(suite, d, f, ins) for f in range(1, nf + 1)]
    core.explore(ck, refs, sorted(hj, key=lambda h: -h[1] * len(h[3])), exe, chunk=4)
    ck.assumptions.append("indicator values are compared up to 1e-11 (order of summation); histories in which a value is that close to a target are counted in skipped_on_rounding_boundary and not compared")
    ck.finish()


core.main(main)
