"""C08: the .dat/.tdat records of the bbob observer for every history of evaluations and every option setting."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
import bbobmodel as bm  # noqa: E402
import bbobrun as br  # noqa: E402
from core import THOROUGH  # noqa: E402

ck = core.Check("C08")

OPTS = [
    ("", {}),
    ("number_target_triggers: 1", {"ntt": 1}),
    ("number_target_triggers: 3 log_target_precision: 1e-2 lin_target_precision: 1", {"ntt": 3, "logp": 1e-2, "linp": 1.0}),
    ("number_target_triggers: 0 lin_target_precision: 7", {"ntt": 0, "linp": 7.0}),
    ("lin_target_precision: 1e3 number_target_triggers: 2 base_evaluation_triggers: \"1\"", {"ntt": 2, "linp": 1e3, "base": (1,)}),
    ("base_evaluation_triggers: \"2,3,7\" lin_target_precision: 1e9 number_target_triggers: 5 log_discrete_as_int: 1", {"base": (2, 3, 7), "linp": 1e9, "ntt": 5, "dint": 1}),
    ("number_target_triggers: 0 lin_target_precision: 1e6", {"ntt": 0, "linp": 1e6}),
    ("number_target_triggers: 0 lin_target_precision: 3e-11", {"ntt": 0, "linp": 3e-11}),
]


def work(item, drv, st, viol):
    spec, opt, ops, depth, lo, hi = item
    for h in itertools.islice(itertools.product(ops, repeat=depth), lo, hi):
        br.check_history(drv, spec, opt[0], opt[1], h, st, viol)
        if len(viol) >= 3:
            return


def long_run(item, drv, st, viol):
    spec, opt, pattern, n = item
    h = (list(pattern) * (n // len(pattern) + 1))[:n]
    br.check_history(drv, spec, opt[0], opt[1], h, st, viol, label="%s repeated to %d calls" % (pattern, n))


def late(item, drv, st, viol):
    """calls made before the observer is attached leave no trace in the files except in the number of constraint evaluations"""
    spec, opt, ops, depth, pre = item
    for h in itertools.product(ops, repeat=depth):
        br.check_history(drv, spec, opt[0], opt[1], h, st, viol, pre=pre)
        if len(viol) >= 3:
            return


def words(item, drv, st, viol):
    """all words over {E, C} of the given length: tdat triggers count both"""
    spec, opt, n, lo, hi = item
    for m in range(lo, hi):
        h = [("E", "p%d" % (k % 3)) if (m >> k) & 1 else ("C", "p0") for k in range(n)]
        br.check_history(drv, spec, opt[0], opt[1], h, st, viol)
        if len(viol) >= 3:
            return


def main():
    exe = core.build_driver()
    drv = core.Driver(exe)
    specs = []
    try:
        lv = (120.0, 11.0, 9.9999, 1.0001, 2e-3, 3e-9, 0.0)
        A = br.spec(drv, "bbob", 1, 2, 1, lv)
        A3 = br.spec(drv, "bbob", 1, 3, 2, (1e4, 77.0, 0.3, 1e-5, 1e-7, 9e-9, 1e-12))
        Acfg = [(A, ["p%d" % k for k in range(7)]), (A3, ["p%d" % k for k in range(7)])]
        cons = br.spec(drv, "bbob-constrained", 1, 2, 1, (100.0, 3.0, 0.02, 1e-9))
        cons2 = br.spec(drv, "bbob-constrained", 26, 3, 2, (50.0, 0.5, 1e-4))
        boxed = br.spec(drv, "bbob-boxed", 2, 2, 1, (40.0, 0.2, 1e-6))
        mix = br.spec(drv, "bbob-mixint", 1, 5, 1, (40.0, 2.0, 1e-7))
        large = br.spec(drv, "bbob-largescale", 1, 40, 1, (40.0, 2.0, 1e-7))
        d21 = br.spec(drv, "bbob-largescale", 2, 20, 1, (40.0, 2.0, 1e-7))
        wide = [br.spec(drv, "bbob", f, d, 1 + f % 5, (60.0, 1.0, 1e-4)) for f in range(1, 25) for d in (2, 5)]
        wide += [br.spec(drv, "bbob-constrained", f, 2, 1 + f % 5, (60.0, 1.0, 1e-4)) for f in range(1, 55)]
        wide += [br.spec(drv, "bbob-mixint", f, 5, 1 + f % 5, (60.0, 1.0)) for f in range(1, 25)]
        wide += [br.spec(drv, "bbob-boxed", f, 3, 1 + f % 5, (60.0, 1.0)) for f in range(1, 25)]
        many = [br.spec(drv, "bbob-constrained", f, d, 1 + f % 3, (60.0, 1.0, 1e-4)) for f, d in ((6, 5), (12, 10), (6, 40), (5, 20), (54, 10))]
    except (core.Died, ValueError, IndexError, core.Violation) as e:
        ck.violation("a problem cannot be examined: %s" % e, {})
        ck.finish()
    jobs = []

    def hist(spec, opts, ops, depth):
        n = len(ops) ** depth
        for o in opts:
            for k in range(0, n, 1500):
                jobs.append((spec, o, ops, depth, k, min(n, k + 1500)))
        ck.stats.sample("%s: all sequences of %d of %s under %d option strings" % (spec["name"], depth, ops, len(opts)))

    extra = 1 if THOROUGH else 0
    for s, names in Acfg:
        hist(s, OPTS, [("E", n) for n in names], 4 + extra)
    hist(A, OPTS[:3], [("E", n) for n in ("p0", "p3", "p5", "inf", "nan")] + ([("E", "over")] if "over" in A["pts"] else []), 5)
    for s in (cons, cons2):
        ps = [n for n in s["pts"] if n[0] in "pb"]
        hist(s, OPTS[:4], [("E", n) for n in ps] + [("C", "p0"), ("C", "inf")], 4 if THOROUGH else 3)
        hist(s, OPTS[:3], [("E", n) for n in s["pts"] if n[0] == "t"] + [("E", "p0"), ("E", "p%d" % (len([n for n in s["pts"] if n[0] == "p"]) - 1)), ("C", "p0")], 4 if THOROUGH else 3)
    hist(boxed, OPTS[:3], [("E", n) for n in boxed["pts"]], 4)
    hist(mix, OPTS[:1] + OPTS[5:6], [("E", n) for n in mix["pts"]], 4 if THOROUGH else 3)
    hist(large, OPTS[:2], [("E", n) for n in large["pts"]], 3)
    hist(d21, OPTS[:2], [("E", n) for n in d21["pts"]], 3)
    for s in wide:
        hist(s, OPTS[:2], [("E", n) for n in s["pts"] if n[0] in "pb" or n == "t0"] + ([("C", "p0")] if s["P"]["ncon"] else []), 3)
    for s in many:
        hist(s, OPTS[:2], [("E", n) for n in s["pts"] if n[0] in "pbt"] + [("C", "p0")], 2)
    core.explore(ck, work, jobs, exe, chunk=2)
    n = 20000 if THOROUGH else 2500
    lj = []
    for s in (A, A3, mix, d21, large, boxed):
        for o in OPTS:
            for pat in ([("E", "p0")], [("E", "p0"), ("E", "p1"), ("E", "inf")], [("E", "p2"), ("E", "p2"), ("E", "p2"), ("E", "p0"), ("E", "nan")]):
                lj.append((s, o, pat, n))
    for s in (cons, cons2):
        for o in OPTS:
            for pat in ([("E", "p0"), ("C", "p0")], [("C", "p0"), ("C", "p1"), ("E", "p1"), ("C", "nan")], [("C", "p0")] * 30 + [("E", "p1")]):
                lj.append((s, o, pat, n))
    N = 3000000 if THOROUGH else 600000
    for s in (A, A3):
        for o in (OPTS[0], OPTS[4], OPTS[5]):
            lj.insert(0, (s, o, [("E", "p0", 10), ("E", "p2", N), ("E", "p3", 2 * N // 3)], 3))
    lj.insert(0, (A3, OPTS[0], [("E", "p0"), ("E", "nan", N), ("E", "p2", N)], 3))
    lj.insert(0, (large, OPTS[0], [("E", "p0", 5), ("E", "p1", N)], 2))
    for o in (OPTS[0], OPTS[5]):
        lj.insert(0, (cons, o, [("C", "p0", N), ("E", "p0", N), ("C", "p1", 1000), ("E", "p1", 1000)], 4))
        lj.insert(0, (cons, o, [("E", "p0", 99999), ("C", "p0", N), ("E", "p1", 1), ("C", "p0", 1), ("E", "p0", N)], 5))
    core.explore(ck, long_run, lj, exe, chunk=1)
    la = []
    for s in (A, A3, cons, cons2, boxed, mix):
        ops = [("E", "p0"), ("E", "p2"), ("E", "nan")] + ([("C", "p0"), ("C", "p1")] if s["P"]["ncon"] else [("M", "p1")])
        for k in (1, 2, 3):
            for pre in itertools.product(ops, repeat=k):
                la.append((s, OPTS[sum(map(ord, str(pre))) % 3], [("E", "p0"), ("E", "p1")] + ([("C", "p0")] if s["P"]["ncon"] else []), 3 if THOROUGH else 2, pre))
    core.explore(ck, late, la, exe, chunk=8)
    L = 13 if THOROUGH else 10
    core.explore(ck, words, [(s, o, L, k, k + 64) for s in (cons, cons2) for o in (OPTS[0], OPTS[4], OPTS[5]) for k in range(0, 2 ** L, 64)], exe, chunk=2)
    ck.assumptions.append("values of points are those of the unobserved problem (C07); all histories within the depth per configuration, every evaluation number up to %d for %d option strings" % (n, len(OPTS)))
    ck.finish()


core.main(main)
