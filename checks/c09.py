"""C09: restart signals (.rdat) and recommendations (.mdat) under the bbob observer, interleaved with evaluations."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
import bbobmodel as bm  # noqa: E402
import bbobrun as br  # noqa: E402
from core import THOROUGH  # noqa: E402

ck = core.Check("C09")
OPTS = [("", {}), ("number_target_triggers: 1 lin_target_precision: 1e3", {"ntt": 1, "linp": 1e3}), ("number_target_triggers: 0 lin_target_precision: 2", {"ntt": 0, "linp": 2.0})]


def work(item, drv, st, viol):
    spec, opt, ops, depth, lo, hi = item
    for h in itertools.islice(itertools.product(ops, repeat=depth), lo, hi):
        if not any(o[0] in "MT" for o in h):
            continue
        br.check_history(drv, spec, opt[0], opt[1], h, st, viol)
        if len(viol) >= 3:
            return


def counters(item, drv, st, viol):
    """The solver's view (counters, best, target flag) is unaffected by signals and recommendations."""
    spec, ops, depth, lo, hi = item
    for h in itertools.islice(itertools.product(ops, repeat=depth), lo, hi):
        if not any(o[0] in "MT" for o in h):
            continue
        cmds = [spec["S"], "O\t0\tbbob\t", spec["G"], "A\t1\t0", "B\t2\t0\t%d\t%d\t%d" % (spec["P"]["f"], spec["P"]["dim"], spec["P"]["i"])]
        n0 = len(cmds)
        for o, n in h:
            if o == "T":
                cmds += ["T\t0\t1", "z\t9"]
            elif o == "M":
                cmds += ["M\t1\t" + spec["xs"][n], "z\t9"]
            else:
                cmds += ["%s\t1\t%s" % (o, spec["xs"][n]), "%s\t2\t%s" % (o, spec["xs"][n])]
            cmds += ["Q\t1", "Q\t2"]
        cmds += ["F\t1", "F\t2", "o\t0", "f\t0"]
        r = drv.run(cmds)
        for k, (o, n) in enumerate(h):
            a, b, qa, qb = r[n0 + 4 * k:n0 + 4 * k + 4]
            if a != b or qa != qb:
                viol.append(("%s, history %s: after step %d the observed problem gives %r %r, one without signals %r %r" % (spec["name"], h, k, a, qa, b, qb),
                             {"problem": spec["name"], "history": h, "commands": cmds}))
                return
        st.add("transitions", len(h))
        st.add("traces_validated_against_impl")


def main():
    exe = core.build_driver()
    drv = core.Driver(exe)
    try:
        A = br.spec(drv, "bbob", 1, 2, 1, (120.0, 9.0, 0.5, 2e-4, 0.0))
        cons = br.spec(drv, "bbob-constrained", 1, 2, 1, (100.0, 3.0, 0.02))
        mix = br.spec(drv, "bbob-mixint", 1, 5, 1, (40.0, 2.0, 1e-7))
        boxed = br.spec(drv, "bbob-boxed", 2, 2, 1, (40.0, 0.2, 1e-6))
        large = br.spec(drv, "bbob-largescale", 1, 40, 1, (40.0, 2.0, 1e-7))
        wide = [br.spec(drv, "bbob", f, d, 1 + f % 5, (60.0, 1.0, 1e-4)) for f in range(1, 25) for d in (2, 5)]
        wide += [br.spec(drv, "bbob-constrained", f, 2, 1 + f % 5, (60.0, 1.0, 1e-4)) for f in range(1, 55)]
        wide += [br.spec(drv, "bbob-mixint", f, 5, 1 + f % 5, (60.0, 1.0)) for f in range(1, 25)]
        many = [br.spec(drv, "bbob-constrained", f, d, 1 + f % 3, (60.0, 1.0, 1e-4)) for f, d in ((6, 5), (12, 10), (6, 40), (54, 10))]
    except (core.Died, ValueError, IndexError, core.Violation) as e:
        ck.violation("a problem cannot be examined: %s" % e, {})
        ck.finish()
    jobs, cj = [], []
    T = ("T", "")

    def hist(spec, opts, ops, depth):
        n = len(ops) ** depth
        for o in opts:
            for k in range(0, n, 1500):
                jobs.append((spec, o, ops, depth, k, min(n, k + 1500)))
        ck.stats.sample("%s: all sequences of %d of %s under %d option strings" % (spec["name"], depth, ops, len(opts)))

    x = 1 if THOROUGH else 0
    hist(A, OPTS, [T, ("E", "p0"), ("E", "p2"), ("M", "p1"), ("M", "p3")], 5 + x)
    hist(A, OPTS[:1], [T, ("E", "p1"), ("E", "nan"), ("M", "p0"), ("M", "p2"), ("M", "p4"), ("M", "inf"), ("M", "nan")], 4 + x)
    hist(cons, OPTS, [T, ("E", "p1"), ("E", "b2"), ("C", "p0"), ("M", "p0"), ("M", "p2"), ("M", "b1")], 4 + x)
    hist(boxed, OPTS[:1], [T, ("E", "p0"), ("E", "out"), ("M", "out"), ("M", "p1")], 4 + x)
    hist(mix, OPTS[:1] + [("log_discrete_as_int: 1", {"dint": 1})], [T, ("E", "p0"), ("E", "neg"), ("M", "neg"), ("M", "p1")], 4)
    hist(large, OPTS[:1], [T, ("E", "p0"), ("E", "p1"), ("M", "p0"), ("M", "p2")], 3)
    for s in wide:
        hist(s, OPTS[:1], [T, ("E", "p0"), ("E", "p2" if "p2" in s["pts"] else "p1"), ("M", "p1"), ("M", "p0")], 3)
    for s in many:
        hist(s, OPTS[:1], [T, ("E", "p0")] + [("M", n) for n in s["pts"] if n[0] in "pb"], 3)
    for s in (A, cons, boxed, mix):
        ops = [T, ("E", "p0"), ("E", "p2"), ("M", "p1"), ("M", "p2")] + ([("C", "p1"), ("M", "b1")] if s is cons else [])
        n = len(ops) ** 4
        for k in range(0, n, 1500):
            cj.append((s, ops, 4, k, min(n, k + 1500)))
    core.explore(ck, work, jobs, exe, chunk=2)
    core.explore(ck, counters, cj, exe, chunk=1)
    ck.assumptions.append("noisy problems' recommendations are decided in C18; complete file contents are compared")
    ck.finish()


core.main(main)
