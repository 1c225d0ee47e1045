"""C02: iteration, index and triple address the same problem; index maps are bijections."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
from core import THOROUGH  # noqa: E402
import suitemodel as sm  # noqa: E402

BIG = True  # cheap enough for the quick tier; the thorough tier adds instances

ck = core.Check("C02")


def look(slot, d, suite):
    """Commands that observe a problem."""
    x = "\t".join(["0.25"] * d)
    y = "\t".join(["%g" % (-3.5 + (k * 1.7) % 6) for k in range(d)])
    c = ["D\t%d" % slot, "W\t%d" % slot, "X\t%d" % slot]
    if suite != "bbob-noisy":
        c += ["E\t%d\t%s" % (slot, x), "E\t%d\t%s" % (slot, y)]
    else:
        c += ["Z", "E\t%d\t%s" % (slot, x), "E\t%d\t%s" % (slot, y)]
    if suite.startswith("bbob-constrained"):
        c += ["C\t%d\t%s" % (slot, x)]
    return c


def sel_item(item, drv, st, viol):
    suite, inst, opts = item
    sel = sm.Selection(suite, inst, opts)
    cfg = {"suite": suite, "instance": inst, "options": opts}
    tr = list(sel.triples())
    byidx = {t[0]: t for t in tr}
    nd, nf, ni = len(sel.ds), len(sel.fs), len(sel.ii)

    def bad(msg):
        raise core.Violation("suite(%r, %r, %r): %s" % (suite, inst, opts, msg), cfg)

    head = "S\t0\t%s\t%s\t%s" % (suite, inst, opts)
    # 1. index arithmetic over the complete index space
    cmds = [head]
    exp = ["ok"]
    for kd, kf, ki in itertools.product(range(nd), range(nf), range(ni)):
        k = (kd * nf + kf) * ni + ki
        cmds += ["e\t0\t%d\t%d\t%d" % (kf, kd, ki), "d\t0\t%d" % k, "i\t0\t%d\t%d\t%d" % (kf, kd, ki)]
        exp += [str(k), "%d\t%d\t%d" % (kf, kd, ki), "%d\t%d\t%d" % (sel.fs[kf], sel.ds[kd], sel.ii[ki])]
    r = drv.run(cmds)
    st.add("transitions", len(cmds))
    for c, e, a in zip(cmds, exp, r):
        if e != a:
            bad("command %r gives %r, expected %r" % (c, a, e))
    # 2. the three access paths, interleaved in every order per problem
    cmds, marks = [head], []
    n = sel.n
    for k in list(range(n)) + [n, n + 1, n + nf, 2 * n, n * 1000, 2 ** 31, 2 ** 32, 2 ** 63 - 1, 2 ** 64 - 1]:
        if k not in byidx:
            marks.append((len(cmds), k, None))
            cmds.append("G\t1\t0\t%d" % k)
    r = drv.run(cmds)
    st.add("transitions", len(cmds))
    for at, k, _ in marks:
        if r[at] != "null":
            bad("get_problem(%d) gives %r, but that index is not in the selection" % (k, r[at]))
    # triples outside the selection
    F = sorted(set(f for f in sel.fs if f) | {1, 2, 24, 101, 130, 200, 0})
    D = sorted(set(d for d in sel.ds if d) | {1, 2, 3, 4, 7, 40, 80, 1000, 0})
    I = sorted(set(i for i in sel.ii if i) | {1, 2, 3, 16, 51, 500, 0})
    have = set((f, d, i) for _, f, d, i in tr)
    outs = [t for t in itertools.product(F, D, I) if t not in have]
    r = drv.run([head] + ["B\t1\t0\t%d\t%d\t%d" % t for t in outs])
    st.add("transitions", len(outs))
    for t, a in zip(outs, r[1:]):
        if a != "null":
            bad("get_problem_by_function_dimension_instance%s gives %r, but it is not in the selection" % (t, a))
    # 3. agreement of the paths
    dup = {}
    for t in tr:
        dup.setdefault(t[1:], []).append(t[0])
    CH = 60
    for c0 in range(0, len(tr), CH):
        cmds = [head]
        if c0:  # bring the iterator there
            cmds += ["N\t0\t0\t-1"] * c0
        spans = []
        for idx, f, d, i in tr[c0:c0 + CH]:
            obs = []
            for path in ("N\t1\t0\t-1", "G\t2\t0\t%d" % idx, "B\t3\t0\t%d\t%d\t%d" % (f, d, i)):
                slot = int(path.split("\t")[1])
                cmds.append(path)
                a = len(cmds)
                cmds += look(slot, d, suite)
                obs.append((a, len(cmds)))
                if path[0] != "N":
                    cmds.append("F\t%d" % slot)
            spans.append(((idx, f, d, i), obs))
        cmds.append("f\t0")
        r = drv.run(cmds, timeout=core.limit(300))
        st.add("transitions", len(cmds))
        st.add("traces_validated_against_impl")
        for t, obs in spans:
            seen = [r[a:b] for a, b in obs]
            m = sm.problem_mismatch(sel.suite, *t, seen[0][0])
            if m:
                bad("iteration: " + m)
            st.state((suite, tuple(seen[0])))
            st.state((suite, tuple(seen[0][3:])), "distinct_value_vectors")
            for name, s in (("coco_suite_get_problem(%d)" % t[0], seen[1]),
                            ("get_problem_by_function_dimension_instance%s" % (t[1:],), seen[2])):
                s2 = s
                if name[0] == "g" and len(dup[t[1:]]) > 1:  # repeated triple: the first of its positions
                    p = s[0].split("\t")
                    if int(p[1]) == min(dup[t[1:]]):
                        p[1] = str(t[0])
                        s2 = ["\t".join(p)] + s[1:]
                for k, (a, b) in enumerate(zip(seen[0], s2)):
                    if a != b:
                        bad("%s differs from the iterated problem f%d d%d i%d in observation %d: %r vs %r" % (name, *t[1:], k, b, a))
    st.sample("%s | %s | %s: %d problems, %d positions, %d foreign triples" % (suite, inst, opts, len(tr), n, len(outs)))


def main():
    exe = core.build_driver()
    cfg = []
    for suite in sm.NAMES + ["bbob-constrained-active-only", "bbob-constrained-no-disguise"]:
        dims, nf, f0, _ = sm.SUITES["bbob-constrained" if suite.startswith("bbob-con") else suite]
        for d in dims:
            if d <= (640 if BIG else 40):
                if nf > 60 and d >= 20:
                    for a in range(1, nf + 1, 23):
                        cfg.append((suite, "instances: 1,15" if BIG else "instances: 3",
                                    "dimensions: %d function_indices: %d-%d" % (d, a, min(nf, a + 22))))
                else:
                    cfg.append((suite, "instances: 1,15" if d < 20 or BIG else "instances: 3", "dimensions: %d" % d))
            else:
                cfg.append((suite, "instances: 3", "dimensions: %d function_indices: 1,2,%d" % (d, nf)))
        cfg.append((suite, "instances: 5,3,9,3", "dimension_indices: 1,3 function_indices: 2,%d" % nf))
        cfg.append((suite, "instances: 1-7", "dimension_indices: 2 function_indices: 1,%d instance_indices: 2,4-5" % (nf // 2)))
        cfg.append((suite, "", "dimension_indices: 2 function_indices: %d instance_indices: -2" % nf))
        cfg.append((suite, "instances: 1-2", "dimension_indices: 2,1"))
    if BIG:
        for r in range(1, 7):
            for c in itertools.combinations(range(1, 7), r):
                cfg.append(("toy", "instances: 4,2,9", "function_indices: %s instance_indices: 1,3" % ",".join(map(str, c))))
    for r in range(1, 6):
        for c in itertools.combinations(range(1, 6), r):
            cfg.append(("toy", "instances: 4,2,9", "dimension_indices: %s function_indices: 2,5" % ",".join(map(str, c))))
            cfg.append(("toy", "instances: 4,2,9,1,3", "instance_indices: %s function_indices: 2,5 dimensions: 3,10" % ",".join(map(str, c))))
    if THOROUGH:
        for suite in sm.NAMES:
            dims, nf, f0, _ = sm.SUITES[suite]
            for d in dims:
                if d <= 40:
                    for i in range(1, 16):
                        cfg.append((suite, "instances: %d,%d" % (i, i + 70), "dimensions: %d" % d))
    cfg = [c for c in cfg if sm.Selection(*c).status == "ok"]
    cfg.sort(key=lambda c: -len(list(sm.Selection(*c).triples())) * max(sm.Selection(*c).ds))
    core.explore(ck, sel_item, cfg, exe, chunk=1)
    ck.extra["selections"] = len(cfg)
    ck.assumptions.append("every index of every explored selection, three access paths per problem, two points per problem; "
                          "%d selections" % len(cfg))
    ck.finish()


core.main(main)
