"""C01: every suite selection is iterated completely, once each and in order."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
from core import THOROUGH  # noqa: E402
import suitemodel as sm  # noqa: E402

ck = core.Check("C01")


def expect_iteration(suite, inst, opts, drv, st, passes=1):
    """Iterate the real suite completely and compare with the model."""
    sel = sm.Selection(suite, inst, opts)
    cfg = {"suite": suite, "instance": inst, "options": opts}
    if sel.status != "ok":
        r = drv.run(["S\t0\t%s\t%s\t%s" % (suite, inst, opts), "n\t0"])
        want = "null" if sel.status == "null" else sel.status
        if r[0] != want:
            raise core.Violation("coco_suite(%r, %r, %r) gives %s, expected %s" % (suite, inst, opts, r[0], want), cfg)
        st.add("selections_rejected")
        st.add("transitions", 1)
        st.add("traces_validated_against_impl")
        st.state(("rejected", suite, inst, opts))
        return
    seq = list(sel.triples())
    cmds = ["S\t0\t%s\t%s\t%s" % (suite, inst, opts), "n\t0"]
    cmds += (["N\t0\t0\t-1"] * (len(seq) + 1)) * passes
    cmds += ["f\t0"]
    r = drv.run(cmds, timeout=core.limit(180))
    if r[0] != "ok":
        raise core.Violation("coco_suite(%r, %r, %r) gives %s" % (suite, inst, opts, r[0]), cfg)
    if r[1] != str(sel.n):
        raise core.Violation("coco_suite(%r, %r, %r) has %s problems, expected %d" % (suite, inst, opts, r[1], sel.n), cfg)
    k = 2
    for p in range(passes):
        for idx, f, d, i in seq:
            m = sm.problem_mismatch(sel.suite, idx, f, d, i, r[k])
            if m:
                raise core.Violation("suite(%r, %r, %r), pass %d, step %d: got %r where f%d d%d i%d (index %d) is due: %s"
                                     % (suite, inst, opts, p, k - 2, r[k], f, d, i, idx, m), cfg)
            k += 1
        if r[k] != "null":
            raise core.Violation("suite(%r, %r, %r): %r instead of NULL after the last of %d problems"
                                 % (suite, inst, opts, r[k], len(seq)), cfg)
        k += 1
    st.add("transitions", len(cmds))
    st.add("traces_validated_against_impl")
    for t in seq:
        st.state((suite, inst, opts, t))
    st.state((tuple(seq), suite), "distinct_selections")
    st.sample("%s | %s | %s -> %d of %d positions" % (suite, inst, opts, len(seq), sel.n))


def it_one(item, drv, st, viol):
    expect_iteration(*item[:3], drv, st, passes=item[3] if len(item) > 3 else 1)


# --- interleavings of iteration with everything else that touches a suite ------------------------------

OPS = ["N0", "N1", "G0", "B0", "F", "new"]


def inter(item, drv, st, viol):
    """A history over two suites of the same kind: iterate 0, iterate 1, fetch by index, free, create a third."""
    (suite, inst, opts), hist = item
    sel = sm.Selection(suite, inst, opts)
    seq = list(sel.triples())
    cmds, exp = [], []
    for s in (0, 1):
        cmds.append("S\t%d\t%s\t%s\t%s" % (s, suite, inst, opts))
        exp.append(None)
    pos = [0, 0]
    g = 0
    held = False
    for op in hist:
        if op[0] == "N" and op[1].isdigit():
            s = int(op[1])
            cmds.append("N\t%d\t%d\t-1" % (s, s))
            if pos[s] < len(seq):
                exp.append(seq[pos[s]])
                pos[s] += 1
            else:
                exp.append("null")
                pos[s] = 0
        elif op == "G0":
            if held:
                cmds.append("F\t5")
                exp.append("ok")
            t = seq[(g * 2 + 1) % len(seq)]
            g += 1
            cmds.append("G\t5\t0\t%d" % t[0])
            exp.append(t)
            held = True
        elif op == "B0":
            if held:
                cmds.append("F\t5")
                exp.append("ok")
            t = seq[-1]
            cmds.append("B\t5\t0\t%d\t%d\t%d" % (t[1], t[2], t[3]))
            exp.append(t)
            held = True
        elif op == "F":
            if held:
                cmds.append("F\t5")
                exp.append("ok")
            held = False
        elif op == "new":
            cmds += ["S\t3\t%s\t%s\t%s" % (suite, inst, opts), "N\t3\t3\t-1", "f\t3"]
            exp += ["ok", seq[0], "ok"]
    if held:
        cmds.append("F\t5")
        exp.append("ok")
    cmds += ["f\t0", "f\t1"]
    exp += ["ok", "ok"]
    r = drv.run(cmds)
    st.add("transitions", len(hist))
    st.add("interleavings")
    st.add("traces_validated_against_impl")
    st.state((item[0], pos[0], pos[1], held, g), "iterator_states")
    for k, (e, a) in enumerate(zip(exp, r)):
        if e is None:
            continue
        if isinstance(e, str):
            bad = a != e
            m = "expected %s" % e
        else:
            m = sm.problem_mismatch(sel.suite, *e, a)
            bad = m
        if bad:
            raise core.Violation("%s: after %s, command %d (%s) gives %r: %s" % (item[0], " ".join(hist), k, cmds[k], a, m),
                                 {"config": item[0], "history": hist})


def ranges():
    num = [0, 1, 2, 5, 6, 7]
    items = [str(n) for n in num] + ["%d-%d" % (a, b) for a in num for b in num] + ["-%d" % n for n in num] + ["%d-" % n for n in num] + ["-"]
    bad = ["--", "1--2", "1-2-3", "x", "1x", ".", "", "*"]
    return items, bad


def main():
    exe = core.build_driver()
    items, bad = ranges()
    cfg = []
    keys = [("function_indices", "toy", ""), ("instance_indices", "toy", "instances: 3,1,4,1,5,9"),
            ("dimension_indices", "toy", ""), ("dimensions", "bbob", "instances: 1")]
    small = ["0", "1", "6", "2-5", "5-2", "-2", "5-", "-", "7", "--"]
    for key, suite, inst in keys:
        f = "" if key != "dimensions" else " function_indices: 1,24"
        for a in items + bad:
            cfg.append((suite, inst, "%s: %s%s" % (key, a, f)))
        for a in (items if THOROUGH else items[::3]) + bad:
            for b in items + bad:
                cfg.append((suite, inst, "%s: %s,%s%s" % (key, a, b, f)))
        for t in itertools.product(small, repeat=4 if THOROUGH else 3):
            cfg.append((suite, inst, "%s: %s%s" % (key, ",".join(t), f)))
    for a in items + bad:  # explicit instance lists
        cfg.append(("toy", "instances: %s" % a, "function_indices: 1,3 dimensions: 2"))
        for b in items + bad:
            cfg.append(("toy", "instances: %s,%s" % (a, b), "dimension_indices: 1"))
    fd = "function_indices: 1,3 dimensions: 2"
    for n in list(range(1, 40)) + list(range(40, 130)) + [150, 199, 200, 201, 249, 250, 251, 255, 256, 257, 300, 333, 499, 500, 512, 600, 700, 900, 999]:
        # long instance lists: the text grows past every usual buffer size
        lists = [",".join(map(str, range(1, n + 1))), ",".join(map(str, range(n, 0, -1)))]
        if n % 7 == 0 or n in (199, 200, 201, 256, 999):
            lists += [",".join("%d-%d" % (3 * k + 1, 3 * k + 2) for k in range(min(n, 330))), "1-%d" % n, ",".join(["7"] * n), "1-2," + "3," * (n - 1) + "4"]
        for t in lists:
            cfg.append(("toy", "instances: " + t, fd))
            if n % 50 == 0 or n < 10:
                cfg.append(("bbob", "instances: " + t, "function_indices: 24 dimensions: 3"))
                cfg.append(("bbob-constrained", "instances: " + t, "function_indices: 2 dimensions: 2"))
        if n <= 333:
            t = ",".join(str(k % 6 + 1) for k in range(n))
            cfg.append(("toy", "instances: 1-6", "function_indices: " + t))
            cfg.append(("toy", "instances: 3-8", "instance_indices: %s dimension_indices: 1" % t))
            cfg.append(("bbob", "instances: 1-300", "function_indices: 5 dimensions: 2 instance_indices: " + ",".join(map(str, range(n, 0, -1)))))
    for big in ("65535-65540", "99999,100000,100001", "999990-1000010", "2147483640-2147483647", "2147483647", "2147483648", "4294967297", "99999999999999999999"):
        cfg.append(("toy", "instances: " + big, fd))
        cfg.append(("toy", "instances: 5," + big + ",2", fd))
        cfg.append(("toy", "", "instance_indices: 1," + big + " function_indices: 1 dimensions: 2"))
        cfg.append(("toy", "", "function_indices: 1," + big + " dimensions: 2"))
        cfg.append(("toy", "", "dimensions: 2," + big + " function_indices: 2"))
    for r in range(1, 7):  # every non-empty set of dimensions, written in order and in reverse
        for c in itertools.combinations([2, 3, 5, 10, 20, 40], r):
            for s in (c, c[::-1]):
                cfg.append(("bbob", "instances: 7", "dimensions: %s function_indices: 1" % ",".join(map(str, s))))
    for r in range(1, 7):  # every set of functions / of instances of the toy suite
        for c in itertools.combinations(range(1, 7), r):
            s = ",".join(map(str, c))
            cfg.append(("toy", "", "function_indices: " + s, 2))
            cfg.append(("toy", "instances: 11-16", "instance_indices: %s function_indices: 2" % s, 2))
            if max(c) < 6:
                cfg.append(("toy", "", "dimension_indices: " + s, 2))
    # all orders and subsets of the keys, with and without spaces, and with both exclusive keys
    opt = ["dimensions: 2,5,20", "dimension_indices: 1,3-4", "function_indices: 2-3,6", "instance_indices: 1,3"]
    for r in range(1, 5):
        for p in itertools.permutations(opt, r):
            for sep in (" ", "  ", ", "):
                for f in (lambda s: s, lambda s: s.replace(": ", ":"), lambda s: s.replace(":", " : "), lambda s: s.replace(",", " , ")):
                    cfg.append(("toy", "instances: 1-3", f(sep.join(p))))
            cfg.append(("toy", "instances: 1-3", " " + " ".join(p) + " "))
            cfg.append(("toy", "instances: 1-3", "nokey: 5 " + " ".join(p)))
            cfg.append(("toy", "instances: 1-3", " ".join(p) + " nokey: 5"))
    for a, b in itertools.permutations(["instances: 2-4", "year: 2009"]):
        for s in (a, b, a + " " + b, " " + b + " " + a, a.replace(": ", ":")):
            for suite in sm.NAMES + ["bbob-constrained-active-only", "bbob-constrained-no-disguise"]:
                fi = "function_indices: 1 dimension_indices: 1"
                cfg.append((suite, s, fi))
    for suite in sm.NAMES:  # every year
        for y in list(range(2005, 2030)) + [0, 1, 1999, 3000]:
            cfg.append((suite, "year: %d" % y, "function_indices: 1 dimension_indices: 1"))
            cfg.append((suite, "year:%d" % y, "instance_indices: 15 dimension_indices: 1 function_indices: 2"))
    # complete suites: every function and dimension, boundary instances
    for suite in sm.NAMES + ["bbob-constrained-active-only", "bbob-constrained-no-disguise"]:
        dims, nf, f0, _ = sm.SUITES["bbob-constrained" if suite.startswith("bbob-con") else suite]
        # every function and dimension; the iteration visits two instances per function
        for k, d in enumerate(dims):
            if d > 320 and not THOROUGH and False:
                continue
            cfg.append((suite, "instances: 1,15", "dimensions: %d" % d))
        cfg.append((suite, "", "dimension_indices: 1"))
        cfg.append((suite, "instances: 1-80", "dimension_indices: 1 function_indices: %d-" % (nf - 1)))
        cfg.append((suite, "instances: 5", "dimension_indices: 1-2"))
        if THOROUGH:
            for k, d in enumerate(dims):
                if d <= 40:
                    cfg.append((suite, "", "dimensions: %d" % d))
    cfg.append(("bbob", "instances: 1-999", "dimensions: 2 function_indices: 1"))
    seen = set()
    cfg = [c for c in cfg if not (c in seen or seen.add(c))]
    # long ones first so that the workers finish together
    cfg.sort(key=lambda c: (c[0] == "toy", -sum(1 for _ in sm.Selection(*c[:3]).triples()) if sm.Selection(*c[:3]).status == "ok" else 0))
    n_big = sum(1 for c in cfg if c[0] != "toy")
    core.explore(ck, it_one, cfg[:n_big], exe, chunk=4)
    core.explore(ck, it_one, cfg[n_big:], exe)
    # interleavings
    configs = [("toy", "instances: 1-2", "dimensions: 2,5 function_indices: 1,4"),
               ("bbob", "instances: 3,2", "dimensions: 3 function_indices: 2,5"),
               ("bbob-biobj", "instances: 2", "dimensions: 2 function_indices: 1,55")]
    depth = 7 if THOROUGH else 5
    hists = [h for n in range(1, depth + 1) for h in itertools.product(OPS, repeat=n)]
    core.explore(ck, inter, [(configs[0], h) for h in hists], exe, chunk=400)
    h2 = [h for h in hists if len(h) <= depth - 1]
    core.explore(ck, inter, [(c, h) for c in configs[1:] for h in h2], exe, chunk=200)
    # all interleavings of two complete iterations (two passes of a, one of b)
    full = []
    na, nb = (8, 5) if THOROUGH else (7, 4)
    for pos in itertools.combinations(range(na + nb), nb):
        full.append((("bbob", "instances: 3,2", "dimensions: 3 function_indices: 2"),
                     tuple("N1" if i in pos else "N0" for i in range(na + nb))))
    core.explore(ck, inter, full, exe, chunk=50)
    ck.extra["configurations"] = len(cfg)
    ck.assumptions.append("bounds: range strings of up to %d items over {0,1,2,5,6,7}; histories of up to %d operations on two suites; "
                          "complete function x dimension sets of all suites for two instances" % (4 if THOROUGH else 3, depth))
    ck.finish()


core.main(main)
