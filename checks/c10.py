"""C10: the data set of an experiment: .info index and data files for every sequence of runs, one or two observers."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
import bbobmodel as bm  # noqa: E402
import bbobrun as br  # noqa: E402
from core import THOROUGH  # noqa: E402

ck = core.Check("C10")
SP = {}
LV = (90.0, 3.0, 1e-3)


def get(key):
    return SP[key]


def open_cmd(key, slot, mode="B"):
    s, f, d, i = key
    return "B\t%d\t%d\t%d\t%d\t%d" % (slot, SUITES[s], f, d, i)


SUITES = {"bbob": 0, "bbob-constrained": 1, "bbob-mixint": 2}
HEAD = ["S\t0\tbbob\tinstances: 1-3\t", "S\t1\tbbob-constrained\tinstances: 1-3\t", "S\t2\tbbob-mixint\tinstances: 1-3\t"]


def op_cmd(run, spec, op, pslot, oslot):
    c = br.apply(run, spec, op).split("\t")
    if c[0] == "T":
        return "T\t%d\t%d" % (oslot, pslot)
    c[1] = str(pslot)
    return "\t".join(c)


def compare(drv, cmds, r, obs, what, viol, st):
    rep = {"runs": what, "commands": cmds}
    for w in ("fatal", "assert", "abort", "xmodified", "nop", "null"):
        if w in r:
            viol.append(("%s: %s at command %r" % (what, w, cmds[r.index(w)]), rep))
            return
    tree = core.read_tree(drv.cwd + "/exdata")
    seen = set()
    for folder, ob in obs.items():
        sub = {k[len(folder) + 1:]: v for k, v in tree.items() if k.startswith(folder + "/") and v is not None}
        seen.update(k for k in tree if k.startswith(folder + "/"))
        d = bm.diff(ob.files, sub)
        if d:
            viol.append(("%s: folder %s: %s" % (what, folder, d), rep))
            return
    rest = [k for k in tree if k not in seen and not any((f + "/").startswith(k) for f in obs)]
    if rest:
        viol.append(("%s: unexpected files %s" % (what, rest), rep))
    st.add("traces_validated_against_impl")


def seq(item, drv, st, viol):
    """one observer, every sequence of runs"""
    alphabet, n, lo, hi, opt = item
    for runs in itertools.islice(itertools.product(alphabet, repeat=n), lo, hi):
        ob = bm.Observer(**opt[1])
        cmds = HEAD + ["O\t0\tbbob\t" + opt[0]]
        for key, ops, end in runs:
            sp = get(key)
            cmds += [open_cmd(key, 1), "A\t1\t0"]
            run = bm.Run(ob, sp["P"])
            for op in ops:
                cmds.append(op_cmd(run, sp, op, 1, 0))
            run.free()
            cmds += ["F\t1"] if end == "F" else ["R\t1\t0", "F\t1"]
            st.add("transitions", 1 + len(ops))
        cmds += ["o\t0", "f\t0", "f\t1", "f\t2"]
        r = drv.run(cmds)
        compare(drv, cmds, r, {"default" if "result_folder" not in opt[0] else "R/q": ob}, "%s %s" % (opt[0], [(k, len(o), e) for k, o, e in runs]), viol, st)
        st.state(tuple((k, len(o)) for k, o, e in runs))
        if viol:
            return


def steps_of(slot, oslot, key, ops, end):
    """the atomic steps of a run, as (kind, payload)"""
    return [("open", key, slot, oslot)] + [("op", op, slot, oslot) for op in ops] + [("end", end, slot, oslot)]


def interleave(item, drv, st, viol):
    """two observers (same requested folder), each with its own runs; all interleavings of the steps"""
    ra, rb = item
    A = sum((steps_of(1, 0, *x) for x in ra), [])
    B = sum((steps_of(2, 1, *x) for x in rb), [])
    n = len(A) + len(B)
    for pick in itertools.combinations(range(n), len(A)):
        pick = set(pick)
        obs = [bm.Observer(), bm.Observer()]
        cmds = HEAD + ["O\t0\tbbob\t", "O\t1\tbbob\t"]
        ia = ib = 0
        runs = {}
        for k in range(n):
            if k in pick:
                s = A[ia]
                ia += 1
            else:
                s = B[ib]
                ib += 1
            kind, arg, slot, os_ = s
            if kind == "open":
                cmds += [open_cmd(arg, slot), "A\t%d\t%d" % (slot, os_)]
                runs[slot] = (bm.Run(obs[os_], get(arg)["P"]), get(arg))
            elif kind == "op":
                cmds.append(op_cmd(runs[slot][0], runs[slot][1], arg, slot, os_))
            else:
                runs[slot][0].free()
                cmds += ["F\t%d" % slot] if arg == "F" else ["R\t%d\t%d" % (slot, os_), "F\t%d" % slot]
        cmds += ["o\t1", "o\t0", "f\t0", "f\t1", "f\t2"]
        r = drv.run(cmds)
        compare(drv, cmds, r, {"default": obs[0], "default-0001": obs[1]}, "%s %s order %s" % (ra, rb, sorted(pick)), viol, st)
        st.add("transitions", n)
        if viol:
            return


def suite_run(item, drv, st, viol):
    """a whole experiment through coco_suite_get_next_problem(suite, observer)"""
    suite, inst, opts, nev, free = item
    import suitemodel as sm
    triples = [t[1:] for t in sm.Selection(suite, inst, opts).triples()]
    ob = bm.Observer()
    cmds = ["S\t0\t%s\t%s\t%s" % (suite, inst, opts), "O\t0\tbbob\t"]
    n = 0
    for f, d, i in triples:
        sp = get((suite, f, d, i))
        run = bm.Run(ob, sp["P"])
        cmds.append("N\t1\t0\t0")
        for k in range((n * 7 + nev) % 4 if nev else 0):
            cmds.append(op_cmd(run, sp, ("E", "p%d" % ((n + k) % 3)), 1, 0))
            st.add("transitions")
        run.free()
        n += 1
    cmds.append("N\t1\t0\t0")
    cmds += ["o\t0", "f\t0"]
    r = drv.run(cmds)
    if r[-3] != "null":
        viol.append(("%s: the iteration does not end: %r" % (item, r[-3]), {"commands": cmds}))
        return
    compare(drv, cmds, r[:-3] + ["ok", "ok", "ok"], {"default": ob}, "experiment %s" % (item,), viol, st)


BIG = list(range(1, 61)) + [101, 102, 103, 127, 128, 255, 256, 999, 1000, 9999, 10007, 65535, 65536, 99999, 1000000, 10000000]


def many(item, drv, st, viol):
    """long experiments under one observer: many instances in one block, many blocks of the same function and dimension"""
    what, suite, keys = item
    insts = sorted({k[2] for k in keys})
    head = "S\t0\t%s\tinstances: %s\t" % (suite, ",".join(str(i) for i in insts))
    ob = bm.Observer()
    cmds, specs = [head, "O\t0\tbbob\t"], {}
    for n, (f, d, i) in enumerate(keys):
        if (f, d, i) not in specs:
            specs[(f, d, i)] = br.spec(drv, suite, f, d, i, LV)
        sp = specs[(f, d, i)]
        cmds += ["B\t1\t0\t%d\t%d\t%d" % (f, d, i), "A\t1\t0"]
        run = bm.Run(ob, sp["P"])
        for k in range(n % 3 if what.endswith("gaps") else 1 + n % 2):
            cmds.append(op_cmd(run, sp, ("E", "p%d" % ((n + k) % 3)), 1, 0))
            st.add("transitions")
        run.free()
        cmds += ["F\t1"] if n % 2 else ["R\t1\t0", "F\t1"]
    cmds += ["o\t0", "f\t0"]
    r = drv.run(cmds)
    compare(drv, cmds, r, {"default": ob}, "long experiment: %s, %s" % (suite, what), viol, st)
    st.state((what, suite, len(keys)))


def many_items():
    out = []
    for suite, fs, d1, d2 in (("bbob", (1, 8, 24), 2, 3), ("bbob-constrained", (1, 7, 53), 2, 3), ("bbob-mixint", (1, 17), 5, 10)):
        for f in fs:
            out.append(("one function and dimension, %d instances" % len(BIG), suite, [(f, d1, i) for i in BIG]))
            out.append(("one function and dimension, instances falling, gaps", suite, [(f, d1, i) for i in BIG[::-1]]))
        out.append(("returns between dimensions", suite, [(fs[0], (d1, d2)[n % 2], n // 2 + 1) for n in range(64)]))
        out.append(("returns between functions, gaps", suite, [((fs[0], fs[1])[n % 2], d1, n // 2 + 1) for n in range(230 if suite == "bbob" else 64)]))
        out.append(("the same instance again and again", suite, [(fs[0], d1, 1)] * 70))
        out.append(("the same instance again and again, between others, gaps", suite, [(fs[0], d1, 1 + (n % 5 == 4)) for n in range(70)]))
        out.append(("every function, then again", suite, [(f, d1, i) for i in (1, 2, 3) for f in range(1, 25)]))
        out.append(("every function, both dimensions in turn", suite, [(f, (d1, d2)[(n + f) % 2], n) for n in (1, 2, 3) for f in range(1, 25)]))
        if suite == "bbob":
            out.append(("every function, then again", "toy", [(f, d, 1) for k in (1, 2) for d in (2, 5) for f in range(1, 7)]))
            for other, top, d in (("bbob-largescale", 24, 20), ("bbob-boxed", 24, 2)):
                out.append(("every function, gaps", other, [(f, d, i) for i in (2, 1) for f in range(1, top + 1)]))
        out.append(("every dimension", suite, [(fs[1], d, i) for i in (1, 15, 2) for d in ((2, 3, 5, 10, 20, 40) if d1 == 2 else (5, 10, 20, 40, 80))]))
    return out


def second_open(item, drv, st, viol):
    """only one problem per observer may be open: the second one is refused, nothing finished is damaged"""
    k1, k2, nev = item
    ob = bm.Observer()
    cmds = HEAD + ["O\t0\tbbob\t", open_cmd(k1, 1), "A\t1\t0"]
    run = bm.Run(ob, get(k1)["P"])
    for j in range(nev):
        cmds.append(op_cmd(run, get(k1), ("E", "p%d" % (j % 3)), 1, 0))
    cmds += ["R\t1\t0"]
    run.free()
    run2 = bm.Run(ob, get(k1)["P"])
    cmds += ["A\t1\t0", open_cmd(k2, 2), "A\t2\t0"]
    r = drv.run(cmds)
    if r[-1] != "fatal" or "fatal" in r[:-1]:
        viol.append(("a second problem %s was opened while %s was observed: %r" % (k2, k1, r[-1]), {"commands": cmds}))
        return
    tree = core.read_tree(drv.cwd + "/exdata/default")
    d = bm.diff(ob.files, {k: v for k, v in tree.items()})
    if d:
        viol.append(("after refusing %s while %s is open: %s" % (k2, k1, d), {"commands": cmds}))
    st.add("transitions", nev + 3)
    st.add("traces_validated_against_impl")


def main():
    exe = core.build_driver()
    drv = core.Driver(exe)
    B = "bbob"
    E = [("E", "p0"), ("E", "p1"), ("E", "p2")]
    try:
        for key in [(B, f, d, i) for f in (1, 2, 24) for d in (2, 3, 20) for i in (1, 2, 3)] + \
                [("bbob-constrained", f, d, i) for f in (1, 2) for d in (2, 3) for i in (1, 2)] + [("bbob-mixint", 1, 5, 1), ("bbob-mixint", 1, 5, 2)]:
            SP[key] = br.spec(drv, key[0], key[1], key[2], key[3], LV)
    except (core.Died, ValueError, IndexError, core.Violation) as e:
        ck.violation("a problem cannot be examined: %s" % e, {})
        ck.finish()
    base = [((B, 1, 2, 1), E[:1], "F"), ((B, 1, 2, 2), E[:2], "R"), ((B, 1, 3, 1), E[1:], "F"), ((B, 2, 2, 1), E[:2], "F"),
            ((B, 1, 2, 1), [], "F"), ((B, 2, 2, 3), [("M", "p1")], "F"), ((B, 2, 3, 1), [("E", "p0"), ("T", ""), ("M", "p1"), ("E", "p1")], "R")]
    jobs = []
    nr = 6 if THOROUGH else 5
    n = len(base) ** nr
    for k in range(0, n, 400):
        jobs.append((base, nr, k, min(n, k + 400), ("", {})))
    two = [((B, 1, 2, 1), E[:1], "F"), ((B, 1, 3, 1), E[1:], "F")]  # returning to a function and dimension again and again
    nt = 13 if THOROUGH else 11
    for k in range(0, 2 ** nt, 256):
        jobs.append((two, nt, k, min(2 ** nt, k + 256), ("", {})))
    mixed = [((B, 1, 2, 1), E[:1], "F"), (("bbob-constrained", 1, 2, 1), [("C", "p0")] + E[:2], "F"), (("bbob-mixint", 1, 5, 1), E[:1], "F"), (("bbob-constrained", 2, 2, 1), E[:1], "R")]
    for opt in (("prefix: zz algorithm_name: me result_folder: R/q", {"prefix": "zz", "alg": "me"}), ("", {})):
        n = len(mixed) ** 4
        for k in range(0, n, 400):
            jobs.append((mixed, 4, k, min(n, k + 400), opt))
    ck.stats.sample("all sequences of %d runs of %s" % (nr, [(k, len(o), e) for k, o, e in base]))
    core.explore(ck, seq, jobs, exe, chunk=1)
    a1, a2 = ((B, 1, 2, 1), E[:2], "F"), ((B, 1, 2, 2), E[:1], "R")
    b1, b2 = ((B, 1, 2, 1), E[1:], "F"), ((B, 2, 3, 1), E[:1], "F")
    il = [((a1,), (b1,)), ((a1,), (b2,)), ((a1, a2), (b1,)), ((a1, a2), (b2,)), ((a2,), (b1, b2))]
    if THOROUGH:
        il += [((a1, a2), (b1, b2)), ((a1, b2), (a1, b1))]
    core.explore(ck, interleave, il, exe, chunk=1)
    se = []
    for suite, inst, opt in ((B, "instances: 1-3", "dimensions: 2,3 function_indices: 1,2,24"), (B, "instances: 2", "dimensions: 20 function_indices: 1,2"),
                             (B, "instances: 3,1", "dimensions: 3,2,20 function_indices: 2,1"), ("bbob-constrained", "instances: 1-2", "dimensions: 2,3 function_indices: 1,2")):
        for nev in (0, 1, 2, 3):
            se.append((suite, inst, opt, nev, "F"))
    core.explore(ck, suite_run, se, exe, chunk=1)
    core.explore(ck, many, many_items(), exe, chunk=1)
    core.explore(ck, second_open, [(x, y, k) for x in list(SP)[:4] for y in list(SP)[:12] for k in (0, 1, 3)], exe, chunk=4)
    ck.assumptions.append("sequences of %d runs from an alphabet of %d, all interleavings of two observers' runs, whole experiments through the suite iterator" % (nr, len(base)))
    ck.finish()


core.main(main)
