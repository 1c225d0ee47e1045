"""C07: observers are transparent to the solver: every history of calls, attachments and removals."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
from core import THOROUGH  # noqa: E402

ck = core.Check("C07")
INF = float("inf")
KEY = "recommendation-through-removed-observer-counts"

# observer name, options
OBS = {
    "bbob": ("bbob", "result_folder: b algorithm_name: x"),
    "bbob2": ("bbob", "result_folder: c number_target_triggers: 1 base_evaluation_triggers: \"1,2\" log_discrete_as_int: 1"),
    "old": ("bbob-old", "result_folder: o"),
    "rw": ("rw", "result_folder: r log_variables: all log_constraints: all log_time: 0"),
    "rwb": ("rw", "result_folder: s log_only_better: 1 precision_x: 3 log_variables: none"),
    "toy": ("toy", "result_folder: t"),
    "bi": ("bbob-biobj", "result_folder: d log_nondominated: all log_decision_variables: all"),
    "bi2": ("bbob-biobj", "result_folder: e log_nondominated: final compute_indicators: 0"),
    "none": ("no_observer", ""),
}


def points(dim):
    a = [0.7 - 0.3 * k for k in range(dim)]
    b = [-1.5 + 0.9 * k for k in range(dim)]
    return {"a": a, "b": b, "far": [1e3 + k for k in range(dim)], "inf": [1.0] * (dim - 1) + [-INF], "nan": [float("nan")] + [0.0] * (dim - 1)}


def alphabet(cfg, deep):
    suite, f, dim, inst, obs, ncon = cfg
    ops = [("E", "a"), ("E", "b"), ("E", "inf")] + ([("E", "far"), ("E", "nan")] if deep else [])
    if ncon:
        ops += [("C", "a")] + ([("C", "b"), ("C", "inf")] if deep else [])
    if "noisy" not in suite:
        ops += [("M", "a"), ("M", "nan")]
    ops += [("+", o) for o in obs]
    ops += [("-", "")]
    return ops


def legal(h, obs):
    st = []
    for op, n in h:
        if op == "+":
            if n in st:
                return False
            if n != "none":
                st.append(n)
        elif op == "-":
            if not st:
                return False
            st.pop()
    return True


def work(item, drv, st, viol):
    cfg, ops, depth, lo, hi = item
    suite, f, dim, inst, obs, ncon = cfg
    noisy = "noisy" in suite
    pts = points(dim)
    xs = {n: core.xs(v) for n, v in pts.items()}
    slot = {o: k for k, o in enumerate(obs)}
    S = "S\t0\t%s\tinstances: %d\tdimensions: %d" % (suite, inst, dim)
    G = "B\t%%d\t0\t%d\t%d\t%d" % (f, dim, inst)
    meta = ["W\t1", "X\t1", "t\t1"] + (["w\t1"] if "biobj" in suite else ["v\t1"])
    for h in itertools.islice(itertools.product(ops, repeat=depth), lo, hi):
        if not legal(h, obs) or not any(o == "+" for o, n in h):
            continue
        used = [o for o in obs if ("+", o) in h]
        cmds = [S, G % 1, "Z"]
        for op, n in h:
            if op in "EC":
                cmds += ["%s\t1\t%s" % (op, xs[n]), "Q\t1"]
        cmds += ["D\t1"] + meta + ["F\t1"]
        n1 = len(cmds)
        cmds += [G % 1] + ["O\t%d\t%s\t%s" % (slot[o], OBS[o][0], OBS[o][1]) for o in used] + ["Z"]
        n2 = len(cmds)
        stack = []
        for op, n in h:
            if op in "ECM":
                cmds += ["%s\t1\t%s" % (op, xs[n]), "Q\t1"]
            elif op == "+":
                cmds += ["A\t1\t%d" % slot[n], "Q\t1"]
                if n != "none":
                    stack.append(n)
            else:
                cmds += ["R\t1\t%d" % slot[stack.pop()], "Q\t1"]
        n3 = len(cmds)
        cmds += ["D\t1"] + meta
        n4 = len(cmds)
        while stack:
            cmds += ["R\t1\t%d" % slot[stack.pop()], "Q\t1"]
        n5 = len(cmds)
        cmds += ["D\t1"] + meta + ["F\t1"] + ["o\t%d" % slot[o] for o in used] + ["f\t0"]
        r = drv.run(cmds)

        def bad(what, key=None):
            viol.append(("%s: history %s: %s" % (cfg[:4], h, what), {"key": key, "cfg": cfg, "history": h, "commands": cmds}))

        for w in ("fatal", "assert", "abort", "xmodified"):
            if w in r:
                bad("%s at command %r" % (w, cmds[r.index(w)]))
                break
        else:
            # replay the unobserved run's answers over the observed one; `layers` is what the known defect would give
            q = "0\t0\t0\t1.7976931348623157e+308\t0"
            k, j = 3, n2
            layers = [[0, 0, None]]
            names = []
            ok = True
            feas = {}
            steps = list(h) + [("-", "")] * ((n5 - n4) // 2)
            for idx, (op, n) in enumerate(steps):
                if j == n3:
                    j = n4
                a, qa = r[j], r[j + 1]
                j += 2
                if op in "EC":
                    if a != r[k]:
                        bad("%s %s returns %r, unobserved %r" % (op, n, a, r[k]))
                        ok = False
                        break
                    q = r[k + 1]
                    k += 2
                    fin = all(math.isfinite(v) for v in pts[n])
                    if fin:
                        for L in layers:
                            L[0 if op == "E" else 1] += 1
                elif op == "M":
                    t = len(layers) - 1
                    while t > 0 and names[t - 1] in ("rw", "rwb", "toy", "old"):
                        t -= 1
                    if t > 0 and all(math.isfinite(v) for v in pts[n]):
                        for L in layers[:t]:
                            L[0] += 1
                elif op == "+" and n != "none":
                    layers.append(list(layers[-1]))
                    names.append(n)
                elif op == "-":
                    layers.pop()
                    names.pop()
                if qa != q:
                    e = qa.split("\t")
                    qq = q.split("\t")
                    if e[:2] == [str(layers[-1][0]), str(layers[-1][1])] and int(e[0]) > int(qq[0]) and any(o == "M" for o, _ in steps[:idx]):
                        bad("after step %d (%s %s): counters %r instead of %r" % (idx, op, n, qa, q), KEY)
                    else:
                        bad("after step %d (%s %s): (evaluations, constraint evaluations, target hit, best, tainted) %r, unobserved %r" % (idx, op, n, qa, q))
                    ok = False
                    break
                st.state((cfg[:4], tuple(names), q))
            if ok:
                base = r[n1 - 2 - len(meta):n1 - 1]
                for at in (n3, n5):
                    o = r[at:at + 1 + len(meta)]
                    b0, o0 = base[0].split("\t"), o[0].split("\t")
                    if at == n3:
                        b0, o0 = b0[:-1], o0[:-1]  # the name shows the observers
                    if b0 != o0 or base[1:] != o[1:]:
                        bad("metadata %s %s: %r, unobserved %r" % (meta, "while observed" if at == n3 else "after removal", o, base))
                        break
        st.add("transitions", len(h))
        st.add("traces_validated_against_impl")
        if len([v for v in viol if v[1].get("key") is None]) >= 3:
            return
        # one instance of the known finding per chunk is enough
        kn = [v for v in viol if v[1].get("key") is not None]
        viol[:] = [v for v in viol if v[1].get("key") is None] + kn[:1]


def long_runs(item, drv, st, viol):
    """long histories: the observed problem answers as the unobserved one after each block of calls"""
    suite, f, dim, inst, obs, ncon, scale = item
    pts = points(dim)
    xs = {n: core.xs(v) for n, v in pts.items()}
    mo = "biobj" in suite
    S = "S\t0\t%s\tinstances: %d\tdimensions: %d" % (suite, inst, dim)
    G = "B\t1\t0\t%d\t%d\t%d" % (f, dim, inst)
    blocks = []
    for n, p in ((10, "a"), (90, "far"), (157, "inf"), (900, "b"), (9000, "a"), (56000, "b"), (70000, "a")):
        n = max(1, n // scale)
        blocks += ["x\t1\tE\t%d\t%s" % (n, xs[p]), "Q\t1"]
        if ncon and p != "inf":
            blocks += ["x\t1\tC\t%d\t%s" % (n // 7 + 1, xs[p]), "Q\t1"]
        if p == "b" and not mo:
            blocks += ["k\t1\t%d\t%s\t%s" % (max(1, 5000 // scale), xs["b"], xs["a"]), "Q\t1"]
    tail = ["W\t1", "X\t1", "t\t1"] + (["w\t1"] if mo else ["v\t1"])
    base = [S, G, "Z"] + blocks + tail + ["F\t1"]
    a = drv.run(base + ["f\t0"], timeout=core.limit(120))
    for o in obs:
        cmds = [S, G, "O\t0\t%s\t%s" % OBS[o], "Z", "A\t1\t0"] + blocks + ["R\t1\t0"] + tail + ["F\t1", "o\t0", "f\t0"]
        b = drv.run(cmds, timeout=core.limit(120))
        for k, c in enumerate(blocks):
            if a[3 + k] != b[5 + k]:
                viol.append(("%s observed by %s: %s answers %r in a long run, unobserved %r" % (item[:4], o, c, b[5 + k], a[3 + k]), {"commands": cmds}))
                return
        if a[3 + len(blocks):3 + len(blocks) + len(tail)] != b[6 + len(blocks):6 + len(blocks) + len(tail)]:
            viol.append(("%s observed by %s: %r after a long run, unobserved %r" % (item[:4], o, b[6 + len(blocks):], a[3 + len(blocks):]), {"commands": cmds}))
            return
        st.add("transitions", sum(int(c.split("\t")[3]) for c in blocks if c[0] == "x"))
        st.add("traces_validated_against_impl")
        st.state(("long", item[:4], o))


def main():
    exe = core.build_driver()
    so = ("bbob", "rw", "toy", "none")
    lr = [("bbob", 1, 2, 1, ("bbob", "bbob2", "toy", "old", "none"), 0, 1), ("bbob", 8, 3, 2, ("bbob", "rwb"), 0, 1), ("bbob", 1, 2, 3, ("rw",), 0, 10),
          ("bbob-constrained", 1, 2, 1, ("bbob", "bbob2"), 1, 1), ("bbob-constrained", 9, 3, 1, ("rwb", "toy"), 1, 10), ("bbob-mixint", 2, 5, 1, ("bbob", "rwb"), 0, 10),
          ("bbob-noisy", 101, 2, 1, ("bbob", "rwb"), 0, 10), ("bbob-noisy", 128, 2, 1, ("bbob", "toy"), 0, 10), ("bbob-largescale", 8, 20, 1, ("bbob",), 0, 50),
          ("bbob-boxed", 3, 2, 1, ("bbob", "toy"), 0, 1), ("bbob-biobj", 5, 2, 1, ("bi2", "bi"), 0, 1), ("bbob-biobj-mixint", 6, 5, 2, ("bi", "rw"), 0, 20)]
    core.explore(ck, long_runs, lr, exe, chunk=1)
    cfgs = [("bbob", 1, 2, 1, so, 0), ("bbob", 1, 2, 1, ("bbob", "bbob2", "rwb"), 0), ("bbob", 6, 2, 1, ("old", "rw"), 0),
            ("bbob-constrained", 1, 2, 1, ("bbob", "rw", "bbob2"), 1), ("bbob-constrained", 14, 3, 2, ("bbob", "toy", "rwb"), 1),
            ("bbob-noisy", 101, 2, 1, ("bbob", "rw"), 0), ("bbob-noisy", 122, 2, 1, ("bbob2", "toy"), 0),
            ("bbob-mixint", 2, 5, 1, ("bbob2", "rw"), 0), ("bbob-boxed", 3, 2, 1, ("bbob", "rwb"), 0), ("bbob-largescale", 8, 20, 1, ("bbob", "rw"), 0),
            ("bbob-biobj", 5, 2, 1, ("bi", "rw", "bi2", "none"), 0), ("bbob-biobj-mixint", 6, 5, 2, ("bi", "rw"), 0)]
    jobs = []
    depth = 5 if THOROUGH else 4
    for c in cfgs:
        ops = alphabet(c, False)
        n = len(ops) ** depth
        for k in range(0, n, 2000):
            jobs.append((c, ops, depth, k, min(n, k + 2000)))
        ck.stats.sample("%s: every legal sequence of %d operations of %s" % (c[:4], depth, ops))
    # every problem, observed once, in the middle of a history
    wide = []
    for suite, fs, dims in (("bbob", range(1, 25), (2, 5)), ("bbob-constrained", range(1, 55), (2, 3)), ("bbob-noisy", range(101, 131), (2,)),
                            ("bbob-mixint", range(1, 25), (5,)), ("bbob-boxed", range(1, 25), (2,)), ("bbob-largescale", range(1, 25), (20,)),
                            ("bbob-biobj", range(1, 56), (2,)), ("bbob-biobj-ext", range(56, 93), (2,)), ("bbob-biobj-mixint", range(1, 93), (5,))):
        for f in fs:
            for d in dims:
                wide.append((suite, f, d, 1 + f % 3, ("bi", "rw") if "biobj" in suite else ("bbob", "rw"), int("constrained" in suite)))
    dw = 4 if THOROUGH else 3
    for c in wide:
        ops = alphabet(c, True)
        jobs.append((c, ops, dw, 0, len(ops) ** dw))
    core.explore(ck, work, jobs, exe, chunk=1)
    ck.assumptions.append("all legal sequences of %d operations (evaluate, constraints, recommend, attach, remove) on %d problems with stacks of up to 4 observers, and of %d operations on %d more problems; recommendations on noisy problems are left out (they draw noise)"
                          % (depth, len(cfgs), dw, len(wide)))
    ck.finish()


core.main(main)
