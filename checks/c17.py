"""C17: the taint of a disclosed optimum: every order of disclose / attach / detach / evaluate on two problems."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
from core import THOROUGH  # noqa: E402

ck = core.Check("C17")
OBS = {"bbob": "result_folder: b", "rw": "result_folder: r", "toy": "result_folder: t", "bbob-biobj": "result_folder: d log_nondominated: all"}


def xs(cfg, n):
    d = cfg["dim"]
    return {"a": [0.5 - 0.25 * k for k in range(d)], "b": [1.5 - k for k in range(d)], "nan": [float("nan")] * d}[n]


def legal(cfg, h):
    """Replays the history on the model; returns the expected (tainted flags after each step, index of the error exit)."""
    st = {1: [], 2: []}
    ta = {1: 0, 2: 0}
    out = []
    for k, op in enumerate(h):
        a, p = op[0], op[1]
        if a == "+":
            o = op[2]
            if o in st[1] or o in st[2]:
                return None
            st[p].append(o)
        elif a == "-":
            if not st[p]:
                return None
            st[p].pop()
        elif a == "K":
            if cfg["so"]:
                ta[p] = 1
        elif a == "E":
            if ta[p] and "bbob" in st[p] and all(math.isfinite(v) for v in xs(cfg, op[2])):
                return out, k
        elif a == "G":  # a fresh copy of the same problem
            ta[p] = 0
            st[p] = []
        out.append((ta[1], ta[2]))
    return out, None


def cmds_of(cfg, h):
    slot = {o: k for k, o in enumerate(cfg["obs"])}
    S = "S\t0\t%s\tinstances: 1\tdimensions: %d" % (cfg["suite"], cfg["dim"])
    G = "B\t%%d\t0\t%d\t%d\t1" % (cfg["f"], cfg["dim"])
    cmds = [S, G % 1, G % 2] + ["O\t%d\t%s\t%s" % (slot[o], o, OBS[o]) for o in cfg["obs"]]
    st = {1: [], 2: []}
    at = []
    for op in h:
        a, p = op[0], op[1]
        if a == "+":
            st[p].append(op[2])
            cmds.append("A\t%d\t%d" % (p, slot[op[2]]))
        elif a == "-":
            cmds.append("R\t%d\t%d" % (p, slot[st[p].pop()]))
        elif a == "G":
            st[p] = []
            cmds += ["F\t%d" % p, G % p]
        elif a == "K":
            cmds.append("K\t%d" % p)
        else:
            cmds.append("%s\t%d\t%s" % (a, p, core.xs(xs(cfg, op[2]))))
        at.append(len(cmds) - 1)
        cmds += ["Q\t1", "Q\t2"]
    return cmds, at


def work(item, drv, st, viol):
    cfg, ops, depth, lo, hi = item
    for h in itertools.islice(itertools.product(ops, repeat=depth), lo, hi):
        e = legal(cfg, h)
        if e is None:
            continue
        exp, fatal = e
        if fatal is not None and fatal != depth - 1:
            continue  # its prefix is a shorter history
        if len(viol) >= 3:
            return
        cmds, at = cmds_of(cfg, h)
        r = drv.run(cmds + (["F\t1", "F\t2"] + ["o\t%d" % k for k in range(len(cfg["obs"]))] + ["f\t0"] if fatal is None else []))
        st.add("transitions", len(h))
        st.add("traces_validated_against_impl")
        st.state((cfg["name"], tuple(exp[-1:]), fatal is None))
        what = None
        err = [k for k, a in enumerate(r) if a in ("fatal", "assert", "abort", "nop")]
        if fatal is None and err:
            what = "%s at %r" % (r[err[0]], cmds[err[0]])
        elif fatal is not None and (not err or err[0] != at[fatal] or r[err[0]] != "fatal"):
            what = "evaluating the disclosed problem under the bbob observer is not refused: %r" % r[at[fatal]]
        else:
            for k, (t1, t2) in enumerate(exp):
                q1, q2 = r[at[k] + 1].split("\t")[-1], r[at[k] + 2].split("\t")[-1]
                if (int(q1) != 0, int(q2) != 0) != (bool(t1), bool(t2)):
                    what = "after step %d (%s) tainted is %s, %s instead of %s, %s" % (k, h[k], q1, q2, t1, t2)
                    break
        if not what and fatal is not None:
            after = core.read_tree(drv.dir)
            drv.run(cmds[:at[fatal]])
            before = core.read_tree(drv.dir)
            a = {k: v for k, v in after.items() if k.startswith("exdata/b") }
            b = {k: v for k, v in before.items() if k.startswith("exdata/b")}
            if a != b:
                what = "the refused evaluation changed the data: %s" % [k for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0)]
            st.add("refusals")
        if what:
            viol.append(("%s: %s: %s" % (cfg["name"], h, what), {"history": h, "commands": cmds}))


def alphabet(cfg):
    ops = [("K", 1), ("K", 2), ("E", 1, "a"), ("E", 2, "a"), ("-", 1)]
    ops += [("+", 1, o) for o in cfg["obs"]] + [("+", 2, cfg["obs"][0])]
    return ops


def main():
    exe = core.build_driver()

    def C(suite, f, dim, obs):
        return dict(name="%s f%d d%d" % (suite, f, dim), suite=suite, f=f, dim=dim, obs=obs, so="biobj" not in suite)
    jobs = []

    def add(cfg, ops, depth):
        n = len(ops) ** depth
        for k in range(0, n, 3000):
            jobs.append((cfg, ops, depth, k, min(n, k + 3000)))
        ck.stats.sample("%s: all sequences of %d of %s" % (cfg["name"], depth, ops))

    x = 1 if THOROUGH else 0
    for cfg in (C("bbob", 1, 2, ("bbob", "rw")), C("bbob-constrained", 2, 2, ("bbob", "toy"))):
        for d in range(1, 6 + x):
            add(cfg, alphabet(cfg), d)
    c = C("bbob", 3, 2, ("bbob", "rw"))
    full = [("K", 1), ("E", 1, "a"), ("E", 1, "nan"), ("M", 1, "b"), ("+", 1, "bbob"), ("+", 1, "rw"), ("-", 1), ("G", 1)]
    for d in range(1, 6 + x):
        add(c, full, d)
    for cfg in (C("bbob-mixint", 1, 5, ("bbob", "rw")), C("bbob-noisy", 103, 2, ("bbob", "toy")), C("bbob-boxed", 2, 2, ("bbob", "rw")), C("bbob-largescale", 1, 20, ("bbob", "rw"))):
        for d in range(1, 5):
            add(cfg, alphabet(cfg), d)
    cfg = C("bbob-biobj", 1, 2, ("bbob-biobj", "rw"))
    for d in range(1, 5):
        add(cfg, alphabet(cfg), d)
    # every problem: untainted when created, used, observed; tainted by the disclosure
    for suite, fs, dims in (("bbob", range(1, 25), (2, 3, 5, 10)), ("bbob-constrained", range(1, 55), (2, 3, 5)), ("bbob-noisy", range(101, 131), (2, 5)), ("bbob-mixint", range(1, 25), (5, 10)),
                            ("bbob-boxed", range(1, 25), (2, 5)), ("bbob-largescale", range(1, 25), (20,))):
        for f in fs:
            for dim in dims:
                cfg = C(suite, f, dim, ("bbob", "rw"))
                for d in range(1, 4):
                    jobs.append((cfg, [("K", 1), ("E", 1, "a"), ("+", 1, "bbob"), ("-", 1), ("E", 2, "a")], d, 0, 5 ** d))
    core.explore(ck, work, jobs, exe, chunk=4)
    ck.assumptions.append("disclosures are made through the problem the solver holds (its outermost layer); recommendations on noisy problems are left out")
    ck.finish()


core.main(main)
