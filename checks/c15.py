"""C15: reconstruction of the indicator data from an archive: every written archive replayed, every feed sequence."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
import biobjlog as bl  # noqa: E402
import biobjrun as br  # noqa: E402
from core import THOROUGH  # noqa: E402

ck = core.Check("C15")
OPTS = [("", {}), ("number_target_triggers: 3 lin_target_precision: 0.1 base_evaluation_triggers: \"1,4\"", {"ntt": 3, "linp": 0.1, "base": (1, 4)})]


def rows(text):
    return [l.split("\t") for l in text.decode("latin-1").split("\n") if l and l[0] != "%"]


def close(a, b):
    return len(a) == len(b) and a[0] == b[0] and all(abs(float(u) - float(v)) <= 1e-10 * max(1, abs(float(u))) for u, v in zip(a[1:], b[1:]))


def one(tree, end):
    m = [v for k, v in tree.items() if k.endswith(end)]
    if len(m) != 1:
        raise core.Violation("%d files *%s in the result folder %s" % (len(m), end, sorted(tree)), {})
    return m[0]


def replay(drv, sp, opt, h, st, viol):
    """observed run with the complete archive, then the archive fed to a fresh problem"""
    cmds = [sp["S"], "O\t0\tbbob-biobj\tlog_nondominated: all %s" % opt[0], sp["G"], "A\t1\t0"] + ["E\t1\t" + sp["xs"][n] for n in h] + ["F\t1", "o\t0", "f\t0"]
    drv.run(cmds)
    t1 = core.read_tree(drv.cwd + "/exdata/default")
    arch = rows(one(t1, "_nondom_all.adat"))
    cmd2 = [sp["S"], "O\t0\tbbob-biobj\tlog_nondominated: read %s" % opt[0], sp["G"], "A\t1\t0"] + ["g\t1\t%s\t%s\t%s" % (a[0], a[1], a[2]) for a in arch] + ["F\t1", "o\t0", "f\t0"]
    r = drv.run(cmd2)
    rep = {"problem": sp["name"], "options": opt[0], "evaluated": h, "archive": arch, "commands": cmds, "reconstruction": cmd2}
    who = "%s, options %r, evaluations %s" % (sp["name"], opt[0], h)
    if r[4:4 + len(arch)] != ["1"] * len(arch):
        viol.append(("%s: feeding the archived solutions %s answers %s instead of 1 each" % (who, arch, r[4:4 + len(arch)]), rep))
        return
    t2 = core.read_tree(drv.cwd + "/exdata/default")
    last = int(arch[-1][0])
    for ext in ("_hyp.dat", "_hyp.tdat"):
        a, b = rows(one(t1, ext)), rows(one(t2, ext))
        if not a or not b or not close(["", a[-1][1]], ["", b[-1][1]]):
            viol.append(("%s: the last value in %s is %s, reconstructed %s" % (who, ext, a[-1:], b[-1:]), rep))
            return
        if ext == "_hyp.dat":  # closing records: at the last evaluation, and at the last archived one
            if int(a[-1][0]) > last:
                a = a[:-1]
            if int(b[-1][0]) != last or (not a or a[-1][0] != b[-1][0]):
                b = b[:-1]
        else:
            a = [x for x in a if int(x[0]) <= last]
            if (not a or int(a[-1][0]) < last) and b and int(b[-1][0]) == last:
                b = b[:-1]
        if len(a) != len(b) or not all(close(x, y) for x, y in zip(a, b)):
            viol.append(("%s: %s holds %s, reconstructed %s" % (who, ext, a, b), rep))
            return
    v1, v2 = (one(t, "_hyp.info").decode("latin-1").split("|")[-1] for t in (t1, t2))
    if abs(float(v1) - float(v2)) > 0.11 * abs(float(v1)):
        viol.append(("%s: final value in .info %s, reconstructed %s" % (who, v1, v2), rep))
    if b" (reconstructed)" not in one(t2, "_hyp.info"):
        viol.append(("%s: the reconstructed .info file is not marked as such" % who, rep))
    st.state((sp["name"], tuple(map(tuple, arch))))
    st.add("transitions", len(cmds) + len(cmd2))
    st.add("traces_validated_against_impl", 2)


def work(item, drv, st, viol):
    sp, opt, ops, depth, lo, hi = item
    for h in itertools.islice(itertools.product(ops, repeat=depth), lo, hi):
        replay(drv, sp, opt, h, st, viol)
        if len(viol) >= 3:
            return


def longer(item, drv, st, viol):
    for sp, opt, h in item:
        replay(drv, sp, opt, h, st, viol)
        if len(viol) >= 3:
            return


GRIDP = [(u, v) for u in (0.213791338, 0.517372917, 1.317713119) for v in (0.113913717, 0.631937737, 1.219137731)] + [(0.519137931, 0.517931391), (0.0, 1.0), (-0.1, 0.4)]
GAPS = (1, 2, 15)


def feeds(item, drv, st, viol):
    """all sequences of solutions (a grid of objective vectors) and gaps between their evaluation numbers"""
    sp, opt, seqs = item
    P = sp["P"]
    for seq in seqs:
        ob = bl.Observer(nondom="read", **opt[1])
        run = bl.Run(ob, P)
        cmds = [sp["S"], "O\t0\tbbob-biobj\tlog_nondominated: read %s" % opt[0], sp["G"], "A\t1\t0"]
        n, exp = 0, []
        for k, (p, g) in enumerate(seq):
            n += 1 if k == 0 else g
            y = [P["ideal"][j] + p[j] * (P["nadir"][j] - P["ideal"][j]) for j in (0, 1)]
            exp.append("1" if run.feed(n, y) else "0")
            cmds.append("g\t1\t%d\t%s" % (n, core.xs(y)))
        run.free()
        cmds += ["F\t1", "o\t0", "f\t0"]
        rep = {"problem": sp["name"], "options": opt[0], "fed": seq, "commands": cmds}
        r = br.finish(drv, cmds, ob, rep, "%s, options %r, fed %s" % (sp["name"], opt[0], seq), st, viol, run.ambiguous)
        if r[4:4 + len(seq)] != exp:
            viol.append(("%s: feeding %s answers %s, expected %s" % (sp["name"], seq, r[4:4 + len(seq)], exp), rep))
        st.state((sp["name"], opt[0], run.nf, round(run.overall, 10)))
        if len(viol) >= 3:
            return


def main():
    exe = core.build_driver()
    drv = core.Driver(exe)
    try:
        A = br.spec(drv, "bbob-biobj", 1, 2, 1)
        B = br.spec(drv, "bbob-biobj", 11, 5, 2)
        X = br.spec(drv, "bbob-biobj-ext", 70, 3, 3)
        M = br.spec(drv, "bbob-biobj-mixint", 1, 5, 1, search=True)
        wide = [br.spec(drv, "bbob-biobj-ext", f, 5, 1 + f % 5) for f in range(1, 93)] + [br.spec(drv, "bbob-biobj-mixint", f, 5, 2) for f in range(1, 93)]
        for ev in ((3, 3), (3, 2), (1, 1)):  # evaluation numbers have to increase
            r = drv.run([A["S"], "O\t0\tbbob-biobj\tlog_nondominated: read", A["G"], "A\t1\t0"] + ["g\t1\t%d\t1\t1" % e for e in ev])
            if r[-1] != "fatal":
                ck.violation("feeding evaluations %s answers %r instead of the error exit" % (ev, r[-1]), {})
    except (core.Died, ValueError, IndexError) as e:
        ck.violation("a problem cannot be examined: %s" % e, {})
        ck.finish()
    jobs = []

    def hist(sp, opts, ops, depth):
        n = len(ops) ** depth
        for o in opts:
            for k in range(0, n, 400):
                jobs.append((sp, o, ops, depth, k, min(n, k + 400)))
        ck.stats.sample("%s: all sequences of %d of the points %s, %d option strings, written and replayed" % (sp["name"], depth, ops, len(opts)))

    x = 1 if THOROUGH else 0
    hist(A, OPTS, ["m", "l", "r", "d", "h", "u"], 4 + x)
    hist(A, OPTS[:1], ["m", "k", "h", "o", "q", "w", "n"], 4 + x)
    hist(B, OPTS, ["m", "l", "d", "h"], 4 + x)
    hist(X, OPTS[:1], ["m", "l", "d", "h"], 4)
    hist(M, OPTS[:1], ["m", "l", "d", "h"], 4)
    for s in wide:
        hist(s, OPTS[:1], ["h", "m", "l"], 3 if THOROUGH else 2)
    core.explore(ck, work, jobs, exe, chunk=2)
    lg = []
    for perm in itertools.permutations(["k", "h", "d", "l", "m"]):
        for gap in (3, 20, 150):
            lg.append((A, OPTS[gap == 20], tuple(itertools.chain.from_iterable([p] + ["k"] * gap for p in perm))))
    core.explore(ck, longer, [lg[k:k + 20] for k in range(0, len(lg), 20)], exe, chunk=1)
    fj = []
    one1 = [(p, g) for p in GRIDP for g in GAPS]
    for sp, opts in ((A, OPTS), (M, OPTS[:1])):
        seqs = [s for s in itertools.product(one1, repeat=3) if s[0][1] == 1]
        few = [GRIDP[k] for k in (0, 2, 4, 6, 9, 10)]
        for gaps in ((1, 100), (100, 1), (65535, 1), (3, 65537), (1000000, 100)):
            seqs += [tuple(zip(c, (1,) + gaps)) for c in itertools.permutations(few, 3)]
        if THOROUGH:
            seqs += [s for s in itertools.product([(p, g) for p in GRIDP for g in (1, 15)], repeat=4) if s[0][1] == 1]
        ck.stats.sample("%s: all sequences of 3 of %d objective vectors with gaps %s" % (sp["name"], len(GRIDP), GAPS))
        for o in opts:
            fj += [(sp, o, seqs[k:k + 300]) for k in range(0, len(seqs), 300)]
    core.explore(ck, feeds, fj, exe, chunk=1)
    ck.assumptions.append("the archive must be complete (log_nondominated: all), as documented; indicator values up to 1e-10")
    ck.finish()


core.main(main)
