"""C29: the Java classes show the problems, values, counters and logs of the C library for every history of calls."""
import itertools
import os
import shutil
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
import amalg  # noqa: E402
import iface  # noqa: E402
from core import THOROUGH  # noqa: E402
from iface import both, CONFIGS, OBS, SUITES  # noqa: E402

ck = core.Check("C29")
EXE = [None]


def build():
    d = os.path.join(core.scratch(), "java")
    os.makedirs(d + "/cls")
    src = os.path.join(core.REPO, "build/java")
    files = []
    for f in os.listdir(src):
        if f.endswith(".java"):
            shutil.copy(os.path.join(src, f), d)
            files.append(os.path.join(d, f))
    shutil.copy(os.path.join(core.HERE, "java/Harness.java"), d)
    core.cc(["javac", "-nowarn", "-d", d + "/cls", "-h", d + "/h", *files, d + "/Harness.java"])
    amalg.amalgamate(os.path.join(core.REPO, "src"), d)
    jdk = os.path.dirname(os.path.dirname(os.path.realpath(shutil.which("javac"))))
    core.cc(["gcc", "-w", "-O1", "-g", "-shared", "-fPIC", "-I", jdk + "/include", "-I", jdk + "/include/linux", "-I", d, "-I", d + "/h",
             src + "/CocoJNI.c", "-o", d + "/libCocoJNI.so", "-lm"])
    exe = os.path.join(d, "harness")
    with open(exe, "w") as f:
        f.write("#!/bin/sh\nexec java -XX:+UseSerialGC -XX:TieredStopAtLevel=1 -Xshare:auto -Xmx400m -XX:-UsePerfData -XX:ErrorFile=/dev/null -XX:-CreateCoredumpOnCrash -Xcheck:jni "
                "-Djava.library.path=%s -cp %s/cls Harness /dev/fd/3 3>&1 1>/dev/null\n" % (d, d))
    os.chmod(exe, 0o755)
    return exe


def work(items, drv, st, viol):
    for what, h, fresh in items:
        iface.play(h, drv, EXE[0], st, viol, what, fresh=fresh)
        if len(viol) >= 3:
            return


def calls():
    """every sequence of calls, attachments, removals and restarts on one problem"""
    depth = 4 if THOROUGH else 3
    for suite, f, dim, inst, obs, ncon in CONFIGS:
        xs = {n: core.xs(v) for n, v in iface.points(dim).items()}
        opt = [("E", "opt")] if (suite, f, dim, inst) in iface.OPT else []
        if opt:
            xs["opt"] = core.xs(iface.OPT[suite, f, dim, inst])
        ops = opt + [("E", "a"), ("E", "b"), ("E", "inf"), ("M", "a")] + ([("C", "a")] if ncon else []) + [("+", o) for o in obs] + [("-", ""), ("T", obs[0])]
        for h in itertools.product(ops, repeat=depth):
            stack, out, ok = [], both("S\t0\t%s\tinstances: %d\tdimensions: %d" % (suite, inst, dim), "B\t1\t0\t%d\t%d\t%d" % (f, dim, inst)), True
            for k, o in enumerate(obs):
                out += both("O\t%d\t%s\t%s" % (k, *OBS[o]))
            for op, n in h:
                if op == "+":
                    ok &= n not in stack
                    stack.append(n)
                    out += both("A\t1\t%d" % obs.index(n))
                elif op == "-":
                    if not stack:
                        ok = False
                        break
                    out += both("R\t1\t%d" % obs.index(stack.pop()))
                elif op == "T":
                    out += both("T\t%d\t1" % obs.index(n))
                else:
                    out += both("%s\t1\t%s" % (op, xs[n]), "Q\t1")
            if not ok:
                continue
            out += both("D\t1", "W\t1", "Q\t1") + (both("w\t1") if "biobj" in suite else [(None, "w\t1", "null")])
            while stack:
                out += both("R\t1\t%d" % obs.index(stack.pop()))
            yield "%s f%d d%d | %s" % (suite, f, dim, h), out + [("F\t1", None, None)] + both(*("o\t%d" % k for k in range(len(obs))), "f\t0"), False


def addressing():
    """every function of every suite by its triple, by its index, and triples and indices that do not exist"""
    for suite, (nf, dims) in SUITES.items():
        for d in (dims if THOROUGH else dims[:2]):
            x = core.xs([0.3 - 0.1 * k for k in range(d)])
            x2 = core.xs([4.4 - 0.2 * k for k in range(d)])
            for f in range(0, nf + 2):
                h = both("S\t0\t%s\tinstances: 1-3\tdimensions: %d" % (suite, d), "n\t0")
                for i in (1, 3, 0, 4):
                    h += both("B\t1\t0\t%d\t%d\t%d" % (f, d, i))
                    if 1 <= f <= nf and i in (1, 3):
                        h += both("E\t1\t" + x, "E\t1\t" + x2, "Q\t1", "W\t1") + (both("w\t1") if "biobj" in suite else []) + (both("C\t1\t" + x) if "constrained" in suite else []) + [("F\t1", None, None)]
                    # what does not exist gives no problem
                h += both("B\t1\t0\t%d\t%d\t1" % (f, d + 1))
                for k in (f - 1, 3 * f, 3 * nf + f, 10 ** 9 + f):
                    if k >= 0:
                        h += both("G\t1\t0\t%d" % k)
                        if k < nf * 3:
                            h += both("E\t1\t" + x) + [("F\t1", None, None)]
                yield "%s f%d d%d |" % (suite, f, d), h + both("f\t0"), suite == "bbob-noisy"


def iteration():
    """whole benchmarks: a suite and an observer, every problem evaluated, every way to select the problems"""
    cases = [("bbob", "instances: 1-2", "dimensions: 2,3 function_indices: 1-3", "bbob"), ("bbob", "", "dimensions: 5 function_indices: 8 instance_indices: 1-4", "bbob"),
             ("bbob", "year: 2009", "dimensions: 2 function_indices: 24", "rw"), ("bbob", "", "function_indices: 5 dimension_indices: 1,3", "none"),
             ("bbob-biobj", "instances: 1-3", "dimensions: 2 function_indices: 1,2", "bi"), ("bbob-biobj", "", "dimensions: 3 function_indices: 1", "bi"),
             ("bbob-constrained", "instances: 1", "dimensions: 2 function_indices: 1-8", "bbob"), ("bbob-mixint", "instances: 2", "dimensions: 5 function_indices: 3-5", "bbob"),
             ("bbob-largescale", "instances: 1", "dimensions: 20 function_indices: 6,7", "bbob"), ("bbob-boxed", "instances: 1-2", "dimensions: 2 function_indices: 1-2", "bbob"),
             ("bbob-biobj-mixint", "instances: 1", "dimensions: 5 function_indices: 1-3", "bi"), ("bbob-biobj-ext", "instances: 1", "dimensions: 2 function_indices: 60", "bi"),
             ("toy", "", "", "toy"), ("toy", "", "dimensions: 2", "rw"), ("bbob-noisy", "instances: 1", "dimensions: 2 function_indices: 1-30", "bbob"), ("bbob", "instances: 1", "dimensions: 7", "bbob")]
    for (suite, inst, opts, ob), budget, rounds, fin in itertools.product(cases, (0, 1, 4), (1, 2), ("x", "fo", "of")):
        d0 = both("S\t0\t%s\t%s\t%s" % (suite, inst, opts), "O\t0\t%s\t%s" % OBS[ob])
        yield (suite, inst, opts, ob), d0, budget, rounds, fin


def iterations(drv):
    """iteration() with the number of problems asked of the library"""
    for who, d0, budget, rounds, fin in iteration():
        r = drv.run([c for c, _, _ in d0] + ["n\t0"])
        if r[0] == "null":  # no such suite: the constructor raises an exception
            yield "%s |" % (who,), [(d0[0][0], d0[0][1], "exc")], False
            continue
        # walk once to learn the problems
        n = int(r[-1])
        walk = drv.run([c for c, _, _ in d0[:1]] + ["N\t1\t0\t-1"] * (n + 1))
        probs = [w.split("\t") for w in itertools.takewhile(lambda w: w != "null", walk[1:])]
        h = list(d0) + both("n\t0")
        for _ in range(rounds):
            for p in probs:
                dim = int(p[2])
                pts = [core.xs([0.9 - 0.31 * k + 0.7 * j for k in range(dim)]) for j in range(budget)]
                h += both("N\t1\t0\t0")
                for j, x in enumerate(pts):
                    h += both("E\t1\t" + x, "Q\t1") + (both("C\t1\t" + x) if p[4] != "0" else [])
                    if j == 1 and who[3] not in ("none",):
                        h += both("T\t0\t1")
                    if j == 2 and "noisy" not in who[0]:
                        h += both("M\t1\t" + x)
                h += both("D\t1", "W\t1")
            h += both("N\t1\t0\t0")
        h += {"x": [("o\t0", None, None), ("f\t0", "x\t0\t0", "ok")], "fo": both("f\t0", "o\t0"), "of": both("o\t0", "f\t0")}[fin]
        if who[3] == "none":
            h = [(None if c and c[:2] == "o\t" else c, i, "ok" if c and c[:2] == "o\t" else e) for c, i, e in h]
        yield "%s budget %d rounds %d end %s |" % (who, budget, rounds, fin), h, "noisy" in who[0]


def arguments():
    """vectors of every wrong length raise an exception and leave no trace; strings that are null"""
    for suite, f, dim, inst, obs, ncon in CONFIGS:
        pts = iface.points(dim)
        bad = ["null"] + [core.xs([0.5] * k) for k in list(range(1, dim)) + list(range(dim + 1, dim + 4)) + [2 * dim, 1000]]
        for o in obs + ("none",):
            for op in ("E", "M") + (("C",) if ncon else ()):
                for before in (0, 1):
                    h = both("S\t0\t%s\tinstances: %d\tdimensions: %d" % (suite, inst, dim), "O\t0\t%s\t%s" % OBS[o], "B\t1\t0\t%d\t%d\t%d" % (f, dim, inst), "A\t1\t0")
                    if before:
                        h += both("E\t1\t" + core.xs(pts["a"]))
                    for x in bad:
                        h += [(None, "%s\t1\t%s" % (op, x), "exc")] + both("Q\t1")
                    h += both("E\t1\t" + core.xs(pts["b"]), "Q\t1", "R\t1\t0") + [("F\t1", None, None), ("o\t0", "o\t0", None) if o != "none" else (None, "o\t0", "ok")] + both("f\t0")
                    yield "%s f%d d%d with %s: %s of wrong lengths after %d evaluations |" % (suite, f, dim, o, op, before), h, False
    for a, b, c in itertools.product(("", "<null>", "instances: 2"), ("", "<null>", "dimensions: 3"), ("", "<null>", "result_folder: q")):
        nn = lambda s: "" if s == "<null>" else s
        h = [("S\t0\tbbob\t%s\t%s" % (nn(a), nn(b)), "S\t0\tbbob\t%s\t%s" % (a, b), None), ("O\t0\tbbob\t%s" % nn(c), "O\t0\tbbob\t%s" % c, None)]
        h += both("n\t0", "N\t1\t0\t0")
        if nn(b):
            h += both("E\t1\t" + core.xs([0.1, 0.2, 0.3]))
        yield "null strings %r %r %r |" % (a, b, c), h + both("f\t0", "o\t0"), False
    for lv in ("error", "warning", "info", "debug", "", "nonsense"):
        yield "log level %s |" % lv, both("L\t" + lv, "S\t0\tbbob\t\t", "n\t0", "f\t0", "L\terror"), False
    for s in ("dimensions: 7", "dimensions: 1", "dimensions: 41-50"):
        for q in ("bbob", "bbob-biobj", "bbob-noisy", "toy"):
            yield "suite %s %s |" % (q, s), [("S\t0\t%s\t\t%s" % (q, s), "S\t0\t%s\t\t%s" % (q, s), None)], False


def main():
    drv_exe = core.build_driver()
    EXE[0] = build()
    drv = core.Driver(drv_exe)
    iface.learn(drv)
    items = list(arguments()) + list(addressing()) + list(iterations(drv)) + list(calls())
    # a suite that the library does not make is an exception in Java
    for k, (w, h, fr) in enumerate(items):
        if w.startswith("suite "):
            r = drv.run([h[0][0]])
            items[k] = (w, [(h[0][0], h[0][1], "exc" if r[0] == "null" else None)] + (both("n\t0", "f\t0") if r[0] == "ok" else []), fr)
    drv.close()
    ck.stats.sample("%s: %s" % (items[-1][0], [i for _, i, _ in items[-1][1]]))
    slow = [i for i in items if i[2]]
    fast = [i for i in items if not i[2]]
    core.explore(ck, work, [fast[k:k + 40] for k in range(0, len(fast), 40)] + [slow[k:k + 4] for k in range(0, len(slow), 4)], drv_exe, chunk=1)
    ck.extra["histories"] = len(items)
    ck.assumptions += ["histories that the C library itself ends with an error exit are not run in Java", "the fields of Problem are read through its getters; problems obtained from a suite by triple or index are never freed by the Java classes (a leak, not claimed)"]
    ck.finish()


core.main(main)
