"""C31: the MATLAB/Octave functions show the problems, values, counters and logs of the C library for every history of
calls. The gateway cocoCall.c is compiled from the working tree against a stand-in for mex.h; each function is called
through what its .m file passes on to the gateway."""
import itertools
import os
import re
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
import amalg  # noqa: E402
import iface  # noqa: E402
from core import THOROUGH  # noqa: E402
from iface import both, CONFIGS, OBS, SUITES  # noqa: E402

ck = core.Check("C31")
EXE = [None]
IDX = {}


def first(suite, f, dim, inst):
    """the problem of a configuration"""
    return [("B\t1\t0\t%d\t%d\t%d" % (f, dim, inst), "G\t1\t0\t%d" % IDX[suite, f, dim, inst], None)]


# function: (number of arguments, has a result)
API = {"cocoEvaluateConstraint": (2, 1), "cocoEvaluateFunction": (2, 1), "cocoObserver": (2, 1), "cocoObserverFree": (1, 0), "cocoObserverSignalRestart": (2, 0),
       "cocoProblemAddObserver": (2, 1), "cocoProblemFinalTargetHit": (1, 1), "cocoProblemFree": (1, 0), "cocoProblemGetBestValue": (1, 1), "cocoProblemGetDimension": (1, 1),
       "cocoProblemGetEvaluations": (1, 1), "cocoProblemGetEvaluationsConstraints": (1, 1), "cocoProblemGetId": (1, 1), "cocoProblemGetInitialSolution": (1, 1),
       "cocoProblemGetLargestFValuesOfInterest": (1, 1), "cocoProblemGetLargestValuesOfInterest": (1, 1), "cocoProblemGetName": (1, 1),
       "cocoProblemGetNumberOfConstraints": (1, 1), "cocoProblemGetNumberOfIntegerVariables": (1, 1), "cocoProblemGetNumberOfObjectives": (1, 1),
       "cocoProblemGetSmallestValuesOfInterest": (1, 1), "cocoProblemIsValid": (1, 1), "cocoProblemRemoveObserver": (2, 1), "cocoRecommendSolution": (2, 0), "cocoSetLogLevel": (1, 1),
       "cocoSuite": (3, 1), "cocoSuiteFree": (1, 0), "cocoSuiteGetNextProblem": (2, 1), "cocoSuiteGetProblem": (2, 1)}


def wrapper(name):
    """what the .m file of the function does: (gateway function, positions of its arguments, whether there is a result).
    A file that is not one plain call of cocoCall is taken to do what its documentation says."""
    n, out = API[name]
    plain = (name, list(range(n)), out)
    try:
        with open(os.path.join(core.REPO, "build/matlab", name + ".m"), encoding="latin-1") as f:
            text = f.read()
    except OSError:
        return plain
    text = re.sub(r"\.\.\.[^\n]*\n", " ", re.sub(r"^\s*%.*$", "", text, flags=re.M))
    m = re.match(r"\s*function\s+(?:\[?\s*(\w+)\s*\]?\s*=\s*)?(\w+)\s*\(([^)]*)\)\s*;?\s*\n\s*(?:\[?\s*(\w+)\s*\]?\s*=\s*)?cocoCall\(\s*['\"](\w+)['\"]\s*,([^;()]*)\)\s*;?\s*(?:%[^\n]*)?\s*(?:end\s*;?\s*)?$", text)
    if not m:
        ck.extra["wrappers_not_read"] = ck.extra.get("wrappers_not_read", 0) + 1
        return plain
    res, _, params, to, gw, args = m.groups()
    params, args = [p.strip() for p in params.split(",")], [a.strip() for a in args.split(",")]
    if any(a not in params for a in args) or len(params) != n:
        ck.extra["wrappers_not_read"] = ck.extra.get("wrappers_not_read", 0) + 1
        return plain
    return gw, [params.index(a) for a in args], 1 if res and res == to else 0


def build():
    d = os.path.join(core.scratch(), "matlab")
    os.makedirs(d)
    amalg.amalgamate(os.path.join(core.REPO, "src"), d)
    shutil.copy(os.path.join(core.REPO, "build/matlab/cocoCall.c"), d)
    for f in ("mex.h", "harness.c"):
        shutil.copy(os.path.join(core.HERE, "matlab", f), d)
    with open(d + "/wrappers.h", "w") as f:
        for name in sorted(API):
            gw, perm, out = wrapper(name)
            f.write('{"%s", "%s", %d, {%s}, %d},\n' % (name, gw, API[name][0], ", ".join(str(v) for v in (perm + [-1] * 4)[:4]), out))
    core.cc(["gcc", "-w", "-O1", "-g", core.ASAN, "-D_GNU_SOURCE", "-I", d, d + "/harness.c", "-o", d + "/harness", "-lm"])
    exe = os.path.join(d, "run")
    with open(exe, "w") as f:
        f.write("#!/bin/sh\nexec %s/harness /dev/fd/3 3>&1 1>/dev/null\n" % d)
    os.chmod(exe, 0o755)
    return exe


def work(items, drv, st, viol):
    live = None
    for what, h in items:
        iface.play(h, drv, EXE[0], st, viol, what)
        if len(viol) >= 3:
            return
        # everything was freed through the interface: the heap is as it was before
        left, now = (int(v) for v in iface.other(EXE[0]).run(["$"])[0].split())
        if live is not None and left == 0:
            st.add("heap_balances")
            if now > live:
                iface.play(h, drv, EXE[0], st, viol, what)  # once more: not what is allocated only once
                left, more = (int(v) for v in iface.other(EXE[0]).run(["$"])[0].split())
                if more > now and left == 0:
                    viol.append(("%s: %d bytes stay allocated after everything was freed" % (what, more - now), {"history": what, "interface": [i for _, i, _ in h if i is not None]}))
                    return
                now = more
        live = now


def meta(suite):
    return both("D\t1", "W\t1", "X\t1", "Q\t1") + (both("w\t1") if "biobj" in suite else [(None, "w\t1", "exc")] + both("v\t1"))


def calls():
    depth = 4 if THOROUGH else 3
    for suite, f, dim, inst, obs, ncon in CONFIGS:
        xs = {n: core.xs(v) for n, v in iface.points(dim).items()}
        opt = [("E", "opt")] if (suite, f, dim, inst) in iface.OPT else []
        if opt:
            xs["opt"] = core.xs(iface.OPT[suite, f, dim, inst])
        ops = opt + [("E", "a"), ("Ec", "b"), ("E", "inf"), ("E", "nan"), ("M", "a"), ("Mc", "b")] + ([("C", "a"), ("Cc", "nan")] if ncon else []) + [("+", o) for o in obs] + [("-", ""), ("T", obs[0])]
        for h in itertools.product(ops, repeat=depth):
            for end in ("pos", "ops", "pso"):
                S = "S\t0\t%s\tinstances: %d\tdimensions: %d function_indices: %d" % (suite, inst, dim, f)
                stack, out, ok = [], both(S) + first(suite, f, dim, inst), True
                for k, o in enumerate(obs):
                    out += both("O\t%d\t%s\t%s" % (k, *OBS[o]))
                for op, n in h:
                    if op == "+":
                        ok &= n not in stack
                        stack.append(n)
                        out += both("A\t1\t%d" % obs.index(n))
                    elif op == "-":
                        if not stack:
                            ok = False
                            break
                        out += both("R\t1\t%d" % obs.index(stack.pop()))
                    elif op == "T":
                        out += both("T\t%d\t1" % obs.index(n))
                    else:
                        out += [("%s\t1\t%s" % (op[0], xs[n]), "%s\t1\t%s" % (op, xs[n]), None)] + both("Q\t1")
                if not ok or (end != "pos" and not stack):
                    continue
                out += meta(suite)
                for e in end:
                    out += both(*{"p": ["F\t1"], "o": ["o\t%d" % k for k in range(len(obs))], "s": ["f\t0"]}[e])
                yield "%s f%d d%d | %s end %s" % (suite, f, dim, h, end), out


def addressing(drv):
    for suite, (nf, dims) in SUITES.items():
        for d in (dims if THOROUGH else dims[:2]):
            S = "S\t0\t%s\tinstances: 1-3\tdimensions: %d" % (suite, d)
            at = [k for k, r in enumerate(drv.run([S] + ["G\t1\t0\t%d" % k for k in range(nf * 3 * 8)])[1:]) if r != "null"]
            if len(at) != 3 * nf:
                raise core.Violation("suite %s instances 1-3 dimension %d: %d of %d problems are found by index" % (suite, d, len(at), 3 * nf), {"suite": S})
            x = core.xs([0.3 - 0.1 * k for k in range(d)])
            x2 = core.xs([4.4 - 0.2 * k for k in range(d)])
            for f in range(0, nf):
                h = both(S)
                for k in (at[3 * f], at[3 * f + 1], at[3 * f + 2], at[-1] + 1 + f, (at[0] + 7) % at[0] if at[0] else 10 ** 7, 10 ** 9 + f):
                    h += both("G\t1\t0\t%d" % k)
                    if k in at:
                        h += both("E\t1\t" + x, "E\t1\t" + x2) + (both("C\t1\t" + x) if "constrained" in suite else []) + meta(suite) + both("F\t1")
                yield "%s f%d d%d |" % (suite, f, d), h + both("f\t0")


CASES = [("bbob", "instances: 1-2", "dimensions: 2,3 function_indices: 1-3", "bbob"), ("bbob", "", "dimensions: 5 function_indices: 8 instance_indices: 1-4", "rw"),
         ("bbob", "year: 2009", "dimensions: 2 function_indices: 24", "bbob"), ("bbob", "", "function_indices: 5 dimension_indices: 1,3", None),
         ("bbob-biobj", "instances: 1-3", "dimensions: 2 function_indices: 1,2", "bi"), ("bbob-constrained", "instances: 1", "dimensions: 2 function_indices: 1-8", "bbob"),
         ("bbob-mixint", "instances: 2", "dimensions: 5 function_indices: 3-5", "bbob"), ("bbob-largescale", "instances: 1", "dimensions: 20 function_indices: 6,7", "bbob"),
         ("bbob-boxed", "instances: 1-2", "dimensions: 2 function_indices: 1-2", "none"), ("bbob-biobj-mixint", "instances: 1", "dimensions: 5 function_indices: 1-3", "bi"),
         ("bbob-noisy", "instances: 1-2", "dimensions: 2 function_indices: 1-3", "bbob"), ("toy", "", "dimensions: 2", "toy"), ("bbob", "instances: 1", "dimensions: 7", "bbob")]


def iterations(drv):
    for (suite, inst, opts, ob), budget, rounds, end in itertools.product(CASES, (0, 1, 4), (1, 2), ("so", "os", "early")):
        S = "S\t0\t%s\t%s\t%s" % (suite, inst, opts)
        r = drv.run([S, "n\t0"])
        if r[0] == "null":
            yield "%s %s %s |" % (suite, inst, opts), both(S)
            continue
        walk = drv.run([S] + ["N\t1\t0\t-1"] * (int(r[1]) + 1))
        probs = [w.split("\t") for w in itertools.takewhile(lambda w: w != "null", walk[1:])]
        h = both(S) + (both("O\t0\t%s\t%s" % OBS[ob]) if ob else [])
        real = ob and ob != "none"
        N = "N\t1\t0\t%d" % (0 if ob else -1)
        for rd in range(rounds):
            for k, p in enumerate(probs):
                if end == "early" and rd == rounds - 1 and k == len(probs) // 2:
                    break
                dim = int(p[2])
                h += both(N)
                for j in range(budget):
                    x = core.xs([0.9 - 0.31 * i + 0.7 * j for i in range(dim)])
                    h += both("E\t1\t" + x, "Q\t1") + (both("C\t1\t" + x) if p[4] != "0" else [])
                    if j == 1 and real:
                        h += both("T\t0\t1")
                h += meta(suite)
            else:
                h += both(N)
        if real:
            h += both("f\t0", "o\t0") if end != "os" else both("o\t0", "f\t0")
        else:
            h += both("f\t0")
        yield "%s %r %r %s budget %d rounds %d end %s |" % (suite, inst, opts, ob, budget, rounds, end), h


def arguments():
    for suite, f, dim, inst, obs, ncon in CONFIGS:
        o = obs[0]
        pts = iface.points(dim)
        good = core.xs(pts["a"])
        bad = [core.xs([0.5] * k) for k in list(range(0, dim)) + list(range(dim + 1, dim + 4)) + [2 * dim, 1000]]
        pre = both("S\t0\t%s\tinstances: %d\tdimensions: %d function_indices: %d" % (suite, inst, dim, f), "O\t0\t%s\t%s" % OBS[o]) + first(suite, f, dim, inst) + both("A\t1\t0")
        post = both("E\t1\t" + core.xs(pts["b"]), "Q\t1", "R\t1\t0", "F\t1", "o\t0", "f\t0")
        for op in ("E", "M") + (("C",) if ncon else ()):
            for before in (0, 1):
                h = pre + (both("E\t1\t" + good) if before else [])
                for x in bad:
                    h += [(None, "%s\t1\t%s" % (op, x), "exc"), (None, "%sc\t1\t%s" % (op, x), "exc")] + both("Q\t1")
                # matrices with a row or a column of the right length, and other classes of numbers
                for m in (2, 3, dim):
                    h += [(None, "%s%d\t1\t%s" % (op, m, core.xs([0.5] * (m * k))), "exc") for k in (2, 3, dim) if m * k <= 400]
                h += [(None, "%si\t1\t%s" % (op, good), "exc"), (None, "%ss\t1\t%s" % (op, good), "exc")] + both("Q\t1")
                yield "%s f%d d%d: %s of wrong lengths, shapes and classes after %d evaluations |" % (suite, f, dim, op, before), h + post
        for sp in (0, 1, 2, 3):
            yield "%s f%d d%d: spelling %d |" % (suite, f, dim, sp), [(None, "!\t%d" % sp, "ok")] + pre + both("E\t1\t" + good, "M\t1\t" + good, "T\t0\t1") + (both("C\t1\t" + good) if ncon else []) + meta(suite) + post
        for name, (n, out) in sorted(API.items()):
            h = pre + both("E\t1\t" + good)
            for k in range(0, 5):
                if k != n:
                    h += [(None, "#\t%s\t%d\t%d" % (name, k, nl), "exc") for nl in (0, 1)] + both("Q\t1")
            yield "%s f%d d%d: %s with a wrong number of arguments |" % (suite, f, dim, name), h + post
        yield "%s f%d d%d: no such function |" % (suite, f, dim), pre + [(None, "#\tcocoNoSuchFunction\t1\t0", None)] + both("Q\t1") + post
    for q in SUITES:
        for s in ("dimensions: 7", "dimensions: 1", "dimensions: 41-50", "dimensions: 2,5"):
            yield "suite %s %s |" % (q, s), both("S\t0\t%s\t\t%s" % (q, s))
    for a, b in itertools.product(("error", "warning", "info", "debug", "", "nonsense"), repeat=2):
        yield "log level %s %s |" % (a, b), [("L\terror", "L\terror", None)] + [("L\t" + v, "l\t" + v, None) for v in (a, b, "")] + both("L\terror")


def main():
    drv_exe = core.build_driver()
    EXE[0] = build()
    drv = core.Driver(drv_exe)
    iface.learn(drv)
    for suite, f, dim, inst, obs, ncon in CONFIGS:
        r = drv.run(["S\t0\t%s\tinstances: %d\tdimensions: %d function_indices: %d" % (suite, inst, dim, f), "B\t1\t0\t%d\t%d\t%d" % (f, dim, inst)])
        IDX[suite, f, dim, inst] = int(r[1].split("\t")[1])
    items = list(arguments()) + list(addressing(drv)) + list(iterations(drv)) + list(calls())
    drv.close()
    ck.stats.sample("%s: %s" % (items[-1][0], [i for _, i, _ in items[-1][1]]))
    core.explore(ck, work, [items[k:k + 60] for k in range(0, len(items), 60)], drv_exe, chunk=1)
    ck.extra["histories"] = len(items)
    ck.assumptions += ["histories that the C library itself ends with an error exit are not run through MATLAB's functions",
                       "MATLAB and Octave are not available: mex.h is a stand-in with exact-size arrays, and each .m file (one call of cocoCall) is read rather than executed"]
    ck.finish()


core.main(main)
