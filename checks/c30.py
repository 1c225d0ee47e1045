"""C30: the Rust crate shows the problems, values, counters and logs of the C library for every history of calls."""
import itertools
import os
import re
import shutil
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
import amalg  # noqa: E402
import iface  # noqa: E402
from core import THOROUGH  # noqa: E402
from iface import both, CONFIGS, OBS, SUITES  # noqa: E402

ck = core.Check("C30")
EXE = [None]
KNOWN = ("bbob", "bbob-biobj", "bbob-biobj-ext", "bbob-largescale", "bbob-constrained", "bbob-mixint", "bbob-biobj-mixint", "bbob-boxed", "toy")


def bindings(headers):
    """Declarations of the C functions for Rust (what bindgen makes of wrapper.h, which is not available here)."""
    text = "\n".join(open(h, encoding="latin-1").read() for h in headers)
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    text = re.sub(r"^\s*#(?:[^\n\\]|\\\n|\\.)*$", "", text, flags=re.M)
    text = text.replace("COCO_NORETURN", " ")
    prim = {"int": "c_int", "double": "f64", "size_t": "usize", "uint32_t": "u32", "long": "c_long", "char": "c_char", "void": "c_void", "unsigned": "c_uint"}
    opaque = set(re.findall(r"\bcoco_\w+_t\b", text))

    def typ(c):
        const = bool(re.match(r"\s*const\b", c))
        base = re.sub(r"\bconst\b|\*", " ", c).split()
        n = c.count("*")
        if len(base) != 1 or (base[0] not in prim and base[0] not in opaque):
            return None
        t = prim.get(base[0], base[0])
        for _ in range(n):
            t = ("*const " if const else "*mut ") + t
        return t if n or t != "c_void" else ""

    out, seen = [], set()
    for m in filter(None, (re.search(r"(?:^|[}{])\s*(?:extern\s+)?((?:const\s+)?\w+[\s*]+)(\w+)\s*\(([^()]*)\)\s*$", p) for p in text.split(";"))):
        ret, name, args = typ(m.group(1)), m.group(2), m.group(3)
        if ret is None or name in seen or "..." in args:
            continue
        a = []
        for k, p in enumerate([] if args.strip() in ("", "void") else args.split(",")):
            t = typ(re.sub(r"\b\w+\s*$", "", p.strip()) if not p.strip().endswith("*") else p)
            a.append(t)
        if None in a:
            continue
        seen.add(name)
        out.append("    pub fn %s(%s)%s;" % (name, ", ".join("a%d: %s" % (k, t) for k, t in enumerate(a)), " -> " + ret if ret else ""))
    body = "use std::os::raw::*;\n" + "".join("#[repr(C)] pub struct %s { _p: [u8; 0] }\n" % o for o in sorted(opaque))
    return "#![allow(warnings)]\n" + body + 'extern "C" {\n    pub static coco_version: *const c_char;\n' + "\n".join(out) + "\n}\n"


def build():
    d = os.path.join(core.scratch(), "rust")
    os.makedirs(d + "/vendor")
    src = os.path.join(core.REPO, "build/rust")
    amalg.amalgamate(os.path.join(core.REPO, "src"), d + "/vendor")
    for f in ("wrapper.c", "wrapper.h"):
        shutil.copy(os.path.join(src, "coco-sys", f), d)
    if not os.path.exists(d + "/vendor/coco_internal.h"):
        shutil.copy(os.path.join(core.REPO, "src/coco_internal.h"), d + "/vendor")
    with open(d + "/coco_sys.rs", "w") as f:
        f.write(bindings([d + "/vendor/coco.h", d + "/wrapper.h"]))
    for c in ("vendor/coco.c", "wrapper.c"):
        core.cc(["gcc", "-w", "-O1", "-g", core.ASAN, "-fPIC", "-c", d + "/" + c, "-o", d + "/" + os.path.basename(c) + ".o"])
    core.cc(["ar", "rcs", d + "/libcocoasan.a", d + "/coco.c.o", d + "/wrapper.c.o"])
    asan = os.path.realpath(subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip())
    # the crate must not find the toolchain by a network look-up: plain rustc
    rc = ["rustc", "--edition", "2021", "-O", "-C", "debug-assertions=on", "-A", "warnings", "--out-dir", d, "-L", d]
    core.cc(rc + ["--crate-type", "rlib", "--crate-name", "coco_sys", d + "/coco_sys.rs"])
    core.cc(rc + ["--crate-type", "rlib", "--crate-name", "coco", src + "/src/lib.rs", "--extern", "coco_sys=%s/libcoco_sys.rlib" % d])
    core.cc(rc + ["--crate-name", "harness", os.path.join(core.HERE, "rust/harness.rs"), "--extern", "coco=%s/libcoco.rlib" % d, "-C", "linker=gcc", "-C", "link-arg=-fsanitize=address",
                  "-C", "link-arg=%s/libcocoasan.a" % d, "-C", "link-arg=" + asan, "-C", "link-arg=-lm"])
    exe = os.path.join(d, "run")
    with open(exe, "w") as f:
        f.write("#!/bin/sh\nLD_PRELOAD=%s exec %s/harness /dev/fd/3 3>&1 1>/dev/null\n" % (asan, d))
    os.chmod(exe, 0o755)
    return exe


def work(items, drv, st, viol):
    for what, h in items:
        iface.play(h, drv, EXE[0], st, viol, what, q=4)
        if len(viol) >= 3:
            return


def meta(suite):
    return both("D\t1", "W\t1", "X\t1", "Q\t1") + (both("t\t1") if suite != "toy" else []) + (both("v\t1", "u\t1") if "biobj" not in suite else [])


def calls():
    depth = 4 if THOROUGH else 3
    for suite, f, dim, inst, obs, ncon in CONFIGS:
        obs = tuple(o for o in obs if o != "rw") + (("bbob2",) if "bbob" in obs else ())
        xs = {n: core.xs(v) for n, v in iface.points(dim).items()}
        opt = [("E", "opt")] if (suite, f, dim, inst) in iface.OPT else []
        if opt:
            xs["opt"] = core.xs(iface.OPT[suite, f, dim, inst])
        ops = opt + [("E", "a"), ("E", "b"), ("E", "inf"), ("E", "nan")] + ([("C", "a"), ("C", "nan")] if ncon else []) + [("+", o) for o in obs] + [("-", ""), ("T", obs[0])]
        for h in itertools.product(ops, repeat=depth):
            for end in ("pos", "ops", "pso"):
                stack, out, ok = [], both("S\t0\t%s\tinstances: %d\tdimensions: %d" % (suite, inst, dim), "B\t1\t0\t%d\t%d\t%d" % (f, dim, inst)), True
                for k, o in enumerate(obs):
                    out += both("O\t%d\t%s\t%s" % (k, *OBS[o]))
                for op, n in h:
                    if op == "+":
                        ok &= n not in stack
                        stack.append(n)
                        out += both("A\t1\t%d" % obs.index(n))
                    elif op == "-":
                        if not stack:
                            ok = False
                            break
                        out += both("R\t1\t%d" % obs.index(stack.pop()))
                    elif op == "T":
                        out += both("T\t%d\t1" % obs.index(n))
                    else:
                        out += both("%s\t1\t%s" % (op, xs[n]), "Q\t1")
                if not ok or (end != "pos" and not stack):
                    continue
                out += meta(suite)
                for e in end:
                    out += both(*{"p": ["F\t1"], "o": ["o\t%d" % k for k in range(len(obs))], "s": ["f\t0"]}[e])
                yield "%s f%d d%d | %s end %s" % (suite, f, dim, h, end), out


def addressing():
    for suite in KNOWN:
        nf, dims = SUITES[suite]
        for d in (dims if THOROUGH else dims[:2]):
            x = core.xs([0.3 - 0.1 * k for k in range(d)])
            x2 = core.xs([4.4 - 0.2 * k for k in range(d)])
            for f in range(0, nf + 2):
                h = both("S\t0\t%s\tinstances: 1-3\tdimensions: %d" % (suite, d), "n\t0") + [("S\t9\t%s\tinstances: 1-3\tdimensions: %d" % (suite, d), "Sc\t9\t0", "ok")]
                for s in (0, 9):
                    for i in (1, 3, 0, 4):
                        h += both("B\t1\t%d\t%d\t%d\t%d" % (s, f, d, i))
                        if 1 <= f <= nf and i in (1, 3):
                            h += both("E\t1\t" + x, "E\t1\t" + x2) + (both("C\t1\t" + x) if "constrained" in suite else []) + meta(suite) + both("F\t1")
                    h += both("B\t1\t%d\t%d\t%d\t1" % (s, f, d + 1))
                    for k in (f - 1, 3 * f, 3 * nf + f, 10 ** 9 + f):
                        if k >= 0:
                            h += both("G\t1\t%d\t%d" % (s, k))
                            if k < nf * 3:
                                h += both("E\t1\t" + x, "F\t1")
                    h += both("n\t%d" % s) + (both("i\t%d\t%d\t0\t%d" % (s, f, f % 3)) if f < nf else [])
                yield "%s f%d d%d |" % (suite, f, d), h + both("f\t0", "f\t9")


CASES = [("bbob", "instances: 1-2", "dimensions: 2,3 function_indices: 1-3", "bbob"), ("bbob", "", "dimensions: 5 function_indices: 8 instance_indices: 1-4", "bbob"),
         ("bbob", "year: 2009", "dimensions: 2 function_indices: 24", "bbob"), ("bbob", "", "function_indices: 5 dimension_indices: 1,3", None),
         ("bbob-biobj", "instances: 1-3", "dimensions: 2 function_indices: 1,2", "bi"), ("bbob-biobj", "", "dimensions: 3 function_indices: 1", "bi"),
         ("bbob-constrained", "instances: 1", "dimensions: 2 function_indices: 1-8", "bbob"), ("bbob-mixint", "instances: 2", "dimensions: 5 function_indices: 3-5", "bbob"),
         ("bbob-largescale", "instances: 1", "dimensions: 20 function_indices: 6,7", "bbob"), ("bbob-boxed", "instances: 1-2", "dimensions: 2 function_indices: 1-2", "bbob"),
         ("bbob-biobj-mixint", "instances: 1", "dimensions: 5 function_indices: 1-3", "bi"), ("bbob-biobj-ext", "instances: 1", "dimensions: 2 function_indices: 60", "bi"),
         ("toy", "", "", "toy"), ("toy", "", "dimensions: 2", "toy"), ("bbob", "instances: 1", "dimensions: 7", "bbob")]


def iterations(drv):
    for (suite, inst, opts, ob), budget, rounds, end in itertools.product(CASES, (0, 1, 4), (1, 2), ("so", "os", "early")):
        S = "S\t0\t%s\t%s\t%s" % (suite, inst, opts)
        r = drv.run([S, "n\t0"])
        if r[0] == "null":
            yield "%s %s %s |" % (suite, inst, opts), both(S)
            continue
        walk = drv.run([S] + ["N\t1\t0\t-1"] * (int(r[1]) + 1))
        probs = [w.split("\t") for w in itertools.takewhile(lambda w: w != "null", walk[1:])]
        h = both(S) + (both("O\t0\t%s\t%s" % OBS[ob]) if ob else []) + both("n\t0")
        N = "N\t1\t0\t%d" % (0 if ob else -1)
        for rd in range(rounds):
            for k, p in enumerate(probs):
                if end == "early" and rd == rounds - 1 and k == len(probs) // 2:
                    break
                dim = int(p[2])
                h += both(N)
                for j in range(budget):
                    x = core.xs([0.9 - 0.31 * i + 0.7 * j for i in range(dim)])
                    h += both("E\t1\t" + x, "Q\t1") + (both("C\t1\t" + x) if p[4] != "0" else [])
                    if j == 1 and ob:
                        h += both("T\t0\t1")
                h += meta(suite) + [(None, "F\t1", "ok")]  # in Rust the problem is the caller's, in C it is the suite's
            else:
                h += both(N)
        # in C the last problem is freed with the suite
        h += [("f\t0", "f\t0", None)] + (both("o\t0") if ob else []) if end != "os" or not ob else both("o\t0", "f\t0")
        yield "%s %r %r %s budget %d rounds %d end %s |" % (suite, inst, opts, ob, budget, rounds, end), h


def arguments():
    for suite, f, dim, inst, obs, ncon in CONFIGS:
        o = obs[0]
        pts = iface.points(dim)
        good = core.xs(pts["a"])
        m = 2 if "biobj" in suite else 1
        bad = [core.xs([0.5] * k) for k in list(range(0, dim)) + list(range(dim + 1, dim + 4)) + [2 * dim, 1000]]
        for op in ("E",) + (("C",) if ncon else ()):
            for before in (0, 1):
                h = both("S\t0\t%s\tinstances: %d\tdimensions: %d" % (suite, inst, dim), "O\t0\t%s\t%s" % OBS[o], "B\t1\t0\t%d\t%d\t%d" % (f, dim, inst), "A\t1\t0")
                if before:
                    h += both("E\t1\t" + good)
                for x in bad:
                    h += [(None, "%s\t1\t%s" % (op, x), "exc")] + both("Q\t1")
                for k in (0, 1, 2, 3, 4, 5, 9):
                    if (op == "E" and k != m) or (op == "C" and k not in (1, 2, 3)):
                        h += [(None, "%sy\t1\t%d\t%s" % (op, k, good), "exc")] + both("Q\t1")
                for k in (0, dim - 1, dim + 1, 100):
                    h += [(None, "Xy\t1\t%d" % k, "exc")]
                h += both("E\t1\t" + core.xs(pts["b"]), "Q\t1", "R\t1\t0", "F\t1", "o\t0", "f\t0")
                yield "%s f%d d%d: %s of wrong lengths after %d evaluations |" % (suite, f, dim, op, before), h
    yield "no observer |", [("O\t0\tno_observer\t", "O\t0\tno_observer\t", None)]
    for q in KNOWN:
        for s in ("dimensions: 7", "dimensions: 1", "dimensions: 41-50", "dimensions: 2,5"):
            yield "suite %s %s |" % (q, s), both("S\t0\t%s\t\t%s" % (q, s))
    for seed in (0, 1, 2, 12345, 2 ** 31, 2 ** 32 - 1):
        for pat in itertools.product(("ru", "rg"), repeat=6):
            yield "random %d %s |" % (seed, pat), both("rn\t0\t%d" % seed, "rn\t1\t%d" % (seed ^ 5)) + both(*(p + "\t%d" % (k % 2) for k, p in enumerate(pat + pat))) + both("rf\t0", "ru\t1", "rf\t1")
    for lv in ("error", "warning", "info", "debug"):
        yield "log level %s |" % lv, both("L\t" + lv, "S\t0\tbbob\tinstances: 1\t", "n\t0", "f\t0", "L\terror")


def main():
    OBS["bbob2"] = ("bbob", "result_folder: c algorithm_name: y number_target_triggers: 1 base_evaluation_triggers: \"1,2\"")
    drv_exe = core.build_driver()
    EXE[0] = build()
    drv = core.Driver(drv_exe)
    iface.learn(drv)
    items = list(arguments()) + list(addressing()) + list(iterations(drv)) + list(calls())
    drv.close()
    ck.stats.sample("%s: %s" % (items[-1][0], [i for _, i, _ in items[-1][1]]))
    core.explore(ck, work, [items[k:k + 60] for k in range(0, len(items), 60)], drv_exe, chunk=1)
    ck.extra["histories"] = len(items)
    ck.assumptions += ["histories that the C library itself ends with an error exit are not run in Rust", "the declarations of coco-sys are generated from coco.h and wrapper.h by the check (bindgen is not available); the crate is compiled by rustc without cargo"]
    ck.finish()


core.main(main)
