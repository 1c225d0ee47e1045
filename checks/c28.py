"""C28: the toy observer's first-hitting-time file for every history of values (above, at, below and around zero, not
finite), runs and option settings."""
import itertools
import math
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
from core import THOROUGH  # noqa: E402

ck = core.Check("C28")
SP = {}


class Targets:
    """the sequence of targets: 10^(k/n) down to the precision, zero, then -10^(k/n) from the precision on"""

    def __init__(self, n, prec):
        self.n, self.p, self.best, self.unsure = n, prec, None, False

    def up(self, t):
        if t != round(t) and abs(t - round(t)) < 1e-9:
            self.unsure = True
            return int(round(t))
        return math.ceil(t)

    def hit(self, y):
        """(position in the sequence, target) reached by y"""
        if y > 0:
            k = self.up(math.log10(max(y, self.p)) * self.n)
            return (0, -k), 10.0 ** (k / self.n)
        if y == 0:
            return (1, 0), 0.0
        k = -self.up(-math.log10(max(-y, self.p)) * self.n)
        return (2, k), -10.0 ** (k / self.n)

    def value(self, y):
        if not math.isfinite(y):
            return None
        pos, t = self.hit(y)
        if self.best is None or pos > self.best:
            self.best = pos
            return t
        return None


def optstr(o):
    t = []
    if "n" in o:
        t.append("number_target_triggers: %d" % o["n"])
    if "p" in o:
        t.append("log_target_precision: %s" % o["p"])
    if "file" in o:
        t.append("file_name: %s" % o["file"])
    if "px" in o:
        t.append("precision_x: %d" % o["px"])
    if "pf" in o:
        t.append("precision_f: %d" % o["pf"])
    return " ".join(t)


def check(drv, seq, o, st, viol):
    cmds = [s for s in sorted(set(SP[k]["S"] for k, _ in seq))]
    cmds.append("O\t0\ttoy\t" + optstr(o))
    at0 = len(cmds)
    for key, ops in seq:
        sp = SP[key]
        cmds += [sp["G"] % 1, "A\t1\t0"]
        for a, n, *times in ops:
            cmds.append("T\t0\t1" if a == "T" else "x\t1\t%s\t%d\t%s" % (a, times[0], sp["xs"][n]) if times else "%s\t1\t%s" % (a, sp["xs"][n]))
        cmds.append("F\t1")
    cmds.append("o\t0")
    r = drv.run(cmds)
    rep = {"runs": seq, "options": optstr(o), "commands": cmds}
    who = "toy observer %r, runs %s" % (optstr(o), seq)
    for w in ("fatal", "assert", "abort", "xmodified", "nop"):
        if w in r:
            viol.append(("%s: %s at command %r" % (who, w, cmds[r.index(w)]), rep))
            return
    want, at, unsure = [], at0, False
    for key, ops in seq:
        sp = SP[key]
        want += ["", "suite = '%s', problem_id = '%s', problem_name = '%s', coco_version = 'MC'" % (sp["suite"], sp["id"], sp["pname"]),
                 "%% evaluation number | function value | target hit | %d variables " % sp["dim"]]
        t = Targets(o.get("n", 100), float(o.get("p", 1e-8)))
        at += 2
        nf = 0
        for a, n, *times in ops:
            if a == "E" and all(math.isfinite(v) for v in sp["pts"][n]):
                y = float(r[at])
                v = t.value(y)
                nf += 1
                if v is not None:
                    want.append((nf, y, v, sp["pts"][n]))
                nf += times[0] - 1 if times else 0
            at += 1
        at += 1
        unsure |= t.unsure
        st.state((key, optstr(o), t.best))
    st.add("transitions", len(cmds))
    st.add("traces_validated_against_impl")
    tree = core.read_tree(drv.cwd + "/exdata/default")
    name = o.get("file", "first_hitting_times.dat")
    if set(tree) != {name}:
        viol.append(("%s: files %s instead of %s" % (who, sorted(tree), name), rep))
        return
    if unsure:
        st.add("skipped_on_rounding_boundary")
        return
    got = tree[name].decode("latin-1").split("\n")
    if got.pop() != "":
        viol.append(("%s: the file does not end with a complete line" % who, rep))
        return
    d = diff(want, got, o)
    st.add("records", len(got))
    if d:
        viol.append(("%s: %s" % (who, d), rep))


def diff(want, got, o):
    for k, (w, g) in enumerate(itertools.zip_longest(want, got)):
        if w is None:
            return "line %r that no evaluation justifies" % g
        if g is None:
            return "%r is missing" % (w,)
        if isinstance(w, str):
            if re.sub(r"coco_version = '[^']*'", "coco_version = 'MC'", g) != w:
                return "line %r instead of %r" % (g, w)
            continue
        f = g.split("\t")
        pf, px = o.get("pf", 15), o.get("px", 8)
        e = ["%d" % w[0], "%.*e" % (pf, w[1]), None] + ["%.*e" % (px, v) for v in w[3]]
        try:
            tv = float(f[2])
        except (IndexError, ValueError):
            return "line %r instead of the record of evaluation %d" % (g, w[0])
        # the target: the power of ten at the printed precision
        if len(f) != len(e) or any(a is not None and a != b for a, b in zip(e, f)) or not abs(tv - w[2]) <= abs(w[2]) * (1e-12 + 0.6 * 10.0 ** -pf):
            return "line %r instead of evaluation %d, value %.17g, target %.17g" % (g, w[0], w[1], w[2])
        if not re.fullmatch(r"-?\d\.\d{%d}e[-+]\d+" % pf, f[2]) and pf:
            return "target %r not at the precision %d" % (f[2], pf)
    return None


def spec(drv, suite, f, dim, inst):
    S = "S\t0\t%s\tinstances: 1-9\t" % suite if suite != "toy" else "S\t1\ttoy\t\t"
    k = 0 if suite != "toy" else 1
    G = "B\t%%d\t%d\t%d\t%d\t%d" % (k, f, dim, inst)
    r = drv.run([S, G % 1, "K\t1", "v\t1"])
    d = r[1].split("\t")
    opt, fopt = [float(v) for v in r[2].split("\t")[1:]], float(r[3])
    pts = {"opt": opt, "nan": [math.nan] + [0.0] * (dim - 1), "inf": [0.0] * (dim - 1) + [math.inf], "ninf": [-math.inf] * dim}
    if f == 1:
        pts["over"] = [opt[0] + 1e160] + opt[1:]  # a finite point whose value overflows
    if suite != "toy":
        for n, v in VALUES.items():
            if v >= fopt:
                pts[n] = [opt[0] + math.sqrt(v - fopt)] + opt[1:]
        pts["near"] = [opt[0] + 1e-3] + opt[1:]
    else:
        for n, s in (("far", 4.0), ("mid", 0.5), ("close", 1e-2), ("tiny", 1e-5), ("tiniest", 1e-9), ("huge", 1e10)):
            pts[n] = [v + s for v in opt]
    return {"S": S, "G": G, "pts": pts, "xs": {n: core.xs(t) for n, t in pts.items()}, "id": d[0], "pname": d[6], "suite": suite, "dim": dim, "fopt": fopt,
            "name": "%s f%d d%d i%d" % (suite, f, dim, inst)}


VALUES = {"p30": 1e30, "p1000": 1234.5, "p1": 1.7, "p-3": 1.1e-3, "p-7": 3e-7, "p-9": 4e-9, "m-9": -4e-9, "m-7": -3e-7, "m-3": -1.1e-3, "m1": -1.7, "m50": -51.3, "m99": -99.0}


def work(item, drv, st, viol):
    for seq, o in item:
        check(drv, seq, o, st, viol)
        if len(viol) >= 3:
            return


def main():
    exe = core.build_driver()
    drv = core.Driver(exe)
    keys = [("bbob", 1, 2, i) for i in range(1, 10)] + [("toy", f, 2, 1) for f in range(1, 7)] + [("bbob", 1, 5, 2), ("bbob", 8, 3, 1), ("bbob-boxed", 1, 2, 1), ("bbob-largescale", 1, 20, 1), ("toy", 1, 10, 1)]
    try:
        for k in keys:
            SP[k] = spec(drv, *k)
    except (core.Died, ValueError, IndexError) as e:
        ck.violation("problem %s cannot be examined: %s" % (k, e), {})
        ck.finish()
    drv.close()
    # a problem whose values go well below zero, one that stays above, the toy problems with value zero at the optimum
    neg = min((k for k in keys if k[0] == "bbob" and k[1] == 1 and k[2] == 2), key=lambda k: SP[k]["fopt"])
    pos = max((k for k in keys if k[0] == "bbob" and k[1] == 1 and k[2] == 2), key=lambda k: SP[k]["fopt"])
    items = []
    depth = 4 if THOROUGH else 3
    names = [n for n in SP[neg]["pts"] if n not in ("p30", "ninf", "near")]
    for o in ({}, {"n": 3}, {"n": 1, "p": "1e-3"}, {"p": "5e-2"}):
        items += [(((neg, tuple(("E", n) for n in h)),), o) for h in itertools.product(names, repeat=depth)]
    ck.stats.sample("%s: all sequences of %d of %s under 4 settings" % (SP[neg]["name"], depth, names))
    for key in (pos, keys[9], keys[10], keys[13]):
        nm = [n for n in SP[key]["pts"] if n not in ("ninf",)][:9]
        for o in ({}, {"n": 2, "p": "1e-5"}):
            items += [(((key, tuple(("E", n) for n in h)),), o) for h in itertools.product(nm, repeat=depth)]
    for key in keys:  # every point after every other one
        for h in itertools.product(SP[key]["pts"], repeat=2):
            items.append((((key, tuple(("E", n) for n in h)),), {}))
    # every combination of the options
    hs = [(neg, tuple(("E", n) for n in ("p1000", "nan", "p1", "p1", "inf", "p-9", "m-9", "m-3", "m1", "opt") if n in SP[neg]["pts"])),
          (keys[9], (("E", "far"), ("T", ""), ("E", "mid"), ("E", "far"), ("E", "tiny"), ("E", "opt"), ("E", "opt")))]
    for n, p, f, px, pf in itertools.product((None, 1, 7, 100, 1000), (None, "1e-8", "1e-2", "3", "1e-300"), (None, "hits.txt"), (None, 1, 20), (None, 1, 20)):
        o = {k: v for k, v in (("n", n), ("p", p), ("file", f), ("px", px), ("pf", pf)) if v is not None}
        for key, h in hs:
            items.append((((key, h),), o))
    # sequences of runs with one observer: every problem starts afresh below a header of its own
    rk = [neg, pos, keys[9], keys[13]]
    for m in (2, 3):
        for s in itertools.product(rk, repeat=m):
            items.append((tuple((k, tuple(("E", n) for n in list(SP[k]["pts"])[j:j + 6:2])) for j, k in enumerate(s)), {}))
            items.append((tuple((k, ()) for k in s), {"file": "x"}))
    n = 1000000 if THOROUGH else 70000
    many = []
    for key in (neg, pos, keys[9], keys[13]):
        ps = [k for k in ("p1000", "p1", "p-3", "p-7", "m1", "m50", "far", "mid", "tiny", "opt") if k in SP[key]["pts"]]  # ever better
        many += [[(((key, tuple(("E", k, n) for k in ps)),), o)] for o in ({}, {"n": 3})]
        many += [[(((key, tuple(("E", k, m) for m, k in zip((1, 9, 99, 255, 999, 4096, 9999), ps))),), {})]]
    for o in ({}, {"n": 3}):  # long experiments
        for s in ([k for k in keys if k[0] in ("bbob", "toy")] * 8, [rk[j % 4] for j in range(150)], [rk[0]] * 70):
            many.append([(tuple((k, tuple(("E", n) for n in list(SP[k]["pts"])[j % 5:j % 5 + 6:2])) for j, k in enumerate(s)), o)])
    core.explore(ck, work, many, exe, chunk=1)
    core.explore(ck, work, [items[k:k + 120] for k in range(0, len(items), 120)], exe, chunk=1)
    ck.extra["options_and_histories"] = len(items)
    ck.assumptions.append("histories in which a value lies within 1e-9 of, but not on, a target boundary (in the logarithm) are run but not compared; number_target_triggers: 0 is not covered")
    ck.finish()


core.main(main)
