"""C16: every legal order of creating, using and freeing suites, problems, observers and archives, under ASan and UBSan,
with the balance of the heap; illegal requests end in the error exit or NULL."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
from core import THOROUGH  # noqa: E402

ck = core.Check("C16")
MS = ("-O1", "-g", "-fsanitize=memory", "-fno-omit-frame-pointer")
UB = ("-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined")

SINGLE = {"bbob": 1, "bbob-biobj": 1, "bi-final": 1, "bi-read": 1}  # these observers refuse a second open problem
OPT = {"bbob": "result_folder: %s algorithm_name: x", "bbob-old": "result_folder: %s", "rw": "result_folder: %s log_variables: all log_constraints: all",
       "toy": "result_folder: %s", "bbob-biobj": "result_folder: %s log_nondominated: all", "bi-final": "result_folder: %s log_nondominated: final log_decision_variables: all",
       "bi-read": "result_folder: %s log_nondominated: read", "bi-off": "result_folder: %s log_nondominated: none compute_indicators: 0", "no_observer": ""}
NAME = {"bi-final": "bbob-biobj", "bi-read": "bbob-biobj", "bi-off": "bbob-biobj"}
INACTIVE = ("no_observer", "bi-off")


class M:
    """What is alive: sa/sb suites; cur = [observer from next_problem, extra stack]; p[k] = stack of (observer, generation)."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.s = [True, False]
        self.cur = None       # stack of the problem the suite owns
        self.base = 0         # how much of it next_problem attached
        self.vis = False      # slot 1 shows it
        self.pos = 0
        self.p = {2: None, 3: None}
        self.o = [1, None]
        self.gen = 1
        self.kinds = {1: cfg["obs"][0]}
        self.init = set()     # (problem, generation) of bbob loggers that have opened their files

    def copy(self):
        n = M.__new__(M)
        n.__dict__.update(self.__dict__)
        n.s = list(self.s)
        n.cur = None if self.cur is None else list(self.cur)
        n.p = {k: None if v is None else list(v) for k, v in self.p.items()}
        n.o = list(self.o)
        n.kinds = dict(self.kinds)
        n.init = set(self.init)
        return n

    def key(self):
        norm = {g: k for k, g in enumerate(sorted({x for v in list(self.p.values()) + [self.cur] if v for x in v}))}
        f = lambda v: None if v is None else tuple((norm[x], x in self.o) for x in v)
        return (tuple(self.s), f(self.cur), self.base, self.vis, self.pos, f(self.p[2]), f(self.p[3]), tuple(x is not None for x in self.o), tuple(sorted(norm[g] for q, g in self.init)))

    def kind(self, k):
        return self.cfg["obs"][k]

    def open(self, k):
        """Is a problem open on observer k?"""
        return any(v and self.o[k] in v for v in list(self.p.values()) + [self.cur])

    def ops(self):
        r = []
        c = self.cfg
        if not self.s[1] and c["two"]:
            r.append("S1")
        if self.s[0]:
            extra = self.cur is not None and len(self.cur) > self.base
            if not extra:
                r.append("N-")
                for k in (0, 1):
                    if self.o[k] is not None:
                        r.append("N%d" % k)
            if self.p[2] is None and not extra and not (c["two"] and self.p[3] is None):
                if self.cur is None:
                    r.append("f0")
                elif not c["two"]:
                    r.append("f0")
            if c["two"] and self.p[2] is None and not extra:
                if "f0" not in r:
                    r.append("f0")
        if self.s[1] and self.p[3] is None:
            r.append("f1")
        if self.s[0] and not c["two"] and self.p[3] is not None and "f0" in r:
            r.remove("f0")
        for q in (2, 3):
            src = 1 if (q == 3 and c["two"]) else 0
            if self.p[q] is None and self.s[src]:
                r.append("G%d" % q)
        for q in (1, 2, 3):
            st = self.cur if q == 1 else self.p[q]
            if st is None or (q == 1 and not self.vis):
                continue
            r.append("E%d" % q)
            if c["rec"]:
                r.append("M%d" % q)
            if c.get("cons"):
                r.append("C%d" % q)
            for k in (0, 1):
                if self.o[k] is not None and self.o[k] not in st and len(st) < 2:
                    r.append("A%d%d" % (q, k))
            if st and (q != 1 or len(st) > self.base) and st[-1] in self.o:
                r.append("R%d%d" % (q, self.o.index(st[-1])))
            for k in (0, 1):
                if self.o[k] is not None and self.o[k] in st:
                    r.append("T%d%d" % (k, q))
            if q != 1:
                r.append("F%d" % q)
        for k in (0, 1):
            if self.o[k] is None:
                r.append("O%d" % k)
            elif not (self.cur is not None and self.o[k] in self.cur[self.base:]):
                r.append("o%d" % k)
        return r

    def clash(self, k, replaced=None):
        """Opening another problem on a single-problem observer."""
        if self.kind(k) == "bbob-old":  # one problem for all observers of this kind
            return any(v and any(self.kinds[g] == "bbob-old" for g in v) for v in list(self.p.values()) + [None if replaced else self.cur])
        if self.kind(k) not in SINGLE:
            return False
        return any(v and self.o[k] in v for v in list(self.p.values()) + [None if replaced else self.cur])

    def do(self, op):
        """Apply; returns "fatal" when the documented error exit is due."""
        a = op[0]
        if a in "EM":
            q = int(op[1])
            st = list(self.cur if q == 1 else self.p[q])
            if a == "M" and (not st or self.kinds[st[-1]] in ("rw", "toy", "bbob-old")):
                return None
            for g in reversed(st):
                if self.kinds[g] in ("bbob", "bbob-old") and (q, g) not in self.init:
                    if g not in self.o:  # its observer is gone and it has no files yet
                        return "fatal" if self.kinds[g] == "bbob" else "F2"
                    self.init.add((q, g))
        elif a == "S":
            self.s[1] = True
        elif a == "N":
            self.pos += 1
            if self.pos > self.cfg["n"]:
                self.pos = 0
                self.vis = False
                return None
            self.init = {(q, g) for q, g in self.init if q != 1}
            if op[1] == "-":
                self.cur = []
            else:
                k = int(op[1])
                if self.clash(k, replaced=True):
                    return "fatal"
                self.cur = [] if self.kind(k) in INACTIVE else [self.o[k]]
            self.base = len(self.cur)
            self.vis = True
        elif a == "f":
            k = int(op[1])
            self.s[k] = False
            if k == 0:
                self.cur = None
                self.vis = False
                self.init = {(q, g) for q, g in self.init if q != 1}
        elif a == "G":
            self.p[int(op[1])] = []
        elif a == "A":
            q, k = int(op[1]), int(op[2])
            if self.clash(k):
                return "fatal"
            if self.kind(k) not in INACTIVE:
                (self.cur if q == 1 else self.p[q]).append(self.o[k])
        elif a == "R":
            q = int(op[1])
            self.init.discard((q, (self.cur if q == 1 else self.p[q]).pop()))
        elif a == "F":
            self.p[int(op[1])] = None
            self.init = {(q, g) for q, g in self.init if q != int(op[1])}
        elif a == "O":
            self.gen += 1
            self.o[int(op[1])] = self.gen
            self.kinds[self.gen] = self.kind(int(op[1]))
        elif a == "o":
            self.o[int(op[1])] = None
        return None

    def closings(self):
        """Orders of freeing what is left."""
        r0 = []
        if self.cur is not None:
            for x in reversed(self.cur[self.base:]):
                r0.append("R1%d" % self.o.index(x))
        P = ["F%d" % q for q in (2, 3) if self.p[q] is not None]
        O = ["o%d" % k for k in (0, 1) if self.o[k] is not None]
        S = ["f%d" % k for k in (0, 1) if self.s[k]]
        res = []
        for c in (P + S + O, O + P + S, P[::-1] + O[::-1] + S[::-1]):
            if r0 + c not in res:
                res.append(r0 + c)
        return res


def cmd(cfg, op):
    a = op[0]
    if a == "S":
        return "S\t%s\t%s\t%s\t%s" % ((op[1],) + cfg["suites"][int(op[1])])
    if a == "N":
        return "N\t1\t0\t%s" % ("-1" if op[1] == "-" else op[1])
    if a == "G":
        return "G\t%s\t%d\t%d" % (op[1], 1 if op[1] == "3" and cfg["two"] else 0, 0 if op[1] == "2" else cfg.get("i3", 1))
    if a == "O":
        k = cfg["obs"][int(op[1])]
        o = OPT[k]
        return "O\t%s\t%s\t%s" % (op[1], NAME.get(k, k), o % ("d" + op[1]) if "%" in o else o)
    if a in "AR":
        return "%s\t%s\t%s" % (a, op[1], op[2])
    if a == "T":
        return "T\t%s\t%s" % (op[1], op[2])
    if a in "ECM":
        return "%s\t%s\t%s" % (a, op[1], cfg["x"][int(op[1]) % 2])
    return "%s\t%s" % (a, op[1])


def play(drv, cfg, h, closing, last, st, viol):
    ops = ["S0", "O0"] + list(h) + list(closing)
    cmds = ["m"] + [cmd(cfg, o) for o in ops] + ["m"]
    r = drv.run(cmds)
    if "no_observer" in cfg["obs"]:  # there is nothing to free
        r = ["ok" if o[0] == "o" and a == "nop" and cfg["obs"][int(o[1])] == "no_observer" else a for o, a in zip(["-"] + ops + ["-"], r)]
    st.add("transitions", len(ops))
    st.add("traces_validated_against_impl")
    if "bbob-old" in cfg["obs"] and "fatal" in r:  # its state is global
        drv.close()
    what = None
    for w in ("fatal", "assert", "abort", "nop", "xmodified"):
        if w in r:
            k = r.index(w)
            if w == "fatal" and last == "fatal" and k == 2 + len(h):
                return
            what = "%s at %s" % (w, ops[k - 1] if 0 < k <= len(ops) else k)
            break
    else:
        if last == "fatal":
            what = "no error exit at the end"
        elif r[0] != r[-1]:
            r2 = drv.run(cmds)
            if r2[0] != r2[-1]:
                what = "%d bytes are not released" % (int(r2[-1]) - int(r2[0]))
    if what:
        viol.append(("%s: %s: %s" % (cfg["name"], " ".join(ops), what), {"cfg": cfg["name"], "history": ops, "commands": cmds}))


def legacy(drv, cfg, h, viol):
    """Known finding: the undocumented legacy observer is used after it was freed. Once per work item."""
    if any(v[1].get("key") for v in viol):
        return
    cmds = [cmd(cfg, o) for o in ["S0", "O0"] + h]
    try:
        drv.run(cmds)
    except core.Died as d:
        viol.append(("%s: %s: %s" % (cfg["name"], h, d), {"key": "bbob-old-observer-freed-before-first-evaluation" if "logger_bbob_old_initialize" in str(d) else None, "commands": cmds}))


def work(item, drv, st, viol):
    cfg, first, depth = item

    def rec(m, h):
        if len([v for v in viol if not v[1].get("key")]) >= 3:
            return
        st.state((cfg["name"], m.key()))
        if len(h) == depth:
            for c in m.closings():
                play(drv, cfg, h, c, None, st, viol)
            return
        for op in m.ops():
            n = m.copy()
            w = n.do(op)
            if w == "fatal":
                play(drv, cfg, h + [op], [], "fatal", st, viol)
            elif w == "F2":
                legacy(drv, cfg, h + [op], viol)
            else:
                rec(n, h + [op])

    m = M(cfg)
    h = []
    for op in first:
        w = m.do(op)
        if w == "F2":
            return
        if w == "fatal":
            play(drv, cfg, h + [op], [], "fatal", st, viol)
            return
        h.append(op)
    rec(m, h)


def prefixes(cfg, n):
    out = []

    def rec(m, h):
        if len(h) == n:
            out.append(h)
            return
        for op in m.ops():
            k = m.copy()
            if k.do(op) is not None:
                out.append(h + [op])
            else:
                rec(k, h + [op])
    rec(M(cfg), [])
    return out


# ------------------------------------------------------------------------------------------------ single histories
def script(item, drv, st, viol):
    """A fixed list of commands; legal -> no error and a balanced heap; otherwise no corruption (the driver survives)."""
    name, cmds, legal = item
    cmds = ["m"] + cmds + ["m"]
    try:
        r = drv.run(cmds)
        st.add("transitions", len(cmds))
        st.add("traces_validated_against_impl")
        if "assert" in r or "abort" in r:
            w = "assert" if "assert" in r else "abort"
            viol.append(("%s: %s at %r" % (name, w, cmds[r.index(w)][:300]), {"commands": cmds}))
        elif "fatal" in r:
            if legal:
                viol.append(("%s: error exit at %r" % (name, cmds[r.index("fatal")][:300]), {"commands": cmds}))
            # the driver still works after an error exit
            if drv.run(["S\t0\tbbob\tinstances: 1\tdimensions: 2", "G\t1\t0\t3", "E\t1\t1\t2", "F\t1", "f\t0"])[0] != "ok":
                viol.append(("%s: library unusable afterwards" % name, {"commands": cmds}))
        elif r[0] != r[-1]:
            r = drv.run(cmds)
            if r[0] != r[-1]:
                viol.append(("%s: %d bytes are not released" % (name, int(r[-1]) - int(r[0])), {"commands": cmds}))
    except core.Died as d:
        if "timeout" in str(d):
            raise
        viol.append(("%s: %s" % (name, d), {"commands": cmds}))


SUITES = [("bbob", "2,3,5,10,20", 24, 1), ("bbob-noisy", "2,3,5,10", 30, 101), ("bbob-boxed", "2,5,10", 24, 1), ("bbob-constrained", "2,3,5,10", 54, 1), ("bbob-largescale", "20,40", 24, 1),
          ("bbob-mixint", "5,10", 24, 1), ("bbob-biobj", "2,3,10", 55, 1), ("bbob-biobj-ext", "2,5", 92, 1), ("bbob-biobj-mixint", "5,10", 92, 1), ("toy", "2,3,5", 6, 1)]


def wide():
    """Every problem: created, evaluated, observed, queried, freed."""
    out = []
    for suite, dims, nf, f0 in SUITES:
        for dim in [int(d) for d in dims.split(",")]:
            for f in range(f0, f0 + nf):
                inst = 1 + f % 5 if suite != "toy" else 1
                bi = "biobj" in suite
                x = core.xs([0.3 - 0.11 * k for k in range(dim)])
                y = core.xs([1.0] * dim)
                c = ["S\t0\t%s\tinstances: %d\tdimensions: %d" % (suite, inst, dim), "B\t2\t0\t%d\t%d\t%d" % (f, dim, inst),
                     "B\t3\t0\t%d\t%d\t%d" % (f, dim, inst)]
                c += ["E\t2\t" + x, *(["C\t2\t" + x] if "constrained" in suite else []), "E\t2\t" + core.xs([float("nan")] * dim), "W\t2", "X\t2", "w\t2" if bi else "v\t2"] + (["t\t2"] if suite != "toy" else [])
                c += ["O\t0\t%s\tresult_folder: w" % ("bbob-biobj" if bi else "toy" if suite == "toy" else "bbob"), "O\t1\trw\tresult_folder: w log_variables: all log_constraints: all"]
                c += ["A\t3\t0", "A\t3\t1", "E\t3\t" + x, "M\t3\t" + y, "E\t3\t" + y, "F\t3", "F\t2", "o\t1", "f\t0", "o\t0"]
                out.append(("%s f%d d%d i%d" % (suite, f, dim, inst), c, True))
    for suite, dims, nf, f0 in SUITES:  # a complete iteration, observed
        bi = "biobj" in suite
        d = dims.split(",")[0]
        n = int(d)
        for a, b in (("S", "o"), ("o", "S")):
            c = ["S\t0\t%s\t%s\tdimensions: %s" % (suite, "instances: 1-2" if suite != "toy" else "", d), "O\t0\t%s\tresult_folder: w" % ("bbob-biobj" if bi else "toy" if suite == "toy" else "bbob")]
            for k in range(nf * (2 if suite != "toy" else 1) + 1):
                c += ["N\t1\t0\t0"] + (["E\t1\t" + core.xs([0.1 * k] * n)] if k % 3 else [])
            c = c[:-1] if c[-1][0] == "E" else c
            c += ["f\t0", "o\t0"] if a == "S" else ["o\t0", "f\t0"]
            out.append(("iteration of %s" % suite, c, True))
    return out


def malformed():
    """Option strings a user could mistype: every value shape for every key, for suites and observers; long strings."""
    out = []
    sk = ["instances", "year", "dimensions", "dimension_indices", "function_indices", "instance_indices", "foo", ""]
    vals = ["", " ", "-", "--", "1-", "-1", "1,2", "1,,2", ",", "1-2-3", "a", "1a", "0", "2-1", "99999999999999999999", "-99999999999999999999", "1e3", "1.5", "\"", "\"1", "'1'", "1 2", "1,2,",
            "x" * 3000, "1," * 600 + "1", "1-2," * 300 + "1", "1-" + "9" * 200, "%s%n%d", ":", "1:2", "2-4,7-", "\\", "1 ,2", "40,20", "2016", "2009-2010"]
    for k in sk:
        for v in vals:
            s = "%s: %s" % (k, v)
            for suite in ("bbob", "bbob-biobj"):
                out.append(("suite %s %r" % (suite, s[:60]), ["S\t0\t%s\t%s\t%s" % (suite, s if k in ("instances", "year", "foo", "") else "", s if k not in ("instances", "year") else ""), "n\t0", "N\t1\t0\t-1", "G\t2\t0\t0", "F\t2", "f\t0"], False))
    for s in ["", "nosuite", "bbob ", "BBOB", "bbob" * 500, "%s%n"]:
        out.append(("suite name %r" % s[:30], ["S\t0\t%s\t\t" % s, "f\t0"], False))
        out.append(("observer name %r" % s[:30], ["O\t0\t%s\tresult_folder: w" % s, "o\t0"], False))
    keys = ["result_folder", "algorithm_name", "algorithm_info", "number_target_triggers", "log_target_precision", "lin_target_precision", "number_evaluation_triggers", "base_evaluation_triggers",
            "precision_x", "precision_f", "precision_g", "log_discrete_as_int", "outer_folder", "log_nondominated", "log_decision_variables", "compute_indicators", "produce_all_data",
            "log_variables", "log_constraints", "log_only_better", "log_time", "low_dim_vars", "low_dim_cons", "foo", ""]
    ov = ["", " ", "0", "1", "-1", "5", "1e-3", "nan", "inf", "-inf", "1e400", "99999999999999999999", "abc", "\"", "\"a b\"", "\"a b", "a b c", "1,2,5", "\"1,2,5\"", "1,,2", ",", "0,0", "all", "none", "low_dim", "final", "read",
          "x" * 150, "x" * 3000, "\"" + "y z " * 700 + "\"", "1," * 500 + "1", "%s%n%d", ":", "a:b", "\\"]
    for ob, suite, dim, f in (("bbob", "bbob", 2, 1), ("bbob-biobj", "bbob-biobj", 2, 1), ("rw", "bbob-constrained", 2, 1), ("toy", "toy", 2, 1), ("bbob-old", "bbob", 2, 3)):
        for k in keys:
            for v in ov:
                s = "%s: %s" % (k, v)
                if k == "result_folder" and v in ("\\",):
                    continue
                c = ["S\t0\t%s\t%s\tdimensions: %d" % (suite, "instances: 1" if suite != "toy" else "", dim), "O\t0\t%s\t%s" % (ob, s), "G\t2\t0\t%d" % (f - 1), "A\t2\t0", "E\t2\t1\t2", "E\t2\t0.5\t0.5", "M\t2\t0\t0", "F\t2", "o\t0", "f\t0"]
                out.append(("observer %s %r" % (ob, s[:60]), c, False))
    # restart signals for a problem the observer does not observe, indices far out, no observer
    base = ["S\t0\tbbob\tinstances: 1\tdimensions: 2", "O\t0\tbbob\tresult_folder: w", "G\t2\t0\t3"]
    end = ["F\t2", "o\t0", "f\t0"]
    out.append(("restart signal without observation", base + ["E\t2\t1\t1", "T\t0\t2"] + end, False))
    out.append(("restart signal under another observer", base + ["O\t1\trw\tresult_folder: v", "A\t2\t1", "E\t2\t1\t1", "T\t0\t2", "E\t2\t1\t1", "o\t1"] + end, False))
    for suite, dim, i in (("bbob-mixint", 5, 1), ("bbob-biobj", 2, 1), ("bbob-biobj-mixint", 5, 1), ("bbob-constrained", 2, 1), ("bbob-noisy", 2, 1), ("bbob-boxed", 3, 1), ("bbob-largescale", 20, 1), ("toy", 2, 1)):
        for ob in ("bbob", "bbob-biobj"):
            for f in (0, 5):
                x = core.xs([1.0] * dim)
                out.append(("restart signal without observation", ["S\t0\t%s\tinstances: %d\tdimensions: %d" % (suite, i, dim), "O\t0\t%s\tresult_folder: w" % ob, "G\t2\t0\t%d" % f,
                            "T\t0\t2", "E\t2\t" + x, "T\t0\t2", "O\t1\trw\tresult_folder: v", "A\t2\t1", "T\t0\t2", "E\t2\t" + x, "T\t0\t2", "R\t2\t1", "o\t1"] + end, False))
    out.append(("remove without observer", base + ["R\t2\t0"] + end, False))
    out.append(("remove another observer", base + ["O\t1\trw\tresult_folder: v", "A\t2\t0", "R\t2\t1"] + end, False))
    for i in ("24", "25", "1000000", "18446744073709551615"):
        out.append(("index %s" % i, base + ["G\t3\t0\t%s" % i, "d\t0\t%s" % i] + end, False))
    for tr in (("0", "2", "1"), ("25", "2", "1"), ("1", "7", "1"), ("1", "2", "99"), ("18446744073709551615",) * 3):
        out.append(("triple %s" % (tr,), base + ["B\t3\t0\t%s\t%s\t%s" % tr] + end, False))
    return out


def archives():
    out = []
    for suite, f, d, i in (("bbob-biobj", 1, 2, 1), ("bbob-biobj-ext", 80, 5, 3), ("bbob-biobj", 55, 40, 10)):
        n = "an\t0\t%s\t%d\t%d\t%d" % (suite, f, d, i)
        adds = ["aa\t0\t%g\t%g\tt%d" % (a, b, k) for k, (a, b) in enumerate(((1e5, 1e5), (3e4, 2e5), (1e5, 1e5), (1e3, 1e3), (1e9, -1e9), (5e4, 5e3)))]
        for depth in range(0, 4):
            for h in itertools.product(adds[:5] + ["ac\t0", "ah\t0", "at\t0"], repeat=depth):
                out.append(("archive", [n] + list(h) + ["af\t0"], True))
    out.append(("archive of no suite", ["an\t0\tfoo\t1\t2\t1"], False))
    out.append(("archive of a single-objective suite", ["an\t0\tbbob\t1\t2\t1", "af\t0"], False))
    out.append(("archive of a missing problem", ["an\t0\tbbob-biobj\t77\t2\t1", "af\t0"], False))
    out.append(("two archives", ["an\t0\tbbob-biobj\t7\t2\t1", "an\t1\tbbob-biobj\t8\t2\t1", "aa\t0\t1\t1\tx", "af\t0", "aa\t1\t1\t1\ty", "at\t1", "af\t1"], True))
    return out


def main():
    wraps = core.WRAPS + "".join(",--wrap=" + f for f in "fopen fclose vfprintf fprintf fputs fputc putc fwrite fread fgets fflush".split())
    exe = core.build_driver("drv16", ("driver.c", "heap.c"), UB, wraps)
    msan = core.build_driver("drv16m", ("driver.c", "heap.c"), MS, wraps, comp="clang")
    x2 = ["0.5\t0.25", "-1\t2"]
    x5 = ["1\t2\t3\t4\t0.5", "0\t0\t1\t7\t-2"]
    S = lambda s, d, i="1-2": (s, "instances: " + i, "dimensions: %d function_indices: 1" % d)
    cfgs = [
        dict(name="bbob/bbob+rw", suites=[S("bbob", 2)], obs=("bbob", "rw"), two=False, n=2, rec=True, x=x2),
        dict(name="bbob/bbob+bbob", suites=[S("bbob", 2), S("bbob-constrained", 2)], obs=("bbob", "bbob"), two=True, n=2, rec=False, x=x2),
        dict(name="constrained/rw+bbob", suites=[S("bbob-constrained", 2)], obs=("rw", "bbob"), two=False, n=2, rec=False, cons=True, x=x2),
        dict(name="biobj/biobj+rw", suites=[S("bbob-biobj", 2)], obs=("bbob-biobj", "rw"), two=False, n=2, rec=True, x=x2),
        dict(name="biobj-mixint/final+off", suites=[S("bbob-biobj-mixint", 5), S("bbob-biobj-ext", 5)], i3=369, obs=("bi-final", "bi-off"), two=True, n=2, rec=True, x=x5),
        dict(name="noisy/bbob+toy", suites=[S("bbob-noisy", 2)], obs=("bbob", "toy"), two=False, n=2, rec=False, x=x2),
        dict(name="bbob/old+none", suites=[S("bbob", 2)], obs=("bbob-old", "no_observer"), two=False, n=2, rec=True, x=x2),
        dict(name="mixint/bbob+rw", suites=[S("bbob-mixint", 5), S("bbob-boxed", 5)], i3=97, obs=("bbob", "rw"), two=True, n=2, rec=False, x=x5),
    ]
    depth = 5 if THOROUGH else 4
    jobs = []
    for c in cfgs:
        jobs += [(c, p, depth) for p in prefixes(c, 2)]
        ck.stats.sample("%s: every legal sequence of %d lifecycle operations, then three orders of freeing" % (c["name"], depth))
    scripts = wide() + malformed() + archives()
    core.explore(ck, script, scripts, exe, chunk=20)
    # the same under MemorySanitizer: no decision and no output depends on memory that was never written
    if len(ck.violations) < 3:
        core.explore(ck, script, scripts, msan, chunk=20)
    if len(ck.violations) < 3:
        core.explore(ck, work, [(c, p, depth - 1) for c in cfgs for p in prefixes(c, 1)], msan, chunk=2)
    if len(ck.violations) < 3:
        core.explore(ck, work, jobs, exe, chunk=2)
    ck.extra["single_histories"] = len(scripts)
    ck.assumptions.append("freeing a suite before the problems taken from it is not legal; a problem owned by the iteration is freed by the suite only; ASan+UBSan judge memory, the live heap is compared before and after")
    ck.finish()


core.main(main)
