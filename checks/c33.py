"""C33: what the Python package delivers for a budget: ProblemNonAnytime over all sequences of evaluations and deliveries up to the
bound (real cocoex, compared with the C library observing exactly the evaluations the class promises to observe), and
solvers.random_search over all outcomes of the evaluations of short runs."""
import os
import sys
PY = "/opt/vp/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/vp/venv") and os.path.exists(PY):
    os.execv(PY, [PY] + sys.argv)
import importlib.util
import itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import numpy as np  # noqa: E402
import core  # noqa: E402
import pybuild  # noqa: E402
import pyrun  # noqa: E402
from core import THOROUGH, Violation, Died  # noqa: E402

ck = core.Check("C33")
sys.dont_write_bytecode = True
W = {}


def load(name):
    p = os.path.join(core.REPO, "build/python/src/cocoex/%s.py" % name)
    spec = importlib.util.spec_from_file_location("cocoex_" + name, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


SOLVERS = load("solvers")

# ---- ProblemNonAnytime
SUITES = {
    "bbob": (("bbob", "", "dimensions:2 function_indices:1,3 instance_indices:1-2"), 0, (1, 2, 1)),
    "bbob3": (("bbob", "", "dimensions:3 function_indices:1,3 instance_indices:1"), 1, (3, 3, 1)),
    "cons": (("bbob-constrained", "", "dimensions:2 function_indices:1,9 instance_indices:1"), 0, (1, 2, 1)),
    "mixint": (("bbob-mixint", "", "dimensions:5 function_indices:1,15 instance_indices:1"), 1, (15, 5, 1)),
    "large": (("bbob-largescale", "", "dimensions:20 function_indices:1 instance_indices:1-2"), 1, (1, 20, 2)),
}
CONST = ["dimension", "id", "index", "info", "initial_solution", "lower_bounds", "name", "number_of_constraints", "number_of_objectives", "number_of_variables", "upper_bounds"]


def fx(v):
    return ["f", v.hex()] if v == v else ["f", "nan"]


def points(name, drv):
    """three points of which the last one is the optimum"""
    if name not in W:
        args, idx, t = SUITES[name]
        a = drv.run(["S\t0\t%s\t%s\t%s" % args, "B\t0\t0\t%d\t%d\t%d" % t, "K\t0", "F\t0", "f\t0"])
        opt = [float(v) for v in a[2].split("\t")[1:]]
        lo, hi = ([1.0] * t[1], [2.0] * t[1]) if name == "mixint" else ([0.5] * t[1], [-1.5] * t[1])
        W[name] = [lo, hi, opt]
    return W[name]


def model(name, seq, drv):
    """lines, expectations, C commands. The best observed value is tracked here: the C library keeps the smallest (feasible) one."""
    args, idx, t = SUITES[name]
    xs = points(name, drv)
    if ("val", name) not in W:
        a = drv.run(["S\t0\t%s\t%s\t%s" % args, "B\t0\t0\t%d\t%d\t%d" % t, "Q\t0"] + [c for x in xs for c in ("E\t0\t" + core.xs(x),)] + ["F\t0"]
                    + [c for x in xs for c in ("B\t0\t0\t%d\t%d\t%d" % t, "E\t0\t" + core.xs(x), "Q\t0", "F\t0")] + ["f\t0"])
        W[("val", name)] = [float(a[3 + k].split("\t")[0]) for k in range(len(xs))]
        start = float(a[2].split("\t")[3])
        # the value as best observed value (infeasible ones do not count)
        W[("feas", name)] = [float(a[3 + len(xs) + 1 + 4 * k + 2].split("\t")[3]) for k in range(len(xs))]
        W[("start", name)] = start
    val, feas = W[("val", name)], W[("feas", name)]
    lines = ["s = cocoex.Suite(%r, %r, %r)" % args, "o = cocoex.Observer('bbob', 'result_folder: r')", "p = cocoex.utilities.ProblemNonAnytime(s, o, %d)" % idx]
    cmds = ["S\t0\t%s\t%s\t%s" % args, "O\t0\tbbob\tresult_folder: r", "B\t0\t0\t%d\t%d\t%d" % t, "A\t0\t0"]
    exp = ["any"] * 3
    n = obs = 0
    best = W[("start", name)]

    def ask():
        cmds.append("Q\t0")
        lines.append("[p.evaluations, p.p_observed.evaluations, bool(p.final_target_hit), p.best_observed_fvalue1]")
        exp.append(("Q", len(cmds) - 1, n))
    ask()
    for op, k in seq:
        x = xs[k]
        if op == "E":
            if n >= obs:
                cmds.append("E\t0\t" + core.xs(x))
                obs += 1
                best = min(best, feas[k])
            n += 1
            lines.append("p(%r)" % (x,))
            exp.append(val[k])
        elif op == "R":
            lines.append("p.reset()")
            exp.append("any")
            n = 0
        else:
            lines.append("p.delivered(%r)" % (x,))
            if n < obs:
                exp.append("exc")
            else:
                exp.append("any")
                if val[k] != best:
                    cmds.append("E\t0\t" + core.xs(x))
                    obs += 1
                    best = min(best, feas[k])
                n = 0
        ask()
    q = len(cmds)
    cmds += ["D\t0", "W\t0", "X\t0"]
    for a in CONST:
        lines.append("p.%s" % a)
        exp.append(("const", a, q))
    lines.append("bool(all(p.lower_bounds <= p.random_solution) and all(p.random_solution <= p.upper_bounds))")
    exp.append(True)
    lines.append("p.free()")
    exp.append("any")
    lines.append("o.free()")
    exp.append("any")
    cmds += ["F\t0", "o\t0", "f\t0"]
    return lines, exp, cmds


def vec(a):
    return [fx(float(v)) for v in a.split("\t")]


def sequences(item, drv, st, viol):
    name, head, L = item
    if "py" not in W:
        W["py"] = pyrun.Py()
    ops = [("E", 0), ("E", 1), ("E", 2), ("D", 0), ("D", 1), ("D", 2), ("R", 0)]
    for rest in itertools.product(ops, repeat=L - len(head)):
        seq = tuple(head) + rest
        lines, exp, cmds = model(name, seq, drv)
        ans = drv.run(cmds)
        rep = {"lines": lines, "c": cmds}
        try:
            got = W["py"].run(lines)
        except Died as d:
            raise Violation("%s: %s" % (d, lines), rep)
        for ln, e, g in zip(lines, exp, got):
            if e == "exc":
                ok = g[0] == "exc"
            elif g[0] != "ok":
                ok = False
            elif e == "any":
                ok = True
            elif isinstance(e, tuple) and e[0] == "Q":
                a = ans[e[1]].split("\t")
                ok = g[1] == [e[2], int(a[0]), a[2] == "1", fx(float(a[3]))]
                e = (e[2], ans[e[1]])
            elif isinstance(e, tuple):
                D = ans[e[2]].split("\t")
                lh = vec(ans[e[2] + 1])
                d = len(lh) // 2
                w = {"dimension": int(D[2]), "id": D[0], "index": int(D[1]), "initial_solution": vec(ans[e[2] + 2]), "lower_bounds": lh[:d], "upper_bounds": lh[d:2 * d], "name": D[6],
                     "number_of_constraints": int(D[4]), "number_of_objectives": int(D[3]), "number_of_variables": int(D[2])}
                ok = g[1] == w[e[1]] if e[1] in w else D[0] in str(g[1])
                e = w.get(e[1], e)
            elif e is True:
                ok = g[1] is True
            else:
                ok = g[1] == fx(e)
            if not ok:
                raise Violation("%s: %s gives %s instead of %s" % (name, ln, g[1], e), rep)
        a, b = [core.read_tree(d + "/exdata") if os.path.isdir(d + "/exdata") else {} for d in (W["py"].dir + "/w", drv.dir)]
        if a != b:
            dif = [f for f in sorted(set(a) | set(b)) if a.get(f) != b.get(f)]
            raise Violation("the log files differ: %s: %r instead of %r after %s" % (dif[:3], str(a.get(dif[0]))[-300:], str(b.get(dif[0]))[-300:], seq), rep)
        st.state((name, seq))
        st.add("transitions", len(lines))
        st.add("traces_validated_against_impl")


# ---- random_search
class Fun:
    """a problem whose i-th point has the i-th outcome"""

    def __init__(self, outcomes, lb, ub, m, nobj):
        self.outcomes, self.lb, self.ub = outcomes, lb, ub
        self.number_of_constraints, self.number_of_objectives = m, nobj
        self.dimension = self.number_of_variables = len(lb)
        self.lower_bounds, self.upper_bounds = lb, ub
        self.seen, self.evaluations, self.evaluations_constraints, self.evald, self.x = {}, 0, 0, set(), []

    def outcome(self, x):
        x = np.array(x, dtype=float)
        if x.shape != (self.dimension,) or not (np.all(x >= self.lb) and np.all(x <= self.ub)):
            raise Violation("random_search evaluates %s, which is not within the bounds" % (x[:3],), {})
        k = x.tobytes()
        if k not in self.seen:
            if len(self.x) >= len(self.outcomes):
                raise Violation("random_search examines more than the %d points of its budget" % len(self.outcomes), {"outcomes": self.outcomes})
            self.seen[k] = len(self.x)
            self.x.append(x)
        return self.seen[k], self.outcomes[self.seen[k]]

    def __call__(self, x):
        self.evaluations += 1
        k, (f, c) = self.outcome(x)
        self.evald.add(k)
        return float(f) if self.number_of_objectives == 1 else np.array([f, -f], dtype=float)

    def constraint(self, x):
        self.evaluations_constraints += 1
        f, c = self.outcome(x)[1]
        return np.array(c, dtype=float)


def search(item, drv, st, viol):
    dim, m, nobj, budget, first = item
    feas = [()] if m == 0 else [(-1.0,) * m, (0.0,) * m, (0.5,) * m] + ([(-1.0, 2.0), (3.0, 0.0)] if m == 2 else [])
    alpha = [(f, c) for f in (0, 1, 2) for c in feas]
    if first is not None and first >= len(alpha):
        return
    for o in itertools.product(alpha, repeat=max(0, budget - 1)) if budget > 0 else [()]:
        out = ([alpha[first]] if budget > 0 else []) + list(o)
        lb, ub = np.full(dim, -5.0), np.linspace(1, 4, dim)
        for asarr in (True, False) if dim < 10 else (True,):
            fun = Fun(out, lb, ub, m, nobj)
            lb0, ub0 = lb.copy(), ub.copy()
            rep = {"outcomes": out, "dimension": dim, "objectives": nobj, "constraints": m, "budget": budget}
            try:
                r = SOLVERS.random_search(fun, lb if asarr else list(lb), ub if asarr else list(ub), budget)
            except Violation as v:
                v.replay = dict(v.replay or {}, **rep)
                raise
            except Exception as e:
                raise Violation("random_search with budget %d and outcomes %s raises %s: %s" % (budget, out, type(e).__name__, e), rep)
            if np.any(lb != lb0) or np.any(ub != ub0):
                raise Violation("random_search changes the bounds it is given", rep)
            if fun.evaluations > max(0, budget) or fun.evaluations_constraints > max(0, budget) or (m == 0 and fun.evaluations != max(0, budget)) or (budget > 0 and not fun.evaluations):
                raise Violation("random_search with budget %d makes %d evaluations and %d constraint evaluations" % (budget, fun.evaluations, fun.evaluations_constraints), rep)
            if nobj == 1:
                ok = [k for k in range(len(fun.x)) if k in fun.evald and all(v <= 0 for v in out[k][1])]
                best = min((out[k][0] for k in ok), default=None)
                if best is None:
                    good = r is None
                else:
                    good = r is not None and any(np.array_equal(r, fun.x[k]) for k in ok if out[k][0] == best)
                if not good:
                    which = None if r is None else [k for k in range(len(fun.x)) if np.array_equal(r, fun.x[k])]
                    raise Violation("random_search with outcomes (value, constraints) %s returns %s, not the best feasible one of the points" % (out[:len(fun.x)], "None" if r is None else "point %s" % which), rep)
            st.add("transitions", fun.evaluations + fun.evaluations_constraints)
            st.state((dim, m, nobj, tuple(out)))
    st.add("traces_validated_against_impl")


def main():
    exe = core.build_driver()
    _, pyrun.ENV = pybuild.build()
    np.random.seed(1)
    it = []
    for m in (0, 1, 2):
        for nobj in (1, 2):
            for budget in range(-1, 6 if m == 0 else 5 if m == 1 or THOROUGH else 4):
                for dim in (1, 3, 40000, 20000):
                    if dim >= 10 and (budget > 4 or m == 2) and not THOROUGH:
                        continue
                    for first in range(15) if budget > 0 else (None,):
                        if dim >= 10 and budget > 3 and not THOROUGH and first > 4:
                            continue
                        it.append((dim, m, nobj, budget, first))
    core.explore(ck, search, it, exe, chunk=2)
    ops = [("E", 0), ("E", 1), ("E", 2), ("D", 0), ("D", 1), ("D", 2), ("R", 0)]
    it = []
    for name in SUITES:
        L = {"bbob": 5}.get(name, 4) + (1 if THOROUGH else 0)
        it += [(name, h, L) for h in itertools.product(ops, repeat=2)]
    core.explore(ck, sequences, it, exe, chunk=1)
    ck.assumptions += ["single-objective problems without noise; at most the stated number of points per random search (chunks of 2 and 3 points in dimensions 40000 and 20000)",
                       "a delivered solution whose value equals the best observed value was evaluated before (as documented)"]
    ck.finish()


core.main(main)
