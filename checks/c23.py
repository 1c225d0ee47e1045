"""C23: every sequence of operations of the Python interface up to the bound, valid and invalid, on the real cocoex built from
the working tree (under AddressSanitizer), against the C library driven with the corresponding C calls."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
import pybuild  # noqa: E402
import pyrun  # noqa: E402
from pyrun import Py  # noqa: E402
from core import THOROUGH, Violation, Died  # noqa: E402

ck = core.Check("C23")
W = {}
EXC, ANY = object(), object()


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


SUITES = {
    # name -> (Python arguments, kind of observer, number of problems, functions/dimension/instances)
    "bbob": (("bbob", "", "dimensions:2 function_indices:1,20 instance_indices:1-2"), "bbob", [(1, 2, 1), (1, 2, 2), (20, 2, 1), (20, 2, 2)]),
    "biobj": (("bbob-biobj", "", "dimensions:2 function_indices:1,3 instance_indices:1"), "bbob-biobj", [(1, 2, 1), (3, 2, 1)]),
    "cons": (("bbob-constrained", "", "dimensions:2 function_indices:1,9 instance_indices:1"), "bbob", [(1, 2, 1), (9, 2, 1)]),
    "mixint": (("bbob-mixint", "", "dimensions:5 function_indices:1,15 instance_indices:1"), "bbob", [(1, 5, 1), (15, 5, 1)]),
    "noisy": (("bbob-noisy", "", "dimensions:2 function_indices:1,30 instance_indices:1"), "bbob", [(101, 2, 1), (130, 2, 1)]),
    "boxed": (("bbob-boxed", "", "dimensions:2 function_indices:1,20 instance_indices:1"), "bbob", [(1, 2, 1), (20, 2, 1)]),
    "large": (("bbob-largescale", "", "dimensions:20 function_indices:1,6 instance_indices:1"), "bbob", [(1, 20, 1), (6, 20, 1)]),
    "biomix": (("bbob-biobj-mixint", "", "dimensions:5 function_indices:1,3 instance_indices:1"), "bbob-biobj", [(1, 5, 1), (3, 5, 1)]),
}


class Model:
    """what the objects of the Python program are, and which C calls they stand for"""

    def __init__(self):
        self.lines, self.cmds, self.exp = [], [], []
        self.v = {}  # Python variable -> object
        self.n = {"s": 0, "p": 0, "o": 0}
        self.objs = []

    def fresh(self, k):
        self.n[k] += 1
        return self.n[k] - 1

    def c(self, *a):
        self.cmds.append("\t".join(str(x) for x in a))
        return len(self.cmds) - 1

    def py(self, line, exp, cs=()):
        self.lines.append(line)
        self.exp.append((exp, list(cs)))

    def refs(self):
        """objects that are referred to"""
        seen = []
        todo = [o for o in self.v.values() if o is not None]
        while todo:
            o = todo.pop()
            if any(o is q for q in seen):
                continue
            seen.append(o)
            todo += [q for q in o.held if q is not None]
        return seen

    def collect(self):
        """CPython destroys at once what is no longer referred to"""
        r = self.refs()
        gone = [o for o in self.objs if not any(o is q for q in r)]
        for o in sorted(gone, key=lambda o: o.kind != "p"):
            if o.kind == "p" and not o.freed:
                self.c("F", o.c)
            if o.kind == "o" and not o.freed:
                self.c("o", o.c)
            self.objs = [q for q in self.objs if q is not o]

    def free_problem(self, p):
        if p is not None and not p.freed:
            self.c("F", p.c)
            p.freed = True

    # ---- suites
    def suite(self, var, name):
        args = SUITES[name][0]
        self.c("Z")
        k = self.fresh("s")
        self.c("S", k, *args)
        s = Obj(kind="s", c=k, name=name, size=len(SUITES[name][2]), cur=None, prob=None, freed=False, held=[])
        self.objs.append(s)
        self.v[var] = s
        self.py("%s = cocoex.Suite(%r, %r, %r)" % ((var,) + args), ANY)
        self.collect()

    def index(self, s, i):
        """the index of the C suite of problem i: asked for, as the C library numbers them"""
        t = SUITES[s.name][2][i]
        return t

    def new_problem(self, s, i):
        f, d, inst = SUITES[s.name][2][i]
        k = self.fresh("p")
        at = self.c("B", k, s.c, f, d, inst)
        p = Obj(kind="p", c=k, suite=s.name, i=i, freed=False, observers=[], held=[], dim=d, at=at)
        self.objs.append(p)
        return p

    def dead(self, *objs):
        return any(o is None for o in objs)


def cmp(exp, got, ans):
    """exp: what the line must give; ans: answers of the C library; None if it agrees"""
    if exp is ANY:
        return None if got[0] == "ok" else "exception %s" % got[1]
    if exp is EXC:
        return None if got[0] == "exc" else "no exception but %s" % (got[1],)
    if exp == "either":
        return None
    if got[0] != "ok":
        return "exception %s" % got[1]
    e = exp(ans) if callable(exp) else exp
    if isinstance(e, float):
        e = fx(e)
    if e != got[1]:
        return "%s instead of %s" % (got[1], e)
    return None


def fx(v):
    return ["f", v.hex()] if v == v else ["f", "nan"]


def vec(a):
    return [fx(float(t)) for t in a.split("\t")]


def scalar_or_vec(a):
    r = vec(a)
    return r[0] if len(r) == 1 else r


# ---- operations: f(model) -> False when the operation makes no sense (no such variable)
def op_next(var, sv="s", ov=None):
    def f(m):
        s, o = m.v.get(sv), m.v.get(ov) if ov else None
        if s is None or (ov and o is None):
            return False
        line = "%s = %s.next_problem(%s)" % (var, sv, ov or "")
        if s.freed:
            m.py(line, EXC)
            return
        m.free_problem(s.prob)
        s.cur = 0 if s.cur is None else s.cur + 1
        if s.cur >= s.size:
            s.prob, s.held, m.v[var] = None, [], None
        else:
            s.prob = m.new_problem(s, s.cur)
            s.held = [s.prob]
            m.v[var] = s.prob
            if ov:
                attach(m, s.prob, o)
        m.py(line, ANY)
        m.collect()
        m.py("None if %s is None else %s.id" % (var, var), None if m.v[var] is None else ident, [] if m.v[var] is None else [m.c("D", m.v[var].c)])
    return f


def ident(a):
    return a[0].split("\t")[0]


def attach(m, p, o):
    m.c("A", p.c, -1 if o.freed else o.c)
    p.observers.append(o)
    p.held = p.observers


def op_get(var, how, i, sv="s", ov=None):
    def f(m):
        s, o = m.v.get(sv), m.v.get(ov) if ov else None
        if s is None or (ov and o is None):
            return False
        line = "%s = %s" % (var, how % {"s": sv, "o": ov})
        if s.freed or i is None:
            m.py(line, EXC)
            return
        p = m.new_problem(s, i % s.size)
        if ov:
            attach(m, p, o)
        m.v[var] = p
        m.py(line, ANY)
        m.collect()
        m.py(var + ".id", ident, [m.c("D", p.c)])
    return f


def op_iter(var, sv="s"):
    def f(m):
        s = m.v.get(sv)
        if s is None:
            return False
        m.v[var] = Obj(kind="i", suite=s, held=[s], started=False, over=False)
        m.objs.append(m.v[var])
        m.py("%s = iter(%s)" % (var, sv), ANY)
        m.collect()
    return f


def op_step(var, iv):
    """p = next(it, None): a generator that resets the suite at its first step"""
    def f(m):
        it = m.v.get(iv)
        if it is None:
            return False
        s = it.suite
        line = "%s = next(%s, None)" % (var, iv)
        if it.over:
            m.v[var] = None
            m.py(line, ANY)
            m.collect()
            return
        if not it.started:
            it.started = True
            m.free_problem(s.prob)
            s.prob, s.held, s.cur = None, [], None
        if s.freed:
            it.over, it.held = True, []
            m.py(line, EXC)
            m.collect()
            return
        m.free_problem(s.prob)
        s.cur = 0 if s.cur is None else s.cur + 1
        if s.cur >= s.size:
            s.prob, s.held, m.v[var] = None, [], None
            it.over, it.held = True, []
        else:
            s.prob = m.new_problem(s, s.cur)
            s.held = [s.prob]
            it.held = [s, s.prob]
            m.v[var] = s.prob
        m.py(line, ANY)
        m.collect()
    return f


def op_reset(sv="s"):
    def f(m):
        s = m.v.get(sv)
        if s is None:
            return False
        m.free_problem(s.prob)
        s.prob, s.held, s.cur = None, [], None
        m.py(sv + ".reset()", ANY)
        m.collect()
    return f


def op_sfree(sv="s"):
    def f(m):
        s = m.v.get(sv)
        if s is None:
            return False
        s.freed = True
        m.py(sv + ".free()", ANY)
    return f


def op_del(var):
    def f(m):
        if m.v.get(var) is None:
            return False
        m.v[var] = None
        m.py("%s = None" % var, ANY)
        m.collect()
    return f


def op_alias(a, b):
    def f(m):
        if m.v.get(b) is None:
            return False
        m.v[a] = m.v[b]
        m.py("%s = %s" % (a, b), ANY)
        m.collect()
    return f


def op_suite(var, name):
    def f(m):
        m.suite(var, name)
    return f


def op_observer(var, name, opts):
    def f(m):
        k = m.fresh("o")
        at = m.c("O", k, name, opts)
        o = Obj(kind="o", c=k, freed=name in ("no_observer", "unknown"), held=[], at=at)
        m.objs.append(o)
        m.v[var] = o
        m.py("%s = cocoex.Observer(%r, %r)" % (var, name, opts), ANY)
        m.collect()
        m.py(var + ".result_folder", (lambda a: a[0]) if not o.freed else "either", [at])
    return f


def op_ofree(var):
    def f(m):
        o = m.v.get(var)
        if o is None:
            return False
        if not o.freed:
            m.c("o", o.c)
        o.freed = True
        m.py(var + ".free()", ANY)
        m.py(var + ".result_folder", "either")
    return f


def op_observe(var, ov, form="%s.observe_with(%s)"):
    def f(m):
        p, o = m.v.get(var), m.v.get(ov)
        if p is None or o is None:
            return False
        line = form % ((var, ov) if form[:2] == "%s" and ".observe(" not in form else (ov, var))
        if p.freed:
            m.py(line, EXC)
            return
        attach(m, p, o)
        m.py(line, ANY)
    return f


X = {2: [0.5, -1.25], 5: [1.0, 2.0, 3.0, 9.0, 0.25], 20: [0.1 * k - 1 for k in range(20)]}


def op_call(var, form="%s(%r)", shift=0.0):
    def f(m):
        p = m.v.get(var)
        if p is None:
            return False
        x = [v + shift for v in X[p.dim]]
        line = form % (var, x)
        if p.freed:
            m.py(line, EXC)
            return
        m.py(line, lambda a: scalar_or_vec(a[0]), [m.c("E", p.c, *[core.fl(v) for v in x])])
    return f


def op_con(var):
    def f(m):
        p = m.v.get(var)
        if p is None:
            return False
        line = "%s.constraint(%r)" % (var, X[p.dim])
        if p.suite != "cons":
            m.py(line, "either")
        elif p.freed:
            m.py(line, EXC)
        else:
            m.py(line, lambda a: vec(a[0]), [m.c("C", p.c, *[core.fl(v) for v in X[p.dim]])])
    return f


def op_rec(var):
    def f(m):
        p = m.v.get(var)
        if p is None:
            return False
        line = "%s.recommend(%r)" % (var, X[p.dim])
        if p.freed:
            m.py(line, EXC)
        else:
            m.c("M", p.c, *[core.fl(v) for v in X[p.dim]])
            m.py(line, None)
    return f


def op_restart(ov, var):
    def f(m):
        p, o = m.v.get(var), m.v.get(ov)
        if p is None or o is None:
            return False
        line = "%s.signal_restart(%s)" % (ov, var)
        if p.freed:
            m.py(line, EXC)
            return
        if not o.freed:
            m.c("T", o.c, p.c)
        m.py(line, None)
    return f


def op_pfree(var):
    def f(m):
        p = m.v.get(var)
        if p is None:
            return False
        m.free_problem(p)
        m.py(var + ".free()", None)
    return f


def bad(line, needs, exp=EXC):
    def f(m):
        if any(m.v.get(n) is None for n in needs):
            return False
        m.py(line, exp)
    return f


def final(m):
    """all questions about all objects at the end"""
    for var, o in list(m.v.items()):
        if o is None:
            continue
        if o.kind == "p":
            t = SUITES[o.suite][2][o.i]
            if o.freed:
                for q in ("evaluations", "evaluations_constraints", "initial_solution", "final_target_hit", "best_observed_fvalue1", "largest_fvalues_of_interest", "_best_parameter('print')"):
                    m.py("%s.%s" % (var, q), EXC)
                for q in ("id", "name", "index", "id_function", "id_instance", "id_triple", "info", "suite", "dimension", "is_observed", "lower_bounds"):
                    m.py("%s.%s" % (var, q), "either")
                m.py("str(%s) + repr(%s)" % (var, var), ANY)
                m.py("%s.free()" % var, ANY)
                continue
            D = m.c("D", o.c)
            m.py("[%s.id, %s.index, %s.dimension, %s.number_of_objectives, %s.number_of_constraints, %s.number_of_integer_variables, %s.name]" % ((var,) * 7),
                 lambda a: [v if k in (0, 6) else int(v) for k, v in enumerate(a[0].split("\t"))], [D])
            m.py("[%s.id_function, %s.id_instance, %s.id_triple, %s.number_of_variables, %s.suite, %s.is_observed, len(%s.observers)]" % ((var,) * 7),
                 [t[0], t[2], list(t), t[1], SUITES[o.suite][0][0], len(o.observers), len(o.observers)])
            bi = "bi" in o.suite
            m.py("[%s.evaluations, %s.evaluations_constraints]" % (var, var), lambda a: [int(v) for v in a[0].split("\t")], [m.c("q", o.c)])
            if not bi:
                Q = m.c("Q", o.c)
                m.py("%s.final_target_hit" % var, lambda a: a[0].split("\t")[2] == "1", [Q])
                m.py("%s.best_observed_fvalue1" % var, lambda a: fx(float(a[0].split("\t")[3])), [Q])
            m.py("list(%s.lower_bounds) + list(%s.upper_bounds)" % (var, var), lambda a: vec(a[0]), [m.c("W", o.c)])
            m.py("%s.initial_solution" % var, lambda a: vec(a[0]), [m.c("X", o.c)])
            m.py("%s.initial_solution_proposal(0)" % var, lambda a: vec(a[0]), [m.c("X", o.c)])
            m.py("all(%s.lower_bounds <= %s.initial_solution_proposal(3)) or %s.number_of_constraints > 0" % ((var,) * 3), True)
            m.py("%s.largest_fvalues_of_interest" % var, (lambda a: vec(a[0])) if bi else None, [m.c("w", o.c)] if bi else [])
        elif o.kind == "s":
            n = o.size
            trip = SUITES[o.name][2]
            m.py("len(%s)" % var, n)
            m.py("%s.dimensions" % var, sorted({t[1] for t in trip}))
            m.py("%s.number_of_objectives" % var, [2 if "bi" in o.name else 1])
            m.py("%s.current_index" % var, o.cur)
            m.py("%s.name" % var, SUITES[o.name][0][0])
            m.py("%s.instance" % var, SUITES[o.name][0][1])
            m.py("%s.options" % var, SUITES[o.name][0][2])
            m.py("str(%s) + repr(%s)" % (var, var), ANY)
            k = m.fresh("s")
            m.c("S", k, *SUITES[o.name][0])
            at = []
            for f, d, i in trip:
                q = m.fresh("p")
                at.append(m.c("B", q, k, f, d, i))
                m.c("F", q)
            m.c("f", k)
            m.py("%s.ids()" % var, lambda a: [v.split("\t")[0] for v in a], at)
            m.py("%s.indices" % var, lambda a: [int(v.split("\t")[1]) for v in a], at)
            m.py("%s.problem_names" % var, lambda a: [v.split("\t")[6] for v in a], at)
            p = o.prob
            m.py("None if %s.current_problem is None else (%s.current_problem.id or 'freed')" % (var, var), None if p is None else "freed" if p.freed else ident, [m.c("D", p.c)] if p is not None and not p.freed else [])
        elif o.kind == "o":
            m.py("%s.state" % var, "either")


def tree(d):
    return core.read_tree(d + "/exdata") if os.path.isdir(d + "/exdata") else {}


def compare(m, drv, st, what):
    ans = drv.run(m.cmds)
    if any(a in ("fatal", "abort", "assert", "skip") for a in ans):
        st.add("histories_the_C_library_refuses")
        return
    if "py" not in W:
        W["py"] = Py()
    rep = {"lines": m.lines, "c": m.cmds}
    try:
        got = W["py"].run(m.lines)
    except Died as d:
        raise Violation("%s: %s" % (d, m.lines), rep)
    for k, (g, (e, cs)) in enumerate(zip(got, m.exp)):
        bad_ = cmp(e, g, [ans[c] for c in cs])
        if bad_:
            raise Violation("%s gives %s, after %s" % (m.lines[k], bad_, m.lines[:k]), rep)
    # the driver frees nothing by itself: what Python destroyed at the end
    a, b = tree(W["py"].dir + "/w"), tree(drv.dir)
    if a != b:
        dif = [f for f in sorted(set(a) | set(b)) if a.get(f) != b.get(f)]
        raise Violation("the log files differ: %s: %r instead of %r after %s" % (dif[:3], str(a.get(dif[0]))[-300:], str(b.get(dif[0]))[-300:], m.lines), rep)
    st.add("traces_validated_against_impl")
    st.add("transitions", len(m.lines))


def end(m):
    """what the interpreter destroys at the end of the history"""
    m.v = {}
    m.collect()


def sequences(item, drv, st, viol):
    prefix, ops, head, length = item
    for rest in itertools.product(range(len(ops)), repeat=length - len(head)):
        m = Model()
        for op in prefix:
            op(m)
        ok = True
        for k in tuple(head) + rest:
            if ops[k](m) is False:
                ok = False
                break
        if not ok:
            continue
        final(m)
        end(m)
        compare(m, drv, st, None)
        st.state(tuple(sorted((v, o.kind, getattr(o, "freed", None), getattr(o, "cur", None), getattr(o, "i", None)) for v, o in m.v.items() if o)))
        st.state(tuple(m.lines))


def alphabet(name):
    args, kind, trip = SUITES[name]
    t = trip[-1]
    wrong = [0.0] * (t[1] + 1)
    ops = [op_next("p"), op_next("q", ov="o"), op_get("q", "%(s)s[1]", 1), op_get("p", "%(s)s.get_problem(0, %(o)s)", 0, ov="o"),
           op_get("q", "%%(s)s.get_problem_by_function_dimension_instance(%d, %d, %d)" % t, len(trip) - 1),
           op_iter("it"), op_step("p", "it"), op_reset(), op_sfree(), op_del("s"), op_del("p"), op_alias("q", "p"), op_del("o"),
           op_ofree("o"), op_observe("p", "o"), op_observe("q", "o"), op_observe("q", "o2"), op_call("p"), op_call("q", shift=1.0),
           op_rec("p"), op_restart("o", "p"), op_pfree("p"), op_pfree("q")]
    if name == "cons":
        ops.append(op_con("p"))
    bads = [bad("p(%r)" % wrong, ["p"]), bad("p('abc')", ["p"]), bad("s[%d]" % len(trip), ["s"]), bad("p.observe_with(7)", ["p"]), bad("s['bogus']", ["s"])]
    return ops, bads


def pre(name, second="rw"):
    kind = SUITES[name][1]
    return [op_suite("s", name), op_observer("o", kind, "result_folder: a"), op_observer("o2", second, "result_folder: b"), op_get("p", "%(s)s[0]", 0)]


def single_args(item, drv, st, viol):
    """every spelling of valid and invalid input, at two places of a short history"""
    name, group = item
    args, kind, trip = SUITES[name]
    t = trip[0]
    n = t[1]
    x = X[n]
    ev = lambda a: scalar_or_vec(a[0])  # noqa: E731
    good = ["p(%r)" % x, "p(tuple(%r))" % x, "p(np.array(%r))" % x, "p(np.array([[v, 0] for v in %r])[:, 0])" % x, "p(np.array(%r)[::-1][::-1])" % x,
            "p(np.asfortranarray(%r))" % x, "p(np.array(%r, dtype=object))" % x, "p(x=%r)" % x, "p.__call__(%r)" % x, "p(np.array(%r, dtype=np.longdouble))" % x]
    if name in ("bbob", "biobj"):
        good += ["p(np.array([1, 2]))", "p([1, 2])", "p([True, False])", "p(np.array([1.5, 2.5], dtype=np.float32))", "p(['1.5', '2'])", "p([np.nan, 1])", "p([np.inf, 1])", "p([1e300, -1e300])"]
    vals = {"p(np.array([1, 2]))": [1., 2.], "p([1, 2])": [1., 2.], "p([True, False])": [1., 0.], "p(np.array([1.5, 2.5], dtype=np.float32))": [1.5, 2.5], "p(['1.5', '2'])": [1.5, 2.],
            "p([np.nan, 1])": [float("nan"), 1.], "p([np.inf, 1])": [float("inf"), 1.], "p([1e300, -1e300])": [1e300, -1e300]}
    wrong = ["p([0.0] * %d)" % (n + 1), "p([0.0] * %d)" % (n - 1), "p([])", "p(0.0)", "p(None)", "p('x')", "p([%r])" % x, "p(np.zeros((%d, 1)))" % n, "p([1j] * %d)" % n, "p({})", "p()", "p(['a'] * %d)" % n,
             "p.recommend([0.0] * %d)" % (n + 1), "p.recommend(None)", "p.recommend([%r])" % x, "p.observe_with('x')", "p.observe_with(3)", "p.observe_with(s)", "p.observe_with(p)", "o.observe(None)",
             "o.observe(s)", "o.signal_restart(None)", "o.signal_restart(s)", "o.signal_restart(3)", "s[%d]" % len(trip), "s[10**30]", "s[-%d]" % (len(trip) + 1), "s['x']", "s[None]", "s[0.5]", "s[[0]]", "s[0:2]", "s[p]",
             "s[float('nan')]", "s[float('inf')]", "s.get_problem()", "s.get_problem('bbob_f001_i01_d99')", "s.get_problem(0, 'x')", "s.get_problem(0, 3)",
             "s.get_problem_by_function_dimension_instance(0, %d, 1)" % n, "s.get_problem_by_function_dimension_instance(999, %d, 1)" % n, "s.get_problem_by_function_dimension_instance(1, 7777, 1)",
             "s.get_problem_by_function_dimension_instance(1, %d, 99)" % n, "s.get_problem_by_function_dimension_instance(-1, 2, 1)", "s.get_problem_by_function_dimension_instance('a', 2, 1)",
             "s.get_problem_by_function_dimension_instance(1, None, 1)", "s.get_problem_by_function_dimension_instance(10**30, 2, 1)", "s.next_problem('x')", "s.ids('nothing', get_problem=True)",
             "cocoex.Suite('nonsense', '', '')", "cocoex.Suite('', '', '')", "cocoex.Suite(None, '', '')", "cocoex.Suite(3, '', '')", "cocoex.Suite('bbob', 3, '')", "cocoex.Suite('bbob', '', 3)", "cocoex.Suite('bbob', '\\xe9', '')",
             "cocoex.Suite('bbob', '', 'dimensions: 7')", "cocoex.Suite('bbob')", "cocoex.Observer(None, '')", "cocoex.Observer(3, '')", "cocoex.Observer('bbob', 3)", "cocoex.Observer('bbob', '\\xe9')", "cocoex.Observer('bbob')",
             "cocoex.log_level(3)", "p.logger_biobj_feed_solution(1, [1.0] * 7)", "p.logger_biobj_feed_solution(-1, [1.0])", "p.logger_biobj_feed_solution('a', [1.0])", "p.evaluations()", "setattr(p, 'evaluations', 3)", "setattr(p, 'id', 'x')",
             "cocoex.BareProblem('nonsense', 1, 2, 1)", "cocoex.BareProblem('bbob', 25, 2, 1)", "cocoex.BareProblem('bbob', 0, 2, 1)", "cocoex.BareProblem('bbob', 1, 0, 1)", "cocoex.BareProblem('bbob', 1, -2, 1)",
             "cocoex.BareProblem('bbob', 1, 2, -1)", "cocoex.BareProblem('bbob', 6, 45, 1)", "cocoex.BareProblem('bbob', 6, 10**9, 1)", "cocoex.BareProblem('bbob', 'a', 2, 1)", "cocoex.BareProblem(None, 1, 2, 1)",
             "cocoex.BareProblem('bbob', 1, 3, 1)([1.0])", "cocoex.BareProblem('bbob', 1, 3, 1)([])", "cocoex.BareProblem('bbob', 1, 3, 1)([1.0] * 4)", "cocoex.BareProblem('bbob', 1, 3, 1)(np.zeros((2, 4)))",
             "cocoex.BareProblem('bbob', 1, 3, 1)(np.zeros((4, 2)))", "cocoex.BareProblem('bbob', 1, 3, 1)(3.0)", "cocoex.BareProblem('bbob', 1, 3, 1)(None)", "cocoex.BareProblem('bbob', 1, 3, 1)(['a'] * 3)"]
    soft = ["p.constraint([0.0] * %d)" % (n + 1), "p.constraint(None)", "cocoex.Observer('', '')", "cocoex.Observer('unknown', '').result_folder", "cocoex.Observer('no_observer', '').result_folder", "cocoex.log_level('nonsense')",
            "s.ids('nothing')", "p.observe_with(None)", "p.initial_solution_proposal(-1)", "p._best_parameter()", "p.logger_biobj_feed_solution(1, [1.0] * p.number_of_objectives)", "cocoex.Observer('no_observer', '').signal_restart(p)",
            "cocoex.interface.Problem().dimension", "cocoex.interface.Problem().id", "cocoex.interface.Problem().evaluations", "cocoex.interface.Problem().initial_solution", "cocoex.interface.Problem()([1.0])", "cocoex.interface.Problem().free()", "s.get_problem(True).id"]
    for group_, lines in (("good", good), ("wrong", wrong), ("soft", soft)):
        if group_ != group:
            continue
        for line in lines:
            for observed in (False, True):
                if observed and kind == "bbob-biobj" and "feed_solution(1, [1.0] * p" in line:
                    continue  # which is a real solution
                m = Model()
                for op in pre(name):
                    op(m)
                if observed:
                    op_observe("p", "o")(m)
                op_call("p")(m)
                if group == "good":
                    xx = vals.get(line, x)
                    m.py(line, ev, [m.c("E", m.v["p"].c, *[core.fl(v) for v in xx])])
                elif group == "wrong":
                    m.py(line, EXC)
                else:
                    m.py("repr(%s)" % line, "either")
                    if "log_level" in line:
                        m.py("cocoex.log_level('error')", "either")
                    if "Observer('unknown'" in line:
                        m.c("O", m.fresh("o"), "unknown", "")
                if "Suite('bbob'" in line:
                    m.c("Z")
                if "next_problem" in line:  # the suite has moved on
                    s = m.v["s"]
                    s.cur = 0
                    s.prob = m.new_problem(s, 0)
                    s.held = [s.prob]
                op_call("p", shift=0.5)(m)
                op_next("q")(m) if "next_problem" not in line else None
                op_call("q")(m)
                final(m)
                end(m)
                if "Suite('bbob'" in line and name == "noisy":
                    continue
                compare(m, drv, st, line)
                st.state((name, line, observed))


def kept(item, drv, st, viol):
    """what was returned stays as it is, what was passed stays as it was, and an array changed in place is a new point"""
    import itertools
    name = item
    n = SUITES[name][2][0][1]
    a, b = X[n], [v + 0.5 for v in X[n]]
    ev = lambda q: scalar_or_vec(q[0])  # noqa: E731
    cv = lambda q: vec(q[0])  # noqa: E731
    big = [float(2 ** 24 + 1 + k) for k in range(n)]
    ops = ["E", "C", "I", "M", "inplace"]
    for observed in (False, True):
        for h in itertools.product(ops, repeat=3):
            if name != "cons" and "C" in h:
                continue
            m = Model()
            for op in pre(name):
                op(m)
            if observed:
                op_observe("p", "o")(m)
            pc = m.v["p"].c
            cur = list(a)
            m.py("x = np.array(%r)" % (a,), None)
            held = []
            for k, o in enumerate(h):
                pt = (a, b, a)[k]
                if o == "E":
                    j = m.c("E", pc, *[core.fl(v) for v in pt])
                    m.py("y%d = p(%r)" % (k, pt), None)
                    held.append(("y%d" % k, ev, [j]))
                elif o == "C":
                    j = m.c("C", pc, *[core.fl(v) for v in pt])
                    m.py("y%d = p.constraint(%r)" % (k, pt), None)
                    held.append(("y%d" % k, cv, [j]))
                elif o == "I":
                    m.py("y%d = p.initial_solution; z%d = y%d.copy(); y%d += 1.0" % (k, k, k, k), None)
                    held.append(("bool((p.initial_solution == z%d).all() and (y%d == z%d + 1.0).all())" % (k, k, k), True, ()))
                elif o == "M":
                    m.c("M", pc, *[core.fl(v) for v in cur])
                    m.py("p.recommend(x)", None)
                else:
                    cur = [cur[0] + 0.25] + cur[1:]
                    j = m.c("E", pc, *[core.fl(v) for v in cur])
                    m.py("x[0] += 0.25", None)
                    m.py("p(x)", ev, [j])
                m.py("x", [fx(v) for v in cur])
            for line, f, j in held:
                m.py(line, f, j)
            j = m.c("E", pc, *[core.fl(v) for v in big])
            m.py("p(np.array(%r))" % ([int(v) for v in big],), ev, [j])
            for line, f, j in held:
                m.py(line, f, j)
            final(m)
            end(m)
            compare(m, drv, st, h)
            st.state((name, "kept", h, observed))


def sweep(item, drv, st, viol):
    """every problem of a suite, by iteration and by index: attributes and values"""
    args, dimopts = item
    m = Model()
    m.c("Z")
    m.c("S", 0, *args)
    n = drv.run(list(m.cmds) + ["n\t0"])[-1]
    if n == "nop":
        return
    n = int(n)
    m.py("s = cocoex.Suite(%r, %r, %r)" % args, ANY)
    m.py("len(s)", None)
    ids = []
    probe = drv.run(["Z", "S\t0\t%s\t%s\t%s" % args] + ["N\t%d\t0\t-1" % (k % 2) for k in range(n)])
    order = [a.split("\t") for a in probe[2:]]
    order = order[:([o[0] for o in order] + ["null"]).index("null")]
    m.exp[-1] = (len(order), [])
    m.py("it = iter(s)", ANY)
    for k, o in enumerate(order):
        dim = int(o[2])
        m.c("G", 1, 0, o[1])
        x = [((3 * k + 7 * j) % 11) / 4.0 - 1.0 for j in range(dim)]
        m.py("p = next(it)", ANY)
        m.py("[p.id, p.index, p.dimension, p.number_of_objectives, p.number_of_constraints, p.number_of_integer_variables, p.name]", [v if j in (0, 6) else int(v) for j, v in enumerate(o)])
        m.py("p(%r)" % x, lambda a: scalar_or_vec(a[0]), [m.c("E", 1, *[core.fl(v) for v in x])])
        if int(o[4]):
            m.py("p.constraint(%r)" % x, lambda a: vec(a[0]), [m.c("C", 1, *[core.fl(v) for v in x])])
        m.py("list(p.lower_bounds) + list(p.upper_bounds)", lambda a: vec(a[0]), [m.c("W", 1)])
        m.py("p.initial_solution", lambda a: vec(a[0]), [m.c("X", 1)])
        m.py("[p.evaluations, p.evaluations_constraints]", lambda a: [int(v) for v in a[0].split("\t")], [m.c("q", 1)])
        m.c("F", 1)
        f, i, d = [int(t[1:]) for t in o[0].split("_")[-3:]]
        m.py("p.id_triple", [f, d, i])
        if k % 3 == 0:
            m.py("s[%d].id" % k, o[0])
            m.py("s.get_problem(%r).id == %r" % (o[0], o[0]), True)
    m.py("next(it, None)", None)
    m.py("s.ids()", [o[0] for o in order])
    m.py("s.problem_names", [o[6] for o in order])
    m.py("s.indices", [int(o[1]) for o in order])
    m.py("s.dimensions", sorted({int(o[2]) for o in order}))
    m.c("f", 0)
    compare(m, drv, st, None)
    st.state(args)


def bare(item, drv, st, viol):
    """BareProblem: values, batches of points, optimum and taint"""
    f, d, i = item
    m = Model()
    x = [0.25 * (k % 5) - 0.5 for k in range(d)]
    D = m.c("b", 0, f, d, i)
    m.py("b = cocoex.BareProblem(''.join(['bb', 'ob']), %d, %d, %d)" % item, ANY)
    m.py("[str(b), b.id, b.function, b.dimension, b.instance, b.suite_name, repr(b)]",
         lambda a: [a[0].split("\t")[0]] * 2 + [f, d, i, "bbob", "BareProblem('bbob', %d, %d, %d)" % item], [D])
    e = m.c("E", 0, *[core.fl(v) for v in x])
    m.py("b(%r)" % x, lambda a: scalar_or_vec(a[0]), [e])
    m.py("b(np.array(%r))" % x, lambda a: scalar_or_vec(a[0]), [e])
    y = [v + 1 for v in x]
    e2 = m.c("E", 0, *[core.fl(v) for v in y])
    m.py("b(np.array([%r, %r]))" % (x, y), lambda a: vec(a[0]) + vec(a[1]), [e, e2])
    m.py("b(np.zeros((0, %d)))" % d, [])
    m.py("b.is_tainted", False)
    m.py("b.best_value()", lambda a: fx(float(a[0])), [m.c("v", 0)])
    m.py("b.is_tainted", lambda a: a[0].split("\t")[4] != "0", [m.c("Q", 0)])
    m.py("b.best_parameter()", lambda a: vec(a[0].split("\t", 1)[1]), [m.c("K", 0)])
    m.py("b.is_tainted", True)
    m.py("b = None", ANY)
    m.c("F", 0)
    compare(m, drv, st, None)
    st.state(item)


LOOP = """
def experiment(suite, observer, repeater, batcher, evals):
    log = []
    while not repeater.done(message=False):
        for p in suite:
            if batcher is not None and not batcher.is_in_batch(p):
                continue
            if repeater.done(p):
                continue
            p.observe_with(observer)
            x = repeater.initial_solution_proposal(p) if repeater.n_trials(p) == 0 else p.initial_solution
            for k in range(evals(p)):
                p(x + 0.25 * k)
            repeater.track(p)
            log.append(list(p.id_triple) + [p.evaluations, p.final_target_hit])
        if len(log) > 500:
            break
    return log
"""


def experiments(item, drv, st, viol):
    """the documented experiment loop with real problems, repeater and batches; log files as by the same C calls"""
    name, mult, mins, nb, b, ev = item
    args, kind, trip = SUITES[name]
    m = Model()
    m.py(LOOP, ANY)
    m.suite("s", name)
    op_observer("o", kind, "result_folder: a")(m)
    m.py("r = cocoex.ExperimentRepeater(%r, %r)" % (mult, mins), ANY)
    m.py("b = %s" % ("cocoex.BatchScheduler(%d, %d)" % (nb, b) if nb else "None"), ANY)
    # first what C says about target hits
    trips = [t for t in trip]
    data, log, sweeps = {}, [], 0
    groups = []
    for t in trips:
        if t[:2] not in groups:
            groups.append(t[:2])
    mine = [(k, t) for k, t in enumerate(trips) if not nb or groups.index(t[:2]) % nb == b]
    hits, at = {}, []
    while sweeps < 100:
        if sweeps >= 1:
            if not data or all(done(data, t, mult, mins) for t in data):
                break
        sweeps += 1
        for k, t in mine:
            if sweeps > 1 and done(data, t, mult, mins):
                continue
            p = m.new_problem(m.v["s"], k)
            m.c("A", p.c, m.v["o"].c)
            x0 = m.c("X", p.c)
            n = ev[0] + ev[1] * (t[0] % 3)
            for j in range(n):
                m.cmds.append(("E", p.c, x0, 0.25 * j))
            at.append(m.c("q", p.c))
            m.c("F", p.c)
            data.setdefault(t, []).append(n)
            log.append(list(t) + [n, False])
    m.py("experiment(s, o, r, b, lambda p: %d + %d * (p.id_function %% 3))" % ev, log)
    # resolve the points: start point + 0.25 j
    cm = []
    for c in m.cmds:
        if isinstance(c, tuple):
            t = next(i for i in range(len(m.cmds)) if i == c[2])
            cm.append(c)
        else:
            cm.append(c)
    starts = {}
    need = sorted({c[2] for c in cm if isinstance(c, tuple)})
    pre_ = [c for c in cm if isinstance(c, str)]
    idx = [i for i, c in enumerate(cm) if isinstance(c, str)]
    a = drv.run(pre_)
    for i, r in zip(idx, a):
        if i in need:
            starts[i] = [float(v) for v in r.split("\t")]
    m.cmds = [c if isinstance(c, str) else "E\t%d\t%s" % (c[1], core.xs([v + c[3] for v in starts[c[2]]])) for c in cm]
    end(m)
    compare(m, drv, st, None)
    st.add("experiments")
    st.state(item)


def done(data, t, mult, mins):
    k = [u for u in data if u[:2] == t[:2]]
    tr = [len(data[u]) for u in k]
    if len(data.get(t, [])) < max([1] + tr):
        return False
    return mins <= 0 or sum(sum(data[u]) for u in k) >= max(1, len(k)) * t[1] * mult


def main():
    exe = core.build_driver()
    _, pyrun.ENV = pybuild.build()
    core.explore(ck, kept, list(SUITES), exe, chunk=1)
    core.explore(ck, single_args, [(n, g) for n in SUITES for g in ("good", "wrong", "soft")], exe, chunk=1)
    # all sequences
    items = []
    for name in SUITES:
        ops, bads = alphabet(name)
        full = ops + bads
        L = 3 if THOROUGH or name in ("bbob", "biobj") else 2
        for h in range(len(full)):
            items.append((pre(name), full, (h,), L if h < len(ops) else 2))
    life = [op_next("p"), op_next("q", ov="o"), op_get("q", "%(s)s.get_problem(0, %(o)s)", 0, ov="o"), op_del("s"), op_sfree(), op_del("p"), op_del("q"), op_del("o"), op_ofree("o"), op_observe("p", "o"), op_call("p"), op_call("q"), op_pfree("p"), op_alias("q", "p")]
    for name in ("bbob", "biobj") + (("cons", "noisy", "mixint") if THOROUGH else ()):
        for a in range(len(life)):
            for b in range(len(life)):
                if THOROUGH or name == "bbob":
                    items.append((pre(name), life, (a, b), 5 if THOROUGH and name == "bbob" else 4))
    W["items"] = items
    core.explore(ck, seq_index, range(len(items)), exe, chunk=1)
    sw = []
    for name, dims, fs in (("bbob", "2,3,5", "1-24"), ("bbob", "40", "1-24"), ("bbob-biobj", "2,5", "1-55"), ("bbob-biobj-ext", "2", "1-92"), ("bbob-boxed", "2,3", "1-24"), ("bbob-constrained", "2,5", "1-54"),
                           ("bbob-largescale", "20", "1-24"), ("bbob-mixint", "5,10", "1-24"), ("bbob-biobj-mixint", "5", "1-92"), ("bbob-noisy", "2,5", "1-30")):
        for opt in ("instance_indices:1", "instance_indices:2,5") + (("instance_indices:3-10",) if THOROUGH else ()):
            for d in dims.split(","):
                sw.append(((name, "", "dimensions:%s %s" % (d, opt)), None))
    for inst in ("instances:1-3,1", "instances:7", "year:2009"):
        sw.append((("bbob", inst, "dimensions:2 function_indices:1,7"), None))
    core.explore(ck, sweep, sw, exe, chunk=1)
    core.explore(ck, bare, [(f, d, i) for f in range(1, 25) for d in (2, 3, 13, 40) for i in (1, 2, 15)], exe, chunk=6)
    ex = []
    for name in SUITES:
        for mult, mins in ((0, 11), (2, 11), (3, 1), (1.5, 0)):
            for nb, b in ((0, 0), (2, 0), (2, 1)):
                for ev in ((1, 0), (3, 2), (0, 1)):
                    if ev == (0, 1) and mult > 0:
                        continue
                    ex.append((name, mult, mins, nb, b, ev))
    core.explore(ck, experiments, ex, exe, chunk=2)
    ck.assumptions += ["release build of the extension modules under AddressSanitizer, one thread, CPython's reference counting",
                       "histories in which the C library itself stops with a fatal error (e.g. a bbob observer on two open problems, as documented) are skipped",
                       "arrays handed out (bounds) are not modified by the caller"]
    ck.finish()


def seq_index(k, drv, st, viol):
    sequences(W["items"][k], drv, st, viol)


core.main(main)
