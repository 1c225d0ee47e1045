"""C24: ExperimentRepeater: every history of done() and track() calls up to the bound, with every query after every step,
against a model of the documented stopping rule; and the documented experiment loop for every pattern of outcomes."""
import os
import sys
PY = "/opt/vp/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/vp/venv") and os.path.exists(PY):
    os.execv(PY, [PY] + sys.argv)
import contextlib
import copy
import importlib.util
import io
import itertools
import warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
from core import THOROUGH, Violation  # noqa: E402

ck = core.Check("C24")
sys.dont_write_bytecode = True


def load():
    p = os.path.join(core.REPO, "build/python/src/cocoex/utilities.py")
    spec = importlib.util.spec_from_file_location("cocoex_utilities", p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


U = load()


class Stub:
    """what a cocoex problem shows to the repeater"""

    def __init__(self, ids, evaluations=0, hit=False):
        self.id_function, self.dimension, self.id_instance = ids
        self.id_triple = tuple(ids)
        self.number_of_variables = ids[1]
        self.evaluations = evaluations
        self.evaluations_constraints = 0
        self.final_target_hit = hit
        self.number_of_objectives = 1
        self.number_of_constraints = 0
        self.id = "bbob_f%03d_i%02d_d%02d" % (ids[0], ids[2], ids[1])
        self.name = "BBOB suite problem f%d instance %d in %dD" % (ids[0], ids[2], ids[1])
        self.info = self.id + ": a problem"
        self.index = 0
        self.suite = "bbob"

    def __call__(self, x):
        raise RuntimeError("the repeater evaluated the problem")

    def initial_solution_proposal(self, restart_number=None):
        return ("proposal", restart_number)


class Model:
    def __init__(self, mult, mins):
        self.mult, self.mins, self.data, self.falses, self.calls = mult, mins, {}, 0, 0

    def clone(self):
        m = Model(self.mult, self.mins)
        m.data = {k: {i: list(t) for i, t in d.items()} for k, d in self.data.items()}
        m.falses = self.falses
        return m

    def track(self, ids, ev, hit):
        self.data.setdefault(ids[:2], {}).setdefault(ids[2], []).append((ev, hit))

    def trials(self, k):
        d = self.data.get(k, {})
        return [len(d[i]) for i in sorted(d)]

    def succ(self, k):
        d = self.data.get(k, {})
        return [sum(1 for t in d[i] if t[1]) for i in sorted(d)]

    def evals(self, k):
        d = self.data.get(k, {})
        return [sum(t[0] for t in d[i]) for i in sorted(d)]

    def exhausted(self, k):
        return sum(self.evals(k)) >= max(1, len(self.data.get(k, {}))) * k[1] * self.mult

    def succeeded(self, k):
        return sum(self.succ(k)) >= self.mins

    def missing(self, ids):
        k = ids[:2]
        return max([1] + self.trials(k)) - len(self.data.get(k, {}).get(ids[2], []))

    def done_p(self, ids, falses=None):
        f = self.falses if falses is None else falses
        if f <= 1 or self.missing(ids) > 0:
            return False
        return self.succeeded(ids[:2]) or self.exhausted(ids[:2])

    def remaining(self, falses=None):
        return [k + (i,) for k in self.data for i in self.data[k] if not self.done_p(k + (i,), falses)]

    def done(self):
        f = self.falses + 1  # the sweep to come
        if f > 1 and not self.data:
            return True
        if self.data and not self.remaining(f):
            return True
        self.falses = f
        return False


IDS = [(1, 2, 1), (1, 2, 2), (2, 2, 1), (1, 3, 1)]
MORE = [(1, 2, 3), (3, 5, 1)]


def queries(r, m, how):
    """every question in one state; how: problems as objects or as tuples"""
    out = []

    def ask(name, got, exp):
        if got != exp:
            raise Violation("%s is %r instead of %r" % (name, got, exp), None)
    for ids in IDS + MORE:
        k = ids[:2]
        p = Stub(ids) if how else ids
        ask("done(%s)" % (ids,), bool(r.done(p)), m.done_p(ids))
        ask("missing_trials(%s)" % (ids,), r.missing_trials(p), m.missing(ids))
        ask("list of trials of %s" % (ids,), [tuple(t) for t in r.data_of_instance(p)], m.data.get(k, {}).get(ids[2], []))
        ask("trials(%s)" % (ids,), list(r.trials(p)), m.trials(k))
        ask("trials(%s, instance)" % (ids,), r.trials(p, ids[2]), len(m.data.get(k, {}).get(ids[2], [])))
        ask("successes(%s)" % (ids,), list(r.successes(p)), m.succ(k))
        ask("evaluations(%s)" % (ids,), list(r.evaluations(p)), m.evals(k))
        ask("instances(%s)" % (ids,), list(r.instances(p)), sorted(m.data.get(k, {})))
        ask("budget_exhausted(%s)" % (ids,), bool(r.budget_exhausted(p)), m.exhausted(k))
        ask("succeeded(%s)" % (ids,), bool(r.succeeded(p)), m.succeeded(k))
        ask("n_trials(%s)" % (ids,), r.n_trials(p), sum(m.trials(k)))
        ask("n_problem_instances(%s)" % (ids,), r.n_problem_instances(p), len(m.data.get(k, {})))
        ask("budget_from_dimension(%s)" % (ids,), r.budget_from_dimension(p), ids[1] * m.mult)
        t = sum(m.trials(k))
        st = Stub(ids)
        ask("initial_solution_proposal(%s)" % (ids,), r.initial_solution_proposal(st)[1] or 0, t if t % 15 else 0)
        ask("initial_solution_proposal(%s, 0)" % (ids,), r.initial_solution_proposal(st, 0)[1], t + 1)
        ask("initial_solution_proposal(%s, 2)" % (ids,), r.initial_solution_proposal(st, 2)[1] or 0, t if t % 3 else 0)
    ask("n_trials()", r.n_trials(), sum(sum(m.trials(k)) for k in m.data))
    ask("n_problems", r.n_problems, len(m.data))
    ask("n_problem_instances()", r.n_problem_instances(), sum(len(d) for d in m.data.values()))
    ask("remaining_problems()", sorted(r.remaining_problems()), sorted(m.remaining()))
    ask("remaining_problems(suite)", [tuple(t) for t in r.remaining_problems([Stub(i) for i in IDS])], [i for i in IDS if not m.done_p(i)])
    for name, f in (("evaluations", m.evals), ("successes", m.succ), ("trials", m.trials)):
        ask("all(%s)" % name, r.all(name), {k: f(k) for k in m.data})
    ask("all(budget_exhausted)", {k: bool(v) for k, v in r.all(r.budget_exhausted).items()}, {k: m.exhausted(k) for k in m.data})
    return out


def ops_of(mult):
    o = [("done",)]
    for ids, outs in zip(IDS, ([(1, 0), (1, 1), ("B", 0)], [(0, 0), (1, 1), ("B", 0)], [("B", 0), (1, 1)], [("b", 0), ("B", 1)])):
        for e, h in outs:
            b = int(ids[1] * mult)
            o.append(("track", ids, {"B": b, "b": max(0, b - 1)}.get(e, e), bool(h)))
    return o


def apply(r, m, op):
    if op[0] == "done":
        got, exp = bool(r.done()), m.done()
        if got != exp:
            raise Violation("done() is %r instead of %r" % (got, exp), None)
    else:
        r.track(Stub(op[1], op[2], op[3]))
        m.track(op[1], op[2], op[3])


def walk(r, m, hist, depth, ops, st):
    for op in ops:
        r2, m2 = copy.deepcopy(r), m.clone()
        h = hist + [op]
        try:
            apply(r2, m2, op)
            queries(r2, m2, len(h) % 2)
        except Violation as v:
            raise Violation("budget_multiplier %s, min_successes %s, after %s: %s" % (m.mult, m.mins, h, v), {"history": h, "params": [m.mult, m.mins]})
        except Exception as e:
            raise Violation("budget_multiplier %s, min_successes %s, after %s: exception %r" % (m.mult, m.mins, h, e), {"history": h, "params": [m.mult, m.mins]})
        st.add("transitions")
        st.state((m2.mult, m2.mins, m2.falses, repr(sorted((k, sorted(d.items())) for k, d in m2.data.items()))))
        if depth > 1:
            walk(r2, m2, h, depth - 1, ops, st)
        else:
            st.add("traces_validated_against_impl")


def sequences(item, drv, st, viol):
    mult, mins, prefix, depth = item
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r, m = U.ExperimentRepeater(mult, mins), Model(mult, mins)
        for op in prefix:
            apply(r, m, op)
        walk(r, m, list(prefix), depth, ops_of(mult), st)


def loops(item, drv, st, viol):
    """the documented loop; the outcome of every trial is given by the pattern"""
    mult, mins, pattern, suite = item
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r, m = U.ExperimentRepeater(mult, mins), Model(mult, mins)
        n = 0
        sweeps = 0
        trace = []
        while True:
            a, b = bool(r.done()), m.done()
            if a != b:
                raise Violation("loop %s: done() is %s instead of %s after %s" % (item, a, b, trace), {"item": item, "trace": trace})
            if a or sweeps > 12:
                break
            sweeps += 1
            for ids in suite:
                p = Stub(ids)
                a, b = bool(r.done(p)), m.done_p(ids)
                if a != b:
                    raise Violation("loop %s: done(%s) is %s instead of %s after %s" % (item, ids, a, b, trace), {"item": item, "trace": trace})
                if a:
                    continue
                ev, hit = pattern[n % len(pattern)]
                p.evaluations, p.final_target_hit = ev, hit
                n += 1
                r.track(p)
                m.track(ids, ev, hit)
                trace.append((ids, ev, hit))
                st.add("transitions")
        queries(r, m, 1)
        st.add("traces_validated_against_impl")
        st.add("experiments")


def wide(item, drv, st, viol):
    """many instances and long histories: n instances of one function and dimension; in turn each single one, each pair, each
    initial stretch has a different number of trials; every query after every phase"""
    mult, mins, n, kind = item
    ids = [(1, 2, 2 * k + 1) for k in range(n)]
    old = IDS[:], MORE[:]
    IDS[:] = ids + [(2, 2, 1)]
    MORE[:] = [(1, 2, 2), (1, 3, 1)]
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            picks = [(a,) for a in range(n)] + list(itertools.combinations(range(n), 2)) + [tuple(range(a)) for a in range(2, n)]
            for pick in picks:
                for first, more, hit in ((1, 1, False), (0, 1, True), (2, 3, True), (12, 25, False)):
                    if n > 8 and (len(pick) > 1 and pick[0] not in (0, n // 2) or first == 2):
                        continue
                    r, m = U.ExperimentRepeater(mult, mins), Model(mult, mins)
                    h = []
                    try:
                        phases = [[("done",)]]
                        phases += [[("track", i, 2 + k % 3, False) for k in range(first)] for i in ids]
                        phases += [[("done",)]] + [[("track", ids[a], 3, hit)] * more for a in pick]
                        phases += [[("done",)], [("track", (2, 2, 1), 10 ** 6, False)], [("done",)]]
                        if kind == "back":
                            phases[1:1 + n] = phases[n:0:-1]
                        for ph in phases:
                            for op in ph:
                                apply(r, m, op)
                                h.append(op)
                                st.add("transitions")
                            if ph and ph[0][0] == "done":
                                queries(r, m, len(h) % 2)
                    except Violation as v:
                        raise Violation("budget_multiplier %s, min_successes %s, %d instances, %d trials each, then %d more of %s: %s" % (mult, mins, n, first, more, pick, v), {"history": h, "params": [mult, mins]})
                    except Exception as e:
                        raise Violation("budget_multiplier %s, min_successes %s, %d instances, after %s: exception %r" % (mult, mins, n, h, e), {"history": h, "params": [mult, mins]})
                    st.add("traces_validated_against_impl")
                    st.state((mult, mins, n, pick, first, more))
    finally:
        IDS[:], MORE[:] = old


def main():
    items = []
    configs = [(0, 11), (1, 1), (1, 2), (2.5, 1), (2, 0), (1, 11), (3, 2)]
    for mult, mins in configs:
        o = ops_of(mult)
        for a in o:
            for b in o:
                items.append((mult, mins, (a, b), 3 if THOROUGH or (mult, mins) == (1, 2) else 2))
    core.explore(ck, sequences, items, None, chunk=2)
    core.explore(ck, wide, [(mult, mins, n, kind) for mult, mins in ((0, 11), (1, 11), (20, 5), (1e3, 11)) for n in (5, 8, 16) for kind in ("up", "back")], None, chunk=1)
    outs = [(1, False), (1, True), (3, False), (9, True)]
    suites = [[(1, 2, 1)], [(1, 2, 1), (1, 2, 2), (2, 2, 1)], [(1, 2, 1), (1, 2, 1), (1, 2, 2)], [(1, 2, 1), (1, 2, 2), (1, 3, 1), (1, 3, 2)]]
    items = [(mult, mins, pat, [(1, 2, k) for k in range(1, n + 1)]) for mult, mins in ((1, 11), (30, 11), (2, 3), (0, 11)) for n in (5, 15)
             for q in (1, 2, 3) for pat in itertools.product(outs, repeat=q)]
    for mult, mins in configs + [(4, 3)]:
        for n in (1, 2, 3, 4) + ((5,) if THOROUGH else ()):
            for pat in itertools.product(outs, repeat=n):
                for s in suites:
                    items.append((mult, mins, pat, s))
    ck.stats.sample(str(items[777]))
    core.explore(ck, loops, items, None)
    ck.assumptions.append("problems are stand-ins with the attributes of cocoex problems; real problems are tracked in C23")
    ck.finish()


core.main(main)
