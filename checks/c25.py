"""C25: BatchScheduler: all numbers of batches and batches over the orders of all suites, all repeated and interrupted sweeps,
and all short sequences of problems; together the batches partition the problems."""
import os
import sys
PY = "/opt/vp/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/vp/venv") and os.path.exists(PY):
    os.execv(PY, [PY] + sys.argv)
import contextlib
import importlib.util
import io
import itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
import suitemodel as sm  # noqa: E402
from core import THOROUGH, Violation  # noqa: E402

ck = core.Check("C25")
sys.dont_write_bytecode = True
spec = importlib.util.spec_from_file_location("cocoex_utilities", os.path.join(core.REPO, "build/python/src/cocoex/utilities.py"))
U = importlib.util.module_from_spec(spec)
spec.loader.exec_module(U)


class Stub:
    def __init__(self, f, d, i, index=0):
        self.id_function, self.dimension, self.id_instance = f, d, i
        self.number_of_variables = d
        self.id_triple = (f, d, i)
        self.id = "bbob_f%03d_i%02d_d%02d" % (f, i, d)
        self.name = "BBOB suite problem f%d instance %d in %dD" % (f, i, d)
        self.index = index
        self.evaluations = 0
        self.suite = "bbob"
        self.info = self.id


def schedulers(n):
    with contextlib.redirect_stdout(io.StringIO()):
        return [U.BatchScheduler(n, b) for b in range(n)]


def batches(scheds, seq, what, st):
    """the batch of each problem of the sequence; exactly one each"""
    res = []
    for k, p in enumerate(seq):
        w = [b for b, s in enumerate(scheds) if s.is_in_batch(p)]
        if len(w) != 1:
            raise Violation("%s: problem %d (%s) is in the batches %s of %d" % (what, k, p.id, w, len(scheds)), {"what": what, "position": k, "batches": w})
        res.append(w[0])
        st.add("transitions", len(scheds))
    return res


def suite_orders(item, drv, st, viol):
    name, order, n, cuts = item
    seq = [Stub(f, d, i, k) for k, (f, d, i) in enumerate(order)]
    sch = schedulers(n)
    first = batches(sch, seq, "%s, %d batches" % (name, n), st)
    together = {}
    for p, b in zip(seq, first):
        if together.setdefault((p.id_function, p.dimension), b) != b:
            raise Violation("%s, %d batches: instances of f%d in dimension %d are in different batches" % (name, n, p.id_function, p.dimension), {"suite": name, "batches": n})
    used = len(set(first))
    if used != min(n, len(together)):
        raise Violation("%s: only %d of %d batches have problems (%d functions and dimensions)" % (name, used, n, len(together)), {"suite": name, "batches": n})
    # interrupted sweeps, then complete ones, give the same
    for c in cuts:
        c = min(c, len(seq))
        if batches(sch, seq[:c], "%s, %d batches, partial sweep" % (name, n), st) != first[:c]:
            raise Violation("%s, %d batches: other batches in a repeated partial sweep of %d problems" % (name, n, c), {"suite": name, "batches": n})
    if cuts and batches(sch, seq, "%s, %d batches, second sweep" % (name, n), st) != first:
        raise Violation("%s, %d batches: other batches in a repeated sweep" % (name, n), {"suite": name, "batches": n})
    st.state((name, n))
    st.add("traces_validated_against_impl")


def small(item, drv, st, viol):
    """all sequences over a few problems: partition, and the documented numbering by order of appearance"""
    n, length, head = item
    pool = [(1, 2, 1), (1, 2, 2), (2, 2, 1), (1, 3, 1), (2, 3, 1)]
    for rest in itertools.product(pool, repeat=length - len(head)):
        s = list(head) + list(rest)
        got = batches(schedulers(n), [Stub(*t) for t in s], "sequence %s, %d batches" % (s, n), st)
        num, cur, exp = -1, None, []
        for t in s:
            if t[:2] != cur:
                num = 0 if t[:2] == s[0][:2] else num + 1
                cur = t[:2]
            exp.append(num % n)
        if got != exp:
            raise Violation("sequence %s, %d batches: %s instead of %s" % (s, n, got, exp), {"sequence": s, "batches": n})
        st.add("traces_validated_against_impl")
        st.state((n, tuple(exp)))


def arguments(item, drv, st, viol):
    n, b = item
    ok = (n >= 1 and 0 <= b < n) or (n == 1 and b == 1)
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            U.BatchScheduler(n, b)
            got = True
        except Exception:
            got = False
    if got != ok:
        raise Violation("BatchScheduler(%s, %s) is %s" % (n, b, "accepted" if got else "rejected"), {"arguments": [n, b]})
    st.add("transitions")


def main():
    orders = {}
    for name, (nf, dims) in {"bbob": (24, [2, 3, 5, 10, 20, 40]), "bbob-biobj": (55, [2, 3, 5, 10, 20, 40]), "bbob-biobj-ext": (92, [2, 3, 5, 10, 20, 40]),
                             "bbob-largescale": (24, [20, 40, 80, 160, 320, 640]), "bbob-mixint": (24, [5, 10, 20, 40, 80, 160]),
                             "bbob-constrained": (54, [2, 3, 5, 10, 20, 40]), "bbob-biobj-mixint": (92, [5, 10, 20, 40, 80, 160])}.items():
        for inst in ([1], [1, 2, 3], list(range(1, 16))):
            orders["%s, instances %s" % (name, inst)] = [(f, d, i) for d in dims for f in range(1, nf + 1) for i in inst]
    b = orders["bbob, instances [1, 2, 3]"]
    orders["bbob by function"] = sorted(b, key=lambda t: (t[0], t[1]))
    orders["bbob one function"] = [t for t in b if t[0] == 3]
    orders["bbob one problem"] = [t for t in b if t[:2] == (3, 5)]
    orders["bbob reversed"] = b[::-1]
    items = []
    for name, o in sorted(orders.items()):
        for n in list(range(1, 61 if THOROUGH else 31)) + [97, 144, 145, 600]:
            if n * len(o) > (3000000 if THOROUGH else 400000):
                continue
            items.append((name, o, n, [1, 2, len(o) // 2, len(o) - 1, 0, 5] if len(o) < 500 or THOROUGH else []))
    for n in (255, 256, 257, 999, 1000, 1001, 1024, 4999, 5000):  # far more batches than problems
        for name in ("bbob one function", "bbob one problem") + (("bbob, instances [1]",) if n < 2000 or THOROUGH else ()):
            items.append((name, orders[name], n, [1, 5]))
    for n in (7, 100):  # many instances of each function and dimension
        items.append(("bbob, 1000 instances", [(f, d, i) for d in (2, 3) for f in (1, 2, 3) for i in range(1, 1001)], n, [1500]))
    ck.stats.sample("%s, %d batches, interrupted after %s" % (items[40][0], items[40][2], items[40][3]))
    core.explore(ck, suite_orders, items, None, chunk=4)
    pool = [(1, 2, 1), (1, 2, 2), (2, 2, 1), (1, 3, 1), (2, 3, 1)]
    items = [(n, L, h) for n in (1, 2, 3, 4, 5) for L in range(2, 8 if THOROUGH else 7) for h in itertools.product(pool, repeat=2)]
    core.explore(ck, small, items, None, chunk=2)
    core.explore(ck, arguments, [(n, b) for n in range(-3, 12) for b in range(-3, 15)], None)
    ck.assumptions.append("as documented, every batch is presented the same problems in the same order; problems are stand-ins with the attributes of cocoex problems")
    ck.finish()


core.main(main)
