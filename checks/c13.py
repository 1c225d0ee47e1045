"""C13: the bi-objective archive: every sequence of additions and queries up to the bound."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
from core import THOROUGH  # noqa: E402

ck = core.Check("C13")
IDEAL = NADIR = None


class Model:
    """points normalised to the box; the two extremes are always there; ordered by the second objective"""

    def __init__(self):
        self.s = {(1.0, 0.0): "E1", (0.0, 1.0): "E2"}
        self.reset = True
        self.it = None

    @staticmethod
    def norm(p):
        a, b = max(0.0, p[0]), max(0.0, p[1])
        if a == 0 and b < 1:
            b = 1.0
        if b == 0 and a < 1:
            a = 1.0
        return (a, b)

    def add(self, p, text):
        q = self.norm(p)
        for s in self.s:
            if s[0] <= q[0] and s[1] <= q[1]:
                return 0
        self.s = {s: t for s, t in self.s.items() if not (q[0] <= s[0] and q[1] <= s[1])}
        self.s[q] = text
        self.reset = True
        return 1

    def touch(self):
        if self.reset:
            self.it = None
            self.reset = False

    def next(self):
        self.touch()
        if self.it is None:
            mid = [t for s, t in sorted(self.s.items(), key=lambda e: e[0][1]) if t not in ("E1", "E2")]
            self.it = ["E1", "E2"] + mid
        return self.it.pop(0) if self.it else ""

    def hv(self):
        self.touch()
        h, right = 0.0, 1.0
        for s in sorted(self.s, key=lambda e: e[1]):
            if s[0] < right:
                h += (right - s[0]) * (1 - s[1])
                right = s[0]
        return h


def real(p):
    return [IDEAL[k] + p[k] * (NADIR[k] - IDEAL[k]) for k in (0, 1)]


LENS = (3, 63, 64, 65, 199, 200, 201, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 20000)
TEXTS = [lambda k: "s%d" % k]


def texts(item, drv, st, viol):
    """texts of every length around the usual buffer sizes"""
    TEXTS[0] = lambda k: ("%d:" % k) + "".join(chr(33 + (j * 7 + k) % 90) for j in range(LENS[(k + item) % len(LENS)])).replace("\\", "/")
    try:
        pts = chain(30)
        for order in (list(range(30)), list(range(30))[::-1], [(7 * k) % 30 for k in range(30)]):
            h = [("+", pts[k]) for k in order]
            check(drv, h, ARCH, st, viol)
            check(drv, h + [(">", None)] * 8 + [("+", (pts[9][0] - 0.001, pts[11][1] - 0.001))], ARCH, st, viol)
    finally:
        TEXTS[0] = lambda k: "s%d" % k


def check(drv, h, arch, st, viol, final=True):
    """h: list of ('+', point) | '#' | 'v' | '>' ; runs it and compares every answer"""
    m = Model()
    cmds, exp = ["an\t0\t%s\t%d\t%d\t%d" % arch], ["ok"]
    for k, o in enumerate(h):
        if o[0] == "+":
            y = real(o[1])
            t = TEXTS[0](k)
            cmds.append("aa\t0\t%s\t%s\t%s" % (core.fl(y[0]), core.fl(y[1]), t))
            exp.append(str(m.add(o[1], t)))
        elif o[0] == "#":
            cmds.append("ac\t0")
            m.touch()
            exp.append(str(len(m.s)))
        elif o[0] == "v":
            cmds.append("ah\t0")
            exp.append(m.hv())
        else:
            cmds.append("at\t0")
            exp.append(m.next())
    if final:
        cmds.append("ac\t0")
        m.touch()
        exp.append(str(len(m.s)))
        cmds.append("ah\t0")
        exp.append(m.hv())
        m.it = None if final == "fresh" else m.it
        while True:
            cmds.append("at\t0")
            exp.append(m.next())
            if exp[-1] == "":
                break
        cmds.append("at\t0")
        exp.append("")
    cmds.append("af\t0")
    exp.append("ok")
    r = drv.run(cmds)
    for c, a, e in zip(cmds, r, exp):
        if isinstance(e, float):
            ok = abs(float(a) - e) <= 1e-10
        elif e in ("E1", "E2"):
            t = a.replace("\\n", "").split("\\t")
            w = (NADIR[0], IDEAL[1]) if e == "E1" else (IDEAL[0], NADIR[1])
            ok = len(t) == 3 and t[0] == "0" and all(abs(float(u) - v) <= 1e-9 * max(1, abs(v)) for u, v in zip(t[1:], w))
        else:
            ok = a == e
        if not ok:
            viol.append(("archive %s, history %s: %s answers %r, expected %r" % (arch, h, c, a, e), {"archive": arch, "history": h, "commands": cmds}))
            return False
    st.add("transitions", len(h))
    st.add("traces_validated_against_impl")
    st.state(tuple(sorted(m.s)))
    return True


ARCH = ("bbob-biobj", 1, 2, 1)


def seqs(item, drv, st, viol):
    ops, n, lo, hi = item
    for h in itertools.islice(itertools.product(ops, repeat=n), lo, hi):
        if not check(drv, h, ARCH, st, viol):
            return


def chain(n):
    """n mutually non-dominated points"""
    return [((k + 1) / (n + 1.0), 1 - (k + 1) / (n + 1.0)) for k in range(n)]


def perms(item, drv, st, viol):
    """all insertion orders of n incomparable points (every shape of the search tree), starting with `first`; then each
    point that dominates a whole interval of them"""
    n, first, wipes = item
    pts = chain(n)
    rest = [k for k in range(n) if k not in first]
    for p in itertools.permutations(rest):
        order = list(first) + list(p)
        h = [("+", pts[k]) for k in order]
        if not wipes:
            if not check(drv, h, ARCH, st, viol):
                return
            continue
        for a in range(n):
            for b in range(a, n):
                # dominates exactly the points a..b
                q = (pts[a][0] - 0.01 / n, pts[b][1] - 0.01 / n)
                if not check(drv, h + [("+", q)], ARCH, st, viol):
                    return


def big(item, drv, st, viol):
    """long deterministic insertion orders of many points: increasing, decreasing, zigzag, strided; with removals"""
    kind, n = item
    pts = chain(n)
    if kind == "up":
        o = list(range(n))
    elif kind == "down":
        o = list(range(n))[::-1]
    elif kind == "zig":
        o = [k // 2 if k % 2 == 0 else n - 1 - k // 2 for k in range(n)]
    elif kind == "mid":
        o = sorted(range(n), key=lambda k: abs(k - n // 2 + 0.1))
    else:
        s = int(kind)
        o = sorted(range(n), key=lambda k: (k * s) % (n + 1))
    h = []
    for j, k in enumerate(o):
        h.append(("+", pts[k]))
        if j % 7 == 3:
            h += [("#", None), ("v", None), (">", None)]
        if j % 11 == 5:
            a = o[j // 2]
            h.append(("+", (pts[a][0] - 0.3 / n, pts[min(n - 1, a + 2)][1] - 0.3 / n)))
    check(drv, h, ARCH, st, viol)


def archs(item, drv, st, viol):
    """every archive: its two extremes are the box corners"""
    global IDEAL, NADIR
    for suite, f, d, i in item:
        try:
            IDEAL, NADIR = box(drv, (suite, f, d, i))
        except (ValueError, IndexError):
            viol.append(("archive %s cannot be created" % ((suite, f, d, i),), {}))
            return
        if not check(drv, [("+", (0.5, 0.5)), ("v", None), ("+", (0.25, 0.75)), ("+", (0.6, 0.6)), ("+", (0.2, 0.2)), ("#", None)], (suite, f, d, i), st, viol):
            return
    IDEAL, NADIR = BOX


def box(drv, arch):
    """ideal and nadir: from the problem (largest values of interest) and the values at the objectives' optima"""
    suite, f, d, i = arch
    r = drv.run(["S\t0\t%s\tinstances: %d\tdimensions: %d" % (suite, i, d), "B\t1\t0\t%d\t%d\t%d" % (f, d, i), "w\t1", "an\t0\t%s\t%d\t%d\t%d" % arch, "at\t0", "at\t0", "af\t0", "F\t1", "f\t0"])
    nad = [float(v) for v in r[2].split("\t")]
    e1 = [float(v) for v in r[4].replace("\\n", "").split("\\t")[1:]]
    e2 = [float(v) for v in r[5].replace("\\n", "").split("\\t")[1:]]
    return (e2[0], e1[1]), tuple(nad)


BOX = None


def main():
    global IDEAL, NADIR, BOX
    exe = core.build_driver()
    drv = core.Driver(exe)
    try:
        BOX = IDEAL, NADIR = box(drv, ARCH)
    except (core.Died, ValueError, IndexError) as e:
        ck.violation("archive cannot be created: %s" % e, {})
        ck.finish()
    g = (0.2, 0.5, 0.8)
    grid = [(a, b) for a in g for b in g]
    edge = [(0.0, 0.5), (0.5, 0.0), (-0.3, 0.5), (0.5, -0.3), (1.0, 0.5), (1.4, 0.3), (0.3, 1.4), (1.0, 1.0), (0.0, 1.0), (0.0, 0.0), (2.0, 2.0)]
    Q = [("#", None), ("v", None), (">", None)]
    jobs = []

    def all_seqs(ops, n):
        t = len(ops) ** n
        for k in range(0, t, 4000):
            jobs.append((ops, n, k, min(t, k + 4000)))
        ck.stats.sample("all sequences of %d of %s" % (n, ops))

    all_seqs([("+", p) for p in grid], 5 if THOROUGH else 4)
    all_seqs([("+", p) for p in ((0.2, 0.8), (0.8, 0.2), (0.5, 0.5), (0.4, 0.4))] + Q, 6 if THOROUGH else 5)
    all_seqs([("+", p) for p in edge + [(0.5, 0.5), (0.2, 0.8)]], 3)
    all_seqs([("+", p) for p in ((0.2, 0.8), (0.8, 0.2), (0.1, 0.1))] + Q[2:], 8 if THOROUGH else 7)
    core.explore(ck, seqs, jobs, exe, chunk=1)
    n = 8 if THOROUGH else 7
    pj = [(n, (a, b), False) for a in range(n) for b in range(n) if a != b]
    w = 6 if THOROUGH else 5
    pj += [(w, (a,), True) for a in range(w)]
    core.explore(ck, perms, pj, exe, chunk=1)
    core.explore(ck, big, [(k, n) for k in ["up", "down", "zig", "mid"] + [str(s) for s in (2, 3, 5, 7, 13, 37, 61)] for n in (9, 16, 17, 33, 64, 100, 333)], exe, chunk=2)
    core.explore(ck, texts, list(range(len(LENS))), exe, chunk=2)
    fs = [("bbob-biobj", f, d, i) for f in range(1, 56) for d in (2, 10) for i in (1, 4)] + [("bbob-biobj-ext", f, 3, 2) for f in range(1, 93)] + [("bbob-biobj-mixint", f, 5, 1) for f in range(1, 93)]
    core.explore(ck, archs, [fs[k:k + 20] for k in range(0, len(fs), 20)], exe, chunk=1)
    ck.assumptions.append("objective values on grids inside, on and outside the ideal-nadir box; distinct normalised values differ by much more than the 1e-13 rounding grid; extremes count as solutions; order as documented: the two extremes, then by the second objective")
    ck.finish()


core.main(main)
