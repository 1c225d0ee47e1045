"""Reference model of the bbob-biobj observer: what its files contain after a history of calls.

Archive and hypervolume are computed by brute force from the objective values the unobserved problem returns."""
import copy
import json
import lzma
import math
import os
import re

import bbobmodel as bm

PREC, GRID = 1e-13, 5e-13
EPS = 1e-11  # freedom of the floating-point summation order
_HYP = None


def best_hyp(pid):
    """best known hypervolume of the published table"""
    global _HYP
    if _HYP is None:
        with lzma.open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "data", "besthyp.xz"), "rt") as f:
            _HYP = json.load(f)
    return float(_HYP.get(pid, "1.0"))


def normalise(y, ideal, nadir):
    z = []
    for a, i, n in zip(y, ideal, nadir):
        v = math.floor((a - i) / (n - i) / GRID + 0.5) * GRID
        z.append(0.0 if v < 0 else v)
    for k in (0, 1):
        if abs(z[k]) < PREC and z[1 - k] < 1:
            z[1 - k] = 1.0
    return tuple(z)


def leq(a, b):
    return a < b or abs(a - b) < PREC


def weakly(a, b):
    """a is at least as good as b in both objectives"""
    return leq(a[0], b[0]) and leq(a[1], b[1])


def in_roi(z):
    return all(leq(0, v) and leq(v, 1) for v in z)


def distance(z):
    return math.hypot(max(z[0] - 1, 0), max(z[1] - 1, 0)) if not in_roi(z) else 0.0


def hypervolume(points):
    pts = sorted(p for p in points if in_roi(p))
    hv, best = 0.0, 1.0
    for z in pts:  # increasing first objective: each point adds the strip below the best second objective so far
        if z[1] < best:
            hv += (1 - z[0]) * (best - z[1])
            best = z[1]
    return hv


DEFAULTS = {"nondom": "all", "vars": "low_dim", "ind": 1, "px": 8, "pf": 15, "ntt": 100, "logp": 1e-8, "linp": 1e-5, "base": (1, 2, 5),
            "dint": 0, "alg": "ALG", "info": ""}


class Observer:
    def __init__(self, **kw):
        self.o = dict(DEFAULTS)
        self.o.update(kw)
        self.files = {}
        self.last = None

    def add(self, path, text):
        self.files[path] = self.files.get(path, "") + text


class Run:
    """P: dict(suite, id, name, type, index, f, i, dim, nint, ideal, nadir, known)"""

    def __init__(self, ob, P):
        self.ob, self.P = ob, P
        o = ob.o
        self.nf = 0
        self.prev_nf = 0
        self.restart = False
        self.arch = []    # (normalised, evaluation, y, x)
        self.pen = bm.DBL_MAX
        self.overall = 0.0
        self.hit = self.elog = False
        self.ambiguous = False
        self.exact = True
        self.vars = o["vars"] == "all" or (o["vars"] == "low_dim" and P["dim"] <= 5)
        self.prefix = re.sub(r"_i\d+", "", P["id"])
        self.ind = bool(o["ind"])
        if o["nondom"] in ("all", "final"):
            self.adat = "archive/%s_nondom_%s.adat" % (P["id"], o["nondom"])
            ob.add(self.adat, "%% instance = %d, name = %s\n" % (P["i"], P["name"]) + ("%% function evaluation | 2 objectives | %d variables\n" % P["dim"] if self.vars else "% function evaluation | 2 objectives \n"))
        else:
            self.adat = None
        if self.ind:
            self.best = best_hyp(P["id"]) if P["known"] else 1.0
            self.t = bm.Targets(o["ntt"], o["logp"], o["linp"], P["known"])
            self.ev = bm.Evals(o["base"], P["dim"])
            self.info = P["type"] + "_hyp.info"
            if self.info not in ob.files:
                ob.add(self.info, "suite = '%s', algorithm = '%s', indicator = 'hyp', folder = '%s', coco_version = 'MC'\n%% %s%s"
                       % (P["suite"], o["alg"], P["type"], o["info"], " (reconstructed)" if o["nondom"] == "read" else ""))
            if ob.last != (P["f"], P["dim"]):
                ob.add(self.info, "\nfunction = %2d, dim = %2d, %s_hyp.dat" % (P["f"], P["dim"], self.prefix))
            ob.last = (P["f"], P["dim"])
            for e in ("dat", "tdat", "rdat"):
                self._w(e, "%%\n%% index = %d, name = %s\n%% instance = %d, reference value = %s\n%% function evaluation | indicator value%s\n"
                        % (P["index"], P["name"], P["i"], self._f(self.best), " | target hit" if e == "dat" else ""))
        self.mdat = "%s/%s.mdat" % (P["type"], self.prefix)
        ob.add(self.mdat, "%% instance = %d, name = %s\n%% function evaluation | 2 objectives%s\n" % (P["i"], P["name"], " | %d variables" % P["dim"] if self.vars else ""))

    def _f(self, v):
        return "%.*e" % (self.ob.o["pf"], v)

    def _w(self, ext, text):
        self.ob.add("%s/%s_hyp.%s" % (self.P["type"], self.prefix, ext), text)

    def _row(self, n, y, x):
        s = "%d\t" % n + "".join(self._f(v) + "\t" for v in y)
        if self.vars:
            for k, v in enumerate(x):
                s += ("%d\t" % bm.round_half_up(v)) if k < self.P["nint"] and self.ob.o["dint"] else "%.*e\t" % (self.ob.o["px"], v)
        return s + "\n"

    def _target(self):
        r = []
        eps = 0.0 if self.exact else EPS
        for d in (-eps, eps, 0.0):
            t = copy.copy(self.t)
            h = t.hit(self.overall + d)
            r.append((h, t.exp, t.lin))
        if r[0] != r[2] or r[1] != r[2]:
            self.ambiguous = True
        self.t = t
        return h

    def _enter(self, n, y, x):
        z = normalise(y, self.P["ideal"], self.P["nadir"])
        if any(weakly(a[0], z) for a in self.arch):
            return False
        self.arch = [a for a in self.arch if not weakly(z, a[0])] + [(z, n, tuple(y), tuple(x))]
        if self.ob.o["nondom"] == "all":
            self.ob.add(self.adat, self._row(n, y, x))
        if self.ind:
            hv = hypervolume([a[0] for a in self.arch])
            self.pen = min(self.pen, distance(z)) if hv < PREC else 0.0
            self.overall = self.best - hv + self.pen
            self.exact = hv == 0 and self.pen == 0  # no arithmetic to speak of
        return True

    def _log(self, entered, previous):
        if self.ind:
            self.hit = entered and self._target()
            if self.hit:
                self._w("dat", "%d\t%s\t%s\n" % (self.nf, self._f(self.overall), self._f(self.t.last())))
            if self.ob.o["nondom"] == "read":
                for j in range(self.prev_nf + 1, self.nf):
                    if self.ev.hit(j):
                        self._w("tdat", "%d\t%s\n" % (j, self._f(previous)))
            self.elog = self.ev.hit(self.nf)
            if self.elog:
                self._w("tdat", "%d\t%s\n" % (self.nf, self._f(self.overall)))
            if self.restart:
                self._w("rdat", "%d\t%s\n" % (self.nf, self._f(self.overall)))
        self.restart = False

    def evaluate(self, x, y):
        self.nf += 1
        p = self.overall
        self._log(self._enter(self.nf, y, x), p)

    def feed(self, n, y):
        self.prev_nf, self.nf = self.nf, n
        p = self.overall
        e = self._enter(n, y, [0.0] * self.P["dim"])
        self._log(e, p)
        return e

    def signal(self):
        if self.nf:
            self.restart = True

    def recommend(self, x, y):
        self.ob.add(self.mdat, self._row(self.nf, y, x))

    def free(self):
        if self.ob.o["nondom"] == "final":
            for z, n, y, x in sorted(self.arch, key=lambda a: a[1]):
                self.ob.add(self.adat, self._row(n, y, x))
        if self.ind:
            if not self.hit:
                self._w("dat", "%d\t%s\t%s\n" % (self.nf, self._f(self.overall), self._f(self.t.last())))
            if not self.elog:
                self._w("tdat", "%d\t%s\n" % (self.nf, self._f(self.overall)))
            if len({"%.1e" % (self.overall + d) for d in (-EPS, 0, EPS)}) > 1 and not self.exact:
                self.ambiguous = True
            self.ob.add(self.info, ", %d:%d|%.1e" % (self.P["i"], self.nf, self.overall))
        if self.adat:
            self.ob.add(self.adat, "%% evaluations = %d\n" % self.nf)


NUM = re.compile(r"[-+]?\d+\.\d+e[-+]\d+")


def same_text(a, b):
    """equal up to the summation order of the indicator values"""
    if a == b:
        return True
    x, y = NUM.split(a), NUM.split(b)
    if x != y:
        return False
    for u, v in zip(NUM.findall(a), NUM.findall(b)):
        if u != v and (len(u) != len(v) and abs(len(u) - len(v)) > 1 or abs(float(u) - float(v)) > EPS * max(1.0, abs(float(u)))):
            return False
    return True


def diff(model, real):
    got = {k: v.decode("latin-1") for k, v in real.items() if v is not None}
    for k in sorted(set(model) | set(got)):
        a, b = model.get(k), got.get(k)
        if a == b:
            continue
        if a is None:
            return "unexpected file %s: %r" % (k, b[:300])
        if b is None:
            return "missing file %s" % k
        la, lb = a.split("\n"), b.split("\n")
        tol = "_hyp." in k
        for i in range(max(len(la), len(lb))):
            u = la[i] if i < len(la) else None
            w = lb[i] if i < len(lb) else None
            if u != w and not (tol and u is not None and w is not None and same_text(u, w)):
                return "%s line %d: %r, expected %r" % (k, i + 1, w, u)
    return None
