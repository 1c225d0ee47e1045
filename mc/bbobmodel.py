"""Reference model of the bbob observer: what its files contain after a history of calls.

Written from the documentation of the data format (observer options, logger header, coco.h); it knows values only as
the numbers the unobserved problem returns."""
import math

NAN_LOG, INF_LOG = 2e21, 3e21
DBL_MAX = 1.7976931348623157e308


def round_half_up(v):
    return math.floor(v + 0.5)


class Targets:
    """A new target is reached when the value enters a lower cell of the log or of the linear grid."""

    def __init__(self, n, log_prec, lin_prec, known=True):
        self.n, self.lp, self.linp = n, log_prec, lin_prec
        self.use_log = n > 0 and known
        self.exp = 2 ** 31 - 1
        self.lin = DBL_MAX
        self.value = DBL_MAX

    def hit(self, v):
        a = self._log(v) if self.use_log else False
        b = self._lin(v)
        return a or b

    def _log(self, v):
        if v >= 0:
            w = self.lp / 10.0 if v == 0 else max(v, self.lp)
            e = math.ceil(math.log10(w) * self.n)
            if e < self.exp:
                self.exp = e
                self.value = 0.0 if v == 0 else math.pow(10, e / self.n)
                return True
            return False
        w = max(-v, self.lp)
        e = math.floor(math.log10(w) * self.n)
        adj = 2 * math.ceil(math.log10(self.lp / 10.0) * self.n) - e - 1
        if adj < self.exp:
            self.exp = adj
            self.value = -math.pow(10, e / self.n)
            return True
        return False

    def _lin(self, v):
        p = self.linp
        up = math.ceil(v / p) * p
        rd = round_half_up(v / p) * p
        t = up
        if not abs(rd - up) < p and abs(v - rd) < 1e-12:
            t = rd
        if t < self.lin:
            self.lin = t
            return True
        return False

    def last(self):
        return min(self.lin, self.value) if self.use_log else self.lin


class Evals:
    """Evaluation numbers floor(10^(i/20)) and dim*base*10^i; a number passed in between triggers at the next call."""

    def __init__(self, base, dim):
        self.base, self.dim = base, dim
        self.v1, self.e1 = 1, 0
        self.v2, self.e2, self.k = dim * base[0], 0, 0

    def hit(self, n):
        r = False
        if n >= self.v1:
            while math.floor(math.pow(10, self.e1 / 20.0)) <= self.v1:
                self.e1 += 1
            self.v1 = math.floor(math.pow(10, self.e1 / 20.0))
            r = True
        if n >= self.v2:
            self.k += 1
            if self.k == len(self.base):
                self.k = 0
                self.e2 += 1
            self.v2 = int(math.pow(10, self.e2) * self.dim * self.base[self.k] + 0.0)
            r = True
        return r


def digit(c):
    for i, l in enumerate((0, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 1e-1, 1)):
        if c <= l:
            return i
    return 9


def e9(v):
    return "%+10.9e" % v


DEFAULTS = {"ntt": 100, "logp": 1e-8, "linp": 1e-5, "base": (1, 2, 5), "dint": 0, "prefix": "bbobexp", "alg": "ALG", "name": "bbob", "folder": "exdata/default"}


class Observer:
    def __init__(self, **kw):
        self.o = dict(DEFAULTS)
        self.o.update(kw)
        self.files = {}  # relative path -> text
        self.last = None
        self.last_dat = None

    def add(self, path, text):
        self.files[path] = self.files.get(path, "") + text


class Run:
    """One observed problem. P: dict(suite, f, i, dim, nint, ncon, best)"""

    def __init__(self, obs, P):
        self.obs, self.P = obs, P
        o = obs.o
        self.init = False
        self.restart = False
        self.nf = 0
        self.ng = 0     # constraint evaluations of the solver so far
        self.ng_logged = 0
        self.last = {"dat": 0, "tdat": 0, "mdat": 0}
        self.best, self.bestx = DBL_MAX, None
        self.rec, self.recx = INF_LOG, None
        self.t = Targets(o["ntt"], o["logp"], o["linp"], P.get("known", True))
        self.tm = Targets(o["ntt"], o["logp"], o["linp"], P.get("known", True))
        self.ev = Evals(o["base"], P["dim"])

    def _start(self):
        P, ob = self.P, self.obs
        self.init = True
        stem = "data_f%d/bbobexp_f%d_DIM%d" % (P["f"], P["f"], P["dim"])
        info = "%s_f%d.info" % (ob.o["prefix"], P["f"])
        self.info = info
        if ob.last != (P["f"], P["dim"]):
            name, k = stem, 1
            while name + ".dat" in ob.files:
                name = "%s-%04d" % (stem, k)
                k += 1
            ob.last, ob.last_dat = (P["f"], P["dim"]), name
            if info in ob.files:
                ob.add(info, "\n")
            ob.add(info, "suite = '%s', funcId = %d, DIM = %d, Precision = 1.000e-08, algId = '%s', coco_version = 'MC', logger = '%s', data_format = 'bbob-new2'\n%%\n%s.dat"
                   % (P["suite"], P["f"], P["dim"], ob.o["alg"], ob.o["name"], name))
        self.stem = ob.last_dat
        ob.add(info, ", %d" % P["i"])
        for e in ("dat", "tdat", "rdat", "mdat"):
            ob.add(self.stem + "." + e, "%% f evaluations | g evaluations | best noise-free fitness - %s (%13.12e) + sum g_i+ | measured fitness | best measured fitness or single-digit g-values | x1 | x2...\n"
                   % ("Fopt" if P.get("known", True) else "Fref", P["best"]))

    def _line(self, ext, x, cur, best, g):
        P = self.P
        s = "%d %d %s %s " % (self.nf, self.ng_logged, e9(best - P["best"]), e9(cur))
        s += "".join(str(digit(c)) for c in g) if P["ncon"] and g is not None else e9(best)
        if P["dim"] < 22:
            for k, v in enumerate(x):
                s += " %d" % round_half_up(v) if k < P["nint"] and self.obs.o["dint"] else " %+5.4e" % v
        self.obs.add(self.stem + "." + ext, s + "\n")
        if ext in self.last:
            self.last[ext] = self.nf

    def _value(self, y, g):
        if math.isnan(y):
            y = NAN_LOG
        elif math.isinf(y):
            y = INF_LOG
        s = 0.0
        for c in (g or []):
            if c > 0:
                s += c
        return y, max(y, self.P["best"]) + s

    def evaluate(self, x, y, g):
        """y: noise-free value; not called for x with infinite or NaN coordinates (these are no evaluations)"""
        if not self.init:
            self._start()
        self.nf += 1
        yl, v = self._value(y, g)
        self.ng_logged = self.ng
        if self.nf == 1 or v < self.best:
            self.best, self.bestx = v, list(x)
            if self.nf == 1 or self.t.hit(v - self.P["best"]):
                self._line("dat", x, yl, self.best, g)
        if self.ev.hit(self.nf + self.ng_logged):
            self._line("tdat", x, yl, self.best, g)
        if self.restart:
            self._line("rdat", x, yl, self.best, g)
            self.restart = False

    def constraint(self):
        self.ng += 1

    def signal(self):
        if self.nf:
            self.restart = True

    def recommend(self, x, y, g):
        if not self.init:
            self._start()
        yl, v = self._value(y, g)
        if v < self.rec:
            self.rec, self.recx = v, list(x)
            if self.tm.hit(v - self.P["best"]):
                self._line("mdat", x, yl, self.rec, g)

    def free(self):
        if not self.init:
            return
        self.obs.add(self.info, ":%d|%s" % (self.nf, "%.1e" % (self.best - self.P["best"])))
        for e in ("dat", "tdat"):
            if self.nf != self.last[e]:
                self._line(e, self.bestx, self.best, self.best, None)
        if self.nf != self.last["mdat"] and self.last["mdat"] != 0:
            self._line("mdat", self.recx, self.rec, self.rec, None)


def diff(model, real, folder=""):
    """First difference between the model's files and a real result folder ({rel: bytes}), or None."""
    got = {k: v.decode("latin-1") for k, v in real.items() if v is not None}
    for k in sorted(set(model) | set(got)):
        a, b = model.get(k), got.get(k)
        if a == b:
            continue
        if a is None:
            return "unexpected file %s: %r" % (k, b[:300])
        if b is None:
            return "missing file %s" % k
        la, lb = a.split("\n"), b.split("\n")
        for i in range(max(len(la), len(lb))):
            u = la[i] if i < len(la) else None
            w = lb[i] if i < len(lb) else None
            if u != w:
                return "%s line %d: %r, expected %r" % (k, i + 1, w, u)
    return None
