"""Reference model of the bbob-noisy suite: the BBOB-2009 legacy generator, the three noise models, the seeds."""
import functools
import math


def unif(n, seed):
    seed = abs(int(seed)) or 1
    a = seed

    def step(a):
        t = a // 127773
        a = 16807 * (a - t * 127773) - 2836 * t
        return a + 2147483647 if a < 0 else a
    tab = [0] * 32
    for i in range(39, -1, -1):
        a = step(a)
        if i < 32:
            tab[i] = a
    r = tab[0]
    out = []
    for _ in range(n):
        a = step(a)
        k = r // 67108865
        r = tab[k]
        tab[k] = a
        v = r / 2.147483647e9
        out.append(v if v != 0 else 1e-99)
    return out


@functools.lru_cache(None)
def U(seed):
    return unif(1, seed)[0]


@functools.lru_cache(None)
def N(seed):
    u = unif(2, seed)
    v = math.sqrt(-2 * math.log(u[0])) * math.cos(2 * math.pi * u[1])
    return v if v != 0 else 1e-99


# function -> (model, strength), base bbob function (None: a variant with other parameters)
BASE = {101: 1, 104: 8, 107: 1, 110: 8, 113: 7, 116: None, 119: 14, 122: 17, 125: None, 128: 21}
NOPEN = (113, 122, 128)


def kind(f):
    return ("gauss", "unif", "cauchy")[(f - 101) % 3]


def group(f):
    return f - (f - 101) % 3


def base(f):
    return BASE[group(f)]


class Seeds:
    def __init__(self):
        self.reset()

    def reset(self):
        self.n = self.u = 30

    def gauss(self):
        self.n += 1
        return N(self.n)

    def uniform(self):
        self.u += 1
        return U(self.u)


def penalty(x, lo=-5.0, hi=5.0):
    return 100.0 * sum((v - hi) ** 2 if v > hi else (v - lo) ** 2 if v < lo else 0.0 for v in x)


def noisy(s, f, dim, g, fopt, pen):
    """The value returned for a noise-free distance g to the optimal value; draws from s."""
    weak = f <= 106
    k = kind(f)
    if k == "gauss":
        return g * math.exp((0.01 if weak else 1.0) * s.gauss()) + 1.01e-8 + fopt + pen
    if k == "unif":
        c = 0.01 if weak else 1.0
        u1 = s.uniform()
        u2 = s.uniform()
        sc = max(1.0, (1e9 / (g + 1e-99)) ** (c * (0.49 + 1.0 / dim) * u2))
        return g * u1 ** c * sc + 1.01e-8 + fopt + pen
    a, p = (0.01, 0.05) if weak else (1.0, 0.2)
    u = s.uniform()
    num = s.gauss()
    den = abs(s.gauss() + 1e-199)
    c = max(0.0, a * (1e3 + num / den if u < p else 1e3))
    return fopt + g + c + 1.01e-8 + pen


def clean(s, f, y, fopt, pen):
    """Noise-free distance from a value returned by a gaussian-noise function."""
    assert kind(f) == "gauss"
    return max(0.0, y - fopt - pen - 1.01e-8) / math.exp((0.01 if f <= 106 else 1.0) * s.gauss())
