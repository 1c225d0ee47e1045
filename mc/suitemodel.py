"""Reference model of suites: what a (suite, instance string, options string) selects, from the documentation."""
import re

D6 = [2, 3, 5, 10, 20, 40]
M6 = [5, 10, 20, 40, 80, 160]
L6 = [20, 40, 80, 160, 320, 640]
SUITES = {  # dimensions, number of functions, first function number, default instances
    "toy": ([2, 3, 5, 10, 20], 6, 1, "instances: 1"),
    "bbob": (D6, 24, 1, "year: 2018"),
    "bbob-boxed": (D6, 24, 1, "year: 2023"),
    "bbob-biobj": (D6, 55, 1, "instances: 1-15"),
    "bbob-biobj-ext": (D6, 92, 1, "instances: 1-15"),
    "bbob-largescale": (L6, 24, 1, "instances: 1-15"),
    "bbob-constrained": (D6, 54, 1, "year: 2022"),
    "bbob-mixint": (M6, 24, 1, "instances: 1-15"),
    "bbob-biobj-mixint": (M6, 92, 1, "instances: 1-15"),
    "bbob-noisy": (D6, 30, 101, "year:2009"),
}
NAMES = list(SUITES)
TOY = ["sphere", "ellipsoid", "rastrigin", "bueche-rastrigin", "linear_slope", "rosenbrock"]
FATAL = "fatal"


def year_instances(suite, y):
    R = lambda a, b: list(range(a, b + 1))
    if suite == "bbob":
        t = [(2023, R(101, 110)), (2021, R(91, 100)), (2018, R(71, 80)), (2017, R(61, 70)), (2016, R(51, 60)),
             (2015, R(41, 50)), (2013, R(31, 40)), (2012, R(21, 30))]
        if y == 0:
            return R(1, 5) + R(51, 60)
        for y0, l in t:
            if y >= y0:
                return R(1, 5) + l
        if y >= 2010:
            return R(1, 15)
        if y == 2009:
            return R(1, 5) * 3
        return FATAL
    if suite == "bbob-boxed":
        return SBOX.get(y, FATAL)
    if suite in ("bbob-biobj", "bbob-biobj-ext"):
        return R(1, 10) if y in (0, 2016) else R(1, 15)
    if suite in ("bbob-mixint", "bbob-biobj-mixint"):
        return R(1, 15)
    if suite == "bbob-noisy":
        return R(1, 15) if y <= 2009 else FATAL
    if suite in ("bbob-constrained", "bbob-largescale"):
        return R(1, 15) if y >= 2009 or y == 0 else FATAL
    return FATAL


SBOX = {2023: list(range(1, 6)) + list(range(101, 111)), 0: list(range(1, 16))}


def parse_ranges(s, mn, mx, limit=1000):
    """List of numbers, or None when the value is to be ignored."""
    if s == "" or re.search(r"[^0-9,\-]", s):
        return None
    res = []
    for item in [i for i in s.split(",") if i]:
        if item.count("-") > 1:
            break
        if "-" not in item:
            a = b = int(item)
        else:
            l, r = item.split("-")
            if not l and not mn or not r and not mx:
                break
            a = int(l) if l else mn
            b = int(r) if r else mx
        if mn:
            a = max(a, mn)
        if mx:
            b = min(b, mx)
        if a > b:
            break
        res += range(a, b + 1)
        if len(res) >= limit:
            res = res[:limit]
    return res or None


def value_of(options, key):
    """Text of a numeric option value (up to the next letter, blanks dropped), None if absent or without colon."""
    i = options.find(key)
    if i < 0:
        return None
    j = options.find(":", i)
    if j < 0:
        return ""
    m = re.match(r"[^A-Za-z]*", options[j + 1:])
    return re.sub(r"[ \t]", "", m.group(0))


def instances_of(suite, s):
    i, y = s.find("instances"), s.find("year")
    if i < 0 and y < 0:
        return None
    if i >= 0 and (y < 0 or i < y):
        v = value_of(s, "instances")
        return parse_ranges(v, 1, 0) if v else None
    m = re.match(r"[^:]*:\s*([+-]?\d+)", s[y:])
    return year_instances(suite, int(m.group(1))) if m else None


class Selection:
    """fs, ds, is_: lists with 0 for filtered positions; or .status 'fatal' / 'null'."""

    def __init__(self, suite, inst, opts):
        dims, nf, f0, default = SUITES["bbob-constrained" if suite.startswith("bbob-constrained") else suite]
        base = "bbob-constrained" if suite.startswith("bbob-constrained") else suite
        self.suite, self.status = base, "ok"
        ii = instances_of(base, inst) if inst else instances_of(base, default)
        if ii is None:
            ii = instances_of(base, default)
        if ii == FATAL:
            self.status = FATAL
            return
        if len(ii) >= 1000:
            self.status = FATAL  # documented limit on the number of instances
            return
        fs = [f0 + k for k in range(nf)]
        ds = list(dims)
        v = value_of(opts, "function_indices")
        if v:
            r = parse_ranges(v, 1, nf)
            if r is not None:
                if len(r) >= 1000:
                    self.status = FATAL
                    return
                fs = [f if k + 1 in r else 0 for k, f in enumerate(fs)]
        v = value_of(opts, "instance_indices")
        if v:
            r = parse_ranges(v, 1, len(ii))
            if r is not None:
                ii = [f if k + 1 in r else 0 for k, f in enumerate(ii)]
        a, b = opts.find("dimensions"), opts.find("dimension_indices")
        use_d = a >= 0 and (b < 0 or a < b)
        use_i = b >= 0 and (a < 0 or b < a)
        if use_i:
            v = value_of(opts, "dimension_indices")
            r = parse_ranges(v, 1, len(ds)) if v else None
            if r is not None:
                ds = [f if k + 1 in r else 0 for k, f in enumerate(ds)]
        if use_d:
            v = value_of(opts, "dimensions")
            if v:
                if re.search(r"[^0-9,]", v):
                    self.status = "null"
                    return
                r = parse_ranges(v, ds[0], ds[-1])
                if r is not None:
                    ds = [d if d in r else 0 for d in ds]
        if not any(ds):
            self.status = "null"
            return
        self.fs, self.ds, self.ii = fs, ds, ii
        self.n = len(fs) * len(ds) * len(ii)

    def triples(self):
        """(index, f, d, i) in iteration order; only unfiltered ones."""
        nf, ni = len(self.fs), len(self.ii)
        for kd, d in enumerate(self.ds):
            for kf, f in enumerate(self.fs):
                for ki, i in enumerate(self.ii):
                    if d and f and i:
                        yield (kd * nf + kf) * ni + ki, f, d, i


ID = re.compile(r"_f0*(\d+)_i0*(\d+)_d0*(\d+)$")
NOBJ = {"bbob-biobj": 2, "bbob-biobj-ext": 2, "bbob-biobj-mixint": 2}


def problem_mismatch(suite, idx, f, d, i, line):
    """None if a description line (id, index, dim, nobj, ncons, nint, name) denotes the triple."""
    t = line.split("\t")
    if len(t) != 7:
        return "no problem: %r" % line
    pid, pidx, pd, pm, pc, pi, name = t
    if suite == "toy":
        if not pid.startswith(TOY[f - 1] + "_"):
            return "id %s is not function %d" % (pid, f)
        if not pid.endswith("_d%02d" % d):
            return "id %s is not dimension %d" % (pid, d)
    else:
        m = ID.search(pid)
        if not m or (int(m.group(1)), int(m.group(2)), int(m.group(3))) != (f, i, d):
            return "id %s is not f%d i%d d%d" % (pid, f, i, d)
        if suite in ("bbob", "bbob-boxed", "bbob-largescale", "bbob-constrained", "bbob-noisy"):
            if "f%d instance %d in %dD" % (f, i, d) not in name:
                return "name %r is not f%d i%d d%d" % (name, f, i, d)
    if int(pd) != d:
        return "dimension %s instead of %d" % (pd, d)
    if int(pm) != NOBJ.get(suite, 1):
        return "%s objectives" % pm
    if int(pidx) != idx:
        return "index %s instead of %d" % (pidx, idx)
    nint = d * 4 // 5 if "mixint" in suite else 0
    if int(pi) != nint:
        return "%s integer variables instead of %d" % (pi, nint)
    return None
