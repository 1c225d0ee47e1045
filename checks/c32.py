"""C32: the helpers of the Python package that carry options and settings: ObserverOptions over all dictionaries of options up to
the bound (the string given to the C library compared with its files), args_to_dict over all lists of arguments,
write_setting/read_setting over all dictionaries of values, SameFunction over all sequences of ids, ascetime over all durations."""
import os
import sys
PY = "/opt/vp/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/vp/venv") and os.path.exists(PY):
    os.execv(PY, [PY] + sys.argv)
import ast
import contextlib
import importlib.util
import io
import itertools
import math
import re
import shutil
import tempfile
import warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
from core import THOROUGH, Violation  # noqa: E402

ck = core.Check("C32")
sys.dont_write_bytecode = True


def load(name):
    p = os.path.join(core.REPO, "build/python/src/cocoex/%s.py" % name)
    spec = importlib.util.spec_from_file_location("cocoex_" + name, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


U = load("utilities")

# ---- ObserverOptions
VALUES = {
    "result_folder": ["r", "menu", "a/b", '"two words"', "u", "x_{1}", "it's"],
    "algorithm_name": ["CMA", '"A, B"', "gnu", '"Menu\'s"', "{x}", "x,y"],
    "algorithm_info": ['"some, text: with {braces} and \'quotes\'"', "short", '"u"'],
    "base_evaluation_triggers": ["1,3", '"1,2,5"', "4", '"1, 3"'],
    "number_target_triggers": [7, 1, "3"],
    "lin_target_precision": [0.25, "1e-2", 1e-09],
    "precision_x": [3, "16"],
    "precision_f": [4],
    "outer_folder": ["out", "exdatau", '"o, u"'],
    "log_discrete_as_int": [1, True],
    "log_nondominated": ["final", "all"],
    "prefix": ["pre", "u"],
}


def history(kind, opts):
    suite = ("bbob", "", "dimensions:2 function_indices:1 instance_indices:1") if kind == "bbob" else ("bbob-biobj", "", "dimensions:2 function_indices:1 instance_indices:1")
    c = ["S\t0\t%s\t%s\t%s" % suite, "O\t0\t%s\t%s" % (kind, opts), "B\t0\t0\t1\t2\t1", "A\t0\t0"]
    for x in ((0, 0), (1, 2), (0.5, -3), (0.25, -1.15), (1, 1), (-2, 0.5), (0.25, -1.2), (3, 3)):
        c.append("E\t0\t%r\t%r" % x)
    return c + ["F\t0", "o\t0", "f\t0"]


def observe(drv, kind, opts):
    a = drv.run(history(kind, opts))
    t = core.read_tree(drv.dir)
    t.pop("stderr", None)
    for f in os.listdir(drv.dir):
        if os.path.isdir(os.path.join(drv.dir, f)):
            shutil.rmtree(os.path.join(drv.dir, f))
    return a, t


def options(item, drv, st, viol):
    kind, keys = item
    for vals in itertools.product(*[VALUES[k] for k in keys]):
        d = dict(zip(keys, vals))
        want = observe(drv, kind, " ".join("%s: %s" % (k, v) for k, v in d.items()))
        for o, how in ((U.ObserverOptions(d), "the constructor"), (U.ObserverOptions().update(d), "update"), (U.ObserverOptions({keys[0]: d[keys[0]]}).update_gracefully(d), "update_gracefully"),
                       (U.ObserverOptions(d).update_gracefully({keys[0]: "other"}), "update_gracefully over present keys"), (U.ObserverOptions(dict(d, **{keys[-1]: "other"})).update(d), "update over present keys")):
            s = o.as_string
            got = observe(drv, kind, s) if "\n" not in s and "\t" not in s else None
            if got != want:
                raise Violation("ObserverOptions(%r) by %s gives %r, which does not set these options for the %s observer" % (d, how, s, kind), {"options": repr(d), "string": s, "how": how, "observer": kind})
            st.add("transitions")
        st.state((kind,) + tuple(map(repr, d.items())))
    st.add("traces_validated_against_impl")


# ---- args_to_dict
def lit(v):
    try:
        return ast.literal_eval(v)
    except Exception:
        return v


NAMES = ["budget", "bud", "budget_multiplier", "b", "x", "batch", "batches", "fmin", "no", ""]
ARGV = ["3", "2.5", "abc", "[1,2]", "'q'", "1/3", "1e3", "None", "(1", "1/2/3", "07"]
KNOWN = [None, [], ["budget"], ["budget", "bed"], ["budget_multiplier", "batches", "fmin"], {"batch": 1, "batches": 2, "current_batch": 3, "x": 0}, ("b", "bb")]
SPECIALS = [None, {"batch": "current_batch/batches"}, {"x": "y"}]


def args_model(args, known, specials, split):
    """(set of allowed results); None stands for ValueError"""
    res, free = {}, False
    for arg in args:
        p = arg.split(split)
        if len(p) != 2:
            return None, False
        name, value = p
        if specials and name in specials:
            if name != "batch":
                return None, free
            ks = specials["batch"].split("/")
            vs = value.split("/")
            if len(ks) != len(vs):
                return None, free
            for k, v in zip(ks, vs):
                try:
                    v = int(v)
                except ValueError:
                    return None, free
                if k in res and res[k] != v:
                    free = True  # not documented which one wins
                res[k] = v
            continue
        if known is None:
            full = name
        else:
            c = [k for k in known if k.startswith(name)]
            if len(c) != 1:
                if name in c or not name:
                    free = True  # also an abbreviation of another name
                return None, free
            if not name:
                free = True
            full = c[0]
        v = lit(value)
        if full in res and res[full] != v:
            return None, free
        res[full] = v
    return res, free


def args_check(item, drv, st, viol):
    first, known, specials, split, L = item
    alpha = [n + split + v for n in NAMES for v in ARGV[:4 if L > 1 else None]] + ["budget", "a%sb%sc" % (split, split)]
    for rest in itertools.product(alpha, repeat=L - 1):
        args = [first] + list(rest)
        want, free = args_model(args, known, specials, split)
        printed = []
        k0 = repr(known)
        try:
            got = U.args_to_dict(args, known, specials, split, print=lambda *a, **k: printed.append(a)) if L == 1 else U.args_to_dict(list(args), known, specials, split)
        except ValueError:
            got = None
        except Exception as e:
            raise Violation("args_to_dict(%r, %r, %r, %r) raises %s" % (args, known, specials, split, type(e).__name__), {"args": args})
        if not free and (repr(got) != repr(want) if want is None or got is None else {k: repr(v) for k, v in got.items()} != {k: repr(v) for k, v in want.items()}):
            raise Violation("args_to_dict(%r, %r, %r) gives %s instead of %s" % (args, known, specials, "ValueError" if got is None else got, "ValueError" if want is None else want), {"args": args, "known": repr(known), "specials": specials})
        if repr(known) != k0:
            raise Violation("args_to_dict(%r) changes known_names" % (args,), {"args": args})
        st.add("transitions")
        st.state(("args", first, repr(want)))
    st.add("traces_validated_against_impl")


# ---- settings
class Odd:
    def __repr__(self):
        return "<odd>"


ODD = Odd()
KEYS = ["a", "_a", "self", "selfish", "b_", "fmin", 3]
SET = [1, -1, 2.5, -0.0, 1e300, 1e-300, "a", "it's", 'say "hi"', "", "line\nbreak\r\t\\", "é", None, True, (1,), (), [1, [2.5, "x"]], {"k": (1, None)}, {}, b"x\x00", {1}, 10**30, 0.1,
       ODD, len, math.inf, [1, math.inf], math.nan, (ODD,), {"k": ODD}, object]
IGN = [None, "_", ("_", "self"), "a", ("self", "f")]


def literal(v):
    try:
        return repr(ast.literal_eval(repr(v))) == repr(v)
    except Exception:
        return False


def settings(item, drv, st, viol):
    k1, v1, L = item
    d = tempfile.mkdtemp(prefix="set", dir=core.scratch())
    n = 0
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        for more in ([()] if L == 1 else [((k, v),) for k in KEYS if k != k1 for v in SET]):
            dic = dict(((k1, v1),) + more)
            before = {k: repr(v) for k, v in dic.items()}
            for ign in IGN if L == 1 else IGN[:1]:
                pre = ("_", "self") if ign is None else ign
                want = {k: repr(v) for k, v in dic.items() if literal(v) and not str(k).startswith(pre)}
                n += 1
                p = os.path.join(d, "s%d" % n)
                del w[:]
                args = (dic, [d, "s%d" % n] if n % 2 else p) + ((ign,) if ign is not None else ())
                U.write_setting(*args)
                r = U.read_setting(p)
                pr = U.dict_to_eval(dic) if ign is None else U.dict_to_eval(dic, ign)
                for g, how in ((r, "write_setting and read_setting"), (pr, "dict_to_eval")):
                    if not isinstance(g, dict) or {k: repr(v) for k, v in g.items()} != want:
                        raise Violation("%s of %r with ignore_list %r give %r" % (how, dic, ign, g), {"dict": repr(dic), "ignore": repr(ign)})
                if w:
                    raise Violation("write_setting or read_setting of %r warns: %s" % (dic, w[0].message), {"dict": repr(dic)})
                if L == 1:
                    old = open(p, "rb").read()
                    U.write_setting({"other": 1}, p)
                    if open(p, "rb").read() != old or not w:
                        raise Violation("write_setting overwrites an existing file, or does so without a warning", {"dict": repr(dic)})
                    for warn in (True, False):
                        del w[:]
                        if U.read_setting(p + "x", warn) is not None or bool(w) != warn:
                            raise Violation("read_setting of a missing file with warn=%s" % warn, {"dict": repr(dic)})
                st.add("transitions")
                st.state(("set", tuple(sorted(map(str, want.items())))))
                os.unlink(p)
            if {k: repr(v) for k, v in dic.items()} != before:
                raise Violation("the dictionary %r was changed" % (before,), {"dict": repr(before)})
    os.rmdir(d)
    st.add("traces_validated_against_impl")


# ---- SameFunction
IDS = [("bbob", "f001", "i01", "d02"), ("bbob", "f001", "i02", "d02"), ("bbob", "f001", "i110", "d03"), ("bbob", "f002", "i01", "d02"), ("bbob-biobj", "f01", "i01", "d02"), ("bbob-biobj-ext", "f01", "i01", "d02"), ("bbob-mixint", "f001", "i01", "d05")]


def same(item, drv, st, viol):
    L = 6 if THOROUGH else 5
    for rest in itertools.product(range(len(IDS)), repeat=L - 1):
        s = U.SameFunction()
        last, cnt = None, 0
        if s.count != 0:
            raise Violation("a new SameFunction has count %s" % s.count, {})
        for k in (item,) + rest:
            key = (IDS[k][0], IDS[k][1], IDS[k][3])
            cnt = cnt + 1 if key == last else 1
            last = key
            r = s("_".join(IDS[k]))
            if r != cnt - 1 or s.count != cnt:
                raise Violation("SameFunction: %s after %s gives %s and count %s instead of %d and %d" % ("_".join(IDS[k]), (item,) + rest, r, s.count, cnt - 1, cnt), {"ids": ["_".join(IDS[q]) for q in (item,) + rest]})
            st.add("transitions")
        st.state(("same", item) + rest)
    st.add("traces_validated_against_impl")


def times(item, drv, st, viol):
    lo, hi = item
    for k in range(lo, hi):
        w = "%dh%02d:%02d" % (k // 3600, k // 60 % 60, k % 60)
        for v in (k, float(k), k + 0.5, k + 0.25, k + 0.9375):
            g = U.ascetime(v)
            if g != w:
                raise Violation("ascetime(%r) is %s instead of %s" % (v, g, w), {"sec": v})
            st.add("transitions")
        for fr in (0.5, 0.25, 0.9375, 0.03125):
            for dec in (1, 2, 3):
                g = U.ascetime(k + fr, dec)
                m = re.fullmatch(r"(\d+)(\.\d*)? sec" if k < 100 else r"(\d+h\d\d:\d\d)(\.\d*)?", g)
                if not m or m.group(1) != (str(k) if k < 100 else w) or not 0 <= fr - float((m.group(2) or "") + "0") < 10.0 ** -dec:
                    raise Violation("ascetime(%r, %d) is %s" % (k + fr, dec, g), {"sec": k + fr, "decimals": dec})
        st.state(("t", k % 3600, k // 3600))


# ---- progress on the screen
class Prob:
    def __init__(self, f, d, i, index, hit):
        self.id_function, self.dimension, self.id_instance, self.index, self.final_target_hit = f, d, i, index, hit
        self.id_triple, self.number_of_variables = (f, d, i), d
        self.id = "bbob_f%03d_i%02d_d%02d" % (f, i, d)
        self.name = self.info = self.id
        self.suite = "bbob"


PROBS = [(1, 2, 1, 0), (1, 2, 2, 1), (2, 2, 1, 2), (11, 2, 1, 3), (1, 3, 1, 4), (2, 3, 2, 5)]


def shown(seq):
    """(what MiniPrint has to show) dimensions, functions and symbols in order, and what ShortInfo has to show"""
    mini, short = [], []
    dim = fun = last = None
    for k, how in seq:
        f, d, i, idx = PROBS[k]
        new = dim != d or (last is not None and last > idx)
        if new:
            mini.append("%dD" % d)
        if new or fun != f:
            mini.append("f%d" % f)
        mini.append("|" if how == "hit" else ":" if how == "re" else ".")
        dim, fun, last = d, f, idx
    dim = fun = None
    for k, how in seq:
        f, d = PROBS[k][:2]
        r = []
        if d != dim:
            r.append("d=%d" % d)
        if d != dim or f != fun:
            r.append("f%03d" % f)
        short.append(r)
        dim, fun = d, f
    return mini, short


def prints(item, drv, st, viol):
    L = 5 if THOROUGH else 4
    for rest in itertools.product([(k, h) for k in range(len(PROBS)) for h in ("hit", "re", "no")], repeat=L - 2):
        seq = tuple(item) + rest
        mini, short = shown(seq)
        rep = {"problems": [PROBS[k] + (h,) for k, h in seq]}
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            mp = U.MiniPrint()
            for k, h in seq:
                mp(Prob(*PROBS[k], h == "hit"), restarted=h != "no")
        g = []
        for ln in out.getvalue().split("\n"):
            m = re.match(r"(\d+D) \d+h\d\d:\d\d", ln)
            g += [m.group(1)] if m else re.findall(r"f\d+|[|:.]", ln)
        if g != mini:
            raise Violation("MiniPrint shows %s instead of %s" % (g, mini), rep)
        for evals in (0, 3):
            si = U.ShortInfo()
            for (k, h), w in zip(seq, short):
                r = si(Prob(*PROBS[k], False))
                q = re.findall(r"d=\d+(?=,)|f\d+", r)
                if q != w or (not w and r):
                    raise Violation("ShortInfo shows %r for problem %s where %s was due (add_evals %s)" % (r, PROBS[k], w, evals), rep)
                if evals:
                    si.add_evals(evals, 1)
                st.add("transitions")
            if evals:
                dims = [d for d, _ in itertools.groupby(PROBS[k][1] for k, _ in seq)]
                if set(si.evals_by_dimension) != set(dims[:-1]) or any(not v >= 0 for v in si.evals_by_dimension.values()):
                    raise Violation("ShortInfo has timings for the dimensions %s after %s" % (sorted(si.evals_by_dimension), dims), rep)
        st.state(("print", seq))
    st.add("traces_validated_against_impl")


def equal(item, drv, st, viol):
    tiny = sys.float_info.min
    base = [0.0, tiny / 2, tiny, 3 * tiny, 1e-300, 1e-9, 0.1, 1.0, 1 + 5e-7, 1 + 9.9e-7, 1 + 1.1e-6, 1.5, 2.0, 1e6, 1e6 + 0.9, 1e6 + 1.2, 1e300]
    v = base + [-b for b in base] + [math.inf, -math.inf]
    a = v[item]
    for b in v:
        for pr in (1e-6, 1e-3, 0.5):
            if a == b:
                w = True
            elif math.inf in (abs(a), abs(b)):
                w = False
            else:
                w = abs(a - b) < 2 * tiny or abs(a - b) / (max(abs(a), abs(b)) + 2 * tiny) < pr
            g = U.about_equal(a, b, pr) if pr != 1e-6 else U.about_equal(a, b)
            if bool(g) != w:
                raise Violation("about_equal(%r, %r, %r) is %s" % (a, b, pr, g), {"a": a, "b": b, "precision": pr})
            st.add("transitions")
        st.state(("eq", a, b))


def main():
    exe = core.build_driver()
    it = []
    for kind in ("bbob", "bbob-biobj"):
        keys = [k for k in VALUES if (kind == "bbob" or k != "prefix") and (kind != "bbob" or k != "log_nondominated")]
        it += [(kind, (k,)) for k in keys] + [(kind, p) for p in itertools.permutations(keys, 2)]
        if THOROUGH:
            it += [(kind, p) for p in itertools.permutations(keys, 3) if kind == "bbob"]
        it.append((kind, tuple(keys[:3]) if not THOROUGH else tuple(keys[:4])))
    core.explore(ck, options, it, exe, chunk=4)
    it = []
    for known in KNOWN:
        for sp in SPECIALS:
            for split in ("=", ":"):
                for L in (1, 2) + ((3,) if THOROUGH and split == "=" and known and sp else ()):
                    for f in [n + split + v for n in NAMES for v in ARGV] + ["budget", "a%sb%sc" % (split, split)]:
                        it.append((f, known, sp, split, L))
    core.explore(ck, args_check, it, exe, chunk=200)
    core.explore(ck, settings, [(k, v, L) for k in KEYS for v in SET for L in ((1, 2) if THOROUGH or k in ("a", "_a") else (1,))], exe, chunk=8)
    core.explore(ck, same, range(len(IDS)), exe, chunk=1)
    core.explore(ck, prints, [((a, x), (b, y)) for a in range(len(PROBS)) for b in range(len(PROBS)) for x in ("hit", "re", "no") for y in ("hit", "re", "no")], exe, chunk=4)
    core.explore(ck, equal, range(36), exe, chunk=6)
    core.explore(ck, times, [(a, a + 3600) for a in range(0, 3600 * (400 if THOROUGH else 30), 3600)] + [(a, a + 60) for a in (99 * 3600, 100 * 3600 - 30, 1000 * 3600 - 30)], exe, chunk=4)
    ck.assumptions += ["an option whose value has several words is quoted by the caller, as for the C library; option values that are strings or numbers",
                       "args_to_dict: a name that is known and at the same time the beginning of another known name, an empty name, and a batch given besides its parts may be refused or accepted",
                       "settings whose value is not reproduced by its Python literal (or is no literal) are omitted"]
    ck.finish()


core.main(main)
