"""C21: observer options: every key with every kind of value, all ordered pairs, all rotations of the full set, in several
spellings; the complete result folder is compared with the reference models of the observers."""
import itertools
import json
import os
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
import bbobmodel as bm  # noqa: E402
import bbobrun as b1  # noqa: E402
import biobjlog as bl  # noqa: E402
import biobjrun as b2  # noqa: E402
import rwmodel as rw  # noqa: E402
from core import THOROUGH  # noqa: E402

ck = core.Check("C21")
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")

# key -> [(text of the value, effect)]; no effect: the value cannot be used and the default stays
COMMON = {
    "result_folder": [("r1", {"folder": "r1"}), ('"two words"', {"folder": "two words"}), ("n/m", {"folder": "n/m"}), ("prefix", {"folder": "prefix"}), ('"x outer_folder: y"', {"folder": "x outer_folder: y"}), ("ab/", {"folder": "ab/"})],
    "outer_folder": [("out", {"outer": "out"}), ("a/b", {"outer": "a/b"}), ('"precision_f: 2"', {"outer": "precision_f: 2"})],
    "algorithm_name": [("CMA", {"alg": "CMA"}), ('"A B"', {"alg": "A B"}), ("result_folder", {"alg": "result_folder"}), ('"log_discrete_as_int: 1"', {"alg": "log_discrete_as_int: 1"}), ("x:y", {"alg": "x:y"}), ("my_prefix", {"alg": "my_prefix"})],
    "algorithm_info": [("short", {"info": "short"}), ('"some text, with prefix: zz result_folder: bad precision_x: 2 log_nondominated: none"', {"info": "some text, with prefix: zz result_folder: bad precision_x: 2 log_nondominated: none"}), ('"%s"' % ("long text " * 40), {"info": "long text " * 40}), ("algorithm_name", {"info": "algorithm_name"})],
    "number_target_triggers": [("1", {"ntt": 1}), ("7", {"ntt": 7}), ("0", {"ntt": 0}), ("-3", {}), ("many", {})],
    "log_target_precision": [("1e-3", {"logp": 1e-3}), ("0.5", {"logp": 0.5}), ("0", {}), ("-1", {}), ("nan", {}), ("abc", {})],
    "lin_target_precision": [("1e-2", {"linp": 1e-2}), ("0.25", {"linp": 0.25}), ("1000", {"linp": 1000.0}), ("5e-11", {"linp": 5e-11}), ("0", {}), ("-2", {}), ("nan", {}), ("abc", {})],
    "base_evaluation_triggers": [("1,3", {"base": [1, 3]}), ('"1,3"', {"base": [1, 3]}), ("4", {"base": [4]}), ('"2,1"', {"base": [2, 1]})],
    "precision_x": [("3", {"px": 3}), ("32", {"px": 32}), ("0", {}), ("33", {}), ("-4", {}), ("abc", {})],
    "precision_f": [("4", {"pf": 4}), ("1", {"pf": 1}), ("0", {}), ("33", {}), ("x4", {})],
    "precision_g": [("5", {"pg": 5}), ("1", {"pg": 1}), ("0", {}), ("33", {}), ("", {})],
    "log_discrete_as_int": [("1", {"dint": 1}), ("0", {"dint": 0}), ("2", {}), ("-1", {}), ("yes", {})],
    "unknown_key": [("5", {}), ("precision_x", {}), ('"precision_x: 4"', {})],
}
BBOB = {"prefix": [("pre", {"prefix": "pre"}), ('"p q"', {"prefix": "p q"}), ("algorithm_name", {"prefix": "algorithm_name"})]}
BIO = {"log_nondominated": [("none", {"nondom": "none"}), ("final", {"nondom": "final"}), ("all", {"nondom": "all"}), ("bogus", {}), ('"final"', {"nondom": "final"})],
       "log_decision_variables": [("none", {"vars": "none"}), ("all", {"vars": "all"}), ("low_dim", {"vars": "low_dim"}), ("ALL", {})],
       "compute_indicators": [("0", {"ind": 0}), ("1", {"ind": 1}), ("no", {}), ("", {})],
       "produce_all_data": [("1", {"all": 1}), ("0", {}), ("x", {}), ("", {})],
       "prefix": [("pre", {})]}
RW = {"log_variables": [("none", {"v": "none"}), ("low_dim", {"v": "low_dim"}), ("all", {"v": "all"}), ("some", {})],
      "log_constraints": [("none", {"c": "none"}), ("low_dim", {"c": "low_dim"}), ("all", {"c": "all"}), ("bad", {})],
      "low_dim_vars": [("2", {"lv": 2}), ("30", {"lv": 30}), ("x", {}), ("", {})],
      "low_dim_cons": [("1", {"lc": 1}), ("50", {"lc": 50}), ("x", {}), ("", {})],
      "log_only_better": [("1", {"ob": 1}), ("0", {"ob": 0}), ("x", {}), ("", {})],
      "log_time": [("1", {"t": 1}), ("0", {}), ("x", {}), ("", {})]}
TOY = {"file_name": [("f.txt", {"file": "f.txt"}), ('"my file"', {"file": "my file"}), ("precision_x", {"file": "precision_x"})]}
# used by the bbob logger: everything but the precisions (its columns have a fixed format)
USED = {"bbob": ("ntt", "logp", "linp", "base", "dint", "alg", "prefix"), "bbob-biobj": ("ntt", "logp", "linp", "base", "dint", "alg", "info", "px", "pf", "nondom", "vars", "ind"),
        "rw": ("px", "pf", "pg", "di", "v", "c", "lv", "lc", "ob", "t"), "toy": ("px", "pf")}
STYLES = [("%s: %s", " "), ("%s:%s", " "), ("%s : %s", "  "), ("%s :%s", " "), ("  %s:   %s  ", " ")]
SP = {}


def spell(opts, style):
    f, sep = STYLES[style % len(STYLES)]
    return sep.join(f % (k, v) for k, v in opts)


ALIASES = {"bbob": ("bbob-boxed", "bbob-constrained", "bbob-largescale", "bbob-mixint", "bbob-noisy"),
           "bbob-biobj": ("bbob-biobj-ext", "bbob-biobj-mixint")}


def effects(opts, tab):
    e = {}
    for k, v in opts:
        e.update(dict(tab[k])[v])
    return e


def one(drv, obs, key, opts, e, text, st, viol, alias=None):
    sp = SP[(obs, key)]
    ex = dict(e)
    if ex.pop("all", 0):
        ex.update(nondom="all", vars="low_dim", ind=1)
    folder = os.path.normpath(os.path.join(ex.get("outer", "exdata"), ex.get("folder", "default")))
    if "dint" in ex and obs == "rw":
        ex["di"] = ex["dint"]
    o = {k: v for k, v in ex.items() if k in USED[obs]}
    cmds = [sp["S"], "O\t0\t%s\t%s" % (alias or obs, text)]
    inactive = obs == "bbob-biobj" and o.get("nondom") == "none" and o.get("ind") == 0
    amb = False
    if obs == "bbob":
        ob = bm.Observer(**o)
        run = bm.Run(ob, sp["P"])
        cmds += [sp["G"], "A\t1\t0"] + [b1.apply(run, sp, op) for op in sp["h"]]
        run.free()
    elif obs == "bbob-biobj":
        ob = bl.Observer(**o)
        run = bl.Run(ob, sp["P"])
        cmds += [sp["G"], "A\t1\t0"] + [b2.apply(run, sp, op) for op in sp["h"]]
        run.free()
        amb = run.ambiguous
    elif obs == "rw":
        cmds += [sp["G"] % 1, "A\t1\t0"] + ["%s\t1\t%s" % (a, sp["xs"][n]) for a, n in sp["h"]]
    else:
        cmds += [sp["G"], "A\t1\t0"] + ["E\t1\t" + x for x in sp["x"]]
    cmds += ["F\t1", "o\t0", "f\t0" if obs != "rw" else "z\t9"]
    r = drv.run(cmds)
    who = "%s observer with options %r on %s" % (alias or obs, text, key)
    rep = {"observer": obs, "options": text, "commands": cmds}
    st.add("transitions", len(cmds))
    for w in ("fatal", "assert", "abort", "xmodified", "nop"):
        if w in r:
            viol.append(("%s: %s at command %r" % (who, w, cmds[r.index(w)]), rep))
            return
    if not inactive and os.path.normpath(r[1]) != folder:
        viol.append(("%s: result folder %r, expected %r" % (who, r[1], folder), rep))
        return
    tree = {k: v for k, v in core.read_tree(drv.cwd).items() if v is not None}
    for k in os.listdir(drv.cwd):  # the driver itself only clears exdata
        if k != "exdata" and os.path.isdir(os.path.join(drv.cwd, k)):
            shutil.rmtree(os.path.join(drv.cwd, k))
    out = [k for k in tree if not k.startswith(folder + "/") and k not in ("stderr", "stdout", "out.fifo")]
    if out:
        viol.append(("%s: file %s outside the result folder %s" % (who, out[0], folder), rep))
        return
    real = {k[len(folder) + 1:]: v for k, v in tree.items() if k.startswith(folder + "/")}
    if alias:  # the logger's name in the index is the name it was asked for by
        named = ["logger %s '%s'" % (eq, alias) for eq in ("=", ":")] + ["logger '%s'" % alias]
        seen = [k for k in real if k.endswith(".info") and any(n.encode() in real[k] for n in named)]
        if obs == "bbob" and any(k.endswith(".info") and k not in seen for k in real):
            viol.append(("%s: the index does not name the logger %s: %r" % (who, alias, sorted(k for k in real if k.endswith(".info") and k not in seen)), rep))
            return
        for k in seen:
            for n in named:
                real[k] = real[k].replace(n.encode(), n.replace(alias, obs).encode())
    d = None
    if obs == "bbob":
        d = bm.diff(ob.files, real)
    elif obs == "bbob-biobj":
        if inactive:
            d = "files %s of an observer that logs nothing" % sorted(real) if real else None
        elif not amb:
            d = bl.diff(ob.files, real)
    elif obs == "rw":
        files = {}
        run = rw.Run(files, sp, o)
        for k, (a, n) in enumerate(sp["h"]):
            if a == "E":
                run.evaluate(n, [float(v) for v in r[4 + k].split("\t")])
            else:
                run.ng += 1
        d = rw.compare(files, real, o.get("t"))
    else:
        name = ex.get("file", "first_hitting_times.dat")
        if sorted(real) != [name]:
            d = "files %s instead of %s" % (sorted(real), name)
        else:
            for line in real[name].decode("latin-1").split("\n"):
                c = line.split("\t")
                if len(c) > 2 and c[0].isdigit():
                    k = int(c[0]) - 1
                    x = [float(v) for v in sp["x"][k].split("\t")]
                    w = ["%.*e" % (ex.get("pf", 15), float(r[4 + k]))] + ["%.*e" % (ex.get("px", 8), v) for v in x]
                    if [c[1]] + c[3:] != w:
                        d = "record %r, expected %r" % (line, w)
                        break
    st.add("traces_validated_against_impl")
    st.state((obs, key, json.dumps(sorted(e.items()), default=str)))
    if d:
        viol.append(("%s: %s" % (who, d), rep))


def work(item, drv, st, viol):
    for obs, key, opts, e, text, *alias in item:
        one(drv, obs, key, opts, e, text, st, viol, *alias)
        if len(viol) >= 3:
            return


def specs(drv):
    E = lambda *n: tuple(("E", k) for k in n)
    for key in (("bbob-mixint", 1, 5, 1), ("bbob-constrained", 9, 2, 1), ("bbob", 8, 2, 1)):
        s = b1.spec(drv, *key, (40.0, 2.0, 3e-2, 1e-4, 4e-6, 5e-7, 1e-9))
        h = E("p0", "p0", "p1", "p2") + (("T", ""),) + E("p3", "p4", "p5", "p6", "p0")
        if s["P"]["ncon"]:
            h = h[:3] + (("C", "p1"), ("E", "b0")) + h[3:]
        s["h"] = h + (("M", "p1"),)
        SP[("bbob", key)] = s
    for key in (("bbob-biobj", 1, 2, 1), ("bbob-biobj-mixint", 1, 5, 1), ("bbob-biobj", 11, 10, 2)):
        s = b2.spec(drv, *key, search="mixint" in key[0])
        s["h"] = E("h", "d", "m", "l", "d") + (("T", ""),) + E("r", "n", "q")
        SP[("bbob-biobj", key)] = s
    for key in (("bbob-constrained", 9, 3, 2), ("bbob-mixint", 3, 5, 1), ("bbob-biobj", 2, 2, 1)):
        s = rw.spec(drv, *key)
        s["h"] = E("a", "b") + ((("C", "a"),) if s["ncon"] else ()) + E("far", "c", "a", "neg")
        SP[("rw", key)] = s
    SP[("toy", ("bbob", 1, 2, 1))] = {"S": "S\t0\tbbob\tinstances: 1\tdimensions: 2", "G": "B\t1\t0\t1\t2\t1", "x": [core.xs(x) for x in ([3.0, 3.0], [1.0, 2.0], [0.3, -1.1], [3.0, 1.5])]}


def flat(tab):
    return [(k, v) for k in tab for v, _ in tab[k]]


def main():
    exe = core.build_driver()
    drv = core.Driver(exe)
    try:
        specs(drv)
    except (core.Died, ValueError, IndexError) as e:
        ck.violation("the problems cannot be examined: %s" % e, {})
        ck.finish()
    items = []
    for obs, own in (("bbob", BBOB), ("bbob-biobj", BIO), ("rw", RW), ("toy", TOY)):
        tab = dict(COMMON, **own)
        keys = [k for o, k in SP if o == obs]
        fl = flat(tab)
        add = lambda key, opts, style, items=items, obs=obs, tab=tab: items.append((obs, key, opts, effects(opts, tab), spell(opts, style)))
        for key in keys:
            items.append((obs, key, (), {}, ""))
            for st in range(len(STYLES)):
                for o in fl:
                    add(key, (o,), st)
            for alias in ALIASES.get(obs, ()):  # the names of suites denote their usual observer
                for st in range(len(STYLES)):
                    for o in fl[::1 if THOROUGH else 3]:
                        items.append((obs, key, (), effects((o,), tab), spell((o,), st), alias))
        n = 0
        for a, b in itertools.permutations(fl, 2):  # every ordered pair of settings of different keys
            if a[0] == b[0] or a[1] == "":
                continue
            for key in (keys if THOROUGH else keys[n % len(keys):n % len(keys) + 1]):
                for st in (range(len(STYLES)) if THOROUGH else (n % len(STYLES),)):
                    add(key, (a, b), st)
            n += 1
        # triples over one usable and the trickiest value of each key
        red = [(k, v) for k in tab for v in ({tab[k][0][0], max((v for v, _ in tab[k]), key=lambda v: (":" in v, v.startswith('"'), v in tab, 0))}) if v and len(v) < 200]
        red.sort()
        for t in itertools.permutations(red, 3):
            if len({o[0] for o in t}) < 3:
                continue
            n += 1
            if THOROUGH or (n % 2 == 0 and obs != "toy"):
                add(keys[n % len(keys)], t, n // len(keys))
        # the full set in every rotation and its reverse, for two choices of values
        for j in (0, 1):
            full = [(k, tab[k][min(j, len(tab[k]) - 1)][0]) for k in tab]
            for r in range(len(full)):
                for f in (full[r:] + full[:r], (full[r:] + full[:r])[::-1]):
                    for key in keys:
                        for st in range(len(STYLES)):
                            add(key, tuple(f), st)
        ck.stats.sample("%s: %d settings of %d keys; singles in %d spellings, all ordered pairs, triples, full set in all rotations" % (obs, len(fl), len(tab), len(STYLES)))
    # text values of every length class (a name of a file has at most 255 characters, a path nests)
    def text_of(n, nested, quoted):
        w = "".join(chr(97 + k * k % 26) for k in range(n))
        if nested:
            w = "/".join(w[k:k + 120] for k in range(0, n, 120))
        elif quoted:
            w = w[:-1].replace("q", " ") + "z"
        return w
    sizes = [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 240, 255, 256, 257, 300, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 2000, 3000, 3600]
    if THOROUGH:
        sizes = sorted(set(sizes) | set(range(1, 3600, 7)))
    for obs, texts in (("bbob", ("prefix",)), ("bbob-biobj", ()), ("rw", ()), ("toy", ("file_name",))):
        keys = [k for o, k in SP if o == obs]
        for name, eff in (("result_folder", "folder"), ("outer_folder", "outer"), ("algorithm_name", "alg"), ("algorithm_info", "info"), ("prefix", "prefix"), ("file_name", "file")):
            if name in ("prefix", "file_name") and name not in texts:
                continue
            for j, n in enumerate(sizes + ([4090, 4100, 9000, 16000, 20000] if name == "algorithm_info" else [])):
                if eff in ("prefix", "file") and n > 240:
                    continue
                for quoted in (0, 1):
                    w = text_of(n, eff in ("folder", "outer"), quoted)
                    v = '"%s"' % w if quoted else w
                    for before in ((), (("precision_f", "4"),)):
                        opts = before + ((name, v),) + (() if before else (("number_target_triggers", "7"),))
                        e = {eff: w, "pf": 4} if before else {eff: w, "ntt": 7}
                        items.append((obs, keys[j % len(keys)], (), e, spell(opts, j)))
    ck.stats.sample("text values of %d lengths from %d to %d characters (20000 for algorithm_info)" % (len(sizes), sizes[0], sizes[-1]))
    ck.stats.add("option_strings", len(items))
    core.explore(ck, work, [items[k:k + 100] for k in range(0, len(items), 100)], exe, chunk=1)
    finding(drv)
    ck.assumptions.append("usable and unusable values per key as listed; the bbob records have a fixed number format (precision options do not apply)")
    ck.finish()


def finding(drv):
    """F3: number_evaluation_triggers is read and has no effect."""
    t = []
    for o in ("", "number_evaluation_triggers: 4"):
        x = ["E\t1\t%r\t%r" % (1.0 + 0.01 * k, 2.0) for k in range(40)]
        r = drv.run(["S\t0\tbbob\tinstances: 1\tdimensions: 2", "O\t0\tbbob\tbase_evaluation_triggers: 1000 " + o, "B\t1\t0\t1\t2\t1", "A\t1\t0"] + x + ["F\t1", "o\t0", "f\t0"])
        t.append({k: v for k, v in core.read_tree(drv.cwd + "/exdata/default").items() if v is not None})
    f = [f for f in json.load(open(V + "/known_findings.json"))["findings"] if f["property"] == "C21" and f["key"] == "number-evaluation-triggers-ignored"]
    if t[0] == t[1] and f:
        print("KNOWN-FINDING: property=C21 %s" % f[0]["what"])
    elif t[0] == t[1]:
        ck.violation("the option number_evaluation_triggers has no effect", {})


core.main(main)
