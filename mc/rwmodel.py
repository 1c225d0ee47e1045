"""Reference model of the rw observer."""
import math

import core


def spec(drv, suite, f, dim, inst):
    S = "S\t%d\t%s\tinstances: 1-5\t" % (SUITE[suite], suite)
    G = "B\t%%d\t%d\t%d\t%d\t%d" % (SUITE[suite], f, dim, inst)
    r = drv.run([S, G % 1, "X\t1"])
    d = r[1].split("\t")
    x0 = [float(v) for v in r[2].split("\t")]
    p = {"a": x0, "b": [v * 0.5 + 0.3 for v in x0], "c": [v * 0.9 - 0.1 for v in x0], "far": [8.5 - 1.3 * k for k in range(dim)], "neg": [-0.5 - 0.75 * k for k in range(dim)]}
    ncon, nobj, nint = int(d[4]), int(d[3]), int(d[5])
    cmds = [S, G % 1]
    for x in p.values():
        cmds += ["Z", "E\t1\t" + core.xs(x), "C\t1\t" + core.xs(x) if ncon else "z\t9"]
    r = drv.run(cmds + ["F\t1"])[2:]
    pts = {}
    for k, (n, x) in enumerate(p.items()):
        y = [float(v) for v in r[3 * k + 1].split("\t")]
        g = [float(v) for v in r[3 * k + 2].split("\t")] if ncon else []
        pts[n] = (x, y, g)
    return {"S": S, "G": G, "pts": pts, "xs": {n: core.xs(t[0]) for n, t in pts.items()}, "id": d[0], "pname": d[6], "suite": suite, "dim": dim, "ncon": ncon, "nobj": nobj, "nint": nint,
            "name": "%s f%d d%d i%d" % (suite, f, dim, inst), "noisy": suite == "bbob-noisy"}


SUITE = {"bbob": 0, "bbob-constrained": 1, "bbob-mixint": 2, "bbob-biobj": 3, "toy": 4, "bbob-noisy": 5, "bbob-boxed": 6, "bbob-largescale": 7, "bbob-biobj-mixint": 8}


class Run:
    def __init__(self, files, sp, o):
        self.f, self.sp, self.o = files, sp, o
        self.path = sp["id"] + "_rw.txt"
        self.nf = self.ng = 0
        self.best = math.inf
        v, c = o.get("v") or "all", o.get("c") or "all"
        self.v = v == "all" or (v == "low_dim" and sp["dim"] <= o.get("lv", 10))
        self.c = sp["ncon"] > 0 and (c == "all" or (c == "low_dim" and sp["ncon"] <= o.get("lc", 10)))
        files.setdefault(self.path, []).extend(["", ("head", "%% suite = '%s', problem_id = '%s', problem_name = '%s', coco_version = 'MC'" % (sp["suite"], sp["id"], sp["pname"])),
                                                ("cols", "%% f-evaluations | g-evaluations | %d objective" % sp["nobj"])])

    def evaluate(self, n, y):
        x, _, g = self.sp["pts"][n]
        self.nf += 1
        log = True
        if self.sp["nobj"] == 1:
            if y[0] < self.best:
                self.best = y[0]
            else:
                log = not self.o.get("ob", 0)
        if not (log or self.nf == 1):
            return
        o, sp = self.o, self.sp
        t = ["%d" % self.nf, "%d" % self.ng] + ["%+.*e" % (o.get("pf", 15), v) for v in y]
        if self.v:
            t += [("%d" % math.floor(v + 0.5)) if k < sp["nint"] and o.get("di") else "%+.*e" % (o.get("px", 8), v) for k, v in enumerate(x)]
        if self.c:
            t += ["%+.*e" % (o.get("pg", 3), v) for v in g]
        self.f[self.path].append("\t".join(t) + "\t")


def optstr(o):
    m = {"v": "log_variables", "c": "log_constraints", "lv": "low_dim_vars", "lc": "low_dim_cons", "ob": "log_only_better", "pf": "precision_f", "px": "precision_x", "pg": "precision_g", "di": "log_discrete_as_int", "t": "log_time"}
    return " ".join("%s: %s" % (m[k], v) for k, v in o.items() if v is not None)


def compare(files, real, time):
    got = {k: v.decode("latin-1") for k, v in real.items() if v is not None}
    for k in sorted(set(files) | set(got)):
        if k not in got:
            return "missing file %s" % k
        if k not in files:
            return "unexpected file %s" % k
        b = got[k].split("\n")
        a = files[k] + [""]
        if len(a) != len(b):
            return "%s has %d lines, expected %d; last: %r" % (k, len(b), len(a), b[-3:])
        for n, (u, w) in enumerate(zip(a, b)):
            if isinstance(u, tuple):
                ok = w == u[1] if u[0] == "head" else w.startswith(u[1])
            elif time and u:
                p = w.rsplit("\t", 2)
                ok = len(p) == 3 and p[0] + "\t" == u and p[1].isdigit() and p[2] == ""
            else:
                ok = w == u
            if not ok:
                return "%s line %d: %r, expected %r" % (k, n + 1, w, u)
    return None
