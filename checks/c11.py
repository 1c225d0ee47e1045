"""C11: crash at every file operation (and inside every write) of observed experiments."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
import bbobmodel as bm  # noqa: E402
import bbobrun as br  # noqa: E402
from core import THOROUGH  # noqa: E402

ck = core.Check("C11")
SP = {}
HEAD = ["S\t0\tbbob\tinstances: 1-3\t", "S\t1\tbbob-constrained\tinstances: 1-3\t", "S\t2\tbbob-biobj\tinstances: 1-3\t", "S\t3\tbbob-boxed\tinstances: 1-3\t"]
SL = {"bbob": 0, "bbob-constrained": 1, "bbob-biobj": 2, "bbob-boxed": 3}
WR = "-Wl,--wrap=exit,--wrap=abort,--wrap=__assert_fail,--wrap=fopen,--wrap=mkdir,--wrap=remove,--wrap=unlink,--wrap=rename,--wrap=rmdir"


def commands(runs, obs, opt):
    """driver commands and, for the bbob observer, the model's files after each of them (trimmed to what is promised)"""
    cmds = list(HEAD)
    snaps = [{}] * len(cmds)
    ob = bm.Observer(**({"base": range(1, 10)} if "base_eval" in opt else {}))
    cmds.append("O\t0\t%s\t%s" % (obs, opt))
    snaps.append({})
    done = {}

    def snap():
        if obs != "bbob":
            return {}
        cur = {}
        for k, v in ob.files.items():
            # records are promised once the evaluation returned; a header without records, and the index, are not
            if k.endswith(".info"):
                cur[k] = done.get(k, "")
            else:
                j = len(v)
                lines = v.split("\n")[:-1]
                while lines and lines[-1].startswith("%"):
                    j -= len(lines.pop()) + 1
                cur[k] = max(v[:j], done.get(k, ""), key=len)
        return cur

    for key, ops, end in runs:
        s, f, d, i = key
        cmds.append("B\t1\t%d\t%d\t%d\t%d" % (SL[s], f, d, i))
        snaps.append(snap())
        cmds.append("A\t1\t0")
        snaps.append(snap())
        if obs == "bbob":
            run = bm.Run(ob, SP[key]["P"])
            for op in ops:
                c = br.apply(run, SP[key], op)
                cmds.append(c)
                snaps.append(snap())
            run.free()
        else:
            for op in ops:
                n = int(op[1][1:])
                x = [0.5 * n - 1.1 + 0.3 * k * (n - 1) for k in range(d)]
                cmds.append("E\t1\t" + core.xs(x))
                snaps.append({})
        for c in (["F\t1"] if end == "F" else ["R\t1\t0", "F\t1"]):
            cmds.append(c)
            done = dict(ob.files)
            snaps.append(snap())
    cmds += ["o\t0", "f\t0", "f\t1", "f\t2", "f\t3"]
    snaps += [snap()] * 5
    return cmds, snaps, ob


def records(tree):
    """{file: {(block, evaluation): end of its record}} of the files whose records are promised as soon as the evaluation
    returns: those of the rw observer and the archive with all non-dominated solutions."""
    res = {}
    for f, v in tree.items():
        if f.endswith("_rw.txt") or f.endswith("_nondom_all.adat"):
            at, b, m = 0, -1, {}
            for line in v.decode("latin-1").split("\n"):
                at += len(line) + 1
                if line.startswith("% suite") or line.startswith("% instance"):
                    b += 1
                elif line[:1].isdigit():
                    m[(b, int(line.split("\t")[0]))] = at
            res[f] = m
    return res


def promised(cmds, runs, full, drv):
    """for the other observers: after how many commands which prefix of which file must be there"""
    rec = records(full)
    need = [{} for _ in cmds]
    cur, blocks, at, evals = {}, {}, len(HEAD) + 1, 0
    for n, (key, ops, end) in enumerate(runs):
        ident = "%s_f%0*d_i%02d_d%02d" % (key[0], 2 if "biobj" in key[0] else 3, key[1], key[3], key[2])
        fs = [f for f in rec if ident in f]
        b = blocks.get(key, -1) + 1
        blocks[key] = b
        at += 2
        for k in range(len(ops)):
            for f in fs:
                cur[f] = max([cur.get(f, 0)] + [o for (bb, e), o in rec[f].items() if (bb, e) <= (b, k + 1)])
            need[at] = dict(cur)
            at += 1
        for c in range(1 if end == "F" else 2):
            if c == 0:  # the run is complete: so is its data
                part = cmds[:at + 1] + (["F\t1"] if end == "R" else []) + ["o\t0", "f\t0", "f\t1", "f\t2", "f\t3"]
                drv.run(["J\t-1\t0"] + part)
                for f, v in tree_of(drv, "").items():
                    if full.get(f, b"").startswith(v):
                        cur[f] = max(cur.get(f, 0), len(v))
            need[at] = dict(cur)
            at += 1
    for k in range(1, len(need)):
        for f, o in need[k - 1].items():
            need[k][f] = max(o, need[k].get(f, 0))
    return need


def tree_of(drv, sub):
    p = drv.cwd + "/exdata"
    t = core.read_tree(p) if os.path.isdir(p) else {}
    return {k: v for k, v in t.items() if v is not None}


LATER = None


def work(item, drv, st, viol):
    runs, obs, opt = item
    cmds, snaps, ob = commands(runs, obs, opt)
    what = "%s %r, runs %s" % (obs, opt, [(k, [o[0] + o[1] for o in ops], e) for k, ops, e in runs])
    rep = {"observer": obs, "options": opt, "runs": runs, "commands": cmds}
    r = drv.run(["J\t-1\t0"] + cmds)
    if not r or not r[-1].startswith("ops") or any(w in r for w in ("fatal", "assert", "abort", "nop")):
        viol.append(("%s: the uninterrupted experiment fails: %r" % (what, r[-3:]), rep))
        return
    full = tree_of(drv, "")
    if obs == "bbob":
        d = bm.diff({"default/" + k: v for k, v in ob.files.items()}, full)
        if d:
            viol.append(("%s: uninterrupted: %s" % (what, d), rep))
            return
    ops = [int(v) for v in r[-1].split("\t")[2:]]
    extra = promised(cmds, runs, full, drv) if obs != "bbob" else [{}] * len(cmds)
    st.add("histories")
    for k, ln in enumerate(ops):
        cuts = [0]
        if ln > 0:
            cuts = list(range(ln + 1)) if THOROUGH else sorted({0, 1, ln // 2, ln - 1, ln})
        for b in cuts:
            r = drv.run(["J\t%d\t%d" % (k + 1, b)] + cmds)
            if not r or r[-1] != "crash":
                viol.append(("%s: crash at operation %d did not happen: %r" % (what, k + 1, r[-2:]), rep))
                return
            m = len(r) - 1  # commands that had returned
            t = tree_of(drv, "")
            for f, v in t.items():
                if f not in full or not full[f].startswith(v):
                    viol.append(("%s: after a crash at file operation %d (%d of %d bytes written), %s holds %r, which is no prefix of %r"
                                 % (what, k + 1, b, ln, f, v[-200:], full.get(f, b"(no such file)")[:len(v) + 20][-220:]), rep))
                    return
            need = snaps[m - 1] if m else {}
            for f, v in need.items():
                if v and not t.get("default/" + f, b"").startswith(v.encode()):
                    viol.append(("%s: after a crash at file operation %d, when %d commands had returned (last: %s), %s holds %r; promised %r"
                                 % (what, k + 1, m, cmds[m - 1][:60], f, t.get("default/" + f, b"")[-200:], v[-200:]), rep))
                    return
            for f, o in (extra[m - 1] if m else {}).items():
                if len(t.get(f, b"")) < o:
                    viol.append(("%s: after a crash at file operation %d, when %d commands had returned (last: %s), %s holds %r; promised %r"
                                 % (what, k + 1, m, cmds[m - 1][:60], f, t.get(f, b"")[-200:], full[f][:o][-200:]), rep))
                    return
                st.add("promises")
            # a later experiment with the same options leaves all this alone
            later = ["S\t0\tbbob\tinstances: 1\t", "O\t0\t%s\t%s" % ("bbob" if obs == "bbob" else "rw", opt if obs == "bbob" else ""), "B\t1\t0\t1\t2\t1", "A\t1\t0",
                     "E\t1\t" + SP[("bbob", 1, 2, 1)]["xs"]["p0"], "F\t1", "o\t0", "f\t0"]
            drv.run(["J\t-1\t0"] + later, keep=True)
            t2 = tree_of(drv, "")
            for f, v in t.items():
                if t2.get(f) != v:
                    viol.append(("%s: the experiment after a crash at file operation %d changed %s" % (what, k + 1, f), rep))
                    return
            st.add("crash_points")
            st.add("transitions", m)
            st.add("traces_validated_against_impl")
            st.state((what, k, b))


def main():
    exe = core.build_driver("crash", ("driver.c", "fsops.c"), wraps=WR)
    drv = core.Driver(exe)
    B = "bbob"
    try:
        for key in [(B, f, d, i) for f in (1, 2) for d in (2, 3) for i in (1, 2)] + [("bbob-constrained", 1, 2, 1)]:
            SP[key] = br.spec(drv, key[0], key[1], key[2], key[3], (90.0, 3.0, 1e-3))
    except (core.Died, ValueError, IndexError, core.Violation) as e:
        ck.violation("a problem cannot be examined: %s" % e, {})
        ck.finish()
    E = [("E", "p0"), ("E", "p1"), ("E", "p2")]
    T, M = ("T", ""), ("M", "p1")
    a = [((B, 1, 2, 1), E[:1], "F"), ((B, 1, 2, 2), [E[0], T, E[1]], "R"), ((B, 1, 3, 1), [E[1], M, E[1], E[2]], "F"), ((B, 2, 2, 1), E[:2] + E[:1], "F")]
    items = [((x, y), "bbob", "") for x in a for y in a]
    items += [((x, y, z), "bbob", "") for x in a[:3] for y in a[:3] for z in a[:3]] if THOROUGH else [((a[0], a[1], a[2]), "bbob", ""), ((a[0], a[2], a[0]), "bbob", "")]
    items += [((((B, 2, 3, 2)), [E[0]] * 12 + E, "F"),) for _ in (1,)] and [((((B, 2, 3, 2), [E[0]] * 12 + E, "F"),), "bbob", "")]
    items += [(((("bbob-constrained", 1, 2, 1), [("C", "p0"), E[0], ("E", "b0"), M, T, E[1]], "F"), a[0]), "bbob", "")]
    bi = [(("bbob-biobj", 1, 2, 1), [("E", "p%d" % k) for k in range(5)], "F"), (("bbob-biobj", 1, 2, 2), [("E", "p2")], "F"), (("bbob-biobj", 2, 2, 1), [("E", "p1"), ("E", "p3")], "F")]
    for o in ("log_nondominated: all", "log_nondominated: final", "log_nondominated: none"):
        items += [((bi[0], bi[1], bi[2]), "bbob-biobj", o)]
    rw = [((B, 1, 2, 1), [("E", "p%d" % k) for k in range(4)], "F"), ((B, 1, 2, 1), [("E", "p0")], "F"), ((B, 2, 2, 1), [("E", "p1")], "R")]
    items += [(tuple(rw), "rw", ""), (tuple(rw), "toy", ""), (tuple(bi), "rw", ""), (tuple(rw), "rw", "log_only_better: 1"), (tuple(rw + rw[:1]), "rw", "log_variables: none")]
    items += [((bi[0], bi[2], bi[0]), "bbob-biobj", "log_nondominated: all")]
    bx = (("bbob-boxed", 1, 2, 1), [("E", "p%d" % k) for k in (30, 1, 31, 2)], "F")
    items += [((bx,), "rw", "log_only_better: 1"), ((bx,), "rw", ""), ((bx, bx), "rw", "log_only_better: 1 log_variables: none")]
    # long runs: many records, and records far apart
    items += [((((B, 2, 2, 1), [E[0]] * 130 + [E[1]] * 120 + E[2:], "F"),), "bbob", ""), ((((B, 1, 3, 1), E * 70 + [T] + E[:1], "F"),), "bbob", "base_evaluation_triggers: 1,2,3,4,5,6,7,8,9")]
    items += [(((("bbob-constrained", 1, 2, 1), [("C", "p0"), E[0]] * 100 + E, "F"),), "bbob", "")]
    items += [((((B, 1, 2, 1), [("E", "p%d" % (k % 5)) for k in range(160)], "F"),), "rw", ""), (((("bbob-biobj", 1, 2, 1), [("E", "p%d" % (k * k % 7)) for k in range(160)], "F"),), "bbob-biobj", "log_nondominated: all")]
    ck.stats.sample("%s" % (items[0],))
    core.explore(ck, work, items, exe, chunk=1)
    ck.assumptions.append("a crash is the death of the process before, inside or after any write, open, mkdir, remove, unlink, rename or rmdir; stdio buffers are lost; the kernel survives. Cuts inside a write: %s" % ("every byte" if THOROUGH else "0, 1, middle, last but one, all bytes"))
    ck.finish()


core.main(main)
