"""C12: every observer gets a result folder of its own: all existing-tree configurations, and all interleavings of the
file-system operations of concurrent processes."""
import itertools
import os
import shutil
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
from core import THOROUGH  # noqa: E402

ck = core.Check("C12")
SCHED = None


def norm(p):
    return os.path.normpath(p)


def expect(existing, want):
    """the documented name: want, or want-0001 ... the first that does not exist"""
    if want not in existing:
        return want
    k = 1
    while "%s-%04d" % (want, k) in existing:
        k += 1
    return "%s-%04d" % (want, k)


def make(root, entries):
    for e in entries:
        p = os.path.join(root, e)
        if e.endswith("/"):
            os.makedirs(p, exist_ok=True)
            with open(p + "keep", "w") as f:
                f.write("old " + e)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write("file " + e)


def with_parents(entries):
    s = set()
    for e in entries:
        e = e.rstrip("/")
        while e:
            s.add(e)
            e = os.path.dirname(e)
    return s


def sequential(item, drv, st, viol):
    """given existing entries and a sequence of observers in one process"""
    entries, seqs = item
    for seq in seqs:
        root = tempfile.mkdtemp(dir=drv.dir)
        make(root, entries)
        before = core.read_tree(root)
        cmds = ["c\t" + root]
        for k, (name, opt) in enumerate(seq):
            cmds += ["O\t%d\t%s\t%s" % (k, name, opt)]
        r = drv.run(cmds + ["c\t" + drv.cwd] + ["o\t%d" % k for k in range(len(seq))])
        existing = with_parents(entries)
        rep = {"existing": entries, "observers": seq, "answers": r}
        for k, (name, opt) in enumerate(seq):
            outer, res = "exdata", "default"
            for t in opt.split("|")[0].split("  "):
                if t.startswith("outer_folder: "):
                    outer = t[14:].strip()
                if t.startswith("result_folder: "):
                    res = t[15:].strip()
            want = norm(os.path.join(outer, res))
            e = expect(existing, want)
            got = norm(r[1 + k])
            if got != e:
                viol.append(("existing %s, observers %s: observer %d got folder %r instead of %r" % (entries, seq, k, r[1 + k], e), rep))
                break
            if not os.path.isdir(os.path.join(root, got)):
                viol.append(("existing %s, observers %s: folder %r of observer %d was not created" % (entries, seq, got, k), rep))
                break
            existing |= with_parents([got])
        else:
            after = core.read_tree(root)
            for f, v in before.items():
                if f not in after or after[f] != v:
                    viol.append(("existing %s, observers %s: %s was changed or removed" % (entries, seq, f), rep))
                    break
            extra = {f for f in after if f not in before and after[f] is None} - {e + "/" for e in existing}
            if extra:
                viol.append(("existing %s, observers %s: unexpected folders %s" % (entries, seq, sorted(extra)), rep))
        shutil.rmtree(root, ignore_errors=True)
        st.add("transitions", len(seq))
        st.add("traces_validated_against_impl")
        st.state((tuple(entries), seq))
        if viol:
            return


def full_house(item, drv, st, viol):
    """only the last suffix is free; none is free"""
    free = item
    root = tempfile.mkdtemp(dir=drv.dir)
    os.makedirs(root + "/exdata/default")
    for k in range(1, 10000):
        if k != free:
            os.mkdir(root + "/exdata/default-%04d" % k)
    r = drv.run(["c\t" + root, "O\t0\ttoy\t", "c\t" + drv.cwd])
    want = "exdata/default-%04d" % free if free else "fatal"
    if r[1] != want:
        viol.append(("with every suffix but %s taken the observer got %r instead of %r" % (free, r[1], want), {"free": free}))
    drv.kill()
    shutil.rmtree(root, ignore_errors=True)
    st.add("transitions")
    st.add("traces_validated_against_impl")


def readline(f, limit):
    """a line, or None if the processes under the scheduler do not get there"""
    import signal
    old = signal.signal(signal.SIGALRM, core._alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return f.readline()
    except core._Timeout:
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def concurrent(item, drv, st, viol):
    entries, obs, opts, maxy = item
    d = tempfile.mkdtemp(dir=core.scratch())
    if entries:
        make(d + "/seed", entries)
    p = subprocess.Popen([SCHED], cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=dict(os.environ, ASAN_OPTIONS=core.ASAN_ENV))
    p.stdin.write("%d\t%d\t%s\t%s\n" % (len(opts), maxy, obs, "\t".join(o or "-" for o in opts)))
    p.stdin.flush()
    existing = with_parents(entries)
    wants = []
    for o in opts:
        res = "default"
        for t in o.split("  "):
            if t.startswith("result_folder: "):
                res = t[15:].strip()
        wants.append(norm("exdata/" + res))
    nex = 0
    while True:
        line = readline(p.stdout, 120)
        if line is None:
            viol.append(("a process does not finish: %s" % (item,), {"item": item}))
            break
        if not line:
            viol.append(("scheduler died on %s" % (item,), {"item": item}))
            break
        t = line.rstrip("\n").split("\t")
        if t[0] == "done":
            break
        if t[0] == "nondeterministic":
            viol.append(("the same schedule gives different executions: %s" % (item,), {"item": item}))
            break
        nex += 1
        sched, got = t[0], t[1:]
        rep = {"existing": entries, "options": opts, "schedule": sched, "folders": got}
        bad = None
        names = [norm(g[1:]) if g.startswith("=") else None for g in got]
        if None in names:
            bad = "process failed: %s" % got
        elif len(set(names)) < len(names):
            bad = "two processes got the same folder: %s" % names
        else:
            for k, g in enumerate(names):
                if g in existing:
                    bad = "process %d got the existing folder %s" % (k, g)
                    break
                w = wants[k]
                ok = g == w or (g.startswith(w + "-") and len(g) == len(w) + 5 and g[-4:].isdigit())
                if not ok:
                    bad = "process %d got %s for %s" % (k, g, w)
                    break
                f = d + "/world/" + g
                if sorted(os.listdir(f)) != ["bbobexp_f1.info", "data_f1"]:
                    bad = "folder %s holds %s" % (g, sorted(os.listdir(f)))
                    break
                dat = open(f + "/data_f1/bbobexp_f1_DIM2.dat").read().split("\n")
                if len(dat) != 3 or not dat[1].endswith(" %+5.4e %+5.4e" % (1.0 + k, 2.0)):
                    bad = "the data in %s are not those of process %d: %s" % (g, k, dat)
                    break
            else:
                # no gaps: as many names as processes, each the first free one at some moment
                for w in set(wants):
                    mine = sorted(g for g, x in zip(names, wants) if x == w)
                    pool = set(existing)
                    exp = []
                    for _ in mine:
                        e = expect(pool, w)
                        pool.add(e)
                        exp.append(e)
                    if mine != sorted(exp):
                        bad = "folders %s instead of %s" % (mine, sorted(exp))
                after = core.read_tree(d + "/world")
                for e in entries:
                    f = e + "keep" if e.endswith("/") else e
                    if f not in after:
                        bad = "%s disappeared" % f
        if bad:
            viol.append(("existing %s, options %s, schedule %s: %s" % (entries, opts, sched, bad), rep))
            break
        st.add("schedules")
        st.add("transitions", len(sched))
        st.add("traces_validated_against_impl")
        p.stdin.write("ok\n")
        p.stdin.flush()
    p.kill()
    p.wait()
    shutil.rmtree(d, ignore_errors=True)


def main():
    global SCHED
    exe = core.build_driver()
    SCHED = core.build_driver("sched", ("sched.c",), cflags=("-O1", "-g"), wraps="-Wl,--wrap=mkdir,--wrap=stat,--wrap=lstat,--wrap=access,--wrap=rename,--wrap=rmdir,--wrap=opendir")
    # one process: every subset of existing entries x every sequence of observers
    pool = ["exdata/default/", "exdata/default-0001/", "exdata/default-0002", "exdata/default-0003/", "exdata/r/s/", "exdata/r/s-0001/", "exdata/default-1/"]
    if THOROUGH:
        pool += ["exdata/r/s-0002", "out/default/"]
    obs = [("toy", ""), ("bbob", "result_folder: r/s"), ("rw", "result_folder: default-0001"), ("bbob-biobj", "outer_folder: out/deep")]
    seqs = [s for n in (1, 2, 3) for s in itertools.product(obs, repeat=n)]
    special = [("toy", "result_folder: a"), ("bbob", "result_folder: a/"), ("toy", "result_folder: ./a"), ("toy", "outer_folder: exdata/x  result_folder: b"), ("bbob", "outer_folder: ../" + "{}/o")]
    items = []
    for m in range(2 ** len(pool)):
        items.append(([e for k, e in enumerate(pool) if (m >> k) & 1], seqs))
    items.append(([], [s for n in (1, 2, 3, 4) for s in itertools.product(special[:4], repeat=n)]))
    long = []
    for n in (31, 32, 63, 64, 65, 99, 100, 127, 128, 129, 199, 200, 240, 250):
        names = ["w" * n, "/".join(["v" * min(n, 200)] * 4), "/".join("u%d" % k for k in range(n // 3))]
        for a in names:
            for opt in ("result_folder: " + a, "outer_folder: %s  result_folder: q" % a, "outer_folder: %s  result_folder: %s" % (a, a[:100].rstrip("/"))):
                for o in ("toy", "bbob", "rw", "bbob-biobj"):
                    long.append(tuple((o, opt) for k in range(3)) + (("bbob", ""),))
    for k in range(0, len(long), 40):
        items.append(([], long[k:k + 40]))
    items.append((["exdata/" + "w" * 200 + "/", "exdata/" + "w" * 200 + "-0001/"], [s for s in long if "w" * 200 in s[0][1]]))
    ck.stats.sample("existing %s: observers %s" % (items[77][0], seqs[50]))
    core.explore(ck, sequential, items, exe, chunk=1)
    core.explore(ck, full_house, [9999, 5000, 0], exe, chunk=1)
    # concurrent processes
    two = [[], ["exdata/"], ["exdata/default/"], ["exdata/default/", "exdata/default-0001/"], ["exdata/default", "exdata/default-0002/"], ["exdata/r/s/"], ["exdata/r/"]]
    jobs = []
    for e in two:
        jobs.append((e, "bbob", ("", ""), 0))
        jobs.append((e, "bbob", ("result_folder: r/s", "result_folder: r/s"), 0))
        jobs.append((e, "bbob", ("", "result_folder: r/s"), 0))
    jobs.append(([], "bbob", ("", "", ""), 0))
    jobs.append((["exdata/default/"], "bbob", ("", "", ""), 0 if THOROUGH else 3))
    if THOROUGH:
        jobs.append(([], "bbob", ("result_folder: r/s",) * 3, 4))
        jobs.append(([], "bbob", ("",) * 4, 3))
    core.explore(ck, concurrent, jobs, None, chunk=1)
    ck.assumptions.append("scheduling points of the concurrent part: mkdir, stat, lstat, access, rename, rmdir, opendir (complete executions, no preemption bound; with three processes on an existing folder the first 3 operations of each)")
    ck.finish()


core.main(main)
