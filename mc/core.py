"""Common machinery of the checks: build the code under test from /repo's working tree, run histories
against it, count what was explored, report."""
import atexit
import ctypes
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import amalg  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
if "--thorough" in sys.argv:
    TIER = "thorough"
THOROUGH = TIER == "thorough"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = int(os.environ.get("MC_PROCS", "0")) or min(8, os.cpu_count() or 1)

ASAN = "-fsanitize=address"
WRAPS = "-Wl,--wrap=exit,--wrap=abort,--wrap=__assert_fail"
ASAN_ENV = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16"

_scratch = None
_owner = None
TIMEOUT = 40


def limit(s):
    """time limit of one long history: s in the thorough tier, a minute otherwise"""
    return s if THOROUGH else 60




def scratch():
    """Scratch directory of this run (tmpfs when there is room), removed at exit."""
    global _scratch, _owner
    if _scratch is None:
        base = "/tmp"
        try:
            st = os.statvfs("/dev/shm")
            if st.f_bavail * st.f_frsize > (1 << 29) and os.access("/dev/shm", os.W_OK):
                base = "/dev/shm"
        except OSError:
            pass
        _scratch = tempfile.mkdtemp(prefix="cocomc-", dir=base)
        os.chmod(_scratch, 0o755)
        _owner = os.getpid()
        atexit.register(_cleanup)
    return _scratch


def _cleanup():
    if _scratch and _owner == os.getpid():
        shutil.rmtree(_scratch, ignore_errors=True)


def cc(args):
    r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-4000:])
        raise SystemExit("BUILD-ERROR: %s" % " ".join(args))


_built = {}


def build_driver(name="driver", sources=("driver.c",), cflags=("-O1", "-g", ASAN), wraps=WRAPS, include_coco=False, comp="gcc"):
    """Compile coco.c (amalgamated from /repo/src) and the harness; returns the executable's path."""
    key = (name, tuple(cflags))
    if key in _built:
        return _built[key]
    d = os.path.join(scratch(), "build-" + name)
    os.makedirs(d, exist_ok=True)
    amalg.amalgamate(os.path.join(REPO, "src"), d)
    exe = os.path.join(d, name)
    objs = []
    common = [comp, "-w", "-I", d, "-I", os.path.join(HERE, "c"), *cflags]
    if not include_coco:
        cc(common + ["-c", os.path.join(d, "coco.c"), "-o", os.path.join(d, "coco.o")])
        objs.append(os.path.join(d, "coco.o"))
    for s in sources:
        o = os.path.join(d, os.path.basename(s) + ".o")
        cc(common + ["-c", os.path.join(HERE, "c", s), "-o", o])
        objs.append(o)
    link = [comp, *cflags, *objs, "-o", exe]
    if wraps:
        link.append(wraps)
    cc(link + ["-lm"])
    _built[key] = exe
    return exe


class Died(Exception):
    """The process running the code under test died (signal, sanitizer report)."""


class Driver:
    """Client of the script executor; runs histories (lists of command strings)."""

    def __init__(self, exe, cwd=None):
        self.exe = exe
        self.dir = tempfile.mkdtemp(prefix="w", dir=scratch())
        self.cwd = cwd or self.dir
        self.p = None
        self.n = 0
        self.nfatal = 0

    def start(self):
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = ASAN_ENV
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
        env["MSAN_OPTIONS"] = "exitcode=77:halt_on_error=1"
        env["LC_ALL"] = "C"
        self.errf = os.path.join(self.dir, "stderr")
        self.err = open(self.errf, "wb")
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  cwd=self.cwd, env=env)

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.stdout.close()
            except OSError:
                pass
            try:
                self.p.wait(timeout=5)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            self.err.close()
            self.p = None

    def run(self, cmds, timeout=None, keep=False):
        """One history; returns the list of answers. Raises Died. With keep, the files of the previous one stay."""
        timeout = timeout or TIMEOUT
        if self.p is None:
            self.start()
        start = "h\n" if keep else "H\n"
        if cmds and cmds[0][:1] == "J":
            start = cmds[0] + "\n" + start
            cmds = cmds[1:]
        data = start + "".join(c + "\n" for c in cmds) + ".\n"
        data = data.encode("latin-1")
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, timeout)
        try:
            out = self._talk(data, len(cmds))
        except _Timeout:
            self.kill()
            raise Died("timeout: no answer within %g s" % timeout)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        return out

    def kill(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.err.close()
            self.p = None

    def _talk(self, data, n):
        import threading
        if len(data) > 30000:
            t = threading.Thread(target=self._feed, args=(data,))
            t.start()
        else:
            t = None
            self._feed(data)
        out = []
        f = self.p.stdout
        while True:
            line = f.readline()
            if not line:
                rc = self.p.wait()
                self.err.close()
                msg = open(self.errf, "rb").read().decode("latin-1")
                self.p = None
                i = msg.find("ERROR: AddressSanitizer")
                if i < 0:
                    i = max(msg.find("runtime error"), msg.find("WARNING: MemorySanitizer"))
                raise Died("process died (status %s) after %d answers: %s" % (rc, len(out) - 1, msg[max(0, i):][:1500]))
            line = line.rstrip(b"\n").decode("latin-1")
            if line == ".":
                break
            out.append(line)
        if t:
            t.join()
        self.n += 1
        if "fatal" in out or "abort" in out or "assert" in out:  # these histories leave open files behind
            self.nfatal += 1
            if self.nfatal % 150 == 0:
                self.close()
                return out[1:]
        if self.n % 2000 == 0:  # keep the error file small
            try:
                self.err.truncate(0)
            except OSError:
                pass
        return out[1:]

    def _feed(self, data):
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass


class _Timeout(BaseException):
    pass


def _alarm(*a):
    raise _Timeout()


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what = what
        self.replay = replay


class Stats:
    """What a run covered; merged over workers."""

    def __init__(self):
        self.c = {}
        self.seen = {}
        self.samples = []

    def add(self, k, n=1):
        self.c[k] = self.c.get(k, 0) + n

    def state(self, s, kind="states"):
        self.seen.setdefault(kind, set()).add(hash(s))

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def merge(self, o):
        for k, v in o.c.items():
            self.add(k, v)
        for k, v in o.seen.items():
            self.seen.setdefault(k, set()).update(v)
        for s in o.samples:
            self.sample(s)


_CHECKS = []


class Check:
    """One property's check: collects violations, known findings and evidence."""

    def __init__(self, pid):
        _CHECKS.append(self)
        self.pid = pid
        self.t0 = time.time()
        self.stats = Stats()
        self.violations = []
        self.assumptions = []
        self.extra = {}
        self.known = load_known(pid)
        self.known_hit = {}

    def violation(self, what, replay):
        for k in self.known:
            if known_matches(k, what, replay):
                self.known_hit[k["id"]] = k["what"]
                return
        self.violations.append((what, replay))

    def finish(self, exhaustive=True):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(self.stats.c)
        for k, s in self.stats.seen.items():
            cov[k] = cov.get(k, 0) + len(s)
        cov.setdefault("states", 0)
        cov.setdefault("transitions", 0)
        cov.setdefault("traces_validated_against_impl", 0)
        cov["samples"] = self.stats.samples or ["(none)"]
        cov["exhaustive"] = bool(exhaustive)
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        for k in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known_hit[k]))
        print("%s: %s  (%.1f s)" % (self.pid, ", ".join("%s=%s" % (k, v) for k, v in cov.items()
                                                      if isinstance(v, int)), time.time() - self.t0))
        if self.violations:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            for i, (what, replay) in enumerate(self.violations[:5]):
                path = os.path.join(d, "%s-%d.json" % (self.pid, i))
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "what": what, "replay": replay}, f, indent=1, default=str)
                    f.write("\n")
                print("  what: %s" % str(what)[:1500])
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            sys.stdout.flush()
            _cleanup()
            os._exit(1)
        sys.stdout.flush()
        _cleanup()
        os._exit(0)


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == pid]


def known_matches(k, what, replay):
    """A finding is identified by a key that the check attaches to the violation's replay."""
    return isinstance(replay, dict) and replay.get("key") is not None and replay.get("key") == k.get("key")


# ---------------------------------------------------------------------------------------------------
# Parallel exploration: `work(item, drv, st)` is called for every item; it raises Violation or appends.

_W = {}


def _winit(exe, extra):
    _W["drv"] = Driver(exe) if exe else None
    _W["extra"] = extra


def _wrun(args):
    fn, items = args
    st = Stats()
    viol = []
    for it in items:
        try:
            fn(it, _W["drv"], st, viol)
        except Violation as v:
            viol.append((v.what, v.replay))
        except Died as d:
            if "timeout" in str(d):  # run it alone, with a longer limit, before calling it a hang
                global TIMEOUT
                TIMEOUT *= 2
                try:
                    fn(it, _W["drv"], st, viol)
                except Violation as v:
                    viol.append((v.what, v.replay))
                except Died as d2:
                    viol.append((str(d2), {"item": it, "died": True}))
                TIMEOUT /= 2
                if any("timeout" in w for w, _ in viol):  # a hang: no more histories, each would take as long
                    break
            else:
                viol.append((str(d), {"item": it, "died": True}))
        except Exception as e:  # an answer that the oracle cannot even read: deterministic on the same tree
            viol.append(("unreadable answer: %s\n%s" % (e, traceback.format_exc()[-800:]), {"item": it}))
        if len(viol) >= 5:
            break
    return st, viol


def explore(check, fn, items, exe, chunk=None, max_viol=3, retry=None):
    """Run fn over all items on NPROC workers. fn(item, driver, stats, viol)."""
    items = list(items)
    if not items or len(check.violations) >= max_viol or any("timeout: no answer" in str(w) for w, _ in check.violations):
        return
    n = len(items)
    chunk = chunk or max(1, min(200, n // (NPROC * 4) or 1))
    jobs = [(fn, items[i:i + chunk]) for i in range(0, n, chunk)]
    ctx = mp.get_context("fork")
    # plain processes and pipes: multiprocessing.Pool can hang when it is ended early with large results under way
    conns, procs, given, todo = {}, [], {}, iter(range(len(jobs)))
    sys.stdout.flush()
    sys.stderr.flush()

    def next_job(c):
        k = next(todo, None)
        given[c] = k, time.time()
        try:
            c.send(k)
        except OSError:
            raise RuntimeError("a worker process of the check died")
        if k is None:
            conns.pop(c).join()
            c.close()

    try:
        for _ in range(min(NPROC, len(jobs))):
            mine, theirs = ctx.Pipe()
            p = ctx.Process(target=_worker, args=(theirs, [mine] + list(conns), jobs, exe), daemon=True)
            p.start()
            theirs.close()
            conns[mine] = p
            procs.append(p)
            next_job(mine)
        while conns:
            ready = multiprocessing.connection.wait(list(conns), 5)
            late = [c for c in conns if c not in ready and time.time() - given[c][1] > (7200 if THOROUGH else 420)]
            if late:  # code under test that runs inside the worker hangs
                check.violation("timeout: no answer within %d s in a job that takes seconds" % (time.time() - given[late[0]][1]), {"items": items[given[late[0]][0] * chunk:][:chunk]})
                return
            for c in ready:
                try:
                    st, viol = c.recv()
                except EOFError:
                    raise RuntimeError("a worker process of the check died")
                check.stats.merge(st)
                for what, replay in viol:
                    check.violation(what, replay)
                if len(check.violations) >= max_viol or any("timeout: no answer" in str(w) for w, _ in check.violations):
                    return
                next_job(c)
    finally:
        for p in procs:
            if p.is_alive():
                p.kill()
            p.join()


def _worker(conn, others, jobs, exe):
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG: end with the check
    except (OSError, AttributeError):
        pass
    for c in others:
        c.close()
    _winit(exe, None)
    try:
        while True:
            k = conn.recv()
            if k is None:
                break
            conn.send(_wrun(jobs[k]))
    except (EOFError, OSError):
        pass
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
    os._exit(0)


def main(fn):
    """Run a check's main function. Answers that cannot be read (the process died, or it answered something else than on the
    tree the check was written for) are violations; any other Python error is an error of the check (exit 3)."""
    try:
        fn()
    except SystemExit:
        raise
    except (Died, Violation, ValueError, IndexError, KeyError) as e:
        if _CHECKS:
            traceback.print_exc()
            _CHECKS[-1].violation("the library cannot be examined: %s: %s" % (type(e).__name__, e), {"traceback": traceback.format_exc()[-1500:]})
            _CHECKS[-1].finish()
        raise
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        _cleanup()
        os._exit(3)


def fl(v):
    return repr(float(v)) if v == v and abs(v) != float("inf") else ("nan" if v != v else ("inf" if v > 0 else "-inf"))


def xs(x):
    return "\t".join(fl(v) for v in x)


def read_tree(root):
    """{relative path: bytes} of a directory; directories are listed with value None."""
    res = {}
    for dp, dn, fn in os.walk(root):
        rel = os.path.relpath(dp, root)
        if rel != ".":
            res[rel + "/"] = None
        for f in fn:
            with open(os.path.join(dp, f), "rb") as h:
                res[os.path.normpath(os.path.join(rel, f))] = h.read()
    return res
