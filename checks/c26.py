"""C26: coco_remove_directory on every tree up to the bound, with every single and every persistent failing directory operation.
Everything runs as an unprivileged user inside a scratch directory of its own, and deletions are guarded besides."""
import itertools
import os
import shutil
import stat
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
from core import THOROUGH, Violation, Died  # noqa: E402

ck = core.Check("C26")
EXE = None
UID = 61234
LEAVES = ["f", ".h", "...", "d/", ".d/", "a b", "..x", "l>../out/file", "l>../out/dir", "l>nowhere", "l>.", "l>..", "p|", "x" * 255, "%s%n", "o="]
INNER = ["D/", ".D/", "r/555", "u/000", "w/300"]  # with permissions: read-only, nothing, write only
W = {}


def worker():
    """this worker's work directory and process, after giving up all privileges"""
    if "dir" not in W:
        W["dir"] = os.path.realpath(tempfile.mkdtemp(prefix="rm", dir=core.scratch()))
        if os.getuid() == 0:
            os.chown(W["dir"], UID, UID)
            os.setgroups([])
            os.setgid(UID)
            os.setuid(UID)
        os.umask(0o022)
        os.chdir(W["dir"])
        W["p"] = None
    if W["p"] is None:
        env = dict(os.environ, ASAN_OPTIONS=core.ASAN_ENV)
        W["p"] = subprocess.Popen([EXE], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=W["dir"], env=env, text=True)
    return W["p"]


def call(path, k, sticky):
    p = worker()
    p.stdin.write("%d %d %s\n" % (k, sticky, path))
    p.stdin.flush()
    a = p.stdout.readline()
    if not a:
        W["p"] = None
        raise Died("process died (status %s) removing %s, failing operation %d%s" % (p.wait(), path, k, "+" if sticky else ""))
    return [int(v) for v in a.split()]


def snap(root, skip=None):
    """{relative path: (type, mode, contents)}"""
    res = {}
    todo = [""]
    while todo:
        rel = todo.pop()
        for e in os.listdir(os.path.join(root, rel)):
            q = os.path.join(rel, e)
            if q == skip:
                continue
            full = os.path.join(root, q)
            s = os.lstat(full)
            if stat.S_ISDIR(s.st_mode):
                res[q] = ("d", s.st_mode)
                if os.access(full, os.R_OK | os.X_OK):
                    todo.append(q)
            elif stat.S_ISLNK(s.st_mode):
                res[q] = ("l", os.readlink(full))
            elif stat.S_ISREG(s.st_mode):
                text = None
                if os.access(full, os.R_OK):
                    with open(full, "rb") as f:
                        text = f.read()
                res[q] = ("f", s.st_mode, s.st_size, text)
            else:
                res[q] = ("o", s.st_mode)
    return res


def destroy(p):
    """remove what is left, whatever its permissions"""
    if not os.path.lexists(p):
        return
    if os.path.isdir(p) and not os.path.islink(p):
        os.chmod(p, 0o755)
        for e in os.listdir(p):
            destroy(os.path.join(p, e))
        os.rmdir(p)
    else:
        os.unlink(p)


def grow(at, forest, late):
    """forest: list of (kind, children)"""
    for i, (kind, kids) in enumerate(forest):
        if kind == "f" or kind == ".h" or kind in ("a b", "%s%n", "..x", "..."):
            name = {"...": "..." + "." * i}.get(kind, "%s%d" % (kind, i))
            with open(os.path.join(at, name), "w") as f:
                f.write(name)
        elif kind == "o=":
            name = os.path.join(at, "ro%d" % i)
            open(name, "w").close()
            os.chmod(name, 0)
        elif kind[0] == "x":
            open(os.path.join(at, "y" * i + kind[i:]), "w").close()
        elif ">" in kind:
            t = kind.split(">")[1]
            if t.startswith("../out"):
                t = os.path.join(W["dir"], t[3:])
            os.symlink(t, os.path.join(at, "l%d" % i))
        elif kind == "p|":
            os.mkfifo(os.path.join(at, "p%d" % i))
        else:
            name, _, mode = kind.partition("/")
            d = os.path.join(at, "%s%d" % (name, i))
            os.mkdir(d)
            grow(d, kids, late)
            if mode:
                late.append((d, int(mode, 8)))


def blocked(forest):
    return any(k[-3:] in ("555", "000", "300") or blocked(c) for k, c in forest)


def setup(forest, top):
    destroy(os.path.join(W["dir"], "t"))
    late = []
    if top == "dir":
        os.mkdir(os.path.join(W["dir"], "t"))
        grow(os.path.join(W["dir"], "t"), forest, late)
    elif top == "file":
        open(os.path.join(W["dir"], "t"), "w").close()
    elif top == "link":
        os.symlink("out/dir", os.path.join(W["dir"], "t"))
    elif top == "dangling":
        os.symlink("gone", os.path.join(W["dir"], "t"))
    for d, m in late:
        os.chmod(d, m)


def outer():
    d = W["dir"]
    for e in os.listdir(d):
        destroy(os.path.join(d, e))
    os.makedirs(d + "/out/dir/sub")
    for f in ("out/file", "out/dir/a", "out/dir/.b", "out/dir/sub/c", "t0", "tt"):
        with open(os.path.join(d, f), "w") as h:
            h.write(f)
    os.mkdir(d + "/t.d")


def one(item, drv, st, viol):
    forest, top, spell, faults = item
    worker()
    d = W["dir"]
    if "outer" not in W:
        outer()
        W["outer"] = snap(d)
    path = {"rel": "t", "dot": "./t", "abs": d + "/t", "slash": "t/", "up": "out/../t"}[spell]
    k = 0
    sticky = 0
    total = None
    while True:
        setup(forest, top)
        before = snap(d)
        inner = {p for p in before if p == "t" or p.startswith("t/")}
        try:
            r, ops, esc, fds = call(path, k, sticky)
        except Died:
            for e in os.listdir(d):
                destroy(os.path.join(d, e))
            W.pop("outer", None)
            raise
        after = snap(d)
        rep = {"tree": forest, "top": top, "path": path, "failing_operation": k, "persistent": sticky, "result": r}
        what = None
        outs = {p: v for p, v in after.items() if not (p == "t" or p.startswith("t/"))}
        left = {p: v for p, v in after.items() if p == "t" or p.startswith("t/")}
        if esc:
            what = "tried to delete something outside of the tree"
        elif outs != W["outer"]:
            what = "changed something outside of the tree: %s" % sorted(p for p in set(outs) ^ set(W["outer"]) | {q for q in outs if outs[q] != W["outer"].get(q)})
            outer()
            W["outer"] = snap(d)
        elif any(before.get(p) != v for p, v in left.items() if p in before):
            what = "changed something in the tree other than by deleting it"
        elif fds:
            what = "left %d descriptors open" % fds
        elif top != "dir":
            if left != {p: before[p] for p in inner}:
                what = "a path that is not a directory was changed"
            elif top == "none" and r != 0:
                what = "nothing to do, but the result is %d" % r
        else:
            if (r == 0) != (not left):
                what = "result %d, but left over: %s" % (r, sorted(left))
            elif k == 0 and not blocked(forest) and r != 0:
                what = "result %d although nothing prevents the deletion" % r
        st.add("executions")
        st.add("transitions", ops)
        st.add("traces_validated_against_impl")
        st.state((str(forest), top, r == 0, tuple(sorted(left))))
        if what:
            raise Violation("%s: %s" % (rep, what), rep)
        if k == 0:
            total = ops
        if not faults or total is None:
            break
        # every operation failing once, then from it on
        if not sticky and k >= 1:
            sticky = 1
        else:
            sticky = 0
            k += 1
            if k > total:
                break


def forests(n, depth, leaves, inner):
    """all multisets of trees with n nodes altogether"""
    def trees(m, dep):
        if m == 1:
            for k in leaves:
                yield (k, ())
            for k in inner:
                if k not in ("D/", ".D/"):
                    yield (k, ())
        elif dep > 1:
            for k in inner:
                for c in fs(m - 1, dep - 1, None):
                    yield (k, c)

    def fs(m, dep, least):
        if m == 0:
            yield ()
            return
        for a in range(m, 0, -1):
            for t in trees(a, dep):
                if least is not None and (-a, t) < least:
                    continue
                for rest in fs(m - a, dep, (-a, t)):
                    yield (t,) + rest
    return fs(n, depth, None)


def main():
    global EXE
    EXE = core.build_driver("rmtree", ("rmtree.c",), wraps="-Wl,--wrap=unlink,--wrap=rmdir,--wrap=remove,--wrap=unlinkat,--wrap=opendir,--wrap=readdir,--wrap=readdir64")
    items = []
    for top in ("none", "file", "link", "dangling"):
        for sp in ("rel", "dot", "abs", "up"):
            items.append(((), top, sp, False))
    for n in (0, 1, 2):
        for f in forests(n, 3, LEAVES, INNER):
            for sp in ("rel", "dot", "abs", "slash", "up"):
                items.append((f, "dir", sp, sp == "rel"))
    small = ["f", ".h", "d/", "l>../out/dir", "l>.", "o="] if not THOROUGH else LEAVES
    for f in forests(3, 3, small, INNER[:3]):
        items.append((f, "dir", "rel", True))
    core4 = ["f", "d/", "l>../out/dir"]
    for n in (4, 5) if THOROUGH else (4,):
        for f in forests(n, 4, core4, ["D/", "r/555"] if n < 5 else ["D/"]):
            items.append((f, "dir", "rel", True))
    # long chains and wide directories (several readdir buffers)
    chain = ()
    for _ in range(60):
        chain = (("D/", chain),)
    items.append((chain, "dir", "rel", True))
    items.append((tuple(("f", ()) for _ in range(3000)), "dir", "rel", False))
    items.append((tuple(("d/", ()) for _ in range(1500)) + tuple(("l>../out/dir", ()) for _ in range(1500)), "dir", "abs", False))
    ck.stats.sample(str(items[500]))
    ck.stats.sample(str(items[-200]))
    core.explore(ck, one, items, None, chunk=40)
    ck.assumptions.append("POSIX branch; faults are injected into unlink, rmdir, remove, unlinkat, opendir and readdir, and given by directory permissions; a path that is not itself a directory (a file, a symbolic link) is left as it is")
    ck.finish()


core.main(main)
