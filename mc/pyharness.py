"""Runs inside the Python of the project: executes histories of lines on the real cocoex and reports what each line gave.
stdin: one JSON list of lines per history; stdout (fd 3 of the parent): one JSON list of answers."""
import gc
import json
import os
import shutil
import sys
import warnings

out = os.fdopen(os.dup(1), "w")
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
home = os.getcwd()
warnings.simplefilter("ignore")
import numpy as np  # noqa: E402
import cocoex  # noqa: E402
cocoex.log_level("error")
gc.collect()
gc.freeze()


def enc(v, depth=0):
    if v is None or isinstance(v, (bool, np.bool_)):
        return None if v is None else bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return ["f", float(v).hex()]
    if isinstance(v, bytes):
        return v.decode("latin-1")
    if isinstance(v, str):
        return v
    if isinstance(v, np.ndarray):
        return [enc(x) for x in v.tolist()]
    if isinstance(v, (list, tuple)):
        return [enc(x, depth + 1) for x in v]
    if isinstance(v, dict):
        return {str(k): enc(x) for k, x in v.items()}
    return "<%s>" % type(v).__name__


for line in sys.stdin:
    hist = json.loads(line)
    os.chdir(home)
    if os.path.isdir("exdata") and not os.path.islink("exdata"):
        shutil.rmtree("exdata")
    ns = {"cocoex": cocoex, "np": np}
    res = []
    for code in hist:
        try:
            try:
                c = compile(code, "<line>", "eval")
            except SyntaxError:
                c = compile(code, "<line>", "exec")
            res.append(["ok", enc(eval(c, ns))])
            c = None
        except Exception as e:  # noqa: B902
            res.append(["exc", type(e).__name__])
            e = None
        if len(sys.argv) > 1:
            print(code, res[-1], file=sys.stderr, flush=True)
    ns.clear()
    ns = None
    gc.collect()
    out.write(json.dumps(res) + "\n")
    out.flush()
