"""Builds the Python package cocoex from the working tree, out of tree, under AddressSanitizer."""
import os
import shutil
import subprocess
import core
import amalg

PY = "/opt/vp/venv/bin/python"


def build():
    """directory to put on PYTHONPATH, environment to run PY with"""
    d = os.path.join(core.scratch(), "py")
    pkg = os.path.join(d, "cocoex")
    if not os.path.isdir(pkg):
        src = os.path.join(core.REPO, "build/python/src/cocoex")
        os.makedirs(pkg)
        for f in os.listdir(src):
            if f.endswith((".py", ".pyx")):
                shutil.copy(os.path.join(src, f), pkg)
        with open(os.path.join(pkg, "_version.py"), "w") as f:
            f.write("__version__ = '0'\n")
        amalg.amalgamate(os.path.join(core.REPO, "src"), pkg)
        q = subprocess.run([PY, "-c", "import sysconfig, numpy; print(sysconfig.get_path('include')); print(numpy.get_include()); print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                           stdout=subprocess.PIPE, text=True, check=True)
        inc, npinc, suf = q.stdout.split("\n")[:3]
        flags = ["gcc", "-w", "-g", "-O0", "-fPIC", "-ffp-contract=off", "-fsanitize=address", "-I", inc, "-I", npinc, "-I", pkg,
                 "-DNPY_NO_DEPRECATED_API=NPY_1_23_API_VERSION"]
        # the library as it is shipped: release build, without assertions
        jobs = [[flags + ["-O1", "-DNDEBUG", "-c", pkg + "/coco.c", "-o", pkg + "/coco.o"]]]
        for m in ("interface", "bare_problem"):
            jobs.append([[PY, "-m", "cython", "-3", "--module-name", "cocoex." + m, pkg + "/%s.pyx" % m, "-o", pkg + "/%s.c" % m],
                         flags + ["-c", pkg + "/%s.c" % m, "-o", pkg + "/%s.o" % m]])
        run = [subprocess.Popen(" && ".join(" ".join(c) for c in j), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for j in jobs]
        for p in run:
            o = p.communicate()[0]
            if p.returncode:
                raise SystemExit("BUILD-ERROR: %s" % o[-3000:])
        for m in ("interface", "bare_problem"):
            core.cc(["gcc", "-shared", "-fsanitize=address", pkg + "/%s.o" % m, pkg + "/coco.o", "-o", pkg + "/" + m + suf, "-lm"])
    asan = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    env = dict(os.environ, PYTHONPATH=d, LD_PRELOAD=os.path.realpath(asan), PYTHONMALLOC="malloc", PYTHONDONTWRITEBYTECODE="1",
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
               ASAN_OPTIONS=core.ASAN_ENV.replace("detect_stack_use_after_return=0", "detect_stack_use_after_return=0:handle_segv=1"))
    return d, env
