"""Client of mc/pyharness.py: runs histories of Python lines on the cocoex package built from the working tree."""
import json
import os
import signal
import subprocess
import tempfile
import core
import pybuild
from core import Died

ENV = None
HARNESS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "pyharness.py")


class Py:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="py", dir=core.scratch())
        self.p = None

    def run(self, lines, timeout=120):
        if self.p is None:
            self.err = open(os.path.join(self.dir, "stderr"), "w+")
            os.makedirs(self.dir + "/w", exist_ok=True)
            self.p = subprocess.Popen([pybuild.PY, HARNESS], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=ENV, cwd=self.dir + "/w", text=True)
        old = signal.signal(signal.SIGALRM, core._alarm)
        signal.setitimer(signal.ITIMER_REAL, timeout)
        try:
            self.p.stdin.write(json.dumps(lines) + "\n")
            self.p.stdin.flush()
            a = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            a = ""
        except core._Timeout:
            self.p.kill()
            self.p.wait()
            self.p = None
            raise Died("timeout of the Python process")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        if not a:
            rc = self.p.wait()
            self.err.seek(0)
            msg = self.err.read()
            self.p = None
            k = max(0, msg.find("ERROR: AddressSanitizer"))
            raise Died("the Python process ended (status %s): %s" % (rc, msg[k:][:1200]))
        return json.loads(a)
