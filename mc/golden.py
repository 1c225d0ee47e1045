"""The fingerprints of all problems at the pinned commit (data/golden.xz) and the list of problems they cover."""
import array
import lzma
import os
import struct
import zlib

import suitemodel as sm

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "golden.xz")
LARGE = os.path.join(os.path.dirname(PATH), "golden-large.xz")
SUITES = sm.NAMES + ["bbob-constrained-active-only", "bbob-constrained-no-disguise"]


def instances(suite, d):
    lots = list(range(1, 16))
    if suite in ("bbob", "bbob-boxed"):
        return lots + [16, 22, 31, 42, 53, 64, 75, 86, 97, 101, 110]
    if suite == "toy":
        return [1]
    if suite.startswith("bbob-constrained-"):
        return [1, 6]
    if d > 160:
        return [1, 7]
    if d > 80 or d >= 40 and suite == "bbob-constrained":
        return [1, 2, 7, 15]
    return lots


def groups():
    """(suite, dimension, function, instances) in file order."""
    for s in SUITES:
        dims, nf, f0, _ = sm.SUITES["bbob-constrained" if s.startswith("bbob-con") else s]
        for d in dims:
            for k in range(nf):
                yield s, d, f0 + k, instances(s, d)


def large():
    """The same for instances above those, most of them far above."""
    far = [99, 100, 128, 256, 999, 1000, 9999, 65536, 214749, 429497, 1000000]
    for s, dims in (("bbob", (2, 3, 5, 10)), ("bbob-boxed", (2, 3)), ("bbob-constrained", (2, 3, 5)), ("bbob-largescale", (20,)), ("bbob-mixint", (5, 10)), ("bbob-noisy", (2, 3))):
        nf, f0 = sm.SUITES[s][1:3]
        for d in dims:
            for k in range(nf):
                yield s, d, f0 + k, ([] if s in ("bbob", "bbob-boxed") else [16, 23, 51]) + far


def command(suite, d, f, ins):
    c = ["S\t0\t%s\tinstances: %s\tdimensions: %d" % (suite, ",".join(map(str, ins)), d)]
    for i in ins:
        c += ["B\t1\t0\t%d\t%d\t%d" % (f, d, i), "Y\t1\t%d" % (suite != "toy"), "F\t1"]
    return c + ["f\t0"]


def parse(line):
    t = line.split("\t")
    return zlib.crc32(t[0].encode("latin-1")), [float(v) for v in t[1:]]


def load(path=PATH, groups=groups):
    raw = lzma.open(path).read()
    pos, res = 0, []
    for g in groups():
        rows = []
        for i in g[3]:
            crc, n = struct.unpack_from("<IH", raw, pos)
            pos += 6
            a = array.array("d")
            a.frombytes(raw[pos:pos + 8 * n])
            pos += 8 * n
            rows.append((crc, list(a)))
        res.append((g, rows))
    return res
