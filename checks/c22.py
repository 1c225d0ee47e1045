"""C22: random generators against a reference implementation: long sequences for every listed seed, all interleavings of draws
from several generators around the refills of the state, with other activity in between."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import core  # noqa: E402
from core import THOROUGH  # noqa: E402

ck = core.Check("C22")
M = 0xFFFFFFFF
MULT = 1812433253
INV = pow(MULT, -1, 1 << 32)
LL, SL = 607, 273


class Gen:
    def __init__(self, seed):
        self.x = []
        for i in range(LL):
            self.x.append(min(seed / M, 1.0 - 2.0 ** -53))
            seed = (MULT * (seed ^ (seed >> 30)) + i + 1) & M
        self.i = 12

    def u(self):
        if self.i >= LL:
            x = self.x
            for i in range(LL):
                t = x[i] + (x[i + LL - SL] if i < SL else x[i - SL])
                x[i] = t - 1.0 if t >= 1.0 else t
            self.i = 0
        self.i += 1
        return self.x[self.i - 1]

    def g(self):
        a, b = self.u(), self.u()
        return (math.sqrt(-2 * math.log(a)) if a > 0 else math.inf) * math.cos(2 * math.pi * b)


def seed_for(value, pos):
    """The seed whose state has the given 32-bit value at a position."""
    for i in range(pos, 0, -1):
        v = ((value - i) * INV) & M
        value = v ^ (v >> 30)
    return value


def close(a, b):
    return a == b or abs(a - b) <= 1e-12 * max(1.0, abs(b)) or (math.isinf(b) and math.isinf(a)) or (math.isnan(a) and math.isnan(b))


def stream(item, drv, st, viol):
    seed, n = item
    r = drv.run(["rn\t0\t%d" % seed, "rn\t1\t%d" % seed, "rl\t0\t%d\tu" % n, "rl\t1\t%d\tg" % (n // 2), "rf\t0", "rf\t1"])
    m, k = Gen(seed), Gen(seed)
    u = [float(v) for v in r[2].split("\t")]
    for j, v in enumerate(u):
        if not 0.0 <= v < 1.0:
            viol.append(("seed %d: uniform draw %d is %.17g" % (seed, j + 1, v), {"seed": seed, "draw": j + 1}))
            return
        e = m.u()
        if not close(v, e):
            viol.append(("seed %d: uniform draw %d is %.17g, the published generator gives %.17g" % (seed, j + 1, v, e), {"seed": seed, "draw": j + 1}))
            return
    for j, v in enumerate(float(v) for v in r[3].split("\t")):
        e = k.g()
        if not close(v, e):
            viol.append(("seed %d: normal draw %d is %.17g, the published generator gives %.17g" % (seed, j + 1, v, e), {"seed": seed, "draw": j + 1}))
            return
    st.state((seed, tuple(u[:4])))
    st.add("transitions", n + n // 2)
    st.add("traces_validated_against_impl")


OPS = ["u0", "g0", "u1", "g1", "u2", "P"]


def interleave(item, drv, st, viol):
    seeds, pos, depth, lo, hi = item
    base = []
    for s, p in zip(seeds, pos):
        base.append(Gen(s))
        for _ in range(p):
            base[-1].u()
    # only the numbers up to the depth matter: precompute each generator's continuation
    cont = []
    for g in base:
        cont.append([g.u() for _ in range(2 * depth + 2)])
    pre = ["S\t0\tbbob\tinstances: 1\tdimensions: 2", "S\t1\tbbob-noisy\tinstances: 1\tdimensions: 2", "B\t1\t0\t5\t2\t1", "B\t2\t1\t105\t2\t1", "Z"]
    pre += ["rn\t%d\t%d" % (k, s) for k, s in enumerate(seeds)] + ["rk\t%d\t%d" % (k, p) for k, p in enumerate(pos)]
    seen = {}
    for h in itertools.islice(itertools.product(OPS, repeat=depth), lo, hi):
        cmds = list(pre)
        at, exp, ne = [0] * len(seeds), [], 0
        for o in h:
            if o == "P":  # library activity: deterministic and noisy evaluations, objects created and destroyed
                cmds += ["E\t1\t1.5\t-2", "E\t2\t1.5\t-2", "S\t3\tbbob-constrained\tinstances: 2\tdimensions: 3", "G\t3\t3\t%d" % (len(cmds) % 50), "F\t3", "f\t3", "rn\t9\t%d" % seeds[0], "ru\t9", "rf\t9"]
                for q, key in ((-9, "det"), (-8, ("noisy", ne))):
                    exp.append((len(cmds) + q, key, None))
                exp.append((len(cmds) - 2, "fresh", Gen(seeds[0]).u() if "fresh" not in seen else float(seen["fresh"])))
                ne += 1
                continue
            k = int(o[1])
            c = cont[k]
            if o[0] == "u":
                e = c[at[k]]
                at[k] += 1
            else:
                a, b = c[at[k]], c[at[k] + 1]
                at[k] += 2
                e = (math.sqrt(-2 * math.log(a)) if a > 0 else math.inf) * math.cos(2 * math.pi * b)
            cmds.append("r%s\t%d" % (o[0], k))
            exp.append((len(cmds) - 1, None, e))
        cmds += ["rf\t%d" % k for k in range(len(seeds))] + ["F\t1", "F\t2", "f\t0", "f\t1"]
        r = drv.run(cmds)
        st.add("transitions", len(h))
        st.add("traces_validated_against_impl")
        st.state((seeds, pos, tuple(at), ne))
        for q, key, e in exp:
            if (key is not None and seen.setdefault(key, r[q]) != r[q]) or (e is not None and not close(float(r[q]), e)):
                viol.append(("generators with seeds %s after %s draws, %s: %s gives %s, expected %s" % (seeds, pos, h, cmds[q], r[q], e if e is not None else seen[key]), {"seeds": seeds, "drawn": pos, "history": h}))
                return


def main():
    exe = core.build_driver()
    special = [seed_for(v, p) for v in (M, 0, M - 1, 1) for p in ((0, 1, 11, 12, 13, 14, 100, 272, 273, 274, 333, 334, 605, 606) if not THOROUGH else range(LL))]
    seeds = sorted(set(list(range(0, 400 if not THOROUGH else 20000)) + [12345, 10001, 50001, 1 << 30, 1 << 31, (1 << 31) - 1, M, M - 1, 987654321] + special + [(1 << k) for k in range(32)] + [((1 << k) - 1) for k in range(33)]))
    core.explore(ck, stream, [(s, 3000 if k % 20 == 0 or s > 10000 else 1300) for k, s in enumerate(seeds)], exe, chunk=8)
    # a long experiment: more than 2^20 draws from one generator
    core.explore(ck, stream, [(s, 1100000 if not THOROUGH else 20000000) for s in (0, 1, 7, 12345, M, 1 << 31, 10001, 1 << 20)], exe, chunk=1)
    firsts = {}
    for s in seeds:
        firsts.setdefault(tuple(round(v, 12) for v in Gen(s).x[12:20]), []).append(s)
    ck.stats.sample("%d seeds, among them those with an all-ones, zero or extreme state at a position; %d different sequences" % (len(seeds), len(firsts)))
    jobs = []
    depth = 6 if THOROUGH else 5
    for ss in ((7, 7, 8), (1, 2, 1)):
        for pos in ((0, 0, 0), (594, 594, 595), (595, 593, 590), (1201, 1202, 0)):
            n = len(OPS) ** depth
            jobs += [(ss, pos, depth, k, min(n, k + 1000)) for k in range(0, n, 1000)]
    core.explore(ck, interleave, jobs, exe, chunk=1)
    ck.stats.sample("all sequences of %d of %s with the generators at %s draws" % (depth, OPS, "0, 590-595 (first refill), 1201-1202 (second)"))
    ck.finish()


core.main(main)
