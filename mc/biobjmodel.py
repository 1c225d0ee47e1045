"""Published composition of the bi-objective suites: function pairs and instance pairs."""
SEL = [1, 2, 6, 8, 13, 14, 15, 17, 20, 21]
PAIRS = [(SEL[a], SEL[b]) for a in range(10) for b in range(a, 10)]
PAIRS += [(1, 3), (1, 4), (1, 5), (2, 3), (2, 4), (2, 5), (3, 4), (3, 5), (4, 5),
          (6, 7), (6, 9), (7, 8), (7, 9), (8, 9),
          (10, 11), (10, 12), (10, 13), (10, 14), (11, 12), (11, 13), (11, 14), (12, 13), (12, 14),
          (15, 18), (15, 19), (17, 18), (17, 19), (18, 19),
          (20, 22), (20, 23), (20, 24), (21, 22), (21, 23), (21, 24), (22, 23), (22, 24), (23, 24)]
assert len(PAIRS) == 92
INST = {1: (2, 4), 2: (3, 5), 9: (19, 21), 15: (31, 34)}


def parts(f, i):
    """((function1, instance1), (function2, instance2)) of bi-objective function f, instance i <= 15."""
    a, b = INST.get(i, (2 * i + 1, 2 * i + 2))
    return (PAIRS[f - 1][0], a), (PAIRS[f - 1][1], b)
