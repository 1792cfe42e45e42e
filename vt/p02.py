"""Sub-tuple enumeration: one event per call of next()."""


def start(c):
    c.design("Tuples", "Tuples_MC.cfg")


def run(c):
    sc = []
    N = c.pick(9, 12)
    for n in range(0, N + 1):
        for k in range(0, n + 3):
            sc.append(([i * 10 - 3 for i in range(n)], k))
    sc = [{"kind": "tuple", "ops": [{"op": "tnew", "xs": xs, "k": k}] +
           [{"op": "tnext"}] * 5 + [{"op": "trest", "cap": 20000}] + [{"op": "tnext"}] * 3} for xs, k in sc]
    from math import comb
    for n in range(0, c.pick(7, 8)):
        for k in range(0, n + 2):
            sc.append({"kind": "tuple", "ops": [{"op": "tnew", "xs": list(range(100, 100 + n)), "k": k}] +
                       [{"op": "tnext"}] * (comb(n, k) + 3)})
    for n, k in [(20, 1), (20, 2), (20, 19), (20, 20), (16, 3), (14, 11), (66, 2), (66, 65), (130, 1), (130, 129)] + \
            ([(18, 5), (18, 13), (40, 3)] if c.thorough else []):
        sc.append({"kind": "tuple", "ops": [{"op": "tnew", "xs": [c.rng.randint(-50, 50) for _ in range(n)], "k": k},
                                            {"op": "tnext"}, {"op": "trest", "cap": 20000}, {"op": "tnext"}]})
    c.conform(sc, "Tuples_Trace", "Tuples_Trace.cfg", "tuples", fields=("ret",), only=("tnext", "trest"), need=("tnew", "tnext", "trest"))
