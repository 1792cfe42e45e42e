"""Lattice bases reduced in the sense of Lenstra, Lenstra and Lovasz."""
from .numeric import *


def start(c):
    c.design("Lattice_MC", "Lattice_MC.cfg", workers=2)
    c.design("Lattice_MC", "Lattice_MC4.cfg", workers=2)
    if c.thorough:
        c.design("Lattice_MC", "Lattice_MC2.cfg", workers=3, timeout=850)
        c.design("Lattice_MC", "Lattice_MC3.cfg", workers=3, timeout=850)


def basis(r, n, m, k):
    x = r.randint(0, 5)
    if x == 5 and m < 5 and k >= 10:       # coefficients on the edge of being reduced
        d = [r.randint(k // 2, k) for _ in range(m)]
        return [[0 if i > j else d[i] if i == j else r.choice([1, -1]) * (d[i] // 2 + r.choice([0, 0, 1, 1, 2])) for j in range(m)] for i in range(n)]
    if x < 2 or x == 5 or n != m:
        return full(r, n, m, k)
    if x == 2:       # a good basis, badly written
        a = full(r, n, m, r.choice([1, 3]))
        p, _ = unimodular(r, n, r.randint(1, 8))
        return mul(a, p)
    if x == 3:       # knapsack shape: a diagonal with one row of weights
        a = [[int(i == j) * r.choice([1, 1, 2]) for j in range(n)] for i in range(n)]
        a[-1] = [r.randint(1, k) for _ in range(n)]
        return a
    while True:      # vectors nearly parallel
        v = [r.randint(-k, k) for _ in range(n)]
        a = [[v[i] * r.choice([1, 1, -1, 2]) + r.randint(-1, 1) for j in range(m)] for i in range(n)]
        if det(gram(a)):
            return a


def run(c):
    r, sc = c.rng, []
    for _ in range(c.pick(300, 3000)):
        ops = []
        for _ in range(2):
            m = r.choice([1, 2, 2, 3, 3, 3, 4, 4, 5])
            n = m + r.choice([0, 0, 0, 1, 2])
            ops.append({"op": "lll", "m": basis(r, n, m, r.choice([1, 3, 10, 50]) if m < 5 else 5), "den": 1, "delta": r.choice([75, 75, 75, 30, 50, 90, 99])})
        sc.append({"kind": "nu", "ops": ops})
    for _ in range(c.pick(10, 100)):
        m = 6
        sc.append({"kind": "nu", "ops": [{"op": "lll", "m": basis(r, m + r.choice([0, 0, 1]), m, 2), "den": 1, "delta": r.choice([75, 75, 50, 99])}]})
    c.conform(sc, "Lattice_Trace", "Lattice_Trace.cfg", "lattice", ncorrupt=30, corruptor=shake, need=("lll",),
              weight=lambda evs: sum(len(e["m"][0]) ** 4 + 5 for e in evs))
