"""Determinants, linear systems, LU factors, orthogonalisation, reflections, rotations and norms."""
from .numeric import *


def start(c):
    c.design("Direct_MC", "Direct_MC3.cfg" if c.thorough else "Direct_MC.cfg", workers=3, timeout=850)


def degenerate(r, n, k):
    a = rnd(r, n, k=k)
    for _ in range(r.randint(1, 3)):
        x = r.randint(0, 4)
        i, j = r.randrange(n), r.randrange(n)
        if x == 0:
            a[i] = [r.choice([-1, 1, 2]) * v for v in a[j]] if i != j else [0] * n
        elif x == 1:
            for row in a:
                row[i] = row[j]
        elif x == 2:
            for q in range(n):
                a[q][q] = 0
        elif x == 3:
            a[0][0] = 0
        else:
            for q in range(n):
                for p in range(q):
                    a[q][p] = 0
    return a


def run(c):
    r, sc = c.rng, []

    def add(ops):
        sc.append({"kind": "nu", "ops": ops})

    def den():
        return r.choice([1, 1, 1, 2, 4, 8])
    for _ in range(c.pick(400, 3000)):
        ops = []
        for _ in range(4):
            n = r.choice([1, 2, 2, 3, 3, 4, 4, 5])
            k = r.choice([1, 3, 9] if n < 5 else [1, 3, 5])
            a = rnd(r, n, k=k) if r.random() < .5 else degenerate(r, n, k)
            ops.append({"op": "det", "m": a, "den": r.choice([1, 1, 2, 4]), "view": r.random() < .4})
        if r.random() < .1:
            n, m = r.sample([1, 2, 3, 4], 2)
            ops.append({"op": "det", "m": rnd(r, n, m), "den": 1, "view": r.random() < .4})
        add(ops)
    for _ in range(c.pick(400, 3000)):
        ops = []
        for _ in range(3):
            n = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8])
            while True:
                a = rnd(r, n, k=r.choice([1, 3, 9])) if r.random() < .5 else degenerate(r, n, r.choice([1, 3, 9]))
                if det(a):
                    break
            ops.append({"op": "solve", "m": a, "den": den(), "b": [[r.randint(-9, 9)] for _ in range(n)]})
        add(ops)
    for _ in range(c.pick(200, 1500)):
        ops = []
        for _ in range(2):
            n = r.choice([1, 2, 2, 3, 3, 4, 5])
            while True:
                a = rnd(r, n, k=r.choice([1, 3, 9]))
                if all(det([x[:k] for x in a[:k]]) for k in range(1, n + 1)):
                    break
            ops.append({"op": "lu", "m": a, "den": den(), "pad": [r.choice([0, 0, 1, 2]) for _ in range(4)]})
        add(ops)
    for _ in range(c.pick(250, 2000)):
        ops = []
        for _ in range(2):
            m = r.choice([1, 2, 2, 3, 3, 4])
            a = full(r, m + r.choice([0, 0, 1, 2, 3]), m, r.choice([1, 2, 3, 5] if m < 4 else [1, 2, 3]))
            ops.append({"op": r.choice(["gs", "gsw"]), "m": a, "den": r.choice([1, 1, 2, 4])})
        add(ops)
    for _ in range(c.pick(250, 2000)):
        ops = []
        for _ in range(4):
            n = r.choice([1, 2, 3, 4, 5])
            x = r.randint(0, 3)
            a = [[r.randint(-9, 9) if x != 1 or i == 0 else 0] for i in range(n)]
            if x == 2:
                a[0][0] = 0
            if x == 3:
                a[-1][0] = 0
            if r.random() < .2:      # a long first entry
                a[0][0] = r.choice([-1, 1]) * r.choice([1000, 100000, 2 ** 20, 2 ** 27])
            ops.append({"op": "householder", "m": a, "den": r.choice([1, 2, 4]), "view": r.random() < .5})
            p, q = r.choice([(r.randint(-9, 9), r.randint(-9, 9)), (0, r.randint(-3, 3)), (r.randint(-3, 3), 0), (r.randint(-999, 999), r.randint(-3, 3)), (r.randint(-3, 3), r.randint(-999, 999))])
            ops.append({"op": "givens", "a": p, "b": q, "den": r.choice([1, 1, 2 ** 6, 2 ** 12, 2 ** 20])})
            n, m = r.randint(1, 4), r.choice([1, 1, 2, 3, 5])
            ops.append({"op": "norms", "m": rnd(r, n, m, r.choice([1, 9, 99])), "den": den(), "view": r.random() < .5})
        add(ops)
    for _ in range(c.pick(40, 400)):      # larger
        n = r.randint(6, 8)
        add([{"op": "det", "m": rnd(r, n, k=1) if r.random() < .5 else degenerate(r, n, 1), "den": 1, "view": r.random() < .4}])
        n = r.randint(9, 14)
        while True:
            a = rnd(r, n, k=r.choice([1, 3]))
            if det(a):
                break
        add([{"op": "solve", "m": a, "den": den(), "b": [[r.randint(-9, 9)] for _ in range(n)]}])
        n = r.randint(6, 9)
        while True:
            a = [[x + (4 * n if i == j else 0) for j, x in enumerate(y)] for i, y in enumerate(rnd(r, n))]
            if all(det([x[:k] for x in a[:k]]) for k in range(1, n + 1)):
                break
        add([{"op": "lu", "m": a, "den": den(), "pad": [r.choice([0, 0, 1, 2]) for _ in range(4)]}])
        m = r.choice([5, 6])
        add([{"op": r.choice(["gs", "gsw"]), "m": full(r, m + r.choice([0, 0, 1, 2, 3]), m, 1), "den": 1}])
        n = r.randint(6, 14)
        add([{"op": "householder", "m": [[r.randint(-9, 9)] for _ in range(n)], "den": r.choice([1, 2, 4]), "view": r.random() < .5}])
        add([{"op": "norms", "m": rnd(r, r.randint(5, 12), r.randint(5, 12), 9), "den": den(), "view": r.random() < .5}])
    for _ in range(c.pick(20, 200)):
        add([{"op": "orthogonal", "n": r.randint(1, 6)}, {"op": "unit", "n": r.randint(1, 6)},
             {"op": "symmetric", "n": r.randint(1, 6), "sparse": r.random() < .5}])
    c.conform(sc, "Direct_Trace", "Direct_Trace.cfg", "numeric", ncorrupt=40, corruptor=shake,
              need=("det", "solve", "lu", "gs", "gsw", "householder", "givens", "norms", "orthogonal", "unit", "symmetric"),
              weight=lambda evs: sum(len(e.get("m", [0, 0, 0])) ** 3 + 5 for e in evs))
