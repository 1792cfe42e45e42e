"""Smith normal form: identity, unimodularity and divisibility for every sampled and enumerated matrix."""
from itertools import product


def start(c):
    c.design("Smith_MC", "Smith_MC.cfg", workers=2)
    c.design("Smith_MC", "Smith_MC2.cfg", workers=2)
    if c.thorough:
        c.design("Smith_MC", "Smith_MC3.cfg", workers=4, timeout=840)


def mul(A, B):
    return [[sum(a * b for a, b in zip(row, col)) for col in zip(*B)] for row in A]


def unimod(r, n, steps):
    M = [[int(i == j) for j in range(n)] for i in range(n)]
    for _ in range(steps):
        i, j = r.randrange(n), r.randrange(n)
        if i != j:
            k = r.choice([-1, 1, 1, 2])
            M[i] = [a + k * b for a, b in zip(M[i], M[j])]
    return M


def divisors(r, n, m):
    D = [[0] * m for _ in range(n)]
    ds = [r.choice([0, 1, 1, 2, 3, 4, 6, 8, 9, 12, -1, -2, -6, 5, 10, 15]) for _ in range(min(n, m))]
    for i, d in enumerate(ds):
        D[i][i] = d
    r.random() < .5 and r.shuffle(D)
    return D


def boundary(r):
    """the signed incidence matrix of a random simplicial-like or graph-like complex"""
    n, m = r.randint(2, 8), r.randint(2, 10)
    M = [[0] * m for _ in range(n)]
    for j in range(m):
        for s, i in zip([1, -1, 1], r.sample(range(n), min(n, r.choice([2, 2, 3])))):
            M[i][j] = s
    return M


def run(c):
    r, ops = c.rng, []

    def ev(rows, ty="i64"):
        ops.append({"op": "snf", "ty": ty, "rows": rows})
    L = c.pick(3, 5)
    for v in product(range(-L, L + 1), repeat=4):
        ev([list(v[:2]), list(v[2:])])
    for v in product(range(-L - 1, L + 2), repeat=3):
        ev([list(v)])
        ev([[x] for x in v])
    for v in product(range(-1, 2), repeat=6):
        ev([list(v[:3]), list(v[3:])])
        ev([list(v[:2]), list(v[2:4]), list(v[4:])])
    for x in range(-40, 41):
        ev([[x]])
        ev([[x, 6]])
        ev([[x, 0], [0, 12]])
        ev([[12, 0], [0, x]])
        ev([[x, 0, 0], [0, 10, 0], [0, 0, 6]])
        ev([[0, x, 0], [0, 0, 4]])
    if c.thorough:
        for v in product(range(-1, 2), repeat=9):
            ev([list(v[:3]), list(v[3:6]), list(v[6:])])
    else:
        for _ in range(1500):
            v = [r.randint(-2, 2) for _ in range(9)]
            ev([v[:3], v[3:6], v[6:]])
    for _ in range(c.pick(900, 9000)):
        n, m = r.randint(1, 5), r.randint(1, 5)
        ty = r.choice(["i32", "i64", "i64", "isize", "i128"]) if max(n, m) <= 3 else r.choice(["i64", "i128", "i128"])
        k = r.random()
        if k < .35:
            lim = r.choice([1, 2, 5, 9]) if max(n, m) > 3 else r.choice([1, 3, 9, 25])
            p = r.choice([.3, .7, 1])
            ev([[r.randint(-lim, lim) if r.random() < p else 0 for _ in range(m)] for _ in range(n)], ty)
        elif k < .75:
            ev(mul(mul(unimod(r, n, r.randint(0, 5)), divisors(r, n, m)), unimod(r, m, r.randint(0, 5))), "i128")
        else:
            ev(boundary(r), r.choice(["i64", "i128"]))
    for _ in range(c.pick(60, 1200)):   # larger, sparse: growth stays representable
        n, m = r.randint(5, 8), r.randint(5, 9)
        ev([[r.choice([-1, 1, 2]) if r.random() < .25 else 0 for _ in range(m)] for _ in range(n)], "i128")
    for _ in range(c.pick(12, 200)):    # twelve to twenty rows and columns, very sparse
        n, m = r.randint(10, 20), r.randint(10, 20)
        ev([[r.choice([-1, 1, 1, 2, 3]) if r.random() < 1.3 / max(n, m) else 0 for _ in range(m)] for _ in range(n)], "i128")
    for n in range(1, 10):
        for m in range(1, 10):
            ev([[0] * m for _ in range(n)])
            ev([[int((i + j) % 3 == 0) for j in range(m)] for i in range(n)], "i128")
    for p in range(1, 9):
        ev([[((i + 1) * (j + 1) % (p + 2)) for j in range(p)] for i in range(p)] if p < 6 else [[int(i + j == p - 1) * (i + 1) for j in range(p)] for i in range(p)], "i128")
    r.shuffle(ops)
    sc = [{"kind": "snf", "ops": ops[i:i + 50]} for i in range(0, len(ops), 50)]
    c.conform(sc, "Smith_Trace", "Smith_Trace.cfg", "smith", need=("snf",),
              weight=lambda evs: sum(len(e["rows"]) ** 2 * len(e["rows"][0]) + 5 for e in evs))
