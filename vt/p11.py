"""Rank over the rationals and homology with field coefficients."""
from fractions import Fraction as F
from itertools import combinations, product
from vt.p10 import mul, unimod


def start(c):
    c.design("Ranks_MC", "Ranks_MC.cfg", workers=3)
    if c.thorough:
        c.design("Ranks_MC", "Ranks_MC3.cfg", workers=4, timeout=880)


def fr(M):
    return {"n": len(M), "m": len(M[0]), "e": [[[F(x).numerator, F(x).denominator] for x in r] for r in M]}


def low_rank(r, n, m, k):
    A = [[r.choice([-1, 0, 0, 1, 2]) for _ in range(k)] for _ in range(n)]
    B = [[r.choice([-1, 0, 0, 1, 1]) for _ in range(m)] for _ in range(k)]
    return mul(A, B)


def simplicial(r, n, top, keep):
    """boundary maps of a random complex on n vertices, faces in a random order"""
    tops = [s for k in range(1, top + 2) for s in combinations(range(n), k) if r.random() < keep[k - 1]]
    cells = {f for s in tops for k in range(1, len(s) + 1) for f in combinations(s, k)}
    if not cells:
        cells = {(0,)}
    byd = []
    for k in range(1, top + 2):
        d = [s for s in cells if len(s) == k]
        if not d:
            break
        r.shuffle(d)
        byd.append(d)
    maps = [[[0] * len(byd[0])]] if r.random() < .6 else [[[1] * len(byd[0])]]
    for k in range(1, len(byd)):
        M = [[0] * len(byd[k]) for _ in byd[k - 1]]
        for j, s in enumerate(byd[k]):
            for i in range(len(s)):
                M[byd[k - 1].index(s[:i] + s[i + 1:])][j] = (-1) ** i
        maps.append(M)
    return maps


def algebraic(r):
    """A complex with prescribed ranks, hidden by a change of basis in every degree."""
    L = r.randint(1, 4)
    ranks = [0] + [r.randint(0, 3) for _ in range(L - 1)] + [0]
    hom = [r.randint(0, 2) for _ in range(L)]
    dims = [max(1, ranks[k] + hom[k] + ranks[k + 1]) for k in range(L)]
    P = [unimod(r, d, r.randint(0, 3)) for d in dims]

    def inv(M):
        n = len(M)
        A = [[F(x) for x in row] + [F(int(i == j)) for j in range(n)] for i, row in enumerate(M)]
        for i in range(n):
            p = next(k for k in range(i, n) if A[k][i])
            A[i], A[p] = A[p], A[i]
            A[i] = [x / A[i][i] for x in A[i]]
            for k in range(n):
                if k != i and A[k][i]:
                    A[k] = [x - A[k][i] * y for x, y in zip(A[k], A[i])]
        return [row[n:] for row in A]
    maps = [[[0] * dims[0]]]
    for k in range(1, L):
        # image of d_k in degree k-1: the last coordinates; source: the first coordinates in degree k
        D = [[0] * dims[k] for _ in range(dims[k - 1])]
        for t in range(ranks[k]):
            D[dims[k - 1] - 1 - t][t] = F(r.choice([1, 1, -1, 2, 3]), r.choice([1, 1, 2]))
        maps.append(mul(mul(P[k - 1], D), inv(P[k])))
    return maps


def run(c):
    r, ops = c.rng, []
    rank = lambda M: ops.append({"op": "rank", "x": fr(M)})
    for v in product((-1, 0, 1), repeat=4):
        rank([v[:2], v[2:]])
    for v in product((0, 1), repeat=6):
        rank([v[:3], v[3:]])
        rank([v[:2], v[2:4], v[4:]])
    for v in product((-1, 0, 1), repeat=3):
        rank([v])
        rank([[x] for x in v])
    for v in product((0, 1), repeat=9):
        rank([v[:3], v[3:6], v[6:]])
    if c.thorough:
        for v in product((-1, 0, 1), repeat=9):
            rank([v[:3], v[3:6], v[6:]])
        for v in product((0, 1), repeat=12):
            rank([v[:4], v[4:8], v[8:]])
            rank([v[:3], v[3:6], v[6:9], v[9:]])
    for _ in range(c.pick(700, 8000)):
        n, m = r.randint(1, 6), r.randint(1, 6)
        k = r.random()
        if k < .3:
            p = r.choice([.15, .3, .6, 1])
            M = [[F(r.randint(-4, 4), r.choice([1, 1, 2, 3])) if r.random() < p else 0 for _ in range(m)] for _ in range(n)]
        elif k < .6:
            M = low_rank(r, n, m, r.randint(1, min(n, m)))
        elif k < .8:   # a permuted, shifted partial identity: leading entries vanish
            M = [[0] * m for _ in range(n)]
            for i, j in zip(r.sample(range(n), n), r.sample(range(m), m)):
                if r.random() < .7:
                    M[i][j] = r.choice([1, -1, 2, F(1, 3)])
            if r.random() < .5:
                i, j = r.randrange(n), r.randrange(m)
                M[i][j] += 1
        else:          # zero leading block
            a, b = r.randint(0, n), r.randint(0, m)
            M = [[0 if i < a and j < b else r.choice([-1, 0, 1, 2]) for j in range(m)] for i in range(n)]
        rank(M)
    for _ in range(c.pick(40, 400)):    # tall and wide, sparse
        n, m = r.choice([(3, 25), (25, 3), (12, 20), (20, 12), (15, 15)])
        rank([[r.choice([-1, 1]) if r.random() < 1.5 / min(n, m) else 0 for _ in range(m)] for _ in range(n)])
    for _ in range(c.pick(150, 1500)):
        if r.random() < .5:
            maps = simplicial(r, r.randint(1, 6), 3, [r.random() for _ in range(4)])
        else:
            maps = algebraic(r)
        ops.append({"op": "betti", "maps": [fr(M) for M in maps]})
    ops.append({"op": "betti", "maps": []})
    r.shuffle(ops)
    sc = [{"kind": "rank", "ops": ops[i:i + 40]} for i in range(0, len(ops), 40)]
    c.conform(sc, "Ranks_Trace", "Ranks_Trace.cfg", "ranks", need=("rank", "betti"))
