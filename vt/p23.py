"""Eigenvalues, eigenvectors and the orthogonal reductions that lead to them."""
from .numeric import *


def start(c):
    c.design("Spectra_MC", "Spectra_MC.cfg", workers=1)
    c.design("Spectra_MC", "Spectra_MC3.cfg" if c.thorough else "Spectra_MC2.cfg", workers=1, timeout=850)


def norm(a):
    return max(sum(map(abs, x)) for x in a + transpose(a))


def split(r, n, bound):
    """an integer matrix with real eigenvalues that are well apart, not symmetric"""
    while True:
        vals = r.sample(range(-5, 6), n)
        d = [[vals[i] if i == j else 0 for j in range(n)] for i in range(n)]
        if n > 1 and r.random() < .5:    # a two by two block with irrational eigenvalues
            b = r.choice([[[0, 2], [1, 0]], [[1, 1], [1, 0]], [[2, 1], [1, 0]], [[0, 3], [1, 0]], [[-1, 1], [3, 0]], [[1, 2], [2, -1]]])
            k = r.randrange(n - 1)
            for i in range(2):
                for j in range(2):
                    d[k + i][k + j] = b[i][j]
            t, q = b[0][0] + b[1][1], b[0][0] * b[1][1] - b[0][1] * b[1][0]
            roots = [(t - (t * t - 4 * q) ** .5) / 2, (t + (t * t - 4 * q) ** .5) / 2]
            rest = [vals[i] for i in range(n) if i not in (k, k + 1)]
            e = sorted(roots + rest)
            if any(y - x < .05 for x, y in zip(e, e[1:])):
                continue
        p, q = unimodular(r, n, r.randint(0, n + 1))
        a = mul(mul(p, d), q)
        s = signed_perm(r, n)
        a = mul(mul(s, a), transpose(s))
        if norm(a) <= bound:
            return a


def small(r, n, k):
    """a random matrix of size two or three with simple real eigenvalues"""
    while True:
        a = rnd(r, n, k=k)
        t = sum(a[i][i] for i in range(n))
        if n == 2:
            if t * t - 4 * det(a) >= 1:
                return a
        else:
            q = sum(a[i][i] * a[j][j] - a[i][j] * a[j][i] for i in range(3) for j in range(i))
            b, cc, d = -t, q, -det(a)
            if 18 * b * cc * d - 4 * b ** 3 * d + b * b * cc * cc - 4 * cc ** 3 - 27 * d * d >= 5:
                return a


def laplacian(r, n):
    m = [[0] * n for _ in range(n)]
    w = r.choice([1, 1, 3])
    for i in range(n):
        for j in range(i):
            if r.random() < .6:
                m[i][j] = m[j][i] = -r.randint(1, w)
    for i in range(n):
        m[i][i] = -sum(m[i])
    return m


def special(r, n):
    """symmetric, with a structure that iterations stumble over"""
    x = r.randint(0, 7)
    m = [[0] * n for _ in range(n)]
    if x == 0:
        return laplacian(r, n)
    if x == 1:
        for i in range(n - 1):
            m[i][i + 1] = m[i + 1][i] = r.choice([-1, 1, 1, 2])
        if r.random() < .5:
            for i in range(n):
                m[i][i] = r.randint(-2, 2)
    elif x == 2:
        for i in range(n):
            for j in range(n):
                m[i][j] = 1 if i + j == n - 1 else 0
    elif x == 3:
        for i in range(n):
            m[i][i] = r.randint(-3, 3)
    elif x == 4:
        v = [r.randint(-2, 2) for _ in range(n)]
        m = [[a * b for b in v] for a in v]
    elif x == 7:      # tridiagonal, with a gap in it
        k = r.choice([1, 1, 2, 3, n - 2])
        for i in range(n):
            m[i][i] = r.randint(-3, 3)
            if 0 < i != k:
                m[i][i - 1] = m[i - 1][i] = r.choice([-3, -2, -1, 1, 2])
    elif x == 5:      # two blocks
        k = r.randint(0, n)
        a = sym(r, n, 2)
        m = [[a[i][j] if (i < k) == (j < k) else 0 for j in range(n)] for i in range(n)]
    else:
        for i in range(1, n):
            m[0][i] = m[i][0] = r.choice([0, 1, -1, 2])
    return m


def hess(r, n, k):
    return [[r.randint(-k, k) if i <= j + 1 else 0 for j in range(n)] for i in range(n)]


def run(c):
    r, sc = c.rng, []

    def add(ops):
        sc.append({"kind": "nu", "ops": ops})

    def den():
        return r.choice([1, 1, 1, 2, 4])

    def symmetric(n):
        return special(r, n) if r.random() < .5 else sym(r, n, r.choice([1, 2, 3]))

    def simple(n):
        while True:
            a = symmetric(n)
            if apart(a):
                return a

    def pad():
        return [r.choice([0, 0, 1, 2]) for _ in range(4)]
    for _ in range(c.pick(600, 4000)):
        n = r.choice([1, 2, 3, 3, 4, 4, 5])
        a = split(r, n, 24) if r.random() < .7 or n not in (2, 3) else small(r, n, 3)
        add([{"op": r.choice(["spectrum", "inv"]), "m": a, "den": den()}])
    for _ in range(c.pick(600, 4000)):
        n = r.choice([1, 2, 3, 3, 4, 4, 5])
        add([{"op": "spectrum_sym", "m": symmetric(n), "den": den()}])
        add([{"op": "spectrum", "m": simple(n), "den": den()}])
    for _ in range(c.pick(600, 4000)):
        n = r.choice([1, 2, 3, 3, 4, 4, 5])
        a = simple(n)
        add([r.choice([{"op": "inv", "m": a, "den": den()}, {"op": "invs", "m": a, "den": den()},
                       {"op": "small", "m": a, "den": den(), "k": r.randint(1, n)}, {"op": "nth", "m": a, "den": den(), "k": r.randrange(n)}])])
    for _ in range(c.pick(250, 1500)):
        n = r.choice([1, 2, 3, 4, 4, 5])
        a = r.choice([lambda: rnd(r, n, k=3), lambda: hess(r, n, 3), lambda: split(r, n, 24), lambda: special(r, n)])()
        add([{"op": "hess", "m": a, "den": den(), "pad": pad()}])
        add([{"op": "tridiag", "m": symmetric(n), "den": den()}])
    for _ in range(c.pick(400, 2000)):
        n = r.choice([1, 2, 3, 4, 4, 5, 6])
        add([{"op": "symqr", "m": symmetric(n), "den": den()}])
        a = r.choice([lambda: rnd(r, n, k=r.choice([1, 3])), lambda: hess(r, n, 3), lambda: special(r, n), lambda: signed_perm(r, n)])()
        add([{"op": "qr", "m": a, "den": den(), "pad": pad()}])
    for _ in range(c.pick(250, 1200)):
        n = r.choice([3, 3, 4, 5, 6])
        a = hess(r, n, r.choice([1, 3]))
        if r.random() < .5:
            for i in range(n - 1):
                a[i + 1][i] = a[i + 1][i] or 1
        add([{"op": "francis", "m": a, "den": den(), "pad": pad()}])
        n = r.choice([2, 3, 4, 5])
        m = [[0] * n for _ in range(n)]
        for i in range(n):
            m[i][i] = r.randint(-3, 3)
            if i:
                m[i][i - 1] = m[i - 1][i] = r.choice([-3, -2, -1, 1, 2, 3])
        add([{"op": "wilkinson", "m": m, "den": den(), "pad": pad()}])
    for _ in range(c.pick(60, 500)):       # large entries
        n = r.choice([1, 2, 2, 2, 3, 3])
        k = r.choice([9, 30, 100] if n < 3 else [5, 12, 20])
        a = [[k * x for x in y] for y in (small(r, n, 3) if n > 1 else [[r.randint(-9, 9)]])]
        add([{"op": r.choice(["spectrum", "inv"]), "m": a, "den": den()}])
        a = [[k * x for x in y] for y in sym(r, n, 3)]
        add([{"op": "spectrum_sym", "m": a, "den": den()}])
        if apart(a):
            add([{"op": r.choice(["spectrum", "inv", "invs"]), "m": a, "den": den()}])
    for _ in range(c.pick(60, 300)):        # more rows
        n = r.choice([6, 7, 7, 8])
        a = r.choice([lambda: rnd(r, n, k=2), lambda: special(r, n), lambda: hess(r, n, 2)])()
        add([{"op": "hess", "m": a, "den": den(), "pad": pad()}])
        add([{"op": "qr", "m": a, "den": den(), "pad": pad()}])
        add([{"op": r.choice(["tridiag", "symqr", "symqr"]), "m": symmetric(n), "den": den()}])
    c.conform(sc, "Spectra_Trace", "Spectra_Trace.cfg", "spectra", ncorrupt=40, corruptor=lambda q, e: shake(q, e),
              need=("spectrum", "spectrum_sym", "inv", "invs", "small", "nth", "hess", "tridiag", "symqr", "qr", "francis", "wilkinson"),
              weight=lambda evs: sum(len(e["m"]) ** 4 + 5 for e in evs))
