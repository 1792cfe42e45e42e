"""Matrices for the checks of the floating point routines."""


def rnd(r, n, m=None, k=3):
    return [[r.randint(-k, k) for _ in range(n if m is None else m)] for _ in range(n)]


def sym(r, n, k=3):
    a = rnd(r, n, k=k)
    return [[a[max(i, j)][min(i, j)] for j in range(n)] for i in range(n)]


def det(a):
    """exact determinant (Bareiss)"""
    a, n, s, p = [list(x) for x in a], len(a), 1, 1
    for i in range(n):
        k = next((k for k in range(i, n) if a[k][i]), None)
        if k is None:
            return 0
        if k != i:
            a[i], a[k], s = a[k], a[i], -s
        for k in range(i + 1, n):
            for j in range(i + 1, n):
                a[k][j] = (a[k][j] * a[i][i] - a[k][i] * a[i][j]) // p
            a[k][i] = 0
        p = a[i][i]
    return s * p


def mul(a, b):
    return [[sum(x * y for x, y in zip(row, col)) for col in zip(*b)] for row in a]


def gram(a):
    return mul(list(map(list, zip(*a))), a)


def full(r, n, m, k):
    """integer matrix with independent columns"""
    while True:
        a = rnd(r, n, m, k)
        if det(gram(a)):
            return a


def unimodular(r, n, steps):
    """an integer matrix of determinant one and its inverse"""
    p = [[int(i == j) for j in range(n)] for i in range(n)]
    q = [x[:] for x in p]
    if n > 1:
        for _ in range(steps):
            i, j = r.sample(range(n), 2)
            c = r.choice([-1, 1])
            for k in range(n):
                p[i][k] += c * p[j][k]
            for k in range(n):
                q[k][j] -= c * q[k][i]
    return p, q


def signed_perm(r, n):
    o = r.sample(range(n), n)
    return [[r.choice([-1, 1]) if o[i] == j else 0 for j in range(n)] for i in range(n)]


def transpose(a):
    return list(map(list, zip(*a)))


def jacobi(a):
    """approximate eigenvalues of a symmetric matrix, to tell whether they are well apart"""
    a, n = [list(map(float, x)) for x in a], len(a)
    for _ in range(60):
        for p in range(n):
            for q in range(p + 1, n):
                if abs(a[p][q]) < 1e-14:
                    continue
                t = (a[q][q] - a[p][p]) / (2 * a[p][q])
                t = (1 if t >= 0 else -1) / (abs(t) + (t * t + 1) ** .5)
                c = 1 / (t * t + 1) ** .5
                s = t * c
                for k in range(n):
                    x, y = a[k][p], a[k][q]
                    a[k][p], a[k][q] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = a[p][k], a[q][k]
                    a[p][k], a[q][k] = c * x - s * y, s * x + c * y
    return sorted(a[i][i] for i in range(n))


def apart(a, gap=.05):
    e = jacobi(a)
    return all(y - x > gap for x, y in zip(e, e[1:]))


def shake(r, evs):
    """change one recorded number by at least a hundredth"""
    import copy
    evs = copy.deepcopy(evs)
    idx = [i for i, e in enumerate(evs) if e.get("out") == "ok"]
    r.shuffle(idx)
    for i in idx:
        found = []

        def walk(x):
            if isinstance(x, list):
                if len(x) == 2 and all(isinstance(y, int) and not isinstance(y, bool) for y in x) and 0 <= x[1] < 10 ** 8:
                    found.append(x)
                else:
                    for y in x:
                        walk(y)
            elif isinstance(x, dict):
                for k in sorted(x):
                    if k == "u":      # a witness
                        continue
                    if k == "v" and "w" in x and (x["b"] == [0, 0] or any(abs(y[0][0]) > 50 for y in x[k])):      # free, or checked relative to its length
                        continue
                    if k == "t0" and evs[i]["op"] == "qr":      # only the diagonal blocks are claimed
                        walk([x[k][j][j] for j in range(len(x[k]))])
                        continue
                    walk(x[k])
        x = evs[i]["ret"]
        if evs[i]["op"] == "symmetric":      # random: the diagonal is free
            walk([[y for j, y in enumerate(row) if j != k] for k, row in enumerate(x)])
        else:
            walk(x)
        if found:
            x = r.choice(found)
            if r.random() < .5:
                x[0] += r.choice([-1, 1])
            else:
                d = r.choice([-1, 1]) * r.randint(10 ** 6, 5 * 10 ** 7)
                x[0], x[1] = x[0] + (x[1] + d) // 10 ** 8, (x[1] + d) % 10 ** 8
            return evs[:i + 1]
    return None
