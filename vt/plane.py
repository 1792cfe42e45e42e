"""Integer points in general position."""


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def incircle(a, b, c, p):
    r = []
    for q in (a, b, c):
        x, y = q[0] - p[0], q[1] - p[1]
        r.append((x, y, x * x + y * y))
    (a1, a2, a3), (b1, b2, b3), (c1, c2, c3) = r
    return a1 * (b2 * c3 - b3 * c2) - a2 * (b1 * c3 - b3 * c1) + a3 * (b1 * c2 - b2 * c1)


def extend(ps, p, lines=False):
    """whether p keeps the points distinct, with no four on a circle, and no three on a line unless that is allowed"""
    n = len(ps)
    if p in ps:
        return False
    for i in range(n):
        for j in range(i):
            flat = orient(ps[i], ps[j], p) == 0
            if flat and not lines:
                return False
            for k in range(j):
                if not (flat and orient(ps[i], ps[j], ps[k]) == 0) and incircle(ps[i], ps[j], ps[k], p) == 0:
                    return False
    return True


def general(r, n, draw, tries=60):
    ps, lines = [], r.random() < .5
    for _ in range(n):
        for _ in range(tries):
            p = draw(ps)
            if extend(ps, p, lines):
                ps.append(p)
                break
    r.shuffle(ps)
    return ps
