"""Delaunay triangulations of points in general position, and the circumcircle test."""
from itertools import combinations, permutations
from math import cos, gcd, pi, sin
from .plane import *


def start(c):
    c.design("Delaunay_MC", "Delaunay_MC5.cfg" if c.thorough else "Delaunay_MC.cfg", workers=3, timeout=850)


def drawer(r, k, g):
    def far(ps):      # next to a point that is there already
        if ps and r.random() < .6:
            q = r.choice(ps)
            return [q[0] + r.randint(-2, 2), q[1] + r.randint(-2, 2)]
        return [r.randint(-g, g), r.randint(-g, g)]

    def draw(ps):
        if k == 0:
            return [r.randint(-g, g), r.randint(-g, g)]
        if k == 1:    # flat
            return [r.randint(-g, g), r.randint(0, 3)]
        if k == 2:    # a flat arc
            x = r.randint(-g, g)
            return [x, x * x // (2 * g) + r.randint(0, 1)]
        if k == 3:    # along a diagonal
            x = r.randint(-g, g)
            return [x, x + r.randint(0, 3)]
        if k == 4:    # upright
            return [r.randint(0, 3), r.randint(-g, g)]
        if k == 5:    # nearly on a circle
            while True:
                p = [r.randint(-g, g), r.randint(-g, g)]
                if abs(p[0] ** 2 + p[1] ** 2 - g * g) < 3 * g:
                    return p
        if k >= 7 and len(ps) > 1 and r.random() < .7:      # on a line through two points
            a, b = r.sample(ps, 2)
            d = gcd(b[0] - a[0], b[1] - a[1])
            u, v = (b[0] - a[0]) // d, (b[1] - a[1]) // d
            if k == 8:      # aligned with, or across one of the directions of the vertices at infinity
                u, v = r.choice([(1, 0), (0, 1)])
            t = r.randint(-9, 9)
            q = [a[0] + t * u, a[1] + t * v]
            if max(map(abs, q)) <= 2 * g:       # within what doubles can tell
                return q
        return far(ps)
    return draw


def almost(r, g):
    """a well-shaped triangle and points as close to its circumcircle as doubles can tell (and the grid allows)"""
    while True:
        t = [[r.randint(-g, g), r.randint(-g, g)] for _ in range(3)]
        o = orient(*t)
        (ax, ay), (bx, by), (cx, cy) = t
        if not o:
            continue
        a2, b2, c2 = ax * ax + ay * ay, bx * bx + by * by, cx * cx + cy * cy
        ux = (a2 * (by - cy) + b2 * (cy - ay) + c2 * (ay - by)) / (2 * o)
        uy = (a2 * (cx - bx) + b2 * (ax - cx) + c2 * (bx - ax)) / (2 * o)
        rad = ((ax - ux) ** 2 + (ay - uy) ** 2) ** .5
        if abs(o) < .5 * rad * rad or rad > g:
            continue
        found = []
        for _ in range(g):
            w = r.uniform(0, 2 * pi)
            q = [round(ux + rad * cos(w)), round(uy + rad * sin(w))]
            d = incircle(*t, q)
            if abs(d) > 2e-11 * abs(o) * rad * rad:
                found.append((abs(d), q))
        found.sort()
        found = [q for i, (_, q) in enumerate(found) if q not in t and (i == 0 or found[i - 1][1] != q)]
        if len(found) > 3:
            return t, found[:4]


def splits(ps, q):
    """every triangle and fourth point among ps and q, with q in them"""
    for a, b, d in combinations(ps, 3):
        for k in range(4):
            z = [a, b, d, q]
            x = z.pop(k)
            yield z, x


def told(t, p):
    """whether rounding cannot hide on which side of the circumcircle of t the point p is"""
    s = [(t[i][0] - t[j][0]) ** 2 + (t[i][1] - t[j][1]) ** 2 for i, j in ((0, 1), (0, 2), (1, 2))]
    rr = s[0] * s[1] * s[2] / (4 * orient(*t) ** 2)
    return abs(incircle(*t, p)) > 2e-12 * max(s) * rr


def place(r):
    s = r.choice([0, 0, 0, -4, 4, -20])
    return {"s": s, "dx": r.choice([0, 0, -20, 300]) if s > -10 else 0, "dy": r.choice([0, 0, 17, -500]) if s > -10 else 0}


def run(c):
    r, sc = c.rng, []
    for _ in range(c.pick(1800, 12000)):
        n = r.choice([0, 1, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9, 10])
        ps = general(r, n, drawer(r, r.randint(0, 8), r.choice([3, 5, 8, 15, 30, 40])))
        sc.append({"kind": "dt", "ops": [{"op": "delaunay", "pts": ps, **place(r)}]})
    for _ in range(c.pick(60, 500)):
        ps = general(r, r.randint(12, 24 if c.thorough else 18), drawer(r, r.choice([0, 0, 2, 5, 6, 7, 8]), 40))
        sc.append({"kind": "dt", "ops": [{"op": "delaunay", "pts": ps, **place(r)}]})
    for _ in range(c.pick(12, 120)):
        ps = general(r, r.randint(20, 32), drawer(r, r.choice([0, 0, 2, 7, 8]), 40))
        sc.append({"kind": "dt", "ops": [{"op": "delaunay", "pts": ps, **place(r)}]})
    for _ in range(c.pick(40, 300)):   # every order of insertion
        ps = general(r, 4, drawer(r, r.randint(0, 8), r.choice([4, 10, 40])))
        at = place(r)
        sc.append({"kind": "dt", "ops": [{"op": "delaunay", "pts": list(q), **at} for q in r.sample(list(permutations(ps)), c.pick(6, 24 if len(ps) == 4 else 1))
                                         ] if len(ps) == 4 else [{"op": "delaunay", "pts": ps, **at}]})
    for _ in range(c.pick(300, 3000)):
        g = r.choice([3, 6, 12, 30])
        while True:
            t = [[r.randint(-g, g), r.randint(-g, g)] for _ in range(3)]
            if orient(*t):
                break
        qs = []
        for _ in range(6):
            if r.random() < .3:
                a = r.choice(t)
                q = [a[0] + r.randint(-1, 1), a[1] + r.randint(-1, 1)]
            else:
                q = [r.randint(-g, g), r.randint(-g, g)]
            if incircle(*t, q):
                qs.append(q)
        if qs:
            sc.append({"kind": "dt", "ops": [{"op": "circle", "pts": t + qs, **place(r)}]})
    for _ in range(c.pick(200, 2000)):
        t, qs = almost(r, r.choice([15, 40, 40, 300, 300, 600]))
        sc.append({"kind": "dt", "ops": [{"op": "circle", "pts": t + qs, **place(r)}]})
        ps = [*t]
        for q in qs:
            if extend(ps, q) and all(told(x, y) for x, y in splits(ps, q)):
                ps.append(q)
        r.shuffle(ps)
        sc.append({"kind": "dt", "ops": [{"op": "delaunay", "pts": ps, **place(r)}]})
    c.conform(sc, "Delaunay_Trace", "Delaunay_Trace.cfg", "planar", need=("delaunay", "circle"), ncorrupt=30,
              weight=lambda evs: sum(len(e["pts"]) ** 3 + 10 for e in evs))
