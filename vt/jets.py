"""Truncated Taylor expansions: used to generate programs whose values are defined and of moderate size.
The judge is spec/Symbolic.tla; this only steers the generator."""
import math
from fractions import Fraction as Q
from itertools import product


class Undefined(Exception):
    pass


def ok(x):
    if isinstance(x, Q):
        if abs(x.numerator) > 20000 or x.denominator > 20000:
            raise Undefined
    elif not math.isfinite(x) or abs(x) > 400:
        raise Undefined
    return x


def mono(dim, k):
    return [a for a in product(range(k + 1), repeat=dim) if sum(a) <= k]


class Jet:
    """Taylor coefficients at one point, up to total degree k."""
    def __init__(s, dim, k, c):
        s.dim, s.k, s.c = dim, k, {a: ok(c.get(a, Q(0))) for a in mono(dim, k)}

    def cut(s, k):
        return s if k == s.k else Jet(s.dim, k, s.c)

    def val(s):
        return s.c[(0,) * s.dim]

    def __add__(s, t):
        k = min(s.k, t.k)
        return Jet(s.dim, k, {a: s.c[a] + t.c[a] for a in mono(s.dim, k)})

    def scale(s, q):
        return Jet(s.dim, s.k, {a: x * q for a, x in s.c.items()})

    def __mul__(s, t):
        k = min(s.k, t.k)
        c = {}
        for a in mono(s.dim, k):
            for b in mono(s.dim, k):
                if sum(a) + sum(b) <= k:
                    m = tuple(x + y for x, y in zip(a, b))
                    c[m] = c.get(m, Q(0)) + s.c[a] * t.c[b]
        return Jet(s.dim, k, c)

    def after(s, g):
        """The composition with a function of one variable with Taylor coefficients g(i)."""
        z = (0,) * s.dim
        h = Jet(s.dim, s.k, {**s.c, z: Q(0)})
        r = Jet(s.dim, s.k, {z: g(s.k)})
        for i in range(s.k - 1, -1, -1):
            r = r * h + Jet(s.dim, s.k, {z: g(i)})
        return r

    def power(s, e):
        u = s.val()

        def g(i):
            b = Q(1)
            for j in range(i):
                b = b * (e - j) / (j + 1)
            if b == 0:
                return Q(0)
            x = e - i
            if x.denominator == 1:
                if u == 0:
                    if x < 0:
                        raise Undefined
                    return b if x == 0 else Q(0)
                return b * ok(u) ** int(x)
            if not isinstance(u, Q) or u <= 0:
                raise Undefined
            v = u
            while x.denominator > 1:                     # denominators are powers of two
                n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if n * n != v.numerator or d * d != v.denominator:
                    raise Undefined
                v, x = Q(n, d), 2 * x
            return b * v ** int(x)
        return s.after(g)

    def wave(s, q):
        """sin for q = 0, cos for q = 1"""
        u = s.val()
        if not isinstance(u, Q) or u.denominator != 1 or abs(u) > 9:
            raise Undefined
        v = [math.sin(u), math.cos(u), -math.sin(u), -math.cos(u)] if u else [Q(0), Q(1), Q(0), Q(-1)]
        return s.after(lambda i: v[(q + i) % 4] / math.factorial(i))

    def d(s, n):
        if s.k == 0:
            raise Undefined
        c = {}
        for a, x in s.c.items():
            if a[n]:
                c[a[:n] + (a[n] - 1,) + a[n + 1:]] = x * a[n]
        return Jet(s.dim, s.k - 1, c)
