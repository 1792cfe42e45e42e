"""Integer PID operations: exhaustive small operands, edges, big operands through exact limbs."""


def big(x):
    v = [(x > 0) - (x < 0)]
    m = abs(x)
    while m:
        v.append(m % 10000)
        m //= 10000
    return v


def start(c):
    c.design("Ints", "Ints_MC.cfg")
    c.design("BigInt_MC", "BigInt_MC.cfg")


def run(c):
    r, sc = c.rng, []

    def ev(ty, op, a, b=1):
        return {"op": op, "ty": ty, "a": a, "b": b}
    N = c.pick(40, 110)
    for a in range(-N, N + 1):
        ops = []
        for b in range(-N, N + 1):
            if b:
                ops.append(ev("i64", "euclid", a, b))
            ops.append(ev("i64", "bezout", a, b))
            if a:
                ops.append(ev("i64", "divides", a, b))
        sc.append({"kind": "int", "ops": ops})
    for ty, lim in [("i8", 127), ("i16", 1200), ("i32", 30000), ("i64", 30000), ("i128", 30000), ("isize", 30000)]:
        ops = []
        lim1 = 11 if ty == "i8" else 150 if ty == "i16" else lim   # cofactor products must fit the type
        for _ in range(c.pick(150, 1500)):
            a, b = r.randint(-lim, lim), r.randint(-lim, lim)
            if b:
                ops.append(ev(ty, "euclid", a, b))
            if a:
                ops.append(ev(ty, "divides", a, b))
                k = r.randint(-(lim // abs(a)), lim // abs(a))
                ops.append(ev(ty, "divides", a, a * k))
            a, b = r.randint(-lim1, lim1), r.randint(-lim1, lim1)
            ops.append(ev(ty, "bezout", a, b))
        sc.append({"kind": "int", "ops": ops})
        m = 127 if ty == "i8" else 400
        for lo in range(-m, m + 1, 50):
            sc.append({"kind": "int", "ops": [ev(ty, "unary", a) for a in range(lo, min(lo + 50, m + 1))]})
        if ty in ("i32", "i64", "i128", "isize"):      # two primes, neither of them small
            ps = [p for p in range(20, 174) if all(p % d for d in range(2, 14))]
            for _ in range(c.pick(2, 8)):
                xs = [r.choice(ps) * r.choice(ps) for _ in range(9)] + [ps[-1] ** 2, r.choice(ps) ** 2, r.choice([9973, 10007, 29989, 7919])]
                sc.append({"kind": "int", "ops": [ev(ty, "unary", a * r.choice([1, 1, -1])) for a in xs]})
        if ty != "i8":
            sq = [p * q for p in (2, 3, 5, 7, 11, 13, 17, 23, 29, 31) for q in (2, 7, 31, 37)] + [961, 1024, 997, 1009, 2, 3, 4]
            sc.append({"kind": "int", "ops": [ev(ty, "unary", a * s) for a in sq for s in (1, -1)]})
    # beyond 32 bits
    def rb():
        k = r.choice([10, 31, 32, 33, 40, 50, 60, 62])
        x = r.choice([2 ** k, 2 ** k - 1, 2 ** k + 1, r.getrandbits(k), r.getrandbits(k)])
        return r.choice([1, -1]) * min(x, 2 ** 62)
    for _ in range(c.pick(60, 600)):
        ops = []
        for _ in range(10):
            a, b = rb(), rb()
            g = r.choice([1, 1, 6, 1000003, 2 ** 20])
            if b:
                ops.append({"op": "bigeuclid", "a": big(a), "b": big(b)})
            a2, b2 = (a >> 22) * g, (b >> 22) * g
            if a2 and b2:
                ops.append({"op": "bigbezout", "a": big(a2), "b": big(b2)})
            d = a >> r.choice([0, 20, 40])
            if d:
                k, m = divmod(b, abs(d))
                if r.random() < .5:
                    k, m = b // abs(d), 0
                k = k if d > 0 else -k
                ops.append({"op": "bigdivides", "a": big(d), "b": big(d * k + m), "k": big(k), "m": big(m)})
        sc.append({"kind": "int", "ops": ops})
    c.conform(sc, "Ints_Trace", "Ints_Trace.cfg", "ints", fields=("ret",),
              only=("euclid", "bezout", "divides", "bigeuclid", "bigdivides"),
              need=("euclid", "bezout", "divides", "unary", "bigeuclid", "bigbezout", "bigdivides"))
