"""Formal sums as canonical elements of a free module."""
from fractions import Fraction as F
REG = "abcdef"


def start(c):
    c.design("FormalSums", "FormalSums_MC.cfg", workers=3)


class Sim:
    """Only bounds magnitudes, so that exact coefficients stay within the checker's integers."""
    def __init__(self):
        self.v = {q: {} for q in REG}

    def ok(self, f):
        return all(abs(x.numerator) < 3000 and x.denominator < 300 for x in f.values())


def add(f, g, s=1):
    h = dict(f)
    for b, x in g.items():
        h[b] = h.get(b, 0) + s * x
        if h[b] == 0:
            del h[b]
    return h


def hist(r, kind, depth, nb, ties):
    m, ops = Sim(), []
    # ties: many sums over few basis elements, so that leading elements coincide and cancel
    bas = lambda: r.randint(0, nb - 1)

    def put(op, q, f):
        if m.ok(f):
            m.v[q] = f
            ops.append(op)
    for _ in range(depth):
        q, a, b = (r.choice(REG) for _ in range(3))
        k = r.random()
        x = bas()
        if k < .03:
            put({"op": "zero", "r": q}, q, {})
        elif k < .2:
            bs = [bas() for _ in range(r.randint(1, 4) if r.random() < .5 else r.randint(0, 9 if nb < 100 else 90))]
            f = {}
            for y in bs:
                f = add(f, {y: F(1)})
            put({"op": r.choice(["list", "iter"] + (["array"] if 1 <= len(bs) <= 4 else [])), "r": q, "bs": bs}, q, f)
        elif k < .24:
            put({"op": "single", "r": q, "x": x}, q, {x: F(1)})
        elif k < .36:
            put({"op": "add", "r": q, "a": a, "b": b}, q, add(m.v[a], m.v[b]))
        elif k < .48:
            put({"op": "sub", "r": q, "a": a, "b": b}, q, add(m.v[a], m.v[b], -1))
        elif k < .53:
            put({"op": "neg", "r": q, "a": a}, q, add({}, m.v[a], -1))
        elif k < .6:
            t = F(r.choice([-3, -2, -1, 0, 1, 2, 3, 5]), r.choice([1, 2, 3, 4]) if kind == "vq" else 1)
            put({"op": "mul", "r": q, "a": a, "k": [t.numerator, t.denominator]}, q, {y: z * t for y, z in m.v[a].items() if t})
        elif k < .65 and kind == "vq":
            t = F(r.choice([-3, -2, -1, 0, 1, 2, 3]), r.choice([1, 1, 2, 3]))
            if t == 0:
                ops.append({"op": "div", "r": q, "a": a, "k": [0, 1]})
            else:
                put({"op": "div", "r": q, "a": a, "k": [t.numerator, t.denominator]}, q, {y: z / t for y, z in m.v[a].items()})
        elif k < .7:
            s = r.choice([1, -1])
            put({"op": "addb" if s == 1 else "subb", "r": q, "a": a, "x": x}, q, add(m.v[a], {x: F(1)}, s))
        elif k < .88:
            xs = [r.choice(REG) for _ in range(r.choice([0, 1, 2, 3, 3, 4, 5, 6, 7, 8, 12, 17]))]
            f = {}
            for y in xs:
                f = add(f, m.v[y])
            put({"op": "sum", "r": q, "as": xs}, q, f)
        elif k < .91:
            j = r.randint(0, len(m.v[q])) if r.random() < .2 else r.randint(0, max(0, len(m.v[q]) - 1))
            ops.append({"op": "remove", "r": q, "j": j})
            if j < len(m.v[q]):
                del m.v[q][sorted(m.v[q])[j]]
        elif k < .94:
            ops.append({"op": "coef", "a": a, "x": x})
        elif k < .97 or kind != "vo":
            ops.append({"op": "eq", "a": a, "b": b})
        if kind == "vo" and r.random() < .15:
            y = bas()
            z = r.choice(["badd", "bsub", "bb", "bmul", "bneg"])
            if z in ("badd", "bsub"):
                put({"op": z, "r": q, "a": a, "x": x}, q, add({x: F(1)}, m.v[a], 1 if z == "badd" else -1))
            elif z == "bb":
                f = r.choice(["add", "sub"])
                put({"op": z, "r": q, "x": x, "y": y, "f": f}, q, add({x: F(1)}, {y: F(1)}, 1 if f == "add" else -1))
            elif z == "bmul":
                t = r.randint(-3, 3)
                put({"op": z, "r": q, "x": x, "k": [t, 1]}, q, {x: F(t)} if t else {})
            else:
                put({"op": z, "r": q, "x": x}, q, {x: F(-1)})
    return {"kind": kind, "ops": ops}


def run(c):
    r, sc = c.rng, []
    for kind in ("vs", "vo", "vq"):
        for nb, n in ((2, 20), (4, 40), (9, 40), (25, 20)):
            sc += [hist(r, kind, c.pick(40, 80), nb, True) for _ in range(c.pick(n, 10 * n))]
        sc += [hist(r, kind, 25, r.choice([100, 300]), True) for _ in range(c.pick(4, 40))]      # many terms
    c.conform(sc, "FormalSums_Trace", "FormalSums_Trace.cfg", "sums",
              need=("zero", "list", "array", "iter", "single", "add", "sub", "neg", "mul", "div", "div!panic", "addb", "subb",
                    "badd", "bsub", "bb", "bmul", "bneg", "sum", "remove", "remove!panic", "coef", "coef!panic", "eq"))
