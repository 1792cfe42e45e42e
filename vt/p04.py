"""Rational arithmetic: register-machine histories with small exact values, zeros and negatives included."""
from fractions import Fraction as F
from math import gcd
from .p03 import big


def start(c):
    c.design("Rationals_MC", "Rationals_MC.cfg")
    c.design("BigInt_MC", "BigInt_MC.cfg")

LIM = 30000


def small(v):
    return abs(v.numerator) <= LIM and v.denominator <= LIM


def hist(r, depth, span):
    ops, reg = [], {}

    def new(q):
        n, d = r.randint(-span, span), r.choice([x for x in range(-span, span + 1) if x])
        k = r.choice([1, 1, 2, 6, -1, -3])
        if r.random() < .2:
            n = 0
        ops.append({"op": "new", "r": q, "n": big(n * k), "d": big(d * k)})
        reg[q] = F(n, d)
    for q in "abc":
        new(q)
    for _ in range(depth):
        q, a, b = r.choice("abc"), r.choice("abc"), r.choice("abc")
        k = r.random()
        A, B = reg[a], reg[b]
        if k < .12:
            new(q)
        elif k < .16:
            o = r.choice(["zero", "one", "int"])
            if o == "int":
                n = r.randint(-span, span)
                ops.append({"op": "int", "r": q, "n": big(n)})
                reg[q] = F(n)
            else:
                ops.append({"op": o, "r": q})
                reg[q] = F(int(o == "one"))
        elif k < .18:
            ops.append({"op": "new", "r": q, "n": big(r.randint(-3, 3)), "d": big(0)})   # refused
        elif k < .60:
            o = r.choice(["add", "sub", "mul", "div", "addas", "subas", "mulas", "divas"])
            if o[:3] == "div" and B == 0:
                ops.append({"op": o, "r": q, "a": a, "b": b})
                continue
            v = A + B if o[:3] == "add" else A - B if o[:3] == "sub" else A * B if o[:3] == "mul" else A / B
            if not small(v):
                new(q)
                continue
            ops.append({"op": o, "r": q, "a": a, "b": b})
            reg[q] = v
        elif k < .66:
            ops.append({"op": "neg", "r": q, "a": a})
            reg[q] = -A
        elif k < .69:
            ops.append({"op": "abs", "r": q, "a": a})
            reg[q] = abs(A)
        elif k < .76:
            o = r.choice(["sum", "prod"])
            xs = [r.choice("abc") for _ in range(r.randint(0, 4))]
            v, ok = F(int(o == "prod")), True
            for x in xs:
                v = v + reg[x] if o == "sum" else v * reg[x]
                ok = ok and small(v)
            for i in range(len(xs)):      # the specification folds from the other end
                w = sum((reg[x] for x in xs[i:]), F(0))
                if o == "prod":
                    w = F(1)
                    for x in xs[i:]:
                        w *= reg[x]
                ok = ok and small(w)
            if ok:
                ops.append({"op": o, "r": q, "xs": xs})
                reg[q] = v
        elif k < .90:
            ops.append({"op": "cmp", "r": q, "a": a, "b": b})
        elif k < .94:
            o = r.choice(["max", "min"])
            ops.append({"op": o, "r": q, "a": a, "b": b})
            reg[q] = max(A, B) if o == "max" else min(A, B)
        elif k < .97:
            ops.append({"op": "tofloat", "r": q, "a": a})
        elif B != 0 and small(A / B):
            ops.append({"op": "field", "r": q, "a": a, "b": b})
    return {"kind": "rat", "ops": ops}


def run(c):
    r, sc = c.rng, []
    # all pairs of small rationals under every binary operation and comparison
    vals = sorted({F(n, d) for n in range(-4, 5) for d in (1, 2, 3, 4)} | {F(n) for n in (-7, 9)})
    if c.thorough:
        vals = sorted(set(vals) | {F(n, d) for n in range(-8, 9) for d in (1, 2, 3, 4, 5, 6)})
    for A in vals:
        ops = []
        for B in vals:
            ops += [{"op": "new", "r": "a", "n": big(A.numerator * 2), "d": big(A.denominator * 2)},
                    {"op": "new", "r": "b", "n": big(-B.numerator), "d": big(-B.denominator)}]
            ops += [{"op": o, "r": "c", "a": "a", "b": "b"} for o in ("add", "sub", "mul", "div", "cmp")]
            ops += [{"op": "neg", "r": "c", "a": "c"}, {"op": "cmp", "r": "c", "a": "c", "b": "a"},
                    {"op": "add", "r": "c", "a": "c", "b": "b"}]
        sc.append({"kind": "rat", "ops": ops})
    sc += [hist(r, c.pick(60, 120), s) for s in (2, 5, 12, 60) for _ in range(c.pick(50, 500))]
    def bv():
        k = r.choice([5, 14, 16, 20, 29, 30])
        return r.choice([1, -1]) * (r.choice([2 ** k, 2 ** k - 1, r.getrandbits(k)]) or 1)
    for _ in range(c.pick(100, 1500)):
        ops = []
        for _ in range(8):
            an, ad, bn, bd = bv(), bv(), bv(), bv()
            if r.random() < .2:
                m = max(abs(bn), abs(bd))
                k = r.choice([1, -1]) * r.randint(1, max(1, 2 ** 30 // m))
                an, ad = bn * k, bd * k            # equal or opposite values
            if r.random() < .2:
                ad = bd
            if r.random() < .3:                    # values closer than a double can tell apart
                an, ad = r.randrange(2 ** 28, 2 ** 29), r.randrange(2 ** 28, 2 ** 29)
                g = gcd(an, ad)
                an, ad = an // g, ad // g
                bd = pow(an, -1, ad) if ad > 1 else 1  # neighbours: an * bd - bn * ad = 1
                bn = (an * bd - 1) // ad
                if bn < 2 ** 20 or bd < 2 ** 20:
                    bn, bd = bn + an, bd + ad
                if r.random() < .4:
                    an, ad, bn, bd = bn, bd, an, ad
                s1, s2 = r.choice([1, -1]), r.choice([1, -1])
                an, ad, bn, bd = an * s1 * s2, ad * s1, bn * s2, bd
            ops.append({"op": "bigq", "f": r.choice(["add", "sub", "mul", "div"]), "an": big(an), "ad": big(ad),
                        "bn": big(bn), "bd": big(bd)})
        sc.append({"kind": "rat", "ops": ops})
    c.conform(sc, "Rationals_Trace", "Rationals_Trace.cfg", "rationals",
              need=("new", "new!panic", "int", "zero", "one", "add", "sub", "mul", "div", "div!panic", "neg", "abs", "sum", "prod",
                    "cmp", "max", "min", "tofloat", "field", "bigq"),
              only=("add", "sub", "mul", "div", "cmp", "neg", "sum", "prod"))
