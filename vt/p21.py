"""Symbolic functions: values, derivatives, Jacobians."""
import copy
from .core import leaves
from .jets import Jet, Q, Undefined, ok

COEFS = [[-7, 1], [-6, 1], [8, 1], [2, 1], [-1, 1], [3, 1], [1, 2], [-3, 2], [1, 4], [-2, 1], [5, 1], [1, 1], [0, 1]]


EIGHTHS = [-16, -8, -4, 0, 4, 8, 12, 16, 16, 24, 1, 2, 3, 5, 6, 7, 9, -1, -2, -3, 14]
ROOTS = [Q(1), Q(1), Q(4), Q(1, 4), Q(16), Q(256), Q(1, 256), Q(9)]


class Program:
    """A program over functions of dim variables, with the expansions of its functions at some points."""
    def __init__(self, r, dim, pts, k):
        self.r, self.dim, self.pts, self.k = r, dim, pts, k
        self.fs = []
        self.ops = [{"op": "points", "dim": dim, "k": k, "pts": [[[x.numerator, x.denominator] for x in p] for p in pts]}]

    def jet(self, a):
        if a >= 0:
            return self.fs[a]
        n = -a - 1
        z = (0,) * self.dim
        return [Jet(self.dim, self.k, {z: p[n], z[:n] + (1,) + z[n + 1:]: Q(1)}) for p in self.pts]

    def const(self, v):
        return [Jet(self.dim, self.k, {(0,) * self.dim: Q(v)}) for _ in self.pts]

    def value(self, op):
        o = op["op"]
        if o in ("zero", "one"):
            return self.const(o == "one")
        if o == "x":
            return self.jet(-1 - op["c"])
        if o in ("sum", "product"):
            out = self.const(o == "product")
            for a in op["fs"]:
                out = [x + y if o == "sum" else x * y for x, y in zip(out, self.jet(a))]
            return out
        A = self.jet(op["a"])
        if "b" in op:
            B = self.jet(op["b"])
            return [{"a": lambda: x + y, "s": lambda: x + y.scale(Q(-1)), "m": lambda: x * y,
                     "d": lambda: x * y.power(Q(-1))}[o[0]]() for x, y in zip(A, B)]
        if o == "neg":
            return [x.scale(Q(-1)) for x in A]
        if o == "scale":
            return [x.scale(Q(*op["q"])) for x in A]
        if o == "unscale":
            return [x.scale(1 / Q(*op["q"])) for x in A]
        if o == "powi":
            return [x.power(Q(op["e"])) for x in A]
        if o == "powf":
            return [x.power(Q(op["e"], 8)) for x in A]
        if o in ("sin", "cos"):
            return [x.wave(int(o == "cos")) for x in A]
        if o == "d":
            return [x.d(op["n"]) for x in A]

    def push(self, op):
        try:
            v = self.value(op)
        except Undefined:
            return False
        self.fs.append(v)
        # certainly decided by the specification: for the self-test
        self.ops.append({**op, "sure": self.sure(len(self.fs) - 1)})
        return True

    def arg(self):
        r = self.r
        if not self.fs or r.random() < .3:
            return -1 - r.randrange(self.dim)
        return max(r.randrange(len(self.fs)), r.randrange(len(self.fs)))

    def draw(self, bias):
        r = self.r
        o = r.choices(["zero", "one", "x", "add", "sub", "mul", "div", "to", "neg", "scale", "unscale", "powi", "powf",
                       "sin", "cos", "sum", "product", "d"],
                      [.3, .7, 1, 3, 3, 4, 1.5, 1, 1, 1.5, .5, 1.5, 1, 1, 1, 1.5, 1.5, 2 * bias])[0]
        if o in ("zero", "one"):
            return {"op": o}
        if o == "x":
            return {"op": o, "c": r.randrange(self.dim)}
        if o == "to":
            return {"op": r.choice(["addto", "subto", "multo", "divto"]), "a": self.arg(), "b": self.arg()}
        if o in ("add", "sub", "mul", "div"):
            return {"op": o, "a": self.arg(), "b": self.arg()}
        if o in ("sum", "product"):
            return {"op": o, "fs": [self.arg() for _ in range(r.choice([0, 1, 2, 3, 3, 4]))]}
        if o == "scale":
            return {"op": o, "a": self.arg(), "q": r.choice(COEFS)}
        if o == "unscale":
            return {"op": o, "a": self.arg(), "q": r.choice(COEFS[:-1])}
        if o == "powi":
            return {"op": o, "a": self.arg(), "e": r.choice([-2, -1, 0, 1, 2, 2, 3] if r.random() < .8 else [-5, -4, -3, 4, 5, 6, 7, 8, 9, 12])}
        if o == "powf":
            return {"op": o, "a": self.arg(), "e": r.choice(EIGHTHS)}
        if o == "d":
            return {"op": o, "a": self.arg(), "n": r.randrange(self.dim)}
        return {"op": o, "a": self.arg()}

    def level(self, a):
        return self.k if a < 0 else self.fs[a][0].k

    def finish(self):
        r = self.r
        able = [a for a in range(len(self.fs)) if self.level(a) >= 1]
        for a in able[-3:]:
            for n in range(self.dim):
                self.push({"op": "d", "a": a, "n": n})
        if able:
            a = able[-1]
            if self.smooth(a):
                self.ops.append({"op": "jacobian", "a": a, "sure": self.sure(a)})
        fs = [a for a in [self.arg() for _ in range(r.randint(1, 3))] if self.level(a) >= 1 and self.smooth(a)]
        if fs:
            self.ops.append({"op": "multi", "fs": fs, "sure": all(self.sure(a) for a in fs)})

    def sure(self, a):
        return all(isinstance(y, Q) and abs(y) < 200 and y.denominator < 200 for x in self.jet(a) for y in x.c.values())

    def smooth(self, a):
        try:
            [j.d(n) for j in self.jet(a) for n in range(self.dim)]
            return True
        except Undefined:
            return False


def program(r, steps):
    dim = r.choice([1, 2, 2, 3]) if r.random() < .93 else r.choice([4, 5, 12])
    near = [Q(0), Q(0), Q(1), Q(1), Q(-1), Q(2)]
    pts = [[r.choice(near) for _ in range(dim)],
           [r.choice(near + [Q(1, 2), Q(3), Q(-2), Q(4)]) for _ in range(dim)]]
    if r.random() < .4:
        pts.append([r.choice([Q(1, 4), Q(3, 2), Q(-1, 2), Q(3), Q(5)]) for _ in range(dim)])
    roots = dim < 4 and r.random() < .3      # points at which real powers are rational
    if roots:
        pts = [[r.choice(ROOTS) for _ in range(dim)] for _ in pts]
    p = Program(r, dim, pts, r.choice([1, 2, 2, 3 if dim < 3 else 2]) if dim < 4 else 1)
    for _ in range(steps):
        if roots and r.random() < .4:
            p.push({"op": "powf", "a": p.arg(), "e": r.choice(EIGHTHS)})
        p.push(p.draw(r.choice([0, 1])))
    p.finish()
    return {"kind": "sf", "ops": p.ops}


def layered(r):
    """many pieces, then a sum or a product of them, then operations on the whole"""
    dim = r.choice([1, 2, 3])
    pool = r.choice([[Q(1), Q(2), Q(-1), Q(0), Q(1, 2)], [Q(1), Q(1), Q(-1), Q(2)], ROOTS])
    p = Program(r, dim, [[r.choice(pool) for _ in range(dim)] for _ in range(r.randint(1, 2))], r.choice([1, 1, 2]) if dim < 3 else 1)
    for _ in range(r.randint(3, 6)):
        a = r.randrange(-dim, len(p.fs))
        p.push(r.choice([{"op": "powi", "a": a, "e": r.choice([2, 3, -1, -2])}, {"op": "sin", "a": a}, {"op": "cos", "a": a},
                         {"op": "powf", "a": a, "e": r.choice(EIGHTHS)}, {"op": "scale", "a": a, "q": r.choice(COEFS[:-1])}, {"op": "x", "c": r.randrange(dim)},
                         {"op": "one"}]))
    for _ in range(r.randint(1, 3)):
        n = len(p.fs)
        fs = [r.randrange(-dim, n) for _ in range(r.randint(2, 6))]
        if r.random() < .4:
            p.push({"op": r.choice(["sum", "product"]), "fs": fs})
        else:
            o = r.choice(["add", "mul", "mul", "sub", "addto", "multo"])
            p.push({"op": o, "a": fs[0], "b": fs[1]})
            for f in fs[2:]:
                p.push({"op": o, "a": len(p.fs) - 1, "b": f} if p.fs else {"op": "x", "c": 0})
        for _ in range(r.randint(1, 4)):
            a = len(p.fs) - 1
            if a < 0:
                break
            b = r.randrange(-dim, len(p.fs))
            p.push(r.choice([{"op": "scale", "a": a, "q": r.choice(COEFS[:-2])}, {"op": "unscale", "a": a, "q": r.choice(COEFS[:-2])},
                             {"op": "powi", "a": a, "e": r.choice([-3, -2, -1, 2, 3])}, {"op": "neg", "a": a}, {"op": "mul", "a": a, "b": b},
                             {"op": "mul", "a": b, "b": a}, {"op": "div", "a": b, "b": a}, {"op": "sub", "a": b, "b": a}, {"op": "powf", "a": a, "e": r.choice(EIGHTHS)}]))
    p.finish()
    return {"kind": "sf", "ops": p.ops}


def compare(r, s):
    """Append comparisons of functions, and of sums and products in different orders."""
    ops = s["ops"]
    n = sum(o["op"] not in ("points", "jacobian", "multi") for o in ops)
    if not n:
        return s
    for _ in range(4):
        a = r.randrange(n)
        ops.append({"op": "eq", "a": a, "b": a if r.random() < .2 else r.randrange(-1, n)})
    # sums of fractions with other denominators than powers of two depend on the order by rounding
    if not any(o["op"] == "unscale" and o["q"][0] in (3, 5, -3, -6, -7) for o in ops):
        for _ in range(3):
            fs = [r.randrange(-1, n) for _ in range(r.randint(2, 5))]
            ops.append({"op": "reorder", "fs": fs, "to": r.sample(fs, len(fs))})
    return s


def corruptor(r, evs):
    idx = [i for i, e in enumerate(evs) if e["op"] == "reorder" or e.get("sure")]
    if not idx:
        return None
    i = r.choice(idx)
    out = copy.deepcopy(evs[: i + 1])

    p = r.choice([p for p, _ in leaves(out[i]["ret"])])
    x = out[i]["ret"]
    for q in p[:-1]:
        x = x[q]
    x[p[-1]] = (not x[p[-1]]) if isinstance(x[p[-1]], bool) else x[p[-1]] + 2
    return out


def start(c):
    c.design("Symbolic_MC", "Symbolic_MC3.cfg" if c.thorough else "Symbolic_MC.cfg", workers=3, timeout=850)


def run(c):
    r, sc = c.rng, []
    for _ in range(c.pick(700, 6000)):
        sc.append(compare(r, program(r, r.randint(2, 12))))
    for _ in range(c.pick(400, 4000)):
        sc.append(compare(r, layered(r)))
    c.conform(sc, "Symbolic_Trace", "Symbolic_Trace.cfg", "functions", ncorrupt=40, corruptor=corruptor,
              need=("add", "sub", "mul", "div", "neg", "scale", "unscale", "powi", "powf", "sin", "cos", "sum", "product", "d",
                    "addto", "subto", "multo", "divto", "jacobian", "multi", "eq", "reorder", "zero", "one", "x"))
