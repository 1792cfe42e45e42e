"""Matrix views and elementwise algebra."""
from fractions import Fraction as F
REG = "abcd"


def start(c):
    c.design("Matrices", "Matrices_MC.cfg", workers=3)


def pr(x):
    x = F(x)
    return [x.numerator, x.denominator]


class Gen:
    """Mirrors the registers only to keep the arguments mostly meaningful and the numbers small."""
    def __init__(self, r, kind, dim):
        self.r, self.q, self.dim, self.m, self.ops = r, kind == "mq", dim, {}, []

    def val(self):
        x = F(self.r.choice([-3, -2, -1, 0, 0, 1, 1, 2, 3]))
        return x / self.r.choice([1, 2, 3]) if self.q and self.r.random() < .3 else x

    def factor(self, nz=False):
        x = self.val()
        return F(1) if nz and x == 0 else x

    def ok(self, m):
        return all(abs(x.numerator) < 2000 and x.denominator < 60 for row in m for x in row)

    def put(self, op, reg, m):
        if self.ok(m):
            self.m[reg] = m
            self.ops.append(op)
            return True
        return False

    # ---- views: returns (steps, grid of index pairs) with the grid None when out of range
    def rng(self, n, empty, bad):
        r = self.r
        if r.random() < bad:
            lo, hi = r.randint(0, n + 1), r.randint(n + 1, n + 2)
        else:
            lo = r.randint(0, n if empty else n - 1)
            hi = r.randint(lo if empty else lo + 1, n)
        f = r.choice(["r", "r", "rf", "ri", "rt", "rti", "full", "i"])
        if f in ("ri", "rti") and hi == 0:
            f = "r"
        if f == "i":
            hi = lo + 1
        if f == "rf":
            hi = n
        if f in ("rt", "rti"):
            lo = 0
        if f == "full":
            lo, hi = 0, n
        if lo == hi and not empty:
            f, lo, hi = "full", 0, n
        b = hi - 1 if f in ("ri", "rti") else hi
        if f == "ri" and b < lo:   # an inclusive range of nothing
            f, b = "r", hi
        return {"f": f, "a": lo, "b": b}, lo, hi, lo <= hi <= n

    def nest(self, m, trans=True, empty=False, bad=.03, depth=None):
        r = self.r
        g = [[(i, j) for j in range(len(m[0]))] for i in range(len(m))]
        rows, cols, steps = len(m), len(m[0]), []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3]) if depth is None else depth):
            if trans and r.random() < .25:
                steps.append({"k": "t"})
                if g is not None:
                    g = [list(x) for x in zip(*g)] if rows and cols else [[] for _ in range(cols)]
                    rows, cols = cols, rows
                continue
            if rows == 0 or cols == 0:
                break
            a, lo, hi, o1 = self.rng(rows, empty, bad)
            b, lo2, hi2, o2 = self.rng(cols, empty, bad)
            if a["f"] == "i" and b["f"] == "i" and not (o1 and o2):
                b = {"f": "full", "a": 0, "b": 0}
                lo2, hi2, o2 = 0, cols, True
            steps.append({"k": "v", "r": a, "c": b})
            if not (o1 and o2):
                return steps, None
            g = [x[lo2:hi2] for x in g[lo:hi]]
            rows, cols = hi - lo, hi2 - lo2
        return steps, g

    def read(self, m, g):
        return [[m[i][j] for i, j in row] for row in g]

    def start(self):
        r = self.r
        for q in REG:
            n, m = r.randint(1, self.dim), r.randint(1, self.dim)
            self.new(q, n, m)

    def new(self, q, n, m):
        rows = [[self.val() for _ in range(m)] for _ in range(n)]
        self.put({"op": "rows", "r": q, "rows": [[pr(x) for x in row] for row in rows]}, q, rows)

    def step(self):
        r = self.r
        q, a, b = (r.choice(REG) for _ in range(3))
        A, B, Q = self.m[a], self.m[b], self.m[q]
        k = r.random()
        if k < .05:
            n, m = r.randint(1, self.dim), r.randint(1, self.dim)
            if r.random() < .4:
                rows = [[pr(self.val()) for _ in range(m if r.random() < .6 else r.randint(0, self.dim))] for _ in range(n)]
                if len({len(x) for x in rows}) > 1 or not rows[0]:
                    self.ops.append({"op": "rows", "r": q, "rows": rows})
            else:
                self.new(q, n, m)
        elif k < .07:
            n, m = r.randint(0, 4), r.randint(0, 4)
            if r.random() < .5:
                self.ops.append({"op": "zeros", "r": q, "n": n, "m": m})
                if n and m:
                    self.m[q] = [[F(0)] * m for _ in range(n)]
            else:
                self.ops.append({"op": "ident", "r": q, "n": n})
                if n:
                    self.m[q] = [[F(i == j) for j in range(n)] for i in range(n)]
        elif k < .17:
            s, g = self.nest(A, empty=True)
            self.ops.append({"op": "read", "a": a, "s": s})
        elif k < .19:
            s, g = self.nest(A)
            self.ops.append({"op": "show", "a": a, "s": s})
        elif k < .23:
            s, g = self.nest(A)
            if g is None:
                return
            n, m = len(g), len(g[0])
            i, j = r.randint(0, n - 1), r.randint(0, m - 1)
            if r.random() < .15:
                i, j = r.choice([(n, j), (i, m), (n + 1, m)])
            self.ops.append({"op": "get", "a": a, "s": s, "p": i, "q": j})
        elif k < .28:
            s, g = self.nest(A, bad=0)
            s2, g2 = self.nest(B, bad=0)
            # mostly a row against a column
            if r.random() < .8:
                s.append({"k": "v", "r": {"f": "i", "a": r.randint(0, len(g) - 1), "b": 0}, "c": {"f": "full", "a": 0, "b": 0}})
                if r.random() < .7 and len(g2) >= len(g[0]):
                    s2.append({"k": "v", "r": {"f": "rt", "a": 0, "b": len(g[0])}, "c": {"f": "i", "a": r.randint(0, len(g2[0]) - 1), "b": 0}})
            self.ops.append({"op": "dot", "a": a, "s": s, "b": b, "s2": s2})
        elif k < .33:
            s, g = self.nest(A, empty=True, bad=.01)
            s2, g2 = (s, g) if r.random() < .3 else self.nest(B, empty=True, bad=.01)
            own = r.choice(["rr", "ro", "oo"])
            if g is None or g2 is None or not g or not g2 or not g[0] or not g2[0]:
                own = "rr"
            self.ops.append({"op": "eq", "a": a, "s": s, "b": a if s2 is s else b, "s2": s2, "own": own})
        elif k < .55:
            f = r.choice(["put", "swaprows", "swapcols", "rowop", "colop", "scaleas"] + (["divas"] if self.q else []))
            s, g = self.nest(Q, trans=False)
            op = {"op": f, "r": q, "s": s}
            x = self.factor(nz=(f == "divas"))
            op["x"] = pr(x)
            n, m = (len(g), len(g[0])) if g else (2, 2)
            lim = {"put": (n, m), "swaprows": (n, n), "rowop": (n, n), "swapcols": (m, m), "colop": (m, m)}.get(f, (1, 1))
            i, j = r.randint(0, lim[0] - 1), r.randint(0, lim[1] - 1)
            if r.random() < .05:
                i, j = r.choice([(lim[0], j), (i, lim[1])])
            op.update(p=i, q=j)
            if g is None or i >= lim[0] or j >= lim[1]:
                if f not in ("scaleas", "divas") or g is None:
                    self.ops.append(op)
                return
            W = self.read(Q, g)
            if f == "put":
                W[i][j] = x
            elif f == "swaprows":
                W[i], W[j] = W[j], W[i]
            elif f == "swapcols":
                for row in W:
                    row[i], row[j] = row[j], row[i]
            elif f == "rowop":
                W[i] = [y + x * z for y, z in zip(W[i], list(W[j]))]
            elif f == "colop":
                for row in W:
                    row[i] += x * row[j]
            elif f == "scaleas":
                W = [[x * y for y in row] for row in W]
            else:
                W = [[y / x for y in row] for row in W]
            self.put(op, q, self.over(Q, g, W))
        elif k < .67:
            s, g = self.nest(Q, trans=False, depth=r.choice([1, 2, 2]))
            if g is None:
                return
            n, m = len(g), len(g[0])
            # a source of the same shape, mostly
            if len(A) >= n and len(A[0]) >= m and r.random() < .85:
                i, j = r.randint(0, len(A) - n), r.randint(0, len(A[0]) - m)
                s2 = [{"k": "v", "r": {"f": "r", "a": i, "b": i + n}, "c": {"f": "r", "a": j, "b": j + m}}]
                g2 = [[(i + y, j + z) for z in range(m)] for y in range(n)]
            elif len(A[0]) >= n and len(A) >= m and r.random() < .8:
                i, j = r.randint(0, len(A) - m), r.randint(0, len(A[0]) - n)
                s2 = [{"k": "v", "r": {"f": "r", "a": i, "b": i + m}, "c": {"f": "r", "a": j, "b": j + n}}, {"k": "t"}]
                g2 = [[(i + z, j + y) for z in range(m)] for y in range(n)]
            else:
                s2, g2 = self.nest(A, bad=0)
            op = {"op": "write", "r": q, "s": s, "a": a, "s2": s2, "own": r.choice(["ref", "move"])}
            if len(g2) != n or len(g2[0]) != m:
                self.ops.append(op)
            else:
                self.put(op, q, self.over(Q, g, self.read(A, g2)))
        elif k < .85:
            f = r.choice(["add", "sub", "mul", "mul"])
            s, g = self.nest(A, bad=.01)
            s2, g2 = self.nest(B, bad=.01)
            if g is not None and g2 is not None and r.random() < .75:   # make them fit
                if f == "mul":
                    t = min(len(g[0]), len(g2))
                    s.append({"k": "v", "r": {"f": "full", "a": 0, "b": 0}, "c": {"f": "rt", "a": 0, "b": t}})
                    s2.append({"k": "v", "r": {"f": "rt", "a": 0, "b": t}, "c": {"f": "full", "a": 0, "b": 0}})
                    g, g2 = [x[:t] for x in g], g2[:t]
                else:
                    n, m = min(len(g), len(g2)), min(len(g[0]), len(g2[0]))
                    cut = {"k": "v", "r": {"f": "rt", "a": 0, "b": n}, "c": {"f": "rt", "a": 0, "b": m}}
                    s.append(cut), s2.append(cut)
                    g, g2 = [x[:m] for x in g[:n]], [x[:m] for x in g2[:n]]
            op = {"op": f, "r": q, "a": a, "s": s, "b": b, "s2": s2,
                  "own": r.choice(["rr", "or", "ro", "oo"] + (["ar", "ao"] if f != "mul" else []))}
            if g is None or g2 is None:
                self.ops.append(op)
                return
            X, Y = self.read(A, g), self.read(B, g2)
            if f == "mul":
                if len(X[0]) != len(Y):
                    self.ops.append(op)
                else:
                    self.put(op, q, [[sum((X[i][t] * Y[t][j] for t in range(len(Y))), F(0)) for j in range(len(Y[0]))] for i in range(len(X))])
            elif len(X) != len(Y) or len(X[0]) != len(Y[0]):
                self.ops.append(op)
            else:
                e = 1 if f == "add" else -1
                self.put(op, q, [[x + e * y for x, y in zip(p, o)] for p, o in zip(X, Y)])
        elif k < .9:
            s, g = self.nest(A, bad=0)
            own = r.choice(["r", "o", "a", "l"] + (["dr", "do"] if self.q else []))
            x = self.factor(nz=own in ("dr", "do"))
            y = 1 / x if own in ("dr", "do") else x
            self.put({"op": "scale", "r": q, "a": a, "s": s, "x": pr(x), "own": own}, q, [[y * z for z in row] for row in self.read(A, g)])
        elif k < .94:
            if r.random() < .5:
                self.put({"op": "transp", "r": q, "a": a}, q, [list(x) for x in zip(*A)])
            else:
                self.put({"op": "transpself", "r": q}, q, [list(x) for x in zip(*Q)])
        elif k < .97:
            s, g = self.nest(A, bad=.02)
            op = {"op": "copy", "r": q, "a": a, "s": s}
            if g is None:
                self.ops.append(op)
            else:
                self.put(op, q, self.read(A, g))
        elif not self.q:
            n = len(A[0]) if r.random() < .8 else r.randint(0, 4)
            self.ops.append({"op": "basis", "a": a, "bs": [r.randint(0, 4) for _ in range(n)]})

    def over(self, M, g, W):
        out = [list(x) for x in M]
        for gr, wr in zip(g, W):
            for (i, j), x in zip(gr, wr):
                out[i][j] = x
        return out


def hist(r, kind, dim, depth):
    g = Gen(r, kind, dim)
    g.start()
    for _ in range(depth):
        g.step()
    return {"kind": kind, "ops": g.ops}


def chist(r, depth, N=2, M=3, K=3):
    """matrices and vectors of fixed size"""
    shape = {"a": (N, M), "b": (N, M), "c": (K, K), "d": (K, K), "u": (K, 1), "v": (K, 1), "w": (K, 1)}
    val = lambda: F(r.randint(-4, 4), r.choice([1, 1, 2, 3]))
    m, ops = {}, []

    def new(q):
        n, k = shape[q]
        m[q] = [[val() for _ in range(k)] for _ in range(n)]
        ops.append({"op": "rows", "r": q, "rows": [[pr(x) for x in row] for row in m[q]]})

    def put(op, q, v):
        if all(abs(x.numerator) < 2000 and x.denominator < 60 for row in v for x in row):
            m[q] = v
            ops.append(op)
    for q in shape:
        new(q)
    for _ in range(depth):
        q = r.choice(list(shape))
        a, b = (r.choice([x for x in shape if shape[x] == shape[q]]) for _ in range(2))
        k = r.random()
        if k < .1:
            new(q)
        elif k < .15:
            put({"op": "zeros", "r": q, "n": shape[q][0], "m": shape[q][1]}, q, [[F(0)] * shape[q][1] for _ in range(shape[q][0])])
        elif k < .2:
            put({"op": "ident", "r": r.choice("cd")}, "x", [])
            m[ops[-1]["r"]] = [[F(i == j) for j in range(K)] for i in range(K)]
            ops[-1]["n"] = K
        elif k < .5:
            e = r.choice([1, -1])
            put({"op": "add" if e == 1 else "sub", "r": q, "a": a, "b": b, "s": [], "s2": []}, q,
                [[x + e * y for x, y in zip(o, p)] for o, p in zip(m[a], m[b])])
        elif k < .65:
            own = r.choice("md")
            x = val()
            if own == "d" and x == 0:
                continue
            put({"op": "scale", "r": q, "a": a, "s": [], "x": pr(x), "own": own}, q, [[z * x if own == "m" else z / x for z in row] for row in m[a]])
        elif k < .72:
            put({"op": "neg", "r": q, "a": a}, q, [[-z for z in row] for row in m[a]])
        elif k < .8:
            x, i, j = val(), r.randint(0, shape[q][0] - 1), r.randint(0, shape[q][1] - 1)
            v = [list(z) for z in m[q]]
            v[i][j] = x
            put({"op": "put", "r": q, "s": [], "p": i, "q": j, "x": pr(x)}, q, v)
        elif k < .88:
            ops.append({"op": "eq", "a": a, "b": r.choice([a, b]), "s": [], "s2": [], "own": "rr"})
        elif k < .94:
            ops.append({"op": "vdot", "a": r.choice("uvw"), "b": r.choice("uvw")})
        else:
            xs = [r.choice("uvw") for _ in range(K)]
            d = r.choice("cd")
            put({"op": "fromcols", "r": d, "as": xs}, d, [[m[xs[j]][i][0] for j in range(K)] for i in range(K)])
    return {"kind": "cm" if K == 3 else "cn", "ops": ops}


def run(c):
    r, sc = c.rng, []
    for kind in ("mi", "mq"):
        for dim, n in ((2, 20), (3, 40), (5, 40), (7, 10)):
            sc += [hist(r, kind, dim, c.pick(45, 80)) for _ in range(c.pick(n, 12 * n))]
        for dim, depth, n in ((12, 25, 4), (20, 12, 2)):
            sc += [hist(r, kind, dim, depth) for _ in range(c.pick(n, 10 * n))]
    sc += [chist(r, 40) for _ in range(c.pick(30, 300))]
    sc += [chist(r, 40, 7, 4, 6) for _ in range(c.pick(12, 120))]
    sc.append({"kind": "mi", "ops": [{"op": "huge", "n": n, "m": m} for n, m in
                                     ((1, 1), (255, 257), (256, 256), (40000, 2), (65535, 1), (1, 65535), (65536, 1), (1, 65536), (65537, 2), (2, 65539), (70000, 1))]})
    c.conform(sc, "Matrices_Trace", "Matrices_Trace.cfg", "matrices",
              need=("rows", "rows!panic", "zeros", "zeros!panic", "ident", "ident!panic", "read", "read!panic", "show", "get", "get!panic",
                    "dot", "dot!panic", "eq", "put", "swaprows", "swapcols", "rowop", "rowop!panic", "colop", "scaleas", "divas", "write",
                    "write!panic", "add", "add!panic", "sub", "sub!panic", "mul", "mul!panic", "scale", "transp", "transpself", "copy",
                    "basis", "basis!panic", "huge", "fromcols", "vdot", "neg"))
