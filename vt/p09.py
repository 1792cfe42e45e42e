"""Sparse matrices against the dense matrices they encode."""
from fractions import Fraction as F


def start(c):
    c.design("SparseMatrices", "SparseMatrices_MC.cfg", workers=3)


def pr(x):
    x = F(x)
    return [x.numerator, x.denominator]


def hist(r, kind, dim, depth):
    val = lambda: F(r.choice([-4, -3, -2, -1, 0, 1, 1, 2, 3, 5]), r.choice([1, 1, 2, 3]) if kind == "sq" else 1)
    ops, size, ent, dsize, dn = [], {}, {}, {}, {}

    def build(q, n=None, m=None):
        n, m = (r.randint(0 if r.random() < .1 else 1, dim) if n is None else n), (r.randint(0 if r.random() < .1 else 1, dim) if m is None else m)
        p = r.choice([0, .1, .3, .3, .6, 1])
        skip_r = {i for i in range(n) if r.random() < .25}
        skip_c = {j for j in range(m) if r.random() < .25}
        es = {(i, j): val() for i in range(n) for j in range(m) if r.random() < p and (p == 1 or (i not in skip_r and j not in skip_c))}
        if r.random() < .7:
            es = {k: v for k, v in es.items() if v != 0}
        size[q], ent[q] = (n, m), es
        ops.append({"op": "sbuild", "r": q, "n": n, "m": m, "es": [[i, j, pr(v)] for (i, j), v in es.items()]})

    def rows(q, M):
        ops.append({"op": "rows", "r": q, "rows": [[pr(x) for x in row] for row in M]})
        dsize[q], dn[q] = (len(M), len(M[0])), M
    for q in "stuv":
        build(q)
    for q in "abc":
        n, m = r.randint(1, dim), r.randint(1, dim)
        rows(q, [[val() for _ in range(m)] for _ in range(n)])
    for _ in range(depth):
        q, a, b = (r.choice("stuv") for _ in range(3))
        d, e = r.choice("abc"), r.choice("abc")
        k = r.random()
        if k < .15:
            build(q)
        elif k < .3:
            ops.append({"op": "stransp", "r": q, "a": a})
            size[q], ent[q] = size[a][::-1], {(j, i): v for (i, j), v in ent[a].items()}
        elif k < .4:
            n, m = size[a]
            f = r.choice(["srow", "scol"])
            ops.append({"op": f, "a": a, "p": r.randint(0, dim + 1)})
        elif k < .45:
            ops.append({"op": "sshow", "a": a})
        elif k < .6:
            # a dense matrix equal to it or nearly so
            n, m = size[a]
            if n and m:
                M = [[ent[a].get((i, j), F(0)) for j in range(m)] for i in range(n)]
                if r.random() < .5:
                    M[r.randint(0, n - 1)][r.randint(0, m - 1)] += 1
                if r.random() < .1:
                    M.append([F(0)] * m)
                rows(d, M)
                ops.append({"op": "eqd", "a": a, "b": d})
            else:
                ops.append({"op": "eqd", "a": a, "b": d})
        else:
            f = r.choice(["ss", "sd", "ds"])
            if f == "ss":
                if r.random() < .8 and size[a][1] != size[b][0]:
                    build(b, n=size[a][1])
                n, m, ok = size[a][0], size[b][1], size[a][1] == size[b][0]
                x, y = a, b
            elif f == "sd":
                if r.random() < .8 and size[a][1] > 0 and size[a][1] != dsize[e][0]:
                    w = r.randint(1, dim)
                    rows(e, [[val() for _ in range(w)] for _ in range(size[a][1])])
                if any(abs(z.numerator) > 400 or z.denominator > 6 for row in dn.get(e, [[F(9999)]]) for z in row):
                    continue
                n, m, ok = size[a][0], dsize[e][1], size[a][1] == dsize[e][0]
                x, y = a, e
            else:
                if r.random() < .8 and size[b][0] != dsize[e][1]:
                    build(b, n=dsize[e][1])
                if any(abs(z.numerator) > 400 or z.denominator > 6 for row in dn.get(e, [[F(9999)]]) for z in row):
                    continue
                n, m, ok = dsize[e][0], size[b][1], dsize[e][1] == size[b][0]
                x, y = e, b
            if ok and (n == 0 or m == 0):   # a dense matrix has positive sides
                continue
            ops.append({"op": f, "r": d, "a": x, "b": y})
            if ok:
                L = lambda z: dn[z] if z in dn and z in "abc" else [[ent[z].get((i, j), F(0)) for j in range(size[z][1])] for i in range(size[z][0])]
                X, Y = L(x), L(y)
                kk = size[x][1] if x in size else dsize[x][1]
                dn[d] = [[sum((X[i][t] * Y[t][j] for t in range(kk)), F(0)) for j in range(m)] for i in range(n)]
                dsize[d] = (n, m)
    return {"kind": kind, "ops": ops}


def run(c):
    r, sc = c.rng, []
    for kind in ("si", "sq"):
        for dim, n in ((2, 30), (3, 40), (5, 40), (9, 15)):
            sc += [hist(r, kind, dim, c.pick(40, 60)) for _ in range(c.pick(n, 8 * n))]
        for dim, depth, n in ((16, 25, 4), (30, 12, 2), (70, 6, 1)):
            sc += [hist(r, kind, dim, depth) for _ in range(c.pick(n, 10 * n))]
    c.conform(sc, "SparseMatrices_Trace", "SparseMatrices_Trace.cfg", "sparse",
              need=("sbuild", "stransp", "srow", "scol", "sshow", "eqd", "ss", "ss!panic", "sd", "sd!panic", "ds", "ds!panic"))
