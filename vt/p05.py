"""Sparse permutations: group histories, actions on sequences and graphs."""
import itertools


def start(c):
    c.design("Perms", "Perms_MC.cfg")


def compose(p, q):
    return [p[q[i]] for i in range(len(q))]


def cycles_of(r, m, style):
    xs = list(range(m))
    r.shuffle(xs)
    out, i = [], 0
    while i < m:
        k = r.choice([1, 2, 2, 3, 4, m])
        c = xs[i:i + k]
        i += k
        if r.random() < .75:
            j = r.randrange(len(c))
            out.append(c[j:] + c[:j])
    return out


def hist(r, m, depth, kind="perm"):
    ops = [{"op": "points", "m": m, "kind": kind}]
    for q in "abc":
        ops.append({"op": "cycles", "r": q, "cs": cycles_of(r, m, 0)})
    for _ in range(depth):
        q, a, b = (r.choice("abc") for _ in range(3))
        k = r.random()
        x, y = sorted((r.randint(0, m), r.randint(0, m)))
        z, w = sorted((r.randint(0, m), r.randint(0, m)))
        if k < .08:
            ops.append({"op": "cycles", "r": q, "cs": cycles_of(r, m, 0)})
        elif k < .10:
            cs = cycles_of(r, m, 0) + [[r.randrange(m) for _ in range(r.choice([0, 1, 2]))]]
            ops.append({"op": "cycles", "r": q, "cs": cs})              # often overlapping: refused
        elif k < .13:
            ops.append({"op": "cycle", "r": q, "cs": [r.sample(range(m), r.randint(0, m))]})
        elif k < .17:
            ops.append({"op": "cyclic", "r": q, "x": [x, y]})
        elif k < .27:
            if r.random() < .8:
                s = sorted(r.choice(range(m + 1)) for _ in range(4))
                u, v = [s[0], s[1]], [s[2], s[3]]
                if r.random() < .5:
                    u, v = v, u
            else:
                u, v = [x, y], [z, w]
            ops.append({"op": "swap", "r": q, "x": u, "y": v})
        elif k < .29:
            ops.append({"op": "id", "r": q})
        elif k < .5:
            ops.append({"op": "mul", "r": q, "a": a, "b": b})
        elif k < .58:
            ops.append({"op": "inv", "r": q, "a": a})
        elif k < .66:
            ops.append({"op": "pow", "r": q, "a": a, "k": r.randint(-5, 6) if r.random() < .7 else r.choice([-1, 1]) * r.choice([7, 11, 12, 24, 30, 60, 61, 64, 100, 127, 128, 200, 257])})
        elif k < .70:
            ops.append({"op": "prod", "r": q, "xs": [r.choice("abc") for _ in range(r.randint(0, 4))]})
        elif k < .76:
            ops.append({"op": "gens", "a": a})
        elif k < .82:
            ops.append({"op": r.choice(["eq", "isid"]), "a": a, "b": b})
        elif k < .92:
            ops.append({"op": r.choice(["act", "actas", "actby"]), "a": a, "xs": [r.randint(-9, 99) for _ in range(m)]})
        else:
            es = [[i, j] for i in range(m) for j in range(i + 1, m) if r.random() < .35]
            r.shuffle(es)
            if m > 1:
                ops.append({"op": "gact", "a": a, "n": m, "es": es, "as": r.random() < .5})
    return {"kind": kind, "ops": ops}


def to_cycles(p):
    seen, out = set(), []
    for i in range(len(p)):
        if i in seen or p[i] == i:
            continue
        c, j = [], i
        while j not in seen:
            seen.add(j)
            c.append(j)
            j = p[j]
        out.append(c)
    return out


def run(c):
    r, sc = c.rng, []
    # every pair of permutations of 4 points (thorough: 5): product, inverse, powers, equality, action
    m = c.pick(4, 5)
    allp = list(itertools.permutations(range(m)))
    for p in allp:
        ops = [{"op": "points", "m": m, "kind": "perm"}, {"op": "cycles", "r": "a", "cs": to_cycles(p)},
               {"op": "inv", "r": "c", "a": "a"}] + [{"op": "pow", "r": "c", "a": "a", "k": k} for k in range(-4, 5)] + \
              [{"op": "act", "a": "a", "xs": list(range(10, 10 + m))}, {"op": "gens", "a": "a"}]
        qs = allp if m == 4 else r.sample(allp, 20)
        for q in qs:
            ops += [{"op": "cycles", "r": "b", "cs": to_cycles(q)[::-1]}, {"op": "mul", "r": "c", "a": "a", "b": "b"},
                    {"op": "eq", "a": "a", "b": "b"}]
        sc.append({"kind": "perm", "ops": ops})
    # every block swap of up to 6 (8) points, in both argument orders
    m = c.pick(6, 8)
    ops = [{"op": "points", "m": m, "kind": "perm"}]
    for a, b, x, y in itertools.product(range(m + 1), repeat=4):
        if a <= b and x <= y:
            ops.append({"op": "swap", "r": "a", "x": [a, b], "y": [x, y]})
    for i in range(1, len(ops), 100):
        sc.append({"kind": "perm", "ops": ops[:1] + ops[i:i + 100]})
    for m in (1, 2, 3, 5, 7, 9, 14):
        sc += [hist(r, m, c.pick(30, 60)) for _ in range(c.pick(30, 300))]
    for _ in range(c.pick(6, 40)):                      # many points
        sc.append(hist(r, 40, 15))
    for m in (70, 90, 140):                             # more points than a machine word has bits
        sc += [hist(r, m, 9) for _ in range(c.pick(4, 20))]
    # one cycle of every length up to 40, taken to powers around its order
    for n in range(1, 41):
        x = r.sample(range(n + 2), n)
        sc.append({"kind": "perm", "ops": [{"op": "points", "m": n + 2, "kind": "perm"}, {"op": "cycle", "r": "a", "cs": [x]}]
                   + [{"op": "pow", "r": "b", "a": "a", "k": k} for k in (n - 1, n, n + 1, -n, 1 - n, 2 * n + 1, 3 * n - 2)]})
    c.conform(sc, "Perms_Trace", "Perms_Trace.cfg", "perms", only=("mul", "inv", "pow", "swap", "cycles", "act", "eq", "gens"),
              need=("cycles", "cycles!panic", "cyclic", "swap", "swap!panic", "id", "mul", "inv", "pow", "prod", "gens", "eq", "isid",
                    "act", "actas", "actby", "gact"),
              corruptor=None)
