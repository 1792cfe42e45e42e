"""Integral homology of simplicial complexes against the specification's own elimination."""
from itertools import combinations, product


def start(c):
    c.design("Simplicial", "Simplicial_MC5.cfg", workers=3, timeout=800)
    c.design("Chains_MC", c.pick("Chains_MC.cfg", "Chains_MC3.cfg"), workers=2, timeout=1200)


def moore(m, base):
    """a disc whose boundary wraps m times around a triangle: H_1 = Z_m"""
    a, n = [base, base + 1, base + 2], 3 * m
    inner = [base + 3 + i for i in range(n)]
    ctr = base + 3 + n
    t = []
    for i in range(n):
        o0, o1, i0, i1 = a[i % 3], a[(i + 1) % 3], inner[i], inner[(i + 1) % n]
        t += [[o0, o1, i0], [o1, i0, i1], [i0, i1, ctr]]
    return t, ctr + 1


RP2 = [[1, 3, 4], [2, 3, 4], [1, 4, 5], [2, 4, 6], [4, 5, 6], [1, 2, 6], [1, 3, 6], [3, 5, 6], [2, 3, 5], [1, 2, 5]]
TORUS = [[0, 1, 3], [1, 3, 5], [1, 2, 5], [0, 2, 7], [0, 3, 7], [2, 5, 7], [3, 4, 5], [4, 5, 6], [5, 6, 7], [6, 7, 8], [3, 7, 8],
         [3, 4, 8], [2, 4, 8], [0, 2, 4], [1, 2, 8], [1, 6, 8], [0, 1, 6], [0, 4, 6]]
KLEIN = [[0, 1, 4], [0, 1, 6], [0, 2, 6], [0, 2, 8], [0, 3, 4], [0, 3, 8], [1, 2, 5], [1, 2, 7], [1, 4, 5], [1, 6, 7], [2, 5, 6],
         [2, 7, 8], [3, 4, 7], [3, 5, 6], [3, 5, 8], [3, 6, 7], [4, 5, 8], [4, 7, 8]]


def suspend(t, a, b):
    return [s + [a] for s in t] + [s + [b] for s in t]


def sphere(d):
    return [list(s) for s in combinations(range(d + 2), d + 1)]


def shift(t, k):
    return [[v + k for v in s] for s in t]


def spaces(r, big):
    yield [[0]]
    yield [[0], [5], [9]]
    for d in range(1, 5):
        yield sphere(d)
    yield TORUS
    yield KLEIN
    yield RP2
    yield RP2 + shift(RP2, 6)                      # joined at a vertex: Z_2 + Z_2
    yield RP2 + shift(RP2, 20)                     # two components
    yield suspend(RP2, 50, 51)                     # torsion in degree two
    yield TORUS + shift(sphere(2), 8)
    ms = [2, 3, 4, 5, 6]
    for m in ms:
        yield moore(m, 0)[0]
    for m, k in ([(2, 4), (2, 3), (4, 6)] if big else [(2, 4), (3, 2)]):
        t, n = moore(m, 0)
        u, _ = moore(k, n - 1)
        yield t + u                                # wedge
    yield RP2 + shift(RP2, 5) + shift(RP2, 10)     # Z_2 three times
    yield RP2 + shift(RP2, 6) + shift(RP2, 20) + shift(RP2, 26)
    t, n = moore(3, 0)
    yield t + shift(t, n - 1) + shift(t, 2 * n - 2)
    t, n = moore(2, 0)
    u, _ = moore(4, n - 1)
    yield t + u + RP2 + shift(KLEIN, 60)
    for d in (4, 5, 6):                            # contractible: only degree 0 remains
        yield [list(range(d + 1))]
    yield [list(range(6)), [5, 6], [6, 7, 8], [8, 5]] + shift(sphere(1), 9)
    t, n = moore(3, 0)
    yield suspend(t, n, n + 1)
    if big:
        t, n = moore(4, 0)
        yield suspend(t, n, n + 1)
        yield suspend(KLEIN, 50, 51)


def scramble(r, t):
    """the same space: other names, other order, repeated simplices and faces"""
    vs = sorted({v for s in t for v in s})
    nn = r.sample(range(2 * len(vs) + 3), len(vs))
    f = dict(zip(vs, nn))
    t = [[f[v] for v in s] for s in t]
    for _ in range(r.randint(0, 4)):
        s = r.choice(t)
        t.append(r.sample(s, r.randint(1, len(s))))
    for s in t:
        r.shuffle(s)
    r.shuffle(t)
    return t


def ops_for(r, t, gens=True):
    ops = [{"op": "new", "r": "a"}] + [{"op": "attach", "r": "a", "s": s} for s in t]
    top = max(len(s) for s in t) - 1
    ops.append({"op": "hom", "r": "a", "max": -1})
    ops.append({"op": "hom", "r": "a", "max": r.randint(0, top + 1)})
    if gens:
        ops.append({"op": "gens", "r": "a"})
    return ops


def run(c):
    r, sc = c.rng, []
    kinds = ["cxs", "cxn"]
    for _ in range(c.pick(2, 12)):
        for t in spaces(r, c.thorough):
            sc.append({"kind": r.choice(kinds), "ops": ops_for(r, scramble(r, t), gens=len(t) < 60)})
    # every complex on four points
    subs = [list(s) for k in range(1, 5) for s in combinations(range(4), k)]
    seen = set()
    for mask in product([0, 1], repeat=len(subs)):
        t = [s for s, m in zip(subs, mask) if m]
        if not t or any(set(a) < set(b) for a in t for b in t):
            continue
        sc.append({"kind": r.choice(kinds), "ops": ops_for(r, scramble(r, t))})
    for _ in range(c.pick(150, 1500)):
        n = r.randint(4, 8)
        t = [r.sample(range(n), min(n, r.choice([1, 2, 2, 3, 3, 3, 4]))) for _ in range(r.randint(2, 14))]
        sc.append({"kind": r.choice(kinds), "ops": ops_for(r, scramble(r, t))})
    for _ in range(c.pick(4, 30)):     # more than 64 vertices: cycles with chords, and a torsion piece
        n = r.choice([63, 65, 66, 70, 90])
        t = [[i, (i + 1) % n] for i in range(n)] + [r.sample(range(n), 2) for _ in range(3)] + [r.sample(range(n), 3) for _ in range(3)]
        if r.random() < .5:
            t += shift(RP2, n - 2)
        sc.append({"kind": r.choice(kinds), "ops": ops_for(r, scramble(r, t), gens=False)})
    c.conform(sc, "Simplicial_Trace", "Simplicial_Trace.cfg", "homology", need=("hom", "gens"), op_timeout=60,
              only=("hom", "gens"), weight=lambda evs: sum(len(e["s"]) ** 2 for e in evs if "s" in e))
