"""Subdivision for n tokens and the depth-first labelling of the result."""
from itertools import combinations_with_replacement, product
from .mgen import *


def start(c):
    c.design("Spanning", "Spanning_MC.cfg", workers=3, timeout=800)
    c.design("Multigraphs_MC", "Multigraphs_MC4.cfg" if c.thorough else "Multigraphs_MC.cfg", workers=3, timeout=800)


def place(r, ps, n):
    """coordinates that are multiples of the number of parts, so that all positions are integral"""
    m = max(n, 2)
    d = (max(m - 2, 1) + 1) * (m + 1)
    ns = []
    for p in ps:
        for x in p:
            if x not in ns:
                ns.append(x)
    return {"op": "place", "pairs": ps, "n": n, "at": [[x, r.randint(-9, 9) * d, r.randint(-9, 9) * d] for x in ns]}


def run(c):
    r, sc = c.rng, []
    # every connected list of at most three pairs over three names
    prs = [[a, b] for a in "uvw" for b in "uvw"]
    for k in (1, 2, 3):
        todo = [list(t) for t in product(prs, repeat=k) if connected(t)]
        if k == 3:
            todo = r.sample(todo, c.pick(130, len(todo)))
        for t in todo:
            sc.append({"kind": "mg", "ops": [{"op": "sub", "pairs": t, "n": n, "plain": False} for n in r.sample(range(0, 7), c.pick(2, 5))]
                       + [{"op": "sub", "pairs": t, "n": 0, "plain": True}]})
    for i in range(c.pick(120, 1500)):
        nv = r.randint(1, 7)
        ps = random_graph(r, nv, nv - 1 + r.choice([0, 0, 1, 1, 2, 3, 4]))
        n = r.choice([0, 1, 2, 2, 3, 3, 4, 5])
        sc.append({"kind": "mg", "ops": [{"op": "sub", "pairs": ps, "n": n, "plain": False}, place(r, ps, n)]})
    for i in range(c.pick(30, 300)):   # dense graphs and graphs without leaves
        k = r.randint(0, 5)
        ns = names(r, r.randint(3, 5))
        if k == 0:
            ps = [[a, b] for i, a in enumerate(ns) for b in ns[:i]]
        elif k == 1:
            ps = cycle(r, r.randint(1, 7))
        elif k == 2:
            h = len(ns) // 2
            ps = [[a, b] for a in ns[:h] for b in ns[h:]]
        elif k == 3:   # dumbbell and wedge of cycles
            a, b = ns[0], ns[1]
            ps = [[a, a], [b, b]] + ([[a, b]] if r.random() < .7 else [[a, ns[2]], [ns[2], b]])
        elif k == 4:
            ps = [[ns[0], ns[0]]] * r.randint(1, 3)
        else:
            ps = [[ns[0], ns[1]]] * r.randint(1, 4)
        r.shuffle(ps)
        n = r.choice([2, 3, 4, 5])
        sc.append({"kind": "mg", "ops": [{"op": "sub", "pairs": ps, "n": n, "plain": False}, place(r, ps, n)]})
    for i in range(c.pick(25, 250)):   # many vertices, and vertices with many edges
        nv = r.randint(8, 16)
        ps = random_graph(r, nv, nv - 1 + r.choice([0, 1, 2, 4]))
        if r.random() < .5:
            ns = ["w%d" % j for j in range(nv)]
            k = r.randint(4, nv - 1)
            ps = [r.choice([[ns[0], x], [x, ns[0]]]) for x in ns[1:k]] + [[r.choice(ns[:i]), ns[i]] for i in range(k, nv)] + [[ns[0], ns[0]]] * r.randint(0, 2)
            r.shuffle(ps)
        n = r.choice([0, 1, 2, 2, 3])
        sc.append({"kind": "mg", "ops": [{"op": "sub", "pairs": ps, "n": n, "plain": False}, place(r, ps, n)]})
    for i in range(c.pick(6, 60)):     # many tokens, many vertices
        nv = r.randint(1, 4)
        ps = random_graph(r, nv, nv + r.randint(0, 1))
        sc.append({"kind": "mg", "ops": [{"op": "sub", "pairs": ps, "n": r.randint(8, 14), "plain": False}]})
    c.conform(sc, "Multigraphs_Trace", "Multigraphs_Trace.cfg", "subdivisions", need=("sub", "place"), ncorrupt=30,
              weight=lambda evs: sum(len(str(e.get("ret", ""))) for e in evs))
