"""Counts of multigraphs and Laplacians of weighted graphs."""
from itertools import product
from .mgen import *


def start(c):
    c.design("Multigraphs_MC", "Multigraphs_MCW.cfg", workers=2, timeout=800)


def run(c):
    r, sc = c.rng, []
    prs = [[a, b] for a in "uvw" for b in "uvw"]
    ops = [{"op": "graph", "pairs": []}] + [{"op": "graph", "pairs": list(t)} for k in (1, 2, 3) for t in product(prs, repeat=k)]
    for i in range(c.pick(200, 3000)):
        ns = names(r, r.randint(1, 7))
        ops.append({"op": "graph", "pairs": [[r.choice(ns), r.choice(ns)] for _ in range(r.randint(0, 14))]})
    for i in range(c.pick(350, 4000)):
        ns = names(r, r.randint(1, 7))
        es = []
        for _ in range(r.randint(1, 10)):
            if r.random() < .02 or len(ns) == 1:
                x = r.choice(ns)
                es.append([x, x, 1])
            else:
                es.append(r.sample(ns, 2) + [r.choice([0, 1, 1, 1, -1, 2, r.randint(-20, 20), r.randint(-100000, 100000)])])
        ops.append({"op": "weights", "es": es, "rat": r.random() < .5})
    for i in range(c.pick(12, 120)):   # large
        ns = names(r, r.randint(15, 40))
        ops.append({"op": "graph", "pairs": [[r.choice(ns), r.choice(ns)] for _ in range(r.randint(20, 90))]})
        ops.append({"op": "weights", "es": [r.sample(ns, 2) + [r.choice([1, 2, -1, r.randint(-20, 20)])] for _ in range(r.randint(12, 60))], "rat": r.random() < .5})
    r.shuffle(ops)
    for i in range(0, len(ops), 20):
        sc.append({"kind": "mg", "ops": ops[i:i + 20]})
    c.conform(sc, "Multigraphs_Trace", "Multigraphs_Trace.cfg", "counts", need=("graph", "weights", "weights!panic"), ncorrupt=20)
