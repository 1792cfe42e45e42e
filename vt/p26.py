"""The factors of the cubes of a configuration space, and the graphs that come with the library."""
from .mgen import *


def start(c):
    c.design("Factors_MC", "Factors_MC6.cfg" if c.thorough else "Factors_MC.cfg", workers=3, timeout=850)


def scattered(r, nv):
    """a graph in any numbering: some vertices may have no smaller neighbour"""
    p = r.choice([.1, .3, .6])
    return nv, [(i, j) for j in range(nv) for i in range(j) if r.random() < p]


def questions(r):
    big = r.random() < .15
    nv, es = (dfs_graph(r, r.choice([12, 20, 30]), r.randint(0, 8)) if big else
              dfs_graph(r, r.randint(1, 9), r.randint(0, 6)) if r.random() < .7 else scattered(r, r.randint(1, 8)))
    es = [list(e) for e in es]
    g = {"nv": nv, "edges": es, "chosen": r.random() < .9}
    vs = [[v] for v in range(nv)]
    pairs = [[i, j] for j in range(nv) for i in range(j)]
    every = vs + es

    def any_():
        return r.choice(every)

    def edge():
        return r.choice(es if es and r.random() < .8 else pairs or vs)
    ops = [{"op": "ask", "q": "lists", **g}]
    if es:
        ops.append({"op": "ask", "q": "tree", **g, "fs": r.sample(pairs, min(len(pairs), 40))})
    for _ in range(4):
        f = any_()
        # a factor that meets it half of the time
        h = r.choice([x for x in every if set(x) & set(f)]) if r.random() < .5 else any_()
        ops += [{"op": "ask", "q": q, **g, "f": f, "g": h} for q in ("disjoint", "compare")]
    for q in ("kind", "edge", "vertex", "terminal", "initial", "order", "consecutive", "intree", "intree", "flow", "flow"):
        ops.append({"op": "ask", "q": q, **g, "f": edge() if q in ("intree", "terminal", "initial", "consecutive") and r.random() < .9 else any_()})
    for _ in range(4):
        v = r.choice(vs)
        fs = random_cube(r, nv, [tuple(e) for e in es], r.randint(1, min(5, nv)), r.choice([.2, .5, .8])) or []
        near = [[w] for e in es for w in e if v[0] in e and w != v[0]] + [e for e in es if v[0] not in e]
        fs = [list(f) for f in fs if v[0] not in f]
        if near and r.random() < .5:
            fs.insert(r.randint(0, len(fs)), r.choice(near))
        ops.append({"op": "ask", "q": "held", **g, "f": v if r.random() < .95 else any_(), "fs": fs})
    for _ in range(4):
        e = edge()
        between = [v for v in vs if len(e) == 2 and e[0] < v[0] < e[1]]
        ops.append({"op": "ask", "q": "overtaken", **g, "f": r.choice(between) if between and r.random() < .8 else any_(), "g": e})
    for _ in range(3):
        fs = random_cube(r, nv, [tuple(e) for e in es], r.randint(1, min(7, nv)), r.choice([.2, .5, .8]))
        if fs:
            fs = [list(f) for f in fs]
            r.shuffle(fs)
            ops.append({"op": "ask", "q": "sorted", **g, "fs": fs})
    r.shuffle(ops)
    return ops


def run(c):
    r, sc = c.rng, [{"kind": "cf", "ops": [{"op": "fixed", "q": q}]} for q in ("complete", "skeleton")]
    for _ in range(c.pick(400, 4000)):
        sc.append({"kind": "cf", "ops": questions(r)})
    c.conform(sc, "Factors_Trace", "Factors_Trace.cfg", "factors", need=("ask", "ask!panic", "fixed"), ncorrupt=40)
