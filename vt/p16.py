"""Cells, boundary maps and homology of the cubical configuration complex."""
from .mgen import *

KNOWN = [([["o", "a"], ["o", "b"], ["o", "c"]], (1, 2, 3)), ([["a", "b"], ["b", "b"]], (1, 2, 3, 4)),
         ([["a", "b"], ["a", "c"], ["a", "d"], ["b", "c"], ["b", "d"], ["c", "d"]], (1, 2)),
         ([["a", "a"]], (1, 2, 3, 4)), ([["a", "b"]], (1, 2, 3, 4)), ([["a", "a"], ["a", "a"]], (1, 2, 3)),
         ([["a", "a"], ["b", "b"], ["a", "b"]], (1, 2, 3)), ([["a", "b"], ["b", "a"], ["a", "b"]], (1, 2, 3)),
         ([["o", "a"], ["o", "b"], ["o", "c"], ["o", "d"]], (2, 3))]
# many edges at once: cells of high dimension
WIDE = [([["a", "b"], ["b", "c"], ["c", "d"]], 4), ([["a", "b"], ["a", "c"], ["a", "d"]], 4), ([["b", "a"], ["c", "b"]], 5), ([["b", "a"], ["c", "b"]], 4),
        ([["a", "b"], ["b", "a"]], 5), ([["a", "b"], ["b", "a"]], 6), ([["a", "a"], ["b", "a"], ["b", "b"]], 3), ([["a", "a"], ["b", "a"]], 4),
        ([["a", "b"], ["b", "a"], ["b", "c"]], 4), ([["a", "b"], ["b", "a"], ["b", "a"]], 4), ([["a", "b"], ["b", "a"], ["b", "c"], ["c", "b"]], 4)]
WIDER = [([["a", "b"], ["b", "c"]], 6), ([["a", "a"], ["b", "a"], ["b", "b"]], 4), ([["a", "b"], ["b", "c"], ["c", "d"]], 5)]


def renamed(r, ps):
    ns = sorted({x for p in ps for x in p})
    f = dict(zip(ns, names(r, len(ns))))
    ps = [[f[a], f[b]] if r.random() < .5 else [f[b], f[a]] for a, b in ps]
    r.shuffle(ps)
    return ps


K5 = [[x, y] for i, x in enumerate("abcde") for y in "abcde"[:i]]


def start(c):
    c.design("Cubical_MC", "Cubical_MC6.cfg" if c.thorough else "Cubical_MC.cfg", workers=3, timeout=850)


def faces(r):
    nv, es = dfs_graph(r, r.randint(3, 16), r.randint(0, 5))
    ops = []
    for _ in range(4):
        q = random_cube(r, nv, es, r.randint(1, min(7, nv // 2)), r.choice([.3, .6, 1]))
        if q:
            ops += [{"op": o, "nv": nv, "edges": es, "c": q} for o in ("faces", "ends", "text")]
    return ops


def run(c):
    r, sc = c.rng, []
    cap = c.pick(500, 2500)
    for ps, ns in KNOWN + ([(K5, (2,))] if c.thorough else []):
        for n in ns:
            k = sum(count_cells(*subdivide(ps, n), n))
            if k <= c.pick(1000, 5000):
                sc.append({"kind": "cc", "w": k, "ops": [{"op": "udc", "pairs": ps, "n": n, "hom": True}]})
    for ps, n in WIDE + (WIDER if c.thorough else []):
        for _ in range(2):
            q = renamed(r, ps)
            k = sum(count_cells(*subdivide(q, n), n))
            sc.append({"kind": "cc", "w": k, "ops": [{"op": "udc", "pairs": q, "n": n, "hom": k < 2500}]})
    want, tries = c.pick(220, 1200), 0
    while want and tries < 20000:
        tries += 1
        nv = r.randint(1, 6)
        ps = random_graph(r, nv, nv - 1 + r.choice([0, 0, 1, 1, 2, 3]))
        n = r.choice([1, 2, 2, 3, 3, 4])
        k = sum(count_cells(*subdivide(ps, n), n, cap + 1))
        if k > cap or (k > 100 and r.random() < .4):
            continue
        want -= 1
        sc.append({"kind": "cc", "w": k, "ops": [{"op": "udc", "pairs": ps, "n": n, "hom": r.random() < .8}]})
    for _ in range(c.pick(500, 3000)):
        sc.append({"kind": "cc", "w": 5, "ops": faces(r)})
    c.conform(sc, "Cubical_Trace", "Cubical_Trace.cfg", "cubical", need=("udc", "faces", "ends", "ends!panic", "text"), ncorrupt=20,
              op_timeout=120, weight=lambda evs: sum(e["ret"]["cells"] ** 2 // 20 if e["op"] == "udc" and e["out"] == "ok" else 5 for e in evs))
