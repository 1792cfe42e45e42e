"""Simple graphs as sets of undirected edges: every history of additions, removals, swaps and permutations."""


def start(c):
    c.design("SimpleGraphs", "SimpleGraphs_MC6.cfg" if c.thorough else "SimpleGraphs_MC.cfg", workers=3, timeout=800)


def hist(r, n, depth, regs):
    ops = [{"op": "new", "r": q, "n": n if r.random() < .85 else max(n - 1, 0)} for q in regs]
    size = {o["r"]: o["n"] for o in ops}
    edges = {q: set() for q in regs}
    for _ in range(depth):
        q = r.choice(regs)
        m = size[q]
        if m < 2:
            ops.append({"op": r.choice(["show", "debug"]), "r": q})
            continue
        k = r.random()
        if r.random() < .15:   # the ends of the triangular array
            u, v = r.choice([(0, 1), (m - 2, m - 1), (0, m - 1)])
        else:
            u, v = sorted(r.sample(range(m), 2))
        if k < .45:
            ops.append({"op": "add", "r": q, "u": u, "v": v})
            edges[q].add((u, v))
        elif k < .6:
            if edges[q] and r.random() < .7:
                u, v = r.choice(sorted(edges[q]))
            ops.append({"op": "remove", "r": q, "u": u, "v": v})
            edges[q].discard((u, v))
        elif k < .72:
            ops.append({"op": "swap", "r": q, "u": u, "v": v})
            edges[q] = {tuple(sorted({u: v, v: u}.get(x, x) for x in e)) for e in edges[q]}
        elif k < .8:
            p = list(range(m))
            s = r.sample(p, r.randint(1, m))
            t = s[:]
            r.shuffle(t)
            for a, b in zip(s, t):
                p[a] = b
            ops.append({"op": "act", "r": q, "map": p, "how": r.randrange(3)})
            edges[q] = {tuple(sorted((p[a], p[b]))) for a, b in edges[q]}
        elif k < .84:
            s = r.choice(regs)
            ops.append({"op": "clone", "r": q, "q": s})
            size[q], edges[q] = size[s], set(edges[s])
        elif k < .88:
            ops.append({"op": "same", "r": q, "q": r.choice(regs)})
        elif k < .92:
            ops.append({"op": "has", "r": q, "u": u, "v": v})
        elif k < .95:
            ops.append({"op": "degree", "r": q, "u": r.choice([u, m, m + 3])})
        elif k < .98:
            ops.append({"op": "show", "r": q})
        else:
            ops.append({"op": "debug", "r": q})
    return ops


def run(c):
    r, sc = c.rng, []
    # every graph on at most four vertices, edge by edge and back
    for n in range(5):
        prs = [(i, j) for j in range(n) for i in range(j)]
        for m in range(1 << len(prs)):
            es = [p for k, p in enumerate(prs) if m >> k & 1]
            r.shuffle(es)
            ops = [{"op": "new", "r": "a", "n": n}] + [{"op": "add", "r": "a", "u": u, "v": v} for u, v in es]
            ops += [{"op": "show", "r": "a"}, {"op": "debug", "r": "a"}]
            ops += [{"op": "swap", "r": "a", "u": u, "v": v} for u, v in prs]
            ops += [{"op": "has", "r": "a", "u": u, "v": v} for u, v in prs]
            ops += [{"op": "remove", "r": "a", "u": u, "v": v} for u, v in r.sample(prs, len(prs))]
            sc.append({"kind": "rg", "ops": ops})
    for i in range(c.pick(220, 3000)):
        sc.append({"kind": "rg", "ops": hist(r, r.randint(0, 9), r.randint(10, 40), ["a", "b", "c"])})
    for i in range(c.pick(30, 400)):   # arrays longer than a machine word
        sc.append({"kind": "rg", "ops": hist(r, r.choice([12, 12, 13, 16, 17, 18, 20, 23]), 40, ["a", "b"])})
    for i in range(c.pick(6, 60)):
        sc.append({"kind": "rg", "ops": hist(r, r.choice([30, 36, 45]), 15, ["a", "b"])})
    c.conform(sc, "SimpleGraphs_Trace", "SimpleGraphs_Trace.cfg", "simple_graphs",
              need=("new", "add", "remove", "swap", "act", "clone", "same", "has", "degree", "degree!panic", "show", "debug"),
              ncorrupt=20, weight=lambda evs: sum(len(str(e.get("obs", ""))) for e in evs))
