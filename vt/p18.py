"""Edge paths: legality, reduction, inversion, composition and permutations."""
from .mgen import *


def start(c):
    c.design("EdgePaths_MC", "EdgePaths_MC5.cfg" if c.thorough else "EdgePaths_MC.cfg", workers=3, timeout=850)


class Sim:
    """builds legal paths; nothing here decides anything"""
    def __init__(self, r, nv, es, n):
        self.r, self.nv, self.es, self.n = r, nv, es, n
        self.adj = {v: set() for v in range(nv)}
        for a, b in es:
            self.adj[a].add(b)
            self.adj[b].add(a)
        self.par = {j: max(i for i in range(j) if i in self.adj[j]) for j in range(1, nv)}
        self.g = {"nv": nv, "edges": es}

    def crit(self, s):
        s = set(s)
        while True:
            f = [v for v in sorted(s) if v and self.par[v] not in s]
            if not f:
                return frozenset(s)
            s.remove(f[0])
            s.add(self.par[f[0]])

    def walk(self, s, k, par=.3, back=.2):
        """random steps from the configuration s"""
        s, steps = set(s), []
        for _ in range(k):
            st, used = [], set()
            if steps and self.r.random() < back:
                st = [[b, a] for a, b in steps[-1]]
            else:
                for _ in range(1 if self.r.random() > par else 3):
                    a = self.r.choice(sorted(s))
                    bs = [b for b in sorted(self.adj[a]) if b not in s]
                    if bs:
                        b = self.r.choice(bs)
                        if not {a, b} & used:
                            st.append([a, b])
                            used |= {a, b}
            s = (s - {a for a, _ in st}) | {b for _, b in st}
            if st or self.r.random() < .2:
                steps.append(st)
        return steps, frozenset(s)


def history(r, big):
    nv, es = dfs_graph(r, r.randint(4, 18 if big else 10), r.randint(0, 4))
    n = r.randint(1, min(6 if big else 4, nv - 2))
    m = Sim(r, nv, es, n)
    ops, ends = [], {}
    base = frozenset(range(n))
    k = 0

    def put(op, s, t):
        nonlocal k
        op["r"] = "p%d" % k
        ends[op["r"]] = (frozenset(s), frozenset(t))
        k += 1
        ops.append(op)
        if s == base and t == base:
            ops.append({"op": "perm", "r": op["r"], "n": n})
        return op["r"]
    for _ in range(r.randint(2, 4)):
        q = random_cube(r, nv, es, n, .3)
        if q:
            e = [f for f in q if len(f) == 2]
            if len(e) > 1:
                q = sorted([f if f == e[0] or len(f) == 1 else [f[0]] for f in q])
            if not e:
                ms = [(v, w) for (v,) in q for w in m.adj[v] if [w] not in q]
                if ms:
                    v, w = r.choice(ms)
                    q = sorted([f if f != [v] else sorted([v, w]) for f in q])
            if any(len(f) == 2 for f in q):
                e = [f for f in q if len(f) == 2][0]
                vs = {f[0] for f in q if len(f) == 1}
                s, t = m.crit(vs | {e[1]}), m.crit(vs | {e[0]})
                put({"op": "loop", "c": q, "based": s == t == base, **m.g}, s, t)
    for _ in range(r.randint(0, 2)):
        s = frozenset(r.sample(range(nv), n))
        to = r.random() < .5
        t = m.crit(s)
        put({"op": "tobase", "c": [[v] for v in sorted(s)], "to": to, **m.g}, *((s, t) if to else (t, s)))
    for _ in range(r.randint(1, 2)):
        s = base if r.random() < .7 else frozenset(r.sample(range(nv), n))
        st, t = m.walk(s, r.randint(0, 14 if big else 9) if r.random() < .7 else r.randint(10, 50), back=r.choice([.2, .4]))
        put({"op": "moves", "steps": st, "start": sorted(s), **m.g}, s, t)
    if r.random() < .3:
        put({"op": "trivial", "start": sorted(base), **m.g}, base, base)
    for _ in range(r.randint(3, 10 if big else 7)):
        q = r.choice(sorted(ends))
        s, t = ends[q]
        if r.random() < .55:
            ps = [p for p in sorted(ends) if ends[p][0] == t]
            if ps and len(ops) < 30:
                p = r.choice(ps)
                put({"op": "compose", "q": q, "p": p}, s, ends[p][1])
        elif r.random() < .5:
            put({"op": "reduce", "q": q}, s, t)
        else:
            put({"op": "inverse", "q": q}, t, s)
    return ops


def run(c):
    r = c.rng
    sc = [{"kind": "ep", "ops": history(r, r.random() < .3)} for _ in range(c.pick(1500, 8000))]
    # loops of critical cells of graphs that the library subdivides itself are covered by their numbering: depth first, base point a leaf
    for _ in range(c.pick(60, 500)):
        nv = r.randint(2, 4)
        n = r.choice([2, 3, 4, 4, 5, 6])
        N, es = subdivide(random_graph(r, nv, nv + r.randint(0, 2)), n)
        adj = {v: set() for v in range(N)}
        for a, b in es:
            adj[a].add(b)
            adj[b].add(a)
        leaf = [v for v in adj if len(adj[v]) == 1]
        num = {}
        stack = [r.choice(leaf or sorted(adj))]

        def go(v):
            num[v] = len(num)
            for w in r.sample(sorted(adj[v]), len(adj[v])):
                if w not in num:
                    go(w)
        go(stack[0])
        es = sorted({tuple(sorted((num[a], num[b]))) for a, b in es})
        m = Sim(r, N, es, n)
        base = frozenset(range(n))
        ops, names_ = [], []
        for _ in range(40):
            e = r.choice(es)
            vs = r.sample([v for v in range(N) if v not in e], n - 1)
            vs = sorted(m.crit(set(vs)) - set(e)) if r.random() < .7 else sorted(vs)
            if len(vs) < n - 1:
                continue
            s, t = m.crit(set(vs) | {e[1]}), m.crit(set(vs) | {e[0]})
            x = "l%d" % len(names_)
            ops.append({"op": "loop", "r": x, "c": sorted([[v] for v in vs] + [list(e)]), "based": s == t == base, **m.g})
            if s == t == base:
                ops.append({"op": "perm", "r": x, "n": n})
                names_.append(x)
            if len(names_) > 3:
                break
        if len(names_) > 1:
            for i in range(6):
                a, b = r.choice(names_), r.choice(names_)
                y = "m%d" % i
                ops.append({"op": "compose", "q": a, "p": b, "r": y})
                if r.random() < .5:
                    ops.append({"op": r.choice(["reduce", "inverse"]), "q": y, "r": y + "r"})
                    y += "r"
                ops.append({"op": "perm", "r": y, "n": n})
                names_.append(y)
        if ops:
            sc.append({"kind": "ep", "ops": ops})
    c.conform(sc, "EdgePaths_Trace", "EdgePaths_Trace.cfg", "edge paths", need=("loop", "tobase", "moves", "trivial", "reduce", "inverse", "compose", "perm"),
              ncorrupt=30, weight=lambda evs: sum(len(str(e["ret"])) for e in evs))
