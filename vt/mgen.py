"""Multigraphs as lists of pairs of names."""


def names(r, k):
    pool = ["v%d" % i for i in range(k)] if r.random() < .7 else r.sample(["x", "yy", "b", "A", "v10", "v9", "0", "long name", "w1"], min(k, 9))
    r.shuffle(pool)
    return pool[:k]


def connected(ps):
    ns = {x for p in ps for x in p}
    if not ns:
        return False
    seen, todo = set(), [next(iter(ns))]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += [b if a == x else a for a, b in ps if x in (a, b)]
    return seen == ns


def random_graph(r, nv, ne, loops=.15, par=.15):
    """connected: a random tree first, then further edges, in random order"""
    ns = names(r, nv)
    nv = len(ns)
    ps = [[ns[i], ns[r.randrange(i)]] for i in range(1, nv)]
    while len(ps) < max(ne, 1):
        k = r.random()
        if k < loops or nv == 1:
            x = r.choice(ns)
            ps.append([x, x])
        elif k < loops + par and ps:
            ps.append(list(r.choice(ps)))
        else:
            ps.append(r.sample(ns, 2))
    ps = [p if r.random() < .5 else p[::-1] for p in ps]
    r.shuffle(ps)
    return ps


def cycle(r, k):
    ns = names(r, k)
    k = len(ns)
    ps = [[ns[i], ns[(i + 1) % k]] for i in range(k)]
    ps = [p if r.random() < .5 else p[::-1] for p in ps]
    r.shuffle(ps)
    return ps


def subdivide(ps, n):
    """the subdivision for n tokens, in an arbitrary numbering"""
    m = max(n, 2)
    ns = []
    for p in ps:
        for x in p:
            if x not in ns:
                ns.append(x)
    es, k = [], len(ns)
    for a, b in ps:
        a, b, t = ns.index(a), ns.index(b), (m if a == b else max(m - 2, 1))
        ch = [a] + list(range(k, k + t)) + [b]
        k += t
        es += [tuple(sorted(x)) for x in zip(ch, ch[1:])]
    return k, es


def count_cells(nv, es, n, cap=10**6):
    """number of sets of n pairwise disjoint vertices and edges, by number of edges"""
    out = [0] * (n + 1)
    at = {v: [w for u, w in es if u == v] for v in range(nv)}
    tot = [0]

    def go(v, k, d, occ):
        if k == 0:
            out[d] += 1
            tot[0] += 1
            return
        if nv - v < k or tot[0] > cap:
            return
        go(v + 1, k, d, occ)
        if v not in occ:
            go(v + 1, k - 1, d, occ)
            for w in at[v]:
                if w not in occ:
                    go(v + 1, k - 1, d + 1, occ | {w})
    go(0, n, 0, frozenset())
    return out


def dfs_graph(r, nv, extra):
    """a connected simple graph on 0..nv-1 numbered depth first"""
    ns = list(range(nv))
    long = r.random() < .5
    adj = {v: set() for v in ns}
    for v in range(1, nv):
        w = r.randrange(max(0, v - 2), v) if long else r.randrange(v)
        adj[v].add(w)
        adj[w].add(v)
    for _ in range(extra):
        a, b = r.sample(ns, 2) if nv > 1 else (0, 0)
        if a != b:
            adj[a].add(b)
            adj[b].add(a)
    num = {}

    def go(v):
        num[v] = len(num)
        for w in r.sample(sorted(adj[v]), len(adj[v])):
            if w not in num:
                go(w)
    go(r.choice(ns))
    return nv, sorted({tuple(sorted((num[a], num[b]))) for a in ns for b in adj[a]})


def random_cube(r, nv, es, n, pe=.5):
    """n pairwise disjoint factors, sorted, or None"""
    for _ in range(50):
        occ, out = set(), []
        for _ in range(4 * n):
            f = r.choice(es) if es and r.random() < pe else (r.randrange(nv),)
            if not occ & set(f):
                occ |= set(f)
                out.append(list(f))
            if len(out) == n:
                return sorted(out, key=lambda f: f[0])
    return None


def numbered(nv, es):
    """some depth-first numbering"""
    adj = [[] for _ in range(nv)]
    for a, b in es:
        adj[a].append(b)
        adj[b].append(a)
    num, par = {0: 0}, {}
    st = [(0, iter(adj[0]))]
    while st:
        v, it = st[-1]
        for w in it:
            if w not in num:
                num[w] = len(num)
                par[num[w]] = num[v]
                st.append((w, iter(adj[w])))
                break
        else:
            st.pop()
    return nv, sorted({tuple(sorted((num[a], num[b]))) for a, b in es}), par


def count_critical(nv, es, par, n, cap=10**5):
    """number of critical cubes by dimension (those with no active factor), or None when more than cap, and the work done"""
    at = {v: [w for u, w in es if u == v] for v in range(nv)}
    out, work = [0] * (n + 1), [0]

    def settled(c, v):
        return all(not (len(e) == 2 and e[1] < v and par[e[1]] == e[0])
                   or any(len(k) == 1 and e[0] < k[0] < e[1] and par[k[0]] == e[0] for k in c) for e in c)

    def go(v, k, c, occ):
        work[0] += 1
        if work[0] > cap or not settled(c, v if k else nv):
            return
        if k == 0:
            out[sum(len(f) == 2 for f in c)] += 1
            return
        if nv - v < k:
            return
        go(v + 1, k, c, occ)
        if v not in occ:
            if v == 0 or par[v] in occ:
                go(v + 1, k - 1, c + [(v,)], occ | {v})
            for w in at[v]:
                if w not in occ:
                    go(v + 1, k - 1, c + [(v, w)], occ | {v, w})
    go(0, n, [], frozenset())
    return (out if work[0] <= cap else None), work[0]


def big(r, n):
    """a larger graph: a star, a tree, a chain or bouquet of loops, or several edges and cycles"""
    k = r.random()
    m = r.randint(3, 5)
    if k < .2:
        ps = [["c", "l%d" % i] for i in range(m)]
    elif k < .4:
        ps = [["t%d" % r.randrange(max(0, i - r.randint(1, 3)), i), "t%d" % i] for i in range(1, r.randint(4, 7))]
    elif k < .6:
        ps = [["a%d" % i, "a%d" % (i + 1)] for i in range(m - 1)] + [["a%d" % i] * 2 for i in range(m) if r.random() < .8]
    elif k < .75:
        ps = [["o", "o"] for _ in range(r.randint(1, 4))] + [["o", "p%d" % i] for i in range(r.randint(1, 3))]
    else:
        return random_graph(r, r.randint(2, 5), r.randint(3, 7))
    ps = [p if r.random() < .5 else p[::-1] for p in ps]
    r.shuffle(ps)
    return ps
