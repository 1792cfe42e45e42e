"""Simplicial complexes as downward closures: every history of attachments."""
from itertools import combinations, product


def start(c):
    c.design("Simplicial", "Simplicial_MC5.cfg", workers=3, timeout=800)


class Cx:
    def __init__(self):
        self.max, self.v = [], set()

    def attach(self, s):
        s = frozenset(s)
        self.v |= s
        if not any(s <= m for m in self.max):
            self.max = [m for m in self.max if not m <= s] + [s]

    def full(self):
        return len(self.max) <= 9


def subsets(xs):
    xs = list(xs)
    return [list(s) for k in range(1, len(xs) + 1) for s in combinations(xs, k)]


def hist(r, depth, nv, top, regs="abc", tail=True):
    ops, cs = [], {}
    big = nv > 12
    top = min(top, nv)
    for q in regs:
        k = r.random()
        cs[q] = Cx()
        if k < .3:
            ops.append({"op": "new", "r": q, "watch": True})
        elif k < .6:
            s = r.sample(range(nv), r.randint(0, nv) if not big else nv)
            for v in s:
                cs[q].attach([v])
            ops.append({"op": "zero", "r": q, "s": s, "watch": cs[q].full()})
        else:
            ss = [r.sample(range(nv), r.randint(1, top)) for _ in range(r.randint(1, 3))]
            for s in ss:
                cs[q].attach(s)
            ops.append({"op": "from", "r": q, "ss": ss, "watch": cs[q].full()})
    for _ in range(depth):
        q = r.choice(regs)
        k = r.random()
        if k < .5 or not cs[q].max:
            s = r.sample(range(nv), r.randint(1, top))
        elif k < .65:   # a face of what is there
            m = list(r.choice(cs[q].max))
            s = r.sample(m, r.randint(1, len(m)))
        elif k < .8:    # a coface of what is there
            m = list(r.choice(cs[q].max))
            s = list(set(m) | set(r.sample(range(nv), 1)))
            if len(s) > top + 1:
                continue
        elif k < .9:
            s = r.sample(sorted(cs[q].v), min(len(cs[q].v), r.randint(1, top)))
        else:
            if cs[q].v:
                ops.append({"op": "chains", "r": q})
            continue
        r.shuffle(s)
        cs[q].attach(s)
        ops.append({"op": "attach", "r": q, "s": s, "watch": cs[q].full()})
    for q in regs:
        if cs[q].v and tail:
            ops.append({"op": "chains", "r": q})
    return ops


def wide(r):
    """few maximal simplices, many vertices: the counts by inclusion and exclusion beyond one word"""
    nv = r.choice([63, 64, 65, 66, 80, 127, 128, 129, 135])
    k = r.randint(2, 8)
    vs = list(range(nv))
    r.shuffle(vs)
    cs, ops = Cx(), []
    n0 = nv - 6 * k
    first = r.random() < .5
    if first:
        # vertices first, so that they all are maximal until they are covered
        ops.append({"op": "zero", "r": "a", "s": vs, "watch": False})
    else:
        ops.append({"op": "new", "r": "a", "watch": True})
    for v in vs[:n0] if not first else []:
        cs.attach([v])
        ops.append({"op": "attach", "r": "a", "s": [v], "watch": False})
    for _ in range(k):
        s = r.sample(vs, r.randint(2, 7))
        cs.attach(s)
        ops.append({"op": "attach", "r": "a", "s": s, "watch": False})
    path = vs[:]
    for a, b in zip(path, path[1:]):
        if r.random() < .97:
            ops.append({"op": "attach", "r": "a", "s": [a, b], "watch": False})
    ops.append({"op": "chains", "r": "a"})
    return ops


def blocks(r):
    """about ten large simplices over more than 64 vertices, counted"""
    nv = r.choice([65, 70, 75])
    vs = list(range(nv))
    r.shuffle(vs)
    w = 9
    bl = [vs[i:i + w] for i in range(0, nv, w)]
    bl = [b + (r.sample(vs, 1) if len(b) < w else []) for b in bl]
    bl = [list(set(b)) for b in bl]
    r.shuffle(bl)
    ops = [{"op": "from", "r": "a", "ss": [bl[0]], "watch": True}]
    for b in bl[1:]:
        ops.append({"op": "attach", "r": "a", "s": b, "watch": True})
    ops.append({"op": "attach", "r": "a", "s": [vs[0], vs[-1]], "watch": True})
    return ops


def growing(r):
    """simplices attached one after another, mostly to what is there; the vertices appear late and lie in many words"""
    vs = list(range(140))
    r.shuffle(vs)
    ops, have, glue = [{"op": "new", "r": "a", "watch": False}], [], r.choice([.5, .9, 1, 1])
    early = r.random() < .5
    apart = [vs.pop() for _ in range(r.randint(1, 5))] if r.random() < .4 else []      # met again at the very end only
    if apart:
        ops.append({"op": "attach", "r": "a", "s": apart, "watch": False})
    while len(have) < r.choice([70, 130, 138]):
        new = [vs.pop() for _ in range(min(len(vs), r.choice([1, 2, 4, 8])))]
        if not new:
            break
        old = []
        if have and r.random() < glue:
            old = [r.choice(have[:3] if early else have)] if r.random() < .8 else r.sample(have, min(len(have), 2))
        if r.random() < .5:
            ops.append({"op": "attach", "r": "a", "s": r.sample(new + old, len(new + old)), "watch": False})
        else:
            for v in new:
                ops.append({"op": "attach", "r": "a", "s": [v] + old, "watch": False})
        have += new
    if apart:
        ops.append({"op": "attach", "r": "a", "s": [r.choice(apart)] + have[-r.randint(1, 3):], "watch": False})
    for _ in range(4):
        ops.append({"op": "attach", "r": "a", "s": r.sample(have, 2), "watch": False})
    return ops


def run(c):
    r, sc = c.rng, []
    subs = subsets(range(3))
    kinds = ["cxs", "cxn"]
    for i, t in enumerate(product(subs, repeat=3)):
        ops = [{"op": "new", "r": "a", "watch": True}] + [{"op": "attach", "r": "a", "s": r.sample(s, len(s)), "watch": True} for s in t]
        sc.append({"kind": kinds[i % 2], "ops": ops + [{"op": "chains", "r": "a"}]})
    for i in range(c.pick(250, 2000)):
        sc.append({"kind": r.choice(kinds), "ops": hist(r, r.randint(5, 25), r.randint(3, 8), r.randint(2, 5))})
    for i in range(c.pick(24, 160)):
        sc.append({"kind": r.choice(kinds), "ops": wide(r)})
    for i in range(c.pick(10, 60)):
        sc.append({"kind": r.choice(kinds), "ops": blocks(r)})
    for i in range(c.pick(40, 200)):
        sc.append({"kind": r.choice(kinds), "ops": growing(r)})
    for i in range(c.pick(8, 60)):
        sc.append({"kind": r.choice(kinds), "ops": hist(r, 25, r.choice([66, 70, 130]), 3, tail=False, regs="a")})
    c.conform(sc, "Simplicial_Trace", "Simplicial_Trace.cfg", "simplicial", need=("new", "zero", "from", "attach", "chains"),
              weight=lambda evs: sum(len(e.get("obs", {}).get("labels", [])) if isinstance(e.get("obs"), dict) else 20 for e in evs))
