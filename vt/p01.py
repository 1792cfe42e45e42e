"""Index pools and labelled sets: spec-generated histories plus directed and random ones."""
from . import core
EDGE = [0, 1, 2, 5, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257]


def start(c):
    c.design("Pools", "Pools_MC.cfg")
    c.design("LSets", "LSets_MC.cfg")


def rand_hist(r, depth, maxlen):
    ops, regs, ln = [], ["a", "b", "c"], {}
    size = lambda: r.choice([x for x in EDGE if x <= maxlen] + [r.randint(0, maxlen)])
    for q in regs:
        n = size() if r.random() < .5 else r.choice(list(ln.values()) or [size()])
        if n and r.random() < .6:
            ops.append({"op": "from", "r": q, "n": n, "xs": [r.randrange(n) for _ in range(r.randint(0, n))]})
        else:
            ops.append({"op": "new", "r": q, "n": n})
        ln[q] = n
    for _ in range(depth):
        q, a, b = r.choice(regs), r.choice(regs), r.choice(regs)
        near = lambda: min(max(0, r.choice([r.randint(0, max(ln[q], 1)), ln[q] - 1, ln[q], 63, 64, 65])), 400)
        k = r.random()
        if k < .3:
            ops.append({"op": "add", "r": q, "x": near()})
        elif k < .42:
            ops.append({"op": "remove", "r": q, "x": near()})
        elif k < .5:
            n = size()
            ops.append({"op": "resize", "r": q, "n": n})
            ln[q] = max(ln[q], n)
        elif k < .54:
            ops.append({"op": "fill", "r": q})
        elif k < .6:
            ops.append({"op": "contains", "r": q, "x": near()})
        elif k < .78:
            ops.append({"op": r.choice(["union", "inter"]), "r": q, "a": a, "b": b})
            if ln[a] == ln[b]:
                ln[q] = ln[a]
        elif k < .84:
            ops.append({"op": "copy", "r": q, "a": a})
            ln[q] = ln[a]
        elif k < .94:
            ops.append({"op": "subset", "a": a, "b": b})
        else:
            ops.append({"op": "eq", "a": a, "b": b})
    return {"kind": "pool", "ops": ops}


def directed():
    out = []
    for n in EDGE + [320]:
        for m in [x for x in EDGE if x >= n][:6]:
            ops = [{"op": "new", "r": "a", "n": n}, {"op": "fill", "r": "a"}, {"op": "resize", "r": "a", "n": m},
                   {"op": "new", "r": "b", "n": m}, {"op": "subset", "a": "a", "b": "b"},
                   {"op": "subset", "a": "b", "b": "a"}, {"op": "eq", "a": "a", "b": "b"},
                   {"op": "from", "r": "c", "n": m, "xs": list(range(n))}, {"op": "eq", "a": "a", "b": "c"},
                   {"op": "fill", "r": "b"}, {"op": "subset", "a": "a", "b": "b"}, {"op": "union", "r": "c", "a": "a", "b": "b"},
                   {"op": "inter", "r": "c", "a": "a", "b": "b"}, {"op": "resize", "r": "b", "n": 0}]
            if m:
                ops += [{"op": "add", "r": "a", "x": m - 1}, {"op": "remove", "r": "b", "x": 0},
                        {"op": "add", "r": "a", "x": m}, {"op": "contains", "r": "a", "x": m - 1}]
            out.append({"kind": "pool", "ops": ops})
    # every index of a three-word pool, added and removed one at a time
    for step in (1, 7, 61):
        n = 150
        o = [{"op": "new", "r": "a", "n": n}]
        o += [{"op": "add", "r": "a", "x": (i * step) % n} for i in range(n)]
        o += [{"op": "remove", "r": "a", "x": (i * step) % n} for i in range(0, n, 2)]
        out.append({"kind": "pool", "ops": o})
    return out


def lhist(r, depth):
    names = ["", "a", "b", "ab", "A", "v0", "v1", "label with space", "\u00e9", "10", "1"] + [f"n{i}" for i in range(70)]
    ops = []
    for q in "ab":
        k = r.choice([0, 1, 3, 5, 11, 64, 66])
        ops.append({"op": "lnew", "r": q, "ls": r.sample(names, min(k, len(names)))})
    if r.random() < .5:
        ops[1]["ls"] = list(ops[0]["ls"])
    regs = {q["r"]: q["ls"] for q in ops}
    for _ in range(depth):
        q = r.choice("ab")
        x = r.choice(regs[q]) if regs[q] and r.random() < .85 else r.choice(names)
        k = r.random()
        if k < .5:
            ops.append({"op": "ladd", "r": q, "x": x})
        elif k < .8:
            ops.append({"op": "lremove", "r": q, "x": x})
        elif k < .85:
            a = r.choice("ab")
            ops.append({"op": "lcopy", "r": q, "a": a})
            regs[q] = regs[a]
        else:
            ops.append({"op": "leq", "a": r.choice("ab"), "b": r.choice("ab")})
    return {"kind": "lset", "ops": ops}


def run(c):
    gen = core.generate(c.work, "Pools_Gen", "Pools_Gen.cfg", c.seed, c.pick(120, 1500), 40)
    c.rng.shuffle(gen)
    gen = gen[:c.pick(400, 4000)]
    c.notes["spec_generated_histories"] = len(gen)
    sc = [{"kind": "pool", "ops": h} for h in gen] + directed()
    sc += [rand_hist(c.rng, c.pick(40, 80), m) for m in (5, 64, 66, 130, 260) for _ in range(c.pick(60, 600))]
    c.conform(sc, "Pools_Trace", "Pools_Trace.cfg", "pools",
              need=("new", "from", "add", "add!panic", "remove", "resize", "fill", "contains", "contains!panic", "union",
                    "union!panic", "inter", "copy", "subset", "subset!panic", "eq", "from!panic"),
              only=("contains", "subset", "eq", "add", "remove", "union", "inter"))
    ls = [lhist(c.rng, c.pick(30, 60)) for _ in range(c.pick(200, 2000))]
    c.conform(ls, "LSets_Trace", "LSets_Trace.cfg", "labelled",
              fields=("obs",), need=("ladd", "ladd!panic", "lremove", "lremove!panic", "leq", "lcopy"))
